#!/bin/bash
# check.sh PROPERTY [quick|thorough]: builds what the check needs from /repo's current tree, then searches.
# Exit 0: the property held on everything explored; 1: violation (a VIOLATION line and a replay file); 2: harness error.
cd "$(dirname "$0")" || exit 2
P=$1
TIER=${2:-${VERIF_TIER:-quick}}
SEED=${VERIF_SEED:-1}
mkdir -p build evidence replays
case $P in
C0[1-8] | C15)
    bash tools/build_rust.sh >build/rust.log 2>&1 || { tail -40 build/rust.log; echo "HARNESS ERROR: the build failed"; exit 2; }
    case $P in
    C01) N=16000 ;; C02) N=8000 ;; C03) N=16000 ;; C04) N=16000 ;;
    C05) N=15000 ;; C06) N=24000 ;; C07) N=9000 ;; C08) N=12000 ;; C15) N=12000 ;;
    esac
    WALL=150
    [ "$TIER" = thorough ] && { N=$((N * 25)); WALL=600; }
    N=${FAMILIES:-$N}
    ARGS=(--property "$P" --seed "$SEED" --workers ${WORKERS:-8} --tier "$TIER" --replays replays)
    build/sim/debug/simdrv check "${ARGS[@]}" --families $N --wall $WALL --evidence "evidence/$P.json" || exit $?
    # further families, on the library as built for release
    build/sim/rel/simdrv check "${ARGS[@]}" --first $N --families $((N / 5)) --wall $((WALL / 4)) --evidence "build/$P.rel.json"
    rc=$?
    python3 tools/merge_evidence.py "evidence/$P.json" "build/$P.rel.json" || exit 2
    exit $rc
    ;;
C09 | C1[0-3])
    bash tools/build_py.sh >build/py.log 2>&1 || { tail -40 build/py.log; echo "HARNESS ERROR: the build failed"; exit 2; }
    case $P in
    C09) N=5000 ;; C10) N=2500 ;; C11) N=3000 ;; C12) N=5000 ;; C13) N=2500 ;;
    esac
    WALL=150
    [ "$TIER" = thorough ] && { N=$((N * 25)); WALL=600; }
    N=${FAMILIES:-$N}
    ARGS=(--property "$P" --seed "$SEED" --workers ${WORKERS:-8} --tier "$TIER" --replays replays)
    bash tools/simpy.sh check "${ARGS[@]}" --families $N --wall $WALL --evidence "evidence/$P.json" || exit $?
    SIMPY_PROFILE=release bash tools/simpy.sh check "${ARGS[@]}" --first $N --families $((N / 5)) --wall $((WALL / 4)) --evidence "build/$P.rel.json" \
        | grep -v "^KNOWN-FINDING"
    rc=${PIPESTATUS[0]}
    python3 tools/merge_evidence.py "evidence/$P.json" "build/$P.rel.json" || exit 2
    exit $rc
    ;;
C14)
    N=450 WALL=150
    [ "$TIER" = thorough ] && { N=$((N * 25)); WALL=600; }
    exec bash tools/simgen.sh check --seed "$SEED" --families ${FAMILIES:-$N} --wall $WALL --tier "$TIER" --evidence "evidence/$P.json" --replays replays
    ;;
*)
    echo "no such check: $P"
    exit 2
    ;;
esac
