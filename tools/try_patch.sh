#!/bin/bash
# try_patch.sh PATCH PROPERTY... : applies PATCH to a scratch copy of /repo next to a scratch copy of /verif
# and runs the quick checks there. For developing; not used by any check.
P=$(realpath "$1"); shift
T=$(mktemp -d /tmp/try.XXXXXX)
trap 'rm -rf -- "$T"' EXIT
mkdir "$T/verif"
(cd /verif && tar cf - --exclude=./build --exclude=./.git --exclude=./evidence --exclude=./replays --exclude=./seeded .) | tar xf - -C "$T/verif"
(cd /repo && tar cf - --exclude=./target --exclude=./.git .) | (mkdir "$T/repo" && tar xf - -C "$T/repo")
[ "${NOBUILDCOPY:-}" ] || { mkdir -p "$T/verif/build"; cp -a /verif/build/. "$T/verif/build/" 2>/dev/null; }
(cd "$T/repo" && git init -q . 2>/dev/null; git apply "$P") || { echo "PATCH DOES NOT APPLY"; exit 3; }
cd "$T/verif" || exit 3
for p in "$@"; do
    out=$(VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 bash check.sh "$p" 2>&1); rc=$?
    echo "== $(basename "$(dirname "$P")")/$(basename "$P") $p rc=$rc"
    echo "$out" | grep -vE "^\s*(Compiling|Finished|warning)" | tail -${TAIL:-6} | cut -c1-400
    [ "${SHOW:-}" ] && cat replays/*.json | head -c 6000
done
exit 0
