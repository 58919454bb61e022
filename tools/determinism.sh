#!/bin/bash
# determinism.sh PROPERTY...: runs each check twice (other worker counts) and compares the digest over all schedules and answers. For developing.
cd "$(dirname "$0")/.." || exit 2
for p in "$@"; do
    d=
    for w in 8 5; do
        WORKERS=$w bash check.sh "$p" quick >/dev/null || echo "$p: exit $?"
        d="$d $(python3 -c "import json; c = json.load(open('evidence/$p.json'))['coverage']; print(c['digest_of_schedules_and_answers'], c['evaluations'])")"
    done
    read -r a b c e <<<"$d"
    [ "$a $b" = "$c $e" ] && echo "$p: the same: $a over $b runs" || echo "$p: DIFFERENT:$d"
done
