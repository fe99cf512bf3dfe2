#!/bin/bash
# usage: trial.sh <patch file | revert:COMMIT> CHECK...   Run checks against a scratch copy of /repo with a change.
set -u
what=$1; shift
d=$(mktemp -d /tmp/trial-XXXXXX)
cp -a "${SRC:-/repo}" "$d/repo"; mkdir "$d/verif"
V=$(dirname "$(dirname "$(readlink -f "$0")")")
cp -a "$V"/run.py "$V"/run.sh "$V"/vlib "$V"/checks "$V"/known_findings.txt "$d/verif/"
cd "$d/repo" || exit 2
if [ "${what#revert:}" != "$what" ]; then
    git revert -n "${what#revert:}" >/dev/null 2>&1 || { echo "$what: does not revert"; rm -rf "$d"; exit 2; }
else
    git apply "$what" || { echo "$what: does not apply"; rm -rf "$d"; exit 2; }
fi
for c in "$@"; do
    out=$(VERIF_REPO="$d/repo" bash "$d/verif/run.sh" "$c" --tier "${TIER:-quick}" --seed "${SEED:-1}" 2>&1); rc=$?
    echo "$what $c rc=$rc $(echo "$out" | head -1 | cut -c1-${WIDTH:-220})"
done
rm -rf "$d"
