#!/bin/bash
# usage: catch.sh [ID...]   Does the check of its property catch each planted bug?
cd "$(dirname "$0")/.."
for id in "${@:-$(ls seeded)}"; do for i in $id; do
    p=$(python3 -c "import json,sys; print(json.load(open('seeded/$i/meta.json'))['property'])")
    WIDTH=${WIDTH:-160} bash tools/trial.sh "$PWD/seeded/$i/patch.diff" "$p" $EXTRA | sed "s#$PWD/seeded/##"
done; done
