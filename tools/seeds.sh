#!/bin/bash
# For each planted bug (those of /verif/seeded named on the command line, or
# all): in a scratch copy, run its demonstration without and with the change,
# the repository's tests with it, and the check of its property (QUICK=all:
# every check). VERIF_REPO makes the checks look at the copy.
V=$(cd "$(dirname "$0")/.." && pwd)
names=${*:-$(ls "$V/seeded")}
one() {
    id=$1; S=$(mktemp -d /tmp/seed.XXXXXX); d=$V/seeded/$id
    git clone -q /repo "$S/repo"; cp -a /repo/data "$S/repo/" 2>/dev/null
    cp -r "$d" "$S/d"; rm -f "$S"/d/*.diff "$S/d/meta.json"
    cd "$S/repo"
    bash "$S/d/demo.sh" >"$S/o0" 2>&1; c=$?
    if ! git apply "$d/patch.diff"; then echo "$id: patch does not apply"; rm -rf "$S"; return; fi
    bash "$S/d/demo.sh" >"$S/o1" 2>&1; b=$?
    t=$(PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH="$PWD" /opt/venv/bin/python -m pytest -q tests 2>&1 | tail -1)
    p=$(/opt/venv/bin/python -c "import json;print(json.load(open('$d/meta.json'))['property'])")
    res=
    for q in ${CHECKS:-$p}; do
        out=$(VERIF_REPO=$S/repo VERIF_SEED=1 VERIF_TIER=quick timeout 900 "$V/check" $q </dev/null 2>&1); rc=$?
        if [ $rc = 1 ] && echo "$out" | grep -q "VIOLATION property=$q"; then res="$res $q:caught"
        elif [ $rc = 0 ]; then [ $q = $p ] && res="$res $q:MISSED"
        else res="$res $q:rc=$rc"; fi
    done
    echo "$id demo(clean)=$c demo(bug)=$b tests[$t]$res"
    [ $c = 0 ] || tail -3 "$S/o0"
    [ -n "$SHOW" ] && tail -2 "$S/o1"
    rm -rf "$S"
}
export -f one; export V SHOW CHECKS
printf '%s\n' $names | xargs -P "${JOBS:-6}" -I{} bash -c 'one {}'
