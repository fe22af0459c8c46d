#!/bin/bash
# For each "fixed:" line of known_findings.txt (or those matching $1): undo that
# repair in a scratch copy, and see whether the property's check reports it.
S=$(mktemp -d /tmp/revert.XXXXXX)
git clone -q /repo $S/repo || exit 2
cp -a /repo/data $S/repo/ 2>/dev/null
grep '^fixed:' "$(dirname "$0")/../known_findings.txt" | grep -e "${1:-.}" | while read -r _ p h what; do
    p=${p#property=}
    cd $S/repo; git reset -q --hard; 
    if ! git revert -n $h >/dev/null 2>&1; then
        git reset -q --hard
        git revert -n -X theirs $h > /dev/null 2>&1 || { echo "CONFLICT $p $h $what"; git reset -q --hard; git revert --abort 2>/dev/null; continue; }
        git revert --quit 2>/dev/null
        echo "(merged) $h"
    fi
    out=$(VERIF_REPO=$S/repo "$OLDPWD"/check $p </dev/null 2>&1); rc=$?
    echo "rc=$rc $p $h $what"
    [ $rc = 1 ] || echo "$out" | tail -5
    cd "$OLDPWD"
done
rm -rf "$S"
