#!/bin/bash
# mut.sh ID FILE SED-EXPRESSION [MULT]: runs the check of ID against a copy of /repo with one edit
d=$(mktemp -d /tmp/mut.XXXXXX)
cp /repo/*.hh $d/
sed -i "$3" $d/$2
if cmp -s $d/$2 /repo/$2; then echo "NO CHANGE: $3"; rm -rf $d; exit 9; fi
VERIF_OUT=$d VERIF_REPO=$d VERIF_MULT=${4:-1} python3 /verif/run.py check $1 | grep -v "^C.. quick" | cut -c1-300
echo "$1 $2 '$3' -> ${PIPESTATUS[0]}"
rm -rf $d
