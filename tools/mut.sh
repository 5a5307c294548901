#!/bin/bash
# mut.sh 'FILE' 'sed-expr' ID...   : run checks against a scratch copy of /repo with one edit
# mut.sh patch FILE.diff ID...     : the same with a patch
set -e
M=/tmp/mut; mkdir -p $M; rsync -a --delete --exclude target --exclude .git /repo/ $M/
if [ "$1" = patch ]; then patch -s -p1 -d $M < "$2"; shift 2
else cp "$M/$1" /tmp/mut.before; sed -i -E "$2" "$M/$1"; cmp -s "$M/$1" /tmp/mut.before && { echo "NO CHANGE"; exit 3; }; diff /tmp/mut.before "$M/$1" | head -${DL:-6}; shift 2; fi
for p in "$@"; do VERIF_REPO=$M VERIF_CACHE=/tmp/mutcache /verif/check $p 2>&1 | cut -c1-${W:-220} | tail -${N:-4}; done
