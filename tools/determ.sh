#!/bin/bash
# tools/determ.sh ID [runs]: same runs on 1 and on 8 workers must hash the same
cd "$(dirname "$0")/.." || exit 2
n=${2:-20000}
[ -x build/$1.bin ] || bin/check $1 --keep >/dev/null
a=$(build/$1.bin hash --runs $n --workers 1 | sort | md5sum); b=$(build/$1.bin hash --runs $n --workers 8 | sort | md5sum)
[ "$a" = "$b" ] && echo "$1 deterministic over $n runs" || { echo "$1 NOT deterministic"; exit 1; }
