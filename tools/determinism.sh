#!/bin/bash
# The same cases under different numbers of engine workers have the same event hashes.
cd "$(dirname "$0")/.."; d=$(mktemp -d)
for c in 01 02 03 04 05 06 07 08 09 10 11 12 13; do
  for w in 8 3; do /opt/venv/bin/python check.py C$c --runs ${1:-24} --seed 9 --workers $w --hashes $d/h$w > /dev/null 2>&1; done
  cmp -s $d/h8 $d/h3 && echo "C$c same" || echo "C$c DIFFERENT"
done
rm -rf "$d"
