#!/bin/bash
# run several checks one after another, terse
cd /verif
for i in "$@"; do echo "== $i"; timeout 900 ./check $i -v ${EXTRA} 2>/tmp/$i.err | cut -c1-400 | tail -${N:-14}; done
