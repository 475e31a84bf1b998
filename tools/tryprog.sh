#!/bin/bash
# tryprog.sh file.cpp [libs]: compile against /repo/_build and run, with ASan
f=$(realpath "$1"); cd /repo
inc=""; for d in src/libs/conduit src/libs/blueprint src/libs/relay; do inc="$inc -I$PWD/$d"; done
for d in $(find "$PWD/_build" -name 'conduit*config.h' -o -name 'conduit*exports.h' -o -name 'conduit_bitwidth_style_types.h' | xargs -n1 dirname | sort -u); do inc="$inc -I$d"; done
g++ -std=c++14 -O0 -g -w $SAN $inc "$f" -o /tmp/tryprog.exe -L_build/lib ${2:--lconduit} -Wl,-rpath,"$PWD/_build/lib" && /tmp/tryprog.exe
