#!/bin/bash
# dev helper: build and run one property
cd /verif && BIN=$(python3 sim/build/build.py --prop $1 2>/tmp/b.err) || { grep -E "error|Error" -A3 /tmp/b.err | head -${ERRL:-40}; exit 1; }
mkdir -p /tmp/rp; find /tmp/rp -type f -delete
timeout 1500 $BIN run --prop "$1" --evidence /tmp/e_$1.json --replays /tmp/rp --known KNOWN_FINDINGS.txt "${@:2}"
