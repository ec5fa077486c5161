#!/bin/bash
# every check, two at a time; summary lines
cd "$(dirname "$0")/.."
ls contracts/C??.py | sed 's/.*\(C..\).py/\1/' | grep -v "${SKIP:-none}" | VERIF_JOBS=4 xargs -P 2 -I{} sh -c './run {} > /tmp/all.{}.log 2>&1; echo "rc=$? $(tail -1 /tmp/all.{}.log)"'
