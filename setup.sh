#!/bin/bash
# Builds the only native part: the clock shim that runs the code at the date of the commit.
cd "$(dirname "$0")" || exit 1
gcc -O2 -shared -fPIC -o native/clock.so native/clock.c -ldl && mkdir -p evidence/replays
