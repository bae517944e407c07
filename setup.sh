#!/bin/bash
# Builds the explorers once (checks rebuild by themselves; this shows that the framework builds).
. "$(dirname "$0")/env.sh"
cd "$(dirname "$0")/harness" && cargo build --release --offline -q && cd pipe && cargo build --release --offline -q && cd ../prove && python3 ../../tools/genlib.py && cargo build --release --offline -q && cd ../ls && python3 ../../tools/genls.py && cargo build --release --offline -q
