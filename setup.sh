#!/bin/sh
# Builds the harness once; the checks rebuild incrementally (or from scratch if this is gone).
cd "$(dirname "$0")/harness" && exec cargo build --release --offline --target-dir ../target
