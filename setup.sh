#!/bin/bash
# Build the harness (and with it the libraries of /repo) offline.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
. "$here/env.sh"
cd "$here/harness" || exit 2
mkdir -p target
if ! cargo build --release --offline --locked >target/build.log 2>&1; then
    grep -E "^error" -A 12 target/build.log | head -80 >&2
    echo "ERROR: the harness does not build against /repo" >&2
    exit 2
fi
