#!/bin/bash
# Builds the dependencies once; every check builds its own harness binary from /repo's working tree.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
. "$here/env.sh"
mkdir -p "$here/target/bin" "$here/evidence"
cargo build --offline --locked --quiet --manifest-path "$here/harness/Cargo.toml" --target-dir "$here/target/std" || exit 1
