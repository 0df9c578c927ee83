#!/bin/bash
# Build the concurrency simulator from /repo's working tree.
here="$(cd "$(dirname "$0")" && pwd)"
. "$here/build_common.sh"
export RUSTC_BOOTSTRAP=1 RUSTC_WRAPPER="$here/wrap.sh"
build_sim "$here/conc" --target x86_64-unknown-linux-gnu
