#!/bin/bash
# Build the I/O simulator from /repo's working tree.
here="$(cd "$(dirname "$0")" && pwd)"
. "$here/build_common.sh"
unset RUSTC_WRAPPER RUSTC_BOOTSTRAP
build_sim "$here/io"
