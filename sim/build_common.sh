# Sourced by the build scripts: build_sim <crate dir> <cargo args...>
# Rebuilds from /repo's working tree judged by content, not by time stamps.
export HOME="${HOME:-/root}" PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET CARGO_INCREMENTAL
build_sim() {
  local dir="$1" log stamp now rc
  shift
  cd "$dir" || return 1
  log="$(mktemp)"
  stamp="$dir/target/.repo-content"
  now="$(cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)"
  if [ -d "$dir/target" ] && [ "$(cat "$stamp" 2>/dev/null)" != "$now" ]; then
    rm -f "$stamp"
    for p in metriken metriken-core metriken-derive metriken-exposition; do
      cargo clean --offline --quiet -p "$p" "$@" >/dev/null 2>&1
    done
  fi
  cargo build --offline --quiet "$@" >"$log" 2>&1
  rc=$?
  if [ $rc -eq 0 ]; then
    echo "$now" >"$stamp"
  else
    grep -E '^error' -A 12 "$log" || cat "$log"
  fi
  rm -f "$log"
  return $rc
}
