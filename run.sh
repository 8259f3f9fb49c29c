#!/bin/bash
# Entry point of every check.
#   run.sh setup            build both simulator binaries
#   run.sh check <id>       build from /repo's working tree, explore, write evidence/<id>.json
#   run.sh replay <file>    re-execute a replay file (exit 1 if it reproduces the violation)
#   run.sh trace <id> <n>   print the event log of run n
# exit 0: held; exit 1: VIOLATION line printed; exit 2: harness or build error (no verdict).
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export EDSIM_VERIF="$here"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR RUSTC_WRAPPER
unset EDSIM_REEXEC

kind_of() { case "$1" in C07|C08|C12) echo sched;; *) echo fast;; esac; }

build() { # kind
  local kind="$1" dir="$here/target/$1" stamp hash
  mkdir -p "$dir"
  exec 9>"$dir/.lock"; flock 9
  # cargo decides by mtime; decide by content instead
  hash="$(cd /repo && { cat Cargo.toml; find src build.rs -type f 2>/dev/null | LC_ALL=C sort | xargs sha256sum; } | sha256sum)"
  stamp="$dir/.repo-hash"
  if [ -d "$dir/release" ] && [ "$(cat "$stamp" 2>/dev/null)" != "$hash" ]; then
    (cd "$here/sim" && cargo clean --release --offline --target-dir "$dir" -p libgoldilocks >/dev/null 2>&1)
  fi
  if [ "$kind" = sched ]; then export RUSTC_WRAPPER="$here/sim/rustc-wrap.sh"; else unset RUSTC_WRAPPER; fi
  if ! (cd "$here/sim" && cargo build --release --offline --target-dir "$dir" >"$dir/build.log" 2>&1); then
    echo "build error ($kind):" >&2; grep -E '^error' -A12 "$dir/build.log" >&2 | head -60
    return 1
  fi
  echo "$hash" >"$stamp"
  unset RUSTC_WRAPPER
  exec 9>&-
}

case "${1:-}" in
  setup) build fast && build sched || exit 2 ;;
  check|trace)
    k="$(kind_of "$2")"; build "$k" || exit 2
    [ "$1" = trace ] && { exec "$here/target/$k/release/edsim" run "$2" "$3"; }
    "$here/target/$k/release/edsim" check "$2"; rc=$?
    case $rc in 0|1) exit $rc;; *) exit 2;; esac ;;
  replay)
    id="$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$2")" || exit 2
    k="$(kind_of "$id")"; build "$k" || exit 2
    exec "$here/target/$k/release/edsim" replay "$2" ;;
  *) echo "usage: run.sh setup | check <id> | replay <file> | trace <id> <run>" >&2; exit 2 ;;
esac
