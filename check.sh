#!/bin/bash
# bash check.sh build            build the simulator against /repo's working tree
# bash check.sh check C01        run a property's simulations (VERIF_SEED, VERIF_TIER)
# bash check.sh replay FILE      run a replay file again
# bash check.sh selftest [N]     determinism of the simulator
set -u
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export VERIF_DIR="$here"
cd "$here/sim" || exit 3
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never

# what was last built is known by content: file times may say anything after a checkout
sum="$(cd /repo && { cat Cargo.toml; find src -type f -print0 | sort -z | xargs -0 sha256sum; } | sha256sum)"
built() { # built DIR
  local dir="$here/sim/$1" d log
  if [ "$(cat "$dir/repo.sum" 2>/dev/null)" != "$sum" ]; then
    for d in "$dir"/release/.fingerprint/quadtree-*; do
      [ -d "$d" ] && rm -rf "$d"
    done
  fi
  if ! log="$(cargo build --release --offline --locked --target-dir "$dir" 2>&1)"; then
    printf '%s\n' "$log" >&2
    return 1
  fi
  printf '%s\n' "$sum" > "$dir/repo.sum"
}
if ! built target; then
  echo "HARNESS-ERROR the simulator does not build against /repo" >&2
  exit 3
fi
# the same once more, with preemption inside the library
case "${1:-} ${2:-}" in
  "build "*|"check C08"|"replay "*|"selftest "*)
    if ! RUSTC_WRAPPER="$here/sim/instrument.sh" built target/fine; then
      echo "HARNESS-ERROR the instrumented simulator does not build against /repo" >&2
      exit 3
    fi;;
esac
[ "${1:-}" = build ] && exit 0
case "${1:-}" in
  replay) f="${2:-}"; case "$f" in /*) ;; *) f="$OLDPWD/$f";; esac; exec ./target/release/qtsim replay "$f";;
  *) exec ./target/release/qtsim "$@";;
esac
