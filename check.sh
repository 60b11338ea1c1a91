#!/bin/bash
# usage: check.sh build | check.sh <property> [quick|thorough]
# Builds the explorer against /repo's current working tree, then checks one property.
here=$(cd "$(dirname "$0")" && pwd)
cd "$here/mc" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$here/mc/target" CARGO_INCREMENTAL=1
unset RUSTFLAGS RUSTC_WRAPPER
mkdir -p target
(
  flock 9
  # Cargo decides by modification times; decide by content instead.
  now=$( (cd /repo && find crates Cargo.* -type f -not -path '*/target/*' -print0 | sort -z | xargs -0 sha256sum
    cd "$here/mc" && find src vendor Cargo.* .cargo -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum)
  if [ "$now" != "$(cat target/built.hash 2>/dev/null)" ] || [ ! -x target/debug/astro-mc ]; then
    rm -f "$here/mc/target/built.hash"
    for d in "$here"/mc/target/debug/.fingerprint/astro-*; do
      [ -d "$d" ] && rm -rf "$d"
    done
    cargo build --offline -q 2> target/build.log || { cat target/build.log >&2; exit 2; }
    # The protocol crate's build script rewrites a source file: what it has written is what counts.
    now=$( (cd /repo && find crates Cargo.* -type f -not -path '*/target/*' -print0 | sort -z | xargs -0 sha256sum
      cd "$here/mc" && find src vendor Cargo.* .cargo -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum)
    echo "$now" > target/built.hash
  fi
) 9> target/build.lock || exit 2
[ "$1" = build ] && exit 0
exec "$here/mc/target/debug/astro-mc" check "$@"
