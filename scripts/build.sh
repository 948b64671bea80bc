#!/bin/bash
# Builds the monitors against /repo's current working tree; prints the path of the binary.
# usage: build.sh [tsan]   tsan: the build that ThreadSanitizer watches
export HOME="${HOME:-/root}"
export PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTUP_AUTO_INSTALL=0
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
unset CARGO_TARGET_DIR CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
here=$(cd "$(dirname "$0")/.." && pwd)
repo=/repo
cd "$here/harness" || exit 2
mkdir -p target
exec 9> target/.lock
flock 9

# Cargo decides by modification times, which say nothing in a copied or restored tree: when the
# contents differ from those of the last build, forget what was built from them.
hash=$(cd "$repo" && find Cargo.toml kzg fri plonk nova -type f \( -name '*.rs' -o -name '*.toml' \) \
  -not -path '*/target/*' -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
mine=$(find . -path ./target -prune -o -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)

# Runs cargo for a build directory, forgetting first what was built from other sources
build() { # name flags binary cargo-arguments...
  local dir="target/$1" flags="$2" binary="$3"
  shift 3
  mkdir -p "$dir"
  if [ "$(cat "$dir/.sources" 2>/dev/null)" != "$hash $mine" ]; then
    if [ -e "$dir/.built" ]; then
      CARGO_TARGET_DIR="$dir" cargo clean --release "${clean[@]}" -p kzg -p fri -p plonk -p nova -p zkmon > /dev/null 2>&1 \
        || rm -rf "${here:?}/harness/$dir"
      mkdir -p "$dir"
    fi
    rm -f "$dir/.sources"
  fi
  touch "$dir/.built"
  CARGO_TARGET_DIR="$dir" RUSTFLAGS="$flags" timeout 800 cargo "$@" --release --locked --offline > "$dir/build.log" 2>&1 || return 1
  echo "$hash $mine" > "$dir/.sources"
  echo "$here/harness/$dir/$binary"
}

clean=()
if [ "$1" = tsan ]; then
  # the standard library is built again, so that its synchronisation is seen
  export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu
  triple=x86_64-unknown-linux-gnu
  clean=(--target $triple)
  build tsan "-Zsanitizer=thread -Cunsafe-allow-abi-mismatch=sanitizer -A warnings" $triple/release/zkmon \
    build --target $triple -Zbuild-std
  exit $?
fi
if build hooked "--cfg zkp_monitor -A warnings" release/zkmon build; then exit 0; fi
# The hook may not fit a changed tree: everything but the direct Merkle tree checks works without it
if build plain "-A warnings" release/zkmon build; then exit 0; fi
tail -40 target/plain/build.log >&2
exit 2
