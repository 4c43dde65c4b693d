# Sourced by setup.sh and check.sh. Everything is built under /verif/build.
VERIF="$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)"
REPO="${VERIF_REPO:-/repo}"
BUILD="$VERIF/build"
export HOME="${HOME:-/root}" LANG="${LANG:-C.UTF-8}"
export PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset CARGO_TARGET_DIR CARGO_ENCODED_RUSTFLAGS RUSTFLAGS CARGO_BUILD_TARGET
# The binary under observation: the dev profile (overflow checks, debug
# assertions), optimised so that a run costs milliseconds.
export CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0 CARGO_PROFILE_DEV_OPT_LEVEL=1
OPT_DEPS='profile.dev.package."*".opt-level=3'
mkdir -p "$BUILD"

# A digest of everything the build of /repo depends on.
repo_stamp() {
  (cd "$REPO" && { cat Cargo.toml Cargo.lock; find crates -type f \( -name '*.rs' -o -name 'Cargo.toml' -o -name '*.md' \) -not -path '*/target/*' -print0 |
    LC_ALL=C sort -z | xargs -0 sha256sum; } | sha256sum | cut -d' ' -f1)
}

# Builds the binary from /repo's working tree, unless it is there already.
build_repo() {
  local want have
  want="$(repo_stamp)"
  have="$(cat "$BUILD/repo.stamp" 2>/dev/null)"
  if [ "$want" != "$have" ] || [ ! -x "$BUILD/repo/debug/bulloak" ]; then
    rm -f "$BUILD/repo.stamp"
    # Modification times mean nothing across copies of the tree.
    rm -rf "$BUILD"/repo/debug/.fingerprint/bulloak-*
    RUSTC_WRAPPER="$VERIF/bin/rustc-wrapper.sh" cargo build --offline --locked --config "$OPT_DEPS" \
      --manifest-path "$REPO/Cargo.toml" -p bulloak --target-dir "$BUILD/repo" >"$BUILD/repo.log" 2>&1 || return 1
    echo "$want" >"$BUILD/repo.stamp"
  fi
}

# The same program with AddressSanitizer, which sees the unsafe code of the
# dependencies. The stable toolchain ships its run-time; only the flag is unstable.
build_asan() {
  local want have t=x86_64-unknown-linux-gnu
  want="$(repo_stamp)"
  have="$(cat "$BUILD/asan.stamp" 2>/dev/null)"
  if [ "$want" != "$have" ] || [ ! -x "$BUILD/asan/$t/debug/bulloak" ]; then
    rm -f "$BUILD/asan.stamp"
    rm -rf "$BUILD"/asan/$t/debug/.fingerprint/bulloak-*
    RUSTC_BOOTSTRAP=1 RUSTFLAGS="-Zsanitizer=address -Cforce-frame-pointers=yes" \
      RUSTC_WRAPPER="$VERIF/bin/rustc-wrapper.sh" cargo build --offline --locked --target $t \
      --manifest-path "$REPO/Cargo.toml" -p bulloak --target-dir "$BUILD/asan" >"$BUILD/asan.log" 2>&1 || return 1
    echo "$want" >"$BUILD/asan.stamp"
  fi
}

build_driver() {
  local want have
  want="$(cat "$VERIF"/driver/Cargo.toml "$VERIF"/driver/src/*.rs "$VERIF"/shim/*.c 2>/dev/null | sha256sum | cut -d' ' -f1)"
  have="$(cat "$BUILD/driver.stamp" 2>/dev/null)"
  if [ "$want" != "$have" ] || [ ! -x "$BUILD/driver/release/bulloak-monitor" ]; then
    rm -f "$BUILD/driver.stamp"
    rm -rf "$BUILD"/driver/release/.fingerprint/bulloak-monitor-*
    env -u RUSTC_WRAPPER cargo build --release --offline --manifest-path "$VERIF/driver/Cargo.toml" \
      --target-dir "$BUILD/driver" >"$BUILD/driver.log" 2>&1 || return 1
    if ls "$VERIF"/shim/*.c >/dev/null 2>&1; then
      gcc -O1 -shared -fPIC -o "$BUILD/shim.so" "$VERIF"/shim/shim.c -ldl >"$BUILD/shim.log" 2>&1 || return 1
    fi
    echo "$want" >"$BUILD/driver.stamp"
  fi
}

# Builds the program that prints what the syntax library makes of specs.
build_probe() {
  local want have
  want="$( (repo_stamp; cat "$VERIF"/probe/Cargo.* "$VERIF"/probe/src/*.rs) | sha256sum | cut -d' ' -f1)"
  have="$(cat "$BUILD/probe.stamp" 2>/dev/null)"
  if [ "$want" != "$have" ] || [ ! -x "$BUILD/probe/debug/bulloak-probe" ]; then
    rm -f "$BUILD/probe.stamp"
    rm -rf "$BUILD"/probe/debug/.fingerprint/bulloak-*
    env -u RUSTC_WRAPPER cargo build --offline --locked --manifest-path "$VERIF/probe/Cargo.toml" \
      --target-dir "$BUILD/probe" >"$BUILD/probe.log" 2>&1 || return 1
    echo "$want" >"$BUILD/probe.stamp"
  fi
}
