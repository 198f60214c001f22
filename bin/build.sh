#!/bin/bash
# Builds everything the checks need from /repo's current working tree.  Offline, into /verif/target.
set -e
V=/verif
export PATH="$PATH:/root/.cargo/bin"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET CARGO_TARGET_DIR
for v in ${!CARGO_PROFILE_*}; do unset "$v"; done
T=$V/target
mkdir -p "$T"
export SIMRT_LIB=$T/libsimrt.so
exec 9>"$T/.lock"; flock 9
if [ ! -e "$SIMRT_LIB" ] || [ $V/simrt/simrt.c -nt "$SIMRT_LIB" ] || [ $V/simrt/simrt.h -nt "$SIMRT_LIB" ]; then
  gcc -O2 -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0 -Wall -Wno-nonnull-compare -ftls-model=initial-exec -fPIC -shared \
    -fvisibility=hidden -fno-builtin-malloc -o "$SIMRT_LIB.tmp" $V/simrt/simrt.c -ldl
  mv "$SIMRT_LIB.tmp" "$SIMRT_LIB"
fi
# Cargo compares modification times; compare contents as well, so that a tree whose files carry old
# time stamps is never mistaken for the one built before.
H=$( (cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f -print0 | sort -z | xargs -0 sha256sum; sha256sum $V/bin/rustc-wrap) | sha256sum | cut -c1-40)
if [ "$(cat "$T/.srchash" 2>/dev/null)" != "$H" ]; then
  find "$T" -maxdepth 4 -type d -path '*/.fingerprint/texpresso*' -prune -exec rm -rf {} +
  rm -f "$T/.srchash"
fi
export RUSTC_WRAPPER=$V/bin/rustc-wrap
case "${1:-all}" in
  vsim|all) cargo build --release --quiet --offline --manifest-path $V/vsim/Cargo.toml --target-dir $T/vsim ;;
esac
case "${1:-all}" in
  cli|all)
    CARGO_PROFILE_RELEASE_OPT_LEVEL=2 CARGO_PROFILE_RELEASE_DEBUG=line-tables-only \
    cargo build --release --quiet --offline --manifest-path /repo/Cargo.toml -p texpresso_cli --target-dir $T/cli ;;
esac
if [ "${1:-all}" = all ]; then echo "$H" > "$T/.srchash"; fi
