#!/bin/bash
# Builds, from /repo's current working tree, librexpat.so and xmlwf, and then the explorer.
# Everything is written below /verif/build (git-ignored).  Sources are copied by content, so that a
# change in what /repo contains is always rebuilt, whatever its timestamps say.
set -e
V=$(cd "$(dirname "$0")" && pwd)
REPO=${REPO:-/repo}
B=$V/build
mkdir -p "$B"
exec 9>"$B/.lock"; flock 9
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
unset CARGO_BUILD_TARGET RUSTFLAGS RUSTC CARGO_HOME RUSTC_WRAPPER
S=$B/shadow
mkdir -p "$S/.cargo" "$S/src"

# put NEW's contents in FILE only when they differ
put() { if cmp -s "$1.new" "$1"; then rm -f "$1.new"; else mv -f "$1.new" "$1"; fi; }
# mirror /repo/src into the shadow by content
( cd "$REPO/src" && find . -type f -print0 ) | while IFS= read -r -d '' f; do
    if ! cmp -s "$REPO/src/$f" "$S/src/$f"; then
        mkdir -p "$S/src/$(dirname "$f")"; cat "$REPO/src/$f" > "$S/src/$f"
    fi
done
( cd "$S/src" && find . -type f -print0 ) | while IFS= read -r -d '' f; do
    [ -f "$REPO/src/$f" ] || rm -f "$S/src/$f"
done
# the manifest without the optional wchar crate (an empty submodule) and with our profile
{
    sed -E '/^wchar[[:space:]]*=/d; s/^(unicode_wchar_t[[:space:]]*=).*/\1 []/' "$REPO/Cargo.toml" | sed -E '/^\[profile/,/^$/d'
    printf '\n[profile.dev]\nopt-level = 2\ndebug = 1\ndebug-assertions = true\noverflow-checks = true\npanic = "abort"\nincremental = false\ncodegen-units = 8\n'
} > "$S/Cargo.toml.new" && put "$S/Cargo.toml"
[ -f "$S/Cargo.lock" ] || cp /opt/vp/Cargo.lock.rexpat "$S/Cargo.lock"
printf '[source.crates-io]\nreplace-with = "vendored"\n[source.vendored]\ndirectory = "/opt/vp/vendor"\n' > "$S/.cargo/config.new" && put "$S/.cargo/config"
( cd "$S" && RUSTUP_TOOLCHAIN=nightly-2020-07-27 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$B/target" CARGO_TERM_COLOR=never \
    cargo build --offline --lib --bin xmlwf > "$B/rexpat-build.log" 2>&1 ) || { echo "ERROR: /repo does not build" >&2; tail -40 "$B/rexpat-build.log" >&2; exit 3; }

# the explorer (stable Rust, no dependencies) and its interposing allocator (C)
H=$V/harness
stamp=$(cat "$H"/src/*.rs "$H"/src/alloc.c "$0" | sha256sum)
if [ ! -x "$B/explorer" ] || [ "$(cat "$B/explorer.stamp" 2>/dev/null)" != "$stamp" ]; then
    gcc -O2 -g -fno-builtin -Wall -c "$H/src/alloc.c" -o "$B/alloc.o"
    RUSTUP_TOOLCHAIN=stable rustc --edition 2021 -C opt-level=3 -C debuginfo=1 -C panic=abort -C codegen-units=8 \
        -C link-arg="$B/alloc.o" -C link-arg=-rdynamic -l dl "$H/src/main.rs" -o "$B/explorer" > "$B/explorer-build.log" 2>&1 \
        || { echo "ERROR: explorer does not build" >&2; grep -E '^error' -A12 "$B/explorer-build.log" | head -80 >&2; exit 3; }
    echo "$stamp" > "$B/explorer.stamp"
fi
