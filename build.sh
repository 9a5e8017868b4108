# Sourced: build the harness, the command-line utility or the fuzz target.
root=$PWD
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUST_BACKTRACE=0
export CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTDOCFLAGS RUSTC_WRAPPER RUSTC_WORKSPACE_WRAPPER RUSTC
unset CARGO_BUILD_TARGET CARGO_TARGET_DIR CARGO_PROFILE_DEV_DEBUG RUST_LOG
mkdir -p "$root/target" || exit 2

# Cargo judges sources by mtime, so a file put back with an old mtime would be
# missed: forget the members' fingerprints, so that they are compiled anew.
forget() {
    [ -d "$1/.fingerprint" ] || return 0
    find "$1/.fingerprint" -mindepth 1 -maxdepth 1 \
        \( -name 'gift-*' -o -name 'gv-*' \) -exec rm -rf {} +
}

build() {
    local log=$root/target/build-$1.log
    (
        flock 9
        case $1 in
        gv)
            forget "$root/target/gv/release"
            cargo build --release --offline --manifest-path "$root/harness/Cargo.toml" \
                --target-dir "$root/target/gv"
            ;;
        cli)
            forget "$root/target/cli/debug"
            cargo build --locked --offline --manifest-path /repo/Cargo.toml -p gift-bin \
                --target-dir "$root/target/cli"
            ;;
        fuzz)
            forget "$root/target/fuzz/x86_64-unknown-linux-gnu/release"
            cd "$root/fuzz" &&
                RUSTUP_TOOLCHAIN=nightly cargo fuzz build --sanitizer none --fuzz-dir "$root/fuzz" \
                    --target-dir "$root/target/fuzz" tape
            ;;
        esac
    ) 9>"$root/target/lock" >"$log" 2>&1
    local rc=$?
    if [ $rc -ne 0 ]; then
        echo "build of $1 failed:" >&2
        tail -40 "$log" >&2
    fi
    return $rc
}
