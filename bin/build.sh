#!/bin/bash
# Builds the checker and the contracts' wasm from /repo's current working tree.
#   build.sh [CONTRACT_DIR...]   (default: all)
# Everything is written under /verif/target (ignored by git); /repo is only read.
set -u
V=$(cd "$(dirname "$0")/.." && pwd)
T=$V/target
WS=$T/ws
OUT=$T/wasm
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
. "$V/mc/env.sh"
export CARGO_TERM_COLOR=never RUST_BACKTRACE=0
unset CARGO_TARGET_DIR RUSTFLAGS CARGO_BUILD_TARGET 2>/dev/null
mkdir -p "$WS" "$OUT"
exec 9>"$T/.lock"; flock 9
say() { echo "build.sh: $*" >&2; }
quiet() { "$@" >"$T/build.log" 2>&1 || { tail -40 "$T/build.log" >&2; return 1; }; }

quiet cargo build --release --offline --locked --manifest-path "$V/mc/Cargo.toml" --target-dir "$T/mc" || { say "the checker does not build"; exit 3; }

EMBEDDED="whitelist:whitelist staking-pool:staking_pool lockup:lockup_contract w-near:w_near multisig2:multisig2"
GIT_DEPS="multisig staking-pool staking-pool-factory"
ex=()
for c in $EMBEDDED; do ex+=(--exclude "/${c%:*}/res/${c#*:}.wasm"); done
for c in $GIT_DEPS; do ex+=(--exclude "/$c/Cargo.toml" --exclude "/$c/Cargo.lock"); done
# by checksum and with fresh mtimes, so that cargo sees every change and only changes
rsync -rlpc --delete --exclude /.git --exclude target --exclude '.*.origin' "${ex[@]}" /repo/ "$WS/" || { say rsync; exit 3; }
for c in $GIT_DEPS; do
    # the project's own manifest and lock file without the git dev-dependencies (not available offline)
    if ! cat /repo/$c/Cargo.toml /repo/$c/Cargo.lock | cmp -s - "$WS/.$c.origin"; then
        sed -E '/^[A-Za-z0-9_-]+ *= *\{ *git *=/d' /repo/$c/Cargo.toml >"$WS/$c/Cargo.toml"
        cp /repo/$c/Cargo.lock "$WS/$c/Cargo.lock"
        cat /repo/$c/Cargo.toml /repo/$c/Cargo.lock >"$WS/.$c.origin"
    fi
done
locked() { case " $GIT_DEPS " in *" $1 "*) ;; *) echo --locked ;; esac; }
put() { cmp -s "$1" "$2" || cp "$1" "$2"; }
wasm() { # dir name: as the contract's build.sh does
    local from=$T/contracts/wasm32-unknown-unknown/release/$2.wasm
    (cd "$WS/$1" && RUSTFLAGS='-C link-arg=-s' CARGO_INCREMENTAL=0 CARGO_TARGET_DIR="$T/contracts" \
        quiet cargo build --target wasm32-unknown-unknown --release --offline $(locked "$1")) || { say "$1 does not build"; exit 3; }
    mkdir -p "$WS/$1/res"
    case " $EMBEDDED " in *" $1:$2 "*) put "$from" "$WS/$1/res/$2.wasm" ;; esac
    put "$from" "$OUT/$2.wasm"
}
state() { # name features...
    local n=$1; shift
    (cd "$WS/state-manipulation" && RUSTC_BOOTSTRAP=1 CARGO_TARGET_DIR="$T/contracts-state" \
        quiet cargo build --target wasm32-unknown-unknown --release --offline --locked "$@") || { say "state-manipulation does not build"; exit 3; }
    put "$T/contracts-state/wasm32-unknown-unknown/release/state_manipulation.wasm" "$OUT/state_$n.wasm"
}
[ $# -gt 0 ] || set -- whitelist staking-pool lockup w-near multisig2 staking-pool-factory lockup-factory multisig-factory multisig voting state-manipulation
for c in "$@"; do
    case $c in
    whitelist) wasm whitelist whitelist ;;
    staking-pool) wasm staking-pool staking_pool ;;
    lockup) wasm lockup lockup_contract ;;
    w-near) wasm w-near w_near; put "$WS/w-near/res/legacy_w_near.wasm" "$OUT/legacy_w_near.wasm" ;;
    multisig2) wasm multisig2 multisig2 ;;
    staking-pool-factory) wasm staking-pool staking_pool; wasm staking-pool-factory staking_pool_factory ;;
    lockup-factory) wasm lockup lockup_contract; wasm lockup-factory lockup_factory ;;
    multisig-factory) wasm multisig2 multisig2; wasm multisig-factory multisig_factory ;;
    multisig) wasm multisig multisig ;;
    voting) wasm voting voting_contract ;;
    state-manipulation)
        state all --all-features
        state clean --no-default-features --features clean
        state replace --no-default-features --features replace ;;
    none) ;;
    *) say "unknown contract $c"; exit 3 ;;
    esac
done
exit 0
