#!/bin/bash
# Builds the simulator from /repo's current working tree, with the repository's own toolchain.
# Output: /verif/target/debug/svmsim
. /opt/vp/svm-env.sh
export CARGO_TARGET_DIR=/verif/target
export CARGO_PROFILE_DEV_DEBUG=1
mkdir -p /verif/target
exec 9>/verif/target/.buildlock
flock 9
# The genesis template is compiled into the host crates; rebuild it from its sources (a no-op when
# nothing changed) so that a change to it is seen. The .wasm files are ignored by git.
build_one() { # DIR NAME DEST
  ( cd "$1" && CARGO_TARGET_DIR=/verif/target/wasm-$2 cargo build --release --offline --locked --target wasm32-unknown-unknown ) || return 1
  cmp -s "/verif/target/wasm-$2/wasm32-unknown-unknown/release/$2.wasm" "$3" ||
    cp "/verif/target/wasm-$2/wasm32-unknown-unknown/release/$2.wasm" "$3"
}
build_one /repo/simple-coin-transfer-template simple_coin_transfer_template \
  /repo/simple-coin-transfer-template/simple_coin_transfer_template.wasm || exit 2
# The contract of property C19, compiled with the SDK. It is built in a copy because the SDK writes
# the metadata of the contract into the directory of its sources.
mkdir -p /verif/target/vault/src
for f in Cargo.toml Cargo.lock src/lib.rs; do
  cmp -s "/verif/vault/$f" "/verif/target/vault/$f" || cp "/verif/vault/$f" "/verif/target/vault/$f"
done
export VAULT_WASM=/verif/target/vault.wasm VAULT_META=/verif/target/vault/Template-meta.json
build_one /verif/target/vault vault "$VAULT_WASM" || exit 2
cd /verif/sim && cargo build --offline --locked
