#!/bin/bash
# Compiles src/common of the tree in the current directory and runs main.rs against it.
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
S=$(mktemp -d /tmp/demo.XXXXXX) || exit 99
trap 'rm -rf "$S"' EXIT
mkdir "$S/demo" || exit 99
cp -r "$R/src/common" "$S/common"
cp -r "$D/arrow2" "$D/datafusion" "$S/"
sed -i -E 's#^arrow2 *=.*#arrow2 = { path = "../arrow2" }#; s#^datafusion *=.*#datafusion = { path = "../datafusion" }#' "$S/common/Cargo.toml"
cat > "$S/demo/Cargo.toml" <<'T'
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[[bin]]
name = "demo"
path = "main.rs"
[dependencies]
common = { path = "../common" }
chrono = "0.4"
chronoutil = "0.2"
datafusion-common = "39.0.0"
datafusion-expr = "39.0.0"
arrow-schema = "52"
arrow2 = { path = "../arrow2" }
axum = "0.7.4"
serde = "1"
serde_json = "1"
serde_with = "3"
[profile.dev]
debug = 0
[workspace]
T
cp "$D/main.rs" "$S/demo/main.rs"
[ -f "$D/Cargo.lock" ] && cp "$D/Cargo.lock" "$S/demo/Cargo.lock"
cd "$S/demo" || exit 99
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$S/target" RUSTFLAGS=-Awarnings
timeout 250 cargo build --offline >"$S/log" 2>&1 || { tail -30 "$S/log"; exit 98; }
timeout 40 "$S/target/debug/demo"
