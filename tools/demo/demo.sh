#!/bin/bash
# Runs main.rs against the crate in the current directory: exit 0 if the property holds for it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
s=$(mktemp -d) || exit 3
trap 'rm -rf "$s"' EXIT
mkdir "$s/src"
cp "$here"/*.rs "$s/src/"
cat >"$s/Cargo.toml" <<END
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
nt-hive = { path = "$repo" }
[workspace]
END
cd "$s" && CARGO_TARGET_DIR="$s/target" CARGO_NET_OFFLINE=true cargo run -q --offline
