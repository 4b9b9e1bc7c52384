#!/bin/bash
# Builds demo.rs (beside this script) against the crate in the current directory and runs it.
d=$(cd "$(dirname "$0")" && pwd); r=$PWD
t=$(mktemp -d /tmp/combine-demo.XXXXXX); trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src"; cp "$d/demo.rs" "$t/src/main.rs"
[ -f "$r/Cargo.lock" ] && cp "$r/Cargo.lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
combine = { path = "$r", features = [$(cat "$d/features" 2>/dev/null)] }
$(cat "$d/deps" 2>/dev/null)
X
cd "$t" && CARGO_TARGET_DIR="$t/target" timeout 250 cargo run -q --offline
