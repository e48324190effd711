#!/bin/bash
# Run in the repository's root. Builds demo.rs against the library in the working tree and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d) || exit 99
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"
cp "$here/demo.rs" "$t/src/main.rs"
printf '[package]\nname = "bugdemo"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[dependencies]\nblitstr = { path = "%s" }\n' "$repo" > "$t/Cargo.toml"
cd "$t" || exit 99
timeout 200 cargo run -q --offline --target-dir "$t/target"
