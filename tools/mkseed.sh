#!/bin/bash
# mkseed.sh NAME PROPERTY NEEDS BREAKS MAIN.RS
# Records the uncommitted change in /repo as a planted bug with a demonstration,
# checks that tests pass with it and that the demonstration tells the trees apart,
# and restores /repo.
set -e
name=$1; d=/verif/seeded/$name
mkdir -p "$d"
git -C /repo diff > "$d/patch.diff"
[ -s "$d/patch.diff" ] || { echo "no change in /repo"; exit 1; }
cp "$5" "$d/main.rs"
cat > "$d/demo.sh" <<'D'
#!/bin/bash
# Builds main.rs against the crate in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/src"
cp "$here/main.rs" "$tmp/src/main.rs"
cp "$repo/Cargo.lock" "$tmp/Cargo.lock"
cat > "$tmp/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
traffic-sim = { path = "$repo", features = ["verif"] }
[workspace]
T
RUSTFLAGS=-Awarnings RUST_BACKTRACE=0 CARGO_TARGET_DIR="$tmp/target" cargo run -q --offline --manifest-path "$tmp/Cargo.toml"
D
python3 - "$d/meta.json" "$2" "$3" "$4" <<'P'
import json, sys
json.dump({"property": sys.argv[2], "needs": sys.argv[3], "what_it_breaks": sys.argv[4]}, open(sys.argv[1], "w"), indent=1)
P
trap 'git -C /repo checkout -q -- .' EXIT
cd /repo
bash /opt/vp/build.sh > /dev/null 2>&1 || { echo "does not build"; exit 1; }
bash /opt/vp/test.sh /tmp/seed-test.json > /dev/null 2>&1 || echo "test.sh exit $?"
python3 -c "
import json; d=json.load(open('/tmp/seed-test.json')); print({k:(len(v) if isinstance(v,list) else v) for k,v in d.items()})"
rm -f /tmp/seed-test.json
if bash "$d/demo.sh"; then echo "demo does not fail with the bug"; else echo "demo fails with the bug: good"; fi
git -C /repo checkout -q -- .
if bash "$d/demo.sh"; then echo "demo passes without: good"; else echo "demo FAILS on the unchanged tree"; fi
