"""mkbug.py SPEC.py : SPEC defines ID, PROPERTY, NEEDS, BREAKS, EDITS [(file, old, new)],
MAIN (rust source of the demo), optional FEATURES.  Writes /verif/seeded/ID."""
import sys, os, json, subprocess, stat
ns = {}
exec(open(sys.argv[1]).read(), ns)
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/plant/repo"
if not os.path.isdir(W):
    os.makedirs("/tmp/plant", exist_ok=True)
    subprocess.check_call(["git", "clone", "-q", "/repo", W])
subprocess.check_call(["git", "-C", W, "fetch", "-q", "origin"])
head = subprocess.check_output(["git", "-C", "/repo", "rev-parse", "HEAD"], text=True).strip()
subprocess.check_call(["git", "-C", W, "reset", "-q", "--hard", head])
for f, old, new in ns["EDITS"]:
    p = f"{W}/{f}"
    s = open(p).read()
    n = s.count(old)
    assert n == 1, f"{f}: {n} occurrences of {old!r}"
    open(p, "w").write(s.replace(old, new))
d = f"{V}/seeded/{ns['ID']}"
os.makedirs(d, exist_ok=True)
open(f"{d}/patch.diff", "w").write(subprocess.check_output(["git", "-C", W, "diff"], text=True))
subprocess.check_call(["git", "-C", W, "checkout", "-q", "--", "."])
open(f"{d}/main.rs", "w").write(ns["MAIN"].lstrip())
feats = ns.get("FEATURES", "")
deps = ns.get("DEPS", "")
open(f"{d}/demo.sh", "w").write(f'''#!/bin/bash
# Run with cwd at the root of neure: builds main.rs against it and runs it.
export HOME="${{HOME:-/root}}" PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
here="$(cd "$(dirname "$0")" && pwd)"; repo="$PWD"
tmp="$(mktemp -d)"; trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/src" && cp "$here/main.rs" "$tmp/src/main.rs"
[ -e "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$tmp/Cargo.lock"
cat > "$tmp/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2024"
[dependencies]
neure = {{ path = "$repo"{feats} }}
{deps}
[workspace]
T
cd "$tmp" || exit 3
CARGO_TARGET_DIR="$tmp/target" timeout 250 cargo run --offline -q
''')
os.chmod(f"{d}/demo.sh", 0o755)
json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(f"{d}/meta.json", "w"), indent=1)
print("wrote", d)
