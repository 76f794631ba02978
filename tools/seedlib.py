"""Helper for writing planted changes: computes the patch from textual edits of /repo's HEAD."""
import json, os, subprocess, tempfile, shutil
ROOT = "/verif/seeded"
DEMO = '''#!/bin/bash
# Exit 0 iff the demonstrated behaviour is right. Run in the repository.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src"
cp -r "$here"/files/. "$t/"
cp "$repo/Cargo.lock" "$t/Cargo.lock" 2>/dev/null
cat > "$t/Cargo.toml" <<EOT
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
pest3 = { path = "$repo/pest", features = ["derive"] }
pest3_core = { path = "$repo/core" }
pest3_meta = { path = "$repo/meta" }
pest3_generator = { path = "$repo/generator" }
proc-macro2 = "1"
quote = "1"
EOT
cd "$t" || exit 99
CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target" cargo build --offline >"$t/log" 2>&1 || { tail -30 "$t/log"; exit 98; }
timeout 60 "$t/target/debug/demo"
'''
def mk(id, prop, needs, breaks, edits, files):
    d = f"{ROOT}/{id}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + "/files/src")
    with tempfile.TemporaryDirectory() as t:
        subprocess.check_call(["git", "clone", "-q", "/repo", t + "/r"])
        for f, old, new, *n in edits:
            p = f"{t}/r/{f}"
            s = open(p).read()
            k = n[0] if n else 1
            assert s.count(old) == k, (id, f, s.count(old))
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", t + "/r", "diff"], text=True)
    open(d + "/patch.diff", "w").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    open(d + "/demo.sh", "w").write(DEMO)
    os.chmod(d + "/demo.sh", 0o755)
    for n, c in files.items():
        p = f"{d}/files/{n}"
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, "w").write(c)
