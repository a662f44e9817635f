#!/usr/bin/env python3
"""Build a planted bug directory from a spec file.

spec (python): dict with id, property, needs, breaks, edits=[(file, old, new)], main (rust source)
The edits are made in a scratch worktree of /repo, never in /repo itself.
"""
import json, os, subprocess, sys, runpy

WT = "/tmp/seed-wt"
DEMO = r'''#!/bin/bash
# Exit 0 when the property holds in this small history, nonzero when it does not.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$(pwd)"
work=/tmp/hydra-demo-@ID@
rm -rf /tmp/hydra-demo-@ID@
mkdir -p "$work/src" || exit 3
trap 'rm -rf /tmp/hydra-demo-@ID@' EXIT
cp "$here/main.rs" "$work/src/main.rs" || exit 3
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"

[workspace]

[dependencies]
hydra = { path = "$repo/hydra"@FEATURES@ }
tokio = { version = "1", features = ["full", "test-util"] }
serde = { version = "1", features = ["derive"] }
@DEPS@
EOF
cd "$work" || exit 3
CARGO_TARGET_DIR="$work/target" RUSTFLAGS="-Awarnings" cargo build --offline -q 2>build.log || { cat build.log; exit 3; }
timeout @TIMEOUT@ "$work/target/debug/demo"
code=$?
[ $code -eq 0 ] && echo "property holds" || echo "property broken (exit $code)"
exit $code
'''
def sh(*a, **k):
    return subprocess.run(a, check=True, text=True, capture_output=True, **k).stdout
spec = {}
for path in sys.argv[1:]:
    ns = runpy.run_path(path)
    for s in ns["SEEDS"]:
        if not os.path.isdir(WT):
            sh("git", "-C", "/repo", "worktree", "add", "--detach", "-f", WT, "HEAD")
        sh("git", "-C", WT, "checkout", "-q", "--detach", sh("git", "-C", "/repo", "rev-parse", "HEAD").strip())
        sh("git", "-C", WT, "checkout", "-q", "--", ".")
        for f, old, new in s["edits"]:
            p = os.path.join(WT, f)
            t = open(p).read()
            assert t.count(old) == 1, (s["id"], f, t.count(old))
            open(p, "w").write(t.replace(old, new))
        d = f"/verif/seeded/{s['id']}"
        os.makedirs(d, exist_ok=True)
        open(f"{d}/patch.diff", "w").write(sh("git", "-C", WT, "diff"))
        sh("git", "-C", WT, "checkout", "-q", "--", ".")
        open(f"{d}/main.rs", "w").write(s["main"].lstrip())
        open(f"{d}/demo.sh", "w").write(DEMO.replace("@ID@", s["id"].lower()).replace("@TIMEOUT@", str(s.get("timeout", 60)))
             .replace("@DEPS@", s.get("deps", "")).replace("@FEATURES@", s.get("features", "")))
        os.chmod(f"{d}/demo.sh", 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(f"{d}/meta.json", "w"), indent=2)
        print("made", s["id"])
subprocess.run(["git", "-C", "/repo", "worktree", "remove", "--force", WT])
subprocess.run(["git", "-C", "/repo", "worktree", "prune"])
