#!/usr/bin/env python3
"""Makes and confirms the planted bugs in seeded/ from the descriptions in a Python file (not a check).

usage: seed.py FILE [id...]   FILE defines BUGS: list of dict(id, property, edits=[(file, old, new)], deps, main, needs, breaks)
Works in a scratch copy of /repo, bind-free: the demo's /repo paths are rewritten to the copy while confirming.
"""
import json, os, subprocess, sys, shutil, tempfile, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CRATES = {
    "base": 'tpm2-rs-base = { path = "$R/base" }',
    "marshalable": 'tpm2-rs-marshalable = { path = "$R/marshalable" }\nsafe-discriminant = "0.2.0"',
    "client": 'tpm2-client = { path = "$R/crates/tpm2-client" }',
    "server": 'tpm2-impl = { path = "$R/crates/tpm2-impl" }',
    "tpm2": 'tpm2 = { path = "$R/crates/tpm2" }',
}
DEMO = '''#!/bin/bash
# Builds main.rs against the crates in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
R=$PWD
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
mkdir "$w/src"
cp "$here/main.rs" "$w/src/main.rs"
cp "$R/Cargo.lock" "$w/Cargo.lock"
cat > "$w/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
%s
EOF
cd "$w" && timeout 250 env RUSTUP_TOOLCHAIN=nightly-2026-05-14 CARGO_TARGET_DIR="$w/target" cargo run --offline -q
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    want = sys.argv[2:]
    scratch = tempfile.mkdtemp(prefix="seed", dir="/tmp")
    R = scratch + "/repo"
    subprocess.check_call(["cp", "-a", "/repo", R])
    for b in bugs:
        if want and b["id"] not in want:
            continue
        d = V + "/seeded/" + b["id"]
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + "/main.rs", "w").write(b["main"])
        open(d + "/demo.sh", "w").write(DEMO % "\n".join(CRATES[x] for x in b["deps"].split()))
        os.chmod(d + "/demo.sh", 0o755)
        clean = sh("bash %s/demo.sh" % d, cwd=R)
        for f, old, new in b["edits"]:
            s = open(R + "/" + f).read()
            assert s.count(old) == 1, (b["id"], f, s.count(old), old)
            open(R + "/" + f, "w").write(s.replace(old, new))
        diff = sh("git diff", cwd=R).stdout
        open(d + "/patch.diff", "w").write(diff)
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)
        t = sh("export RUSTUP_TOOLCHAIN=nightly-2026-05-14; cargo test --workspace --no-fail-fast --offline", cwd=R)
        bad = sh("bash %s/demo.sh" % d, cwd=R)
        ok = clean.returncode == 0 and bad.returncode != 0 and t.returncode == 0
        print(b["id"], "OK" if ok else "BAD", "clean", clean.returncode, "patched", bad.returncode, "tests", t.returncode, flush=True)
        if clean.returncode:
            print(clean.stderr[-3000:])
        if t.returncode:
            print((t.stdout + t.stderr)[-3000:])
        if ok:
            print("    ", [l for l in bad.stderr.splitlines() if l.strip()][-3:][0][:200])
        else:
            shutil.rmtree(d)
        sh("git checkout -- .", cwd=R)
    shutil.rmtree(scratch)


main()
