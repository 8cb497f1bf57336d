#!/usr/bin/env python3
"""seed.py SPEC.py : build /verif/seeded/<id> from a spec and confirm it in a scratch copy of /repo.
SPEC defines: id, property, needs, breaks, edits=[(file, old, new)], demo (Rust source of main.rs; must panic/exit!=0 iff broken).
Not used by any check."""
import json, os, runpy, shutil, subprocess, sys, xml.etree.ElementTree as ET
W = "/tmp/w"
DEMO = r'''#!/bin/bash
# Exit 0 when the library behaves as the property says, non-zero otherwise. Run with cwd = the repository.
here="$(cd "$(dirname "$0")" && pwd)"; repo="$(pwd)"
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=1.88.0-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTFLAGS=-Ctarget-cpu=x86-64-v3
t="$(mktemp -d)" || exit 3
trap 'rm -rf "$t"' EXIT
mkdir "$t/src" && cp "$here/demo.rs" "$t/src/main.rs" && cp "$repo/Cargo.lock" "$t/Cargo.lock" || exit 3
cat > "$t/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
redstone-ml = { path = "$repo" }
[workspace]
TOML
cd "$t" && CARGO_TARGET_DIR="$t/target" cargo build --offline --quiet 2>"$t/log" || { tail -n 40 "$t/log"; exit 4; }
timeout 120 "$t/target/debug/demo"
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
env = dict(os.environ, PATH="/root/.cargo/bin:" + os.environ["PATH"], RUSTUP_TOOLCHAIN="1.88.0-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
           CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", RUSTFLAGS="-Ctarget-cpu=x86-64-v3")
def tests():
    # trybuild and path-dependent names: same command as /opt/vp/test.sh, in the scratch copy
    sh("rm -f target/nextest/vp/junit.xml", cwd=W)
    r = sh("timeout 600 cargo nextest run --workspace --no-fail-fast --offline --test-threads 8 --tool-config-file vp:/opt/vp/nextest.toml --profile vp", cwd=W, env=env)
    try: root = ET.parse(W + "/target/nextest/vp/junit.xml").getroot()
    except Exception: return None, r.stderr[-1500:]
    bad = [t.get("name") for t in root.iter("testcase") if t.find("failure") is not None or t.find("error") is not None]
    d = sh("timeout 300 cargo test --workspace --doc --no-fail-fast --offline -- --test-threads 8", cwd=W, env=env)
    bad += [l for l in d.stdout.splitlines() if l.startswith("test ") and l.endswith("FAILED")]
    return bad, ""
def main(spec):
    s = runpy.run_path(spec)
    d = f"/verif/seeded/{s['id']}"
    if not os.path.isdir(W): sh(f"cp -a /repo {W}")
    sh("git checkout -q -- . && git fetch -q /repo && git reset -q --hard FETCH_HEAD", cwd=W)
    for f, old, new in s["edits"]:
        t = open(f"{W}/{f}").read()
        if t.count(old) != 1: print(s["id"], "edit does not match once:", f, t.count(old)); return 1
        open(f"{W}/{f}", "w").write(t.replace(old, new))
    patch = sh("git diff", cwd=W).stdout
    os.makedirs(d, exist_ok=True)
    open(d + "/demo.rs", "w").write(s["demo"].lstrip()); open(d + "/demo.sh", "w").write(s.get("demo_sh", DEMO)); os.chmod(d + "/demo.sh", 0o755)
    for n, body in s.get("files", {}).items(): open(f"{d}/{n}", "w").write(body)
    bad, err = tests()
    r1 = sh(f"bash {d}/demo.sh", cwd=W)
    r0 = sh(f"bash {d}/demo.sh", cwd="/repo")
    ok = bad == [] and r0.returncode == 0 and r1.returncode not in (0, 3, 4)
    print(s["id"], "OK" if ok else "REJECTED", "tests failing:", (bad or [])[:4] if bad is not None else err, "demo clean/patched:", r0.returncode, r1.returncode)
    if not ok:
        print((r0.stdout + r0.stderr)[-600:]); print((r1.stdout + r1.stderr)[-600:]); shutil.rmtree(d); return 1
    open(d + "/patch.diff", "w").write(patch)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    return 0
if __name__ == "__main__": sys.exit(max(main(a) for a in sys.argv[1:]))
