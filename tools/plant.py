#!/usr/bin/env python3
"""Development helper: confirm a planted bug in a scratch copy of /repo and store it under /verif/seeded/<id>/.
usage: plant.py SPEC.py   where SPEC.py defines BUGS = [dict(id, property, edits=[(file, old, new)], needs, breaks, main)]
main = the Rust source of the demonstration (exit 0 when behaviour is right)."""
import json, os, subprocess, sys, shutil, re
SCR = "/tmp/plant/repo"
DEMO = '''#!/bin/bash
# behavioural demonstration: builds a small program against the library in the current directory and runs it
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export PATH="$PATH:/root/.cargo/bin" CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=nightly-2025-12-19 RUSTFLAGS="--cfg verif_hooks"
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
mkdir "$w/src"
cp "$here/main.rs" "$w/src/main.rs"
cp "$repo/Cargo.lock" "$w/Cargo.lock"
cat > "$w/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
dynamic_expressions = { path = "$repo/dynamic_expressions", default-features = false }
symbolic_regression = { path = "$repo/symbolic_regression", default-features = false }
ndarray = "0.17"
num-traits = "0.2"
fastrand = "2.3"
@EXTRA@[profile.dev]
debug = false
incremental = false
TOML
cd "$w"
CARGO_TARGET_DIR="$w/target" cargo build --offline -q 2> "$w/log" || { cat "$w/log"; exit 3; }
timeout 120 "$w/target/debug/demo"
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def sync():
    os.makedirs("/tmp/plant", exist_ok=True)
    if not os.path.exists(SCR): sh(f"cp -a /repo {SCR}")
    sh(f"git -C {SCR} checkout -q -- . && git -C {SCR} fetch -q /repo HEAD && git -C {SCR} reset -q --hard FETCH_HEAD")
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
base = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", [])) if isinstance(json.load(open("/opt/vp/BASELINE.json")), dict) else set()
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="nightly-2025-12-19", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1",
           CARGO_PROFILE_DEV_DEBUG="line-tables-only", RUSTC_WRAPPER="", PROPTEST_RNG_SEED="20251219", PROPTEST_DISABLE_FAILURE_PERSISTENCE="1")
for b in ns["BUGS"]:
    if only and b["id"] not in only: continue
    sync()
    d = f"/verif/seeded/{b['id']}"
    os.makedirs(d, exist_ok=True)
    open(d + "/main.rs", "w").write(b["main"])
    extra = b.get("deps", "")
    open(d + "/demo.sh", "w").write(DEMO.replace("@EXTRA@", extra + ("\n" if extra else "")))
    os.chmod(d + "/demo.sh", 0o755)
    r = sh(f"{d}/demo.sh", cwd=SCR)
    clean = r.returncode
    if clean: print(b["id"], "CLEAN DEMO FAILS", clean, (r.stdout + r.stderr)[-1500:])
    ok = True
    for f, old, new in b["edits"]:
        p = f"{SCR}/{f}"; s = open(p).read()
        if s.count(old) != 1: print(b["id"], "edit anchor count", s.count(old), f, old[:60]); ok = False; break
        open(p, "w").write(s.replace(old, new))
    if not ok: continue
    patch = sh(f"git -C {SCR} diff").stdout
    open(d + "/patch.diff", "w").write(patch)
    t = sh("cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8", cwd=SCR, env=ENV)
    res = re.findall(r"^test result: (\w+)\. (\d+) passed; (\d+) failed", t.stdout, re.M)
    failed = sum(int(x[2]) for x in res); passed = sum(int(x[1]) for x in res)
    r = sh(f"{d}/demo.sh", cwd=SCR)
    good = clean == 0 and r.returncode not in (0, 3) and failed == 0 and passed > 150
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    print(b["id"], "OK" if good else "BAD", f"clean={clean} patched={r.returncode} tests passed={passed} failed={failed}", "" if good else (t.stderr[-800:] + re.sub(r"(?s).*?failures:", "", t.stdout)[-600:] + r.stdout[-500:] + r.stderr[-300:]))
    if not good: shutil.rmtree(d)
sync()
