#!/usr/bin/env python3
"""One property check.  usage: check.py PID quick|thorough   (see DESIGN.md, "How a check decides")

Tier 1 (deciding): vx extracts the named functions from /repo's current source, splices the contracts in
/verif/proofs/*.vx and Verus discharges every obligation; a second run with `assert(false)` at every entry and
loop head must fail at every one of them (no contract is vacuous).
Tier 2 (bounded, labelled so): the same contracts as run-time oracles over the real crates.
"""
import hashlib, json, os, re, signal, subprocess, sys, tempfile, threading, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PID = sys.argv[1]
TIER = sys.argv[2] if len(sys.argv) > 2 else "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
THOROUGH = TIER == "thorough"
CFG = json.load(open(f"{V}/checks.json"))
C = CFG[PID]
T0 = time.time()
WORK = f"{V}/work/{PID}"
os.makedirs(WORK, exist_ok=True)
os.makedirs(f"{V}/evidence", exist_ok=True)

ENV = dict(os.environ)
ENV["PATH"] = ENV.get("PATH", "") + ":/usr/local/bin:/root/.cargo/bin"
ENV["CARGO_NET_OFFLINE"] = "true"
ENV["CARGO_TERM_COLOR"] = "never"
ENV.setdefault("HOME", "/root")
ENV["VX_EXP"] = f"{WORK}/expanded"
for k in ("RUSTC_WRAPPER", "RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTUP_TOOLCHAIN"):
    ENV.pop(k, None)


def run(cmd, env=None, timeout=600, cwd=None):
    """the command in a process group of its own, so that a timeout ends the solvers it started as well"""
    with tempfile.TemporaryFile() as fo, tempfile.TemporaryFile() as fe:
        p = subprocess.Popen(cmd, env=env or ENV, cwd=cwd, stdin=subprocess.DEVNULL, stdout=fo, stderr=fe, start_new_session=True)
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            rc = 124
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
        out = []
        for f in (fo, fe):
            f.seek(0)
            out.append(f.read().decode(errors="replace"))
        return rc, out[0], out[1]


# ------------------------------------------------------------------ tier 1

def fn_map(rs):
    """line -> (file, path, hash) of the extracted function it belongs to; plus line tags."""
    m, cur = {}, None
    lines = open(rs).read().split("\n")
    for i, l in enumerate(lines, 1):
        s = l.strip()
        if s.startswith("// VX-FN "):
            g = re.match(r"// VX-FN (\S+) :: (.+?) src=(\S+)", s)
            cur = (g.group(1), g.group(2).strip(), g.group(3)) if g else ("?", s, "?")
        m[i] = cur
        if s.startswith("// VX-END"):
            cur = None
    return m, lines


def parse_errors(err, rsname):
    """[(message, [line numbers in the unit])] from Verus' textual diagnostics"""
    out = []
    for blk in re.split(r"\n(?=error)", "\n" + err):
        blk = blk.strip("\n")
        if not blk.startswith("error"):
            continue
        msg = blk.split("\n", 1)[0]
        if msg.startswith("error: aborting") or msg.startswith("error: could not"):
            continue
        ln = [int(x) for x in re.findall(re.escape(rsname) + r":(\d+):\d+", blk)]
        # secondary spans: "NNN |" gutters
        ln += [int(x) for x in re.findall(r"^\s*(\d+)\s*\|", blk, re.M)]
        out.append((msg, sorted(set(ln)), blk))
    return out


EXP_LOCK = threading.Lock()
EXP_DONE = {}


def unit_text(u, seen=None):
    seen = seen if seen is not None else set()
    if u in seen:
        return ""
    seen.add(u)
    t = open(f"{V}/proofs/{u}").read()
    return t + "".join(unit_text(x, seen) for x in re.findall(r"^=== include (\S+)", t, re.M))


def expand_for(u):
    """macro expansions (by the compiler, of the current source) the unit extracts from"""
    crates = sorted(set(re.findall(r"^=== (?:fn|type|const) @(\w+) ", unit_text(u + ".vx"), re.M)))
    with EXP_LOCK:
        for c in crates:
            if c not in EXP_DONE:
                rc, _, _ = run([f"{V}/bin/expand.sh", REPO, f"{WORK}/expanded", c], timeout=300)
                EXP_DONE[c] = rc
        return all(EXP_DONE[c] == 0 for c in crates)


def verify_unit(u):
    r = {"unit": u, "status": "?", "functions": [], "failed": [], "trusted": [], "verified": 0, "errors": 0}
    d = f"{WORK}/{u}"
    os.makedirs(d, exist_ok=True)
    rs, rep = f"{d}/{u}.rs", f"{d}/{u}.txt"
    t = time.time()
    if not expand_for(u):
        r["status"] = "not-extractable"
        r["detail"] = "the compiler did not expand the crate's macros"
        return r
    rc, so, se = run([f"{V}/vx/target/debug/vx", REPO, f"{V}/proofs/{u}.vx", rs, rep], timeout=120)
    if rc != 0:
        r["status"] = "not-extractable"
        r["detail"] = (se or so).strip()[-600:]
        return r
    m, lines = fn_map(rs)
    r["functions"] = sorted({f"{v[0]}::{v[1]}" for v in m.values() if v})
    r["clauses"] = sum(1 for i, l in enumerate(lines, 1) if re.search(r"\b(requires|ensures|invariant)\b", l))
    r["uses"] = []
    for i, l in enumerate(lines, 1):
        if "external_body" in l and any(x.strip().startswith("// VX-USES") for x in lines[max(0, i - 4):i]):
            g = [x for x in lines[max(0, i - 4):i] if "// VX-USES" in x][-1].strip().split()[-1]
            fnl = next((x.strip() for x in lines[i:i + 4] if "fn " in x), "?")
            r["uses"].append(f"{g}: {fnl}"[:160])
            continue
        if re.search(r"external_body|assume_specification|\bassume\(|\badmit\(|external_type_specification|external_trait", l):
            j = i
            sig = l.strip()
            if "external_body" in l or "external_type" in l:
                while j < len(lines) and not re.search(r"\b(fn|struct|enum)\b", lines[j - 1] if j > i else ""):
                    j += 1
                sig = lines[j - 1].strip()
            r["trusted"].append(re.sub(r"\s+", " ", sig)[:160])
    extra = C.get("verus_args", [])
    rl = ["--rlimit", str(C.get("rlimit", 400))]
    vac = {}

    def vacuity():
        vrs = f"{d}/{u}_vac.rs"
        rc2, _, _ = run([f"{V}/vx/target/debug/vx", REPO, f"{V}/proofs/{u}.vx", vrs, rep + ".v", "--vacuity"], timeout=120)
        if rc2 != 0:
            return
        vl = open(vrs).read().split("\n")
        want = {i for i, l in enumerate(vl, 1) if "// VX-VACUITY" in l}
        rc2, _, se2 = run(["verus", f"{u}_vac.rs", "--multiple-errors", "60", "--num-threads", "4", "--rlimit", str(C.get("vac_rlimit", 15))] + extra,
                          timeout=150, cwd=d)
        got = set()
        for _, lns, _ in parse_errors(se2, f"{u}_vac.rs"):
            got |= set(lns) & want
        vac.update(lines=vl, want=want, missing=sorted(want - got), limit="Resource limit" in se2 or rc2 == 124)

    vt = threading.Thread(target=vacuity)
    vt.start()
    rc, so, se = run(["verus", f"{u}.rs", "--output-json", "--time", "--multiple-errors", "8", "--num-threads", "4"] + rl + extra,
                     timeout=400, cwd=d)
    vt.join()
    open(f"{d}/verus.out", "w").write(so + "\n" + se)
    r["wall_s"] = round(time.time() - t, 2)
    try:
        js = json.loads(so[so.index("{"):])
        vr = js["verification-results"]
    except Exception:
        r["status"] = "no-answer"
        r["detail"] = f"verus rc={rc}: {se[-400:]}"
        return r
    r["verified"], r["errors"] = vr.get("verified", 0), vr.get("errors", 0)
    try:
        r["smt_ms"] = js["times-ms"]["smt"]["total"]
        r["verus_version"] = js["verus"]["version"]
    except Exception:
        pass
    if vr.get("success") and rc == 0:
        if vac:
            missing, vl = vac["missing"], vac["lines"]
            r["vacuity_points"], r["vacuity_ok"] = len(vac["want"]), not missing
            r["vacuity_open"] = [vl[i - 1].strip()[-60:] for i in missing]   # solver gave up on these points
            if missing and not vac["limit"]:
                r["status"] = "vacuous"
                r["detail"] = "unreachable under the contract: " + "; ".join(vl[i - 1].strip()[:100] for i in missing[:5])
                return r
        r["status"] = "proved"
        return r
    if vr.get("encountered-vir-error") or r["errors"] == 0:
        r["status"] = "not-extractable"
        r["detail"] = "verifier rejected the extracted text: " + se[:600]
        return r
    hard, soft = [], []
    for msg, lns, blk in parse_errors(se, f"{u}.rs"):
        text = " ".join(lines[i - 1] for i in lns if 0 < i <= len(lines))
        tags = set(re.findall(r"\[(P\d+)\]", text))
        fns = sorted({f"{m[i][0]}::{m[i][1]}" for i in lns if m.get(i)})
        if "Resource limit" in blk or "rlimit" in blk or "timed out" in blk:
            soft.append({"obligation": "resource limit in " + ", ".join(fns), "output": blk[:1500]})
            continue
        prop = not tags or PID in tags
        first = lns[0] if lns else 0
        src = [lines[i - 1].strip() for i in lns if 0 < i <= len(lines)][:6]
        what = {"obligation": f"{msg} in {', '.join(fns) or 'lemma'}", "text": src, "output": blk[:3000], "mine": prop, "fns": fns}
        if not fns:
            soft.append(what)   # a lemma of ours (not code) failed: not evidence about the code
        else:
            hard.append(what)
    mine = [h for h in hard if h["mine"]]
    if mine:
        r["status"] = "rejected"
        r["failed"] = mine
    elif hard:
        r["status"] = "rejected-elsewhere"
        r["detail"] = "only obligations tagged for other properties failed: " + "; ".join(h["obligation"] for h in hard[:4])
    else:
        r["status"] = "no-answer"
        r["detail"] = "; ".join(s["obligation"] for s in soft[:4])
    return r


# ------------------------------------------------------------------ tier 2

HENV = dict(ENV)
HENV["RUSTUP_TOOLCHAIN"] = "nightly-2025-12-19"
HENV["RUSTFLAGS"] = "--cfg verif_hooks"
HENV["RAYON_NUM_THREADS"] = HENV.get("RAYON_NUM_THREADS", "4")


def build_harness():
    h = C.get("harness", "harness")
    return run(["cargo", "build", "--offline", "-q", "--bin", C["bin"]], env=HENV, timeout=700, cwd=f"{V}/{h}")


def run_harness(extended=False, secs=None):
    h = C.get("harness", "harness")
    out = f"{WORK}/harness{'_x' if extended else ''}.json"
    if os.path.exists(out):
        os.remove(out)
    cmd = [f"{V}/{h}/target/debug/{C['bin']}", "--out", out, "--seed", str(SEED)] + C.get("args", [])
    if THOROUGH:
        cmd.append("--thorough")
    if extended:
        cmd.append("--extended")
    if secs:
        cmd += ["--secs", str(secs)]
    rc, so, se = run(cmd, env=HENV, timeout=500, cwd=WORK)
    if os.path.exists(out):
        try:
            return json.load(open(out))
        except Exception:
            pass
    return {"crash": rc, "stdout": so[-1500:], "stderr": se[-1500:]}


def main():
    res = {}
    units = C.get("units", [])

    def tier1():
        t = time.time()
        rc, so, se = run(["cargo", "build", "--offline", "-q"], timeout=400, cwd=f"{V}/vx")
        if rc != 0:
            res["units"] = [{"unit": u, "status": "no-answer", "detail": "vx build failed: " + se[-400:], "functions": [],
                             "trusted": [], "verified": 0, "errors": 0, "failed": []} for u in units]
            return
        outs = [None] * len(units)

        def one(i, u):
            try:
                outs[i] = verify_unit(u)
            except Exception as e:  # machinery failure: no answer from this unit
                outs[i] = {"unit": u, "status": "no-answer", "detail": repr(e), "functions": [], "trusted": [],
                           "verified": 0, "errors": 0, "failed": []}
        th = [threading.Thread(target=one, args=(i, u)) for i, u in enumerate(units)]
        [x.start() for x in th]
        [x.join() for x in th]
        res["units"] = outs

    def tier2():
        if "bin" not in C:
            res["harness"] = None
            return
        rc, so, se = build_harness()
        if rc != 0:
            res["harness"] = {"build_failed": se[-1500:]}
            return
        res["harness"] = run_harness()

    a, b = threading.Thread(target=tier1), threading.Thread(target=tier2)
    a.start(); b.start(); a.join(); b.join()
    U, H = res["units"], res["harness"]

    known = []
    kf = f"{V}/known_findings.txt"
    if os.path.exists(kf):
        for l in open(kf):
            g = re.match(r"known: property=(\S+) class=(\S+) (.*)", l.strip())
            if g and g.group(1) == PID:
                known.append((g.group(2), g.group(3)))
    kcls = {k for k, _ in known}

    def failures(h):
        return [f for f in (h or {}).get("failures", []) if f["class"] not in kcls]

    proof_failed = [f for u in U for f in u["failed"]]
    fails = failures(H)
    crash = bool(H and "crash" in H)
    harness_ok = bool(H and "evaluations" in H)
    unproved = [u for u in U if u["status"] != "proved"]
    if not fails and not crash and harness_ok and unproved:
        # the proof was not redone from this source: search longer for a failing input
        H2 = run_harness(extended=True, secs=None if not THOROUGH else 200)
        if "evaluations" in H2:
            fails = failures(H2)
            H2["evaluations"] += H["evaluations"]
            H2["distinct"] = max(H2["distinct"], H["distinct"])
            H = H2
        elif "crash" in H2:
            crash, H = True, H2

    viol = None
    rdir = f"{V}/work/replays"
    os.makedirs(rdir, exist_ok=True)
    rp = f"{rdir}/{PID}.txt"
    if os.path.exists(rp):
        os.remove(rp)
    if fails:
        with open(rp, "w") as f:
            f.write(f"property {PID}: {C['title']}\nreplayed on the real crates by: {V}/{C.get('harness','harness')}/target/debug/{C['bin']} "
                    f"--out /dev/stdout --seed {SEED} {' '.join(C.get('args', []))}\n\n")
            for x in fails[:8]:
                f.write(f"[{x['class']}] {x['message']}\n  input: {x['input']}\n\n")
            for x in proof_failed:
                f.write(f"rejected obligation: {x['obligation']}\n  {x['text']}\n")
        viol = f"VIOLATION property={PID} replay={rp}"
    elif crash:
        with open(rp, "w") as f:
            f.write(f"property {PID}: {C['title']}\nthe harness process died (exit {H['crash']}) on the real crates\n{H['stdout']}\n{H['stderr']}\n")
        viol = f"VIOLATION property={PID} replay={rp}"
    elif proof_failed:
        with open(rp, "w") as f:
            f.write(f"property {PID}: {C['title']}\nno failing input found; the verifier rejected these obligations generated from {REPO}:\n\n")
            for x in proof_failed:
                f.write(f"obligation: {x['obligation']}\n  text: {x['text']}\n{x['output']}\n\n")
        viol = f"VIOLATION property={PID} replay={rp} no-failing-input-found"

    proved = [u for u in U if u["status"] == "proved"]
    obligations = sum(u["verified"] + u["errors"] for u in U)
    trusted = sorted({t for u in U for t in u["trusted"]})
    assumptions = list(C.get("assumptions", [])) + CFG["_common"]["assumptions"]
    for u in unproved:
        assumptions.append(f"NOT PROVED ON THIS SOURCE: unit {u['unit']}: {u['status']}: {u.get('detail', '')}"[:700])
    ev = {
        "property": PID, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": C.get("level", "proof"),
        "coverage": {
            "obligations": obligations,
            "discharged": sum(u["verified"] for u in U),
            "checker_cmd": "verus 0.2026.09.13 (z3 back end) on units " + ", ".join(units) + f" extracted from {REPO} by /verif/vx",
            "trusted_base": trusted + CFG["_common"]["trusted"],
            "functions_under_contract": sorted({f for u in proved for f in u["functions"]}),
            "units": [{k: u.get(k) for k in ("unit", "status", "verified", "errors", "smt_ms", "wall_s", "clauses",
                                             "vacuity_points", "vacuity_ok", "vacuity_open", "detail")} for u in U],
            "solver_ms": sum(u.get("smt_ms", 0) or 0 for u in U),
            "bounded_replay": None if not H else {
                "label": "BOUNDED: not counted as proved",
                **({k: H[k] for k in ("evaluations", "distinct", "rule", "groups", "wall_s")} if "evaluations" in H else {"problem": H}),
            },
            "contracts_used_from_other_units": sorted({x for u in U for x in u.get("uses", [])}),
            "evaluations": (H or {}).get("evaluations", 0),
            "distinct_nontrivial": (H or {}).get("distinct", 0),
            "rule": (H or {}).get("rule", "none"),
            "samples": (H or {}).get("samples", [])[:6],
            "explanation": C.get("explanation", ""),
        },
        "assumptions": assumptions,
        "wall_s": round(time.time() - T0, 2),
        "violations": 1 if viol else 0,
    }
    json.dump(ev, open(f"{V}/evidence/{PID}.json", "w"), indent=1)

    for u in U:
        print(f"unit {u['unit']}: {u['status']} ({u['verified']} verified, {u['errors']} errors) {u.get('detail', '')[:300]}")
    if H and "evaluations" in H:
        print(f"bounded replay: {H['evaluations']} evaluations, {H['distinct']} distinct")
    elif H:
        print("bounded replay: " + json.dumps(H)[:800])
    seen = {f["class"] for f in (H or {}).get("failures", [])}
    for k, what in known:
        if k in seen:
            print(f"KNOWN-FINDING: property={PID} {what}")
    if viol:
        print(open(rp).read()[:3000])
        print(viol)
        sys.exit(1)
    if not proved and not harness_ok:
        print(f"{PID}: no answer (nothing could be proved or run)")
        sys.exit(2)
    print(f"{PID}: held ({'proof redone' if not unproved else 'PROOF NOT REDONE, bounded replay only'})")
    sys.exit(0)


main()
