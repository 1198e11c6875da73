#!/usr/bin/env python3
"""check.py <property>: decides one property for /repo's current working tree.

1. builds /repo (with the verification hooks; without them if the hooked build fails) and prints its MIR;
2. proves the property's contracts over that MIR (kvc, kvc/specs/<id>.py);
3. replays refutations, and explores the property within stated bounds, on the compiled crate (replay/);
4. writes evidence/<id>.json; exit 0, or exit 1 with a VIOLATION line."""
import fcntl, json, os, re, shutil, subprocess, sys, time
V = "/verif"
PID = sys.argv[1]
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = "thorough" if (os.environ.get("VERIF_TIER") == "thorough" or "--thorough" in sys.argv) else "quick"
W = os.environ.get("KV_WORK", V + "/.build")          # build products and scratch files
EV = os.environ.get("KV_EVIDENCE", V + "/evidence")
B = W + "/t"
T0 = time.time()
ENV = dict(os.environ, KV_TARGET=B)
REPO = os.environ.get("KV_REPO", "/repo")
PY = "/opt/veriftools/pyvenv/bin/python3"
PROVE_S = 1500 if TIER == "thorough" else 330
EXPLORE_S = 300 if TIER == "thorough" else 15
sys.path.insert(0, V)


def log(*a):
    print("[%s %.1fs]" % (PID, time.time() - T0), *a, flush=True)


def sh(cmd, timeout, **kw):
    try:
        return subprocess.run(cmd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    except subprocess.TimeoutExpired as e:
        class R: pass
        r = R(); r.returncode = -99; r.stdout = (e.stdout or b"").decode() if isinstance(e.stdout, bytes) else (e.stdout or ""); r.stderr = "timeout"
        return r


def build():
    """-> (hooks, mir file)"""
    os.makedirs(W, exist_ok=True)
    mirf = W + "/%s.mir" % PID
    lock = open(W + "/lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        err = ""
        for flags in ("--cfg komunikilo_verif", ""):
            e = dict(ENV, KV_FLAGS=flags)
            r = sh([V + "/replay/build.sh"], 600, env=e)
            if r.returncode:
                err = r.stderr[-3000:]
                continue
            if os.path.exists(B + "/debug/deps/libkomunikilo.so"):
                # the Python module (printing the MIR below removes it)
                os.makedirs(W + "/%s.py" % PID, exist_ok=True)
                shutil.copy(B + "/debug/deps/libkomunikilo.so", W + "/%s.py/komunikilo.so" % PID)
            r = sh([V + "/mir.sh", mirf], 300, env=e)
            if r.returncode:
                err = r.stderr[-3000:]
                continue
            return bool(flags), mirf, ""
        return None, None, err
    finally:
        lock.close()


def mine(mirf):
    """integer and float constants of the code, as extra test values (never part of a verdict)"""
    s = open(mirf).read()
    ints = {int(x.replace("_", "")) for x in re.findall(r"const (\d[\d_]*)_(?:usize|u64|i32|u8|u32)", s)}
    for b in {int(x) for x in re.findall(r" as [ui](8|16) \((?:IntToInt|FloatToInt)\)", s)}:
        ints |= {(1 << b) - 1, 1 << b, (1 << b) + 1, 1 << (b - 1)}
    fl = {float(x.replace("_", "")) for x in re.findall(r"const ([-+]?[\d.]+(?:E[-+]?\d+)?)f64", s)}
    for a, b in re.findall(r"Shl\(const (\d+)_\w+, const (\d+)_", s):
        if int(b) < 40:
            ints.add(int(a) << int(b))
    return sorted(x for x in ints if 2 < x < 100000)[:60], sorted(fl)[:60], sorted(x for x in ints if 10000 < x <= 4000000)[:12]


def harness(args, budget):
    exe = B + "/debug/kvreplay"
    cmd = [exe, PID, "--seed", str(SEED), "--budget", str(budget)] + args + (["--thorough"] if TIER == "thorough" else [])
    r = sh(cmd, budget + 150)
    try:
        return json.loads(r.stdout.strip().splitlines()[-1])
    except Exception:
        pass
    tr = W + "/%s.trace" % PID
    if os.path.exists(tr):
        os.remove(tr)
    r = sh(cmd, budget + 150, env=dict(os.environ, KV_TRACE=tr))
    try:
        return json.loads(r.stdout.strip().splitlines()[-1])
    except Exception:
        inp = open(tr).read() if os.path.exists(tr) else None
        f = [{"input": inp, "failure": "the process died (exit %s) %s" % (r.returncode, r.stderr[-300:])}] if inp and r.returncode != -99 else []
        return {"evaluations": 0, "distinct_nontrivial": 0, "samples": [], "skipped": {"harness gave no answer": 1}, "fails": f, "hooks": None}


def refuted_any(proof):
    return bool(proof["refuted"])


def main():
    from kvc import meta
    info = meta.INFO[PID]
    hooks, mirf, err = build()
    if mirf is None:
        log("the crate does not build:\n" + err)
        return 2
    log("built, hooks %s" % ("on" if hooks else "OFF (hooked build failed)"))
    ints, floats, bigs = mine(mirf)
    cargs = ["--consts", ",".join(map(str, ints)), "--fconsts=", ",".join(map(str, floats))]
    cargs[2] = "--fconsts"
    cargs += ["--bigs", ",".join(map(str, bigs))]
    # the bounded exploration runs next to the proof
    explorer = None
    import threading
    res = {}
    if info.get("explore", True):
        if info.get("driver"):
            mod = __import__("kvc.drive." + info["driver"], fromlist=["x"])
            explorer = threading.Thread(target=lambda: res.update(mod.run(PID, SEED, EXPLORE_S, W, B, harness, cargs)))
        else:
            explorer = threading.Thread(target=lambda: res.update(harness(cargs + ["--rounds", "1000000" if TIER == "thorough" else "60000"], EXPLORE_S)))
        explorer.start()
    proof = {"obligations": 0, "discharged": 0, "functions": [], "contracts": {}, "std": [], "callee_contracts": [], "notes": [], "assumed": [],
             "undecided": [], "refuted": [], "backends": {}, "list": [], "wall": 0}
    out = W + "/%s.proof.json" % PID
    if os.path.exists(out):
        os.remove(out)
    r = sh([PY, "-m", "kvc.run", PID, mirf, out, "--deadline", str(PROVE_S * 0.8)], PROVE_S, cwd=V)
    if os.path.exists(out):
        proof = json.load(open(out))
    else:
        proof["undecided"].append(["verifier", "no answer: " + (r.stderr or "")[-400:]])
        proof["obligations"] = 1
    log("proof: %d/%d obligations discharged, %d undecided, %d refuted" % (proof["discharged"], proof["obligations"], len(proof["undecided"]), len(proof["refuted"])))
    if explorer:
        explorer.join()
        log("exploration: %d evaluations, %d failures" % (res.get("evaluations", 0), len(res.get("fails", []))))
    fails = list(res.get("fails", []))
    # replay refutations on the real code
    def again(extra, budget):
        if info.get("driver"):
            return mod.run(PID, SEED + 1, budget, W, B, harness, cargs)
        return harness(cargs + extra + ["--rounds", "1000000"], budget)

    if proof["refuted"] and not fails:
        hints = []
        for o in proof["refuted"][:6]:
            w = ",".join("%s=%r" % (re.sub(r"[!#].*", "", k), v) for k, v in o["witness"].items() if isinstance(v, (int, float)) and not isinstance(v, bool))
            if w:
                hints += ["--hint", w]
        h = again(hints, 30)
        res["replay_evaluations"] = h.get("evaluations", 0)
        fails = h.get("fails", [])
        log("replay of refutations: %d evaluations, %d failures" % (h.get("evaluations", 0), len(fails)))
    undec = [u for u in proof["undecided"]]
    if undec and not fails and not refuted_any(proof) and info["level"] == "proof":
        # the proof is incomplete on this tree: look harder for a failing input
        h = again(["--deep"], 60)
        res["deep_evaluations"] = h.get("evaluations", 0)
        fails = h.get("fails", [])
        log("proof incomplete, deep exploration: %d evaluations, %d failures" % (h.get("evaluations", 0), len(fails)))
    # known findings: an exact input and failure recorded beforehand
    known = [l for l in meta.known_findings(PID)]
    listed, fresh = [], []
    for f in fails:
        k = next((k for k in known if k and k in (f["input"] or "") + " " + f["failure"]), None)
        (listed if k else fresh).append(f)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (PID, k))
    refuted = proof["refuted"]
    violated = bool(fresh or refuted)
    os.makedirs(EV, exist_ok=True)
    replay = ("evidence" if EV == V + "/evidence" else EV) + "/%s.replay.json" % PID
    if violated:
        json.dump({"property": PID, "seed": SEED, "failing_inputs": fresh, "failed_obligations": refuted,
                   "how_to_replay": "/verif/replay/build.sh && %s/debug/kvreplay %s --seed %d %s" % (B, PID, SEED, " ".join(cargs)),
                   "verifier_output": (r.stdout or "")[-6000:]}, open(os.path.join(V, replay), "w"), indent=1)
    elif os.path.exists(os.path.join(V, replay)):
        os.remove(os.path.join(V, replay))
    wall = time.time() - T0
    level = info["level"]
    full = proof["obligations"] > 0 and proof["discharged"] == proof["obligations"]
    st = proof["backends"]
    cov = {"obligations": proof["obligations"], "discharged": proof["discharged"],
           "checker_cmd": "/verif/mir.sh OUT.mir; cd /verif; python3-vt -m kvc.run %s OUT.mir -v" % PID,
           "trusted_base": info["trusted"] + ["assumed contract: " + x for x in proof["std"]],
           "functions_under_contract": proof["contracts"], "functions_executed": proof["functions"],
           "callee_contracts_used": proof["callee_contracts"],
           "back_ends": st, "verifier_wall_s": round(proof.get("wall", 0), 2),
           "undecided": proof["undecided"], "refuted": [o["name"] for o in refuted],
           "obligation_list": ["%s | %s | %s | %s" % tuple(o[:4]) for o in proof["list"]],
           "proved_parts": info.get("proved", ""), "bounded_parts": info.get("bounded", ""),
           "evaluations": res.get("evaluations", 0), "distinct_nontrivial": res.get("distinct_nontrivial", 0),
           "rule": info["rule"], "samples": res.get("samples", []) or ["(none)"], "skipped": res.get("skipped", {}), "hooks": hooks}
    if level == "proof" and not full:
        cov["degraded"] = "this run did not discharge every obligation: the undecided ones were only explored within the bounds stated in rule"
    ev = {"property": PID, "tier": TIER, "seed": SEED, "level": level, "coverage": cov,
          "assumptions": info["assume"] + proof["assumed"] + proof["notes"], "wall_s": round(wall, 2), "violations": len(fresh) + len(refuted)}
    if level == "other":
        cov["explanation"] = info["explanation"]
    json.dump(ev, open(EV + "/%s.json" % PID, "w"), indent=1)
    if violated:
        for f in fresh[:3]:
            log("failing input: %s: %s" % (f["input"], f["failure"]))
        for o in refuted[:5]:
            log("failed obligation: %s (%s)" % (o["name"], o["how"]))
        print("VIOLATION property=%s replay=%s%s" % (PID, replay, "" if fresh else " no-failing-input-found"))
        return 1
    log("holds" + ("" if full else " (not every obligation discharged: bounded for those)"))
    return 0


if __name__ == "__main__":
    sys.exit(main())
