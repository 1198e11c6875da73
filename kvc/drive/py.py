"""Runs replay/pydrive.py, which compares the compiled Python module with the compiled Rust functions, and, where the property
also has a part outside the module, the Rust harness."""
import json, os, subprocess


def run(pid, seed, budget, work, target, harness, cargs):
    out = work + "/%s.drive.json" % pid
    if os.path.exists(out):
        os.remove(out)
    mod = work + "/%s.py" % pid
    env = dict(os.environ, PYTHONPATH="/opt/kom-venv/lib/python3.12/site-packages:" + mod, PYTHONDONTWRITEBYTECODE="1", RUST_BACKTRACE="0")
    cmd = ["/usr/bin/python3.12", "/verif/replay/pydrive.py", pid, str(seed), str(budget), target + "/debug/kvreplay", out]
    try:
        r = subprocess.run(cmd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, timeout=budget * 3 + 120)
        err = r.stderr[-300:]
    except subprocess.TimeoutExpired:
        err = "timeout"
    if os.path.exists(out):
        res = json.load(open(out))
    else:
        res = {"evaluations": 0, "distinct_nontrivial": 0, "samples": [], "skipped": {"the Python driver gave no answer: " + err: 1}, "fails": [], "hooks": None}
    if pid == "C29":
        h = harness(cargs + ["--rounds", "20000"], min(budget, 5))
        for k in ("evaluations", "distinct_nontrivial"):
            res[k] = res.get(k, 0) + h.get(k, 0)
        res["samples"] = res["samples"][:6] + h.get("samples", [])[:3]
        res["fails"] = res["fails"] + h.get("fails", [])
        res["skipped"].update(h.get("skipped", {}))
    return res
