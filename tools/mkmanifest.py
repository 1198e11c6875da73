import json, os, sys
sys.path.insert(0, "/verif")
from kvc import meta
NA = {
 "C31": "a statistical convergence claim over random channels: no contract over this crate's code expresses or decides it",
 "C32": "numerical behaviour of the poles and zeros of an IIR design from the external crate sci-rs: a floating-point stability and frequency-response claim outside contracts over this code",
 "C33": "the result is computed by the Python library scipy at run time; the function only forwards to it, so there is nothing of it in this code to put under contract",
}
checks = []
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
na = []
for p in props:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
        continue
    inf = meta.INFO.get(i)
    if inf is None or not os.path.exists("/verif/kvc/specs/%s.py" % i.lower()):
        na.append({"property": i, "reason": "no check yet"})
        continue
    checks.append({"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s --thorough" % i,
                   "evidence_file": "evidence/%s.json" % i,
                   "technique": inf.get("technique", "contract-based deductive verification: obligations generated from the crate's MIR, discharged by a normaliser and z3/cvc5; failing obligations replayed on the compiled crate"),
                   "level": inf["level"], "level_note": inf.get("note") or ("Every obligation is discharged for all inputs over the MIR of /repo's current source. " + (("Bounded (not proved): " + inf["bounded"] + ". ") if inf["bounded"] else "") + "Trusted: MIR printing, the kvc generator, z3/cvc5, assumed contracts of dependencies; reals for f64, unbounded integers for additions and products.")})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "hooks": {"guard": "komunikilo_verif", "enable": "RUSTFLAGS=\"--cfg komunikilo_verif\" (rustc cfg; replay/build.sh and mir.sh set it)", "source_commits": ["399807e", "064e366"]},
           "checks": checks, "not_applicable": na}, open("/verif/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
