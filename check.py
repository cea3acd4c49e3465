#!/usr/bin/env python3
"""check.py <PROPERTY> [quick|thorough] -- decide one property on /repo's tree."""
import json
import os
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.setrecursionlimit(20000)

from engine import prep          # noqa: E402
from engine.interp import Program  # noqa: E402
from engine.spec import Rule     # noqa: E402
import rules                     # noqa: E402


def known():
    out = {}
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln:
                d = json.loads(ln)
                if d.get("status") == "known":
                    out.setdefault(d["property"], {})[d["key"]] = d["what"]
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    cfgs = [""] if tier == "quick" else ["", "openzeppelin-stylus/reentrant"]
    ev = os.path.join(VERIF, "evidence")
    os.makedirs(os.path.join(ev, "replay"), exist_ok=True)
    meta = rules.PROPS[prop]
    viol, cov_cfg, und = [], [], []
    tot = dict(obligations=0, discharged=0, functions=0, paths=0, cases=0, call_sites=0, undecided=0)
    samples = []
    fns = set()
    unm = {}
    notes = []
    for cfg in cfgs:
        try:
            d, secs = prep.prepare(cfg)
        except prep.BuildError as e:
            print(e)
            print(f"NO ANSWER property={prop}: the tree could not be analysed")
            return 2
        progs = rules.Progs(d)
        R = Rule(prop, progs)
        R.tier = tier
        try:
            meta["run"](R)
        except Exception as e:  # an unforeseen shape of the code is not a verdict
            import traceback
            R.undecided.append(f"analysis stopped: {e!r} {traceback.format_exc()[-300:]}")
        for f in meta.get("floor", {}).items():
            have = len(R.obligations)
            if f[0] == "obligations" and have < f[1] and not R.undecided:
                R.violation(f"floor:{f[0]}", f"only {have} obligations found, {f[1]} expected")
        viol += R.violations
        und += R.undecided
        tot["obligations"] += len(R.obligations)
        tot["discharged"] += sum(1 for _, ok in R.obligations if ok)
        tot["functions"] += len(R.functions)
        tot["paths"] += R.paths
        tot["cases"] += R.cases
        tot["call_sites"] += R.callsites
        tot["undecided"] += len(R.undecided)
        fns |= set(R.functions)
        unm.update(R.unmodelled)
        samples += [n for n, ok in R.obligations]
        notes += R.notes
        cov_cfg.append({"features": cfg or "default", "prepare_s": round(secs, 1)})
    kf = known().get(prop, {})
    rest, seen = [], set()
    printed = set()
    for v in viol:
        if v["key"] in kf:
            if v["key"] not in printed:
                printed.add(v["key"])
                print(f"KNOWN-FINDING: property={prop} {kf[v['key']]}")
            continue
        if v["key"] in seen:
            continue
        seen.add(v["key"])
        rest.append(v)
    for u in und:
        print(f"UNDECIDED property={prop} {u}")
    for n in notes:
        print("NOTE", n)
    cov = {
        "explanation": "Static analysis of the type-checked MIR of the current tree: every abstract path of each listed entry point "
                       "(callees inlined, loops summarised by induction, storage/host operations given by transfer functions) is compared with the "
                       "property's effect table. " + meta["title"],
        "rule": meta["rule"], "obligations": tot["obligations"], "discharged": tot["discharged"],
        "functions_analysed": tot["functions"], "abstract_paths": tot["paths"], "table_cases": tot["cases"],
        "call_sites_resolved": tot["call_sites"], "undecided": und, "unmodelled_callees": sorted(unm),
        "configurations": cov_cfg, "samples": samples[:80], "function_list": sorted(map(str, fns))[:400],
        "checker_cmd": f"python3 check.py {prop} {tier}",
        "trusted_base": "rustc type checker and MIR construction (nightly), the MIR dump driver, the transfer functions for stylus-sdk/alloy/core/alloc, the effect tables in /verif/rules",
    }
    known_hit = sorted(printed)
    evd = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other", "coverage": cov,
           "wall_s": round(time.time() - t0, 2), "violations": len(rest),
           "assumptions": meta.get("assumes", []) + [f"known finding: {k}" for k in known_hit]}
    with open(os.path.join(ev, prop + ".json"), "w") as f:
        json.dump(evd, f, indent=1)
    if rest:
        rp = os.path.join(ev, "replay", prop + ".json")
        with open(rp, "w") as f:
            json.dump({"property": prop, "violations": rest, "replay": f"python3 /verif/check.py {prop} {tier}"}, f, indent=1)
        for v in rest[:20]:
            print(f"  {v['where']}: {v['msg']}")
            for x in v["detail"][:2]:
                print("      " + x[:1200])
        print(f"VIOLATION property={prop} replay={rp}")
        return 1
    print(f"OK property={prop} obligations={tot['discharged']}/{tot['obligations']} functions={tot['functions']} paths={tot['paths']} "
          f"cases={tot['cases']} undecided={tot['undecided']} wall={evd['wall_s']}s")
    return 0


if __name__ == "__main__":
    sys.exit(main())
