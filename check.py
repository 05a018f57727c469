#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]

Decides one property of the crate in /repo from its current source.
exit 0: no violation found (open obligations are listed in the evidence)
exit 1: VIOLATION line(s) on stdout
exit 2: the machinery itself could not run
"""
import argparse
import json
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from checks import analyser, props  # noqa: E402


def known():
    out = {}
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding: property="):
                rest = line[len("finding: property="):]
                pid, _, key = rest.partition(" ")
                key, _, text = key.partition(" :: ")
                out.setdefault(pid, {})[key.strip()] = text.strip()
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    p = props.PROPS[a.property]
    an = analyser.Analyser()
    try:
        res = p["run"](an, a.tier, seed)
    except analyser.Failure as e:
        print("ERROR:", e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        an.close()
    obs = res["obs"]
    bad = [o for o in obs if o[2] == "violated"]
    und = [o for o in obs if o[2] == "undecided"]
    ok = [o for o in obs if o[2] == "ok"]
    kn = known().get(a.property, {})
    hit = {}
    new = []
    for o in bad:
        m = next((k for k in kn if o[1] == k), None)
        if m is not None:
            hit.setdefault(m, o)
        else:
            new.append(o)
    cov = {
        "explanation": p["explanation"],
        "rule": p["rule"],
        "obligations": len(obs),
        "discharged": len(ok),
        "undecided": [{"obligation": o[1], "why": o[3]} for o in und][:50],
        "undecided_count": len(und),
        "violations": [{"obligation": o[1], "what": o[3]} for o in new][:50],
        "known_findings": [{"obligation": o[1], "what": o[3]} for o in hit.values()],
        "checker_cmd": f"python3 /verif/check.py {a.property} --tier {a.tier}",
        "trusted_base": p.get("trusted", props.TRUSTED),
        "samples": [{"obligation": o[1], "outcome": o[2]} for o in obs[:: max(1, len(obs) // 12)]][:14],
        "functions_analysed": res.get("functions", []),
    }
    cov.update({k.replace(" ", "_"): v for k, v in res.get("stats", {}).items()})
    ev = {"property": a.property, "tier": a.tier, "seed": seed, "level": p["level"], "coverage": cov, "wall_s": round(time.time() - t0, 2)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", a.property + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{a.property}: {len(obs)} obligations, {len(ok)} discharged, {len(bad)} violated, {len(und)} undecided, {time.time()-t0:.1f} s")
    for o in und[:10]:
        print(f"  undecided: {o[1]}: {o[3][:300]}")
    for k, o in hit.items():
        print(f"KNOWN-FINDING: property={a.property} {k} :: {o[3]}")
    if new:
        rp = os.path.join(VERIF, "evidence", a.property + ".violation.txt")
        with open(rp, "w") as f:
            for o in new:
                f.write(f"{o[1]}\n    {o[3]}\n")
        for o in new[:10]:
            print(f"  violated: {o[1]}: {o[3][:600]}")
        print(f"VIOLATION property={a.property} replay={rp}")
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
