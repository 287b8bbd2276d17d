#!/usr/bin/env python3
"""check.py <property id> [...]: analyse /repo's current source and decide the property.

Exit 0: no violation that known-findings.json does not list.  Exit 1: `VIOLATION property=<id> replay=<path>`."""
import json
import os
import sys
import time
import traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(100000)
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import registry
from extract import ExtractError


def known():
    p = os.path.join(VERIF, "known-findings.json")
    return json.load(open(p))["findings"] if os.path.exists(p) else []


def main():
    pid = sys.argv[1]
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2 and sys.argv[2] == "--thorough":
        tier = "thorough"
    rule, parts = registry.PROPS[pid]
    results, errors = [], []
    for p in parts:
        try:
            results.append(registry.get(p, tier))
            errors += ["%s: %s" % (p, x) for x in getattr(results[-1], "errors", [])]
        except ExtractError as e:
            print("the source could not be analysed: %s" % e)
            errors.append("extraction: %s" % str(e)[:2000])
        except Exception as e:       # the analysis does not understand the code: undetermined, never an alarm
            errors.append("%s: %s: %s" % (p, type(e).__name__, str(e)[:500]))
            traceback.print_exc()
    finds, und, ok, samples, scope = [], {}, 0, [], {}
    for r in results:
        finds += [f for f in r.findings if pid in f.props]
        for k, n in r.undet.get(pid, {}).items(): und[k] = und.get(k, 0) + n
        ok += r.ok.get(pid, 0)
        samples += r.samples.get(pid, [])
        scope.update(r.scope)
    kn = {k["key"]: k for k in known() if k["property"] == pid}
    new = []
    seen = set()
    for f in finds:
        if f.key in seen:
            continue
        seen.add(f.key)
        if f.key in kn:
            print("KNOWN-FINDING: property=%s %s" % (pid, kn[f.key]["what"]))
        else:
            new.append(f)
    step = max(1, len(samples) // 60)
    cov = {
        "explanation": rule,
        "obligations_decided": ok,
        "obligations_undetermined": sum(und.values()),
        "undetermined": [{"what": k, "times": n} for k, n in sorted(und.items())][:80],
        "violations": [{"key": f.key, "what": f.text, "where": f.where} for f in new],
        "known_findings": sorted(k for k in kn if k in seen),
        "analysed": scope,
        "analysis_errors": errors,
        "samples": samples[::step][:60],
    }
    if os.environ.get("CHIWAWA_REPO"):
        cov["repo"] = os.environ["CHIWAWA_REPO"]
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other", "coverage": cov,
          "wall_s": round(time.time() - t0, 1)}
    ed = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
    os.makedirs(ed, exist_ok=True)
    path = os.path.join(ed, pid + ".json")
    json.dump(ev, open(path, "w"), indent=1)
    for f in new:
        print("%s: %s\n    at %s  [%s]" % (pid, f.text, f.where, f.key))
    if und:
        print("%s: %d obligations undetermined (see %s)" % (pid, sum(und.values()), path))
    for e in errors:
        print("%s: UNDETERMINED: %s" % (pid, e))
    if new:
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if ok == 0:
        print("%s: no obligation could be decided; this is not a pass" % pid)
        return 2
    print("%s: held on %d obligations (%.1f s)" % (pid, ok, time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
