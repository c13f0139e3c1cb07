#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property of properties.jsonl on /repo's current tree.

Nothing of the analysed program is executed: its functions are type-checked, their MIR is dumped by
driver/mirfacts.rs and interpreted abstractly by sa/.  Exit 0: every obligation discharged.  Exit 1 with a
VIOLATION line: an obligation failed, or the analysis could not decide it (the report names the construct).
"""
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "sa"))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)


def known_findings():
    r = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith("known: "):
                # known: property=<id> key=<key> | text
                head, _, text = ln[7:].partition(" | ")
                d = dict(x.split("=", 1) for x in head.split())
                r[(d["property"], d["key"])] = text
    return r


def names(fns):
    """the workspace functions whose bodies were interpreted"""
    import registry
    r = set()
    for which, i in fns:
        fn = registry.F(which).fns[i]
        r.add(fn["name"] if "name" in fn else str(i))
    return sorted(r)


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    evdir = os.environ.get("VERIF_EVIDENCE", os.path.join(HERE, "evidence"))
    os.makedirs(evdir, exist_ok=True)
    import registry
    spec = registry.PROPS[prop]
    viol = []
    cov = {}
    undecided = None
    fns = set()
    try:
        rep, fns = registry.run(prop, tier)
        viol = [v for v in rep.viol if v[0] == prop]
        cov = dict(rep.cov.get(prop, {}))
        for what, floor in spec["floors"].items():
            if cov.get(what, 0) < floor:
                viol.append((prop, "coverage-" + what, "only %d %s examined, at least %d expected: the analysis no longer "
                             "reaches the code it has to decide" % (cov.get(what, 0), what, floor), ""))
    except Exception as ex:
        undecided = "%s: %s" % (type(ex).__name__, str(ex)[:600])
        viol.append((prop, "undecided", "the analysis cannot decide the property on this tree: " + undecided, ""))
        trace = traceback.format_exc()
    known = known_findings()
    real = []
    for v in viol:
        if (v[0], v[1]) in known:
            print("KNOWN-FINDING: property=%s %s" % (prop, known[(v[0], v[1])]))
        else:
            real.append(v)
    counts = {k: v for k, v in cov.items() if isinstance(v, int)}
    obligations = sum(counts.values())
    coverage = {
        "explanation": spec["explain"],
        "obligations": obligations,
        "discharged": max(0, obligations - len(viol)),
        "checker_cmd": "python3 check.py %s %s" % (prop, tier),
        "trusted_base": registry.TRUSTED,
        "counts": counts,
        "functions_analysed": len(fns),
        "samples": names(fns)[:400],
    }
    for k, v in cov.items():
        if not isinstance(v, int):
            coverage[k] = v
    ev = {"property": prop, "tier": tier, "seed": seed, "level": spec["level"], "coverage": coverage,
          "assumptions": spec.get("assume", []) + registry.ASSUME, "wall_s": round(time.time() - t0, 2),
          "violations": len(real)}
    with open(os.path.join(evdir, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    if not real:
        print("OK property=%s obligations=%d functions=%d wall=%.1fs" % (prop, obligations, len(fns), time.time() - t0))
        return 0
    path = os.path.join(evdir, prop + ".violation.txt")
    with open(path, "w") as f:
        for v in real:
            f.write("rule %s\n  %s\n  at %s\n" % (v[1], v[2], v[3] or "(see text)"))
        if undecided:
            f.write(trace)
    for v in real[:20]:
        print("  rule %s: %s%s" % (v[1], v[2], " [%s]" % v[3] if v[3] else ""))
    print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1


if __name__ == "__main__":
    import threading
    threading.stack_size(1 << 29)
    rc = []
    t = threading.Thread(target=lambda: rc.append(main()))
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0] if rc else 1)
