#!/usr/bin/env python3
"""check.py PROPERTY [--thorough]: decides one property of /repo's current tree.

exit 0: held on everything analysed; exit 1 with a VIOLATION line otherwise."""
import sys, os, time, json, traceback, importlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "engine"))
sys.path.insert(0, os.path.join(HERE, "checks"))
os.environ.setdefault("PYTHONHASHSEED", "0")


def known():
    out = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: "):
                d = dict(x.split("=", 1) for x in l[7:].split(" ", 2)[:2])
                out[(d["property"], d["key"])] = l[7:].split(" ", 2)[2] if l.count(" ") > 2 else ""
    return out


def main():
    prop = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv else "quick"
    t0 = time.time()
    import farm
    from rules import Report
    from core import big_stack, Lost
    mod = importlib.import_module(prop)
    rep = Report(prop)
    cfgs = mod.CONFIGS if tier == "quick" else getattr(mod, "THOROUGH_CONFIGS", mod.CONFIGS)
    try:
        l = farm.lock()
        for c in cfgs:
            farm.dump(c)
        big_stack(lambda: mod.run(rep, tier))
    except farm.FarmError as e:
        # a tree that does not build is somebody else's finding; only when the compiler itself rejects the
        # workspace's source is it reported here
        import re
        hit = re.search(r"could not compile `([^`]+)`", str(e))
        rep.judge("tree-compiles", "cargo check:" + (hit.group(1) if hit else "?"), False if hit and "error" in str(e) else None, str(e)[-600:])
    except Lost as e:
        rep.bad("anchor-present", str(e), "a public entry point this property is about is gone")
    except Exception as e:
        # the analysis itself gave up: nothing is claimed about this tree
        rep.und("analysis-completed", type(e).__name__, traceback.format_exc()[-800:])
    if any(o[0] == "analysis-completed" for o in rep.obs):
        print("UNDECIDED: the analysis stopped early: " + [o for o in rep.obs if o[0] == "analysis-completed"][0][3][-300:])
    kn = known()
    viol, knowns = [], []
    for o in rep.obs:
        if o[2] == "violated":
            key = "%s@%s" % (o[0], o[1])
            key = key.replace(" ", "_")
            (knowns if (prop, key) in kn else viol).append((key, o))
    tal = rep.tally()
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other",
        "coverage": {
            "explanation": mod.EXPLAIN,
            "rule": mod.RULE,
            "analysed": rep.analysed,
            "obligations": len(rep.obs), "proved": tal["proved"], "undecided": tal["undecided"], "violated": tal["violated"],
            "undecided_list": [{"rule": o[0], "where": o[1], "detail": o[3][:300]} for o in rep.obs if o[2] == "undecided"][:60],
            "proved_list": [{"rule": o[0], "where": o[1], "detail": o[3][:200]} for o in rep.obs if o[2] == "proved"][:120],
            "configs": list(cfgs), "notes": rep.notes,
        },
        "assumptions": getattr(mod, "ASSUME", []) ,
        "violations": [{"key": k, "rule": o[0], "where": o[1], "detail": o[3][:1000]} for k, o in viol],
        "wall_s": round(time.time() - t0, 2),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    p = os.path.join(HERE, "evidence", prop + ".json")
    with open(p, "w") as f:
        json.dump(ev, f, indent=1)
    for k, o in knowns:
        print("KNOWN-FINDING: property=%s %s %s" % (prop, k, kn[(prop, k)]))
    for k, o in viol:
        rp = os.path.join(HERE, "evidence", "%s.violation.json" % prop)
        json.dump(ev["violations"], open(rp, "w"), indent=1)
        print("  %s: %s" % (k, o[3][:400]))
    if not knowns and not rep.obs and not viol:
        print("VIOLATION property=%s replay=%s" % (prop, p))
        print("  the check found nothing to analyse")
        sys.exit(1)
    print("%s: %d obligations, %d proved, %d undecided, %d violated (%.1f s)" % (prop, len(rep.obs), tal["proved"], tal["undecided"], tal["violated"], time.time() - t0))
    if viol:
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        sys.exit(1)
    sys.exit(0)


if __name__ == "__main__":
    if os.environ.get("PYTHONHASHSEED") != "0":
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable] + sys.argv)
    try:
        main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)
