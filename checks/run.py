"""Entry point of every check: run.py <property id>.  Exit 0: holds on everything analysed; 1: VIOLATION lines; 2: the
analysis itself could not run."""
import json, os, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import facts


def known(pid):
    p = os.path.join(facts.VERIF, "known_findings.json")
    if not os.path.exists(p):
        return {}
    with open(p) as f:
        d = json.load(f)
    return {e["key"]: e for e in d.get("findings", []) if e["property"] == pid}


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    import registry
    if pid not in registry.CHECKS:
        print("unknown property", pid)
        return 2
    chk = registry.CHECKS[pid]
    try:
        F = facts.load()
        res = chk["run"](F, tier)
    except facts.AnalysisBroken as ex:
        print("ANALYSIS-ERROR property=%s %s" % (pid, ex))
        return 2
    viol, obl, inst, abst, extra = res["viol"], res["obl"], res["inst"], res["abst"], res.get("extra", {})
    kf = known(pid)
    new = {}
    for k in sorted(viol):
        if k in kf:
            print("KNOWN-FINDING: property=%s %s: %s" % (pid, k, kf[k].get("what", "")))
        else:
            new[k] = viol[k]
    rdir = os.path.join(facts.BUILD, "replay")
    os.makedirs(rdir, exist_ok=True)
    n = 0
    for k, x in sorted(new.items()):
        p = os.path.join(rdir, "%s-%d.json" % (pid, n))
        n += 1
        with open(p, "w") as f:
            json.dump({"property": pid, "key": k, "location": x.get("loc"), "construct": x["msg"], "occurrences": x.get("n", 1),
                       "rule": chk["rule"], "rerun": "python3 checks/run.py %s" % pid}, f, indent=1)
        print("VIOLATION property=%s replay=%s" % (pid, p))
        print("  %s | %s | %s" % (x.get("loc"), k, x["msg"][:900]))
    # without a violation an analysis that examined nothing must not pass for a verdict
    if not new and (obl == 0 or not inst):
        print("ANALYSIS-ERROR property=%s nothing was analysed (%s)" % (pid, "; ".join(list(abst.values())[:3])[:500]))
        return 2
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
        "coverage": dict({
            "explanation": chk["rule"],
            "obligations_examined": obl,
            "instances": sorted(inst)[:400],
            "instance_count": len(inst),
            "abstentions": [{"where": k, "why": w[:300]} for k, w in sorted(abst.items())][:200],
            "abstention_count": len(abst),
            "functions_in_program": len(F.fn),
            "translation_units": len(F.units),
            "known_findings_seen": sorted(k for k in viol if k in kf),
        }, **extra),
        "assumptions": chk.get("assumptions", registry.ASSUME),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    os.makedirs(os.path.join(facts.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(facts.VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d obligations on %d instances, %d abstentions, %d violations, %.1f s" % (pid, obl, len(inst), len(abst), len(new), time.time() - t0))
    return 1 if new else 0


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
