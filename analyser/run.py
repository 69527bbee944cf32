#!/usr/bin/env python3
"""run.py <property> [quick|thorough]  --  decide one property on /repo's current source"""
import os, signal, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import alg, build, check
from facts import Facts


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    import rules
    fn = rules.PROPS[pid]
    from meta import META
    meta = META.get(pid, {})
    configs = meta.get("thorough" if tier == "thorough" else "quick") or (["full", "none"] if tier == "thorough" else ["full"])
    if os.environ.get("CAMGEOM_FACTS"):
        configs = ["full"]
    ctxs = []

    def late(*a):
        signal.alarm(10)        # what is still to be decided gets little more
        raise alg.Blowup("out of time")
    signal.signal(signal.SIGALRM, late)
    for cf in configs:
        p = os.environ.get("CAMGEOM_FACTS")
        if not p:
            try:
                p = build.facts(cf)
            except build.BuildError as e:
                print("cannot analyse %s: %s" % (cf, e))
                return 2
            facts = Facts(p)
            os.unlink(p)
        else:
            facts = Facts(p)
        c = check.Ctx(pid, tier, cf, facts)
        c.deadline = t0 + 800
        ctxs.append(c)
        signal.alarm(max(60, int((700 - (time.time() - t0)) / (len(configs) - len(ctxs) + 1))))
        c.guard("analysis", "(property)", lambda: fn(c))
        signal.alarm(0)
    return check.conclude(pid, tier, ctxs, t0, meta.get("level", "other"), meta.get("technique", "value-flow analysis"))


if __name__ == "__main__":
    sys.exit(main())
