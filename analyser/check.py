"""Obligations, their verdicts and the evidence of one property."""
import alg, json, os, signal, sys, time, traceback
from alg import Rat, R0, R1, rc, RHO
from values import *
from facts import Facts
from interp import Undef, Diverge, Paths, assume
from spec import World, Missing, N

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def short(x, n=220):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "…"


class Ctx:
    """one property on one feature configuration"""
    deadline = float("inf")

    def __init__(self, pid, tier, config, facts):
        self.pid, self.tier, self.config = pid, tier, config
        self.F = facts
        self.obs = []
        self.worlds = []
        self.notes = []
        self.counts = {}

    def world(self):
        w = World(self.F)
        self.worlds.append(w)
        return w

    # ------------------------------------------------------------------ recording
    def site(self, fn):
        if isinstance(fn, dict):
            return fn["pretty"], fn["body"]["span"] if "body" in fn else ""
        if isinstance(fn, tuple):
            return fn
        return str(fn), ""

    def rec(self, rule, fn, ok, detail="", unk=False):
        name, span = self.site(fn)
        st = "ok" if ok else ("undetermined" if unk or self.paths and not self.relation else "violation")
        self.obs.append(dict(rule=rule, function=name, at=span, status=st, detail=detail if not ok else "", config=self.config,
                             key="%s | %s" % (rule, name)))
        return ok

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    # ------------------------------------------------------------------ relations
    paths = None        # deciding branch by branch (see guard); only relations between values take part in that
    relation = False

    def eqi(self, a, b):
        if self.paths:
            P, lits = self.paths.pc(), self.paths.lits
            a, b = alg.mul(assume(a, lits), P), alg.mul(assume(b, lits), P)
        return alg.eq_int(a, b)

    def diff(self, a, b, path=""):
        """first differing component of two values (None if equal)"""
        if isinstance(a, (RV,)):
            a = a.v
        if isinstance(b, (RV,)):
            b = b.v
        if isinstance(a, Rat) and isinstance(b, Rat):
            return None if self.eqi(a, b) else (path, a, b)
        if type(a) is not type(b):
            return (path, a, b)
        if isinstance(a, St):
            if a.n != b.n:
                return (path, a, b)
            for k in list(a.f) + [k for k in b.f if k not in a.f]:
                if k not in a.f or k not in b.f:
                    return (path + "." + k, a.f.get(k), b.f.get(k))
                d = self.diff(a.f[k], b.f[k], path + "." + k)
                if d:
                    return d
            return None
        if isinstance(a, Mat):
            if not (veq(torat(a.nr), torat(b.nr)) and veq(torat(a.nc), torat(b.nc))):
                return (path + ".shape", (a.nr, a.nc), (b.nr, b.nc))
            if a.sym != b.sym:
                return (path, a, b)
            if a.sym is None:
                for k in sorted(a.c):
                    if not self.eqi(a.c[k], b.c[k]):
                        return ("%s[%s,%s]" % (path, k[0], k[1]), a.c[k], b.c[k])
                return None
            for j, (x, y) in enumerate(zip(a.c, b.c)):
                if not self.row_eq(x, y, a.nr if a.sym == "r" else a.nc):
                    return ("%s[%s]" % (path, "ρ,%d" % j if a.sym == "r" else "%d,ρ" % j), x, y)
            return None
        if isinstance(a, Rot):
            for i in range(3):
                for j in range(3):
                    if not self.eqi(a.m[i][j], b.m[i][j]):
                        return ("%s.R[%d,%d]" % (path, i, j), a.m[i][j], b.m[i][j])
            return None
        if isinstance(a, Iso):
            d = self.diff(a.r, b.r, path + ".rotation")
            if d:
                return d
            for i in range(3):
                if not self.eqi(a.t[i], b.t[i]):
                    return ("%s.t[%d]" % (path, i), a.t[i], b.t[i])
            return None
        return None if veq(a, b) else (path, a, b)

    def row_eq(self, x, y, n):
        saved = alg.FACTS
        d = alg.sub(alg.sub(torat(n), R1), Rat(alg.patom(RHO)))
        if not d.d:
            alg.FACTS = saved + [d.n]
        try:
            return self.eqi(x, y)
        finally:
            alg.FACTS = saved

    def unk(self, *vs):
        for v in vs:
            if isinstance(v, Op) and v.unk:
                return True
            for r in rats(v) if not isinstance(v, tuple) else ():
                if alg.has_unk(r):
                    return True
            if opaque_unk(v):
                return True
        return False

    def form_only(self, d):
        """two formulas that differ only in how they tell integers apart (see alg.of_form_only)"""
        try:
            return alg.of_form_only(d)
        except (alg.Blowup, Undef, RecursionError):
            return False

    def eq(self, rule, fn, got, want, what="result"):
        try:
            d = self.diff(got, want)
        except alg.Blowup as e:
            return self.rec(rule, fn, False, "comparison too large: %s" % e, True)
        if d is None:
            return self.rec(rule, fn, True)
        p, a, b = d
        if self.paths:
            what = "on the path %s: %s" % (short(self.paths.pc()), what)
        u = self.unk(a, b) or self.form_only(alg.sub(a, b)) if isinstance(a, Rat) and isinstance(b, Rat) else self.unk(got, want)
        return self.related(rule, fn, "%s%s computes %s, required %s" % (what, p, short(a), short(b)), u)

    def related(self, rule, fn, detail, unk):
        self.relation = True
        try:
            return self.rec(rule, fn, False, detail, unk)
        finally:
            self.relation = False

    def holds(self, rule, fn, cond, detail, *unkvals):
        return self.rec(rule, fn, bool(cond), detail, self.unk(*unkvals))

    def flag_one(self, conds):
        """(exactly one of the conditions holds, description, undetermined)"""
        t = R0
        for p in conds:
            t = alg.add(t, p)
        try:
            ok = alg.eq(t, R1) or self.row_eq(t, R1, N)
        except alg.Blowup as e:
            return False, "comparison too large: %s" % e, True
        return ok, "how often: %s" % short(t), self.unk(t) or not ok and self.form_only(alg.sub(t, R1))

    def zero(self, rule, fn, x, what):
        try:
            ok = self.row_eq(x, R0, N)
        except alg.Blowup as e:
            return self.rec(rule, fn, False, "comparison too large: %s" % e, True)
        if ok:
            return self.rec(rule, fn, True)
        return self.related(rule, fn, "%s is %s, required 0" % (what, short(x)), self.unk(x) or self.form_only(x))

    def guard(self, rule, fn, thunk):
        """run a group of obligations; analysis failures are undetermined, missing anchors violations"""
        t0, left = time.time(), signal.alarm(0)
        start = len(self.obs)
        try:
            if t0 > self.deadline:
                raise alg.Blowup("out of time")
            if left:
                signal.alarm(left if rule == "analysis" else min(left, 30 if any(o["status"] == "violation" for o in self.obs) else 150))
            r = self.attempt(rule, fn, thunk)
            if rule != "analysis" and left:
                new = self.obs[start:]
                if os.environ.get("CAMGEOM_PATHWISE"):      # for testing the path-by-path mode itself
                    del self.obs[start:]
                    self.pathwise(rule, fn, thunk, start, 200)
                    return r
                if any(o["status"] == "undetermined" and ("out of time" in o["detail"] or "too large" in o["detail"]) for o in new) and not any(o["status"] == "violation" for o in self.obs):
                    self.pathwise(rule, fn, thunk, start, min(200, int(left - (time.time() - t0)) - 60))
            return r
        except (Undef, alg.Blowup) as e:
            self.rec(rule, fn, False, "not analysable: %s" % e, True)
        finally:
            if left:
                signal.alarm(max(1, int(left - (time.time() - t0))))
        return None

    def pathwise(self, rule, fn, thunk, start, budget):
        """merging the branches made the terms too large: decide the group once per path instead. Obligations that
        the merged analysis left open are replaced only if every path is decided (or one of them is violated)."""
        if budget < 20 or not self.worlds:
            return
        old, self.obs = self.obs, []
        paths = Paths()
        sizes = []
        try:
            signal.alarm(budget)
            self.paths = paths
            for w in self.worlds:
                w.I.paths = paths
            while True:
                n = len(self.obs)
                self.attempt(rule, fn, thunk, True)
                if n and not paths.lits:
                    break
                new = self.obs[n:]
                sizes.append(len(new))
                if any(o["status"] != "ok" for o in new):
                    break
                if not paths.advance():
                    break
        except (Undef, alg.Blowup) as e:
            self.rec(rule, fn, False, "path by path: %s" % e, True)
        finally:
            signal.alarm(0)
            self.paths = None
            for w in self.worlds:
                w.I.paths = None
        new, self.obs = self.obs, old
        if os.environ.get("CAMGEOM_PATHWISE"):
            self.obs[start:] = new
            return
        if len(sizes) < 2 and all(o["status"] == "ok" for o in new):
            return              # nothing to split on
        if all(o["status"] == "ok" for o in new):
            self.obs[start:] = new
            self.notes.append("%s decided path by path (%d paths)" % (rule, len(sizes)))
        else:
            self.obs += [o for o in new if o["status"] == "violation"]

    def attempt(self, rule, fn, thunk, path=False):
        try:
            return thunk()
        except Missing as e:
            self.rec(rule, fn, False, "public item gone: %s" % e)
        except Diverge:
            if not path:        # (that a path aborts is an obligation of its own)
                self.rec(rule, fn, False, "the analysed call never returns normally")
        except (Undef, alg.Blowup) as e:
            self.rec(rule, fn, False, "not analysable: %s" % e, True)
        except (AttributeError, TypeError, KeyError, IndexError, AssertionError, ValueError, RecursionError, NotImplementedError) as e:
            self.rec(rule, fn, False, "analysis error %r\n%s" % (e, traceback.format_exc(limit=-4)), True)
        return None

    def group(self, rule, fn="(group)"):
        """decorator form of guard"""
        def deco(f):
            self.guard(rule, fn, f)
            return f
        return deco


def opaque_unk(v):
    if isinstance(v, Op):
        return v.unk
    if isinstance(v, St):
        return any(opaque_unk(x) for x in v.f.values())
    if isinstance(v, En):
        return any(opaque_unk(x) for p in v.v.values() for x in p.values())
    if isinstance(v, Ar):
        return any(opaque_unk(x) for x in v.x)
    if isinstance(v, RV):
        return opaque_unk(v.v)
    return v is None


# ---------------------------------------------------------------------- driver
def load_known():
    p = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p))["findings"]


def conclude(pid, tier, ctxs, t0, level, technique):
    """evidence, report, exit code"""
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    obs = [o for c in ctxs for o in c.obs]
    known = [k for k in load_known() if k["property"] == pid and k.get("status") == "known"]
    viol, shown = [], []
    for o in obs:
        if o["status"] != "violation":
            continue
        k = [k for k in known if k["key"] == o["key"]]
        if k:
            o["status"] = "known-finding"
            shown.append(k[0])
        else:
            viol.append(o)
    n = len(obs)
    okn = sum(o["status"] == "ok" for o in obs)
    und = [o for o in obs if o["status"] == "undetermined"]
    if n == 0:
        viol.append(dict(rule="coverage", function="-", at="", status="violation", detail="no obligation was generated", config="-", key="coverage"))
    fns = {}
    stm = 0
    loops = {}
    unm = {}
    for c in ctxs:
        for w in c.worlds:
            for i, k in w.I.visited.items():
                fns[i] = fns.get(i, 0) + k
            stm += w.I.stmts
            loops.update(w.I.loops_done)
            unm.update(w.I.unmodelled)
    F = ctxs[0].F
    local = sorted("%s (%s)" % (F.fns[i]["pretty"], F.fns[i]["body"]["span"]) for i in fns if i in F.fns and F.fns[i]["local"])
    rules = {}
    for o in obs:
        r = rules.setdefault(o["rule"], dict(obligations=0, discharged=0))
        r["obligations"] += 1
        r["discharged"] += o["status"] == "ok"
    extra = {}
    for c in ctxs:
        for k, v in c.counts.items():
            extra[k] = extra.get(k, 0) + v if isinstance(v, int) else v
    cov = dict(
        explanation="Static analysis of the type-checked program (MIR extracted from /repo's current source by a rustc driver). "
                    "Method: %s. Every obligation below is an instance of a rule at a function of the analysed crate; "
                    "'undetermined' means a construct outside the analyser's models kept an obligation from being decided." % technique,
        configurations=[c.config for c in ctxs],
        obligations=n, discharged=okn, undetermined=len(und), violations=len(viol), known_findings=len(shown),
        rules=rules,
        functions_analysed=len(local), functions=local, mir_statements_interpreted=stm,
        loops_summarised=loops, unmodelled=sorted(str(u) for u in unm)[:50],
        undetermined_obligations=[{k: o[k] for k in ("rule", "function", "at", "detail")} for o in und][:50],
        samples=[{k: o[k] for k in ("rule", "function", "at", "config")} for o in obs][:12],
        notes=[x for c in ctxs for x in c.notes],
        **extra)
    EV = os.environ.get("CAMGEOM_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(EV, exist_ok=True)
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, wall_s=round(time.time() - t0, 2), violations=len(viol),
              assumptions=["nalgebra/core operations behave as their models (analyser/models.py) state over exact real arithmetic",
                           "rustc's MIR is the program"])
    with open(os.path.join(EV, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    for k in {k["key"]: k for k in shown}.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    print("%s [%s]: %d obligations, %d discharged, %d undetermined, %d functions, %.1f s" % (pid, "+".join(c.config for c in ctxs), n, okn, len(und), len(local), time.time() - t0))
    for o in und[:10]:
        print("  UNDETERMINED %s at %s (%s): %s" % (o["rule"], o["function"], o["at"], o["detail"][:400]))
    if viol:
        rp = os.path.join(EV, pid + ".violations.json")
        json.dump(viol, open(rp, "w"), indent=1, ensure_ascii=False)
        for o in viol[:8]:
            print("  violated rule %s in %s (%s) [%s]: %s" % (o["rule"], o["function"], o["at"], o["config"], o["detail"][:600]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    return 0
