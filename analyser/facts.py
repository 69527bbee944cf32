"""Index over the facts the MIR driver extracted."""
import json
import alg
from alg import Rat, rc, ratom


class Cfg:
    def __init__(self, body):
        blocks = body["blocks"]
        n = len(blocks)
        self.succ = [succs(b["t"]) if not b["c"] else [] for b in blocks]
        # reverse postorder
        order, seen = [], set()
        stack = [(0, iter(self.succ[0]))]
        seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen and not blocks[s]["c"]:
                    seen.add(s)
                    stack.append((s, iter(self.succ[s])))
                    break
            else:
                order.append(b)
                stack.pop()
        order.reverse()
        self.rpo = {b: i for i, b in enumerate(order)}
        self.order = order
        preds = {b: [] for b in order}
        for b in order:
            for s in self.succ[b]:
                if s in preds:
                    preds[s].append(b)
        self.preds = preds
        # dominators
        idom = {0: 0}
        changed = True
        while changed:
            changed = False
            for b in order[1:]:
                new = None
                for p in preds[b]:
                    if p in idom:
                        new = p if new is None else self._meet(idom, p, new)
                if new is not None and idom.get(b) != new:
                    idom[b] = new
                    changed = True
        self.idom = idom
        # natural loops
        self.loops = {}
        self.irreducible = False
        for b in order:
            for s in self.succ[b]:
                if s in self.rpo and self.rpo[s] <= self.rpo[b]:
                    if self.dom(s, b):
                        body_ = self.loops.setdefault(s, {s})
                        work = [b]
                        while work:
                            x = work.pop()
                            if x in body_:
                                continue
                            body_.add(x)
                            work.extend(preds[x])
                    else:
                        self.irreducible = True

    def _meet(self, idom, a, b):
        while a != b:
            while self.rpo[a] > self.rpo[b]:
                a = idom[a]
            while self.rpo[b] > self.rpo[a]:
                b = idom[b]
        return a

    def dom(self, a, b):
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = self.idom[b]


def succs(t):
    k = t["k"]
    if k in ("goto", "drop", "assert"):
        return [t["t"]]
    if k == "switch":
        return list(dict.fromkeys([b for _, b in t["vals"]] + [t["otherwise"]]))
    if k == "call":
        return [t["t"]] if t["t"] is not None else []
    return []


class Facts:
    def __init__(self, path):
        d = json.load(open(path))
        self.raw = d
        self.crate = d["crate"]
        self.fns = {}
        for f in d["fns"]:
            self.fns[f["id"]] = f
        self.adts = {a["id"]: a for a in d["adts"]}
        self.adt_by_name = {a["n"]: a for a in d["adts"]}
        self.impls = d["impls"]
        self._cfg = {}

    def cfg(self, key, body):
        c = self._cfg.get(key)
        if c is None:
            c = self._cfg[key] = Cfg(body)
        return c

    # ------------------------------------------------------------------ lookups by public name
    def local_fns(self):
        return [f for f in self.fns.values() if f["local"]]

    def adt(self, name):
        """local ADT by its last path segment; must be unique"""
        l = [a for a in self.adts.values() if a["local"] and a["n"].split("::")[-1] == name]
        return l[0] if len(l) == 1 else None

    def method(self, ty, name):
        """inherent method of local type `ty` (last path segment)"""
        l = []
        for f in self.fns.values():
            c = f["cont"]
            if f["local"] and c["kind"] == "inherent" and f["name"] == name and c["self"]["t"] == "adt" and c["self"]["n"].split("::")[-1] == ty:
                l.append(f)
        return l

    def trait_method(self, trait, ty, name):
        """method of `impl trait for ty` (last path segments)"""
        l = []
        for f in self.fns.values():
            c = f["cont"]
            if f["local"] and c["kind"] == "traitimpl" and f["name"] == name and c["trait"]["n"].split("::")[-1] == trait:
                s = c["self"]
                if s["t"] == "adt" and s["n"].split("::")[-1] == ty:
                    l.append(f)
        return l

    def find_impl(self, trait, selfty, targs=None):
        """impl of `trait` (pretty path) for a type; returns impl facts"""
        for i in self.impls:
            if not i["trait"]:
                continue
            if i["trait"]["n"] != trait and i["trait"]["n"].split("::")[-1] != trait.split("::")[-1]:
                continue
            if not same_head(i["self"], selfty):
                continue
            if targs and not all(compat(a, b) for a, b in zip(i["trait"]["a"][1:], targs)):
                continue
            return i
        return None

    def impl_item(self, impl, name):
        for it in impl["items"]:
            if it["n"] == name and "id" in it:
                return self.fns.get(it["id"])
        return None


def same_head(a, b):
    if a["t"] != b["t"]:
        return False
    if a["t"] == "adt":
        if a["id"] != b["id"]:
            return False
        return all(compat(x, y) for x, y in zip(a["a"], b["a"]))
    if a["t"] == "ref":
        return same_head(a["e"], b["e"])
    return True


def compat(a, b):
    """could a (with params) match b"""
    if a["t"] in ("param", "alias", "dim") or b["t"] in ("param", "alias", "dim"):
        return True
    if a["t"] != b["t"]:
        return False
    if a["t"] == "adt":
        return a["id"] == b["id"] and all(compat(x, y) for x, y in zip(a["a"], b["a"]))
    if a["t"] in ("ref", "slice", "ptr"):
        return compat(a["e"], b["e"])
    if a["t"] == "prim":
        return a["n"] == b["n"]
    if a["t"] == "const":
        return a["v"] == b["v"]
    return True


def tysub(t, env):
    if not isinstance(t, dict):
        return t
    k = t["t"]
    if k == "param":
        return env.get(t["n"], t)
    if k in ("prim", "alias", "dyn", "fnptr", "other", "dim"):
        return t
    if k == "const":
        v = t["v"]
        if isinstance(v, str):
            # unevaluated const parameter, printed as e.g. "D/#1"
            n = v.split("/")[0]
            if n in env:
                return env[n]
        return t
    if k in ("ref", "ptr", "slice"):
        e = tysub(t["e"], env)
        return t if e is t["e"] else dict(t, e=e)
    if k == "array":
        return dict(t, e=tysub(t["e"], env), len=tysub(t["len"], env))
    if k in ("adt", "tuple", "fndef"):
        a = [tysub(x, env) for x in t["a"]]
        return dict(t, a=a)
    if k == "closure":
        return t
    return t


def unify(pat, t, env):
    """bind params of pat against type t"""
    if pat is None or t is None:
        return
    if pat["t"] == "param":
        env.setdefault(pat["n"], t)
        return
    if pat["t"] != t["t"]:
        return
    if pat["t"] in ("adt", "tuple"):
        for x, y in zip(pat["a"], t["a"]):
            unify(x, y, env)
    elif pat["t"] in ("ref", "ptr", "slice"):
        unify(pat["e"], t["e"], env)
    elif pat["t"] == "array":
        unify(pat["e"], t["e"], env)
    elif pat["t"] == "const" and isinstance(pat["v"], str):
        env.setdefault(pat["v"].split("/")[0], t)


def nat(name):
    a = alg.atom_id(("nat", name))
    alg.NONNEG.add(a)
    alg.INTEG.add(a)
    return Rat(alg.patom(a))


def dimof(t, env=None):
    """dimension denoted by a nalgebra dim type: int, Rat or None"""
    if env:
        t = tysub(t, env)
    k = t["t"]
    if k == "adt":
        last = t["n"].split("::")[-1]
        if last == "Const":
            v = t["a"][0]
            if v["t"] == "const":
                return v["v"] if isinstance(v["v"], int) else nat(v["v"])
            if v["t"] == "dim":
                return v["v"]
        return None
    if k == "const":
        return t["v"] if isinstance(t["v"], int) else nat(t["v"])
    if k == "dim":
        return t["v"]
    if k == "param":
        return nat(t["n"])
    if k == "alias":
        # e.g. <Const<1> as DimName>... : printed form only
        return None
    return None
