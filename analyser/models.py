"""Semantics of the library functions the analysed crate calls (core, num-traits/simba, nalgebra,
approx, serde, fmt), as transfer functions on abstract values.

A function that is not listed here becomes an opaque function of its arguments marked `unk`.
"""
import itertools
from fractions import Fraction
import alg
import serdeflow
from alg import Rat, R0, R1, rc, gamma, subst, RHO
from values import *
from facts import tysub, dimof, nat, unify

T = {}          # (owner, name) -> handler(M, C)
REALT = {"t": "prim", "n": "real"}


def m(owner, *names):
    def deco(fn):
        for o in owner.split("|"):
            for n in names:
                T[(o, n)] = fn
        return fn
    return deco


class C:
    """one call"""
    __slots__ = ("f", "args", "st", "env", "dest", "span", "a", "I", "M", "name")

    def __init__(self, I, M, f, args, st, env, dest, span):
        self.I, self.M, self.f, self.args, self.st, self.env, self.dest, self.span = I, M, f, args, st, env, dest, span
        self.a = [tysub(x, env) for x in f["a"]]
        self.name = f["name"]

    def val(self, i):
        """argument with references and views resolved"""
        return self.M.val(self.st, self.args[i])

    def mat(self, i):
        return self.M.as_mat(self.val(i))

    def tgt(self, i=0):
        return self.M.tgt(self.st, self.args[i])

    def num(self, i):
        v = self.val(i)
        if isinstance(v, Rat):
            return v
        raise Undef("%s: number expected, got %s" % (self.name, type(v).__name__))

    def div(self, a, b):
        return self.I.divide(a, b, None, self.span)

    def put(self, i, v):
        self.I.store(self.st, self.tgt(i), v)

    def oblige(self, kind, fail, detail=""):
        self.I.oblige(kind, fail, self.st, self.span, detail)

    def inv(self, fv, args):
        return self.I.invoke(fv, args, self.st)


def strip(t):
    while t["t"] == "ref":
        t = t["e"]
    return t


def head(t):
    t = strip(t)
    if t["t"] == "adt":
        return t["n"].split("::")[-1]
    if t["t"] == "prim":
        return t["n"]
    return t["t"]


def ind(key):
    a = alg.atom_id(key)
    alg.IND.setdefault(a, None)
    alg.NONNEG.add(a)
    return Rat(alg.patom(a))


class Models:
    def __init__(self, interp):
        self.I = interp
        self.qr = {}
        self.qr_of = {}
        self.opn = 0

    # ------------------------------------------------------------------ interpreter interface
    def overrides(self, f):
        return self.lookup(f) is not None

    def lookup(self, f):
        c = f["cont"]
        k = c["kind"]
        name = f["name"]
        if k == "trait":
            tr = c["trait"].split("::")[-1]
            h = T.get((tr, name))
            if h is None and tr in ("SimdRealField", "SimdComplexField") and name.startswith("simd_"):
                h = T.get((tr[4:], name)) or T.get((tr[4:], name[5:]))
            return h
        if k == "free":
            return T.get(("free", f["pretty"].split("::<")[0])) or T.get(("free", name) if f["krate"] in ("nalgebra", "num_iter", "core", "itertools") else None)
        tr = c.get("trait")
        if tr:
            tn = tr if isinstance(tr, str) else tr["n"]
            return T.get((tn.split("::")[-1], name))
        s = c.get("self")
        if s is None:
            return None
        return T.get((head(s), name))

    def dispatch(self, f, args, st, env, dest_ty, span):
        I = self.I
        if f.get("ctor"):
            return self.ctor(f, args, dest_ty, env)
        h = self.lookup(f)
        c = C(I, self, f, args, st, env, dest_ty, span)
        if h is None and f["cont"]["kind"] in ("inherent", "trait"):
            h = self.by_value(f, c)
        if h is not None:
            return h(self, c)
        # a method of a trait of the analysed crate on an unknown implementor: an arbitrary function
        if f["krate"] == I.F.crate:
            return self.icall(dest_ty, f["pretty"], [self.val_safe(st, a) for a in args])
        I.unmodelled[f["pretty"]] = I.unmodelled.get(f["pretty"], 0) + 1
        if any(isinstance(a, Ref) and not a.path and isinstance(st.cells.get(a.cell), (Stream, Clo)) for a in args):
            raise Undef("unmodelled " + f["pretty"])
        sig_mut = any(isinstance(a, (Ref, MView)) for a in args) and self.takes_mut(f)
        if sig_mut:
            raise Undef("unmodelled " + f["pretty"])
        return self.opaque(dest_ty, ("ext", f["pretty"]) + tuple(vkey(self.val_safe(st, a)) for a in args), unk=True)

    def takes_mut(self, f):
        return f["name"].endswith("_mut") or f["name"].endswith("_assign") or f["name"] in (
            "push", "next", "fill", "copy_from", "swap", "insert", "clear", "extend", "set_row", "set_column", "append", "replace", "take", "apply", "gemm", "resize", "pop", "truncate", "reverse", "sort")

    def by_value(self, f, c):
        return None

    def ctor(self, f, args, dest_ty, env):
        n = f["pretty"]
        last = n.split("::")[-1]
        fs = {str(i): x for i, x in enumerate(args)}
        if dest_ty and dest_ty["t"] == "adt":
            adt = self.I.F.adts.get(dest_ty["id"])
            if adt:
                if adt["kind"] == "enum":
                    for i, v in enumerate(adt["variants"]):
                        if v["n"] == last:
                            return En(adt["n"], rc(i), {i: fs})
                return self.make_struct(adt["n"], fs)
        if last in ("Some", "None"):
            return En(OPT, R1 if last == "Some" else R0, {1: fs} if args else {0: {}})
        if last in ("Ok", "Err"):
            i = 0 if last == "Ok" else 1
            return En(RES, rc(i), {i: fs})
        return self.make_struct("::".join(n.split("::")), fs)

    def val(self, st, x):
        for _ in range(20):
            if isinstance(x, (Ref, RV, CRef, MView)):
                x = self.I.load(st, x)
            else:
                return x
        raise Undef("reference cycle")

    def val_safe(self, st, x):
        try:
            return self.val(st, x)
        except Undef:
            return None

    def tgt(self, st, r):
        """innermost place a reference designates"""
        for _ in range(20):
            if isinstance(r, Ref):
                v = self.I.load(st, r)
                if isinstance(v, (Ref, RV, CRef, MView)):
                    r = v
                    continue
                return r
            if isinstance(r, RV):
                if isinstance(r.v, (Ref, RV, CRef, MView)):
                    r = r.v
                    continue
                return r
            if isinstance(r, (MView, CRef)):
                return r
            return RV(r)
        raise Undef("reference cycle")

    def elem(self, st, r, pe):
        """reference to a component of the place r"""
        if isinstance(r, MView):
            if pe[0] == "e":
                return Ref(r.ref.cell, r.ref.path + (("e", self.off(r.r0, pe[1]), self.off(r.c0, pe[2])),))
            if pe[0] == "sub":
                return MView(r.ref, self.off(r.r0, pe[1]), self.off(r.c0, pe[2]), pe[3], pe[4])
            raise Undef("projection of a view")
        return self.I.extend(r, pe)

    @staticmethod
    def off(a, b):
        a, b = toint(a), toint(b)
        if isinstance(a, int) and isinstance(b, int):
            return a + b
        return alg.add(torat(a), torat(b))

    def value_ty(self, v):
        if isinstance(v, St):
            for a in self.I.F.adts.values():
                if a["n"] == v.n and a["local"]:
                    return {"t": "adt", "id": a["id"], "n": a["n"], "a": a["generics"]}
        if isinstance(v, En):
            for a in self.I.F.adts.values():
                if a["n"] == v.n and a["local"]:
                    return {"t": "adt", "id": a["id"], "n": a["n"], "a": a["generics"]}
        if isinstance(v, Op):
            return v.ty if v.ty and v.ty["t"] == "adt" else None
        return None

    def field(self, v, name):
        if isinstance(v, St) and v.n == "storage" and name == "0":
            m = v.f["0"]
            if isinstance(m.nr, int) and isinstance(m.nc, int):
                return Ar([Ar([m.c[(i, j)] for i in range(m.nr)]) for j in range(m.nc)])
            raise Undef("raw storage of a dynamic matrix")
        if isinstance(v, St):
            x = v.f.get(name)
            if x is None and name not in v.f:
                if v.n == "variant":
                    return None
                raise Undef("no field %s in %s" % (name, v.n))
            return x
        if isinstance(v, Mat):
            if name == "data":
                return St("storage", {"0": v})
            if name in ("coords", "vector", "value"):
                return v
            i = {"x": 0, "y": 1, "z": 2, "w": 3, "a": 4, "b": 5, "i": 0, "j": 1, "k": 2}.get(name)
            if i is not None and (v.nc == 1 or v.nr == 1):
                return self.mat_lin(v, i)
            if len(name) >= 3 and name[0] == "m" and name[1:].isdigit():
                return v.get(int(name[1]) - 1, int(name[2]) - 1)
        if isinstance(v, Iso):
            if name == "rotation":
                return v.r
            if name == "translation":
                return colvec(v.t)
        if isinstance(v, Rot):
            if v.kind == "q" and name in ("i", "j", "k", "w"):
                return v.quat()["ijkw".index(name)]
            if v.kind == "q" and name in ("coords", "value", "quaternion"):
                return colvec(v.quat())
            if v.kind == "m" and name in ("matrix",):
                return v.mat()
            if v.kind == "m" and len(name) == 3 and name[0] == "m":
                return v.m[int(name[1]) - 1][int(name[2]) - 1]
        if isinstance(v, Op):
            return Op(("f", v.k, name), None, v.unk)
        if isinstance(v, Clo):
            return v.up[int(name)]
        if isinstance(v, Rat) and name == "0":
            return v        # Dyn(n)
        raise Undef("field %s of %s" % (name, type(v).__name__))

    def set_field(self, v, name, x):
        if v is None:
            return St("partial", {name: x})
        if isinstance(v, St):
            f = dict(v.f)
            f[name] = self.as_mat(x) if v.n == "storage" else x
            return St(v.n, f)
        if isinstance(v, Mat):
            if name == "data" and isinstance(x, St):
                return x.f["0"]
            if name in ("coords", "vector", "value"):
                return x
            i = {"x": 0, "y": 1, "z": 2, "w": 3, "a": 4, "b": 5, "i": 0, "j": 1, "k": 2}.get(name)
            if i is not None and (v.nc == 1 or v.nr == 1):
                r, c = self.lin_rc(v, i)
                return v.set(r, c, x)
            if len(name) >= 3 and name[0] == "m" and name[1:].isdigit():
                return v.set(int(name[1]) - 1, int(name[2]) - 1, x)
        if isinstance(v, Iso):
            if name == "rotation":
                return Iso(x, v.t)
            if name == "translation":
                return Iso(v.r, self.as_mat(x).vec())
        if isinstance(v, Clo):
            l = list(v.up)
            l[int(name)] = x
            return Clo(v.id, l, v.env)
        if isinstance(v, Rat) and name == "0":
            return x
        raise Undef("store to field %s of %s" % (name, type(v).__name__))

    def mat_lin(self, v, i):
        r, c = self.lin_rc(v, i)
        return v.get(r, c)

    def lin_rc(self, v, i):
        i = toint(i)
        if v.nc == 1:
            return i, 0
        if v.nr == 1:
            return 0, i
        if isinstance(i, int) and isinstance(v.nr, int):
            return i % v.nr, i // v.nr
        raise Undef("linear index into a matrix")

    def as_mat(self, v):
        if isinstance(v, Mat):
            return v
        if isinstance(v, Rot):
            return v.mat() if v.kind == "m" else colvec(v.quat())
        if isinstance(v, St) and v.n == "storage":
            return v.f["0"]
        if isinstance(v, Ar) and all(isinstance(x, Rat) for x in v.x):
            return colvec(v.x)
        if isinstance(v, Ar) and v.x and all(isinstance(x, Ar) for x in v.x):
            # array of columns (matrix storage)
            return Mat(len(v.x[0].x), len(v.x), {(r, c): y for c, col in enumerate(v.x) for r, y in enumerate(col.x)})
        raise Undef("matrix expected, got %s" % type(v).__name__)

    def like(self, v, newmat):
        if isinstance(v, Mat):
            return newmat
        if isinstance(v, Rot) and v.kind == "m":
            return Rot("m", tuple(tuple(newmat.c[(i, j)] for j in range(3)) for i in range(3)))
        if isinstance(v, Ar):
            return Ar(newmat.vec())
        raise Undef("store into %s" % type(v).__name__)

    def submat(self, v, r0, c0, nr, nc):
        r0, c0, nr, nc = toint(r0), toint(c0), toint(nr), toint(nc)
        v = self.as_mat(v)
        if v.sym is None:
            return mkmat(nr, nc, lambda i, j: v.get(self.off(r0, i), self.off(c0, j)))
        if isinstance(nr, int) and isinstance(nc, int):
            return Mat(nr, nc, {(i, j): v.get(self.off(r0, i), self.off(c0, j)) for i in range(nr) for j in range(nc)})
        return mkmat(nr, nc, lambda i, j: v.get(self.off(r0, i), self.off(c0, j)))

    def set_submat(self, v, r0, c0, nr, nc, x):
        nr, nc = toint(nr), toint(nc)
        x = self.as_mat(x)
        if isinstance(nr, int) and isinstance(nc, int):
            for i in range(nr):
                for j in range(nc):
                    v = v.set(self.off(r0, i), self.off(c0, j), x.get(i, j))
            return v
        if v.sym == "r" and not isinstance(nr, int) and toint(r0) == 0 and veq(torat(nr), torat(v.nr)):
            l = list(v.c)
            for j in range(nc):
                l[self.off(c0, j)] = x.c[j]
            return Mat(v.nr, v.nc, l, "r")
        if v.sym == "c" and not isinstance(nc, int) and toint(c0) == 0 and veq(torat(nc), torat(v.nc)):
            l = list(v.c)
            for j in range(nr):
                l[self.off(r0, j)] = x.c[j]
            return Mat(v.nr, v.nc, l, "c")
        raise Undef("store of a partial symbolic block")

    def length(self, v):
        if isinstance(v, Ar):
            return len(v.x)
        if isinstance(v, Fam):
            return v.len
        if isinstance(v, Mat):
            return alg.mul(torat(v.nr), torat(v.nc))
        if isinstance(v, Str):
            return len(v.s)
        raise Undef("length of %s" % type(v).__name__)

    def zst(self, ty, env):
        ty = tysub(ty, env)
        d = dimof(ty)
        if d is not None and ty["t"] == "adt":
            return torat(d)
        if ty["t"] == "adt":
            n = ty["n"]
            if n.split("::")[-1] == "PhantomData":
                return St("PhantomData", {})
            return St(n, {})
        if ty["t"] == "tuple" and not ty["a"]:
            return UNIT
        if ty["t"] == "closure":
            return Clo(ty["id"], [], env)
        if ty["t"] == "fndef":
            return Op(("fndef", ty.get("n") or ty.get("id")), ty)
        return St("zst", {})

    def make_struct(self, n, fs):
        last = n.split("::")[-1]
        if n.startswith("nalgebra"):
            if last == "Dyn":
                return fs["0"]
            if last in ("OPoint", "Point"):
                return self.as_mat(fs["coords"])
            if last == "Translation":
                return self.as_mat(fs["vector"])
            if last == "Isometry":
                return Iso(fs["rotation"], self.as_mat(fs["translation"]).vec())
            if last in ("Quaternion",):
                return self.as_mat(fs["coords"])
            if last == "Matrix":
                d = fs.get("data")
                if d is not None:
                    return self.as_mat(d)
            if last == "ArrayStorage":
                return St("storage", {"0": self.as_mat(fs["0"])})
        if last == "PhantomData":
            return St("PhantomData", {})
        return St(n, fs)

    # ------------------------------------------------------------------ values of unknown content
    def is_real(self, ty):
        return ty["t"] == "prim" and ty["n"] in ("real", "f64", "f32")

    rows = None     # number of rows of the dynamically sized results of an arbitrary implementor

    icall_hook = None       # answers in place of unknown implementors

    def icall(self, ty, pretty, vals):
        """result of a trait method on an implementor the analysis knows nothing about, but that it answers every row it is given (the
        contract the row dimension of its signature states)"""
        if self.icall_hook is not None:
            return self.icall_hook(pretty, vals, lambda: self.icall_result(ty, pretty, vals))
        return self.icall_result(ty, pretty, vals)

    def icall_result(self, ty, pretty, vals):
        ns = []

        def see(v):
            if isinstance(v, Mat):
                if not any(alg.eq(torat(v.nr), x) for x in ns):
                    ns.append(torat(v.nr))
            elif isinstance(v, St):
                for x in v.f.values():
                    see(x)
            elif isinstance(v, RV):
                see(v.v)
        for v in vals:
            see(v)
        old, self.rows = self.rows, ns[0] if len(ns) == 1 else None
        try:
            return self.opaque(ty, ("icall", pretty) + tuple(vkey(v) for v in vals), deep=True)
        finally:
            self.rows = old

    def opaque(self, ty, key, unk=False, deep=True, pos=None):
        """arbitrary value of type ty, identified by key"""
        if ty is None:
            return Op(("unk", alg.fn("opq", *key, unk=True)) if unk else tuple(key), None, unk)
        k = ty["t"]

        def at(*x, **kw):
            if key[0] == "in":
                r = alg.ratom(("read",) + tuple(key[1:]) + x)
                if kw.get("nonneg"):
                    alg.NONNEG.update(alg.rat_atoms(r))
                return r
            return alg.fn("opq", *(tuple(key) + x), unk=unk, **kw)
        if k == "prim":
            if ty["n"] == "bool":
                a = ind(("fn", "opqb") + tuple(key))
                if unk:
                    alg.UNK.update(alg.rat_atoms(a))
                return a
            if ty["n"] in ("str", "char") or ty["n"] == "!":
                return Op(tuple(key), ty, unk)
            r = at()
            if ty["n"] not in ("real", "f64", "f32"):
                for a in alg.rat_atoms(r):
                    alg.INTEG.add(a)
                    if ty["n"][0] == "u":
                        alg.NONNEG.add(a)
            return r
        if k == "param":
            if ty["n"] == "R":
                return at()
            return Op(("unk", at(), ) if unk else tuple(key), ty, unk)
        if k == "tuple":
            return tup(*[self.opaque(t, tuple(key) + (i,), unk) for i, t in enumerate(ty["a"])])
        if k == "array":
            n = toint(dimof(ty["len"])) if dimof(ty["len"]) is not None else None
            if isinstance(n, int):
                return Ar([self.opaque(ty["e"], tuple(key) + (i,), unk) for i in range(n)])
            return Op(tuple(key), ty, unk)
        if k == "ref":
            return RV(self.opaque(ty["e"], key, unk))
        if k == "slice":
            ln = at("len", nonneg=True)
            alg.INTEG.update(alg.rat_atoms(ln))
            return Fam(ln, self.opaque(ty["e"], tuple(key) + (Rat(alg.patom(RHO)),), unk))
        if k == "adt":
            n = ty["n"].split("::")[-1]
            if ty["n"].startswith("nalgebra"):
                v = self.opaque_na(n, ty, key, unk, at)
                if v is not None:
                    return v
            if n == "PhantomData":
                return St("PhantomData", {})
            if n in ("Option", "Result") and len(ty["a"]) >= 1:
                d = ind(("fn", "opqd") + tuple(key))
                if unk:
                    alg.UNK.update(alg.rat_atoms(d))
                if n == "Option":
                    return En(OPT, d, {0: {}, 1: {"0": self.opaque(ty["a"][0], tuple(key) + ("some",), unk)}})
                return En(RES, d, {0: {"0": self.opaque(ty["a"][0], tuple(key) + ("ok",), unk)}, 1: {"0": self.opaque(ty["a"][1], tuple(key) + ("err",), unk)}})
            if n == "ControlFlow":
                return Op(tuple(key), ty, unk)
            adt = self.I.F.adts.get(ty["id"])
            if adt and adt["local"] and deep:
                env = {}
                for g, x in zip([g for g in adt["generics"]], ty["a"]):
                    if g["t"] == "param":
                        env[g["n"]] = x
                if adt["kind"] == "struct":
                    return St(adt["n"], {f["n"]: self.opaque(tysub(f["ty"], env), tuple(key) + (f["n"],), unk) for f in adt["variants"][0]["fields"]})
                if adt["kind"] == "enum":
                    nv = len(adt["variants"])
                    d = R0
                    vs = {}
                    for i, v in enumerate(adt["variants"]):
                        vs[i] = {f["n"]: self.opaque(tysub(f["ty"], env), tuple(key) + (i, f["n"]), unk) for f in v["fields"]}
                        if i:
                            d = alg.add(d, alg.mul(rc(i), alg.hot(("opqe",) + tuple(key), i)))
                    if nv == 1:
                        d = R0
                    return En(adt["n"], d, vs)
        return Op(("unk", at()) if unk else tuple(key), ty, unk)

    def opaque_na(self, n, ty, key, unk, at):
        a = ty["a"]
        if n == "Matrix":
            nr, nc = dimof(a[1]), dimof(a[2])
            if a[1]["t"] == "adt" and a[1]["n"].endswith("Dyn"):
                nr = self.rows if self.rows is not None and key[0] == "icall" else self.dyn(key, "nr")
            if a[2]["t"] == "adt" and a[2]["n"].endswith("Dyn"):
                nc = self.dyn(key, "nc")
            if nr is None or nc is None:
                return None
            if not isinstance(toint(nr), int) and not isinstance(toint(nc), int):
                return None
            return mkmat(nr, nc, lambda i, j: at(torat(i), torat(j)))
        if n in ("OPoint", "Translation"):
            d = toint(dimof(a[1])) if dimof(a[1]) is not None else None
            if isinstance(d, int):
                return colvec([at(rc(i), R0) for i in range(d)])
        if n == "Unit":
            h = head(a[0])
            if h == "Quaternion":
                return Rot("q", *self.rand_rot(tuple(key), unk))
            v = self.opaque(a[0], key, unk)
            return v
        if n == "Quaternion":
            return colvec([at(rc(i), R0) for i in range(4)])
        if n == "Rotation":
            mm, q = self.rand_rot(tuple(key), unk)
            return Rot("m", mm, q)
        if n == "Isometry":
            mm, q = self.rand_rot(tuple(key) + ("rot",), unk)
            return Iso(Rot("q", mm, q), [at("t", rc(i)) for i in range(3)])
        if n == "Const":
            d = dimof(ty)
            return torat(d) if d is not None else None
        if n == "Dyn":
            return self.dyn(key, "dyn")
        return None

    def dyn(self, key, x):
        r = alg.fn("opq", *(tuple(key) + (x,)), nonneg=True)
        alg.INTEG.update(alg.rat_atoms(r))
        return r

    def rand_rot(self, key, unk=False):
        ids = [alg.atom_id(("fn", "quat") + key + (c,)) for c in "ijkw"]
        if unk:
            alg.UNK.update(ids)
        w = ids[3]
        if w not in alg.SQ:
            p = alg.P1
            for a in ids[:3]:
                p = p.add(alg.patom(a).mul(alg.patom(a)), -1)
            alg.SQ[w] = p
        q = tuple(Rat(alg.patom(a)) for a in ids)
        return quat_to_mat(q), q

    # ------------------------------------------------------------------ streams
    def stream(self, st, v):
        if isinstance(v, Stream):
            if toint(v.pos) == 0:
                return v
            g, p = v.get, v.pos
            return Stream(alg.sub(v.len, p), lambda s, k: g(s, alg.add(p, k)))
        if isinstance(v, St) and v.n.split("::")[-1] == "Range":
            a, b = v.f["start"], v.f["end"]
            d = alg.sub(b, a)
            if not alg.prove_ge0(d.n) if not d.d else True:
                d = gamma(alg.pos(d), d, R0)
            return Stream(d, lambda s, k: alg.add(a, k))
        if isinstance(v, Ar):
            return self.seq_stream(v)
        if isinstance(v, Fam):
            return Stream(torat(v.len), lambda s, k: v.at(k))
        if isinstance(v, (Ref, RV, CRef)):
            r = self.tgt(st, v)
            x = self.val(st, v)
            if isinstance(x, (Stream,)) or (isinstance(x, St) and x.n.split("::")[-1] == "Range"):
                return self.stream(st, x)
            return self.ref_stream(st, r)
        if isinstance(v, MView):
            return self.ref_stream(st, v)
        if isinstance(v, Mat):
            return Stream(torat(self.length(v)), lambda s, k: self.mat_lin(v, k))
        if isinstance(v, En) and v.n == OPT:
            return Stream(v.d, lambda s, k: v.v[1]["0"])
        raise Undef("iterator over %s" % type(v).__name__)

    def seq_stream(self, v):
        def get(s, k):
            k = toint(k)
            if isinstance(k, int):
                if 0 <= k < len(v.x):
                    return v.x[k]
                return v.x[-1] if v.x else None
            r = v.x[-1]
            for j in range(len(v.x) - 1):
                r = vgamma(alg.req(k, rc(j)), v.x[j], r)
            return r
        return Stream(rc(len(v.x)), get)

    def ref_stream(self, st, r):
        """by-reference iteration over a sequence or the elements of a matrix (column-major)"""
        v = self.val(st, r)
        if isinstance(v, (Ar, Fam)):
            return Stream(torat(self.length(v)), lambda s, k: self.elem(s, r, ("i", k)))
        w = self.as_mat(v)
        if w.nr == 1 or w.nc == 1:
            row = w.nr == 1 and w.nc != 1
            return Stream(torat(self.length(w)), lambda s, k: self.elem(s, r, ("e", 0, k) if row else ("e", k, 0)))
        if w.sym is None:
            return Stream(rc(w.nr * w.nc), lambda s, k: self.elem(s, r, ("e", toint(k) % w.nr, toint(k) // w.nr) if isinstance(toint(k), int) else self.bad("symbolic element order")))
        if w.sym == "r" and isinstance(toint(w.nc), int):
            n = torat(w.nr)

            def get(s, k):
                row, col = M_intfn(self, "irem", k, n), M_intfn(self, "idiv", k, n)
                x = self.as_mat(self.val(s, r))
                v = x.get(row, w.nc - 1)
                for j in range(w.nc - 1):
                    v = gamma(alg.req(col, rc(j)), x.get(row, j), v)
                return RV(v)
            return Stream(alg.mul(n, rc(w.nc)), get)
        raise Undef("element iteration over a matrix of symbolic size")

    def bad(self, msg):
        raise Undef(msg)

    def next(self, c, back=False):
        r = c.tgt(0)
        v = self.val(c.st, r)
        if isinstance(v, St) and v.n.split("::")[-1] == "Range":
            a, b = v.f["start"], v.f["end"]
            d = alg.pos(alg.sub(b, a))
            if back:
                e = alg.sub(b, R1)
                self.I.store(c.st, r, St(v.n, {"start": a, "end": e}))
                return some(e, d)
            self.I.store(c.st, r, St(v.n, {"start": alg.add(a, R1), "end": b}))
            return some(a, d)
        if isinstance(v, Stream):
            if back:
                raise Undef("next_back")
            d = alg.pos(alg.sub(v.len, v.pos))
            self.I.store(c.st, r, v.at(alg.add(v.pos, R1)))
            if d.is_zero():
                return En(OPT, R0, {0: {}})
            return some(v.get(c.st, v.pos), d)
        if isinstance(v, Op):
            n = v.k[1] if isinstance(v.k, tuple) and v.k[0] == "iter" else 0
            raise Undef("next on %r" % (v,))
        raise Undef("next on %s" % type(v).__name__)

    def for_loop(self, c, s, acc, fn):
        """acc := fn(state, acc, item) over the stream; returns final acc"""
        I = self.I
        st = c.st
        if isinstance(s, FStream):
            fn0, sel = fn, s.sel

            def fn(x, a, it):
                ok, it2 = sel(x, it)
                if ok.const() is not None:
                    return fn0(x, a, it2) if ok.const() else a
                before = dict(x.cells)
                r = fn0(x, a, it2)
                for k in list(x.cells):
                    if k in before and x.cells[k] is not before[k]:
                        x.cells[k] = vgamma(ok, x.cells[k], before[k])
                return vgamma(ok, r, a)
            s = s.base
        n = toint(s.len)
        if isinstance(n, int) and n <= 64:
            for k in range(n):
                acc = fn(st, acc, s.get(st, rc(k)))
            return acc
        pc_ = I.new_cell(st, R0)
        ac = I.new_cell(st, acc)
        from interp import State

        def body(x):
            p = x.cells[pc_]
            d = alg.pos(alg.sub(s.len, p))
            ex = State(dict(x.cells), alg.bnot(d))
            x.pc = d
            x.cells[ac] = fn(x, x.cells[ac], s.get(x, p))
            x.cells[pc_] = alg.add(p, R1)
            return x, {"X": ex}
        site = "%s@%s" % (c.f["pretty"], I.stack[-1] if I.stack else "")
        out = I.iterate(body, State(st.cells, R1), site)
        e = out["X"]
        ec = dict(e.cells)
        st.cells.clear()
        st.cells.update(ec)
        r = st.cells.pop(ac)
        st.cells.pop(pc_)
        return r

    def collect(self, c, s):
        n = toint(s.len)
        if isinstance(n, int) and n <= 64:
            return Ar([s.get(c.st, rc(k)) for k in range(n)])
        rho = Rat(alg.patom(RHO))
        saved = alg.FACTS
        d = alg.sub(alg.sub(s.len, R1), rho)
        alg.FACTS = saved + ([d.n] if not d.d else [])
        try:
            t = s.get(c.st, rho)
        finally:
            alg.FACTS = saved
        return Fam(s.len, self.detach(c.st, t))

    def detach(self, st, v):
        if isinstance(v, Ref):
            return RV(self.val(st, v))
        if isinstance(v, St):
            return St(v.n, {k: self.detach(st, x) for k, x in v.f.items()})
        return v

    # ------------------------------------------------------------------ shared numeric helpers
    def dest_dims(self, c, ty=None):
        ty = ty or c.dest
        if ty and ty["t"] == "adt" and head(ty) in ("Matrix",):
            return dimof(ty["a"][1]), dimof(ty["a"][2])
        if ty and ty["t"] == "adt" and head(ty) in ("OPoint", "Translation"):
            return dimof(ty["a"][1]), 1
        return None, None

    def self_dims(self, c):
        t = strip(tysub(c.f["cont"].get("self") or {"t": "other"}, c.env))
        return self.dest_dims(c, t)

    def norm2(self, v):
        if v.sym:
            tv = alg.tau(7)
            return alg.radd(*[alg.rsum(torat(v.nr if v.sym == "r" else v.nc), subst(alg.mul(x, x), {RHO: Rat(alg.patom(tv))}), tv) for x in v.c])
        return alg.radd(*[alg.mul(x, x) for x in v.vec()]) if v.nr == 1 or v.nc == 1 else alg.radd(*[alg.mul(x, x) for x in v.c.values()])

    def det(self, v):
        n = v.nr
        g = lambda i, j: v.c[(i, j)]
        if n != v.nc or not isinstance(n, int):
            raise Undef("determinant")
        if n == 1:
            return g(0, 0)
        if n == 2:
            return alg.sub(alg.mul(g(0, 0), g(1, 1)), alg.mul(g(0, 1), g(1, 0)))
        r = R0
        for j in range(n):
            t = alg.mul(g(0, j), self.det(self.minor(v, 0, j)))
            r = alg.add(r, t) if j % 2 == 0 else alg.sub(r, t)
        return r

    def minor(self, v, r, c):
        n = v.nr
        rs = [i for i in range(n) if i != r]
        cs = [j for j in range(v.nc) if j != c]
        return Mat(len(rs), len(cs), {(i, j): v.c[(a, b)] for i, a in enumerate(rs) for j, b in enumerate(cs)})

    def matmul(self, a, b):
        if not veq(torat(a.nc), torat(b.nr)):
            raise Undef("matrix product of %s and %s" % (dims(a), dims(b)))
        if not isinstance(toint(a.nc), int):
            # contraction over the symbolic dim
            tv = alg.tau(7)
            rho = RHO
            n = a.nc
            d = {}
            for i in range(a.nr):
                for j in range(b.nc):
                    f = alg.mul(a.c[i], b.c[j])
                    d[(i, j)] = alg.rsum(torat(n), subst(f, {RHO: Rat(alg.patom(tv))}), tv)
            return Mat(a.nr, b.nc, d)
        k = toint(a.nc)
        return mkmat(a.nr, b.nc, lambda i, j: alg.radd(*[alg.mul(self.cell(a, i, x), self.cell(b, x, j)) for x in range(k)]))

    def cell(self, a, i, j):
        return a.get(i, j)


# ====================================================================== core / std
@m("Clone", "clone", "clone_from")
def _(M, c):
    return c.val(0) if not isinstance(c.args[0], (RV, Ref)) else clone1(M, c)


def clone1(M, c):
    r = c.args[0]
    v = M.I.load(c.st, r)
    # cloning a reference gives the same reference
    t = c.a[0]
    if t["t"] == "ref":
        return v
    if isinstance(v, MView):
        return M.I.load(c.st, v)
    if isinstance(v, (Ref, RV)) and t["t"] != "ref" and t["t"] != "param":
        return M.val(c.st, v)
    return v


@m("ToOwned", "to_owned")
def _(M, c):
    return c.val(0)


@m("Matrix", "clone_owned", "into_owned", "into_inner", "clone_owned_sum", "to_owned")
@m("Unit", "into_inner", "unwrap", "get", "into_owned")
@m("Rotation", "into_inner", "unwrap")
def _(M, c):
    v = c.val(0)
    return v


@m("Unit", "new_unchecked")
def _(M, c):
    v = c.val(0)
    if isinstance(v, Mat) and v.sym is None and v.nr == 4 and v.nc == 1 and c.a and head(c.a[0]) == "Quaternion":
        q = tuple(v.vec())
        return Rot("q", quat_to_mat(q), q)
    return v


@m("Deref", "deref")
@m("DerefMut", "deref_mut")
@m("AsRef", "as_ref")
@m("AsMut", "as_mut")
@m("Borrow", "borrow")
@m("BorrowMut", "borrow_mut")
def _(M, c):
    return c.args[0]


@m("Unit", "as_ref", "as_mut_unchecked")
def _(M, c):
    return c.args[0]


@m("From", "from")
@m("Into", "into")
@m("SupersetOf", "from_subset", "to_subset_unchecked", "from_subset_unchecked")
@m("SubsetOf", "to_superset")
def _(M, c):
    v = c.args[0]
    x = c.val(0)
    dst = c.dest
    if c.name == "into" and len(c.a) > 1 and strip(c.a[1])["t"] == "adt":
        im = c.I.F.find_impl("std::convert::From", c.a[1], [c.a[0]])
        t = c.I.F.impl_item(im, "from") if im else None
        if t is not None and t["local"]:
            e = {}
            unify(t["cont"]["self"], c.a[1], e)
            return c.I.run_fn(t, [v], e, c.st, c.span)
    if dst and isinstance(x, (Mat, Ar)) and head(dst) in ("Matrix", "OPoint", "Translation"):
        w = M.as_mat(x)
        if isinstance(x, Ar) and x.x and isinstance(x.x[0], Ar):
            pass
        nr, nc = M.dest_dims(c)
        if nr is not None and nc is not None and not (veq(torat(nr), torat(w.nr)) and veq(torat(nc), torat(w.nc))):
            if isinstance(w.nr, int) and isinstance(w.nc, int) and w.nr * w.nc == nr * nc:
                vv = w.vec()
                return Mat(nr, nc, {(i, j): vv[j * nr + i] for i in range(nr) for j in range(nc)})
            raise Undef("conversion between shapes")
        return w
    if dst and head(dst) == "Matrix" and isinstance(x, Iso):
        return iso_h(x)
    if dst and head(dst) == "Matrix" and isinstance(x, Rot):
        nr, _n = M.dest_dims(c)
        mm = x.mat() if x.kind == "m" else frommat(x.m)
        if nr == 4:
            return homog(mm)
        return frommat(x.m)
    if dst and head(dst) == "Rotation" and isinstance(x, Rot):
        return Rot("m", x.m, x.q)
    if isinstance(x, Rot) and dst and head(dst) == "Unit":
        return Rot("q", x.m, x.q)
    if isinstance(x, (Rat, Rot, Str, Iso)):
        if isinstance(x, Rat) and dst and dst["t"] == "adt":
            raise Undef("conversion of a number into %s" % head(dst))
        return x
    if isinstance(x, Op):
        return Op(("from", vkey(x), str(head(dst)) if dst else ""), dst, x.unk)
    if isinstance(x, (En, St)) and dst and dst["t"] == "adt" and dst["n"] == x.n:
        return x
    if isinstance(x, (Ar, Fam)):
        return x
    raise Undef("conversion %s" % c.f["pretty"])


def iso_h(x):
    rows = [list(x.r.m[i]) + [x.t[i]] for i in range(3)] + [[R0, R0, R0, R1]]
    return frommat(rows)


def homog(mm):
    n = mm.nr
    return Mat(n + 1, n + 1, {(i, j): (mm.c[(i, j)] if i < n and j < n else (R1 if i == j else R0)) for i in range(n + 1) for j in range(n + 1)})


@m("free", "std::mem::replace", "core::mem::replace")
def _(M, c):
    old = M.I.load(c.st, c.args[0])
    M.I.store(c.st, c.args[0], c.args[1])
    return old


@m("free", "std::mem::take")
def _(M, c):
    old = M.I.load(c.st, c.args[0])
    if isinstance(old, En) and old.n == OPT:
        M.I.store(c.st, c.args[0], NONE_)
        return old
    raise Undef("take")


@m("free", "std::mem::swap")
def _(M, c):
    a, b = M.I.load(c.st, c.args[0]), M.I.load(c.st, c.args[1])
    M.I.store(c.st, c.args[0], b)
    M.I.store(c.st, c.args[1], a)
    return UNIT


@m("free", "std::convert::identity", "std::hint::black_box")
def _(M, c):
    return c.args[0]


@m("free", "std::mem::drop", "std::mem::forget")
def _(M, c):
    return UNIT


# ---- comparisons
def cmpvals(M, c):
    a, b = c.val(0), c.val(1)
    return a, b


def struct_eq(M, a, b):
    if isinstance(a, Rat) and isinstance(b, Rat):
        return alg.ceq(a, b)
    if alg.SPECIAL is None and veq(a, b) and not isinstance(a, Op):
        return R1
    if isinstance(a, Mat) and isinstance(b, Mat) and a.sym is None and dims(a) == dims(b):
        r = R1
        for k in a.c:
            r = alg.mul(r, alg.ceq(a.c[k], b.c[k]))
        return r
    if isinstance(a, (Ar,)) and isinstance(b, Ar):
        if len(a.x) != len(b.x):
            return R0
        r = R1
        for x, y in zip(a.x, b.x):
            r = alg.mul(r, struct_eq(M, x, y))
        return r
    if isinstance(a, St) and isinstance(b, St) and a.n == b.n:
        r = R1
        for k in a.f:
            r = alg.mul(r, struct_eq(M, a.f[k], b.f[k]))
        return r
    if isinstance(a, Rot) and isinstance(b, Rot) and a.kind == b.kind == "q" and a.q is not None and b.q is not None:
        r = R1
        for x, y in zip(a.q, b.q):
            r = alg.mul(r, alg.ceq(x, y))
        return r
    if isinstance(a, Iso) and isinstance(b, Iso):
        r = struct_eq(M, a.r, b.r)
        for x, y in zip(a.t, b.t):
            r = alg.mul(r, alg.ceq(x, y))
        return r
    if isinstance(a, En) and isinstance(b, En) and all(not p for p in a.v.values()) and all(not p for p in b.v.values()):
        return alg.req(a.d, b.d)
    if isinstance(a, En) and isinstance(b, En) and a.n == b.n:
        # same variant, and the same payload where it is that one
        r = alg.req(a.d, b.d)
        for i in set(a.v) & set(b.v):
            pa, pb = a.v[i] or {}, b.v[i] or {}
            if r.is_zero() or not pa or pa.keys() != pb.keys():
                continue
            e = R1
            for k in pa:
                e = alg.mul(e, struct_eq(M, pa[k], pb[k]))
            r = alg.mul(r, alg.bor(alg.bnot(alg.req(a.d, rc(i))), e))
        return r
    if isinstance(a, Str) and isinstance(b, Str) and isinstance(a.s, str) and isinstance(b.s, str):
        return R1 if a.s == b.s else R0
    ka, kb = vkey(a), vkey(b)
    if repr(kb) < repr(ka):
        ka, kb = kb, ka
    return ind(("fn", "eq", ka, kb))


@m("PartialEq", "eq")
def _(M, c):
    return struct_eq(M, *cmpvals(M, c))


@m("PartialEq", "ne")
def _(M, c):
    return alg.bnot(struct_eq(M, *cmpvals(M, c)))


@m("PartialOrd", "lt")
def _(M, c):
    return alg.clt(c.num(0), c.num(1))


@m("PartialOrd", "le")
def _(M, c):
    return alg.cle(c.num(0), c.num(1))


@m("PartialOrd", "gt")
def _(M, c):
    return alg.clt(c.num(1), c.num(0))


@m("PartialOrd", "ge")
def _(M, c):
    return alg.cle(c.num(1), c.num(0))


@m("PartialOrd", "partial_cmp")
def _(M, c):
    a, b = c.num(0), c.num(1)
    if alg.has_special(a, b) and alg._nan(alg.ieee(a), alg.ieee(b)):
        return NONE_
    M.I.ncmp.append((M.I.stack[-1] if M.I.stack else None, c.span, a, b))
    d = alg.sub(alg.clt(b, a), alg.clt(a, b))
    return some(En("std::cmp::Ordering", d, {-1: {}, 0: {}, 1: {}}))


@m("Ord", "cmp")
def _(M, c):
    a, b = c.num(0), c.num(1)
    return En("std::cmp::Ordering", alg.sub(alg.lt(b, a), alg.lt(a, b)), {-1: {}, 0: {}, 1: {}})


@m("Ord|f64|f32|SimdPartialOrd|RealField|Float", "max", "simd_max")
@m("free", "std::cmp::max")
def _(M, c):
    a, b = c.num(0), c.num(1)
    if alg.has_special(a) and alg._nan(alg.ieee(a)):
        return b
    return gamma(alg.clt(a, b), b, a)


@m("Ord|f64|f32|SimdPartialOrd|RealField|Float", "min", "simd_min")
@m("free", "std::cmp::min")
def _(M, c):
    a, b = c.num(0), c.num(1)
    if alg.has_special(a) and alg._nan(alg.ieee(a)):
        return b
    return gamma(alg.clt(b, a), b, a)


# ---- indexing
def range_bounds(M, v, i):
    n = torat(M.length(v))
    if isinstance(i, St):
        k = i.n.split("::")[-1]
        if k == "Range":
            return i.f["start"], i.f["end"]
        if k == "RangeTo":
            return R0, i.f["end"]
        if k == "RangeFrom":
            return i.f["start"], n
        if k == "RangeFull":
            return R0, n
        if k == "RangeToInclusive":
            return R0, alg.add(i.f["end"], R1)
    return None, None


def range_ok(M, v, lo, hi):
    n = torat(M.length(v))
    return alg.mul(alg.bnot(alg.pos(alg.sub(lo, hi))), alg.bnot(alg.pos(alg.sub(hi, n))))


def subseq(M, v, lo, hi):
    a, b = toint(lo), toint(hi)
    if isinstance(v, Ar) and isinstance(a, int) and isinstance(b, int):
        return Ar(v.x[a:b])
    f = famof(v)
    if f is None or f.t is None:
        raise Undef("part of a long array")
    rho = Rat(alg.patom(RHO))
    return Fam(toint(alg.sub(hi, lo)), f.t if a == 0 else vsubst(f.t, {RHO: alg.add(rho, lo)}))


def index_place(M, c):
    r = c.tgt(0)
    v = M.val(c.st, r)
    i = c.val(1)
    if isinstance(v, (Ar, Fam)):
        if isinstance(i, Rat):
            n = torat(M.length(v))
            c.oblige("index", alg.bnot(alg.pos(alg.sub(n, i))))
            if isinstance(v, Ar) and toint(i) is not None and isinstance(toint(i), int) and not (0 <= toint(i) < len(v.x)):
                raise Undef("index out of range")
            return M.elem(c.st, r, ("i", i))
        lo, hi = range_bounds(M, v, i)
        if lo is not None and c.name in ("index", "get"):
            c.oblige("index", alg.bnot(range_ok(M, v, lo, hi)))
            return RV(subseq(M, v, lo, hi))
        raise Undef("range indexing")
    if isinstance(v, (Mat, Rot)):
        w = M.as_mat(v)
        if isinstance(v, Rot) and v.kind == "q":
            w = colvec(v.quat())
        if isinstance(i, St) and i.n == "tuple" and len(i.f) == 2:
            a, b = i.f["0"], i.f["1"]
            if not isinstance(a, Rat) or not isinstance(b, Rat):
                raise Undef("matrix range index")
        elif isinstance(i, Rat):
            n = torat(M.length(w))
            c.oblige("index", alg.bnot(alg.pos(alg.sub(n, i))))
            a, b = M.lin_rc(w, i)
            return M.elem(c.st, r, ("e", toint(a), toint(b)))
        else:
            raise Undef("matrix index")
        ok = alg.mul(alg.pos(alg.sub(torat(w.nr), a)), alg.pos(alg.sub(torat(w.nc), b)))
        c.oblige("index", alg.bnot(ok))
        return M.elem(c.st, r, ("e", toint(a), toint(b)))
    raise Undef("index into %s" % type(v).__name__)


@m("Index", "index")
@m("IndexMut", "index_mut")
def _(M, c):
    return index_place(M, c)


@m("slice|Vec|Matrix", "get", "get_mut")
def _(M, c):
    r = c.tgt(0)
    v = M.val(c.st, r)
    i = c.val(1)
    if isinstance(v, (Ar, Fam)) and isinstance(i, Rat):
        n = torat(M.length(v))
        ok = alg.pos(alg.sub(n, i))
        if ok.is_zero():
            return NONE_
        return some(M.elem(c.st, r, ("i", i)), ok)
    if isinstance(v, (Ar, Fam)) and c.name == "get":
        lo, hi = range_bounds(M, v, i)
        if lo is not None:
            ok = range_ok(M, v, lo, hi)
            return NONE_ if ok.is_zero() else some(RV(subseq(M, v, lo, hi)), ok)
    if isinstance(v, Mat):
        if isinstance(i, Rat):
            ok = alg.pos(alg.sub(torat(M.length(v)), i))
            a, b = M.lin_rc(v, i)
        else:
            a, b = i.f["0"], i.f["1"]
            ok = alg.mul(alg.pos(alg.sub(torat(v.nr), a)), alg.pos(alg.sub(torat(v.nc), b)))
        if ok.is_zero():
            return NONE_
        return some(M.elem(c.st, r, ("e", toint(a), toint(b))), ok)
    raise Undef("get")


@m("slice|Vec|array|Matrix", "len")
def _(M, c):
    return torat(M.length(c.val(0)))


@m("ExactSizeIterator", "len")
def _(M, c):
    return M.stream(c.st, c.val(0)).len


@m("slice|Vec|array|Matrix", "is_empty")
def _(M, c):
    return alg.zero(torat(M.length(c.val(0))))


@m("slice|Vec|Matrix", "first")
def _(M, c):
    v = c.val(0)
    n = torat(M.length(v))
    ok = alg.pos(n)
    if ok.is_zero():
        return NONE_
    return some(M.elem(c.st, c.tgt(0), ("i", R0)), ok)


@m("slice|Vec", "last")
def _(M, c):
    v = c.val(0)
    n = torat(M.length(v))
    ok = alg.pos(n)
    if ok.is_zero():
        return NONE_
    return some(M.elem(c.st, c.tgt(0), ("i", alg.sub(n, R1))), ok)


@m("slice|Vec", "split_first")
def _(M, c):
    v = c.val(0)
    n = torat(M.length(v))
    ok = alg.pos(n)
    if isinstance(v, Ar):
        if not v.x:
            return NONE_
        return some(tup(RV(v.x[0]), RV(Ar(v.x[1:]))))
    rho = Rat(alg.patom(RHO))
    rest = Fam(alg.sub(n, R1), vsubst(v.t, {RHO: alg.add(rho, R1)}))
    return some(tup(RV(v.at(R0)), RV(rest)), ok)


@m("slice|Vec", "split_last")
def _(M, c):
    v = c.val(0)
    n = torat(M.length(v))
    if isinstance(v, Ar):
        return some(tup(RV(v.x[-1]), RV(Ar(v.x[:-1])))) if v.x else NONE_
    l = alg.sub(n, R1)
    return some(tup(RV(v.at(l)), RV(Fam(toint(l), v.t))), alg.pos(n))


@m("slice|Vec", "split_at", "split_at_checked")
def _(M, c):
    v = c.val(0)
    n, k = torat(M.length(v)), c.num(1)
    ok = alg.bnot(alg.pos(alg.sub(k, n)))
    if c.name == "split_at":
        c.oblige("split_at", alg.bnot(ok))
    elif ok.is_zero():
        return NONE_
    r = tup(RV(subseq(M, v, R0, k)), RV(subseq(M, v, k, n)))
    return r if c.name == "split_at" else some(r, ok)


@m("slice|Vec|array", "as_slice", "as_mut_slice", "as_ref", "to_vec", "into_boxed_slice", "into_vec")
def _(M, c):
    if c.name in ("to_vec", "into_boxed_slice", "into_vec"):
        return c.val(0)
    return c.args[0]


@m("Matrix", "as_slice")
def _(M, c):
    v = c.mat(0)
    if v.nr == 1 or v.nc == 1:
        if v.sym is not None:
            return RV(Fam(M.length(v), v.c[0]))
        return RV(Ar(v.vec()))
    if v.sym is None:
        return RV(Ar([v.c[(i, j)] for j in range(v.nc) for i in range(v.nr)]))
    raise Undef("slice of a symbolic matrix")


@m("Vec", "new", "with_capacity")
def _(M, c):
    return Ar([])


@m("Vec", "push")
def _(M, c):
    r = c.tgt(0)
    v = M.val(c.st, r)
    x = c.args[1]
    if isinstance(v, (Ar, Fam, Grow)):
        M.I.store(c.st, r, concat(v, Ar([x])))
        return UNIT
    raise Undef("push on %s" % type(v).__name__)


@m("Vec|Extend", "extend", "extend_from_slice")
def _(M, c):
    r = c.tgt(0)
    v = M.val(c.st, r)
    x = M.collect(c, M.stream(c.st, c.args[1]))
    if isinstance(v, (Ar, Fam, Grow)) and isinstance(x, (Ar, Fam)):
        if c.name == "extend_from_slice":
            x = Ar([M.val(c.st, y) for y in x.x]) if isinstance(x, Ar) else Fam(x.len, M.val(c.st, x.t))
        M.I.store(c.st, r, concat(v, x))
        return UNIT
    raise Undef("extend of %s" % type(v).__name__)


@m("slice|array", "map")
def _(M, c):
    v = c.val(0)
    if isinstance(v, Ar):
        return Ar([c.inv(c.args[1], [x]) for x in v.x])
    raise Undef("map")


@m("free", "std::array::from_fn")
def _(M, c):
    d = c.dest
    n = toint(dimof(d["len"])) if d and d["t"] == "array" else None
    if not isinstance(n, int):
        raise Undef("array::from_fn")
    return Ar([c.inv(c.args[0], [rc(i)]) for i in range(n)])


# ---- arithmetic operators
def rotmul(a, b):
    q = quat_mul(a.q, b.q) if a.q is not None and b.q is not None else None
    kind = "q" if "q" in (a.kind, b.kind) else "m"
    if q is not None and kind == "q":
        return Rot("q", quat_to_mat(q), q)
    return Rot(kind, rmatmul(a.m, b.m), q)


def rotinv(a):
    q = None
    if a.q is not None:
        q = tuple(alg.neg(x) for x in a.q[:3]) + (a.q[3],)
    return Rot(a.kind, rmatT(a.m), q)


def isoinv(x):
    r = rotinv(x.r)
    return Iso(r, [alg.neg(y) for y in rmatvec(r.m, x.t)])


def hd(c, i):
    return head(c.a[i]) if i < len(c.a) else "?"


def do_mul(M, c, a, b, ha, hb):
    if isinstance(a, Rat) and isinstance(b, Rat):
        return alg.special_op("Mul", a, b, alg.mul(a, b))
    if isinstance(a, Mat) and isinstance(b, Rat):
        return a.cmap(lambda x: alg.mul(x, b))
    if isinstance(a, Rat) and isinstance(b, Mat):
        return b.cmap(lambda x: alg.mul(a, x))
    if isinstance(a, Rot) and isinstance(b, Rot):
        return rotmul(a, b)
    if isinstance(a, Iso) and isinstance(b, Iso):
        t = rmatvec(a.r.m, b.t)
        return Iso(rotmul(a.r, b.r), [alg.add(x, y) for x, y in zip(t, a.t)])
    if isinstance(a, Iso) and isinstance(b, Rot):
        return Iso(rotmul(a.r, b), a.t)
    if isinstance(a, Rot) and isinstance(b, Iso):
        return Iso(rotmul(a, b.r), rmatvec(a.m, b.t))
    if isinstance(a, Iso) and isinstance(b, Mat):
        t = rmatvec(a.r.m, b.vec())
        if hb == "OPoint":
            return colvec([alg.add(x, y) for x, y in zip(t, a.t)])
        if hb == "Translation":
            return Iso(a.r, [alg.add(x, y) for x, y in zip(t, a.t)])
        return colvec(t)
    if isinstance(a, Mat) and isinstance(b, Iso) and ha == "Translation":
        return Iso(b.r, [alg.add(x, y) for x, y in zip(a.vec(), b.t)])
    if isinstance(a, Mat) and isinstance(b, Mat) and ha == "Translation":
        return a.czip(b, alg.add)
    if isinstance(a, Mat) and isinstance(b, Rot) and ha == "Translation":
        return Iso(Rot("q", b.m, b.q), a.vec())
    if isinstance(a, Rot) and isinstance(b, Mat):
        if hb == "Translation":
            return Iso(a, rmatvec(a.m, b.vec()))
        return M.matmul(frommat(a.m), b)
    if isinstance(a, Mat) and isinstance(b, Rot):
        return M.matmul(a, frommat(b.m))
    if isinstance(a, Mat) and isinstance(b, Mat):
        if ha == "Quaternion":
            return colvec(quat_mul(tuple(a.vec()), tuple(b.vec())))
        return M.matmul(a, b)
    raise Undef("product of %s and %s" % (type(a).__name__, type(b).__name__))


def do_div(M, c, a, b, ha, hb):
    if isinstance(b, Rat):
        if isinstance(a, Rat):
            return alg.special_op("Div", a, b, c.div(a, b))
        if isinstance(a, Mat):
            return a.cmap(lambda x: c.div(x, b))
    if isinstance(b, Rot):
        return do_mul(M, c, a, rotinv(b), ha, hb)
    if isinstance(b, Iso):
        return do_mul(M, c, a, isoinv(b), ha, hb)
    raise Undef("quotient of %s and %s" % (type(a).__name__, type(b).__name__))


def do_add(M, c, a, b, ha, hb):
    if isinstance(a, Rat) and isinstance(b, Rat):
        return alg.special_op("Add", a, b, alg.add(a, b))
    if isinstance(a, Mat) and isinstance(b, Mat):
        return a.czip(b, alg.add)
    raise Undef("sum of %s and %s" % (type(a).__name__, type(b).__name__))


def do_sub(M, c, a, b, ha, hb):
    if isinstance(a, Rat) and isinstance(b, Rat):
        return alg.special_op("Sub", a, b, alg.sub(a, b))
    if isinstance(a, Mat) and isinstance(b, Mat):
        return a.czip(b, alg.sub)
    raise Undef("difference of %s and %s" % (type(a).__name__, type(b).__name__))


def do_rem(M, c, a, b, ha, hb):
    return M.I.binop(None, c.st, "Rem", a, b, c.span, hd(c, 0))


def bits(op):
    def do(M, c, a, b, ha, hb):
        if isinstance(a, Rat) and isinstance(b, Rat):
            return M.I.binop(None, c.st, op, a, b, c.span, ha if ha in ("bool", "usize", "u8", "u16", "u32", "u64", "i32", "i64", "isize") else None)
        raise Undef("%s of %s and %s" % (op, type(a).__name__, type(b).__name__))
    return do


for _tr, _fn, _op in (("Mul", "mul", do_mul), ("Div", "div", do_div), ("Add", "add", do_add), ("Sub", "sub", do_sub), ("Rem", "rem", do_rem),
                     ("BitAnd", "bitand", bits("BitAnd")), ("BitOr", "bitor", bits("BitOr")), ("BitXor", "bitxor", bits("BitXor")), ("Shl", "shl", bits("Shl")), ("Shr", "shr", bits("Shr"))):
    def _h(M, c, op=_op):
        return op(M, c, c.val(0), c.val(1), hd(c, 0), hd(c, 1))
    T[(_tr, _fn)] = _h

    def _g(M, c, op=_op):
        c.put(0, op(M, c, c.val(0), c.val(1), hd(c, 0), hd(c, 1)))
        return UNIT
    T[(_tr + "Assign", _fn + "_assign")] = _g
    T[("Closed" + _tr, _fn)] = _h


@m("Neg", "neg")
def _(M, c):
    v = c.val(0)
    if isinstance(v, Rat):
        return alg.neg(v)
    if isinstance(v, Mat):
        return v.cmap(alg.neg)
    if isinstance(v, Rot) and v.kind == "q":
        return Rot("q", v.m, tuple(alg.neg(x) for x in v.quat()))
    raise Undef("negation of %s" % type(v).__name__)


@m("Matrix", "neg_mut")
def _(M, c):
    c.put(0, c.mat(0).cmap(alg.neg))
    return UNIT


@m("Not", "not")
def _(M, c):
    return alg.bnot(c.num(0))


@m("MulAdd|ComplexField|f64|f32|Float", "mul_add")
def _(M, c):
    return alg.add(alg.mul(c.num(0), c.num(1)), c.num(2))


@m("Sum", "sum")
@m("Product", "product")
def _(M, c):
    s = M.stream(c.st, c.args[0])
    return sum_stream(M, c, s, c.name == "product")


def sum_stream(M, c, s, prod=False):
    d = c.dest
    if prod:
        return M.for_loop(c, s, R1, lambda st, a, x: alg.mul(a, M.val(st, x)))
    if d and head(d) in ("Matrix",):
        n = None if isinstance(s, FStream) else toint(s.len)
        if isinstance(n, int) and n:
            r = M.val(c.st, s.get(c.st, R0))
            for k in range(1, n):
                r = M.as_mat(r).czip(M.as_mat(M.val(c.st, s.get(c.st, rc(k)))), alg.add)
            return r
        nr, nc = M.dest_dims(c)
        return M.for_loop(c, s, mkmat(nr, nc, lambda i, j: R0), lambda st, a, x: a.czip(M.as_mat(M.val(st, x)), alg.add))
    return M.for_loop(c, s, R0, lambda st, a, x: alg.add(a, M.val(st, x)))


# ---- iterators
@m("IntoIterator", "into_iter")
def _(M, c):
    v = c.args[0]
    if isinstance(v, Stream) or (isinstance(v, St) and v.n.split("::")[-1] == "Range"):
        return v
    if isinstance(v, Op):
        return v
    x = M.val_safe(c.st, v)
    if isinstance(v, (Ref, RV)) and (isinstance(x, Stream) or (isinstance(x, St) and x.n.split("::")[-1] == "Range")):
        return v        # &mut iterator
    return M.stream(c.st, v)


@m("Iterator", "next")
def _(M, c):
    return M.next(c)


@m("DoubleEndedIterator", "next_back")
def _(M, c):
    return M.next(c, True)


@m("Iterator", "by_ref")
def _(M, c):
    return c.args[0]


@m("Iterator", "zip")
@m("free", "std::iter::zip")
def _(M, c):
    a = M.stream(c.st, c.args[0])
    b = M.stream(c.st, c.args[1])
    return Stream(smin(a.len, b.len), lambda s, k: tup(a.get(s, k), b.get(s, k)))


def M_intfn(M, name, a, b):
    a, b = torat(a), torat(b)
    if a.const() is not None and b.const():
        return rc(int(a.const()) // int(b.const()) if name == "idiv" else int(a.const()) % int(b.const()))
    return M.I.intfn(name, a, b)


def smin(x, y):
    if alg.eq(x, y):
        return x
    d = alg.sub(x, y)
    if not d.d and alg.prove_ge0(d.n):
        return y
    if not d.d and alg.prove_ge0(d.n.scale(-1)):
        return x
    return gamma(alg.pos(d), y, x)


@m("Iterator", "map")
def _(M, c):
    a = M.stream(c.st, c.args[0])
    f = M.val(c.st, c.args[1]) if isinstance(c.args[1], (Ref, RV)) else c.args[1]
    if isinstance(a, FStream):
        def sel(s, x):
            ok, y = a.sel(s, x)
            return ok, (y if ok.is_zero() else M.I.invoke(f, [y], s))
        return FStream(a.base, sel)
    return Stream(a.len, lambda s, k: M.I.invoke(f, [a.get(s, k)], s))


@m("Iterator", "enumerate")
def _(M, c):
    a = M.stream(c.st, c.args[0])
    return Stream(a.len, lambda s, k: tup(k, a.get(s, k)))


@m("Iterator", "rev")
def _(M, c):
    a = M.stream(c.st, c.args[0])
    return Stream(a.len, lambda s, k: a.get(s, alg.sub(alg.sub(a.len, R1), k)))


@m("Iterator", "skip")
def _(M, c):
    a = M.stream(c.st, c.args[0])
    n = c.num(1)
    ln = alg.sub(a.len, n)
    if ln.d or not alg.prove_ge0(ln.n):
        ln = gamma(alg.pos(ln), ln, R0)
    return Stream(ln, lambda s, k: a.get(s, alg.add(k, n)))


@m("Iterator", "take")
def _(M, c):
    a = M.stream(c.st, c.args[0])
    return Stream(smin(a.len, c.num(1)), a.get)


@m("Iterator", "step_by")
def _(M, c):
    a = M.stream(c.st, c.args[0])
    n = c.num(1)
    i, ln = toint(n), toint(a.len)
    if isinstance(i, int) and isinstance(ln, int) and i:
        return Stream(rc((ln + i - 1) // i), lambda s, k: a.get(s, alg.mul(k, n)))
    return Stream(M.I.intfn("ceil", alg.div(a.len, n)), lambda s, k: a.get(s, alg.mul(k, n)))


@m("Iterator", "chain")
def _(M, c):
    a = M.stream(c.st, c.args[0])
    b = M.stream(c.st, c.args[1])

    def get(s, k):
        d = alg.pos(alg.sub(a.len, k))
        if d.const() == 1:
            return a.get(s, k)
        if d.is_zero():
            return b.get(s, alg.sub(k, a.len))
        return vgamma(d, a.get(s, k), b.get(s, alg.sub(k, a.len)))
    return Stream(alg.add(a.len, b.len), get)


FLAT = itertools.count()


@m("Iterator", "flat_map", "flatten")
def _(M, c):
    a = M.stream(c.st, c.args[0])
    if isinstance(a, FStream):
        raise Undef("flattening selected items")

    def inner(s, k):
        x = a.get(s, k)
        if c.name == "flat_map":
            f = M.val(s, c.args[1]) if isinstance(c.args[1], (Ref, RV)) else c.args[1]
            x = M.I.invoke(f, [x], s)
        return M.stream(s, x)
    n = toint(a.len)
    if isinstance(n, int) and n <= 64:
        parts = [inner(c.st, rc(k)) for k in range(n)]
        if any(isinstance(p, FStream) for p in parts):
            raise Undef("flattening selected items")
        tot, cuts = R0, []
        for p in parts:
            cuts.append(tot)
            tot = alg.add(tot, p.len)

        def get(s, k):
            r = None
            for p, lo in zip(parts, cuts):
                here = alg.pos(alg.sub(alg.add(lo, p.len), k))
                if r is None and here.is_zero():
                    continue
                x = p.get(s, alg.sub(k, lo)) if not p.len.is_zero() else None
                if x is None:
                    continue
                d = alg.pos(alg.sub(lo, k))     # k < lo: an earlier part
                if d.is_zero() or r is None:
                    r = x
                else:
                    r = vgamma(d, r, x)
            return r
        return Stream(tot, get)
    k = Rat(alg.patom(alg.atom_id(("it", "flat", next(FLAT)))))
    alg.INTEG.update(k.n.atoms())
    alg.NONNEG.update(k.n.atoms())
    L = inner(c.st, k)
    if isinstance(L, FStream) or alg.deps(L.len) & alg.deps(k):
        raise Undef("flattening parts of different lengths")
    L = L.len
    q, m_ = (lambda j: M.I.intfn("idiv", j, L)), (lambda j: M.I.intfn("irem", j, L))
    return Stream(alg.mul(a.len, L), lambda s, j: inner(s, q(j)).get(s, m_(j)))


@m("Iterator", "cloned", "copied")
def _(M, c):
    a = M.stream(c.st, c.args[0])
    if isinstance(a, FStream):
        def sel(s, x):
            ok, y = a.sel(s, x)
            return ok, M.val(s, y)
        return FStream(a.base, sel)
    return Stream(a.len, lambda s, k: M.val(s, a.get(s, k)))


@m("Iterator", "peekable", "fuse")
def _(M, c):
    return M.stream(c.st, c.args[0])


@m("Iterator", "inspect")
def _(M, c):
    a = M.stream(c.st, c.args[0])
    f = M.val(c.st, c.args[1]) if isinstance(c.args[1], (Ref, RV)) else c.args[1]

    def get(s, k):
        x = a.get(s, k)
        M.I.invoke(f, [RV(x)], s)
        return x
    return Stream(a.len, get)


class FStream(Stream):
    """items of `base` that are selected: sel(state, item) -> (condition, item)"""
    __slots__ = ("base", "sel")

    def __init__(self, base, sel):
        self.base, self.sel = base, sel
        self.get, self.pos, self.uid = None, R0, object()

    @property
    def len(self):
        raise Undef("number of selected items")


def selected(M, st, a, sel):
    if isinstance(a, FStream):
        sel0, sel1 = a.sel, sel

        def sel(s, x):
            ok, y = sel0(s, x)
            if ok.is_zero():
                return ok, y
            ok2, z = sel1(s, y)
            return alg.mul(ok, ok2), z
        a = a.base
    n = toint(a.len)
    if isinstance(n, int) and n <= 64:
        got, before = [], dict(st.cells)
        for k in range(n):
            ok, y = sel(st, a.get(st, rc(k)))
            if ok.const() is None:
                break
            if ok.const():
                got.append(y)
        else:
            return M.seq_stream(Ar(got))
        st.cells.clear()
        st.cells.update(before)
    return FStream(a, sel)


@m("Iterator", "filter")
def _(M, c):
    f = M.val(c.st, c.args[1]) if isinstance(c.args[1], (Ref, RV)) else c.args[1]
    return selected(M, c.st, M.stream(c.st, c.args[0]), lambda s, x: (M.I.invoke(f, [RV(x)], s), x))


@m("Iterator", "filter_map")
def _(M, c):
    f = M.val(c.st, c.args[1]) if isinstance(c.args[1], (Ref, RV)) else c.args[1]

    def sel(s, x):
        r = M.I.invoke(f, [x], s)
        if not isinstance(r, En):
            raise Undef("filter_map")
        return r.d, r.v[1]["0"] if 1 in r.v else None
    return selected(M, c.st, M.stream(c.st, c.args[0]), sel)


@m("Iterator", "last")
def _(M, c):
    s = M.stream(c.st, c.args[0])
    d = alg.pos(s.len)
    return NONE_ if d.is_zero() else some(s.get(c.st, alg.sub(s.len, R1)), d)


@m("Iterator", "find", "position", "find_map")
def _(M, c):
    s = M.stream(c.st, c.args[0])
    f = c.args[1]

    def step(st, acc, x):
        k, found = acc.f["0"], acc.f["1"]
        if c.name == "find_map":
            r = M.I.invoke(f, [x], st)
            ok, y = r.d, r.v[1]["0"] if 1 in r.v else None
        else:
            ok = M.I.invoke(f, [RV(x) if c.name == "find" else x], st)
            y = x if c.name == "find" else k
        if ok.is_zero() or found.d.const() == 1:
            new = found
        else:
            new = vgamma(found.d, found, vgamma(ok, some(y), found))
        return tup(alg.add(k, R1), new)
    r = M.for_loop(c, s, tup(R0, NONE_), step)
    return r.f["1"]


@m("Iterator", "reduce")
def _(M, c):
    s = M.stream(c.st, c.args[0])
    f = c.args[1]
    d = alg.pos(s.len)
    if d.is_zero():
        return NONE_
    try:
        tok, x = alg.ratom(("var", "so far")), s.get(c.st.copy(), R0)
        r = M.I.invoke(f, [tok, x], c.st.copy())
        if isinstance(x, Rat) and isinstance(r, Rat) and r == alg.add(tok, x):
            return some(M.for_loop(c, s, R0, lambda st, a, x: M.I.invoke(f, [a, x], st)), d)      # adds the items up
    except Undef:
        pass
    rest = Stream(alg.sub(s.len, R1), lambda st, k: s.get(st, alg.add(k, R1)))
    return some(M.for_loop(c, rest, s.get(c.st, R0), lambda st, a, x: M.I.invoke(f, [a, x], st)), d)


@m("slice|Vec|array", "windows", "chunks", "chunks_exact")
def _(M, c):
    v = c.val(0)
    n, k = torat(M.length(v)), c.num(1)
    c.oblige(c.name, alg.bnot(alg.pos(k)))
    if c.name == "windows":
        ln = alg.add(alg.sub(n, k), R1)
        if not alg.prove_ge0(ln.n):
            ln = gamma(alg.pos(ln), ln, R0)
        return Stream(ln, lambda s, i: RV(subseq(M, v, i, alg.add(i, k))))
    if c.name == "chunks_exact":
        return Stream(M_intfn(M, "idiv", n, k), lambda s, i: RV(subseq(M, v, alg.mul(i, k), alg.mul(alg.add(i, R1), k))))
    up = M_intfn(M, "idiv", alg.sub(alg.add(n, k), R1), k)
    return Stream(up, lambda s, i: RV(subseq(M, v, alg.mul(i, k), smin(n, alg.mul(alg.add(i, R1), k)))))


@m("Iterator", "sum")
def _(M, c):
    return sum_stream(M, c, M.stream(c.st, c.args[0]))


@m("Iterator", "product")
def _(M, c):
    return sum_stream(M, c, M.stream(c.st, c.args[0]), True)


@m("Iterator", "count")
def _(M, c):
    s = M.stream(c.st, c.args[0])
    if isinstance(s, FStream):
        return M.for_loop(c, s, R0, lambda st, a, x: alg.add(a, R1))
    return M.stream(c.st, c.args[0]).len


@m("Iterator", "fold")
def _(M, c):
    f = c.args[2]
    return M.for_loop(c, M.stream(c.st, c.args[0]), c.args[1], lambda st, a, x: M.I.invoke(f, [a, x], st))


@m("Iterator", "for_each")
def _(M, c):
    f = c.args[1]
    return M.for_loop(c, M.stream(c.st, c.args[0]), UNIT, lambda st, a, x: M.I.invoke(f, [x], st))


def some_item(M, c, s, f, want):
    """some item of a stream of unknown length satisfies (or not) a predicate without side effects, or None"""
    if isinstance(s, FStream):
        return None
    n = toint(s.len)
    if isinstance(n, int) and n <= 64:
        return None
    I = M.I
    rho = Rat(alg.patom(alg.tau(7)))
    saved = alg.FACTS
    d = alg.sub(alg.sub(s.len, R1), rho)
    alg.FACTS = saved + ([d.n] if not d.d else [])
    before = dict(c.st.cells)
    try:
        r = I.invoke(f, [s.get(c.st, rho)], c.st)
    finally:
        alg.FACTS = saved
    if any(c.st.cells.get(k) is not v for k, v in before.items()) or not isinstance(r, Rat) or r.d:
        c.st.cells.clear()
        c.st.cells.update(before)
        return None
    return alg.exists(s.len, r if want else alg.bnot(r), alg.tau(7))


@m("Iterator", "all")
def _(M, c):
    f = c.args[1]
    s = M.stream(c.st, c.args[0])
    r = some_item(M, c, s, f, False)
    if r is not None:
        return alg.bnot(r)
    return M.for_loop(c, s, R1, lambda st, a, x: alg.mul(a, M.I.invoke(f, [x], st)))


@m("Iterator", "any")
def _(M, c):
    f = c.args[1]
    s = M.stream(c.st, c.args[0])
    r = some_item(M, c, s, f, True)
    if r is not None:
        return r
    return M.for_loop(c, s, R0, lambda st, a, x: alg.bor(a, M.I.invoke(f, [x], st)))


@m("Iterator", "nth")
def _(M, c):
    s = M.stream(c.st, c.args[0])
    k = c.num(1)
    d = alg.pos(alg.sub(s.len, k))
    if d.is_zero():
        return NONE_
    return some(s.get(c.st, k), d)


@m("Iterator", "collect")
@m("FromIterator", "from_iter")
def _(M, c):
    v = M.collect(c, M.stream(c.st, c.args[0]))
    if c.dest and head(c.dest) in ("Vec", "Box", "array"):
        return v
    raise Undef("collect into %s" % (head(c.dest) if c.dest else "?"))


@m("slice|Vec|array|Matrix|OPoint", "iter", "iter_mut")
def _(M, c):
    return M.ref_stream(c.st, c.tgt(0))


@m("Matrix", "row_iter")
def _(M, c):
    v = c.mat(0)
    return Stream(torat(v.nr), lambda s, k: M.submat(v, k, 0, 1, v.nc))


@m("Matrix", "column_iter")
def _(M, c):
    v = c.mat(0)
    return Stream(torat(v.nc), lambda s, k: M.submat(v, 0, k, v.nr, 1))


@m("Matrix", "row_iter_mut")
def _(M, c):
    r = c.tgt(0)
    v = c.mat(0)
    return Stream(torat(v.nr), lambda s, k: mview(M, s, r, k, 0, 1, v.nc))


@m("Matrix", "column_iter_mut")
def _(M, c):
    r = c.tgt(0)
    v = c.mat(0)
    return Stream(torat(v.nc), lambda s, k: mview(M, s, r, 0, k, v.nr, 1))


def mview(M, st, r, r0, c0, nr, nc):
    if isinstance(r, MView):
        return MView(r.ref, M.off(r.r0, r0), M.off(r.c0, c0), nr, nc)
    if isinstance(r, Ref):
        return MView(r, toint(r0), toint(c0), nr, nc)
    raise Undef("mutable view of %r" % (r,))


@m("RangeInclusive", "new")
def _(M, c):
    a, b = c.num(0), c.num(1)
    d = alg.add(alg.sub(b, a), R1)
    if d.d or not alg.prove_ge0(d.n):
        d = gamma(alg.pos(d), d, R0)
    return Stream(d, lambda s, k: alg.add(a, k))


@m("free", "num_iter::range_step")
def _(M, c):
    a, b, s = c.num(0), c.num(1), c.num(2)
    c.oblige("range_step of zero", alg.zero(s))
    n = M.I.intfn("ceil_div", alg.sub(b, a), s)
    return Stream(n, lambda st, k: alg.add(a, alg.mul(k, s)))


@m("free", "num_iter::range")
def _(M, c):
    a, b = c.num(0), c.num(1)
    return M.stream(c.st, St("Range", {"start": a, "end": b}))


@m("free", "std::iter::repeat")
def _(M, c):
    v = c.args[0]
    n = alg.fn("infinite", nonneg=True)
    return Stream(n, lambda s, k: v)


@m("free", "itertools::__std_iter::once", "std::iter::once")
def _(M, c):
    v = c.args[0]
    return Stream(R1, lambda s, k: v)


# ---- closures through traits
@m("FnOnce", "call_once")
@m("FnMut", "call_mut")
@m("Fn", "call")
def _(M, c):
    a = c.val(1)
    xs = [a.f[str(i)] for i in range(len(a.f))] if isinstance(a, St) else [a]
    return c.inv(c.args[0], xs)


# ---- Option/Result methods whose bodies we rather model
@m("Option", "as_ref", "as_mut", "as_deref", "as_deref_mut")
def _(M, c):
    r = c.tgt(0)
    v = M.val(c.st, r)
    if isinstance(v, En):
        if 1 in v.v and "0" in v.v[1]:
            return En(OPT, v.d, {0: {}, 1: {"0": M.elem(c.st, M.elem(c.st, r, ("v", 1)), ("f", "0"))}})
        return v
    raise Undef("as_ref")


@m("Option", "take")
def _(M, c):
    old = M.I.load(c.st, c.args[0])
    M.I.store(c.st, c.args[0], NONE_)
    return old


@m("Option", "replace")
def _(M, c):
    old = M.I.load(c.st, c.args[0])
    M.I.store(c.st, c.args[0], some(c.args[1]))
    return old


@m("Option", "insert")
def _(M, c):
    M.I.store(c.st, c.args[0], some(c.args[1]))
    return M.elem(c.st, M.elem(c.st, c.tgt(0), ("v", 1)), ("f", "0"))


@m("Option", "cloned", "copied")
def _(M, c):
    v = c.args[0]
    v = M.val(c.st, v)
    if isinstance(v, En):
        return En(OPT, v.d, {0: {}, **({1: {"0": M.val(c.st, v.v[1]["0"])}} if 1 in v.v and v.v[1] else {})})
    raise Undef("cloned")


# ====================================================================== numeric traits
def zero_of(M, c, ty, k):
    h = head(ty)
    if h == "Matrix":
        nr, nc = M.dest_dims(c, strip(ty))
        if nr is None or nc is None:
            raise Undef("zero of unknown shape")
        return mkmat(nr, nc, lambda i, j: (k if isinstance(i, int) and isinstance(j, int) and i == j else R0))
    return k


@m("Zero", "zero")
@m("free", "nalgebra::zero", "num_traits::zero", "num_traits::identities::zero")
def _(M, c):
    return zero_of(M, c, c.a[0], R0)


@m("One", "one")
@m("free", "nalgebra::one", "num_traits::one", "num_traits::identities::one")
def _(M, c):
    if c.a and head(c.a[0]) in ("Isometry",):
        I3 = tuple(tuple(R1 if i == j else R0 for j in range(3)) for i in range(3))
        return Iso(Rot("q", I3, (R0, R0, R0, R1)), [R0, R0, R0])
    return zero_of(M, c, c.a[0], R1)


@m("Zero", "is_zero")
def _(M, c):
    return alg.zero(c.num(0))


@m("Zero", "set_zero")
@m("One", "set_one")
def _(M, c):
    v = c.val(0)
    x = R0 if c.name == "set_zero" else R1
    if not isinstance(v, Rat):
        raise Undef(c.name)
    c.put(0, x)
    return UNIT


@m("Signed", "is_negative", "is_positive")
def _(M, c):
    a = c.num(0)
    return alg.lt(a, R0) if c.name == "is_negative" else alg.lt(R0, a)


@m("Signed", "abs_sub")
def _(M, c):
    d = alg.sub(c.num(0), c.num(1))
    return gamma(alg.lt(R0, d), d, R0)


@m("free", "nalgebra::abs", "num_traits::abs", "num_traits::sign::abs")
def _(M, c):
    return alg.rabs(c.num(0))


@m("free", "num_traits::signum", "num_traits::sign::signum")
def _(M, c):
    return gamma(alg.lt(c.num(0), R0), rc(-1), R1)


@m("One", "is_one")
def _(M, c):
    return alg.req(c.num(0), R1)


@m("Default", "default")
def _(M, c):
    t = strip(c.a[0])
    h = head(t)
    if t["t"] == "prim":
        return R0
    if h in ("Relative", "AbsDiff", "Ulps"):
        return St("approx::" + h, {"epsilon": alg.fn("eps_default"), "max_relative": alg.fn("max_relative_default"), "max_ulps": alg.fn("max_ulps_default")})
    if h == "Option":
        return NONE_
    if h == "Matrix":
        return zero_of(M, c, t, R0)
    if h == "PhantomData":
        return St("PhantomData", {})
    if h == "Vec":
        return Ar([])
    raise Undef("default of %s" % h)


def narrow(c, v, frm, to):
    if to == "f32" and frm != "f32":
        if isinstance(v, Rat):
            return v if v.const() is not None else alg.fn("narrow_f32", v)
        if isinstance(v, Mat):
            return v.cmap(lambda x: narrow(c, x, frm, to))
    return v


def conv_ty(t):
    t = strip(t)
    if t["t"] == "adt" and t["a"]:
        return conv_ty(t["a"][0])
    return t.get("n")


@m("free", "nalgebra::convert", "nalgebra::convert_unchecked", "nalgebra::convert_ref", "nalgebra::convert_ref_unchecked")
def _(M, c):
    v = c.val(0)
    if isinstance(v, (Rat, Mat, Rot, Iso)):
        return narrow(c, v, conv_ty(c.a[0]), conv_ty(c.a[1]))
    raise Undef("convert %s" % type(v).__name__)


@m("free", "nalgebra::try_convert", "nalgebra::try_convert_ref")
def _(M, c):
    v = c.val(0)
    if isinstance(v, (Rat, Mat)):
        return some(narrow(c, v, conv_ty(c.a[0]), conv_ty(c.a[1])))
    raise Undef("try_convert %s" % type(v).__name__)


@m("SupersetOf", "to_subset")
@m("NumCast|FromPrimitive|ToPrimitive", "from", "from_f64", "to_f64", "from_usize", "from_i32", "from_u32", "from_f32")
def _(M, c):
    return some(c.num(0))


@m("ToPrimitive", "to_f32")
def _(M, c):
    return some(narrow(c, c.num(0), "real", "f32"))


@m("SupersetOf", "is_in_subset")
def _(M, c):
    return R1


@m("ComplexField|f64|f32|Float|Pow", "powi", "simd_powi", "pow")
@m("free", "num_traits::pow")
def _(M, c):
    n = toint(c.num(1))
    a = c.num(0)
    if isinstance(n, int) and abs(n) <= 16:
        if n < 0:
            return c.div(R1, alg.powi(a, -n))
        return alg.powi(a, n)
    return alg.fn("powi", a, torat(n))


@m("ComplexField|f64|f32|Float", "powf", "simd_powf")
def _(M, c):
    a, n = c.num(0), c.num(1)
    k = n.const()
    if k == Fraction(1, 2):
        return alg.sqrt(a)
    if k is not None and k == int(k) and abs(k) <= 16:
        return alg.powi(a, int(k)) if k >= 0 else c.div(R1, alg.powi(a, -int(k)))
    return alg.fn("powf", a, n)


@m("ComplexField|f64|f32|Float", "sqrt", "simd_sqrt")
def _(M, c):
    return alg.sqrt(c.num(0))


@m("ComplexField", "try_sqrt")
def _(M, c):
    a = c.num(0)
    return some(alg.sqrt(a), alg.bnot(alg.pos(alg.neg(a))))


@m("ComplexField|f64|f32|Float|Signed", "abs", "simd_abs", "norm1", "modulus", "simd_modulus")
def _(M, c):
    return alg.rabs(c.num(0))


@m("ComplexField", "modulus_squared", "simd_modulus_squared")
def _(M, c):
    return alg.mul(c.num(0), c.num(0))


@m("ComplexField|f64|f32|Float|Inv", "recip", "simd_recip", "inv")
def _(M, c):
    return c.div(R1, c.num(0))


@m("ComplexField|f64|f32|Float|Signed", "signum", "simd_signum")
def _(M, c):
    return gamma(alg.lt(c.num(0), R0), rc(-1), R1)     # of zero (taken as +0) it is one


@m("ComplexField|f64|f32|Float", "hypot", "simd_hypot")
def _(M, c):
    a, b = c.num(0), c.num(1)
    return alg.sqrt(alg.add(alg.mul(a, a), alg.mul(b, b)))


@m("ComplexField|f64|f32|Float", "sin", "simd_sin")
def _(M, c):
    return alg.trig("sin", c.num(0))


@m("ComplexField|f64|f32|Float", "cos", "simd_cos")
def _(M, c):
    return alg.trig("cos", c.num(0))


@m("ComplexField|f64|f32|Float", "sin_cos", "simd_sin_cos")
def _(M, c):
    return tup(alg.trig("sin", c.num(0)), alg.trig("cos", c.num(0)))


@m("ComplexField", "from_real", "from_simd_real", "real", "simd_real", "conjugate", "simd_conjugate")
def _(M, c):
    return c.num(0)


@m("ComplexField", "scale", "simd_scale")
def _(M, c):
    return alg.mul(c.num(0), c.num(1))


@m("ComplexField", "unscale", "simd_unscale")
def _(M, c):
    return c.div(c.num(0), c.num(1))


@m("RealField|Float", "copysign", "simd_copysign")
def _(M, c):
    b = c.num(1)
    a = alg.rabs(c.num(0))
    return gamma(alg.lt(b, R0), alg.neg(a), a)


@m("RealField|Float|ComplexField|f64|f32", "atan2", "tan", "asin", "acos", "atan", "exp", "ln", "log", "log2", "floor", "ceil", "round", "trunc", "fract", "cbrt", "sinh", "cosh", "tanh", "simd_atan2", "exp2", "exp_m1", "ln_1p", "log10", "asinh", "acosh", "atanh")
def _(M, c):
    if c.name == "fract":
        return alg.sub(c.num(0), alg.fn("trunc", c.num(0)))
    return alg.fn(c.name, *[c.num(i) for i in range(len(c.args))])


@m("RealField|Float|ComplexField|f64|f32", "is_nan", "is_finite", "is_infinite", "is_sign_negative", "is_sign_positive")
def _(M, c):
    a = c.num(0)
    if alg.has_special(a):
        x = alg.ieee(a)
        if x is None:
            return alg.fn("special_" + c.name, a, unk=True)
        if x is not alg.FIN and c.name.startswith("is_sign") and not alg._nan(x):
            return R1 if (x < 0) == (c.name == "is_sign_negative") else R0
        if not c.name.startswith("is_sign"):
            return R1 if {"is_nan": alg._nan(x), "is_infinite": alg._inf(x), "is_finite": not alg._nan(x) and not alg._inf(x)}[c.name] else R0
    if c.name == "is_sign_negative":
        return alg.pos(alg.neg(a))
    if c.name == "is_sign_positive":
        return alg.bnot(alg.pos(alg.neg(a)))
    # values range over the reals; where aborts are decided, a computed value may have overflowed
    if M.I.overflow and a.const() is None:
        at = alg.rat_atoms(a)
        if not (len(at) == 1 and a == Rat(alg.patom(next(iter(at))))):
            i = ind(("fn", "nonfinite" if c.name != "is_nan" else "nan", a))
            return alg.bnot(i) if c.name == "is_finite" else i
    return R1 if c.name == "is_finite" else R0


@m("RealField|Float", "clamp")
def _(M, c):
    a, lo, hi = c.num(0), c.num(1), c.num(2)
    return gamma(alg.clt(a, lo), lo, gamma(alg.clt(hi, a), hi, a))


from math import pi as _PI
for _n, _v in (("pi", _PI), ("frac_pi_2", _PI / 2), ("two_pi", 2 * _PI), ("frac_pi_4", _PI / 4), ("simd_pi", _PI), ("simd_frac_pi_2", _PI / 2), ("frac_pi_3", _PI / 3), ("frac_pi_6", _PI / 6), ("frac_pi_8", _PI / 8), ("frac_1_pi", 1 / _PI),
               ("frac_2_pi", 2 / _PI), ("simd_two_pi", 2 * _PI), ("simd_frac_pi_4", _PI / 4)):
    T[("RealField", _n)] = T[("SimdRealField", _n)] = (lambda v: lambda M, c: Rat(alg.pconst(Fraction(v))))(_v)


@m("AbsDiffEq", "default_epsilon")
@m("RelativeEq", "default_max_relative")
@m("RealField|Float|Bounded", "epsilon", "max_value", "min_value", "max_value", "min_positive_value", "infinity")
def _(M, c):
    r = alg.fn("const_" + c.name)
    if c.name != "min_value":
        alg.POSITIVE.update(r.n.atoms())
        alg.NONNEG.update(r.n.atoms())
    return r


# ---- usize / integer helpers
@m("usize|u32|i32|isize|u64|i64", "saturating_sub")
def _(M, c):
    d = alg.sub(c.num(0), c.num(1))
    return gamma(alg.pos(d), d, R0)


@m("usize|u32|i32|isize|u64|i64", "wrapping_add", "saturating_add")
def _(M, c):
    return alg.add(c.num(0), c.num(1))


@m("usize|u32|i32|isize|u64|i64", "checked_sub")
def _(M, c):
    d = alg.sub(c.num(0), c.num(1))
    return some(d, alg.bnot(alg.pos(alg.neg(d))))


@m("usize|u32|i32|isize|u64|i64", "checked_add")
def _(M, c):
    return some(alg.add(c.num(0), c.num(1)))


# ====================================================================== approx
def releq(M, a, b, *p):
    if isinstance(a, Mat) and isinstance(b, Mat):
        if a.sym and a.sym == b.sym and len(a.c) == len(b.c) and (a.nr, a.nc) == (b.nr, b.nc):
            r = R1
            for x, y in zip(a.c, b.c) if not isinstance(a.c, dict) else [(a.c[k], b.c[k]) for k in a.c]:
                r = alg.mul(r, releq(M, x, y, *p))
            return alg.bnot(alg.exists(torat(a.nr if a.sym == "r" else a.nc), alg.bnot(r), RHO))
        if dims(a) != dims(b) or a.sym:
            return ind(("fn", "releq", vkey(a), vkey(b)) + p)
        r = R1
        for k in a.c:
            r = alg.mul(r, releq(M, a.c[k], b.c[k], *p))
        return r
    if isinstance(a, Rat) and isinstance(b, Rat):
        r = alg.special_cmp("approx", a, b)
        if r is not None:
            return r
        r = alg.approx_fold(a, b, p)
        if r is not None:
            return r
        if len(p) == 2 and p[0] == "abs" and isinstance(p[1], Rat):
            return alg.bnot(alg.pos(alg.sub(alg.rabs(alg.sub(a, b)), p[1])))
    ka, kb = vkey(a), vkey(b)
    if repr(kb) < repr(ka):
        ka, kb = kb, ka
    return ind(("fn", "approx_eq", ka, kb) + p)


@m("Relative", "eq", "ne")
def _(M, c):
    s = c.val(0)
    r = releq(M, c.val(1), c.val(2), "rel", s.f["epsilon"], s.f["max_relative"])
    return alg.bnot(r) if c.name == "ne" else r


@m("AbsDiff", "eq", "ne")
def _(M, c):
    s = c.val(0)
    r = releq(M, c.val(1), c.val(2), "abs", s.f["epsilon"])
    return alg.bnot(r) if c.name == "ne" else r


@m("Ulps", "eq", "ne")
def _(M, c):
    s = c.val(0)
    r = releq(M, c.val(1), c.val(2), "ulps", s.f["epsilon"], s.f["max_ulps"])
    return alg.bnot(r) if c.name == "ne" else r


@m("Relative|AbsDiff|Ulps", "epsilon", "max_relative", "max_ulps")
def _(M, c):
    s = c.val(0)
    f = dict(s.f)
    f[c.name] = c.val(1)
    return St(s.n, f)


@m("RelativeEq", "relative_eq", "relative_ne")
def _(M, c):
    r = releq(M, c.val(0), c.val(1), "rel", defeps(c.num(2), "eps_default"), defeps(c.num(3), "max_relative_default"))
    return alg.bnot(r) if c.name.endswith("ne") else r


def defeps(x, to):
    k = [alg.ATOMS[a] for a in alg.rat_atoms(x)]
    if len(k) == 1 and k[0] in (("fn", "const_default_epsilon"), ("fn", "const_default_max_relative")) and x == Rat(alg.patom(alg.atom_id(k[0]))):
        return alg.fn("eps_default" if k[0][1].endswith("epsilon") else "max_relative_default")
    return x


@m("AbsDiffEq", "abs_diff_eq", "abs_diff_ne")
def _(M, c):
    r = releq(M, c.val(0), c.val(1), "abs", defeps(c.num(2), "eps_default"))
    return alg.bnot(r) if c.name.endswith("ne") else r


# ====================================================================== nalgebra: dims
@m("Dim|DimName", "from_usize")
def _(M, c):
    n = c.num(0)
    d = dimof(c.a[0])
    if d is not None and not (c.a[0]["t"] == "param"):
        if c.a[0]["t"] == "adt" and c.a[0]["n"].endswith("Dyn"):
            return n
        c.oblige("dimension mismatch", alg.bnot(alg.req(torat(d), n)))
    elif d is not None:
        c.oblige("dimension mismatch", alg.bnot(alg.req(torat(d), n)))
    return n


@m("Dim|DimName", "dim", "try_to_usize", "value", "name", "USIZE")
def _(M, c):
    if c.args:
        v = c.num(0)
    else:
        d = dimof(c.a[0])
        if d is None:
            if c.name == "try_to_usize" and c.a[0]["t"] == "adt" and c.a[0]["n"].endswith("Dyn"):
                return NONE_
            raise Undef("dim of %s" % head(c.a[0]))
        v = torat(d)
    return some(v) if c.name == "try_to_usize" else v


def isdyn(t):
    """is this dimension type the dynamic one? (None: not known)"""
    if t["t"] == "adt":
        return t["n"].endswith("Dyn")
    return False if dimof(t) is not None else None


@m("Dim", "is", "is_dyn")
def _(M, c):
    ds = [isdyn(t) for t in c.a[:2]]
    if c.name == "is_dyn":
        if ds[0] is None:
            raise Undef("kind of dimension %s" % head(c.a[0]))
        return R1 if ds[0] else R0
    if len(ds) != 2 or None in ds:
        raise Undef("kind of dimension")
    if ds[0] != ds[1]:
        return R0
    return R1 if ds[0] else alg.req(torat(dimof(c.a[0])), torat(dimof(c.a[1])))


@m("DimAdd|DimSub|DimMin|DimMax", "add", "sub", "min", "max")
def _(M, c):
    a, b = c.num(0), c.num(1)
    return {"add": alg.add, "sub": alg.sub}.get(c.name, lambda x, y: M.bad("dim"))(a, b)


# ====================================================================== nalgebra: shape & access
@m("Matrix", "nrows")
def _(M, c):
    return torat(c.mat(0).nr)


@m("Matrix", "ncols")
def _(M, c):
    return torat(c.mat(0).nc)


@m("OPoint", "len")
def _(M, c):
    return torat(c.mat(0).nr)


@m("Matrix", "shape", "shape_generic")
@m("RawStorage", "shape")
def _(M, c):
    v = c.mat(0)
    return tup(torat(v.nr), torat(v.nc))


@m("Matrix", "is_square")
def _(M, c):
    v = c.mat(0)
    return alg.req(torat(v.nr), torat(v.nc))


@m("Matrix", "row", "row_mut")
def _(M, c):
    v = c.mat(0)
    i = c.num(1)
    c.oblige("index", alg.bnot(alg.pos(alg.sub(torat(v.nr), i))))
    if c.name == "row_mut":
        return mview(M, c.st, c.tgt(0), i, 0, 1, v.nc)
    return M.submat(v, i, 0, 1, v.nc)


@m("Matrix", "column", "column_mut")
def _(M, c):
    v = c.mat(0)
    i = c.num(1)
    c.oblige("index", alg.bnot(alg.pos(alg.sub(torat(v.nc), i))))
    if c.name == "column_mut":
        return mview(M, c.st, c.tgt(0), 0, i, v.nr, 1)
    return M.submat(v, 0, i, v.nr, 1)


def constargs(c):
    out = []
    for x in c.a:
        if x["t"] == "const" and isinstance(x["v"], int):
            out.append(x["v"])
    return out


def view(M, c, r0, c0, nr, nc):
    v = c.mat(0)
    c.oblige("view out of bounds", alg.bnot(alg.mul(alg.bnot(alg.pos(alg.sub(alg.add(torat(r0), torat(nr)), torat(v.nr)))), alg.bnot(alg.pos(alg.sub(alg.add(torat(c0), torat(nc)), torat(v.nc)))))))
    if "_mut" in c.name:
        return mview(M, c.st, c.tgt(0), r0, c0, nr, nc)
    return M.submat(v, r0, c0, nr, nc)


def method_consts(c, n):
    """the method's own const generics (last n const args)"""
    ks = [x["v"] for x in c.a if x["t"] == "const" and isinstance(x["v"], int)]
    ks2 = [x["v"] for x in c.a if x["t"] == "const"]
    tail = c.a[-n:]
    if all(x["t"] == "const" and isinstance(x["v"], int) for x in tail):
        return [x["v"] for x in tail]
    if len(ks) >= n:
        return ks[-n:]
    raise Undef("const generics of %s" % c.name)


@m("Matrix", "fixed_view", "fixed_view_mut", "fixed_slice", "fixed_slice_mut")
def _(M, c):
    nr, nc = method_consts(c, 2)
    return view(M, c, c.num(1), c.num(2), nr, nc)


@m("Matrix", "fixed_rows", "fixed_rows_mut")
def _(M, c):
    n, = method_consts(c, 1)
    return view(M, c, c.num(1), R0, n, c.mat(0).nc)


@m("Matrix", "fixed_columns", "fixed_columns_mut")
def _(M, c):
    n, = method_consts(c, 1)
    return view(M, c, R0, c.num(1), c.mat(0).nr, n)


@m("Matrix", "rows", "rows_mut", "rows_generic")
def _(M, c):
    return view(M, c, c.num(1), R0, toint(c.num(2)), c.mat(0).nc)


@m("Matrix", "columns", "columns_mut", "columns_generic")
def _(M, c):
    return view(M, c, R0, c.num(1), c.mat(0).nr, toint(c.num(2)))


@m("Matrix", "view", "view_mut", "slice", "slice_mut", "generic_view", "generic_view_mut")
def _(M, c):
    a, b = c.val(1), c.val(2)
    return view(M, c, a.f["0"], a.f["1"], toint(b.f["0"]), toint(b.f["1"]))


@m("Matrix", "as_view", "as_view_mut")
def _(M, c):
    if "_mut" in c.name:
        v = c.mat(0)
        return mview(M, c.st, c.tgt(0), 0, 0, v.nr, v.nc)
    return c.mat(0)


@m("Matrix", "get_unchecked", "get_unchecked_mut", "vget_unchecked")
def _(M, c):
    return index_place(M, c)


@m("Matrix|OPoint", "xy", "xyz", "xx", "yx", "yy", "xz", "zx", "yz", "zy", "zz")
def _(M, c):
    v = c.mat(0).vec()
    return colvec([v["xyz".index(ch)] for ch in c.name])


@m("Matrix", "transpose")
def _(M, c):
    return c.mat(0).T()


@m("Matrix", "transpose_mut")
def _(M, c):
    c.put(0, c.mat(0).T())
    return UNIT


@m("Matrix", "adjoint")
def _(M, c):
    return c.mat(0).T()


@m("Matrix", "diagonal")
def _(M, c):
    v = c.mat(0)
    return colvec([v.c[(i, i)] for i in range(min(v.nr, v.nc))])


@m("Matrix", "trace")
def _(M, c):
    v = c.mat(0)
    return alg.radd(*[v.c[(i, i)] for i in range(v.nr)])


@m("Matrix", "remove_column")
def _(M, c):
    v = c.mat(0)
    k = toint(c.num(1))
    c.oblige("index", alg.bnot(alg.pos(alg.sub(torat(v.nc), torat(k)))))
    if not isinstance(k, int):
        raise Undef("row or column %s removed" % (k,))
    cs = [j for j in range(v.nc) if j != k]
    return mkmat(v.nr, len(cs), lambda i, j: v.get(i, cs[j]))


@m("Matrix", "remove_row")
def _(M, c):
    v = c.mat(0)
    k = toint(c.num(1))
    c.oblige("index", alg.bnot(alg.pos(alg.sub(torat(v.nr), torat(k)))))
    if not isinstance(k, int):
        raise Undef("row or column %s removed" % (k,))
    rs = [j for j in range(v.nr) if j != k]
    return mkmat(len(rs), v.nc, lambda i, j: v.get(rs[i], j))


@m("Matrix", "remove_fixed_columns")
def _(M, c):
    n, = method_consts(c, 1)
    v = c.mat(0)
    k = toint(c.num(1))
    if not isinstance(k, int):
        raise Undef("row or column %s removed" % (k,))
    cs = [j for j in range(v.nc) if not k <= j < k + n]
    return mkmat(v.nr, len(cs), lambda i, j: v.get(i, cs[j]))


@m("Matrix", "insert_column")
def _(M, c):
    v = c.mat(0)
    k = toint(c.num(1))
    x = c.num(2)
    return mkmat(v.nr, v.nc + 1, lambda i, j: x if j == k else v.get(i, j if j < k else j - 1))


@m("Matrix", "insert_row")
def _(M, c):
    v = c.mat(0)
    k = toint(c.num(1))
    x = c.num(2)
    return mkmat(v.nr + 1, v.nc, lambda i, j: x if i == k else v.get(i if i < k else i - 1, j))


@m("Matrix", "push")
def _(M, c):
    return colvec(c.mat(0).vec() + [c.num(1)])


@m("Matrix", "fixed_resize")
def _(M, c):
    nr, nc = method_consts(c, 2)
    v = c.mat(0)
    x = c.num(1)
    return mkmat(nr, nc, lambda i, j: v.get(i, j) if i < v.nr and j < v.nc else x)


@m("Matrix", "to_homogeneous")
def _(M, c):
    v = c.mat(0)
    if v.nc == 1:
        return colvec(v.vec() + [R0])
    return homog(v)


@m("OPoint", "to_homogeneous")
def _(M, c):
    return colvec(c.mat(0).vec() + [R1])


@m("OPoint", "from_homogeneous")
def _(M, c):
    v = c.mat(0).vec()
    w = v[-1]
    return some(colvec([c.div(x, w) for x in v[:-1]]), alg.bnot(alg.zero(w)))


# ---- construction
@m("Matrix", "zeros", "zeros_generic")
def _(M, c):
    return build(M, c, lambda i, j: R0)


def same(i, k, a, b):
    """a where the indices agree, b elsewhere; an index may be the generic row"""
    if isinstance(i, int) and isinstance(k, int):
        return a if i == k else b
    return gamma(alg.req(torat(i), torat(k)), a, b)


def build(M, c, f):
    if c.name.endswith("_generic"):
        return mkmat(c.num(0), c.num(1), f)
    nr, nc = M.self_dims(c)
    k = 0
    if nr is None:
        nr = c.num(k)
        k += 1
    if nc is None:
        nc = c.num(k)
        k += 1
    return mkmat(nr, nc, f)


@m("Matrix", "from_element", "from_element_generic", "repeat", "repeat_generic")
def _(M, c):
    x = c.num(len(c.args) - 1)
    return build(M, c, lambda i, j: x)


@m("Matrix", "identity", "identity_generic")
def _(M, c):
    return build(M, c, lambda i, j: same(toint(i), toint(j), R1, R0))


@m("Matrix", "from_diagonal_element")
def _(M, c):
    x = c.num(len(c.args) - 1)
    return build(M, c, lambda i, j: same(i, j, x, R0))


@m("Matrix", "from_diagonal")
def _(M, c):
    v = c.mat(0).vec()
    return mkmat(len(v), len(v), lambda i, j: v[i] if i == j else R0)


@m("Matrix", "from_fn", "from_fn_generic")
def _(M, c):
    f = c.args[-1]
    saved = alg.FACTS

    def g(i, j):
        fs = []
        for idx, n in ((i, c_n[0]), (j, c_n[1])):
            if isinstance(idx, Rat) and RHO in alg.rat_atoms(idx):
                d = alg.sub(alg.sub(torat(n), R1), idx)
                if not d.d:
                    fs.append(d.n)
        alg.FACTS = saved + fs
        try:
            return M.val(c.st, M.I.invoke(f, [torat(i), torat(j)], c.st))
        finally:
            alg.FACTS = saved
    if c.name.endswith("_generic"):
        c_n = (c.num(0), c.num(1))
    else:
        c_n = list(M.self_dims(c))
        k = 0
        for z in (0, 1):
            if c_n[z] is None:
                c_n[z] = c.num(k)
                k += 1
    return mkmat(c_n[0], c_n[1], g)


@m("Matrix", "new")
def _(M, c):
    nr, nc = M.self_dims(c)
    xs = [c.num(i) for i in range(len(c.args))]
    if not isinstance(nr, int) or not isinstance(nc, int) or len(xs) != nr * nc:
        raise Undef("Matrix::new of %s x %s" % (nr, nc))
    return Mat(nr, nc, {(i, j): xs[i * nc + j] for i in range(nr) for j in range(nc)})


@m("OPoint|Translation|Quaternion", "new")
def _(M, c):
    xs = [c.num(i) for i in range(len(c.args))]
    if c.f["cont"]["self"]["n"].endswith("Quaternion"):
        xs = xs[1:] + xs[:1]
    return colvec(xs)


@m("OPoint", "origin")
@m("Translation", "identity")
def _(M, c):
    nr, nc = M.self_dims(c)
    return colvec([R0] * toint(nr))


@m("OPoint", "from_coordinates", "from_slice")
def _(M, c):
    return M.as_mat(c.val(0))


@m("OPoint", "coords")
def _(M, c):
    return c.mat(0)


@m("Matrix", "from_iterator", "from_iterator_generic", "from_vec", "from_vec_generic", "from_column_slice", "from_column_slice_generic", "from_array_storage", "from_data")
def _(M, c):
    return from_seq(M, c, False)


@m("Matrix", "from_row_slice", "from_row_slice_generic", "from_row_iterator", "from_row_iterator_generic")
def _(M, c):
    return from_seq(M, c, True)


def from_seq(M, c, rowmajor):
    src = c.args[-1]
    if c.name in ("from_array_storage", "from_data"):
        return M.as_mat(c.val(0))
    s = M.stream(c.st, src)
    if c.name.endswith("_generic"):
        nr, nc = toint(c.num(0)), toint(c.num(1))
    else:
        nr, nc = M.self_dims(c)
        k = 0
        if nr is None:
            nr = c.num(k)
            k += 1
        if nc is None:
            nc = c.num(k)
        nr, nc = toint(nr), toint(nc)
    need = alg.mul(torat(nr), torat(nc))
    c.oblige("from_iterator length", alg.pos(alg.sub(need, s.len)))

    def f(i, j):
        if nr == 1:
            k = torat(j)
        elif nc == 1:
            k = torat(i)
        elif rowmajor:
            k = alg.add(alg.mul(torat(i), torat(nc)), torat(j))
        else:
            k = alg.add(alg.mul(torat(j), torat(nr)), torat(i))
        return M.val(c.st, s.get(c.st, k))
    return mkmat(nr, nc, f)


@m("Matrix", "from_columns")
def _(M, c):
    v = c.val(0)
    if not isinstance(v, Ar):
        raise Undef("from_columns")
    cols = [M.as_mat(M.val(c.st, x)) for x in v.x]
    if cols[0].sym:
        return Mat(cols[0].nr, len(cols), [x.c[0] for x in cols], "r")
    return mkmat(cols[0].nr, len(cols), lambda i, j: cols[j].get(i, 0))


@m("Matrix", "from_rows")
def _(M, c):
    v = c.val(0)
    if isinstance(v, Fam):
        t = M.as_mat(M.val(c.st, v.t))
        return Mat(v.len, t.nc, [t.get(0, j) for j in range(t.nc)], "r")
    rows = [M.as_mat(M.val(c.st, x)) for x in v.x]
    if rows[0].sym:
        return Mat(len(rows), rows[0].nc, [x.c[0] for x in rows], "c")
    return mkmat(len(rows), rows[0].nc, lambda i, j: rows[i].get(0, j))


@m("Matrix", "x", "y", "z", "w")
def _(M, c):
    nr, nc = M.self_dims(c)
    k = "xyzw".index(c.name)
    return mkmat(nr, nc, lambda i, j: same(i if nc == 1 else j, k, R1, R0))


@m("Matrix", "x_axis", "y_axis", "z_axis")
def _(M, c):
    nr, nc = M.self_dims(c)
    k = "xyz".index(c.name[0])
    return mkmat(nr, nc, lambda i, j: same(i if nc == 1 else j, k, R1, R0))


@m("Matrix", "ith", "ith_axis")
def _(M, c):
    nr, nc = M.self_dims(c)
    k = toint(c.num(0))
    x = c.num(1) if c.name == "ith" else R1
    return mkmat(nr, nc, lambda i, j: same(i, k, x, R0))


# ---- elementwise
def percell(M, c, v, thunk):
    """a closure applied to every element; for a symbolic number of rows it must not carry state along"""
    before = dict(c.st.cells) if v.sym is not None else None
    r = thunk()
    if before is not None and any(c.st.cells.get(k) is not x for k, x in before.items()):
        raise Undef("stateful closure over the elements of a batch")
    return r


@m("Matrix", "map")
def _(M, c):
    f = c.args[1]
    v = c.mat(0)
    return percell(M, c, v, lambda: v.cmap(lambda x: M.val(c.st, M.I.invoke(f, [x], c.st))))


@m("Matrix", "apply", "zip_apply", "apply_into")
def _(M, c):
    into = c.name == "apply_into"
    z = c.name == "zip_apply"
    f = c.args[-1]
    v = c.mat(0)

    def one(x, *y):
        r = Ref(M.I.new_cell(c.st, x))
        M.I.invoke(f, [r] + list(y), c.st)
        return M.val(c.st, r)
    w = percell(M, c, v, lambda: v.czip(c.mat(1), one) if z else v.cmap(one))
    if into:
        return w
    c.put(0, w)
    return UNIT


@m("Matrix", "zip_map")
def _(M, c):
    f = c.args[2]
    return c.mat(0).czip(c.mat(1), lambda x, y: M.val(c.st, M.I.invoke(f, [x, y], c.st)))


@m("Matrix", "map_with_location")
def _(M, c):
    f = c.args[1]
    v = c.mat(0)
    return mkmat(v.nr, v.nc, lambda i, j: M.val(c.st, M.I.invoke(f, [torat(i), torat(j), v.get(i, j)], c.st)))


@m("Matrix", "fold")
def _(M, c):
    acc = c.args[1]
    for x in c.mat(0).vec():
        acc = M.I.invoke(c.args[2], [acc, x], c.st)
    return acc


@m("Matrix", "component_mul")
def _(M, c):
    return c.mat(0).czip(c.mat(1), alg.mul)


@m("Matrix", "component_div")
def _(M, c):
    return c.mat(0).czip(c.mat(1), c.div)


@m("Matrix", "component_mul_assign")
def _(M, c):
    c.put(0, c.mat(0).czip(c.mat(1), alg.mul))
    return UNIT


@m("Matrix", "component_div_assign")
def _(M, c):
    c.put(0, c.mat(0).czip(c.mat(1), c.div))
    return UNIT


@m("Matrix", "add_scalar")
def _(M, c):
    k = c.num(1)
    return c.mat(0).cmap(lambda x: alg.add(x, k))


@m("Matrix", "add_scalar_mut")
def _(M, c):
    k = c.num(1)
    c.put(0, c.mat(0).cmap(lambda x: alg.add(x, k)))
    return UNIT


@m("Matrix", "scale")
def _(M, c):
    k = c.num(1)
    return c.mat(0).cmap(lambda x: alg.mul(x, k))


@m("Matrix", "scale_mut")
def _(M, c):
    k = c.num(1)
    c.put(0, c.mat(0).cmap(lambda x: alg.mul(x, k)))
    return UNIT


@m("Matrix", "unscale")
def _(M, c):
    k = c.num(1)
    return c.mat(0).cmap(lambda x: c.div(x, k))


@m("Matrix", "unscale_mut")
def _(M, c):
    k = c.num(1)
    c.put(0, c.mat(0).cmap(lambda x: c.div(x, k)))
    return UNIT


@m("Matrix", "abs")
def _(M, c):
    return c.mat(0).cmap(alg.rabs)


@m("Matrix", "sum")
def _(M, c):
    v = c.mat(0)
    if v.sym is None:
        return alg.radd(*v.c.values())
    tv = alg.tau(7)
    n = v.nr if v.sym == "r" else v.nc
    return alg.radd(*[alg.rsum(torat(n), subst(x, {RHO: Rat(alg.patom(tv))}), tv) for x in v.c])


@m("Matrix", "row_sum")
def _(M, c):
    v = c.mat(0)
    if v.sym == "r":
        tv = alg.tau(7)
        return rowvec([alg.rsum(torat(v.nr), subst(x, {RHO: Rat(alg.patom(tv))}), tv) for x in v.c])
    return rowvec([alg.radd(*[v.c[(i, j)] for i in range(v.nr)]) for j in range(v.nc)])


@m("Matrix", "column_sum")
def _(M, c):
    v = c.mat(0)
    return mkmat(v.nr, 1, lambda i, _: alg.radd(*[v.get(i, j) for j in range(v.nc)]))


@m("Matrix", "mean")
def _(M, c):
    v = c.mat(0)
    n = alg.mul(torat(v.nr), torat(v.nc))
    return gamma(alg.zero(n), R0, alg.div(T[("Matrix", "sum")](M, c), n))


@m("Matrix", "row_mean")
def _(M, c):
    v = c.mat(0)
    n = torat(v.nr)
    s = T[("Matrix", "row_sum")](M, c)
    return s.cmap(lambda x: gamma(alg.zero(n), R0, alg.div(x, n)))


@m("Matrix", "column_mean")
def _(M, c):
    v = c.mat(0)
    n = torat(v.nc)
    return T[("Matrix", "column_sum")](M, c).cmap(lambda x: c.div(x, n))


@m("Matrix", "amax", "camax", "amin", "camin", "max", "min")
def _(M, c):
    v = c.mat(0)
    f = alg.rabs if c.name in ("amax", "camax", "amin", "camin") else (lambda x: x)
    v = v.cmap(f)
    big = c.name.endswith("max")
    if v.sym is None:
        xs = [v.c[(i, j)] for j in range(v.nc) for i in range(v.nr)]
        r = xs[0] if xs else R0
        for x in xs[1:]:
            r = gamma(alg.lt(r, x) if big else alg.lt(x, r), x, r)
        return r
    n = torat(v.nr if v.sym == "r" else v.nc)
    tv = alg.tau(7)
    first = lambda x: subst(x, {RHO: R0})
    # an empty matrix has the value zero; a matrix of absolute values needs no separate start
    r = R0 if c.name in ("amax", "camax") else gamma(alg.zero(n), R0, first(v.c[0]))
    for x in v.c:
        r = (alg.gmax if big else alg.gmin)(n, subst(x, {RHO: Rat(alg.patom(tv))}), tv, r)
    return r


@m("Matrix", "fill")
def _(M, c):
    k = c.num(1)
    c.put(0, c.mat(0).cmap(lambda x: k))
    return UNIT


@m("Matrix", "set_zero", "fill_with_identity")
def _(M, c):
    v = c.mat(0)
    c.put(0, mkmat(v.nr, v.nc, lambda i, j: R0 if c.name == "set_zero" else same(i, j, R1, R0)))
    return UNIT


@m("Matrix", "set_row")
def _(M, c):
    v = c.mat(0)
    i = c.num(1)
    c.oblige("index", alg.bnot(alg.pos(alg.sub(torat(v.nr), i))))
    c.put(0, M.set_submat(v, i, 0, 1, v.nc, c.mat(2)))
    return UNIT


@m("Matrix", "set_column")
def _(M, c):
    v = c.mat(0)
    i = c.num(1)
    c.oblige("index", alg.bnot(alg.pos(alg.sub(torat(v.nc), i))))
    c.put(0, M.set_submat(v, 0, toint(i), v.nr, 1, c.mat(2)))
    return UNIT


@m("Matrix", "copy_from", "tr_copy_from")
def _(M, c):
    v, x = c.mat(0), c.mat(1)
    if c.name == "tr_copy_from":
        x = x.T()
    if not (veq(torat(v.nr), torat(x.nr)) and veq(torat(v.nc), torat(x.nc))):
        c.oblige("copy_from shapes", alg.bnot(alg.mul(alg.req(torat(v.nr), torat(x.nr)), alg.req(torat(v.nc), torat(x.nc)))))
    c.put(0, x)
    return UNIT


@m("Matrix", "copy_from_slice")
def _(M, c):
    v = c.mat(0)
    xs = c.val(1)
    if isinstance(xs, Ar) and v.sym is None:
        c.put(0, Mat(v.nr, v.nc, {(i, j): xs.x[j * v.nr + i] for i in range(v.nr) for j in range(v.nc)}))
        return UNIT
    raise Undef("copy_from_slice")


def swapped(v, i, a, b, at, n):
    if isinstance(n, int):
        r = at(i)
        for k, o in ((a, b), (b, a)):
            if isinstance(k, int) and k >= n or isinstance(o, int) and o >= n:
                return r          # out of range: the call panics
        return same(i, b, at(a), same(i, a, at(b), r))
    return same(i, b, at(a), same(i, a, at(b), at(i)))


@m("Matrix", "swap_rows")
def _(M, c):
    v = c.mat(0)
    a, b = toint(c.num(1)), toint(c.num(2))
    for k in (a, b):
        c.oblige("index", alg.bnot(alg.pos(alg.sub(torat(v.nr), torat(k)))))
    c.put(0, mkmat(v.nr, v.nc, lambda i, j: swapped(v, i, a, b, lambda k: v.get(k, j), v.nr)))
    return UNIT


@m("Matrix", "swap_columns")
def _(M, c):
    v = c.mat(0)
    a, b = toint(c.num(1)), toint(c.num(2))
    for k in (a, b):
        c.oblige("index", alg.bnot(alg.pos(alg.sub(torat(v.nc), torat(k)))))
    c.put(0, mkmat(v.nr, v.nc, lambda i, j: swapped(v, j, a, b, lambda k: v.get(i, k), v.nc)))
    return UNIT


# ---- norms / products
@m("Matrix", "norm", "magnitude")
def _(M, c):
    return alg.sqrt(M.norm2(c.mat(0)))


@m("Matrix", "norm_squared", "magnitude_squared")
def _(M, c):
    return M.norm2(c.mat(0))


@m("Matrix", "metric_distance")
@m("free", "nalgebra::distance")
def _(M, c):
    return alg.sqrt(M.norm2(c.mat(0).czip(c.mat(1), alg.sub)))


def normalize(M, c, v):
    n = alg.sqrt(M.norm2(v))
    return v.cmap(lambda x: c.div(x, n)), n


@m("Matrix|Normed", "normalize")
@m("Unit", "new_normalize")
def _(M, c):
    v = c.val(0)
    if isinstance(v, Mat):
        if c.dest and head(c.dest) == "Unit" and c.a and head(c.a[0]) == "Quaternion":
            return unitq(M, c, v)
        return normalize(M, c, v)[0]
    raise Undef("normalize %s" % type(v).__name__)


def unitq(M, c, v):
    n2 = M.norm2(v)
    if n2.const() == 1:
        q = tuple(v.vec())
    else:
        n = alg.sqrt(n2)
        q = tuple(c.div(x, n) for x in v.vec())
    return Rot("q", quat_to_mat(q), q)


@m("Unit", "from_quaternion")
def _(M, c):
    return unitq(M, c, c.mat(0))


@m("Unit", "new_and_get")
def _(M, c):
    return tup(*normalize(M, c, c.mat(0)))


@m("Unit", "try_new")
def _(M, c):
    v = c.mat(0)
    n, mn = normalize(M, c, v), c.num(1)
    return some(n[0], alg.pos(alg.sub(n[1], mn)))


@m("Matrix", "try_normalize")
def _(M, c):
    v = c.mat(0)
    n, mn = normalize(M, c, v), c.num(1)
    return some(n[0], alg.pos(alg.sub(n[1], mn)))


@m("Matrix", "normalize_mut")
def _(M, c):
    v, n = normalize(M, c, c.mat(0))
    c.put(0, v)
    return n


@m("Matrix", "dot")
def _(M, c):
    a, b = c.mat(0), c.mat(1)
    if a.sym is not None:
        n = torat(M.length(a)) if len(a.c) == 1 else torat(a.nr if a.sym == "r" else a.nc)
        tv = alg.tau(7)
        return alg.radd(*[alg.rsum(n, subst(alg.mul(x, y), {RHO: Rat(alg.patom(tv))}), tv) for x, y in zip(a.c, b.c)])
    if dims(a) != dims(b):
        raise Undef("dot of different shapes")
    return alg.radd(*[alg.mul(x, b.c[k]) for k, x in a.c.items()])


@m("Matrix", "tr_dot")
def _(M, c):
    a, b = c.mat(0), c.mat(1)
    return alg.radd(*[alg.mul(x, y) for x, y in zip(a.vec(), b.vec())])


@m("Matrix", "tr_mul", "ad_mul")
def _(M, c):
    return M.matmul(c.mat(0).T(), c.mat(1))


def cross(a, b):
    m_, s = alg.mul, alg.sub
    return [s(m_(a[1], b[2]), m_(a[2], b[1])), s(m_(a[2], b[0]), m_(a[0], b[2])), s(m_(a[0], b[1]), m_(a[1], b[0]))]


@m("Matrix", "cross")
def _(M, c):
    a = c.mat(0)
    r = cross(a.vec(), c.mat(1).vec())
    return colvec(r) if a.nc == 1 else rowvec(r)


@m("Matrix", "cross_matrix")
def _(M, c):
    x, y, z = c.mat(0).vec()
    n = alg.neg
    return frommat([[R0, n(z), y], [z, R0, n(x)], [n(y), x, R0]])


@m("Matrix", "angle")
def _(M, c):
    return alg.fn("angle", vkey(c.mat(0)), vkey(c.mat(1)))


@m("Matrix", "lerp")
def _(M, c):
    t = c.num(2)
    return c.mat(0).czip(c.mat(1), lambda x, y: alg.add(x, alg.mul(t, alg.sub(y, x))))


@m("free", "nalgebra::center")
def _(M, c):
    h = rc(Fraction(1, 2))
    return c.mat(0).czip(c.mat(1), lambda x, y: alg.mul(h, alg.add(x, y)))


@m("Matrix", "determinant")
def _(M, c):
    return M.det(c.mat(0))


def inverse(M, c, v):
    """inverse and determinant"""
    d = M.det(v)
    n = v.nr
    if n == 1:
        a = frommat([[R1]])
    else:
        a = Mat(n, n, {(i, j): (alg.neg if (i + j) % 2 else (lambda x: x))(M.det(M.minor(v, j, i))) for i in range(n) for j in range(n)})
    return a.cmap(lambda x: c.div(x, d)), d


@m("Matrix", "try_inverse")
def _(M, c):
    a, d = inverse(M, c, c.mat(0))
    return some(a, alg.bnot(alg.zero(d)))


@m("Matrix", "try_inverse_mut")
def _(M, c):
    v = c.mat(0)
    a, d = inverse(M, c, v)
    ok = alg.bnot(alg.zero(d))
    c.put(0, vgamma(ok, a, v))
    return ok


@m("Matrix", "lu", "full_piv_lu")
@m("LU", "new")
@m("FullPivLU", "new")
def _(M, c):
    v = c.mat(0)
    if not (isinstance(v.nr, int) and v.nr == v.nc and v.nr <= 4):
        raise Undef("LU of %s" % (dims(v),))
    return St("LU", {"m": v})


@m("Matrix", "cholesky")
@m("Cholesky", "new")
def _(M, c):
    v = c.mat(0)
    if not (isinstance(v.nr, int) and v.nr == v.nc and v.nr <= 4):
        raise Undef("Cholesky of %s" % (dims(v),))
    ok = R1
    for k in range(1, v.nr + 1):
        ok = alg.mul(ok, alg.pos(M.det(M.submat(v, 0, 0, k, k))))
    # only the lower triangle is read
    return some(St("LU", {"m": Mat(v.nr, v.nr, {(i, j): v.c[(max(i, j), min(i, j))] for i in range(v.nr) for j in range(v.nr)})}), ok)


def decomposed(M, c):
    v = c.val(0)
    if v.n == "QR":
        v = M.qr_of[toint(v.f["n"])]
        return v
    return v.f["m"]


@m("LU|FullPivLU|QR|Cholesky", "try_inverse", "inverse")
def _(M, c):
    a, d = inverse(M, c, decomposed(M, c))
    return a if c.name == "inverse" else some(a, alg.bnot(alg.zero(d)))


@m("LU|FullPivLU|QR|Cholesky", "determinant", "is_invertible")
def _(M, c):
    if c.val(0).n == "QR":
        raise Undef("determinant of QR")
    d = M.det(decomposed(M, c))
    return d if c.name == "determinant" else alg.bnot(alg.zero(d))


@m("LU|FullPivLU|QR|Cholesky", "solve", "solve_mut")
def _(M, c):
    a, d = inverse(M, c, decomposed(M, c))
    x = M.matmul(a, c.mat(1))
    chol = c.f["cont"]["self"]["n"].endswith("Cholesky")
    if c.name == "solve":
        return x if chol else some(x, alg.bnot(alg.zero(d)))
    if chol:
        c.put(1, x)
        return UNIT
    ok = alg.bnot(alg.zero(d))
    c.put(1, vgamma(ok, x, c.mat(1)))
    return ok


@m("Matrix", "is_invertible")
def _(M, c):
    return alg.bnot(alg.zero(M.det(c.mat(0))))


@m("Matrix", "gemm")
def _(M, c):
    a, x, y, b = c.num(1), c.mat(2), c.mat(3), c.num(4)
    p = M.matmul(x, y)
    c.put(0, c.mat(0).czip(p, lambda o, z: alg.add(alg.mul(b, o), alg.mul(a, z))))
    return UNIT


@m("Matrix", "mul_to")
def _(M, c):
    c.put(2, M.matmul(c.mat(0), c.mat(1)))
    return UNIT


@m("Matrix", "mul_transpose")
def _(M, c):
    return M.matmul(c.mat(0), c.mat(1).T())


# ---- decompositions
@m("QR", "new")
@m("Matrix", "qr")
def _(M, c):
    v = c.mat(0)
    if dims(v) != (3, 3):
        raise Undef("QR of %s" % (dims(v),))
    k = vkey(v)
    n = M.qr.get(k)
    if n is None:
        n = M.qr[k] = (len(M.qr), v)
        M.qr_of[n[0]] = v
    return St("QR", {"n": rc(n[0])})


def qr_parts(n):
    """Q = s * R(quaternion), s = +-1; R upper triangular: every orthogonal matrix has this form"""
    s = alg.atom_id(("qr_s", n))
    alg.SQ[s] = alg.P1
    alg.SIGN.add(s)
    mm, q = quat_parts(("qr_q", n))
    Q = Mat(3, 3, {(i, j): alg.mul(Rat(alg.patom(s)), mm[i][j]) for i in range(3) for j in range(3)})
    Rm = Mat(3, 3, {(i, j): Rat(alg.patom(alg.atom_id(("qr_r", n, i, j)))) if i <= j else R0 for i in range(3) for j in range(3)})
    return Q, Rm


def quat_parts(key):
    ids = [alg.atom_id(key + (c,)) for c in "ijkw"]
    if ids[3] not in alg.SQ:
        p = alg.P1
        for a in ids[:3]:
            p = p.add(alg.patom(a).mul(alg.patom(a)), -1)
        alg.SQ[ids[3]] = p
    q = tuple(Rat(alg.patom(a)) for a in ids)
    return quat_to_mat(q), q


@m("QR", "q")
def _(M, c):
    return qr_parts(toint(c.val(0).f["n"]))[0]


@m("QR", "r", "unpack_r")
def _(M, c):
    return qr_parts(toint(c.val(0).f["n"]))[1]


@m("QR", "unpack")
def _(M, c):
    return tup(*qr_parts(toint(c.val(0).f["n"])))


@m("SVD", "try_new")
@m("Matrix", "try_svd")
def _(M, c):
    v = c.mat(0)
    u, vt, eps, it = c.num(1), c.num(2), c.num(3), c.num(4)
    ok = ind(("fn", "svd_converges", vkey(v), eps, it)) if it.const() != 0 else R1
    return some(St("SVD", {"m": v, "u": u, "v": vt, "eps": eps, "it": it}), ok)


@m("SVD", "new")
@m("Matrix", "svd")
def _(M, c):
    v = c.mat(0)
    return St("SVD", {"m": v, "u": c.num(1), "v": c.num(2), "eps": alg.fn("svd_default_eps"), "it": R0})


def pinv_cells(v, eps):
    """pseudo-inverse as uninterpreted entries; pinv(k*S) = pinv(S)/k for the rational content k of S"""
    first = None
    for k in sorted(v.c):
        if not v.c[k].is_zero():
            first = v.c[k]
            break
    if first is None:
        return v.T()
    lc = first.n.t[first.n.lead()]
    s = v.cmap(lambda x: Rat(x.n.scale(Fraction(1) / Fraction(lc)), x.d))
    key = vkey(s)
    sym = all(alg.eq(s.c[(i, j)], s.c[(j, i)]) for i in range(s.nr) for j in range(s.nc)) if s.nr == s.nc else False

    def cell(i, j):
        if sym and i > j:
            i, j = j, i
        return Rat(alg.patom(alg.atom_id(("pinv", key, i, j))).scale(Fraction(1) / Fraction(lc)))
    return Mat(v.nc, v.nr, {(i, j): cell(i, j) for i in range(v.nc) for j in range(v.nr)})


@m("SVD", "pseudo_inverse")
def _(M, c):
    s = c.val(0)
    eps = c.num(1)
    ok = alg.mul(alg.mul(s.f["u"], s.f["v"]), alg.bnot(alg.pos(alg.neg(eps))))
    M.I.pinvs.append((s, eps, c.span))
    return En(RES, alg.bnot(ok), {0: {"0": pinv_cells(s.f["m"], eps)}, 1: {"0": Str("SVD pseudo inverse")}})


@m("Matrix", "pseudo_inverse")
def _(M, c):
    eps = c.num(1)
    M.I.pinvs.append((St("SVD", {"m": c.mat(0), "u": R1, "v": R1, "eps": alg.fn("svd_default_eps"), "it": R0}), eps, c.span))
    return En(RES, alg.pos(alg.neg(eps)), {0: {"0": pinv_cells(c.mat(0), eps)}, 1: {"0": Str("SVD pseudo inverse")}})


# ====================================================================== nalgebra: rotations, isometries
@m("Rotation", "from_matrix_unchecked")
def _(M, c):
    v = c.mat(0)
    return Rot("m", tuple(tuple(v.c[(i, j)] for j in range(3)) for i in range(3)))


@m("Rotation|Unit", "from_matrix")
def _(M, c):
    v = c.mat(0)
    return Rot("m" if c.f["cont"]["self"]["n"].endswith("Rotation") else "q", tuple(tuple(v.c[(i, j)] for j in range(3)) for i in range(3)))


@m("Rotation", "matrix", "matrix_mut_unchecked")
def _(M, c):
    return RV(c.val(0).mat())


@m("Rotation|Unit", "transpose", "inverse", "conjugate")
def _(M, c):
    v = c.val(0)
    if isinstance(v, Rot):
        return rotinv(v)
    if isinstance(v, Mat):
        return v.T()
    raise Undef(c.name)


@m("Rotation|Unit", "inverse_mut", "conjugate_mut", "transpose_mut")
def _(M, c):
    v = c.val(0)
    c.put(0, rotinv(v))
    return UNIT


@m("Rotation", "to_homogeneous")
@m("Unit", "to_homogeneous")
def _(M, c):
    return homog(frommat(c.val(0).m))


@m("Unit", "to_rotation_matrix")
def _(M, c):
    v = c.val(0)
    return Rot("m", v.m, v.q)


@m("Unit", "from_rotation_matrix")
def _(M, c):
    v = c.val(0)
    return Rot("q", v.m, v.q)


@m("Unit|Rotation", "identity")
def _(M, c):
    I3 = tuple(tuple(R1 if i == j else R0 for j in range(3)) for i in range(3))
    return Rot("q" if "Unit" in c.f["cont"]["self"]["n"] else "m", I3, (R0, R0, R0, R1))


@m("Unit", "quaternion")
def _(M, c):
    return RV(colvec(c.val(0).quat()))


@m("Unit|Rotation", "from_axis_angle")
def _(M, c):
    ax = c.mat(0).vec()
    a = c.num(1)
    h = alg.mul(a, rc(Fraction(1, 2)))
    s, co = alg.trig("sin", h), alg.trig("cos", h)
    q = tuple(alg.mul(x, s) for x in ax) + (co,)
    return Rot("q" if "Unit" in c.f["cont"]["self"]["n"] else "m", quat_to_mat(q), q)


@m("Unit|Rotation", "face_towards", "new_observer_frames", "look_at_lh", "look_at_rh")
def _(M, c):
    d, up = c.mat(0).vec(), c.mat(1).vec()
    if c.name == "look_at_rh":
        d = [alg.neg(x) for x in d]

    def nrm(v):
        n2 = alg.radd(*[alg.mul(x, x) for x in v])
        if n2.const() == 1:
            return list(v)
        n = alg.sqrt(n2)
        return [c.div(x, n) for x in v]
    z = nrm(d)
    x = nrm(cross(up, z))
    y = nrm(cross(z, x))
    mm = tuple((x[i], y[i], z[i]) for i in range(3))
    if c.name.startswith("look_at"):
        mm = rmatT(mm)
    return Rot("q" if "Unit" in c.f["cont"]["self"]["n"] else "m", mm)


@m("Unit|Rotation", "transform_point", "transform_vector", "transform_unit_vector")
def _(M, c):
    r = rmatvec(c.val(0).m, c.mat(1).vec())
    return colvec(r)


@m("Unit|Rotation", "inverse_transform_point", "inverse_transform_vector", "inverse_transform_unit_vector")
def _(M, c):
    return colvec(rmatvec(rmatT(c.val(0).m), c.mat(1).vec()))


@m("Unit|Rotation|Isometry", "renormalize", "renormalize_fast")
def _(M, c):
    return UNIT


@m("Isometry", "from_parts")
def _(M, c):
    return Iso(c.val(1), c.mat(0).vec())


@m("Isometry", "new", "identity", "translation", "rotation")
def _(M, c):
    I3 = tuple(tuple(R1 if i == j else R0 for j in range(3)) for i in range(3))
    one = Rot("q", I3, (R0, R0, R0, R1))
    if c.name == "identity":
        return Iso(one, [R0] * 3)
    if c.name == "translation":
        return Iso(one, [c.num(i) for i in range(3)])
    raise Undef("Isometry::" + c.name)


@m("Isometry", "inverse")
def _(M, c):
    return isoinv(c.val(0))


@m("Isometry", "inverse_mut")
def _(M, c):
    c.put(0, isoinv(c.val(0)))
    return UNIT


@m("Isometry", "inv_mul")
def _(M, c):
    return do_mul(M, c, isoinv(c.val(0)), c.val(1), "Isometry", "Isometry")


@m("Isometry", "transform_point")
def _(M, c):
    v = c.val(0)
    t = rmatvec(v.r.m, c.mat(1).vec())
    return colvec([alg.add(x, y) for x, y in zip(t, v.t)])


@m("Isometry", "transform_vector")
def _(M, c):
    return colvec(rmatvec(c.val(0).r.m, c.mat(1).vec()))


@m("Isometry", "inverse_transform_point")
def _(M, c):
    v = isoinv(c.val(0))
    t = rmatvec(v.r.m, c.mat(1).vec())
    return colvec([alg.add(x, y) for x, y in zip(t, v.t)])


@m("Isometry", "inverse_transform_vector", "inverse_transform_unit_vector")
def _(M, c):
    return colvec(rmatvec(rmatT(c.val(0).r.m), c.mat(1).vec()))


@m("Isometry", "to_homogeneous", "to_matrix")
def _(M, c):
    return iso_h(c.val(0))


@m("Isometry", "rotation_wrt_point", "look_at_lh", "look_at_rh", "face_towards")
def _(M, c):
    raise Undef("Isometry::" + c.name)


@m("Translation", "inverse")
def _(M, c):
    return c.mat(0).cmap(alg.neg)


@m("Translation", "transform_point")
def _(M, c):
    return c.mat(0).czip(c.mat(1), alg.add)


@m("Translation", "inverse_transform_point")
def _(M, c):
    return c.mat(1).czip(c.mat(0), alg.sub)


# ====================================================================== fmt
def fmtop(M, c, what):
    r = c.args[0]
    return Op(("fmt", what) + tuple(vkey(M.val_safe(c.st, a)) for a in c.args), c.dest)


def here(M):
    """condition under which the current statement runs"""
    r = R1
    for p in M.I.pcs + [M.I.cur_pc]:
        r = alg.mul(r, p)
    return alg.simp(r) if hasattr(alg, "simp") else r


def printed(M, c, tree):
    """outcome of writing `tree` to a formatter: may fail only as the formatter itself does"""
    M.I.printed.append((here(M), tree))
    return En(RES, ind(("fn", "fmt_err", tree)), {0: {"0": UNIT}, 1: {"0": Op(("fmterr", tree))}})


def strkey(M, c, x):
    v = x if isinstance(x, Str) else M.val_safe(c.st, x)
    return v.s if isinstance(v, Str) else ("?", vkey(v))


def shown(M, c, x):
    """what is printed: the value behind the references"""
    return printkey(M.val_safe(c.st, x))


def printkey(v):
    """identity of a value for printing: a rotation prints differently as a matrix and as a quaternion"""
    return ("printed-rotation", v.kind, vkey(v)) if isinstance(v, Rot) else vkey(v)


@m("Formatter", "debug_struct", "debug_tuple", "debug_list", "debug_map", "debug_set")
def _(M, c):
    M.I.builders.append([])
    return Op(("dbg", c.name[6:], strkey(M, c, c.args[1]) if len(c.args) > 1 else None, len(M.I.builders) - 1), c.dest)


@m("DebugStruct|DebugTuple|DebugList|DebugSet|DebugMap|DebugInner", "field", "entry", "entries")
def _(M, c):
    old = M.val(c.st, c.tgt(0))
    if not isinstance(old, Op) or not isinstance(old.k, tuple) or old.k[:1] != ("dbg",):
        raise Undef("formatting through a helper value of unknown origin")
    e = (strkey(M, c, c.args[1]), shown(M, c, c.args[2])) if old.k[1] == "struct" and len(c.args) > 2 else tuple(shown(M, c, a) for a in c.args[1:])
    M.I.builders[old.k[3]].append((here(M), e))
    return c.args[0]


@m("DebugStruct|DebugTuple|DebugList|DebugSet|DebugMap", "finish", "finish_non_exhaustive")
def _(M, c):
    old = c.val(0)
    if not isinstance(old, Op) or not isinstance(old.k, tuple) or old.k[:1] != ("dbg",):
        raise Undef("formatting through a helper value of unknown origin")
    k = old.k[:3] + (tuple(e for p, e in M.I.builders[old.k[3]]), tuple(p for p, e in M.I.builders[old.k[3]]))
    return printed(M, c, k if c.name == "finish" else ("and-more", k))


@m("Formatter", "debug_struct_field1_finish", "debug_struct_field2_finish", "debug_struct_field3_finish", "debug_struct_field4_finish", "debug_struct_field5_finish")
def _(M, c):
    a = c.args[2:]
    k = int(c.name[len("debug_struct_field")])
    if len(a) == k:
        # the names come packed in one string
        ns = strkey(M, c, c.args[1])
        ns = ns.split(" ") if isinstance(ns, str) else []
        if len(ns) != k + 1:
            raise Undef("packed field names")
        return printed(M, c, ("dbg", "struct", ns[0], tuple((n, shown(M, c, x)) for n, x in zip(ns[1:], a))))
    return printed(M, c, ("dbg", "struct", strkey(M, c, c.args[1]), tuple((strkey(M, c, a[i]), shown(M, c, a[i + 1])) for i in range(0, len(a), 2))))


@m("Formatter", "debug_struct_fields_finish")
def _(M, c):
    if len(c.args) == 3:
        ns, vs = strkey(M, c, c.args[1]), M.val(c.st, c.args[2])
        ns = ns.split(" ") if isinstance(ns, str) else []
        if not isinstance(vs, Ar) or len(ns) != len(vs.x) + 1:
            raise Undef("fields of unknown number")
        return printed(M, c, ("dbg", "struct", ns[0], tuple((n, shown(M, c, x)) for n, x in zip(ns[1:], vs.x))))
    ns, vs = M.val(c.st, c.args[2]), M.val(c.st, c.args[3])
    if not isinstance(ns, Ar) or not isinstance(vs, Ar) or len(ns.x) != len(vs.x):
        raise Undef("fields of unknown number")
    return printed(M, c, ("dbg", "struct", strkey(M, c, c.args[1]), tuple((strkey(M, c, n), shown(M, c, v)) for n, v in zip(ns.x, vs.x))))


@m("Formatter", "debug_tuple_field1_finish", "debug_tuple_field2_finish", "debug_tuple_field3_finish")
def _(M, c):
    return printed(M, c, ("dbg", "tuple", strkey(M, c, c.args[1]), tuple((shown(M, c, v),) for v in c.args[2:])))


@m("Formatter", "write_str", "pad")
def _(M, c):
    return printed(M, c, ("text", strkey(M, c, c.args[1])))


@m("Formatter", "write_fmt")
def _(M, c):
    return printed(M, c, ("formatted",) + tuple(vkey(M.val_safe(c.st, a)) for a in c.args[1:]))


@m("Debug|Display|LowerExp", "fmt")
def _(M, c):
    return printed(M, c, ("shown", str(c.f["cont"].get("trait")).split("::")[-1], shown(M, c, c.args[0])))


@m("Argument", "new_debug", "new_display", "new_lower_exp")
def _(M, c):
    return Op(("fmtarg", vkey(M.val_safe(c.st, c.args[0]))), c.dest)


@m("Arguments", "new", "new_v1", "new_const", "from_str")
def _(M, c):
    return Op(("fmtargs",) + tuple(vkey(M.val_safe(c.st, a)) for a in c.args), c.dest)


# ====================================================================== serde
@m("SeqAccess", "next_element")
def _(M, c):
    r = c.tgt(0)
    v = M.val(c.st, r)
    t = serdeflow.tree_of(M, v)
    if t is not None:
        return serdeflow.next_element(M, c, t, v)
    n = 0
    base = v.k
    if isinstance(v.k, tuple) and v.k and v.k[0] == "seqst":
        base, n = v.k[1], v.k[2]
    M.I.store(c.st, r, Op(("seqst", base, n + 1), v.ty))
    return M.opaque(c.dest, ("elem", n))


@m("MapAccess", "next_key")
def _(M, c):
    v = M.val(c.st, c.tgt(0))
    t = serdeflow.tree_of(M, v)
    if t is not None:
        return serdeflow.next_key(M, c, t, v)
    return M.opaque(c.dest, ("next_key", M.I.iter_tag()))


@m("MapAccess", "next_value")
def _(M, c):
    v = M.val(c.st, c.tgt(0))
    t = serdeflow.tree_of(M, v)
    if t is not None:
        return serdeflow.next_value(M, c, t, v)
    # what is read is the value of the key just read
    return M.opaque(c.dest, ("next_value", M.I.iter_tag()))


@m("Serializer|Deserializer", "is_human_readable")
def _(M, c):
    # the same format writes and reads
    return Rat(alg.patom(alg._ind_atom(("human_readable",), None)))


@m("MapAccess|SeqAccess", "size_hint")
def _(M, c):
    return M.opaque(c.dest, ("size_hint",))


@m("Error", "invalid_length", "duplicate_field", "missing_field", "unknown_field", "unknown_variant", "invalid_value", "invalid_type", "custom")
def _(M, c):
    return Op(("serde_error", c.name, vkey(M.val_safe(c.st, c.args[0])) if c.name != "invalid_length" or True else None), c.dest)


@m("free", "serde::__private229::de::missing_field", "serde::__private::de::missing_field")
def _(M, c):
    k = vkey(M.val_safe(c.st, c.args[0]))
    return En(RES, R1, {0: {"0": Op(("missing", k))}, 1: {"0": Op(("serde_error", "missing_field", k))}})


@m("Deserializer", "deserialize_struct", "deserialize_identifier", "deserialize_tuple_struct", "deserialize_any", "deserialize_map", "deserialize_seq", "deserialize_newtype_struct", "deserialize_str", "deserialize_string", "deserialize_tuple", "deserialize_u64")
def _(M, c):
    t = serdeflow.tree_of(M, M.val_safe(c.st, c.args[0]))
    if t is not None:
        return serdeflow.visit(M, c, t)
    k = tuple(vkey(M.val_safe(c.st, a)) for a in c.args[1:])
    r = M.opaque(c.dest, ("deserialize", c.name) + k)
    M.I.serde.append(("deserialize", c.name, [M.val_safe(c.st, a) for a in c.args[1:]], c.span))
    return r


@m("Deserialize", "deserialize")
def _(M, c):
    t = serdeflow.tree_of(M, M.val_safe(c.st, c.args[0]))
    if t is not None:
        return serdeflow.de_value(M, c.st, c.a[0], t)
    return M.opaque(c.dest, ("deserialize", repr(c.a[0])))


@m("Serialize", "serialize")
def _(M, c):
    t = serdeflow.tree_of(M, M.val_safe(c.st, c.args[1]))
    if t is not None:
        t.kind, t.value = "newtype", serdeflow.ser_value(M, c.st, c.a[0], c.args[0])
        return serdeflow.ok(Op(("ser_end",)))
    return M.opaque(c.dest, ("serialize", vkey(M.val_safe(c.st, c.args[0]))))


@m("Serializer", "serialize_newtype_struct")
def _(M, c):
    t = serdeflow.tree_of(M, M.val_safe(c.st, c.args[0]))
    if t is not None:
        t.kind, t.value = "newtype", serdeflow.ser_value(M, c.st, c.a[-1], c.args[2])
        return serdeflow.ok(Op(("ser_end",)))
    return M.opaque(c.dest, ("serialize", vkey(M.val_safe(c.st, c.args[2]))))


@m("Serializer", "serialize_struct")
def _(M, c):
    t = serdeflow.tree_of(M, M.val_safe(c.st, c.args[0]))
    if t is not None:
        return serdeflow.ser_struct(M, c, t)
    name = M.val_safe(c.st, c.args[1])
    return En(RES, ind(("fn", "ser_err", vkey(name))), {0: {"0": Op(("ser", vkey(name)))}, 1: {"0": Op(("sererr", vkey(name)))}})


@m("SerializeStruct", "serialize_field")
def _(M, c):
    r = c.tgt(0)
    old = M.val(c.st, r)
    t = serdeflow.tree_of(M, old)
    if t is not None:
        return serdeflow.ser_field(M, c, t)
    name = M.val_safe(c.st, c.args[1])
    v = M.val_safe(c.st, c.args[2])
    M.I.serde.append(("field", name, v, M.I.stack[-1]))
    return En(RES, ind(("fn", "ser_err", vkey(name), vkey(v))), {0: {"0": UNIT}, 1: {"0": Op(("sererr", vkey(name)))}})


@m("SerializeStruct", "skip_field")
def _(M, c):
    return En(RES, R0, {0: {"0": UNIT}})


@m("SerializeStruct", "end")
def _(M, c):
    t = serdeflow.tree_of(M, M.val_safe(c.st, c.args[0]))
    if t is not None:
        return serdeflow.ser_end(M, c, t)
    return M.opaque(c.dest, ("ser_end",))
