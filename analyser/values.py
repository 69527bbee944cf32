"""Abstract values of the MIR value-flow analysis."""
import alg
from alg import Rat, R0, R1, rc, gamma, subst, RHO, Poly


class Undef(Exception):
    """the analysis met a construct it does not model"""


class St:
    """struct / tuple / closure environment: named fields"""
    __slots__ = ("n", "f")

    def __init__(self, n, f):
        self.n = n
        self.f = f

    def __repr__(self):
        return "%s{%s}" % (self.n.split("::")[-1], ", ".join("%s: %r" % kv for kv in self.f.items()))


class En:
    """enum: discriminant (normal form) and the payload each variant would carry"""
    __slots__ = ("n", "d", "v")

    def __init__(self, n, d, v):
        self.n = n
        self.d = d
        self.v = v      # variant index -> dict(field name -> value)

    def __repr__(self):
        return "%s<%r>{%s}" % (self.n.split("::")[-1], self.d, ", ".join("%s:%r" % kv for kv in self.v.items()))


class Ar:
    __slots__ = ("x",)

    def __init__(self, x):
        self.x = tuple(x)

    def __repr__(self):
        return "[%s]" % ", ".join(map(repr, self.x))


class Fam:
    """sequence of symbolic length; element k is tmpl with rho := k"""
    __slots__ = ("len", "t")

    def __init__(self, ln, t):
        self.len = ln
        self.t = t

    def at(self, k):
        return vsubst(self.t, {RHO: k})

    def __repr__(self):
        return "fam(%r; %r)" % (self.len, self.t)


class Grow:
    """growing sequence inside a loop body: contents at the loop header (token) plus what was appended"""
    __slots__ = ("sid", "items")

    def __init__(self, sid, items=()):
        self.sid = sid
        self.items = tuple(items)

    def __repr__(self):
        return "grow%s%r" % (self.sid, self.items)


def seq_len(v):
    return rc(len(v.x)) if isinstance(v, Ar) else torat(v.len)


def concat(a, b):
    """a ++ b"""
    if isinstance(a, Ar) and not a.x:
        return b
    if isinstance(a, Grow):
        return Grow(a.sid, a.items + (b,))
    if isinstance(a, Ar) and isinstance(b, Ar):
        return Ar(list(a.x) + list(b.x))
    if isinstance(b, Ar) and not b.x:
        return a
    la, lb = seq_len(a), seq_len(b)
    rho = Rat(alg.patom(RHO))
    off = alg.sub(rho, la)
    return Fam(alg.add(la, lb), vgamma(alg.pos(alg.sub(la, rho)), seq_at(a, rho), seq_at(b, off)))


def seq_at(v, k):
    if isinstance(v, Fam):
        return v.at(k)
    r = v.x[-1]
    for j in range(len(v.x) - 1):
        r = vgamma(alg.zero(alg.sub(k, rc(j))), v.x[j], r)
    return r


class Mat:
    """nalgebra matrix.  Both dims concrete: cells[(r,c)].  One symbolic dim: cells[j] is the j-th
    column (sym='r') or row (sym='c') as a function of rho."""
    __slots__ = ("nr", "nc", "c", "sym")

    def __init__(self, nr, nc, cells, sym=None):
        self.nr = nr
        self.nc = nc
        self.c = cells
        self.sym = sym

    def get(self, r, c):
        r = toint(r)
        c = toint(c)
        if self.sym is None:
            if isinstance(r, int) and isinstance(c, int):
                v = self.c.get((r, c))
                if v is None:
                    raise Undef("matrix index (%s,%s) out of range" % (r, c))
                return v
            # symbolic index into a concrete matrix: gated selection
            res = None
            for (i, j), v in self.c.items():
                if (isinstance(r, int) and r != i) or (isinstance(c, int) and c != j):
                    continue
                cond = alg.mul(alg.req(torat(r), rc(i)), alg.req(torat(c), rc(j)))
                res = v if res is None else gamma(cond, v, res)
            if res is None:
                raise Undef("matrix index")
            return res
        a, b = (r, c) if self.sym == "r" else (c, r)
        if not isinstance(b, int):
            if len(self.c) == 1:
                b = 0
            elif len(self.c) <= 8:
                res = subst(self.c[-1], {RHO: torat(a)})
                for j in range(len(self.c) - 2, -1, -1):
                    res = gamma(alg.req(torat(b), rc(j)), subst(self.c[j], {RHO: torat(a)}), res)
                return res
            else:
                raise Undef("symbolic index along the fixed dimension")
        if b >= len(self.c):
            raise Undef("matrix index out of range")
        return subst(self.c[b], {RHO: torat(a)})

    def set(self, r, c, v):
        r = toint(r)
        c = toint(c)
        if self.sym is None:
            d = dict(self.c)
            if isinstance(r, int) and isinstance(c, int):
                if (r, c) not in d:
                    raise Undef("matrix store out of range")
                d[(r, c)] = v
            else:
                for (i, j), old in self.c.items():
                    if (isinstance(r, int) and r != i) or (isinstance(c, int) and c != j):
                        continue
                    cond = alg.mul(alg.req(torat(r), rc(i)), alg.req(torat(c), rc(j)))
                    d[(i, j)] = gamma(cond, v, old)
            return Mat(self.nr, self.nc, d)
        a, b = (r, c) if self.sym == "r" else (c, r)
        if not isinstance(b, int):
            if len(self.c) == 1:
                b = 0
            elif len(self.c) <= 8:
                rho = Rat(alg.patom(RHO))
                l = [gamma(alg.mul(alg.req(torat(b), rc(j)), alg.req(rho, torat(a))), v, x) for j, x in enumerate(self.c)]
                return Mat(self.nr, self.nc, l, self.sym)
            else:
                raise Undef("symbolic index along the fixed dimension")
        l = list(self.c)
        rho = Rat(alg.patom(RHO))
        l[b] = self.tidy(gamma(alg.req(rho, torat(a)), v, l[b]))
        return Mat(self.nr, self.nc, l, self.sym)

    def tidy(self, v):
        """the contents of row rho, without distinctions that make no difference for the rows there are"""
        if len(v.n.t) > 400 or not 2 <= len(alg._int_conds(v)) <= 6:
            return v
        saved = alg.FACTS
        alg.FACTS = saved + [alg.sub(alg.sub(torat(self.nr if self.sym == "r" else self.nc), R1), Rat(alg.patom(RHO))).n]
        try:
            return alg.simp_int(v)
        finally:
            alg.FACTS = saved

    def cmap(self, f):
        if self.sym is None:
            return Mat(self.nr, self.nc, {k: f(v) for k, v in self.c.items()})
        return Mat(self.nr, self.nc, [f(v) for v in self.c], self.sym)

    def czip(self, o, f):
        if dims(self) != dims(o):
            raise Undef("matrix shapes differ: %r %r" % (dims(self), dims(o)))
        if self.sym is None:
            return Mat(self.nr, self.nc, {k: f(v, o.c[k]) for k, v in self.c.items()})
        return Mat(self.nr, self.nc, [f(a, b) for a, b in zip(self.c, o.c)], self.sym)

    def T(self):
        if self.sym is None:
            return Mat(self.nc, self.nr, {(c, r): v for (r, c), v in self.c.items()})
        return Mat(self.nc, self.nr, self.c, "c" if self.sym == "r" else "r")

    def rows(self):
        return [[self.c[(i, j)] for j in range(self.nc)] for i in range(self.nr)]

    def vec(self):
        """cells of a concrete row/column vector in order"""
        if self.sym is not None:
            raise Undef("vector of symbolic length")
        return [self.c[(i, j)] for j in range(self.nc) for i in range(self.nr)]

    def __repr__(self):
        if self.sym is None:
            return "mat%dx%d%r" % (self.nr, self.nc, self.rows())
        return "mat[%r x %r]%s%r" % (self.nr, self.nc, self.sym, self.c)


def dims(m):
    return (m.nr, m.nc)


def toint(x):
    if isinstance(x, Rat):
        c = x.const()
        if c is not None and c == int(c):
            return int(c)
    return x


def torat(x):
    return x if isinstance(x, Rat) else rc(x)


def mkmat(nr, nc, f):
    """matrix from f(r, c); one of the dims may be symbolic (f gets rho there)"""
    nr, nc = toint(nr), toint(nc)
    rho = Rat(alg.patom(RHO))
    if isinstance(nr, int) and isinstance(nc, int):
        return Mat(nr, nc, {(i, j): f(i, j) for i in range(nr) for j in range(nc)})
    if isinstance(nc, int):
        return Mat(nr, nc, [f(rho, j) for j in range(nc)], "r")
    if isinstance(nr, int):
        return Mat(nr, nc, [f(i, rho) for i in range(nr)], "c")
    raise Undef("matrix with two symbolic dims")


def colvec(xs):
    return Mat(len(xs), 1, {(i, 0): x for i, x in enumerate(xs)})


def rowvec(xs):
    return Mat(1, len(xs), {(0, i): x for i, x in enumerate(xs)})


def frommat(rows):
    return Mat(len(rows), len(rows[0]), {(i, j): v for i, r in enumerate(rows) for j, v in enumerate(r)})


class Ref:
    __slots__ = ("cell", "path")

    def __init__(self, cell, path=()):
        self.cell = cell
        self.path = path

    def __repr__(self):
        return "&%s%s" % (self.cell, "".join("." + str(e[-1]) for e in self.path))


class RV:
    """shared reference to a value that cannot change while borrowed"""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return "&%r" % (self.v,)


class CRef:
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class MView:
    """mutable matrix view: window into the matrix at ref"""
    __slots__ = ("ref", "r0", "c0", "nr", "nc")

    def __init__(self, ref, r0, c0, nr, nc):
        self.ref, self.r0, self.c0, self.nr, self.nc = ref, r0, c0, nr, nc


class Clo:
    __slots__ = ("id", "up", "env")

    def __init__(self, i, up, env):
        self.id, self.up, self.env = i, up, env


class FnV:
    __slots__ = ("f", "env")

    def __init__(self, f, env):
        self.f, self.env = f, env


class Stream:
    """iterator: items get(state, k) for pos <= k < len; rev counts from the back"""
    __slots__ = ("len", "get", "pos", "uid")

    def __init__(self, ln, get, pos=R0, uid=None):
        self.len, self.get, self.pos, self.uid = ln, get, pos, uid if uid is not None else object()

    def at(self, pos):
        return Stream(self.len, self.get, pos, self.uid)


class Rot:
    """rotation: 3x3 matrix always known; unit quaternion components (i,j,k,w) when known.
    kind 'q' = UnitQuaternion, 'm' = Rotation3"""
    __slots__ = ("kind", "m", "q")

    def __init__(self, kind, m, q=None):
        self.kind, self.m, self.q = kind, m, q

    def quat(self):
        if self.q is None:
            k = ("qof",) + tuple(self.m[i][j] for i in range(3) for j in range(3))
            ids = [alg.atom_id(k + (c,)) for c in range(4)]
            w = ids[3]
            if w not in alg.SQ:
                p = alg.P1
                for a in ids[:3]:
                    p = p.add(alg.patom(a).mul(alg.patom(a)), -1)
                alg.SQ[w] = p
            self.q = tuple(Rat(alg.patom(a)) for a in ids)
        return self.q

    def mat(self):
        return frommat(self.m)

    def __repr__(self):
        return "rot%r" % (self.m,)


class Iso:
    __slots__ = ("r", "t")

    def __init__(self, r, t):
        self.r, self.t = r, t       # Rot, [3 Rats]

    def __repr__(self):
        return "iso(%r,%r)" % (self.r, self.t)


class Op:
    """opaque value of a non-numeric type, identified by its key"""
    __slots__ = ("k", "ty", "unk")

    def __init__(self, k, ty=None, unk=False):
        self.k, self.ty, self.unk = k, ty, unk

    def __repr__(self):
        return "op%s" % (self.k,)


class Str:
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s

    def __repr__(self):
        return repr(self.s)


UNIT = St("tuple", {})


def tup(*xs):
    return St("tuple", {str(i): x for i, x in enumerate(xs)})


OPT = "std::option::Option"
RES = "std::result::Result"


def some(v, cond=R1):
    return En(OPT, cond, {0: {}, 1: {"0": v}})


NONE_ = En(OPT, R0, {0: {}})


def rmatT(m):
    return tuple(tuple(m[j][i] for j in range(3)) for i in range(3))


def rmatmul(a, b):
    return tuple(tuple(alg.radd(*[alg.mul(a[i][k], b[k][j]) for k in range(3)]) for j in range(3)) for i in range(3))


def rmatvec(a, v):
    return [alg.radd(*[alg.mul(a[i][k], v[k]) for k in range(3)]) for i in range(3)]


def quat_to_mat(q):
    x, y, z, w = q
    two = rc(2)
    m = alg.mul
    s = alg.sub
    a = alg.add
    return (
        (s(R1, m(two, a(m(y, y), m(z, z)))), m(two, s(m(x, y), m(w, z))), m(two, a(m(x, z), m(w, y)))),
        (m(two, a(m(x, y), m(w, z))), s(R1, m(two, a(m(x, x), m(z, z)))), m(two, s(m(y, z), m(w, x)))),
        (m(two, s(m(x, z), m(w, y))), m(two, a(m(y, z), m(w, x))), s(R1, m(two, a(m(x, x), m(y, y))))),
    )


def quat_mul(p, q):
    x1, y1, z1, w1 = p
    x2, y2, z2, w2 = q
    m, a, s = alg.mul, alg.radd, alg.sub
    n = alg.neg
    return (
        a(m(w1, x2), m(x1, w2), m(y1, z2), n(m(z1, y2))),
        a(m(w1, y2), n(m(x1, z2)), m(y1, w2), m(z1, x2)),
        a(m(w1, z2), m(x1, y2), n(m(y1, x2)), m(z1, w2)),
        a(m(w1, w2), n(m(x1, x2)), n(m(y1, y2)), n(m(z1, z2))),
    )


def vsubst(v, m):
    """substitute atoms inside a value"""
    if v is None or isinstance(v, (Str, FnV)):
        return v
    if isinstance(v, Rat):
        return subst(v, m)
    if isinstance(v, St):
        return St(v.n, {k: vsubst(x, m) for k, x in v.f.items()})
    if isinstance(v, En):
        return En(v.n, subst(v.d, m), {i: {k: vsubst(x, m) for k, x in p.items()} for i, p in v.v.items()})
    if isinstance(v, Ar):
        return Ar([vsubst(x, m) for x in v.x])
    if isinstance(v, Grow):
        return Grow(v.sid, [vsubst(x, m) for x in v.items])
    if isinstance(v, Fam):
        if RHO in m:
            return v
        return Fam(subst(v.len, m), vsubst(v.t, m))
    if isinstance(v, Mat):
        if v.sym and RHO in m:
            mm = {k: x for k, x in m.items() if k != RHO}
            if not mm:
                return v
            m = mm
        r = v.cmap(lambda x: subst(x, m))
        return Mat(subst(r.nr, m) if isinstance(r.nr, Rat) else r.nr, subst(r.nc, m) if isinstance(r.nc, Rat) else r.nc, r.c, r.sym)
    if isinstance(v, Rot):
        return Rot(v.kind, tuple(tuple(subst(x, m) for x in r) for r in v.m), None if v.q is None else tuple(subst(x, m) for x in v.q))
    if isinstance(v, Iso):
        return Iso(vsubst(v.r, m), [subst(x, m) for x in v.t])
    if isinstance(v, Ref):
        return Ref(v.cell, tuple(tuple(subst(x, m) if isinstance(x, Rat) else x for x in e) for e in v.path))
    if isinstance(v, RV):
        return RV(vsubst(v.v, m))
    if isinstance(v, CRef):
        return CRef(subst(v.c, m), vsubst(v.a, m), vsubst(v.b, m))
    if isinstance(v, MView):
        s = lambda x: subst(x, m) if isinstance(x, Rat) else x
        return MView(vsubst(v.ref, m), s(v.r0), s(v.c0), s(v.nr), s(v.nc))
    if isinstance(v, Clo):
        return Clo(v.id, [vsubst(x, m) for x in v.up], v.env)
    if isinstance(v, Stream):
        g = v.get
        return Stream(subst(v.len, m), lambda st, k, g=g: vsubst(g(st, k), m), subst(v.pos, m), v.uid)
    if isinstance(v, Op):
        return Op(alg._obj_subst(v.k, m, {}), v.ty, v.unk)
    return v


def rats(v):
    """all value numbers inside a value"""
    if isinstance(v, Rat):
        yield v
    elif isinstance(v, St):
        for x in v.f.values():
            yield from rats(x)
    elif isinstance(v, En):
        yield v.d
        for p in v.v.values():
            for x in p.values():
                yield from rats(x)
    elif isinstance(v, Ar):
        for x in v.x:
            yield from rats(x)
    elif isinstance(v, Grow):
        for x in v.items:
            yield from rats(x)
    elif isinstance(v, Fam):
        yield torat(v.len)
        yield from rats(v.t)
    elif isinstance(v, Mat):
        yield torat(v.nr)
        yield torat(v.nc)
        yield from (v.c.values() if v.sym is None else v.c)
    elif isinstance(v, Rot):
        for r in v.m:
            yield from r
    elif isinstance(v, Iso):
        yield from rats(v.r)
        yield from v.t
    elif isinstance(v, RV):
        yield from rats(v.v)
    elif isinstance(v, Clo):
        for x in v.up:
            yield from rats(x)


def vdeps(v):
    d = set()
    for r in rats(v):
        d |= set(alg.deps(r))
    return d


def vkey(v):
    """hashable identity of a value (equal normal forms give equal keys)"""
    if v is None:
        return None
    if isinstance(v, Rat):
        return v
    if isinstance(v, St):
        if v.n == "closure":
            return ("clo",)
        return (v.n,) + tuple((k, vkey(x)) for k, x in v.f.items())
    if isinstance(v, En):
        return (v.n, v.d) + tuple((i, tuple((k, vkey(x)) for k, x in p.items())) for i, p in sorted(v.v.items()))
    if isinstance(v, Ar):
        return ("ar",) + tuple(vkey(x) for x in v.x)
    if isinstance(v, Fam):
        return ("fam", v.len, vkey(vsubst(v.t, {RHO: Rat(alg.patom(alg.BRHO))})))
    if isinstance(v, Grow):
        return ("grow", v.sid) + tuple(vkey(x) for x in v.items)
    if isinstance(v, Mat):
        if v.sym is None:
            return ("mat", v.nr, v.nc) + tuple(v.c[k] for k in sorted(v.c))
        return ("smat", v.sym, v.nr, v.nc) + tuple(subst(x, {RHO: Rat(alg.patom(alg.BRHO))}) for x in v.c)
    if isinstance(v, Rot):
        return ("rot",) + tuple(x for r in v.m for x in r)
    if isinstance(v, Iso):
        return ("iso", vkey(v.r)) + tuple(v.t)
    if isinstance(v, RV):
        return vkey(v.v)
    if isinstance(v, Ref):
        return ("ref", v.cell) + v.path
    if isinstance(v, Op):
        return ("op", v.k)
    if isinstance(v, Str):
        return v.s
    if isinstance(v, Clo):
        return ("clo", v.id) + tuple(vkey(x) for x in v.up)
    if isinstance(v, FnV):
        return ("fn", v.f["id"])
    return ("?", id(v))


def famof(v):
    """a sequence by its generic element (elements beyond the end are arbitrary)"""
    if isinstance(v, Fam):
        return v
    if len(v.x) > 8:
        return None
    t = v.x[-1] if v.x else None
    for k in range(len(v.x) - 1):
        t = vgamma(alg.req(Rat(alg.patom(RHO)), rc(k)), v.x[k], t)
    return Fam(len(v.x), t)


def vgamma(c, a, b):
    k = c.const()
    if k is not None:
        return a if k else b
    if a is None:
        return b
    if b is None or a is b:
        return a
    if isinstance(a, Rat) and isinstance(b, Rat):
        return gamma(c, a, b)
    if isinstance(a, St) and isinstance(b, St) and a.n == b.n:
        keys = list(a.f) + [k for k in b.f if k not in a.f]
        return St(a.n, {k: vgamma(c, a.f.get(k), b.f.get(k)) for k in keys})
    if isinstance(a, En) and isinstance(b, En):
        vs = {}
        for i in set(a.v) | set(b.v):
            pa, pb = a.v.get(i), b.v.get(i)
            if pa is None or pb is None:
                vs[i] = pa if pb is None else pb
            else:
                vs[i] = {k: vgamma(c, pa.get(k), pb.get(k)) for k in list(pa) + [k for k in pb if k not in pa]}
        return En(a.n, gamma(c, a.d, b.d), vs)
    if isinstance(a, Ar) and isinstance(b, Ar) and len(a.x) == len(b.x):
        return Ar([vgamma(c, x, y) for x, y in zip(a.x, b.x)])
    if isinstance(a, Mat) and isinstance(b, Mat) and dims(a) == dims(b):
        if a.sym is not None:
            return a.czip(b, lambda x, y: x if x is y else a.tidy(gamma(c, x, y)))
        return a.czip(b, lambda x, y: gamma(c, x, y))
    if isinstance(a, Fam) and isinstance(b, Fam) and a.len == b.len:
        return Fam(a.len, vgamma(c, a.t, b.t))
    if isinstance(a, (Fam, Ar)) and isinstance(b, (Fam, Ar)):
        x, y = famof(a), famof(b)
        if x is not None and y is not None:
            ln = gamma(c, torat(x.len), torat(y.len))
            return Fam(toint(ln), y.t if x.t is None else x.t if y.t is None else vgamma(c, x.t, y.t))
    if isinstance(a, Rot) and isinstance(b, Rot):
        m = tuple(tuple(gamma(c, x, y) for x, y in zip(r, s)) for r, s in zip(a.m, b.m))
        if a.q is not None and b.q is not None:
            return Rot(a.kind, m, tuple(gamma(c, x, y) for x, y in zip(a.q, b.q)))
        return Rot(a.kind, m)
    if isinstance(a, Iso) and isinstance(b, Iso):
        return Iso(vgamma(c, a.r, b.r), [gamma(c, x, y) for x, y in zip(a.t, b.t)])
    if isinstance(a, RV) and isinstance(b, RV):
        return RV(vgamma(c, a.v, b.v))
    if isinstance(a, (Ref, RV, CRef)) and isinstance(b, (Ref, RV, CRef)):
        if vkey(a) == vkey(b) and not isinstance(a, CRef):
            return a
        return CRef(c, a, b)
    if isinstance(a, Stream) and isinstance(b, Stream) and a.uid is b.uid:
        return a.at(gamma(c, a.pos, b.pos))
    if isinstance(a, Clo) and isinstance(b, Clo) and a.id == b.id:
        return Clo(a.id, [vgamma(c, x, y) for x, y in zip(a.up, b.up)], a.env)
    if vkey(a) == vkey(b):
        return a
    return Op(("gamma", c, vkey(a), vkey(b)), None)


def veq(a, b):
    """same value number"""
    if a is b:
        return True
    if isinstance(a, Rat) and isinstance(b, Rat):
        return alg.eq(a, b)
    if type(a) is not type(b):
        return False
    if isinstance(a, St):
        return a.n == b.n and a.f.keys() == b.f.keys() and all(veq(x, b.f[k]) for k, x in a.f.items())
    if isinstance(a, En):
        if not alg.eq(a.d, b.d):
            return False
        for i in set(a.v) & set(b.v):
            if a.v[i].keys() == b.v[i].keys() and not all(veq(x, b.v[i][k]) for k, x in a.v[i].items()):
                return False
        return True
    if isinstance(a, Ar):
        return len(a.x) == len(b.x) and all(veq(x, y) for x, y in zip(a.x, b.x))
    if isinstance(a, Mat):
        if dims(a) != dims(b) or a.sym != b.sym:
            return False
        ks = a.c.keys() if a.sym is None else range(len(a.c))
        return all(alg.eq(a.c[k], b.c[k]) for k in ks)
    if isinstance(a, Rot):
        return all(alg.eq(x, y) for r, s in zip(a.m, b.m) for x, y in zip(r, s))
    if isinstance(a, Iso):
        return veq(a.r, b.r) and all(alg.eq(x, y) for x, y in zip(a.t, b.t))
    if isinstance(a, Stream):
        return a.uid is b.uid and alg.eq(a.pos, b.pos)
    return vkey(a) == vkey(b)


def vatoms(v, acc=None):
    """all atoms (transitively) a value depends on"""
    if acc is None:
        acc = set()
    _va(v, acc)
    return acc


def _va(v, acc):
    if isinstance(v, Rat):
        acc |= alg.deps(v)
    elif isinstance(v, St):
        for x in v.f.values():
            _va(x, acc)
    elif isinstance(v, En):
        _va(v.d, acc)
        for p in v.v.values():
            for x in p.values():
                _va(x, acc)
    elif isinstance(v, Ar):
        for x in v.x:
            _va(x, acc)
    elif isinstance(v, Mat):
        for x in (v.c.values() if v.sym is None else v.c):
            _va(x, acc)
    elif isinstance(v, Rot):
        for r in v.m:
            for x in r:
                _va(x, acc)
    elif isinstance(v, Iso):
        _va(v.r, acc)
        for x in v.t:
            _va(x, acc)
    elif isinstance(v, RV):
        _va(v.v, acc)
    elif isinstance(v, Fam):
        _va(v.t, acc)
    elif isinstance(v, Op):
        for a in alg._obj_atoms(v.k):
            acc |= alg.atom_deps(a)


def has_unk(v):
    if isinstance(v, Op) and v.unk:
        return True
    if isinstance(v, St):
        return any(has_unk(x) for x in v.f.values())
    if isinstance(v, En):
        return alg.has_unk(v.d) or any(has_unk(x) for p in v.v.values() for x in p.values())
    if isinstance(v, RV):
        return has_unk(v.v)
    return bool(vatoms(v) & alg.UNK)
