"""Value-number domain: rational functions over interned atoms, in a normal form.

Values computed by the analysed program are numbered by their normal form, so two computations get
the same number exactly when they are equal as rational functions of the inputs modulo
  * sqrt(p)^2 = p, and the unit-norm relation of unit quaternions / unit vectors,
  * chi^2 = chi for the 0/1 indicator of a condition (branches joined at merge points become
    b + chi*(a-b)), pos(d)*zero(d) = 0, pos(-d) = 1 - pos(d) - zero(d).
There is no search and no solver here: everything is rewriting to normal form.
"""
from fractions import Fraction

# ---------------------------------------------------------------- atoms
ATOMS = []          # id -> tuple key
_INTERN = {}
SQ = {}             # atom id -> Poly (value of its square)
IND = {}            # indicator atom id -> exclusivity group (or None)
NONNEG = set()      # atoms known >= 0
INTEG = set()       # atoms known to be integers
POSITIVE = set()    # atoms known > 0 wherever the value is defined (sqrt used as divisor)
SIGN = set()        # atoms that are +1 or -1
UNK = set()         # atoms standing for un-modelled computations
UNKF = {}           # cache: does atom (transitively) contain an UNK atom


def atom_id(key):
    i = _INTERN.get(key)
    if i is None:
        i = len(ATOMS)
        ATOMS.append(key)
        _INTERN[key] = i
    return i


def _ci(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


# ---------------------------------------------------------------- polynomials
class Blowup(Exception):
    """an expression outgrew the analyser's budget"""


STICKY = set()          # atoms whose cancellation is being watched
ON_CANCEL = [lambda: None]
MAXPROD = 4000000


class Poly:
    __slots__ = ("t", "_h")

    def __init__(self, t):
        self.t = t
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, Poly) and self.t == o.t)

    def is_zero(self):
        return not self.t

    def const(self):
        """constant value or None"""
        if not self.t:
            return 0
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def add(self, o, k=1):
        if not o.t:
            return self
        r = dict(self.t)
        for m, c in o.t.items():
            v = r.get(m, 0) + (c if k == 1 else c * k)
            v = _ci(v)
            if v == 0:
                r.pop(m, None)
                if STICKY and not STICKY.isdisjoint([a for a, _ in m]):
                    ON_CANCEL[0]()
            else:
                r[m] = v
        return Poly(r)

    def scale(self, k):
        if k == 0:
            return P0
        if k == 1:
            return self
        return Poly({m: _ci(c * k) for m, c in self.t.items()})

    def mul(self, o):
        a, b = self, o
        if not a.t or not b.t:
            return P0
        ca = a.const()
        if ca is not None:
            return b.scale(ca)
        cb = b.const()
        if cb is not None:
            return a.scale(cb)
        if len(a.t) * len(b.t) > MAXPROD:
            raise Blowup("product of %d by %d terms" % (len(a.t), len(b.t)))
        r = {}
        for m1, c1 in a.t.items():
            for m2, c2 in b.t.items():
                c = c1 * c2
                for m, k in mono_mul(m1, m2):
                    v = r.get(m, 0) + c * k
                    if v == 0:
                        r.pop(m, None)
                    else:
                        r[m] = v
        for m in r:
            r[m] = _ci(r[m])
        return Poly(r)

    def pow(self, n):
        r = P1
        b = self
        while n:
            if n & 1:
                r = r.mul(b)
            b = b.mul(b) if n > 1 else b
            n >>= 1
        return r

    def atoms(self):
        s = set()
        for m in self.t:
            for a, _ in m:
                s.add(a)
        return s

    def lead(self):
        """leading monomial (deterministic order: degree then lexicographic)"""
        return max(self.t, key=_mkey)

    def __repr__(self):
        return poly_str(self)


def _mkey(m):
    return (sum(e for _, e in m), tuple((-a, e) for a, e in m))


_MM = {}


def mono_mul(m1, m2):
    """product of two monomials as a list of (mono, coef)"""
    if not m1:
        return ((m2, 1),)
    if not m2:
        return ((m1, 1),)
    if len(_MM) > 400000:
        _MM.clear()
    k = (m1, m2)
    r = _MM.get(k)
    if r is None:
        r = _MM[k] = _mono_mul(m1, m2)
    return r


def _mono_mul(m1, m2):
    d = dict(m1)
    red = False
    for a, e in m2:
        if a in d:
            d[a] += e
            if d[a] >= 2 and (a in SQ or a in IND):
                red = True
        else:
            d[a] = e
    groups = None
    for a in d:
        if a in IND:
            g = IND[a]
            if g is not None:
                if groups is None:
                    groups = {}
                if groups.get(g, a) != a:
                    return ()
                groups[g] = a
    ln = [a for a in d if a in LINE]
    if len(ln) > 1:
        drop = set()
        for i, a in enumerate(ln):
            for b in ln[i + 1:]:
                for x, y in ((a, b), (b, a)):
                    r = line_rel(x, y)
                    if r is False:
                        return ()
                    if r:
                        drop.add(y)
        for a in drop:
            del d[a]
    if not red:
        return ((tuple(sorted(d.items())), 1),)
    extra = P1
    for a in list(d):
        if a in IND:
            d[a] = 1
        elif a in SQ and d[a] >= 2:
            q, r = divmod(d[a], 2)
            if r:
                d[a] = 1
            else:
                del d[a]
            extra = extra.mul(SQ[a].pow(q))
    base = Poly({tuple(sorted(d.items())): 1})
    res = base.mul(extra)
    return tuple(res.t.items())


P0 = Poly({})
P1 = Poly({(): 1})


def pconst(c):
    return Poly({(): _ci(c)}) if c != 0 else P0


def patom(i):
    return Poly({((i, 1),): 1})


def pdivexact(n, d):
    """exact quotient n/d or None (verified by multiplication)"""
    if n.is_zero():
        return P0
    if len(d.t) == 1:
        (dm, dc), = d.t.items()
        r = {}
        dd = dict(dm)
        for m, c in n.t.items():
            md = dict(m)
            for a, e in dd.items():
                if md.get(a, 0) < e:
                    return None
                md[a] -= e
                if md[a] == 0:
                    del md[a]
            r[tuple(sorted(md.items()))] = _ci(Fraction(c) / dc)
        return Poly(r)
    dl = d.lead()
    dlc = d.t[dl]
    q = {}
    rem = n
    steps = 0
    lim = 4 * len(n.t) + 8
    ddl = dict(dl)
    while rem.t:
        steps += 1
        if steps > lim:
            return None
        m = rem.lead()
        md = dict(m)
        for a, e in ddl.items():
            if md.get(a, 0) < e:
                return None
            md[a] -= e
            if md[a] == 0:
                del md[a]
        qm = tuple(sorted(md.items()))
        c = _ci(Fraction(rem.t[m]) / dlc)
        q[qm] = _ci(q.get(qm, 0) + c)
        before = rem
        rem = rem.add(Poly({qm: c}).mul(d), -1)
        if m in rem.t and _mkey(rem.lead()) >= _mkey(m):
            return None
    qq = Poly({m: c for m, c in q.items() if c != 0})
    return qq


def pdivrem(n, d):
    """multivariate division by one polynomial: n = q*d + r, no monomial of r divisible by lead(d)"""
    dl = d.lead()
    dlc = d.t[dl]
    ddl = dict(dl)
    q = P0
    r = P0
    rem = n
    steps = 0
    while rem.t:
        steps += 1
        if steps > 5000:
            return None
        m = rem.lead()
        md = dict(m)
        ok = True
        for a, e in ddl.items():
            if md.get(a, 0) < e:
                ok = False
                break
            md[a] -= e
            if md[a] == 0:
                del md[a]
        if not ok:
            r = r.add(Poly({m: rem.t[m]}))
            t = dict(rem.t)
            del t[m]
            rem = Poly(t)
            continue
        qm = Poly({tuple(sorted(md.items())): _ci(Fraction(rem.t[m]) / dlc)})
        q = q.add(qm)
        rem2 = rem.add(qm.mul(d), -1)
        if m in rem2.t:
            r = r.add(Poly({m: rem2.t[m]}))
            t = dict(rem2.t)
            del t[m]
            rem2 = Poly(t)
        rem = rem2
    return q, r


# ---------------------------------------------------------------- rational functions
class Rat:
    __slots__ = ("n", "d", "_h")

    def __init__(self, n, d=()):
        self.n = n
        self.d = d          # tuple of (Poly monic non-constant, exp>0) sorted by hash-independent key
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.n, frozenset(self.d)))
        return self._h

    def __eq__(self, o):
        if self is o:
            return True
        if not isinstance(o, Rat):
            return False
        if self.n == o.n and frozenset(self.d) == frozenset(o.d):
            return True
        return False

    def const(self):
        if self.d:
            return None
        return self.n.const()

    def is_zero(self):
        return self.n.is_zero()

    def __repr__(self):
        return rat_str(self)


def rc(c):
    if isinstance(c, float):
        c = Fraction(c)
    return Rat(pconst(c))


R0 = Rat(P0)
R1 = Rat(P1)


def ratom(key):
    return Rat(patom(atom_id(key)))


def var(name):
    return ratom(("var", name))


def _mk(n, d):
    """normalise numerator poly / dict of factors"""
    if n.is_zero():
        return R0
    # den single-atom square rules, constant content
    changed = True
    while changed:
        changed = False
        for f, e in list(d.items()):
            if e == 0:
                del d[f]
                continue
            c = f.const()
            if c is not None:
                del d[f]
                n = n.scale(Fraction(1) / (Fraction(c) ** e))
                changed = True
                continue
            if len(f.t) == 1:
                (m, co), = f.t.items()
                if len(m) > 1 or m[0][1] > 1 or co != 1:
                    del d[f]
                    if co != 1:
                        n = n.scale(Fraction(1) / (Fraction(co) ** e))
                    for a, k in m:
                        p = patom(a)
                        d[p] = d.get(p, 0) + k * e
                    changed = True
                    continue
                a = m[0][0]
                if a in SQ and e >= 2:
                    q, r = divmod(e, 2)
                    if r:
                        d[f] = 1
                    else:
                        del d[f]
                    s = SQ[a]
                    d[s] = d.get(s, 0) + q
                    changed = True
                    continue
            else:
                lc = f.t[f.lead()]
                if lc != 1:
                    del d[f]
                    g = f.scale(Fraction(1) / Fraction(lc))
                    n = n.scale(Fraction(1) / (Fraction(lc) ** e))
                    d[g] = d.get(g, 0) + e
                    changed = True
                    continue
                # indicators never stay in a denominator
                for a in f.atoms():
                    if a in IND:
                        del d[f]
                        rest = _mk(n, d)
                        inv = _inv_split(f, a)
                        for _ in range(e):
                            rest = mul(rest, inv)
                        return rest
    # content: split a monomial common factor out of multi-term factors
    for f, e in list(d.items()):
        if len(f.t) > 1:
            g = _mono_content(f)
            if g:
                q = pdivexact(f, Poly({g: 1}))
                if q is not None:
                    del d[f]
                    d[q] = d.get(q, 0) + e
                    for a, k in g:
                        p = patom(a)
                        d[p] = d.get(p, 0) + k * e
                    return _mk(n, d)
    # cancel
    for f in list(d):
        while d.get(f, 0) > 0:
            if len(f.t) == 1:
                a = next(iter(f.t))[0][0]
                q = None
                if all(any(x == a for x, _ in m) for m in n.t):
                    q = pdivexact(n, f)
                elif a in SQ:
                    # 1/sqrt(p) when n is a multiple of p: sqrt(p)*(n/p)
                    qq = None
                    sp = SQ[a]
                    if len(sp.t) <= len(n.t) or sp.const() is not None:
                        if sp.const() is None:
                            qq = pdivexact(n, sp)
                    if qq is not None:
                        q = qq.mul(f)
            else:
                q = pdivexact(n, f) if len(n.t) >= 1 else None
                if q is not None and q.mul(f) != n:
                    q = None
            if q is None:
                break
            n = q
            d[f] -= 1
            if d[f] == 0:
                del d[f]
    # p / sqrt(p)... is handled above; sqrt(p)/p -> 1/sqrt(p)
    for f in list(d):
        e = d.get(f, 0)
        if e:
            sa = _INTERN.get(("sqrt", f))
            if sa is not None and len(f.t) > 1:
                pa = patom(sa)
                while d.get(f, 0) > 0 and n.t and all(any(x == sa for x, _ in m) for m in n.t):
                    n = pdivexact(n, pa)
                    d[f] -= 1
                    if d[f] == 0:
                        del d[f]
                    d[pa] = d.get(pa, 0) + 1
    if d:
        # normalise again if a sqrt factor reached power 2
        for f, e in d.items():
            if len(f.t) == 1 and e >= 2:
                a = next(iter(f.t))[0][0]
                if a in SQ:
                    return _mk(n, d)
    return Rat(n, tuple(sorted(d.items(), key=lambda x: _pkey(x[0]))))


def _pkey(p):
    return (len(p.t), sorted((m, str(c)) for m, c in p.t.items()))


def _mono_content(f):
    it = iter(f.t)
    g = dict(next(it))
    for m in it:
        md = dict(m)
        for a in list(g):
            e = min(g[a], md.get(a, 0))
            if e == 0:
                del g[a]
            else:
                g[a] = e
        if not g:
            return ()
    return tuple(sorted(g.items()))


def _inv_split(f, a):
    """1/f where f mentions indicator a"""
    f1, f0 = psplit(f, a)
    x = Rat(patom(a))
    return add(mul(x, inv(Rat(f1))), mul(sub(R1, x), inv(Rat(f0))))


def psplit(f, a):
    """(f with chi_a = 1, f with chi_a = 0)"""
    g = IND[a]
    line = a in LINE
    t1, t0 = {}, {}
    for m, c in f.t.items():
        has = any(x == a for x, _ in m)
        mm = tuple((x, e) for x, e in m if x != a) if has else m
        excl = g is not None and any(x in IND and IND[x] == g and x != a for x, _ in m)
        if not excl and line:
            for x, _ in m:
                if x in LINE and x != a:
                    r = line_rel(a, x)
                    if r is False:
                        excl = True
                        break
                    if r:
                        mm = tuple((y, e) for y, e in mm if y != x)
        if not excl:
            t1[mm] = _ci(t1.get(mm, 0) + c)
        if not has and not (line and any(x in LINE and x != a and line_rel(x, a) for x, _ in m)):
            t0[m] = _ci(t0.get(m, 0) + c)
    return Poly({m: c for m, c in t1.items() if c != 0}), Poly({m: c for m, c in t0.items() if c != 0})


def rsplit(r, a):
    n1, n0 = psplit(r.n, a)
    return _mk(n1, dict(r.d)), _mk(n0, dict(r.d))


def add(a, b, k=1):
    if b.n.is_zero():
        return a
    if a.n.is_zero():
        return b if k == 1 else Rat(b.n.scale(k), b.d)
    if a.d == b.d:
        n = a.n.add(b.n, k)
        if not a.d:
            return Rat(n)
        return _mk(n, dict(a.d))
    da, db = dict(a.d), dict(b.d)
    l = dict(da)
    for f, e in db.items():
        l[f] = max(l.get(f, 0), e)
    na, nb = a.n, b.n
    for f, e in l.items():
        x = e - da.get(f, 0)
        if x:
            na = na.mul(f.pow(x))
        x = e - db.get(f, 0)
        if x:
            nb = nb.mul(f.pow(x))
    return _mk(na.add(nb, k), l)


def sub(a, b):
    return add(a, b, -1)


def neg(a):
    return Rat(a.n.scale(-1), a.d)


_MULC = {}


def mul(a, b):
    if a.n.is_zero() or b.n.is_zero():
        return R0
    if not a.d and not b.d:
        return Rat(a.n.mul(b.n))
    key = (a, b)
    r = _MULC.get(key)
    if r is None:
        d = dict(a.d)
        for f, e in b.d:
            d[f] = d.get(f, 0) + e
        # cross-cancel before multiplying keeps things small
        r = _mk(a.n.mul(b.n), d)
        if len(_MULC) > 200000:
            _MULC.clear()
        _MULC[key] = r
    return r


def inv(a):
    if a.n.is_zero():
        return ratom(("fn", "recip0"))
    n = P1
    for f, e in a.d:
        n = n.mul(f.pow(e))
    return _mk(n, {a.n: 1})


def div(a, b):
    c = b.const()
    if c is not None and c != 0:
        return Rat(a.n.scale(Fraction(1) / Fraction(c)), a.d)
    if a == b and not a.n.is_zero():
        return R1
    return mul(a, inv(b))


def powi(a, k):
    if k < 0:
        return inv(powi(a, -k))
    r = R1
    for _ in range(k):
        r = mul(r, a)
    return r


def eq(a, b):
    if a == b:
        return True
    return sub(a, b).is_zero()


def eq_int(a, b):
    """equality, splitting on conditions over integers and leaving out the cases that cannot occur"""
    return eq(a, b) or _zero_cases(sub(a, b), 0, [400])


def _zero_cases(d, depth, budget):
    global FACTS
    if d.is_zero():
        return True
    budget[0] -= 1
    if depth > 40 or budget[0] < 0:
        return False
    m = None
    for a in indicators(d.n):
        k = ATOMS[a]
        if k[0] in ("pos", "zero") and _int_only(k[1]):
            m = k[1]
            break
    if m is None:
        return _real_cases(d, depth, budget)
    saved = FACTS
    try:
        for case in (1, -1, 0):
            FACTS = saved
            c = _case(m, case, d)
            if c is None:
                continue
            FACTS = saved + c[0]
            if case == 0 and len(m.t) <= 2 and any(not mo and abs(co) > 3 for mo, co in m.t.items()) and (c[1].is_zero() or not indicators(c[1].n) and eq(c[1], R0)):
                continue        # (sums over so many rows are better not written out)
            if not _zero_cases(_eliminate(m, c[1]) if case == 0 else c[1], depth + 1, budget):
                return False
        return True
    finally:
        FACTS = saved


def solvable(a):
    """indicator a of a quantity that determines one of its variables"""
    k = ATOMS[a]
    if k[0] != "zero":
        return True
    e = Rat(k[1])
    return _eliminate(k[1], e) is not e


def _real_cases(d, depth, budget):
    """d = 0, told apart by whether some other quantity that one of its variables is determined by vanishes"""
    for a in indicators(d.n):
        k = ATOMS[a]
        if k[0] != "zero" or len(k[1].t) > 12:
            continue
        e = subst(d, {a: R1})
        z = _eliminate(k[1], e)
        if z is not e:
            return _zero_cases(z, depth + 1, budget) and _zero_cases(subst(d, {a: R0}), depth + 1, budget)
    return False


def _case(m, case, d):
    """d in the case  sign of the integer m = case:  (facts, d there); None if that cannot be"""
    one = pconst(-1)
    fs = [m.add(one)] if case == 1 else [m, m.scale(-1)] if case == 0 else [m.scale(-1).add(one)]
    if prove_ge0(one, FACTS + fs, force=True):
        return None
    sm = {}
    for a in indicators(d.n):
        k = ATOMS[a]
        if k[0] in ("pos", "zero") and k[1] == m:
            sm[a] = R1 if case == (1 if k[0] == "pos" else 0) else R0
    return fs, subst(d, sm)


def _eliminate(m, e):
    """e where m = 0 is used to get rid of one of its variables"""
    best = None
    for (mo, co) in m.t.items():
        if len(mo) == 1 and mo[0][1] == 1:
            x = mo[0][0]
            if not any(x in atom_deps(y) for y in m.atoms() if y != x) and sum(any(y == x for y, _ in o) for o in m.t) == 1 and (best is None or x > best[0]):
                best = (x, co)
    if best is None:
        return e
    x, co = best
    return subst(e, {x: Rat(m.add(Poly({((x, 1),): co}), -1).scale(Fraction(-1) / Fraction(co)))})


def _int_conds(r):
    out = []
    for a in indicators(r.n):
        k = ATOMS[a]
        if k[0] in ("pos", "zero") and k[1] not in out and _int_only(k[1]):
            out.append(k[1])
    return out


def _collapse(r):
    """the one value all feasible cases agree on, if they do"""
    global FACTS
    saved = FACTS
    e = r
    try:
        for _ in range(60):
            ms = _int_conds(e)
            if not ms:
                break
            for case in (0, 1, -1):
                c = _case(ms[0], case, e)
                if c is not None:
                    FACTS = FACTS + c[0]
                    e = _eliminate(ms[0], c[1]) if case == 0 else c[1]
                    break
            else:
                return None
    finally:
        FACTS = saved
    return e if not _int_conds(e) and eq_int(r, e) else None


def settle(r):
    """r with the conditions on integers that are decided under FACTS replaced by their value"""
    for a in indicators(r.n):
        k = ATOMS[a]
        if k[0] not in ("pos", "zero") or not _int_only(k[1]):
            continue
        m, one = k[1], pconst(-1)
        if prove_ge0(m.add(one), force=True):
            v = R1 if k[0] == "pos" else R0
        elif k[0] == "pos" and prove_ge0(m.scale(-1), force=True):
            v = R0
        elif k[0] == "zero" and prove_ge0(m.scale(-1).add(one), force=True):
            v = R0
        elif k[0] == "zero" and prove_ge0(m, force=True) and prove_ge0(m.scale(-1), force=True):
            v = R1
        else:
            continue
        r = subst(r, {a: v})
    return r


def simp_int(r, depth=0):
    """drop distinctions on integers that make no difference or cannot occur (under FACTS)"""
    global FACTS
    ms = _int_conds(r)
    if not ms:
        return r
    e = _collapse(r)
    if e is not None or len(ms) > 8:
        return r if e is None else e
    done = set()
    while True:
        m = None
        for a in indicators(r.n):
            k = ATOMS[a]
            if k[0] in ("pos", "zero") and k[1] not in done and _int_only(k[1]):
                m = k[1]
                break
        if m is None:
            return r
        done.add(m)
        cs = [(case, c) for case, c in ((case, _case(m, case, r)) for case in (1, -1, 0)) if c is not None]
        saved = FACTS
        try:
            if len(ms) > 1:
                for i, (case, (fs, g)) in enumerate(cs):
                    FACTS = saved + fs
                    g = settle(g)
                    cs[i] = case, (fs, simp_int(g, depth + 1) if depth < 2 and len(cs) > 1 else g)
            for case, (fs, g) in cs:
                if case == 0 and len(cs) > 1:
                    continue
                same = True
                for c2, (f2, h) in cs:
                    if c2 == case:
                        continue
                    FACTS = saved + f2
                    d = sub(g, h)
                    if c2 == 0:
                        d = _eliminate(m, d)
                    if not d.is_zero() and not _zero_cases(d, 0, [60]):
                        same = False
                        break
                if same:
                    r = g
                    break
        finally:
            FACTS = saved


def upper_bounds(T):
    """values without conditions that bound the integer T from above (T itself, or what a case distinction amounts to)"""
    if not indicators(T.n):
        return [T]
    leaves = []

    def walk(t, facts, depth):
        inds = indicators(t.n)
        if not inds:
            leaves.append((t, facts))
            return True
        if depth > 6:
            return False
        a = inds[0]
        k = ATOMS[a]
        m = k[1] if k[0] in ("pos", "zero") else None
        t1, t0 = rsplit(t, a)
        f1, f0 = [], []
        if m is not None and _int_only(m):
            f1 = [m.add(pconst(-1))] if k[0] == "pos" else [m, m.scale(-1)]
            f0 = [m.scale(-1)] if k[0] == "pos" else []
            if k[0] == "pos":
                z = [b for b in indicators(t0.n) if ATOMS[b][0] == "zero" and ATOMS[b][1] == m]
                t1 = subst(t1, {b: R0 for b in indicators(t1.n) if ATOMS[b][0] == "zero" and ATOMS[b][1] == m})
        return walk(t1, facts + f1, depth + 1) and walk(t0, facts + f0, depth + 1)
    if not walk(T, [], 0):
        return []
    out = []
    for v, _ in leaves:
        if v not in out and not v.d and all(prove_ge0(sub(v, t).n, FACTS + f, force=True) for t, f in leaves):
            out.append(v)
    return out


def radd(*xs):
    r = R0
    for x in xs:
        r = add(r, x)
    return r


def rmul(*xs):
    r = R1
    for x in xs:
        r = mul(r, x)
    return r


# ---------------------------------------------------------------- indicators / conditions
def indicators(p):
    return sorted(a for a in p.atoms() if a in IND)


def rat_atoms(r):
    s = r.n.atoms()
    for f, _ in r.d:
        s |= f.atoms()
    return s


def lift(r, fn):
    """fn applied below the indicators of r: fn(gamma(c,a,b)) = gamma(c, fn a, fn b)"""
    inds = indicators(r.n)
    if not inds:
        return fn(r)
    a = inds[0]
    r1, r0 = rsplit(r, a)
    x = Rat(patom(a))
    v1, v0 = lift(r1, fn), lift(r0, fn)
    if v1 == v0:
        return v1
    return add(v0, mul(x, sub(v1, v0)))


def gamma(c, a, b):
    """c ? a : b"""
    k = c.const()
    if k is not None:
        return a if k else b
    if a == b:
        return a
    return add(b, mul(c, sub(a, b)))


def _ind_atom(key, group):
    new = key not in _INTERN
    i = atom_id(key)
    if new:
        IND[i] = group
        NONNEG.add(i)
        if key[0] in ("pos", "zero") and len(key[1].t) <= 6:
            m = key[1]
            c = m.t.get((), 0)
            q = Poly({mo: k for mo, k in m.t.items() if mo}) if c else m
            if q.t:
                lc = Fraction(q.t[q.lead()])
                if lc > 0 or key[0] == "zero":
                    LINE[i] = (q.scale(Fraction(1) / lc), Fraction(c) / lc, key[0])
    return i


LINE = {}               # condition -> (q, c, kind): the condition is  q + c > 0  or  q + c = 0
_REL = {}


def line_rel(a, b):
    """conditions on the same quantity, a being true: is b then true or false?  (None: either)"""
    x, y = LINE[a], LINE[b]
    if x[1] == y[1] or x[0] != y[0]:
        return None
    if x[2] == "zero":
        return y[2] == "pos" and y[1] > x[1]
    if y[2] == "zero":
        return None if y[1] < x[1] else False
    return True if y[1] > x[1] else None


def is_positive_poly(p):
    """syntactic: sum of non-negative terms with at least one certainly positive"""
    pos = False
    for m, c in p.t.items():
        if c < 0:
            return False
        if all(a in POSITIVE for a, e in m):
            pos = True
        elif not all(e % 2 == 0 or a in NONNEG or a in POSITIVE for a, e in m):
            return False
    return pos


def is_nonneg_poly(p):
    for m, c in p.t.items():
        if c < 0:
            return False
        if not all(e % 2 == 0 or a in NONNEG or a in POSITIVE for a, e in m):
            return False
    return True


_NF = {}


def pos(d):
    """indicator of d > 0"""
    return lift(d, _pos)


def _signpoly(d):
    """polynomial with the same sign as d (denominator factors of odd power multiplied in)"""
    n = d.n
    for f, e in d.d:
        if e % 2 and not is_positive_poly(f):
            n = n.mul(f)
    # strip positive monomial content
    g = _mono_content(n) if n.t else ()
    if g:
        keep = []
        strip = []
        for a, e in g:
            if a in POSITIVE:
                strip.append((a, e))
        if strip:
            q = pdivexact(n, Poly({tuple(strip): 1}))
            if q is not None:
                n = q
    return n


FACTS = []   # polynomials known >= 0 (bounds of loop counters, dims); managed by the interpreter


def _int_only(n):
    return all(a in INTEG for a in n.atoms()) and all(isinstance(c, int) for c in n.t.values())


def _cleared(n):
    """an integer-valued polynomial with its denominators cleared"""
    if all(isinstance(c, int) for c in n.t.values()) or not all(a in INTEG for a in n.atoms()):
        return n
    from math import lcm
    k = 1
    for c in n.t.values():
        k = lcm(k, Fraction(c).denominator)
    return Poly({m: int(Fraction(c) * k) for m, c in n.t.items()})


def _tight(n, eq):
    """an integer-valued polynomial with the common factor of its coefficients divided out, the constant rounded
    (k x + c > 0 <=> x + ceil(c / k) > 0;  k x + c = 0 only if k divides c: None)"""
    c = n.t.get((), 0)
    if not c or not all(a in INTEG for a in n.atoms()):
        return n
    from math import gcd
    q = _cleared(n)
    g = 0
    for m, x in q.t.items():
        if m:
            g = gcd(g, x)
    c = q.t[()]
    if g < 2 or c % g == 0:
        return n
    if eq:
        return None
    return Poly({m: (x // g if m else -(-c // g)) for m, x in q.t.items() if m or -(-c // g)})


def _div_facts(atoms):
    """what integer division, remainder and rounding up satisfy"""
    out, seen, work = [], set(), list(atoms)
    while work:
        a = work.pop()
        if a in seen:
            continue
        seen.add(a)
        k = ATOMS[a]
        if k[0] != "fn" or k[1] not in ("idiv", "irem", "ceil") or not isinstance(k[2], Rat):
            continue
        X = k[2]
        if k[1] == "ceil":
            d = X.d and None
            n = X.n
            if X.d:
                continue
            c = _cleared(n)
            m = 1
            if c is not n:
                (mo, co) = next(iter(n.t.items()))
                m = int(Fraction(c.t[mo]) / Fraction(co))
            if not _int_only(c):
                continue
            q = patom(a).scale(m)
            out += [q.add(c, -1), c.add(q, -1).add(pconst(m - 1))]
            work += list(c.atoms())
            continue
        if X.d or not _int_only(X.n):
            continue
        K = k[3].const() if isinstance(k[3], Rat) else None
        if not is_nonneg_poly(X.n) and not prove_ge0_simple(X.n):
            continue
        me = patom(a)
        out += [me, X.n.add(me, -1)]
        work += list(X.n.atoms())
        if K is not None and K >= 1 and K == int(K):
            K = int(K)
            q = patom(atom_id(("fn", "idiv") + k[2:]))
            INTEG.update(q.atoms())
            NONNEG.update(q.atoms())
            r = X.n.add(q.scale(K), -1)         # the remainder
            out += [q, r, r.scale(-1).add(pconst(K - 1))]
            if k[1] == "irem":
                out += [r.add(me, -1), me.add(r, -1)]
    return out


_LP = {}


def _lp_bound_above(n, facts, limit):
    """is there a certificate n = c + sum of non-negative multiples of facts and non-negative monomials, with c > limit?
    (the polyhedra domain's entailment test, by the simplex method over the rationals)"""
    mons = sorted({m for f in facts + [n] for m in f.t if m})
    if len(mons) > 24 or len(facts) > 30:
        return False
    cols = [([Fraction(f.t.get(m, 0)) for m in mons], -Fraction(f.t.get((), 0))) for f in facts]
    for i, m in enumerate(mons):
        if all(e % 2 == 0 or a in NONNEG or a in POSITIVE for a, e in m):
            cols.append(([Fraction(int(j == i)) for j in range(len(mons))], Fraction(0)))
    b = [Fraction(n.t.get(m, 0)) for m in mons]
    A = [[c[0][i] for c in cols] for i in range(len(mons))]
    for i in range(len(b)):
        if b[i] < 0:
            b[i] = -b[i]
            A[i] = [-x for x in A[i]]
    nv, nr = len(cols), len(b)
    for i in range(nr):
        A[i] = A[i] + [Fraction(int(i == j)) for j in range(nr)]
    basis = [nv + i for i in range(nr)]

    def run(cost, allowed):
        for _ in range(200):
            # reduced costs (maximise)
            best = None
            for j in range(allowed):
                if j in basis:
                    continue
                rcst = cost[j] - sum(cost[basis[i]] * A[i][j] for i in range(nr))
                if rcst > 0:
                    best = j
                    break
            if best is None:
                return True
            piv, q = None, None
            for i in range(nr):
                if A[i][best] > 0:
                    r = b[i] / A[i][best]
                    if q is None or r < q or (r == q and basis[i] < basis[piv]):
                        piv, q = i, r
            if piv is None:
                return None         # unbounded
            d = A[piv][best]
            A[piv] = [x / d for x in A[piv]]
            b[piv] /= d
            for i in range(nr):
                if i != piv and A[i][best]:
                    f = A[i][best]
                    A[i] = [x - f * y for x, y in zip(A[i], A[piv])]
                    b[i] -= f * b[piv]
            basis[piv] = best
        return False
    if not run([Fraction(0)] * nv + [Fraction(-1)] * nr, nv):
        return False
    if sum(b[i] for i in range(nr) if basis[i] >= nv) != 0:
        return False
    cost = [c[1] for c in cols] + [Fraction(-10 ** 9)] * nr
    r = run(cost, nv)
    if r is None:
        return True                 # the facts contradict each other
    val = Fraction(n.t.get((), 0)) + sum(cost[basis[i]] * b[i] for i in range(nr) if basis[i] < nv)
    return bool(r) and val > limit


def prove_ge0(n, facts=None, force=False):
    """linear combination of known non-negative facts; sound, incomplete"""
    facts = FACTS if facts is None else facts
    key = (n, tuple(facts), force)
    ver = (len(NONNEG), len(POSITIVE), len(INTEG))
    r = _GE0.get(key)
    if r is not None and (r[0] or r[1] == ver):
        return r[0]
    if len(_GE0) > 300000:
        _GE0.clear()
    r = _prove_ge0(n, facts, force)
    _GE0[key] = (r, ver)
    return r


_GE0 = {}


def _prove_ge0(n, facts, force):
    if prove_ge0_simple(n, facts):
        return True
    c = _cleared(n)
    if not n.t or not _int_only(c):
        return False
    ats = c.atoms()
    divs = any(ATOMS[a][0] == "fn" and ATOMS[a][1] in ("idiv", "irem", "ceil") for f in list(facts) + [c] for a in f.atoms())
    if not divs and not force:
        return False
    fs = [_cleared(f) for f in facts]
    fs = [f for f in fs if _int_only(f)]
    key = (tuple(sorted(c.t.items())), tuple(tuple(sorted(f.t.items())) for f in fs))
    r = _LP.get(key)
    if r is None:
        _LP[key] = False        # (recursion through the facts)
        fs += _div_facts({a for f in fs + [c] for a in f.atoms()})
        r = _LP[key] = _lp_bound_above(c, fs, -1)
    return r


def prove_ge0_simple(n, facts=None):
    if is_nonneg_poly(n):
        return True
    facts = FACTS if facts is None else facts
    for f in facts:
        r = n.add(f, -1)
        if is_nonneg_poly(r):
            return True
    for i, f in enumerate(facts):
        r1 = n.add(f, -1)
        for g in facts[i:]:
            r = r1.add(g, -1)
            if is_nonneg_poly(r):
                return True
    return False


def _pos(d):
    n = _signpoly(d)
    c = n.const()
    if c is not None:
        return R1 if c > 0 else R0
    if len(n.t) == 1:
        (mo, co), = n.t.items()
        if len(mo) == 1 and mo[0][1] == 1 and mo[0][0] in SIGN:
            s = Rat(patom(mo[0][0]))
            h = rc(Fraction(1, 2))
            return mul(h, add(R1, s)) if co > 0 else mul(h, sub(R1, s))
    if is_positive_poly(n):
        return R1
    if is_nonneg_poly(n.scale(-1)):
        return R0
    if any(len(mo) == 1 and ATOMS[mo[0][0]][0] == "gmax" for mo in n.t):
        r = _pos_gmax(n)
        if r is not None:
            return r
    if any(len(mo) == 1 and ATOMS[mo[0][0]][0] == "sum" for mo in n.t):
        r = _sum_case(n)
        if r is not None:
            return R0 if r[2] < 0 else exists(r[0], pos(r[1]), tau(93))
    n = _tight(n, False)
    q = _cleared(n)
    if _int_only(q):
        # integers: n > 0 <=> n - 1 >= 0
        if prove_ge0(q.add(pconst(-1))):
            return R1
        if prove_ge0(q.scale(-1)):
            return R0
    elif FACTS:
        if prove_ge0(n.scale(-1)):
            return R0
    lc = n.t[n.lead()]
    k = Fraction(1) / Fraction(abs(lc))
    if _int_only(n) and abs(lc) == 1:
        k = 1
    m = n.scale(k)
    if lc > 0:
        return Rat(patom(_ind_atom(("pos", m), ("sg", m))))
    m = m.scale(-1)
    p = Rat(patom(_ind_atom(("pos", m), ("sg", m))))
    z = _zero(Rat(m))
    return sub(sub(R1, p), z)


def zero(d):
    """indicator of d == 0"""
    return lift(d, _zero)


def _zero(d):
    n = d.n
    c = n.const()
    if c is not None:
        return R1 if c == 0 else R0
    if is_positive_poly(n) or is_positive_poly(n.scale(-1)):
        return R0
    if len(n.t) == 1 and all(x in SIGN for x, _ in next(iter(n.t))):
        return R0
    if any(len(mo) == 1 and ATOMS[mo[0][0]][0] == "sum" for mo in n.t):
        r = _sum_case(n)
        if r is not None:
            return bnot(exists(r[0], bnot(zero(r[1])), tau(93)))
    n = _tight(n, True)
    if n is None:
        return R0
    q = _cleared(n)
    if _int_only(q):
        if prove_ge0(q.add(pconst(-1))) or prove_ge0(q.scale(-1).add(pconst(-1))):
            return R0
    lc = n.t[n.lead()]
    k = Fraction(1) / Fraction(lc)
    m = n.scale(k) if not (_int_only(n) and abs(lc) == 1) else n.scale(1 if lc > 0 else -1)
    return Rat(patom(_ind_atom(("zero", m), ("sg", m))))


def lt(a, b):
    return pos(sub(b, a))


def le(a, b):
    return sub(R1, pos(sub(a, b)))


def req(a, b):
    return zero(sub(a, b))


def bnot(a):
    return sub(R1, a)


def band(a, b):
    return mul(a, b)


def bor(a, b):
    return sub(add(a, b), mul(a, b))


def hot(group, i):
    """one-hot indicator: opaque tag `group` equals i"""
    return Rat(patom(_ind_atom(("hot", group, i), ("hot", group))))


def eqconst(d, v):
    """indicator of (d == v) where d is usually a combination of indicators (a discriminant)"""
    return lift(sub(d, rc(v)), _zero)


# ---------------------------------------------------------------- functions
def _int_fold(name, args):
    """integer functions of constants"""
    if name in ("idiv", "irem", "ceil", "ceil_div"):
        c = [a.const() if isinstance(a, Rat) else None for a in args]
        if name == "ceil" and len(c) == 1 and c[0] is not None:
            return rc(-((-Fraction(c[0])) // 1))
        if name == "ceil_div" and len(c) == 2 and None not in c and c[1] > 0:
            return rc(max(0, -((-Fraction(c[0])) // c[1])))
        if len(c) == 2 and name != "ceil_div" and None not in c and c[1] and all(x == int(x) for x in c):
            return rc(int(c[0]) // int(c[1]) if name == "idiv" else int(c[0]) % int(c[1]))
    return None


def fn(name, *args, nonneg=False, unk=False):
    r = _int_fold(name, args)
    if r is not None:
        return r
    i = atom_id(("fn", name) + tuple(args))
    if nonneg:
        NONNEG.add(i)
    if unk:
        UNK.add(i)
    return Rat(patom(i))


def _isqrt_frac(c):
    from math import isqrt
    c = Fraction(c)
    if c < 0:
        return None
    a, b = isqrt(c.numerator), isqrt(c.denominator)
    if a * a == c.numerator and b * b == c.denominator:
        return Fraction(a, b)
    return None


def sqrt(r):
    return lift(r, _sqrt)


def _sqrt_poly(p):
    c = p.const()
    if c is not None:
        q = _isqrt_frac(c)
        if q is not None:
            return Rat(pconst(q))
    # pull out the rational square content and squared-monomial content
    lc = abs(p.t[p.lead()])
    s = _isqrt_frac(lc)
    out = R1
    if s is not None and s != 1:
        p = p.scale(Fraction(1) / (s * s))
        out = rc(s)
    elif s is None:
        p = p.scale(Fraction(1) / Fraction(lc))
        i = atom_id(("sqrt", pconst(lc)))
        SQ[i] = pconst(lc)
        NONNEG.add(i)
        POSITIVE.add(i)
        out = Rat(patom(i))
    g = _mono_content(p)
    if g:
        ex = []
        for a, e in g:
            if (a in NONNEG or a in POSITIVE) and e >= 2:
                ex.append((a, e // 2))
        if ex:
            q = pdivexact(p, Poly({tuple((a, 2 * k) for a, k in ex): 1}))
            if q is not None:
                p = q
                out = mul(out, Rat(Poly({tuple(sorted(ex)): 1})))
    # factors whose square roots are already known
    for i, q in list(SQ.items()):
        if len(q.t) < 2 or q == p or not set(q.atoms()) <= set(p.atoms()):
            continue
        while True:
            z = pdivexact(p, q)
            if z is None:
                break
            p2 = pdivexact(z, q)
            if p2 is not None:
                out = mul(out, Rat(q))
                p = p2
            else:
                out = mul(out, Rat(patom(i)))
                p = z
    c = p.const()
    if c is not None:
        if c == 1:
            return out
        if c > 0:
            return mul(out, _sqrt_poly(p))
    i = atom_id(("sqrt", p))
    SQ[i] = p
    NONNEG.add(i)
    POSITIVE.add(i)
    return mul(out, Rat(patom(i)))


def _sqrt(r):
    if r.is_zero():
        return R0
    n = r.n
    den = R1
    for f, e in r.d:
        q, odd = divmod(e, 2)
        if odd:
            n = n.mul(f)
            q += 1
        if q:
            fr = Rat(f)
            base = fr if is_positive_poly(f) else _sqrt_poly(f.mul(f))
            for _ in range(q):
                den = mul(den, base)
    return div(_sqrt_poly(n), den)


def rabs(r):
    def f(x):
        c = x.const()
        if c is not None:
            return rc(abs(c))
        if not x.d and is_nonneg_poly(x.n):
            return x
        return _sqrt(mul(x, x))
    return lift(r, f)


# ---------------------------------------------------------------- substitution
def subst(r, m, memo=None):
    """simultaneous substitution of atoms (dict atom id -> Rat), also inside atom arguments"""
    if memo is None:
        memo = {}
    if not _mentions(r, m):
        return r
    k = memo.get(r)
    if k is not None:
        return k
    n = _psubst(r.n, m, memo)
    for f, e in r.d:
        n = div(n, powi(_psubst(f, m, memo), e))
    memo[r] = n
    return n


_DEPS = {}


def atom_deps(a):
    """all atoms transitively mentioned by atom a (including a)"""
    d = _DEPS.get(a)
    if d is None:
        s = {a}
        for x in ATOMS[a]:
            for y in _obj_atoms(x):
                s |= atom_deps(y)
        if ATOMS[a][0] in ("sum", "exists", "gmax"):
            s.discard(tau(ATOMS[a][3]))
        d = _DEPS[a] = frozenset(s)
    return d


def _obj_atoms(x):
    if isinstance(x, Rat):
        return rat_atoms(x)
    if isinstance(x, Poly):
        return x.atoms()
    if isinstance(x, tuple):
        s = set()
        for y in x:
            s |= _obj_atoms(y)
        return s
    return frozenset()


def deps(r):
    s = set()
    for a in rat_atoms(r):
        s |= atom_deps(a)
    return s


def _mentions(r, m):
    for a in rat_atoms(r):
        dd = atom_deps(a)
        for x in m:
            if x in dd:
                return True
    return False


def _psubst(p, m, memo):
    acc = R0
    keep = {}
    if not STICKY:
        # terms that share the atoms concerned share the product of their values
        need = {a for a in p.atoms() if _asub_needed(a, m)}
        if not need:
            return Rat(p)
        groups = {}
        for mo, c in p.t.items():
            hit = tuple([x for x in mo if x[0] in need])
            if not hit:
                keep[mo] = c
            elif len(hit) == len(mo):
                groups.setdefault(hit, {})[()] = c
            else:
                groups.setdefault(hit, {})[tuple([x for x in mo if x[0] not in need])] = c
        whole = keep
        for hit, rest in groups.items():
            t = R1
            for a, e in hit:
                t = mul(t, powi(_asubst(a, m, memo), e))
            if t.n.is_zero():
                continue
            if t.d:
                acc = add(acc, mul(t, Rat(Poly(rest))))
                continue
            for mo, c in t.n.mul(Poly(rest)).t.items():
                v = _ci(whole.get(mo, 0) + c)
                if v == 0:
                    whole.pop(mo, None)
                else:
                    whole[mo] = v
        return add(acc, Rat(Poly(whole)))
    for mo, c in p.t.items():
        if not any(_asub_needed(a, m) for a, _ in mo):
            keep[mo] = c
            continue
        t = rc(c)
        for a, e in mo:
            t = mul(t, powi(_asubst(a, m, memo), e))
        acc = add(acc, t)
    return add(acc, Rat(Poly(keep)))


def _asub_needed(a, m):
    dd = atom_deps(a)
    return any(x in dd for x in m)


def _asubst(a, m, memo):
    if a in m:
        return m[a]
    if not _asub_needed(a, m):
        return Rat(patom(a))
    k = memo.get(("a", a))
    if k is not None:
        return k
    key = ATOMS[a]
    kind = key[0]
    if kind == "sqrt":
        r = sqrt(_psubst(key[1], m, memo))
    elif kind == "pos":
        r = pos(_psubst(key[1], m, memo))
    elif kind == "zero":
        r = zero(_psubst(key[1], m, memo))
    elif kind in ("sum", "exists", "gmax"):
        T = subst(key[1], m, memo)
        tv = tau(key[3])
        mm = {x: y for x, y in m.items() if x != tv}
        f = subst(key[2], mm, memo if len(mm) == len(m) else dict())
        r = gmax(T, f, tv, subst(key[4], m, memo)) if kind == "gmax" else (rsum if kind == "sum" else exists)(T, f, tv)
    elif kind == "fn" and key[1] == "approx_eq":
        nk = tuple(_obj_subst(x, m, memo) for x in key)
        r = approx_fold(nk[2], nk[3], nk[4:])
        if repr(nk[3]) < repr(nk[2]):
            nk = nk[:2] + (nk[3], nk[2]) + nk[4:]
        if r is None:
            r = Rat(patom(_ind_atom(nk, None)))
    elif kind == "sin" or kind == "cos":
        r = trig(kind, _obj_subst(key[1], m, memo))
    else:
        nk = tuple(_obj_subst(x, m, memo) for x in key)
        if kind == "fn" and nk[1] in ("idiv", "ceil") and isinstance(nk[2], Rat) and indicators(nk[2].n):
            def one(x):
                if x == nk[2] or indicators(x.n):
                    raise Blowup("conditions below %s" % nk[1])
                y = _int_fold(nk[1], (x,) + nk[3:])
                if y is None:
                    i = atom_id(nk[:2] + (x,) + nk[3:])
                    INTEG.add(i)
                    NONNEG.add(i)
                    y = Rat(patom(i))
                return y
            r = memo[("a", a)] = lift(nk[2], one)
            return r
        r = _int_fold(nk[1], nk[2:]) if kind == "fn" else None
        if r is None:
            new = nk not in _INTERN
            i = atom_id(nk)
            if new:
                inherit(a, i, m, memo)
            r = Rat(patom(i))
    memo[("a", a)] = r
    return r


# ---- values that are not real numbers
# SPECIAL, when set, maps an atom to nan or an infinity (or None).  Only comparisons and the
# classification of values look at it: they follow IEEE rules then.
SPECIAL = None
NAN, INF, FIN = float("nan"), float("inf"), "finite"


def with_special(f, thunk):
    global SPECIAL
    lost = ratom(("fn", "ieee_nan")).n.lead()[0][0]
    saved, SPECIAL = SPECIAL, lambda a: NAN if a == lost else f(a)
    try:
        return thunk()
    finally:
        SPECIAL = saved


def has_special(*rs):
    return SPECIAL is not None and any(isinstance(r, Rat) and any(SPECIAL(a) is not None for a in deps(r)) for r in rs)


def special_op(op, a, b, r):
    """r, the exact value of a op b, or nan where cancellation hides that it is none (x - x, 0 * x of special x)"""
    if SPECIAL is not None and has_special(a, b) and not has_special(r):
        x, y = ieee(a), ieee(b)
        if op == "Sub" and isinstance(y, float):
            y = -y
        if _nan(_smul(x, y) if op == "Mul" else _sadd(x, y) if op in ("Add", "Sub") else _sdiv(x, y)):
            return ratom(("fn", "ieee_nan"))
    return r


def ieee(r):
    """value of r by IEEE rules: a float, FIN (finite, not known), or None (not known at all)"""
    v = _spoly(r.n)
    for f, e in r.d:
        for _ in range(e):
            v = _sdiv(v, _spoly(f))
    return v


def _nan(*xs):
    return any(isinstance(x, float) and x != x for x in xs)


def _inf(x):
    return isinstance(x, float) and x in (INF, -INF)


def _sdiv(a, b):
    if _nan(a, b):
        return NAN
    if a is None or b is None:
        return None
    if isinstance(a, float) and isinstance(b, float):
        if b == 0:
            return NAN if a == 0 else None
        return NAN if _inf(a) and _inf(b) else a / b
    return 0.0 if _inf(b) else None if _inf(a) else FIN


def _smul(a, b):
    if _nan(a, b):
        return NAN
    if a is None or b is None:
        return None
    if isinstance(a, float) and isinstance(b, float):
        return a * b
    return None if _inf(a) or _inf(b) else FIN


def _sadd(a, b):
    if _nan(a, b):
        return NAN
    if a is None or b is None:
        return None
    if isinstance(a, float) and isinstance(b, float):
        return a + b
    return a if _inf(a) else b if _inf(b) else FIN


def _spoly(p):
    out = 0.0
    for mo, co in p.t.items():
        v = float(co)
        for a, e in mo:
            x = _satom(a)
            if e < 0:
                x = _sdiv(1.0, x)
            for _ in range(abs(e)):
                v = _smul(v, x)
        out = _sadd(out, v)
    return out


def _satom(a):
    v = SPECIAL(a)
    if v is not None:
        return v
    k = ATOMS[a]
    if not any(SPECIAL(b) is not None for b in atom_deps(a)):
        if k[0] == "fn" and k[1] in ("const_default_epsilon", "const_epsilon", "eps_default", "const_default_max_relative", "max_relative_default"):
            return 2.0 ** -52
        return FIN
    if k[0] in ("abs", "sqrt") and len(k) == 2 and isinstance(k[1], (Rat, Poly)):
        x = ieee(k[1]) if isinstance(k[1], Rat) else _spoly(k[1])
        if not isinstance(x, float):
            return x
        return abs(x) if k[0] == "abs" else NAN if x < 0 else x ** 0.5
    return None


def special_cmp(op, a, b):
    """truth of a comparison that involves a special value; None when it involves none"""
    if not has_special(a, b):
        return None
    x, y = ieee(a), ieee(b)
    if _nan(x, y):
        return R1 if op == "ne" else R0
    if x is None or y is None or not (_inf(x) or _inf(y) or (isinstance(x, float) and isinstance(y, float))):
        return fn("special_" + op, a, b, unk=True)
    if not isinstance(x, float):
        x = 0.0
    if not isinstance(y, float):
        y = 0.0
    if op == "approx":      # within a tolerance that is finite: infinities are apart from everything but themselves
        return R1 if x == y else R0 if _inf(x) or _inf(y) else R1 if abs(x - y) < 1e-9 else R0
    return R1 if {"lt": x < y, "le": x <= y, "eq": x == y, "ne": x != y}[op] else R0


def clt(a, b):
    r = special_cmp("lt", a, b)
    return lt(a, b) if r is None else r


def cle(a, b):
    r = special_cmp("le", a, b)
    return le(a, b) if r is None else r


def ceq(a, b):
    r = special_cmp("eq", a, b)
    return req(a, b) if r is None else r


def approx_fold(a, b, p):
    """value of an approximate comparison that is decided whatever the exact tolerance"""
    if not (isinstance(a, Rat) and isinstance(b, Rat)):
        return None
    if eq(a, b):
        return R1
    ca, cb = a.const(), b.const()
    if ca is None or cb is None:
        return None
    d, big = abs(ca - cb), max(abs(ca), abs(cb))
    if not p or p[0] not in ("rel", "abs"):
        return R0 if d > Fraction(1, 1000) * big and d > Fraction(1, 1000) else None
    tol = [t.const() if isinstance(t, Rat) and t.const() is not None else Fraction(1, 10 ** 6) if isinstance(t, Rat) else None for t in p[1:]]
    if any(t is None for t in tol):
        return None
    lim = tol[0] if tol else Fraction(1, 10 ** 6)
    if p[0] == "rel" and len(tol) > 1:
        lim = max(lim, tol[1] * big)
    return R0 if d > lim else R1 if all(isinstance(t, Rat) and t.const() is not None for t in p[1:]) else None


def inherit(a, i, m, memo):
    for S in (NONNEG, POSITIVE, INTEG, UNK):
        if a in S:
            S.add(i)
    if a in IND:
        IND[i] = _obj_subst(IND[a], m, memo)
    if a in SQ:
        s = _psubst(SQ[a], m, memo)
        if not s.d:
            SQ[i] = s.n


def _obj_subst(x, m, memo):
    if isinstance(x, Rat):
        return subst(x, m, memo)
    if isinstance(x, Poly):
        r = _psubst(x, m, memo)
        return r.n if not r.d else r
    if isinstance(x, tuple):
        return tuple(_obj_subst(y, m, memo) for y in x)
    return x


def trig(kind, ang):
    """sin/cos of an angle with the exact values used for constant angles"""
    from math import pi
    c = ang.const()
    if c is not None:
        f = float(c)
        for k, (sv, cv) in ((0, (0, 1)), (1, (1, 0)), (2, (0, -1)), (3, (-1, 0)), (-1, (-1, 0)), (-2, (0, -1)), (4, (0, 1))):
            if f == k * pi / 2:
                return rc(sv if kind == "sin" else cv)
    s = atom_id(("sin", ang))
    co = atom_id(("cos", ang))
    if co not in SQ:
        SQ[co] = P1.add(patom(s).mul(patom(s)), -1)
    return Rat(patom(s if kind == "sin" else co))


# ---------------------------------------------------------------- bounded sums
RHO = atom_id(("rho",))
BRHO = atom_id(("brho",))    # the row index bound inside the identity of a whole matrix
for _a in (RHO, BRHO):
    INTEG.add(_a)
    NONNEG.add(_a)


def tau(depth):
    i = atom_id(("tau", depth))
    INTEG.add(i)
    NONNEG.add(i)
    return i


def sum_depth(r):
    d = 0
    for a in deps(r):
        if ATOMS[a][0] in ("sum", "exists", "gmax"):
            d = max(d, ATOMS[a][3] + 1)
    return d


def rsum(T, f, var):
    """sum over var in 0..T of f(var).  Normal form: split by linearity, with everything free of the
    bound variable pulled out."""
    if f.is_zero():
        return R0
    tc = T.const()
    if tc is not None and tc >= 0 and tc <= 64 and tc == int(tc):
        r = R0
        for i in range(int(tc)):
            r = add(r, subst(f, {var: rc(i)}))
        return r
    depth = sum_depth(f)
    tv = tau(depth)
    if tv != var:
        f = subst(f, {var: Rat(patom(tv))})
    return _rsum(T, f, tv, depth)


def gmax(T, f, var, init):
    """the largest of init and f(var) for var in 0..T"""
    tc = T.const()
    if tc is not None and tc <= 16 and tc == int(tc):
        r = init
        for i in range(int(tc)):
            x = subst(f, {var: rc(i)})
            p = lt(r, x)
            r = add(mul(p, x), mul(bnot(p), r))
        return r
    tv = tau(max(sum_depth(f), sum_depth(init)))
    if tv != var:
        f = subst(f, {var: Rat(patom(tv))})
    i = atom_id(("gmax", T, f, ATOMS[tv][1], init))
    if all(not x.d and is_nonneg_poly(x.n) for x in (f, init)):
        NONNEG.add(i)
    return Rat(patom(i))


def gmin(T, f, var, init):
    return neg(gmax(T, neg(f), var, neg(init)))


def _sum_case(n):
    """n = the sum over i < T of a condition or of something never negative  ->  (T, summand), else None"""
    T = None
    f, used = R0, {}
    for m, c in n.t.items():
        if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]][0] == "sum":
            k = ATOMS[m[0][0]]
            if T is not None and T != k[1]:
                return None
            T = k[1]
            f = add(f, mul(rc(c), subst(k[2], {tau(k[3]): Rat(patom(tau(93)))})))
            used[m] = c
    if T is None or T.d:
        return None
    rest = n.add(Poly({m: -c for m, c in used.items()}))
    if not rest.is_zero():
        l = T.n.lead()
        k = rest.t.get(l)
        if k is None or not rest.add(T.n.scale(-Fraction(k) / Fraction(T.n.t[l]))).is_zero():
            return None
        f = add(f, rc(Fraction(k) / Fraction(T.n.t[l])))
    if f.d:
        return None
    leaves, work = [], [f]
    while work:
        x = work.pop()
        ps = indicators(x.n)
        if ps:
            if len(leaves) + len(work) > 64:
                return None
            work += rsplit(x, ps[0])
        else:
            leaves.append(x)
    if all(not x.d and is_nonneg_poly(x.n) for x in leaves):
        return T, f, 1
    if all(not x.d and is_nonneg_poly(x.n.scale(-1)) for x in leaves):
        return T, f, -1
    return None


def _pos_gmax(n):
    """[c*max(init, f(i) for i < T) + rest > 0], with rest free of the maximum, as a condition on the items"""
    for m in n.t:
        if len(m) != 1 or m[0][1] != 1 or ATOMS[m[0][0]][0] != "gmax":
            continue
        a = m[0][0]
        c = n.t[m]
        rest = Rat(n.add(Poly({m: -c})))
        if any(a in atom_deps(x) for x in rest.n.atoms()):
            continue
        _, T, f, d, init = ATOMS[a]
        tv = tau(max(sum_depth(f), sum_depth(rest)))
        f = subst(f, {tau(d): Rat(patom(tv))})
        k = rc(c)
        if c > 0:
            return bor(pos(add(mul(k, init), rest)), exists(T, pos(add(mul(k, f), rest)), tv))
        return mul(pos(add(mul(k, init), rest)), bnot(exists(T, bnot(pos(add(mul(k, f), rest))), tv)))
    return None


def exists(T, f, var):
    """indicator: the condition f(var) holds for some var in 0..T.  Normal form: what does not depend on the bound variable is
    pulled out (Shannon expansion), what the range decides is decided."""
    if f.is_zero():
        return R0
    tc = T.const()
    if tc is not None and tc <= 16 and tc == int(tc):
        r = R0
        for i in range(int(tc)):
            r = bor(r, subst(f, {var: rc(i)}))
        return r
    global FACTS
    saved = FACTS
    d = sub(sub(T, R1), Rat(patom(var)))
    FACTS = saved + ([d.n] if not d.d else [])
    try:
        for a in indicators(f.n):
            key = ATOMS[a]
            if key[0] in ("pos", "zero") and var in atom_deps(a):
                c = (_pos if key[0] == "pos" else _zero)(Rat(key[1])).const()
                if c is not None:
                    r1, r0 = rsplit(f, a)
                    f = r1 if c else r0
    finally:
        FACTS = saved
    v = Rat(patom(var))
    for a in sorted(deps(f)):      # all elements of a matrix, column by column: some column has such an element
        k = ATOMS[a]
        if k[0] == "fn" and k[1] == "idiv" and k[2] == v:
            n = k[3]
            c = next((c for c in range(1, 9) if eq(T, mul(rc(c), n))), None)
            if c is None or var in deps(n):
                continue
            col, row = a, atom_id(("fn", "irem", v, n))
            fs = [subst(f, {col: rc(j), row: Rat(RHO_)}) for j in range(c) for RHO_ in [patom(tau(91))]]
            if any(var in deps(x) for x in fs):
                continue
            r = R0
            for x in fs:
                r = bor(r, x)
            return exists(n, r, tau(91))
    tv = tau(sum_depth(f))
    if tv != var:
        f = subst(f, {var: v if tv == var else Rat(patom(tv))})
    return _exists(T, f, tv)


def merge_exists(r):
    """some item satisfies a, or some item satisfies b  ->  some item satisfies a or b"""
    if r.d:
        return r
    groups = {}
    for a in indicators(r.n):
        if ATOMS[a][0] == "exists":
            groups.setdefault(ATOMS[a][1], []).append(a)
    for T, g in groups.items():
        if len(g) < 2:
            continue
        o, f = R0, R0
        for a in g:
            o = bor(o, Rat(patom(a)))
            f = bor(f, subst(ATOMS[a][2], {tau(ATOMS[a][3]): Rat(patom(tau(92)))}))
        m = exists(T, f, tau(92))
        r1 = subst(r, {a: R1 for a in g})
        r0 = subst(r, {a: R0 for a in g})
        if eq(r, add(mul(o, r1), mul(bnot(o), r0))):
            r = add(mul(m, r1), mul(bnot(m), r0))
    return r


def _exists(T, f, tv):
    if f.is_zero():
        return R0
    if tv not in deps(f):
        return mul(f, pos(T))
    for a in indicators(f.n):
        if tv not in atom_deps(a):
            r1, r0 = rsplit(f, a)
            x, y = _exists(T, r1, tv), _exists(T, r0, tv)
            return add(mul(Rat(patom(a)), x), mul(sub(R1, Rat(patom(a))), y))
    i = atom_id(("exists", T, f, ATOMS[tv][1]))
    IND.setdefault(i, None)
    NONNEG.add(i)
    return Rat(patom(i))


def _rsum(T, f, tv, depth):
    if f.is_zero():
        return R0
    dep = lambda a: tv in atom_deps(a)
    # separate denominator
    dout, din = {}, {}
    for p, e in f.d:
        (din if any(dep(a) for a in p.atoms()) else dout)[p] = e
    num = f.n
    res = R0
    if din:
        D = P1
        for p, e in din.items():
            D = D.mul(p.pow(e))
        qr = pdivrem(num, D)
        if qr is not None and not qr[0].is_zero():
            q, num = qr
            res = _rsum(T, Rat(q), tv, depth)
    groups = {}
    for m, c in num.t.items():
        inner = tuple((a, e) for a, e in m if dep(a))
        outer = tuple((a, e) for a, e in m if not dep(a))
        groups.setdefault(inner, {})[outer] = c
    for inner, co in groups.items():
        coef = Rat(Poly(co))
        if not inner and not din:
            res = add(res, mul(coef, T))
            continue
        body = _mk(Poly({inner: 1}), dict(din)) if din else Rat(Poly({inner: 1}))
        i = atom_id(("sum", T, body, depth))
        res = add(res, mul(coef, Rat(patom(i))))
    for p, e in dout.items():
        res = div(res, powi(Rat(p), e))
    return res


# ---------------------------------------------------------------- printing
def astr(a, depth=0):
    k = ATOMS[a]
    if depth > 3:
        return "…"
    kind = k[0]
    if kind == "var" or kind == "nat":
        return str(k[1])
    if kind == "tau":
        return "τ" + ("" if k[1] == 0 else str(k[1]))
    if kind in ("rho", "brho"):
        return "ρ"
    if kind == "it":
        return "it%s" % k[1]
    if kind == "sqrt":
        return "√(%s)" % poly_str(k[1], depth + 1)
    if kind == "pos":
        return "[%s>0]" % poly_str(k[1], depth + 1)
    if kind == "zero":
        return "[%s=0]" % poly_str(k[1], depth + 1)
    if kind == "hot":
        return "[%s is %s]" % (_ostr(k[1], depth + 1), k[2])
    if kind == "sum":
        return "Σ{τ<%s}(%s)" % (rat_str(k[1], depth + 1), rat_str(k[2], depth + 1))
    if kind == "gmax":
        return "max(%s, {τ<%s} %s)" % (rat_str(k[4], depth + 1), rat_str(k[1], depth + 1), rat_str(k[2], depth + 1))
    if kind == "exists":
        return "[some τ<%s: %s]" % (rat_str(k[1], depth + 1), rat_str(k[2], depth + 1))
    if kind == "read":
        return "%s[%s]" % (k[1], ",".join(_ostr(x, depth + 1) for x in k[2:]))
    return "%s(%s)" % (k[1] if kind == "fn" else kind, ",".join(_ostr(x, depth + 1) for x in k[(2 if kind == "fn" else 1):]))


def _ostr(x, depth):
    if isinstance(x, Rat):
        return rat_str(x, depth)
    if isinstance(x, Poly):
        return poly_str(x, depth)
    return str(x)


def poly_str(p, depth=0):
    if not p.t:
        return "0"
    parts = []
    for m in sorted(p.t, key=_mkey, reverse=True)[:12]:
        c = p.t[m]
        ms = "*".join(astr(a, depth) + ("^%d" % e if e > 1 else "") for a, e in m)
        if not ms:
            parts.append(str(c))
        elif c == 1:
            parts.append(ms)
        elif c == -1:
            parts.append("-" + ms)
        else:
            parts.append("%s*%s" % (c, ms))
    s = " + ".join(parts).replace("+ -", "- ")
    if len(p.t) > 12:
        s += " + …(%d terms)" % len(p.t)
    return s


def rat_str(r, depth=0):
    s = poly_str(r.n, depth)
    if r.d:
        ds = "*".join("(%s)%s" % (poly_str(f, depth), "^%d" % e if e > 1 else "") for f, e in r.d)
        s = "(%s) / %s" % (s, ds)
    return s


def has_unk(r):
    """does it depend on unknown values, or on loop variables no summary was found for?"""
    d = deps(r)
    return bool(d & UNK) or any(ATOMS[a][0] == "lv" for a in d)


def pderiv(p, a):
    """derivative of a polynomial by an atom that occurs in no other atom"""
    r = P0
    for m, c in p.t.items():
        for x, e in m:
            if x == a:
                k = Poly({m: c * e})
                q, rem = pdivrem(k, patom(a))
                r = r.add(q)
    return r


def deriv(r, a):
    for x in rat_atoms(r):
        if x != a and (a in atom_deps(x)):
            raise Blowup("derivative through %s" % (ATOMS[x],))
    n = Rat(pderiv(r.n, a), r.d)
    out = n
    for f, e in r.d:
        df = pderiv(f, a)
        out = sub(out, mul(mul(r, rc(e)), div(Rat(df), Rat(f))))
    return out


# ---------------------------------------------------------------- differences of form only
def _ground_ints(d):
    """the integer variables d's conditions and integer functions speak of"""
    inner = set()
    for a in deps(d):
        k = ATOMS[a]
        if k[0] in ("pos", "zero") and _int_only(k[1]) or k[0] == "fn" and k[1] in ("idiv", "irem", "ceil", "ceil_div"):
            for x in k[1:]:
                for y in _obj_atoms(x):
                    inner |= atom_deps(y)
    return sorted(a for a in inner if a in INTEG and atom_deps(a) == {a} and ATOMS[a][0] not in ("tau", "lv"))


def _int_consts(d, facts):
    ks = set()

    def poly(p):
        for m, c in p.t.items():
            for v in ((c.numerator, c.denominator) if isinstance(c, Fraction) else (c,)):
                if abs(v) <= 10 ** 7:
                    ks.add(abs(int(v)))
    for a in deps(d):
        k = ATOMS[a]
        if k[0] in ("pos", "zero"):
            if _int_only(k[1]):
                poly(k[1])
        elif k[0] == "fn" and k[1] in ("idiv", "irem", "ceil", "ceil_div"):
            for x in k[2:]:
                if isinstance(x, Rat):
                    poly(x.n)
    for f in facts:
        poly(f)
    return ks


def of_form_only(d, facts=(), budget=8.0):
    """d could not be shown to vanish, but does so for every choice of the integers it distinguishes among small
    numbers and those near the constants that occur, subject to facts (each >= 0).  Then what is missing is an
    argument about integers, not an equality."""
    import time
    vs = _ground_ints(d)
    if not vs or len(vs) > 4:
        return False
    ks = _int_consts(d, facts)
    vals = set(range(0, 7 if len(vs) > 2 else 11))
    for k in ks:
        vals |= {k - 1, k, k + 1, 2 * k, 2 * k + 1}
    vals = sorted(v for v in vals if v >= 0)[:40 if len(vs) < 3 else 14]
    t0 = time.time()
    fs = [Rat(f) for f in facts]
    seen = 0
    from itertools import product
    # the number of rows first, then what lies below it; every third combination of larger ones is enough
    combos = sorted(product(vals, repeat=len(vs)), key=lambda c: (max(c), sum(c)))
    if len(combos) > 1500:
        step = len(combos) // 1200 + 1
        combos = combos[:300] + combos[300::step]
    n = next((a for a in vs if ATOMS[a][0] == "nat"), None)
    for combo in combos:
        if time.time() - t0 > budget:
            break
        m = {a: rc(v) for a, v in zip(vs, combo)}
        if n is not None and RHO in m and m[RHO].const() >= m[n].const():
            continue
        bad = False
        for f in fs:
            c = subst(f, m).const()
            if c is not None and c < 0:
                bad = True
                break
        if bad:
            continue
        seen += 1
        x = subst(d, m)
        if not x.is_zero() and not eq_int(x, R0):
            return False
    return seen >= 20
