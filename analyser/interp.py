"""Forward value-flow analysis of MIR.

One pass over each function's control-flow graph in topological order.  At merge points the states
of the predecessors are joined with gated phis (b + chi*(a-b), chi the branch condition's 0/1
indicator), so there is a single abstract state per program point - paths are not enumerated.
Loops whose trip count is a constant are unrolled; all others are summarised by solving the
recurrences of the values the body changes (induction variables, row-wise stores, accumulators).
"""
import itertools
import alg
from alg import Rat, R0, R1, rc, gamma, subst, RHO
from values import *
from facts import tysub, unify, dimof, nat

UNROLL = 70


UNDEFINED = alg.ratom(("fn", "nan"))


class State:
    __slots__ = ("cells", "pc")

    def __init__(self, cells=None, pc=R1):
        self.cells = cells if cells is not None else {}
        self.pc = pc

    def copy(self):
        return State(dict(self.cells), self.pc)


class Frame:
    __slots__ = ("fn", "body", "cfg", "base", "env", "active", "promoted")

    def __init__(self, fn, body, cfg, base, env):
        self.fn, self.body, self.cfg, self.base, self.env = fn, body, cfg, base, env
        self.active = set()


class Diverge(Exception):
    """no path returns"""


_ids = itertools.count(1)

XYZ = {"x": 0, "y": 1, "z": 2, "w": 3, "a": 4, "b": 5}
IJKW = {"i": 0, "j": 1, "k": 2, "w": 3}


def literals(c):
    """atoms forced by c being true: [(atom, 0/1)]"""
    if c.const() is not None:
        return []
    out = []
    for a in alg.indicators(c.n):
        c1, c0 = alg.rsplit(c, a)
        if c0.is_zero():
            out.append((a, 1))
        elif c1.is_zero():
            out.append((a, 0))
    return out


def assume(r, lits):
    for a, v in lits:
        if a in r.n.atoms():
            r1, r0 = alg.rsplit(r, a)
            r = r1 if v else r0
        elif v and alg.IND[a] is not None:
            g = alg.IND[a]
            for b in r.n.atoms():
                if b in alg.IND and alg.IND[b] == g and b != a:
                    r = alg.rsplit(r, b)[1]
    return r


class Paths:
    """one path through the input-dependent branches; conditions are decided where they are first met and every
    assignment of them is explored in turn"""

    def __init__(self, limit=40):
        self.prefix, self.lits, self.left = [], [], limit

    def eligible(self, a):
        k = alg.ATOMS[a]
        if k[0] in ("pos", "zero") and alg._int_only(k[1]):
            return False        # (counts: loops run on those)
        for b in alg.atom_deps(a):
            k = alg.ATOMS[b]
            if k[0] in ("lv", "tau", "rho", "it") or k[0] == "lv":
                return False
        return True

    def decide(self, c):
        c = assume(c, self.lits)
        while c.const() is None:
            a = next((a for a in sorted(alg.indicators(c.n)) if self.eligible(a)), None)
            if a is None:
                break
            i = len(self.lits)
            if i < len(self.prefix):
                if self.prefix[i][0] != a:
                    raise Undef("paths are not reproducible")
            else:
                self.prefix.append((a, 1))
            self.lits.append(self.prefix[i])
            c = assume(c, self.lits[-1:])
        return c

    def pc(self):
        r = R1
        for a, v in self.lits:
            x = Rat(alg.patom(a))
            r = alg.mul(r, x if v else alg.bnot(x))
        return r

    def advance(self):
        """to the next path; False when all have been taken"""
        self.prefix, self.lits = self.lits, []
        self.left -= 1
        if self.left < 0:
            raise alg.Blowup("too many paths")
        while self.prefix and self.prefix[-1][1] == 0:
            self.prefix.pop()
        if not self.prefix:
            return False
        self.prefix[-1] = (self.prefix[-1][0], 0)
        return True


INTS = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128, "i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64, "i128": 128}


class Interp:
    paths = None

    def __init__(self, facts):
        self.F = facts
        self.obl = []           # undischarged or discharged obligations
        self.unmodelled = {}    # callee -> count
        self.visited = {}       # function id -> number of analyses
        self.calls = 0
        self.stack = []         # frames (function pretty names)
        self.pcs = []
        self.stmts = 0
        self.loops_done = {}
        self.ncmp = []          # partial comparisons of numbers: (fn, span, left, right)
        self.divs = []          # divisions performed: (fn, span, divisor)
        self.trees = []         # abstract serialised values
        self.builders = []      # fields given to formatting helpers: (condition, entry)
        self.printed = []       # what was written to formatters, in order
        self.pinvs = []         # pseudo-inverses taken: (svd, eps, span)
        self.serde = []         # serde calls seen
        self.hooks = {}         # fn id or callee pretty -> python handler
        self.budget = 4_000_000
        import models
        self.M = models.Models(self)

    # ------------------------------------------------------------------ memory
    def new_cell(self, st, v):
        c = next(_ids)
        st.cells[c] = v
        return c

    def temp(self, st, v):
        return Ref(self.new_cell(st, v))

    def project(self, v, e):
        k = e[0]
        if v is None:
            raise Undef("read of an undefined value (%s)" % (e,))
        if isinstance(v, MView) and k in ("e", "f"):
            raise Undef("field of a view")
        if k == "f":
            return self.M.field(v, e[1])
        if k == "v":
            if isinstance(v, En):
                return St("variant", v.v.get(e[1], {}))
            if isinstance(v, Op):
                return Op(("v", v.k, e[1]), None, v.unk)
            raise Undef("downcast of %r" % (v,))
        if k == "i":
            i = e[1]
            if isinstance(v, Ar):
                n = toint(i)
                if isinstance(n, int):
                    if 0 <= n < len(v.x):
                        return v.x[n]
                    raise Undef("array index out of range")
                r = v.x[-1]
                for j in range(len(v.x) - 1):
                    r = vgamma(alg.req(i, rc(j)), v.x[j], r)
                return r
            if isinstance(v, Fam):
                return v.at(torat(i))
            if isinstance(v, Mat):
                return self.M.mat_lin(v, i)
            raise Undef("index of %s" % type(v).__name__)
        if k == "e":
            v = self.M.as_mat(v)
            return v.get(e[1], e[2])
        if k == "sub":
            v = self.M.as_mat(v)
            return self.M.submat(v, *e[1:])
        raise Undef("projection %s" % (e,))

    def inject(self, v, e, x):
        k = e[0]
        if k == "f":
            return self.M.set_field(v, e[1], x)
        if k == "v":
            if isinstance(v, En):
                vs = dict(v.v)
                vs[e[1]] = x.f
                return En(v.n, v.d, vs)
            raise Undef("store into a variant of %r" % (v,))
        if k == "i":
            i = toint(e[1])
            if isinstance(v, Ar):
                if isinstance(i, int):
                    l = list(v.x)
                    l[i] = x
                    return Ar(l)
                return Ar([vgamma(alg.req(e[1], rc(j)), x, y) for j, y in enumerate(v.x)])
            if isinstance(v, Fam):
                rho = Rat(alg.patom(RHO))
                return Fam(v.len, vgamma(alg.req(rho, torat(e[1])), x, v.t))
            if isinstance(v, Mat):
                r, c = self.M.lin_rc(v, e[1])
                return v.set(r, c, x)
            raise Undef("indexed store into %s" % type(v).__name__)
        if k == "e":
            w = self.M.as_mat(v)
            return self.M.like(v, w.set(e[1], e[2], x))
        if k == "sub":
            w = self.M.as_mat(v)
            return self.M.like(v, self.M.set_submat(w, *e[1:], x))
        raise Undef("injection %s" % (e,))

    def load(self, st, r):
        if isinstance(r, RV):
            return r.v
        if isinstance(r, CRef):
            return vgamma(r.c, self.load(st, r.a), self.load(st, r.b))
        if isinstance(r, Ref):
            v = st.cells.get(r.cell)
            for e in r.path:
                v = self.project(v, e)
            return v
        if isinstance(r, MView):
            return self.project(self.load(st, r.ref), ("sub", r.r0, r.c0, r.nr, r.nc))
        raise Undef("load through %r" % (r,))

    def store(self, st, r, x):
        if isinstance(r, CRef):
            a, b = self.load(st, r.a), self.load(st, r.b)
            self.store(st, r.a, vgamma(r.c, x, a))
            b = self.load(st, r.b)
            self.store(st, r.b, vgamma(r.c, b, x))
            return
        if isinstance(r, MView):
            self.store(st, Ref(r.ref.cell, r.ref.path + (("sub", r.r0, r.c0, r.nr, r.nc),)), x)
            return
        if not isinstance(r, Ref):
            raise Undef("store through %r" % (r,))
        st.cells[r.cell] = self._put(st.cells.get(r.cell), r.path, x)

    def _put(self, v, path, x):
        if not path:
            return x
        e = path[0]
        if len(path) == 1:
            return self.inject(v, e, x)
        if v is None:
            raise Undef("store into undefined")
        return self.inject(v, e, self._put(self.project(v, e), path[1:], x))

    def deref(self, st, v):
        """load through any number of references"""
        while isinstance(v, (Ref, RV, CRef)):
            v = self.load(st, v)
        return v

    # ------------------------------------------------------------------ places / operands
    def place(self, fr, st, p):
        cur = Ref(fr.base + p["l"])
        for e in p["p"]:
            k = e["k"]
            if k == "deref":
                v = self.load(st, cur)
                if isinstance(v, (Ref, RV, CRef)):
                    cur = v
                elif isinstance(v, Op):
                    cur = RV(Op(("deref", v.k), None, v.unk))
                elif isinstance(v, Str):
                    cur = RV(v)
                elif v is None:
                    raise Undef("deref of undefined")
                else:
                    raise Undef("deref of %s" % type(v).__name__)
                continue
            if k == "field":
                pe = ("f", e["n"])
            elif k == "downcast":
                pe = ("v", e["v"])
            elif k == "index":
                pe = ("i", torat(st.cells.get(fr.base + e["l"])))
            elif k == "cindex":
                if e["end"]:
                    ln = self.M.length(self.load(st, cur))
                    pe = ("i", alg.sub(torat(ln), rc(e["o"])))
                else:
                    pe = ("i", rc(e["o"]))
            else:
                raise Undef("projection " + k)
            cur = self.extend(cur, pe)
        return cur

    def extend(self, r, pe):
        if isinstance(r, Ref):
            return Ref(r.cell, r.path + (pe,))
        if isinstance(r, RV):
            return RV(self.project(r.v, pe))
        if isinstance(r, CRef):
            return CRef(r.c, self.extend(r.a, pe), self.extend(r.b, pe))
        raise Undef("extend %r" % (r,))

    def operand(self, fr, st, o):
        k = o["k"]
        if k in ("copy", "move"):
            return self.load(st, self.place(fr, st, o["p"]))
        if k == "const":
            return self.const(fr, st, o["c"])
        raise Undef("operand " + str(o))

    def const(self, fr, st, c):
        k = c["k"]
        if k == "int":
            return rc(c["v"])
        if k == "bool":
            return R1 if c["v"] else R0
        if k == "float":
            v = c["v"]
            if v in ("inf", "-inf", "NaN"):
                return alg.fn("const_" + v)
            from fractions import Fraction
            return Rat(alg.pconst(Fraction(float(v))))
        if k == "str":
            return Str(c["v"])
        if k == "fn":
            return FnV(c["f"], fr.env)
        if k == "promoted":
            f = self.F.fns.get(c["id"])
            if f is None:
                raise Undef("promoted of " + c["id"])
            return self.run_body(f, f["promoted"][c["p"]], [], fr.env, st, tag="p%d" % c["p"])
        if k == "zst":
            return self.M.zst(c["ty"], fr.env)
        if k == "char":
            return rc(c["v"])
        if k == "const" and c.get("def"):
            f = self.F.fns.get(c["def"])
            if f is not None:
                return self.run_body(f, f["body"], [], fr.env, st)
            ty = tysub(c["ty"], fr.env)
            return self.M.opaque(ty, ("const", c["def"]))
        if k == "static" and c["s"]["freeze"] and not (c["s"]["mut"] or c["s"]["tls"] or c["s"]["foreign"]):
            f = self.F.fns.get(c["s"]["id"])
            if f is not None:
                return RV(self.run_body(f, f["body"], [], {}, st))
        if k == "const" or k == "scalar" or k == "bytes":
            return self.M.opaque(tysub(c["ty"], fr.env), ("const", c.get("d") or c.get("v")))
        raise Undef("const " + str(c))

    # ------------------------------------------------------------------ statements
    def rvalue(self, fr, st, r, span):
        k = r["k"]
        if k == "use":
            return self.operand(fr, st, r["o"])
        if k in ("ref", "rawptr"):
            if k == "rawptr":
                self.note_unsafe = True
            return self.place(fr, st, r["p"])
        if k == "agg":
            ops = [self.operand(fr, st, o) for o in r["ops"]]
            ak = r["ak"]
            if ak == "tuple":
                return tup(*ops)
            if ak == "array":
                return Ar(ops)
            if ak == "closure":
                return Clo(r["id"], ops, fr.env)
            if ak == "adt":
                fs = dict(zip(r["fields"], ops))
                if r["enum"]:
                    return En(r["n"], rc(r["v"]), {r["v"]: fs})
                return self.M.make_struct(r["n"], fs)
            raise Undef("aggregate " + ak)
        if k == "repeat":
            n = r["n"]["v"]
            v = self.operand(fr, st, r["o"])
            if not isinstance(n, int):
                d = dimof(tysub(r["n"], fr.env))
                d = toint(d) if d is not None else None
                if not isinstance(d, int):
                    raise Undef("array of symbolic length")
                n = d
            return Ar([v] * n)
        if k == "bin":
            a, b = self.operand(fr, st, r["l"]), self.operand(fr, st, r["r"])
            return self.binop(fr, st, r["op"], a, b, span, self.prim(fr, r["l"]) or self.prim(fr, r["r"]))
        if k == "un":
            a = self.operand(fr, st, r["o"])
            op = r["op"]
            if op == "Not":
                ty = self.prim(fr, r["o"])
                if isinstance(a, Rat):
                    if ty in INTS:
                        # the complement: -1 - a, modulo the width
                        x = alg.sub(rc(-1), a)
                        return x if ty[0] == "i" else alg.add(x, rc(1 << INTS[ty]))
                    return alg.bnot(a)
            if op == "Neg":
                return alg.neg(a)
            if op == "PtrMetadata":
                return torat(self.M.length(self.deref(st, a)))
            raise Undef("unary " + op)
        if k == "discr":
            v = self.load(st, self.place(fr, st, r["p"]))
            if isinstance(v, En):
                return v.d
            if isinstance(v, Op):
                return alg.fn("discr", vkey(v))
            raise Undef("discriminant of %r" % (v,))
        if k == "cast":
            v = self.operand(fr, st, r["o"])
            if r["ck"] == "IntToInt":
                return self.int_cast(v, self.prim(fr, r["o"]), tysub(r["ty"], fr.env).get("n"))
            return self.cast(v, r["ck"], tysub(r["ty"], fr.env), r["o"], fr)
        raise Undef("rvalue " + k)

    def prim(self, fr, o):
        """name of the primitive type of an operand, where it is known"""
        if o["k"] == "const":
            t = tysub(o["c"]["ty"], fr.env) if o["c"].get("ty") else None
        else:
            t = self.place_ty(fr, o["p"])
            if t is None and [e["k"] for e in o["p"]["p"]] == ["deref"]:
                t = tysub(fr.body["locals"][o["p"]["l"]]["ty"], fr.env).get("e")
        return t["n"] if t is not None and t.get("t") == "prim" else None

    def int_cast(self, v, src, dst):
        """to the 8 and 16 bit types the value is reduced modulo the width; the wider ones hold every row count and index"""
        if not isinstance(v, Rat) or dst not in INTS or INTS[dst] > 16 or src == "bool":
            return v
        if src in INTS and INTS[src] <= INTS[dst] and (src[0] == dst[0] or src[0] == "u" and INTS[src] < INTS[dst]):
            return v
        n, w = INTS[dst], 1 << INTS[dst]
        c = v.const()
        if c is not None:
            c = int(c) % w
            return rc(c - w if dst[0] == "i" and c >= w // 2 else c)
        lo, hi = (0, w - 1) if dst[0] == "u" else (-w // 2, w // 2 - 1)
        if not v.d and alg.prove_ge0(v.n.add(alg.pconst(-lo))) and alg.prove_ge0(v.n.scale(-1).add(alg.pconst(hi))):
            return v
        if dst[0] == "u" and not v.d and alg.prove_ge0(v.n):
            return self.intfn("irem", v, rc(w))
        return self.intfn("wrap_" + dst, v)

    def cast(self, v, ck, ty, o, fr):
        if ck.startswith("PointerCoercion") or ck.startswith("PtrToPtr") or ck.startswith("Transmute") and not isinstance(v, Rat):
            return v
        if ck == "FloatToFloat":
            if ty.get("n") == "f32" and v.const() is None:
                return alg.fn("narrow_f32", v)
            return v
        if ck == "IntToFloat":
            if ty.get("n") == "f32" and v.const() is None:
                return alg.fn("narrow_f32", v)
            return v
        if ck == "FloatToInt":
            c = v.const()
            if c is not None and c == int(c):
                return v
            return self.intfn("f2i", v)
        if ck == "IntToInt":
            return v
        raise Undef("cast " + ck)

    def intfn(self, name, *args):
        if name == "irem" and isinstance(args[0], Rat) and isinstance(args[1], Rat) and (args[1].const() or 0) >= 1:
            return alg.sub(args[0], alg.mul(args[1], self.intfn("idiv", *args)))
        if name in ("idiv", "ceil") and isinstance(args[0], Rat) and alg.indicators(args[0].n):
            return alg.lift(args[0], lambda x: self.intfn(name, x, *args[1:]))
        if name == "ceil" and self.is_int(args[0]):
            return args[0]
        r = alg.fn(name, *args)
        for a in alg.rat_atoms(r):
            alg.INTEG.add(a)
            alg.NONNEG.add(a)
        return r

    def bitop(self, o, a, b, ty):
        """shifts and bitwise operations on integers, as far as they are arithmetic"""
        ca, cb = a.const(), b.const()
        if ca is not None and cb is not None and ty in INTS:
            x, y, w = int(ca), int(cb), INTS[ty]
            r = {"Shl": lambda: x << (y % w), "Shr": lambda: x >> (y % w), "BitAnd": lambda: x & y, "BitOr": lambda: x | y, "BitXor": lambda: x ^ y}[o]()
            r %= 1 << w
            return rc(r - (1 << w) if ty[0] == "i" and r >= 1 << (w - 1) else r)
        nonneg = lambda v: ty is not None and ty[0] == "u" or not v.d and alg.prove_ge0(v.n)
        if o == "Shl" and cb is not None and 0 <= cb < 64:
            return alg.mul(a, rc(1 << int(cb)))
        if o == "Shr" and cb is not None and 0 <= cb < 64 and nonneg(a):
            return self.intfn("idiv", a, rc(1 << int(cb)))
        if o == "BitAnd":
            if ca is not None:
                a, b, ca, cb = b, a, cb, ca
            if cb is not None and nonneg(a) and cb >= 0:
                k, full = int(cb), 1 << (INTS.get(ty) or 64)
                if k & (k + 1) == 0:
                    return self.intfn("irem", a, rc(k + 1))
                if (full - 1 - k) & (full - k) == 0:        # all but the lowest bits
                    return alg.sub(a, self.intfn("irem", a, rc(full - k)))
        return self.intfn("bits_" + o, a, b)

    def binop(self, fr, st, op, a, b, span, ty=None):
        ov = op.endswith("WithOverflow")
        o = op[:-len("WithOverflow")] if ov else op
        if o.endswith("Unchecked"):
            o = o[:-len("Unchecked")]
        if not isinstance(a, Rat) or not isinstance(b, Rat):
            if o in ("Eq", "Ne"):
                r = alg.fn("eq", vkey(a), vkey(b))
                return r if o == "Eq" else alg.bnot(r)
            raise Undef("binary %s on %s/%s" % (op, type(a).__name__, type(b).__name__))
        flag = R0
        if o == "Add":
            r = alg.add(a, b)
        elif o == "Sub":
            r = alg.sub(a, b)
            if ov:
                flag = alg.pos(alg.neg(r))
        elif o == "Mul":
            r = alg.mul(a, b)
        elif o == "Div":
            if self.is_int(a) and self.is_int(b) and ty not in ("f64", "f32"):
                ca, cb = a.const(), b.const()
                r = rc(abs(int(ca)) // abs(int(cb)) * (1 if (ca < 0) == (cb < 0) else -1)) if ca is not None and cb else self.intfn("idiv", a, b)
            else:
                r = self.divide(a, b, fr, span)
        elif o == "Rem":
            ca, cb = a.const(), b.const()
            if ca is not None and cb:
                r = rc(abs(ca) % abs(cb) * (-1 if ca < 0 else 1))
            elif ty in ("f64", "f32") or not (self.is_int(a) and self.is_int(b)):
                r = alg.fn("frem", a, b)
            else:
                r = self.intfn("irem", a, b)
        elif o in ("Shl", "Shr") or o in ("BitAnd", "BitOr", "BitXor") and (ty in INTS or ty is None and not all(alg.eq(alg.mul(x, x), x) for x in (a, b))):
            r = self.bitop(o, a, b, ty)
        elif o == "Lt":
            return alg.clt(a, b)
        elif o == "Gt":
            return alg.clt(b, a)
        elif o == "Le":
            return alg.cle(a, b)
        elif o == "Ge":
            return alg.cle(b, a)
        elif o == "Eq":
            return alg.ceq(a, b)
        elif o == "Ne":
            return alg.bnot(alg.ceq(a, b))
        elif o == "BitAnd":
            r = alg.mul(a, b)
        elif o == "BitOr":
            r = alg.bor(a, b)
        elif o == "BitXor":
            r = alg.sub(alg.add(a, b), alg.mul(rc(2), alg.mul(a, b)))
        else:
            raise Undef("binary " + op)
        return tup(r, flag) if ov else r

    def is_int(self, r):
        return not r.d and alg._int_only(r.n)

    def divide(self, a, b, fr=None, span=None):
        self.divs.append((self.stack[-1] if self.stack else None, span if span else self.cur_span, b, list(self.pcs), self.cur_pc))
        if b.n.is_zero():
            return alg.div(a, b) if not a.n.is_zero() else UNDEFINED
        if not b.d and any(x in alg.IND for x in b.n.atoms()):
            z = alg.lift(b, lambda x: R1 if x.n.is_zero() else R0)
            if not z.is_zero():     # the divisor is literally zero in some cases: no number there
                return gamma(z, UNDEFINED, alg.div(a, b))
        return alg.div(a, b)

    cur_span = None
    cur_pc = R1
    _tag = 0

    def iter_tag(self):
        return self._tag

    # ------------------------------------------------------------------ obligations
    def oblige(self, kind, fail, st, span, detail=""):
        """`fail` must be impossible here"""
        c = fail.const()
        ok = c == 0
        if not ok:
            ok = self.discharge(fail, st.pc)
        self.obl.append(dict(kind=kind, fn=self.stack[-1] if self.stack else None, span=span, ok=ok,
                             fail=fail, pc=st.pc, pcs=list(self.pcs), detail=detail, stack=list(self.stack), facts=list(alg.FACTS) + [g.n for g in self.guards]))

    def pc_facts(self, pcs):
        out = []
        for pc in pcs:
            lits = literals(pc)
            nonzero = {key[1] for key in (alg.ATOMS[a] for a, v in lits if not v) if key[0] == "zero"}
            for a, v in lits:
                key = alg.ATOMS[a]
                if key[0] == "pos":
                    m = key[1]
                    ints = alg._int_only(m)
                    if v:
                        out.append(m.add(alg.pconst(-1)) if ints else m)
                    else:
                        out.append(m.scale(-1).add(alg.pconst(-1)) if ints and m in nonzero else m.scale(-1))
                elif key[0] == "zero" and v:
                    out.append(key[1])
                    out.append(key[1].scale(-1))
            for m in nonzero:
                # an integer that is not 0 and not negative is at least 1
                if alg._int_only(m):
                    for x in (m, m.scale(-1)):
                        if alg.prove_ge0(x):
                            out.append(x.add(alg.pconst(-1)))
            known = {a for a, v in lits}
            if pc.const() is None:
                inds = set(alg.indicators(pc.n))
                for a in inds - known:
                    key = alg.ATOMS[a]
                    if key[0] != "pos":
                        continue
                    rest = alg.rsplit(pc, a)[1]     # not positive
                    for b in inds:
                        if alg.ATOMS[b][0] == "zero" and alg.ATOMS[b][1] in (key[1], key[1].scale(-1)):
                            rest = alg.rsplit(rest, b)[1]
                    if rest.is_zero():
                        out.append(key[1])          # ... nor negative is excluded: m >= 0
        return out

    def discharge(self, fail, pc):
        pcs = self.pcs + [pc]
        total = fail
        lits = list(self.paths.lits) if self.paths else []
        for p in pcs:
            lits += literals(p)
        total = assume(total, lits)
        if total.is_zero():
            return True
        facts = self.pc_facts(pcs)
        saved = alg.FACTS
        alg.FACTS = saved + facts
        try:
            total = self.resimplify(total)
            if total.is_zero() or self.guards and self.under_guards(total, self.guards, [80]):
                return True
            for p in reversed(pcs):
                if len(total.n.t) * len(p.n.t) > 400:
                    break
                total = alg.mul(total, p)
                if total.is_zero():
                    return True
            total = self.resimplify(total)
            return total.is_zero() or bool(self.guards) and self.under_guards(total, self.guards, [40])
        finally:
            alg.FACTS = saved

    guards = ()     # quantities with conditions in them, known >= 0: bounds of the surrounding loops

    def under_guards(self, total, guards, budget):
        """total = 0 in every case of the conditions in the bounds of the surrounding loops"""
        if total.is_zero():
            return True
        budget[0] -= 1
        if budget[0] < 0:
            return False
        saved = alg.FACTS
        m = next((k[1] for g in guards for k in (alg.ATOMS[a] for a in alg.indicators(g.n)) if k[0] in ("pos", "zero") and alg._int_only(k[1])), None)
        try:
            if m is None:
                alg.FACTS = saved + [g.n for g in guards if not g.d]
                return alg.prove_ge0(alg.pconst(-1), force=True) or self.resimplify(total).is_zero()
            for case in (0, 1, -1):
                alg.FACTS = saved
                c = alg._case(m, case, total)
                if c is None:
                    continue
                gs = [alg._case(m, case, g) for g in guards]
                alg.FACTS = saved + c[0]
                if not self.under_guards(c[1], [g[1] for g in gs if g is not None], budget):
                    return False
            return True
        finally:
            alg.FACTS = saved

    def resimplify(self, r):
        for a in alg.indicators(r.n):
            key = alg.ATOMS[a]
            if key[0] in ("pos", "zero"):
                v = (alg._pos if key[0] == "pos" else alg._zero)(Rat(key[1]))
                c = v.const()
                if c is not None:
                    r1, r0 = alg.rsplit(r, a)
                    r = r1 if c else r0
                elif key[0] == "pos" and alg.prove_ge0(key[1]):
                    # not negative: positive exactly where it is not zero
                    r1, r0 = alg.rsplit(r, a)
                    r = gamma(alg._zero(Rat(key[1])), r0, r1)
        return r

    # ------------------------------------------------------------------ control flow
    def merge(self, a, b):
        c = alg.add(a.pc, b.pc)
        lits = literals(c)
        sel = assume(a.pc, lits)
        if sel.const() is None and c.const() is None:
            pass
        cells = {}
        ca, cb = a.cells, b.cells
        for k in ca.keys() | cb.keys():
            x, y = ca.get(k), cb.get(k)
            if x is y:
                cells[k] = x
            else:
                cells[k] = vgamma(sel, x, y)
        return State(cells, c)

    def add(self, d, bb, st):
        if bb in d:
            d[bb] = self.merge(d[bb], st)
        else:
            d[bb] = st

    def region(self, fr, start, st, stops):
        """propagate from `start` (processed even if in stops); returns {stop or 'RET': state}"""
        pending = {start: st}
        res = {}
        first = True
        while pending:
            bb = min(pending, key=lambda b: fr.cfg.rpo[b]) if not first else start
            s = pending.pop(bb)
            outs = None
            if bb in fr.cfg.loops and bb not in fr.active:
                outs = self.loop(fr, bb, s)
            else:
                outs = self.block(fr, bb, s)
            first = False
            for tgt, s2 in outs:
                if s2.pc.is_zero():
                    continue
                if tgt == "RET" or tgt in stops:
                    self.add(res, tgt, s2)
                else:
                    self.add(pending, tgt, s2)
        return res

    def block(self, fr, bb, st):
        b = fr.body["blocks"][bb]
        for s in b["s"]:
            self.stmts += 1
            self.budget -= 1
            if self.budget < 0:
                raise Undef("analysis budget exhausted")
            self.cur_span = s["s"]
            self.cur_pc = st.pc
            if s["k"] == "assign":
                try:
                    v = self.rvalue(fr, st, s["r"], s["s"])
                except Undef as e:
                    v = self.undef_value(fr, s["p"], e, s["s"])
                try:
                    self.store(st, self.place(fr, st, s["p"]), v)
                except Undef as e:
                    self.undef_store(fr, st, s["p"], e, s["s"])
            elif s["k"] == "setdiscr":
                r = self.place(fr, st, s["p"])
                v = self.load(st, r)
                if isinstance(v, En):
                    self.store(st, r, En(v.n, rc(s["v"]), v.v))
            elif s["k"] == "intrinsic":
                if not s["d"].startswith("Assume"):
                    self.note(fr, "intrinsic " + s["d"][:40])
        t = b["t"]
        self.cur_span = t.get("s")
        self.cur_pc = st.pc
        return self.terminator(fr, st, t)

    def note(self, fr, what):
        self.unmodelled[what] = self.unmodelled.get(what, 0) + 1

    def place_ty(self, fr, p):
        if p["p"]:
            for e in reversed(p["p"]):
                if e["k"] == "field":
                    return tysub(e["ty"], fr.env)
                break
            return None
        return tysub(fr.body["locals"][p["l"]]["ty"], fr.env)

    def undef_value(self, fr, p, e, span):
        self.note(fr, "%s at %s" % (e, span))
        ty = self.place_ty(fr, p)
        return self.M.opaque(ty, ("undef", span, str(e)), unk=True)

    def undef_store(self, fr, st, p, e, span):
        self.note(fr, "%s at %s" % (e, span))
        # lose the whole root object
        root = fr.base + p["l"]
        cur = Ref(root)
        try:
            for el in p["p"]:
                if el["k"] == "deref":
                    v = self.load(st, cur)
                    if isinstance(v, Ref):
                        root = v.cell
                        cur = v
                    break
        except Undef:
            pass
        st.cells[root] = Op(("unk", alg.fn("undefstore", span, unk=True)), None, True)

    def terminator(self, fr, st, t):
        k = t["k"]
        if k in ("goto", "drop"):
            return [(t["t"], st)]
        if k == "return":
            return [("RET", st)]
        if k in ("unreachable", "unwind"):
            return []
        if k == "assert":
            try:
                c = self.operand(fr, st, t["o"])
                fail = alg.bnot(c) if t["exp"] else c
            except Undef:
                fail = alg.fn("undef_assert", t["s"], unk=True)
            m = t["msg"]
            self.oblige("assert:" + m["m"] + (":" + m["op"] if m.get("op") else ""), fail, st, t["s"])
            return [(t["t"], st)]
        if k == "switch":
            try:
                d = self.operand(fr, st, t["o"])
            except Undef as e:
                self.note(fr, "%s at %s" % (e, t.get("s")))
                d = alg.fn("undefswitch", t.get("s"), unk=True)
            if not isinstance(d, Rat):
                d = alg.fn("discr", vkey(d))
            return self.switch(fr, st, d, t)
        if k == "call":
            return self.call_term(fr, st, t)
        raise Undef("terminator " + k)

    def switch(self, fr, st, d, t):
        o = t["o"]
        isbool = False
        if o["k"] in ("copy", "move") and not o["p"]["p"]:
            ty = fr.body["locals"][o["p"]["l"]]["ty"]
            isbool = ty.get("n") == "bool"
        outs = []
        rest = R1
        for v, bb in t["vals"]:
            if isbool:
                c = alg.bnot(d) if v == 0 else d
            else:
                if v > 2 ** 63:
                    v -= 2 ** 128 if v > 2 ** 127 else (2 ** 64)
                elif v == 255:
                    v = -1
                c = alg.eqconst(d, v)
            if self.paths:
                c = self.paths.decide(c)
            rest = alg.sub(rest, c)
            if c.is_zero():
                continue
            s = st if c.const() == 1 else st.copy()
            s.pc = alg.mul(st.pc, c) if s is not st else st.pc
            outs.append((bb, s))
            if c.const() == 1:
                return outs
        if not rest.is_zero() and fr.body["blocks"][t["otherwise"]]["t"]["k"] != "unreachable":
            s = st.copy()
            s.pc = alg.mul(st.pc, rest)
            if not s.pc.is_zero():
                outs.append((t["otherwise"], s))
        return [(b, s) for b, s in outs if not s.pc.is_zero()]

    # ------------------------------------------------------------------ calls
    def call_term(self, fr, st, t):
        span = t["s"]
        dest_ty = self.place_ty(fr, t["dest"])
        try:
            args = [self.operand(fr, st, a) for a in t["args"]]
            f = t["f"]
            if f["k"] == "const" and f["c"]["k"] == "fn":
                fv = FnV(f["c"]["f"], fr.env)
            else:
                fv = self.operand(fr, st, f)
            if t["t"] is None:
                nm = fv.f["pretty"] if isinstance(fv, FnV) else "?"
                if isinstance(fv, FnV) and fv.f["krate"] == self.F.crate:
                    self.call(fv, args, st, dest_ty, span)
                self.oblige("panic:" + nm, R1, st, span)
                return []
            v = self.call(fv, args, st, dest_ty, span)
        except Diverge:
            return []
        except Undef as e:
            if t["t"] is None:
                self.oblige("panic:?", R1, st, span)
                return []
            nm = t["f"]["c"]["f"]["pretty"] if t["f"]["k"] == "const" and t["f"]["c"]["k"] == "fn" else "?"
            self.note(fr, "%s (%s) at %s" % (nm, e, span))
            v = self.M.opaque(dest_ty, ("undefcall", nm, span), unk=True)
            # anything reachable through a mutable reference argument is lost
            for a in t["args"]:
                try:
                    av = self.operand(fr, st, a)
                except Undef:
                    continue
                aty = self.place_ty(fr, a["p"]) if a["k"] in ("copy", "move") else None
                if isinstance(av, Ref) and aty and aty.get("t") == "ref" and aty.get("m"):
                    try:
                        self.store(st, av, Op(("unk", alg.fn("lost", span, unk=True)), None, True))
                    except Undef:
                        st.cells[av.cell] = Op(("unk", alg.fn("lost", span, unk=True)), None, True)
        try:
            self.store(st, self.place(fr, st, t["dest"]), v)
        except Undef as e:
            self.undef_store(fr, st, t["dest"], e, span)
        return [(t["t"], st)]

    def call(self, fv, args, st, dest_ty, span):
        self.calls += 1
        if isinstance(fv, (Ref, RV)):
            fv = self.deref(st, fv)
        if isinstance(fv, Clo):
            f = self.F.fns.get(fv.id)
            if f is None:
                raise Undef("closure body " + fv.id)
            return self.call_closure(fv, args, st)
        if not isinstance(fv, FnV):
            raise Undef("call of %r" % (fv,))
        f = fv.f
        h = self.hooks.get(f["pretty"]) or self.hooks.get(f["id"])
        if h is not None:
            return h(self, st, args, f, span)
        if f["name"] in ("call", "call_mut", "call_once") and len(args) == 2 and f["cont"]["kind"] == "trait":
            clo = self.deref_safe(st, args[0])
            tup = self.deref_safe(st, args[1])
            if isinstance(clo, Clo) and isinstance(tup, St):
                return self.call_closure(clo, [tup.f[str(i)] for i in range(len(tup.f))], st)
        tgt, env = self.resolve(f, args, fv.env, st)
        if tgt is not None:
            return self.run_fn(tgt, args, env, st, span)
        return self.M.dispatch(f, args, st, fv.env, dest_ty, span)

    def call_closure(self, clo, args, st):
        """args: positional arguments (already untupled)"""
        f = self.F.fns[clo.id]
        env_ty = f["body"]["locals"][1]["ty"]
        envv = St("closure", {str(i): x for i, x in enumerate(clo.up)})
        if env_ty["t"] == "ref":
            cell = self.new_cell(st, envv)
            a0 = Ref(cell)
        else:
            a0 = envv
        return self.run_body(f, f["body"], [a0] + list(args), clo.env, st)

    def invoke(self, fv, args, st, dest_ty=None):
        """call a function value (closure / fn item / tuple ctor) with positional args"""
        fv = self.deref(st, fv)
        if isinstance(fv, Clo):
            return self.call_closure(fv, args, st)
        if isinstance(fv, FnV):
            return self.call(fv, args, st, dest_ty, self.cur_span)
        raise Undef("invoke %r" % (fv,))

    def resolve(self, f, args, env, st):
        """(function facts, generics env) of the body this call runs, or (None, None)"""
        F = self.F
        if f.get("ctor"):
            return None, None
        a = [tysub(x, env) for x in f["a"]]
        cont = f["cont"]
        if cont["kind"] == "trait":
            selfty = tysub(cont["self"], env)
            r = f["res"]
            if r and r["id"] in F.fns and r["id"] != f["id"] and not r["shim"]:
                t = F.fns[r["id"]]
                if t["local"] or not self.M.overrides(f):
                    e = self.bind(t, [tysub(x, env) for x in r["a"]])
                    return t, e
            # by the type of Self, then by the abstract value of the receiver
            name = f["name"]
            cands = []
            if selfty["t"] in ("adt", "ref"):
                cands.append(selfty)
            if args:
                vt = self.M.value_ty(self.deref_safe(st, args[0]))
                if vt is not None and selfty["t"] in ("param", "alias", "other"):
                    cands.append(vt)
            for c in cands:
                im = F.find_impl(cont["trait"], c, a[1:])
                if im:
                    t = F.impl_item(im, name)
                    if t is not None:
                        e = {}
                        unify(t["cont"]["self"], c, e)
                        for x, y in zip(t["cont"]["trait"]["a"][1:], a[1:]):
                            unify(x, y, e)
                        own = [g for g in t["generics"] if g["t"] == "param"]
                        nown = len(own)
                        # method's own generics are the tail of both lists
                        k = 0
                        while k < min(nown, len(a)) and own[-1 - k]["n"] not in e and k < self.own_generics(t):
                            e.setdefault(own[-1 - k]["n"], a[-1 - k])
                            k += 1
                        return t, e
                    # provided method of a local trait
                    t = F.fns.get(f["id"])
                    if t is not None:
                        return t, self.bind(t, [c] + a[1:])
            t = F.fns.get(f["id"])
            if t is not None and t["local"] and cands:
                return t, self.bind(t, a)
            if t is not None and not t["local"] and not self.M.overrides(f):
                return t, self.bind(t, a)
            return None, None
        t = F.fns.get(f["id"])
        if t is None:
            return None, None
        if not t["local"] and self.M.overrides(f):
            return None, None
        return t, self.bind(t, a)

    def own_generics(self, t):
        im = t["cont"].get("impl")
        n = 0
        for i in self.F.impls:
            if i["id"] == im:
                ps = set()
                params_in(i["self"], ps)
                if i["trait"]:
                    for x in i["trait"]["a"]:
                        params_in(x, ps)
                return len([g for g in t["generics"] if g["t"] == "param" and g["n"] not in ps])
        return len(t["generics"])

    def bind(self, t, a):
        e = {}
        for g, x in zip(t["generics"], a):
            if g["t"] == "param":
                e[g["n"]] = x
            elif g["t"] == "const" and isinstance(g["v"], str):
                e[g["v"].split("/")[0]] = x
        return e

    def deref_safe(self, st, v):
        try:
            return self.deref(st, v)
        except Undef:
            return None

    dim_dyn = False     # dimension parameters stand for the dynamic dimension
    dim_n = None        # value of otherwise unconstrained dimension parameters (default: symbolic N)

    def norm_env(self, t, env):
        """generic parameters not fixed by the caller: reals, dimensions"""
        e = dict(env)
        for p in t.get("preds", ()):
            if p["ty"]["t"] != "param":
                continue
            n = p["ty"]["n"]
            b = e.get(n)
            if b is not None and b["t"] != "param":
                continue
            tr = p["trait"].split("::")[-1]
            if tr in ("RealField", "ComplexField"):
                e[n] = {"t": "prim", "n": "real"}
            elif tr in ("Dim", "DimName") and b is None:
                if self.dim_dyn and tr == "Dim":
                    e[n] = {"t": "adt", "id": "nalgebra::Dyn", "n": "nalgebra::Dyn", "a": []}
                else:
                    e[n] = {"t": "dim", "v": self.dim_n or nat("N")}
        return e

    def run_fn(self, t, args, env, st, span=None):
        env = self.norm_env(t, env)
        h = self.hooks.get(t["id"])
        if h is not None:
            return h(self, st, args, t, span)
        return self.run_body(t, t["body"], args, env, st)

    def run_body(self, t, body, args, env, st, tag=""):
        if len(self.stack) > 60:
            raise Undef("call depth")
        if self.stack.count(t["pretty"] + tag) > 3:
            raise Undef("recursion in " + t["pretty"])
        self.visited[t["id"]] = self.visited.get(t["id"], 0) + 1
        cfg = self.F.cfg((t["id"], tag), body)
        if cfg.irreducible:
            raise Undef("irreducible control flow in " + t["pretty"])
        n = len(body["locals"])
        global _ids
        base = next(_ids)
        _ids = itertools.count(base + n + 1)
        fr = Frame(t, body, cfg, base, env)
        if t["kind"] == "Closure" and body["argc"] == 2 and len(args) != 2 or (t["kind"] == "Closure" and body["argc"] != len(args)):
            raise Undef("closure arity")
        for i, a in enumerate(args):
            st.cells[base + 1 + i] = a
        self.stack.append(t["pretty"] + tag)
        self.pcs.append(st.pc)
        s = State(st.cells, R1)
        saved = self.cur_span, self.cur_pc
        try:
            res = self.region(fr, 0, s, set())
        finally:
            self.stack.pop()
            self.pcs.pop()
            self.cur_span, self.cur_pc = saved
        r = res.get("RET")
        if r is None:
            raise Diverge()
        v = r.cells.get(base)
        # (constants and promoteds return references to their own storage, which is static)
        for i in range(1 if body["argc"] == 0 and isinstance(v, Ref) else n):
            r.cells.pop(base + i, None)
        if r.cells is not st.cells:
            st.cells.clear()
            st.cells.update(r.cells)
        # the unit / uninitialised return place
        if v is None:
            v = UNIT
        return v

    # ------------------------------------------------------------------ loops
    def loop(self, fr, h, st):
        bodyset = fr.cfg.loops[h]
        exits = set()
        for b in bodyset:
            for s in fr.cfg.succ[b]:
                if s not in bodyset:
                    exits.add(s)
        fr.active.add(h)
        self.pcs.append(st.pc)
        st0 = State(st.cells, R1)

        def body_fn(s):
            res = self.region(fr, h, s, exits | {h})
            return res.pop(h, None), res
        site = "%s#%d" % (fr.fn["pretty"], sorted(fr.cfg.loops).index(h))
        try:
            outs = self.iterate(body_fn, st0, site)
        finally:
            self.pcs.pop()
            fr.active.discard(h)
        r = []
        for tgt, s in outs.items():
            s.pc = alg.mul(st.pc, s.pc)
            r.append((tgt, s))
        return r

    def iterate(self, body_fn, st0, site):
        """analyse a loop from entry state st0; returns {exit: state}"""
        mark = len(self.obl), len(self.divs)
        try:
            return self.iterate_(body_fn, st0, site, mark)
        except BaseException:
            # obligations of an interrupted attempt speak of intermediate states
            del self.obl[mark[0]:]
            del self.divs[mark[1]:]
            raise

    def iterate_(self, body_fn, st0, site, mark):
        acc = {}
        s = st0
        it = 0
        tried = False
        limit = UNROLL
        while it < limit:
            cont, exits = body_fn(s.copy())
            if cont is not None:
                cont.pc = self.resimplify(cont.pc)
            live = {k: e for k, e in exits.items() if not e.pc.is_zero()}
            if cont is None or cont.pc.is_zero():
                for k, e in live.items():
                    self.add(acc, k, e)
                self.loops_done[site] = "unrolled %d" % it
                return acc
            if cont.pc.const() == 1 and not live:
                s = cont
                it += 1
                if it == 5 and alg.FACTS:
                    # a lower bound on a symbolic trip count is no reason to take the first iterations apart
                    m = len(self.obl), len(self.divs)
                    try:
                        r = self.summarise(body_fn, st0, site)
                    except Undef:
                        r = None
                    if isinstance(r, dict):
                        del self.obl[mark[0]:m[0]]
                        del self.divs[mark[1]:m[1]]
                        return r
                    del self.obl[m[0]:]
                    del self.divs[m[1]:]
                continue
            if not tried:
                tried = True
                # symbolic trip count?
                del self.obl[mark[0]:]
                del self.divs[mark[1]:]
                r = self.summarise(body_fn, st0 if it == 0 else s, site)
                if isinstance(r, dict):
                    for k, e in r.items():
                        self.add(acc, k, e)
                    return acc
                # constant trip count with data dependent exits: gated unrolling
                if r != "const":
                    del self.obl[mark[0]:]
                    del self.divs[mark[1]:]
                    raise Undef("loop %s not summarised (%s)" % (site, r))
                limit = it + 40
                cont, exits = body_fn(s.copy())
                live = {k: e for k, e in exits.items() if not e.pc.is_zero()}
            for k, e in live.items():
                self.add(acc, k, e)
            s = cont
            it += 1
        raise Undef("loop %s not bounded" % site)

    # -- leaves of the state -------------------------------------------------
    def diff(self, a, b, path, out):
        """changed leaves between two values; out: list of (path, old, new)"""
        if a is b:
            return
        if a is None or b is None:
            out.append((path, "tmp", a, b))
            return
        if isinstance(a, Rat) and isinstance(b, Rat):
            if not alg.eq(a, b):
                out.append((path, "rat", a, b))
            return
        if type(a) is type(b):
            if isinstance(a, St) and a.n == b.n and a.f.keys() == b.f.keys():
                for k in a.f:
                    self.diff(a.f[k], b.f[k], path + (("F", k),), out)
                return
            if isinstance(a, En) and a.n == b.n:
                if not alg.eq(a.d, b.d):
                    out.append((path + (("D",),), "discr", a.d, b.d))
                for i in set(a.v) | set(b.v):
                    pa, pb = a.v.get(i), b.v.get(i)
                    if pa is None or pb is None or pa.keys() != pb.keys():
                        for k in (pb or pa or ()):
                            out.append((path + (("V", i, k),), "tmp", None if pa is None else pa.get(k), None if pb is None else pb.get(k)))
                        continue
                    for k in pa:
                        self.diff(pa[k], pb[k], path + (("V", i, k),), out)
                return
            if isinstance(a, Grow) and a.sid == b.sid:
                if len(a.items) != len(b.items):
                    out.append((path, "seq", a, b))
                return
            if isinstance(a, Ar) and len(a.x) == len(b.x):
                for i, (x, y) in enumerate(zip(a.x, b.x)):
                    self.diff(x, y, path + (("A", i),), out)
                return
            if isinstance(a, Mat) and dims(a) == dims(b) and a.sym == b.sym:
                ks = a.c.keys() if a.sym is None else range(len(a.c))
                for k in ks:
                    if not alg.eq(a.c[k], b.c[k]):
                        out.append((path + (("M", k, a.sym, a.nr, a.nc),), "rat" if a.sym is None else "fam", a.c[k], b.c[k]))
                return
            if isinstance(a, Fam) and a.len == b.len:
                sub = []
                self.diff(a.t, b.t, (), sub)
                for p, k, x, y in sub:
                    if k == "rat":
                        out.append((path + (("T", a.len),) + p, "fam", x, y))
                    else:
                        out.append((path, "tmp", a, b))
                        return
                return
            if isinstance(a, Stream):
                if a.uid is b.uid:
                    if not alg.eq(a.pos, b.pos):
                        out.append((path + (("P",),), "rat", a.pos, b.pos))
                    return
            if isinstance(a, Rot) or isinstance(a, Iso):
                if not veq(a, b):
                    out.append((path, "tmp", a, b))
                return
            if isinstance(a, Clo) and a.id == b.id:
                for i, (x, y) in enumerate(zip(a.up, b.up)):
                    self.diff(x, y, path + (("U", i),), out)
                return
        if isinstance(a, (Ar, Fam)) and isinstance(b, (Ar, Fam)) and not (isinstance(a, Ar) and isinstance(b, Ar) and len(b.x) <= len(a.x)):
            out.append((path, "seq", a, b))
            return
        if vkey(a) == vkey(b):
            return
        out.append((path, "tmp", a, b))

    def putleaf(self, v, path, x):
        if not path:
            return x
        e = path[0]
        k = e[0]
        if k == "F":
            f = dict(v.f)
            f[e[1]] = self.putleaf(f[e[1]], path[1:], x)
            return St(v.n, f)
        if k == "D":
            return En(v.n, x, v.v)
        if k == "V":
            vs = dict(v.v)
            p = dict(vs.get(e[1], {}))
            p[e[2]] = self.putleaf(p.get(e[2]), path[1:], x)
            vs[e[1]] = p
            return En(v.n, v.d, vs)
        if k == "A":
            l = list(v.x)
            l[e[1]] = self.putleaf(l[e[1]], path[1:], x)
            return Ar(l)
        if k == "M":
            c = dict(v.c) if v.sym is None else list(v.c)
            c[e[1]] = x
            return Mat(v.nr, v.nc, c, v.sym)
        if k == "T":
            return Fam(v.len, self.putleaf(v.t, path[1:], x))
        if k == "P":
            return v.at(x)
        if k == "U":
            l = list(v.up)
            l[e[1]] = self.putleaf(l[e[1]], path[1:], x)
            return Clo(v.id, l, v.env)
        raise Undef("leaf " + str(e))

    def getleaf(self, v, path):
        for e in path:
            k = e[0]
            if v is None:
                return None
            if k == "F":
                v = v.f.get(e[1])
            elif k == "D":
                v = v.d
            elif k == "V":
                v = v.v.get(e[1], {}).get(e[2])
            elif k == "A":
                v = v.x[e[1]]
            elif k == "M":
                v = v.c[e[1]]
            elif k == "T":
                v = v.t
            elif k == "P":
                v = v.pos
            elif k == "U":
                v = v.up[e[1]]
        return v

    def summarise(self, body_fn, st0, site):
        uid = next(_ids)
        ita = alg.atom_id(("it", uid))
        alg.INTEG.add(ita)
        alg.NONNEG.add(ita)
        IT = Rat(alg.patom(ita))
        RHOr = Rat(alg.patom(RHO))
        leaves = {}     # (cell, path) -> dict
        own = set()     # this loop's variables; those of an enclosing loop are constants here
        T = None
        extra = []

        def ownlv(a):
            k = alg.ATOMS[a]
            return k[0] == "lv" and k[1] in own
        mark = len(self.obl), len(self.divs)

        def header():
            h = st0.copy()
            for (cell, path), lf in leaves.items():
                x = lf["hdr"]
                h.cells[cell] = self.putleaf(h.cells.get(cell), path, x)
            return h

        def bound():
            """the facts  iteration < trip count"""
            ds = [alg.sub(alg.sub(b, R1), IT) for b in alg.upper_bounds(T)] if T is not None else []
            return [d.n for d in ds if not d.d]

        def run(with_fact):
            del self.obl[mark[0]:]
            del self.divs[mark[1]:]
            saved, guards = alg.FACTS, self.guards
            if with_fact and T is not None:
                alg.FACTS = saved + bound()
                if alg.indicators(T.n) and not T.d:
                    self.guards = tuple(guards) + (alg.sub(alg.sub(T, R1), IT),)
            try:
                return body_fn(header())
            finally:
                alg.FACTS, self.guards = saved, guards

        progress = True
        rounds = 0
        while progress:
            rounds += 1
            if rounds > 14:
                return "rounds"
            progress = False
            cont, exits = run(T is not None)
            if cont is None:
                if T is not None:
                    return "diverges"
                # runs at most once
                return "const"
            hdr = header()
            lits = literals(cont.pc)
            # changed leaves
            changed = []
            for cell in cont.cells:
                a, b = hdr.cells.get(cell), cont.cells[cell]
                if a is None:
                    continue        # body temporaries
                out = []
                self.diff(a, b, (), out)
                for p, kind, x, y in out:
                    changed.append(((cell, p), kind, x, y))
            new = False
            for key, kind, x, y in changed:
                if key in leaves:
                    continue
                if any(key[0] == c and key[1][:len(p)] == p for c, p in leaves):
                    continue
                sid = next(_ids)
                own.add(sid)
                if kind == "rat":
                    sa = alg.atom_id(("lv", sid))
                    if self.is_int(x) and self.is_int(y):
                        alg.INTEG.add(sa)
                    leaves[key] = dict(kind="rat", init=x, hdr=Rat(alg.patom(sa)), sym=sa, solved=None)
                elif kind == "fam":
                    sa = alg.atom_id(("lv", sid, RHOr))
                    leaves[key] = dict(kind="fam", init=x, hdr=Rat(alg.patom(sa)), sym=sa, sid=sid, solved=None)
                elif kind == "seq":
                    leaves[key] = dict(kind="seq", init=x, hdr=Grow(sid), sym=None, sid=sid, solved=None)
                elif kind == "discr":
                    sa = alg._ind_atom(("lv", sid), ("lv", sid))
                    leaves[key] = dict(kind="discr", init=x, hdr=Rat(alg.patom(sa)), sym=sa, solved=None)
                else:
                    # drop finer leaves below this one
                    for k2 in [k for k in leaves if k[0] == key[0] and k[1][:len(key[1])] == key[1]]:
                        del leaves[k2]
                    leaves[key] = dict(kind="tmp", init=x, hdr=None, sym=None, solved="tmp")
                new = True
            if new:
                progress = True
                continue
            unsolved = {lf["sym"] for lf in leaves.values() if lf["solved"] is None and lf["sym"] is not None}
            unsolved_sids = {lf["sid"] for lf in leaves.values() if lf["solved"] is None and lf["kind"] == "fam"}

            def free(r, allow=()):
                for a in alg.deps(r):
                    if ownlv(a) and alg.ATOMS[a][1] not in allow:
                        return False
                return True
            for key, lf in leaves.items():
                if lf["solved"] is not None or (lf["sym"] is None and lf["kind"] != "seq"):
                    continue
                v = self.getleaf(cont.cells[key[0]], key[1])
                if v is None:
                    continue
                if lf["kind"] == "seq":
                    if T is None or not isinstance(v, Grow) or v.sid != lf["sid"]:
                        continue
                    chunk = Ar([])
                    for c in v.items:
                        chunk = concat(chunk, c)
                    L = seq_len(chunk)
                    if ita in alg.deps(L) or any(ownlv(x) for x in vdeps(chunk) | alg.deps(L)):
                        continue
                    lf["solved"] = "seq"

                    def sat(n, L=L, chunk=chunk, lf=lf):
                        if L.const() == 1:
                            e = vsubst(seq_at(chunk, R0), {ita: RHOr})
                        else:
                            e = vsubst(seq_at(chunk, self.intfn("irem", RHOr, L)), {ita: self.intfn("idiv", RHOr, L)})
                        return concat(lf["init"], Fam(alg.mul(n, L), e))
                    lf["at"] = sat
                    # inside the body the contents so far stay the token: bodies that read them are not summarised
                    progress = True
                    continue
                if lf["kind"] == "rat":
                    v = assume(v, lits)
                    s = Rat(alg.patom(lf["sym"]))
                    f = alg.sub(v, s)
                    if free(f):
                        if ita not in alg.deps(f):
                            lf["solved"] = "ind"
                            lf["at"] = lambda n, f=f, lf=lf: alg.add(lf["init"], alg.mul(f, n))
                        elif T is not None or True:
                            lf["solved"] = "acc"
                            lf["at"] = lambda n, f=f, lf=lf: alg.add(lf["init"], alg.rsum(n, f, ita))
                        lf["hdr"] = lf["at"](IT)
                        progress = True
                        continue
                    ext = self.extremum(lf, v, s, free, ita)
                    if ext is not None:
                        lf["solved"], lf["at"] = ext
                        lf["hdr"] = lf["at"](IT)
                        progress = True
                elif lf["kind"] == "fam" and T is not None:
                    nr = self.fam_len(key, cont)
                    r = self.solve_rows(lf, assume(v, lits), ita, ownlv)
                    if r is None:
                        saved = alg.FACTS
                        alg.FACTS = saved + bound() + ([alg.sub(alg.sub(nr, R1), RHOr).n] if nr is not None else [])
                        try:
                            v2 = self.resimplify(assume(v, lits))
                            if v2 is not v:
                                r = self.solve_rows(lf, v2, ita, ownlv)
                        finally:
                            alg.FACTS = saved
                    if r is None:
                        saved = alg.FACTS
                        alg.FACTS = saved + bound() + ([alg.sub(alg.sub(nr, R1), RHOr).n] if nr is not None else [])
                        try:
                            bl = self.solve_block(lf, assume(v, lits), ita, ownlv, T)
                        finally:
                            alg.FACTS = saved
                        if bl is not None:
                            lf["solved"] = "block"

                            def at(n, bl=bl, nr=nr):
                                saved = alg.FACTS
                                if nr is not None:
                                    alg.FACTS = saved + [alg.sub(alg.sub(nr, R1), RHOr).n]
                                try:
                                    return bl(n)
                                finally:
                                    alg.FACTS = saved
                            lf["at"] = at
                            lf["hdr"] = at(IT)
                            progress = True
                            continue
                    if r is not None:
                        e, a, b = r
                        lf["solved"] = "row"

                        def at(n, e=e, a=a, b=b, lf=lf, nr=nr):
                            x = alg.sub(RHOr, b) if a == 1 else alg.sub(b, RHOr)
                            saved = alg.FACTS
                            if nr is not None:
                                alg.FACTS = saved + [alg.sub(alg.sub(nr, R1), RHOr).n]
                            try:
                                w = alg.mul(alg.bnot(alg.pos(alg.neg(x))), alg.pos(alg.sub(n, x)))
                                return alg.simp_int(gamma(w, subst(e, {ita: x}), lf["init"]))
                            finally:
                                alg.FACTS = saved
                        lf["at"] = at
                        lf["hdr"] = at(IT)
                        progress = True
            if progress:
                continue
            if T is None:
                r = self.trip(cont, exits, IT, ita, ownlv)
                if r is not None:
                    T, main = r
                    if alg.has_unk(T):
                        alg.UNK.add(ita)        # how far it counts is not known
                    tc = T.const()
                    if tc is not None and tc <= 32 and len(exits) > 1:
                        return "const"
                    progress = True
                elif not any("guess" in lf for lf in leaves.values()):
                    progress = self.guess_step(leaves, cont, exits, lits, ownlv, IT)
        if T is None:
            return "no trip count"
        for key, lf in leaves.items():
            if "guess" in lf and not self.confirm_step(lf, self.getleaf(cont.cells[key[0]], key[1]), T, IT, ita, bound()):
                return "no trip count"
        # final: body once more under the loop fact for the obligations, then the exit state
        cont, exits_in = run(True)
        keep = self.obl[mark[0]:], self.divs[mark[1]:]
        c2, exits = run(False)
        del self.obl[mark[0]:]
        del self.divs[mark[1]:]
        self.obl += keep[0]
        self.divs += keep[1]
        self.loops_done[site] = "summarised, trip count %r; %s" % (T, ", ".join(sorted("%s" % (lf["solved"] or "unsolved") for lf in leaves.values())))
        sub = {ita: T}
        # values overwritten in every iteration without being read first
        for key, lf in leaves.items():
            if lf["kind"] == "rat" and lf["solved"] is None and cont is not None:
                v = self.getleaf(cont.cells[key[0]], key[1])
                if v is not None and not any(ownlv(a) for a in alg.deps(v)):
                    last = subst(v, {ita: alg.sub(T, R1)})
                    sub[lf["sym"]] = gamma(alg.pos(T), last, lf["init"])
        res = {}
        main_state = exits.get(main)
        anyearly = R0
        for tgt, s in exits.items():
            if tgt == main:
                continue
            # left early in some iteration K: opaque which one
            K = self.intfn("iteration", site, vkey(s.pc))
            b = alg.exists(T, s.pc, ita)
            sm = {ita: K}
            res[tgt] = State({c: (v if st0.cells.get(c) is v else self.lsubst(v, sm)) for c, v in s.cells.items()}, alg.mul(alg.bnot(anyearly), b))
            anyearly = alg.bor(anyearly, b)
        if main_state is not None:
            cells = {c: (v if st0.cells.get(c) is v else self.lsubst(v, sub)) for c, v in main_state.cells.items()}
            # leaves take their closed form at T
            for (cell, path), lf in leaves.items():
                if lf.get("at") and cell in cells:
                    cells[cell] = self.putleaf(cells[cell], path, lf["at"](T))
            res[main] = State(cells, alg.bnot(anyearly))
        return res

    def extremum(self, lf, v, s, free, ita):
        """v(s): a running maximum, minimum, conjunction or disjunction  ->  (kind, closed form)"""
        a, init = lf["sym"], lf["init"]
        if v.d or a not in v.n.atoms():
            v0 = None
        else:
            v1, v0 = subst(v, {a: R1}), subst(v, {a: R0})
        isbool = lambda x: alg.eq(alg.mul(x, x), x)
        if v0 is not None and free(v1) and free(v0) and isbool(v1) and isbool(v0) and isbool(init):
            if alg.eq(v, alg.mul(s, v1)) and v0.is_zero():
                return "all", lambda n: alg.mul(init, alg.bnot(alg.exists(n, alg.bnot(v1), ita)))
            if v1.const() == 1:
                return "any", lambda n: alg.bor(init, alg.exists(n, v0, ita))
        # what the value can become: the old one, or something the variable has no part in
        outs, work = [], [v]
        while work:
            x = work.pop()
            ps = alg.indicators(x.n)
            if ps:
                if len(outs) + len(work) > 24:
                    return None
                p = ps[0]
                k = alg.ATOMS[p]
                q = [q for q in ps[1:] if alg.ATOMS[q][1] == k[1] and {k[0], alg.ATOMS[q][0]} == {"pos", "zero"}]
                x1, x0 = alg.rsplit(x, p)
                if q:       # not both at once
                    x1 = alg.rsplit(x1, q[0])[1]
                work += [x1, x0]
            elif not alg.eq(x, s) and not any(alg.eq(x, o) for o in outs):
                if not free(x):
                    return None
                outs.append(x)
        if 0 < len(outs) <= 3:
            for big in (True, False):
                for order in itertools.permutations(outs):
                    r = s
                    for x in order:
                        r = gamma(alg.lt(r, x) if big else alg.lt(x, r), x, r)
                    if alg.eq(r, v):
                        def at(n, order=order, g=alg.gmax if big else alg.gmin):
                            r = init
                            for x in order:
                                r = g(n, x, ita, r)
                            return r
                        return ("max" if big else "min"), at
        return None

    def lsubst(self, v, sub):
        if isinstance(v, Mat) and v.sym:
            n = v.nr if v.sym == "r" else v.nc
            saved = alg.FACTS
            d = alg.sub(alg.sub(torat(n), R1), Rat(alg.patom(RHO)))
            alg.FACTS = saved + ([d.n] if not d.d else [])
            try:
                return vsubst(v, sub)
            finally:
                alg.FACTS = saved
        if isinstance(v, St):
            return St(v.n, {k: self.lsubst(x, sub) for k, x in v.f.items()})
        return vsubst(v, sub)

    def fam_len(self, key, st):
        e = key[1][-1]
        if e[0] == "M":
            n = e[3] if e[2] == "r" else e[4]
            return torat(n)
        for e in reversed(key[1]):
            if e[0] == "T":
                return torat(e[1])
        return None

    def solve_rows(self, lf, v, ita, ownlv):
        """v(rho) = [rho == i] ? e : old(rho)   ->  (e, a, b) with i = a*IT + b"""
        sym = lf["sym"]
        for za in alg.indicators(v.n):
            k = alg.ATOMS[za]
            if k[0] != "zero":
                continue
            m = k[1]
            if RHO not in m.atoms() or ita not in m.atoms():
                continue
            co = m.t.get(((RHO, 1),))
            if co is None or abs(co) != 1:
                continue
            rest = m.add(alg.Poly({((RHO, 1),): co}), -1)
            if RHO in rest.atoms():
                continue
            i = Rat(rest.scale(-co))
            a = rest.scale(-co).t.get(((ita, 1),))
            if a not in (1, -1):
                continue
            b = alg.sub(i, alg.mul(rc(a), Rat(alg.patom(ita))))
            if ita in alg.deps(b) or any(ownlv(x) for x in alg.deps(b)):
                continue
            v1, v0 = alg.rsplit(v, za)
            if v0 != Rat(alg.patom(sym)) and not (v0.d and alg.eq(v0, Rat(alg.patom(sym)))):
                continue
            e = subst(v1, {RHO: i})
            # the row's own pre-iteration contents are its initial contents
            m2 = {}
            bad = False
            for x in alg.deps(e):
                kx = alg.ATOMS[x]
                if ownlv(x):
                    if len(kx) == 3 and kx[1] == lf["sid"] and kx[2] == i:
                        m2[x] = subst(lf["init"], {RHO: i})
                    else:
                        bad = True
            if bad:
                continue
            e = subst(e, m2) if m2 else e
            return e, a, b
        return None

    def solve_block(self, lf, v, ita, ownlv, T):
        """v(rho) = c(rho, it) ? e : old(rho)  where c only holds for it = (rho - b) / K, the iteration writing block K it + b ..
        ->  (function of the iteration count giving the contents then); each row is written by at most one iteration"""
        sym = lf["sym"]
        tok = Rat(alg.patom(sym))
        if sym not in v.n.atoms() or v.d and any(sym in f.atoms() for f, _ in v.d):
            return None
        v1, v0 = subst(v, {sym: R1}), subst(v, {sym: R0})
        keep = alg.sub(v1, v0)
        if sym in alg.deps(keep) or alg.sub(alg.sub(v, v0), alg.mul(keep, tok)).n.t:
            return None
        if any(ownlv(x) for x in alg.deps(keep)) or any(ownlv(x) for x in alg.deps(v0)):
            return None
        if any(a not in alg.IND for a in alg.rat_atoms(keep)):
            return None
        c = alg.bnot(keep)
        cand = []
        for za in alg.indicators(c.n):
            k = alg.ATOMS[za]
            if k[0] not in ("pos", "zero"):
                continue
            m = k[1]
            co, ci = m.t.get(((RHO, 1),)), m.t.get(((ita, 1),))
            if not co or not ci or abs(co) != 1 or -ci * co < 1 or int(ci) != ci:
                continue
            K = int(-ci * co)
            rest = m.add(alg.Poly({((RHO, 1),): co, ((ita, 1),): ci}), -1)
            if RHO in rest.atoms() or ita in rest.atoms() or any(ownlv(x) for x in alg.deps(Rat(rest))):
                continue
            b = alg.mul(rc(-co), Rat(rest))
            for d in (0, 1, -1):
                x = alg.sub(Rat(alg.patom(RHO)), alg.add(b, rc(d)))
                if (K, x) not in cand:
                    cand.append((K, x))
        it = Rat(alg.patom(ita))
        zs = [alg.ATOMS[za][1] for za in alg.indicators(c.n) if alg.ATOMS[za][0] == "zero"]
        for da in sorted({x for z in zs for x in z.atoms()}):
            # a flat counter: row it / K, place it % K
            k = alg.ATOMS[da]
            if k[:2] != ("fn", "idiv") or k[2] != it or not isinstance(k[3], Rat) or k[3].const() is None:
                continue
            K = k[3].const()
            rows_, places = [], set()
            for m in zs:
                co, ci, cd = (m.t.get(((x, 1),), 0) for x in (RHO, ita, da))
                rest = m.add(alg.Poly({((x, 1),): y for x, y in ((RHO, co), (ita, ci), (da, cd)) if y}), -1)
                if {RHO, ita, da} & rest.atoms() or any(ownlv(x) for x in alg.deps(Rat(rest))):
                    continue
                if abs(co) == 1 and cd == -co and not ci:
                    rows_.append(alg.mul(rc(-co), Rat(rest)))
                elif abs(ci) == 1 and cd == -ci * K and not co and Rat(rest).const() is not None:
                    places.add(-ci * Rat(rest).const())
            for b in rows_:
                for j in sorted(places):
                    w = alg.add(alg.mul(rc(K), alg.sub(Rat(alg.patom(RHO)), b)), rc(j))
                    if 0 <= j < K and alg.prove_ge0(w.n) and self.only_at(c, alg.sub(it, w), 0):
                        def at(n, w=w, c=c, e=v0, lf=lf):
                            sel = alg.mul(subst(c, {ita: w}), alg.pos(alg.sub(n, w)))
                            return alg.simp_int(gamma(sel, subst(e, {ita: w}), lf["init"]))
                        return at
        cand.sort(key=lambda p: len(p[1].n.t))
        for K, x in cand[:6]:
            if not alg.prove_ge0(x.n):
                continue            # (only blocks starting at or before the first row)
            w = x if K == 1 else self.intfn("idiv", x, rc(K))
            if self.only_at(c, alg.sub(it, w), 0):
                def at(n, w=w, c=c, e=v0, lf=lf):
                    sel = alg.mul(subst(c, {ita: w}), alg.pos(alg.sub(n, w)))
                    return alg.simp_int(gamma(sel, subst(e, {ita: w}), lf["init"]))
                return at
        return None

    def only_at(self, c, d, depth):
        """does the condition c imply d = 0?  (case split over its indicators, each case a system of linear inequalities)"""
        if c.is_zero():
            return True
        saved = alg.FACTS
        alg.FACTS = saved + self.pc_facts([c])
        try:
            if alg.prove_ge0(d.n) and alg.prove_ge0(d.n.scale(-1)):
                return True
        finally:
            alg.FACTS = saved
        if depth > 40:
            return False
        forced = {a for a, _ in literals(c)}
        for a in alg.indicators(c.n):
            if a not in forced and alg.ATOMS[a][0] in ("pos", "zero"):
                c1, c0 = alg.rsplit(c, a)
                p = Rat(alg.patom(a))
                return self.only_at(alg.mul(p, c1), d, depth + 1) and self.only_at(alg.mul(alg.bnot(p), c0), d, depth + 1)
        return False

    overflow = False        # computed values may be non-finite

    def guess_step(self, leaves, cont, exits, lits, ownlv, IT):
        """a variable that advances by a fixed step except possibly in the last iteration (end = min(start + K, n); start = end):
        suppose so; confirm_step proves it once the trip count under that supposition is known"""
        for key, lf in leaves.items():
            if lf["kind"] != "rat" or lf["solved"] is not None:
                continue
            v = self.getleaf(cont.cells[key[0]], key[1])
            if v is None:
                continue
            s = Rat(alg.patom(lf["sym"]))
            steps = []

            def walk(t, depth):
                inds = [a for a in alg.indicators(t.n)]
                if not inds:
                    f = alg.sub(t, s)
                    if f.const() is not None and f.const() != 0 and f not in steps:
                        steps.append(f)
                elif depth < 5:
                    t1, t0 = alg.rsplit(t, inds[0])
                    walk(t1, depth + 1)
                    walk(t0, depth + 1)
            walk(assume(v, lits), 0)
            if len(steps) != 1 or steps[0].const() != int(steps[0].const()):
                continue
            f = steps[0]
            lf["guess"] = f
            lf["leave"] = {t: e.pc for t, e in exits.items()}
            lf["solved"] = "step"
            lf["hdr"] = alg.add(lf["init"], alg.mul(f, IT))
            return True
        return False

    def confirm_step(self, lf, v, T, IT, ita, facts):
        nxt = alg.add(lf["hdr"], lf["guess"])
        saved = alg.FACTS
        two = alg.sub(alg.sub(T, rc(2)), IT)
        last = alg.sub(alg.sub(T, R1), IT)
        if alg.indicators(T.n) or T.d:
            return False
        try:
            # another iteration follows: the step is the full one
            alg.FACTS = saved + [two.n]
            if not alg.eq_int(v, nxt):
                return False
            # after the last iteration the loop is left
            alg.FACTS = saved + [last.n, last.n.scale(-1)]
            x = [subst(subst(pc, {ita: alg.add(IT, R1)}), {lf["sym"]: v}) for pc in lf["leave"].values()]
            if not any(alg.eq_int(y, R1) for y in x[:1]) or len(x) != 1:
                return False
        finally:
            alg.FACTS = saved
        end = subst(v, {ita: alg.sub(T, R1)})
        lf["at"] = lambda n, end=end, lf=lf: gamma(alg.pos(T), end, lf["init"])
        return True

    def trip(self, cont, exits, IT, ita, ownlv):
        """(T, main exit): the loop continues exactly while IT < T as far as the main exit goes"""
        def cands(c):
            out = []
            for a in alg.rat_atoms(c):
                k = alg.ATOMS[a]
                if k[0] in ("pos", "zero"):
                    m = k[1]
                    co = m.t.get(((ita, 1),))
                    if co is None:
                        continue
                    rest = m.add(alg.Poly({((ita, 1),): co}), -1)
                    if ita in rest.atoms() or any(ownlv(x) for x in alg.deps(Rat(rest))):
                        continue
                    b = Rat(rest.scale(Fraction(-1) / Fraction(co)) if abs(co) != 1 else rest.scale(-co))
                    out.append((b, (0, 1, -1)))
                    if abs(co) != 1 and alg._int_only(m):
                        out.append((b, (Fraction(1) / abs(Fraction(co)), Fraction(-1) / abs(Fraction(co)))))
            return out
        from fractions import Fraction

        def solve(x, depth):
            stay = alg.bnot(x)
            if x.const() is not None:
                return R0 if x.const() == 1 else None
            for base, ks in cands(x):
                for k in ks:
                    T = alg.add(base, rc(k))
                    ok = (alg.eq if k in (0, 1, -1) else alg.eq_int)(stay, alg.pos(alg.sub(T, IT)))
                    if not ok and k == 0:
                        ok = alg.eq(x, alg.zero(alg.sub(T, IT)))
                    if ok:
                        if not self.is_int(T):
                            c = alg._cleared(T.n)
                            k = int(Fraction(c.t[T.n.lead()]) / Fraction(T.n.t[T.n.lead()])) if c is not T.n else 0
                            if k and alg.prove_ge0(c.add(alg.pconst(k - 1)), force=True):
                                T = self.intfn("ceil", T)       # (above -1)
                            else:
                                T = gamma(alg.pos(T), self.intfn("ceil", T), R0)
                        elif not alg.prove_ge0(T.n):
                            T = gamma(alg.pos(T), T, R0)
                        return T
            # the bound depends on a condition fixed before the loop
            budget[0] -= 1
            if depth < 16 and budget[0] > 0:
                ats = sorted(alg.rat_atoms(x))
                for g in ats:
                    if alg.ATOMS[g][0] in ("pos", "zero") and ita not in alg.deps(Rat(alg.patom(g))):
                        m = {h: R0 for h in ats if alg.IND.get(h) is not None and alg.IND.get(h) == alg.IND.get(g)}
                        m[g] = R1
                        t1 = solve(alg.subst(x, m), depth + 1)
                        t0 = solve(alg.subst(x, {g: R0}), depth + 1) if t1 is not None else None
                        return None if t0 is None else gamma(Rat(alg.patom(g)), t1, t0)
            return None
        budget = [200]
        for tgt, s in exits.items():
            T = solve(s.pc, 0)
            if T is not None:
                return T, tgt
        return None


def params_in(t, acc):
    if not isinstance(t, dict):
        return
    if t["t"] == "param":
        acc.add(t["n"])
    for k in ("e", "len"):
        if k in t:
            params_in(t[k], acc)
    for x in t.get("a", ()):
        params_in(x, acc)
