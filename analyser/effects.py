"""Whole-crate effect and type-flow facts: call graph, effectful constructs, fixed-precision data."""
from fractions import Fraction
import struct

HELPERS = ("intrinsic_test_utils",)


def own(F):
    """the library's own functions, closures included, generated (de)serialisation included"""
    return [f for f in F.fns.values() if f["local"]]


def blocks(f):
    for body in [f["body"]] + list(f.get("promoted") or ()):
        for b in body["blocks"]:
            if not b["c"]:
                yield b


def calls(f):
    for b in blocks(f):
        t = b["t"]
        if t["k"] == "call":
            yield t


def callee(t):
    if t["f"]["k"] == "const" and t["f"]["c"]["k"] == "fn":
        return t["f"]["c"]["f"]
    return None


def walk(x, fn):
    if isinstance(x, dict):
        fn(x)
        for v in x.values():
            walk(v, fn)
    elif isinstance(x, list):
        for v in x:
            walk(v, fn)


def edges(F):
    """function id -> ids of functions of this crate it mentions (calls, closures, function values, constants)"""
    ids = {f["id"]: f for f in F.fns.values() if f["local"]}
    by_trait = {}
    for f in ids.values():
        tr = f["cont"].get("trait")
        if isinstance(tr, dict):
            by_trait.setdefault((tr["n"], f["name"]), []).append(f["id"])
    g = {}
    for i, f in ids.items():
        out = set()

        def see(x):
            if x.get("k") == "fn" and isinstance(x.get("f"), dict):
                c = x["f"]
                r = c.get("res")
                for k in (c.get("id"), r.get("id") if isinstance(r, dict) else r):
                    if k in ids:
                        out.add(k)
                cont = c.get("cont") or {}
                if cont.get("kind") == "trait":
                    out.update(by_trait.get((cont.get("trait"), c["name"]), ()))
            elif x.get("k") == "agg" and x.get("ak") == "closure" and x["id"] in ids:
                out.add(x["id"])
            elif x.get("k") in ("const", "promoted", "float"):
                for k in (x.get("def"), x.get("id"), x.get("from")):
                    if k in ids:
                        out.add(k)
            elif x.get("t") == "closure" and x.get("id") in ids:
                out.add(x["id"])
        walk(f["body"], see)
        walk(f.get("promoted") or [], see)
        g[i] = out - {i}
    return g


def reach(g, roots, stop=()):
    seen = set()
    work = [r for r in roots if r not in stop]
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        work += [y for y in g.get(x, ()) if y not in stop]
    return seen


def region(F, name):
    """functions that are part of the operation called `name` and of nothing else a client can call"""
    g = edges(F)
    fs = own(F)
    roots = [f["id"] for f in fs if f["name"] == name]
    others = [f["id"] for f in fs if f["exported"] and f["name"] != name]
    inside = reach(g, roots)
    return inside - reach(g, others, set(roots))


# ---------------------------------------------------------------------- effects
IMPURE_CORE = ("core::cell::", "core::sync::", "core::ptr::", "core::arch::", "core::intrinsics::", "core::panic::location", "core::fmt::Pointer", "core::ffi::va_list",
               "core::alloc::", "core::task::")
IMPURE_ALLOC = ("alloc::sync::", "alloc::task::", "alloc::alloc::", "alloc::rc::")
PURE_STD = ("std::f64::", "std::f32::", "std::num::", "std::error::", "std::ascii::", "std::collections::btree", "std::num::f64", "std::num::f32", "std::panicking::begin_panic")
INTERIOR = ("Cell", "RefCell", "UnsafeCell", "OnceCell", "LazyCell", "OnceLock", "LazyLock", "Mutex", "RwLock", "Once", "SyncUnsafeCell")


def effects(F, f):
    """effectful constructs of one function: (kind, span, detail)"""
    out = []
    for s in f.get("unsafe_blocks") or ():
        out.append(("unsafe code", s, "unsafe block"))
    if (f.get("sig") or {}).get("unsafe"):
        out.append(("unsafe code", f["body"]["span"], "unsafe function"))
    span = [f["body"]["span"]]

    def see(x):
        if x.get("k") == "static":
            s = x["s"]
            if s["mut"] or s["tls"] or not s["freeze"] or s["foreign"]:
                out.append(("global state", span[0], "uses %s %s" % ("thread-local" if s["tls"] else "mutable static" if s["mut"] else "static with interior mutability" if not s["freeze"] else "foreign static", s["id"])))
        elif x.get("k") == "rawptr" and "Fake" not in x.get("m", ""):
            out.append(("raw pointer", span[0], "takes a raw address"))
        elif x.get("k") == "cast" and ("Expose" in x["ck"] or "Provenance" in x["ck"] or x["ck"].startswith(("PtrToPtr", "FnPtrToPtr", "Transmute"))):
            out.append(("raw pointer", span[0], "cast %s" % x["ck"]))
        elif x.get("k") == "other" and ("asm" in x.get("d", "").lower() or "ThreadLocal" in x.get("d", "")):
            out.append(("global state", span[0], x["d"][:80]))
        elif x.get("k") == "fn" and isinstance(x.get("f"), dict):
            c = x["f"]
            r = c.get("res")
            r = (r.get("id") if isinstance(r, dict) else r) or ""
            i = c["id"]
            nm = c["name"]
            if c.get("unsafe") and not i.startswith("core::fmt::"):
                out.append(("unsafe code", span[0], "unsafe function %s" % c["pretty"]))
            for k in (i, r):
                if k.startswith("std::") and not k.startswith(PURE_STD):
                    out.append(("input, output or system state", span[0], "calls %s" % c["pretty"]))
                    break
                if k.startswith(IMPURE_CORE):
                    out.append(("hidden state", span[0], "calls %s" % c["pretty"]))
                    break
                if k.startswith(IMPURE_ALLOC):
                    out.append(("hidden state", span[0], "calls %s" % c["pretty"]))
                    break
            if c["krate"] in ("nalgebra", "rand", "getrandom", "rand_core") and ("random" in nm or c["krate"] != "nalgebra"):
                out.append(("random numbers", span[0], "calls %s" % c["pretty"]))

    for b in blocks(f):
        for s in b["s"]:
            span[0] = s.get("s", span[0])
            walk(s, see)
        span[0] = b["t"].get("s", span[0])
        if b["t"].get("k") == "other" and "asm" in b["t"].get("d", "").lower():
            out.append(("unsafe code", span[0], "inline assembly"))
        walk(b["t"], see)
    seen = set()
    return [e for e in out if not (e in seen or seen.add(e))]


def interior(t, adts, seen=None):
    """name of the interior-mutable or pointer type inside a type, or None"""
    seen = set() if seen is None else seen
    if not isinstance(t, dict):
        return None
    if t.get("t") in ("ptr",):
        return "raw pointer"
    if t.get("t") == "adt":
        n = t["n"].split("::")[-1]
        if n in INTERIOR or n.startswith("Atomic"):
            return t["n"]
        a = adts.get(t["id"])
        if a and t["id"] not in seen:
            seen.add(t["id"])
            if a["kind"] == "union":
                return "union " + t["n"]
            if a["local"]:
                for v in a["variants"]:
                    for fl in v["fields"]:
                        r = interior(fl["ty"], adts, seen)
                        if r:
                            return r
    for k in ("a", "e", "ups", "ts"):
        v = t.get(k)
        for x in (v if isinstance(v, list) else [v]):
            r = interior(x, adts, seen)
            if r:
                return r
    return None


# ---------------------------------------------------------------------- fixed precision
def floats_in(t, out=None):
    out = set() if out is None else out
    if isinstance(t, dict):
        if t.get("t") == "prim" and t["n"] in ("f16", "f32", "f64", "f128"):
            out.add(t["n"])
        if t.get("t") in ("closure", "fndef"):
            return out
        for v in t.values():
            floats_in(v, out)
    elif isinstance(t, list):
        for v in t:
            floats_in(v, out)
    return out


def single(x):
    """x (a float) is exactly representable in single precision, in its normal range"""
    try:
        y = struct.unpack("f", struct.pack("f", x))[0]
    except OverflowError:
        return False
    return y == x and (x == 0 or 2.0 ** -126 <= abs(x))


def op_local(o):
    return o["p"]["l"] if o["k"] in ("copy", "move") else None


def has_param(t):
    """the type mentions a type parameter (or an associated type), not looking into closures"""
    if isinstance(t, dict):
        if t.get("t") in ("closure", "fndef"):
            return False
        if t.get("t") in ("param", "alias", "proj"):
            return True
        return any(has_param(v) for v in t.values())
    if isinstance(t, list):
        return any(has_param(v) for v in t)
    return False


def arith(op, x, y):
    if isinstance(x, str) or isinstance(y, str):
        return "?"
    try:
        return {"Add": lambda: x + y, "Sub": lambda: x - y, "Mul": lambda: x * y, "Div": lambda: x / y}[op]()
    except (KeyError, ZeroDivisionError, OverflowError):
        return "?"


def const_floats(f, public):
    """for every local of a fixed float type: the constants it can hold ("?" for a constant whose value is not followed), or None if it
    can hold data. Data enters a fixed type through a conversion (a call taking a value of a generic type), through a field of a type that
    is declared with a fixed float type, and through the parameters of public functions; parameters of private functions and of closures
    hold what their callers pass, which is judged at the caller."""
    body = f["body"]
    val = {}
    fl = {i for i, l in enumerate(body["locals"]) if floats_in(l["ty"])}
    TOP = None
    K = {"?"}
    closure = body["argc"] >= 1 and "{closure" in f["pretty"]

    def opv(o):
        if o["k"] == "const":
            c = o["c"]
            if c["k"] in ("float", "int"):
                return {float(c["v"])}
            return set()          # non-float constants, promoted and named constants are looked at where they are defined
        l = op_local(o)
        if l in fl:
            return val.get(l, set())
        return K if not has_param(body["locals"][l]["ty"]) and body["locals"][l]["ty"].get("t") == "prim" or closure and l == 1 else TOP

    def join(l, v, where):
        if l not in fl:
            return False
        old = val.get(l, set())
        new = TOP if old is TOP or v is TOP else old | v
        if new is not TOP and len(new) > 16:
            new = K
        if old is not TOP and "?" in old and new is not TOP:
            new = old | {"?"} if len(old) == 1 else new
        if new != old:
            val[l] = new
            if new is TOP:
                src.setdefault(l, where)
            return True
        return False
    src = {}
    for i in range(1, body["argc"] + 1):
        if i in fl:
            val[i] = TOP if public else set(K)
            src[i] = body["span"]
    ch = True
    n = 0
    while ch and n < 50:
        ch = False
        n += 1
        for b in body["blocks"]:
            if b["c"]:
                continue
            for s in b["s"]:
                if s["k"] != "assign" or s["p"]["l"] not in fl:
                    continue
                r = s["r"]
                if r["k"] == "use":
                    v = opv(r["o"])
                elif r["k"] in ("ref", "rawptr"):
                    l = r["p"]["l"]
                    v = val.get(l, set()) if l in fl else K if closure and l == 1 else TOP
                elif r["k"] == "agg":
                    v = set()
                    for o in r["ops"]:
                        w = opv(o)
                        if w is TOP and not (op_local(o) is not None and op_local(o) not in fl):
                            v = TOP
                            break
                        v = v | (w or set())
                elif r["k"] == "un":
                    v = opv(r["o"])
                    v = {x if isinstance(x, str) else -x for x in v} if v is not TOP and r["op"] == "Neg" else v
                elif r["k"] == "bin":
                    a, c = opv(r["l"]), opv(r["r"])
                    v = TOP if a is TOP or c is TOP else {arith(r["op"], x, y) for x in a for y in c}
                elif r["k"] == "cast":
                    v = opv(r["o"]) if r["ck"] in ("IntToFloat", "FloatToFloat") or r["ck"].startswith("PointerCoercion") else TOP
                    if r["ck"] == "FloatToFloat" and v is not TOP and r["ty"].get("n") == "f32":
                        v = {x if isinstance(x, str) else struct.unpack("f", struct.pack("f", x))[0] for x in v}
                elif r["k"] == "repeat":
                    v = opv(r["o"])
                elif r["k"] == "discr":
                    v = set()
                else:
                    v = TOP
                ch |= join(s["p"]["l"], v, s.get("s"))
            t = b["t"]
            if t["k"] == "call" and t["dest"]["l"] in fl:
                g = callee(t)
                tys = [body["locals"][op_local(a)]["ty"] if op_local(a) is not None else a["c"].get("ty") for a in t["args"]]
                data = g is None or any(op_local(a) in fl and opv(a) is TOP or has_param(ty) for a, ty in zip(t["args"], tys))
                keep = g is not None and g["krate"] in ("core", "std", "alloc") and t["args"] and g["name"] in ("clone", "into", "from", "into_iter", "iter", "borrow", "as_ref", "deref", "neg", "abs")
                if data:
                    v = TOP
                elif keep:
                    v = set()
                    for a in t["args"]:
                        w = opv(a)
                        v |= w if w is not TOP else K
                else:
                    v = K
                ch |= join(t["dest"]["l"], v, t.get("s"))
    return val, src, fl
