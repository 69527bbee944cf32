"""Abstract serde protocol: what a value's own Serialize code writes is a tree; a tree is read back through the
type's own Deserialize code.  The format itself is abstract: it hands back exactly what it was given, in the
entry order and access style (map with names / bytes / indices, or sequence) the rule asks for."""
import alg
from alg import R0, R1, rc
from values import *
from facts import unify

RES, OPT = "std::result::Result", "std::option::Option"


class Tree:
    """leaf value, or struct with named entries"""
    __slots__ = ("kind", "name", "entries", "value", "style", "cond", "read_name", "read_fields")

    def __init__(self, kind, name=None, entries=None, value=None, style="map"):
        self.kind, self.name, self.entries, self.value, self.style = kind, name, entries or [], value, style
        self.cond = []
        self.read_name = self.read_fields = None

    def struct(self, entries, style):
        t = Tree("struct", self.name, entries, None, style)
        return t


def ok(v):
    return En(RES, R0, {0: {"0": v}, 1: {"0": Op(("never",))}})


def err(why):
    return En(RES, R1, {0: {"0": Op(("never",))}, 1: {"0": Op(("serde_error", why))}})


def some_(v):
    return En(OPT, R1, {0: {}, 1: {"0": v}})


NONE = En(OPT, R0, {0: {}, 1: {"0": Op(("never",))}})


def payload(r):
    return r.v.get(0, {}).get("0", Op(("never",)))


def tree_of(M, v):
    v = M.val_safe(None, v) if False else v
    if isinstance(v, Op) and isinstance(v.k, tuple) and v.k and v.k[0] in ("scriptde", "scriptser", "mapst", "sseq"):
        return M.I.trees[v.k[1]]
    return None


def token(M, kind, tree, *st):
    M.I.trees.append(tree)
    return Op((kind, len(M.I.trees) - 1) + st)


def local_impl(M, trait, ty, name):
    if ty["t"] != "adt":
        return None
    im = M.I.F.find_impl(trait, ty)
    t = M.I.F.impl_item(im, name) if im else None
    return t if t is not None and t["local"] else None


def env_of(t, ty):
    e = {}
    unify(t["cont"]["self"], ty, e)
    return e


def de_value(M, st, ty, tree):
    """Result of <ty as Deserialize>::deserialize(the tree)"""
    while ty["t"] == "ref":
        ty = ty["e"]
    t = local_impl(M, "serde::Deserialize", ty, "deserialize")
    if t is not None:
        return M.I.run_fn(t, [token(M, "scriptde", tree)], env_of(t, ty), st)
    if tree.kind == "key":
        return ok(Str(tree.name))
    if ty["t"] == "adt" and ty["n"].split("::")[-1] == "Option":
        r = de_value(M, st, ty["a"][0], tree)
        return En(RES, r.d, {0: {"0": some_(payload(r))}, 1: r.v.get(1, {"0": Op(("never",))})})
    if ty["t"] == "adt" and ty["n"].split("::")[-1] == "IgnoredAny":
        return ok(UNIT)
    if tree.kind == "leaf":
        return ok(tree.value)
    raise Undef("deserialisation of %s from a struct" % (ty.get("n"),))


def visit(M, c, tree):
    """what the format does when asked for a value: drive the visitor"""
    visitor = c.args[-1]
    vty = None
    for x in reversed(c.a):
        if x["t"] == "adt" and M.I.F.find_impl("serde::de::Visitor", x):
            vty = x
            break
    if vty is None:
        raise Undef("visitor of unknown type")

    def run(name, arg):
        t = local_impl(M, "serde::de::Visitor", vty, name)
        if t is None:
            return None
        return M.I.run_fn(t, [visitor, arg], env_of(t, vty), c.st)
    if c.name == "deserialize_struct":
        tree.read_name = M.val_safe(c.st, c.args[1])
        tree.read_fields = M.val_safe(c.st, c.args[2])
    if tree.kind == "key":
        if tree.style == "index":
            r = run("visit_u64", rc(tree.value))
        elif tree.style == "bytes":
            r = run("visit_bytes", RV(Str(tree.name)))
            if r is None:
                r = run("visit_str", RV(Str(tree.name)))
        else:
            r = run("visit_str", RV(Str(tree.name)))
        return r if r is not None else err("invalid_type")
    if tree.kind == "struct":
        if tree.style == "seq":
            r = run("visit_seq", token(M, "sseq", tree, 0))
        else:
            r = run("visit_map", token(M, "mapst", tree, 0))
        if r is None and c.name == "deserialize_newtype_struct":
            r = run("visit_newtype_struct", token(M, "scriptde", tree))
        return r if r is not None else err("invalid_type")
    raise Undef("visitor over a leaf")


def next_key(M, c, tree, v):
    pos = v.k[2]
    K = c.dest["a"][0]["a"][0]
    if pos >= len(tree.entries):
        return ok(NONE)
    M.I.store(c.st, c.tgt(0), Op(("mapst", v.k[1], pos + 1)))
    name, sub, idx = tree.entries[pos]
    k = Tree("key", name, value=idx, style=tree.style)
    r = de_value(M, c.st, K, k)
    return En(RES, r.d, {0: {"0": some_(payload(r))}, 1: r.v.get(1, {"0": Op(("never",))})})


def next_value(M, c, tree, v):
    pos = v.k[2] - 1
    if pos < 0 or pos >= len(tree.entries):
        return err("value without key")
    return de_value(M, c.st, c.dest["a"][0], tree.entries[pos][1])


def next_element(M, c, tree, v):
    pos = v.k[2]
    if pos >= len(tree.entries):
        return ok(NONE)
    M.I.store(c.st, c.tgt(0), Op(("sseq", v.k[1], pos + 1)))
    r = de_value(M, c.st, c.dest["a"][0]["a"][0], tree.entries[pos][1])
    return En(RES, r.d, {0: {"0": some_(payload(r))}, 1: r.v.get(1, {"0": Op(("never",))})})


# ------------------------------------------------------------------ writing
def ser_value(M, st, ty, v):
    """tree written by <ty as Serialize>::serialize(v)"""
    while ty["t"] == "ref":
        ty = ty["e"]
    t = local_impl(M, "serde::Serialize", ty, "serialize")
    if t is None:
        x = M.val(st, v)
        if isinstance(x, (RV, Ref)):
            x = M.val(st, x)
        return Tree("leaf", ty, value=x)
    tree = Tree("struct")
    tok = token(M, "scriptser", tree)
    r = M.I.run_fn(t, [v if isinstance(v, (RV, Ref)) else RV(v), tok], env_of(t, ty), st)
    if not (isinstance(r, En) and r.d.is_zero()):
        tree.cond.append("serialisation may fail")
    if tree.kind == "newtype":
        return tree.value
    return tree


def ser_struct(M, c, tree):
    tree.name = M.val_safe(c.st, c.args[1])
    return ok(c.args[0] if isinstance(c.args[0], Op) else M.val(c.st, c.args[0]))


def ser_field(M, c, tree):
    name = M.val_safe(c.st, c.args[1])
    if not isinstance(name, Str):
        raise Undef("field name")
    if M.I.cur_pc is not None and not alg.eq(M.I.cur_pc, R1):
        tree.cond.append("field %s is written only when %r" % (name.s, M.I.cur_pc))
    tree.entries.append((name.s, ser_value(M, c.st, c.a[-1], c.args[2]), len(tree.entries)))
    return ok(UNIT)


def ser_end(M, c, tree):
    return ok(Op(("ser_end",)))
