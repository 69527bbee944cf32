"""Running public functions of the analysed crate on abstract inputs."""
import alg
from alg import Rat, R0, R1, rc, RHO
from values import *
from facts import Facts, tysub, unify, dimof, nat
from interp import Interp, State, Diverge
from models import REALT

N = nat("N")
DIMN = {"t": "dim", "v": N}


class Missing(Exception):
    """a public item the property is about does not exist (any more)"""


class World:
    def __init__(self, facts):
        self.F = facts
        self.I = Interp(facts)
        self.M = self.I.M
        self.st = State()

    # ------------------------------------------------------------------ items
    def fn(self, *names):
        """public function by path suffix: ('Camera','new') or ('best_intersection_of_rays',);
        ('Bundle for SharedOriginRayBundle','directions') for trait impls"""
        if len(names) == 1:
            l = [f for f in self.F.local_fns() if f["name"] == names[0] and f["cont"]["kind"] == "free"]
        elif " for " in names[0]:
            tr, ty = names[0].split(" for ")
            l = self.F.trait_method(tr, ty, names[1])
        else:
            l = self.F.method(names[0], names[1])
        if len(l) != 1:
            raise Missing("%s (%d candidates)" % ("::".join(names), len(l)))
        return l[0]

    def adt(self, name):
        a = self.F.adt(name)
        if a is None:
            raise Missing("type " + name)
        return a

    # ------------------------------------------------------------------ inputs
    def inp(self, ty, name):
        return self.M.opaque(ty, ("in", name))

    def real(self, name):
        return alg.ratom(("read", name))

    def mat(self, name, nr, nc):
        return mkmat(nr, nc, lambda i, j: alg.ratom(("read", name, torat(i), torat(j))))

    def rot(self, name):
        m, q = self.M.rand_rot(("in", name))
        return Rot("q", m, q)

    def vec3(self, name):
        return colvec([alg.ratom(("read", name, rc(i), R0)) for i in range(3)])

    def struct(self, name, **fields):
        a = self.adt(name)
        have = {f["n"] for f in a["variants"][0]["fields"]}
        if not set(fields) <= have:
            raise Missing("fields %s of %s" % (sorted(set(fields) - have), name))
        fs = {}
        for f in a["variants"][0]["fields"]:
            n = f["n"]
            if n in fields:
                fs[n] = fields[n]
            elif f["ty"]["t"] == "adt" and f["ty"]["n"].endswith("PhantomData"):
                fs[n] = St("PhantomData", {})
            else:
                raise Missing("unexpected field %s of %s" % (n, name))
        return St(a["n"], fs)

    # ------------------------------------------------------------------ calls
    def call(self, f, *args, env=None):
        if not isinstance(f, dict):
            f = self.fn(*f)
        args = [RV(a) if self.is_ref(f, i) and not isinstance(a, (RV, Ref)) else a for i, a in enumerate(args)]
        v = self.I.run_fn(f, args, env or {}, self.st)
        return self.M.val(self.st, v)

    def icall(self, trait, method, *args, dyn=False):
        """result of a trait method on an implementor the analysis knows nothing about"""
        for f in sorted(self.F.local_fns(), key=lambda f: (not any(p["trait"].split("::")[-1] in ("Dim", "DimName") for p in f.get("preds", ())), f["id"])):
            for b in f["body"]["blocks"]:
                t = b["t"]
                if t["k"] != "call" or t["f"]["k"] != "const" or t["f"]["c"]["k"] != "fn":
                    continue
                g = t["f"]["c"]["f"]
                if g["name"] == method and g["cont"]["kind"] == "trait" and g["cont"]["trait"].split("::")[-1] == trait and g["cont"]["self"]["t"] != "adt":
                    env = self.I.norm_env(f, {})
                    ty = tysub(f["body"]["locals"][t["dest"]["l"]]["ty"], env)
                    if dyn and "Dyn" not in repr(ty):
                        continue
                    return self.M.icall(ty, g["pretty"], [self.M.val_safe(self.st, a) for a in args])
        raise Missing("use of %s::%s on a generic implementor" % (trait, method))

    def is_ref(self, f, i):
        return f["body"]["locals"][1 + i]["ty"]["t"] == "ref"
