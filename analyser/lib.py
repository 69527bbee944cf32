"""Shared vocabulary of the rules: cameras, bundles and their public operations on abstract inputs."""
import alg
from alg import Rat, R0, R1, rc, RHO
from values import *
from spec import World, Missing, N, DIMN

IPP = "IntrinsicParameters for IntrinsicParametersPerspective"
IPO = "IntrinsicParameters for IntrinsicParametersOrthographic"
PNAMES = ("fx", "fy", "skew", "cx", "cy")
ONAMES = ("sx", "sy", "cx", "cy")


def add(*xs):
    r = R0
    for x in xs:
        r = alg.add(r, torat(x))
    return r


def mul(*xs):
    r = R1
    for x in xs:
        r = alg.mul(r, torat(x))
    return r


sub = lambda a, b: alg.sub(torat(a), torat(b))
div = lambda a, b: alg.div(torat(a), torat(b))


def dot(a, b):
    return add(*[mul(x, y) for x, y in zip(a, b)])


def cross(a, b):
    return [sub(mul(a[1], b[2]), mul(a[2], b[1])), sub(mul(a[2], b[0]), mul(a[0], b[2])), sub(mul(a[0], b[1]), mul(a[1], b[0]))]


def rows(m):
    """generic row (as a list of value numbers over the row index) of an N-by-k matrix"""
    assert isinstance(m, Mat), m
    if m.sym == "r":
        return list(m.c)
    if m.sym is None and m.nr == 1:
        return [m.c[(0, j)] for j in range(m.nc)]
    raise AssertionError("row of %r" % (m,))


def rowmat(nr, cols):
    """nr-by-len(cols) matrix whose generic row is cols"""
    nr = toint(nr)
    if isinstance(nr, int):
        return mkmat(nr, len(cols), lambda i, j: vsubst(cols[j], {RHO: torat(i)}))
    return Mat(nr, len(cols), [torat(c) for c in cols], "r")


def rmul(m, v):
    """3x3 tuple times vector"""
    return [dot(m[i], v) for i in range(3)]


def rtmul(m, v):
    return [dot([m[k][i] for k in range(3)], v) for i in range(3)]


class Lib:
    """one analysis universe with the crate's public operations"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.w = ctx.world()
        self.w.I.overflow = ctx.pid in ("P12", "P19")
        self.pp = {k: self.w.real(k) for k in PNAMES}
        self.op = {k: self.w.real(k) for k in ONAMES}

    # ------------------------------------------------------------------ plumbing
    def n(self, n):
        """number of rows meant by the generic point-count parameter from here on"""
        self.w.I.dim_n = None if n is N else n
        return n

    def f(self, *names):
        return self.w.fn(*names)

    def call(self, f, *args, env=None):
        return self.w.call(f, *args, env=env)

    def argty(self, f, i):
        f = f if isinstance(f, dict) else self.f(*f)
        t = f["body"]["locals"][1 + i]["ty"]
        while t["t"] == "ref":
            t = t["e"]
        return t

    def opaque(self, f, i, name):
        return self.w.M.opaque(self.argty(f, i), ("in", name))

    # ------------------------------------------------------------------ values
    def points(self, name="x", n=N):
        return self.call(("Points", "new"), self.w.mat(name, n, 3))

    def points_of(self, m):
        return self.call(("Points", "new"), m)

    def pixels(self, name="uv", n=N):
        return self.call(("Pixels", "new"), self.w.mat(name, n, 2))

    def data(self, v):
        return self.w.M.field(v, "data")

    # ------------------------------------------------------------------ intrinsics
    def persp(self):
        return self.call(("From for IntrinsicParametersPerspective", "from"), self.w.struct("PerspectiveParams", **self.pp))

    def ortho(self):
        return self.call(("From for IntrinsicParametersOrthographic", "from"), self.w.struct("OrthographicParams", **self.op))

    def intr(self, kind):
        return (self.persp(), IPP) if kind == "perspective" else (self.ortho(), IPO)

    # ------------------------------------------------------------------ extrinsics
    def extr(self, C=None):
        return self.call(("ExtrinsicParameters", "from_rotation_and_camcenter"), self.w.rot("q"), C if C is not None else self.w.vec3("C"))

    def E(self, m, *a):
        return self.call(("ExtrinsicParameters", m), *a)

    def R(self, r):
        """3x3 tuple of a rotation value"""
        if isinstance(r, Rot):
            return r.m
        m = self.w.M.as_mat(r)
        return tuple(tuple(m.get(i, j) for j in range(3)) for i in range(3))

    def vec(self, v):
        if isinstance(v, Iso):
            v = colvec(v.t)
        if isinstance(v, St) and "data" in v.f:
            v = v.f["data"]
        return self.w.M.as_mat(v).vec()

    # ------------------------------------------------------------------ bundles
    def B(self, m, *a):
        return self.call(("RayBundle", m), *a)

    def bundle(self, kind, name="d", n=N):
        if kind == "shared-origin":
            return self.B("new_shared_zero_origin", self.w.mat(name, n, 3))
        return self.B("new_shared_plusz_direction", self.w.mat(name, n, 3))

    def camera(self, i, e):
        return self.call(("Camera", "new"), i, e)


def project_expected(pp, X):
    """pinhole projection law"""
    x, y, z = X
    return [add(div(add(mul(pp["fx"], x), mul(pp["skew"], y), mul(pp["cx"], z)), z)), div(add(mul(pp["fy"], y), mul(pp["cy"], z)), z)]


def ortho_expected(op, X):
    return [add(mul(op["sx"], X[0]), op["cx"]), add(mul(op["sy"], X[1]), op["cy"])]
