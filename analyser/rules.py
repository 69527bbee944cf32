"""The rules of each property, as obligations over the value-flow summaries of the public API."""
import alg
from fractions import Fraction
from alg import Rat, R0, R1, rc, RHO
from values import *
from spec import World, Missing, N
from lib import *
from check import Ctx, short
from facts import tysub
from interp import Diverge, Undef


# ====================================================================== P01 perspective projection
def p01(c):
    L = Lib(c)
    f = c.guard("R1.projection-law", IPP, lambda: L.f(IPP, "camera_to_pixel"))
    if f is None:
        return

    def law(i, name):
        pts = L.points()
        px = L.call(f, i, pts)
        c.eq("R1.projection-law", f, L.data(px), rowmat(N, project_expected(L.pp, rows(L.data(pts)))), name + ": pixel")

    @c.group("R1.projection-law", f)
    def _():
        law(L.persp(), "built from parameters")

    @c.group("R1.projection-law.single-point", f)
    def _():
        pts = L.points("x1", L.n(rc(1)))
        px = L.call(f, L.persp(), pts)
        c.eq("R1.projection-law.single-point", f, L.data(px), rowmat(rc(1), project_expected(L.pp, rows(L.data(pts)))), "pixel")
        L.n(N)

    g = c.guard("R2.matrix-route", IPP, lambda: L.f("IntrinsicParametersPerspective", "from_normalized_3x4_matrix"))
    if g:
        @c.group("R2.matrix-route", g)
        def _():
            m = colrows([[L.pp["fx"], L.pp["skew"], L.pp["cx"], R0], [R0, L.pp["fy"], L.pp["cy"], R0], [R0, R0, R1, R0]])
            r = L.call(g, m)
            i = ok_payload(r)
            law(i, "built from a normalised matrix")
            for k in PNAMES:
                c.eq("R2.matrix-route.parameters", g, L.call(("IntrinsicParametersPerspective", k), i), L.pp[k], k)
    for k in PNAMES:
        @c.group("R3.parameters-reported", "IntrinsicParametersPerspective::" + k)
        def _():
            ff = L.f("IntrinsicParametersPerspective", k)
            c.eq("R3.parameters-reported", ff, L.call(ff, L.persp()), L.pp[k], k)

    @c.group("R3.parameters-reported", "IntrinsicParametersPerspective::params")
    def _():
        ff = L.f("IntrinsicParametersPerspective", "params")
        p = L.call(ff, L.persp())
        for k in PNAMES:
            c.eq("R3.parameters-reported", ff, L.w.M.val(L.w.st, L.w.M.field(p, k)), L.pp[k], "params." + k)
    no_failures(c, L, "R4.no-abort-on-the-way")


def colrows(rs):
    return mkmat(len(rs), len(rs[0]), lambda i, j: rs[i][j])


def ok_payload(r):
    if not isinstance(r, En):
        raise Undef("Result expected, got %r" % (r,))
    if r.d.const() != 0:
        raise Undef("call may fail: discriminant %s" % short(r.d))
    return r.v[0]["0"]


def imprecise(cond):
    """a condition over unknown values, or over loop variables no summary was found for"""
    return alg.has_unk(cond)


def impossible(o):
    """an abort no choice of the integers it depends on leads to, though that was not shown in general"""
    if o.get("impossible") is None:
        d = o["fail"]
        for p in [o["pc"]] + o["pcs"]:
            d = mul(d, p)
        try:
            o["impossible"] = d.is_zero() or alg.of_form_only(d, o["facts"])
        except (alg.Blowup, Undef, RecursionError):
            o["impossible"] = False
    return o["impossible"]


def no_failures(c, L, rule):
    """every panic obligation met on the way is discharged"""
    bad = [o for o in L.w.I.obl if not o["ok"]]
    c.count("panic_obligations", len(L.w.I.obl))
    for o in bad:
        c.rec(rule, (o["fn"] or "?", o["span"]), False, "%s possible: %s" % (o["kind"], short(o["fail"])), imprecise(o["fail"]) or impossible(o))
    if not bad:
        c.rec(rule, ("(all analysed functions)", ""), True)
    L.w.I.obl.clear()


# ====================================================================== P02 / P03 back-projection
def backprojection(c, kind, rule_ray):
    L = Lib(c)
    tr = IPP if kind == "perspective" else IPO
    mk = L.persp if kind == "perspective" else L.ortho

    @c.group("R1.ray-reprojects", tr)
    def _():
        f, g = L.f(tr, "pixel_to_camera"), L.f(tr, "camera_to_pixel")
        i = mk()
        uv = L.pixels()
        rays = L.call(f, i, uv)
        ce, di = L.B("centers", rays), L.B("directions", rays)
        t = L.w.real("t")
        pts = rowmat(N, [add(a, mul(t, b)) for a, b in zip(rows(ce), rows(di))])
        px = L.call(g, i, L.points_of(pts))
        c.eq("R1.ray-reprojects", f, L.data(px), L.data(uv), "pixel of the point at parameter t: ")
        for nm, args in (("point_on_ray", ()), ("point_on_ray_at_distance", (L.w.real("dist"),))):
            p = L.B(nm, rays, *args)
            px = L.call(g, i, p)
            c.eq("R2.%s-reprojects" % nm, f, L.data(px), L.data(uv), "pixel of " + nm)
        # and with a single pixel
        uv1 = L.pixels("uv1", L.n(rc(1)))
        r1 = L.call(f, i, uv1)
        px = L.call(g, i, L.B("point_on_ray", r1))
        c.eq("R2.single-pixel", f, L.data(px), L.data(uv1), "pixel")
        L.n(N)
        rule_ray(c, L, f, i, ce, di)

    @c.group("R3.projected-point-is-on-its-ray", tr)
    def _():
        f, g = L.f(tr, "pixel_to_camera"), L.f(tr, "camera_to_pixel")
        i = mk()
        pts = L.points("p")
        rays = L.call(f, i, L.call(g, i, pts))
        ce, di = rows(L.B("centers", rays)), rows(L.B("directions", rays))
        X = rows(L.data(pts))
        for k, z in enumerate(cross([sub(a, b) for a, b in zip(X, ce)], di)):
            c.zero("R3.projected-point-is-on-its-ray", f, z, "component %d of (point-centre)×direction" % k)
        # in front of the camera, the ray points forwards: direction·z has the sign of the point's depth
        if kind == "perspective":
            k = div(di[2], X[2])
            # direction = k * point with k > 0 wherever depth > 0, i.e. direction z must be a positive constant
            c.holds("R4.ray-points-forward", f, di[2].const() is not None and di[2].const() > 0, "z of the ray direction is %s" % short(di[2]), di[2])
    no_failures(c, L, "R5.no-abort-on-the-way")


def p02(c):
    def ray(c, L, f, i, ce, di):
        c.eq("R4.rays-start-at-camera-origin", f, ce, rowmat(N, [R0, R0, R0]), "centres")
    backprojection(c, "perspective", ray)


def p03(c):
    def ray(c, L, f, i, ce, di):
        c.eq("R4.rays-parallel-to-optical-axis", f, di, rowmat(N, [R0, R0, R1]), "directions")
        c.zero("R4.rays-start-on-the-camera-plane", f, rows(ce)[2], "z of the ray centre")
    backprojection(c, "orthographic", ray)
    L = Lib(c)

    @c.group("R6.orthographic-law", IPO)
    def _():
        f = L.f(IPO, "camera_to_pixel")
        pts = L.points()
        px = L.call(f, L.ortho(), pts)
        c.eq("R6.orthographic-law", f, L.data(px), rowmat(N, ortho_expected(L.op, rows(L.data(pts)))), "pixel")
    no_failures(c, L, "R5.no-abort-on-the-way")


# ====================================================================== P04 extrinsic transform
def routes(c, L, which=("rotation+centre", "pose")):
    """extrinsic parameters by each public construction route, with the R and C they must mean"""
    out = []
    if "rotation+centre" in which:
        q, C = L.w.rot("q"), L.w.vec3("C")
        f = L.f("ExtrinsicParameters", "from_rotation_and_camcenter")
        out.append(("rotation+centre", f, L.call(f, q, C), q.m, C.vec()))
    if "pose" in which:
        f = L.f("ExtrinsicParameters", "from_pose")
        iso = L.opaque(f, 0, "pose")
        iso = L.w.M.val(L.w.st, iso)
        out.append(("pose", f, L.call(f, iso), iso.r.m, [alg.neg(x) for x in rtmul(iso.r.m, iso.t)]))
    return out


def p04(c):
    L = Lib(c)

    @c.group("R1.world-to-camera", "ExtrinsicParameters")
    def _():
        for name, ctor, e, R, C in routes(c, L):
            w2c, c2w = L.f("ExtrinsicParameters", "world_to_camera"), L.f("ExtrinsicParameters", "camera_to_world")
            for n, nm in ((N, "x"), (rc(1), "x1")):
                pts = L.points(nm, L.n(n))
                X = rows(L.data(pts))
                r = L.call(w2c, e, pts)
                c.eq("R1.world-to-camera", w2c, L.data(r), rowmat(n, rmul(R, [sub(x, y) for x, y in zip(X, C)])), name + ": camera coordinates")
                s = L.call(c2w, e, pts)
                c.eq("R2.camera-to-world", c2w, L.data(s), rowmat(n, [add(x, y) for x, y in zip(rtmul(R, X), C)]), name + ": world coordinates")
                c.eq("R3.round-trip-from-world", c2w, L.data(L.call(c2w, e, r)), L.data(pts), name)
                c.eq("R3.round-trip-from-camera", w2c, L.data(L.call(w2c, e, s)), L.data(pts), name)
                # rigid: squared norm of differences
                d2 = dot([sub(a, b) for a, b in zip(rows(L.data(r)), rmul(R, [alg.neg(x) for x in C]))], [sub(a, b) for a, b in zip(rows(L.data(r)), rmul(R, [alg.neg(x) for x in C]))])
                c.zero("R4.rigid", w2c, sub(d2, dot(X, X)), name + ": change of squared distance to the world origin")
    no_failures(c, L, "R5.no-abort-on-the-way")


def pose_accessors(c, L, rule, e, R, C, name):
    A = lambda m: L.f("ExtrinsicParameters", m)
    t = rmul(R, [alg.neg(x) for x in C])
    f = A("camcenter")
    c.eq(rule, f, colvec(L.vec(L.call(f, e))), colvec(C), name + ": centre")
    f = A("rotation")
    c.eq(rule, f, tomat3(L.R(L.call(f, e))), tomat3(R), name + ": rotation")
    f = A("translation")
    c.eq(rule, f, colvec(L.vec(L.call(f, e))), colvec(t), name + ": translation")
    f = A("pose")
    p = L.call(f, e)
    c.eq(rule, f, tomat3(p.r.m), tomat3(R), name + ": pose rotation")
    c.eq(rule, f, colvec(list(p.t)), colvec(t), name + ": pose translation")
    f = A("matrix")
    c.eq(rule, f, L.w.M.as_mat(L.call(f, e)), colrows([list(R[i]) + [t[i]] for i in range(3)]), name + ": matrix")
    return p


def p05(c):
    L = Lib(c)

    def accessors(*a):
        return pose_accessors(c, L, *a)

    @c.group("R1.accessors-agree", "ExtrinsicParameters")
    def _():
        for name, ctor, e, R, C in routes(c, L):
            p = accessors("R1.accessors-agree", e, R, C, name)
            f = L.f("ExtrinsicParameters", "from_pose")
            e2 = L.call(f, p)
            accessors("R2.pose-round-trip", e2, R, C, name + " → pose → back")
            g = L.f("ExtrinsicParameters", "world_to_camera")
            c.eq("R3.rebuilt-camera-maps-the-same", g, L.data(L.call(g, e2, L.points("y"))), L.data(L.call(g, e, L.points("y"))), name)
    no_failures(c, L, "R4.no-abort-on-the-way")


def tomat3(m):
    return colrows([list(r) for r in m])


PROPS = {"P01": p01, "P02": p02, "P03": p03, "P04": p04, "P05": p05}


# ====================================================================== P06 look-at construction
def p06(c):
    L = Lib(c)

    @c.group("R1.look-at", "ExtrinsicParameters::from_view")
    def _():
        f = L.f("ExtrinsicParameters", "from_view")
        cc = L.w.vec3("C")
        d = L.w.vec3("d").vec()         # viewing displacement
        look = colvec([add(a, b) for a, b in zip(cc.vec(), d)])
        up = L.w.M.as_mat(L.w.M.val(L.w.st, L.opaque(f, 2, "up")))
        u = up.vec()
        e = L.call(f, cc, look, up)
        acc = lambda m: L.vec(L.E(m, e))
        c.eq("R1.centre-is-the-given-centre", f, colvec(acc("camcenter")), cc, "centre")
        R = L.R(L.E("rotation", e))
        # proper rotation: rows orthonormal, right-handed
        for i in range(3):
            for j in range(i, 3):
                c.eq("R2.orientation-is-a-rotation", f, dot(R[i], R[j]), R1 if i == j else R0, "row %d · row %d" % (i, j))
        for k, z in enumerate(cross(R[0], R[1])):
            c.eq("R2.orientation-is-right-handed", f, z, R[2][k], "(row0×row1)[%d]" % k)
        fw, upv, rt = acc("forward"), acc("up"), acc("right")
        nd = alg.sqrt(dot(d, d))
        for k in range(3):
            c.eq("R3.forward-is-the-viewing-direction", f, mul(fw[k], nd), d[k], "forward[%d]·|lookat-centre|" % k)
        # image-up is the component of the up hint orthogonal to the viewing direction, positively
        s = div(dot(u, d), dot(d, d))
        pu = [sub(a, mul(s, b)) for a, b in zip(u, d)]
        npu = alg.sqrt(dot(pu, pu))
        for k in range(3):
            c.eq("R4.up-follows-the-hint", f, mul(upv[k], npu), pu[k], "up[%d]·|hint orthogonal to view|" % k)
        for k, z in enumerate(cross(fw, upv)):
            c.eq("R5.right-completes-the-frame", f, rt[k], z, "right[%d]" % k)
        cam = L.camera(L.persp(), e)
        L.n(rc(1))
        px = rows(L.data(L.call(("Camera", "world_to_pixel"), cam, L.points_of(mkmat(1, 3, lambda i, j: look.vec()[j])))))
        c.eq("R6.target-is-at-the-principal-point", f, px[0], L.pp["cx"], "u of the look-at point")
        c.eq("R6.target-is-at-the-principal-point", f, px[1], L.pp["cy"], "v of the look-at point")
    no_failures(c, L, "R7.no-abort-on-the-way")


# ====================================================================== P07 camera axes
def p07(c):
    L = Lib(c)

    @c.group("R1.axes", "ExtrinsicParameters")
    def _():
        for name, ctor, e, R, C in routes(c, L):
            ax = {}
            want = {"forward": list(R[2]), "right": list(R[0]), "up": [alg.neg(x) for x in R[1]]}
            sticky = set()
            for x in C:
                sticky |= {a for a in alg.deps(x) if "quat" not in str(alg.ATOMS[a])}
            for m in ("forward", "up", "right"):
                f = L.f("ExtrinsicParameters", m)
                ev = watch(L, sticky, lambda: ax.__setitem__(m, L.vec(L.call(f, e))))
                for k in range(3):
                    c.eq("R1.axis-is-the-camera-frame-axis", f, ax[m][k], want[m][k], "%s: %s[%d]" % (name, m, k))
                c.eq("R2.unit-length", f, dot(ax[m], ax[m]), R1, name + ": squared length")
                if ev:
                    for at in sorted(ev):
                        c.rec("R4.direction-independent-of-position", at, False,
                              "the direction is obtained by cancelling the camera position (%s), so it loses all precision far from the origin" % name)
                else:
                    c.rec("R4.direction-independent-of-position", f, True)
            c.zero("R3.mutually-orthogonal", ctor, dot(ax["forward"], ax["up"]), "forward·up")
            c.zero("R3.mutually-orthogonal", ctor, dot(ax["forward"], ax["right"]), "forward·right")
            c.zero("R3.mutually-orthogonal", ctor, dot(ax["up"], ax["right"]), "up·right")
            for k, z in enumerate(cross(ax["forward"], ax["up"])):
                c.eq("R3.right-is-forward-cross-up", ctor, ax["right"][k], z, "right[%d]" % k)
            # agree with the frame transform
            o = rows(L.data(L.E("camera_to_world", e, L.points_of(mkmat(N, 3, lambda i, j: R0)))))
            for m, v in (("forward", (0, 0, 1)), ("up", (0, -1, 0)), ("right", (1, 0, 0))):
                p = rows(L.data(L.E("camera_to_world", e, L.points_of(mkmat(N, 3, lambda i, j: rc(v[j]))))))
                for k in range(3):
                    c.eq("R5.axes-agree-with-the-frame-transform", L.f("ExtrinsicParameters", m), ax[m][k], sub(p[k], o[k]), "%s: %s[%d]" % (name, m, k))
    no_failures(c, L, "R6.no-abort-on-the-way")


def watch(L, sticky, thunk):
    """sites at which terms of the watched atoms cancel exactly while thunk runs"""
    ev = set()
    alg._MULC.clear()
    alg.STICKY.update(sticky)

    def hit():
        st = L.w.I.stack
        ev.add((st[-1] if st else "?", L.w.I.cur_span or ""))
    saved = alg.ON_CANCEL[0]
    alg.ON_CANCEL[0] = hit
    try:
        thunk()
    finally:
        alg.STICKY.clear()
        alg.ON_CANCEL[0] = saved
    return ev


# ====================================================================== P08 ray bundles
KINDS = ("shared-origin", "shared-direction")


def bundles(c, L, n=N):
    """(name, bundle value, expected centre row, expected direction row) of both kinds, in the camera frame and
    carried into the world by arbitrary extrinsics"""
    for kind in KINDS:
        b = L.bundle(kind, "d", n)
        d = [alg.ratom(("read", "d", Rat(alg.patom(RHO)) if L.w.I.dim_n is None else R0, rc(j))) for j in range(3)]
        z = [R0, R0, R0]
        if kind == "shared-origin":
            yield kind + " (camera frame)", b, z, d
        else:
            yield kind + " (camera frame)", b, d, [R0, R0, R1]
        q, C = L.w.rot("q"), L.w.vec3("C")
        e = L.call(("ExtrinsicParameters", "from_rotation_and_camcenter"), q, C)
        b2 = L.E("ray_camera_to_world", e, b)
        ce, di = (z, d) if kind == "shared-origin" else (d, [R0, R0, R1])
        fb = free_bundle(L, kind, n)
        if fb:
            yield (kind + " (deserialised)",) + fb
        yield kind + " (world frame)", b2, [add(a, x) for a, x in zip(rtmul(q.m, ce), C.vec())], rtmul(q.m, di)


def free_bundle(L, kind, n=N):
    """(bundle, centre row, direction row) with arbitrary shared data, as deserialisation can produce; None where the
    shared part is not one plain vector (then its fields may be tied to each other)"""
    b = L.bundle(kind, "d", n)
    d = [alg.ratom(("read", "d", Rat(alg.patom(RHO)) if L.w.I.dim_n is None else R0, rc(j))) for j in range(3)]
    for k, v in b.f.items():
        if isinstance(v, St) and v.n.split("::")[-1].endswith("RayBundle"):
            a = L.w.adt(v.n.split("::")[-1])
            fs = a["variants"][0]["fields"]
            if len(fs) != 1 or fs[0]["ty"].get("n", "").split("::")[-1] not in ("OPoint", "Matrix"):
                return None
            g = L.vec(v.f[fs[0]["n"]])
            if len(g) != 3:
                return None
            x = [alg.ratom(("read", "shared", rc(i), R0)) for i in range(3)]
            m = L.w.M.as_mat(v.f[fs[0]["n"]])
            nv = mkmat(m.nr, m.nc, lambda i, j: x[i + j])
            f2 = dict(b.f)
            f2[k] = St(v.n, {fs[0]["n"]: nv})
            return (St(b.n, f2),) + ((x, d) if kind == "shared-origin" else (d, x))
    return None


def bundle_fn(L, kind, m):
    t = "SharedOriginRayBundle" if kind.startswith("shared-origin") else "SharedDirectionRayBundle"
    try:
        return L.f("Bundle for " + t, m)
    except Missing:
        return L.f("RayBundle", m)


def p08(c):
    L = Lib(c)
    for n in (N, rc(1)):
        @c.group("R1.bundle-queries", "RayBundle")
        def _():
            L.n(n)
            for kind, b, ce, di in bundles(c, L, n):
                one = "" if n is N else " single"
                f = bundle_fn(L, kind, "centers")
                ce = rowmat(n, ce)
                di = rowmat(n, di)
                c.eq("R1.centers", f, L.B("centers", b), ce, kind + one + ": centres")
                f = bundle_fn(L, kind, "directions")
                c.eq("R1.directions", f, L.B("directions", b), di, kind + one + ": directions")
                if n is not N:
                    f = bundle_fn(L, kind, "to_single_ray")
                    r = L.B("to_single_ray", b)
                    c.eq("R2.single-ray-centre", f, L.w.M.as_mat(L.w.M.field(r, "center")), ce, kind)
                    c.eq("R2.single-ray-direction", f, L.w.M.as_mat(L.w.M.field(r, "direction")), di, kind)
                f = bundle_fn(L, kind, "point_on_ray")
                p = rows(L.data(L.B("point_on_ray", b)))
                v = [sub(x, y) for x, y in zip(p, rows(ce))]
                for k in range(3):
                    # documented: centre plus direction
                    c.eq("R3.point-on-ray", f, p[k], add(rows(ce)[k], rows(di)[k]), kind + one + ": coordinate %d" % k)
                f = bundle_fn(L, kind, "point_on_ray_at_distance")
                t = L.w.real("dist")
                p = rows(L.data(L.B("point_on_ray_at_distance", b, t)))
                v = [sub(x, y) for x, y in zip(p, rows(ce))]
                for k, z in enumerate(cross(v, rows(di))):
                    c.zero("R4.point-at-distance-is-on-the-ray", f, z, kind + one + ": component %d of (p-centre)×direction" % k)
                c.eq("R5.point-is-at-the-distance", f, dot(v, v), mul(t, t), kind + one + ": squared distance")
                c.eq("R6.point-is-on-the-forward-side", f, mul(dot(v, rows(di))), mul(t, alg.sqrt(dot(rows(di), rows(di)))), kind + one + ": (p-centre)·direction")
    no_failures(c, L, "R7.no-abort-on-the-way")


# ====================================================================== P09 rays follow the pose
def p09(c):
    import models
    L = Lib(c)
    for n in (N, rc(1)):
        @c.group("R1.rays-follow-the-pose", "ExtrinsicParameters::ray_camera_to_world")
        def _():
            L.n(n)
            f = L.f("ExtrinsicParameters", "ray_camera_to_world")
            for name, ctor, e, R, C in routes(c, L):
                for kind in KINDS:
                    b = L.bundle(kind, "d", n)
                    w = L.call(f, e, b)
                    g = bundle_fn(L, kind, "to_pose")
                    lab = "%s, %s" % (kind, name)
                    ce = L.B("centers", b)
                    want = L.data(L.E("camera_to_world", e, L.points_of(ce)))
                    c.eq("R1.centres-are-transformed-points", g, L.B("centers", w), want, lab)
                    di = L.B("directions", b)
                    c.eq("R2.directions-are-rotated", g, L.B("directions", w), rowmat(n, rtmul(R, rows(di))), lab)
                    t = L.w.real("dist")
                    p1 = L.E("camera_to_world", e, L.B("point_on_ray_at_distance", b, t))
                    c.eq("R3.points-at-distance-commute", g, L.data(L.B("point_on_ray_at_distance", w, t)), L.data(p1), lab)
                    # world point mapped back into the camera stays on the camera ray
                    p2 = rows(L.data(L.E("world_to_camera", e, L.B("point_on_ray", w))))
                    for k, z in enumerate(cross([sub(x, y) for x, y in zip(p2, rows(ce))], rows(di))):
                        c.zero("R4.world-ray-is-the-camera-ray", g, z, lab + ": component %d" % k)
    for n in (N, rc(1)):
        @c.group("R6.any-bundle-any-pose", "Bundle::to_pose")
        def _():
            L.n(n)
            for kind in KINDS:
                fb = free_bundle(L, kind, n)
                if fb is None:
                    continue
                b, ce, di = fb
                g = bundle_fn(L, kind, "to_pose")
                part = lambda b: next(v for k, v in b.f.items() if isinstance(v, St) and v.n.split("::")[-1].endswith("RayBundle"))
                move = lambda b, iso: L.call(g, part(b), iso, L.data(b))
                iso = L.w.M.val(L.w.st, L.opaque(g, 1, "pose"))
                lab = "%s, any shared part" % kind
                w = move(b, iso)
                mv = lambda m, v, t: [add(x, y) for x, y in zip(m(iso.r.m, v), t)]
                z = [R0, R0, R0]
                c.eq("R6.centres-are-moved", g, L.B("centers", w), rowmat(n, mv(rmul, ce, iso.t)), lab)
                c.eq("R6.directions-are-rotated", g, L.B("directions", w), rowmat(n, mv(rmul, di, z)), lab)
                back = models.isoinv(iso)
                r = move(w, back)
                c.eq("R7.inverse-pose-restores-the-rays", g, L.B("centers", r), rowmat(n, ce), lab + ": centres")
                c.eq("R7.inverse-pose-restores-the-rays", g, L.B("directions", r), rowmat(n, di), lab + ": directions")
    no_failures(c, L, "R5.no-abort-on-the-way")


# ====================================================================== P10 cameras compose
def p10(c):
    L = Lib(c)

    @c.group("R1.camera-composes", "Camera")
    def _():
        f, g = L.f("Camera", "world_to_pixel"), L.f("Camera", "pixel_to_world")
        for name, ctor, e, R, C in routes(c, L):
            # any intrinsic model: an implementor the analysis knows nothing about
            m = L.opaque(L.f("Camera", "new"), 0, "model")
            cam = L.camera(m, e)
            pts, uv = L.points(), L.pixels()
            want = L.w.icall("IntrinsicParameters", "camera_to_pixel", m, L.E("world_to_camera", e, pts))
            c.eq("R1.pixel-of-world-point", f, L.call(f, cam, pts), want, name + ", any model: ")
            got = L.call(g, cam, uv)
            want = L.E("ray_camera_to_world", e, L.w.icall("IntrinsicParameters", "pixel_to_camera", m, uv))
            c.eq("R2.world-ray-of-pixel", g, got, want, name + ", any model: ")
        for kind in ("perspective", "orthographic"):
            i, tr = L.intr(kind)
            cam = L.camera(i, e)
            pts, uv = L.points(), L.pixels()
            px = L.call(f, cam, pts)
            X = rmul(R, [sub(a, b) for a, b in zip(rows(L.data(pts)), C)])
            exp = project_expected(L.pp, X) if kind == "perspective" else ortho_expected(L.op, X)
            c.eq("R3.pixel-of-world-point", f, L.data(px), rowmat(N, exp), kind)
            rays = L.call(g, cam, uv)
            ce, di = rows(L.B("centers", rays)), rows(L.B("directions", rays))
            for nm, args in (("point_on_ray", ()), ("point_on_ray_at_distance", (L.w.real("dist"),))):
                c.eq("R4.pixel-ray-pixel", g, L.data(L.call(f, cam, L.B(nm, rays, *args))), L.data(uv), kind + ", " + nm)
            if kind == "perspective":
                c.eq("R5.rays-pass-through-the-camera-centre", g, rowmat(N, ce), rowmat(N, C), kind)
            else:
                c.eq("R5.rays-parallel-to-the-viewing-direction", g, rowmat(N, di), rowmat(N, R[2]), kind)
            # a world point lies on the ray of its pixel
            rays = L.call(g, cam, px)
            ce, di = rows(L.B("centers", rays)), rows(L.B("directions", rays))
            for k, z in enumerate(cross([sub(a, b) for a, b in zip(rows(L.data(pts)), ce)], di)):
                c.zero("R6.point-on-the-ray-of-its-pixel", g, z, "%s: component %d" % (kind, k))
            h = L.f("Camera", "intrinsics")
            c.eq("R7.parts-are-returned", h, L.call(h, cam), i, kind)
            h = L.f("Camera", "extrinsics")
            c.eq("R7.parts-are-returned", h, L.call(h, cam), e, kind)
    no_failures(c, L, "R8.no-abort-on-the-way")


PROPS.update({"P06": p06, "P07": p07, "P08": p08, "P09": p09, "P10": p10})


# ====================================================================== P11 / P12 best intersection
def ray_list(L, n, name="ray"):
    f = L.f("Ray", "new")
    ce = mkmat(1, 3, lambda i, j: alg.ratom(("read", name + ".c", Rat(alg.patom(RHO)), rc(j))))
    di = mkmat(1, 3, lambda i, j: alg.ratom(("read", name + ".d", Rat(alg.patom(RHO)), rc(j))))
    r = L.call(f, ce, di)
    n = toint(n)
    if isinstance(n, int):
        return Ar([vsubst(r, {RHO: rc(i)}) for i in range(n)]), ce.vec(), di.vec()
    return Fam(n, r), ce.vec(), di.vec()


def normal_equations(n, ce, di):
    d2 = dot(di, di)
    T = torat(n)

    def perp(i, j):
        return sub(R1 if i == j else R0, div(mul(di[i], di[j]), d2))
    S = mkmat(3, 3, lambda i, j: alg.rsum(T, perp(i, j), RHO))
    v = [alg.rsum(T, dot([perp(i, j) for j in range(3)], ce), RHO) for i in range(3)]
    return S, v


def intersect(c, L, n, out):
    import models
    f = L.f("best_intersection_of_rays")
    rays, ce, di = ray_list(L, n)
    L.w.I.pinvs.clear()
    r = L.call(f, rays)
    if not isinstance(r, En):
        raise Undef("Result expected, got %r" % (r,))
    out(f, r, ce, di)


def p11(c):
    import models
    L = Lib(c)
    TOL = Fraction(1, 10 ** 6)

    def out(n, lab):
        def g(f, r, ce, di):
            if 0 not in r.v:
                return          # (refused on this path: whether rightly so is P12's matter)
            S, v = normal_equations(n, ce, di)
            got = L.w.M.as_mat(L.data(r.v[0]["0"]))
            if n is N:
                got = got.cmap(lambda x: knowing(x, [sub(N, rc(2))]))       # fewer rays are refused
            found = False
            epss = {vkey(e): e for s, e, sp in L.w.I.pinvs}
            for e in epss.values():
                P = models.pinv_cells(S, e)
                want = [dot([P.get(i, j) for j in range(3)], v) for i in range(3)]
                if c.diff(rowvec(got), rowvec(Mat(1, 3, {(0, j): want[j] for j in range(3)}))) is None:
                    found = True
            if not epss:
                # solved another way: the normal equations S x = v must hold
                x = [got.get(0, j) for j in range(3)]
                for i in range(3):
                    c.zero("R1.least-squares-point", f, sub(dot([S.get(i, j) for j in range(3)], x), v[i]), "residual %d of the normal equations (%s)" % (i, lab))
                c.holds("R2.degenerate-systems-are-cut-off", f, False, "%s: the normal equations are solved without a pseudo-inverse and its cutoff" % lab, *x)
            else:
                c.holds("R1.least-squares-point", f, found, "%s: the point is not the pseudo-inverse of the sum of perpendicular projectors applied to the sum of projected centres: %s" % (lab, short(got)), *[got.get(0, j) for j in range(3)])
            for s, e, sp in L.w.I.pinvs:
                e1, it = s.f["eps"].const(), s.f["it"].const()
                e2 = e.const()
                c.holds("R2.small-cutoff", (f["pretty"], sp), e2 is not None and 0 <= e2 <= TOL, "pseudo-inverse cutoff %s is not a constant in [0, 1e-6]" % short(e), e)
                c.holds("R2.small-convergence-tolerance", (f["pretty"], sp), (e1 is not None and 0 <= e1 <= TOL) or e1 is None and "svd_default" in repr(s.f["eps"]), "decomposition tolerance %s is not a constant in [0, 1e-6]" % short(s.f["eps"]), s.f["eps"])
                c.holds("R2.enough-iterations", (f["pretty"], sp), it is not None and (it == 0 or it >= 50), "iteration limit %s" % short(s.f["it"]), s.f["it"])
        return g

    for n, lab in ((N, "any number of rays"), (2, "two rays"), (3, "three rays")):
        c.guard("R1.least-squares-point", "best_intersection_of_rays", lambda: intersect(c, L, n, out(n, lab)))
    # bundles with a single ray provide the rays
    @c.group("R3.single-ray-of-a-bundle", "RayBundle::to_single_ray")
    def _():
        L.n(rc(1))
        f = L.f("RayBundle", "to_single_ray")
        for kind in KINDS:
            b = L.bundle(kind, "d", rc(1))
            ray = L.call(f, b)
            c.eq("R3.single-ray-of-a-bundle", f, L.w.M.as_mat(L.w.M.field(ray, "center")), L.data(L.points_of(L.B("centers", b))), kind + ": centre")
            c.eq("R3.single-ray-of-a-bundle", f, L.w.M.as_mat(L.w.M.field(ray, "direction")), L.data(L.points_of(L.B("directions", b))), kind + ": direction")
        L.n(N)


def knowing(x, facts):
    """x where the integers facts are not negative: the conditions this decides, wherever in x, are replaced by their value"""
    saved = alg.FACTS
    alg.FACTS = saved + [f.n for f in facts]
    try:
        m = {}
        for a in alg.deps(x):
            if alg.ATOMS[a][0] in ("pos", "zero"):
                v = alg.settle(Rat(alg.patom(a)))
                if v.const() is not None:
                    m[a] = v
    finally:
        alg.FACTS = saved
    return alg.subst(x, m) if m else x


def rowvec(m):
    m = m if isinstance(m, Mat) else m
    return Mat(1, 3, {(0, j): m.get(0, j) for j in range(3)})


def variant(L, adt, name):
    a = L.w.adt(adt)
    l = [i for i, v in enumerate(a["variants"]) if v["n"] == name]
    if len(l) != 1:
        raise Missing("variant %s::%s" % (adt, name))
    return l[0]


def nat_cases(*consts):
    """exhaustive split of the natural number N into the constants 0..k-1 and k plus any natural number"""
    from spec import nat
    k = len(consts)
    nid = N.n.atoms_only() if hasattr(N.n, "atoms_only") else next(iter(rats_atoms(N)))
    for i in range(k):
        yield "%d rays" % i, {nid: rc(i)}
    yield "%d or more rays" % k, {nid: alg.add(nat("N'"), rc(k))}


def rats_atoms(r):
    return [a for m in r.n.t for a, e in m]


def p12(c):
    L = Lib(c)
    ERR = {n: variant(L, "Error", n) for n in ("MinimumTwoRaysNeeded", "SvdFailed")}

    def errval(r):
        return r.v[1]["0"]

    def judge(f, r, lab, few, conv):
        """r: Result value in one case"""
        if few:
            c.holds("R1.fewer-than-two-rays-is-an-error", f, r.d.const() == 1, "%s: discriminant of the result is %s" % (lab, short(r.d)), r.d)
            c.eq("R1.error-names-the-cause", f, errval(r).d, rc(ERR["MinimumTwoRaysNeeded"]), lab + ": error kind")
            return
        at = [a for a in alg.rat_atoms(r.d) if alg.ATOMS[a][0] == "fn" and alg.ATOMS[a][1] == "svd_converges"]
        for ok in (1, 0):
            m = {a: rc(ok) for a in at}
            d = alg.subst(r.d, m)
            if ok:
                c.holds("R2.enough-rays-give-a-point", f, d.const() == 0, "%s: discriminant of the result is %s although the decomposition converges" % (lab, short(d)), d)
            elif at:
                c.holds("R3.failed-decomposition-is-an-error", f, d.const() == 1, "%s: discriminant of the result is %s although the decomposition fails" % (lab, short(d)), d)
                c.eq("R3.error-names-the-cause", f, alg.subst(vsubst(errval(r), m).d, m), rc(ERR["SvdFailed"]), lab + ": error kind")

    def sym(f, r, ce, di):
        for i, (lab, m) in enumerate(nat_cases(0, 1, 2)):
            judge(f, vsubst(r, m), lab, i < 2, None)
        conv = alg.rat_atoms(r.d)
        c.count("conditions_of_the_result", len(conv))
    c.guard("R1.errors", "best_intersection_of_rays", lambda: intersect(c, L, N, sym))
    for n in (0, 1, 2, 4):
        c.guard("R1.errors", "best_intersection_of_rays", lambda: intersect(c, L, n, lambda f, r, ce, di: judge(f, r, "array of %d rays" % n, n < 2, None)))
    # rays that are not numbers, or infinite, are no reason for another answer
    for val, nm in ((alg.NAN, "not numbers"), (alg.INF, "infinite")):
        for n in (0, 1, 3):
            odd = lambda a: val if alg.ATOMS[a][0] == "read" else None
            c.guard("R1.errors", "best_intersection_of_rays", lambda: alg.with_special(odd, lambda: intersect(c, L, n, lambda f, r, ce, di: judge(f, r, "array of %d rays that are %s" % (n, nm), n < 2, None))))
    # rays that are all zero directions, parallel, ... enter the same code: nothing on the way may abort
    no_failures(c, L, "R4.no-abort-on-any-input")


PROPS.update({"P11": p11, "P12": p12})


# ====================================================================== P13 exported camera matrix
def p13(c):
    L = Lib(c)
    f = c.guard("R1.matrix-reproduces-projection", "Camera", lambda: L.f("Camera", "as_camera_matrix"))
    if f is None:
        return

    def check(e, R, C, name, zero34):
        cam = L.camera(L.persp(), e)
        L.w.I.divs.clear()
        m = L.w.M.as_mat(L.call(f, cam))
        divs = list(L.w.I.divs)
        pts = L.points()
        X = rows(L.data(pts)) + [R1]
        h = [dot([m.get(i, j) for j in range(4)], X) for i in range(3)]
        px = rows(L.data(L.call(L.f("Camera", "world_to_pixel"), cam, pts)))
        for k in range(2):
            c.zero("R1.matrix-reproduces-projection", f, sub(h[k], mul(px[k], h[2])), "%s: homogeneous coordinate %d minus pixel times depth" % (name, k))
        # the matrix is not the zero matrix: its third row is a non-zero multiple of the optical axis
        n2 = dot([m.get(2, j) for j in range(3)], [m.get(2, j) for j in range(3)])
        c.holds("R1.matrix-is-not-degenerate", f, not n2.is_zero(), "%s: third row vanishes" % name, n2)
        if not zero34:
            m23 = rmul(R, [alg.neg(x) for x in C])[2]
            nz = alg.bnot(alg.zero(m23))
            c.eq("R3.normalised-when-possible", f, mul(nz, alg.subst(m.get(2, 3), zero_inds(m.get(2, 3), m23))), nz, name + ": entry (2,3)")
        bad = [d for d in divs if division_unguarded(d)]
        c.count("divisions", len(divs))
        for d in bad:
            c.rec("R2.division-guarded", (d[0] or f["pretty"], d[1]), False, "%s: divides by %s, which is zero for some cameras" % (name, short(d[2])), alg.has_unk(d[2]))
        if not bad:
            c.rec("R2.division-guarded", f, True)

    @c.group("R1.matrix-reproduces-projection", f)
    def _():
        for name, ctor, e, R, C in routes(c, L):
            check(e, R, C, name, False)

    @c.group("R1.matrix-reproduces-projection", f)
    def _():
        C = colvec([R0, R0, R0])
        e = L.extr(C)
        check(e, L.w.rot("q").m, C.vec(), "camera at the world origin", True)
    no_failures(c, L, "R4.no-abort-on-the-way")


def zero_inds(r, den):
    """the assignment 'den is not zero' of the indicators in r"""
    m = {}
    for a in alg.rat_atoms(r):
        if a in alg.IND:
            x = Rat(alg.patom(a))
            z = alg.zero(den)
            if alg.eq(x, z):
                m[a] = R0
    return m


def division_unguarded(d):
    fn, span, b, pcs, pc = d
    try:
        g = alg.zero(b)
    except Exception:
        return True
    if g.is_zero():
        return False
    cond = mul(g, *([pc] + list(pcs)))
    return not cond.is_zero()


# ====================================================================== P14 decomposition of a projection matrix
def p14(c):
    import models, itertools
    L = Lib(c)
    f = c.guard("R1.recovered-camera-reproduces-the-matrix", "Camera", lambda: L.f("Camera", "from_perspective_matrix"))
    if f is None:
        return

    @c.group("R1.recovered-camera-reproduces-the-matrix", f)
    def _():
        P = L.w.mat("P", 3, 4)
        r = L.call(f, P)
        if not isinstance(r, En):
            raise Undef("Result expected, got %r" % (r,))
        cam = r.v[0]["0"]
        i = L.call(("Camera", "intrinsics"), cam)
        e = L.call(("Camera", "extrinsics"), cam)
        k = {n: L.call(("IntrinsicParametersPerspective", n), i) for n in PNAMES}
        K = [[k["fx"], k["skew"], k["cx"]], [R0, k["fy"], k["cy"]], [R0, R0, R1]]
        C = L.vec(L.call(("ExtrinsicParameters", "camcenter"), e))
        R = L.R(L.call(("ExtrinsicParameters", "rotation"), e))
        A = [[P.get(a, b) for b in range(3)] for a in range(3)]
        for a in range(3):
            c.zero("R2.centre-is-the-null-vector", f, add(dot(A[a], C), P.get(a, 3)), "row %d of the matrix applied to the centre" % a)
        qrs = list(L.w.M.qr.values())
        base = {}
        if len(qrs) > 1:
            raise Undef("several factorisations")
        cases = [("", {})]
        if qrs:
            n, M = qrs[0]
            Q, T = models.qr_parts(n)
            inv = {}
            for (a, b), x in M.c.items():
                at = [y for y in rats_atoms(x)]
                if len(at) != 1 or not (alg.eq(x, Rat(alg.patom(at[0]))) or alg.eq(x, alg.neg(Rat(alg.patom(at[0]))))):
                    raise Undef("factorised matrix is not a rearrangement of the input")
                sgn = R1 if alg.eq(x, Rat(alg.patom(at[0]))) else rc(-1)
                inv[at[0]] = mul(sgn, add(*[mul(Q.get(a, t), T.get(t, b)) for t in range(3)]))
            s = alg.atom_id(("qr_s", n))
            p = []
            for t in range(3):
                x = alg.atom_id(("read", "p%d" % t))
                alg.POSITIVE.add(x)
                alg.NONNEG.add(x)
                p.append(Rat(alg.patom(x)))
            cases = []
            for sg in itertools.product((1, -1), repeat=4):
                m = {alg.atom_id(("qr_r", n, t, t)): mul(rc(sg[t]), p[t]) for t in range(3)}
                m[s] = rc(sg[3])
                cases.append(("factor signs %s, determinant sign of the orthogonal factor %+d" % ("".join("+-"[x < 0] for x in sg[:3]), sg[3]), m))
        else:
            inv = {}
        for lab, m in cases:
            S = lambda x: alg.subst(alg.subst(x, inv), m) if inv or m else x
            Rc = [[S(x) for x in row] for row in R]
            Kc = [[S(x) for x in row] for row in K]
            Ac = [[S(x) for x in row] for row in A]
            c.holds("R5.decomposable-matrix-is-accepted", f, S(r.d).is_zero(), "%s: result discriminant %s" % (lab, short(S(r.d))), r.d)
            lam = dot(Ac[2], Rc[2])
            for a in range(3):
                for b in range(3):
                    c.zero("R1.recovered-camera-reproduces-the-matrix", f,
                           sub(Ac[a][b], mul(lam, dot(Kc[a], [Rc[t][b] for t in range(3)]))), "%s: entry (%d,%d) of the matrix minus K·R" % (lab, a, b))
            for a in range(3):
                for b in range(a, 3):
                    c.zero("R3.rotation-is-orthonormal", f, sub(dot(Rc[a], Rc[b]), R1 if a == b else R0), "%s: rows %d,%d" % (lab, a, b))
            det = dot(cross(Rc[0], Rc[1]), Rc[2])
            c.zero("R3.rotation-is-proper", f, sub(det, R1), lab + ": determinant minus one")
            for nm in ("fx", "fy"):
                g = alg.pos(S(k[nm]))
                c.holds("R4.focal-lengths-positive", f, g.const() == 1 or not qrs, "%s: %s = %s" % (lab, nm, short(S(k[nm]))), g)
        c.count("sign_cases", len(cases))
    no_failures(c, L, "R6.no-abort-on-the-way")


PROPS.update({"P13": p13, "P14": p14})


# ====================================================================== P15 normalised matrix form
def p15(c):
    L = Lib(c)
    f = c.guard("R1.valid-form-accepted", "IntrinsicParametersPerspective", lambda: L.f("IntrinsicParametersPerspective", "from_normalized_3x4_matrix"))
    if f is None:
        return
    REQ = {(0, 3): 0, (1, 0): 0, (1, 3): 0, (2, 0): 0, (2, 1): 0, (2, 2): 1, (2, 3): 0}
    FREE = {(0, 0): "fx", (1, 1): "fy", (0, 1): "skew", (0, 2): "cx", (1, 2): "cy"}

    @c.group("R1.valid-form-accepted", f)
    def _():
        P = L.w.mat("P", 3, 4)
        r = L.call(f, P)
        if not isinstance(r, En):
            raise Undef("Result expected, got %r" % (r,))
        acc = alg.bnot(r.d)
        ids = {k: rats_atoms(P.get(*k))[0] for k in list(REQ) + list(FREE)}
        c.eq("R1.valid-form-accepted", f, alg.subst(acc, {ids[k]: rc(v) for k, v in REQ.items()}), R1, "acceptance of the normalised form: ")
        prod = R1
        for k, v in REQ.items():
            x = alg.subst(acc, {ids[j]: rc(w) for j, w in REQ.items() if j != k})
            lab = "entry (%d,%d) other than %d" % (k[0], k[1], v)
            good, why = equality_test(x, P.get(*k), rc(v), ids[k])
            c.holds("R2.each-wrong-entry-refused", f, good, "%s: accepted when %s%s" % (lab, short(x), why), x)
            prod = mul(prod, x)
            for nm, val in (("not a number", alg.NAN), ("infinity", alg.INF), ("minus infinity", -alg.INF)):
                Q = Mat(3, 4, {j: rc(REQ[j]) if j in REQ and j != k else e for j, e in P.c.items()})
                rq = alg.with_special(lambda a: val if a == ids[k] else None, lambda: L.call(f, Q))
                if not isinstance(rq, En):
                    raise Undef("Result expected, got %r" % (rq,))
                c.holds("R2.each-wrong-entry-refused", f, rq.d.const() == 1, "entry (%d,%d) that is %s: accepted when %s" % (k[0], k[1], nm, short(alg.bnot(rq.d))), rq.d)
        c.eq("R3.no-other-condition", f, acc, prod, "acceptance condition ")
        for k, n in FREE.items():
            c.holds("R3.free-entries-are-free", f, ids[k] not in alg.deps(acc), "acceptance depends on entry %s" % (k,), acc)
        if not alg.eq(r.d, R0):
            c.eq("R4.refusal-names-the-cause", f, r.v[1]["0"].d, rc(variant(L, "Error", "InvalidInput")), "error kind ")
        i = r.v[0]["0"]
        for k, n in FREE.items():
            c.eq("R5.entries-preserved", f, L.call(("IntrinsicParametersPerspective", n), i), P.get(*k), n)
        # the stored matrix is the given one on acceptance
        pts = L.points()
        px = L.call(L.f(IPP, "camera_to_pixel"), i, pts)
        pp = {n: P.get(*k) for k, n in FREE.items()}
        c.eq("R5.accepted-camera-projects-by-its-matrix", f, L.data(px), rowmat(N, project_expected(pp, rows(L.data(pts)))), "pixel")
        c.count("entries_checked", 12)
    no_failures(c, L, "R6.no-abort-on-the-way")


def equality_test(x, a, v, aid):
    """is the condition x an equality test of a with v at machine precision?"""
    eqz = alg.zero(sub(a, v))
    if alg.eq(x, eqz):
        return True, ""
    ats = [t for t in alg.rat_atoms(x)]
    if len(ats) == 1 and alg.ATOMS[ats[0]][:2] == ("fn", "approx_eq") and alg.eq(x, Rat(alg.patom(ats[0]))):
        args = alg.ATOMS[ats[0]][2:]
        tol = []
        two = [t for t in args[:2]]
        if not ((alg.eq(two[0], a) and alg.eq(two[1], v)) or (alg.eq(two[1], a) and alg.eq(two[0], v))):
            return False, ": compares something else"
        for t in args[3:]:
            if isinstance(t, Rat) and t.const() is not None:
                tol.append(t.const())
        if any(t < 0 or t > Fraction(1, 10 ** 6) for t in tol if args[2] != "ulps"):
            return False, ": tolerance wider than 1e-6"
        return True, ""
    # some other shape: it must accept the value and refuse values off by more than 1e-5 either way
    x = alg.subst(x, {a: rc(Fraction(1, 2 ** 23)) for a in alg.deps(x) if alg.ATOMS[a] in (("fn", "const_default_epsilon"), ("fn", "const_epsilon"), ("fn", "const_default_max_relative"))})
    cv = v.const()
    at = alg.subst(x, {aid: v})
    if at.const() != 1:
        return False, ": the required value itself is judged %s" % short(at)
    for dv in (Fraction(1, 10 ** 5), Fraction(1, 100), Fraction(1), Fraction(10 ** 6)):
        for sg in (1, -1):
            y = alg.subst(x, {aid: rc(cv + sg * dv)})
            if y.const() != 0:
                return False, ": value off by %s is judged %s" % (float(sg * dv), short(y))
    return True, ""


PROPS.update({"P15": p15})


# ====================================================================== P16 Jacobian
def p16(c):
    L = Lib(c)
    f = c.guard("R1.jacobian-is-the-derivative", "JacobianPerspectiveCache", lambda: L.f("JacobianPerspectiveCache", "linearize_at"))
    g = c.guard("R1.jacobian-is-the-derivative", "JacobianPerspectiveCache", lambda: L.f("JacobianPerspectiveCache", "new"))
    if f is None or g is None:
        return
    L.n(rc(1))

    def check(e, R, C, name, kind="general"):
        cam = L.camera(L.persp(), e)
        L.w.I.divs.clear()
        J = L.call(g, cam)
        d1 = list(L.w.I.divs)
        L.w.I.divs.clear()
        p = L.w.mat("p", rc(1), 3)
        A = L.w.M.as_mat(L.call(f, J, L.points_of(p)))
        d2 = list(L.w.I.divs)
        px = rows(L.data(L.call(L.f("Camera", "world_to_pixel"), cam, L.points_of(p))))
        ids = [rats_atoms(p.get(0, j))[0] for j in range(3)]
        if kind == "behind-or-ahead":
            return
        if (toint(A.nr), toint(A.nc)) != (2, 3):
            c.rec("R1.jacobian-is-the-derivative", f, False, "shape of the result is %r" % ((A.nr, A.nc),))
            return
        for i in range(2):
            for j in range(3):
                c.zero("R1.jacobian-is-the-derivative", f, sub(A.get(i, j), alg.deriv(px[i], ids[j])),
                       "%s: entry (%d,%d) minus the derivative of pixel coordinate %d by world coordinate %d" % (name, i, j, i, j))
        depth = rmul(R, [sub(a, b) for a, b in zip(p.vec(), C)])[2]
        n = 0
        for d in d1 + d2:
            n += 1
            if division_unguarded(d) and not vanishes_only_with(d[2], depth):
                c.rec("R2.division-guarded", (d[0] or g["pretty"], d[1]), False, "%s: divides by %s, which is zero for cameras and points off the camera plane" % (name, short(d[2])), alg.has_unk(d[2]))
        c.rec("R2.divisions-examined", f, True)
        c.count("divisions", n)

    @c.group("R1.jacobian-is-the-derivative", f)
    def _():
        # small cases first: they decide most breakage before the general camera gets large
        C = colvec([R0, R0, L.w.real("Cz")])
        I3 = Rot("q", tuple(tuple(R1 if i == j else R0 for j in range(3)) for i in range(3)), (R0, R0, R0, R1))
        check(L.call(("ExtrinsicParameters", "from_rotation_and_camcenter"), I3, C), I3.m, C.vec(), "unrotated camera on the world z axis")

    @c.group("R1.jacobian-is-the-derivative", f)
    def _():
        C = colvec([R0, R0, R0])
        check(L.extr(C), L.w.rot("q").m, C.vec(), "camera at the world origin")

    @c.group("R1.jacobian-is-the-derivative", f)
    def _():
        for name, ctor, e, R, C in routes(c, L):
            check(e, R, C, name)
    # the linear form (A·o) is what the documentation promises: zero offset gives zero shift, by shape; nothing aborts
    no_failures(c, L, "R3.no-abort-on-the-way")
    L.n(N)


def vanishes_only_with(b, depth):
    """numerator of b is a constant times a power of depth"""
    x, pw = Rat(b.n), R1
    for k in range(5):
        m = pw.n.lead() if k else ()
        cf = x.n.t.get(m)
        if cf is not None:
            if alg.eq(x, mul(rc(Fraction(cf) / Fraction(pw.n.t[m]) if k else cf), pw)):
                return True
        pw = mul(pw, depth)
    return False


PROPS.update({"P16": p16})


# ====================================================================== P17 serialisation
def serialisable(L):
    """(type name, value, how it was made) for every type of the crate that can be written"""
    out = []
    M = L.w.M
    out.append(("PerspectiveParams", L.w.struct("PerspectiveParams", **L.pp), "parameters"))
    out.append(("IntrinsicParametersPerspective", L.persp(), "from parameters"))
    out.append(("OrthographicParams", L.w.struct("OrthographicParams", **L.op), "parameters"))
    out.append(("IntrinsicParametersOrthographic", L.ortho(), "from parameters"))
    for name, ctor, e, R, C in routes(L.ctx, L):
        out.append(("ExtrinsicParameters", e, name))
    m = L.opaque(L.f("Camera", "new"), 0, "model")
    out.append(("Camera", L.camera(m, L.extr()), "any model"))
    for kind in KINDS:
        b = L.bundle(kind)
        out.append(("RayBundle", b, kind))
        bt = M.field(b, "bundle_type")
        out.append((bt.n.split("::")[-1] if isinstance(bt, St) else "SharedOriginRayBundle", bt, kind))
    for fr in ("CameraFrame", "WorldFrame"):
        a = L.w.adt(fr)
        out.append((fr, St(a["n"], {f["n"]: None for f in a["variants"][0]["fields"]}), "frame tag"))
    return out


def p17(c):
    import itertools
    import serdeflow as sf
    L = Lib(c)
    M = L.w.M
    have = {t: {i["self"]["n"].split("::")[-1] for i in c.F.impls if i["trait"] and i["trait"]["n"].split("::")[-1] == t and i["self"]["t"] == "adt"} for t in ("Serialize", "Deserialize")}
    vals = c.guard("R1.round-trip", "(serialisable values)", lambda: serialisable(L))
    if vals is None:
        return
    for n in sorted({n for n, v, h in vals}):
        for t in ("Serialize", "Deserialize"):
            c.rec("R0.can-be-written-and-read", (n, ""), n in have[t], "%s does not implement %s" % (n, t))
    covered = {n for n, v, h in vals}
    for n in sorted(have["Serialize"] - covered):
        c.notes.append("serialisable type without a construction rule: %s" % n)
    for n in sorted(have["Serialize"] - have["Deserialize"]):
        c.rec("R0.can-be-written-and-read", (n, ""), False, "%s can be written but not read" % n)
    total = dict(orders=0, subsets=0, duplicates=0)
    for n, v, how in vals:
        if n not in have["Serialize"] or n not in have["Deserialize"]:
            continue
        rf = c.guard("R1.round-trip", n, lambda: L.w.fn("Deserialize for " + n, "deserialize"))
        if rf is None:
            continue

        @c.group("R1.round-trip", rf)
        def _():
            a = L.w.adt(n)
            ty = {"t": "adt", "id": a["id"], "n": a["n"], "a": a["generics"]}
            tr = sf.ser_value(M, L.w.st, ty, v)
            c.holds("R2.writing-never-skips-or-fails", rf, not tr.cond, "; ".join(map(str, tr.cond)))
            if tr.kind != "struct":
                r = sf.de_value(M, L.w.st, ty, tr)
                c.eq("R1.round-trip", rf, sf.payload(r), v, "%s (%s), as a single value: " % (n, how))
                c.holds("R1.reading-back-succeeds", rf, r.d.is_zero(), "result discriminant %s" % short(r.d), r.d)
                return
            keys = [k for k, t, i in tr.entries]
            c.holds("R3.names-are-distinct", rf, len(set(keys)) == len(keys), "field names written: %s" % keys)

            def names_field(rule, r, kind, ok):
                if r.d.const() != 1:
                    return
                def find(k):
                    if isinstance(k, tuple):
                        if k[:1] == ("serde_error",) and len(k) == 3:
                            return k
                        for x in k:
                            y = find(x)
                            if y:
                                return y
                    return None
                e = r.v.get(1, {}).get("0")
                k = find(e.k) if isinstance(e, Op) else None
                good = k is not None and k[1] == kind and k[2] in ok
                c.rec(rule, rf, good, "%s (%s): the error is %s, required: %s naming %s" % (n, how, k and "%s(%s)" % k[1:], kind, " or ".join(ok)),
                      k is None or not isinstance(k[2], str))

            def read(entries, style):
                t = tr.struct(entries, style)
                return sf.de_value(M, L.w.st, ty, t), t
            for style in ("map", "index", "seq"):
                r, t = read(tr.entries, style)
                c.holds("R1.reading-back-succeeds", rf, r.d.is_zero(), "%s (%s), %s form: result discriminant %s" % (n, how, style, short(r.d)), r.d)
                c.eq("R1.round-trip", rf, sf.payload(r), v, "%s (%s), %s form: " % (n, how, style))
                if style == "map" and t.read_name is not None:
                    c.holds("R3.written-and-read-under-the-same-name", rf, isinstance(t.read_name, Str) and isinstance(tr.name, Str) and t.read_name.s == tr.name.s,
                            "written as %s, read as %s" % (tr.name, t.read_name), t.read_name)
                    fl = t.read_fields
                    fl = [M.val_safe(L.w.st, x) for x in fl.x] if isinstance(fl, Ar) else None
                    if fl is not None:
                        c.holds("R3.announced-fields-are-the-written-ones", rf, [getattr(x, "s", None) for x in fl] == keys, "announced %s, written %s" % (fl, keys))
            perms = list(itertools.permutations(tr.entries))
            for p in perms[:24 if c.tier == "quick" else 120]:
                r, t = read(list(p), "map")
                total["orders"] += 1
                if not r.d.is_zero() or c.diff(sf.payload(r), v) is not None:
                    c.eq("R4.any-field-order", rf, sf.payload(r), v, "%s (%s), order %s: " % (n, how, [k for k, _, _ in p]))
                    c.holds("R4.any-field-order", rf, r.d.is_zero(), "order %s refused" % [k for k, _, _ in p], r.d)
                    break
            else:
                c.rec("R4.any-field-order", rf, True)
            for k in range(len(keys)):
                for sub_ in itertools.combinations(tr.entries, k):
                    total["subsets"] += 1
                    r, t = read(list(sub_), "map")
                    miss = [x for x in keys if x not in [y for y, _, _ in sub_]]
                    c.holds("R5.missing-field-is-refused", rf, r.d.const() == 1, "%s (%s): fields %s missing, yet result discriminant is %s" % (n, how, miss, short(r.d)), r.d)
                    names_field("R5.error-names-a-missing-field", r, "missing_field", miss)
                r, t = read(list(tr.entries)[:k], "seq")
                c.holds("R5.short-sequence-is-refused", rf, r.d.const() == 1, "%s (%s): sequence of %d of %d elements, yet result discriminant is %s" % (n, how, k, len(keys), short(r.d)), r.d)
            for e in tr.entries:
                for pos in range(len(keys) + 1):
                    total["duplicates"] += 1
                    ents = list(tr.entries)
                    ents.insert(pos, e)
                    r, t = read(ents, "map")
                    c.holds("R6.duplicate-field-is-refused", rf, r.d.const() == 1, "%s (%s): field %s twice, yet result discriminant is %s" % (n, how, e[0], short(r.d)), r.d)
                    names_field("R6.error-names-the-duplicate-field", r, "duplicate_field", [e[0]])
    for k, x in total.items():
        c.count(k, x)
    c.rec("R7.coverage", ("(serialisable types)", ""), len(covered & have["Serialize"]) >= 6, "only %d serialisable types found" % len(covered & have["Serialize"]))
    no_failures(c, L, "R8.no-abort-on-the-way")


PROPS.update({"P17": p17})


# ====================================================================== P18 batches row by row
def batch_ops(L, n):
    """(name, function, result matrix value, input names) of every batch operation on batches of n rows"""
    w = L.w
    i_p, i_o = L.persp(), L.ortho()
    e = L.extr()
    dist = w.real("dist")
    for kind in ("perspective", "orthographic"):
        i, tr = L.intr(kind)
        f = L.f(tr, "camera_to_pixel")
        yield kind + " camera_to_pixel", f, lambda: L.data(L.call(f, i, L.points("x", n)))
        g = L.f(tr, "pixel_to_camera")
        yield kind + " pixel_to_camera, stored data", g, lambda: L.data(L.call(g, i, L.pixels("uv", n)))
        cam = L.camera(i, e)
        h = L.f("Camera", "world_to_pixel")
        yield kind + " Camera::world_to_pixel", h, lambda: L.data(L.call(h, cam, L.points("x", n)))
        k = L.f("Camera", "pixel_to_world")
        yield kind + " Camera::pixel_to_world, stored data", k, lambda: L.data(L.call(k, cam, L.pixels("uv", n)))
    for m in ("world_to_camera", "camera_to_world"):
        f = L.f("ExtrinsicParameters", m)
        yield m, f, lambda: L.data(L.call(f, e, L.points("x", n)))
    for kind in KINDS:
        for frame in ("camera", "world"):
            def mk():
                b = L.bundle(kind, "d", n)
                return b if frame == "camera" else L.E("ray_camera_to_world", e, b)
            lab = "%s (%s frame) " % (kind, frame)
            if not L.w.I.dim_dyn:
                yield lab + "directions", bundle_fn(L, kind, "directions"), lambda: L.B("directions", mk())
                yield lab + "centers", bundle_fn(L, kind, "centers"), lambda: L.B("centers", mk())
            yield lab + "point_on_ray", bundle_fn(L, kind, "point_on_ray"), lambda: L.data(L.B("point_on_ray", mk()))
            yield lab + "point_on_ray_at_distance", bundle_fn(L, kind, "point_on_ray_at_distance"), lambda: L.data(L.B("point_on_ray_at_distance", mk(), dist))
        f = L.f("ExtrinsicParameters", "ray_camera_to_world")
        yield kind + " ray_camera_to_world, stored data", bundle_fn(L, kind, "to_pose"), lambda: L.data(L.call(f, e, L.bundle(kind, "d", n)))


def p18(c):
    L = Lib(c)
    BATCH = ("x", "uv", "d")
    generic, single = {}, {}
    rho = Rat(alg.patom(RHO))

    def gather(n, dyn, handle):
        L.n(n)
        L.w.I.dim_dyn = dyn
        it = batch_ops(L, n)
        while True:
            r = c.guard("R1.rows-are-independent", "(batch operations)", lambda: next(it, None))
            if r is None:
                break
            name, f, run = r
            c.guard("R1.rows-are-independent", f, lambda: handle(name, f, run()))
        L.n(N)
        L.w.I.dim_dyn = False

    na = rats_atoms(N)[0]

    def within(thunk, *rs):
        """thunk() where the rows rs are rows of the batch"""
        saved = alg.FACTS
        alg.FACTS = saved + [alg.sub(alg.sub(N, R1), r).n for r in (rho,) + rs]
        try:
            return thunk()
        finally:
            alg.FACTS = saved

    def whole(name):
        r = alg.ratom(("var", name))
        for a in alg.rat_atoms(r):
            alg.INTEG.add(a)
            alg.NONNEG.add(a)
        return r

    def own_reads(x):
        """x with every read of a row that the conditions make row rho written as a read of row rho"""
        for a in sorted(alg.deps(x)):
            t = alg.ATOMS[a]
            if t[0] == "read" and t[1] in BATCH and not alg.eq(t[2], rho):
                mine = alg.ratom(("read", t[1], rho) + t[3:])
                y = alg.subst(x, {a: mine})
                if within(lambda: alg.eq_int(x, alg.subst(x, {a: alg.gamma(alg.req(t[2], rho), mine, alg.ratom(("var", "any value")))}))) and within(lambda: alg.eq_int(x, y)):
                    x = y
        return x

    def settled(x):
        """the formula of a row that is neither first nor last, of as many rows as needed - if every row has it"""
        ch = {}
        for a in alg.indicators(x.n):
            k = alg.ATOMS[a]
            if k[0] in ("pos", "zero") and {na, RHO} & k[1].atoms():
                co = k[1].t.get(((na, 1),), 0) or k[1].t.get(((RHO, 1),), 0)
                if not co:
                    return x
                ch[a] = R1 if k[0] == "pos" and co > 0 else R0
        if not ch:
            return x
        y = alg.subst(x, ch)
        return y if na not in alg.deps(y) and within(lambda: alg.eq_int(x, y)) else x

    def first(name, f, m):
        if isinstance(m, Mat) and m.sym is not None:
            m = Mat(m.nr, m.nc, [own_reads(settled(within(lambda: alg.simp_int(x)))) if isinstance(x, Rat) else x for x in m.c], m.sym)
        generic[name] = m
        c.holds("R2.one-result-row-per-input-row", f, isinstance(m, Mat) and veq(torat(m.nr), N), "%s: result has %s rows for N inputs" % (name, short(m.nr)), m)
        bad = []
        for x in rows(m):
            for a in alg.deps(x):
                t = alg.ATOMS[a]
                if t[0] == "read" and t[1] in BATCH and not alg.eq(t[2], rho):
                    bad.append(t)
            if any(alg.ATOMS[a][0] in ("sum", "fold", "loop", "gmax", "exists") for a in alg.deps(x)):
                bad.append("an accumulation over rows")
        c.holds("R1.rows-are-independent", f, not bad, "%s: row ρ depends on %s" % (name, short(bad)), m)
        pos, form = [], True
        for x in rows(m):
            y = alg.subst(x, {a: alg.ratom(("read", t[1], R0) + t[3:]) for a in alg.deps(x) for t in [alg.ATOMS[a]] if t[0] == "read" and len(t) > 3 and alg.eq(t[2], rho)})
            if RHO in alg.deps(y):
                other = whole("another row")
                if not within(lambda: alg.eq_int(y, alg.subst(y, {RHO: other})), other):
                    pos.append(x)
                    form = form and within(lambda: alg.of_form_only(sub(y, alg.subst(y, {RHO: other})), alg.FACTS), other)
        c.holds("R3.formula-independent-of-position", f, not pos, "%s: row formula %s depends on the position of the row" % (name, short(pos[:1])), *([m, None] if pos and form else [m]))
        if not L.w.I.dim_dyn:
            # no dependence on the number of rows, except through the row index itself
            more = alg.add(N, whole("more rows"))
            dn = [x for x in rows(m) if na in alg.deps(x) and not within(lambda: alg.eq_int(x, alg.subst(x, {na: more})))]
            form = bool(dn) and within(lambda: all(alg.of_form_only(sub(x, alg.subst(x, {na: more})), alg.FACTS) for x in dn))
            c.holds("R3.formula-independent-of-batch-size", f, not dn, "%s: row formula %s depends on the number of rows" % (name, short(dn[:1])), *([m, None] if form else [m]))
    gather(N, False, first)
    c.count("batch_operations", len(generic))

    def own_nan(a):
        t = alg.ATOMS[a]
        return alg.NAN if t[0] == "read" and t[1] in BATCH and isinstance(t[2], Rat) and not t[2].d and len(t[2].n.t) == 1 and t[2].const() is None else None

    def broken_row(name, f, m):
        """rows that are not numbers do not change what the result's rows depend on"""
        if name not in generic or c.unk(generic[name]) or not isinstance(m, Mat) or m.sym is None:
            return
        bad = [alg.ATOMS[a] for x in rows(m) if isinstance(x, Rat) for a in alg.deps(own_reads(settled(within(lambda: alg.simp_int(x))))) if alg.ATOMS[a][0] == "read" and alg.ATOMS[a][1] in BATCH and not alg.eq(alg.ATOMS[a][2], rho)]
        c.holds("R1.rows-are-independent", f, not bad, "%s: row ρ that is not a number is computed from %s" % (name, short(bad)), m)
    alg.with_special(own_nan, lambda: gather(N, False, broken_row))

    def broken_middle(name, f, m):
        if name not in generic or not isinstance(m, Mat) or m.sym is not None or c.unk(m):
            return
        bad = ["row %d on %s" % (i, short(t)) for (i, j), x in sorted(m.c.items()) if isinstance(x, Rat) for a in sorted(alg.deps(x)) for t in [alg.ATOMS[a]]
               if t[0] == "read" and t[1] in BATCH and not alg.eq(t[2], rc(i))]
        c.holds("R1.rows-are-independent", f, not bad, "%s: of three rows, the middle one %s, %s" % (name, what, "; ".join(bad[:3])), m)

    def middle_nan(a):
        t = alg.ATOMS[a]
        return (alg.NAN if what == "not a number" else alg.INF) if t[0] == "read" and t[1] in BATCH and isinstance(t[2], Rat) and t[2].const() == 1 else None
    for what in ("not a number", "infinite"):
        alg.with_special(middle_nan, lambda: gather(rc(3), False, broken_middle))

    def same(label, n):
        def go(name, f, m):
            g = generic.get(name)
            if g is None:
                return
            if c.unk(g):
                # no closed form for any number of rows: fixed sizes are judged against the formula of a single row
                k = toint(n)
                if k == 1 and not c.unk(m):
                    single.setdefault(name, m)
                if name in single and isinstance(m, Mat) and m.sym is None:
                    at = lambda x, i: alg.subst(x, {a: alg.ratom(("read", t[1], rc(i)) + t[3:]) for a in alg.deps(x) for t in [alg.ATOMS[a]] if t[0] == "read" and t[1] in BATCH and alg.eq(t[2], R0)})
                    g = single[name]
                    want = mkmat(k, g.nc, lambda i, j: at(g.c[(0, j)], i))
                    for ij in sorted(m.c):
                        d = alg.sub(m.c[ij], want.c[ij])
                        off = alg.subst(d, {a: R0 for a in alg.indicators(d.n) if alg.ATOMS[a][0] == "zero"})
                        if not alg.eq_int(d, R0) and alg.eq_int(off, R0) and len([a for a in alg.indicators(d.n) if alg.solvable(a)]) < len(alg.indicators(d.n)):
                            c.rec("R4.same-formula-for-every-size", f, False, "%s, %s: [%d,%d] depends on the coincidence of quantities that cannot be solved for" % ((name, label) + ij), True)
                            return
                    c.eq("R4.same-formula-for-every-size", f, m, want, "%s, %s, against the formula of one row: " % (name, label))
                    return
            want = rowmat(n, rows(g))
            c.eq("R4.same-formula-for-every-size", f, m, want, "%s, %s: " % (name, label))
        return go
    sizes = (0, 1, 2, 3) if c.tier == "quick" else (0, 1, 2, 3, 4, 5, 8, 13, 32)
    for k in sizes:
        gather(rc(k), False, same("%d rows" % k, rc(k)))
        gather(rc(k), True, same("%d rows, dynamic" % k, rc(k)))

    def dyn(name, f, m):
        g = generic.get(name)
        if g is not None:
            c.eq("R5.static-and-dynamic-agree", f, m, g, name + ", dynamically sized: ")
    gather(N, True, dyn)

    # inputs: batch arguments are taken by shared reference or by value, never by mutable reference
    for f in c.F.local_fns():
        if not f["exported"] or f["kind"] == "const" or "deserialize" in f["pretty"]:
            continue
        for k in range(f["body"]["argc"]):
            t = f["body"]["locals"][1 + k]["ty"]
            if t["t"] == "ref" and t["m"] and t["e"]["t"] == "adt" and t["e"]["n"].split("::")[-1] in ("Points", "Pixels", "RayBundle", "Ray", "Matrix"):
                c.rec("R6.inputs-not-modified", f, False, "argument %d is taken by mutable reference" % k)
    c.rec("R6.inputs-not-modified", ("(all public functions)", ""), True)
    no_failures(c, L, "R7.no-abort-on-the-way")


PROPS.update({"P18": p18})


# ====================================================================== P19 no aborts
HELPERS = ("intrinsic_test_utils",)


def public_fns(F):
    """functions a client can call (trait impls included), without the generated deserialisation visitors and the documented test helper"""
    out = []
    for f in F.local_fns():
        if f["exported"] and f["kind"] not in ("const", "static", "closure") and "deserialize" not in f["pretty"] and "serde" not in f["pretty"] and "Serialize" not in f["pretty"] \
                and not f["pretty"].startswith(HELPERS):
            out.append(f)
    return sorted(out, key=lambda f: f["pretty"])


def opaque_args(L, f):
    env = L.w.I.norm_env(f, {})
    out = []
    for k in range(f["body"]["argc"]):
        t = f["body"]["locals"][1 + k]["ty"]
        while t["t"] == "ref":
            t = t["e"]
        out.append(L.w.M.opaque(tysub(t, env), ("in", "arg%d" % k)))
    return out


def panic_sites(F):
    """abort-capable constructs of the library's own functions: (function, span) -> kind"""
    out = {}
    for f in F.local_fns():
        if f["pretty"].startswith(HELPERS):
            continue
        for body in [f["body"]]:
            for b in body["blocks"]:
                t = b["t"]
                if b["c"]:
                    continue
                if t["k"] == "assert":
                    out[(f["pretty"], t["s"], "assert " + t["msg"]["m"])] = f
                elif t["k"] == "call" and t["f"]["k"] == "const" and t["f"]["c"]["k"] == "fn":
                    g = t["f"]["c"]["f"]
                    if t["t"] is None or g["name"] in ("unwrap", "expect", "unwrap_err", "expect_err", "index", "index_mut", "from_usize", "unwrap_unchecked"):
                        out[(f["pretty"], t["s"], "call of " + g["name"])] = f
    return out


def nan_unwraps(F):
    """(function, span of the comparison) whose partial ordering is unwrapped without handling 'unordered'"""
    out = set()
    for f in F.local_fns():
        if f["pretty"].startswith(HELPERS):
            continue
        src = {}
        changed = True
        B = f["body"]["blocks"]
        while changed:
            changed = False
            for b in B:
                for s in b["s"]:
                    if s["k"] == "assign" and not s["p"]["p"] and s["r"]["k"] == "use" and s["r"]["o"]["k"] in ("copy", "move") and not s["r"]["o"]["p"]["p"]:
                        a, d = s["r"]["o"]["p"]["l"], s["p"]["l"]
                        if a in src and src[a] - src.get(d, set()):
                            src[d] = src.get(d, set()) | src[a]
                            changed = True
                t = b["t"]
                if t["k"] == "call" and t["f"]["k"] == "const" and t["f"]["c"]["k"] == "fn":
                    g = t["f"]["c"]["f"]
                    if g["name"] == "partial_cmp" and not t["dest"]["p"]:
                        d = t["dest"]["l"]
                        if t["s"] not in src.get(d, set()):
                            src.setdefault(d, set()).add(t["s"])
                            changed = True
        for b in B:
            t = b["t"]
            if t["k"] == "call" and t["f"]["k"] == "const" and t["f"]["c"]["k"] == "fn" and t["f"]["c"]["f"]["name"] in ("unwrap", "expect", "unwrap_unchecked"):
                for a in t["args"]:
                    if a["k"] in ("copy", "move") and not a["p"]["p"]:
                        out |= {(f["pretty"], s) for s in src.get(a["p"]["l"], ())}
    return out


def p19(c):
    seen = {}
    nanp = nan_unwraps(c.F)
    visited = set()
    fns = public_fns(c.F)
    c.holds("R0.public-api-found", "(public functions)", len(fns) >= 60, "only %d public functions found" % len(fns))
    modes = [("static size", False, N), ("dynamic size", True, N), ("one row", False, rc(1)), ("no rows", False, rc(0))]
    total = 0
    for f in fns:
        has_dim = any(p["trait"].split("::")[-1] in ("Dim", "DimName") for p in f.get("preds", ()))
        for label, dyn, n in (modes if has_dim else modes[:1]):
            if dyn and any(p["trait"].split("::")[-1] == "DimName" for p in f.get("preds", ())):
                continue
            L = Lib(c)
            L.n(n)
            L.w.I.dim_dyn = dyn

            def run():
                nonlocal total
                try:
                    L.call(f, *opaque_args(L, f))
                except Diverge:
                    c.rec("R1.cannot-abort", f, False, "%s: never returns normally" % label)
                finally:
                    I = L.w.I
                    total += len(I.obl)
                    for o in I.obl:
                        seen[(o["fn"], o["span"])] = seen.get((o["fn"], o["span"]), True) and o["ok"]
                    for g, s, a, b in I.ncmp:
                        if (g, s) in nanp and any(nan_able(x) for x in (a, b)):
                            c.rec("R2.no-unwrapped-comparison-of-computed-values", (g, s), False,
                                  "compares %s with %s and unwraps the ordering, which aborts when one is not a number" % (short(a), short(b)))
                bad = [o for o in L.w.I.obl if not o["ok"]]
                for o in bad[:4]:
                    c.rec("R1.cannot-abort", (o["fn"] or f["pretty"], o["span"]), False,
                          "%s called with %s: %s possible when %s" % (f["pretty"], label, o["kind"], short(o["fail"])), imprecise(o["fail"]) or impossible(o))
                if not bad:
                    c.rec("R1.cannot-abort", f, True)
            c.guard("R1.cannot-abort", f, run)
            visited |= set(L.w.I.visited)
    c.count("public_functions", len(fns))
    c.count("abort_obligations", total)
    sites = panic_sites(c.F)
    un = sorted("%s at %s (%s)" % k for k, f in sites.items() if f["id"] not in visited and "deserialize" not in k[0])
    c.count("abort_sites_in_library", len(sites))
    c.count("abort_sites_in_analysed_functions", len(sites) - len(un))
    if un:
        c.notes.append("abort-capable sites in functions no public call reached: %s" % un[:20])
    if any(i["trait"] and i["trait"]["n"].split("::")[-1] == "Deserialize" for i in c.F.impls):
        sub = Ctx(c.pid, c.tier, c.config, c.F)
        c.guard("R3.reading-cannot-abort", "(deserialisation)", lambda: p17(sub))
        c.worlds += sub.worlds
        n = 0
        for o in sub.obs:
            if o["rule"].startswith("R8"):
                n += 1
                c.obs.append(dict(o, rule="R3.reading-cannot-abort", key="R3.reading-cannot-abort | " + o["function"]))
        c.count("deserialisation_obligations", n)


def nan_able(x):
    x = torat(x) if not isinstance(x, Rat) else x
    return x.d is not None and bool(x.d) or any(alg.ATOMS[a][0] == "fn" for a in alg.rat_atoms(x))


PROPS.update({"P19": p19})


# ====================================================================== P20 frames and kinds in the type system
def p20(c):
    import witness
    has_alloc = any(f["name"] == "best_intersection_of_rays" for f in c.F.local_fns())
    witness.judge(c, "R1.frames-and-kinds", witness.W, c.config, has_alloc)
    # every public item the witnesses are about exists, so that a rejected program is rejected for its frame
    for m in ("camera_to_pixel", "pixel_to_camera", "world_to_camera", "camera_to_world", "ray_camera_to_world", "world_to_pixel", "pixel_to_world", "point_on_ray", "linearize_at"):
        c.rec("R2.witnessed-function-exists", (m, ""), any(f["name"] == m and f["exported"] for f in c.F.local_fns()), "no public function of this name")
    # a public function that takes a frame-tagged value yields values of the same frame, unless it goes through a pose
    TAGGED = ("Points", "Ray", "RayBundle")

    def frames(t, out):
        if isinstance(t, dict):
            if t["t"] == "adt" and t["n"].split("::")[-1] in TAGGED and t["id"].startswith("cam_geom::"):
                x = t["a"][0]
                out.append(x["n"].split("::")[-1] if x["t"] in ("adt", "param") else "?")
            for k in ("a", "ups"):
                for x in t.get(k) or ():
                    frames(x, out)
            for k in ("e",):
                if isinstance(t.get(k), dict):
                    frames(t[k], out)
        return out

    def mentions(t, names):
        if t["t"] == "adt" and t["n"].split("::")[-1] in names:
            return True
        return any(mentions(x, names) for x in (t.get("a") or []) if isinstance(x, dict)) or (isinstance(t.get("e"), dict) and mentions(t["e"], names))
    n = 0
    for f in public_fns(c.F):
        sg = f.get("sig")
        if not sg or "out" not in sg:
            continue
        fin = [x for t in sg["in"] for x in frames(t, [])]
        fout = frames(sg["out"], [])
        if not fin or not fout:
            continue
        n += 1
        if any(mentions(t, ("ExtrinsicParameters", "Camera")) for t in sg["in"]) and set(fout) <= {"CameraFrame", "WorldFrame"}:
            good = set(fin) <= {"CameraFrame", "WorldFrame"} and set(fin) != set(fout)
            why = "turns values of %s into values of %s through a pose" % (fin, fout)
        else:
            good = set(fout) <= set(fin)
            why = "turns values of %s into values of %s" % (fin, fout)
        c.rec("R3.frame-follows-the-signature", f, good, why)
    c.count("frame_signatures", n)
    c.count("witness_programs", len(witness.W))


PROPS.update({"P20": p20})


# ====================================================================== P21 no std, no heap, same behaviour
def fkey(f):
    k = f["cont"]
    t = k.get("self") or {}
    n = t.get("n", t.get("t", "")).split("::")[-1] if t else ""
    tr = k.get("trait")
    tr = tr["n"] if isinstance(tr, dict) else tr or ""
    args = ""
    if t and t.get("t") == "adt" and k["kind"] == "inherent":
        # distinguishes impl blocks for concrete parameters (e.g. a camera of one kind)
        args = ",".join(x["n"].split("::")[-1] for x in t["a"] if x["t"] == "adt")
    return "%s%s%s::%s" % ((tr.split("::")[-1] + " for ") if tr else "", n, "<%s>" % args if args else "", f["name"])


GATED_TRAITS = {"Serialize", "Deserialize", "Error", "Debug", "Display"}


def outcome(c, F, f, cfg):
    """value number of the result and failure conditions of a public function on unconstrained inputs"""
    sub = Ctx(c.pid, c.tier, cfg, F)
    L = Lib(sub)
    try:
        r = L.call(f, *opaque_args(L, f))
        v = L.w.M.val_safe(L.w.st, r)
    except Diverge:
        v = "never returns"
    c.worlds += sub.worlds
    return v, L


def nodbg(v):
    """value with the names of the core library normalised"""
    if isinstance(v, St):
        return St(core_name(v.n), {k: nodbg(x) for k, x in v.f.items()})
    if isinstance(v, En):
        return En(core_name(v.n), v.d, {i: {k: nodbg(x) for k, x in p.items()} for i, p in v.v.items()})
    if isinstance(v, Ar):
        return Ar([nodbg(x) for x in v.x])
    if isinstance(v, RV):
        return nodbg(v.v)
    return v


def core_name(n):
    return n.replace("std::", "core::").replace("alloc::", "core::")


def mir_shape(f):
    """body without spans and with library paths normalised"""
    import json
    def strip_(x):
        if isinstance(x, dict):
            return {k: strip_(v) for k, v in x.items() if k not in ("s", "span", "id", "pretty", "p_")}
        if isinstance(x, list):
            return [strip_(v) for v in x]
        if isinstance(x, str):
            return core_name(x)
        return x
    return json.dumps(strip_(dict(f["body"], span="")), sort_keys=True)


def other_facts(c, cfg):
    import build, os
    from facts import Facts
    if os.environ.get("CAMGEOM_FACTS"):
        return Facts(os.environ["CAMGEOM_FACTS"].replace("facts", "facts_" + cfg)) if cfg != "full" else Facts(os.environ["CAMGEOM_FACTS"])
    p = build.facts(cfg)
    try:
        return Facts(p)
    finally:
        os.unlink(p)


def p21(c):
    full = c.F
    others = ["none"] if c.tier == "quick" else ["none", "alloc", "std"]
    for cfg in others:
        import build
        try:
            F = other_facts(c, cfg)
        except build.BuildError as e:
            c.rec("R0.builds-without-default-features", ("configuration " + cfg, ""), False, "does not build: " + str(e)[-600:])
            continue
        c.rec("R0.builds-without-default-features", ("configuration " + cfg, ""), True)
        crates = set(F.raw["crates"])
        if cfg in ("none", "alloc"):
            c.rec("R1.standard-library-not-linked", ("configuration " + cfg, ""), "std" not in crates, "crates linked: %s" % sorted(crates))
        if cfg == "none":
            c.rec("R2.no-allocator-linked", ("configuration " + cfg, ""), "alloc" not in crates and "hashbrown" not in crates, "crates linked: %s" % sorted(crates))
        a = {fkey(f): f for f in public_fns(full)}
        b = {fkey(f): f for f in public_fns(F)}
        missing = sorted(k for k in a if k not in b)
        for k in missing:
            tr = k.split(" for ")[0] if " for " in k else ""
            gated = tr in GATED_TRAITS or k.endswith("::best_intersection_of_rays") and cfg == "none"
            if not gated:
                c.rec("R3.operation-available", a[k], False, "public in the full configuration, absent in configuration %s" % cfg)
        same = 0
        for k in sorted(set(a) & set(b)):
            c.rec("R3.operation-available", a[k], True)
            if k.endswith("Debug for") or k.startswith("Debug for"):
                continue
            f, g = a[k], b[k]

            def cmp():
                nonlocal same
                va, La = outcome(c, full, f, c.config)
                vb, Lb = outcome(c, F, g, cfg)
                if isinstance(va, str) or isinstance(vb, str):
                    return c.rec("R4.same-behaviour-in-every-configuration", f, isinstance(va, str) and isinstance(vb, str), "configuration %s: %s, full configuration: %s" % (cfg, short(vb), short(va)))
                va, vb = nodbg(va), nodbg(vb)
                try:
                    d = c.diff(va, vb)
                except alg.Blowup:
                    d = None if mir_shape(f) == mir_shape(g) else ("", va, vb)
                if d is None or mir_shape(f) == mir_shape(g) and c.unk(va, vb):
                    same += 1
                    return c.rec("R4.same-behaviour-in-every-configuration", f, True)
                return c.rec("R4.same-behaviour-in-every-configuration", f, False, "result%s is %s in configuration %s but %s in the full one" % (d[0], short(d[2]), cfg, short(d[1])), c.unk(va, vb))
            c.guard("R4.same-behaviour-in-every-configuration", f, cmp)
        c.count("functions_compared_" + cfg, same)
    c.count("public_functions", len(public_fns(full)))


PROPS.update({"P21": p21})


# ====================================================================== P22 purity
def p22(c):
    import effects, witness
    F = c.F
    fs = effects.own(F)
    c.holds("R0.functions-found", "(library)", len(fs) > 60, "only %d functions" % len(fs))
    ncalls = 0
    for f in fs:
        if f["kind"] == "static":
            continue
        es = effects.effects(F, f)
        ncalls += sum(1 for _ in effects.calls(f))
        for kind, span, why in es:
            c.rec("R1.no-" + kind.replace(",", "").replace(" ", "-"), (f["pretty"], span), False, why)
        if not es:
            c.rec("R1.no-effects", f, True)
    c.count("calls_classified", ncalls)
    for s in F.raw["statics"]:
        ok = s["freeze"] and not s["mut"] and not s["tls"] and not s["foreign"]
        c.rec("R2.no-mutable-global", (s["id"], s["span"]), ok, "a global that can change")
    for i in F.impls:
        if i.get("unsafe") and not i["trait"]["n"].endswith("::TrivialClone"):        # what derive(Clone, Copy) writes
            c.rec("R3.no-unsafe-impl", (i["id"], i["span"]), False, "unsafe implementation of %s" % i["trait"]["n"])
    n = 0
    for a in F.adts.values():
        if not a["local"] or not a["exported"] and not a["n"].startswith(("extrinsics", "intrinsics", "ray", "camera", "linearize")):
            continue
        n += 1
        bad = None
        for v in a["variants"]:
            for fl in v["fields"]:
                bad = bad or effects.interior(fl["ty"], F.adts)
        c.rec("R4.no-interior-mutability", (a["n"], a.get("span") or ""), bad is None and a["kind"] != "union", "holds %s" % bad)
    c.count("types_examined", n)
    witness.judge(c, "R5.thread-safe", witness.SEND, c.config)


PROPS.update({"P22": p22})


# ====================================================================== P23 generic precision
LIMITS = {"default_epsilon", "epsilon", "default_max_relative", "default_max_ulps", "max_value", "min_value", "min_positive_value", "type_id", "type_name", "size_of", "size_of_val", "type_name_of_val", "is_type"}


def p23(c):
    import effects
    F = c.F
    inter = effects.region(F, "best_intersection_of_rays")
    accept = effects.region(F, "from_normalized_3x4_matrix")
    fs = [f for f in effects.own(F) if not f["pretty"].startswith(HELPERS) and not f["pretty"].startswith("_test") and "::_test_" not in f["pretty"]]
    nc = 0
    for f in fs:
        val, src, fl = effects.const_floats(f, f["exported"] if "exported" in f else True)
        body = f["body"]
        ok = True
        for l in sorted(fl):
            ty = effects.floats_in(body["locals"][l]["ty"])
            v = val.get(l, set())
            if v is None:
                if ty <= {"f64"} and f["id"] in inter:
                    continue
                ok = False
                c.rec("R1.no-fixed-precision", (f["pretty"], src.get(l) or body["span"]), False,
                      "data passes through %s" % ", ".join(sorted(ty)))
        names = []
        span = [body["span"]]

        def see(x):
            nonlocal ok, nc
            if x.get("k") == "float":
                nc += 1
                v = float(x["v"])
                if not effects.single(v):
                    math = any(abs(v - m) <= 2e-16 * abs(m) for m in MATH)
                    if not (math or f["id"] in inter):
                        ok = False
                        c.rec("R2.constants-exact", (f["pretty"], span[0]), False, "constant %s is not exact in single precision" % x["v"])
            if x.get("k") == "cast" and x.get("ck") in ("FloatToInt",):
                ok = False
                c.rec("R1.no-fixed-precision", (f["pretty"], span[0]), False, "a floating-point value is cast to an integer")
            if x.get("k") == "fn" and isinstance(x.get("f"), dict):
                g = x["f"]
                if g["name"] in LIMITS and f["id"] not in accept and g["krate"] in ("core", "std", "approx", "num_traits", "simba", "nalgebra"):
                    names.append((g["name"], span[0]))
                fl_ = effects.floats_in(g["a"])
                if fl_ & {"f16", "f32"}:
                    ok = False
                    c.rec("R1.no-fixed-precision", (f["pretty"], span[0]), False, "%s is instantiated with %s" % (g["pretty"], ", ".join(sorted(fl_))))
        for b in effects.blocks(f):
            for s in b["s"]:
                span[0] = s.get("s", span[0])
                effects.walk(s, see)
            span[0] = b["t"].get("s", span[0])
            effects.walk(b["t"], see)
        for l, v in val.items():
            for x in v or ():
                if not isinstance(x, str) and not effects.single(x) and not any(abs(x - m) <= 2e-16 * abs(m) for m in MATH) and f["id"] not in inter:
                    ok = False
                    c.rec("R2.constants-exact", (f["pretty"], body["span"]), False, "computed constant %r is not exact in single precision" % x)
        for nm, s in names:
            ok = False
            c.rec("R3.formula-independent-of-the-type", (f["pretty"], s), False, "the result depends on %s of the scalar type" % nm)
        if ok:
            c.rec("R1.generic-precision", f, True)
    c.count("constants_examined", nc)
    c.count("functions_in_double_precision_region", len(inter))


import math as _m
MATH = [s * m for m in (_m.pi, _m.pi / 2, _m.pi / 4, 2 * _m.pi, _m.sqrt(2), 1 / _m.sqrt(2), _m.e) for s in (1, -1)]
PROPS.update({"P23": p23})


# ====================================================================== P24 derived data
HOLDERS = ("ExtrinsicParameters", "IntrinsicParametersPerspective")


def holder_name(n):
    n = n.split("::")[-1]
    return n if n in HOLDERS else None


def holders_in(M, st, v, out=None, path=""):
    """every value with derived data inside a value"""
    out = [] if out is None else out
    v = M.val_safe(st, v)
    if isinstance(v, St):
        if holder_name(v.n):
            out.append((path, v))
            return out
        for k, x in v.f.items():
            holders_in(M, st, x, out, path + "." + str(k))
    elif isinstance(v, En):
        for i, p in v.v.items():
            for k, x in p.items():
                holders_in(M, st, x, out, path + ".%s" % k)
    elif isinstance(v, Ar):
        for k, x in enumerate(v.x):
            holders_in(M, st, x, out, path + "[%d]" % k)
    elif isinstance(v, RV):
        holders_in(M, st, v.v, out, path)
    return out


def rebuild(L, h):
    """the value its own public parameters imply"""
    if holder_name(h.n) == "ExtrinsicParameters":
        pose = L.E("pose", h)
        iso = L.w.M.val(L.w.st, pose)
        iso = iso.v if isinstance(iso, RV) else iso
        C = L.w.M.val_safe(L.w.st, L.E("camcenter", h))
        return L.call(("ExtrinsicParameters", "from_rotation_and_camcenter"), iso.r, colvec(L.vec(C)))
    p = L.w.M.val_safe(L.w.st, L.call(("IntrinsicParametersPerspective", "params"), h))
    return L.call(("From for IntrinsicParametersPerspective", "from"), p)


def agrees(c, L, rule, f, h, what, where):
    """the derived data of a value is what its parameters imply: part by part, or else in what clients can see of it"""
    b = rebuild(L, h)
    c.eq(rule, f, h, b, where)
    if c.diff(h, b) is not None:
        return laws(c, L, rule, h, what)
    # the value is what the constructor makes of its parameters, whatever they are: the laws of the constructor are its laws
    n = holder_name(h.n)
    if n not in c.__dict__.setdefault("lawful", set()):
        c.lawful.add(n)
        L = Lib(c)
        if n == "ExtrinsicParameters":
            v = L.call(("ExtrinsicParameters", "from_rotation_and_camcenter"), L.w.rot("q"), L.w.vec3("C"))
        else:
            v = L.call(("From for IntrinsicParametersPerspective", "from"), L.w.struct("PerspectiveParams", **{p: L.w.real(p) for p in PNAMES}))
        laws(c, L, rule, v, "value built from any parameters")


def laws(c, L, rule, h, what):
    """the derived data, as far as a client can see it, is what the parameters imply"""
    if holder_name(h.n) == "ExtrinsicParameters":
        iso = L.w.M.val(L.w.st, L.E("pose", h))
        iso = iso.v if isinstance(iso, RV) else iso
        C = L.vec(L.E("camcenter", h))
        R = iso.r.m
        pose_accessors(c, L, rule, h, R, C, what)
        g = L.f("ExtrinsicParameters", "world_to_camera")
        y = L.points("y")
        Y = rows(L.data(y))
        c.eq(rule, g, L.data(L.call(g, h, y)), rowmat(N, rmul(R, [sub(a, b) for a, b in zip(Y, C)])), what + ": camera coordinates")
        g = L.f("ExtrinsicParameters", "camera_to_world")
        c.eq(rule, g, L.data(L.call(g, h, y)), rowmat(N, [add(a, b) for a, b in zip(rtmul(R, Y), C)]), what + ": world coordinates")
        return
    p = L.w.M.val_safe(L.w.st, L.call(("IntrinsicParametersPerspective", "params"), h))
    pp = {k: torat(L.w.M.val_safe(L.w.st, L.w.M.field(p, k))) for k in PNAMES}
    for k in PNAMES:
        g = L.f("IntrinsicParametersPerspective", k)
        c.eq(rule, g, L.w.M.val_safe(L.w.st, L.call(g, h)), pp[k], what + ": " + k)
    g = L.f("IntrinsicParametersPerspective", "as_intrinsics_matrix")
    c.eq(rule, g, L.w.M.as_mat(L.call(g, h)), tomat3([[pp["fx"], pp["skew"], pp["cx"]], [R0, pp["fy"], pp["cy"]], [R0, R0, R1]]), what + ": matrix")
    g = L.f(IPP, "camera_to_pixel")
    y = L.points("y")
    c.eq(rule, g, L.data(L.call(g, h, y)), rowmat(N, project_expected(pp, rows(L.data(y)))), what + ": pixels")


def type_mentions(t, names, seen=None, adts=None):
    if not isinstance(t, dict):
        return False
    if t.get("t") == "adt":
        if t["n"].split("::")[-1] in names:
            return True
        a = adts.get(t["id"]) if adts else None
        seen = seen or set()
        if a and a["local"] and t["id"] not in seen:
            seen = seen | {t["id"]}
            if any(type_mentions(f["ty"], names, seen, adts) for v in a["variants"] for f in v["fields"]):
                return True
    return any(type_mentions(x, names, seen, adts) for k in ("a", "e", "ts", "ups") for x in (t.get(k) if isinstance(t.get(k), list) else [t.get(k)]))


def coherent_args(L, f):
    """arguments of a public function in which derived data agrees with its parameters"""
    args = opaque_args(L, f)
    out = []
    for k, a in enumerate(args):
        t = L.argty(f, k)
        n = t["n"].split("::")[-1] if t["t"] == "adt" else ""
        s = "#%d" % k if k else ""      # two values of one type are different values
        extr = lambda: L.call(("ExtrinsicParameters", "from_rotation_and_camcenter"), L.w.rot("q" + s), L.w.vec3("C" + s))
        persp = lambda: L.call(("From for IntrinsicParametersPerspective", "from"), L.w.struct("PerspectiveParams", **{p: L.w.real(p + s) for p in PNAMES}))
        if n == "ExtrinsicParameters":
            a = extr()
        elif n == "IntrinsicParametersPerspective":
            a = persp()
        elif n == "Camera":
            it = t["a"][1]
            i = persp() if it["t"] == "adt" and it["n"].endswith("IntrinsicParametersPerspective") else L.opaque(L.f("Camera", "new"), 0, "model" + s)
            a = L.camera(i, extr())
        out.append(a)
    return out


def p24(c):
    import effects, witness
    F = c.F
    names = HOLDERS + ("Camera",)
    built = 0
    visited = set()
    for f in public_fns(F):
        sg = f.get("sig") or {}
        if not sg:
            continue
        ins, out = sg["in"], sg["out"]
        mutin = [t for t in ins if t["t"] == "ref" and t["m"] and type_mentions(t["e"], names, None, F.adts)]
        if out["t"] == "ref" and out["m"] or type_mentions(out, ("RefMut", "IterMut", "ViewStorageMut", "MutexGuard"), None, F.adts):
            if any(type_mentions(t, names, None, F.adts) for t in ins):
                c.rec("R3.no-mutable-access", f, False, "hands out mutable access to a value with derived data")
                continue
        if mutin:
            def upd():
                L = Lib(c)
                args = coherent_args(L, f)
                cells = []
                for k, t in enumerate(ins):
                    if t["t"] == "ref" and t["m"]:
                        args[k] = Ref(L.w.I.new_cell(L.w.st, args[k]))
                        cells.append(args[k])
                r = L.call(f, *args)
                visited.update(L.w.I.visited)
                for ref in cells:
                    for path, h in holders_in(L.w.M, L.w.st, L.w.I.load(L.w.st, ref)):
                        agrees(c, L, "R1.derived-data-agrees", f, h, "value updated in place" + path, "value updated in place%s: " % path)
            c.guard("R1.derived-data-agrees", f, upd)
        if not type_mentions(out, names, None, F.adts) and not (out["t"] in ("param", "alias")):
            continue
        if out["t"] == "ref":
            continue          # a shared view of an existing value

        def run():
            nonlocal built
            L = Lib(c)
            try:
                r = L.call(f, *coherent_args(L, f))
            except Diverge:
                return
            finally:
                visited.update(L.w.I.visited)
            hs = holders_in(L.w.M, L.w.st, r)
            if not hs and type_mentions(out, HOLDERS, None, F.adts):
                c.rec("R1.derived-data-agrees", f, False, "result not resolved: %s" % short(r), True)
            for path, h in hs:
                built += 1
                agrees(c, L, "R1.derived-data-agrees", f, h, "%s: result%s" % (f["pretty"], path), "result%s: " % path)
        c.guard("R1.derived-data-agrees", f, run)
    if any(i["trait"] and i["trait"]["n"].split("::")[-1] == "Deserialize" for i in F.impls):
        import serdeflow as sf

        @c.group("R2.derived-data-agrees-after-reading", "(deserialisation)")
        def _():
            L = Lib(c)
            for n, v, how in serialisable(L):
                if not holders_in(L.w.M, L.w.st, v):
                    continue
                a = L.w.adt(n)
                ty = {"t": "adt", "id": a["id"], "n": a["n"], "a": a["generics"]}
                tr = sf.ser_value(L.w.M, L.w.st, ty, v)
                rf = L.w.fn("Deserialize for " + n, "deserialize")
                for style in ("map", "index", "seq"):
                    r = sf.de_value(L.w.M, L.w.st, ty, tr.struct(tr.entries, style) if tr.kind == "struct" else tr)
                    hs = holders_in(L.w.M, L.w.st, sf.payload(r))
                    c.holds("R2.derived-data-agrees-after-reading", rf, bool(hs), "no value read", sf.payload(r))
                    for path, h in hs:
                        c.eq("R2.derived-data-agrees-after-reading", rf, h, rebuild(L, h), "%s (%s) read back, %s form%s: " % (n, how, style, path))
            visited.update(L.w.I.visited)
    # every construction site of such a value lies in an analysed function
    sites = 0
    for f in effects.own(F):
        for b in effects.blocks(f):
            for s in b["s"]:
                r = s.get("r") or {}
                if s["k"] == "assign" and r.get("k") == "agg" and r.get("ak") == "adt" and r["n"].split("::")[-1] in names and r["id"].startswith("cam_geom::"):
                    sites += 1
                    c.rec("R4.construction-site-analysed", (f["pretty"], s["s"]), f["id"] in visited, "builds a %s outside every analysed operation" % r["n"], True)
                if s["k"] == "assign" and any(e.get("k") == "field" for e in s["p"]["p"]):
                    ty = f["body"]["locals"][s["p"]["l"]]["ty"]
                    if s["p"]["p"][0]["k"] == "deref" and type_mentions(ty, names, None, F.adts) and f["id"] not in visited and not f["cont"].get("derived"):
                        c.rec("R4.construction-site-analysed", (f["pretty"], s["s"]), False, "writes a field of a %s outside every analysed operation" % ty.get("e", ty).get("n"), True)
    c.count("construction_sites", sites)
    c.count("values_rebuilt", built)
    for a in F.adts.values():
        if a["local"] and a["n"].split("::")[-1] in names:
            for v in a["variants"]:
                for fl in v["fields"]:
                    c.rec("R3.fields-are-private", (a["n"] + "." + fl["n"], a["span"] or ""), fl["vis"] != "pub", "a public field next to data derived from it")
    witness.judge(c, "R3.no-mutable-access", witness.PRIV, c.config)


PROPS.update({"P24": p24})


# ====================================================================== P25 the published round-trip helper
DYN = {"t": "adt", "id": "nalgebra::base::dimension::Dyn", "n": "nalgebra::Dyn", "a": []}


def dyn_env(f):
    return {p["ty"]["n"]: DYN for p in f["preds"] if p["trait"].split("::")[-1] == "Dim"}


def grids(L, w, h, s, b):
    """the pixel grid, in the two orders in which it can be walked"""
    cd = lambda n: L.w.M.I.intfn("ceil_div", sub(sub(n, b), b), s)
    nw, nh = cd(w), cd(h)
    k = Rat(alg.patom(RHO))
    at = lambda x: add(mul(s, x), b)
    i, d = (lambda n: L.w.M.I.intfn("irem", k, n)), (lambda n: L.w.M.I.intfn("idiv", k, n))
    return [("row by row", Mat(mul(nw, nh), 2, [at(i(nw)), at(d(nw))], "r")), ("column by column", Mat(mul(nw, nh), 2, [at(d(nh)), at(i(nh))], "r"))]


def p25(c):
    import models
    F = c.F
    if not any(f["name"] == "roundtrip_intrinsics" for f in F.local_fns()):
        if c.config in ("full", "std"):
            raise Missing("roundtrip_intrinsics")
        c.rec("R0.not-in-this-configuration", ("roundtrip_intrinsics", ""), True)
        return

    def sample(inst, off=None, nan=False):
        """one image size, when there is no formula for all: the loops are unrolled, and the model projects every pixel back to
        itself, but for one coordinate (pixel, 0 or 1), of which nothing is known"""
        w, h, s, b = inst
        L = Lib(c)
        M = L.w.M
        f = L.f("roundtrip_intrinsics")
        args = opaque_args(L, f)
        for k, x in enumerate(inst):
            args[1 + k] = rc(x)
        cam, eps = args[0], args[5]
        alg.NONNEG.update(eps.n.atoms())
        asked, known = set(), []
        free = L.w.real("projected coordinate")

        def answer(name, vals, default):
            if name.endswith("::pixel_to_camera"):
                m = L.data(vals[1])
                if not isinstance(m, Mat) or m.sym or c.unk(m):
                    raise Undef("pixels asked for are not known")
                asked.update((m.get(r, 0).const(), m.get(r, 1).const()) for r in range(m.nr))
                known.append((repr(vkey(vals[1])), m))
            r = default()
            if name.endswith("::camera_to_pixel"):
                key = repr(vkey(vals[1]))
                ms = [m for k, m in known if k in key]
                pts = L.data(vals[1])
                if len(ms) != 1 or torat(pts.nr).const() != ms[0].nr:
                    raise Undef("projected points are not those of one batch of pixels")
                m = ms[0]
                d = {ij: free if off and ij[1] == off[1] and (m.get(ij[0], 0).const(), m.get(ij[0], 1).const()) == off[0] else x for ij, x in m.c.items()}
                return St(r.n, {k: Mat(m.nr, m.nc, d) if k == "data" else x for k, x in r.f.items()})
            return r
        M.icall_hook = answer
        try:
            L.call(f, *args)
        except Diverge:
            pass
        except Undef as e:
            c.notes.append("image of %s: %s" % (inst, e))
            return
        grid = [(i, j) for j in range(b, h - b, s) for i in range(b, w - b, s)]
        lab = "image of %d by %d pixels, step %d, border %d: " % (w, h, s, b)
        fail = either([mul(o["pc"], o["fail"]) for o in L.w.I.obl if not o["ok"] and o["kind"].startswith("panic:")])
        if off is None:
            left = [p for p in grid if p not in asked]
            c.rec("R1.round-trip-of-every-grid-pixel-decides", f, not left, "%spixel %s is not examined" % (lab, left[:1]))
            c.rec("R2.can-pass", f, fail.is_zero(), "%sa model that round-trips exactly fails when %s" % (lab, short(fail, 300)), alg.has_unk(fail))
            return
        if nan:
            c.rec("R4.a-model-that-yields-no-number-fails", f, fail.const() == 1, "%sthe %s of pixel %s is not a number: fails exactly when %s" % (lab, ("column", "row")[off[1]], off[0], short(fail, 300)), alg.has_unk(fail))
            return
        want = alg.pos(sub(alg.rabs(sub(free, rc(off[0][off[1]]))), eps))
        c.rec("R1.round-trip-of-every-grid-pixel-decides", f, alg.eq_int(fail, want), "%swhen only the %s of pixel %s is off it fails when %s" % (lab, ("column", "row")[off[1]], off[0], short(fail, 300)), alg.has_unk(fail))

    @c.group("R1.round-trip-of-every-grid-pixel-decides", "roundtrip_intrinsics")
    def _():
        L = Lib(c)
        f = L.f("roundtrip_intrinsics")
        args = opaque_args(L, f)
        cam, w, h, s, b, eps = args
        if isinstance(eps, Rat):        # a tolerance is not negative
            alg.NONNEG.update(eps.n.atoms())
        try:
            L.call(f, *args)
            returns = True
        except Diverge:
            returns = False
        panics = [o for o in L.w.I.obl if not o["ok"] and o["kind"].startswith("panic:")]
        c.holds("R2.can-pass", f, returns, "never returns normally")
        if not panics:
            unk = bool(L.w.I.unmodelled)
            return c.rec("R3.can-fail", f, False, "no path fails: the helper accepts every model", unk)
        c.rec("R3.can-fail", f, True)
        fail = either([mul(o["pc"], o["fail"]) for o in panics])
        # what the helper must compare
        got = None
        for name, G in grids(L, w, h, s, b):
            px = L.call(("Pixels", "new"), G)
            bd = L.w.icall("IntrinsicParameters", "pixel_to_camera", cam, px, dyn=True)
            g = L.f("RayBundle", "point_on_ray")
            act = L.data(L.w.icall("IntrinsicParameters", "camera_to_pixel", cam, L.call(g, bd, env=dyn_env(g)), dyn=True))
            want = alg.bnot(models.releq(L.w.M, G, act, "abs", eps))
            c.count("grids_compared")
            if alg.eq(fail, want) or alg.eq(alg.merge_exists(fail), alg.merge_exists(want)):
                got = name
        c.rec("R1.round-trip-of-every-grid-pixel-decides", f, got is not None,
              "fails exactly when %s; required: when some grid pixel and its round trip differ by more than the tolerance" % short(fail, 600), alg.has_unk(fail))
        if got:
            c.notes.append("grid walked " + got)
        if not got:
            if alg.has_unk(fail):
                for inst in ((5, 4, 1, 0), (8, 7, 2, 1), (1, 2, 1, 0), (11, 8, 3, 2)):
                    sample(inst)
                for p in ((0, 0), (2, 0), (0, 2), (2, 2)):
                    for j in (0, 1):
                        sample((3, 3, 2, 0), (p, j))
                        alg.with_special(lambda a: alg.NAN if alg.ATOMS[a] == ("read", "projected coordinate") else None, lambda: sample((3, 3, 2, 0), (p, j), True))
            return
        # a model that answers with something that is not a number does not pass either
        for j, nm in enumerate(("column", "row")):
            def special(a):
                k = alg.ATOMS[a]
                return alg.NAN if k[:3] == ("fn", "opq", "icall") and k[3].endswith("::camera_to_pixel") and isinstance(k[-1], (int, Rat)) and toint(k[-1]) == j else None

            def run():
                L = Lib(c)
                args = opaque_args(L, f)
                try:
                    L.call(f, *args)
                except Diverge:
                    pass
                return either([mul(o["pc"], o["fail"]) for o in L.w.I.obl if not o["ok"] and o["kind"].startswith("panic:")])
            fail = alg.with_special(special, run)
            G = dict(grids(L, w, h, s, b))[got]
            none = alg.bnot(alg.exists(torat(G.nr), R1, RHO))
            ok = alg.eq_int(alg.bor(fail, none), R1)
            c.rec("R4.a-model-that-yields-no-number-fails", f, ok, "the %s of the projected pixels is not a number: fails exactly when %s" % (nm, short(fail, 600)), alg.has_unk(fail))


def either(xs):
    r = R0
    for x in xs:
        r = alg.bor(r, x)
    return r


PROPS.update({"P25": p25})


# ====================================================================== P26 copies and equality
def p26(c):
    from interp import literals
    F = c.F
    L = Lib(c)
    M, st = L.w.M, L.w.st
    fi = L.f("From for IntrinsicParametersPerspective", "from")
    fo = L.f("From for IntrinsicParametersOrthographic", "from")
    fe = L.f("ExtrinsicParameters", "from_rotation_and_camcenter")
    fc = L.f("Camera", "new")

    def real(k, t):
        return L.w.real(k + t)

    def build(kind, t, n=N):
        """(value of a type, its parameters as comparable leaves)"""
        if kind in ("PerspectiveParams", "IntrinsicParametersPerspective"):
            p = {k: real(k, t) for k in PNAMES}
            v = L.w.struct("PerspectiveParams", **p)
            return (v if kind == "PerspectiveParams" else L.call(fi, v)), [(k, p[k]) for k in PNAMES]
        if kind in ("OrthographicParams", "IntrinsicParametersOrthographic"):
            p = {k: real(k, t) for k in ONAMES}
            v = L.w.struct("OrthographicParams", **p)
            return (v if kind == "OrthographicParams" else L.call(fo, v)), [(k, p[k]) for k in ONAMES]
        if kind == "ExtrinsicParameters":
            q, C = L.w.rot("q" + t), L.w.vec3("C" + t)
            return L.call(fe, q, C), [("rotation", q)] + [("centre[%d]" % i, x) for i, x in enumerate(C.vec())]
        if kind == "Camera":
            m = M.opaque(L.argty(fc, 0), ("in", "model" + t))
            e, le = build("ExtrinsicParameters", t)
            return L.camera(m, e), [("model", m)] + le
        if kind in ("SharedOriginRayBundle", "SharedDirectionRayBundle"):
            a = L.w.adt(kind)
            v = M.opaque({"t": "adt", "id": a["id"], "n": a["n"], "a": [{"t": "prim", "n": "real"}]}, ("in", kind + t), deep=True)
            leaves = []
            for k, x in v.f.items():
                x = M.as_mat(x)
                leaves += [("%s[%s,%s]" % (k, i, j), y) for (i, j), y in sorted(x.c.items())]
            return v, leaves
        if kind.startswith("RayBundle"):
            so = kind.endswith("origin")
            b = L.bundle("shared-origin" if so else "shared-direction", "d" + t, n)
            bt, lb = build("SharedOriginRayBundle" if so else "SharedDirectionRayBundle", t)
            b = St(b.n, dict(b.f, bundle_type=bt))
            d = L.data(b)
            return b, lb + ([("data", d)] if d.sym else [("data[%s,%s]" % ij, y) for ij, y in sorted(d.c.items())])
        if kind == "Pixels":
            p = L.pixels("uv" + t, n)
            d = L.data(p)
            return p, [("data", d)] if d.sym else [("data[%s,%s]" % ij, y) for ij, y in sorted(d.c.items())]
        a = L.w.adt(kind)
        return St(a["n"], {f["n"]: None for f in a["variants"][0]["fields"]}), []

    def forced(r, x, y):
        """r being true forces x = y"""
        lits = literals(r)
        keys = [alg.ATOMS[a] for a, v in lits if v]
        if isinstance(x, Rat):
            z = alg.zero(alg.sub(x, y))
            return z.const() == 0 and r.const() == 0 or all(l in lits for l in literals(z)) and bool(literals(z))
        if isinstance(x, Rot):
            if all(forced(r, x.m[i][j], y.m[i][j]) for i in range(3) for j in range(3)):
                return True
            if x.q is not None and y.q is not None and all(forced(r, a, b) for a, b in zip(x.q, y.q)):
                return True
        if isinstance(x, Mat) and x.sym:
            if all(forced(r, a, b) for a, b in zip(x.c, y.c)):
                return True
        kx, ky = vkey(x), vkey(y)
        return any(len(k) >= 4 and k[0] == "fn" and k[1] == "eq" and (k[2], k[3]) in ((kx, ky), (ky, kx)) for k in keys)

    def impls(tr):
        return sorted({i["self"]["n"].split("::")[-1] for i in F.impls if i["trait"] and i["trait"]["n"].split("::")[-1] == tr and i["self"]["t"] == "adt"})
    known = {"PerspectiveParams", "IntrinsicParametersPerspective", "OrthographicParams", "IntrinsicParametersOrthographic", "ExtrinsicParameters", "Camera",
             "SharedOriginRayBundle", "SharedDirectionRayBundle", "RayBundle", "Pixels", "CameraFrame", "WorldFrame"}
    kinds = lambda n: ["RayBundle shared-origin", "RayBundle shared-direction"] if n == "RayBundle" else [n]
    for n in impls("Clone"):
        if n not in known:
            if F.adt(n) and F.adt(n)["exported"]:
                c.notes.append("type with Clone without a construction rule: %s" % n)
            continue
        f = c.guard("R1.copy-is-equal", n, lambda: L.f("Clone for " + n, "clone"))
        if f is None:
            continue
        for kind in kinds(n):
            for size in ((N, rc(1)) if n in ("RayBundle", "Pixels") else (N,)):
                def run():
                    v, lv = build(kind, "", L.n(size))
                    c.eq("R1.copy-is-equal", f, M.val_safe(st, L.call(f, v)), v, kind + " copy: ")
                c.guard("R1.copy-is-equal", f, run)
        for g in F.trait_method("Clone", n, "clone_from"):
            for kind in kinds(n):
                def run2():
                    v, _ = build(kind, "", L.n(N))
                    v2, _ = build(kind, "'", N)
                    cell = Ref(M.I.new_cell(st, v2))
                    L.call(g, cell, v)
                    c.eq("R1.copy-is-equal", g, M.val_safe(st, M.I.load(st, cell)), v, kind + " overwritten by a copy: ")
                c.guard("R1.copy-is-equal", g, run2)
    for n in sorted(known & {"PerspectiveParams", "IntrinsicParametersPerspective", "OrthographicParams", "IntrinsicParametersOrthographic", "ExtrinsicParameters", "Camera",
                             "SharedOriginRayBundle", "SharedDirectionRayBundle", "RayBundle", "CameraFrame", "WorldFrame"}):
        c.rec("R0.can-be-copied-and-compared", (n, ""), n in impls("Clone") and n in impls("PartialEq"), "%s no longer implements Clone and PartialEq" % n)
    for n in impls("PartialEq"):
        if n not in known:
            continue
        for meth in ("eq", "ne"):
            l = F.trait_method("PartialEq", n, meth)
            if meth == "eq" and len(l) != 1:
                c.rec("R2.equal-iff-parameters-equal", n, False, "%d implementations" % len(l), True)
            for f in l:
                for kind in kinds(n):
                    for size in ((N, rc(1)) if n == "RayBundle" else (N,)):
                        def run():
                            L.n(size)
                            a, la = build(kind, "", size)
                            a2, _ = build(kind, "", size)
                            b, lb = build(kind, "'", size)
                            out = lambda x, y: (lambda r: alg.bnot(r) if meth == "ne" else r)(torat(L.call(f, x, y)))
                            r = out(a, a2)
                            refl = [x for x in alg.rat_atoms(r) if (lambda k: k[0] == "fn" and k[1] == "eq" and k[2] == k[3])(alg.ATOMS[x])]
                            # the comparison of an unknown model with itself is reflexive by its own contract
                            if not (len(refl) == 1 and alg.eq(r, Rat(alg.patom(refl[0])))):
                                c.eq("R2.equal-parameters-compare-equal", f, r, R1, kind + " with equal parameters: ")
                            r = out(a, b)
                            for (nm, x), (_, y) in zip(la, lb):
                                c.holds("R3.different-parameters-compare-different", f, forced(r, x, y), "%s: values that differ in %s can compare equal: %s" % (kind, nm, short(r)), r)
                        c.guard("R2.equal-iff-parameters-equal", f, run)
    # constructors store what they are given
    rule = "R4.constructor-stores-its-arguments"

    @c.group(rule, "constructors")
    def _():
        for size in (N, rc(1), rc(0)):
            L.n(size)
            for n, w in (("Points", 3), ("Pixels", 2)):
                m = L.w.mat("m", size, w)
                c.eq(rule, L.f(n, "new"), L.data(L.call((n, "new"), m)), m, n + " data: ")
            for kind in KINDS:
                m = L.w.mat("m", size, 3)
                ctor = L.f("RayBundle", "new_shared_zero_origin" if kind == "shared-origin" else "new_shared_plusz_direction")
                c.eq(rule, ctor, L.data(L.call(ctor, m)), m, kind + " data: ")
        L.n(N)
        f = L.f("Ray", "new")
        p, d = L.w.mat("p", 1, 3), L.w.mat("d", 1, 3)
        r = L.call(f, p, d)
        c.eq(rule, f, M.as_mat(M.field(r, "center")), p, "ray centre: ")
        c.eq(rule, f, M.as_mat(M.field(r, "direction")), d, "ray direction: ")
        e, le = build("ExtrinsicParameters", "")
        c.eq(rule, fe, tomat3(L.R(M.val(st, L.E("rotation", e)))), tomat3(le[0][1].m), "rotation: ")
        c.eq(rule, fe, colvec(L.vec(L.E("camcenter", e))), colvec([x for _, x in le[1:]]), "centre: ")
        m = M.opaque(L.argty(fc, 0), ("in", "model"))
        cam = L.camera(m, e)
        c.eq(rule, fc, M.val_safe(st, L.call(("Camera", "intrinsics"), cam)), m, "intrinsics: ")
        c.eq(rule, fc, M.val_safe(st, L.call(("Camera", "extrinsics"), cam)), e, "extrinsics: ")
        v, lv = build("IntrinsicParametersPerspective", "")
        P = M.val_safe(st, L.call(("IntrinsicParametersPerspective", "params"), v))
        for k, x in lv:
            c.eq(rule, fi, torat(M.val_safe(st, M.field(P, k))), x, k + ": ")
            c.eq(rule, L.f("IntrinsicParametersPerspective", k), torat(M.val_safe(st, L.call(("IntrinsicParametersPerspective", k), v))), x, k + ": ")
    no_failures(c, L, "R5.no-abort-on-the-way")


PROPS.update({"P26": p26})


# ====================================================================== P27 printed form
def p27(c):
    F = c.F
    L = Lib(c)
    M, st = L.w.M, L.w.st
    I = M.I
    impl = lambda tr: sorted({i["self"]["n"].split("::")[-1] for i in F.impls if i["trait"] and i["trait"]["n"].split("::")[-1] == tr and i["self"]["t"] == "adt"})
    import models
    dbg = impl("Debug")
    fmt = Op(("in", "formatter"))
    vals = []

    @c.group("R0.values", "(printable values)")
    def _():
        pe = L.call(L.f("From for IntrinsicParametersPerspective", "from"), L.w.struct("PerspectiveParams", **{k: L.w.real(k) for k in PNAMES}))
        vals.append(("PerspectiveParams", L.w.struct("PerspectiveParams", **{k: L.w.real(k) for k in PNAMES})))
        vals.append(("IntrinsicParametersPerspective", pe))
        vals.append(("OrthographicParams", L.w.struct("OrthographicParams", **{k: L.w.real(k) for k in ONAMES})))
        vals.append(("IntrinsicParametersOrthographic", L.call(L.f("From for IntrinsicParametersOrthographic", "from"), vals[-1][1])))
        e = L.call(L.f("ExtrinsicParameters", "from_rotation_and_camcenter"), L.w.rot("q"), L.w.vec3("C"))
        vals.append(("ExtrinsicParameters", e))
        fc = L.f("Camera", "new")
        vals.append(("Camera", L.camera(M.opaque(L.argty(fc, 0), ("in", "model")), e)))
        for n in ("SharedOriginRayBundle", "SharedDirectionRayBundle"):
            a = L.w.adt(n)
            vals.append((n, M.opaque({"t": "adt", "id": a["id"], "n": a["n"], "a": [{"t": "prim", "n": "real"}]}, ("in", n), deep=True)))
        for kind in KINDS:
            vals.append(("RayBundle", L.bundle(kind, "d")))
        vals.append(("Points", L.points("p")))
        for n in ("CameraFrame", "WorldFrame"):
            vals.append((n, St(L.w.adt(n)["n"], {})))
    for n in sorted({n for n, v in vals}):
        if n != "Points" or c.config == "full":
            c.rec("R0.can-be-printed", (n, ""), n in dbg, "%s does not implement Debug" % n)
    for n in sorted(set(dbg) - {n for n, v in vals} - {"Error"}):
        if F.adt(n) and F.adt(n)["exported"]:
            c.notes.append("printable type without a construction rule: %s" % n)

    def run(f, v):
        del I.printed[:]
        r = L.call(f, v, fmt)
        out = list(I.printed)
        return r, out

    def phantom(x):
        return x is None or "PhantomData" in repr(vkey(x))[:200]
    nf = 0
    for n, v in vals:
        f = c.guard("R1.names-its-type", n, lambda: L.f("Debug for " + n, "fmt"))
        if f is None:
            continue

        @c.group("R1.names-its-type", f)
        def _():
            nonlocal nf
            r, out = run(f, v)
            loud = isinstance(r, En) and r.d.const() is None
            if not out:
                c.rec("R1.names-its-type", f, False, "nothing is printed")
                return
            if not loud or not all(t[0] == "dbg" and t[1] == "struct" or t[0] == "text" and isinstance(t[1], str) for p, t in out):
                # printed piecewise or through a format string
                c.rec("R1.names-its-type", f, False, "printed as %s" % (repr(out)[:200]), True)
                return
            total = lambda ps: c.flag_one(ps)
            c.rec("R1.printed-once", f, *total([p for p, t in out]))
            decl = [x["n"] for x in F.adt(n)["variants"][0]["fields"]]
            own = [x for x in decl if not x.startswith("cache")]
            for at, t in out:
                name = t[1] if t[0] == "text" else t[2]
                c.rec("R1.names-its-type", f, name == n, "printed as %r" % (name,), not isinstance(name, str))
                got = list(t[3]) if t[0] == "dbg" else []
                pcs = list(t[4]) if t[0] == "dbg" and len(t) > 4 else [at] * len(got)
                names = [k for k, x in got]
                nf += len(names)
                for k in own:
                    ok, why, unsure = total([p for (k2, x), p in zip(got, pcs) if k2 == k] + [sub(R1, at)])
                    c.rec("R2.every-parameter-once", f, ok, "field %s is printed %d times, %s" % (k, names.count(k), why), unsure or any(not isinstance(x, str) for x in names))
                for (k, x), p in zip(got, pcs):
                    if k in own:
                        w = v.f.get(k)
                        ok = phantom(w) or x == models.printkey(M.val_safe(st, w)) or x == models.printkey(w)
                        c.rec("R3.under-its-own-name", f, ok, "%s shows %s, whose value is %s" % (k, repr(x)[:150], repr(vkey(w))[:150]), x is None)
                    else:
                        c.rec("R4.nothing-derived-is-printed", f, False, "%r is not a parameter of %s" % (k, n), not isinstance(k, str))
                order = [k for i, k in enumerate(names) if k in own and k not in names[:i]]
                c.rec("R5.in-declaration-order", f, order == own or sorted(order) != sorted(own), "printed in the order %s" % names)
    c.count("fields_compared", nf)
    # the error type
    if c.config == "full":
        a = F.adt("Error")
        texts = {}
        for tr in ("Debug", "Display"):
            f = c.guard("R6.errors-are-told-apart", "Error", lambda: L.f(tr + " for Error", "fmt"))
            if f is None:
                continue

            @c.group("R6.errors-are-told-apart", f)
            def _():
                seen = {}
                for k, var in enumerate(a["variants"]):
                    if var["fields"]:
                        continue
                    r, out = run(f, En(a["n"], rc(k), {k: {}}))
                    out = [t for p, t in out if not alg.eq(p, R0)]
                    if not out:
                        c.rec("R6.errors-are-told-apart", f, False, "%s of %s prints nothing" % (tr, var["n"]))
                        continue
                    key = out[0][1] if len(out) == 1 and out[0][0] == "text" else repr(out)
                    if isinstance(key, str):
                        c.rec("R6.errors-are-told-apart", f, key not in seen and bool(key), "%s of %s is %r, like that of %s" % (tr, var["n"], key[:80], seen.get(key)))
                        seen[key] = var["n"]
                        if tr == "Debug" and len(out) == 1 and out[0][0] == "text":
                            c.rec("R7.debug-shows-the-variant", f, key == var["n"], "%s is printed as %r" % (var["n"], key[:80]))
                    else:
                        c.rec("R6.errors-are-told-apart", f, False, "text not known: %r" % (key,), True)
        c.rec("R8.error-interface", ("Error", ""), "Error" in impl("Error") and "Error" in impl("Display") and "Error" in dbg, "Error does not implement the standard error interface")
    no_failures(c, L, "R9.no-abort-on-the-way")


PROPS.update({"P27": p27})

# ====================================================================== P28 generality
def p28(c):
    import witness
    fns = list(c.F.local_fns())
    has_alloc = any(f["name"] == "best_intersection_of_rays" for f in fns)
    has_std = any(f["name"] == "roundtrip_intrinsics" for f in fns)
    witness.judge(c, "R1.generic-client", [w for w in witness.GEN if w["need"] != "std" or has_std], c.config, has_alloc)


PROPS.update({"P28": p28})


# ====================================================================== P29 published layout of written values
LAYOUT = {
    "PerspectiveParams": [(k, "real") for k in PNAMES],
    "OrthographicParams": [(k, "real") for k in ONAMES],
    "IntrinsicParametersPerspective": [("params", "PerspectiveParams")],
    "IntrinsicParametersOrthographic": [("params", "OrthographicParams")],
    "ExtrinsicParameters": [("rquat", "rotation"), ("camcenter", "point")],
    "Camera": [("intrinsics", "model"), ("extrinsics", "ExtrinsicParameters")],
    "SharedOriginRayBundle": [("center", "point")],
    "SharedDirectionRayBundle": [("direction", "vector")],
    "RayBundle": [("coords", "tag"), ("data", "rows"), ("bundle_type", "kind")],
}


# library types that write a value of the named meaning in the published form (a unit value like the value it wraps, a point like its coordinates)
FORM = {"rotation": ("Unit", "Quaternion"), "point": ("OPoint", "Point", "Matrix"), "vector": ("Matrix", "Unit", "OPoint"), "rows": ("Matrix",)}


def p29(c):
    import serdeflow as sf
    L = Lib(c)
    M, st = L.w.M, L.w.st
    C = L.w.vec3("C")

    def doc(n, path=(), kind=None):
        """a document of the published layout, with a symbol for every value in it"""
        t = sf.Tree("struct", Str(n))
        for i, (k, what) in enumerate(LAYOUT[n]):
            nm = ".".join(path + (k,))
            if what == "kind":
                what = kind
            if what in LAYOUT:
                sub = doc(what, path + (k,))
            elif what == "tag":
                sub = sf.Tree("leaf", value=St("PhantomData", {}))
            else:
                v = {"real": lambda: L.w.real(nm), "rotation": lambda: L.w.rot(nm), "point": lambda: L.w.vec3(nm), "vector": lambda: L.w.vec3(nm),
                     "rows": lambda: L.w.mat(nm, N, 3), "model": lambda: L.opaque(L.f("Camera", "new"), 0, "model")}[what]()
                sub = sf.Tree("leaf", what, value=v)
            t.entries.append((k, sub, i))
        return t

    def leaf(t, *path):
        for k in path:
            t = next(s for n, s, i in t.entries if n == k)
        return t.value

    def same_tree(rule, f, got, want, how, path="", top=True):
        """one layout: names, order and values"""
        if got.kind == "struct" and want.kind == "leaf" and isinstance(want.value, St):
            return      # a unit tag
        if got.kind != want.kind:
            # one field of a nested struct written through another serialisable type
            c.rec(rule, f, False, "%s%s is written as a %s, published as a %s" % (how, path or "the value", got.kind, want.kind), False)
            return
        if got.kind == "leaf":
            if not (isinstance(want.value, St) and want.value.n == "PhantomData"):
                c.eq(rule + ".values", f, got.value, want.value, "%s%s: " % (how, path))
                if isinstance(got.name, dict) and got.name["t"] in ("adt", "prim"):
                    tn = got.name["n"].split("::")[-1]
                    c.rec(rule + ".form", f, tn in FORM.get(want.name, (tn,)), "%s%s is written in the form of a %s, published: %s" % (how, path, tn, want.name))
            return
        c.rec(rule + ".names", f, [k for k, s, i in got.entries] == [k for k, s, i in want.entries], "%s%s is written with fields %s, published: %s" % (
            how, path or "the value", [k for k, s, i in got.entries], [k for k, s, i in want.entries]))
        if isinstance(got.name, Str):
            c.rec(rule + ".name", f, got.name.s == want.name.s, "%s%s is written as a struct named %s, published: %s" % (how, path or "the value", got.name.s, want.name.s))
        w = {k: s for k, s, i in want.entries}
        for k, s, i in got.entries:
            if k in w:
                same_tree(rule, f, s, w[k], how, (path + "." if path else "") + k, False)

    def mean(n, f, v, d, how, kind):
        """what was read means what the document says, as seen through the public operations"""
        rule = "R3.published-meaning"
        if n in ("PerspectiveParams", "OrthographicParams"):
            for k, _ in LAYOUT[n]:
                c.eq(rule, f, M.field(v, k), leaf(d, k), k + ": ")
        elif n == "IntrinsicParametersPerspective":
            for k in PNAMES:
                c.eq(rule, f, L.call((n, k), v), leaf(d, "params", k), k + ": ")
        elif n == "IntrinsicParametersOrthographic":
            uv = rows(L.data(L.call((IPO, "camera_to_pixel"), v, L.points())))
            X = rows(L.data(L.points()))
            for i, (s, o) in enumerate((("sx", "cx"), ("sy", "cy"))):
                c.eq(rule, f, uv[i], add(mul(leaf(d, "params", s), X[i]), leaf(d, "params", o)), "pixel %d of a camera-frame point: " % i)
        elif n in ("ExtrinsicParameters", "Camera"):
            p = ("extrinsics",) if n == "Camera" else ()
            e = L.call(("Camera", "extrinsics"), v) if p else v
            c.eq(rule, f, L.E("camcenter", e), leaf(d, *p, "camcenter"), "camcenter: ")
            X = rows(L.data(L.points()))
            q, C = leaf(d, *p, "rquat"), leaf(d, *p, "camcenter").vec()
            c.eq(rule, f, L.data(L.E("world_to_camera", e, L.points())), rowmat(N, rmul(q.m, [sub(x, y) for x, y in zip(X, C)])), "camera-frame coordinates: ")
            if p:
                c.eq(rule, f, L.call(("Camera", "intrinsics"), v), leaf(d, "intrinsics"), "intrinsics: ")
        elif n == "RayBundle":
            c.eq(rule, f, L.data(v), leaf(d, "data"), "data: ")
            D = rows(leaf(d, "data"))
            at = leaf(d, "bundle_type", "center" if kind == "SharedOriginRayBundle" else "direction").vec()
            for m in ("directions", "centers"):
                shared = (m == "centers") == (kind == "SharedOriginRayBundle")
                c.eq(rule, f, L.B(m, v), rowmat(N, at if shared else D), how + m + ": ")
    for n in LAYOUT:
        for kind in (("SharedOriginRayBundle", "SharedDirectionRayBundle") if n == "RayBundle" else (None,)):
            rf = c.guard("R1.published-documents-are-read", n, lambda: L.w.fn("Deserialize for " + n, "deserialize"))
            wf = c.guard("R2.values-are-written-in-the-published-layout", n, lambda: L.w.fn("Serialize for " + n, "serialize"))
            if rf is None or wf is None:
                continue
            how = "%s: " % kind if kind else ""

            @c.group("R1.published-documents-are-read", rf)
            def _():
                a = L.w.adt(n)
                ga = list(a["generics"])
                if n == "RayBundle":
                    ga = L.argty(("ExtrinsicParameters", "ray_camera_to_world"), 1)["a"]
                    b = L.w.adt(kind)
                    ga = [({"t": "adt", "id": b["id"], "n": b["n"], "a": [ga[2]]} if i == 1 else x) for i, x in enumerate(ga)]
                ty = {"t": "adt", "id": a["id"], "n": a["n"], "a": ga}
                for style in ("map", "seq"):
                    d = doc(n, (), kind)
                    d.style = style
                    for k, s, i in d.entries:
                        s.style = style
                        for k2, s2, i2 in s.entries:
                            s2.style = style
                    r = sf.de_value(M, st, ty, d)
                    c.holds("R1.published-documents-are-read", rf, r.d.is_zero(), "%spublished document (%s form): result discriminant %s" % (how, style, short(r.d)), r.d)
                    if not r.d.is_zero():
                        continue
                    v = sf.payload(r)
                    mean(n, rf, v, d, how, kind)
                    if style == "map":
                        same_tree("R2.values-are-written-in-the-published-layout", wf, sf.ser_value(M, st, ty, v), d, how)


PROPS.update({"P29": p29})
