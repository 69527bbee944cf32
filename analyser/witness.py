"""Compile-fail witnesses: client programs that must be rejected, each with a twin that must be accepted."""
import concurrent.futures, json, os, subprocess, tempfile
import build

PRE = '''#![allow(unused, dead_code)]
use cam_geom::*;
use cam_geom::ray_bundle_types::{SharedDirectionRayBundle, SharedOriginRayBundle};
use nalgebra::{self as na, SMatrix, Isometry3, Matrix, RowVector3, allocator::Allocator, storage::{Owned, Storage}, DefaultAllocator, Dim, RealField, U1, U2, U3};
type P<F, const N: usize> = Points<F, f64, na::Const<N>, na::ArrayStorage<f64, N, 3>>;
type X<const N: usize> = Pixels<f64, na::Const<N>, na::ArrayStorage<f64, N, 2>>;
type B<F, K, const N: usize> = RayBundle<F, K, f64, na::Const<N>, na::ArrayStorage<f64, N, 3>>;
type So = SharedOriginRayBundle<f64>;
type Sd = SharedDirectionRayBundle<f64>;
type Pe = IntrinsicParametersPerspective<f64>;
type Or = IntrinsicParametersOrthographic<f64>;
'''
CF, WF = "CameraFrame", "WorldFrame"

# (name, function whose signature decides it, parameters, accepted line, rejected line)
W = []


def w(name, anchor, params, good, bad, need=None):
    W.append(dict(name=name, anchor=anchor, params=params, good=good, bad=bad, need=need))


for K, T in (("perspective", "Pe"), ("orthographic", "Or")):
    w(K + " intrinsics project camera-frame points only", "camera_to_pixel", "i: %s, c: P<CameraFrame, 3>, w: P<WorldFrame, 3>" % T,
      "let r: X<3> = i.camera_to_pixel(&c);", "let r: X<3> = i.camera_to_pixel(&w);")
    w(K + " camera projects world-frame points only", "Camera::world_to_pixel", "m: Camera<f64, %s>, c: P<CameraFrame, 3>, w: P<WorldFrame, 3>" % T,
      "let r: X<3> = m.world_to_pixel(&w);", "let r: X<3> = m.world_to_pixel(&c);")
    k, o = ("So", "Sd") if T == "Pe" else ("Sd", "So")
    w(K + " back-projection yields camera-frame rays", "pixel_to_camera", "i: %s, x: X<3>" % T,
      "let r: B<CameraFrame, %s, 3> = i.pixel_to_camera(&x);" % k, "let r: B<WorldFrame, %s, 3> = i.pixel_to_camera(&x);" % k)
    w(K + " back-projection yields its own bundle kind", "pixel_to_camera", "i: %s, x: X<3>" % T,
      "let r: B<CameraFrame, %s, 3> = i.pixel_to_camera(&x);" % k, "let r: B<CameraFrame, %s, 3> = i.pixel_to_camera(&x);" % o)
    w(K + " camera back-projection yields world-frame rays", "Camera::pixel_to_world", "m: Camera<f64, %s>, x: X<3>" % T,
      "let r: B<WorldFrame, %s, 3> = m.pixel_to_world(&x);" % k, "let r: B<CameraFrame, %s, 3> = m.pixel_to_world(&x);" % k)
    w(K + " intrinsics take pixels, not points", "pixel_to_camera", "i: %s, x: X<3>, c: P<CameraFrame, 3>" % T,
      "let r = i.pixel_to_camera(&x);", "let r = i.pixel_to_camera(&c);")
w("world_to_camera takes world-frame points", "ExtrinsicParameters::world_to_camera", "e: ExtrinsicParameters<f64>, c: P<CameraFrame, 3>, w: P<WorldFrame, 3>",
  "let r = e.world_to_camera(&w);", "let r = e.world_to_camera(&c);")
w("world_to_camera yields camera-frame points", "ExtrinsicParameters::world_to_camera", "e: ExtrinsicParameters<f64>, w: P<WorldFrame, 3>",
  "let r: P<CameraFrame, 3> = e.world_to_camera(&w);", "let r: P<WorldFrame, 3> = e.world_to_camera(&w);")
w("camera_to_world takes camera-frame points", "ExtrinsicParameters::camera_to_world", "e: ExtrinsicParameters<f64>, c: P<CameraFrame, 3>, w: P<WorldFrame, 3>",
  "let r = e.camera_to_world(&c);", "let r = e.camera_to_world(&w);")
w("camera_to_world yields world-frame points", "ExtrinsicParameters::camera_to_world", "e: ExtrinsicParameters<f64>, c: P<CameraFrame, 3>",
  "let r: P<WorldFrame, 3> = e.camera_to_world(&c);", "let r: P<CameraFrame, 3> = e.camera_to_world(&c);")
for K in ("So", "Sd"):
    w("ray_camera_to_world takes camera-frame rays (%s)" % K, "ExtrinsicParameters::ray_camera_to_world", "e: ExtrinsicParameters<f64>, c: B<CameraFrame, %s, 3>, w: B<WorldFrame, %s, 3>" % (K, K),
      "let r = e.ray_camera_to_world(&c);", "let r = e.ray_camera_to_world(&w);")
    w("ray_camera_to_world yields world-frame rays (%s)" % K, "ExtrinsicParameters::ray_camera_to_world", "e: ExtrinsicParameters<f64>, c: B<CameraFrame, %s, 3>" % K,
      "let r: B<WorldFrame, %s, 3> = e.ray_camera_to_world(&c);" % K, "let r: B<CameraFrame, %s, 3> = e.ray_camera_to_world(&c);" % K)
    o = "Sd" if K == "So" else "So"
    w("ray_camera_to_world keeps the bundle kind (%s)" % K, "ExtrinsicParameters::ray_camera_to_world", "e: ExtrinsicParameters<f64>, c: B<CameraFrame, %s, 3>" % K,
      "let r: B<WorldFrame, %s, 3> = e.ray_camera_to_world(&c);" % K, "let r: B<WorldFrame, %s, 3> = e.ray_camera_to_world(&c);" % o)
    for F, G in ((CF, WF), (WF, CF)):
        for m, a in (("point_on_ray", ""), ("point_on_ray_at_distance", "1.0")):
            w("%s keeps the frame (%s, %s)" % (m, K, F), "RayBundle::" + m, "b: B<%s, %s, 3>" % (F, K),
              "let r: P<%s, 3> = b.%s(%s);" % (F, m, a), "let r: P<%s, 3> = b.%s(%s);" % (G, m, a))
        w("to_single_ray keeps the frame (%s, %s)" % (K, F), "RayBundle::to_single_ray", "b: B<%s, %s, 1>" % (F, K),
          "let r: Ray<%s, f64> = b.to_single_ray();" % F, "let r: Ray<%s, f64> = b.to_single_ray();" % G)
    w("a single ray needs a bundle of one (%s)" % K, "RayBundle::to_single_ray", "a: B<WorldFrame, %s, 1>, b: B<WorldFrame, %s, 2>" % (K, K),
      "let r = a.to_single_ray();", "let r = b.to_single_ray();")
    w("the bundle kind cannot be replaced (%s)" % K, "RayBundle", "mut a: B<WorldFrame, %s, 1>, b: B<WorldFrame, %s, 1>" % (K, K),
      "a.data = b.data.clone();", "a.bundle_type = b.bundle_type.clone();")
w("directions follow the constructor's kind", "RayBundle::new_shared_zero_origin", "d: SMatrix<f64, 3, 3>",
  "let r: B<CameraFrame, So, 3> = RayBundle::new_shared_zero_origin(d);", "let r: B<CameraFrame, Sd, 3> = RayBundle::new_shared_zero_origin(d);")
w("centres follow the constructor's kind", "RayBundle::new_shared_plusz_direction", "d: SMatrix<f64, 3, 3>",
  "let r: B<CameraFrame, Sd, 3> = RayBundle::new_shared_plusz_direction(d);", "let r: B<CameraFrame, So, 3> = RayBundle::new_shared_plusz_direction(d);")
w("rays of different frames cannot be intersected", "best_intersection_of_rays", "a: Ray<WorldFrame, f64>, b: Ray<WorldFrame, f64>, c: Ray<CameraFrame, f64>",
  "let r = best_intersection_of_rays(&[a, b]);", "let r = best_intersection_of_rays(&[a, c]);", "alloc")
for F, G in ((CF, WF), (WF, CF)):
    w("the intersection lies in the frame of its rays (%s)" % F, "best_intersection_of_rays", "a: [Ray<%s, f64>; 2]" % F,
      "let r: P<%s, 1> = best_intersection_of_rays(&a).ok().unwrap();" % F, "let r: P<%s, 1> = best_intersection_of_rays(&a).ok().unwrap();" % G, "alloc")
    w("points cannot be given another frame (%s)" % F, "Points", "p: P<%s, 3>" % F, "let r: P<%s, 3> = p;" % F, "let r: P<%s, 3> = p;" % G)
    w("rays cannot be given another frame (%s)" % F, "Ray", "p: Ray<%s, f64>" % F, "let r: Ray<%s, f64> = p;" % F, "let r: Ray<%s, f64> = p;" % G)
    w("bundles cannot be given another frame (%s)" % F, "RayBundle", "p: B<%s, So, 3>" % F, "let r: B<%s, So, 3> = p;" % F, "let r: B<%s, So, 3> = p;" % G)
    w("bundles cannot be converted to another frame (%s)" % F, "RayBundle", "p: B<%s, So, 3>" % F, "let r: B<%s, So, 3> = p.into();" % F, "let r: B<%s, So, 3> = p.into();" % G)
    w("points cannot be converted to another frame (%s)" % F, "Points", "p: P<%s, 3>" % F, "let r: P<%s, 3> = p.into();" % F, "let r: P<%s, 3> = p.into();" % G)
    w("rays cannot be converted to another frame (%s)" % F, "Ray", "p: Ray<%s, f64>" % F, "let r: Ray<%s, f64> = p.into();" % F, "let r: Ray<%s, f64> = p.into();" % G)
    w("bundles of different frames cannot be compared (%s)" % F, "RayBundle", "p: B<%s, So, 3>, q: B<%s, So, 3>, s: B<%s, So, 3>" % (F, F, G), "let r = p == q;", "let r = p == s;")
w("bundles of different kinds cannot be compared", "RayBundle", "p: B<WorldFrame, So, 3>, q: B<WorldFrame, So, 3>, s: B<WorldFrame, Sd, 3>", "let r = p == q;", "let r = p == s;")
w("bundle kinds cannot be converted", "RayBundle", "p: B<WorldFrame, So, 3>", "let r: B<WorldFrame, So, 3> = p.into();", "let r: B<WorldFrame, Sd, 3> = p.into();")
w("points cannot be built around their tag", "Points::new", "d: SMatrix<f64, 1, 3>",
  "let r: P<WorldFrame, 1> = Points::new(d);", "let r: P<WorldFrame, 1> = Points { coords: std::marker::PhantomData, data: d };")
w("linearisation is at world-frame points", "JacobianPerspectiveCache::linearize_at", "j: linearize::JacobianPerspectiveCache<f64>, c: P<CameraFrame, 1>, w: P<WorldFrame, 1>",
  "let r = j.linearize_at(&w);", "let r = j.linearize_at(&c);")
w("linearisation is at a single point", "JacobianPerspectiveCache::linearize_at", "j: linearize::JacobianPerspectiveCache<f64>, a: P<WorldFrame, 1>, b: P<WorldFrame, 2>",
  "let r = j.linearize_at(&a);", "let r = j.linearize_at(&b);")
w("only perspective cameras are linearised", "JacobianPerspectiveCache::new", "a: Camera<f64, Pe>, b: Camera<f64, Or>",
  "let r = linearize::JacobianPerspectiveCache::new(&a);", "let r = linearize::JacobianPerspectiveCache::new(&b);")
w("only perspective cameras have a camera matrix", "Camera::as_camera_matrix", "a: Camera<f64, Pe>, b: Camera<f64, Or>",
  "let r = a.as_camera_matrix();", "let r = b.as_camera_matrix();")
w("a decomposed matrix is a perspective camera", "Camera::from_perspective_matrix", "m: SMatrix<f64, 3, 4>",
  "let r: Camera<f64, Pe> = Camera::from_perspective_matrix(&m).ok().unwrap();", "let r: Camera<f64, Or> = Camera::from_perspective_matrix(&m).ok().unwrap();")
w("parameter kinds are not interchangeable", "From<PerspectiveParams>", "a: PerspectiveParams<f64>, b: OrthographicParams<f64>",
  "let r: Pe = a.into();", "let r: Pe = b.into();")

# properties of the private representation (used by the cache-coherence rules)
PRIV = []


def pw(name, anchor, params, good, bad):
    PRIV.append(dict(name=name, anchor=anchor, params=params, good=good, bad=bad, need=None))


pw("extrinsics are only replaced as a whole", "Camera", "mut m: Camera<f64, Pe>, e: ExtrinsicParameters<f64>",
   "let m = Camera::new(m.intrinsics().clone(), e);", "m.extrinsics = e;")
pw("intrinsics are only replaced as a whole", "Camera", "mut m: Camera<f64, Pe>, i: Pe",
   "let m = Camera::new(i, m.extrinsics().clone());", "m.intrinsics = i;")
pw("no mutable view of the extrinsics of a camera", "Camera::extrinsics", "mut m: Camera<f64, Pe>",
   "let r: &ExtrinsicParameters<f64> = m.extrinsics();", "let r: &mut ExtrinsicParameters<f64> = m.extrinsics();")
pw("no mutable view of the intrinsics of a camera", "Camera::intrinsics", "mut m: Camera<f64, Pe>",
   "let r: &Pe = m.intrinsics();", "let r: &mut Pe = m.intrinsics();")
pw("no mutable view of the parameters", "IntrinsicParametersPerspective::params", "mut i: Pe",
   "let r: &PerspectiveParams<f64> = i.params();", "let r: &mut PerspectiveParams<f64> = i.params();")
for m, t in (("camcenter", "na::Point3<f64>"), ("pose", "Isometry3<f64>"), ("matrix", "SMatrix<f64, 3, 4>"), ("rotation", "na::Rotation3<f64>"), ("translation", "na::Point3<f64>")):
    pw("no mutable view of the %s" % m, "ExtrinsicParameters::" + m, "mut e: ExtrinsicParameters<f64>",
       "let r: &%s = e.%s();" % (t, m), "let r: &mut %s = e.%s();" % (t, m))
pw("the centre cannot be written through the accessor", "ExtrinsicParameters::camcenter", "mut e: ExtrinsicParameters<f64>",
   "let r = e.camcenter().x;", "e.camcenter().x = 1.0;")
pw("parameters cannot be written through the accessor", "IntrinsicParametersPerspective::params", "mut i: Pe",
   "let r = i.params().fx;", "i.params().fx = 1.0;")
pw("parameters are private", "IntrinsicParametersPerspective", "mut i: Pe", "let r = i.params().fx;", "i.params.fx = 1.0;")
pw("the centre field is private", "ExtrinsicParameters", "mut e: ExtrinsicParameters<f64>, p: na::Point3<f64>",
   "let r = ExtrinsicParameters::from_rotation_and_camcenter(e.pose().rotation, p);", "e.camcenter = p;")

# thread safety
SEND = []
for t in ("Camera<f64, Pe>", "Camera<f64, Or>", "Camera<f32, IntrinsicParametersOrthographic<f32>>", "ExtrinsicParameters<f64>", "Pe", "Or", "PerspectiveParams<f64>", "OrthographicParams<f64>", "P<WorldFrame, 3>", "X<3>",
          "B<WorldFrame, So, 3>", "B<CameraFrame, Sd, 3>", "Ray<WorldFrame, f64>", "linearize::JacobianPerspectiveCache<f64>", "Error", "So", "Sd"):
    SEND.append(dict(name=t + " is Send and Sync and not interior-mutable", anchor=t, params="",
                     good="fn a<T: Send + Sync + Unpin + std::panic::RefUnwindSafe + 'static>() {} let r = a::<%s>();" % t, bad=None, need=None))


class Build:
    def __init__(self, config):
        self.art = build.artifacts(config)
        self.libs = [x for d in sorted({os.path.dirname(a) for a in self.art.values()}) for x in ("-L", "dependency=" + d)]
        self.dir = tempfile.mkdtemp(prefix="camgeom-witness-")

    def close(self):
        import shutil
        shutil.rmtree(self.dir, ignore_errors=True)
        shutil.rmtree(os.path.dirname(self.art["cam_geom"]), ignore_errors=True)
        build.ARTS.clear()

    def check(self, k, wit, line):
        src = PRE + "pub fn witness(%s) {\n    %s\n}\n" % (wit["params"], line)
        at = src[:src.index("pub fn witness")].count("\n") + 2
        p = os.path.join(self.dir, "w%s.rs" % k)
        open(p, "w").write(src)
        r = subprocess.run(["rustc", "--edition", "2021", "--crate-type", "lib", "--emit", "metadata", "--crate-name", "w" + str(k), "--error-format", "json",
                            "-o", os.path.join(self.dir, "w%s.rmeta" % k), "--extern", "cam_geom=" + self.art["cam_geom"], "--extern", "nalgebra=" + self.art["nalgebra"],
                            *self.libs, p],
                           env=build.base_env(), cwd=build.REPO, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
        errs = []
        for l in r.stderr.splitlines():
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get("level") == "error" and d.get("spans"):
                sp = [s for s in d["spans"] if s["is_primary"]]
                errs.append(((d.get("code") or {}).get("code"), sp[0]["line_start"] if sp else 0, d["message"]))
        return r.returncode, errs, at


OK_CODES = {"E0308", "E0277", "E0271", "E0599", "E0451", "E0616", "E0594", "E0596", "E0369", "E0614", "E0609"}


def judge(c, rule, wits, config, has_alloc=True):
    """one obligation per program"""
    B = Build(config)
    try:
        jobs = []
        for k, wit in enumerate(wits):
            if wit["need"] == "alloc" and not has_alloc:
                continue
            for side in ("good", "bad"):
                if wit[side] is not None:
                    jobs.append((k, wit, side))
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            res = list(ex.map(lambda j: B.check("%d%s" % (j[0], j[2]), j[1], j[1][j[2]]), jobs))
        for (k, wit, side), (rc, errs, at) in zip(jobs, res):
            fn = (wit["anchor"], "")
            if side == "good":
                if rc and not any(e[1] == at for e in errs):
                    c.rec(rule + ".accepted", fn, False, "%s: compiler failed without diagnosing the program: %s" % (wit["name"], errs[:1]), True)
                else:
                    c.rec(rule + ".accepted", fn, rc == 0, "%s: the right program `%s` is rejected: %s" % (wit["name"], wit["good"], errs[:1]))
            else:
                on = [e for e in errs if e[1] == at and e[0] in OK_CODES]
                if rc == 0:
                    c.rec(rule + ".rejected", fn, False, "%s: the wrong program `%s` (with %s) compiles" % (wit["name"], wit["bad"], wit["params"]))
                else:
                    c.rec(rule + ".rejected", fn, bool(on), "%s: rejected for another reason: %s" % (wit["name"], errs[:1]), True)
        c.count("programs_compiled", len(jobs))
    finally:
        B.close()

# generality: client programs that use no more than the documented bounds
GEN = []


def g(name, anchor, good, need=None):
    GEN.append(dict(name=name, anchor=anchor, params="", good=" ".join(good.split()), bad=None, need=need))


D2 = "DefaultAllocator: Allocator<N, U2>"
D3 = "DefaultAllocator: Allocator<N, U3>"
D12 = "DefaultAllocator: Allocator<U1, U2>"
S2, S3 = "S: Storage<R, N, U2>", "S: Storage<R, N, U3>"
for K, T in (("perspective", "IntrinsicParametersPerspective<R>"), ("orthographic", "IntrinsicParametersOrthographic<R>")):
    k = "SharedOriginRayBundle<R>" if K == "perspective" else "SharedDirectionRayBundle<R>"
    g("%s projection for any scalar, row count and storage" % K, "camera_to_pixel",
      "fn a<R: RealField, N: Dim, S: Storage<R, N, U3>>(i: &%s, p: &Points<CameraFrame, R, N, S>) -> Pixels<R, N, Owned<R, N, U2>> where %s { i.camera_to_pixel(p) }" % (T, D2))
    g("%s back-projection for any scalar, row count and storage" % K, "pixel_to_camera",
      "fn a<R: RealField, N: Dim, S: Storage<R, N, U2>>(i: &%s, p: &Pixels<R, N, S>) -> RayBundle<CameraFrame, %s, R, N, Owned<R, N, U3>> where %s, %s, %s { i.pixel_to_camera(p) }" % (T, k, D2, D3, D12))
    g("%s camera for any scalar" % K, "Camera::new",
      "fn a<R: RealField>(i: %s, e: ExtrinsicParameters<R>) -> Camera<R, %s> { Camera::new(i, e) }" % (T, T))
    P, pn = ("PerspectiveParams", "fx: v.clone(), fy: v.clone(), skew: v.clone(), cx: v.clone(), cy: v") if K == "perspective" else ("OrthographicParams", "sx: v.clone(), sy: v.clone(), cx: v.clone(), cy: v")
    g("%s parameters for any scalar" % K, P, "fn a<R: RealField>(v: R) -> %s { %s { %s }.into() }" % (T, P, pn))
MODEL = "R: RealField, N: Dim, I: IntrinsicParameters<R>"
g("world projection for any model, scalar, row count and storage", "Camera::world_to_pixel",
  "fn a<%s, S: Storage<R, N, U3>>(m: &Camera<R, I>, p: &Points<WorldFrame, R, N, S>) -> Pixels<R, N, Owned<R, N, U2>> where %s, %s { m.world_to_pixel(p) }" % (MODEL, D2, D3))
g("world back-projection for any model, scalar, row count and storage", "Camera::pixel_to_world",
  "fn a<%s, S: Storage<R, N, U2>>(m: &Camera<R, I>, p: &Pixels<R, N, S>) -> RayBundle<WorldFrame, I::BundleType, R, N, Owned<R, N, U3>> where I::BundleType: Bundle<R>, %s, %s, %s { m.pixel_to_world(p) }" % (MODEL, D2, D3, D12))
g("camera parts for any model", "Camera", "fn a<R: RealField, I: IntrinsicParameters<R>>(i: I, e: ExtrinsicParameters<R>) -> (I, ExtrinsicParameters<R>) { let m = Camera::new(i, e); (m.intrinsics().clone(), m.extrinsics().clone()) }")
g("a camera is as copyable, comparable and printable as its model", "Camera", "fn a<R: RealField, I: IntrinsicParameters<R> + PartialEq>(m: Camera<R, I>) -> (bool, Camera<R, I>) { fn d<T: std::fmt::Debug>(t: &T) {} d(&m); (m == m.clone(), m.clone()) }")
for m, i, o in (("world_to_camera", "WorldFrame", "CameraFrame"), ("camera_to_world", "CameraFrame", "WorldFrame")):
    g("%s for any scalar, row count and storage" % m, "ExtrinsicParameters::" + m,
      "fn a<R: RealField, N: Dim, S: Storage<R, N, U3>>(e: &ExtrinsicParameters<R>, p: &Points<%s, R, N, S>) -> Points<%s, R, N, Owned<R, N, U3>> where %s { e.%s(p) }" % (i, o, D3, m))
g("ray_camera_to_world for any scalar, row count, storage and bundle kind", "ExtrinsicParameters::ray_camera_to_world",
  "fn a<R: RealField, N: Dim, S: Storage<R, N, U3>, K: Bundle<R>>(e: &ExtrinsicParameters<R>, p: &RayBundle<CameraFrame, K, R, N, S>) -> RayBundle<WorldFrame, K, R, N, Owned<R, N, U3>> where %s { e.ray_camera_to_world(p) }" % D3)
g("poses for any scalar", "ExtrinsicParameters", "fn a<R: RealField>(q: na::UnitQuaternion<R>, c: na::Point3<R>, p: &Isometry3<R>, l: &na::Vector3<R>, u: &na::Unit<na::Vector3<R>>) -> [ExtrinsicParameters<R>; 3] { [ExtrinsicParameters::from_rotation_and_camcenter(q, c), ExtrinsicParameters::from_pose(p), ExtrinsicParameters::from_view(l, l, u)] }")
g("pose queries for any scalar", "ExtrinsicParameters", "fn a<R: RealField>(e: &ExtrinsicParameters<R>) -> (&na::Point3<R>, &Isometry3<R>, &SMatrix<R, 3, 4>, &na::Rotation3<R>, &na::Point3<R>, [na::Unit<na::Vector3<R>>; 3]) { (e.camcenter(), e.pose(), e.matrix(), e.rotation(), e.translation(), [e.forward(), e.up(), e.right()]) }")
g("a pose can be copied, compared and printed for any scalar", "ExtrinsicParameters", "fn a<R: RealField>(e: &ExtrinsicParameters<R>) -> bool { fn d<T: std::fmt::Debug>(t: &T) {} d(e); e.clone() == *e }")
RB = "F: CoordinateSystem, K: Bundle<R>, R: RealField"
for m, arg in (("point_on_ray", ""), ("point_on_ray_at_distance", "d")):
    g("%s for any scalar, row count, storage, frame and bundle kind" % m, "RayBundle::" + m,
      "fn a<%s, N: Dim, S: Storage<R, N, U3>>(b: &RayBundle<F, K, R, N, S>, d: R) -> Points<F, R, N, Owned<R, N, U3>> where %s { b.%s(%s) }" % (RB, D3, m, arg))
for m in ("directions", "centers"):
    g("%s for any scalar, static row count, storage, frame and bundle kind" % m, "RayBundle::" + m,
      "fn a<%s, N: na::DimName, S: Storage<R, N, U3>>(b: &RayBundle<F, K, R, N, S>) -> Matrix<R, N, U3, Owned<R, N, U3>> where %s { b.%s() }" % (RB, D3, m))
g("to_single_ray for any scalar, frame and bundle kind", "RayBundle::to_single_ray", "fn a<%s>(b: &RayBundle<F, K, R, U1, Owned<R, U1, U3>>) -> Ray<F, R> { b.to_single_ray() }" % RB)
g("bundles of zero origin for any scalar, row count, storage and frame", "RayBundle::new_shared_zero_origin",
  "fn a<F: CoordinateSystem, R: RealField, N: Dim, S: Storage<R, N, U3>>(d: Matrix<R, N, U3, S>) -> RayBundle<F, SharedOriginRayBundle<R>, R, N, S> { RayBundle::new_shared_zero_origin(d) }")
g("bundles along +z for any scalar, row count, storage and frame", "RayBundle::new_shared_plusz_direction",
  "fn a<F: CoordinateSystem, R: RealField, N: Dim, S: Storage<R, N, U3>>(d: Matrix<R, N, U3, S>) -> RayBundle<F, SharedDirectionRayBundle<R>, R, N, S> { RayBundle::new_shared_plusz_direction(d) }")
g("the data of a bundle can be read and replaced", "RayBundle",
  "fn a<F: CoordinateSystem, K: Bundle<R>, R: RealField, N: Dim, S: Storage<R, N, U3>>(mut b: RayBundle<F, K, R, N, S>, d: Matrix<R, N, U3, S>) -> Matrix<R, N, U3, S> { std::mem::replace(&mut b.data, d) }")
g("bundle kinds can be made for any scalar", "ray_bundle_types", "fn a<R: RealField>() -> (SharedOriginRayBundle<R>, SharedDirectionRayBundle<R>) { (SharedOriginRayBundle::new_shared_zero_origin(), SharedDirectionRayBundle::new_plusz_shared_direction()) }")
g("both bundle kinds are bundles for any scalar", "Bundle", "fn b<R: RealField, K: Bundle<R>>() {} fn a<R: RealField>() { b::<R, SharedOriginRayBundle<R>>(); b::<R, SharedDirectionRayBundle<R>>(); }")
g("points for any scalar, row count, storage and frame", "Points::new",
  "fn a<F: CoordinateSystem, R: RealField, N: Dim, S>(d: Matrix<R, N, U3, S>) -> Matrix<R, N, U3, S> { let p: Points<F, R, N, S> = Points::new(d); p.data }")
g("pixels for any scalar, row count and storage", "Pixels::new",
  "fn a<R: RealField, N: Dim, S>(d: Matrix<R, N, U2, S>) -> Matrix<R, N, U2, S> { let p: Pixels<R, N, S> = Pixels::new(d); p.data }")
g("rays of any scalar", "Ray::new", "fn a<F: CoordinateSystem, R: RealField>(c: SMatrix<R, 1, 3>, d: SMatrix<R, 1, 3>) -> (SMatrix<R, 1, 3>, SMatrix<R, 1, 3>) { let r: Ray<F, R> = Ray::new(c, d); (r.center, r.direction) }")
g("camera matrices of any scalar and storage can be decomposed", "Camera::from_perspective_matrix",
  "fn a<R: RealField, S: Storage<R, U3, na::U4> + Clone>(m: &Matrix<R, U3, na::U4, S>) -> Option<Camera<R, IntrinsicParametersPerspective<R>>> { Camera::from_perspective_matrix(m).ok() }")
g("camera matrices of any scalar", "Camera::as_camera_matrix", "fn a<R: RealField>(m: &Camera<R, IntrinsicParametersPerspective<R>>) -> SMatrix<R, 3, 4> { m.as_camera_matrix() }")
g("normalized matrices of any scalar", "IntrinsicParametersPerspective::from_normalized_3x4_matrix", "fn a<R: RealField>(m: SMatrix<R, 3, 4>) -> Result<IntrinsicParametersPerspective<R>, Error> { IntrinsicParametersPerspective::from_normalized_3x4_matrix(m) }")
g("perspective parameters can be read for any scalar", "IntrinsicParametersPerspective", "fn a<R: RealField>(i: &IntrinsicParametersPerspective<R>) -> (R, R, R, R, R, &PerspectiveParams<R>) { (i.fx(), i.fy(), i.skew(), i.cx(), i.cy(), i.params()) }")
g("linearisation for any scalar and storage", "JacobianPerspectiveCache::linearize_at",
  "fn a<R: RealField, S: Storage<R, U1, U3>>(m: &Camera<R, IntrinsicParametersPerspective<R>>, p: &Points<WorldFrame, R, U1, S>) -> SMatrix<R, 2, 3> { linearize::JacobianPerspectiveCache::new(m).linearize_at(p) }")
g("intersection for any scalar, frame and number of rays", "best_intersection_of_rays",
  "fn a<F: CoordinateSystem, R: RealField>(r: &[Ray<F, R>]) -> Result<Points<F, R, U1, Owned<R, U1, U3>>, Error> where DefaultAllocator: Allocator<U1, U3> { best_intersection_of_rays(r) }", "alloc")
g("the round-trip helper for any model and scalar", "roundtrip_intrinsics",
  "fn a<R: RealField, I: IntrinsicParameters<R>>(i: &I, e: R) where I::BundleType: Bundle<R> { intrinsic_test_utils::roundtrip_intrinsics(i, 640, 480, 5, 10, e) }", "std")
for t in ("f32", "f64"):
    g("everything for %s" % t, "Camera", "fn a(m: &Camera<{t}, IntrinsicParametersPerspective<{t}>>, o: &Camera<{t}, IntrinsicParametersOrthographic<{t}>>, p: &Points<WorldFrame, {t}, na::Const<7>, na::ArrayStorage<{t}, 7, 3>>) -> ({t}, {t}) {{ let x = m.world_to_pixel(p); let y = o.world_to_pixel(p); (m.pixel_to_world(&x).point_on_ray().data[(0, 0)], o.pixel_to_world(&y).point_on_ray_at_distance(1.0).data[(0, 0)]) }}".format(t=t))
VIEW = "na::ViewStorage<'_, R, {n}, {c}, {s}>"
g("views into larger matrices", "Camera::world_to_pixel",
  "fn a<R: RealField, I: IntrinsicParameters<R>>(m: &Camera<R, I>, d: &SMatrix<R, 9, 3>) { let p = Points::<WorldFrame, _, _, _>::new(d.fixed_rows::<4>(2)); let r = m.world_to_pixel(&p); let q = Points::<CameraFrame, _, _, _>::new(d.fixed_rows_with_step::<3>(1, 1)); let s = m.extrinsics().camera_to_world(&q); let u = m.intrinsics().camera_to_pixel(&q); }")
g("views of pixels", "Camera::pixel_to_world",
  "fn a<R: RealField>(m: &Camera<R, IntrinsicParametersPerspective<R>>, d: &SMatrix<R, 9, 2>) { let x = Pixels::new(d.fixed_rows::<4>(2)); let r = m.pixel_to_world(&x); let s = m.intrinsics().pixel_to_camera(&x).point_on_ray(); }")
g("run-time row counts", "Camera::world_to_pixel",
  "fn a<R: RealField, I: IntrinsicParameters<R>>(m: &Camera<R, I>, n: usize) -> Pixels<R, na::Dyn, Owned<R, na::Dyn, U2>> where I::BundleType: Bundle<R> { let p = Points::<WorldFrame, _, _, _>::new(na::OMatrix::<R, na::Dyn, U3>::zeros(n)); let x = m.world_to_pixel(&p); let b = m.pixel_to_world(&x); let s = b.point_on_ray(); let t = b.point_on_ray_at_distance(R::one()); let c = m.intrinsics().pixel_to_camera(&x); let e = m.extrinsics().camera_to_world(&c.point_on_ray()); let f = m.extrinsics().world_to_camera(&t); let h = m.extrinsics().ray_camera_to_world(&c); m.world_to_pixel(&s) }", "std")
USER = """#[derive(Debug, Clone)] struct My;
impl<R: RealField> IntrinsicParameters<R> for My {
 type BundleType = %s;
 fn pixel_to_camera<IN, NPTS>(&self, pixels: &Pixels<R, NPTS, IN>) -> RayBundle<CameraFrame, Self::BundleType, R, NPTS, Owned<R, NPTS, U3>>
  where Self::BundleType: Bundle<R>, IN: Storage<R, NPTS, U2>, NPTS: Dim, DefaultAllocator: Allocator<U1, U2>, DefaultAllocator: Allocator<NPTS, U2>, DefaultAllocator: Allocator<NPTS, U3> { unimplemented!() }
 fn camera_to_pixel<IN, NPTS>(&self, camera: &Points<CameraFrame, R, NPTS, IN>) -> Pixels<R, NPTS, Owned<R, NPTS, U2>>
  where IN: Storage<R, NPTS, U3>, NPTS: Dim, DefaultAllocator: Allocator<NPTS, U2> { unimplemented!() }
}
fn a<R: RealField>(e: ExtrinsicParameters<R>, p: &Points<WorldFrame, R, na::Const<5>, na::ArrayStorage<R, 5, 3>>) { let m = Camera::<R, My>::new(My, e); let x = m.world_to_pixel(p); let q = m.pixel_to_world(&x).point_on_ray(); %s }"""
g("a user-written model with shared origin", "IntrinsicParameters", USER % ("SharedOriginRayBundle<R>", "m.world_to_pixel(&q);"))
g("a user-written model with shared direction", "IntrinsicParameters", USER % ("SharedDirectionRayBundle<R>", "m.world_to_pixel(&q);"))
g("a user-written model in the round-trip helper", "roundtrip_intrinsics", USER % ("SharedOriginRayBundle<R>", "intrinsic_test_utils::roundtrip_intrinsics(&My, 640, 480, 5, 10, R::one());"), "std")
g("a user-written model without rays", "IntrinsicParameters", (USER % ("()", "")).replace(" let q = m.pixel_to_world(&x).point_on_ray();", ""))
UB = """struct Mb;
impl<R: RealField> Bundle<R> for Mb {
 fn to_single_ray<F: CoordinateSystem>(&self, d: &SMatrix<R, 1, 3>) -> Ray<F, R> { Ray::new(SMatrix::zeros(), d.clone()) }
 fn directions<N: na::DimName, S: Storage<R, N, U3>>(&self, d: &Matrix<R, N, U3, S>) -> Matrix<R, N, U3, Owned<R, N, U3>> where DefaultAllocator: Allocator<N, U3> { d.clone_owned() }
 fn centers<N: na::DimName, S: Storage<R, N, U3>>(&self, d: &Matrix<R, N, U3, S>) -> Matrix<R, N, U3, Owned<R, N, U3>> where DefaultAllocator: Allocator<N, U3> { d.clone_owned() }
 fn point_on_ray<N: Dim, S: Storage<R, N, U3>, F: CoordinateSystem>(&self, d: &Matrix<R, N, U3, S>) -> Points<F, R, N, Owned<R, N, U3>> where Self: Sized, DefaultAllocator: Allocator<N, U3> { Points::new(d.clone_owned()) }
 fn point_on_ray_at_distance<N: Dim, S: Storage<R, N, U3>, F: CoordinateSystem>(&self, d: &Matrix<R, N, U3, S>, distance: R) -> Points<F, R, N, Owned<R, N, U3>> where Self: Sized, DefaultAllocator: Allocator<N, U3> { Points::new(d.clone_owned()) }
 fn to_pose<N: Dim, S: Storage<R, N, U3>, F: CoordinateSystem>(&self, pose: Isometry3<R>, d: &Matrix<R, N, U3, S>) -> RayBundle<F, Self, R, N, Owned<R, N, U3>> where Self: Sized, R: RealField, DefaultAllocator: Allocator<N, U3> { unimplemented!() }
}
fn a<R: RealField>(b: &RayBundle<CameraFrame, Mb, R, U1, Owned<R, U1, U3>>, e: &ExtrinsicParameters<R>) { let r = b.to_single_ray(); let p = b.point_on_ray(); let q = b.point_on_ray_at_distance(R::one()); let d = b.directions(); let c = b.centers(); let w = e.ray_camera_to_world(b).point_on_ray(); }"""
g("a user-written bundle kind", "Bundle", UB)
g("user-written frames", "CoordinateSystem", "struct Robot; impl CoordinateSystem for Robot {} fn a<R: RealField>(d: SMatrix<R, 2, 3>) { let p: Points<Robot, R, _, _> = Points::new(d.clone()); let b: RayBundle<Robot, _, R, _, _> = RayBundle::new_shared_zero_origin(d); let q: Points<Robot, R, _, _> = b.point_on_ray(); }")
for t in ("PerspectiveParams", "OrthographicParams", "IntrinsicParametersPerspective", "IntrinsicParametersOrthographic", "ExtrinsicParameters", "SharedOriginRayBundle", "SharedDirectionRayBundle"):
    g("%s can be copied, compared and printed for any scalar" % t, t, "fn a<R: RealField>(e: &%s<R>) -> bool { fn d<T: std::fmt::Debug>(t: &T) {} d(e); e.clone() == *e }" % t)
g("Camera can be copied, compared and printed for any scalar", "Camera", "fn a<R: RealField>(e: &Camera<R, IntrinsicParametersPerspective<R>>, f: &Camera<R, IntrinsicParametersOrthographic<R>>) -> bool { fn d<T: std::fmt::Debug>(t: &T) {} d(e); d(f); e.clone() == *e && f.clone() == *f }")
for t, x in (("ExtrinsicParameters", "ExtrinsicParameters<R>"), ("Camera", "Camera<R, IntrinsicParametersPerspective<R>>"), ("Camera", "Camera<R, IntrinsicParametersOrthographic<R>>"), ("IntrinsicParametersPerspective", "IntrinsicParametersPerspective<R>"),
             ("IntrinsicParametersOrthographic", "IntrinsicParametersOrthographic<R>"), ("PerspectiveParams", "PerspectiveParams<R>"), ("OrthographicParams", "OrthographicParams<R>"),
             ("SharedOriginRayBundle", "SharedOriginRayBundle<R>"), ("SharedDirectionRayBundle", "SharedDirectionRayBundle<R>")):
    g("%s can be shared between threads for any scalar" % x, t, "fn s<T: Send + Sync + 'static>() {} fn a<R: RealField>() { s::<%s>(); }" % x)
g("errors can be boxed and printed", "Error", "fn a(e: Error) -> Box<dyn std::error::Error + Send + Sync> { e.into() }", "std")
