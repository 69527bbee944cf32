"""The properties (source of properties.jsonl)."""
S = "src/"
LIB, EXT, PER, ORT, CAM, RBT, RIX, LIN, RTU = (S + x + ".rs" for x in (
    "lib", "extrinsics", "intrinsics_perspective", "intrinsics_orthographic", "camera", "ray_bundle_types", "ray_intersection", "linearize", "intrinsic_test_utils"))
I, C, P, H = "inputs", "configurations", "programs", "histories"
PTS = "The unit tests project a handful of points through two or three fixed cameras with a tolerance"

P_ = [
 dict(id="P01", title="Perspective projection follows the pinhole law for every parameter set",
  statement="For every focal length, skew and principal point, and every camera-frame point with non-zero depth, a perspective camera maps (x,y,z) to u = (fx·x + skew·y)/z + cx and v = fy·y/z + cy. This holds whether the intrinsics were built from parameters or from a normalised matrix, and the parameters reported back are the ones given.",
  over=[I], text="all real parameters, all points with non-zero depth, any number of rows, both construction routes",
  why="Universally quantified over reals; " + PTS + ", so a wrong term that vanishes for skew=0, fx=fy or centred points goes unnoticed.",
  files=[PER], mech=[("perspective projection", PER + " camera_to_pixel"), ("parameter matrix cache", PER + " From<PerspectiveParams>")]),
 dict(id="P02", title="Perspective back-projection inverts projection along the whole ray",
  statement="For every perspective camera with non-zero focal lengths and every pixel, the ray returned for the pixel starts at the camera origin, points forwards, and every point on it (at any non-zero parameter or distance) projects back to exactly that pixel. Conversely every camera-frame point lies on the line of the ray of the pixel it projects to.",
  over=[I], text="all parameters with non-zero focal lengths, all pixels, all points, all ray parameters and distances, any batch size",
  why=PTS + "; the round-trip test walks an integer grid of pixels at unit distance for a couple of parameter sets.",
  files=[PER, RBT], mech=[("pixel to ray", PER + " pixel_to_camera"), ("points on rays", RBT)]),
 dict(id="P03", title="Orthographic projection and back-projection are exact inverses",
  statement="For every orthographic camera a camera-frame point (x,y,z) maps to (sx·x+cx, sy·y+cy) independently of depth. With non-zero scales, the ray of a pixel is parallel to the optical axis, starts on the camera plane, and every point on it projects back to that pixel.",
  over=[I], text="all scales and centres, all points and pixels, all ray parameters, any batch size",
  why=PTS + "; the orthographic tests use one parameter set.",
  files=[ORT, RBT], mech=[("projection", ORT + " camera_to_pixel"), ("back-projection", ORT + " pixel_to_camera")]),
 dict(id="P04", title="World-camera point transform is a rigid motion and its exact inverse",
  statement="For every rotation and camera centre, converting world points to camera coordinates yields R·(x − C) row by row, and converting back yields the original points; both preserve distances. This is so for extrinsics built from rotation and centre and for extrinsics built from a pose.",
  over=[I], text="all unit quaternions, all centres, all points, any number of rows, both construction routes",
  why="The tests use specific poses; an error that cancels for axis-aligned rotations or in the round trip alone is not seen.",
  files=[EXT], mech=[("world to camera", EXT + " world_to_camera"), ("camera to world", EXT + " camera_to_world"), ("derived pose cache", EXT + " from_rotation_and_camcenter")]),
 dict(id="P05", title="All accessors of a camera pose describe one and the same pose",
  statement="For every way of constructing extrinsic parameters, the reported centre, rotation, translation, pose, homogeneous matrix and the point transform agree with each other: matrix = [R|t], t = −R·C, pose = (R,t). Rebuilding extrinsics from any of the reported representations gives the same pose.",
  over=[I], text="all poses, every constructor crossed with every accessor",
  why="Tests compare single accessors for a few poses; agreement of all of them for every constructor is a product no sample covers.",
  files=[EXT], mech=[("accessors", EXT), ("cached translation and matrices", EXT + " ExtrinsicsCache")]),
 dict(id="P06", title="A camera built from a view looks at its target with the given up",
  statement="For every centre, target and up direction in general position, a camera built from them sits at the centre, looks towards the target, has its image x axis to the right (perpendicular to forward and up) and its up direction in the half-plane of the given up. The resulting rotation is proper orthonormal.",
  over=[I], text="all centres, targets and ups with target ≠ centre and up not parallel to the viewing direction",
  why="Tests check a few look-at cameras with up=+Z; handedness or normalisation errors for other directions are not sampled.",
  files=[EXT], mech=[("look-at construction", EXT + " from_view")]),
 dict(id="P07", title="Forward, right and up are the camera axes in world coordinates, everywhere",
  statement="For every pose the reported forward, right and up are unit vectors equal to the world-frame images of the camera's +z, +x and −y axes, mutually perpendicular. They do not depend on where the camera is, not even through rounding: no difference of large nearly equal coordinates enters their computation.",
  over=[I], text="all poses, in particular cameras arbitrarily far from the world origin",
  why="Tests look at cameras near the origin where the cancellation is invisible.",
  files=[EXT], mech=[("axis directions", EXT + " lookdir/forward/up/right")]),
 dict(id="P08", title="Ray bundle queries describe the same rays for both bundle kinds",
  statement="For every bundle, whether its rays share an origin or share a direction, the reported centres and directions, the point on each ray, the point at a given distance, the length and the extraction of a single ray all describe the same rays: the point at a distance is centre + distance·direction/|direction|. Extracting a single ray gives that ray's centre and direction and reports its absence when the bundle is not a single ray.",
  over=[I], text="all bundles of both kinds, all distances (negative and zero included), any number of rays",
  why="Tests use unit directions and few rays; missing normalisation or a row/column slip is invisible there.",
  files=[RBT, LIB], mech=[("bundle kinds", RBT), ("queries", LIB + " impl RayBundle")]),
 dict(id="P09", title="Moving a ray bundle by a pose moves every ray rigidly",
  statement="For every bundle and every pose, the transformed bundle has centres R·c + t and directions R·d ray by ray, keeps the ray lengths scale, and its points at a distance are the transformed points. Moving by the inverse pose restores the rays.",
  over=[I], text="all bundles of both kinds (in any representation reachable through the API), all poses, any number of rays",
  why="The tests move one or two bundles by one pose.",
  files=[RBT, LIB], mech=[("pose transform per bundle kind", RBT + " to_pose")]),
 dict(id="P10", title="A camera is exactly the composition of its extrinsics and intrinsics",
  statement="For every intrinsic model and every pose, projecting a world point equals transforming it to camera coordinates and applying the intrinsics; back-projecting a pixel equals the intrinsics' ray moved to the world. The camera reports the intrinsics and extrinsics it was built from, and decomposes into them.",
  over=[I, P], text="all intrinsic models (also user-defined ones), all poses, points and pixels",
  why="Tests exercise two models with fixed parameters; user-defined models are not represented.",
  files=[CAM], mech=[("composition", CAM + " world_to_pixel / pixel_to_world"), ("accessors", CAM)]),
 dict(id="P11", title="The best intersection of rays is the least-squares point",
  statement="For every collection of two or more rays, the returned point minimises the sum of squared perpendicular distances to the lines of all given rays: it solves the normal equations built from every ray, each exactly once, and depends neither on direction lengths or signs. Degenerate systems are resolved by a pseudo-inverse with a small cutoff, not by an arbitrary choice.",
  over=[I], text="all ray collections of any length ≥ 2, any direction scaling",
  why="Tests intersect two to four hand-picked rays; a dropped last ray, un-normalised direction or wrong weight changes nothing on exact intersections.",
  files=[RIX], mech=[("normal equations", RIX + " best_intersection_of_rays"), ("pseudo-inverse", RIX + " my_pinv")]),
 dict(id="P12", title="Ray intersection reports its failures as distinct errors, never by panicking",
  statement="Fewer than two rays yield the 'minimum two rays' error and no other input yields it; a failing decomposition yields the decomposition error; every other input yields a point. No input of this operation aborts the program.",
  over=[I], text="all ray collections including empty and singletons; both outcomes of the decomposition",
  why="The decomposition failure is unreachable by ordinary test inputs, and the absence of panics is a statement about all of them.",
  files=[RIX, LIB], mech=[("length guard", RIX + " best_intersection_of_rays"), ("decomposition failure", RIX + " my_pinv")]),
 dict(id="P13", title="The exported camera matrix reproduces the projection for every camera",
  statement="For every perspective camera, wherever it is placed, the 3×4 matrix it exports maps homogeneous world points to the pixels the camera itself computes. The matrix is finite for every finite camera, including cameras at the world origin, and has the documented normalisation whenever that is possible.",
  over=[I], text="all parameters (negative focal lengths included), all poses including those where the normalising entry is zero",
  why="The failing cameras form a measure-zero set (camera plane through the world origin) that no existing test contains.",
  files=[CAM], mech=[("matrix export", CAM + " as_camera_matrix")]),
 dict(id="P14", title="A camera recovered from a projection matrix reproduces that matrix",
  statement="For every 3×4 matrix whose left 3×3 block is invertible, the camera recovered from it projects every world point to the pixel the matrix prescribes; its centre is the matrix's null vector and its rotation is proper. This holds for every overall scale and sign of the matrix.",
  over=[I], text="all projection matrices of invertible cameras, any scale and sign",
  why="The test decomposes a few matrices made from ordinary cameras; sign combinations of the triangular factor are not enumerated by it.",
  files=[CAM], mech=[("RQ decomposition", CAM + " rq"), ("sign fixing and centre", CAM + " from_perspective_matrix / pmat2cam_center")]),
 dict(id="P15", title="A normalised intrinsic matrix is accepted exactly when it has the right form",
  statement="A 3×4 matrix is accepted as normalised perspective intrinsics exactly when its last row is (0,0,1,0), its fourth column is zero and the below-diagonal entry of the second row is zero. Everything else, entries that are not finite numbers in these places included, is refused with the 'invalid input' error, and acceptance preserves every entry. Comparisons are up to the scalar type's default tolerance.",
  over=[I], text="all 3×4 matrices",
  why="The set of matrices violating exactly one condition is not sampled by tests; one dropped comparison silently accepts matrices it then misinterprets.",
  files=[PER], mech=[("form check", PER + " from_normalized_3x4_matrix")]),
 dict(id="P16", title="The linearised camera is the exact derivative of the projection",
  statement="For every perspective camera and every world point off the camera plane, the 2×3 matrix returned by linearisation is the derivative of the camera's own world-to-pixel map at that point. This includes cameras for which the exported matrix cannot be normalised.",
  over=[I], text="all parameters, poses and points with non-zero depth",
  why="One test compares one point against a finite step with a loose tolerance; a wrong skew or cross term of small size passes it.",
  files=[LIN], mech=[("Jacobian entries", LIN + " linearize_at"), ("matrix cache", LIN + " JacobianPerspectiveCache::new")]),
 dict(id="P17", title="Serialised values restore to equal values, derived data included",
  statement="For every serialisable value, deserialising what serialisation wrote, with the fields in any order, gives a value equal to the original in every observable respect, including everything derived from the fields. Missing and duplicate fields are refused, with an error that names the field, rather than defaulted.",
  over=[I, H], text="all values of all serialisable types, all field orders, all subsets of missing fields and all duplicates, map and sequence forms",
  why="Tests round-trip one value per type through one format in one field order.",
  files=[EXT, PER, ORT, CAM, LIB, RBT], mech=[("hand-written visitors", EXT + ", " + PER), ("derived serialisation", LIB)]),
 dict(id="P18", title="Batches are processed row by row, independently of batch size",
  statement="For every operation on batches of points, pixels or rays, row i of the result depends on row i of the input only and has the same formula whatever the number of rows, and the result has as many rows as the input. Statically and dynamically sized batches give the same result, and inputs are not modified.",
  over=[I, P], text="all batch sizes including empty ones, static and dynamic dimensions, all batch operations",
  why="Tests use batches of fixed small sizes; cross-row contamination or dropped rows for other sizes is not seen.",
  files=[LIB, EXT, PER, ORT, RBT, CAM], mech=[("row loops and column expressions", EXT + ", " + PER + ", " + ORT + ", " + RBT)]),
 dict(id="P19", title="No public operation can abort on well-typed finite input",
  statement="Outside the documented test helper, no public operation reaches a panic, failed assertion, index error, arithmetic overflow or failed unwrap for any well-typed input. Failures that depend on the data are returned as errors.",
  over=[I, C], text="every public function, every branch, all feature configurations",
  why="Absence of panics is a statement over all paths; tests only show the paths they take.",
  files=[LIB, EXT, PER, ORT, CAM, RBT, RIX, LIN], mech=[("every function reachable from the public API", S)]),
 dict(id="P20", title="Coordinate frames and bundle kinds cannot be mixed up in a program",
  statement="A program that passes world-frame points or rays where camera-frame ones are required (or the reverse), mixes rays of different frames, takes one kind of ray bundle for the other, or changes the frame or kind of an existing value is rejected by the compiler. The same program with the right frame and kind compiles.",
  over=[P], text="all client programs; each way to confuse frames has a rejected witness and an accepted twin",
  why="A test suite consists of programs that compile; it cannot contain the ones that must not.",
  files=[LIB, EXT, CAM], mech=[("phantom frame parameters", LIB + " Points, Ray, RayBundle"), ("frame-typed signatures", EXT + ", " + CAM + ", " + LIN)]),
 dict(id="P21", title="The crate works without the standard library and without a heap",
  statement="With default features off, the library links neither the standard library nor an allocator and every core operation remains available; no operation allocates on the heap for statically sized data in that configuration. Enabling features only adds functionality: the behaviour of common operations is the same in every configuration.",
  over=[C], text="all feature configurations; every function reachable in the library",
  why="The tests run on a hosted target with the standard library present in one configuration.",
  files=[LIB, "Cargo.toml", RIX, PER], mech=[("no_std attribute and gated imports", LIB)]),
 dict(id="P22", title="Operations are pure: no hidden state, no unsafe code, thread-safe values",
  statement="No public operation reads or writes global or thread-local state, performs input/output, or uses unsafe code, so equal inputs always give equal results. Values contain no interior mutability and can be shared and sent between threads.",
  over=[H, P], text="all functions reachable from the public API and all public types",
  why="Dependence on history or threads is invisible to single-shot single-threaded tests.",
  files=[LIB, EXT, PER, ORT, CAM, RBT, RIX, LIN], mech=[("call graph of the library", S)]),
 dict(id="P23", title="Generic precision is kept: no narrowing and only exact constants",
  statement="Every computation is carried out in the caller's scalar type from inputs to results, except that the sums inside ray intersection are accumulated in double precision; no value passes through single precision or an integer. Numeric constants are exactly representable in single precision, apart from mathematical constants such as pi and the decomposition tolerance of ray intersection. No result depends on the scalar type's own limits (such as its machine epsilon), except the acceptance test for normalised camera matrices. Hence f32 and f64 instances compute the same formulas.",
  over=[P, I], text="all scalar types, all functions of the library",
  why="Tests instantiate f64 with tolerances wide enough to hide a single-precision detour.",
  files=[LIB, EXT, PER, ORT, CAM, RBT, RIX, LIN], mech=[("conversions of constants", S)]),
 dict(id="P24", title="Derived data can never disagree with the fields it is derived from",
  statement="For every way a public operation produces a camera, pose or intrinsic value — constructors, conversions, cloning, deserialisation — the data derived from its parameters equals what the parameters imply. No public operation hands out mutable access to either.",
  over=[H, I], text="every construction site of every type holding derived data, every public function with mutable access",
  why="A stale cache shows only after the particular sequence of operations that makes it stale.",
  files=[EXT, PER, CAM], mech=[("caches", EXT + " ExtrinsicsCache, " + PER + " IntrinsicsPerspectiveCache")]),
 dict(id="P25", title="The published intrinsics round-trip check cannot pass vacuously",
  statement="The public round-trip test helper examines every grid pixel of the requested region, compares original and re-projected pixels and fails for every intrinsic model whose round trip deviates by more than the tolerance or yields something that is not a number. It passes for models that round-trip exactly. The step is positive and the border lies within the image.",
  over=[I, P], text="all intrinsic models, image sizes, borders and steps, all tolerances",
  why="Tests only call it with models that satisfy it, so a helper that compares nothing passes.",
  files=[RTU], mech=[("grid generation", RTU + " generate_uv_raw"), ("comparison", RTU + " roundtrip_intrinsics")]),
 dict(id="P26", title="Copies are equal and equality means equal parameters",
  statement="For every value of a public type, its clone has the same parameters and derived data; two values compare equal exactly when their parameters are equal. Constructors store what they are given unchanged.",
  over=[I], text="all values of all public types with copy or comparison",
  why="Tests compare a few equal values; inequality of values differing in a single field is hardly sampled.",
  files=[LIB, EXT, PER, ORT, CAM, RBT], mech=[("derived and hand-written Clone/PartialEq", S)]),
 dict(id="P27", title="Printed output names the type and shows every parameter exactly once",
  statement="The debugging output of every public value shows each of its parameters once, under that parameter's own name, so a printed value can be read back by eye; it never shows one parameter's value under the name of another and leaves none out. Error values print a message that names their own case.",
  over=[I], text="all values of all public types with printed output",
  why="No test reads the printed text; a swapped or missing field only misleads whoever debugs a calibration.",
  files=[LIB, EXT, PER, ORT, CAM, RBT], mech=[("derived and hand-written Debug and Display", S)]),
 dict(id="P28", title="Every operation accepts every scalar, row count, storage, frame and model",
  statement="Every public operation can be called from code that is generic over the scalar type (any real field, not only f32 and f64, and not only Copy types), over the number of rows (fixed at compile time or known only at run time), over how the input is stored (owned or a view), over the frame, the ray bundle kind and the intrinsic model, including models, bundle kinds and frames written by users. Public values can be copied, compared, printed and shared between threads for every such scalar.",
  over=[P], text="all client programs generic over scalar, row count, storage, frame, bundle kind and model",
  why="Tests instantiate a handful of concrete types; an extra bound or a concrete type in a signature goes unnoticed until a client fails to build.",
  files=[LIB, EXT, PER, ORT, CAM, RBT, RIX, LIN, RTU], mech=[("public signatures and their bounds", S)]),
 dict(id="P29", title="The serialised layout is the published one",
  statement="Cameras, poses, intrinsics and ray bundles are written with the published struct and field names in the published order, each field holding the value its name says, in the same form: a pose as its rotation quaternion and camera centre, intrinsics as their parameters, a camera as intrinsics and extrinsics, a bundle as frame tag, data and bundle kind. A document in that layout, whoever wrote it, is read with exactly that meaning, so calibration files written by released versions stay readable.",
  over=[I, H], text="all values of serialisable types, all documents of the published layout, in map and sequence form",
  why="Tests write and read with the same build, so a renamed or exchanged field cancels out.",
  files=[EXT, PER, ORT, CAM, RBT, LIB], mech=[("derived and hand-written Serialize and Deserialize", S)]),
]
NA = [
 dict(id="P90", title="Results are accurate to a bound for floating-point inputs of any magnitude",
  statement="For every input the floating-point result of projection, back-projection and pose transforms deviates from the real-number result by no more than a stated multiple of the machine epsilon times the condition number.",
  over=[I], text="all finite floating-point inputs", why=PTS + " and a fixed absolute tolerance.",
  files=[PER, EXT, CAM], mech=[("arithmetic", S)],
  reason="A bound on rounding error quantifies over runtime magnitudes; a static error analysis without input ranges yields no finite bound. Only the structural part is decided: P07 forbids the cancelling subtraction and P23 forbids narrowing."),
 dict(id="P91", title="The decomposition used by ray intersection converges for every finite input",
  statement="For every finite collection of rays the singular value decomposition inside the intersection converges within its iteration limit, so the error for failed decompositions is never returned.",
  over=[I], text="all finite ray collections", why="Convergence of an iterative algorithm over all inputs.",
  files=[RIX], mech=[("decomposition", RIX + " my_pinv")],
  reason="Convergence of nalgebra's iterative SVD is a numerical fact about a dependency's runtime values; P12 decides that both outcomes are handled, and P11 that tolerance and limit are sane, which is all the source of this crate settles."),
 dict(id="P92", title="Batch operations take time linear in the number of rows",
  statement="Every batch operation runs in time proportional to the number of rows.",
  over=[I], text="all batch sizes", why="Tests do not measure time.",
  files=[EXT, RBT], mech=[("row loops", S)],
  reason="Timing is a runtime quantity; the analysis reports loops and their trip counts but the cost of called nalgebra kernels is outside it."),
]
