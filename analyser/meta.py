"""Technique, level and configurations of each check."""
VF = "value-flow analysis of MIR: global value numbering in rational normal form, all paths merged"
TR = (" Decides the property over exact real arithmetic for all inputs; trusts the models of nalgebra/core operations in analyser/models.py and rustc's MIR. "
      "Rounding is outside it. An obligation behind a construct without a model is reported undetermined and raises no alarm.")
META = {
 "P01": dict(technique=VF, note="Pixel value numbers equal the pinhole law, for both construction routes." + TR),
 "P02": dict(technique=VF, note="Value number of project(point on ray(pixel)) is the pixel; rays start at the origin and point forward." + TR),
 "P03": dict(technique=VF, note="Orthographic law and both round trips as equalities of value numbers." + TR),
 "P04": dict(technique=VF, note="World/camera transforms equal R(x-C) and its inverse per generic row." + TR),
 "P05": dict(technique=VF + "; constructor x accessor agreement", note="Every accessor of every constructor route agrees." + TR),
 "P06": dict(technique=VF, note="Look-at construction: centre, forward, right, up and orthonormality as identities." + TR),
 "P07": dict(technique=VF + "; cancellation (effect) analysis of camera-centre terms", note="Axis directions equal the rotation's rows; no camera-centre term may be introduced and cancelled on the way." + TR),
 "P08": dict(technique=VF + "; sibling agreement of bundle kinds", note="Queries of both bundle kinds agree per generic row." + TR),
 "P09": dict(technique=VF + "; sibling agreement of bundle kinds", note="Pose transform per generic row, both kinds." + TR),
 "P10": dict(technique=VF + " with an uninterpreted intrinsic model", note="Camera operations equal the composition for an arbitrary implementation of the intrinsics trait." + TR),
 "P11": dict(technique=VF + " with an inductive loop summary", note="Normal equations per generic ray, the sum over all rays, invariance under ray scaling, and pseudo-inverse arguments, as equalities of value numbers." + TR),
 "P12": dict(technique=VF + "; panic-obligation and error-path analysis", note="Every path's Result variant and every panic obligation on the way is decided for any number of rays." + TR),
 "P13": dict(technique=VF + "; division-guard analysis", note="Exported matrix times homogeneous point equals the projection; every division is guarded or cannot vanish." + TR),
 "P14": dict(technique=VF + "; QR characterised by its defining identities, every sign pattern enumerated as path conditions", note="Recovered parameters satisfy K·[R|t] ~ P for every sign pattern of the triangular factor." + TR),
 "P15": dict(technique=VF + "; path-condition analysis of the acceptance test", note="The acceptance condition is exactly the required set of comparisons; accepted entries are stored unchanged." + TR),
 "P16": dict(technique=VF + " with symbolic differentiation of value numbers", note="Every Jacobian entry equals the derivative of the projection's value number." + TR),
 "P17": dict(technique=VF + "; abstract serde protocol (the crate's own visitors driven over every key order and style)", note="Serialised tree, replayed into the crate's deserialisers, gives back the value; missing, duplicate and unknown keys end in errors. Formats that key fields by bytes are not covered." + TR),
 "P18": dict(technique=VF + "; row-dependency analysis", note="Row i of every batch result depends on row i of the input only, with one formula for any row count, static or dynamic." + TR),
 "P19": dict(technique="panic-obligation analysis of MIR: abstract interpretation of every public function on unconstrained inputs", note="Every reachable assert, index, unwrap and diverging call is shown unreachable. NaN inputs only matter where a computed comparison is unwrapped." + TR),
 "P20": dict(technique="type-level encoding with compile-fail witnesses (accepted twin for each) and signature analysis", note="The compiler itself decides each witness program against the crate's current source; signatures of all public functions are checked for frame preservation."),
 "P21": dict(technique="linkage analysis per feature configuration; " + VF + " compared across configurations", note="Crates linked per configuration are read from the compiler; behaviour of every common public function is compared by value number." + TR),
 "P22": dict(technique="effect analysis over all functions and callees (MIR and HIR); compile-time thread-safety witnesses", note="Every function of the library and every callee is classified by effect; statics, unsafe blocks, raw pointers and interior mutability are looked for in the type-checked program. External crates nalgebra/simba/num-traits/approx/serde are taken as pure."),
 "P23": dict(technique="type-flow analysis of MIR: constants and data in fixed-precision types, callee instantiations", note="Flow-insensitive per function: a local of a fixed float type may hold constants only. Decides absence of narrowing for every input; does not bound rounding."),
 "P24": dict(technique=VF + "; enumeration of construction sites; compile-fail witnesses for mutable access", note="For every public function that yields a value with derived data, the value equals the one rebuilt from its own parameters and its accessors obey the laws." + TR),
 "P25": dict(technique=VF + " with an uninterpreted intrinsic model; failure-condition analysis", note="The condition under which the helper panics equals 'some grid pixel deviates' as a value number." + TR),
 "P26": dict(technique=VF + "; implied-equality analysis of comparison results", note="Copies equal their originals; the result of == forces every parameter equal and is true for equal parameters." + TR),
 "P27": dict(technique=VF + " with an abstract formatter: the sequence of names and values each path writes", note="The names and value numbers handed to the formatter are compared with the type's parameters; layout and whitespace are not judged." + TR),
 "P28": dict(quick=["full", "none"], technique="type-level encoding: generic client programs the compiler must accept, one per operation and axis of generality", note="rustc's own type checker decides each client, with only the documented bounds, against the crate's current source: acceptance of one generic client covers all its instantiations."),
 "P29": dict(technique=VF + "; abstract serde protocol (a symbolic document of the published layout driven through the crate's own readers and writers)", note="The published layout is a fixed table taken from the released crate. Byte-level formats and nalgebra's own layouts are outside it." + TR),
}
