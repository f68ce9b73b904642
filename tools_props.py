#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (kept in one place so that they stay in step)."""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
I, CF, SC, PR = "inputs", "configurations", "schedules", "programs"
V, M, MI, CO, CV, PV, LB, GL = ["src/" + x for x in ("vector.rs", "matrix.rs", "misc.rs", "collision.rs", "convert.rs", "packed_vector.rs", "lib.rs", "globals.rs")]
INP = "every in-contract argument of every function in the family (any finite magnitude, signs, zeros, specials where documented), in every instruction-set configuration"
P = []
def p(id, title, statement, over, text, why, files, mech, tech, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, tech=tech, note=note))
BASE = "Exploration: seeded workloads on the real crate in 13 builds (scalar, SSE2..AVX2, favor_intel, specialization; optimized and debug-assert), each result judged online by an independent f64/bit-level model. Nothing outside the observed executions is claimed."

p("C01", "Safe API never causes undefined behaviour",
  "No call of the safe public interface, with arguments that satisfy the documented preconditions, reads or writes outside the objects it was given, relies on an alignment the argument types do not promise, reads uninitialised memory, executes instructions the build was not compiled for, or otherwise has undefined behaviour. This holds for every instruction-set configuration and for data placed at any address its type allows.",
  [I, CF, PR], "all safe calls, all argument values and placements (minimum alignment, end of a page, inside larger aggregates), all instruction-set configurations",
  "Tests run only the default build on values at lucky addresses and without any memory checker; undefined behaviour usually returns the right value there.",
  [V, M, MI, CO, CV, PV, LB, GL], [("raw pointer loads/stores", "src/convert.rs"), ("transmutes and undefined()", "src/lib.rs"), ("union casts of control vectors", "src/vector.rs swizzle/permute tables"), ("raw row pointers in the decomposition", "src/matrix.rs")],
  "Miri (UB interpreter), AddressSanitizer, MemorySanitizer and guard-page fault monitor over every public function",
  "Exploration: every public function (475 generated call drivers plus loads, stores, views and collision methods) run under Miri (tree borrows, strict alignment), under ASan, and with every loaded/stored object against an inaccessible page. Miri interprets the scalar, SSE2, SSE4.1 and AVX2/FMA paths; it has no shim for the F16C conversions, which are covered by ASan, MSan and guard pages only.")
p("C02", "Loads and stores move exactly the documented components",
  "Loading any storage type yields its components unchanged in the documented lanes with the documented fill in the remaining lanes, and storing writes exactly the storage type's components and nothing else, so a store followed by a load (or the reverse) is the identity bit for bit on the stored lanes. This includes integer and aligned storage types and holds for every bit pattern including NaN payloads; the 3x3/4x3/3x4/4x4 matrix storage types preserve every element's value (up to the sign of zero and NaN payloads).",
  [I, CF], "every bit pattern in every lane, every storage type, every address allowed by its alignment, every configuration",
  "Tests load a few small distinct numbers into a fresh object; lane fill, neighbouring bytes, NaN payloads and matrix edge columns are never varied.",
  [CV, LB], [("load/store families", "src/convert.rs XMLoad*/XMStore*"), ("storage layouts", "src/lib.rs XMFLOAT*/XMINT*")],
  "online monitor: byte-level canaries around stores and a bit-exact lane model", BASE)
p("C03", "Constructors, accessors, constants and lane setters",
  "Building a vector from components, replicating a value or component, setting one lane and reading one lane act on exactly the named lanes bit for bit and leave the other lanes untouched, by float or integer value, by value or by pointer. Constant generators and the published constants have their documented values.",
  [I, CF], INP, "Tests use one value per function and mostly lane X.", [V, GL], [("Set/Get/Replicate/Splat families", "src/vector.rs"), ("constant tables", "src/globals.rs")],
  "online monitor against a bit-exact lane model", BASE)
p("C04", "Lane routing (swizzle, permute, select, shift, rotate, insert) is exact",
  "For every control value in range, each data-movement operation returns exactly the source lanes its documentation names, bit for bit and regardless of the lane contents; the compile-time and run-time forms agree, and select works bit by bit.",
  [I, CF], "all in-range control values (enumerated exhaustively where finite: 256 swizzles, 4096 permutes, all shifts/rotates/inserts) with arbitrary lane bits, every configuration",
  "Tests check a handful of control combinations with one operand pair.", [V], [("XMVectorSwizzle/Permute generic traits", "src/vector.rs"), ("select/merge/insert/rotate/shift", "src/vector.rs")],
  "online monitor enumerating control values against a bit-exact lane model", BASE)
p("C05", "Comparisons, records and predicates agree with IEEE semantics per lane",
  "Each lane-wise comparison returns an all-ones or all-zeros mask per lane according to IEEE (or integer) comparison of that lane, including NaN, infinities, signed zeros, denormals, bounds and epsilon comparisons. Whole-vector predicates look at exactly the first 2, 3 or 4 lanes, and the comparison record is all-true / all-false / mixed consistently with them and with every record query.",
  [I, CF], INP, "Tests check typical ordered values and rarely NaN or the unused lanes; the record forms have per-instruction-set code that the default build hides.", [V], [("XMVector*Equal/Greater/Less/InBounds families", "src/vector.rs"), ("comparison records", "src/misc.rs XMComparison*")],
  "online monitor: per-lane IEEE model over special-value products", BASE)
p("C06", "Elementwise arithmetic, rounding, bit operations and angle reduction are exact",
  "Every elementwise operation gives in each lane the correctly rounded (or documented-tolerance for estimates) result of that lane's operands alone: arithmetic, fused and unfused multiply-add, integer bit operations, min/max/clamp/saturate, all rounding modes, modulus, reciprocals and roots, angle wrapping. Lanes never influence each other.",
  [I, CF], INP, "Tests use a few values; rounding boundaries, huge magnitudes, ties, lane mix-ups and configuration-specific code are not reached.", [V, MI], [("arithmetic families", "src/vector.rs"), ("angle helpers", "src/misc.rs")],
  "online monitor: correctly rounded per-lane reference with explicit error bounds", BASE)
p("C07", "Transcendental functions meet their accuracy over the whole domain",
  "Sine, cosine, tangent, their inverses and hyperbolic forms, atan2, exponentials and powers, in scalar and vector, precise and estimate variants, stay within a fixed small error of the mathematical function over their whole documented domain, including range reduction, quadrant and sign selection, symmetric identities and the documented special values.",
  [I, CF], INP, "Tests compare a few angles; sign/quadrant selection and reduction errors appear only in parts of the domain.", [V, MI], [("minimax polynomials and range reduction", "src/vector.rs XMVectorSin.. XMVectorATan2"), ("scalar forms", "src/misc.rs XMScalar*")],
  "online monitor: f64 reference with per-function error bounds", BASE)
p("C08", "Numeric format conversions are exact or correctly rounded and saturate",
  "Converting between floats and scaled integers, and between single and half precision, returns the documented rounding, saturates out-of-range inputs, preserves signed zero, infinities and NaN-ness, and every representable half value survives a round trip.",
  [I, CF], "all 65536 half values, (thorough) all 2^32 float values, boundary-biased integers and exponents, software and hardware conversions",
  "Tests convert a few values; ties, subnormals, overflow thresholds and the software path are not exercised.", [CV, PV], [("XMConvertVector*", "src/convert.rs"), ("XMConvertHalf*", "src/packed_vector.rs")],
  "online monitor: exhaustive half-format sweep plus bit-exact rounding model", BASE)
p("C09", "2D, 3D and 4D vector geometry matches its definition",
  "Dot, cross, length, distance, normalisation, angles, reflection, refraction, orthogonal, line distance, intersection and component decomposition compute the textbook quantity of exactly the first 2, 3 or 4 lanes within rounding, replicate scalar results to all lanes, and have the documented results for degenerate (zero, infinite, parallel, total-reflection) arguments.",
  [I, CF], INP, "Tests use axis-aligned or small integer vectors and ignore the unused lanes.", [V], [("XMVector2/3/4 geometry", "src/vector.rs")],
  "online monitor: f64 reference with forward error bounds", BASE)
p("C10", "Interpolation and splines match their polynomials",
  "Linear, Hermite, Catmull-Rom and barycentric interpolation, in scalar-parameter and per-lane-parameter form, evaluate their defining polynomial within rounding for every parameter (inside or outside the unit interval), interpolate the control points at the ends, and apply each lane's own parameter.",
  [I, CF], INP, "Tests check a few parameters with symmetric control points.", [V], [("XMVectorLerp/Hermite/CatmullRom/BaryCentric", "src/vector.rs")],
  "online monitor: f64 reference with forward error bounds", BASE)
p("C11", "Quaternion algebra represents rotations",
  "Quaternion multiplication, conjugate, inverse, exponential and logarithm, interpolation (slerp, squad and its setup, barycentric) and conversions from and to axis-angle, Euler angles and matrices satisfy the algebra of rotations with the library's row-vector, left-to-right composition convention: composing quaternions equals composing the rotations, conversions round-trip, and interpolation stays on the unit sphere along the shortest arc.",
  [I, CF], INP, "Tests check single rotations about the axes; the branch selection in matrix conversion and slerp is data dependent.", [MI, M], [("XMQuaternion*", "src/misc.rs"), ("quaternion from matrix branches", "src/misc.rs XMQuaternionRotationMatrix")],
  "online monitor: f64 quaternion/matrix reference", BASE)
p("C12", "Matrix algebra: product, transpose, inverse, determinant, decomposition",
  "Matrix product, transposed product, transpose, determinant, inverse and predicates agree with real linear algebra within rounding: multiplying by the inverse gives the identity, the determinant is multiplicative, and a scaling-rotation-translation matrix decomposes into factors that recompose to it, while a matrix that is no such product is reported as not decomposable.",
  [I, CF], INP, "Tests multiply or invert a few well-conditioned matrices.", [M], [("XMMatrixMultiply/Inverse/Determinant/Decompose", "src/matrix.rs")],
  "online monitor: f64 reference with condition-aware bounds", BASE)
p("C13", "Transform builders produce the documented matrices",
  "Translation, scaling, rotation (per axis, axis-angle, Euler, quaternion), full and 2D affine transformations, reflection and shadow builders return the matrix of exactly that transform in the row-vector convention, with origin, scaling-orientation and translation arguments applied in the documented order.",
  [I, CF], INP, "Tests check single-parameter cases where the order of composition and origins cancel out.", [M], [("XMMatrixRotation*/Transformation*/AffineTransformation*", "src/matrix.rs")],
  "online monitor: f64 composition reference", BASE)
p("C14", "View and projection matrices map the frustum to clip space",
  "View matrices are rigid and map the eye to the origin and the view direction to the documented axis in left- and right-handed forms; perspective and orthographic projections map the near/far planes to depth 0 and 1 and the side planes to plus/minus one after division; projecting with a viewport and unprojecting are inverse to each other.",
  [I, CF], INP, "Tests use a symmetric camera at fixed parameters, for which several wrong formulas coincide.", [M, V], [("XMMatrixLook*/Perspective*/Orthographic*", "src/matrix.rs"), ("XMVector3Project/Unproject", "src/vector.rs")],
  "online monitor: geometric post-conditions plus f64 reference", BASE)
p("C15", "Vector-by-matrix transforms",
  "Transforming points, coordinates (with division by w) and normals by a matrix gives the row-vector product with the documented implicit components (w = 1 for points, w = 0 for normals, the whole vector for the 4D form), whatever the ignored lanes of the argument contain, and composing two transforms equals transforming by the product matrix.",
  [I, CF], "all matrices and vectors of finite magnitude, any content in ignored lanes, every configuration",
  "Tests use one matrix with small entries and zero or one in the ignored lanes.", [V], [("XMVector2/3/4Transform*", "src/vector.rs")],
  "online monitor: f64 reference with forward error bounds", BASE)
p("C16", "Planes and Fresnel term",
  "Plane dot products, construction from points or a point and normal, normalisation, transformation, and line/plane and plane/plane intersection agree with plane geometry within rounding, report parallel inputs with the documented value, and the Fresnel term equals the dielectric reflectance clamped to the unit interval.",
  [I, CF], INP, "Tests check a few planes through simple points.", [MI], [("XMPlane*", "src/misc.rs"), ("XMFresnelTerm", "src/misc.rs")],
  "online monitor: f64 reference", BASE)
p("C17", "Containment verdicts are geometrically right",
  "A bounding volume reports a point or another volume or triangle as contained only if it lies inside, as disjoint only if it does not touch, and as intersecting otherwise (up to rounding at the boundary and the documented conservative frustum and plane-set tests), for volumes of any position, size and orientation.",
  [I, CF], "all volume pairs, positions, sizes and unit orientations, away from the boundary by a rounding margin", "Tests check one or two configurations per pair with axis-aligned boxes.", [CO], [("Contains* methods", "src/collision.rs"), ("plane-set containment", "src/collision.rs ContainedBy")],
  "online monitor: f64 separating-axis/closest-point geometry oracle", BASE)
p("C18", "Volume, triangle and plane intersection verdicts are right and symmetric",
  "Two volumes, triangles or a plane and a volume are reported as intersecting exactly if they share a point (up to a rounding margin), the verdict does not depend on the order of the arguments, and a plane is reported in front, behind or crossing according to the side on which the volume lies.",
  [I, CF], "all pairs, positions, sizes, orientations (including parallel edges, coplanar faces and degenerate touching), away from the boundary by a rounding margin", "Tests check one or two configurations per pair.", [CO], [("Intersects* methods", "src/collision.rs"), ("triangle tests", "src/collision.rs triangle_tests")],
  "online monitor: f64 polytope distance oracle", BASE)
p("C19", "Ray casts report hits and distances correctly",
  "A ray with unit direction is reported to hit a sphere, box, oriented box, frustum or triangle exactly if it meets it at a non-negative distance (up to rounding), and the reported distance is that of the documented entry point on the surface; a miss reports zero distance.",
  [I, CF], "all rays (origin outside, inside, behind, parallel to faces, zero direction components) and all volumes", "Tests cast a few axis-aligned rays.", [CO], [("IntersectsRay", "src/collision.rs"), ("triangle ray test", "src/collision.rs triangle_tests::IntersectsRay")],
  "online monitor: f64 ray-casting oracle", BASE)
p("C20", "Bounding volumes enclose what they are built from, tightly",
  "A volume created from points, from other volumes, by merging or by transforming encloses all of its sources up to rounding and touches them as tightly as its kind documents (exact for axis-aligned boxes); corners and planes it reports are those of the volume; frusta from projection matrices describe that projection's view volume.",
  [I, CF], "all point sets (coincident, collinear, coplanar, any scale from 2^-18 to 2^18), pairs of volumes and rigid/uniform transforms", "Tests use small symmetric point sets at unit scale.", [CO], [("Create*/Transform*/GetCorners/GetPlanes", "src/collision.rs"), ("covariance eigenvectors", "src/collision.rs internal")],
  "online monitor: f64 enclosure/tightness oracle", BASE)
p("C21", "Results do not depend on the instruction set the crate is built for",
  "For the same inputs every build configuration (scalar fallback, SSE2 up to AVX2/FMA/F16C, vendor-tuned and specialised variants, with or without optimisation) returns the same result: identical bits for data movement, comparisons, integer and single-rounding operations, and results within rounding of each other elsewhere (up to the sign of zero and NaN payloads).",
  [I, CF], "all functions and inputs, all pairs of configurations", "Tests compare each build with a few loosely rounded expected values, never one build with another.", [V, M, MI, CO, CV, PV, LB], [("cfg-selected bodies of every function", "src/*.rs cfg(_XM_*_)")],
  "offline checker over recorded result traces of all configurations", "Exploration: the same seeded calls are recorded in each configuration and the traces are compared record by record (bit-exact or within twice the function's rounding bound). Configurations the CPU cannot run are reported, not claimed.")
p("C22", "Operator and conversion traits agree with the named functions",
  "Operators and conversions of the wrapper types give, bit for bit, what the corresponding named function gives for the same operands in the same order, compound assignment equals the binary operator, conversions between storage types, arrays, tuples and vectors preserve every component in order, and mutable views alias exactly the components they name.",
  [I, CF], INP, "Tests use commutative examples or only one operator per type.", [V, M, CV, LB], [("operator impls", "src/vector.rs, src/matrix.rs"), ("From/Into/AsRef/AsMut impls", "src/lib.rs, src/convert.rs")],
  "online monitor: differential against the named functions", BASE)
p("C23", "Functions are pure, deterministic and thread-independent",
  "A call's result depends only on its arguments: repeating a call, interleaving other calls, running it from many threads at once or under any history gives identical bits, inputs and published constants are never modified, and the floating-point environment of the caller is left unchanged.",
  [SC, I, CF], "all call histories and thread interleavings", "Tests call each function once, single-threaded.", [V, M, MI, CO, CV, PV, GL], [("global constant tables", "src/globals.rs"), ("undefined() temporaries", "src/lib.rs"), ("MXCSR use", "src/*.rs")],
  "offline trace comparison across threads/histories, MXCSR and constant-table snapshots, ThreadSanitizer",
  "Exploration: the recorded trace of every family is compared with traces taken from 8 threads, in permuted order and on dirtied stacks; TSan build watches for races.")
p("C24", "Every function is total on arbitrary bit patterns",
  "With arguments of arbitrary bit patterns (NaN, infinities, denormals, huge values) that satisfy the documented index, count and non-degeneracy preconditions, every function returns normally, without panic, overflow trap, endless loop or crash, in debug and release builds alike.",
  [I, CF], "all functions, all bit patterns in all lanes, debug and release builds", "Tests pass ordinary values; debug assertions on valid values and arithmetic overflow panics are not provoked.", [V, M, MI, CO, CV, PV], [("debug assertions and integer arithmetic", "src/*.rs")],
  "panic/crash/hang monitor under hostile bit-pattern workloads in debug-assert builds", BASE)

CLAIMED = json.load(open(os.path.join(H, "claimed.json")))
with open(os.path.join(H, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps({"id": x["id"], "title": x["title"], "statement": x["statement"], "quantifier": {"over": x["over"], "text": x["text"]},
                            "why_tests_cant": x["why"], "anchors": {"files": x["files"], "mechanism": [{"name": a, "where": b} for a, b in x["mech"]]}}) + "\n")
        assert len(x["title"]) <= 80, x["id"]
man = {"version": 1, "setup_cmd": "python3 check.py --setup",
       "hooks": {"guard": "none", "enable": "no hooks: the monitors use only the public API", "source_commits": []},
       "checks": [{"property": x["id"], "quick_cmd": "python3 check.py " + x["id"], "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + x["id"],
                   "technique": x["tech"], "level": "exploration", "level_note": x["note"]} for x in P if x["id"] in CLAIMED],
       "not_applicable": [{"property": x["id"], "reason": "machinery not yet finished"} for x in P if x["id"] not in CLAIMED]}
json.dump(man, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
