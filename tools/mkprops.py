#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json, os
P = []
def p(id, title, st, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append(dict(id=id, title=title, statement=st, quantifier={"over": over, "text": text},
                  why_tests_cant=why, anchors=a))

ALL = ["src/matrix2x2.rs","src/matrix3x3.rs","src/matrix4x4.rs","src/matrix5x5.rs","src/matrix6x6.rs",
       "src/vector2.rs","src/vector3.rs","src/vector4.rs","src/vector5.rs","src/vector6.rs",
       "src/quaternion.rs","src/dual_quaternion.rs","src/transformations.rs","src/slices_methods.rs","src/utils.rs"]
MATS = ALL[:5]; VECS = ALL[5:10]

p("C01","Concurrent callers do not influence each other's results",
  "When several threads are inside library operations at the same time, every call returns, bit for bit, what the same call returns when it is made alone in a fresh process. This holds for every public operation and for every way the threads' individual machine steps interleave.",
  ["schedules","inputs"],"every set of 2-4 threads, every choice of operations and operands on each, every preemption at instruction (or element-arithmetic) granularity",
  "The unit tests call each operation once, from one thread, and never compare an interleaved execution with a solitary one.",
  ALL,[("all working storage is by-value locals; no static, thread-local or shared buffer exists","src/ (whole crate)"),("unsafe code is denied","src/lib.rs: #![deny(unsafe_code)]")],
  observe=["return values of every public operation"])
p("C02","Results do not depend on call history, including aborted calls",
  "A call's result depends only on its arguments: whatever calls came before it, on this or another thread, on equal or nearly equal or unrelated operands, it returns bit for bit what it would return as the first call of a fresh process. This includes histories in which earlier calls were aborted part-way by a panic raised in the caller's number type, closure or output sink.",
  ["histories","crash_points","inputs"],"every history of calls, every point at which each earlier call is aborted, every later call",
  "Each unit test is one short history with no aborted call; nothing compares a late call with a first call.",
  ALL,[("functions keep nothing between calls","src/ (whole crate)")],observe=["return values of every public operation"])
p("C03","A stalled caller never blocks the others",
  "No call waits for another caller: if any threads stop for ever part-way through library calls, at any instruction, every call made by the remaining threads still completes, with the result it has when made alone.",
  ["schedules","fault_sequences"],"every instruction at which a thread can stop, every set of stopped threads, every operation called by the survivors",
  "No unit test stops a thread inside the library.",
  ALL,[("no lock, once-cell or other blocking primitive is used","src/ (whole crate)"),("formatting writes only to the caller's sink, not to the locked process streams","src/matrix*.rs Display impls")])
p("C04","Work per call is bounded whatever values arithmetic produces",
  "Every operation ends - by returning or by panicking - after an amount of work that is bounded by a fixed budget and does not grow with the magnitude or kind of the values involved. This holds even when operands, intermediate results or comparisons are corrupted to NaN, infinities, zeros, huge, tiny or contradictory values at any point of the computation.",
  ["fault_sequences","inputs"],"every operation, every operand, every sequence of corrupted arithmetic results and comparisons inside the call",
  "Tests use a handful of benign operands and cannot corrupt an intermediate result; a loop that only fails to end on a NaN passes them all.",
  ALL,[("all loops run over fixed dimensions","src/ (whole crate)")])
p("C05","Rendering succeeds exactly when the complete text was delivered",
  "Formatting a vector, matrix, quaternion or dual quaternion for display (or debugging, with any format flags) reports success only if the sink has received every component, once each, in storage order; the text does not depend on earlier failures. If the sink or the formatting of a component fails at any point, the failure is reported, nothing more is written, what was written is a prefix of the complete text, and the library does not panic.",
  ["fault_sequences","crash_points","inputs"],"every displayable type and element type, every value, every write or element at which sink or element formatting fails (by error or panic), transiently or for good",
  "No test formats anything, let alone into a failing sink.",
  MATS+VECS+ALL[10:12],[("every partial write is chained with `?` or is the returned value","Display impls in src/matrix*.rs, src/vector*.rs, src/quaternion.rs, src/dual_quaternion.rs")],observe=["text received by the sink","fmt::Result"])
p("C06","Operations never touch the process's own streams",
  "No operation, formatting into a caller-supplied sink included, writes to the process's standard output or standard error. Every operation gives the same result, without panicking, when those streams are full, closed or broken.",
  ["fault_sequences","configurations"],"every operation, every state of the standard streams (captured, full device, closed descriptor, broken pipe)",
  "Test output is captured by the harness, so a stray write or a panic on a broken stream is invisible to the tests.",
  ALL,[("Display impls write to their formatter only","src/matrix*.rs Display impls")],observe=["bytes reaching descriptors 1 and 2"])
p("C07","Operations need no operating system and no heap",
  "Operations that do not panic make no heap allocation and no system call, and read no clock, random source, processor identification or environment; they give the same results when every allocation and every system call fails. The crate also builds in its documented no-std configuration, and there behaves the same for the same element arithmetic.",
  ["fault_sequences","configurations","inputs"],"every operation, every operand on which it returns, every allocation or system call that could fail, both feature configurations",
  "Tests run only the std configuration, with a working allocator and kernel, so a hidden allocation or system call passes them.",
  ALL+["src/lib.rs","Cargo.toml"],[("fixed-size arrays everywhere","src/ (whole crate)"),("no_std attribute under the no-std feature","src/lib.rs"),("only core paths are used","src/ (whole crate)")])
p("C08","In-place updates follow a plain-array model and are all-or-nothing",
  "After any history of in-place operations on a vector or matrix - element, row and slice writes by any indexing form, compound addition and subtraction, block copy - reading it by any accessor gives what a plain array given the same operations holds. An update aborted by a panic in the element arithmetic, an index outside any dimension or an invalid block number leaves the target exactly as it was; the normalising method that returns a new vector never changes its receiver.",
  ["histories","crash_points","inputs"],"every sequence of in-place operations and every element operation at which a compound update is aborted",
  "Tests apply one update to one value and never abort an update or use an out-of-range index.",
  MATS+VECS,[("compound assignment computes the whole result before storing it","AddAssign/SubAssign impls"),("tuple and row indexing are bounds-checked per dimension","Index/IndexMut impls"),("block number is matched before any store","src/matrix6x6.rs copy_elements_from")],
  state=[("element array","the only state of a vector or matrix","field 0 of V2..V6, M22..M66")])
p("C09","Element-wise mapping calls the closure once per element, in order",
  "Mapping a closure over a matrix calls it exactly once for each element, row by row from the first to the last, and puts each returned value at that element's position, whatever state the closure keeps. If the closure panics at any element, the panic reaches the caller, no further element is visited and the source matrix is unchanged.",
  ["histories","crash_points"],"every matrix size and content, every stateful closure, every element at which it panics or calls back into the library",
  "Tests map one stateless closure that never fails.",
  MATS,[("nested loops over rows and columns calling the closure in the body","for_each in src/matrix*.rs")])
p("C10","An invalid intermediate result is never masked as a valid answer",
  "If one arithmetic step inside an algebraic operation yields NaN, the outcome shows it: the call reports failure, or some component of the result is not finite, or the result is what it would have been without the fault. This covers vector and matrix sums, differences, products, quotients, traces, norms, determinants, inverses and QR, quaternion and dual-quaternion products, conjugates, norms, inverses and point transforms, and rotation and homogeneous-matrix construction and inversion; a plausible but different finite result is never returned. (Operands that the call refuses even without the fault are outside this promise: there the fault may hit the refusal test itself.)",
  ["fault_sequences","inputs"],"every covered operation, every operand, every arithmetic step at which the result is corrupted to NaN",
  "A test sees only the final value for fixed operands; it cannot corrupt a step inside the call.",
  ALL,[("values flow through plain arithmetic with no clamping or NaN-discarding selection","src/ (whole crate)"),("singularity tests are written so that NaN is not taken for a regular pivot with a finite answer","nearly_zero uses in inverse and qr")])
p("C11","Operations degrade to failure values, not panics, under bad values",
  "No operation panics because of the values it is given or computes, NaN and infinities included; operations with an optional or error result use it instead. In particular, inverting or QR-factorising a matrix with a zero or repeated row (with entries for which the computed determinant vanishes to rounding), normalising a zero vector or quaternion, inverting a zero quaternion by the optional inverse, and asking an unrotated quaternion for its axis give the failure value. Panics are reserved for documented misuse: LU of a matrix whose first row has no usable (nonzero, comparable) entry, dividing by or inverting by operator a quaternion or dual quaternion that is zero to within rounding, a rotation axis or rotation part that is zero to within rounding where a nonzero one is required, an index out of range, an invalid block number, slices that are empty or of different lengths, and panics of the number type itself; arithmetic may be faulty here, but not inconsistent: the same correct value is replaced by the same wrong one each time.",
  ["fault_sequences","inputs"],"every operation outside the listed misuses, every operand, every consistent corruption of arithmetic results inside the call",
  "Tests exercise failure values for one or two singular inputs and never corrupt a step.",
  ALL,[("Option/Result returns guarded by zero tests","inverse, qr, normalize, real_eigenvals, get_axis, log")])
p("C12","Cached normalisation state never goes stale",
  "However a quaternion or a rigid-motion dual quaternion was produced, normalising, inverting, dividing by, taking logarithm, roots or powers of it gives, up to rounding, what the same operation gives on a value freshly built from the same components (and normalised first where the operation requires it). In particular a value that remembers being normalised really has unit norm, through any history of products, sums, scalings, negations, conjugations, interpolations, exponentials and conversions over values whose squared norm neither overflows nor underflows the element type.",
  ["histories","fault_sequences","inputs"],"every history of constructors and operations, with and without perturbed rounding in each arithmetic step",
  "Tests check single operations; the remembered flag only matters for values that went through a sequence of operations.",
  ["src/quaternion.rs","src/dual_quaternion.rs"],[("every arithmetic operation rebuilds with the flag cleared; only unit-producing constructors set it","src/quaternion.rs, src/dual_quaternion.rs")],
  state=[("normalized","remembers that the value has unit norm; skips renormalisation","Quaternion, DualQuaternion")])
p("C13","Operations can be re-entered on the same thread",
  "A library call made from inside another library call on the same thread - from a closure, from the element type's arithmetic or formatting, from the output sink, or from an interrupt or signal handler at any instruction - returns its usual result, and the interrupted call then completes with its usual result.",
  ["schedules","inputs"],"every outer operation, every instruction, closure call, element operation or sink write at which it is interrupted, every nested operation, nested up to depth 3",
  "Tests never nest calls.",
  ALL,[("all working storage is on the stack","src/ (whole crate)")])
p("C14","Integer arithmetic is exact or traps",
  "With an integer element type whose overflow and division by zero trap, every polynomial operation - vector and matrix sums, differences, negations, scalings, dot, cross and matrix-vector and matrix-matrix products, row vector times matrix, sum norm, quaternion and dual-quaternion sums, products, conjugates, squared norm, rotation matrix and point transform - either surfaces the trap to its caller or returns the exact mathematical result. It never returns any other value, and it traps only if the element type did.",
  ["fault_sequences","inputs"],"every operand, every width of the element type and hence every element operation at which the trap occurs",
  "Tests use small hand-picked values of one width; the trapping step moves with operand and width.",
  MATS+VECS+ALL[10:12],[("generic over any Num type, evaluated with the element type's own operators only","operator impls in src/")])
p("C15","Panics of the caller's code pass through unchanged",
  "If the caller's number type, closure or output sink panics at any point inside a library call, that very panic reaches the caller of the operation: it is not swallowed, replaced, retried or turned into an abort, and the call runs no more of the caller's arithmetic, comparisons, conversions, closures or sink writes on the way out. This holds for every operation and every such point.",
  ["crash_points","inputs"],"every operation that runs caller code, every operand, every point at which that code panics",
  "No test raises a panic inside a call.",
  ALL,[("no catch_unwind, Drop impl or retry exists; element operations are plain expressions","src/ (whole crate)")],observe=["payload reaching the caller","calls into the element type, closure and sink"])
p("C16","Stack use per call is small and independent of the values",
  "Every call that returns uses at most 16 KiB of stack in an optimised build, and at most 4 KiB more than the same call on ordinary operands, whatever the operands and whatever values arithmetic and comparisons produce inside the call: no operation recurses or reserves memory in proportion to a value.",
  ["fault_sequences","inputs"],"every operation, every operand, every sequence of corrupted arithmetic results and comparisons inside the call",
  "Tests run on large stacks with benign operands and do not look at the depth.",
  ALL,[("fixed-size arrays and loops, no recursion","src/ (whole crate)")])
p("C17","Calls leave the caller's environment as they found it",
  "Whatever a call does - return, refuse its operand, or be aborted at any point by a panic of the caller's number type, closure or sink - it leaves the state it shares with its caller as it was: the thread's floating-point control state (rounding direction, flush-to-zero, denormals-are-zero, exception masks), signal mask and dispositions, the process's panic hook, environment variables, working directory, file mode mask and open descriptors. The caller's number type, closures and sinks run in the caller's floating-point control state, and a panic of theirs (or of the library) reaches the caller's panic hook. This holds in every floating-point mode the caller may have chosen.",
  ["fault_sequences","inputs"],"every operation, every operand, every floating-point mode, every step of the call at which the caller's code panics",
  "Tests look at results only, in the default mode, and never at what an aborted or refused call leaves behind.",
  ALL,[("nothing in the library touches such state","src/ (whole crate)")])

p("C18","Rounding errors are not amplified by the way results are computed",
  "If every arithmetic step of a call is off by at most 2^-40 of its exact result (the same result always by the same error), the result moves by at most 10000 times what errors of that size in the operands alone move it, or 10000 times 2^-40 of its largest component: no formula loses digits that its operands have. This holds for every operation except LU and QR factorisation, comparisons and predicates, on operands in general position at any ordinary scale - mixed magnitudes included for everything but angles, screws and exponentials - and for sums, products, determinants, inverses, norms and conversions on special and nearly singular operands too. Interpolation between unit quaternions that are not perpendicular, nearly equal and nearly opposite ones included, moves by at most 1e-4 under errors in the last place.",
  ["fault_sequences","inputs"],"every covered operation, every operand as described, every assignment of small relative errors to the steps of the call",
  "Tests compare a few results computed with one fixed rounding; a formula that cancels still passes on operands where it happens to be exact.",
  ALL,[("formulas are direct sums, products and quotients of the operands","src/ (whole crate)"),("near-equal ends of slerp are interpolated linearly","slerp in src/quaternion.rs")])

p("C19","Calls work at every stage of a thread's and of the process's life",
  "A call made from a destructor while a panic unwinds, from the panic hook, from a thread-local or key destructor at thread exit, from a handler or destructor at process exit, or in a child process forked while calls are in progress, returns bit for bit what it returns when made alone in a fresh process, without panicking or blocking.",
  ["fault_sequences","schedules","inputs"],"every operation, every operand, every stage of the life of a thread or of the process, every step of another call at which the panic starts or the fork happens",
  "Tests call the library from the body of a live thread only.",
  ALL,[("nothing in the library depends on thread-local or process-wide state","src/ (whole crate)")])
p("C20","Results do not depend on where operands lie or on what memory held before",
  "Every call returns bit for bit the same wherever its operands and stack frames lie: at any address their type allows, ending at the edge of accessible memory, equal operands as one object or as separate copies, and whatever the unused stack held before.",
  ["fault_sequences","inputs"],"every operation, every operand, every placement of the operands and of the stack, every content of the memory around and below them",
  "Tests pass operands from one fresh stack frame, each its own object.",
  ALL,[("operands are read by value or index only; no address, padding or uninitialised memory is looked at","src/ (whole crate)"),("unsafe code is denied","src/lib.rs: #![deny(unsafe_code)]")])

p("C21","Results are the same in every build",
  "Every call has the same outcome - bit for bit, NaN payloads aside, and a panic where the other builds panic - in debug and in optimised builds, with or without debug assertions and overflow checks, for any processor features. This holds on extreme operands too, and when arithmetic inside the call yields wrong values (the same in each build); overflow of a primitive integer element type, which itself depends on the build, is excepted.",
  ["fault_sequences","inputs"],"every operation, every operand, every consistent corruption of arithmetic results inside the call, every cargo profile",
  "The suite runs in one build, with debug assertions; nothing compares two builds.",
  ALL,[("no debug assertion or cfg(debug_assertions) with an effect on results","src/ (whole crate)")])

p("C22","A bad component spoils only the results that depend on it",
  "If one component of an operand is bad - NaN, infinite, huge or otherwise wrong - only those components of the result change that depend on it by the operation's definition; all others are bit for bit what they would have been (or the call refuses its operand). This holds for sums, differences, negations, scalings, quotients by a scalar, matrix and vector products, cross, quaternion and dual-quaternion products, conjugates, transposes, traces, extraction of parts, mapping, skew matrices, and construction, conversion and inversion of rigid transformations.",
  ["fault_sequences","inputs"],"every such operation, every operand, every component of it, every bad value",
  "Tests use finite operands and compare complete results; none follows a bad component (a failed sensor) to where it may appear.",
  ALL,[("each component is computed from the components of its definition only","src/ (operators, transformations.rs)"),("no norm, determinant or masked sum enters a result that does not need it","src/ (whole crate)")])
p("C23","A caller's number type is computed with only through its own operations",
  "A call on a caller's number type that behaves like f64 (or i32) returns bit for bit what it returns on f64 (or i32), and does not depend on the type's conversions to primitive numbers: results are the same when these are wrong or refused.",
  ["fault_sequences","inputs"],"every generic operation, every operand, every wrong or refused conversion",
  "Tests instantiate the library with primitive numbers only, whose conversions are exact.",
  ALL,[("constants enter through T::from, T::one, FloatConst; nothing leaves T through ToPrimitive","src/ (whole crate)"),("no specialisation by type, size or name","src/ (whole crate)")])

# ---- not decided by this family --------------------------------------------------
def n(id,title,st,text,why,files,mech): p(id,title,st,["inputs"],text,why,files,mech)
n("N01","Determinant and inverse are correct",
  "The determinant of a square matrix equals the sum over permutations of signed products up to rounding; the inverse of a matrix whose determinant is not negligible, multiplied by the matrix on either side, is the identity up to rounding, and is absent otherwise.",
  "every matrix of size 2 to 6","tests check one matrix per size",MATS,[("expanded cofactor formulas","det/inverse impls")])
n("N02","QR and LU factorisations reproduce the matrix",
  "The orthogonal-triangular factorisation yields an orthogonal factor and an upper-triangular factor whose product is the matrix; the LU factorisation yields factors, a permutation and a determinant consistent with the matrix.",
  "every regular matrix of size 2 to 6","tests check one matrix per size",MATS,[("Gram-Schmidt; Crout with pivoting","qr/lu impls")])
n("N03","Matrices and vectors obey ring and module laws over the reals",
  "Sums, products, transposes, traces and norms of floating-point matrices and vectors satisfy the algebraic laws up to rounding, for all sizes.",
  "all operand pairs and triples","tests check one example per operation",MATS+VECS,[("operator impls","src/matrix*.rs, src/vector*.rs")])
n("N04","Quaternion rotation agrees with its rotation matrix",
  "Rotating a vector by a unit quaternion, by its matrix and by axis-angle gives the same vector up to rounding, and converting matrix to quaternion and back is the identity up to sign.",
  "all unit quaternions and vectors","tests check a few angles",["src/quaternion.rs"],[("to_rotation, from_rotation, q*v","src/quaternion.rs")])
n("N05","Quaternion exponential, logarithm, powers and trigonometry are consistent",
  "Exponential and logarithm are inverse to each other on their domain, powers and roots follow from them, and sine and cosine satisfy their identities.",
  "all quaternions in the domain","tests check single values",["src/quaternion.rs"],[("exp, ln, pow, sqrt, sin, cos","src/quaternion.rs")])
n("N06","Spherical interpolation stays on the shortest unit arc",
  "Interpolating between two unit quaternions gives a unit quaternion on the shortest arc, equal to the ends at 0 and 1, with constant angular speed, for nearly equal and nearly opposite ends too.",
  "all pairs of unit quaternions and parameters","tests check one pair",["src/quaternion.rs"],[("slerp","src/quaternion.rs")])
n("N07","Euler angle conversions are mutually consistent",
  "Building a rotation from Euler angles follows the named axis sequence, and extracting angles and rebuilding gives the same rotation, at the singularities too.",
  "all angles and all sequences","tests check one triple",["src/transformations.rs","src/quaternion.rs"],[("euler_to_rotation, rotation_to_euler","src/transformations.rs")])
n("N08","Dual quaternions represent rigid motions faithfully",
  "Composition, inversion, point transformation and conversion of unit dual quaternions agree with the homogeneous matrices they represent.",
  "all rigid motions and points","tests check a few motions",["src/dual_quaternion.rs"],[("products, to_homogeneous, transform_point","src/dual_quaternion.rs")])
n("N09","Screw parameters and screw interpolation are consistent",
  "Screw parameters rebuild the motion they came from; screw interpolation meets its ends and follows a constant screw.",
  "all pairs of rigid motions","tests check a few motions",["src/dual_quaternion.rs"],[("get_screw_parameters, pow, screw_lerp","src/dual_quaternion.rs")])
n("N10","Matrix exponential and logarithm of rotations and motions are inverse",
  "Exponential and logarithm between so(3)/se(3) and SO(3)/SE(3) are inverse to each other, including at zero and half-turn rotations.",
  "all twists and motions","tests check single values",["src/transformations.rs"],[("matrix_exponential, matrix_log and their 6-dof forms","src/transformations.rs")])
n("N11","Homogeneous transforms, adjoints and twists follow their definitions",
  "Homogeneous inverse, adjoint, skew and twist conversions satisfy their defining identities.",
  "all motions, twists and vectors","tests check single values",["src/transformations.rs"],[("homogeneous_inverse, adjoint, skew_*, twist_*","src/transformations.rs")])
n("N12","Comparison helpers accept equal values and reject different ones",
  "Near-equality is reflexive for non-NaN values, symmetric, false for NaN, and respects the given tolerance; rotation predicates accept rotations and reject others.",
  "all values and tolerances","tests check three pairs",["src/utils.rs"],[("nearly_equal and derived predicates","src/utils.rs")])
n("N13","Accessors and constructors place elements as documented",
  "Rows, columns, diagonal, triangles, flattening, submatrix and construction from columns return exactly the documented elements.",
  "all matrices","tests check one matrix per size",MATS,[("get_rows, get_cols, get_diagonal, as_vec, new_from_vecs","src/matrix*.rs")])
n("N14","Slice reductions return the extreme, the norms and the projections",
  "Maximum and minimum with their positions, sum, maximum and Euclidean norms, dot product and projection of a slice are what their names say.",
  "all non-empty slices","tests check one slice each",["src/slices_methods.rs"],[("find_max_min, norm_*, dot, project_x_over_y","src/slices_methods.rs")])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
