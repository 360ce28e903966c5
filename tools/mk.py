#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json (a property is claimed when checks/<id>.py exists)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, text, why, files, mech, na=None, tech="", level="proof", note=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=["src/MathUtils/" + f for f in files], mech=mech, na=na, tech=tech, level=level, note=note))


AI = "static analysis: abstract interpretation of the LLVM IR of the instantiated headers (algebraic value domain, regions for memory)"
PN = "Each obligation is an identity of normal forms established for all inputs of the stated shape; real arithmetic (rounding ignored, coefficients to 1e-9); trusts clang's front end and the analyser."
SZ = " Bounded in container sizes, which are enumerated: small ones plus every size next to an integer constant occurring in the analysed code."

p("C01", "Speed and frequency conversions match the SI definitions for every unit pair",
  "Converting a speed between any two of m/s, knot and km/h, or a frequency between any two of Hz, rad/s, deg/s, deg/min, rpm and period in seconds, multiplies (or inverts, for periods) by exactly the ratio given by the SI definitions of the units, for every value. Converting a value to its own unit returns it unchanged, the dedicated one-way helpers agree with the general converters, in-place and by-copy vector conversion convert every element, and the published numeric constants have their mathematical value.",
  ["inputs"], "all finite values, all ordered unit pairs, all vector lengths", "tests convert a handful of values for some of the pairs; a wrong factor or a swapped branch for one pair is invisible to them",
  ["Unit.h", "Constants.h"], [("convert_velocity_unit", "Unit.h"), ("convert_frequency", "Unit.h"), ("kt2ms", "Unit.h"), ("constants", "Constants.h")], tech=AI, note=PN + SZ)
p("C02", "Angle units are honoured identically by every entry point",
  "Every operation that takes or returns an angle with a unit selector gives, for degrees, exactly what it gives for the same angle expressed in radians (scaled by pi/180 on input, 180/pi on output), and the default unit is the documented one. Degree/radian conversion of vectors, in place or by copy, converts every element exactly once and by the exact factor, leaves the source of a copy unchanged, and textual unit names map to the corresponding unit.",
  ["inputs"], "all angles, both units, all vector lengths", "tests use one or two angles per entry point and mostly one unit",
  ["Unit.h", "Angles.h", "Complex.h", "Vector2d.h", "Vector3d.h"], [("deg2rad/rad2deg", "Unit.h"), ("_GetTrigo, STRING2ANGLE", "Angles.h"), ("Phase", "Complex.h"), ("projections", "Vector2d.h"), ("GetProjectedAngleAround*", "Vector3d.h")], tech=AI, note=PN + SZ)
p("C03", "Angle normalisation lands in its interval and keeps the angle",
  "For every finite double, normalising an angle returns a value inside the announced interval ([0,360[, ]-180,180], [0,2pi[, ]-pi,pi]), bounds included or excluded as announced even under floating-point rounding. The result differs from the input by a whole number of turns (up to rounding), and an angle already in the interval is returned unchanged up to rounding.",
  ["inputs"], "all finite doubles, including tiny negative ones and values next to the bounds", "tests sample a few angles per function; the bounds are reached only by rounding",
  ["Angles.h"], [("Normalize_0_360, Normalize__180_180, Normalize_0_2PI, Normalize__PI_PI", "Angles.h"), ("modulo360, modulo2pi", "Angles.h")],
  tech="static analysis: IEEE-754 interval and granularity domain partitioned by binade, over the value graph extracted from the IR; linear congruence domain for the whole-turn part",
  note="Range part covers every finite double with round-to-nearest semantics; congruence part in real arithmetic; trusts clang's front end, the analyser and that fmod is exact.")
p("C04", "Planar NED/local projections and transport agree across all their forms",
  "Projecting a planar vector from a local frame to NED is the rotation by the given angle and projecting back is its inverse, so a round trip restores every vector and norms are preserved; each component function equals the matching component of the full projection. Member, free, in-place and output-argument forms give the same result, including when arguments alias the transported vector, the const forms leave their operand unchanged, and rigid-body transport to a point adds the cross product of the rotation rate (in any frequency unit) and the lever arm; building a NED velocity converts speeds with the right units.",
  ["inputs"], "all vectors, angles, rates, unit combinations and aliasing of arguments", "tests evaluate a few vectors and angles and not every form or unit",
  ["Vector2d.h"], [("ProjectLocalOnNED, ProjectNEDOnLocal, ProjectOn*Axis", "Vector2d.h"), ("TransportAtPoint", "Vector2d.h"), ("GetNEDVelocityVector, SetNEDFromLocal", "Vector2d.h")], tech=AI, note=PN)
p("C05", "Quaternion, Euler ZYX and matrix forms describe the same rotation",
  "Euler angles (roll, pitch, yaw) converted to a matrix give Rz(yaw)Ry(pitch)Rx(roll); converted to a quaternion they give a unit quaternion whose matrix is the same one. Quaternion to matrix is the standard homogeneous formula, and the angles extracted from a quaternion or from a matrix are those of the rotation they represent, with a finite result for every unit quaternion even when rounding pushes it slightly off norm.",
  ["inputs"], "all angles, all quaternions, all rotation matrices", "tests check a few rotations, away from +/-90 degrees pitch",
  ["Geometry.h"], [("eulerAnglesZYXToQuaternion, eulerAnglesZYXToRotationMatrix, quaternionToRotationMatrix, quaternionToEulerAnglesZYX, rotationMatrixToEulerAnglesZYX, RotationMatrixToQuaternion", "Geometry.h")], tech=AI, note=PN)
p("C06", "1-D linear interpolation is exact and follows its out-of-range policy",
  "For any strictly increasing abscissae and any ordinates (real or complex), the interpolant passes through every point and is the chord between consecutive points; evaluation on a vector evaluates each entry, and every way of obtaining and calling an interpolator agrees. Outside the abscissae the strict method terminates with a failure status without returning a value, the saturating method returns the end ordinate, and the extrapolating method continues the end chord, on both sides; the announced range is the first and last abscissa.",
  ["inputs"], "all abscissae spacings, ordinates and query points, at the nodes, between them and outside", "tests evaluate a fixed table at a few points and never above the last abscissa in extrapolation",
  ["Interp1d.h", "Interp.h"], [("Interp1dLinear*, PrivEval, Initialize, MakeInterp1d", "Interp1d.h")], tech=AI, note=PN + SZ)
p("C07", "2-D interpolation reproduces the bilinear interpolant of its grid",
  "For any strictly increasing x and y abscissae, of equal or different numbers, and any data given row by row along x, the interpolant passes through every node and is the bilinear function of each cell, continuously across cells. Evaluation of a list of points evaluates each of them, every calling form agrees, and a point outside the grid is rejected rather than evaluated.",
  ["inputs"], "all grid shapes, spacings, data and query points", "tests use one square grid and a few points",
  ["Interp2d.h"], [("Interp2dLinear Initialize/Eval, MakeInterp2d", "Interp2d.h")], tech=AI, note=PN + SZ)
p("C08", "Lookup tables keep every named series independent and registration atomic",
  "A lookup table evaluates each name on exactly the data registered under that name with the table's method, whatever other series were added before or after, and evaluating all series at once gives each name its own value. Registering a name twice is refused and leaves the first series untouched; a registration that fails leaves the table as if it had not been attempted, and an unknown name is an error; the announced numbers of series and samples, coordinates and bounds are those registered.",
  ["histories", "inputs"], "all sequences of registrations (successful, duplicated, failing), all data and query points", "tests register one or two series in a single order and never a failing one",
  ["LookupTable1D.h", "LookupTable2D.h"], [("AddY, Eval, GetIndex", "LookupTable1D.h"), ("AddData, Eval, HasSerie", "LookupTable2D.h")], tech=AI, note=PN + " Registration histories are enumerated up to three series, interleaved with refused and failing ones.")
p("C09", "N-D grid interpolation reproduces node data, is multilinear and checks bounds",
  "For any strictly increasing axes and data of the grid's shape, the regular-grid interpolator returns the node value at every node and the multilinear blend of the surrounding nodes inside each cell; outside the grid it clamps to the nearest face, unless bound checking is requested, in which case exactly the points outside are rejected by an exception. Indexed access returns the stored datum, coordinates and bounds are those supplied, and unordered axes, too many or too few axes, or data of another shape are rejected and leave the grid as it was.",
  ["inputs"], "all axes, data, query points and dimensions", "tests use one grid per dimension and a few points",
  ["RegularGridInterpolator.h", "thirdparty/linterp.h"], [("Interp, AddCoord, AddVar, EvalAtIndice", "RegularGridInterpolator.h"), ("InterpMultilinear", "thirdparty/linterp.h")], tech=AI, note=PN + SZ + " Dimensions 1 to 3.")
p("C10", "Nearest-node queries return the closest node and the enclosing cell",
  "For every point, the nearest-node query returns on each axis a node at minimal distance, with its index, coordinate and stored datum mutually consistent, and the data query returns that same datum. The surrounding-node query returns the corners of the cell that contains the point in a fixed order, collapsing to the boundary nodes when the point lies outside the grid on either side; axes and data are validated like those of the interpolator, and rejected ones leave the grid as it was.",
  ["inputs"], "all axes, data, query points and dimensions, including points below and above the grid", "tests query one grid at a few points",
  ["RegularGridNearest.h"], [("Nearest, GetData, GetSurroundingGridNodes, GetNode", "RegularGridNearest.h")], tech=AI, note=PN + SZ + " Dimensions 1 to 3.")
p("C11", "Polynomial and power-series evaluations equal their sums, derivatives included",
  "Evaluating a polynomial or its derivative gives the value of the defining sum for every coefficient vector and argument. One-, two- and three-variable power series return the sum of coefficients times powers of the coordinates mapped to [-1,1] from a bounded or half-open domain, with their partial derivatives being the exact derivatives of that function with respect to the physical coordinates; combined evaluations, evaluations with the last coordinate fixed beforehand and the limit at infinity agree with the separate ones.",
  ["inputs"], "all coefficients, orders, domains and points", "tests compare a few evaluations for one function per domain kind",
  ["Polynomial.h", "PowerSeries1d.h", "PowerSeries2d.h", "PowerSeries3d.h"], [("Horner, Horner_derivative", "Polynomial.h"), ("Evaluate*", "PowerSeries1d.h"), ("Evaluate*", "PowerSeries2d.h"), ("Evaluate*, Compute_cij", "PowerSeries3d.h")], tech=AI, note=PN + " Orders are enumerated independently per variable up to small bounds, plus those next to integer constants of the code.")
p("C12", "Chebyshev series interpolate their function and differentiate exactly",
  "After its coefficients are computed, a Chebyshev series in one, two or three variables, on bounded, half-open or mixed domains, takes the value of the approximated function at every Chebyshev node of its order, for every function; its evaluation is the Chebyshev sum of those coefficients and its partial derivatives are the exact derivatives of that sum with respect to the physical coordinates.",
  ["inputs"], "all functions (as arbitrary node values), domains, orders and points", "tests approximate a few fixed functions and compare with tolerance",
  ["ChebyshevSeries1d.h", "ChebyshevSeries2d.h", "ChebyshevSeries3d.h", "BoostFunctions.h"], [("Compute_ai, Evaluate, Evaluate_derivative_x", "ChebyshevSeries1d.h"), ("Compute_aij", "ChebyshevSeries2d.h"), ("Compute_aijk", "ChebyshevSeries3d.h")], tech=AI, note=PN + " Orders are enumerated.")
p("C13", "Chebyshev to power-series conversion preserves the function",
  "The power-series coefficients derived from a Chebyshev series represent exactly the same polynomial of the unit coordinates, in one, two and three variables and for every order up to the supported maximum, so that a power series built from them evaluates to the Chebyshev sum. An order above the maximum is refused with a failure status.",
  ["inputs"], "all coefficients, all orders up to the maximum", "tests convert one order for one function",
  ["ChebyshevSeries1d.h", "ChebyshevSeries2d.h", "ChebyshevSeries3d.h"], [("Compute_bi, TransformationCoefficient", "ChebyshevSeries1d.h"), ("Compute_bij", "ChebyshevSeries2d.h"), ("Compute_bijk", "ChebyshevSeries3d.h")], tech=AI, note=PN + " All orders 0..18 in one variable; in two and three variables mixed orders including the maximum per axis.")
p("C14", "Triangle quadrature integrates polynomials exactly up to its order",
  "For every order offered, integrating any polynomial of total degree up to that order over any triangle in space gives its exact integral (to the accuracy of the tabulated constants), independently of the order in which the vertices are given, for scalar and vector-valued integrands. The result is the area times the weighted mean of the integrand at the tabulated barycentric points, and an order outside the supported range is refused with a failure status.",
  ["inputs", "configurations"], "all triangles, all polynomials up to the order, all orders", "tests integrate a few functions on one triangle",
  ["Integration2dTriangle.h", "Integration2d.h", "QuadratureTables.h"], [("constructor tables, Compute, ComputeOverStandardTriangle", "Integration2dTriangle.h"), ("QuadratureTables", "QuadratureTables.h")], tech=AI, note=PN + " Moments compared to 1e-10 (the tables carry 14 digits).")
p("C15", "1-D integration is the trapezoidal rule of the current parameters",
  "Integrating samples on a uniform or arbitrary abscissa, or a function on a number of points, returns the trapezoidal sum over exactly the given samples, for every number of points of two or more. The integrator object always answers for its current bounds and method, however they were changed since the last answer, and refuses inconsistent or too few samples and unimplemented methods instead of returning a value.",
  ["inputs", "histories"], "all samples, bounds and sequences of changes and queries", "tests integrate one function once",
  ["Integration1d.h"], [("Trapz", "Integration1d.h"), ("Integrate1d Get/Set*/ComputeTrapz", "Integration1d.h")], tech=AI, note=PN + SZ)
p("C16", "Vector types do exactly the component operations their names say",
  "Construction, assignment, element access, resetting, setting, norms, products, sorting, reversal, outer product, diagonal matrix and comparison of the 2-, 3-, 6- and N-component vectors give the defined value of each component for every input: infinity norm is the largest magnitude and the projected angles are those of the components named. Element accessors are in correspondence with the positional components and never mix them.",
  ["inputs"], "all component values, all sizes of dynamic vectors", "tests print most of these values without checking them",
  ["Vector2d.h", "Vector3d.h", "Vector6d.h", "VectorN.h"], [("Vector2d", "Vector2d.h"), ("Vector3d", "Vector3d.h"), ("Vector6d", "Vector6d.h"), ("VectorN", "VectorN.h")], tech=AI, note=PN + SZ)
p("C17", "Matrix types: accessors, transforms and predicates are exact",
  "Row, column, diagonal and element access, transposition, symmetrisation from either triangle, identity and null filling, products with the matching vectors and dimension queries of the 3x3, 6x6 and general matrices act on exactly the elements they name, in place or by copy. Symmetry, identity, squareness, orthogonality and equality are reported exactly when they hold to the stated tolerance, and inversion gives the inverse of every invertible matrix.",
  ["inputs"], "all element values and shapes", "tests print results without checking them, and only for one or two shapes",
  ["Matrix.h", "Matrix33.h", "Matrix66.h"], [("MatrixMN", "Matrix.h"), ("Matrix33", "Matrix33.h"), ("Matrix66", "Matrix66.h")], tech=AI, note=PN + SZ)
p("C18", "Evaluation never modifies shared state, so concurrent evaluation is race-free",
  "Evaluating an interpolator, lookup table, grid, series, quadrature, polynomial, spline or geometric or unit helper through a const object modifies neither the object, nor the data it was built from, nor any global or static state of the library. Any number of threads may therefore evaluate the same initialised object concurrently.",
  ["schedules"], "all interleavings of evaluations on shared objects", "tests are single-threaded; a hidden cache or static buffer would pass them",
  ["Interp1d.h", "Interp2d.h", "LookupTable1D.h", "LookupTable2D.h", "RegularGridInterpolator.h", "thirdparty/linterp.h", "RegularGridNearest.h", "PowerSeries1d.h", "PowerSeries2d.h", "PowerSeries3d.h", "ChebyshevSeries1d.h", "ChebyshevSeries2d.h", "ChebyshevSeries3d.h", "Integration2dTriangle.h", "Polynomial.h", "Geometry.h", "Spline.h"], [("const evaluation methods", "Interp1d.h"), ("const evaluation methods", "RegularGridInterpolator.h")],
  tech="static analysis: interprocedural effect analysis on the LLVM IR (every store reachable from a const evaluation is traced to its target object) and abstract interpretation with frozen regions", note="Sound for the analysed instantiations; stream output, allocation and Boost/Eigen read-only tables are trusted.")
p("C19", "Every public header stands alone and can be shared by translation units",
  "Each public header compiles when it is the only one included, in any order relative to the others, twice, and from several translation units of one program without duplicate definitions. Every function and template of its interface can be used after including that header alone.",
  ["programs", "configurations"], "all inclusion orders and numbers of translation units", "tests each include one umbrella header in one translation unit",
  ["MathUtils.h", "MathUtilsBoost.h", "version.h.in"], [("include structure, inline linkage", "MathUtils.h"), ("version functions", "version.h.in")],
  tech="static analysis: type checking of generated witness programs (one per header and inclusion order) and linkage of every external definition in the syntax tree", note="Compile-time witnesses; no program is run. Trusts clang.")
p("C20", "The whole public interface can be instantiated and linked",
  "Every public class, member function and function template can be used with its documented scalar types: it compiles, every member is defined, default arguments are usable and value-returning functions return a value on every path.",
  ["programs"], "all client programs using any part of the interface", "templates are only checked where a test instantiates them; several members are never instantiated",
  ["MathUtils.h", "MathUtilsBoost.h"], [("all templates", "MathUtils.h")],
  tech="static analysis: explicit instantiation witnesses over the class templates found in the syntax tree, undefined-symbol query on the IR and return-path lint", note="Compile-time witnesses; no program is run. Trusts clang.")
p("C21", "Failures never look like success",
  "When an operation detects an invalid argument or state, it aborts, throws, or terminates the process with a failure status; no error path of the library terminates the process with the success status or silently continues. Termination happens only on such error paths.",
  ["inputs", "programs"], "all error paths of all functions", "error paths end the process, so no test takes them",
  ["Interp1d.h", "BoostFunctions.h", "Integration2dTriangle.h", "ChebyshevSeries1d.h", "ChebyshevSeries2d.h", "ChebyshevSeries3d.h", "Angles.h", "RegularGridInterpolator.h", "RegularGridNearest.h"], [("exit calls", "BoostFunctions.h"), ("error paths", "Interp1d.h")],
  tech="static analysis: call-site query for process termination over the IR of all instantiated library functions with constant propagation of the status, plus abstract interpretation of the guards", note="Covers every call site in the instantiated library; conditions of the error paths are decided in real arithmetic.")
p("C22", "No leak, dangling access or wrong destruction, including on error paths",
  "Every object the library allocates is released exactly once by its owner, including when an operation fails by exception; objects owned through a base class are destroyed as what they are. No operation on correctly initialised objects reads or writes outside an object, after its release, or reads indeterminate values.",
  ["histories", "inputs", "fault_sequences"], "all construction, copy, failure and destruction sequences; all in-domain inputs", "tests do not run under a leak or bounds checker and do not exercise failing operations",
  ["Interp1d.h", "Interp2d.h", "LookupTable1D.h", "LookupTable2D.h", "RegularGridInterpolator.h", "thirdparty/linterp.h", "Integration2d.h", "Integration1d.h"], [("unique_ptr of base class", "LookupTable1D.h"), ("factories", "Interp2d.h"), ("interpolator referencing data", "RegularGridInterpolator.h")],
  tech="static analysis: region-based memory abstract interpretation (bounds, lifetime, initialisation, leaks) over life-cycle entry points, plus a deletion/virtual-destructor query", note="Life-cycle scenarios are enumerated; values inside them are arbitrary.")
p("C23", "Copies and moves yield equal and independent objects",
  "A copied interpolator, grid, series, vector or matrix evaluates exactly like its source and stays so when the source is changed or destroyed; a moved-into table evaluates, and accepts further series with the same method, exactly as the source did. Assigning an object to itself changes nothing.",
  ["histories"], "all copy, move, modification and destruction sequences", "tests copy at most once and do not destroy or modify the source",
  ["LookupTable1D.h", "RegularGridInterpolator.h", "RegularGridNearest.h", "Interp1d.h", "Interp2d.h", "PowerSeries3d.h"], [("move operations", "LookupTable1D.h"), ("copy operations", "RegularGridInterpolator.h"), ("copy operations", "RegularGridNearest.h")], tech=AI, note=PN + " Sequences of operations are enumerated.")
p("C24", "Reusing an object gives what a fresh one would",
  "Initialising, filling, computing or configuring an object again gives exactly the results of a fresh object given the final data: no result depends on earlier data, earlier evaluations, or the number of times a computation was repeated. Evaluations do not influence later evaluations.",
  ["histories"], "all sequences of re-initialisation, re-computation, re-configuration and evaluation", "tests initialise each object once",
  ["Interp1d.h", "Interp2d.h", "ChebyshevSeries1d.h", "ChebyshevSeries2d.h", "ChebyshevSeries3d.h", "Integration1d.h", "RegularGridInterpolator.h", "RegularGridNearest.h", "LookupTable1D.h"], [("Initialize", "Interp1d.h"), ("Compute_ai", "ChebyshevSeries1d.h"), ("Get", "Integration1d.h")], tech=AI, note=PN + " Sequences of operations are enumerated.")
p("C25", "Element-wise vector and complex operations act on every element",
  "Addition, subtraction, product, quotient, scalar shift, scaling, power and negation of sequences give, for every element, the scalar operation on the corresponding elements, leave read-only operands unchanged, and refuse operands of different lengths; the sum is the sum of all elements. Real part, imaginary part, modulus and phase of a complex sequence are those of each element, the phase in the requested unit.",
  ["inputs"], "all element values and lengths", "only a few of these functions are called by tests, with fixed data",
  ["StdVector.h", "Complex.h"], [("Add, Minus, Mult, Divide, Scale, Pow, Negate, Sum", "StdVector.h"), ("Real, Imag, Amplitude, Phase", "Complex.h")], tech=AI, note=PN + SZ)
p("C26", "Generated abscissae have the requested count, bounds and spacing",
  "A linear range has exactly the requested number of values, starts and ends exactly at the requested bounds and is equally spaced; a logarithmic range is the base raised to the linear range of exponents, for any base; a stepped range starts at the start, advances by exactly the step and contains exactly the values below the stop. Fewer than two points, reversed bounds or a non-positive step are refused.",
  ["inputs"], "all bounds, counts, bases and steps", "tests use the linear range only as input data",
  ["VectorGeneration.h"], [("linspace, logspace, arange", "VectorGeneration.h")], tech=AI, note=PN + SZ + " The count of a stepped range is decided up to rounding of the division.")
p("C27", "Signal shapes and scalar helpers follow their definition on the whole line",
  "Cardinal sine, step, door, impulse and ramp sequences, and the sign, saturation and signed square-root helpers, return for every argument the value of their mathematical definition, including at the breakpoints: one at zero for the cardinal sine, one half at a step, the end values at and beyond the ends of a ramp, zero sign at zero, and the bounds themselves beyond them. Each output element depends only on the matching input element and the parameters (for the impulse, also on the sampling step).",
  ["inputs"], "all arguments and parameters, including breakpoints; all lengths", "none of these functions has a test of its values",
  ["Functions.h", "Maths.h"], [("Sinc, Heaviside, Door, Dirac, Ramp", "Functions.h"), ("sgn, Saturate, SgnSqrt", "Maths.h")], tech=AI, note=PN + SZ)
p("C28", "Special functions satisfy their derivative identities and cover their domain",
  "Derivatives of Bessel, Hankel, modified Bessel and Struve functions are the recurrence identities of the functions the library itself returns, for every order and argument, and each wrapper returns the function its name says. Piecewise approximations (Struve, exponential integrals) apply to each argument exactly the published formula of its interval with consistent pieces at the joints, refuse arguments outside the domain with a failure status, and the scaled exponential integral equals the unscaled one times the exponential.",
  ["inputs"], "all orders and arguments", "tests evaluate a few orders and points",
  ["BoostFunctions.h"], [("Cyl_*_derivative", "BoostFunctions.h"), ("Struve_*, Ei_approximation, E1_approximation, expEi", "BoostFunctions.h")], tech=AI, note=PN + " The Boost functions are uninterpreted; the published coefficients are the oracle.")
p("C29", "Frequency axes and convolutions match their definition",
  "The frequency axis of a transform has one entry per bin (all bins, or the first half plus one when half-spectrum is on), entry k being k times the sampling frequency over the transform length, expressed in the requested unit; the half-spectrum and scaling switches select exactly those modes and are independent. The time-domain convolution is the trapezoidal integral of kernel times signal in the requested direction over exactly the kernel length, the discrete convolution is the full product sum, and powers of two are exact.",
  ["inputs", "configurations"], "all lengths, sampling frequencies, units, switch histories and data", "tests run one transform and one convolution",
  ["FFT.h", "Convolution.h"], [("GetFrequencyVector, HalfSpectrumON/OFF, ScalingON/OFF, ConvolveNaive, Pow2", "FFT.h"), ("NaiveConvolution", "Convolution.h")], tech=AI, note=PN + SZ)
p("C30", "Closeness and parity tests answer exactly their definition",
  "Two numbers are reported close exactly when their distance is at most the absolute tolerance plus the relative tolerance times the magnitude of the second, a sequence exactly when all its elements are, and the asserting forms abort exactly when the testing forms answer false; not-a-number is never close and sequences of different lengths are refused. Odd and even are exact for every integer, negative ones included.",
  ["inputs"], "all values, tolerances and lengths", "tests use these helpers only on close values",
  ["Check.h"], [("IsClose, AssertIsClose, is_odd, is_even", "Check.h")], tech=AI, note=PN + SZ)
p("C31", "Inverse FFT restores the transformed signal",
  "Transforming a signal and transforming back with the same switches restores every sample for every length (every even length in half-spectrum mode) when scaling is on, and gives the samples times the length when it is off, whatever the history of the switches and of earlier transforms with the same object.",
  ["inputs", "histories", "configurations"], "all signals, lengths, switch histories and earlier transforms", "tests transform one signal with one setting", ["FFT.h"], [("fft, ifft, HalfSpectrumON/OFF, ScalingON/OFF", "FFT.h")],
  tech=AI, note=PN + " Lengths are enumerated: 1 to 12 and some larger ones, up to 32 in the thorough tier, plus every length next to an integer constant of the analysed code; Eigen's transform is analysed too, not assumed.")
p("C32", "Linear solvers and decompositions reconstruct their matrix",
  "For every matrix the factorisation kernels can factor, QR (thin and full), LU, Cholesky and SVD return factors whose product is the matrix (Q R; P A = L U; L L^T; U S V^T) in the announced shapes, inversion by such factors gives the inverse, and the LU, QR and least-squares solvers return the solution for the given right-hand sides; constrained least squares meets its constraints and leaves a residual orthogonal to the feasible directions. The pseudo-inverse inverts exactly the singular values above the tolerance and drops the others, the eigenvalues are those of the matrix, positive semi-definiteness is reported exactly when every eigenvalue has a real part above minus the tolerance, a Cholesky update is that of the given vector and factor, and Cholesky refuses matrices that are not square, not symmetric or not positive.",
  ["inputs"], "all matrices (given the factors their kernels find), all right-hand sides and tolerances, several shapes", "tests use one matrix per operation", ["Matrix.h", "Matrix33.h", "Matrix66.h"], [("solvers and decompositions", "Matrix.h")],
  tech="static analysis: abstract interpretation of the LLVM IR of the instantiated headers with Eigen's factorisation kernels replaced by their contract (arbitrary symbolic factors)", note="Decides what the library does with its matrix and with the factors, for all values and enumerated shapes up to 6x6; assumes that Eigen's kernels (iterative, pivoting) deliver factors of the matrix they are given, so convergence and rounding accuracy are not decided. Real arithmetic.")
p("C33", "Splines interpolate their points, reproduce polynomials and are smooth",
  "A spline through any number of points (two or more, increasing abscissae) takes the given ordinate at every given abscissa; it reproduces exactly, over the whole range, every polynomial of at most its degree (the requested degree, or one less than the number of points when there are fewer), and its derivatives up to one below its degree are continuous. Both constructors and copies agree, and the spline does not depend on the caller's data after construction.",
  ["inputs", "histories"], "all ordinates and query points, several spacings and numbers of points, degrees 1 to 4", "tests fit one step function with one degree and compare seven values", ["Spline.h"], [("Spline", "Spline.h")],
  tech=AI, note="Proved for all ordinates and queries; abscissae are enumerated from five families of spacings with 2 to 8 (thorough 12) points, so this is bounded in the abscissae. Real arithmetic (1e-7); Eigen's fit is analysed too.")
p("C34", "Special functions are accurate",
  "Bessel, Legendre, gamma, Struve and exponential-integral values are within their announced relative error of the mathematical functions.",
  ["inputs"], "all arguments in the domain", "tests compare a few values", ["BoostFunctions.h"], [("all", "BoostFunctions.h")],
  na="A bound on the approximation error of rational and series approximations against transcendental functions needs real analysis or certified numerics, not a static analysis of the source; the formulae and coefficients themselves are decided under C28.")

with open(V + "/properties.jsonl", "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps({"id": x["id"], "title": x["title"], "statement": x["statement"], "quantifier": {"over": x["over"], "text": x["text"]},
                            "why_tests_cant": x["why"], "anchors": {"files": x["files"], "mechanism": [{"name": a, "where": "src/MathUtils/" + b} for a, b in x["mech"]]}}) + "\n")
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
for x in P:
    if x["na"]:
        m["not_applicable"].append({"property": x["id"], "reason": x["na"]})
    elif os.path.exists(V + "/checks/%s.py" % x["id"]):
        m["checks"].append({"property": x["id"], "quick_cmd": "bash check.sh " + x["id"], "thorough_cmd": "VERIF_TIER=thorough bash check.sh " + x["id"],
                            "technique": x["tech"], "level": x["level"], "level_note": x["note"]})
    else:
        m["not_applicable"].append({"property": x["id"], "reason": "check under construction"})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
