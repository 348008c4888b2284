"""Text of DESIGN.md."""

HEAD = """
# Solver-based checking of harmonica

`python check.py PXX` decides one property (`--tier thorough` for the deeper one, `-v` for every obligation, `--only NAME` for some, `--replay FILE` for a
violation). This file is written by `tools/design.py` from `tools/notes.py`, `tools/table.py` (properties) and the obligations themselves.

## How a property is decided

A property is a set of *obligations* (`symx/props/pXX.py`). Each is a harness that makes symbolic inputs, calls the public functions of harmonica (now and then
an internal one) and asserts things of the result. The functions of `/repo/src/harmonica` are imported from the working tree in every run and executed
with symbolic values:

- `symx/core.py`: a symbolic number is a rational function with exact rational coefficients over *atoms* (inputs, square roots, sines and cosines of angles,
  exponentials, logarithms, arctangents, applications of uninterpreted functions), with the algebraic facts of each atom (r^2 = radicand, s^2 + c^2 = 1,
  sums and multiples of angles, signs and ranges). Undefined operations (division by zero, root of a negative) are proof obligations of their own
  (`domain="check"`) or recorded assumptions (`domain="assume"`, counted in the evidence under `assumed`).
- `symx/snp.py`: numpy over object arrays of those numbers (dtype semantics kept: integer arrays truncate what is written to them, views alias, memory order is
  real because real numpy arrays carry the objects). `symx/target.py` puts it in place of `np`, `math`, `float`, `array`, `struct` of the modules of harmonica, turns the
  JIT off (the Python source that numba compiles is what runs) and can replace the closed forms of choclo and the elliptic integrals of scipy (other
  packages) with uninterpreted functions. xarray, verde, scikit-learn, bordado and xrft run for real on those arrays.
- `symx/engine.py`: every branch on a symbolic condition asks z3 which sides are possible under the conditions of the path; the harness is run again for the other
  one, until no path is left. An assertion is closed when its normal form is a constant, or else when `path and not assertion` is unsatisfiable (z3, then cvc5).
- A model of a failed assertion is turned into numbers (inputs only) and the same harness is run on the real code with real numpy: only
  when it fails there, and again in a process of its own, is it reported: `VIOLATION property=PXX replay=evidence/replays/...`. A model that does not
  reproduce, or a timeout, makes the obligation INCONCLUSIVE (printed, counted in the evidence, exit 0).
- As a test of the machinery, every obligation also solves for models of some of its paths and runs the real code on them (`path_models_run_on_real_code`): the
  assertion must hold there as well.

What decides is always the verdict of the solver (or the normal form) for every value within the bounds of the obligation, written next to it below and in the
evidence; what lies outside (larger arrays, more divisions of a tesseroid, rounding of floats) is not claimed. `symx/race.py` does the same for schedules: see P08.

Nothing is recorded between runs: the encoding is made again from the source each time, so a check sees whatever the code does, not how it is written. Obligations
go through public functions wherever possible; where an internal function has to be named (`H.internal`, `H.patched`) and is not there, the
obligation is inconclusive, or the stand-in is simply not installed, and no alarm is raised.

## Trusted base

- z3 4.x/cvc5 and `symx` itself (numpy semantics of `snp.py`; the path models run on the real code test it all the time).
- Numbers are exact reals. A float constant c of the source stands for the decimal that is written when it has up to 12 digits, and for its shortest fraction otherwise.
- numba compiles the Python source faithfully (the JIT is off while checking), but for the schedule of `prange`, which P08 decides.
- Packages other than harmonica: choclo (closed form of one point, dipole or prism; where a check needs no more than "a function of these arguments" it is
  uninterpreted; P01, P03 run choclo's own code symbolically), scipy (elliptic integrals, `minimize_scalar`), numpy.fft through xrft (the discrete transform is written out
  exactly as matrices of algebraic numbers), scikit-learn, verde, bordado, boule, pyvista.
- Inverses: `scipy.linalg`/`np.linalg` inverses and solutions are any X with M X = I (`H.inverses`), so nothing depends on their algorithm.
- Uninterpreted functions are replaced only by what another property decides (P20 uses P17-P19, P12 uses P02, P04-P15 use choclo).
"""

NOTES = {
 "P01": """How: choclo's kernels and harmonica's loops run symbolically, with the distance as an algebraic atom. Oracle: Newton's law, written out independently. Reach: tests
compare with stored values and symmetric points; a wrong sign in one component at a non-symmetric place, or a mix-up of masses in arrays that are not in C order, hides there.""",
 "P02": """Oracle: positions of point and source in geocentric Cartesian coordinates, Newton's law, and projection of the attraction on the local vertical. The identity is one of trigonometric polynomials: it
is decided through the algebra of sines and cosines (normal form) with the distance as a root.""",
 "P03": "Oracle: mu0 / 4 pi (3 (m.r) r / r^5 - m / r^3), term by term, and reciprocity, which no test states.",
 "P04": """The closed form of one prism is choclo's (uninterpreted), so what is decided is all of harmonica's part: which prism, density, point, sign, unit and which prisms take part. Every flag (parallel,
disable_checks, progressbar) is symbolic.""",
 "P05": "As P04, with the vector field (three uninterpreted components of one call) and each single component.",
 "P06": "Acceptance is compared with a formula over the twelve numbers (both directions: rejected iff bad). Warnings are compared with the set where choclo's formula is not defined.",
 "P07": """Every forward model of the package behind one interface (`symx/props/_models.py`) is called with coordinates in 15 combinations of shapes, dtypes and memory orders, and compared with calls for the single points.
Points of ellipsoids alternate between inside and outside.""",
 "P08": """Two arguments. *Footprints*: the body of every `prange` loop runs for two symbolic iterations i != j; every access to memory that exists out of the loop becomes a symbolic address (base of the array + index times
strides), and the solver shows that no write of i is at the address of a read or a write of j. Loops free of such pairs have one result for all schedules and numbers of threads (each element is
written by one iteration at most and read by no other). Variables assigned in the body are private as in numba. *Orders*: iterations run in permuted order with the same numbers required, which shows values carried over from one iteration to another.""",
 "P09": "Oracle: interval arithmetic modulo 360 on the longitudes given; a tesseroid and its normalised form are compared by membership of an arbitrary direction (a symbolic longitude).",
 "P10": "Oracle: membership of a point modulo 360, for symbolic points and tesseroids, both conventions and the seam.",
 "P11": """The distance from a piece to the point is an arbitrary number per piece (uninterpreted), so every tree of divisions up to the bound is explored; the pieces returned must tile the tesseroid
(membership of an arbitrary point in exactly one piece) and each must satisfy the ratio. The loop bound is stated (3 divisions on a path, any pieces); no name of a
helper but the geometry is relied on: the first division is read off the stack; the argument that each step keeps the union is local, so the bound is generous.""",
 "P12": "Oracle: tensor-product Gauss-Legendre nodes and weights on each piece, scaled by the spherical volume element, over the uninterpreted field of a point mass.",
 "P13": "scipy's minimiser may return any admissible point, so the checks do not rely on its success. Densities are quadratics with symbolic coefficients; the criterion of division is compared with the exact one.",
 "P14": "Layers are real xarray objects over symbolic arrays; sequences of updates (accepted and rejected) are symbolic histories.",
 "P15": "Oracle: the sum over the prisms of the boundaries that the layer must have, with the closed form uninterpreted; comparison with prism_gravity; threshold and missing values as symbolic choices.",
 "P16": "As P14 and P15 for tesseroids, with regions up to one turn.",
 "P17": """Spheroids and numbers: lambda is substituted in its defining equation. Triaxial: the point is *parametrised* by its three confocal coordinates. Lemma used (standard): every point with no zero coordinate
has exactly three real roots, separated by -a^2 < nu < -b^2 < mu < -c^2 < lambda, and its squared coordinates are rational functions of them; with roots m + 2 u cos(v + 2 k pi / 3) the arccos of the code
returns v, and the claim is that the code returns the largest one.""",
 "P18": """The integrals are known by their derivative in lambda and one relation: `derivative` differentiates the symbolic result exactly (arctan, log, elliptic functions by their rules) and `addition` fixes the constants; with
both vanishing at infinity these determine them. The reference functions are written from the theory, not from the code.""",
 "P19": "The outer tensor is compared with the exact derivative of the potential coefficients, lambda being differentiated through its defining equation. The inner one is compared with the integrals. Self-consistency is checked for the linear system with any factors.",
 "P20": """Rotation algebra with symbolic angles (scipy's Rotation is replaced with its documented matrices). calculate_lambda, the integrals and the demagnetization tensors are replaced with uninterpreted functions that have only the
symmetries that P17-P19 decide. Findings here: the coupled susceptibility (fixed).""",
 "P21": "A symbolic history of assignments (value and attribute are solver choices), compared with a model of the object.",
 "P22": "Angles are atoms with their sine and cosine; arctan2, arcsin and degrees are inverted exactly.",
 "P23": "Oracle: 2 pi G times the density contrast of the side of the sea level, with integers and missing values.",
 "P24": "Oracle: the balance of masses between column and reference column, solved by nobody: the depth returned is put into it.",
 "P25": "Responses are compared as functions of the wavenumbers with the differential operators they stand for (exponentials and complex numbers are exact).",
 "P26": """The discrete Fourier transforms of xrft/numpy are written out exactly (the twiddle factors of 3, 4, 5, 8 points are algebraic), so `filter then undo` is an identity of polynomials in the values of the grid. Findings here: misplaced values
for decreasing coordinates, pad of zero width (fixed).""",
 "P27": "Each public transformation against the filter named in its documentation applied by hand; derivatives by finite differences against quadratics (exact there).",
 "P28": """The gridder is fitted with symbolic data; the inverse is any matrix with M X = I, so that interpolation, the normal equations and weights are decided whatever solver is used. The Green's function is the inverse distance, exactly.""",
 "P29": "The loop over windows with the order of the seed; each window's solution is any numbers. Decided: every update of the residual, prediction and the union of windows, not the convergence.",
 "P30": "The data are made from the source (any place, base level, index) and must give it back exactly; for inexact data the normal equations are the oracle.",
 "P31": """One iteration against the Gauss-Newton step of the total least squares problem, written with Lagrange multipliers. The weight matrix in the literature can be read in two ways (square root or not); the check accepts
the one of the docstring.""",
 "P32": "Dates are symbolic (a stand-in for datetime with any second of each year); tables are symbolic files. Oracle: linear interpolation in decimal years.",
 "P33": "Oracle: closed forms of the functions made from Legendre polynomials by exact differentiation, up to degree 8, for an argument in [-1, 1].",
 "P34": """Oracle: the exact gradient of the potential, with closed forms of the Legendre functions. The ellipsoid (boule's part) gives any spherical latitude and radius, so the rotation to the local frame is decided for any
ellipsoid. Within 0.0006 degrees of a pole the cosine of the latitude is bounded away from zero by assumption; the poles themselves have their own obligation.""",
 "P35": """Real files: the check writes them with its own writer of the format, with placeholder numbers that the reading functions (numpy, struct, array, float) turn back into symbols, so the parsing code runs for real.""",
 "P36": "As P35, for text files.",
 "P37": "Oracle: distance of the Cartesian positions, with the prime vertical radius as an algebraic atom.",
 "P38": "pyvista is replaced with a recorder in the symbolic runs and used for real in the replays.",
}

FOOT = """
## Findings

Violations found on the original tree, each repaired in /repo in a commit of its own that starts with `fix:` (listed in KNOWN_FINDINGS as `fixed:`); no finding is left
unrepaired:

FINDINGS_LIST

Things seen that are not violations of a property as stated, left as they are:

- bordado's windows for the gradient-boosted sources: data on the far edge can fall out of the last window by rounding (P91 territory; P29 speaks of exact numbers).
- Euler inversion: the merit uses a weight that the text of the paper leaves open (square root or not); P31 follows the code's own documentation.
- xrft.pad with a zero width returns nothing for that direction; worked around in the fix of P26.
- IGRF: the east component at the very poles is set to zero on purpose.
- ICGEM: `gapvalue` of the header is not turned into missing values (never promised), and lines shuffled within the file are not noticed (the format fixes the order).
- Oasis montaj: 8-byte elements accept any sign flag but 3.

## False alarms met while building

Corrected in the machinery or the statement, never listed as findings: the statement of P34 first asked for an east component at the poles, where east is not defined; that of P36 first asked for files with
lines in any order, which the format does not allow.
"""

BUGS = {}
