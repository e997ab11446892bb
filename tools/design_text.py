HEAD = r'''
# Design: model checking pyElli

*(DESIGN.md is assembled by `tools/design.py` from `tools/design_text.py` and from the rules, bounds and assumptions written in the check
modules themselves, so that it cannot drift away from them.)*

## 1. Approach

pyElli is a numerical library: dispersion laws -> material tensors -> layers and structures -> Jones matrices -> ellipsometric
quantities, plus importers, a database, fitting sessions and plots around that chain. What a user relies on are laws that hold for
*every* stack, material, wavelength array, edit history or file. The tests compare a few dozen stored numbers.

All 27 properties are decided by **direct, stateless exploration of the real code**: a check module enumerates a bounded space
(`cases(tier)`), executes the unmodified library in every state, and judges every execution against an independent reference model or
against another execution that must agree. There is no separate model that could drift: each enumerated behaviour *is* an execution of
the implementation, and where a reference model exists (a stack of snapshots, a flattening of layer trees, a Maxwell solver, an
interpreter of formula trees), each model trace is replayed on the implementation, step by step. Nothing is sampled: no random numbers
are used anywhere, `VERIF_SEED` is recorded and has no effect, and the same tree gives the same enumeration, counts and verdict.

Three kinds of spaces occur:

* **histories** (C06, C09, C10, C11, C13, C17, C18, C19, C22, C23, C24, C27): all words over an alphabet of public operations up to a
  depth, executed on live objects. The object lives through the complete word and is *read* between the steps, because caches and
  aliases are only visible to histories that read; the state it reached must be the one of a freshly built object (C06, C17, C19, C27) or of the reference model (C09,
  C10, C11, C13, C23, C24).
* **schedules** (C07): a controlled scheduler (`mc/sched.py`) runs two real threads with one token; scheduling points are the executed
  lines (or calls) of the library, and every schedule up to a preemption bound is executed.
* **programs and inputs** (the others): all words of layers, all layer trees, all expression trees, all small data sets/files, all
  combinations of parameter alphabets, with one dimension at a time extended far (thickness sweeps, hundreds of layers, 1000
  wavelengths) because faults can hide behind size thresholds.

**Why the alphabets find what tests do not.** Each alphabet contains the structurally different elements of the domain (zero, boundary,
its neighbours, negative, complex, metallic, repeated, shared object, unsorted, single, many) rather than typical values; products of
them produce the combinations (two cooperating sites) that a test author has no reason to write down. Continuous quantities are covered
at the alphabet values only; this is the honest limit of the technique here, stated once for all: *for every value of the alphabet, not
for every real number*. The dense sweeps narrow it.

**Levels.** `model_checking` is claimed where the space has states and transitions and each trace is executed on the implementation.
`exploration` is claimed where the enumerated objects are inputs without history (C08, C12, C14-C16, C18, C20-C22, C25, C26): still exhaustive
over the stated space, with evaluations and distinct non-trivial states counted, but a transition count would be artificial.

**Tolerances.** Floating-point comparisons use bounds derived from the conditioning of the quantity (1e-8 on amplitudes, weighted where
rho is a quotient of small numbers), several orders above what the unchanged tree and equivalent rewritings show and several orders
below what a semantic change causes. Refactorings that reorder operations do not trigger them. Checks never look at source text,
private names, attribute layouts or error classes unless these are documented behaviour.

## 2. Machinery

* `run.sh ID [--tier quick|thorough] [--replay FILE]` runs a check against `/repo/src` as it is (Python, nothing to build), writes
  `evidence/ID.json`, prints `VIOLATION property=ID replay=...` lines with a minimal case (the enumeration is ordered simplest first) and exits 1; each replay file
  re-executes just that case.
* `mc/core.py` is the explorer: forks 8 workers over the case list, collects states (hashes of canonical states), transitions, traces
  and verdicts; a per-case timeout and an overall deadline turn a hanging or killed execution into a reported violation instead of silence; an exception of
  the library where an answer was due is a violation, and so is a library that cannot build the explored space.
* `mc/ref.py` are the independent references: admittance recursion for isotropic multilayers (complex arithmetic, no matrices),
  eigenmode/impedance recursion for anisotropic stacks (own 4x4 field equations, modes sorted by Poynting flux), rotations, unit tables.
* `mc/lab.py` builds materials and evaluates with each solver, `mc/disp.py` holds the reference dispersion formulas coded from the
  documentation, `mc/sched.py` the scheduler.
* `ELLI_REPO=/some/copy ./run.sh ID` runs a check against a scratch copy (used for planting bugs only; registered commands use `/repo`).
* No hooks were needed in `/repo`: the scheduler uses `sys.settrace`, sessions are driven through their widgets' own API.
'''

PROP = {}
COST = {
    
}

PROP["C01"] = """
A breadth-first unfolding of stacks: each state is a stack, each transition appends a layer. In every state the 2x2 solver and the 4x4 solver with
every exact propagator (default, SciPy, eigenvalue, torch if it is installed) is executed at all angles and wavelengths, and compared with the
admittance recursion of `mc/ref.py`, which shares no code and no matrix formalism with the library. Judged are both Jones matrices, the power
matrices, R, T, rho, psi and delta (weighted by the amplitude they are quotients of). Sweeps extend one dimension: each degree up to 89.9,
both sides of the critical angle in decades from 0.1 to 1e-10 degrees, thickness 1e-6 to 1e5 nm, index and absorption grids, up to 200
(1000) layers, wavelength arrays of up to 801 entries in both orders, dispersive media on all positions. Tests compare stored numbers of
single stacks, and mostly one solver.
"""
PROP["C02"] = """
Invariants instead of values: in every state of the stack space the power balance (lossless), the power bounds (absorbing), transmission
reciprocity of the reversed stack, and total reflection are evaluated from the returned matrices alone. They need no reference
implementation, hence cover anisotropic and absorbing cases where a reference would share assumptions. A wrong power factor, branch of a square root
or transposed matrix violates one of the laws in almost every state.
Exit media include mixtures (porous, cermet) and crystals with equal axes, which are isotropic by their tensors although not by class.
"""
PROP["C03"] = """
Same unfolding with anisotropic letters: principal-index triples x orientations x thicknesses, anisotropic and absorbing substrates.
The reference solves the field equations per mode and matches boundaries by impedances; modes of the half spaces are sorted by energy
flux (propagating) or decay (evanescent). Symmetries (azimuth rotation of sample and relabelling of equal axes, equal representations of the same
material as isotropic/uniaxial/biaxial object) are checked on the real code in every state of depth one, as is the second-order error bound of the linear propagator.
This check found the defect repaired in 1e0e0e7 (propagating modes of a totally reflecting crystal were sorted by rounding noise).
A family of equal half spaces described as isotropic, uniaxial, biaxial, rotated or mixture material must give equal results on both sides of the exit (this
found mixtures treated as anisotropic exits), and magneto-optic (non-symmetric) tensors are judged by the same reference.
"""
PROP["C04"] = """
Layer trees (plain, twisted, graded, repeated with partial periods, nested) are generated as terms; the oracle flattens the term to a list of (thickness, tensor)
independently, and compares it slice by slice with the library's permittivity profile, then compares the evaluated response with that of
the flattened stack built from plain layers with the tabulated tensors. Every tree is built twice, once with all-new objects and once with every
equal layer and material being one shared object that is read twice. Algebraic laws (splitting, zero thickness, a layer of the
exit medium) are separate cases. Repetition counts up to 100 (257), divisions up to 100 (300).
Letters include neighbours that differ by 1e-9 to 1e-3, thicknesses down to 1e-6 nm and magneto-optic materials, so that merging or skipping 'equal' layers shows.
"""
PROP["C05"] = """
Every word of wavelengths (with repetition, any order) is evaluated in one call and entry by entry; all result quantities, permittivity
profiles and dispersion tables have to be equal. Boundary array lengths (1..20, around powers of two, up to 1000) are included because vectorised
code switches algorithms with size; containers and number types are an alphabet of their own. The oracle is the same code on one wavelength, whose
values C01/C03/C12 decide.
Words of nearly equal wavelengths (down to 1e-9 relative) and long arrays (up to 10001) against their parts expose value-based and size-based shortcuts.
"""
PROP["C06"] = """
One object graph with experiment, structure, layers, materials and dispersions; transitions are all public setters (thickness, material,
dispersion parameters, rotation, angle, wavelengths, vector, layer lists, mixture fractions, ...) and reads. Every word up to the depth is replayed on one live graph, evaluated after *every*
step (so that caches get filled), and compared with a graph built freshly in the reached state. Earlier results, the arrays handed in, and
numpy's error state are compared with snapshots after every step; copies (copy, deepcopy, pickle) are part of the alphabet.
The alphabet contains changes of 1e-7 to 1e-5 of every quantity, judged at 1e-10: a cache which compares with a tolerance answers with the old value.
"""
PROP["C07"] = """
Stateless exploration of schedules of two real threads with the controlled scheduler: each pair of bodies is executed once per schedule, for every
position of the first (second, third) preemption. The outcome of both threads, the numpy error settings and the shared objects must
equal those of the sequential run. Bodies share structures, materials, formulas, results (read) or use separate objects of the same classes, so that
class-level and module-level scratch space is exposed. Bounds are the preemption count and line (call) granularity; C extensions are
atomic. CPython switches threads between bytecodes, so a line with two dependent accesses to the same shared datum has finer interleavings that are not explored.
"""
PROP["C08"] = """
Results are constructed for every pair of Jones matrices of a complex grid (zero, real, imaginary, generic entries) in several batch sizes, for all
incident polarizations of the alphabet; each accessor (about 200 names, incl. Greek, per-component, circular, get()) is compared with its definition
written in numpy from the documented conventions: rho = tan(psi) exp(-i delta), Mueller = A (J x J*) A^-1 / norm, circular basis, powers.
The Mueller matrix is additionally judged against an exact Pauli-trace reference, also for matrices with elements of 1e-8.
"""
PROP["C09"] = """
Values: each angle of a grid over seven turns incl. the range bounds and their float neighbours x all 361 full-turn ranges and (0, 180) x
containers, against the mathematical residue. Histories: every sequence of range requests (admissible and not), copies and reads on two results and a
list that shares them; the reference is a table of the range requested last per object.
"""
PROP["C10"] = """
Every history of list operations is executed on one live `ResultList`, which is read after every step, next to a plain Python list. In each
distinct state all quantities and names and those of the mean are compared with the members' own. Lists in which the same object occurs several times,
all permutations, 100+ members and several wavelength counts are separate cases.
Lists contain averages of lists, to any nesting of the alphabet.
"""
PROP["C11"] = """
All ways of naming parameters (every subset by keyword in two orders, each positional prefix x keyword subset, factory and class) and every
single misuse, for all laws; then histories over two objects per law with copies and shared dictionaries of defaults, against plain dictionaries. The values
are judged through an independent formula as well, so a parameter bound to the wrong slot is seen even if it is stored under the right name.
"""
PROP["C12"] = """
Full products of the parameter alphabets, zero to three repeated terms, against formulas coded again from the documentation; the Tauc-Lorentz real
part also against a numerical principal-value integral, so that a common mistake in both closed forms would show. Passivity of oscillator laws in every state. The
Drude laws have the opposite sign of the documented real part: known finding (its repair changes stored fit results of the examples).
"""
PROP["C13"] = """
All bracketed sums over an alphabet of dispersions, tables, formulas and numbers are built with the real operators and evaluated as plain
numbers; operands are compared with snapshots. Histories of building, in-place extension, editing, adding and copying are replayed on live
objects that are read between the steps.
"""
PROP["C14"] = """
All small tables x all row orders x interpolation kinds x containers; at nodes exact data, between nodes an independent interpolation (scipy for splines
from sorted data), outside the documented refusal. Pseudo-dielectric functions are judged with bulk samples (the pseudo function of a bare
substrate is its permittivity) and SpectraRay tables with generated files.
"""
PROP["C15"] = """
All expression trees up to the bound are generated as trees (so their meaning is known without parsing), printed in several notations and
evaluated by the library. All one-character edits that leave the language have to be rejected. This decides precedence, associativity, signs, names and sums
for the whole bounded language instead of the handful of formulas in tests.
"""
PROP["C16"] = """
The transforms are linear, which is itself checked on all pairs; therefore all unit impulses on each grid decide the transform for all data on that grid. The
oracle is the scalar double loop of Maclaurin's formula from the literature. Causal line shapes on refined grids bind the signs and scales to physics.
Descending grids and grids up to 10001 points are part of the space.
"""
PROP["C17"] = """
Histories over materials (dispersions, rotations, parameter edits, overwriting returned tensors, copies, shared dispersions) with the tensor compared in each state with
sum_k n_k^2 (R e_k)(R e_k)^T. Rotation helpers on full grids of angles and axes with orthogonality, determinant, fixed axis and angle.
"""
PROP["C18"] = """
All ordered pairs of constituents x laws x fractions are judged by the *defining equation* of the law (residual), the correct root being
selected independently; limits, bounds, exchange symmetry, passivity, nesting; histories of fraction/constituent changes on live mixtures.
"""
PROP["C19"] = """
All Jones vectors of a grid and all Stokes vectors of a Poincare-sphere grid against the Pauli-matrix definition; all setter histories on a live
experiment, which is evaluated after every step and must equal a fresh evaluation of its structure.
"""
PROP["C20"] = """
Data sets are generated, written in each file format with all options (units, order, headers, number formats, line ends, extra columns), read
by the real importer and compared exactly. The writer was written from the example files and format documentation, not from the reader.
"""
PROP["C21"] = """
The same round trip for NeXus materials with h5py: all contents of an axis, all pairs and triples of contents, all axis combinations and entries.
Units of dispersion *tables* are ignored by the reader (pinned by an existing test): known finding with three keys.
"""
PROP["C22"] = """
The real database is a git submodule that is absent here, so a synthetic database in its published layout is generated: each data type and formula with each coefficient
layout. Every page is loaded and compared with its model, every query with a linear scan, and lookup histories must leave the answers unchanged.
"""
PROP["C23"] = """
The clearest protocol of the library: an undo stack. The reference is a Python list of snapshots; every operation word is executed on both, with current set, history, lengths, limits,
return values and foreign objects compared after each step.
Histories start with full, single-parameter and empty sets, and contain deleting all parameters.
"""
PROP["C24"] = """
Sessions run headless: the check finds the session's widgets and operates them as a user would (values, check boxes, buttons, display choice), next to a reference session of dictionaries. After each history values, flags, bounds,
history, widgets, every displayed curve and the returned tables are compared. Fits are judged by: fixed parameters unchanged, bounds respected, distance not worse than before,
and not worse than an independent lmfit fit of the documented distance from the same start unless the point is a local minimum itself (the optimizer may stop early; the first version of this oracle demanded a strict local minimum and raised a false alarm, so it was replaced).
"""
PROP["C25"] = """
All conversions x containers x grids against the SI definitions, inverses, and tables with several angles, ragged wavelengths, row orders; physical cross checks with bare substrates (psi/delta
-> pseudo permittivity -> index -> evaluate -> psi/delta).
"""
PROP["C26"] = """
Structures from the trees of C04 (equal layers are shared objects) with all half spaces, directions and wavelengths; drawings and Mueller plots are judged through the data of their artists: step lines,
meshes, traces, styles, names, cells, ranges.
"""
PROP["C27"] = """
Histories of attempts (admissible, boundary, inadmissible) on a live object next to a reference state; after each attempt the object must behave as one newly built from the reference state. Constructors with each
combination of values; functions and lookups separately.
"""

TAIL = r'''
## 4. Genuine defects

Every violation on the original tree was analysed; 58 were genuine and small enough to repair, each as one `fix:` commit in `/repo` (list in
`known_findings.txt`, `fixed:` lines with property and commit). Not repaired, listed as `finding:`:

* C12 `drude-real-sign`: both Drude laws implement A/(E^2 - i gamma E) with a positive real part; free carriers need the opposite sign. The
  formula is the documented one and stored fit results depend on it, so a maintainer has to decide.
* C21 `table-unit-ignored:*`: the unit attribute of dispersion-table axes in NeXus material files is ignored. An existing
  test pins the raw values, so the repair would need an edited test.

## 5. False alarms met and what was done

* C24: "a fit ends in a strict local minimum" was too strong (leastsq stops by tolerance); the criterion is now relative to an independent fit.
* C02/C03: transmission into anisotropic exit media has no defined amplitude normalisation in the library; only isotropic exits are judged.
* C12: Tanguy with strong broadening is not passive by its formula; passivity is judged for the oscillator laws only.
* C15: `-2**2` is 4 in the grammar (the sign belongs to the literal); the property follows the grammar.
* C18: nonlinear mixtures of rotated crystals evaluate elementwise; the property is restricted to isotropic and axis-aligned constituents.
* C26: limits of the index axis hide n < 1 in graphs; figures are judged by their data.

## 6. Observations that are neither repaired nor judged

Unpolarized `R`/`T` use the co-polarized terms only (documented formula). Accurion files with several regions of interest are summed by
`groupby().sum()`. `read_nexus_psi_delta` leaves its file open. An unpolarized Stokes vector has no Jones vector (NaN). User arrays handed to
`set_vector`/`set_lbda` are kept by reference. NaN thickness and non-integer counts are accepted. A partial Mueller table is placed in the grid by column
position, not by name. Formulas know no unary minus on names. A list of one result drops its first axis. Redo has one level and
survives new edits. Kramers-Kronig on descending axes flips the sign. `im2re_reciprocal`, `r_sp`, Lorentz and Cauchy-Urbach docstrings contain typos. Tanguy is discontinuous at d = 2;
Tauc-Lorentz is NaN exactly at E = Eg. `get_refractive_index` of rotated materials is an elementwise root. WVASE files with an
unknown unit and dpolE rows leave a text index. Dispersions of constants answer arrays with a scalar. NeXus materials with x and y but no z raise KeyError, formula units with a scale factor
are rejected. Unit conversions do not take plain lists. Adding two tables raises NotImplementedError.

## 7. Where model checking does not apply

No property is listed under `not_applicable`. Limits: continuous parameters are covered at alphabet values and along sweeps; thread
schedules up to the preemption bound at line granularity; torch and the real refractiveindex.info database are not part of the sandbox.
'''

SEEDTEXT = """
Each directory of `seeded/` holds a change that builds, passes the 106 stable tests, and breaks its property under the stated need; `demo.sh` shows it. They were
written from the property texts and the code. Misses led to new states in the spaces: live lists that are read between edits (c10-stale-mean), dense entry media
and decades around the critical angle (c01-*), shared layer objects and sub-nanometre stacks (c26-*), repeated members of one angle (C10), more decimals in written files (c20-accurion-rounding),
deep histories over the history operations alone (c24-redo-keeps). Later batches: tolerance-based caches (c06-prop-memo, c17-*), value-based shortcuts over the
wavelength axis (c05-*), nested averages (c10-mean-first-range), large tables (c14-sorted-default), angles beyond one turn, empty parameter sets (c23-commit-first),
nearly diagonal Mueller matrices (c08-mueller-norm). A missed change always led to a new letter or state of the space, not to a special case.

Quietness was tested the other way round, too: about fifty behaviour-preserving rewrites (helpers extracted, loops for comprehensions, sums reordered, einsum for
matmul, Horner for power sums, closed forms for inverses) in 22 files at once, under which all 27 checks stay quiet. No check uses a private name of the library.
"""
CAUGHT = {}
