"""Writes properties.jsonl and MANIFEST.json from one table (only properties with a check module)."""

import glob
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

SAMPLED = "The tests evaluate a handful of fixed stacks/files against stored values"
P = []


def p(id, title, statement, over, quant, why, files, mech, technique, level, note, state=None, observe=None):
    a = {
        "files": files,
        "mechanism": [{"name": n, "where": w} for n, w in mech],
    }
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or []
    a["hook_needed"] = None
    P.append(
        dict(
            prop=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why, anchors=a),
            technique=technique, level=level, note=note,
        )
    )


S = "src/elli/"
EX = "bounded exhaustive enumeration of executions of the real code against an independent reference model"
MC = "explicit-state exploration of the real code against a reference model"

p("C01", "All solvers agree on isotropic multilayers, and with the transfer-matrix theory",
  "For every stack of isotropic layers under a transparent entry medium, every angle below grazing and every wavelength array, the 2x2 solver and the 4x4 solver with each exact propagator (default, SciPy, torch, eigenvalue) return the reflection and transmission amplitudes of the analytic transfer-matrix theory for both polarizations, with no cross-polarization. The quantities derived from them (rho, psi, delta, R and T, including the power transmitted into absorbing media) agree too, and the linear propagator converges to them as layers are subdivided.",
  ["inputs", "configurations"], "all stacks of up to 3 layers over an alphabet of transparent, absorbing and metallic indices and thicknesses (0 to several wavelengths), angles from 0 to near grazing, wavelength arrays of several lengths, and every solver/propagator",
  "Tests compare stored numbers of a few stacks, mostly with one solver; agreement has to hold for every stack, angle, wavelength count and propagator.",
  [S + "solver2x2.py", S + "solver4x4.py", S + "structure.py", S + "result.py"],
  [("2x2 transfer matrices", "solver2x2.py"), ("Berreman 4x4 propagation and half-space matrices", "solver4x4.py"), ("power correction", "result.py")],
  EX, "exploration", "Every combination of the alphabets is executed with every solver; the reference is an independent recursive (Airy/Parratt) formula. Values outside the alphabet are not covered.")

p("C02", "Energy conservation, passivity and reciprocity of reflection and transmission",
  "Without absorption the reflected and transmitted power of every incident polarization add up to one; with absorption the sum never exceeds one and no power is negative, also for transmission into absorbing media. Turning a lossless or absorbing stack around leaves its transmitted power per polarization unchanged, total internal reflection reflects everything, and adding loss to any layer of a non-resonant single interface never creates power.",
  ["inputs"], "all stacks of up to 3 isotropic or anisotropic layers over alphabets of indices, thicknesses and orientations, all angles of the alphabet, both solvers",
  "Stored-value tests of a few structures cannot establish a balance that must hold for every structure and polarization.",
  [S + "solver2x2.py", S + "solver4x4.py", S + "result.py", S + "structure.py"],
  [("Jones matrices and power correction", "result.py"), ("solvers", "solver2x2.py, solver4x4.py")],
  EX, "exploration", "Metamorphic laws evaluated on every element of the bounded space; independent of any stored value.")

p("C03", "Anisotropic stacks follow Maxwell's equations",
  "For stacks with uniaxial or biaxial layers and substrates in any orientation (including tilted and absorbing ones), the 4x4 solver with each exact propagator returns the four reflection and four transmission amplitudes of an independent solution of Maxwell's boundary conditions. Rotating the whole sample about its surface normal, relabelling axes that carry equal indices, or exchanging materials by equal ones leaves the physics unchanged.",
  ["inputs", "configurations"], "all one- and two-layer stacks over an alphabet of crystals, orientations, thicknesses, substrates, angles and wavelengths, with every exact propagator",
  "Tests compare three published configurations and stored CSVs; orientation, absorption and angle are unbounded.",
  [S + "solver4x4.py", S + "materials.py", S + "utils.py", S + "structure.py"],
  [("Berreman delta matrix", "solver4x4.py"), ("half-space transition matrices", "solver4x4.py"), ("tensor rotation", "materials.py")],
  EX, "exploration", "Reference is a separate Maxwell solver (own eigenmode computation, own boundary matching). Degenerate orientations are included in the alphabet.")

p("C04", "Composite layers are equivalent to the plain stacks they describe",
  "Repeated layers, twisted layers, mixture-gradient layers, nested repetitions and lists of layers give the same optical response as the plain sequence of homogeneous layers they describe, for every repetition count, leading and trailing partial period, number of divisions and thickness. Splitting a homogeneous layer, inserting layers of zero thickness or merging neighbouring equal layers changes nothing, and layer order is front to back.",
  ["inputs", "programs"], "all composition programs over {layer, repeat, twist, gradient, nest, split, zero layer} up to the bound, with both solvers where applicable",
  "Tests cover one repeated stack and one twisted layer; counts, nesting and remainders are unbounded.",
  [S + "structure.py"],
  [("permittivity slices and thicknesses of a structure", "structure.py")],
  "exhaustive enumeration of layer-composition programs executed on the real code against the expanded stack", "exploration",
  "The oracle expands each program independently into homogeneous slices and compares the evaluated amplitudes.")

p("C05", "Results per wavelength do not depend on how wavelengths are batched or typed",
  "Evaluating an array of wavelengths gives, entry by entry, what evaluating each wavelength alone gives: for every array length, order, repetition, permutation and split, for integers, floats, lists and numpy types, and for every dispersion law, material, solver and experiment. The same holds for the tables and tensors the materials return.",
  ["inputs", "configurations"], "all dispersion laws and stacks of the alphabet x arrays of length 1 to 1000 (sorted, unsorted, repeated) x numeric types x solvers",
  "Tests use one wavelength array per feature; shape- or batch-dependent faults appear only for particular lengths and types.",
  [S + "solver4x4.py", S + "solver2x2.py", S + "dispersions/base_dispersion.py", S + "materials.py", S + "structure.py", S + "experiment.py"],
  [("array handling in dispersions", "dispersions/"), ("batched matrix operations", "solver4x4.py")],
  EX, "exploration", "Differential oracle: the same code on single wavelengths, plus reference values for a subset.")

p("C06", "No hidden state: results depend only on the current parameters",
  "Evaluating a structure, reading results or computing material tables never changes the objects or arrays involved nor the interpreter-wide numerical settings. After any sequence of edits (layer thickness, materials, dispersion parameters, orientation, angle, wavelengths) and evaluations, an object answers exactly as a freshly built object with the same parameters, copies are independent, and earlier results keep their values.",
  ["histories"], "all operation histories up to the bound over the mutators, accessors and evaluations of structures, layers, materials, dispersions, experiments and results",
  "Unit tests build an object, evaluate once and discard it; stale caches and aliasing appear only over histories.",
  [S + "structure.py", S + "materials.py", S + "experiment.py", S + "result.py", S + "dispersions/base_dispersion.py", S + "solver.py"],
  [("setters and lazily computed quantities", "structure.py, materials.py, experiment.py, result.py")],
  MC + " (all histories up to a depth, deduplicated by canonical parameter state)", "model_checking",
  "Every history is replayed on the real objects; after each step they are compared with freshly built ones.")

p("C07", "Concurrent use of shared objects gives the sequential results",
  "Two threads that evaluate structures, mix materials, compute dispersions and formulas, build or extend their own objects, read files or read shared results at the same time obtain exactly what each obtains alone. Neither changes the other's numerical settings, and later sequential use is unaffected.",
  ["schedules"], "all schedules of two threads with one preemption at line granularity (two at call granularity for short bodies), over pairs of library operations on shared and separate objects",
  "Tests are single threaded; an interleaving fault needs a preemption at one particular line.",
  [S + "solver4x4.py", S + "solver2x2.py", S + "materials.py", S + "dispersions/formula.py", S + "dispersions/base_dispersion.py", S + "result.py", S + "structure.py"],
  [("absence of shared mutable state in evaluations", "whole package")],
  "stateless model checking: all schedules of two real threads up to a preemption bound under a controlled scheduler", "model_checking",
  "Scheduling points are the executed library lines (calls); C extensions are atomic steps.")

p("C08", "Every quantity of a result follows from the amplitudes",
  "All quantities of a result are consistent with its reflection and transmission amplitudes under the documented convention: rho = tan(psi) exp(-i delta) for the main and all cross components, for reflection and transmission, the Mueller matrix acts on Stokes vectors as the normalized Jones matrix acts on fields, circular amplitudes are the linear ones in the circular basis, and R and T are the powers. Reading a component by name, from a matrix, or via the generic getter gives the same number for every name.",
  ["inputs", "programs"], "all pairs of Jones matrices from a grid of complex entries (zero, real, imaginary, generic; several wavelengths), all accessor names",
  "Tests look at psi/delta and a few names of one structure; identities must hold for every Jones matrix and every name.",
  [S + "result.py"],
  [("derived quantities and name lookup", "result.py")],
  EX, "exploration", "Results are produced for every Jones matrix of a grid and every accessor; the oracle is written from the definitions.")

p("C09", "Delta range conversion only adds full turns and lands in the requested range",
  "Converting delta values to a 360-degree range changes every value by a whole number of turns and puts it inside the range, for every admissible range and array shape; for the half range (0, 180) the result is the angle between 0 and 180 with the same cosine, and converting twice equals converting once. Results and lists of results answer delta (main value and matrices, reflection and transmission) in the range requested last, all other quantities except the sign of rho in the half range are untouched, and every other range is rejected without effect.",
  ["inputs", "histories"], "all angles on a grid over several turns including range bounds x all ranges of the alphabet x scalars, arrays, tables and result objects, and all sequences of conversions up to length 3",
  "Tests convert one result to one range; bounds, several turns and repeated conversions are unbounded.",
  [S + "utils.py", S + "result.py"],
  [("range conversion", "utils.py, result.py")],
  MC, "model_checking", "The reference is the mathematical residue; every conversion sequence is replayed on the real objects.")

p("C10", "Lists of results behave element-wise and average intensities",
  "A list of results answers every quantity and component name with the element-wise quantities of its members in order, whatever the history of creation, appending, editing the stored results, copying and pickling. Every quantity of its average is the arithmetic mean of that quantity over the members at each wavelength, independent of their order, and neither reading nor averaging changes a member; averaging twice is rejected.",
  ["histories", "inputs"], "all histories up to the bound of list operations over results of the alphabet, compared with a plain list",
  "Tests construct one list and check shapes; ordering, editing, copying and averaging need histories and all members.",
  [S + "result.py"],
  [("result list and averaged result", "result.py")],
  MC, "model_checking", "Reference model: a Python list of the same results; every history is executed on both.")

p("C11", "Dispersion parameters are bound by name and isolated between objects",
  "However the parameters of a dispersion are given (constructor, defaults, repeated terms, factory by name), exactly the given values are used, omitted ones take their documented defaults, unknown ones are rejected and leave the object unchanged. Two dispersions never share parameters, adding terms accumulates in order, and the permittivity is the square of the refractive index.",
  ["programs", "histories"], "all dispersion laws x all subsets and permutations of their parameters x construction routes x all addition histories up to the bound",
  "Tests construct each law once with one set of parameters; defaults, subsets, misspellings and isolation are combinatorial.",
  [S + "dispersions/base_dispersion.py", S + "dispersions/"],
  [("parameter templates and guards", "dispersions/base_dispersion.py"), ("factory", "dispersions/base_dispersion.py")],
  MC, "model_checking", "Reference: explicit dictionaries of documented defaults and a term list per object.")

p("C12", "Dispersion laws compute their documented formulas",
  "Every dispersion law (Cauchy family, Sellmeier family, Drude, Lorentz, Gaussian, Tauc-Lorentz, Cody-Lorentz, Tanguy, poles, polynomial, constants) returns the value of its documented formula for every wavelength and parameter set, including parameters that are zero, terms that are repeated, and wavelengths on either side of gaps and resonances. Oscillator laws (Gaussian, Lorentz, Tauc-Lorentz, Cody-Lorentz, Drude) with positive parameters never amplify, and tables of permittivity and index show the same values under the requested sign convention.",
  ["inputs"], "all laws x all parameter combinations of the alphabets (including zeros and equality boundaries) x wavelength grid, one to three repeated terms",
  "Tests compare stored spectra of one parameter set per law.",
  [S + "dispersions/"],
  [("per-law formula", "dispersions/*.py")],
  EX, "exploration", "Reference formulas are coded separately from the documentation with complex arithmetic; special functions come from SciPy.")

p("C13", "Sums of dispersions add the permittivities and leave the operands alone",
  "A sum of dispersions has, at every wavelength, the sum of the permittivities (or indices) of its terms, whatever the order, bracketing, repetition and numbers added, and building it changes none of its operands. Editing or extending an operand or the sum later affects exactly the objects that are documented to depend on it, and inadmissible sums are rejected.",
  ["programs", "histories"], "all addition programs up to the bound over an alphabet of dispersions, numbers and tables, with interleaved edits",
  "Tests add two dispersions once; bracketing, aliasing and numbers need all programs.",
  [S + "dispersions/base_dispersion.py"],
  [("summation of dispersions", "dispersions/base_dispersion.py")],
  MC, "model_checking", "Reference: expression trees evaluated numerically; operands are compared before and after.")

p("C14", "Tabulated dispersions reproduce and interpolate their data",
  "A tabulated dispersion returns its data exactly at the nodes and the documented interpolation between them, for tables of index, permittivity, files of the supported table format and pseudo-dielectric functions, whatever the order of the rows, number of points and interpolation kind. Outside the tabulated range it refuses or extrapolates as documented, and the given arrays are not modified.",
  ["inputs"], "all tables of 2 to 5 nodes over an alphabet (ordered and unordered, real and complex) x kinds x query points inside, on and outside the nodes",
  "Tests load one table.",
  [S + "dispersions/table_index.py", S + "dispersions/table_epsilon.py", S + "dispersions/table_spectraray.py", S + "dispersions/pseudo_dielectric.py"],
  [("interpolators", "dispersions/table_*.py"), ("pseudo-dielectric formula", "dispersions/pseudo_dielectric.py")],
  EX, "exploration", "Reference: own piecewise interpolation and own parser of generated files.")

p("C15", "Formula dispersions evaluate their formula",
  "A dispersion given as a formula text evaluates to the usual arithmetic value of that text: operator precedence, associativity, unary signs, powers, functions, constants, sums over repeated parameters, any parameter names and either representation (index or permittivity), in the stated axis unit. Malformed formulas and missing or inconsistent parameters are rejected, never silently evaluated.",
  ["programs", "inputs"], "all formulas up to the bound of the grammar's operators, functions, names and sums, over parameter and wavelength alphabets and all axis units",
  "Tests parse a few formulas; precedence, names and nesting are combinatorial.",
  [S + "formula_parser/parser.py", S + "dispersions/formula.py"],
  [("grammar and transformer", "formula_parser/parser.py"), ("parameter binding, units", "dispersions/formula.py")],
  "exhaustive enumeration of programs of the formula language against an independent evaluator", "exploration",
  "All expression trees to a depth, rendered with minimal and full brackets; the oracle evaluates the tree, not the text.")

p("C16", "Kramers-Kronig transforms equal the Maclaurin principal-value sums",
  "The Kramers-Kronig transforms (real to imaginary and back, over energy-like and wavelength-like axes) equal the Maclaurin alternate-point sum of the principal-value integral for every grid of points (ascending or descending), are linear in the data, do not change their arguments and return one value per point. They reproduce causal line shapes with an error that shrinks with the grid spacing.",
  ["inputs"], "all unit-impulse data on grids of 2 to 9 points (a basis, hence by linearity all data) and combinations, uniform and non-uniform axes, all four transforms",
  "Tests transform one oscillator; the rule must hold for every grid length and data.",
  [S + "kkr/kkr.py"],
  [("alternate-point summation", "kkr/kkr.py")],
  EX, "exploration", "Impulse basis covers all data on those grids by linearity (which is itself checked).")

p("C17", "Material tensors carry the right index on the right axis and rotate as tensors",
  "The permittivity tensor of a material has the squared index of each axis on its diagonal, is symmetric, and after setting a rotation R equals R eps R^T, with the last rotation set taking effect; principal values never change. Rotation helpers (Euler angles, rotation vector, axis and angle) return proper rotations that do what their names state.",
  ["inputs", "histories"], "all materials of the alphabet x rotations from a grid of axes and angles (including 0, 90, 180, 360 and compositions) x rotation histories up to the bound",
  "Tests rotate one material once.",
  [S + "materials.py", S + "utils.py"],
  [("tensor assembly and rotation", "materials.py"), ("rotation matrices", "utils.py")],
  MC, "model_checking", "Reference tensors are computed from axis vectors by outer products.")

p("C18", "Mixtures obey their mixing laws",
  "Every effective-medium mixture satisfies the equation that defines it at every wavelength and fraction, for real and complex constituents, isotropic and axis-aligned anisotropic: volume average, Looyenga, Maxwell-Garnett, Bruggeman. A fraction of zero gives the host and one the guest, equal constituents give themselves, results stay within the physical bounds (passive, the correct root), and Bruggeman is symmetric under exchange; fractions outside [0, 1] are rejected.",
  ["inputs"], "all pairs of materials of the alphabet x fractions (0, tiny, 1/3, 1/2, 1-tiny, 1, ...) x wavelengths x laws, including nested mixtures and fraction histories",
  "Tests check a few values of one mixture; root selection and limits depend on the pair and fraction.",
  [S + "materials.py"],
  [("mixing formulas and root selection", "materials.py")],
  EX, "exploration", "Oracle: residual of the defining equation, limits, bounds and an independent root.")

p("C19", "Polarization states of an experiment convert consistently",
  "Setting the incident polarization as a Jones or Stokes vector makes both representations describe the same normalized polarization state, for linear, circular and elliptical states and every overall amplitude and phase. Evaluating an experiment equals evaluating its structure at its wavelengths and angle, whatever the order in which its settings were made.",
  ["inputs", "histories"], "all Jones vectors on a complex grid and all Stokes vectors on a Poincare-sphere grid (including the poles and the vertical state), all setter histories up to the bound",
  "Tests use one horizontal and one circular state.",
  [S + "experiment.py"],
  [("vector conversion", "experiment.py")],
  MC, "model_checking", "Reference: Pauli-matrix definition of Stokes parameters.")

p("C20", "Importers return exactly the data of psi/delta and Mueller files",
  "Reading a measurement file (Woollam WVASE and CompleteEASE, Accurion, SpectraRay psi/delta and Mueller, NeXus old and new layout) returns exactly the psi/delta or Mueller values of the file at the wavelength and angle they were written for, in the file's unit converted to nanometres, whatever the number of wavelengths and angles, row order, header, text encoding and extra columns. Delta is returned as stored (Woollam, NeXus) or as the same angle within -180 to 180 degrees (Accurion, SpectraRay), and nothing else is altered; files in other representations are rejected.",
  ["inputs", "programs"], "all small files of the alphabet (1-3 angles x 1-3 wavelengths, orders, units, signs, decimal formats) in all formats",
  "Tests load one example file per format.",
  [S + "importer/woollam.py", S + "importer/accurion.py", S + "importer/spectraray.py", S + "importer/nexus.py"],
  [("column selection, unit conversion, pivoting", "importer/*.py")],
  "bounded exhaustive enumeration of input files executed on the real importers against the generating model", "exploration",
  "Files are written from a model and read back; the oracle is the model.")

p("C21", "NeXus material files are read faithfully",
  "Reading a NeXus dispersion file returns the material it describes: isotropic, uniaxial or biaxial according to the axes present, each axis the sum of its tables and formulas with the stored names, units, parameters and values, independent of the file after closing. Unsupported content is rejected.",
  ["inputs", "programs"], "all combinations of axes, tables, formulas, units and parameter layouts of the alphabet",
  "Tests read one example material.",
  [S + "importer/nexus.py"],
  [("dispersion reading", "importer/nexus.py")],
  "bounded exhaustive enumeration of input files executed on the real importer against the generating model", "exploration",
  "Files are generated with h5py from a model.")

p("C22", "The refractive-index database returns the stored page and nothing else",
  "Looking up materials in the database finds exactly the entries that match, and loading an entry returns the index stored in its file, whatever its data type (tabulated n, k, nk and formulas 1 to 5, alone or combined), units and coefficients. Missing extinction means zero; ambiguous or unknown requests and unimplemented formulas are rejected and lookups do not affect each other.",
  ["inputs", "programs", "histories"], "all entry types and formula numbers with all coefficient counts of the alphabet, all query combinations, on a synthetic database",
  "The database is not available to the tests here; formulas 1-9 and combinations are many.",
  [S + "database/refractive_index_info.py"],
  [("catalog search, page parsing, formulas", "database/refractive_index_info.py")],
  "bounded exhaustive enumeration of database pages and queries against the generating model", "exploration",
  "A synthetic database in the published layout is written and read back.")

p("C23", "The parameter history records, restores and limits parameter sets like a bounded undo stack",
  "Every tracked change of a parameter history (commit, tracked value change, tracked update, tracked add) first stores the complete current parameter set; pop restores the last stored set, removes it and returns the set it replaced; revert restores any stored set and keeps the history. Lengths and limits match, only the oldest entries are dropped, stored sets are unaffected by later edits of current, returned or given objects, and operations on an empty history or an invalid position change nothing.",
  ["histories"], "all histories up to the bound over add, edit, commit, pop, revert, update, limit and clear operations",
  "Tests run one fixed sequence.",
  [S + "fitting/params_hist.py"],
  [("history list", "fitting/params_hist.py")],
  MC, "model_checking", "Reference: a plain list of plain snapshots; all histories to the bound.",
  state=[("history", "committed parameter sets", "fitting/params_hist.py")])

p("C24", "A fitting session keeps widgets, parameters, model and history in step",
  "In a fitting session the values shown, the current parameters and the model used for the displayed and fitted curves always agree, after any sequence of edits, fits, undo, redo and reset; one fit adds one history step, undo after a fit restores the values before it and redo takes the undo back. Fixed parameters never change, fitted values respect their bounds, the fit minimizes the stated distance between model and data, and measured data are never altered.",
  ["histories"], "all user histories up to the bound over editing values, fitting, undo, redo, reset and display choices, for psi/delta and Mueller-matrix sessions",
  "Tests construct a session and call fit once.",
  [S + "fitting/decorator.py", S + "fitting/decorator_psi_delta.py", S + "fitting/decorator_mmatrix.py", S + "fitting/params_hist.py"],
  [("widget callbacks, fit, history", "fitting/decorator*.py")],
  MC, "model_checking", "Sessions run headless; every history is executed on the real session and a reference session model.",
  state=[("params", "current parameters with history", "fitting/params_hist.py")])

p("C25", "Conversions between representations are consistent and invertible",
  "Converting between wavelength, energy, frequency and wavenumber, psi/delta and rho, psi/delta and isotropic Mueller matrices, or index and permittivity tables gives mutually consistent values that invert each other, for scalars, arrays and tables of any shape. Inputs are never modified and tables keep their axes.",
  ["inputs"], "all values of grids including boundaries x array shapes x the conversion functions",
  "Tests convert one array.",
  [S + "utils.py"],
  [("conversion functions", "utils.py")],
  EX, "exploration", "Reference definitions with exact physical constants.")

p("C26", "Plots and structure drawings show the data they are given",
  "Permittivity and index profiles, both kinds of structure drawings and Mueller-matrix plots contain exactly the data of the structure or tables they are asked to show: every slice in order with its thickness, the index along the requested direction at the requested wavelength, every matrix element in its cell with its name, and the requested colours, line styles, scales and margins, repeated in order when there are fewer than needed. Plotting does not change its arguments.",
  ["inputs", "configurations"], "all structures of the alphabet (up to 3 layers incl. composite layers) x directions x wavelengths; all plot options x data tables",
  "Tests render figures without looking at them.",
  [S + "plot/structure.py", S + "plot/mueller_matrix.py", S + "structure.py"],
  [("profile construction, figure assembly", "plot/*.py, structure.py")],
  EX, "exploration", "Figures are inspected through their data, not their pixels.")

p("C27", "Invalid input is rejected and leaves objects unchanged",
  "Every setter, constructor and function that restricts the type, range or shape of its values rejects each violating value with an error, accepts each admissible one including the boundary values, and after a rejected value the object behaves exactly as before the attempt. This holds for layers, materials, mixtures, structures, experiments, dispersions, results and utility functions after any history of attempts.",
  ["inputs", "histories"], "all setters/constructors x alphabets of valid, boundary and invalid values x attempt histories of length up to 3",
  "Tests check a few error cases and never look at the object afterwards.",
  [S + "structure.py", S + "materials.py", S + "experiment.py", S + "dispersions/base_dispersion.py", S + "result.py", S + "utils.py"],
  [("setter validation", "structure.py, materials.py, experiment.py")],
  MC, "model_checking", "Reference: table of admissible values per setter, behaviour compared before/after.")


def level(pid):
    """the level stated by the check module itself"""
    text = open(glob.glob(os.path.join(HERE, "checks", pid.lower() + "_*.py"))[0], encoding="utf-8").read()
    return re.search(r'^LEVEL = "(\w+)"', text, re.M).group(1)


def main():
    have = {os.path.basename(f)[:3].upper() for f in glob.glob(os.path.join(HERE, "checks", "c[0-9][0-9]_*.py"))}
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for e in P:
            if e["prop"]["id"] in have:
                f.write(json.dumps(e["prop"]) + "\n")
    man = dict(
        version=1,
        setup_cmd="./setup.sh",
        checks=[
            dict(
                property=e["prop"]["id"],
                quick_cmd=f"./run.sh {e['prop']['id']} --tier quick",
                thorough_cmd=f"./run.sh {e['prop']['id']} --tier thorough",
                technique=e["technique"],
                level=level(e["prop"]["id"]),
                level_note=e["note"],
            )
            for e in P
            if e["prop"]["id"] in have
        ],
        not_applicable=[],
        notes="No hooks: all checks use the public API of the package at /repo/src. Replay a counterexample with ./run.sh <ID> --replay <file>.",
    )
    json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)


main()
