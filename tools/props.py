"""Source of properties.jsonl (python3 tools/props.py regenerates it)."""
import json

P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe:
        a["observe_at"] = observe
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why, "anchors": a,
    })


S = "src/elli/"
prop("C01", "Evaluating never changes the model",
     "Evaluating a structure or experiment, or asking a layer, material or dispersion for its profile, tensor, refractive index, dielectric data or table, leaves every object and array the caller passed in, and every object reachable from them, unchanged. "
     "Repeating the evaluation, or evaluating again after a parameter was changed, gives what a freshly built identical model gives.",
     ["histories", "inputs"], "All sequences of evaluations and parameter changes on shared structures, layers, materials, dispersions and wavelength arrays, with both solvers and all propagators.",
     "Tests evaluate each model once or twice with fixed inputs; aliasing and stale state need histories over shared objects.",
     [S + "structure.py", S + "materials.py", S + "experiment.py", S + "solver.py", S + "solver2x2.py", S + "solver4x4.py", S + "dispersions/base_dispersion.py"],
     [("evaluation entry points", "Structure.evaluate, Experiment.evaluate, *.get_permittivity_profile, Material.get_tensor, BaseDispersion.get_dielectric")],
     ["objects passed to evaluate before/after the call"])
prop("C02", "A result is a snapshot of the evaluated experiment",
     "The result of an evaluation keeps giving the same values when the structure, its layers, materials, dispersions, the experiment or the wavelength array are modified afterwards. "
     "The experiment recorded in a result describes the evaluated conditions and shares no mutable state with the caller's objects, for every solver.",
     ["histories"], "Every solver and every later modification of any object the evaluation was built from.",
     "Tests never modify a model after evaluating it; sharing is only visible through later mutation.",
     [S + "solver.py", S + "solver2x2.py", S + "solver4x4.py", S + "result.py"],
     [("experiment copy", "Solver.__init__"), ("what is stored in the result", "Solver2x2.calculate, Solver4x4.calculate")],
     ["Result.experiment and all result quantities after mutation"])
prop("C03", "Reading a result never changes it",
     "Reading any quantity of a result, a result list or its average, in any order and any number of times, changes neither the stored data nor the values later reads return. "
     "Only requesting another delta range changes how later angles are reported, and it never changes the stored amplitudes.",
     ["histories", "inputs"], "All sequences of reads of all result quantities on single, listed and averaged results.",
     "Tests read each quantity once; interference between reads needs arbitrary sequences.",
     [S + "result.py"], [("result quantities", "Result properties, ResultList.__getattr__, AveragedResultList.__getattr__")])
prop("C04", "Adding dispersions is pure, complete and type-safe",
     "Adding two dispersions, or a dispersion and a number, yields a dispersion whose dielectric function (or refractive index, for index-based ones) is the sum of its parts, with number offsets included exactly once, and leaves both operands unchanged. "
     "Index-based and dielectric-based dispersions cannot be added to each other in either order, and repeated addition gives the sum of all parts however it is grouped.",
     ["inputs", "histories", "programs"], "All combinations of dispersion kinds (models, sums, tables, index tables) and numbers, in any grouping and reuse order.",
     "Tests add a handful of pairs once and never reuse an operand.",
     [S + "dispersions/base_dispersion.py", S + "dispersions/table_index.py", S + "dispersions/table_epsilon.py"],
     [("sum construction", "Dispersion.__add__, IndexDispersion.__add__, DispersionSum, IndexDispersionSum")])
prop("C05", "Model values are accepted exactly when they are meaningful",
     "Setting a layer thickness below zero, fewer than one slice, fewer than one repetition, a negative number of leading or trailing layers, a mixture fraction outside 0 to 1, a delta range that is neither 0 to 180 nor an integer 360 degree range enclosing zero, or an object of the wrong kind where a layer, material or dispersion is expected raises an error and leaves the object unchanged. "
     "All boundary values (thickness 0, one slice, one repetition, fractions 0 and 1) are accepted and stored as given, both when an object is created and when it is modified later.",
     ["inputs", "histories"], "All numeric values for each setting, including the boundaries, via constructor and setter.",
     "Tests try one or two values per setting; the accepted set must be exact over all numbers.",
     [S + "structure.py", S + "materials.py", S + "utils.py", S + "result.py"],
     [("validation in setters", "set_thickness, set_divisions, set_repetitions, set_fraction, set_layers, set_material, set_dispersion, DeltaRange")])
prop("C06", "Angles given in degrees are converted exactly once",
     "The incident angle, rotation angles and twist angles a user gives in degrees, and the psi and delta angles returned or consumed in degrees, are converted to and from radians exactly once wherever they enter or leave a trigonometric function. "
     "A structure evaluated at an incident angle therefore refracts and reflects according to that angle in every layer.",
     ["inputs"], "All angles and all angle-carrying entry points.",
     "Tests compare a few angles, and several angle-consuming helpers are never called by them.",
     [S + "solver2x2.py", S + "solver4x4.py", S + "utils.py", S + "result.py"],
     [("degree conversions", "Solver2x2.list_snell, Solver4x4.calculate, utils.rotation_*, utils.calc_*, Result psi/delta")])
prop("C07", "Wavelength and energy units are used consistently",
     "Wavelengths are nanometres throughout the public interface: every model whose parameters are given in electron volts, micrometres or inverse centimetres evaluates at the physically corresponding photon energy or length, the wavelength and energy conversion is its own inverse, and unit-aware readers and helpers rescale lengths linearly and energies reciprocally. "
     "The reported quantity therefore does not depend on the unit its source was expressed in.",
     ["inputs", "configurations"], "All wavelengths, and all units a model, formula or reader accepts.",
     "Tests use sample data with one unit per format; the conversion must hold for every wavelength and every unit.",
     [S + "utils.py", S + "units.py", S + "dispersions/formula.py", S + "database/refractive_index_info.py"],
     [("unit conversion", "conversion_wavelength_energy, scale_to_nm, Formula unit conversion, models in eV")])
prop("C08", "Every dispersion model computes its documented formula",
     "For every built-in closed-form dispersion model, every number of repeated terms and all parameter values, the returned refractive index or dielectric function equals the formula in the model's documentation at each wavelength, including the case distinction at the band gap where there is one. "
     "The refractive index and dielectric function views of one model agree (the latter is the square of the former), and the exported tables list exactly the real and imaginary parts of the requested quantity at the requested (or default) wavelengths.",
     ["inputs", "configurations"], "All models, all parameter values, any number of repeated oscillators, all wavelengths.",
     "Tests compare against stored numbers at default or sample parameters for a subset of the models.",
     [S + "dispersions/"], [("model formulas", "dielectric_function / refractive_index of each model"), ("views", "get_dielectric, get_refractive_index, get_dielectric_df, as_index")])
prop("C09", "Model parameters are all honoured and never leak between models",
     "Every documented single or repeated parameter of a dispersion model is accepted by name, influences the result, takes its documented default when omitted, and is named with its value in the printed form of the model; unknown, surplus, duplicated or missing mandatory parameters are rejected, and repeated parameters are accepted positionally in the documented order. "
     "Creating or extending one model never changes another model or the defaults used for later ones.",
     ["inputs", "histories", "programs"], "All models and all ways of passing parameters, for any sequence of created models.",
     "Tests build a few models with a few parameters each and do not look for leakage.",
     [S + "dispersions/base_dispersion.py", S + "dispersions/"], [("parameter handling", "BaseDispersion.__init__, _fill_params_dict, add, model templates")])
prop("C10", "Delta is reported in the requested range without changing its meaning",
     "For every permitted delta range, each reported phase angle, single, matrix or measured and converted, is congruent modulo 360 degrees to the phase defined by rho = tan(psi) exp(-i delta), lies inside the requested 360 degree range, and is folded into 0 to 180 when that range is requested. "
     "Angles that already lie in the range are returned unchanged.",
     ["inputs", "configurations"], "All amplitudes and all permitted ranges, in reflection and transmission.",
     "Tests use ranges for which several wrong shifts coincide, and single angles.",
     [S + "result.py", S + "utils.py"], [("range mapping", "Result.delta*, utils.convert_delta_range, DeltaRange")])
prop("C11", "Each result name denotes one quantity and one matrix element",
     "Every quantity name, with either latin or greek spelling, every index notation (p/s, L/R or digits) and either access style returns the element in the row of the first index and the column of the second of the matrix that name denotes. "
     "Lists return these quantities stacked in list order and averages return their mean over the list, for every list length; unknown names are rejected.",
     ["inputs", "programs"], "All combinations of names and indices on single results, lists and averages of any length.",
     "Tests access a few names of a single result.",
     [S + "result.py"], [("name dispatch", "Result.__getattr__, Result.get, _convert_index, ResultList.__getattr__")])
prop("C12", "Isotropic multilayers give the exact thin-film amplitudes without cross talk",
     "For stacks made only of isotropic media, s and p light do not couple, and the reflection and transmission amplitudes the 2x2 solver reports equal the closed-form Fresnel/Airy result for the given layer order, thicknesses and angle, in the documented matrix layout. "
     "The 4x4 solver reports zero cross-polarised amplitudes for such stacks, and both solvers report the power correction of the exit medium relative to the entry medium.",
     ["inputs", "configurations"], "All isotropic stacks, wavelengths, angles, thicknesses and complex indices.",
     "Tests compare with sampled reference values; layer order, polarisation assignment and element layout must hold for all stacks.",
     [S + "solver2x2.py", S + "solver4x4.py"], [("transfer matrices", "Solver2x2.calculate, Solver2x2.fresnel, Solver4x4.calculate")])
prop("C13", "The permittivity profile lists every slice in order and tiles the stack",
     "The profile of a structure starts with the unbounded front medium, lists the layers in the given order from front to back, and ends with the unbounded back medium. "
     "Repeated stacks list the requested leading layers, the full period the requested number of times and the trailing layers, counting whole layers; a sliced layer contributes exactly its number of divisions, equally thick and adding up to its thickness, each evaluated at the slice centre, also for zero thickness.",
     ["inputs", "configurations"], "All nestings, repetition counts, leading and trailing counts, divisions and thicknesses.",
     "Tests build two or three fixed nestings.",
     [S + "structure.py"], [("profile assembly", "get_permittivity_profile of all layer kinds and Structure")])
prop("C14", "Anisotropic tensors sit on the documented axes and rotate consistently",
     "A uniaxial or biaxial material places each dispersion on its documented axis, rotating a material by R yields R eps R^T at every wavelength and a newly set rotation replaces the previous one, and all rotation helpers return proper rotations of the documented sense. "
     "For tensors aligned with the axes the refractive index tensor squares to the permittivity tensor, and single wavelengths give the same values as the corresponding element of an array.",
     ["inputs", "histories"], "All rotation angles, axes, sequences of rotations, dispersions and wavelengths.",
     "Tests rotate by a few angles, where sign or order errors can cancel.",
     [S + "materials.py", S + "utils.py", S + "structure.py"], [("tensor assembly and rotation", "SingleMaterial.get_tensor, set_rotation, rotation_* helpers, TwistedLayer.get_tensor")])
prop("C15", "Mixtures interpolate between their constituents",
     "Every effective-medium mixture returns the host tensor at guest fraction zero and the guest tensor at fraction one, returns the common tensor when both constituents are equal, and otherwise equals its documented mixing rule. "
     "An explicitly given fraction overrides the stored one without altering it, and the fraction is the share of the guest in every mixing rule.",
     ["inputs"], "All constituents, fractions and wavelengths.",
     "Tests compare one or two mixtures at a single fraction.",
     [S + "materials.py"], [("mixing rules", "VCAMaterial, LooyengaEMA, BruggemanEMA, MaxwellGarnettEMA get_tensor_fraction")])
prop("C16", "4x4 transfer-matrix building blocks are mutually consistent",
     "The entry and exit matrices of an isotropic half-space are exact inverses of each other, a layer of zero thickness propagates as the identity for every propagator, all propagators use the same exponent with opposite thicknesses cancelling to first order, and the infinitesimal matrix equals Berreman's for every permittivity tensor. "
     "Layers are multiplied from the exit side towards the entry side, and the general half-space matrix is assembled only from eigenvectors of that infinitesimal matrix.",
     ["inputs"], "All permittivity tensors, reduced wave numbers, thicknesses and wavelengths.",
     "Tests compare whole results at sampled points, where compensating errors or untested tensor components stay invisible.",
     [S + "solver4x4.py"], [("building blocks", "build_delta_matrix, transition_matrix_iso_halfspace, Propagator*.calculate_propagation, Solver4x4.calculate")])
prop("C17", "All ellipsometry readers deliver the same table shape and units",
     "Every psi/delta reader returns a table indexed by angle of incidence in degrees and wavelength in nanometres, in that order and under the documented names, with the columns for psi and delta in degrees taken from the corresponding source columns. "
     "Rows are ordered, energies are converted to wavelengths, measured angles are preserved up to the documented filtering, and Mueller matrix readers label element ij by row and column.",
     ["inputs", "configurations"], "All files of each supported format, all unit variants, angles and row orders.",
     "Tests read one or two sample files per format.",
     [S + "importer/"], [("readers", "read_woollam_psi_delta, read_nexus_psi_delta, read_spectraray_psi_delta, read_accurion_psi_delta, read_*_mmatrix")])
prop("C18", "Library calls release files and restore global settings",
     "Every file a reader or database lookup opens is closed on every way out, including errors, nothing is returned that needs an already closed file, and text files are decoded with the encoding they are detected to have, database records with UTF-8. "
     "Numerical error settings, the shared unit registry and other process-wide state are the same after a library call as before it, even when the call fails.",
     ["fault_sequences", "histories", "inputs"], "All exits of all library calls, including exceptions at any statement.",
     "Tests take the successful path; leaks need failing or repeated calls.",
     [S + "importer/", S + "materials.py", S + "database/refractive_index_info.py", S + "dispersions/table_spectraray.py", S + "utils.py"],
     [("resource handling", "every open/h5py.File/np.seterr/np.errstate site")])
prop("C19", "Fit history is bounded, ordered and isolated",
     "The parameter history keeps at most the configured number of states, dropping the oldest first, undo restores exactly the previous state in reverse order of commits, and undoing an empty or exhausted history leaves the initial state in place. "
     "Later changes of the live parameters never alter recorded states, recorded states never alter the live parameters except through undo, and changing the bound keeps the newest states.",
     ["histories"], "All sequences of commits, undos, parameter updates and bound changes.",
     "Tests run a couple of short sequences.",
     [S + "fitting/params_hist.py", S + "fitting/decorator.py"], [("history", "ParamsHist")],
     state=[("history", "recorded parameter states, oldest first")])
prop("C20", "The fit wrappers compare model and data without altering either",
     "Fitting psi/delta or Mueller data minimises the difference between the model and all given data points, complex values entering through both real and imaginary part and Mueller data through all sixteen elements, at the wavelengths of the data. "
     "Fitting leaves the measured data and the parameters it starts from unaltered, the curves shown are the data and the model at the current parameters in the selected representation, an exported table lists exactly those, every fit starts from the current parameters, every change of a parameter value is undoable exactly once, and plain parameter sets work as well as history-keeping ones.",
     ["inputs", "histories"], "All data sets, models and sequences of edits, fits and undos.",
     "Tests barely touch the fit wrappers (they need widgets).",
     [S + "fitting/decorator.py", S + "fitting/decorator_psi_delta.py", S + "fitting/decorator_mmatrix.py"],
     [("residuals and buttons", "FitRho.fit_function, FitMuellerMatrix.fit_function, FitDecorator.*")])
prop("C21", "Formula dispersions mean what their text says",
     "Every formula the documented grammar accepts is evaluated with the usual meaning, precedence and associativity of its operators, functions and sums, with parameters resolved by name, also when a name merely begins like a function or constant, and repeated parameters summed over all repetitions. "
     "Every function and operator the grammar offers is usable, and formulas may refer only to the parameters they declare.",
     ["inputs", "programs"], "All formulas of the grammar and all parameter names and values.",
     "Tests parse a few fixed formulas.",
     [S + "formula_parser/parser.py", S + "dispersions/formula.py"], [("grammar and transformer", "GRAMMAR, FormulaTransformer, Formula")])
prop("C22", "Database records are translated into equivalent models",
     "Every refractive-index-database record type with a numbered formula is turned into the model implementing that formula with each coefficient assigned to the parameter it denotes, in record order and with the record's micrometre convention, whatever the number of coefficients. "
     "Tabulated records keep their columns, units and row order, k-tables combine with formula records without altering them, and unsupported records are refused with an error.",
     ["inputs"], "All records of the database format.",
     "Tests (with the database present) sample a few records per formula; coefficient assignment must hold for all lengths.",
     [S + "database/refractive_index_info.py"], [("record translation", "RII.get_dispersion and coefficient grouping")])
prop("C23", "Incident polarisation vectors are interpreted consistently",
     "A Jones vector and the Stokes vector derived from it describe the same polarisation state, so converting a fully polarised Stokes vector to its Jones vector and back gives the same state for every polarisation, including purely vertical light. "
     "Vectors that are neither Jones nor Stokes vectors are rejected instead of leaving a previous or undefined state behind.",
     ["inputs", "histories"], "All two- and four-component vectors and all other shapes.",
     "Tests use a few linear polarisation states.",
     [S + "experiment.py"], [("vector conversion", "Experiment.set_vector")])
prop("C24", "The Kramers-Kronig routines share one kernel and one quadrature",
     "All Kramers-Kronig variants exclude the evaluation point from the sum, weight every sample by the spacing of the equidistant axis wherever that axis begins and whichever way it runs, scale linearly with the input, leave the input arrays unchanged and refuse inputs of unequal length. "
     "The wavelength and energy variants, and the real-from-imaginary and imaginary-from-real directions, use the documented kernel with the documented sign and prefactor.",
     ["inputs"], "All spectra on all equidistant axes (the documented precondition).",
     "Tests check two analytic spectra with loose tolerances.",
     [S + "kkr/kkr.py"], [("quadrature", "_calc_kkr and its public variants")])
prop("C25", "Models and results survive copying, pickling and probing",
     "Copying or pickling a dispersion, material, structure, result or result list yields an independent, equivalent object, so changing the parameters of a copy never affects the original and vice versa. "
     "Probing any object for an attribute it does not have reports the absence in the standard way instead of failing differently or recursing.",
     ["histories", "programs"], "All model and result objects, all attribute names, any later parameter change.",
     "Tests do not copy models, nor probe for missing attributes.",
     [S + "result.py", S + "dispersions/base_dispersion.py", S + "dispersions/formula.py"], [("attribute hooks and captured state", "Result.__getattr__, ResultList.__getattr__, as_index, Formula closures")])
prop("C26", "Ellipsometric conversions are mutually consistent",
     "Psi, delta, rho, amplitude, intensity, Mueller and pseudo-dielectric quantities derived from the same amplitudes or angles satisfy their defining relations: rho = tan(psi) exp(-i delta), reflectance is squared amplitude, transmittance additionally carries the power correction, the isotropic Mueller matrix of psi and delta is the one of the corresponding Jones matrix, and pseudo-dielectric data of a bare isotropic substrate returns that substrate. "
     "Circular-basis quantities are the linear ones expressed in the circular basis.",
     ["inputs"], "All amplitudes, angles and incident angles.",
     "Tests compare selected values; the helper converting psi and delta to a Mueller matrix is not exercised.",
     [S + "result.py", S + "utils.py"], [("conversions", "Result properties, utils.calc_rho, calc_pseudo_diel, convert_psi_delta_to_isotropic_mueller_matrix")])
prop("C27", "Dispersions can be created by name, and only dispersions",
     "Every built-in dispersion can be created by its class name, index-based ones included, and yields the same model as using the class directly. "
     "Any other name, including names of helper modules or importers, is refused with the documented error.",
     ["inputs", "programs"], "All strings.",
     "Tests try a few names.",
     [S + "dispersions/base_dispersion.py", S + "dispersions/__init__.py"], [("factory", "DispersionFactory.get_dispersion")])
prop("C31", "The database catalog lists every page and a search selects from it",
     "The catalog lists every page of the database once, in the database's order, under its shelf, divider, book and page, with author, year, comment and, in nanometres, the first wavelength range its title states. "
     "A search that is not fuzzy returns exactly the rows with a queried value in a requested column, a fuzzy one exactly the rows whose value is suggested for a query, empty entries in other columns notwithstanding, and a wavelength filter keeps exactly the rows whose range contains every given wavelength. "
     "Searching leaves the catalog unchanged, and pages that do not exist or exist more than once are refused.",
     ["inputs", "histories"], "All catalogs (any order, with and without dividers and missing fields), queries, column selections, wavelength filters and fuzzy suggestions.",
     "The tests use one downloaded catalog and a few queries; selection must be exact for every combination of missing and present fields.",
     [S + "database/refractive_index_info.py"],
     [("catalog construction", "RII.__init__"), ("row selection", "RII.search"), ("page lookup", "RII._open_file")],
     ["RII.catalog, result of RII.search"])
prop("C32", "Material files are read as the materials they describe",
     "A NeXus dispersion file is read as the material it describes: each axis becomes the sum of its dispersion functions and tables with their representation, formula, single and repeated parameters and units, identical axes giving an isotropic, two different ones a uniaxial and three a biaxial material, one per entry. "
     "A SpectraRay table is read as the dispersion of its representation (refractive index or dielectric function), with its wavelengths, energies or wave numbers converted to nanometres in any row order. Files that describe something unsupported are refused.",
     ["inputs", "configurations"], "All formulas, numbers of parameters and terms, units, axis combinations, representations and row orders.",
     "Tests read two or three sample files, with one unit and one representation each.",
     [S + "importer/nexus.py", S + "dispersions/table_spectraray.py", S + "dispersions/formula.py", S + "materials.py"],
     [("NeXus materials", "read_nexus_materials, _load_nexus_dispersion helpers"), ("SpectraRay tables", "TableSpectraRay")])
prop("C33", "Plots show the structure and the data they are given",
     "A drawing of a structure shows, from the front to the back medium, the refractive index of every layer (of every repetition) between the interfaces at the accumulated thicknesses, in the requested direction. "
     "A plot of a Mueller matrix shows each of the sixteen elements at its place in the grid against its wavelengths, for every single or list of data frames, with the requested names and colours, and neither plotting nor drawing changes the structure or the frames.",
     ["inputs", "configurations"], "All structures, wavelengths, directions, margins, numbers of frames and values.",
     "Plots have no tests; what is shown must be right for every stack and data set.",
     [S + "plot/structure.py", S + "plot/mueller_matrix.py"],
     [("drawings", "draw_structure, get_index_profile"), ("Mueller grids", "plot_mmatrix")],
     ["curves and patches drawn"])
prop("C28", "Energy is conserved in lossless stacks",
     "For stacks of lossless media reflectance plus transmittance is one, and for absorbing media it never exceeds one.",
     ["inputs"], "All structures, wavelengths and angles.",
     "Only sampled structures are tested.",
     [S + "solver2x2.py", S + "solver4x4.py"], [("power balance", "Result.R, Result.T")])
prop("C29", "The two solvers agree numerically on isotropic stacks",
     "On isotropic stacks the 2x2 solver and the 4x4 solver with every exact propagator return the same amplitudes up to rounding.",
     ["inputs"], "All isotropic stacks.",
     "Only sampled stacks are tested.",
     [S + "solver2x2.py", S + "solver4x4.py"], [("amplitudes", "Solver2x2.calculate, Solver4x4.calculate")])
prop("C30", "Fits converge to the best parameters",
     "A fit of noise-free simulated data started near the true parameters returns the true parameters.",
     ["inputs"], "All models and starting points.",
     "Convergence depends on the numerical optimiser.",
     [S + "fitting/decorator.py"], [("fit", "FitDecorator.fit")])

if __name__ == "__main__":
    import os
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(path, "w") as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(P))
