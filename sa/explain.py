"""What each check specifies, against which oracle and within which bounds (DESIGN.md and MANIFEST.json are generated from it)."""
EXPLAIN = {
"C01": ("Every evaluation entry point (profiles and slices of every layer kind, materials, mixtures, dispersions, sums, tables, Kramers-Kronig, Solver2x2, Solver4x4 with every propagator, Structure.evaluate) is interpreted over symbolic models; after the call every heap record reachable from the arguments is compared with its record before the call, on the normal and on every exceptional exit. Evaluation sequences (twice, two wavelength arrays, after changing each parameter) are compared with a freshly built identical model.",
        "heap records before the call; value of a fresh model", "stacks of up to 3 layers and the listed histories of length 2-3; values, array lengths and parameters are symbolic"),
"C02": ("A result is taken, then every model object it was built from (layers, thicknesses, materials, dispersions' parameters, periods, wavelength array, incident vector) is changed, and every result quantity is compared with the value before the change; objects reachable from the result's experiment are shown disjoint from the caller's objects.",
        "the quantity read before the change, and disjointness of reachable mutable records", "all solvers and propagators, structures of up to 3 layers"),
"C03": ("Every quantity is read in every order of pairs and repeatedly from single, listed and averaged results; stored amplitudes and later reads must be the same terms. Delta ranges are requested in between.",
        "value of the first read; heap records of the stored matrices", "pairs and triples of reads over all names"),
"C04": ("Sums of dispersions, sums and numbers in all groupings are evaluated; the sum must be the sum of the parts (dielectric function for dispersions, index for index dispersions), operands must be unchanged heap records, unsupported operands must raise.",
        "sum of the operands' own symbolic values", "expressions of up to 4 operands over every built-in model"),
"C05": ("Each validated setter and constructor is called with symbolic values constrained to the documented range, outside it, and with wrong types; accepted/raised outcomes are decided from the path conditions, and refused calls must leave the object unchanged.",
        "documented accepted set", "one symbolic value per call, all validated entry points"),
"C06": ("Every angle-consuming entry point is interpreted with a symbolic angle in degrees; the produced value must be the closed formula with exactly one degree conversion (Snell list, reduced wave number, Euler and axis rotations, twisted layers, psi, delta, pseudo-dielectric).",
        "closed formula with one factor pi/180", "symbolic angles; shared obligations of C08, C10, C12, C13, C14, C16, C26"),
"C07": ("Unit conversions, unit-aware formulas and readers are interpreted with every supported unit; results must equal the same data given in nanometres. Includes the shared obligations of the dispersion formulas (C08), readers (C17), database records (C22) and material files (C32) that carry a unit.",
        "linear rescaling of lengths, reciprocal rescaling of energies, frequencies and wave numbers with CODATA constants", "all units of the readers and of pint's spectroscopy context used here"),
"C08": ("For each model the value computed by the source for symbolic parameters, wavelengths and n repeated terms is compared with the formula of its documentation, including the case distinction at the gap; index and dielectric views, tables, pseudo-dielectric values and exported frames are included.",
        "documented formulas, transcribed independently", "0-4 repeated terms; symbolic values (more terms in the thorough tier)"),
"C09": ("Every dispersion class is created with defaults, by name, by position and with wrong names; each parameter must reach the stored parameter of that name, instances must not share parameter containers, refused calls must leave the model unchanged, and changing each parameter must change the value computed.",
        "parameter tables of the documentation", "all classes, every parameter, up to 3 repeated terms"),
"C10": ("delta of scalar, listed and averaged results and of measured frames is compared with the representative of the same angle in the requested range (congruent modulo 360, or folded to 0-180).",
        "congruence and range of the reported value", "symbolic angles, all pairs of integer bounds used plus symbolic bounds"),
"C11": ("Every documented quantity name of results and lists is read from symbolic matrices; it must be exactly the named element or function. Unknown names must raise AttributeError.",
        "name -> element table", "all names; 2x2 symbolic matrices over symbolic wavelength arrays; lists of 1-4 results"),
"C12": ("Solver2x2 and the isotropic paths of Solver4x4 are compared with Fresnel/Airy recursion over symbolic indices, thicknesses and angles, with structural zeros for the cross-polarised amplitudes.",
        "exact thin-film recursion", "0-3 layers (5 in one group), symbolic everything else; 4x4 with up to 2 layers"),
"C13": ("Profiles of every layer kind and nesting are compared with the list built by the specification from the layers' own tensors, in order, with symbolic thicknesses and slice numbers; the slices tile the layer.",
        "profile constructed by the specification", "periods/slices 0-4 concretely and symbolically where the code allows"),
"C14": ("Tensors of isotropic, uniaxial, biaxial and rotated materials are compared with the rotated diagonal tensor of symbolic dispersions; rotation helpers with the rotation matrices.",
        "R diag R^T with documented axes", "symbolic values"),
"C15": ("Each mixing formula is compared with its documented rule at symbolic fraction, its end points and equal constituents; Bruggeman's root satisfies the quadratic.",
        "documented mixing rule", "symbolic tensors and fraction"),
"C16": ("Building blocks of the 4x4 method: Berreman matrix, half-space matrices and inverses, propagators (identity at zero thickness, opposite thicknesses cancel, exponent of the slice), order of the layer product.",
        "4x4 method definitions", "symbolic tensors; expm/eig stay uninterpreted functions with their defining axioms"),
"C17": ("Each reader is interpreted on files whose cells are symbolic numbers, for every format variant, unit, number of angles, row order; the resulting frame must hold exactly the symbols, in nanometres and degrees, with the common index and columns.",
        "the symbols written to the file", "2-3 wavelengths, 1-3 angles per file"),
"C18": ("Every reader, database lookup, mixture, formula and solver call is interpreted on normal, malformed and missing input, in four encodings, and with an I/O error or interrupt injected at every file operation; on every exit opened files must be closed, error settings, warning filters, library options and the unit registry unchanged. The same surroundings are compared at every exit of the specification groups of nine other properties.",
        "process state before the call", "fault points: every operation of small files; other exceptions: those the interpreter derives"),
"C19": ("ParamsHist is driven through all short sequences of commits, undos, updates, bound changes and reverts and compared with a reference history.",
        "reference list model", "all sequences up to length 3-4 over 6 operations, longer selected ones"),
"C20": ("Fit wrappers are driven (objective, callbacks of the generated boxes, buttons, plots) over symbolic data and models; residuals must be the modelled minus the measured quantities, data and model unchanged, displayed traces equal to the data and the model.",
        "residual definition; library models of ipywidgets, lmfit and plotly", "2-3 wavelengths, 1-2 angles"),
"C21": ("Formula texts are parsed with the repository's own grammar by a LALR model and evaluated; the value must be the one of an independent precedence-climbing reading of the text.",
        "operator precedence of the documentation", "all pairs and chains of operators, functions, builtins, names, sums of 1-3 terms"),
"C22": ("Database records of every type with n coefficients are translated; the dispersion's value must be the documented formula of that record type.",
        "formulas of refractiveindex.info", "1-25 coefficients, several records per page"),
"C23": ("Experiment.set_vector, jones and stokes vectors are interpreted for symbolic Jones and Stokes input, named states, wrong shapes.",
        "definition of Stokes parameters", "symbolic vectors"),
"C24": ("Each Kramers-Kronig routine is compared with the trapezoidal principal-value sum over symbolic samples.",
        "documented kernel and quadrature", "2-6 grid points, symbolic values"),
"C25": ("Every model and result is copied, deep-copied and pickled by the interpreter's object protocol; copies must evaluate alike and be independent, probing for attributes must neither recurse nor invent attributes.",
        "original model; object protocol of Python", "all classes"),
"C26": ("psi, delta, rho, intensities, circular amplitudes, Mueller matrices and pseudo-dielectric values are compared with their defining relations over symbolic amplitudes.",
        "defining relations", "symbolic amplitudes, angles, frames with 2-3 rows"),
"C27": ("The factory is called with every class name, with names of every other object of the package and with arbitrary strings; only dispersions may be created.",
        "class hierarchy of the package", "all names in the package, a symbolic string"),
"C31": ("RII is interpreted on symbolic catalogs; rows, splitting of titles, and search results are compared with the selection defined row by row.",
        "row-wise definition", "10 pages in several orders, all column/query/filter combinations listed"),
"C33": ("Structure drawings are made of symbolic stacks and Mueller matrix plots of symbolic frames; what is drawn must be the profile of the structure and the data of the frames, each element at its place, and both arguments must be unchanged heap records.",
        "profile of the structure; cells of the frames", "up to 5 slices; 1-3 frames of 2-3 wavelengths"),
"C32": ("NeXus dispersion files and SpectraRay tables are built as trees/texts with symbolic numbers and read; values, kinds and errors must follow the file's content.",
        "content of the file", "1-3 terms, six units, all axis combinations"),
}
WHY = {
"C01": "mutation of shared parameter objects, caches keyed on too little and in-place array updates show only for particular sequences of evaluations; the heap comparison covers every value and every listed history",
"C02": "aliasing between result and model shows only if the model is changed later",
"C03": "in-place reads show only for particular pairs of reads",
"C04": "operands are rarely looked at again by a test, and only few of the pairings of models are tried",
"C05": "the boundary and the far side of every documented range are covered, and the state after a refusal",
"C06": "a missing or doubled conversion is invisible at 0 degrees and in tests comparing the code with itself",
"C07": "only few combinations of unit and entry point occur in tests",
"C08": "the tests use few parameter values, and compare with stored output of the same code",
"C09": "a parameter that is silently ignored or shared passes any test that uses defaults",
"C10": "wrapping errors show only for some angles in some ranges",
"C11": "names are read from symbolic matrices whose elements are all distinct, unlike those of isotropic samples",
"C12": "the amplitudes are compared as functions of all indices, thicknesses and the angle",
"C13": "order and number of slices matter only for nested, inhomogeneous stacks",
"C14": "rotated low-symmetry tensors do not occur in the tests",
"C15": "end points and equal constituents are special values",
"C16": "the identities hold for every tensor, including non-symmetric ones",
"C17": "cells of files are symbols, so every swap, loss or rescaling of a cell is visible",
"C18": "faults and malformed input do not occur in tests; every operation gets one here",
"C19": "aliasing and order bugs of a history need particular sequences",
"C20": "fitting has no tests at all",
"C21": "all operator combinations are covered",
"C22": "the database itself is not part of the repository",
"C23": "symbolic vectors cover all signs and quadrants",
"C24": "samples are symbols: a wrong weight or a shifted index of any term is visible",
"C25": "protocol methods are called implicitly and on half-built objects",
"C26": "signs and quadrants of all elements are compared symbolically",
"C27": "every name of the package is tried, as well as a symbolic one",
"C31": "row selection depends on combinations of columns, duplicates and missing values",
"C33": "plots have no tests",
"C32": "every combination of axes, entry kinds and units is built",
}
