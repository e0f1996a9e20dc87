PEND = 'check not built yet'
FC = 'euphonic/force_constants.py'
SP = 'euphonic/spectra.py'
CF = ['c/_euphonic.c', 'c/dyn_mat.c', 'c/util.c', 'c/py_util.c', 'c/load_libs.c']


def define(P):
    P('P01', 'Results do not depend on the units arguments are given in',
      'Any quantity passed to a public function or method may be in any compatible unit: the physical result is the same whichever unit is used. No number taken from an argument is compared with, added to, stored as or labelled as a number in another unit, and no fixed threshold or tolerance is applied to a number in the caller\'s unit.',
      ['inputs'], 'all compatible units of all quantity arguments of every public function and method',
      'Tests give each argument in one or two customary units (mostly meV and angstrom), where a missing conversion changes nothing or is invisible.',
      [FC, SP, 'euphonic/broadening.py', 'euphonic/crystal.py', 'euphonic/util.py', 'euphonic/qpoint_frequencies.py', 'euphonic/qpoint_phonon_modes.py', 'euphonic/structure_factor.py', 'euphonic/powder.py', 'euphonic/brille.py'],
      [('conversion of arguments', 'every .to(...).magnitude on an argument'), ('tolerances', 'isclose/allclose and comparisons in spectra.py, crystal.py')],
      'abstract interpretation of the Python source with symbolic units',
      'Every public function/method once, with every Quantity argument in its own unit variable. Values of unknown unit (results of calls not modelled) are not reported on; the numeric correctness of formulas beyond their dimensions is not claimed.')
    P('P02', 'Numbers are in the unit their label says',
      'Every quantity that is returned to a user, stored in an object or written to a dictionary or file is labelled with the unit its numbers really are in, for every choice of display units and every file format read. Numbers in different units are never added, compared or joined as if they were in the same one.',
      ['inputs', 'configurations'], 'all public functions, methods, constructors and readers; all display units; all units stated in input files',
      'Tests compare numbers for the default display units; a wrong factor or label shows only for other units, rarely used outputs or file variants.',
      [FC, SP, 'euphonic/crystal.py', 'euphonic/readers/castep.py', 'euphonic/readers/phonopy.py', 'euphonic/qpoint_frequencies.py', 'euphonic/qpoint_phonon_modes.py', 'euphonic/structure_factor.py', 'euphonic/debye_waller.py', 'euphonic/brille.py', 'euphonic/powder.py', 'euphonic/plot.py'],
      [('internal atomic units', "attributes such as ForceConstants._force_constants"), ('readers', 'euphonic/readers')],
      'abstract interpretation of the Python source with unit algebra (dimension and scale)',
      'Scale and dimension of every number of known unit are tracked through arithmetic, einsum and conversions, including the Ewald sum. Undecided values are listed in the evidence.')
    P('P03', 'Display units can be changed freely, and never to something invalid',
      'Assigning to a unit attribute changes how the data is shown and nothing else; assigning to a data attribute stores the value given, which reads back in the unit it was given in. An assignment that cannot be honoured because the unit is incompatible raises an error and leaves the object as it was.',
      ['inputs', 'histories'], 'all unit and data attributes of all data classes, all units',
      'Tests try a few valid and invalid units on some attributes.',
      ['euphonic/validate.py', 'euphonic/crystal.py', FC, SP, 'euphonic/qpoint_frequencies.py', 'euphonic/qpoint_phonon_modes.py', 'euphonic/structure_factor.py', 'euphonic/debye_waller.py'],
      [('unit attribute check', 'euphonic/validate.py: _check_unit_conversion'), ('property setters', 'each data class')],
      'abstract interpretation of property and assignment code with symbolic and unconvertible units',
      'All (class, attribute) pairs found in the source; conversions are assumed to raise for incompatible units as pint does.')
    P('P04', 'What is written to a dictionary or JSON file is read back as it was',
      'Every data object that is converted to a dictionary or written to a JSON file, and read back, is the object it was: each data attribute holds the same values in the same display unit, with the same element kind, and optional parts that are present or absent stay so. This holds whatever units the data is shown in, whatever is left out, for any number of q-points, and for arrays of any memory layout or precision.',
      ['inputs', 'histories'], 'all data classes with from_dict/from_json_file; all display units; all combinations of optional parts; symbolic array contents',
      'Tests write a few fixed objects in default units and compare what they compare; a lost option, unit or axis shows only for objects they do not build.',
      ['euphonic/io.py', 'euphonic/crystal.py', FC, SP, 'euphonic/qpoint_frequencies.py', 'euphonic/qpoint_phonon_modes.py', 'euphonic/structure_factor.py', 'euphonic/debye_waller.py'],
      [('writing', 'euphonic/io.py: _obj_to_dict, _to_json_dict'), ('reading', 'euphonic/io.py: _from_json_dict, _process_dict; from_dict of each class')],
      'abstract interpretation of the composition write-then-read with exact-value provenance and symbolic units',
      'Every class once from a fully symbolic object. A value counts as read back only if it is an input attribute through conversions of unit, container or memory layout that keep it. Decimal rounding in JSON text, metadata holding values JSON cannot represent, and arrays of a kind the class does not document (real eigenvectors) are outside.')
    P('P05', 'Python and the C extension agree on every value they exchange',
      'Whatever the types (integers or floating point of any width), memory order or provenance of the real arrays a user supplies, each value handed to the compiled phonon routine has the position, kind, element type, memory layout and name the routine reads it with. No input makes the routine reinterpret memory of another type, misread a strided array, or look up something that does not exist.',
      ['inputs', 'configurations'], 'all real element types, memory layouts and provenances of user arrays, all option combinations reaching the extension',
      'Tests pass arrays of the usual dtype and order; a mismatch shows only for unusual inputs and then as garbage numbers.',
      [FC, 'euphonic/validate.py', 'c/_euphonic.c', 'c/py_util.c'],
      [('argument tuple and format string', FC + ': calculate_phonons call / c/_euphonic.c: PyArg_ParseTuple'),
       ('contiguity and dtype enforcement', 'euphonic/validate.py')],
      'element-type and memory-layout analysis by abstract interpretation of the Python caller, against the types read by the clang AST of the C callee',
      'Element type, C order, argument kind and position, attribute and key names. Array shapes are the subject of P27. Complex q-points or cell vectors, and long doubles, are outside the statement.')
    P('P06', 'Phonon results do not depend on threads or on earlier q-points',
      'The compiled phonon calculation gives every q-point the same frequencies, eigenvectors and gradients whatever the number of threads, the schedule, and the other q-points in the call: threads share no writable storage except their own part of the output, and no scratch data of one q-point reaches another.',
      ['schedules', 'inputs'], 'all thread counts, all interleavings of the parallel loop, all q-point lists and options',
      'A race or stale buffer corrupts results only under particular interleavings; tests use few q-points on few threads.',
      CF[:3], [('private scratch buffers per thread', 'c/_euphonic.c: parallel region'), ('outputs sliced by q-point', 'c/_euphonic.c')],
      'OpenMP data-sharing, buffer re-initialisation and slice-containment analysis of the clang AST',
      'Every write reachable from the parallel region is classified (private, owned slice, atomic). Assumes LAPACK and libm are re-entrant; floating-point determinism of LAPACK is not claimed.')
    P('P07', 'The C extension leaks nothing and releases nothing twice',
      'On every path through the compiled extension, successful or failing, each memory block, Python reference and interpreter-lock state that was acquired is released exactly once, and nothing is used uninitialised, when null, or after release.',
      ['inputs', 'fault_sequences'], 'all paths, including every failing lookup, import, parse and option combination',
      'Leaks and reference errors do not change results; failing paths are never exercised by tests.',
      CF, [('clean-up before return', 'c/_euphonic.c: fail label'), ('reference helpers', 'c/py_util.c'), ('lock handling', 'c/load_libs.c')],
      'path-sensitive typestate analysis over control-flow graphs of the C code',
      'All paths with correlated branch conditions; inlined helpers. Assumes documented CPython/NumPy reference semantics; an allocation failure (NULL from malloc) is not modelled.')
    P('P08', 'A failure inside the C extension always becomes a Python exception',
      'If anything the compiled extension relies on fails (argument parsing, reading a required value, loading the LAPACK routine, diagonalising a matrix), the call raises a Python exception; it never returns normally with results that were not computed, and never signals an error without an exception.',
      ['fault_sequences', 'inputs'], 'all failing calls on all paths, including failures inside the parallel loop',
      'Tests cannot make LAPACK, imports or lookups fail.',
      CF, [('status returns and goto fail', 'c/_euphonic.c'), ('LAPACK info', 'c/dyn_mat.c')],
      'path-sensitive error-propagation analysis over control-flow graphs of the C code',
      'Every modelled failing call on every path ends in NULL with an exception set. malloc failure is not modelled.')
    P('P11', 'Calculations never change what they are given',
      'No function or method changes the arrays, dictionaries, lists or data objects passed to it, nor (unless changing it is its documented purpose) the object it is called on: a calculation may only remember derived data. The same call can be repeated on the same inputs.',
      ['inputs', 'histories'], 'all public functions, methods and constructors with all arguments, on every path',
      'Tests compare outputs; whether an input array or dictionary was altered is visible only to a caller that uses it again.',
      [FC, SP, 'euphonic/crystal.py', 'euphonic/util.py', 'euphonic/io.py', 'euphonic/brille.py', 'euphonic/powder.py', 'euphonic/broadening.py', 'euphonic/qpoint_frequencies.py', 'euphonic/qpoint_phonon_modes.py', 'euphonic/structure_factor.py', 'euphonic/validate.py'],
      [('dictionary input', 'euphonic/io.py: _process_dict'), ('caches', FC + ': _calculate_phonons_at_qpts')],
      'may-alias and write-effect analysis by abstract interpretation of the Python source',
      'All stores whose target may refer to an argument. Memory reached only through calls that are not modelled is not followed.')
    P('P12', 'Derived objects and dictionaries are independent of their source',
      'Copies, dictionaries, sums, products, slices, splits, averages and broadened spectra share no array, list or dictionary with the object they were made from, so that changing one never changes the other. Only the crystal, the q-points and the weights a calculation was made for may be shared with its result.',
      ['inputs', 'histories'], 'all methods returning data objects, collections or dictionaries, on every path',
      'Sharing is invisible until one of the two objects is modified later, which tests do not do.',
      [SP, FC, 'euphonic/crystal.py', 'euphonic/io.py', 'euphonic/qpoint_frequencies.py', 'euphonic/qpoint_phonon_modes.py', 'euphonic/structure_factor.py', 'euphonic/debye_waller.py'],
      [('to_dict', 'euphonic/io.py: _obj_to_dict'), ('copies of spectra', SP)],
      'alias analysis of results by abstract interpretation of the Python source',
      'Arrays, lists and dictionaries reachable from each result. Getters, and constructors given arrays, are outside the statement; immutable values (numbers, strings) may be shared.')
    P('P15', 'Options with a fixed set of values are validated',
      'Each option documented to take one of a fixed set of values works with every one of them. With any other value, a call whose outcome depends on that option raises an error: an unknown value is never silently treated as one of the documented ones or ignored.',
      ['inputs', 'configurations'], 'all public functions and methods with an enumerated option, each documented value, and undocumented values: arbitrary, empty and near misses',
      'Tests try the documented values and at most one wrong one per function; which code path a misspelt value falls into is not exercised.',
      [FC, SP, 'euphonic/qpoint_frequencies.py', 'euphonic/qpoint_phonon_modes.py', 'euphonic/powder.py', 'euphonic/broadening.py', 'euphonic/sampling.py', 'euphonic/readers/phonopy.py'],
      [('broaden', SP), ('sphere sampling methods', 'euphonic/powder.py')],
      'abstract interpretation of the Python source with documented and undocumented option values, with control dependence on the option',
      'Options are those with Literal types or one-of-{...} documentation. A value that a call has no use for (say a fit name when the width does not vary) is not required to be refused. Options of the command-line tools are left to argparse.'),
    P('P16', 'Every argument and option takes effect',
      'Every argument of a public function or method influences what it returns, changes, writes or draws, whatever the other options: none is ignored, and none is replaced by a default on its way to the step that uses it. Each part of a result is computed from all the inputs that determine it.',
      ['inputs', 'configurations'], 'all arguments of all public functions and methods, in general and for every value of every enumerated option',
      'Tests call most functions with a few combinations of options; an option that is lost on the way for the others changes no test result.',
      [FC, SP, 'euphonic/qpoint_frequencies.py', 'euphonic/qpoint_phonon_modes.py', 'euphonic/structure_factor.py', 'euphonic/powder.py', 'euphonic/broadening.py', 'euphonic/brille.py', 'euphonic/plot.py', 'euphonic/util.py', 'euphonic/sampling.py', 'euphonic/crystal.py'],
      [('forwarding of options', 'every call between public functions, e.g. QpointPhononModes.calculate_pdos, powder.sample_sphere_*'), ('table of required inputs', 'spec/flows.json in /verif')],
      'interprocedural data- and control-dependence analysis by abstract interpretation of the Python source',
      'May-dependence: an input that still reaches a result, by whatever computation, counts as taking effect; how it does is not claimed. Options that only choose between raising and not raising are listed in lib/checks_deps.py.')
    P('P18', 'Derived objects keep the context of the data they come from',
      'An object made from others (structure factor, Debye-Waller factor, frequencies, spectrum, copy, slice, split, sum, selection, grouping, broadening) keeps the crystal, q-points, weights, temperature, tick labels, metadata and axes of what it is made from. None of them is dropped, replaced by a default, or taken from something else, for any option.',
      ['inputs', 'configurations'], 'all public methods and functions returning data objects, all options, all objects that may be returned',
      'Tests compare the main data; context that is lost matters only to a later step that uses it, such as averaging, plotting or selecting.',
      [SP, 'euphonic/qpoint_frequencies.py', 'euphonic/qpoint_phonon_modes.py', 'euphonic/structure_factor.py', FC, 'euphonic/brille.py', 'euphonic/powder.py'],
      [('constructor calls', 'wherever a data object is made from another'), ('table of required sources', 'spec/flows.json in /verif')],
      'interprocedural data-dependence analysis by abstract interpretation of the Python source',
      'Every object a public method may return, for every value of every enumerated option; two parts confused within one value of the same origin are not told apart.')
    P('P20', 'The same inputs always give the same results',
      'What a function or method returns, stores, writes or draws is decided by its arguments and the object it is called on. Random numbers take part only where they are asked for (random sampling, jitter), and the clock, environment variables, the number of processors, object identities, hashes, and the arbitrary iteration order of sets never do. The environment may choose the number of threads, which results do not depend on.',
      ['inputs', 'configurations', 'histories'], 'all public functions and methods; those with jitter or sampling options for every combination that asks for no random numbers',
      'A test run has one environment, one hash seed and small inputs; a dependence on anything else passes by luck.',
      [FC, SP, 'euphonic/sampling.py', 'euphonic/powder.py', 'euphonic/crystal.py', 'euphonic/qpoint_phonon_modes.py', 'euphonic/util.py', 'euphonic/brille.py'],
      [('number of threads', FC), ('jitter', 'euphonic/sampling.py')],
      'abstract interpretation of the Python source: information flow from non-input sources, through data and control',
      'Order is followed for sets of strings or unknown objects; two plain dictionaries with equal entries count as equal results. The C extension is covered by P06.'),
    P('P21', 'No call changes process-wide state',
      'Importing the package, calling any function or method, or running a command-line tool leaves the state that all code in the process shares as it was, also when an error is raised: numpy error handling and print options, warning filters, random seeds, environment variables, working directory, locale, matplotlib defaults, unit registry, attributes of modules and classes, module-level tables and default arguments. Temporary changes are undone on every path.',
      ['histories', 'fault_sequences'], 'all calls and assignments in all modules, command-line tools included',
      'The damage shows in code that runs later, or only after an error; each test looks at one call.',
      ['euphonic/qpoint_frequencies.py', 'euphonic/structure_factor.py', 'euphonic/util.py', 'euphonic/readers/phonopy.py', 'euphonic/plot.py', 'euphonic/cli/utils.py'],
      [('warning filters', 'euphonic/structure_factor.py: calculate_1d_average'), ('plot styles', 'euphonic/cli/dos.py: main')],
      'effect lint over the syntax trees with import and alias resolution and caller contexts',
      'Drawing from the global random number generator where random numbers are asked for is allowed, and so are figures. Caches kept on the objects a user made are outside the statement.'),
    P('P22', 'Optional packages are needed only by what uses them',
      'Importing any library module, and calling any function or method, needs only the required dependencies, except where the feature asked for uses an optional one: matplotlib for plotting, PyYAML or h5py for the Phonopy files of that format, brille for the Brille interpolator, the C extension unless use_c=False. A missing optional package then gives an import error that names it or how to install it, and never stops a feature that has no use for it.',
      ['configurations', 'inputs'], 'all modules, all public functions and methods for every value of every enumerated option',
      'The tests run in one environment with everything installed, and can never see that a package is missing.',
      ['euphonic/readers/phonopy.py', 'euphonic/plot.py', 'euphonic/brille.py', FC, 'euphonic/cli/utils.py', 'euphonic/cli/powder_map.py'],
      [('lazy imports', 'euphonic/readers/phonopy.py: _extract_phonon_data_*; force_constants.py: _calculate_phonons_at_qpts'), ('guarded imports', 'euphonic/plot.py, euphonic/brille.py, euphonic/cli')],
      'import-graph analysis of the syntax trees, and abstract interpretation of the Python source for the imports made by calls',
      'What is optional is read from setup.py / pyproject.toml. The command-line tools may use matplotlib when they plot; their modules are checked for guarded imports only.')
    P('P27', 'The C extension stays inside its arrays',
      'For every number of atoms, cells, images, q-points, dipole cells and reciprocal vectors, every array access of the compiled extension lies inside the memory of the array it addresses, and optional arrays that may be empty are only touched when present.',
      ['inputs'], 'all positive array dimensions and option combinations',
      'An access slightly out of bounds normally goes unnoticed; tests use a handful of crystal sizes.',
      CF[:3], [('index arithmetic', 'c/dyn_mat.c, c/_euphonic.c, c/util.c')],
      'symbolic (polynomial) array-bounds analysis of the clang AST',
      'All index expressions are polynomials in dimensions and loop variables, proved within bounds for all dimensions >= 1. Array shapes are those the Python caller allocates (table in lib/cbounds.py); sites whose index is data-dependent are listed as undecided in the evidence.')
