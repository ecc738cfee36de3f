P = []
NOTES = 'Every check parses the current sources with clang 18 (build/mara-ast, built by setup_cmd) and decides its rules on the resolved program; nothing of the project is compiled to machine code or run.'


def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None):
    d = dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': text}, why_tests_cant=why,
             anchors={'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}, technique=technique, note=note)
    if na: d['na'] = na
    P.append(d)


VG = 'clang AST -> gated value graph (global value numbering with interprocedural expansion), '
TB = ' Trusted: clang\'s front end, the value-graph builder and the normal form in /verif/rules; arithmetic is over the reals (rounding abstracted).'

prop('C21', 'Primitive/conserved conversions are mutually inverse in all three gas models',
     'For each gas model (2D isothermal, Euler, relativistic), the conserved densities computed from a primitive state have their textbook definition and recovering primitives from them yields the original state again, also for the angular-momentum form of the isothermal conserved state at any position. The pressure floor changes the recovered pressure only when a floor is requested and then to the documented floor value; the relativistic root finder only accepts an iterate whose residual is below its tolerance.',
     ['inputs'], 'every admissible primitive state, position, adiabatic index and temperature floor',
     'The tests convert a handful of states; the identity has to hold for all of them, and an error that vanishes on axis-aligned or zero-velocity states is invisible to the samples.',
     ['src/physics_iso2d.hpp', 'src/physics_euler.hpp', 'src/physics_srhd.hpp'],
     [('to_conserved_per_area / to_conserved_angmom_per_area / recover_primitive', 'src/physics_iso2d.hpp'), ('to_conserved_density / recover_primitive', 'src/physics_euler.hpp'), ('to_conserved_density / recover_primitive (root finder)', 'src/physics_srhd.hpp')],
     VG + 'composition compared in rational-function normal form',
     'Decides the algebraic identity for all inputs. For the relativistic solver it decides that the exact pressure is a fixed exit of the root finder and that the exit tests the residual; convergence of the iteration is not decided.' + TB)

prop('C22', 'Physical fluxes, wave speeds and geometric sources obey the conservation law',
     'In each gas model the flux through a face of any orientation equals advection of the conserved state with the face-normal velocity plus the pressure terms; the wave speeds are the extreme characteristic speeds; sound speed and enthalpies follow the gamma-law (or isothermal) equation of state. The geometric source terms (spherical coordinates; angular-momentum form of the isothermal system) are exactly those implied by the same stress tensor.',
     ['inputs'], 'every primitive state, face normal, radius, angle, adiabatic index and sound speed',
     'Tests evaluate fluxes for a few states with axis-aligned normals; a wrong cross term only shows for oblique normals or transverse motion.',
     ['src/physics_iso2d.hpp', 'src/physics_euler.hpp', 'src/physics_srhd.hpp'],
     [('flux, wavespeeds, max_wavespeed, source_terms_conserved_angmom', 'src/physics_iso2d.hpp'), ('flux, wavespeeds, spherical_geometry_source_terms', 'src/physics_euler.hpp, src/physics_srhd.hpp')],
     VG + 'compared with the reference law in rational-function normal form',
     'Decides the identities for all inputs.' + TB)

prop('C23', 'Riemann solvers return the HLL / HLLC flux of the two states in every regime',
     'The HLLE flux of every gas model is the left flux when all waves move right, the right flux when all move left, and otherwise the HLL average with the outermost wave speeds of both states; it is therefore consistent (equal states give the physical flux). The isothermal HLLC flux and interface state equal, in each of the four wave sectors, the flux and state of that sector with the standard wave-speed estimates.',
     ['inputs'], 'every pair of states, face orientation, sound speeds and every ordering of the wave speeds',
     'Tests check consistency for equal states; supersonic sectors and asymmetric wave fans are never sampled.',
     ['src/physics_iso2d.hpp', 'src/physics_euler.hpp', 'src/physics_srhd.hpp'],
     [('riemann_hlle', 'src/physics_*.hpp'), ('compute_hllc_variables, interface_flux, interface_conserved_state, riemann_hllc', 'src/physics_iso2d.hpp')],
     VG + 'case-split over the finite set of wave-speed orderings, rational-function normal form',
     'Decides the identity in every open sector of wave-speed orderings; degenerate equalities follow by continuity of the formula.' + TB)

prop('C24', 'The Euler eigensystem diagonalises the flux Jacobian; Roe averages are exact',
     'The flux Jacobian is the derivative of the flux with respect to the conserved state, the left and right eigenvector matrices are inverses of each other and diagonalise it with the stated eigenvalues in order. The Roe average of two states is their square-root-of-density weighted mean.',
     ['inputs'], 'every primitive state and adiabatic index',
     'The tests compare matrices for one or two states with a tolerance.',
     ['src/physics_euler.hpp', 'src/physics_iso2d.hpp'],
     [('flux_jacobian, left_eigenvectors, right_eigenvectors, eigenvalues, roe_average', 'src/physics_euler.hpp')],
     VG + 'matrix identities entry by entry in rational-function normal form',
     'Decides all matrix entries for all inputs.' + TB)

prop('C25', 'Unphysical states are rejected instead of being returned',
     'In the isothermal model a conserved state with negative surface density, and in the relativistic model one whose recovered density or pressure is not positive, whose Lorentz factor is NaN or whose root search did not converge, raises an error instead of returning a state (and an isothermal state with positive density is never rejected). The HLLC solver raises an error rather than returning a flux when no wave sector contains the interface.',
     ['inputs'], 'every conserved state, including NaN wave speeds',
     'Tests feed valid states; the failure branches are not sampled.',
     ['src/physics_iso2d.hpp', 'src/physics_srhd.hpp'],
     [('recover_primitive guards', 'src/physics_*.hpp'), ('riemann_hllc_variables_t::interface_flux', 'src/physics_iso2d.hpp')],
     VG + 'normal-return condition implies the admissibility condition (propositional, over normalised comparison atoms)',
     'Decides that every normal return is guarded.' + TB)

prop('C07', 'Quantities of different physical dimension cannot be mixed',
     'No program that adds, subtracts, compares, assigns or converts quantities of different length, mass or time dimension compiles, and none that reads a dimensional quantity as a plain number without saying so. Products, quotients and powers of quantities carry exactly the combined dimensions, also element-wise through vectors, tuples and the flux, source and conserved types of the gas models.',
     ['programs'], 'every program written against the dimensional types',
     'A test can only contain programs that compile; that ill-dimensioned programs are rejected is not observable from inside the test binary.',
     ['src/core_dimensional.hpp', 'src/core_sequence.hpp', 'src/core_tuple.hpp', 'src/physics_iso2d.hpp', 'src/physics_euler.hpp', 'src/physics_srhd.hpp'],
     [('dimensional_value_t operators and static assertions', 'src/core_dimensional.hpp')],
     'type-level encoding: static assertions and compile-fail witnesses type-checked by clang against the current headers',
     'Decides, for each listed operation and each of the three base dimensions, that the ill-dimensioned program is rejected and the well-dimensioned twin accepted. Trusted: clang\'s type checker.')

prop('C19', 'Rational numbers are exact and always in canonical form',
     'Every rational number is stored in lowest terms with a positive denominator (zero as 0/1), arithmetic and comparison between rationals and integers are the exact ones, and equal values compare equal. A zero denominator is rejected and only integral values convert to integers.',
     ['inputs'], 'every pair of rationals and integers (within the range of int)',
     'Tests try a few fractions; equality relies on canonical form after every sequence of operations, and sign/zero cases are rarely sampled.',
     ['src/core_rational.hpp'], [('rational_number_t constructor, reduce, gcd, operators', 'src/core_rational.hpp')],
     VG + 'case split over the gating conditions, rational-function normal form; gcd by a table of gcd-preserving loop steps',
     'Decides exactness and canonical form for all operands; integer overflow is outside the statement. The gcd routine is accepted if it is the library one or if every loop step is gcd-preserving.' + TB)

prop('C20', 'Vector, tuple, matrix and unit-vector algebra follows the component-wise laws',
     'Arithmetic, comparison, reductions, and the mapping, setting, joining, reversing and transposing operations on fixed-size vectors and tuples give in every component exactly what the mathematical definition says, and matrices add, scale, multiply and compare accordingly. A direction constructed from any nonzero vector has unit length, and projections onto it are scalar products.',
     ['inputs'], 'every operand value and every component',
     'Tests use small integers and often equal or symmetric operands, which hide swapped or reused components.',
     ['src/core_sequence.hpp', 'src/core_tuple.hpp', 'src/core_matrix.hpp', 'src/core_geometric.hpp', 'src/core_dimensional.hpp'],
     [('arithmetic_sequence_t / derivable_sequence_t', 'src/core_sequence.hpp'), ('arithmetic_tuple_t / derivable_tuple_t', 'src/core_tuple.hpp'), ('matrix_t, matrix_product', 'src/core_matrix.hpp'), ('unit_vector_t', 'src/core_geometric.hpp')],
     VG + 'each public operation on symbolic operands compared with its component-wise definition in normal form',
     'Decides each operation for arbitrary operands at one representative size per container (3-vectors, 2x3 matrices); other sizes use the same template code.' + TB)

prop('C11', 'N-d array operations have their documented shape and index law, in bounds',
     'For arrays of any shape and content, each array operation (select, replace, shift, freeze, concatenate, extend, difference, midpoint, zip, map, collect, cartesian product, arithmetic, comparison, reductions, where, reshape and evaluation to memory) yields exactly the documented shape and, at every index, exactly the documented source element; no operation reads outside its source, and incompatible shapes or out-of-bounds regions throw. Iterating an access pattern visits every index of the region exactly once in row-major order (an empty region: none), memory-backed arrays store element (i, j) at its row-major offset in a buffer of exactly that size, and a moved-from buffer owns nothing.',
     ['inputs'], 'every shape, region, jump and element value',
     'Tests use one or two small shapes; off-by-one errors at the far edge, on the second axis, with jumps > 1 or for empty regions are never sampled.',
     ['src/core_ndarray.hpp', 'src/core_ndarray_ops.hpp'],
     [('access_pattern_t (shape, within, generates, advance, map_index)', 'src/core_ndarray.hpp'), ('selector_t, axis_selector_t, replacer_t, concatenator_t, axis_shifter_t, axis_freezer_t', 'src/core_ndarray.hpp'), ('unique_provider_t, shared_provider_t, buffer_t', 'src/core_ndarray.hpp'), ('extend_*, difference_on_axis, midpoint_on_axis, zip_adjacent', 'src/core_ndarray_ops.hpp')],
     VG + 'applied to every public operation on an uninterpreted array of symbolic shape; index laws and guards compared by case split and linear integer reasoning',
     'Decides the index law, shape and guard of each operation for all shapes (rank 2, with rank 1 and 3 where the code recurses over axes), index arithmetic being over mathematical integers.' + TB)

prop('C12', 'Refining, coarsening and assembling mesh blocks moves every element to its place',
     'Refining a block of cells gives, in every child orthant and cell, the value of the coarse cell that contains it; refining vertices gives the coarse vertices and the midpoints between them. Coarsening averages (or, for extrinsic data, adds) exactly the cells inside each coarse cell, combining puts each child block into its orthant, and bisecting needs the proper parity. Looking up a block in a tree gives the stored block, the matching part of its refined parent, or its coarsened children, whatever the block shape.',
     ['inputs'], 'every block shape and content in one, two and three dimensions and every orthant',
     'Tests use one small block, mostly with equal values in both directions; a wrong orthant, axis or offset is not seen.',
     ['src/mesh_prolong_restrict.hpp', 'src/mesh_tree_operators.hpp'],
     [('refine_cells, refine_verts, coarsen_*, combine_*, bisect_*, restrict_*, prolong_*', 'src/mesh_prolong_restrict.hpp'), ('get_cell_block, get_vertex_block', 'src/mesh_tree_operators.hpp')],
     VG + 'applied to each operation on an uninterpreted block of symbolic shape; index laws compared by case split and linear integer reasoning with division facts',
     'Decides the source element of every element for all shapes; block look-up on a representative quad-tree with one refined quadrant (leaf, parent and child cases).' + TB)

prop('C18', 'Tree indexes and trees obey their structural laws',
     'Parent, child, orthant and neighbour indexes are consistent with each other for every node (children of a node have it as their parent, neighbours wrap around periodically, an index names the same node seen from each level). Looking a node or value up finds exactly the leaf at that index, reports absence otherwise, and never returns another node; mapping, zipping, updating, inserting, bifurcating and reducing act on every leaf exactly once and keep the tree structure, trees of different shape cannot be zipped, and the Hilbert index numbers the nodes of a level uniquely along a continuous curve.',
     ['inputs'], 'every coordinate, every leaf value and every leaf position',
     'Tests use trees with equal leaves or two levels and a few indexes; wrong orthant order or wrap-around at other levels is not seen.',
     ['src/core_tree.hpp', 'src/mesh_tree_operators.hpp'],
     [('tree_index_t', 'src/core_tree.hpp'), ('arithmetic_binary_tree_t', 'src/core_tree.hpp'), ('hilbert_index, binary_repr, to_integral', 'src/core_tree.hpp'), ('over_refined_neighbors', 'src/mesh_tree_operators.hpp')],
     VG + 'index laws for arbitrary coordinates by linear integer reasoning with division facts; structure laws on a three-level tree with arbitrary leaf values',
     'Decides the index laws for all coordinates (at levels 0-7 where the level occurs in a shift) and every tree operation on one asymmetric three-level tree with symbolic leaves.' + TB)

prop('C03', 'Scheduled tasks are run when due, once, in order, with exact bookkeeping',
     'A task becomes due exactly when the given time has advanced past its last-performed time by at least its interval; its last-performed time then advances by exactly one interval (never to the current time, so no interval is lost) and a task already due stays due. Running scheduled tasks invokes exactly those that were due in the given state, in the listed order, each on the result of the one before; completing a task clears its due flag and counts it once. Other tasks are never touched, new tasks start at count 0, time 0, not due, and a task that was never scheduled is reported as an error.',
     ['inputs', 'histories'], 'every schedule (counter, time, due flag), current time, interval and task list',
     'The tests create and complete one task; cumulative drift, touched neighbours and tasks made due by other tasks need particular histories.',
     ['src/app_schedule.hpp'],
     [('schedule_t', 'src/app_schedule.hpp'), ('mark_tasks_in, run_scheduled_tasks, complete_task_in', 'src/app_schedule.hpp')],
     VG + 'each operation on a schedule with arbitrary contents compared with the bookkeeping law by case split',
     'Decides each operation for arbitrary counters, times and flags on schedules of two tasks (names are treated uniformly).' + TB)

prop('C17', 'Run configurations are typed, complete and reject what they cannot represent',
     'A configuration holds exactly the options of its template, each with its declared type (integer, real, text) and its default until set; setting an option changes that option only and, on a constant configuration, only the returned copy. Unknown options, values of another type and, for integers and reals given as text, text that is not entirely a number are rejected with an error and never stored; updates from several sources apply in order. A command line is split at the first "=" of each argument, arguments without "=" are ignored and an option given twice is rejected.',
     ['inputs'], 'every option value, text and argument list',
     'The tests set a few options; mixed types, partially numeric text and values containing "=" are not sampled.',
     ['src/app_config.hpp'],
     [('config_t (get, set, update)', 'src/app_config.hpp'), ('config_template_t', 'src/app_config.hpp'), ('argv_to_string_map', 'src/app_config.hpp')],
     VG + 'each operation on a configuration with arbitrary contents compared with its definition; strings by structured-string models',
     'Decides each operation for arbitrary values on a template with one option per type (names are treated uniformly). Text-to-number conversion itself is the standard library\'s.' + TB)

prop('C01', 'Stored state is read back unchanged and a restart continues the same run',
     'Every value written to a file (numbers, text including empty text, vectors, arrays, sequences, rationals, lists, schedules, configurations, trees of any rank and structure) is read back equal, independently of what else is stored beside it. Restarting the boilerplate, sedov, cloud or binary program from a checkpoint it wrote yields exactly the state of the run that wrote it (solution, iteration, time series, task counters and times, run configuration except for options given with the restart), and performs no task again. Missing files or names, other types, shapes or modes are reported as errors, and checkpoint file names differ between checkpoints.',
     ['inputs', 'histories', 'crash points'], 'every stored value, every solution state and every task history at the time of a checkpoint',
     'Tests write and read a few scalars; restarts of the programs are not tested at all, and a lost or swapped field shows only in a run continued from a file.',
     ['src/app_serialize.hpp', 'src/app_serialize_tree.hpp', 'src/core_hdf5.hpp', 'src/subprog_binary_io.cpp', 'src/subprog_binary.cpp', 'src/subprog_sedov.cpp', 'src/subprog_cloud.cpp', 'src/subprog_boilerplate.cpp'],
     [('write_schedule, read_schedule, write_config, read_config', 'src/app_serialize.hpp'), ('write_tree, read_tree, format_tree_index', 'src/app_serialize_tree.hpp'), ('read/write<solution_t>, <state_t>', 'src/subprog_binary_io.cpp'), ('create_app_state, run_tasks, write_checkpoint', 'src/subprog_sedov.cpp')],
     VG + 'write-then-read and checkpoint-then-restart on arbitrary states, through a model of the HDF5 C library as a store of named typed values; results compared field by field',
     'Decides the round trip for arbitrary contents; one tree structure per rank (three levels for rank 2), schedules of the programs\' own tasks, lists of up to three elements. The C++ wrapper is analysed, the HDF5 C library is modelled.' + TB)

prop('C02', 'HDF5 types and selections describe exactly the memory and region meant',
     'The HDF5 type of every stored C++ type has the size of the object and describes each of its members with its own type at its own offset, nothing else; data spaces have exactly the shape of the container, memory prepared for reading has exactly the extent of the data set, and hyperslab selections pass start, stride, count and block of the access pattern in their roles. Extending a data set and writing at its end changes that element only. A data set that exists is reused only if its type, extent and creation properties are those asked for; inconsistent selections and extents are rejected.',
     ['inputs'], 'every stored type, container shape and selection',
     'Tests write one compound type of two members; an omitted or misplaced member reads back as garbage only for particular types, a wrong size corrupts memory.',
     ['src/core_hdf5.hpp', 'src/app_serialize.hpp', 'src/subprog_binary_io.cpp'],
     [('hdf5_type_info', 'src/core_hdf5.hpp'), ('Dataspace::select, Dataset::set_extent, require_dataset', 'src/core_hdf5.hpp'), ('make_hdf5_hyperslab', 'src/app_serialize.hpp'), ('hdf5_type_info of the binary types', 'src/subprog_binary_io.cpp')],
     VG + 'the type built for each stored class compared with the record layout the compiler front end computes; spaces and selections compared with their definition',
     'Decides size and member coverage for each stored type for the layout of this platform, and shapes and selections for all values (rank 1 and 2).' + TB)

prop('C08', 'HDF5 identifiers are owned by one object and released exactly once',
     'Every identifier obtained from the HDF5 library belongs to exactly one handle object (file, group, data set, data type, data space, property list). It is released exactly once, by the function for its kind: when the object is destroyed, closed, or assigned another one. Moving hands it over and leaves the source empty, copying a type, space or property list makes an identifier of its own, closing twice or assigning an object to itself is harmless.',
     ['inputs', 'histories'], 'every sequence of construction, copy, move, assignment, close and destruction',
     'Leaks and double releases do not change any value a test compares; a leaked file makes a later attempt to open it for writing fail.',
     ['src/core_hdf5.hpp'], [('Datatype, Dataspace, PropertyList, Link, Dataset, Group, File', 'src/core_hdf5.hpp')],
     'static analysis: typestate of identifiers over the value graphs of all special member functions of the handle classes, and an ownership rule over every identifier-returning call in the syntax tree of all translation units',
     'Each special member function is decided for objects with and without an identifier; that objects going out of scope are destroyed is the language\'s guarantee.' + TB)

prop('C09', 'No failure of the HDF5 library goes unnoticed',
     'Whenever any call into the HDF5 library made by an operation of the file interface (open, create, write, read, iterate, size, names, types, spaces, extents) fails, the operation throws instead of returning a result as if it had succeeded, or its result and the file contents are what they would have been. Operations on closed files and groups throw.',
     ['inputs', 'crash points'], 'every library call of every operation',
     'Tests cannot make the library fail at a chosen call; an unnoticed failure gives silently truncated or empty data.',
     ['src/core_hdf5.hpp', 'src/app_serialize.hpp'], [('detail::check and its callers', 'src/core_hdf5.hpp')],
     VG + 'each operation re-analysed once per library call site with that call returning its error value; no normal return may remain',
     'Decides each call site of 26 operations that together reach every call of the wrapper; closing and error-reporting calls are excluded, read_config (which reports and skips unreadable options by design) is not covered.' + TB)

prop('C28', 'Immutable lists keep contents and order; operations never disturb shared lists',
     'Prepending, appending, concatenating, reversing, iterating, taking head or tail, constructing from a range and comparing immutable lists give exactly the elements and order of their definition for lists of any length including empty ones; head and tail of an empty list are errors. No operation (including destroying a list) changes the contents of the lists it started from or of lists sharing elements with them.',
     ['inputs', 'histories'], 'every list content and every sequence of operations on lists sharing elements',
     'Tests compare a few short lists; disturbing a shared tail shows only when both lists are still used afterwards.',
     ['src/core_linked_list.hpp'], [('linked_list_t', 'src/core_linked_list.hpp')],
     VG + 'each operation on lists of arbitrary elements compared with its definition',
     'Elements are treated uniformly (arbitrary values); lengths zero to five stand for any length. The recursion depth of long lists is not covered.' + TB)


prop('C13', 'Nothing is created or lost between cells, also across refinement boundaries',
     'In one step of the binary solver, what leaves a cell through a face enters its neighbour: summed over the whole mesh, the change of mass (and of each momentum component) equals what the sources add plus the flux through the outer boundary of the domain, also where a coarse block meets finer ones. In the angular-momentum-conserving scheme no angular momentum passes the outer boundary at all.',
     ['inputs', 'configurations'], 'every state on the mesh, every solver parameter and every step size',
     'Tests do not step the solver; a flux mismatch at a refinement boundary is a slow leak that no short run exposes.',
     ['src/subprog_binary_scheme.cpp', 'src/mesh_prolong_restrict.hpp', 'src/mesh_tree_operators.hpp'], [('correct_fluxes_x / correct_fluxes_y', 'src/subprog_binary_scheme.cpp'), ('block_update_u / block_update_q', 'src/subprog_binary_scheme.cpp'), ('to_angmom_fluxes', 'src/subprog_binary_scheme.cpp')],
     VG + 'the sum over all cells of a seven-block mesh with refined and unrefined quadrants, in polynomial normal form',
     'One mesh (seven blocks of 2 x 2 cells, one quadrant refined once; periodic neighbours) stands for all; fields, parameters, Riemann solver, slope estimate and two-body functions are arbitrary. Rounding is abstracted.' + TB)

prop('C14', 'A binary solver step is the conservative update with all its sources',
     'One step of the binary solver changes each cell by the net flux through its faces (HLLE flux of the reconstructed face states plus viscous stress with the configured viscosity) and by gravity of both bodies, both sinks, the buffer zone, and the density floor or geometrical source, each with its configured parameter and evaluated at the cell or face centre; slopes are zero in safe mode and for piecewise constant reconstruction. A step that would give any cell negative density is refused, and no other step is.',
     ['inputs', 'configurations'], 'every state on the mesh, every solver parameter and every step size, in both schemes',
     'No test evaluates the solver; a wrong term (a swapped gradient at block borders, a viscosity of the wrong sign) yields plausible but wrong disks.',
     ['src/subprog_binary_scheme.cpp'], [('intercell_flux_u / intercell_flux_q, viscous_flux', 'src/subprog_binary_scheme.cpp'), ('source_terms_u / source_terms_q', 'src/subprog_binary_scheme.cpp'), ('advance_u / advance_q, validate_u / validate_q', 'src/subprog_binary_scheme.cpp')],
     VG + 'every cell of a seven-block mesh compared with the definition of the step in polynomial normal form',
     'Same mesh and abstractions as C13. The formulas of Riemann solver, conversions and geometrical source are C21 to C24.' + TB)

prop('C15', 'Running totals equal what the sources took; orbital elements follow from them',
     'In one step of the binary solver, accreted mass and angular momentum, torque, work, ejected mass and angular momentum advance by exactly what the corresponding source takes from the cells, summed over the whole mesh. The orbital elements advance by the difference of the elements computed from the bodies before and after receiving that mass and momentum, only once the binary is live; accretion forces can be disabled. Disk mass and disk angular momentum are the sums over the mesh, and a recorded time series sample holds exactly these numbers and is kept together with all earlier samples.',
     ['inputs', 'configurations', 'histories'], 'every state on the mesh, every solver parameter and every step size, in both schemes',
     'The totals are only used in long runs; a swapped body or a missing sign is invisible in any test and silently falsifies the published torques.',
     ['src/subprog_binary_scheme.cpp', 'src/subprog_binary_diagnostics.cpp', 'src/subprog_binary.cpp'], [('source_terms_u / source_terms_q (totals)', 'src/subprog_binary_scheme.cpp'), ('advance_u / advance_q', 'src/subprog_binary_scheme.cpp'), ('disk_mass, disk_angular_momentum', 'src/subprog_binary_diagnostics.cpp'), ('record_time_series', 'src/subprog_binary.cpp')],
     VG + 'every total of a step on a seven-block mesh compared with its definition in polynomial normal form',
     'Same mesh and abstractions as C13; work is the kinetic energy gained from what each block delivers (the code sums it block by block).' + TB)

prop('C16', 'Runge-Kutta steps combine all fields alike; a failed step is retried once',
     'A whole time step of the binary solver is the Runge-Kutta scheme of the configured order (1 or 2; any other order is refused) applied to all fields of the solution alike, with the step size fixed or taken from the Courant condition. When any stage fails, the whole step is redone once from the unchanged original solution with a tenth of the step size in safe mode; failing again is an error. Time series, configuration and schedule are carried over, tasks become due by their configured intervals, and the run ends at the configured time.',
     ['inputs', 'histories', 'fault_sequences'], 'every solution, every behaviour of the single step including failure at any stage, every configuration',
     'Failures of a stage occur only after long runs; a field left out of the combination corrupts only second-order runs.',
     ['src/subprog_binary.cpp', 'src/subprog_binary_scheme.cpp'], [('next_solution, next_schedule, next_state', 'src/subprog_binary.cpp'), ('solution_t::operator+, operator*', 'src/subprog_binary_scheme.cpp')],
     VG + 'with the single step an unknown function that may throw; compared with the scheme by case distinction',
     'The single step, the maximum time step and (for the order of stages) the combination of solutions are unknown functions; that combination acts field by field is decided separately.' + TB)

prop('C31', 'Spherical solver steps are the finite-volume update with their boundaries',
     'One step of the spherical blast-wave solver (relativistic and Newtonian) and of the axisymmetric jet solver changes the content of each zone by the flux through its faces, with each face\'s area, plus the geometrical source in its volume, over the step size; time and iteration advance accordingly and vertices stay. The inner boundary is a reflecting wall (blast wave) or the jet inflow of the current time (jet), the outer boundary has zero gradient, nothing flows through the polar axis; second-order reconstruction uses the limited slope. Unknown reconstruction methods and orders are refused, Runge-Kutta orders 1 and 2 follow their scheme, combining solutions acts on every field, tasks become due by their intervals, and the run ends at the final time.',
     ['inputs', 'configurations'], 'every state of the zones, every vertex position, every jet model and step size',
     'No test evaluates these solvers; a wrong area, a boundary on the wrong side or a missing sign still gives a smooth explosion.',
     ['src/subprog_sedov.cpp', 'src/subprog_cloud.cpp', 'src/app_parallel.hpp'], [('SedovProblem::next_solution', 'src/subprog_sedov.cpp'), ('CloudProblem::advance, next_solution', 'src/subprog_cloud.cpp')],
     VG + 'every zone of a small grid with arbitrary vertices compared with the definition of the update in polynomial normal form',
     '4 shells and 3 x 3 zones stand for all sizes; Riemann solver, primitive recovery, source terms and jet model are arbitrary functions (C21 to C24 decide the former). Rounding is abstracted.' + TB)

prop('C04', 'The thread pool runs every task once, safely, and shuts down',
     'Every task given to the thread pool is run exactly once, in the order of arrival, and its future carries exactly its own result or its own exception, which stops neither the worker nor other tasks. Data shared with workers is only used with the mutex held; a worker that waits is woken by whatever it waits for, so that no accepted task and no request to stop is overlooked; tasks run and threads are joined without the mutex. Stopping runs all accepted tasks, ends and joins every worker, may be repeated, and the destructor stops the pool.',
     ['schedules', 'inputs', 'histories'], 'every interleaving of workers and callers, every task function, argument and exception',
     'A test runs a few tasks on one schedule; a lost wake-up or a race needs a particular interleaving, and hangs once in many thousand runs.',
     ['src/core_thread_pool.hpp'], [('thread_pool_t::enqueue, next, complete, stop_all, make_worker', 'src/core_thread_pool.hpp')],
     'Lock-set dataflow analysis (must and may held) over the resolved syntax tree, of every path from the public operations and the worker closures; value graphs of the queue operations with models of promise, future, thread and condition variable',
     'Two or three tasks stand for any number. stop_all and restart are called from one thread at a time, as the class requires. Termination of the tasks themselves is theirs.' + TB)

prop('C05', 'Parallel evaluation gives the serial result, whatever the schedule',
     'An array or tree evaluated on any number of threads, futures or pool workers has exactly the elements of its serial evaluation in the same places, whatever the order in which the work is done: each element is computed exactly once by exactly one worker, and all workers are finished and joined before the result is handed out. Work handed to threads never writes a global, a static, or an object another thread can see. A decomposition of a domain into blocks tiles it without gap, overlap or empty block (and is refused exactly if there are fewer elements than blocks), and the proposed numbers of blocks multiply to the requested number.',
     ['schedules', 'inputs', 'configurations'], 'every schedule of the workers, every array and tree content, every domain size',
     'A test compares one evaluation on one schedule; a shared scratch variable or a region computed by no worker shows only for particular shapes or interleavings.',
     ['src/app_parallel.hpp', 'src/core_tree.hpp', 'src/subprog_binary_scheme.cpp', 'src/subprog_cloud.cpp'], [('evaluate_on, create_access_pattern_array, prime_factors', 'src/app_parallel.hpp'), ('arithmetic_binary_tree_t::map (async, thread pool)', 'src/core_tree.hpp')],
     'Interprocedural write-effect analysis of everything reachable from closures given to threads, and value graphs of the parallel evaluations, with each worker run at once and run only when joined',
     'Arrays up to 9 elements and 5 x 4 and 1 to 7 threads stand for all (the partition of every shape is decided by C11); block decompositions for every domain size and 1 to 5 blocks per axis. That the pool itself is safe is C04. How fast the parallel evaluation is, is not considered.' + TB)

prop('C32', 'Nothing handed out refers to an object that no longer exists',
     'Lazy arrays, maps, trees of functions and any other closure that a function returns own everything they use: none refers to a local variable or by-value parameter of the function that made it, nor to the object it was made from. No reference, pointer, iterator or view that is returned or kept points into a local or temporary object, no loop walks over part of an expired temporary or over a container it changes, and no object is read after its content was moved away.',
     ['inputs', 'histories'], 'every function instantiated by the program, its tests or the specimens of the checks; every path',
     'A lazy array that refers to a dead local often still reads the right value from the stack, so that tests pass until the optimiser or the caller changes.',
     ['src/core_ndarray.hpp', 'src/core_ndarray_ops.hpp', 'src/core_tree.hpp', 'src/mesh_prolong_restrict.hpp', 'src/subprog_binary_scheme.cpp', 'src/subprog_cloud.cpp', 'src/app_config.hpp'],
     [('operators returning closures', 'src/core_ndarray_ops.hpp'), ('block_update_u, intercell_flux_u', 'src/subprog_binary_scheme.cpp')],
     'Escape analysis: closure types held by the type of each result against what they capture by reference; storage analysis of returned and kept references; may-moved dataflow; all interprocedural over resolved, instantiated code',
     'Erased closures (std::function) and lifetimes behind shared pointers, and member iterators of sequences, are not traced.' + TB)

prop('C29', 'Two-body states and orbital elements determine each other',
     'The state computed from orbital elements at a time is the Kepler orbit with these elements: masses add up and have the mass ratio, the centre of mass is where the elements say, the bodies stand opposite to each other on ellipses with the given semi-major axis, eccentricity and orientation, at the anomaly solving Kepler\'s equation for the time since periapse, with the velocities of that orbit. The elements computed from such a state are the elements it was made from; an unbound state is refused. Energy, angular momentum, period, mean anomaly, separation and the perturbation formula agree with the orbit; sums, differences (angles and times to the nearest equivalent) and multiples of elements act on every component, and the root finder only returns what solves its equation within the tolerance.',
     ['inputs'], 'every separation, mass, mass ratio, eccentricity from zero to below one, orientation, centre of mass motion and time',
     'Tests check a few orbits at a few times to rough tolerance; an error in the orientation or the time of periapse is invisible for the default circular orbit.',
     ['src/model_two_body.hpp'], [('compute_two_body_state, compute_orbital_elements', 'src/model_two_body.hpp'), ('diff, total_energy, orbital_energy, mean_anomaly', 'src/model_two_body.hpp')],
     VG + 'the composition of both conversions reduced in rational normal form modulo the identities of sine, cosine and roots of known sign',
     'Rounding is abstracted; convergence of the root finder is not decided.' + TB)

prop('C34', 'Run options determine the binary problem as documented',
     'Every option of a binary run takes effect as documented, for all values: the mesh is refined where the block centre is closer than focus_factor / level^focus_index, scaled to the domain radius; the initial disk has the documented surface density and velocity (retrograde on request), stored as linear or angular momentum according to the conserve_linear_p flag; the solver sees each physical parameter unchanged, the buffer drives to the initial state at the edge, the live orbit begins at the given number of orbits (time 2 pi each); unknown reconstruction methods are refused. A new run starts at time and iteration zero with empty totals, the binary of the options and all tasks due. The time step is the least ratio of zone size to signal speed.',
     ['configurations', 'inputs'], 'every value of every run option, every position on the mesh',
     'No test creates a run; an option read from the wrong key, in the wrong unit, or ignored gives a plausible simulation of something else.',
     ['src/subprog_binary.cpp', 'src/subprog_binary_solver_data.cpp', 'src/subprog_binary_scheme.cpp'],
     [('create_disk_profile, create_vertices, create_solution, create_schedule', 'src/subprog_binary.cpp'), ('create_solver_data', 'src/subprog_binary_solver_data.cpp'), ('maximum_timestep', 'src/subprog_binary_scheme.cpp')],
     VG + 'every field of the set-up compared with the documented function of the options in normal form; a difference is confirmed by an interpretation of the symbols',
     'A mesh of 7 blocks of 2 x 2 zones with arbitrary vertices stands for all; the quadtree itself is decided by C15, C16. The documentation of the density floor and of the buffer rate is ambiguous by a constant factor and is taken as the code has it.' + TB)

prop('C35', 'Models of the medium and the jet are the documented profiles',
     'The power-law atmosphere has the documented broken power-law density, which is continuous, its masses within and beyond the cutoff are the integrals of that density (also for the logarithmic case), and a model made with a given total mass has that mass; indices with infinite mass are refused. The cloud and envelope consists of ballistic shells with the documented velocity distribution: density, velocity and four-velocity at a radius are those of the shell there, and of the cloud below and the extrapolation above the envelope, matching at the boundary. The jet has the documented luminosity and Lorentz factor, with the base density that gives the total energy, and changing one parameter changes nothing else.',
     ['inputs'], 'every parameter of the models, every radius, angle and time',
     'The tests evaluate no model; a wrong exponent or coefficient gives a smooth profile of the wrong mass or energy.',
     ['src/model_atmosphere.hpp', 'src/model_jet_nozzle.hpp'], [('power_law_atmosphere_model, cloud_and_envelop_model', 'src/model_atmosphere.hpp'), ('jet_nozzle_model', 'src/model_jet_nozzle.hpp')],
     VG + 'compared with the documented profiles in normal form; the implicit shell mass is the root of the radius equation',
     'That the secant solver converges is not decided. Radii are positive and ordered.' + TB)
prop('C30', 'Slope limiter, polynomial roots and shock searches are exact',
     'The limited slope is minmod(theta dl, dc, theta dr) in every component, for numbers, quantities with units, tuples and records alike; the vertex returned for three points is the vertex of the parabola through them. The cubic solver reports one real root, or three, exactly when there are that many, and the roots it reports are the roots of the polynomial, also for double and triple roots and for either sign of every part; the quartic solver reports a pair as real exactly when it is, and the pairs reported are its roots. The searches for the maximum behind and the plateau ahead return the nearest index satisfying the condition, and zero, without reading beyond the array, when the search leaves it.',
     ['inputs'], 'every value of the arguments; every index and every outcome of the comparisons, for arrays of 5',
     'The tests try a few polynomials and no degenerate one; a wrong branch is reached only at special discriminants.',
     ['src/math_interpolation.hpp', 'src/math_polynomial.hpp', 'src/post_shock_locator.hpp'], [('plm_gradient', 'src/math_interpolation.hpp'), ('cubic_roots, quartic_roots, parabola_vertex', 'src/math_polynomial.hpp'), ('find_index_of_maximum_behind, find_index_of_pressure_plateau_ahead', 'src/post_shock_locator.hpp')],
     VG + 'compared with the definitions in rational normal form: by components for the limiter, by the elementary symmetric functions of the roots (Vieta) for each sign case of the discriminants, by unrolling for the searches',
     'In exact arithmetic. Values reported for roots that are not real, and polynomials whose leading coefficient vanishes, are not claimed; find_shock_index only for two zones.' + TB)
prop('C33', 'Spherical problems start from, and report, the configured quantities',
     'A new blast wave run has logarithmically spaced shells from 10^-1/2 to the outer radius, and holds the conserved mass, momentum and energy per shell of the hot state inside r = 1 and of the cold power-law medium outside; a new jet-in-cloud run has logarithmically spaced radii over the requested decades and equally spaced polar angles from pole to pole, holding at rest frame time zero the cloud and envelope of the configured model at the configured delay, in units of the inner radius, the light speed and the mass of the configured atmosphere; every output task is due at the start. The diagnostic fields and time series are the primitive state of every zone, the shock positions found from the primitive state, the interpolated peak, the velocity from the jump condition, and per polar angle the solid angle, total energy, Lorentz factor and powers at and behind the shock, each converted to the documented unit. Diagnostics never read outside the zones, wherever the shock is.',
     ['inputs'], 'every value of the options and of the zones; five combinations of where the shock searches end, rays of 4, 5 and 68 zones',
     'No test runs a sub-program; a swapped index or missing unit gives plausible plots.',
     ['src/subprog_sedov.cpp', 'src/subprog_cloud.cpp'], [('SedovProblem::new_solution, make_diagnostic_fields, compute_time_series_data', 'src/subprog_sedov.cpp'), ('CloudProblem::new_solution, make_reference_units, make_diagnostic_fields', 'src/subprog_cloud.cpp')],
     VG + 'compared with the definitions in normal form; conversions, searches and cloud model are uninterpreted (decided in C07, C30, C35)',
     'Three zones stand for any number of new zones. The shock velocity is not claimed where upstream and downstream coincide.' + TB)
prop('C26', 'Path and directory operations touch exactly the files they name',
     'Splitting a path at its separators and joining the parts gives back the path, for relative and absolute paths, empty components and trailing separators; join puts exactly one separator between its arguments; extension is the text from the last dot of the file name, parent everything before the last separator. Requiring a directory creates it and its missing parents where the path says (relative to the working directory or, for a path that begins with a separator, absolute), usable by the owner, and nothing else. Recursive removal removes everything inside the directory, hidden files and dangling links included, and then the directory, never removes anything through a link to somewhere else, and reports a failure of any removal; listing yields every entry not starting with a dot once, in the order read, and refuses what cannot be read; a path is a file or directory only if it is a regular file or directory, and no directory handle stays open.',
     ['inputs', 'fault_sequences'], 'every name of a component, path shapes of up to four components; trees with nested directories, links and special files; every removal failing in turn',
     'No test covers directories; a link inside an output directory or an absolute path is what makes a wrong version destructive.',
     ['src/app_filesystem.hpp'], [('split, join, extension, parent, require_dir, remove_recurse, listdir, isfile, isdir', 'src/app_filesystem.hpp')],
     VG + 'with the POSIX directory calls replaced by models that keep a symbolic directory tree and record every path touched; results and effects are compared with the specification',
     'Names of components are opaque words without separator. Races with other processes are not considered. extension of a name without a dot below a directory with one, and parent of a bare name, are not claimed.' + TB)
prop('C27', 'The command line runs the sub-program it names, with its exit code',
     'mara NAME ARGS... runs the main function of the sub-program registered under exactly that name, once, with its own name first and all the arguments after it, and exits with the code that sub-program returned; every sub-program selected at compile time is registered under its name. Without arguments nothing is run, and a name that is no sub-program runs nothing and exits with a failure code.',
     ['inputs'], 'every registered name, any number and content of options; names that differ in case or spelling',
     'The tests run one sub-program; scripts rely on the exit code of all of them.',
     ['src/app_main.cpp', 'src/app_performance.hpp', 'src/app_subprogram.hpp'], [('main', 'src/app_main.cpp'), ('time_execution', 'src/app_performance.hpp')],
     VG + 'with the factories and the virtual main replaced by models that record which program is called with which arguments',
     'Options are arbitrary symbols, up to three of them.' + TB)
