"""Source of properties.jsonl and MANIFEST.json (python3 gen.py writes both)."""
TECH_S = ("stateless model checking: exhaustive exploration of the real C++ code's process interleavings (vmpi machine: controlled scheduler, "
          "modelled MPI/Global Arrays, sleep sets / preemption bound), outcomes compared with real MPI+GA runs")
TECH_I = ("explicit-state small-scope enumeration on the real C++ code under the vmpi machine (every input/history within stated bounds, "
          "message and remote-memory completion modes varied), outcomes compared with real MPI+GA runs")
NOTE = "Exhaustive within the bounds given in DESIGN.md; trusts the vmpi model of MPI and Global Arrays, which is cross-checked against the real libraries in every run. "

P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, tech=TECH_S, note="", level="model_checking", state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, observe=observe,
                  tech=tech, note=NOTE + note, level=level, state=state or []))


prop("P01", "Dynamic task distribution hands out every task exactly once",
     "For any number of tasks and any timing of the processes, the task manager gives every task index in 0..n-1 to exactly one caller (or to exactly one "
     "sub-communicator, all of whose members receive the same index), then reports the end to every caller with index -1, and no process is ever left waiting. "
     "This holds again each time the manager is reset, per manager when several communicators each own one, and after a cancellation every caller still "
     "reaches the end while no task is ever handed out twice.",
     ["schedules", "histories"], "all interleavings of the counter operations of 1-4 processes, task counts 0-9, up to 3 uses of one manager, all group shapes, all cancelling ranks/positions",
     "Existing tests draw tasks once under the OS scheduler; a lost or doubled task or a hang needs a particular interleaving of the remote counter operations or a second use of the manager.",
     ["src/parallel/task_manager.hpp"], [("shared atomic counter, fetch-and-add", "src/parallel/task_manager.hpp nextTask"), ("counter reset on set", "src/parallel/task_manager.hpp set"),
                                         ("group-wide reduction of the index", "src/parallel/task_manager.hpp nextTask(comm,...)")],
     ["return value and index of every task request"])
prop("P02", "Distributed index map answers every query with exactly the stored values",
     "After all processes of a communicator have loaded their key/value pairs, a query for any list of keys on any process returns exactly one entry per "
     "stored value for every requested key, with the keys and values lists aligned, and nothing for keys that were never stored, whatever process stored the pair. "
     "This holds for single-index and index-pair keys, for empty and repeated keys, for a map that is loaded again, and independently per communicator.",
     ["inputs", "schedules", "histories"], "all placements of 5 colliding pairs on 1-4 processes x 6 query shapes; all schedules up to the preemption bound for chosen placements; all splits of up to 4 ranks",
     "Tests load one dense map on at most two ranks; empty ranks, repeated keys, unknown keys, few pairs on many ranks, delayed remote writes and reloads are not reached.",
     ["src/parallel/index_hash.cpp", "src/parallel/index_hash.hpp"], [("owner computed from the key", "index_hash.cpp hashValue/pairHashValue"), ("two-phase exchange through global arrays", "index_hash.cpp addPairs/getValues")],
     ["contents of the key and value vectors after a query"])
prop("P03", "Globally stored vectors are read back exactly as stored, from any process",
     "After the upload, every process reads for every index exactly the vector (or element) that the one contributing process stored, indices inside the range "
     "that nobody stored read as empty (or zero), and indices outside the range are rejected. An index contributed twice is always rejected, values that are "
     "reset and reloaded replace the old ones everywhere, and nothing depends on how fast processes run or on which process contributed what.",
     ["inputs", "schedules", "histories"], "all placements of 3 vectors / 4 elements on 1-4 processes for 3 element types; all schedules up to the preemption bound; immediate and delayed remote writes; all two-way splits",
     "Tests store one regular pattern; empty processes, holes, empty vectors, duplicate indices under timing, reload and delayed remote writes are not reached.",
     ["src/parallel/global_store.hpp", "src/parallel/global_vector.hpp"],
     [("offset table and packed data in global arrays", "global_store.hpp upload/getVector"), ("duplicate detection by accumulated counts", "global_vector.hpp upload")],
     ["result of every read and rejection of every bad index"])
prop("P04", "Redistribution delivers every item exactly once to its destination",
     "When every process hands over a list of items with a destination process for each, afterwards every process holds exactly the items addressed to it, "
     "each once and with unchanged contents. The destination list is untouched, processes with nothing to send or receive take part safely, and processes outside of the "
     "communicator are unaffected.",
     ["inputs", "schedules"], "all destination lists of up to 4 items per process on 2 processes, 2 on 3, 1 on 4, three item types, both transports, all two-way splits; pb schedules for chosen assignments; eager and rendezvous sends",
     "Tests use one fixed pattern; an item that is lost, doubled or cut short needs a particular combination of empty, self and remote destinations.",
     ["src/parallel/shuffler.hpp", "src/parallel/ga_shuffler.hpp"], [("pairwise serialised messages", "shuffler.hpp operator()"), ("one-sided exchange", "ga_shuffler.hpp operator()")],
     ["contents of the item list after the call"])
prop("P05", "Process groups are isolated and collective results are exact",
     "Splitting or dividing the processes yields groups that contain exactly the requested members in rank order, no larger than requested. A sum, maximum, minimum, "
     "synchronisation, logical vote or message within a group involves exactly its members and is exact for every supported number type, and groups stay valid through any sequence "
     "of copies, assignments, nested splits and releases without exhausting resources.",
     ["inputs", "histories"], "all divisions of 1-8 processes into groups of up to 9, all 3-colourings and all nested 2-colourings of up to 4 processes, all assignments of 3 values per process per type, all create/copy/drop histories of length 4",
     "Tests check one division on the available processes; leaks, mixed-up members and a group whose reduction sees outsiders need other shapes and histories.",
     ["src/parallel/communicator.cpp", "src/parallel/communicator.hpp", "src/parallel/distributed.cpp"],
     [("MPI communicator and GA group kept in step", "communicator.cpp split/divide"), ("reductions", "communicator.cpp sum/max/min")],
     ["size, rank, group membership and reduction results"], tech=TECH_I)
prop("P06", "Partitioning keeps the network intact whatever the partitioner decides",
     "Whatever assignment of buses to processes the graph partitioner chooses and however the network was read in, afterwards every bus and branch is active on exactly one process, with its "
     "component, data and global index intact, and each process holds precisely the branches that touch its buses and the buses at their ends, each once. "
     "Neighbour lists, branch ends and look-ups by original number describe exactly the original topology restricted to the process.",
     ["inputs", "schedules"], "every assignment of buses to processes for all connected graphs with 3 and 4 buses (and larger, parallel-branch and isolated-bus graphs) on 1-4 processes, five initial placements, all sub-communicators; pb schedules",
     "The real partitioner gives one answer per network, so tests see one assignment; duplicate or missing ghosts depend on the assignment, on empty processes and on the initial placement.",
     ["src/partition/graph_partitioner_implementation.cpp", "src/partition/adjacency_list.cpp", "src/partition/parmetis/parmetis_graph_wrapper.cpp", "src/gridpack/network/base_network.hpp"],
     [("ghost destinations", "graph_partitioner_implementation.cpp partition"), ("adjacency from global arrays", "adjacency_list.cpp ready"), ("redistribution and local indices", "base_network.hpp partition")],
     ["bus/branch counts, active flags, indices, neighbour lists, component and data contents per process"], tech=TECH_I,
     note="The partitioner library itself is environment: its answer is enumerated, the graph it is given is checked.")
prop("P07", "Ghost exchange delivers the owner's current data to every copy",
     "After a bus (or branch) update every copy of a bus (branch) on any process holds exactly the bytes its owner put in its exchange buffer before the update, the owners' buffers are "
     "unchanged, and the other kind is not affected. This holds for every distribution of the network including processes without buses or branches, for buffers owned by the network or by the components, "
     "after any sequence of updates, re-initialisations, buffer size changes and repartitionings, and whatever the timing of the processes.",
     ["inputs", "histories", "schedules"], "every assignment of buses for all connected 3- and 4-bus graphs on 1-4 processes; all operation histories of length 3 over 9 operations; all schedules up to the preemption bound; both remote-write completion modes; sub-communicators",
     "Tests exchange once on one distribution; stale or missing ghosts need empty processes, several rounds, changed buffers or a particular timing.",
     ["src/network/base_network.hpp", "src/factory/base_factory.hpp"], [("scatter to / gather from the exchange array", "base_network.hpp updateBuses/updateBranches"), ("set-up of indices and buffers", "base_network.hpp initBusUpdate/initBranchUpdate"), ("buffer allocation", "base_factory.hpp setExchange")],
     ["exchange buffer contents on every process after an update"])
prop("P08", "Network stays consistent through clean, repartition, renumber, clone, clear",
     "Through any sequence of cleaning, repartitioning, renumbering, cloning to other component types, clearing and rebuilding, the network keeps exactly its buses, branches, data and topology, with unique "
     "global indices agreed on by all copies and look-ups that find precisely what is there. A chosen reference bus stays the same bus wherever it is known, and a clone is an independent, complete copy.",
     ["histories", "inputs"], "all histories of length 3 (thorough 5) over 8 operations on 4 graphs and 1-3 processes; ten short histories under every assignment; sub-communicators",
     "Tests call each operation once on one layout; stale indices, lost reference buses and doubled neighbours appear only in sequences and particular layouts.",
     ["src/network/base_network.hpp"], [("removal of ghosts and reindexing", "base_network.hpp clean"), ("deep copy", "base_network.hpp clone"), ("ghost renumbering through a distributed map", "base_network.hpp resetGlobalIndices"), ("reset", "base_network.hpp clear")],
     ["indices, flags, topology, look-ups, data after each operation"], tech=TECH_I)
prop("P09", "Component set-up is complete and agrees on every process",
     "After the factory's set-up every bus and branch component knows exactly its neighbours, indices and (if it is the one) that it is the reference bus, each component was loaded once from its own data, and mode and save calls "
     "reach every component once. The numbering used for matrices is consecutive on each process, unique, and identical on every copy, and votes over all processes give the logical result for every pattern.",
     ["inputs", "schedules"], "every assignment of buses for all connected 3-bus and (half of) 4-bus graphs on 1-4 processes, every reference bus, all vote patterns, sub-communicators; pb schedules",
     "Tests check one network on the processes available; wrong numbering on copies needs particular distributions or timing.",
     ["src/factory/base_factory.hpp", "src/component/base_component.cpp"], [("numbering through a global array", "base_factory.hpp setComponents"), ("load/mode/save loops", "base_factory.hpp load/setMode/saveData"), ("votes", "base_factory.hpp checkTrue")],
     ["component state after set-up"])
prop("P10", "Network matrices are assembled from every component's blocks",
     "On any distribution of a network the matrix a mapper makes is the block matrix described by the components: rows and columns follow the bus numbering, every diagonal, forward and reverse block given by the owner of a row appears exactly once, "
     "and everything else is zero; each process holds the rows of its buses. Mapping again replaces all values, overwriting and incrementing change just the elements of the components that give values, and the consistency check agrees with the block sizes.",
     ["inputs", "histories"], "all assignments of buses to 1-3 (4) processes, block sizes 0..2 (and non-square up to 3) per bus, missing blocks per branch direction, all sequences of 3 operations, sub-communicators; schedules of the set-up with 1 preemption",
     "Mapper tests use one grid on one partition; blocks that are missing, empty, of mixed size or on processes without buses are not sampled.",
     ["src/mapper/full_map.hpp"], [("block offsets and sizes", "full_map.hpp setBusOffsets/setBranchOffsets/createIndexGA"), ("preallocation", "full_map.hpp numberNonZeros"), ("mapping", "full_map.hpp mapToMatrix/overwriteMatrix/incrementMatrix"), ("check", "full_map.hpp check")],
     ["every matrix element, size and row range on every process", "result of check()"], tech=TECH_I)
prop("P11", "Bus vectors go from buses to vector and back without loss",
     "On any distribution of a network the vector made from the buses holds the values of every contributing bus exactly once in bus order, with each process holding those of its buses, and mapping a vector back gives every such bus on its owner "
     "exactly its own elements. Buses that contribute nothing are skipped in both directions, and the local offsets reported agree with that.",
     ["inputs", "histories"], "all assignments of buses to 1-3 (4) processes, 0..2 elements per bus, all sequences of operations, complex and real, sub-communicators; schedules of the set-up with 2 preemptions",
     "Mapper tests use one grid on one partition where every bus contributes.",
     ["src/mapper/bus_vector_map.hpp"], [("offsets", "bus_vector_map.hpp setBusOffsets"), ("to vector and back", "bus_vector_map.hpp mapToVector/mapToBus")],
     ["every vector element, sizes and ranges", "values every bus receives"], tech=TECH_I)
prop("P12", "General matrices, vectors and slabs hold every contributed row once",
     "On any distribution of a network the general mappers give every bus and branch its own consecutive rows and columns, the same on every copy of the component and without gaps or overlaps, those of a process together. "
     "Matrix, vector and slab hold every element that the components contribute in rows of a process exactly once, in any order of mapping, overwriting and incrementing; mapping back hands every owner exactly its rows, and slabs of different widths are refused by everybody.",
     ["inputs", "histories"], "all assignments of buses to 1-3 (4) processes, 0..2 (3) rows and columns per bus and branch, 16 contribution patterns, all sequences of 3 operations, sub-communicators; schedules of the set-up with 1-2 preemptions",
     "The mapper test has one row per component on one grid, and its slab never overrides the interface; components or processes that contribute nothing are not tested.",
     ["src/mapper/gen_matrix_map.hpp", "src/mapper/gen_vector_map.hpp", "src/mapper/gen_slab_map.hpp"], [("row and column numbering", "setOffsets/setIndices"), ("matrix elements", "gen_matrix_map.hpp loadBusData/loadBranchData/numberNonZeros"), ("vectors", "gen_vector_map.hpp"), ("slabs", "gen_slab_map.hpp")],
     ["indices of every component and copy", "every element of matrix, vector, slab", "values handed back"], tech=TECH_I)
prop("P13", "Distributed vectors and matrices behave like mathematical ones",
     "Any sequence of vector and matrix operations gives, on any distribution of rows over processes (also processes without rows, and communicators of part of the processes), what the same operations give on the ordinary dense "
     "vectors and matrices, in value, size and ownership. Elements, norms, rows, copies, storage conversions and files all report the same contents, and operands that do not fit are refused on every process.",
     ["inputs", "histories"], "every sequence of 2 (small: 3) operations out of 25 on vectors and 22 on sparse and dense matrices, complex and real, 1-4 processes, all empty-process patterns listed; rectangular matrices",
     "Tests apply each operation once, to matrices with the same number of rows on each of 1 or 2 processes; sequences and uneven or empty parts are not reached.",
     ["src/math/vector.hpp", "src/math/matrix.hpp", "src/math/petsc"], [("vector operations", "petsc_vector_implementation.hpp, petsc_vector_wrapper.cpp"), ("matrix elements and rows", "petsc_matrix_implementation.hpp"), ("matrix construction", "petsc_matrix_wrapper.cpp"), ("matrix algebra", "petsc_matrix_operations.cpp")],
     ["every element after each operation sequence, sizes, norms"], tech=TECH_I)
prop("P14", "Linear solvers return solutions of the system they were given",
     "Every linear solver, however it is configured (solver types, serial or distributed, tolerances from input or set later), returns for the current matrix, right hand side and guess a vector that solves the system to the tolerance asked for, "
     "or reports failure to every process; it never depends on what was solved before. Solutions for many right hand sides and the inverse agree with solving each column.",
     ["inputs", "histories"], "every sequence of 2 (thorough 3) uses out of 10 kinds after the first solve (new right hand side, guess, changed and rebuilt matrix, setters, new vectors), all listed row distributions on 1-4 processes, 8 solver flag combinations, real and complex",
     "Tests solve one system once per solver; values left from an earlier solve or ignored settings appear only in later uses, and empty processes and subcommunicators are not sampled.",
     ["src/math/linear_solver_implementation.hpp", "src/math/petsc/petsc_linear_solver_implementation.hpp", "src/math/linear_matrix_solver_implementation.hpp"],
     [("serial solution and its distribution", "linear_solver_implementation.hpp p_serialSolvePrep/p_serialSolve"), ("KSP set-up and reuse", "petsc_linear_solver_implementation.hpp p_solveImpl"), ("matrix right hand sides", "petsc_linear_matrix_solver_impl.hpp")],
     ["residual against a dense elimination", "exceptions on every process", "reported settings"], tech=TECH_I)
prop("P15", "Nonlinear solvers return a root or say on every process that they did not",
     "The nonlinear solvers (PETSc's and Newton-Raphson) return a vector that solves the system that the application's function defines, at whatever state the application's data is in at that call, or every process gets an exception; "
     "limits and tolerances given by input or setters are obeyed. This holds for every sequence of solves and changes with one solver, on any distribution of rows, on any group of processes.",
     ["inputs", "histories"], "every sequence of 2 (3) uses out of 8, all listed row distributions on 1-3 processes, 2 solvers x serial/distributed linear solver x 9 PETSc variants; 1..12 iterations allowed; all pairs of settings; a non-finite equation at each position",
     "Tests solve two small systems once; a second solve, too few iterations, changed settings and solver variants whose estimate is not the solution vector are not reached.",
     ["src/math/petsc/petsc_nonlinear_solver_implementation.hpp", "src/math/newton_raphson_solver_implementation.hpp", "src/math/nonlinear_solver_implementation.hpp"],
     [("function and Jacobian callbacks", "petsc_nonlinear_solver_implementation.hpp FormFunction/FormJacobian"), ("iteration", "newton_raphson_solver_implementation.hpp p_solve")],
     ["distance to the known root", "exceptions on every process"], tech=TECH_I)
prop("P16", "Time integration with events follows the exact event history on all processes",
     "The DAE solver integrates to the times asked for, handles exactly the events that the components' values cross (in the direction they ask for, in the order of time, each delivered to the component that owns it with its own values), stops at a terminating "
     "event, and tells every process the same. This holds for every placement of components and events over processes, over repeated solves with one solver, with limits on steps per solve.",
     ["inputs", "histories"], "all combinations of 7 event kinds on up to 3 components, all listed distributions over 1-3 processes, step limits and several output times, real and complex",
     "The DAE tests have one event on every process; several values per event, processes without events and repeated solves are not tested.",
     ["src/math/petsc/petsc_dae_solver_implementation.hpp", "src/math/dae_event.hpp"], [("collection of event values", "dae_event.hpp DAEEventManagerT"), ("event callbacks", "petsc_dae_solver_implementation.hpp EventHandler/PostEventHandler"), ("solve loop", "petsc_dae_solver_implementation.hpp p_solve")],
     ["states and times after each solve", "log of handled events", "termination state"], tech=TECH_I,
     note="Events close to each other or to output times are excluded (PETSc may merge or order them freely); event directions are checked on the event manager because PETSc 3.19 does not filter by them. ")
prop("P17", "Serial output holds each owner's text once, in network order, on the head node",
     "Whatever the partition and whichever buses or branches choose to write, the text that serial output writes (to standard output, a file or a stream given) is the header and then the strings of exactly the writing components, each once, complete and in the order of the global "
     "indices; the gathered data items and string lists follow the same rule on the head node of the network's group and are empty elsewhere. Nothing depends on what was written before or on timing.",
     ["inputs", "histories", "schedules"], "every assignment of 2-4 buses on 1-4 processes, 6 patterns of writing components, several string lengths, all sequences of 2 (3) operations of 13, sub-communicators; schedules with 1-2 preemptions",
     "The test writes everything on one partition; missing, doubled or reordered lines need components that do not write, empty processes or several calls.",
     ["src/serial_io/serial_io.hpp"], [("strings through a global array", "serial_io.hpp writeDataToBuffer/write"), ("items", "serial_io.hpp gatherData"), ("streams", "serial_io.hpp open/close/setStream/header")],
     ["text of each sink", "vectors returned"])
prop("P18", "Configuration gives every process exactly what the files say",
     "For every XML tree the values, defaults, children and cursors read on any process are those of the file (first match wins, several files merged in the order opened), and keys that are missing or values that do not parse leave the caller's variable unchanged and say so. "
     "A missing, empty or damaged file is reported as failure to every process of the group, without hanging or disturbing what was read before.",
     ["inputs", "histories"], "all trees of up to 4 (5) elements over 2 names with 16 value texts, 3 layouts; a file cut at every position; all histories of 2 opens; all groups of up to 3 processes",
     "Tests read one fixed file; damage, absence, several files and unusual values are not sampled.",
     ["src/configuration/configuration.cpp"], [("read and broadcast", "configuration.cpp open/openStringFile/initialize_internal"), ("queries", "configuration.cpp get/getCursor/children")],
     ["result of open and of every query on each process"], tech=TECH_I)
prop("P19", "Data collections keep exactly the values put in, also when copied or sent",
     "After any sequence of additions and changes a data collection returns for every name, index and type exactly the value last set (the first one, for repeated additions) and nothing for what was never set; setting never creates values. "
     "Copies, assignments and collections received from another process hold the same values of all types and are independent of the original.",
     ["histories", "inputs"], "every sequence of 2 (3) additions/changes over 7 types x 3 names x 8 indices; all subsets of types in copied and transferred collections, 1-3 processes",
     "Tests add a few values per type; names that collide with indices, large and negative indices and overwriting across types are not sampled.",
     ["src/component/data_collection.cpp", "src/component/data_collection.hpp"], [("add, set and get with and without index", "data_collection.cpp"), ("serialisation", "data_collection.hpp serialize")],
     ["every value of every type after each operation"], tech=TECH_I)
prop("P20", "Power flow results satisfy the network equations for every state and history",
     "After a successful solve, voltages, element flows and generator outputs are those of the power flow equations of the network data for the current statuses, scalings, reactive limits and contingencies, on any number of processes and for any distribution; a solve that has not converged reports failure. "
     "Contingencies, limits, scalings and resets leave the case exactly as it was once they are undone. "
     "Violation checks, ignore lists and area totals report exactly the buses, elements and power concerned.",
     ["inputs", "histories", "schedules"], "every assignment of 2-4 buses to 1-3 processes for networks over bus types, parallel/reversed/off elements, transformers, shunts, loads, generators x 29 histories of solves, all single/double outages, generator outages, limits, reloads, scalings",
     "Tests solve a few cases from files and do not compare voltages with an independent solution; outages of every element at every distribution, parallel reversed elements, limits and undo histories are not sampled.",
     ["src/applications/modules/powerflow/pf_app_module.cpp", "src/applications/modules/powerflow/pf_factory_module.cpp", "src/applications/components/pf_matrix/pf_components.cpp", "src/applications/components/y_matrix/ymatrix_components.cpp"],
     [("power flow solution and limits", "pf_app_module.cpp solve, nl_solve"), ("contingencies and isolated buses", "pf_app_module.cpp setContingency; pf_factory_module.cpp checkLoneBus"), ("component equations", "pf_components.cpp, ymatrix_components.cpp")],
     ["voltages on every copy of every bus, flows, generator outputs, violations, totals after each step, compared with an independent dense Newton solution"], tech=TECH_I)
prop("P21", "A RAW file's network and data are what its records say, on every process",
     "Parsing a PSS/E RAW file of version 33, 34 or 35, from a file or from lines of text, creates exactly the buses, branches and elements its records describe with exactly their values and defaults, whatever the order, number and spelling of the records: comments, blank and missing fields, quoted names, separators and named buses. "
     "Transformer data are converted to the system base and to ratios as the format defines, and three-winding transformers become three branches and a bus of their own. "
     "The result does not depend on the number of processes or on whether the text came from a file.",
     ["inputs", "schedules"], "every sequence of 2 (3) records per block from pools of edge cases x every position of comments, blanked and cut fields x versions 33-35 x file or text; transformer codes CW/CZ/CM x windings; impedance tables; 1-3 processes",
     "Tests parse one file per version; blank fields, quoted separators, comments in blocks, unusual transformer codes, impedance tables and text input are not sampled.",
     ["src/parser/base_pti_parser.hpp", "src/parser/base_parser.hpp", "src/parser/PTI33_parser.hpp", "src/parser/block_parsers/"], [("line splitting and block ends", "src/parser/block_parsers/base_block_parser.cpp"), ("network creation and ownership", "src/parser/base_parser.hpp createNetwork"), ("transformer conversion", "src/parser/block_parsers/transformer_parser33.cpp")],
     ["every data item of every bus and branch after parsing, compared with an independent table-driven reading"], tech=TECH_I)
prop("P22", "Values addressed to buses and branches reach exactly the processes holding them",
     "Values sent from any processes to buses or branches, named by their original indices, arrive exactly once at every copy of the bus or branch, ghosts and parallel branches included, paired with its local index; values for unknown ones are dropped. "
     "A bus table read from a file gives every process the header lines, number of columns, tags and all values of exactly the rows of the buses it holds, whatever the layout of the file and whatever files were read before; unreadable files are reported as such on all processes.",
     ["inputs", "schedules", "histories"], "every way to send up to 2 (3) values from 1-3 processes to each item incl. unknown and reversed ones, all distributions of 3 buses on 2 processes, groups of processes; 11 file layouts x 0-3 headers x 1-20 rows; all sequences of 2 (3) files; chosen schedules up to the preemption bound",
     "Tests send values from all processes on one grid and read one table; processes without data, unknown or repeated keys, parallel branches, tables of unusual layout and rereading are not sampled.",
     ["src/parser/hash_distr.hpp", "src/parser/bus_table.hpp"], [("systolic exchange of values", "hash_distr.hpp distributeBusValues, distributeBranchValues"), ("table reading and column access", "bus_table.hpp readTable, getValues")],
     ["local indices and values received on every process", "headers, tags and columns on every process"])
prop("P23", "Statistics of distributed result tables are those of the values added",
     "Whatever processes add columns, labels and bounds to a statistics table and however its rows are shared out, the files written contain for every row its labels and the mean, deviations, minimum, maximum, their columns, bounds and mask counts of exactly the values whose mask satisfies the criterion, and for every column the sums. "
     "This holds for every pattern of masks, any number of rows and columns, processes and groups, and for repeated analyses of one table.",
     ["inputs", "schedules"], "every mask pattern over {0,1,2} of 1-5 (6) columns x value patterns x criteria 0-3 x bounds; rows and columns around the block size; 1-3 processes, groups, who adds what; schedules up to the preemption bound",
     "There are no unit tests of the table statistics; masked base cases, blocks shared between processes and labels added elsewhere are not sampled by the applications.",
     ["src/analysis/stat_block.cpp"], [("one-sided filling", "stat_block.cpp addColumnValues, addRowLabels"), ("blocks of rows drawn from a shared counter", "stat_block.cpp writeMeanAndRMS, writeMinAndMax")],
     ["every number in every file written"])
prop("P24", "The state estimate is the least squares state of exactly the measurements given",
     "For every set of measurements that determines the state, the estimated voltages and angles minimise the weighted squares of the differences between all measurements and the quantities they measure (voltages, angles, injections, flows and currents at either end of any line or transformer, in whatever order the buses are named), on any number of processes and for any distribution. "
     "Measurements of weight zero, of elements out of service or at isolated buses have no influence. "
     "What is written and saved is that state and, once for every measurement, its value, estimate, difference and deviation.",
     ["inputs", "schedules"], "every assignment of 2-5 buses to 1-3 processes x networks with parallel, reversed, shifted, shunted and switched-off elements x all 63 subsets of measurement groups, every single measurement left out, error patterns, repeated, reversed and zero-weight measurements, sub-communicators",
     "The only test runs one case and compares nothing with an independent solution; tags of one character, transformers, reversed parallel lines, current measurements and isolated buses do not occur in it.",
     ["src/applications/modules/state_estimation/se_app_module.cpp", "src/applications/modules/state_estimation/se_factory_module.cpp", "src/applications/components/se_matrix/se_components.cpp", "src/applications/components/y_matrix/ymatrix_components.cpp"],
     [("Gauss-Newton iteration", "se_app_module.cpp solve"), ("distribution of measurements", "se_factory_module.cpp setMeasurements"), ("measurement functions and derivatives", "se_components.cpp matrixGetValues, vectorGetElementValues")],
     ["estimates on every copy of every bus, saved data and tables written, compared with an independent dense Gauss-Newton solution"], tech=TECH_I)
prop("P25", "Questions about a distributed network are answered for the whole network",
     "The network analytics interface gives on every process the answers of the complete network: the numbers of buses, branches and of generators, loads and lines in service, in total and for any bus or branch, the branches connected to a bus, the buses at the ends of a branch, and any data value of a bus, branch or device. "
     "Buses and branches are named by global indices; for ones that do not exist there are no devices, no branches and no values, and a value that is not found leaves the result unchanged. "
     "The answers follow later changes of the data and do not depend on the number of processes or the distribution.",
     ["inputs", "schedules"], "every connected graph of 2-4 buses and larger samples x every assignment to 1-3 (4) processes x device patterns with and without status entries; every bus, branch and device index including ones just outside; groups of processes; schedules up to the preemption bound",
     "There is no test of the interface; the applications only ask for totals.",
     ["src/analysis/network_analytics.hpp", "src/component/base_analytics_intfc.cpp", "src/network/base_network.hpp"], [("owner lookup and broadcast", "network_analytics.hpp getBusInfo, getConnectedBranches"), ("device counts", "base_analytics_intfc.cpp")],
     ["every answer on every process"])
prop("P26", "Dynamic simulations follow the machine and network equations through every event",
     "At every time step the angle, speed and power of every classical generator and the voltages of all buses are those of the machine and network equations for the faults, line and generator switchings that have happened so far, and a case in equilibrium stays there. "
     "This holds on any number of processes and for any distribution, for any generators with or without dynamic model, consuming ones included, and again after a reset. "
     "The series returned belong to the generators they are listed for.",
     ["inputs", "histories", "schedules"], "every assignment of 2-4 buses to 1-3 processes x networks with transformers, parallel, reversed and switched-off lines, shunts, several generators and loads x scripts of up to 3 events (faults, lines and generators switched off and on) x whole or stepwise runs, resets, missing models; chosen schedules up to the preemption bound",
     "Tests run two cases with one fault and compare nothing with an independent solution; line and generator switchings, several elements on a bus, distributions with events at ghost buses and repeated runs are not sampled.",
     ["src/applications/modules/dynamic_simulation_full_y/dsf_app_module.cpp", "src/applications/modules/dynamic_simulation_full_y/dsf_factory.cpp", "src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp", "src/applications/modules/dynamic_simulation_full_y/model_classes/classical.cpp"],
     [("integration and events", "dsf_app_module.cpp solve, run, handleEvents"), ("network contributions and status changes", "dsf_components.cpp"), ("classical machine", "model_classes/classical.cpp predictor, corrector")],
     ["angle, speed and power of every watched generator at every step", "voltages of every copy of every bus at the end"], tech=TECH_I)
prop("P27", "An exported RAW file holds the network it was written from",
     "Reading back a file written in PSS/E version 33 or 34 format gives the same buses, branches, loads, shunts, generators, lines, transformers and areas with the same data, to the precision written, and for solved cases the solved voltages and generation. "
     "This holds whatever the order, number and direction of the elements and whichever data is missing, on any number of processes, groups of processes and for any distribution, also when processes hold nothing.",
     ["inputs", "schedules"], "every sequence of 2 (3) records per block from pools of edge cases x every cut or blank field x versions 33 and 34; transformer codes, three windings; loads of zero; every assignment of buses to 1-3 processes, groups of processes; chosen schedules up to the preemption bound",
     "There is no test of the export; reversed transformers, lines next to transformers, impedances on other bases, missing fields and processes without buses are not sampled by the applications.",
     ["src/export/base_export.hpp", "src/export/PSSE33Export.hpp", "src/export/PSSE34Export.hpp", "src/export/data_blocks/"],
     [("collection of the records of a block from all processes", "base_export.hpp writeDataBlock"), ("records", "data_blocks/export_xform33.hpp writeXformBlock and others")],
     ["every data item of every bus, branch and area after reading the file back"], tech=TECH_I)
prop("P28", "Contingency analysis reports what analysing the contingencies one by one gives",
     "For every list of line and generator contingencies, the reported successes, violations, averages, deviations, extreme values, counts and individual results are those of the power flow solutions of the network with exactly the elements of one contingency out of service. "
     "This holds on any number of processes, for any group size, distribution of the network and order in which processes take contingencies, with and without reactive limits, and when some contingencies or all of them cannot be solved. "
     "The analysis always ends on all processes.",
     ["inputs", "schedules", "histories"], "networks with parallel, reversed and switched-off lines, transformers, several loads, isolated buses x lists of single and double line and generator outages (also none) x group sizes on 1-3 processes x every assignment of the buses in a group x voltage limits, reactive limits, loads near and beyond the limit; hand-out of contingencies for chosen cases in every order up to the preemption bound",
     "Tests do not run the application; who takes which contingency, in which order, and failing or isolating contingencies before others are not sampled.",
     ["src/applications/contingency_analysis/ca_driver.cpp", "src/applications/modules/powerflow/pf_app_module.cpp", "src/analysis/stat_block.hpp", "src/timer/coarse_timer.cpp"],
     [("loop over the contingencies and collection of results", "ca_driver.cpp execute"), ("setting and clearing a contingency", "pf_app_module.cpp setContingency, unSetContingency"), ("timing report at the end", "coarse_timer.cpp dump")],
     ["contents of success.txt and the statistics files", "contents of the file of each contingency"], tech=TECH_I)
prop("P29", "Text of input files is split into the tokens, tags and names it contains",
     "Every string is split at its blanks (outside quotes) or separators into exactly the tokens between them, in order; tags have two characters and keep their letters; quotes and white space are removed from the ends and nowhere else; words for true and false are recognised in any spelling. "
     "No string, whether empty, blank, with quotes left open or separators at its ends, makes these functions fail or read outside of it.",
     ["inputs"], "every string up to 7 characters (9 in the thorough run) over blanks, tabs, both quotes, letters, separators, line ends and carriage returns, for each function",
     "The test prints results of a dozen strings and checks few of them; combinations of quotes, blanks and ends of strings are not sampled.",
     ["src/utilities/string_utils.hpp"],
     [("tokens", "string_utils.hpp blankTokenizer, charTokenizer"), ("tags and names", "string_utils.hpp clean2Char, trimQuotes, trim")],
     ["results of every function", "assertions of the string library"], tech=TECH_I)
prop("P30", "Every record of a dynamic model file reaches exactly the device it names",
     "Each record of a .dyr file sets exactly the values its model defines, at their places in the record, on exactly the generator, load, bus or branch it names (by bus numbers and tag), on every process that has a copy of it, and says which models the device has; records naming devices or models that do not exist, comments and blank lines change nothing. "
     "The result is the same for any order, line layout, quoting, spelling and line ends of the records, any number of processes and distribution, and whether the file is read before or after partitioning or from a configuration. "
     "Records that are short or not terminated set only the values they have, and no record makes reading fail or hang.",
     ["inputs", "schedules"], "every model (35) x every pair of models x every length of its record x repeated records x sequences of up to 5 records of all kinds, layouts and spellings x all three ways of reading x 1-3 processes and distributions; schedules up to the preemption bound",
     "Tests read two files whose values are not compared; most models occur in no test, and short records, comments, repeated tags, relays and other distributions are not sampled.",
     ["src/parser/base_pti_parser.hpp", "src/parser/parser_classes/", "src/parser/hash_distr.hpp", "src/parser/PTI33_parser.hpp"],
     [("record splitting and lookup of devices", "base_pti_parser.hpp getDS, getDSExternal, find_ds_vector, find_ds_par"), ("positions of values", "parser_classes/*.hpp parse, store, extract"), ("distribution of records", "hash_distr.hpp distributeBusValues, distributeBranchValues")],
     ["every data item of every copy of every bus and branch, compared with a table of positions and names"], tech=TECH_I)
prop("P31", "Control blocks of dynamic models obey their equations, limits and gates",
     "For every sequence of predictor and corrector steps, queries and new starts, the states and outputs of the control blocks (PI, filter, lead-lag, integrator, first order transfer functions, delays with and without limits) are those of their transfer functions integrated by the modified Euler method, within the limits on state, rate of change and output however these are given. "
     "Started for a given input or output they are in equilibrium there. "
     "Gains with limits, slopes, piecewise linear functions and their inverses, deadbands, hysteresis, backlash and low and high value gates give their defined output for every input and history.",
     ["inputs", "histories"], "every sequence of 3 (4) steps over 3 inputs x queries in between x starts and restarts x 14 transfer functions x limit configurations x ways to give them; every set of 2-4 (5) points of piecewise functions, increasing, decreasing and flat; every input sequence of length 4 (5) for hysteresis and backlash",
     "There are no tests of the blocks; limits, decreasing and flat curves, restarts and hysteresis are reached in no application test.",
     ["src/applications/modules/dynamic_simulation_full_y/cblock.cpp", "src/applications/modules/dynamic_simulation_full_y/dblock.cpp", "src/applications/modules/dynamic_simulation_full_y/model_classes/"],
     [("state update with limits", "cblock.cpp updatestate, getoutput"), ("start in equilibrium", "cblock.cpp init, init_given_u, init_given_y"), ("static and hysteretic functions", "dblock.cpp, BackLashClass.cpp, DBIntClass.cpp")],
     ["states and outputs after every call"], tech=TECH_I)
prop("P32", "Dynamic models stay in equilibrium and simulate alike on every distribution",
     "Started from a solved power flow, every combination of machine, exciter, governor and converter models stays where it started as long as nothing happens, at every step and generator. "
     "With faults, the simulated angles, speeds, powers and voltages are the same for any number of processes, distribution, number of generators at a bus and order of the records in the model file, and when a simulation is repeated after a reset. "
     "Time constants of zero or left out, limits and optional parts of a model do not change this.",
     ["inputs", "histories"], "every machine (round rotor, salient pole) with every exciter and governor the parser and the simulation both know, with time constants present, zero and missing; renewable converters with their controls x every assignment of the buses to 1-2 processes x orders of records x faults x resets",
     "Tests run two networks with two of the models and compare nothing between distributions; zero time constants, missing values, record orders and repeated runs are not sampled.",
     ["src/applications/modules/dynamic_simulation_full_y/model_classes/", "src/applications/modules/dynamic_simulation_full_y/dsf_app_module.cpp", "src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp"],
     [("start in equilibrium and integration", "model_classes/*.cpp init, predictor, corrector"), ("coupling of the models of a generator", "base_generator_model.cpp, dsf_components.cpp")],
     ["angle, speed and power of every watched generator at every step", "voltages of every copy of every bus at the end"], tech=TECH_I)
