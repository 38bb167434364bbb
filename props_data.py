AIG = "include/database/network/aig_network.hpp"; KLUT = "include/database/network/klut_network.hpp"
prop("A01", "AIG operators build the function they are named after",
 "Every logic-creation call of the AIG network (and, or, nand, nor, xor, if-then-else, majority, n-ary forms, comparison forms, cloning) returns a signal that computes exactly the named Boolean function of its operands. This holds for any operands of any existing network, complemented or constant, and leaves all existing signals' functions unchanged. Evaluating a gate on truth tables agrees with the same function.",
 ["inputs","programs"], "all operand signals over networks with 3 inputs and a few prior gates, all polarities, all input values; gate evaluation for all table contents up to 7 variables",
 "Tests build a handful of fixed gates; constant/complement/duplicate operand combinations and hash collisions are combinatorial.",
 [AIG,"include/database/network/details/storage.hpp"], [("operator creation, constant propagation and structural hashing", AIG+": create_and, create_xor, create_ite, create_maj, create_nary_*"),("gate evaluation", AIG+": compute")], ["value of the returned signal","num_gates","phase"],
 note="bounded: networks of 3 inputs and at most 2 prior gates; arity up to 4")
prop("A02", "Any construction history keeps the AIG well-formed",
 "After any history of creating inputs, gates and outputs the network is acyclic, every node keeps the function it was created with, inputs and outputs keep their order and index, no two gates have the same fanins, and the reported counts and fanout sizes equal what is really referenced. For sequential networks, registers, register outputs and register inputs keep their pairing and order.",
 ["histories","inputs"], "all histories of a bounded number of create calls, all polarities and input values, several hash-table sizes",
 "Tests run a few fixed call sequences; hash collisions, rehashing and interleavings of input and gate creation are not reached.",
 [AIG,"include/database/network/details/storage.hpp","include/database/network/details/node_hash.hpp"], [("structural hashing and reference counts", AIG+": create_and/create_pi/create_po"),("interface bookkeeping", AIG+": create_ro/create_ri, pi_at, po_at, ri_index, foreach_*")], ["foreach_*", "num_*", "fanout_size"],
 note="bounded histories (5 calls quick, 6 thorough), sequential interface up to 2 registers")
prop("A03", "Substituting nodes replaces their function everywhere and nothing else",
 "After replacing a node (or several nodes) by other signals, every output computes what it computed before with the replaced nodes reading the replacement. The network stays acyclic, hashed without duplicates, without references to removed nodes, with exact fanout counts, and remains usable for further construction.",
 ["programs","inputs","histories"], "all networks up to 3 gates over 2-3 inputs, every legal (old,new) pair including complemented and constant replacements, two substitutions in a row, simultaneous lists",
 "Tests substitute one or two fixed nodes; cascading constant propagation, merging with existing nodes and hash-bucket collisions depend on the structure.",
 [AIG], [("substitution with propagation", AIG+": substitute_node, substitute_nodes, replace_in_node, replace_in_outputs, take_out_node")], ["output functions","is_dead","fanout_size","find_and"],
 note="bounded: up to 3 gates (thorough 4); input substitution covered with weaker count obligations")
prop("K01", "LUT networks compute their node functions; interface indices are stable",
 "Every node of a LUT (k-input) network created by any creation call computes its declared truth table of its fanins, with fanin 0 as least significant variable, both bitwise and on truth tables, and identical nodes are shared. Inputs and outputs keep order and index, and substituting a node redirects exactly its references.",
 ["inputs","programs","histories"], "all truth tables up to 3 fanins (symbolic contents), all operand choices, all interface histories within bounds",
 "Tests evaluate fixed tables at fixed points; no test creates a LUT network through an existing storage or queries input indices.",
 [KLUT,"include/utils/truth_table_cache.hpp"], [("node creation and evaluation", KLUT+": create_node, compute, node_function"),("interface", KLUT+": create_pi/create_po, pi_index, foreach_*"),("substitution", KLUT+": substitute_node")], ["compute","node_function","foreach_fanin"],
 note="bounded: up to 3-input LUT functions with fully symbolic tables, networks of a few nodes")
prop("T01", "The truth-table cache returns exactly the table that was inserted",
 "Looking up the literal returned for a truth table yields that table bit for bit, the complemented literal yields its complement, and two insertions return the same literal exactly when the tables are equal. This holds for any sequence of insertions, any number of variables, and after the cache grows.",
 ["inputs","histories"], "sequences of up to 3 insertions (2 words tables included) with symbolic table contents",
 "Tests insert a few constants; the normal/complement mapping must be injective on all tables.",
 ["include/utils/truth_table_cache.hpp"], [("normalisation and index map","include/utils/truth_table_cache.hpp: insert, operator[]")], ["operator[]","size"], note="bounded: 3 insertions, tables of up to 3 variables fully symbolic, 7-variable tables partly symbolic")
prop("C01", "Cut and cut-set operations implement set algebra exactly",
 "Merging two cuts succeeds exactly when the union of their leaves fits and then holds exactly that union; dominance is exactly set inclusion; signatures never change an answer. A cut set holds exactly the non-dominated cuts, smallest first, drops the worst when full, and no operation touches memory outside the cut.",
 ["inputs","histories"], "all leaf values within 4-5 bits including colliding signatures, all histories of a few insert/update/limit operations",
 "Signature collisions and over-full unions need leaf indices at distance 64, and the failed-merge path is never checked by tests.",
 ["include/database/cut/cut.hpp","include/database/cut/cut_set.hpp"], [("signature filter and union","include/database/cut/cut.hpp: merge, dominates, set_leaves"),("sorted insertion with dominance filter","include/database/cut/cut_set.hpp: insert, is_dominated, limit, update_best")], ["leaves","signature","size"], note="bounded: up to 4 (5) leaves per cut, sets of capacity 3")
prop("C02", "Every enumerated cut is a real cut with the right function",
 "Cut enumeration reports for each node only sets of at most k nodes that cut every path from the node to the inputs, together with a truth table that computes the node from those leaves for every input value. The per-node number of cuts respects the limit, no cut dominates another, and when the limit is not hit all irredundant cuts are present.",
 ["programs","inputs","configurations"], "all structures with 3 gates over 2-3 inputs and a seeded family of networks up to about 85 gates, cut sizes 2-6, several limits; functions decided for all input values",
 "Tests count cuts on two small networks; the function of every cut under every configuration is never compared with the network.",
 ["include/database/cut/cut_enumeration.hpp","include/database/cut/cut_set.hpp","include/database/cut/cut.hpp"], [("bottom-up merging with truth tables","include/database/cut/cut_enumeration.hpp: merge_cuts2, compute_truth_table")], ["cuts(node)","truth_table(cut)"], note="bounded families of networks; per network the function obligations are decided for all input values")

OPT="include/operations/optimization/"
prop("B01", "AND balancing preserves every output and never deepens the network",
 "Balancing an AIG returns a network with the same inputs and outputs in the same order, in which every output computes the same function for every input value, which is acyclic with consistent reference counts, and whose depth does not exceed the original depth. The input network is left as it was and remains usable afterwards.",
 ["programs","inputs"], "all structures with up to 3-4 gates plus a seeded family up to about 85 gates (thorough about 160), including gate-less networks, constant outputs and shared outputs",
 "Tests balance two fixed networks and count gates; equivalence for every input and survival of the source network are not checked.",
 [OPT+"and_balance.hpp","include/database/views/depth_view.hpp"], [("super-gate collection and level-driven rebuild",OPT+"and_balance.hpp")], ["outputs as functions","depth","fanout_size"], note="bounded families of networks; per network decided for all input values")
prop("B02", "SOP balancing preserves every output",
 "Rebalancing the cuts of a network through their sums of products returns a network with the same interface whose outputs compute the same functions for every input value, acyclic and structurally consistent, for every cut size, cut limit and choice of truth-table minimisation.",
 ["programs","inputs","configurations"], "all structures with up to 3-4 gates plus a seeded family, cut sizes 2-6, cut limits 5-11, with and without table minimisation",
 "No test runs this pass; it depends on truth tables, ISOPs and arrival times of every cut.",
 [OPT+"balancing.hpp",OPT+"balancing/sop_balancing.hpp"], [("cut selection and reconstruction",OPT+"balancing.hpp"),("SOP to balanced AND/OR tree",OPT+"balancing/sop_balancing.hpp")], ["outputs as functions"], note="bounded families of networks; per network decided for all input values")
prop("S01", "Factoring a function yields logic for exactly that function",
 "For every truth table and every choice of leaf polarities, SOP factoring produces one candidate signal which computes the truth table of its leaves for every input value. Algebraic division satisfies dividend = divisor * quotient + remainder, and making a sum cube-free removes exactly the common cube.",
 ["inputs"], "all functions of up to 4 variables (quick: half of the 4-variable ones), families of sums of products over 5-10 variables, symbolic cubes for the division",
 "Tests factor a few functions; the algebra must hold for every cube set.",
 [OPT+"detail/sop_refactoring.hpp","libs/kitty/include/kitty/isop.hpp"], [("quick factoring",OPT+"detail/sop_refactoring.hpp: gen_factor_rec, gen_literal_factor_rec"),("algebraic division and kernels",OPT+"detail/sop_refactoring.hpp: sop_divide, sop_make_cube_free")], ["candidate signal"], note="bounded: up to 4 variables exhaustively, larger functions from a family; division with up to 4 cubes over 6 literals")
prop("F01", "Refactoring preserves every output and never adds gates",
 "Refactoring any AIG terminates and returns a network with the same interface in which every output computes the same function for every input value; it has no more gates than the original, no more levels when depth must be kept, and is acyclic with consistent reference counts, also when applied twice and when the network has dangling gates.",
 ["programs","inputs","configurations"], "all structures with up to 4 gates (thorough 5) and a seeded family up to 85 (160) gates, six parameter settings; all input values symbolic",
 "Tests run refactoring on a few networks and look at gate counts; no test checks equivalence on reconvergent or redundant logic.",
 [OPT+"refactor.hpp",OPT+"detail/sop_refactoring.hpp","include/operations/algorithms/ref_deref.hpp"], [("cut, cone function and replacement",OPT+"refactor.hpp: run, replace_sub_ntk, sub_ntk_replace"),("gain by reference counting","include/operations/algorithms/ref_deref.hpp")], ["outputs as functions","num_gates","depth"], note="bounded families of networks; per network decided for all input values")
prop("R01", "Rewriting preserves every output and never adds gates",
 "DAG-aware rewriting of any AIG terminates and returns a network with the same interface in which every output computes the same function for every input value; it has no more gates than the original, no more levels when depth must be kept, and is acyclic with consistent reference counts, also when applied twice.",
 ["programs","inputs","configurations"], "all structures with 3-4 gates over 4 inputs (thorough 5 gates) and a seeded family up to 85 (160) gates, with and without zero-gain and depth preservation; all input values symbolic",
 "No test rewrites a network and compares functions; errors need shared, reconvergent or multiply-used nodes.",
 [OPT+"rewrite.hpp",OPT+"detail/node_rewriting.hpp",OPT+"detail/database_npn4_aig.hpp","include/operations/algorithms/ref_deref.hpp"], [("candidate selection",OPT+"rewrite.hpp: run"),("replacement",OPT+"rewrite.hpp: local_replacement"),("NPN database instantiation",OPT+"detail/node_rewriting.hpp")], ["outputs as functions","num_gates","depth"], note="bounded families of networks; per network decided for all input values")

ALG="include/operations/algorithms/"; VW="include/database/views/"
prop("M01", "FPGA mapping covers the network with small-enough LUTs and keeps all outputs",
 "LUT mapping of any AIG terminates and selects cells such that every output and every cell input is an input, a constant or a cell; every cell has at most cut_size inputs; the cells, and the LUT network derived from them, have the interface of the AIG and compute the same outputs for every input value. The reported area is the number of cells and the reported delay the depth of the cover; the AIG is left as it was.",
 ["programs","inputs","configurations"], "all networks with 3 (thorough 4) gates over 2-3 inputs with every output polarity, and a seeded family up to 85 (160) gates; cut sizes 2-6, 6-11 cuts per node; all input values symbolic",
 "Tests map one or two circuits and print sizes; equivalence for every input, outputs used in both polarities and outputs without logic are not covered.",
 [ALG+"klut_mapping.hpp",ALG+"network_to_klut.hpp","include/database/cut/cut_enumeration.hpp",VW+"mapping_view.hpp","cli/command/map_fpga.hpp"], [("mapping rounds and best cuts",ALG+"klut_mapping.hpp: perform_mapping, derive_final_mapping"),("conversion to a LUT network",ALG+"network_to_klut.hpp")], ["cells","LUT functions","reported delay and area"], note="bounded families of networks; per network decided for all input values")
prop("M02", "LUT-based optimisation returns an AIG with the same outputs",
 "Mapping an AIG to LUTs and converting the LUT network (or the mapped network itself) back to an AIG through sums of products, as the lut_opt command does, yields an AIG with the same interface whose outputs compute the same functions for every input value, acyclic and structurally consistent.",
 ["programs","inputs","configurations"], "the networks and cut sizes of M01, without the zero-gain option",
 "No test converts a mapped network back; constants, inverters and single-input LUTs need their own handling.",
 [ALG+"detail/convert_to_aig.hpp",ALG+"klut_mapping.hpp",ALG+"network_to_klut.hpp","cli/command/lut_opt.hpp"], [("LUTs to AND/OR logic",ALG+"detail/convert_to_aig.hpp: convert_klut_to_aig, convert_mapped_graph_to_aig")], ["outputs as functions"], note="bounded families of networks; per network decided for all input values")
prop("H01", "Structural choices are equivalent, and mapping with them preserves every output",
 "Merging several AIGs of the same function gives a network with their interface and functions. Choice computation terminates with a network that computes the same outputs for every input value, in which every node of a choice list computes the function of its representative up to the recorded phase, lists are finite and lead to earlier nodes. Mapping a network with choices yields LUTs of the requested size that compute the same outputs.",
 ["programs","inputs","configurations"], "all networks with 3 (thorough 4) gates over 2-3 inputs and a seeded family up to 85 (160) gates, each merged with up to three optimised versions of itself; conflict limits, solver recycling, simulation words and polarity flipping varied; all input values symbolic",
 "Choices exist only between structurally different versions of a network; tests do not compare functions, and a wrong SAT encoding or phase shows for few networks only.",
 [ALG+"choice_computation.hpp",ALG+"choice_miter.hpp",ALG+"aig_with_choice.hpp",ALG+"klut_mapping.hpp","cli/command/map_fpga.hpp"], [("SAT sweeping",ALG+"choice_computation.hpp: sat_prover, man_sweep"),("choice lists",ALG+"choice_computation.hpp: derive_choice_aig, man_dup_dfs; "+ALG+"aig_with_choice.hpp: set_choice"),("choice cuts",ALG+"klut_mapping.hpp: perform_mapping_and_choice")], ["outputs as functions","choice lists","LUT functions"], note="bounded families of networks; networks whose inputs are created before their gates (as the readers create them)")
prop("V01", "Views and node maps agree with the network they look at",
 "A depth view reports for every node in the cone of an output the longest path to an input, the depth as the longest path of an output and as critical exactly the nodes on a longest path, with and without counting complemented edges, for AIGs and LUT networks, and keeps levels right for gates added through it. A topological view holds exactly the constant, the inputs and the gates of the cones, fanins first. A mapping view holds the cells and functions last set. Node maps behave as maps. Dereferencing and referencing a node are inverse and return the size of its fanout-free cone.",
 ["programs","inputs","histories"], "all networks with 2-3 (thorough 4) gates over 2-3 inputs with symbolic polarities, a seeded family, registers, one substitution; histories of 3-4 view or map operations",
 "Tests look at levels of a handful of networks; views of rewired, sequential or dangling networks and histories of changes are not sampled.",
 [VW+"depth_view.hpp",VW+"topo_view.hpp",VW+"mapping_view.hpp","include/utils/node_map.hpp",ALG+"ref_deref.hpp"], [("levels and critical path",VW+"depth_view.hpp"),("depth-first order",VW+"topo_view.hpp"),("cell storage",VW+"mapping_view.hpp"),("reference counting",ALG+"ref_deref.hpp")], ["level","depth","is_on_critical_path","foreach_node","cell_function"], note="bounded; the view of a constant or of inputs only is included")
prop("D01", "Cleaning up keeps every output and drops exactly what is unused",
 "Cleaning up dangling nodes of an AIG or LUT network leaves the source unchanged and returns a network whose outputs compute the same functions, without dangling gates and without losing others; inputs and outputs are dropped only when asked for. Copying into an existing network composes the functions. Cleaning up LUTs preserves all outputs and leaves no constant or redundant LUT inputs.",
 ["programs","inputs","configurations"], "all AIGs with 2-3 gates over 2-3 inputs, symbolic polarities, every set of outputs and flags; LUT networks of 2-3 LUTs with constant, projection and redundant functions; a seeded family",
 "Every command ends in a cleanup; tests check one small network.",
 [ALG+"cleanup.hpp",VW+"topo_view.hpp","cli/command/cleanup.hpp"], [("rebuild from the outputs",ALG+"cleanup.hpp: cleanup_dangling_impl"),("constant propagation in LUTs",ALG+"cleanup.hpp: cleanup_luts_impl")], ["outputs as functions","num_pis","num_pos","num_gates"], note="bounded; combinational networks (registers are outside of what cleanup handles)")
IO="include/operations/io/"
prop("I01", "Reading a binary AIGER file yields exactly its circuit; bad files are refused",
 "Reading a well-formed binary AIGER file creates the inputs, registers and outputs the header declares, in order; every output and next-state function equals the one the file defines, reset values and symbol-table names belong to their ports, comments and property sections are skipped. A truncated file, a broken header, a literal or gate delta outside of its range or an overlong delta is reported as an error without touching memory out of bounds, looping or aborting; symbol entries for ports that do not exist are ignored. A file read through the Reader keeps its port names when the network is written as Verilog or as LUTs, also when only some ports are named; a missing file is an error.",
 ["inputs"], "binary AIGER files with up to 2 (thorough 3) inputs, one register, two (thorough three) gates with symbolic deltas, multi-byte deltas for up to 300 (9000) inputs; every truncation and every impossible pair of 6-bit deltas of a two-gate file, families of broken headers, literals and symbol entries",
 "Tests read two benchmark files; the space of encodings, names and damages is not sampled.",
 ["libs/lorina/lorina/aiger.hpp",IO+"detail/aiger_reader.hpp",IO+"reader.hpp","cli/command/io/read_aiger.hpp"], [("parsing and validation of the binary format","libs/lorina/lorina/aiger.hpp: read_aiger"),("network construction",IO+"detail/aiger_reader.hpp: aiger_reader"),("port names",IO+"reader.hpp: Reader")], ["outputs as functions","registers","names","return code"], note="bounded; ASCII AIGER is not read by the tool and not claimed; headers that declare more objects than memory holds, duplicate port names and names with spaces are excluded")
prop("I02", "Written AIGER, Verilog, LUT and DOT files describe the network",
 "A written AIGER file is accepted by the reader and yields the same inputs, gates and output functions, and writing that again gives the same bytes. A written Verilog module or LUT netlist is well-formed (every net declared and driven once, no loops, port list and declarations agree), has the inputs and outputs in order under the given names (in Verilog also as vectors), and computes the outputs of the network for every input value. A DOT drawing shows every node once and exactly the fanin and output edges with their polarity. The files written by the Writer hold exactly that text.",
 ["programs","inputs"], "all networks with 0-3 gates over 0-3 inputs with every polarity and constant or input outputs, a seeded family up to 60 (thorough 160) gates, networks with 40-130 (9000) inputs, LUT networks with LUTs of 1-6 inputs; all input values symbolic",
 "Tests do not read back what is written; a netlist that is wrong for one input value or one constant output looks fine.",
 [IO+"detail/write_aiger.hpp",IO+"detail/write_verilog.hpp",IO+"detail/writer_lut.hpp",IO+"detail/write_dot.hpp",IO+"writer.hpp","libs/lorina/lorina/verilog.hpp","cli/command/io/write_fpga.hpp"], [("binary encoding",IO+"detail/write_aiger.hpp"),("assign statements",IO+"detail/write_verilog.hpp"),("LUT cells",IO+"detail/writer_lut.hpp"),("drawing",IO+"detail/write_dot.hpp")], ["file contents interpreted as a netlist"], note="bounded; clean networks (inputs before gates, no dead nodes) and LUTs without constant fanins, as the flows produce them")

prop("P01", "The one-shot mapping flow produces netlists that compute the file it was given",
 "The flow manager (examples/ifpga), given an AIGER file or a folder with an original network and optimised versions of it, and a JSON configuration, runs to its end under every documented setting and writes a Verilog module and a LUT netlist. Both have the inputs and outputs of the original file, in order and under its names, are well-formed, and compute its functions for every input value, whatever the versions look like, in debug and verbose mode too.",
 ["inputs","configurations","programs"], "tiny networks (constant, shared and input outputs) and a seeded family of 4-10 inputs and 12-60 gates, single file or folder with redundant versions in either order, 4 (thorough 6) configurations with cut sizes 2-6, with and without port names; all input values symbolic",
 "No test runs the flow; a netlist that is wrong for some input, or a version merged with the wrong polarity, is not seen by looking at the reported area.",
 ["include/flow/flow_manager.hpp","include/flow/configer.hpp","examples/ifpga.cpp","include/operations/algorithms/choice_miter.hpp","include/operations/algorithms/klut_mapping.hpp","include/operations/io/writer.hpp"], [("flow","include/flow/flow_manager.hpp: run, mapper, choice_synthesis, choice_synthesis_abc, write_out"),("configuration","include/flow/configer.hpp: get_value")], ["written Verilog","written LUT netlist"], note="bounded; valid readable files; quality of the result is not claimed")

prop("E01", "Equivalence checking gives right verdicts and real counter-examples",
 "The miter of two networks exists exactly when their interfaces agree, and its output tells for every input value whether some output differs. The CNF of a network is satisfied exactly by the assignments in which every gate has the value of its function. Equivalence checking without a conflict limit always decides; networks reported equivalent are, and a counter-example distinguishes them; a conflict limit may leave the question open but never changes the verdict. The circuit validator, with every solver it supports, after any sequence of queries, restarts and network growth, validates only what holds for every input and refutes with real counter-examples; generated patterns are new, distinct, right, and complete when fewer than asked for; a network outlives its validators.",
 ["programs","inputs","histories"], "all pairs of 1-2 gate networks over 2 (thorough 3) inputs, a seeded family up to 36 (90) gates against equivalent and faulty edits, all CNF assignments of 2-3 gate networks, 48-120 mixed validator queries per network for 4 solver configurations",
 "Tests use equivalence checking as a helper and never test it; a wrong encoding or stale solver state shows only for particular gates, polarities or query sequences.",
 [ALG+"miter.hpp",ALG+"equivalence_checking.hpp",ALG+"cnf.hpp",ALG+"circuit_validator.hpp"], [("miter construction",ALG+"miter.hpp"),("Tseitin encoding",ALG+"cnf.hpp: generate_cnf, node_literals"),("incremental validation",ALG+"circuit_validator.hpp: validate, generate_pattern, push, pop, restart")], ["verdict","counter-example","clauses","patterns"], note="bounded; use of observability don't-cares in the validator cannot be instantiated with the networks of the repository")
prop("Q01", "Simulation computes the functions of the network",
 "Simulating a network with Boolean values, input words, truth tables of fixed or dynamic size or partial truth tables gives, for every node and output, exactly the value of its function for every input value and pattern; patterns added later and gates created later are simulated as if they had been there from the start, across word boundaries. Packing patterns and randomising don't-care bits keeps the cared bits of every pattern.",
 ["programs","inputs","histories"], "all 2-3 gate networks with symbolic polarities, larger programs over up to 7 (thorough 8) inputs, LUTs with every 3-variable table, 1-129 symbolic patterns plus added ones, every choice of care bits of up to 4 (5) patterns over 2 inputs",
 "No test simulates; errors hide in the last word of a pattern set and in incremental updates.",
 [ALG+"simulation.hpp","include/database/network/aig_network.hpp","include/database/network/klut_network.hpp"], [("whole-network simulation",ALG+"simulation.hpp: simulate_nodes, simulate"),("incremental simulation",ALG+"simulation.hpp: re_simulate_fanin_cone, simulate_node"),("bit packing",ALG+"simulation.hpp: bit_packed_simulator")], ["node values","output values","patterns"], note="bounded; re-simulation only updates the last block, so callers must simulate whenever a block fills up (as documented)")

prop("N01", "Every rewriting candidate computes exactly the function it replaces",
 "For every function of up to four variables and every choice of leaf signals, the NPN resynthesis database offers at least one candidate, every candidate signal computes the function of its leaves for every input value, offering candidates leaves the existing logic alone, and the enumeration stops when the caller asks for it.",
 ["inputs","programs"], "all 65536 functions of four variables and all of 1-3 variables, every candidate of the database, leaves that are inputs, gates, constants, shared or complemented signals; all input values symbolic",
 "The database is 222 classes with many structures each, instantiated through a permutation and phase per function; rewriting tests touch a handful of them.",
 [OPT+"detail/node_rewriting.hpp",OPT+"detail/database_npn4_aig.hpp","libs/kitty/include/kitty/npn.hpp"], [("class table and candidate instantiation",OPT+"detail/node_rewriting.hpp: operator(), padding_network_by_signal"),("database decoding",OPT+"detail/database_npn4_aig.hpp")], ["candidate signals"], note="exhaustive over the functions; leaves from a family of programs")
prop("G01", "Every command sequence keeps the functions of the file read",
 "In a session of the command-line tool every sequence of commands (balance, refactor, rewrite, lut_opt, cleanup, history, map_fpga with and without choices, writers, scripts) runs to its end, leaves the current AIG with the inputs, outputs and functions of the file last read, well-formed, and leaves every mapping produced computing them. Files written compute, port by port, what was read and are accepted again. Refactoring and rewriting never add gates, and keep the levels when asked. Recorded history entries stay what they were when recorded, can be brought back, and the history remains usable when full. Every documented value of a numeric option is accepted; a value out of range leaves the session as it was. The statistics printed are those of the current networks. Commands without a usable file have no effect and do not end the session.",
 ["histories","inputs","configurations"], "all sequences of 3 (thorough 4) commands out of 8 on a family of networks, longer pseudo-random sessions with two files, history sequences beyond the capacity, every numeric option value with two beyond each end, any two commands without a file, flows to each output format; all input values symbolic",
 "No test drives the shell. Defects come from state carried between commands: shared storage, stores left empty, a full history, options passed on wrongly.",
 ["cli/imap.cpp","cli/command/refactor.hpp","cli/command/rewrite.hpp","cli/command/balance.hpp","cli/command/lut_opt.hpp","cli/command/history.hpp","cli/command/map_fpga.hpp","cli/command/cleanup.hpp","cli/command/io/read_aiger.hpp","cli/command/io/write_aiger.hpp","cli/command/io/write_fpga.hpp","libs/alice/include/alice/cli.hpp"], [("commands and option checks","cli/command/*.hpp: execute"),("store and history","cli/command/history.hpp"),("mapping with choices from the history","cli/command/map_fpga.hpp")], ["current AIG","LUT store","written files","history"],
 note="bounded sessions on bounded families of networks; combinational files; option values that stick between commands are not claimed")
