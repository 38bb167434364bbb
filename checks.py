# per-property configuration of the checks (see DESIGN.md)
LEVEL = "model_checking"
import subprocess
try: Z3VER = subprocess.run(["z3-new", "--version"], stdout=subprocess.PIPE, text=True).stdout.strip()
except OSError: Z3VER = "?"
COMMON_ASSUMPTIONS = [
    "single-threaded execution; allocation never fails; heap layout of the run is representative (addresses are concrete)",
    "code compiled by clang 18 at -O1 with asserts and _GLIBCXX_ASSERTIONS on; every counterexample is replayed on a g++ -O0 ASan build before it is reported",
    "nothing is claimed outside the bounds listed per run",
]
CHECKS = {}
OPS = ["buf","not","and","nand","or","nor","lt","le","xor","xnor","clone_node","ite","maj","xor3","nary_and","nary_or","nary_xor"]
CHECKS["A01"] = dict(src="aig.cpp", runs=[
    dict(h="ops", quick=100, thorough=300, cover=OPS, bound="3 PIs, up to 1 (thorough 2) arbitrary prior gates, one creation call with any operands"),
    dict(h="comp", quick=30, cover=["end"], bound="gate evaluation on truth tables of 0..7 variables, symbolic contents")])
CHECKS["A02"] = dict(src="aig.cpp", runs=[
    dict(h="hist", quick=100, thorough=300, cover=["end","new","hit"], bound="any history of 5 (thorough 6) create_pi/create_and/create_po calls"),
    dict(h="seqif", quick=30, thorough=60, cover=["end"], bound="up to 2 PIs, 2 registers, 2 POs")])
CHECKS["A03"] = dict(src="aig.cpp", runs=[
    dict(h="subst", quick=100, thorough=300, cover=["end"], bound="all 2-gate networks over 2-3 inputs with symbolic polarities and all 3-gate single-output ones over 2 inputs (thorough: up to 4 gates); every live node by every signal outside its fanout cone"),
    dict(h="subst2", quick=100, thorough=200, cover=["end"], bound="3 gates over 2 inputs; two substitutions in a row, then new logic"),
    dict(h="substs", quick=100, thorough=200, cover=["end"], bound="list of substitutions applied at once"),
    dict(h="deep", quick=60, thorough=300, cover=["end","list"], bound="9 styles x 30 seeds x 14/24/40 gates (thorough 60 seeds), 2-4 successive substitutions or one function-preserving list of up to 4; all input values symbolic"),
    dict(h="takeout", quick=60, thorough=100, cover=["end"], bound="removal of dangling nodes, replacement of inputs")])
CHECKS["K01"] = dict(src="klut.cpp", runs=[
    dict(h="ops", quick=60, cover=["node","ite","maj","nary_xor","constant node"], bound="one creation call of any kind over any operands of a small network; node tables of up to 3 fanins fully symbolic"),
    dict(h="misc", quick=60, cover=["end"], bound="several nodes, sharing, evaluation on truth tables"),
    dict(h="iface", quick=30, cover=["end"], bound="all input/output creation histories of bounded length"),
    dict(h="subst", quick=60, cover=["end"], bound="substitution of any node by any signal in small LUT networks")])
CHECKS["T01"] = dict(src="klut.cpp", runs=[
    dict(h="cache", quick=60, cover=["end"], bound="up to 3 insertions of tables of 0..3 variables, symbolic contents"),
    dict(h="cache7", quick=60, cover=["end"], bound="7-variable tables, symbolic bits in both words")])
CHECKS["C01"] = dict(src="cut.cpp", runs=[
    dict(h="basic", quick=60, cover=["merge","dominates","too large"], bound="two cuts of 0..4 leaves (thorough 5), symbolic leaf indices with colliding signature bits, every size limit"),
    dict(h="collide", quick=30, cover=["collision"], bound="two 4-leaf cuts with equal signatures, symbolic 8-bit indices"),
    dict(h="cset", quick=60, cover=["end","full","dominated"], bound="all histories of 4 (thorough 6) operations on a cut set of capacity 3, cuts over 4 leaves")])
CHECKS["C02"] = dict(src="cut.cpp", runs=[
    dict(h="small", quick=60, cover=["end","complete"], bound="all 3-gate networks over 2-3 inputs, k=2..4, with and without table minimisation"),
    dict(h="large", quick=60, cover=["end","complete"], bound="9 styles x 6 seeds x sizes 16/85 gates (thorough 12 seeds, up to 110 gates), 5 configurations with and without table minimisation; all input values symbolic")])
NET = "9 styles x 8-12 seeds (thorough 20-40) x networks of 10/24/60 gates (thorough up to 160); all input values symbolic"
CHECKS["B01"] = dict(src="opt.cpp", runs=[
    dict(h="bal_small", quick=60, cover=["end"], bound="all networks with 3-4 gates over 2-3 inputs, every polarity"),
    dict(h="bal_large", quick=60, cover=["end"], bound=NET),
    dict(h="bal_edge", quick=30, cover=["end"], bound="gate-less networks, constant, shared and complemented outputs")])
CHECKS["B02"] = dict(src="opt.cpp", runs=[
    dict(h="sop_small", quick=60, cover=["end"], bound="all networks with 3-4 gates over 2-3 inputs, cut sizes 2-4, with and without table minimisation"),
    dict(h="sop_large", quick=60, cover=["end"], bound=NET + "; cut sizes 3, 4, 6")])
CHECKS["S01"] = dict(src="refac.cpp", runs=[
    dict(h="factor4", quick=60, thorough=200, cover=["end"], bound="every function of 1-3 variables and of 4 variables (quick: those with f(1111)=0)"),
    dict(h="factor_big", quick=60, thorough=300, cover=["end"], bound="families of random functions and sums of products over 5-9 (thorough 10) variables"),
    dict(h="divide", quick=60, thorough=300, cover=["div","nodiv"], bound="1-3 (thorough 4) symbolic cubes divided by 1-2 symbolic cubes over 4 (thorough 6) literals")])
CHECKS["F01"] = dict(src="refac.cpp", runs=[
    dict(h="ref_small", quick=60, thorough=200, cover=["end","improved"], bound="all networks with 3-4 (thorough 5) gates over 2-3 inputs, every polarity, 4 parameter settings"),
    dict(h="ref_large", quick=60, thorough=400, cover=["end","improved"], bound=NET + "; 6 parameter settings, applied twice"),
    dict(h="ref_wide", quick=70, thorough=300, cover=["improved"], bound="9 styles x 8 (thorough 24) seeds x networks of 40/110 (240) gates over 8-14 (16) inputs, depth to be preserved, 3 parameter settings, applied twice")])
CHECKS["R01"] = dict(src="rewr.cpp", runs=[
    dict(h="small", quick=60, thorough=200, cover=["end","improved"], bound="all networks with 3-4 (thorough 5) gates over 4 inputs, 4 parameter settings"),
    dict(h="large", quick=60, thorough=400, cover=["end","improved"], bound=NET + "; 4 parameter settings, applied twice"),
    dict(h="wide", quick=70, thorough=300, cover=["improved"], bound="9 styles x 8 (thorough 24) seeds x networks of 40/110 (240) gates over 8-14 (16) inputs, depth to be preserved, 3 parameter settings, applied twice")])
CHECKS["M01"] = dict(src="map.cpp", runs=[
    dict(h="map_small", quick=60, thorough=200, cover=["end"], bound="all networks with 3-4 gates over 2-3 inputs, one complement bit per gate and every output polarity, cut sizes 2-4"),
    dict(h="map_large", quick=60, thorough=400, cover=["end"], bound=NET + "; cut sizes 2-6 with 6-11 cuts per node")])
CHECKS["M02"] = dict(src="map.cpp", runs=[
    dict(h="opt_small", quick=60, thorough=200, cover=["end"], bound="all networks with 3-4 gates over 2-3 inputs, one complement bit per gate, cut sizes 2-4"),
    dict(h="opt_large", quick=60, thorough=400, cover=["end"], bound=NET + "; cut sizes 2-6 with 6-11 cuts per node")])
CHECKS["H01"] = dict(src="choice.cpp", runs=[
    dict(h="ch_small", quick=60, thorough=200, cover=["end"], bound="all networks with 3-4 gates over 2-3 inputs, one complement bit per gate and every output polarity; merged with a balanced version of itself or alone"),
    dict(h="ch_large", quick=60, thorough=400, cover=["end","choices"], bound=NET + "; merged with up to three optimised versions of itself; cut sizes 3, 4, 6"),
    dict(h="ch_param", quick=60, thorough=300, cover=["end","choices"], bound=NET + "; conflict limit 1-2, solver recycled every 1-2 calls, one simulation word, with and without polarity flipping")])
CHECKS["V01"] = dict(src="views.cpp", runs=[
    dict(h="depth_aig", quick=60, thorough=150, cover=["end","extend"], bound="all networks with 2-3 (thorough 4) gates over 2-3 inputs, symbolic polarities, with and without counting complemented edges; one gate and output added through the view"),
    dict(h="depth_large", quick=40, thorough=150, cover=["end"], bound=NET),
    dict(h="depth_klut", quick=40, thorough=100, cover=["end"], bound="all 2-LUT networks over 2 inputs and the constants with LUTs of 1-2 inputs"),
    dict(h="topo", quick=60, thorough=100, cover=["end","substituted"], bound="all 3-gate networks over 2 inputs and up to one register, rewired by one substitution, any start signal"),
    dict(h="mapping", quick=60, thorough=150, cover=["end"], bound="all histories of 3 (thorough 4) operations on two nodes"),
    dict(h="nmap", quick=60, thorough=150, cover=["end"], bound="all histories of 3 (thorough 4) operations over 4 nodes, symbolic values"),
    dict(h="refs", quick=60, thorough=100, cover=["end"], bound="all networks with 3 (thorough 4) gates over 2-3 inputs, every gate")])
CHECKS["D01"] = dict(src="views.cpp", runs=[
    dict(h="clean_aig", quick=100, thorough=200, cover=["end","into"], bound="all 3-gate networks over 2-3 inputs, symbolic polarities, every subset of the sinks as outputs plus inputs and constants, all flags"),
    dict(h="clean_klut", quick=100, thorough=200, cover=["end"], bound="2-3 LUTs of 1-3 inputs over 2 inputs and the constants, LUT functions from a fixed set including constants, projections and redundant ones"),
    dict(h="clean_large", quick=60, thorough=200, cover=["end"], bound=NET)])
CHECKS["I01"] = dict(src="io.cpp", streams=True, runs=[
    dict(h="rd_bin", quick=60, thorough=300, cover=["end","names","register"], bound="binary AIGER files with 0-2 (thorough 3) inputs, 0-1 registers, 0-2 (thorough 3) gates; gate deltas are symbolic bytes, one- and two-byte encodings; all output and next-state literals; with and without property sections, symbol table and comment"),
    dict(h="rd_wide", quick=40, thorough=150, cover=["end"], bound="70, 300 (thorough 9000) inputs: two- and three-byte deltas around both ends of their range"),
    dict(h="rd_bad", quick=60, thorough=150, cover=["end","refused"], bound="every truncation of a two-gate file, 15 broken headers, out-of-range literals, every pair of impossible 6-bit deltas, symbol entries without a port, overlong deltas"),
    dict(h="rd_file", quick=60, thorough=150, cover=["end","named"], bound="files with 1-2 inputs, up to one gate, two outputs with any literals, port names from a set that includes missing names and names of internal wires")])
CHECKS["I02"] = dict(src="io.cpp", streams=True, runs=[
    dict(h="wr_small", quick=60, thorough=300, cover=["end"], bound="all networks with 0-3 gates over 0-3 inputs with any polarities, constant and input outputs"),
    dict(h="wr_large", quick=40, thorough=200, cover=["end"], bound=NET),
    dict(h="wr_wide", quick=40, thorough=150, cover=["end"], bound="two-gate networks over 40-130 (thorough 9000) inputs"),
    dict(h="wr_ports", quick=40, thorough=150, cover=["end"], bound="Verilog of networks of up to 20 gates with every input and output port a scalar, one vector, vectors of width 1 or mixed vectors"),
    dict(h="wr_klut", quick=60, thorough=150, cover=["end","dot"], bound="1-2 LUTs of 1-6 inputs over 1-3 inputs with fixed tables"),
    dict(h="wr_file", quick=40, thorough=100, cover=["end"], bound="networks of wr_small written to files")])
CHECKS["E01"] = dict(src="equiv.cpp", runs=[
    dict(h="miter", quick=60, thorough=300, cover=["end","no miter"], bound="all pairs of networks with 1-2 gates over 2 (thorough 3) inputs, polarities of the first one symbolic"),
    dict(h="miterk", quick=60, thorough=200, cover=["end"], bound="pairs of LUT networks with 1-2 gates over 2 inputs, every polarity"),
    dict(h="cecs", quick=60, thorough=200, cover=["equivalent","different"], bound="all pairs of two-gate networks over 2 inputs (half of the polarities of the second one)"),
    dict(h="cec", quick=60, thorough=300, cover=["equivalent","different"], bound="9 styles x 4 seeds (thorough 12) x 5/14/36 gates (thorough up to 90), compared with 8 kinds of equivalent or faulty edits; all input values symbolic"),
    dict(h="cnf", quick=60, thorough=200, cover=["end","klut"], bound="all 2-3 gate networks over 2-3 inputs and LUTs with every table of 1-3 variables; the assignment of all CNF variables is symbolic"),
    dict(h="val", quick=60, thorough=300, cover=["valid","refuted","patterns","exhausted","end"], bound="4 solver configurations x 4 modes x 9 styles x 2 seeds (thorough 8) x 5/12/30 gates (thorough up to 60); 48-72 (thorough 80-120) mixed queries each, network grown in between"),
    dict(h="valdef", quick=30, thorough=60, cover=["end"], bound="9 styles x 2 seeds, all pairs of signals, default parameters")])
CHECKS["Q01"] = dict(src="equiv.cpp", runs=[
    dict(h="simb", quick=60, thorough=200, cover=["end"], bound="all networks with 2 gates and all single-output ones with 3 gates over 2 inputs (thorough: 3 gates over 3 inputs, an extra output), symbolic polarities and input values"),
    dict(h="simt", quick=60, thorough=200, cover=["tables"], bound="all 3-gate networks over 2-3 inputs with symbolic polarities; larger programs over 4, 7 (thorough 8) inputs"),
    dict(h="simk", quick=60, thorough=120, cover=["klut"], bound="two-LUT networks with every 3-variable table; input values symbolic"),
    dict(h="simp", quick=60, thorough=200, cover=["end"], bound="9 (thorough 27) programs over 3 inputs; 1-129 symbolic initial patterns, up to 2 (thorough 3) symbolic added patterns, in three re-simulation orders"),
    dict(h="pack", quick=60, thorough=300, cover=["end","packed"], bound="2 inputs, up to 4 (thorough 5) patterns with symbolic values and every choice of care bits, packed once or twice")])
CHECKS["N01"] = dict(src="rewr.cpp", runs=[
    dict(h="npn", quick=100, thorough=600, cover=["end","many"], bound="all 65536 functions of 4 variables, every candidate, all input values symbolic"),
    dict(h="npn_leaf", quick=60, thorough=200, cover=["end","many"], bound="all tables of 1-3 variables and 300 (thorough 2000) of 4 variables over leaves that are gates, inputs, constants, shared or complemented signals of 36 (thorough 180) programs")])
CHECKS["G01"] = dict(src="cli.cpp", streams=True, runs=[
    dict(h="seq", quick=100, thorough=400, cover=["end"], bound="every sequence of 3 (thorough 4) commands out of 8 with varying options, on 4 (thorough 6) networks"),
    dict(h="longseq", quick=60, thorough=400, cover=["end","history"], bound="sessions of 9 (thorough 14) commands with a second file in between on 9 styles x 16 (thorough 60) seeds of up to 60 gates"),
    dict(h="hist", quick=60, thorough=200, cover=["end"], bound="history sequences beyond its capacity"),
    dict(h="options", quick=60, thorough=200, cover=["accepted","refused"], bound="every numeric option of every command, all documented values and two beyond each end"),
    dict(h="nofile", quick=60, thorough=100, cover=["end"], bound="any two of 22 commands without a file, after a missing and after a malformed file"),
    dict(h="flow", quick=60, thorough=200, cover=["aiger","lut","verilog"], bound="4 scripts and 3 output formats on 22 (thorough 110) networks, with and without port names"),
    dict(h="script", quick=60, thorough=60, cover=["file","line"], bound="3 scripts from a file and from the command line"),
    dict(h="rw", quick=60, thorough=300, cover=["end"], bound="sessions with rewrite on 27 (thorough 90) networks"),
    dict(h="levels", quick=60, thorough=100, cover=["rewrite","refactor"], bound="refactor (6, thorough 40 networks) and rewrite (one network) without options keep the levels")])
CHECKS["P01"] = dict(src="flow.cpp", streams=True, runs=[
    dict(h="folder", quick=60, thorough=300, cover=["end"], bound="folder of an original network of 4-9 inputs and 12-60 gates and two versions with redundant logic, either order, 4 (thorough 6) configurations"),
    dict(h="tiny", quick=60, thorough=100, cover=["end"], bound="5 tiny networks with constant, shared and input outputs, as a file or a folder, with and without names, every configuration"),
    dict(h="file", quick=60, thorough=300, cover=["end"], bound="single files of 4-8 inputs and 14-46 gates; the flow computes the versions itself")])
