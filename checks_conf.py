"""What each property's check runs: harness entries (each a family of inputs decided symbolically), bounds, tier settings."""

COMMON_ASSUMPTIONS = [
    "bounds per entry are listed under coverage.entries; nothing is claimed outside them",
    "C++ standard library, libc and z3 are trusted; engine = LLVM IR interpreter in /verif/engine (symbolic results are cross-checked by running sampled path models natively)",
    "double arithmetic on symbolic data is interpreted over the reals (rounding is not modelled; assertions carry the stated tolerances); arithmetic on concrete data is IEEE double. Rational coefficients over about 200 bits are rounded to 128 significant bits (only iterated loops reach that)",
    "repository code is compiled with clang -O1 (assertions enabled) for the symbolic run and with g++ -O2 for native replay",
]

# entry -> (quick bounds, thorough bounds or None when the same)
B = {
 # C01-C04
 "c01_bits": ("every loop-free digraph on 4 vertices (12 adjacency bits)", "every digraph without self-edges on 5 vertices (20 adjacency bits)"),
 "c01_self": ("every digraph on 0..3 vertices, self-edges included", None),
 "c01_rows": ("3 vertices, each row 0..2 entries of any value, any order, repeats and self-edges", "3 vertices, each row 0..3 entries"),
 "c01_chain": ("chains of 40 and 300 vertices in both numberings plus two extra edges between six positions, listed before or after", None),
 "c01_hub": ("hub of degree 19 or 269 at six positions, every 1st..4th vertex leading back", None),
 "c01_clique": ("2..3 blocks of 2, 5 or 40 vertices (clique, bipartite, ring, independent), 3 numberings, rows ascending or descending", None),
 "c01_wide": ("chain of 70000 vertices with an extra edge between three positions; hub of degree 69999 with one edge back", None),
 "c02_wide": ("as c01_wide, starts at three positions, work space new or used", None), "c03_wide": ("chain of 70000 vertices with an extra edge: up to 70000 components, or one of 70000 vertices, reversed once or twice", None),
 "c05_wide": ("3 connections with vertex numbers from {0,256,65536,70000} (sources) and neighbours, 300, 66000 or 70001 rows, arbitrary weights", None),
 "c05_long": ("90..3000 connections in 3 orders, each pair once or repeatedly, one arbitrary weight", None), "c05_tiny": ("4 connections between 2 vertices, arbitrary non-negative weights up to 1e-18, 1e-9 or 1e9", None),
 "c07_wide": ("vertex numbers of 1..6 digits, weights from 1e-300 to 1e300", None), "c08_wide": ("300 connections with one entry of any 32-bit value at four places, 70000 connections with one of 8 values at five places; 40000 or 100000 cells", None),
 "c09_wide": ("70000x3 and 3x300 values, one arbitrary at chosen places", None), "c10_wide": ("up to 3 cells from ten values up to INT_MAX", None), "c10_lots": ("500 and 70000 cells in 3 orders, inserted or at construction", None),
 "c11_many": ("12 and 150 identifiers with fields of 5 and 400 cells, one arbitrary value", None), "c22_wide": ("1200 and 66000 cells in 3 orders, with and without an ignored cell, one arbitrary volume", None),
 "c23_wide": ("1300 and 70000 points, one arbitrary", None), "c24_wide": ("1300 and 70000 points with flat pieces, one arbitrary storage value", None), "c27_long": ("700, 3000 and 70000 samples, four maxima; arbitrary mean and deviation", None),
 "c02_lots": ("every loop-free digraph on 3 vertices with 4, 5 or 12 starts, one arbitrary; chains of 40 vertices with 41, 150 or 70000 starts", None),
 "c02_bits": ("every digraph on 3 vertices with self-edges, 0..2 arbitrary starts, work space exact or larger", None),
 "c02_prior": ("every loop-free digraph on 3 vertices, 0..2 starts, work space used before on a ring or a star", None),
 "c02_rows": ("3 vertices, rows of 0..2 arbitrary entries, 0..1 start", None),
 "c02_starts": ("every loop-free digraph on 3 vertices, 0..3 arbitrary starts (repeats)", None),
 "c02_seq": ("two consecutive arbitrary loop-free digraphs on 3 vertices in one work space", None),
 "c02_chain": ("chains of 30 and 280 vertices with an extra edge and two starts", None),
 "c02_four": ("every loop-free digraph on 4 vertices, one arbitrary start", None),
 "c03_small": ("every loop-free digraph on 3 vertices, global or from 0..2 starts, reversed 1..3 times", "the same on 4 vertices"),
 "c03_large": ("three linked rings with sizes from {1,3,1023,1024,1025,1700}, reversed 1..3 times", None),
 "c03_many": ("chains of 9, 260 and 1100 components of one or two vertices in 8 patterns, reversed 1..3 times", None),
 "c04_tarjan": ("3 vertices, rows of 0..1 entry; any one or two allocations fail", None),
 "c04_reachable": ("every loop-free digraph on 3 vertices, one start; any one or two allocations fail", None),
 "c04_reverse": ("3 vertices, rows of 0..1 entry; any up to three allocations fail", None),
 "c04_toolbox": ("3 cells, 3 flux fields (one with a loop), 2 inflow sets, both directions, with or without an earlier computation, arbitrary pore volume; any one C allocation fails", None),
 # C05-C11
 "c05_graph": ("0..3 arbitrary connections on 3 source and 4 target vertices, weighted or not, 0..4 rows, arbitrary real weights", "0..4 connections on 4 source and 5 target vertices, 0..5 rows"),
 "c05_repeat": ("6 arbitrary connections between 2 vertices, arbitrary real weights", "7 connections"),
 "c05_mixed": ("2..4 connections, each weighted or not", None),
 "c05_large": ("tables of 7 and 20 rows in 4 insertion orders with two arbitrary weights", None),
 "c06_two": ("two phases of 0..2 arbitrary connections (2 sources, 3 targets), each weighted or not, 0..3 final rows", "3 sources, 3 targets, 0..4 final rows"),
 "c06_three": ("three phases of 0..1 connection (3 sources, 3 targets)", None),
 "c06_shrink": ("four phases of 2 or 12 rows with repeats, each weighted or not, arbitrary weight", None),
 "c07_print": ("0..2 connections on 3x4 vertices, 8 weights, 3 formats, 2 precisions; byte-exact output", "0..3 connections"),
 "c07_flags": ("0..2 connections, 8 flag sets, 6 precisions, printed twice", None),
 "c07_many": ("12 rows with every pattern of row lengths 0..4", None),
 "c07_state": ("0..2 connections with arbitrary weights, every combination of the 15 format flags, precision 0..60; stream insertion recorded", "0..3 connections"),
 "c08_table": ("0..4 cells, 0..6 entries of any 32-bit value", "0..4 cells, 0..8 entries"),
 "c08_bigcount": ("1000, 10^6 and INT_MAX cells, 1..4 entries of any 32-bit value", None),
 "c08_one": ("tables of 20, 21 and 38 entries for 50 cells, one entry at any place arbitrary", None),
 "c09_values": ("0..3 connections, 0..3 phases, two writes at any 64-bit index pair with any value", "three writes"),
 "c09_shapes": ("1 or 6 connections, 1..3 phases, one access at any 64-bit index pair", "up to 30 connections, 5 phases"),
 "c10_set": ("up to 3 cells given at construction or inserted, each any of 0..15", "up to 4 cells, each any of 0..31"),
 "c10_many": ("12, 13 and 40 cells in two strides plus one arbitrary cell, first or last", None),
 "c10_id": ("three identifiers of 0..2 arbitrary characters", None),
 "c10_longid": ("identifiers of 14..40 characters differing in one arbitrary place", None),
 "c11_history": ("1..3 assignments of any kind to 3 identifiers, fields of 0..2 entries, arbitrary values", "1..4 assignments"),
 "c11_copy": ("copy, assignment to either side, move, further assignment", None),
 "c11_query": ("queries of known and unknown identifiers", None),
 # C12-C19
 "c12_dag": ("3 cells, all 3 connections with arbitrary flux (zero or magnitude 1/64..64, either sign), one well on any cells, arbitrary rates and pore volumes, both directions, no recirculation", None),
 "c12_fan": ("cell with 4 neighbours, each carrying well A, well B, nothing, or taking flow away; 2 arbitrary fluxes, one arbitrary pore volume", None), "c13_fan": ("cell with 4 neighbours, each carrying well A, well B, nothing, or taking flow away; 2 arbitrary fluxes, one arbitrary pore volume", None), "c14_fan": ("cell with 4 neighbours, each carrying well A, well B, nothing, or taking flow away; 2 arbitrary fluxes, one arbitrary pore volume", None), "c19_fan": ("cell with 4 neighbours, each carrying well A, well B, nothing, or taking flow away; 2 arbitrary fluxes, one arbitrary pore volume", None),
 "c12_diamond": ("4-cell diamond with arbitrary fluxes, 5 well placements, arbitrary rates and pore volumes", None),
 "c12_wells": ("3 cells, arbitrary fluxes, two wells in 4 arrangements plus one of the other sign", None),
 "c12_limit": ("3 cells, 27 concrete flux fields, one or two wells, pore volumes arbitrary up to 1e11 (far beyond the 200-year limit)", None),
 "c12_chain": ("chains of 20, 70 and 300 cells with bypasses and parallel connections in 3 numberings, concrete fluxes, two pore volumes arbitrary, both directions", "the same and 1100 cells"),
 "c12_wide": ("a chain of 66000 cells in 2 numberings, a second source near its end, a pore volume and a rate arbitrary, both directions", None), "c13_wide": ("as c12_wide", None), "c14_wide": ("as c12_wide", None), "c15_wide": ("as c12_wide", None),
 "c12_many": ("grids of 4x4 and 7x6 cells in 3 numberings with concrete fluxes, 6 and 11 wells, two pore volumes arbitrary, both directions", "the same and 21x15 cells"),
 "c12_scale": ("3-cell chain, fluxes and rates arbitrary from 1e-30 to 1e12, pore volumes arbitrary up to 1e6, one or two wells, also in one cell, both directions", None), "c13_scale": ("as c12_scale", None), "c14_scale": ("as c12_scale", None), "c15_scale": ("as c12_scale", None), "c17_scale": ("as c12_scale", None), "c18_scale": ("as c12_scale, 4 redescriptions", None), "c19_scale": ("as c12_scale", None),
 "c13_crowd": ("70 cells with 69 wells, one rate arbitrary, 3 numberings", None), "c14_crowd": ("70 cells with 69 wells, one pore volume arbitrary, 3 numberings", None), "c19_crowd": ("as c13_crowd", None),
 "c15_big": ("as c12_many", None), "c17_big": ("as c12_chain and c12_many", None), "c18_big": ("as c12_chain and c12_many, 4 redescriptions", None), "c19_big": ("as c13_many", None),
 "c13_dag": ("as c12_dag", None), "c13_wells": ("3 cells, arbitrary fluxes, two wells in 6 arrangements plus one of the other sign", None), "c13_diamond": ("as c12_diamond", None),
 "c13_chain": ("as c12_chain, one rate arbitrary", None), "c13_many": ("as c12_many, both rates of one well arbitrary", None), "c13_sign": ("a well with rates of both signs, arbitrary, on 3 cells", None),
 "c14_dag": ("as c12_dag", None), "c14_wells": ("3 cells, arbitrary fluxes, two wells in 4 arrangements", None), "c14_limit": ("as c12_limit", None), "c14_chain": ("as c12_chain", None), "c14_many": ("as c12_many", None),
 "c15_dag": ("as c12_dag", None), "c15_limit": ("as c12_limit", None), "c15_fill": ("two cells, arbitrary rate and flux 1e-9..1, pore volumes up to 1e14", None), "c15_loop": ("7 loop shapes of 4..6 cells, one pore volume arbitrary up to 1e11", None),
 "c16_three": ("every orientation of three connections plus an optional back connection, wells on 1..2 of 3 cells, one pore volume arbitrary up to 1e6", None),
 "c16_shapes": ("7 loop structures of 4..6 cells (series, figure-eight, nested, fed, unfed), both directions, one pore volume arbitrary up to 1e6", None),
 "c16_volumes": ("3-cell loop, all pore volumes arbitrary", None), "c16_slow": ("slowly converging loop (recirculating 75% and 94%), one pore volume arbitrary", None),
 "c16_long": ("loop recirculating 98%, 99.8% and 99.95% (thousands of sweeps), one pore volume arbitrary in the first", None),
 "c16_weak": ("2-cell loop with weak recirculation (1e-12..4e-12), fluxes, rate and pore volumes arbitrary; concentration balance", None),
 "c16_ring": ("rings and ladders of 20 and 70 cells, 3 numberings, one pore volume downstream arbitrary, for 20 cells also one in the loop, in [1000,1001], both directions", None),
 "c16_big": ("ring of 9 cells, rings in series (13 cells), nested rings (11 cells), 3 numberings with fluxes scaled by 1, 1e-9 or 1e6, one or two wells, one pore volume arbitrary, both directions", "the same with 12..40 cells"),
 "c17_mirror": ("3 cells, arbitrary fluxes, wells of both signs in 3 arrangements, arbitrary rates and pore volumes", None), "c17_accept": ("2 cells, arbitrary inflows of any sign, any start set", None), "c17_limits": ("27 concrete flux fields, pore volumes up to 1e11", None), "c17_loop": ("7 loop shapes, one pore volume arbitrary", None),
 "c18_flip": ("3 cells, arbitrary fluxes, rates and pore volumes, any one connection listed the other way round", None), "c18_permute": ("the same, every other order of the connections", None), "c18_phases": ("the same, every flux split arbitrarily over 2..3 phases", None),
 "c18_parallel": ("the same, any connection split arbitrarily in two, either orientation", None), "c18_zero": ("the same, a connection without flux inserted anywhere", None), "c18_all": ("combination of reversal, permutation and phases", None), "c18_cancel": ("the same, two opposite phase fluxes of 2^24 added to every connection, 3 orders", None), "c18_loop": ("7 loop shapes, 4 redescriptions", None),
 "c19_dag": ("3 cells, arbitrary fluxes and rates, two wells in 6 arrangements", None), "c19_three": ("3-cell chain, three wells (6 arrangements), arbitrary fluxes and rates", "21 arrangements"), "c19_loop": ("7 loop shapes with concrete data (auxiliary)", None),
 "c22_scales": ("3 cells, travel times and volumes in 12 combinations of scale up to 200 years and 1e9, one cell possibly empty, arbitrary volumes", None),
 "c24_long": ("curves of 12 and 40 points with flat pieces, one point arbitrary", None),
 "c24_tiny": ("curves of 3 points with flow increments arbitrary from 1e-15", None),
 "c26_long": ("fields over 30, 300 and 70000 cells in up to 25 interleavings, rates scaled by 1e-15, 1 or 1e6, two rates arbitrary", None),
 # C20, C21
 "c20_history": ("after a first computation in each direction: every sequence of 3 operations out of 17 (assignments, also of nothing, computations for all, some or no start sets, rejected calls, moves, use of a second toolbox), arbitrary pore volumes", "every sequence of 4 operations"),
 "c20_empty": ("every sequence of 3 operations on a new toolbox", "every sequence of 4 operations"),
 "c20_long": ("48 fixed sequences of 60 operations out of the 17, arbitrary pore volumes at every assignment", "256 sequences of 300 operations"),
 "c20_often": ("255, 256, 1024 or 65536 assignments (or up to 300 opposite computations) between two computations, arbitrary pore volume", None),
 "c20_symbolic": ("input, compute, any part of the input replaced, compute; fluxes, rates, pore volumes arbitrary", None),
 "c21_sizes": ("1..3 cells, 1..2 connections, sequences of 2 assignments of size 0..4 with a computation after each", "sequences of 3"),
 "c21_start": ("one start set with any of 3 identifiers and any cells, arbitrary inflows of any sign, both directions", None), "c21_starts": ("two start sets", None), "c21_none": ("no inflow given", None), "c21_many": ("1 or 7 start sets with 7, 38 or 298 cells together, at most one of them (8 positions, 3 orders) without inflow, one pore volume arbitrary", None),
 "c21_flow": ("81 flow fields with loops, wells of both signs", None),
 # C22-C27
 "c22_volumes": ("1..4 cells, travel times from {1,2.5,16} in any order, arbitrary volumes", "1..5 cells"), "c22_times": ("3 cells, arbitrary travel times, concrete volumes", None), "c22_two": ("2 cells, travel times and volumes arbitrary", None),
 "c22_filter": ("1..3 cells, arbitrary volumes, 7 cut-off fractions, three scales of volumes (1e-14, 1, 1e12) and travel times", None), "c22_fraction": ("4 cells, arbitrary cut-off fraction", None), "c22_many": ("17 and 40 cells in 3 orders, one travel time arbitrary", None), "c22_sizes": ("lengths 0..3 each", None), "c22_solutions": ("through the toolbox, arbitrary flux and volume, 4 fractions", None),
 "c23_any": ("curves of 1..4 points, arbitrary coordinates", None), "c23_range": ("2..3 cells, 3 travel times, arbitrary volumes", None), "c23_rangetimes": ("2 cells, arbitrary travel times", None), "c23_sizes": ("1..5 by 1..5 coordinates", None), "c23_long": ("10 and 33 points, one arbitrary", None),
 "c24_any": ("curves of 1..4 points, arbitrary coordinates, flow increments zero or at least 1/128", None), "c24_curve": ("2..3 cells, 3 travel times, arbitrary volumes", None), "c24_filtered": ("3 cells, one possibly filtered, arbitrary volumes", None), "c24_sizes": ("1..5 by 1..5 coordinates", None), "c24_long": ("curves of 12 and 40 points with flat pieces, one point arbitrary", None),
 "c25_same": ("a well paired with itself, 3 cells, everything arbitrary", None), "c26_same": ("a well paired with itself, 2 arbitrary rates, arbitrary concentrations", None),
 "c25_any": ("3 cells, any pair of fields, arbitrary concentrations and volumes", None), "c25_total": ("3-cell flow, up to 2x2 wells, arbitrary fluxes and volumes", None), "c25_partial": ("4 cells, arbitrary fluxes, unswept and undrained parts", None), "c25_long": ("fields over 30, 300 and 70000 cells in up to 25 interleavings, two concentrations (from 1e-15) and a volume arbitrary", None),
 "c26_any": ("2 cells, any fields, arbitrary concentrations and rates of any sign, either well missing", None), "c26_sparse": ("3 cells, rates and concentrations on different cells", None), "c26_balance": ("balanced 3-cell flow, arbitrary fluxes, up to 3 wells", None),
 "c27_index": ("14 maxima up to INT_MAX, one index, arbitrary generator words", "three arbitrary generator words"), "c27_index2": ("5 maxima, 0..3 indices, arbitrary generator words", None), "c27_max": ("any maximum up to 4095, generator's own bits", "any maximum up to 65535, up to two indices"),
 "c27_attain": ("maxima 0..6: every value occurs", None), "c27_normal": ("0..5 samples after 0..2 others, arbitrary mean and deviation", None), "c27_repeat": ("two generators, every history of 3 requests, together or one after the other", None),
}

T = ["-DDEEP=1"]
def g(harness, entries, **kw):
    d = {"harness": harness, "entries": entries.split(), "thorough_defs": T}
    d.update(kw)
    return d

CHECKS = {
 "C01": [g("tarjan.cpp", "c01_bits c01_self c01_rows c01_chain c01_hub c01_clique c01_wide", thorough_defs=T + ["-DNB=5", "-DDR=3"])],
 "C02": [g("tarjan.cpp", "c02_bits c02_prior c02_rows c02_starts c02_seq c02_chain c02_four c02_wide c02_lots")],
 "C03": [g("tarjan.cpp", "c03_small c03_large c03_many c03_wide", thorough_defs=T + ["-DNR=4"])],
 "C04": [g("tarjan.cpp", "c04_tarjan c04_reachable c04_reverse"), g("history.cpp", "c04_toolbox")],
 "C05": [g("containers.cpp", "c05_graph c05_repeat c05_mixed c05_large c05_wide c05_long c05_tiny", extra_ir=["stl_inst.cpp"], thorough_defs=T + ["-DAK=4", "-DAN=4"])],
 "C06": [g("containers.cpp", "c06_two c06_three c06_shrink", extra_ir=["stl_inst.cpp"])],
 "C07": [g("containers.cpp", "c07_print c07_flags c07_many c07_wide"), g("printing.cpp", "c07_state", extra_ir=["ostream_rec.cpp"], thorough_defs=T + ["-DPK=3"])],
 "C08": [g("containers.cpp", "c08_table c08_bigcount c08_one c08_wide", extra_ir=["stl_inst.cpp"], thorough_defs=T + ["-DC08M=8"])],
 "C09": [g("containers.cpp", "c09_values c09_shapes c09_wide", extra_ir=["stl_inst.cpp"], thorough_defs=T + ["-DC09W=3"])],
 "C10": [g("containers.cpp", "c10_set c10_wide c10_lots c10_many c10_id c10_longid", extra_ir=["stl_inst.cpp"], thorough_defs=T + ["-DC10K=4", "-DC10V=31"])],
 "C11": [g("containers.cpp", "c11_history c11_copy c11_query c11_many", thorough_defs=T + ["-DC11K=4"])],
 "C12": [g("toolbox.cpp", "c12_dag c12_fan c12_diamond c12_wells c12_limit c12_scale c12_chain c12_many c12_wide")],
 "C13": [g("toolbox.cpp", "c13_dag c13_fan c13_wells c13_diamond c13_scale c13_chain c13_many c13_crowd c13_wide c13_sign")],
 "C14": [g("toolbox.cpp", "c14_dag c14_fan c14_wells c14_limit c14_scale c14_chain c14_many c14_crowd c14_wide")],
 "C15": [g("toolbox.cpp", "c15_dag c15_limit c15_fill c15_scale c15_big c15_wide"), g("loops.cpp", "c15_loop")],
 "C16": [g("loops.cpp", "c16_three c16_shapes c16_volumes c16_slow c16_long c16_weak c16_big c16_ring")],
 "C17": [g("toolbox.cpp", "c17_mirror c17_accept c17_limits c17_scale c17_big"), g("loops.cpp", "c17_loop")],
 "C18": [g("toolbox.cpp", "c18_flip c18_permute c18_phases c18_parallel c18_zero c18_cancel c18_all c18_scale c18_big"), g("loops.cpp", "c18_loop")],
 "C19": [g("toolbox.cpp", "c19_dag c19_fan c19_three c19_scale c19_crowd c19_big"), g("loops.cpp", "c19_loop")],
 "C20": [g("history.cpp", "c20_history c20_empty c20_long c20_often c20_symbolic", thorough_defs=T + ["-DHL=5"])],
 "C21": [g("history.cpp", "c21_sizes c21_start c21_starts c21_none c21_flow c21_many")],
 "C22": [g("derived.cpp", "c22_volumes c22_times c22_two c22_filter c22_fraction c22_many c22_sizes c22_solutions c22_scales c22_wide", thorough_defs=T + ["-DDN=4"])],
 "C23": [g("derived.cpp", "c23_any c23_range c23_rangetimes c23_sizes c23_long c23_wide")],
 "C24": [g("derived.cpp", "c24_any c24_curve c24_filtered c24_sizes c24_long c24_wide c24_tiny")],
 "C25": [g("derived.cpp", "c25_any c25_same c25_total c25_partial c25_long")],
 "C26": [g("derived.cpp", "c26_any c26_same c26_sparse c26_balance c26_long")],
 "C27": [g("random.cpp", "c27_index c27_index2 c27_max c27_attain c27_normal c27_repeat c27_long", thorough_defs=T + ["-DRW=3"])],
}

ASSUME = {
 "C12": ["no connection joins a cell to itself; each start-set identifier is given once; recirculating flows belong to C16"],
 "C13": ["no connection joins a cell to itself; the start set of a well is the set of its inflow cells of the required sign"],
 "C16": ["fluxes are concrete (tables of loop shapes) except in c16_weak; pore volumes are arbitrary"],
 "C21": ["at least one connection; inflow data refer to existing cells"],
 "C22": ["at least one cell is not filtered out; total travel times are positive"],
 "C04": ["failures of malloc/calloc/realloc made by the C routines; C++ operator new does not fail"],
 "C07": ["c07_state replaces the library's formatted insertion of int/double/char by a recorder; byte-exact output is checked by the other entries"],
 "C27": ["arbitrary generator words are planted in the std::mt19937 state behind the object's pointer; if the object is laid out differently the generator's own bits are used"],
}
