#!/usr/bin/env python3
"""Source of properties.jsonl (kept as Python so the long texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = list(observe)
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

G="source/girgs/"; H="source/hypergirgs/"
ST=G+"include/girgs/SpatialTree.inl"; HT=H+"include/hypergirgs/HyperbolicTree.inl"

prop("C01","Threshold GIRG sampling returns exactly the edges the model defines",
 "For positive weights with W/w_min^2 below 2^30 (W = sum of weights) and positions on the d-dimensional unit torus (1<=d<=5), edge sampling with alpha = infinity returns every unordered pair {u,v} with dist(u,v)^d < w_u*w_v/W (max-norm torus distance) exactly once, in one orientation, and no other pair and no loop; pairs for which both sides are equal up to floating-point rounding may go either way. This holds for every sampling seed and every number of threads.",
 ["inputs","configurations"],
 "All weight vectors (any layer structure, uniform to extremely skewed, any global scale), all positions including cell boundaries and coincident points, d=1..5, every seed, every thread count.",
 "The tests compare a handful of random instances of one size per dimension with the brute-force graph; which cells, layers and levels touch is a discrete structure whose corner combinations (wrap-around, deep levels, many layers, more threads than cells) random positions practically never hit.",
 [ST,G+"source/Generator.cpp",G+"include/girgs/SpatialTree.h"],
 [("cell-pair recursion and type I enumeration","SpatialTree::visitCellPair / sampleTypeI"),("parallel cut of the recursion","SpatialTree::visitCellPair_sequentialStart, generateEdges"),("layer pair to level map","SpatialTree::partitioningBaseLevel, constructor")],
 [("m_layer_pairs","which weight-layer pairs are compared on which level",G+"include/girgs/SpatialTree.h")],
 ["girgs::generateEdges result","edge callback of girgs::makeSpatialTree"])

prop("C02","Non-threshold GIRG sampling follows the product edge distribution",
 "With finite alpha >= 0 (and W/w_min^2 below 2^30), edge sampling makes each unordered pair {u,v} an edge independently of all other pairs with probability min(1,(w_u*w_v/W / dist(u,v)^d)^alpha), at most once and never as a loop. Probabilities are exact up to floating-point rounding, except that the pairs between one distant pair of cells and layers may be dropped together when they would contribute less than 1e-6 expected edges. This holds for every thread count.",
 ["inputs","histories","configurations"],
 "All weights, positions, alpha and d=1..5, over all sequences of values the random engines can return, every thread count.",
 "Tests check one averaged degree on random graphs with tolerances of several percent; they say nothing on the probability of an individual pair, on independence between pairs, or about rejection steps that only trigger for rare random draws.",
 [ST],
 [("type I coin per pair","SpatialTree::sampleTypeI"),("geometric skipping with rejection","SpatialTree::sampleTypeII"),("one engine per thread","SpatialTree::generateEdges m_gens")],
 [("m_gens","random engine per thread",ST)],
 ["girgs::generateEdges result under a controlled random engine"])

prop("C03","Threshold hyperbolic sampling returns exactly the edges the model defines",
 "For radii in [0,R) with 1<=R<=24 and angles in [0,2*pi), hyperbolic edge sampling with temperature 0 returns every unordered pair of points at hyperbolic distance below R exactly once, in one orientation, and no other pair and no loop (pairs whose distance equals R up to floating-point rounding may go either way). This holds for every seed and every number of threads.",
 ["inputs","configurations"],
 "All radii and angles including layer and cell boundaries, coincident angles and wrap-around at 2*pi, all R>=1, every seed, every thread count.",
 "Tests compare a few random instances with brute force on the machine's thread count; random points never sit on layer/cell boundaries and the small/large R or sparse-layer structures and other thread counts are not sampled.",
 [HT,H+"source/RadiusLayer.cpp",H+"source/Generator.cpp",H+"include/hypergirgs/Point.h"],
 [("cell-pair recursion","HyperbolicTree::visitCellPair / visitCellPairSample / visitCellPairCreateTasks"),("layer pair to level map","HyperbolicTree constructor, RadiusLayer::partitioningBaseLevel"),("distance test","Point::isDistanceBelowR")],
 [("m_layer_pairs","which layer pairs are compared on which level",HT)],
 ["hypergirgs::generateEdges result","edge callback of hypergirgs::makeHyperbolicTree"])

prop("C04","Hyperbolic sampling at positive temperature follows the product distribution",
 "With temperature 0<T<1 (and radii in [0,R), 1<=R<=24), hyperbolic edge sampling makes each unordered pair at distance x an edge independently of all other pairs with probability 1/(1+exp((x-R)/(2T))), at most once and never as a loop. Probabilities are exact up to floating-point rounding, except that the pairs between one distant pair of cells and layers may be dropped together when they would contribute less than 1e-6 expected edges. This holds for every thread count.",
 ["inputs","histories","configurations"],
 "All radii, angles, R>=1 and T, over all sequences of values the random engines can return, every thread count.",
 "Tests look at averaged counts for a few random configurations; a wrong probability for particular radii/temperatures, a biased shortcut decision or correlated streams between tasks stays far below their tolerance.",
 [HT,H+"include/hypergirgs/DistanceFilter.h",H+"include/hypergirgs/Point.h"],
 [("type I coin with distance filter","HyperbolicTree::sampleTypeI"),("geometric skipping with rejection","HyperbolicTree::sampleTypeII"),("engine per task","HyperbolicTree::initialize_prngs")],
 [("m_typeI_filter/m_typeII_filter","precomputed bounds deciding most coin flips",H+"include/hypergirgs/HyperbolicTree.h")],
 ["hypergirgs::generateEdges result under a controlled random engine"])

prop("C05","Same seed and thread count give the same graph on every schedule",
 "For fixed inputs, a non-negative seed and a fixed number of threads, weight, position, radius and angle sampling return the same values and edge sampling (GIRG and hyperbolic, threshold or not) returns the same set of undirected edges in every run, however the threads are interleaved.",
 ["schedules","inputs","configurations"],
 "All interleavings of the worker threads, all thread counts, both libraries, all models.",
 "Tests run once per input under whatever schedule the OS picks, mostly compare a run with itself for one thread, and cannot force rare task-to-thread assignments.",
 [ST,HT,G+"source/Generator.cpp",H+"source/Generator.cpp",H+"source/RadiusLayer.cpp"],
 [("static schedule, engine seeded by seed+thread","SpatialTree::generateEdges"),("engine per task, seeded from a seed sequence","HyperbolicTree::generate / initialize_prngs"),("static chunks, seed+thread","generateWeights, generatePositions, sampleRadiiAndAnglesHelper")],
 [("tasks, next_task_to_process","work queue of the hyperbolic generator",HT)],
 ["returned edge list as a multiset of undirected edges; returned vectors"])

prop("C06","Parallel sampling always terminates and processes all work",
 "Every call of the samplers and edge generators returns for every thread count, for every team size the OpenMP runtime may deliver (down to one thread) and under every interleaving: no thread waits forever, no work item is skipped and none is processed twice.",
 ["schedules","configurations"],
 "All interleavings of up to 8 threads, all delivered team sizes, all relations between the number of threads and the depth of the spatial subdivision.",
 "A missed wake-up, a never-signalled condition or a task list consumed before it is published needs a specific interleaving or a specific ratio of threads to tree depth; the tests run large random graphs with the default thread count only.",
 [HT,ST,H+"source/RadiusLayer.cpp",G+"include/girgs/IntSort.h"],
 [("condition variable hand-over of the task list","HyperbolicTree::generate"),("atomic task counter","HyperbolicTree::generate"),("barriers between counting and scattering","IntSortImpl::sort")],
 [("tasks_generated","whether the task list is published",HT)],
 ["return of girgs::generateEdges / hypergirgs::generateEdges, multiset of reported pairs"])

prop("C07","The parallel phases are free of data races",
 "In every execution of the samplers, the spatial-index construction, the integer sort, the weight-scaling estimation and the edge generators, two threads never access the same memory location concurrently with at least one write unless both accesses are atomic or ordered by synchronisation.",
 ["schedules","configurations"],
 "All interleavings and thread counts, all inputs (in particular ones whose empty cells straddle the chunk borders of threads).",
 "Races are invisible in results on x86 most of the time and depend on the schedule; no test runs under a race detector and the tests' inputs give no control over which thread touches which index cell.",
 [ST,HT,H+"source/RadiusLayer.cpp",G+"include/girgs/IntSort.h",G+"source/WeightScaling.cpp",H+"source/Generator.cpp"],
 [("per-thread chunks with a pre-repaired border element","buildPartition gap repair in SpatialTree.inl and RadiusLayer.cpp"),("mutex/condition variable","HyperbolicTree::generate"),("mutex around the shared result","generateEdges flush")],
 [("m_first_in_cell","prefix sums written by all threads",ST)],
 ["memory accesses of the instrumented implementation"])

prop("C08","No edge is lost or duplicated while collecting results, at any size",
 "The edge list returned by edge generation contains each sampled edge exactly once, for any number of edges, including counts below, at and above the internal buffering limits and several buffers per thread, for any number of threads and any interleaving of buffer hand-overs.",
 ["schedules","inputs","configurations"],
 "All edge counts around multiples of the buffer capacity, all distributions of edges over threads, all orders of concurrent hand-overs.",
 "Test graphs stay well below one million edges, so a hand-over of a full buffer, let alone two concurrent ones, is never executed by any test.",
 [G+"source/Generator.cpp",H+"source/Generator.cpp"],
 [("per-thread buffer, flush at capacity under a mutex, final flush","generateEdges addEdge/flush lambdas")],
 [("local_edges","edges of one thread not yet handed over",G+"source/Generator.cpp")],
 ["girgs::generateEdges / hypergirgs::generateEdges result"])

prop("C09","Integer sort yields a stable sorted permutation",
 "For any sequence and any declared maximum key not smaller than a key present, the integer sort leaves a permutation of the input ordered by key in which elements of equal key keep their order. This holds for both copies of the sort, for all its container interfaces, key types and radix widths, every length (including 0, 1 and lengths that engage several threads) and every thread count.",
 ["inputs","configurations","schedules"],
 "All key multisets and orders, all maximum keys (below, at and above powers of two and of the radix), all lengths, all thread counts.",
 "There is no dedicated test of the sort; it is only exercised through random graphs whose maximum key and size never sit on a radix or chunk boundary.",
 [G+"include/girgs/IntSort.h",H+"include/hypergirgs/IntSort.h"],
 [("MSB pass with per-thread counters, then independent LSB passes","IntSortImpl::sort, move_to_queues"),("buffer parity","intsort overloads")],
 [("queue_pointer/counters","where the next element of a bucket goes",G+"include/girgs/IntSort.h")],
 ["intsort::intsort on vectors, iterators, shared and unique arrays"])

prop("C10","Spatial index lookups return exactly the points of a cell",
 "After building the spatial index, a lookup for a layer and a cell on any level down to the layer's own level returns exactly the input points that belong to that layer (by weight, or by radius) and lie in that cell, each once; point count, k-th point access and iteration agree. This holds for every input and every number of threads used to build it.",
 ["inputs","configurations"],
 "All point sets (clustered, all in the last cell, empty first cells, single points, long runs of empty cells), all layer/level/cell combinations, every thread count.",
 "One test checks a single random instance per structure; runs of empty cells crossing thread chunk borders and degenerate layer structures do not occur there.",
 [ST,G+"include/girgs/WeightLayer.h",H+"source/RadiusLayer.cpp",H+"include/hypergirgs/RadiusLayer.h"],
 [("sort by cell, mark first point, repair gaps in parallel","buildPartition (both libraries)"),("descendant range on the target level","WeightLayer::levelledCell, RadiusLayer::levelledCell")],
 [("first-in-cell prefix sums","start of each cell in the sorted point array",ST)],
 ["RadiusLayer::buildPartition + cellIterators/pointsInCell/kthPoint; WeightLayer lookups; threshold edges of girgs::generateEdges"])

prop("C11","Cell numbering interleaves coordinates bijectively, on every code path",
 "For d=1..5, encoding a vector of d coordinates places bit k of coordinate i at position k*d+i of the cell number for every vector of coordinates of floor(32/d) bits; decoding collects those bits from every 32-bit cell number, so it inverts encoding. The generic and the hardware-accelerated implementation agree on all these inputs.",
 ["inputs","configurations"],
 "All 2^32 cell numbers and all fitting coordinate vectors for each dimension 1..5, each available implementation.",
 "Tests compare implementations on random samples, and only those compiled in on the machine at hand.",
 [G+"include/girgs/BitManipulationGeneric.inl",G+"include/girgs/BitManipulationBMI2.inl",G+"include/girgs/BitManipulation.h"],
 [("bit spreading / gathering","BitManipulationDetails deposit/extract")],
 (),["BitManipulation<D>::deposit/extract"])

prop("C12","Torus cell geometry: nesting, location, adjacency and distance agree",
 "For d=1..5 and every level, the cells of a level tile the unit torus; every cell is the disjoint union of its children, each child names it as parent, and a point is assigned to the one cell whose half-open bounds contain it. Two cells of a level touch exactly when their closures meet on the torus, and their reported distance equals the smallest max-norm torus distance between points of the two cells (zero when touching).",
 ["inputs"],
 "All cells and pairs of cells of every level that fits, d=1..5, points on and next to all cell boundaries.",
 "Tests sample random cell pairs on few levels; wrap-around cells, the smallest levels (1, 2, 3 cells apart across the seam) and boundary points in high dimension are special cases random choice rarely reaches.",
 [G+"include/girgs/SpatialTreeCoordinateHelper.h",G+"include/girgs/SpatialTreeCoordinateHelper.inl"],
 [("closed-form cell arithmetic","SpatialTreeCoordinateHelper")],
 (),["SpatialTreeCoordinateHelper<D> static functions"])

prop("C13","Angular cell geometry: nesting, location, adjacency and distance agree",
 "On every level the angular cells split the circle into equal half-open arcs; every cell is the disjoint union of its two children, each child names it as parent, and an angle is assigned to the one cell whose arc contains it. Two cells touch exactly when their arcs meet on the circle, the number of cells strictly between two cells is the smaller of both directions, and their distance equals the smallest angle between points of the two arcs.",
 ["inputs"],
 "All cells and cell pairs of every level that fits, angles on and next to all cell boundaries and at 0 and 2*pi.",
 "Tests check a few levels and random pairs; boundary angles and seam-crossing pairs on deep levels are not enumerated.",
 [H+"include/hypergirgs/AngleHelper.h",H+"source/AngleHelper.cpp"],
 [("closed-form cell arithmetic","AngleHelper")],
 (),["AngleHelper static functions"])

prop("C14","Weight scaling reaches the requested expected average degree",
 "Scaling terminates, multiplies every weight by one common positive factor and returns that factor. With the scaled weights and uniformly random positions, the exact expected average degree under the model equals the requested value up to 0.03, for every desired degree from 1 to just below n-1, every dimension 1..5 and every alpha above 1, including infinity (for alpha above 8 the threshold model is used as the estimate).",
 ["inputs","configurations"],
 "All weight vectors (equal, skewed, one hub dominating), all degrees up to nearly complete graphs, d=1..5, alpha finite and infinite.",
 "Tests average degrees of sampled graphs for a few large power-law weight vectors with loose tolerance; small n, ties, dominating hubs and dense targets, where the correction terms matter, are not covered.",
 [G+"source/WeightScaling.cpp",G+"source/Generator.cpp"],
 [("interval search on an estimator with rich-club correction","estimateWeightScaling, estimateWeightScalingThreshold, exponentialSearch")],
 [("LazySorter","sorted prefix of the weights shared by estimator evaluations",G+"source/WeightScaling.cpp")],
 ["girgs::scaleWeights return value and modified weights"])

prop("C15","Sampled weights follow the truncated power law, one variate per node",
 "For n>=2 and exponent above 2, weight sampling returns n weights, each between 1 and n/2, each the image of its own random variate under the inverse distribution function of the power law truncated at n/2. Sequentially and in parallel every node receives its own variate: no variate is reused for two nodes and streams of different threads are seeded differently.",
 ["inputs","histories","configurations"],
 "All n, exponents, seeds and thread counts, all values the random engine can return.",
 "Tests estimate the exponent of one large sample; a shared or repeated stream between threads, a wrong truncation or an end-point overflow do not move that estimate noticeably.",
 [G+"source/Generator.cpp"],
 [("inverse transform sampling, static chunks, engine per thread","generateWeights")],
 (),["girgs::generateWeights result under a controlled random engine"])

prop("C16","Sampled positions are uniform in the half-open unit cube",
 "Position sampling returns n points of the requested dimension whose every coordinate lies in [0,1) and is a uniform image of its own random variate. Sequentially and in parallel no variate is reused for two coordinates and streams of different threads are seeded differently.",
 ["inputs","histories","configurations"],
 "All n, dimensions, seeds and thread counts, all values the random engine can return.",
 "Tests only check ranges on a few samples; a coordinate of exactly 1.0, repeated variates across threads or a wrong share of nodes per thread show up only for particular n, thread counts or draws.",
 [G+"source/Generator.cpp"],
 [("static chunks, engine per thread","generatePositions")],
 (),["girgs::generatePositions result under a controlled random engine"])

prop("C17","Sampled radii and angles follow the hyperbolic disk distribution",
 "Radius sampling returns n values in (0,R) (strictly below R) distributed with cumulative distribution (cosh(alpha*r)-1)/(cosh(alpha*R)-1), angle sampling n values uniform in [0,2*pi), each the monotone image of its own random variate; the joint sampler does both. Sequentially and in parallel no variate is reused and streams of different threads are seeded differently.",
 ["inputs","histories","configurations"],
 "All n, alpha, R, seeds and thread counts, all values the random engine can return.",
 "Tests do not check the distribution of single values nor the parallel paths' use of random streams; end-point values come up with probability 2^-53.",
 [H+"source/Generator.cpp"],
 [("inverse transform sampling, warm-up, static chunks, engine per thread","sampleRadiiAndAnglesHelper")],
 (),["hypergirgs::sampleRadii/sampleAngles/sampleRadiiAndAngles under a controlled random engine"])

prop("C18","Computed disk radius solves the expected-degree equation",
 "For n>=2, alpha in (0.5,1], T in [0,1) and a desired average degree, the computed disk radius R is finite and satisfies the model's asymptotic degree equation deg = n*2*alpha^2*c(T)*exp(-R/2)/(alpha-1/2)^2 with c(0)=1/pi and c(T)=T/sin(pi*T). The NetworKit-compatible variant always ends; for T=0 it returns (for alpha >= 0.501) the radius at which NetworKit's expected-degree formula equals the desired degree within 0.01 or, if no radius reaches that degree, reports so by an exception, and for T>0 it returns NetworKit's closed form; both variants decrease in the degree and grow with n.",
 ["inputs"],
 "All n, alpha, T and degrees in the documented ranges.",
 "No test evaluates the radius against an independent formula; tests only compare average degrees of a few sampled graphs loosely.",
 [H+"source/Generator.cpp"],
 [("closed form","calculateRadius"),("interval search","searchTargetRadiusForColdGraphs")],
 (),["hypergirgs::calculateRadius / calculateRadiusLikeNetworKit"])

prop("C19","GIRG command line tool validates its input and reports the sampled graph",
 "The GIRG command line tool rejects every out-of-range parameter with an error naming it, a non-zero exit code and no output file. On valid parameters it exits with 0 and the edge list file starts with the node and edge count followed by exactly the edges the library produces for the same parameters and seeds, the dot file describes the same graph, and only requested files are written; omitted options take the documented defaults and option order does not matter.",
 ["inputs","configurations"],
 "All combinations of options (present, absent, in any order) with boundary, inside and outside values.",
 "No test executes the command line tools at all.",
 ["source/cli/gengirg/main.cpp",G+"source/Generator.cpp"],
 [("option parsing, range checks, writers","main, parseArgs, rangeCheck")],
 (),["exit code, stdout/stderr and files of gengirg"])

prop("C20","Hyperbolic command line tool validates its input and reports the sampled graph",
 "The hyperbolic command line tool rejects every out-of-range parameter with an error naming it, a non-zero exit code and no output file. On valid parameters it exits with 0 and the edge list file starts with the node and edge count followed by exactly the edges the library produces for the same parameters and seeds, the coordinate file lists radius and angle of every node in order with full double precision, and only requested files are written; omitted options take the documented defaults and option order does not matter.",
 ["inputs","configurations"],
 "All combinations of options (present, absent, in any order) with boundary, inside and outside values.",
 "No test executes the command line tools at all.",
 ["source/cli/genhrg/main.cpp",H+"source/Generator.cpp"],
 [("option parsing, range checks, writers","main, parseArgs, rangeCheck")],
 (),["exit code, stdout/stderr and files of genhrg"])

prop("C21","A successful run means complete output files, despite write faults",
 "If a file requested from a command line tool or from the dot export cannot be opened or any part of it cannot be written, the failure is reported (non-zero exit of the tool, exception from the export); success is reported only when every requested file is complete on disk. A write that transfers only part of the data or is interrupted does not corrupt or truncate a file.",
 ["fault_sequences","configurations"],
 "A failure (no space, I/O error, short write, interruption) at every single write, open or close of every output file.",
 "No test injects I/O faults or runs the tools.",
 ["source/cli/gengirg/main.cpp","source/cli/genhrg/main.cpp",G+"source/Generator.cpp"],
 [("stream state checks","main of both tools, saveDot")],
 (),["exit code, exceptions and file contents under injected write faults"])

prop("C22","Calls do not influence each other; inputs stay untouched",
 "The result of every library call depends only on its arguments and the configured thread count: any sequence of earlier calls (other sizes, dimensions, models, thread counts, a reused generator object) leaves the result of a later call with a non-negative seed unchanged (weight scaling: up to floating-point rounding). Edge generation leaves the caller's weights, positions, radii and angles unmodified.",
 ["histories","configurations"],
 "All sequences of library calls up to a bounded length over a set of representative calls, including repeated use of one generator object and changes of the thread count in between.",
 "Tests call each function on fresh objects in one order and never compare a result after different histories.",
 [ST,HT,G+"source/Generator.cpp",H+"source/Generator.cpp"],
 [("all sampling state is local or re-initialised per call","generateEdges, generate")],
 [("m_gens","engines kept in the generator object across calls",G+"include/girgs/SpatialTree.h")],
 ["results of public functions after call sequences"])

prop("C23","No undefined behaviour; checked and unchecked builds agree",
 "On every valid input no library call reads or writes outside its objects, uses uninitialised or freed memory, overflows a signed integer or performs another undefined operation, and no internal assertion fails. Builds with and without assertions return the same results.",
 ["inputs","configurations"],
 "All valid inputs: smallest sizes (one node, one layer, one cell), extreme weight ratios, densest and sparsest graphs, all dimensions and thread counts.",
 "Tests run without sanitizers on mid-sized random inputs; the smallest and most degenerate structures are absent.",
 [ST,HT,H+"source/RadiusLayer.cpp",G+"include/girgs/IntSort.h",G+"source/WeightScaling.cpp"],
 [("index arithmetic of cells, layers, prefix sums","whole library")],
 (),["sanitizer-instrumented executions"])

prop("C24","Fast hyperbolic distance tests agree with the distance definition",
 "For any two points with positive radii the precomputed-coordinate distance equals the hyperbolic distance acosh(cosh r1 cosh r2 - sinh r1 sinh r2 cos(phi1-phi2)) up to rounding, is symmetric, and the fast below-R test agrees with it except within rounding of R. For every probability p (up to the largest connection probability), temperature and R the precomputed filter bounds are conservative: a pair farther than the upper bound has connection probability at most p and a pair closer than the lower bound has probability at least p.",
 ["inputs"],
 "All radii, angles, R, T and probabilities, including dense graphs where even coincident points connect with probability below one.",
 "Tests compare distances on random points and never query the filter on hot, dense parameters.",
 [H+"include/hypergirgs/Point.h",H+"include/hypergirgs/DistanceFilter.h"],
 [("precomputed trigonometric terms","Point"),("monotone stage table","DistanceFilter")],
 (),["Point::hyperbolicDistance/isDistanceBelowR, DistanceFilter bounds"])

prop("C25","Dot export describes exactly the given graph",
 "The dot export writes one node statement per node, in order, labelled with its weight to two decimals and positioned at its coordinates to six decimals, then one undirected edge statement per given edge in the given order, in syntactically valid dot whatever the process-wide locale; an existing file is replaced entirely.",
 ["inputs"],
 "All graphs (no edges, one node, all dimensions), weights and positions of any magnitude, any edge list.",
 "No test reads an exported file back.",
 [G+"source/Generator.cpp"],
 [("stream writer","saveDot")],
 (),["file written by girgs::saveDot"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        assert p["statement"].count(". ") <= 2, (p["id"], p["statement"].count(". "))
        f.write(json.dumps(p) + "\n")
print(len(P))
