"""What each property's check runs. R(harness, variant, ...) entries are executed in order; see DESIGN.md."""
import time
from check import *

def R(harness, variant, libs=("girgs", "hypergirgs"), optional=False, extra=(), thorough_only=False, pin=True):
    return dict(harness=harness, variant=variant, libs=tuple(libs), optional=optional, extra=tuple(extra), thorough_only=thorough_only, pin=pin)

PYTHON_HARNESS = {}
SPECS = {}
NOT_APPLICABLE = {}

def spec(prop, runs, bounds, technique, note="", level="model_checking", assumptions=(), **kw):
    SPECS[prop] = dict(runs=runs, bounds=bounds, level=level, technique=technique, note=note or bounds, assumptions=list(assumptions), **kw)

spec("C10", [R("c10", v, ("hypergirgs",), optional=True, extra=("-DPART=1",)) for v in ("rel", "dbg")] + [R("c10", v, ("girgs",), optional=True, extra=("-DPART=2",)) for v in ("rel", "dbg")]
     + [R("c10", v, extra=("-DPART=3",)) for v in ("rel", "dbg")],
     "RadiusLayer (R 1..10) and WeightLayer (d=1..5, up to 3 layers, up to 5000, thorough 40000 cells) directly, and the same point sets through threshold edges: all subsets of occupied cells of indexes with up to 12 (thorough 16) cells, single cells, pairs, triples, all runs of occupied and of empty cells (ends at the chunk borders of all teams), full, 3e5 points; teams of 1..16; all layers x levels x cells looked up by count, iteration and k-th point",
     technique="exhaustive enumeration of index contents on the real code; every lookup compared with the definition")

spec("C11", [R("c11", "rel", ("girgs",)), R("c11", "bmi2", ("girgs",)), R("c11", "dbg", ("girgs",))],
     "every 32-bit cell number decoded and every vector of coordinates of floor(32/d) bits encoded, d=1..5, BitManipulation<d> as the library selects it without and (where the CPU has it) with USE_BMI2; assertion build: all slices in the thorough tier, first/middle/last 2^26 in the quick tier",
     technique="exhaustive enumeration of the whole input space of the real code against a bit-loop reference")

ENUM = "exhaustive enumeration of a bounded input lattice on the real code, every case compared with an independent reference"
SCHED = "stateless exploration of the real code under a controlled OpenMP/pthread runtime: every schedule within the bound is executed"
CONC = ("20 scenarios (hyperbolic generator with/without task phase, T=0 and T>0; GIRG generator d=1,2,3,5; public generators; all samplers; weight scaling; index construction inside each). "
        "Scheduling points: all OpenMP, mutex, condition-variable and atomic operations%s. ")
CONCB = ("2 threads: per parallel region up to 3 preemptions (thorough: all interleavings, cap 3e6 schedules), whole run up to 2 (4); 3 threads: 2 (3) per region, 1 (2) whole run; "
         "4, 5, 8, 16 threads: 1-2 (3) deviations from the default order")
spec("C01", [R("c01", "rel", ("girgs",)), R("c01", "dbg", ("girgs",), extra=("-DSUB=1",)), R("c01", "gomp", ("girgs",), extra=("-DSUB=2",))],
     "all pairs and triples of nodes over lattices of positions (seam, cell borders of several levels and their floating-point neighbours), weights and total-weight scalings; complete configurations of up to 450 (thorough 1000) nodes holding every letter, d=1..5 x 7 weight sets x log2(W/w0^2) from -2 to 16 (20) in steps of 0.5 (0.25) x threads 1..16 x 3 orders x 3 default schedules; W/w0^2 exactly at and next to powers of two; every pair of nodes compared with the inequality in long double, pairs equal up to rounding accept both; the gomp run repeats a part with the real OpenMP runtime",
     technique=ENUM)
LAW = "decision-tree enumeration of all random draws of the real code (stateless exploration under a controlled random engine): every draw is split into its behavioural classes by bisection"
spec("C02", [R("c02", "rel", ("girgs",)), R("c02", "dbg", ("girgs",), extra=("-DSUB=1",))],
     "two nodes: lattices of positions x weights x up to 7 level structures x alpha in {0,0.5,1,1.3,2,3.5,8,25,200} x d=1..5; three and four nodes: complete decision trees (joint distribution of all edges) x threads 1,2,3,8; complete configurations of 6-14 (thorough up to 40) nodes x threads 1,2,4,5,16: probability of every pair as the product of the thresholds of its draws, monotonicity of every draw over a grid; probabilities compared with long double to 1e-9",
     technique=LAW)
spec("C03", [R("c03", "rel", ("hypergirgs",)), R("c03", "dbg", ("hypergirgs",), extra=("-DSUB=1",)), R("c03", "gomp", ("hypergirgs",), extra=("-DSUB=2",))],
     "R in {1..24}: all pairs (and triples) of points over lattices of radii (borders of the radial layers and their floating-point neighbours, tiny radii, R/2, just below R) and angles (cell borders, seam); for every pair of radii the angles next to the threshold at relative distance 1e-11..1e-2; complete configurations of up to 1300 points x threads {1,2,3,4,5,7,8,12,16} x 3 orders x 3 default schedules; partial configurations (pruned layers, all points in one place); every pair compared with the distance in long double, pairs equal up to rounding accept both",
     technique=ENUM)
spec("C04", [R("c04", "rel", ("hypergirgs",)), R("c04", "dbg", ("hypergirgs",), extra=("-DSUB=1",))],
     "R in {1..12} x T in {0.01..0.999}: two points over lattices of radii (layer borders, origin) and angles (cell borders, seam); corners of distant cells on levels 2..6; three and four points: complete decision trees (joint distribution of all edges) x threads 1,2,3,4,8; complete configurations of 6-17 (thorough up to 34) points x threads 1,2,3,4,8,16: probability of every pair as the product of the thresholds of its draws, monotonicity of every draw over a grid that holds all borders of the distance filters; probabilities compared with long double",
     technique=LAW)
spec("C05", [R("conc", "race", extra=("-DPROP=5",)), R("conc", "racedbg", extra=("-DPROP=5",))],
     CONC % ", and in further runs every random draw" + CONCB, technique=SCHED + " and must give the result of the reference schedule")
spec("C06", [R("conc", "race", extra=("-DPROP=6",)), R("conc", "racedbg", extra=("-DPROP=6",))],
     CONC % "" + "requested threads 2,3,4,5,8,16 x every delivered team size (8, 16: some): up to 2 (4) deviations for teams up to 3, 1 (2) above; deadlock = no runnable thread, livelock = 3e6 points; completeness with an engine that accepts every candidate pair. " + CONCB,
     technique=SCHED + "; must end, with every work item done exactly once")
spec("C07", [R("conc", "race", extra=("-DPROP=7",)), R("conc", "racedbg", extra=("-DPROP=7",))],
     CONC % "" + CONCB + "; on every schedule all memory accesses of library code are checked with vector clocks whose order comes from the program's own synchronisation",
     technique=SCHED + " with happens-before race detection on all instrumented accesses")
spec("C08", [R("c08", "rel", extra=("-DPART=0",)), R("c08", "rel", extra=("-DPART=1",)), R("c08", "race", extra=("-DPART=2",))],
     "5 models x exact edge counts 2^20*k-2..+2, k=1..3 (thorough 6, further offsets), as large and small cliques, threads 1,2,5 (1..16); every count 1..120 (600) x threads 1..16; hand-overs by several threads during the parallel phase: 2-4 cliques of more than one or two buffers in different cells, 2 threads: up to 3 (5) departures from the default order, 3-4 threads: 2 (3); vector-clock race detection over all accesses of runs with concurrent hand-overs",
     technique=SCHED + "; edge lists compared edge by edge with the graph")
spec("C09", [R("c09", "rel", ("girgs",)), R("c09", "dbg", ("girgs",)), R("c09", "rel", ("hypergirgs",), extra=("-DCOPY_HYPER",)), R("c09", "dbg", ("hypergirgs",), extra=("-DCOPY_HYPER",))],
     "both copies; key types uint8..uint64 x radix widths 1..16 x max_key at all 2^b-2..2^b+2, 0..40, type maximum and default: all sequences of up to 3 of 10 / 5 of 4 (thorough 4/6) boundary keys through 4 container interfaces; all keys present for max_key up to 600 (thorough 4200); lengths 2^17*k-1,+0,+1 (k=1,2,3,4,8) x 1..16 threads x 6 patterns (quick: a subset); all interleavings of 2 threads, preemption-bounded ones of 3",
     technique="exhaustive enumeration of short inputs and of the thread schedules of the real code under a controlled OpenMP runtime; result compared with the definition of a stable sort")
spec("C12", [R("c12", "rel", ("girgs",)), R("c12", "bmi2", ("girgs",), optional=True)],
     "d=1..5, all cells of all levels of up to 2^21 cells (thorough 2^24): location of corner/inner/last-representable points, bounds, parent/children; all cell pairs of levels with up to 2^12 cells (thorough 2^15): touching and distance against interval arithmetic on the torus",
     technique=ENUM)
spec("C13", [R("c13", "rel", ("hypergirgs",)), R("c13", "dbg", ("hypergirgs",))],
     "all angular cells and all cell pairs of the levels given in the harness, arc borders and their floating-point neighbours as angles; touching, cells between, distance against integer arithmetic on the circle",
     technique=ENUM)
spec("C14", [R("c14", "rel", ("girgs",)), R("c14", "dbg", ("girgs",))],
     "all weight multisets of size 2..4 (thorough 5) over {1,1.5,2,3.999,16,1000} in two orders, equal/hub/power-law vectors of 5..200 nodes and heavy tails of 1000 (thorough 10000) nodes x d=1..5 x 18 alphas x up to 14 target degrees up to n-1.1, teams of 1..16; expected degree of the scaled weights computed pair by pair in closed form",
     technique=ENUM)
VARIATES = "enumeration of the values of the random draws of the real code under a controlled engine; every output is traced back to its variate"
for _p, _l, _w in (("C15", "girgs", "n 2..165000 (thorough 160001), exponents 2.0001..10"), ("C16", "girgs", "n 0..165000, d=1..5"), ("C17", "hypergirgs", "n 0..165000, R 0.1..100, alpha 0.5001..1.5, all three samplers")):
    spec(_p, [R("c15", "rel", (_l,), extra=("-DPROP=" + _p[1:],)), R("c15", "dbg", (_l,), extra=("-DPROP=" + _p[1:], "-DSUB=1"))],
         _w + ": all draws at each of 1000 (thorough 8900) grid values (both ends, powers of two, their neighbours): image against the distribution function in long double, range, monotonicity; every draw with a value of its own: each output recovered from a different variate, for threads 1..16 (32), smaller delivered teams, 3 thread orders, seeds 0..INT_MAX and negative, parallel on/off, n around every multiple of the chunk size",
         technique=VARIATES)
spec("C18", [R("c18", "rel", ("hypergirgs",)), R("c18", "dbg", ("hypergirgs",))],
     "dense lattice over n (2..2^31-1), alpha (0.5,1], T [0,1), degree for both radius functions; degree equation evaluated in long double",
     technique=ENUM)
for _p, _l in (("C19", "girgs"), ("C20", "hypergirgs")):
    spec(_p, [R("c19", "gompdbg", (_l,), extra=("-DTOOL=" + _p[1:],), pin=False)],
         "12 options: every value of a list of inside, boundary and outside values; all pairs of options and values (thorough: full lists, all triples); subsets of the options with the others left to their defaults (thorough: all 4095); rotations, reversals, swaps and all orders of five options; malformed numbers; help and version; up to 100001 nodes, 1..4 threads; edge list, dot and coordinate files parsed and compared with the library called in another process",
         technique="exhaustive enumeration of option lattices on the real executables")
spec("C21", [R("c21", "gompdbg", ("girgs",), pin=False)],
     "gengirg, genhrg (each subset of their files) and saveDot, graphs of 0..2500 (thorough 9000) nodes: every system call that opens, writes or closes an output file x (5 errors once or from then on, interruption, 3 lengths of partial transfer once or from then on, partial then full, partial then interrupted; 6 errors of open; 3 errors of close); pairs of faults for small files (thorough: all); disk full at every byte of small files and around all stream buffers of large ones; names that cannot be opened, /dev/full, existing files. Success must mean that all files equal those of the fault-free run",
     technique="exhaustive enumeration of faults at every file system call of the real executables, injected by tracing the child process", level="fault_enumeration")
spec("C22", [R("c22", "relstd"), R("c22", "gompdbg", pin=False)],
     "29 representative calls (all public functions of both libraries, failing calls, generator objects kept between calls, random seeds) x thread counts 1,2,3,8: all sequences of 2 with all thread counts, all of 3 with one change of the thread count (thorough: all thread counts), repetitions of length 12, all cyclic orders of all calls; each result compared with the one of the first call of a fresh process; inputs compared before and after; controlled runtime and the real OpenMP runtime (with its thread pool)",
     technique="exhaustive enumeration of call sequences on the real code")
G, H = ("girgs",), ("hypergirgs",)
spec("C23", [R("c23", "sandbg"), R("c01", "san", G, extra=("-DSUB=2",)), R("c03", "sandbg", H, extra=("-DSUB=2",)), R("c10", "sandbg", H, optional=True, extra=("-DPART=1",)), R("c14", "sandbg", G), R("c18", "sandbg", H), R("c24", "sandbg", H), R("c13", "sandbg", H),
             R("c15", "sandbg", G, extra=("-DPROP=15", "-DSUB=1")), R("c15", "sandbg", G, extra=("-DPROP=16", "-DSUB=1")), R("c15", "sandbg", H, extra=("-DPROP=17", "-DSUB=1")), R("c08", "sandbg", extra=("-DPART=0",), thorough_only=True), R("c09", "sandbg", G, thorough_only=True), R("c25", "sandbg", G),
             R("c02", "sandbg", G, extra=("-DSUB=1",), thorough_only=True), R("c04", "sandbg", H, extra=("-DSUB=1",), thorough_only=True), R("c12", "sandbg", G, thorough_only=True),
             R("c09", "sandbg", H, extra=("-DCOPY_HYPER",), thorough_only=True), R("c10", "sandbg", G, optional=True, extra=("-DPART=2",), thorough_only=True), R("c10", "sandbg", extra=("-DPART=3",), thorough_only=True), R("c22", "sandbg", thorough_only=True)],
     "all public functions over degenerate and extreme inputs (1e5 calls; thorough more): n 1..150 (500), 8 weight patterns x 6 position patterns x d=1..5, 8 radius x 6 angle patterns x R 1..26, temperatures, threads 1..16, extreme seeds, chains of calls, trees used twice; address and undefined-behaviour sanitizer, assertions and checked containers on, every result compared with that of the release build in a process whose fresh memory holds another pattern; a slice under valgrind memcheck; in addition the enumerations of C01, C03, C10, C13-C18, C24, C25 (thorough: also C02, C04, C08, C09, C12, C22) with sanitizers",
     technique="exhaustive enumeration of bounded input lattices on sanitizer-instrumented real code, differential against the release build")
spec("C24", [R("c24", "rel", ("hypergirgs",)), R("c24", "dbg", ("hypergirgs",)), R("c24", "rel", ("hypergirgs",), optional=True, extra=("-DFILTER",)), R("c24", "dbg", ("hypergirgs",), optional=True, extra=("-DFILTER",))],
     "all pairs of points over a lattice of radii and angle differences down to one ulp, disk radii 1..24, distance and below-R test against long double; filter bounds for all stages x temperatures x R over distances around every stage border",
     technique=ENUM)

spec("C25", [R("c25", "relstd", ("girgs",)), R("c25", "dbgstd", ("girgs",), thorough_only=True)],
     "21 weights x 17 coordinates (rounding ties, magnitudes 5e-324..1.8e308) x every coordinate of d=1..5, all edge lists of up to 3 (thorough 4) of the 16 ordered pairs of 4 nodes, every node count up to 700 (3000) with 0, n/2, 3n edges, 2^17 nodes, existing and new file, a global locale with decimal comma and digit groups; the file is parsed with an own dot grammar and compared with the graph",
     technique=ENUM)

def run(prop, tier, t0):
    s = SPECS[prop]
    results, skipped, broken = [], [], None
    for r in s["runs"]:
        if r.get("thorough_only") and tier != "thorough":
            continue
        try:
            if r["harness"] in PYTHON_HARNESS:
                results.append(PYTHON_HARNESS[r["harness"]](prop, tier, r))
            else:
                results.append(run_harness(r["harness"], r["variant"], tier, pin=r["pin"], libs=r["libs"], extra=r["extra"]))
        except BuildError as e:
            if r["optional"]:
                skipped.append("%s[%s]: %s" % (r["harness"], r["variant"], str(e)[:300])); continue
            broken = broken or e
    if broken and not any(f["confirmed"] for r in results for f in r["failures"]):
        raise broken
    if not results:
        raise BuildError("nothing could be run: " + "; ".join(skipped))
    return finish(prop, tier, t0, results, s, skipped)

def replay_python(j):
    print("re-run the check; the case is:", j["case_text"]); return 0

def build_all():
    t = time.time(); bad = 0
    for p, s in SPECS.items():
        for r in s["runs"]:
            if r["harness"] in PYTHON_HARNESS:
                continue
            try:
                build(r["harness"], r["variant"], r["libs"], r["extra"])
            except BuildError as e:
                print(p, e)
                bad += not r["optional"]
    for c in ("gengirg", "genhrg"):
        build_cli(c)
    print("built in %.1fs" % (time.time() - t))
    return 1 if bad else 0
