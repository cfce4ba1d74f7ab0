"""What each check builds and explores. The scenarios themselves are at the end of each harness."""

import os

COMMON_ASSUMPTIONS = [
    "gcc, its sanitizers and the C library are right; the reference models in /verif/harness are right (they were tested by planting bugs)",
    "the library is deterministic apart from what the harness controls (inputs, allocator, distance functions, thread switches); C21 checks this",
    "nothing is said about spaces, options or histories beyond the bounds given, except for the large data sets listed, of which only those are explored",
]

# How the spaces are described below: 'levels' are all metrics on n labelled points with distances from a
# set of that many values (for four levels the first is zero); 'weak orders' are all metrics on n labelled
# points up to the order of their distances; 'grid' are all n-tuples of points on a line (or plane) grid.
LARGE = " Large data sets (seven families, up to 1010 points; sizes up to the number of points and up to 300 types on those of 30-101) are explored for the same options, but only those."

LARGE_PLAIN = " Large data sets (seven families, up to 1010 points) are explored for the same options, but only those."


def one(src, defs=(), **kw):
    r = {"src": list(src), "defs": list(defs)}
    r.update(kw)
    return r


def mc(bounds, *runs, **kw):
    return dict({"level": "model_checking", "bounds": bounds, "runs": list(runs)}, **kw)


INT_CL = ["--with-clabel=int", "--with-clabel-na=-1"]
U64_CL = ["--with-clabel=uint64_t"]
WIDE = U64_CL + ["--with-pointindex=uint64_t", "--with-arcindex=uint64_t"]
SIGNED = INT_CL + ["--with-pointindex=int", "--with-typelabel=int"]
LIMIT_EDIT = {"src/scclust_types.h": [(r"^.*\bSCC_CLABEL_MAX = .*;", "extern scc_Clabel vf_clabel_max;\n#define SCC_CLABEL_MAX vf_clabel_max"),
                                      (r"^.*\bISCC_ARCINDEX_MAX = .*;", "extern uintmax_t vf_arc_max;\n#define ISCC_ARCINDEX_MAX vf_arc_max")]}
STABLE = ["-DSCC_STABLE_NNG", "-DSCC_STABLE_FINDSEED"]
SC_SRC = ["backend.c", "oracle.c", "p_sc.c"]


def sc(n):
    return one(SC_SRC, ["-DPROP=%d" % n])


PROPS = {}
SPACES = "every space of the scenarios in harness/p_sc.c: all weak orders of distances on 3-4 points, all metrics with 2-4 distances (zero included) on 3-6 points, all placements of 5-8 points on a line of 3-4 positions and of 4-5 points on a 3x3 or 4x4 grid, with up to three ways for the searches to break ties; smaller ones with everything multiplied by 2^200 and 2^-200; in C06 and C07 also 4-6 points on a line in every order with similar gaps; in C03, C04 and C06 all placements of 5 points with all labelings with two types; "
PROPS["C01"] = mc(SPACES + "times sizes 2-6, all six seed methods, batch sizes 0-3, all radii at, between and below the distances, all primary sets, all labelings with two types and constraints 0-2, assignment methods as listed there." + LARGE, sc(1))
PROPS["C02"] = mc(SPACES + "times all labelings with two or three types, all constraints 0-2 per type with sum at most the size, sizes 2-6, the five graph methods, radii, primary sets; each cluster before assignment is also compared with the neighborhoods its seed may have." + LARGE, sc(2))
PROPS["C03"] = mc(SPACES + "times sizes 2-4, all seed methods, all 12 pairs of assignment methods, seed radii, all primary sets, two types." + LARGE, sc(3))
PROPS["C04"] = mc(SPACES + "times sizes 2-4, all seed methods, all pairs of assignment methods, all combinations of none, supplied (every value at and below the distances), seed and estimated radius for seeds, primary and secondary assignment, primary sets, two types." + LARGE, sc(4))
PROPS["C05"] = mc("every digraph without loops with 4 vertices; every such digraph with 5 and 6 vertices (7 with out-degree 1) whose out-degrees are those of a nearest neighbor graph (0 and k, or mixed) as listed in harness/p_seeds.c, heads in ascending and descending order, all five methods, initial capacity one (growing) and full; thorough: all digraphs with 5 vertices, out-degree one with 8. Four families of graphs with 90-600 vertices of many degrees, and sparse graphs with 2300 and 6000 vertices for the growth of the seed array; again with the stable sorting of candidates (SCC_STABLE_FINDSEED) and assertions.",
                  one(["backend.c", "p_seeds.c"], name="default"), one(["backend.c", "p_seeds.c"], name="stable", configure=["--enable-assert"], libdefs=STABLE, weight=1, **{"assert": True}))
PROPS["C06"] = mc(SPACES + "times sizes 2-4, all seed methods, all pairs of assignment methods, all radii for seeds and assignment, primary sets, two types; the set of all results the documentation allows (for every way to break ties and every candidate seed) is enumerated and the result must be in it." + LARGE, sc(6))
PROPS["C07"] = mc(SPACES + "times sizes 2-4 (6 for the large ones), all seed methods, all assignment methods without radii; the optimum is computed by enumerating all partitions for up to 6 points." + LARGE, sc(7))
PROPS["C08"] = mc("all metrics with 2-4 distances on 2-6 points, all weak orders on 4 points, all placements of 6-12 points on a line and 6-7 on a grid, sizes 2-6, both assignment modes, all existing clusterings with up to 3 clusters and unassigned points on up to 7 points (copied and shared labels), with more clusters than points, outcomes of size constrained clustering on 5-9 points; seven families of data sets with up to 1010 points, with and without existing clusters, and with sizes up to the number of points.",
                  one(["backend.c", "p_hier.c"], ["-DPROP=8"]))
PROPS["C09"] = mc(SPACES + "times sizes from 2 to one more than there are points, two and three types with constraints 0-2, all seed radii, all primary sets, all seed methods, estimated radii." + LARGE, sc(9))
FAULT_BOUNDS = "all metrics with two or three distances on 3-5 points and placements of 4-6 points on a line; all operations of the API; seed methods, assignment methods, types, primary points, radii as listed in harness/p_fault.c; existing clusterings with one to three clusters; three families of data sets of 30-330 points; "
PROPS["C10"] = {"level": "fault_enumeration", "bounds": FAULT_BOUNDS + "each single allocation, each point from which all fail, and (in the scenarios so marked) each pair.",
    "rule": "a case is an operation on a space with options together with the numbers of the allocations that fail; it is non-trivial if at least one allocation did fail, and distinct by space, options and fault.",
    "runs": [one(["backend.c", "p_fault.c"], ["-DPROP=10"])]}
PROPS["C11"] = {"level": "fault_enumeration", "bounds": FAULT_BOUNDS + "each call of a distance function, each closing call, each check of the data set, each pair of a call and a closing call, and each pair of a call and an allocation.",
    "rule": "a case is an operation on a space with options together with the numbers of the calls that fail; it is non-trivial if at least one call did fail, and distinct by space, options and fault.",
    "runs": [one(["backend.c", "p_fault.c"], ["-DPROP=11"])]}
PROPS["C12"] = mc("(a) every subset of the ten functions in one call (thorough: in two), every history of three (four) calls over 17 subsets from two sets of functions and reset; (b) all placements of 3-6 (7) points on a line and 3-4 (5) on a grid, all operations and a selection of options, with replacements that answer what the built-in functions answer." + LARGE_PLAIN, one(["backend.c", "p_spi.c"]))
for n, b in ((13, "all labelings (including three kinds of numbers out of range) of 1-7 points with up to three clusters, sizes, two and three types with all type labelings and constraints, all primary sets"),
             (14, "all labelings of 2-7 points with up to four clusters (also empty ones and numbers out of range) on all metrics with 2-4 distances and placements on a line and grid, with built-in and supplied distances")):
    PROPS["C%02d" % n] = mc(b + "; data sets of 40-1010 points with one deviation at every position or a few layouts; with unsigned and with signed label types.",
        one(["backend.c", "p_label.c"], ["-DPROP=%d" % n], name="default"),
        one(["backend.c", "p_label.c"], ["-DPROP=%d" % n], name="int-labels", configure=INT_CL + ["--with-pointindex=int", "--with-typelabel=int"]))
PROPS["C15"] = mc("every history of 4 (thorough 5) operations out of all kinds, of 6 (7) out of two selections of seven kinds, and of 5 out of one with clusterings of a single cluster, on two clustering objects and two arrays of the caller with guards.", one(["backend.c", "p_life.c"]))
PROPS["C16"] = mc("all placements of 1-5 points on a line of 2-4 positions and 1-4 on a 3x3 grid, all lists of up to three query points (repeated ones included, or all points), all lists of up to five search points, all k, all radii at, between and beyond the distances; with unsigned and signed point types; up to 9 (thorough 19) dimensions; eleven families of large data sets (up to 1010 points) and one of 70000 points.",
    one(["backend.c", "p_dist.c"], name="default"), one(["backend.c", "p_dist.c"], name="int-points", configure=["--with-pointindex=int"]))
PROPS["C17"] = mc("all digraphs with up to three vertices (four for one operand), as sets and as ordered lists where order may matter, pairs and triples of them, all subsets of tails kept, fresh memory of six kinds; all malformed graphs with up to three vertices and three arcs; graphs of 70000 vertices and of vertices with up to 300 heads; again with an arc counter that ends at five.",
    one(["backend.c", "p_digraph.c"], name="default"),
    one(["backend.c", "p_digraph.c"], ["-DARC_LIMIT=5"], name="arc-limit", optional=True, edit={"src/scclust_types.h": [(r"ISCC_ARCINDEX_MAX *=.*", "ISCC_ARCINDEX_MAX = 5;")]}))
PROPS["C18"] = mc("every combination of up to three deviations (four for short lists) from valid calls of every function, the alphabet of deviations in harness/p_invalid.c; three configurations of the integer types.",
    one(["backend.c", "oracle.c", "p_invalid.c"], ["-DPROP=18"], name="default"),
    one(["backend.c", "oracle.c", "p_invalid.c"], ["-DPROP=18"], name="wide", configure=WIDE),
    one(["backend.c", "oracle.c", "p_invalid.c"], ["-DPROP=18"], name="signed", configure=SIGNED))
PROPS["C19"] = mc("every history of 4 (thorough 5) out of 20 kinds of calls (failing in every way and succeeding) with every length of the buffer after it, and every failed allocation or search of every seed method after each of them.", one(["backend.c", "oracle.c", "p_invalid.c"], ["-DPROP=19"]))
PROPS["C20"] = mc("all weak orders on 2-4 points, metrics with 2-4 distances on 3-6 points, placements of 5-8 points on a line and 5 on a grid, sizes 2-6, all radii, all primary sets, every batch size from 1 to two more than there are points and the largest number." + LARGE_PLAIN, one(["backend.c", "p_batch.c"]))
PROPS["C21"] = mc(SPACES.replace("5-8", "4-5") + "times a selection of sizes, seed methods, assignment methods, radii, primary sets and types; each call again with fresh memory of zeros, of ones, of the small numbers one and two, after eleven other calls with other contents, and into the caller's array; inputs in read-only pages." + LARGE, one(SC_SRC, ["-DPROP=21"]))
CONFS = [("default", []), ("wide", WIDE), ("signed", SIGNED), ("signed-na-min", ["--with-clabel=int", "--with-clabel-na=min"]),
         ("mixed", ["--with-clabel=int", "--with-clabel-na=max", "--with-pointindex=uint64_t", "--with-typelabel=int"]),
         ("mixed-too", U64_CL + ["--with-pointindex=int", "--with-arcindex=uint64_t"])]
PROPS["C22"] = mc("the same enumeration (metrics with 2-4 distances on 3-5 points, placements of 5-6 points on a line and 4 on a grid, seed methods, sizes, radii, types, primary sets, large data sets) in six configurations of the types, with assertions, and with the smallest counters for markers, compared by digests of all results; and with every limit on the number of clusters up to one more than needed and every limit on arcs up to what is needed.",
    *([one(SC_SRC, ["-DPROP=22"], name=n, configure=c) for n, c in CONFS] + [
        one(SC_SRC, ["-DPROP=22"], name="asserts", configure=["--enable-assert"], **{"assert": True}),
        one(SC_SRC, ["-DPROP=22"], name="small-markers", libdefs=["-DVF_SMALL_FAST16"], optional=True),
        one(SC_SRC, ["-DPROP=22", "-DLIMITS"], name="limits", edit=LIMIT_EDIT, optional=True)]),
    compare_digests=[[n for n, _ in CONFS] + ["asserts", "small-markers"]])
PROPS["C23"] = mc("all pairs of 15 operations (on separate and on shared data sets, with built-in and supplied distances) with up to two or three preemptions at every access to memory that is not the thread's own; with up to four preemptions (and triples of operations with up to three) at accesses to memory that some operation writes; a nested operation at every distance call of every operation. Threads run sequentially consistent.",
    one(["backend.c", "p_conc.c"], name="threads", san=[], libdefs=["-fsanitize=thread", "-DVF_MEMHOOKS"]))
PROPS["C24"] = mc("all metrics with 2-5 distances on 4-6 points, all weak orders on 4 points, all placements of 6-10 points on a line of 3-4 positions and 5-7 on a grid, sizes 2-5, both assignment modes, all existing clusterings with up to two clusters; chains of ever farther points; nine families of large data sets (up to 1010 points, sizes up to the number of points, ties there are left open); the result must be one the nondeterministic model can produce.", one(["backend.c", "p_hier.c"], ["-DPROP=24"]))

def ann(src, defs, **kw):
    return one(src + ["ann_new.cpp"], ["-DANN"] + defs, cxx_sources=["examples/ann/ann_wrapper.cpp"],
               cxxflags=["-I/usr"] + kw.pop("xdefs", []), link=["-lANN" if not os.path.exists("/usr/lib/x86_64-linux-gnu/libann.a") else "/usr/lib/x86_64-linux-gnu/libann.a"], **kw)


PROPS["C25"] = mc("all placements of 1-5 points on a line of 2-4 positions and 1-3 on a 3x3 grid (also scaled by 2^200 and 2^-200), lists of queries and searched points, all k, radii at, between and beyond the distances, up to 7 dimensions (thorough 9), eleven families of large data sets and one of 70000 points, with unsigned and signed point types; each of the first two allocations of opening and searching failing; clusterings of all placements of 4-6 points on a line with all seed and assignment methods and radii, and of large data sets. Exact searches with kd-trees only (SCC_ANN_EPS 0); the ANN library itself is trusted.",
    ann(["backend.c", "p_dist.c"], [], name="searches"),
    ann(["backend.c", "p_dist.c"], [], name="int-points", configure=["--with-pointindex=int"]),
    ann(SC_SRC, ["-DPROP=6"], name="clusterings"))

# Very large data sets made of many small groups far from each other, each judged by itself
HUGE = " Data sets of 1100-66000 groups of 2-7 points (more than 1000 seeds, more than 65536 clusters; thorough: other mixes of groups at that size) for the options in harness/p_huge.c, each group judged by itself."
for n in (1, 2, 3, 4, 6, 8, 9, 13, 14, 20, 21):
    p = PROPS["C%02d" % n]
    for i, r in enumerate(p["runs"]):
        r.setdefault("name", "default")
        r["weight"] = 4.0
    p["runs"].append(one(["backend.c", "oracle.c", "p_huge.c"], ["-DPROP=%d" % n], name="huge"))
    p["bounds"] += HUGE
p = PROPS["C22"]
p["runs"] += [one(["backend.c", "oracle.c", "p_huge.c"], ["-DPROP=22"], name="huge-" + k, configure=c, weight=0.3) for k, c in (("default", []), ("wide", WIDE), ("signed", SIGNED))]
p["compare_digests"].append(["huge-default", "huge-wide", "huge-signed"])
p["bounds"] += HUGE
