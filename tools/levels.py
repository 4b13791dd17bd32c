PROVER = "contract-based deductive verification: contracts on the real functions, obligations generated from /repo's source on every run and discharged by z3, cvc5 and a canonical normal form (vc/)"
PARTIAL_TECH = "contract-based deductive verification (vc/, z3 + cvc5) of the functions named in level_note; bounded evaluation of the same contract for the rest"
BOUNDED_TECH = "bounded contract checking: the contract of the real functions evaluated on generated inputs (stand-in; not a proof)"
TRUST = " Trusted: the specifications of numpy/scipy/shapely operations in vc/shims, the symbolic executor vc/, z3 and cvc5; floats are treated as real numbers. A failing proof is backed by a search for a failing input on the running code (oracle/), which is bounded and never counted as proved."
# every obligation of the statement is discharged for all inputs
PROOF = {
    "C02": "Proved for every number of observations, replications, rejections and realizations: where every number drawn comes from, for every generator and the quadrat statistic, given a seed or a generator (the quadrat statistic also a bit generator or a legacy random state); loops by invariants, generators called by others by contract. That equal draws give equal results is the determinism of the interpreted code, which has no other source of numbers.",
    "C03": "Proved for every number of observations, replications and radius, by loop invariants (partial correctness), for two and three groups as representative counts (replications with the default radius: two); the seeds and the followers by the contracts of the generators that make them.",
    "C04": "Proved for every window, number, number of samples and outcome of the draws, by loop invariants (partial correctness); the constructors by the contract of draw.",
    "C01": "Proved for every number of observations, replications and rejections, by loop invariants (partial correctness: a call that returns), over the five kinds of hull (Strauss: box and polygon, gamma > 0), for every form of size and intensity; two (and in one case three) clusters as representative counts.",
    "C06": "Proved for every number of events, reference points and support values: F and G of given distances, of coordinates, of full and of event-to-reference matrices, of simulated reference points, for every form of support (stop, start and stop, with number, count, default, explicit).",
    "C10": "Proved for every number of points and every k: the neighbour query itself over scipy and sklearn trees, PointPattern.knn (also after other queries), and the nearest-neighbour summaries.",
    "C07": "Proved for every number of events: K(d) for coordinates, lists, GeoSeries, full and condensed matrices; L and linearized L; every form of support (the number of default support points: two representative counts).",
    "C18": "Proved for every number of points, for arrays, lists and GeoSeries.",
    "C24": "Proved for every number of vertices and points.",
    "C08": "Proved for every number of support values, for every form of support and truncation; F and G by their contract (verified in C06).",
    "C23": "Proved for every number of points, containers, marks and column names: every property, in every history (an arbitrary set of kept values, any current window), and after replacing the window.",
    "C09": "Proved for every number of events, simulations and support values, for the five tests with every form of support, hull, metric and given distances: which pattern, support, distances and options every statistic is computed with, and the p-values, lengths and truncation of the result. The statistics themselves, the simulation and the nearest distances enter by their contracts (C01, C06, C07, C08, C10).",
    "C14": "Proved for every number of events and permutations, with and without kept statistics: both tables, the number of pairs, the p-value and the kept statistics as functions of the random orders drawn, which are arbitrary. The construction from a data frame is covered by the bounded search.",
    "C16": "Proved for every number of events and permutations: the statistic of every test from its definition, and its p-value as a function of the random orders drawn, which are arbitrary (default and one other transformation for Mantel). Reading the events from a file is covered by the bounded search.",
    "C11": "Proved for every number of points and every grid size, given as counts or as cell width and height, and for arrays, lists, GeoSeries, GeoDataFrames and point patterns (default grid).",
    "C13": "Proved for every number of points and every realisation (the points of the realisations are arbitrary): the chi-square statistic, its degrees of freedom and p-value from the counts, and the pseudo p-value from the realisations' statistics; counts by their contract (C11).",
    "C19": "Proved for every number of points above two and all non-negative weights with a positive sum: both methods with every flag, for arrays, lists and GeoSeries (the polygon as the unit circle stretched and turned).",
    "C21": "Proved for every number of points and every container, over the contracts of Qhull (hull) and GEOS (hull, envelope, rotated rectangle).",
    "C25": "Proved for arrays, lists of pairs, GeoSeries and GeoDataFrames of every size (patterns too for the quadrats), relative to the array; GEOS, Qhull, KD trees, minimize and Skyum's search as functions of the coordinates they are given, shown to be the same; hull, envelope and rectangle polygons of geometry containers by C21.",
    "C26": "Proved for every number of points, every data set, weights and bandwidth, for two representative resolutions, with and without filling, both estimators: data and options of the estimator, the grid, its orientation and the drawing, over the contracts of the density estimators.",
    "C27": "Proved for every number of events, for numeric and date columns, with and without inferred time stamps, over the contracts of libpysal's readers.",
    "C22": "Proved for every number of rows and marks and for default, given and reordered column names: explode, unique, superimpose and membership.",
}
# part of the statement is discharged for all inputs; the rest is bounded
PARTIAL = {
}
BOUNDED_NOTE = "Bounded: the contract is evaluated on the running code for generated inputs; nothing is proved."
BOUNDED = {}
NOT_APPLICABLE = []
