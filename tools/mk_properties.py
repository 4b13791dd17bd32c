"""Writes properties.jsonl (the single place where the property texts are edited)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or []
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

R="pointpats/random.py"; G="pointpats/geometry.py"; D="pointpats/distance_statistics.py"; C="pointpats/centrography.py"
Q="pointpats/quadrat_statistics.py"; S="pointpats/spacetime.py"; PP="pointpats/pointpattern.py"; PR="pointpats/process.py"; W="pointpats/window.py"; K="pointpats/kde.py"; U="pointpats/util.py"

prop("C01","Simulated patterns lie in the hull and have the requested size",
 "Every point returned by the random pattern generators (Poisson/CSR, normal, Poisson cluster, normal cluster, Strauss) lies inside the hull it was given, whatever kind of hull that is (bounding box, point array, convex hull, polygon). The returned array holds exactly the requested number of observations and replications, or int(area of the hull x intensity) observations when an intensity is given and 100 when neither is. It is shaped (observations, 2) for one replication and (replications, observations, 2) for several.",
 ["inputs","schedules"],"every hull, size or intensity, parameter setting and every outcome of the random draws (normal return)",
 "The tests draw a handful of patterns with fixed seeds on two hulls; rejection loops, the intensity arithmetic and the shape of 1-point or 1-replication results must hold for every hull, size and every sequence of draws.",
 [R,G],[("rejection loop accepts a draw only if it is contained","random.poisson / random.normal / random._uniform_circle"),("size and intensity are normalised in one place","random.parse_size_and_intensity"),("containment per hull kind","geometry.contains")],
 observe=["random.poisson","random.normal","random.cluster_poisson","random.cluster_normal","random.strauss"])

prop("C02","Seeded simulation is reproducible and never touches global random state",
 "A random pattern generator, or a quadrat statistic with simulated realizations, that is given an explicit seed or generator takes every random number from it alone, so equal seeds and arguments give equal results. The global NumPy random state is neither read nor changed by it.",
 ["inputs","histories"],"all arguments, all seeds and generator states, all prior states of the global generator",
 "Tests compare one seeded run with itself; that no draw ever comes from another source must hold for all branches, replications and histories of the global state.",
 [R,Q],[("one generator is created from rng and passed to every draw","random.*"),("sub-seeds are drawn from the caller's generator","random.cluster_poisson / random.cluster_normal"),("rng coercion","quadrat_statistics._coerce_rng")])

prop("C03","Cluster patterns are contiguous near-equal groups led by their seed",
 "Every replication from the Poisson and normal cluster generators is the concatenation of as many groups as there are seeds, with sizes that differ by at most one and larger groups first, and every group begins with its seed. In a Poisson cluster pattern all points of a group lie within the group's radius of its seed: the radius given for that group or for all, or half the smallest distance between the seeds of that same replication.",
 ["inputs","schedules"],"all hulls, numbers of observations >= numbers of seeds >= 2, radii, replications and draws",
 "Tests check shapes and coarse containment; group sizes, seed positions and radius must hold for every split, every replication and every draw.",
 [R],[("array_split of the replication into groups","random.cluster_poisson / cluster_normal"),("rejection in the circle","random._uniform_circle"),("radius derived per replication","random.cluster_poisson")])

prop("C04","Point process objects realize the promised number of points in their window",
 "A point process object holds exactly the requested number of realizations, keyed 0..samples-1, each with exactly as many points as its parameter (n, or the number drawn for it when conditioning is on) and every point inside the window. Uniform draws in a circle return the requested number of points, all within the radius of the centre.",
 ["inputs","schedules"],"all windows, n, numbers of samples, both conditioning settings, all outcomes of the draws (normal return)",
 "Tests look at a few seeded samples; the filter-and-refill loop must keep its promise for every window and sequence of draws.",
 [PR,W],[("draw until enough contained points, then cut","process.PointProcess.draw"),("window filter","window.Window.filter_contained"),("parameters per sample","process.*.setup"),("rejection in the circle","process.runif_in_circle")])

prop("C05","Statistics never modify the data they are given",
 "Computing a statistic, test, centre, hull, neighbour table, quadrat count, density or simulation leaves the caller's arrays, lists and frames (coordinates, times, weights, supports, distances, bounding boxes, name lists) exactly as they were.",
 ["inputs","histories"],"all public statistic, test and simulation functions and constructors, all inputs",
 "Existing tests seldom look at their inputs after the call, and an in-place shuffle or normalisation only shows when a caller reuses its data.",
 [C,D,Q,S,PP,R,G],[("work on copies or views that are never written","throughout"),("shuffles act on copies","spacetime.knox / spacetime._shuffle_matrix"),("column names are copied","pointpattern.PointPattern.__init__")])

prop("C06","F and G are the cumulative distributions of their distances",
 "At each support value after the first, G is the share of the events' nearest-neighbour distances covered by the support that fall in the support's intervals up to that value, and F is the same for the distances from reference points to their nearest event; both start at 0. The nearest-neighbour distance never pairs an event with itself, also with coincident events or a full distance matrix, and a support given as a count, (stop,), (start, stop) or (start, stop, count) is the evenly spaced grid it describes.",
 ["inputs"],"all point patterns, supports, metrics and precomputed distance vectors or matrices covering at least one distance",
 "There is no test of these functions at all; the definition must hold for every pattern, support form and distance form.",
 [D,G],[("histogram + cumsum","distance_statistics.f / g"),("self-neighbour removal","geometry.k_neighbors"),("support normalisation","distance_statistics._prepare")])

prop("C07","K counts exactly the pairs closer than d; L is its root transform",
 "K(d) equals twice the number of unordered pairs of distinct events closer than d, divided by n and by the intensity n / (area of the bounding box), for every d in the support, whether the distances are computed or given as a full or condensed matrix. L(d) equals sqrt(K(d)/pi), minus d when linearized.",
 ["inputs"],"all patterns with a bounding box of positive area, all supports, metrics and distance forms",
 "No test evaluates K or L; the count, the normalisation and the distance forms must agree for every pattern.",
 [D,G],[("strict comparison of pair distances with the support","distance_statistics.k"),("triangle extraction","distance_statistics.k"),("area of bounding box","geometry.area")])

prop("C08","J is the ratio of the complements of G and F, cut where undefined",
 "J(d) equals (1-G(d)) / (1-F(d)) at every support value, aligned with the support; where both are 1 it is not a number. With truncation the returned support and values are the prefix before the first undefined or infinite value, otherwise the full series is returned.",
 ["inputs"],"all patterns, supports and distances, truncate on and off",
 "No test evaluates J; alignment and truncation depend on where F reaches one.",
 [D],[("hazard ratio","distance_statistics.j"),("prefix cut","distance_statistics._truncate")])

prop("C09","Ripley tests report valid pseudo p-values aligned with their support",
 "Each test evaluates its own statistic (F, G, J, K, L) on the observed pattern and on every simulated pattern, simulated in the given hull with as many points as observed, at the same support values. The pseudo p-value at each value is (1 + the smaller of the numbers of simulations at or above and below the observed value) / (simulations + 1), so it lies in (0, 1]; support, statistic, p-value and kept simulations always have matching lengths.",
 ["inputs","schedules"],"all patterns, supports, hulls, numbers of simulations, numbers of jobs and simulated outcomes (statistics defined)",
 "No test exercises these functions; p-values must be valid for every outcome of the simulations and alignment must survive truncation.",
 [D],[("Monte Carlo loop","distance_statistics._ripley_test / _run_one_ripley_simulation"),("fold to the smaller tail","distance_statistics._ripley_test"),("truncation of the result tuple","distance_statistics.j_test / _truncate")])

prop("C10","Nearest neighbours are truly nearest and never the point itself",
 "For each point of a pattern, a k-nearest-neighbour query within the pattern returns k other points, never the point itself even when points coincide, with their exact distances in non-decreasing order, and no point left out is closer than one returned. The nearest-neighbour summaries of a pattern are the minimum, mean and maximum of exactly these distances.",
 ["inputs"],"all patterns (coincident points included) with more than k points, all k >= 1",
 "Tests use one pattern without ties; self-exclusion must hold for every configuration of coincident points.",
 [G,PP],[("query k+1 and drop the self row entry","geometry.k_neighbors"),("pattern level wrappers","pointpattern.PointPattern.knn / nnd / min_nnd / mean_nnd / max_nnd")])

prop("C11","Rectangular quadrats partition the pattern",
 "A rectangular quadrat grid counts every point of the pattern in exactly one of its count_row x count_column cells: the cell whose closed rectangle contains it. Cell ids enumerate the grid row by row, every id 0..num-1 has a count, and the counts add up to the number of points, including points on the top and right border.",
 ["inputs"],"all patterns whose bounding box has positive width and height, all grid sizes given as counts or as cell width and height",
 "Tests count a few fixed patterns; border points and uneven cell sizes must work for every pattern.",
 [Q],[("index by floor division, border folded into the last cell","quadrat_statistics.RectangleM.point_location_sta"),("grid dimensions","quadrat_statistics.RectangleM.__init__")])

prop("C12","Hexagonal quadrats partition the pattern",
 "A hexagonal quadrat grid counts every point of the pattern in exactly one cell, whose closed regular hexagon contains the point. The table has one entry per cell of the grid, as many as the reported number of cells, and the counts add up to the number of points.",
 ["inputs"],"all patterns and all positive hexagon side lengths",
 "Tests use two patterns; points on slanted edges, tops of columns and grid borders need every position to be considered.",
 [Q],[("column/row candidates and slanted edge test","quadrat_statistics.HexagonM.point_location_sta"),("grid dimensions","quadrat_statistics.HexagonM.__init__")])

prop("C13","The quadrat statistic is the chi-square of its counts with a valid p-value",
 "The quadrat statistic equals the sum over all cells, empty ones included, of (count - mean count)^2 / mean count, with (number of cells - 1) degrees of freedom and per-cell contributions that add up to it in cell order. With R realizations its simulation p-value is (1 + number of simulated statistics at least as large) / (R + 1), one simulated statistic per realization computed on the same kind of grid.",
 ["inputs","schedules"],"all patterns, both grid shapes, all numbers of realizations and simulated outcomes",
 "Tests compare a few fixed counts with scipy; the identity and the p-value must hold for every table and simulated outcome.",
 [Q],[("chi-square over the count table","quadrat_statistics.QStatistic.__init__"),("Monte Carlo loop","quadrat_statistics.QStatistic.__init__")])

prop("C14","Global Knox counts exactly the close pairs and their permutations",
 "The observed Knox table holds the numbers of unordered pairs of distinct events within the distance and time thresholds (inclusive) in space and time, space only, time only and neither, adding up to n(n-1)/2; the expected table has the same margins and the product form for its first cell. The pseudo p-value is (1 + number of permutations of the times with at least the observed number of space-time pairs) / (permutations + 1), and kept permutation statistics are these numbers.",
 ["inputs","schedules"],"all event sets with at least two events, thresholds, numbers of permutations and permutations drawn",
 "Tests use one data set; the table identities and the permutation count must hold for all events and all permutations, ties and duplicates included.",
 [S],[("ball queries minus self, set intersection","spacetime._knox"),("permutation loop","spacetime._knox"),("results carried over","spacetime.Knox")])

prop("C15","Local Knox tables agree with the global statistic and its neighbours",
 "The local Knox statistic of an event is its number of space-time neighbours, so these sum to twice the global number of pairs. The adjacency table lists every space-time pair in both directions under the caller's ids, marked lead, lag or coincident by the events' times. Local pseudo p-values are (1 + number of conditional permutations, which keep the event's own time and permute the others, with at least as many neighbours) / (permutations + 1).",
 ["inputs","schedules"],"all event sets, thresholds, ids and permutations drawn",
 "Tests use one data set with default ids; symmetry, orientation and id mapping must hold for all.",
 [S],[("pair accumulation","spacetime._knox_local"),("conditional permutation","spacetime._knox_local"),("adjacency list and id map","spacetime._knox_local / spacetime.KnoxLocal.__init__")])

prop("C16","Classic space-time tests: exact statistics and valid permutation p-values",
 "The Knox function counts the pairs of events close in both space and time; the Mantel statistic is the correlation of the transformed lower-triangle distances; the Jacquez statistic is the number of shared k nearest neighbours in space and time; the modified Knox statistic is half of the close ordered pairs minus the sum of products of the events' spatial and temporal neighbour numbers over n-1. Each p-value is (1 + number of permutations at least as extreme) / (permutations + 1), where a permutation reorders times against places, and for the Knox function the smaller tail is counted.",
 ["inputs","schedules"],"all event sets, parameters and permutations drawn",
 "Tests pin four numbers for one data set; definitions and p-values must hold for all inputs and permutations.",
 [S],[("pairs and shuffles","spacetime.knox / mantel / jacquez / modified_knox"),("simultaneous row and column permutation","spacetime._shuffle_matrix")])

prop("C17","Hotspot tables hold exactly the significant events and their clusters",
 "The hotspot table of a local Knox analysis contains exactly the events significant at the given level and, if neighbours are kept, the events adjacent to one of them, each once and with its own p-value, time and geometry. Two of these events share a cluster label exactly if they are connected through adjacencies that involve a significant event.",
 ["inputs"],"all local Knox analyses, significance levels and inference modes",
 "Tests check only the number of rows for one data set.",
 [S],[("relational joins and graph components","spacetime.KnoxLocal.hotspots")])

prop("C18","Centres and standard distance equal their definitions",
 "The mean centre is the average of the coordinates and the weighted mean centre the weight-averaged coordinates; the standard distance is the square root of the mean squared distance of the events to their mean centre; the distance total is the sum of the Euclidean distances to the given point; the Manhattan median is the coordinate-wise median. Translating a pattern translates the centres and leaves the standard distance unchanged.",
 ["inputs"],"all non-empty patterns, all weights with non-zero sum",
 "Tests compare one pattern with pinned numbers; the definitions must hold for every pattern and weight vector.",
 [C],[("moments of the coordinates","centrography.mean_center / weighted_mean_center / std_distance / dtot / manhattan_median")])

prop("C19","The standard deviational ellipse follows the principal axes",
 "The squared semi-axes of the standard deviational ellipse are the two eigenvalues of the weighted covariance matrix of the coordinates (weights normalised to sum 1) times the factor of the chosen method (2n/(n-2) for CrimeStat; 1, 2, n/(n-2) or 2n/(n-2) for Yuill by its flags), the major axis first. The rotation is the direction of the major axis measured from the x axis.",
 ["inputs"],"all patterns with more than two points, all positive weights, both methods and correction flags",
 "Tests pin one pattern per method; the axes must be principal for every orientation of the pattern, the axis-aligned ones included.",
 [C],[("closed-form rotation angles and dispersions","centrography.ellipse")])

prop("C20","The minimum bounding circle encloses all points and is minimal",
 "The minimum bounding circle contains every point of the pattern, up to rounding, and no smaller circle does.",
 ["inputs"],"all patterns that are not all on one line",
 "Tests check one pattern; enclosure and minimality must hold for obtuse, right-angled, co-circular and near-degenerate hulls alike.",
 [C],[("Skyum's algorithm on the clockwise hull","centrography.minimum_bounding_circle / _skyum_numba"),("circle through three points","centrography._circle")])

prop("C21","Bounding rectangles and hulls are exact",
 "The minimum bounding rectangle is (min x, min y, max x, max y) of the points. The convex hull consists of points of the pattern and contains every point of it, and the minimum rotated rectangle contains every point.",
 ["inputs"],"all patterns (not all on one line for hulls)",
 "Tests check one pattern.",
 [C,G],[("coordinate extremes","centrography.minimum_bounding_rectangle / geometry.bbox"),("Qhull / GEOS","centrography.hull / minimum_rotated_rectangle")])

prop("C22","Pattern set operations keep exactly the right points and marks",
 "Exploding a pattern by a mark yields one pattern per distinct value that together hold every row once, each with only its value; removing duplicates keeps one of each distinct row, in first-occurrence order, and the pattern's window; superimposing two patterns with equal columns yields the distinct rows of both; a point is a member exactly if some row has both its coordinates. All keep the column names and coordinate columns.",
 ["inputs"],"all marked patterns, column layouts and values",
 "Tests use two small patterns with default column order.",
 [PP],[("frame operations","pointpattern.PointPattern.explode / unique / superimpose / __contains__")])

prop("C23","Pattern properties always reflect their points and current window",
 "The size, bounding box, box area, hull, hull area and intensities of a point pattern equal those computed from its points and, for the window intensity, from the window currently set, in whatever order and however often they are read and the window is replaced. Without a window given the bounding box is the window, and reading properties never changes the pattern.",
 ["histories","inputs"],"all patterns with at least three points not on one line, all sequences of property reads and window changes",
 "Tests read each property once; caching makes the answer depend on the history.",
 [PP,W,U],[("memoised properties","util.cached_property"),("window property","pointpattern.PointPattern.set_window / get_window / lambda_window"),("bounding box window","window.poly_from_bbox / as_window")],
 state=[("_cache","memoised derived values","util.cached_property"),("_window","current window","pointpattern.PointPattern")])

prop("C24","Hull helpers agree on area, extent, containment and centre",
 "For a bounding box given as (xmin, ymin, xmax, ymax) the area is |width x height|, its box is itself, a point is contained exactly if xmin <= x <= xmax and ymin <= y <= ymax, and its centre is the midpoint; for a point array the box is the coordinate extremes and the centre the mean. Hulls given ready-made pass through hull preparation unchanged, and absent ones become the bounding box of the coordinates.",
 ["inputs"],"all boxes, arrays, shapes and coordinates",
 "Tests check single examples per type.",
 [G],[("single dispatch per hull kind","geometry.area / bbox / contains / centroid"),("hull preparation","geometry.prepare_hull")])

prop("C25","The same points give the same answer in every accepted container",
 "Centrographic measures, distance statistics and quadrat counts return the same numbers for the same points given as an array, a list of coordinate pairs or a geopandas series or frame, in particular with the same order of events.",
 ["inputs"],"all patterns and containers accepted by the function",
 "Tests try containers on one pattern, for some functions only.",
 [C,D,Q],[("single dispatch and coordinate extraction","centrography.* / distance_statistics._prepare / quadrat_statistics._as_points_array")])

prop("C26","Density surfaces are aligned with their grid",
 "A plotted density holds at each grid position the kernel density estimate of that position's x and y coordinates, with x along columns and y along rows, on a grid that covers the data with the requested resolution and margin.",
 ["inputs"],"all patterns, bandwidths, kernels, resolutions and margins",
 "Tests only check that a plot is drawn; a transposed grid is invisible for square resolutions and symmetric data.",
 [K],[("meshgrid evaluation and reshape","kde.plot_density")])

prop("C27","Space-time event files keep coordinates and times aligned",
 "Events read from a shapefile have the coordinates of its points and the times of the same rows of the attribute table beside it, in file order; date columns become days since the earliest date.",
 ["inputs"],"all point shapefiles with attribute tables",
 "Tests read one bundled data set.",
 [S],[("column extraction","spacetime.SpaceTimeEvents.__init__")])

with open(os.path.join(HERE,"properties.jsonl"),"w") as f:
    for p in P:
        assert len(p["title"])<=80,(p["id"],len(p["title"]))
        f.write(json.dumps(p)+"\n")
