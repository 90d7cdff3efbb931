#!/usr/bin/env python3
"""The properties, and the generator of properties.jsonl and MANIFEST.json.

    python3 mc/props.py        rewrites both; claims every property whose check exists
"""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []


def prop(id, title, statement, over, text, why, files, mech, observe, note, technique=None):
    assert len(title) <= 80, (id, len(title))
    PROPS.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=["neutralocean/" + f for f in files],
                     mechanism=[dict(name=n, where="neutralocean/" + w) for n, w in mech],
                     observe_at=observe, hook_needed=None),
        _note=note,
        _technique=technique or "explicit-state bounded exhaustive exploration of the real code against a reference model",
    ))


PP = "ppinterp/"
prop(
    "C01", "Interpolated values are those of the linear or PCHIP interpolant",
    "Evaluating a cast at any site gives the value (or the requested derivative) of the piecewise linear, "
    "respectively the Fritsch-Carlson/Butland PCHIP, interpolant through the cast's first contiguous block of "
    "valid levels.  At an interior knot the piece below (the one ending there) is used, the end points of the data belong to the "
    "first and last piece, and sites outside the valid levels, NaN sites, and casts with fewer than two valid levels give NaN.",
    ["inputs"], "every cast (levels, values, missing levels), site and derivative order",
    "Tests compare two dozen casts with SciPy at knots and mid points; they reach few NaN patterns and spacings, no float neighbours of knots, and no end formula with sign changes.",
    [PP + "ppinterp.py", PP + "pchip.py", PP + "linear.py", PP + "lib.py"],
    [("slope formulas of the interpolants", PP + "pchip.py"), ("evaluation and interval search", PP + "ppinterp.py"),
     ("valid block of a cast", PP + "lib.py")],
    ["values returned by interpolation and evaluation functions"],
    "Exhaustive over the casts, NaN patterns and sites listed in the evidence; oracle: independent NumPy implementation of both interpolants.",
)
prop(
    "C02", "All interpolation routes and broadcast shapes agree",
    "For the same data, one-shot interpolation, coefficients followed by evaluation, the scalar routines, the vectorised "
    "routines, the NaN-free variants and the two-variable variants give the same numbers, for every broadcastable combination of shapes of sites and casts.  "
    "The interpolation factory returns the variant asked for, and rejects unknown options.",
    ["inputs", "configurations"], "every option combination of the factory, broadcast shape, cast and site",
    "Tests use one route and one shape; the sixteen routes share little code and can drift apart silently.",
    [PP + "__init__.py", PP + "tools.py", PP + "ppinterp.py", PP + "pchip.py", PP + "linear.py"],
    [("factory", PP + "tools.py"), ("generalised ufunc signatures", PP + "ppinterp.py")],
    ["values and shapes returned"],
    "Exhaustive over options, the shapes and casts listed in the evidence; oracle: reference interpolants, and mutual agreement.",
)
prop(
    "C03", "PCHIP preserves shape, and is smooth, local and symmetric",
    "Between two levels a PCHIP interpolant never leaves the range of the two data values and is monotone there, so it makes no false "
    "extrema or inversions.  It passes through the data, has a continuous slope, depends only on levels near the site, and commutes with reversing the cast and with "
    "affine rescaling of depth and values.",
    ["inputs"], "every cast and every site between its levels",
    "Tests compare one smooth cast with known numbers, far from plateaus, extrema and uneven spacing where overshoot would appear.",
    [PP + "pchip.py", PP + "ppinterp.py"], [("slope limiting", PP + "pchip.py")],
    ["interpolated values and slopes"],
    "Exhaustive over casts of 2-5 levels over small alphabets of gaps and values, 13 sites per interval.",
)
prop(
    "C04", "Root finding terminates with a genuine root, or NaN",
    "Given a range in which the function changes sign, the bracketing solver returns a point of that range within the requested tolerance of a sign "
    "change, after boundedly many evaluations; the bracket search from a guess returns a sub-range with a sign change or NaNs, and their composition "
    "returns a root whenever the ends of the range have opposite signs.  No evaluation is made outside the given range, NaN or unusable ranges give NaN, and an exact zero at an end of the range is returned.",
    ["inputs", "fault_sequences"], "every function (every sequence of values it may answer), range, guess and tolerance",
    "Tests try a handful of smooth functions; the worst cases are orders of answers that no smooth test function gives.",
    ["fzero.py"], [("Brent's method", "fzero.py: brent"), ("expanding bracket", "fzero.py: guess_to_bounds")],
    ["returned root or bracket; sequence of evaluation points"],
    "Adversarial exploration: the function's answers are the nondeterminism, enumerated to a depth, then continued consistently to completion.",
    "explicit-state game exploration: every sequence of function answers up to a depth, on the real solvers",
)
prop(
    "C05", "Potential density and anomaly surfaces solve their equation on every cast",
    "At every cast the surface's pressure (or depth) lies on that cast and the potential density, respectively specific volume or in-situ density anomaly, of the interpolated "
    "water there equals the isovalue to the solver tolerance, and the returned salinity and temperature are the interpolated ones at the returned pressure.  "
    "The result is NaN exactly where the cast has no such point that can be bracketed between its ends: too few valid levels, or never reaching the isovalue.",
    ["inputs"], "every ocean (each cast independently), isovalue, reference, equation of state and interpolant",
    "Tests make one surface on one synthetic ocean with a loose criterion; inversions, short casts, missing levels and unreachable isovalues are not sampled.",
    ["surface/isopycnal.py", "surface/_vertsolve.py", "fzero.py", "lib.py"],
    [("vertical solve", "surface/_vertsolve.py"), ("surface driver", "surface/isopycnal.py")],
    ["s, t, p returned"],
    "Exhaustive over oceans made of all casts over small alphabets; oracle: dense scan of each cast with reference interpolants.",
)
prop(
    "C06", "Reference, isovalue and pin select the surface as documented",
    "Whichever documented combination of reference value, isovalue, pin cast and pin pressure is given, the surface is the one they define: pinned surfaces pass through the "
    "pin, an explicit reference or isovalue is used as given, and the reported reference and isovalue are the ones the surface has.  Unusable combinations raise an error, "
    "a pin outside its cast's data gives an all-NaN surface, and pins may be given by index tuple, list, name dictionary or integer.",
    ["inputs", "configurations"], "every combination and form of selectors, pin cast and pin pressure",
    "Tests use two combinations; four selectors with several forms interact.",
    ["surface/isopycnal.py", "lib.py"], [("selector resolution", "surface/isopycnal.py"), ("pin processing", "lib.py")],
    ["s, t, p and diagnostics returned, errors raised"],
    "Exhaustive over selector combinations on one six-cast ocean.",
)
prop(
    "C07", "Results do not depend on data layout, and inputs are not modified",
    "Surfaces, mixed-layer depths, trajectories and stability counts are the same numbers whatever the order of axes, the way the vertical "
    "dimension is named, the container (arrays or labelled arrays), the memory layout, the byte order, or whether pressure is given once or per cast.  Labelled inputs give labelled outputs with the horizontal dimensions and "
    "coordinates, and no input array is changed.",
    ["inputs", "configurations"], "every layout of the same ocean, for every entry point that accepts casts",
    "Tests use one layout; transposition errors preserve shapes on square grids and go unnoticed.",
    ["lib.py", "surface/isopycnal.py", "surface/omega.py", "mixed_layer.py", "traj.py", "stability.py"],
    [("layout normalisation", "lib.py")], ["returned arrays, their dims and coords; input arrays after the call"],
    "Exhaustive over axis permutations, names, containers and memory layouts of one small ocean.",
)
prop(
    "C08", "Rectilinear and tripolar grids have exactly the right edges and distances",
    "Grid construction lists each pair of neighbouring casts the stated number of times and nothing else, honouring periodicity and the tripolar fold, and gives each edge the distance between its "
    "casts and the width of their interface from the matching distance array, however these are passed (scalar, broadcastable, full, padded).  Mapping edge data back to "
    "two-dimensional fields puts every edge's value at its grid point, with NaN where no edge exists.",
    ["inputs", "configurations"], "every grid size, periodicity and form of distance arguments",
    "Tests build one grid with unit distances, so no distance could be wrong and no fold is exercised.",
    ["grid/rectilinear.py", "grid/tripolar.py"],
    [("edges and edge data", "grid/rectilinear.py"), ("fold", "grid/tripolar.py")],
    ["edges, distances and maps returned"],
    "Exhaustive over sizes up to 5x5 and forms; oracle: the definition, as multisets of edges with both distances.",
)
prop(
    "C09", "Tiled grids connect tiles as their face connections say",
    "For a tiled grid described by face connections, the grid contains exactly one edge for each cell and its neighbour across its low-side (or high-side, as the cell-face staggering says) "
    "face in each of the two directions, within and across tiles, including rotated connections, and none where no tile is connected.  Node numbers follow the order of the dimensions, distances and "
    "interface widths come from the matching arrays at that cell, and mapping edge data back restores them in place.",
    ["inputs", "configurations"], "every tile arrangement and connection, dimension order, staggering and form of distances",
    "No test touches tiled grids at all.",
    ["grid/xgcm.py"], [("neighbours by xgcm shifts", "grid/xgcm.py"), ("edge data and maps", "grid/xgcm.py")],
    ["edges, distances and maps returned"],
    "Exhaustive over 1-2 tiles (3 in thorough) of 2-3 cells and their non-reversing connections; oracle: own geometric adjacency.",
)
prop(
    "C10", "Graph conversions and edge operators are faithful",
    "Converting edge lists to adjacency structures and graphs to grids loses, invents and misplaces nothing: each edge appears in both of its nodes' neighbour lists, in order, with its own weights.  Functions of the two ends of edges are evaluated with the right "
    "orientation, and the divergence of an edge vector is the signed, width-weighted sum at each node, divided by its area.",
    ["inputs"], "every graph, weights, node values and edge order",
    "No test calls these functions directly; surface tests see only one connected grid.",
    ["grid/graph.py", "grid/tools.py", "lib.py"],
    [("compressed adjacency", "grid/graph.py"), ("divergence", "grid/tools.py")], ["returned arrays and matrices"],
    "Exhaustive over all graphs of up to 5 nodes, both orientations and orders of edges as stated in the evidence.",
)
prop(
    "C11", "Breadth-first search finds exactly the connected region of the root",
    "Starting from any cast, the search returns each valid cast reachable through valid casts exactly once, root first and in order of distance, and nothing else.  "
    "A root that is itself invalid gives an empty region.",
    ["inputs", "configurations"], "every graph, set of valid casts and root",
    "No test calls the search; one connected ocean cannot show leaks across land or missed casts.",
    ["bfs.py"], [("queue and marks", "bfs.py: bfs_conncomp1")], ["returned nodes"],
    "Exhaustive over every graph of up to 5 nodes (6 in thorough), every mask and root, in CSR form.",
)
prop(
    "C12", "Wetting adds exactly the casts neutrally reachable from the surface",
    "When a surface is extended, a dry cast is added only if it is adjacent to a cast of the surface and has, below its mixed layer and within its own data, a bottle neutrally linked to that "
    "neighbour; it receives that bottle's properties (perimeter wetting: at the mean pressure of the links from all its neighbours on the surface), and the number added is reported.  No dry cast that could be added so remains, up to the allowed "
    "number of passes; casts of the surface keep their properties, and casts not connected to the root are dropped where documented.  For perimeter wetting the result does not depend on the order of casts or edges.",
    ["inputs", "configurations", "histories"], "every graph, set of wet and dry casts, mixed layer, pass limit and numbering of casts",
    "Surface tests never need wetting on a grid with islands, mixed layers or casts reachable from two sides.",
    ["bfs.py", "traj.py"], [("wetting during search", "bfs.py: bfs_conncomp1_wet"), ("perimeter wetting", "bfs.py: bfs_conncomp1_wet_perim")],
    ["s, t, p after the call; nodes and counts returned"],
    "Every graph of up to 4 nodes (5 in thorough) x wet set x casts; perimeter wetting compared with a synchronous reference model and across all renumberings.",
)
prop(
    "C13", "Omega surfaces are pinned, connected, on their casts, and as neutral as possible",
    "The omega surface passes exactly through its pin, its salinity and temperature are those of each cast at its pressure, s, t and p are NaN at the same casts, and it is NaN at land and at casts that no path of ocean casts joins to the pin.  When converged, it is connected, no small change of "
    "it reduces the (width- and distance-weighted) sum of squared neutrality errors, so on a graph without loops every edge is neutral to tolerance, and while wetting is on no dry neighbour neutrally linked to it below the mixed layer is left out.",
    ["inputs", "configurations"], "every ocean, grid graph, pin, initial surface, solver choice and equation of state",
    "Tests run one doubly periodic ocean from one pin and compare a norm with a threshold.",
    ["surface/omega.py", "bfs.py", "surface/_vertsolve.py"], [("iteration", "surface/omega.py"), ("vertical update", "surface/_vertsolve.py")],
    ["s, t, p returned"],
    "Exhaustive over graphs of up to 4-5 casts x casts x pins x options; oracle: independent residual of the normal equations at the returned surface.",
)
prop(
    "C14", "An omega update is the weighted least-squares solution, for both solvers",
    "One iteration changes the pressure of each cast so that the density perturbation it makes, at each cast's own location, is the solution of the pinned, width-over-distance weighted least-squares problem "
    "that best cancels the neutrality errors of the current surface, independently on the pinned region.  The two solver choices give the same surface, and omitted distances mean one.",
    ["inputs", "configurations"], "every graph, ocean, distances (given as arrays, lists, scalars or omitted), solver and pin",
    "The tests' grid has unit distances, a regular topology, and a criterion too weak to see a wrong weight.",
    ["surface/omega.py", "ntp.py", "surface/_vertsolve.py"],
    [("matrix assembly, both forms", "surface/omega.py"), ("edge errors", "ntp.py")], ["s, t, p after one iteration"],
    "Every connected graph of up to 4-5 nodes x casts x distances; oracle: dense least squares and bisection on reference interpolants.",
)
prop(
    "C15", "Neutrality errors and their norms follow their definition",
    "The error on an edge is the locally referenced density difference between its second and first casts, using expansion coefficients at their mid point, divided by their distance, and NaN if either cast is off the surface.  The "
    "root-mean-square and mean-absolute norms weight squared, respectively absolute, errors by the area of each edge, ignore edges off the surface, and are zero when there is no edge.",
    ["inputs", "configurations"], "every surface (with NaN), graph, distances, equation of state and Boussinesq option",
    "Tests only compare norms with a threshold, on unit distances.",
    ["ntp.py"], [("edge errors", "ntp.py"), ("norms", "ntp.py")], ["errors and norms returned"],
    "Exhaustive over small graphs, orientations, value assignments with NaN, and forms of distances.",
)
prop(
    "C16", "Neutral links and trajectories connect bottles of equal potential density",
    "The neutral link from a bottle to a cast is the point of the cast whose density referenced to the mid pressure equals the bottle's, to the tolerance, with the cast's interpolated salinity and temperature, or NaN if the cast has none.  "
    "A neutral trajectory starts at the given bottle and links each cast to the previous one, and is NaN from the first failed link on.",
    ["inputs", "histories"], "every bottle, sequence of casts, interpolant, equation of state and start",
    "No test calls these functions.",
    ["traj.py", "fzero.py"], [("mid-pressure density difference", "traj.py"), ("sequence of links", "traj.py: neutral_trajectory")],
    ["s, t, p returned"],
    "All casts over small alphabets x bottles, and all sequences of casts to a depth; oracle: dense scan and step-by-step re-linking.",
)
prop(
    "C17", "Veronis density integrates the locally referenced density along the cast",
    "The label of a bottle is the reference potential density at the start pressure plus the integral, along the cast, of the locally referenced vertical density gradient (scaled by b along the integral), accurate to second order in the integration step, and exact for a linear equation of state and "
    "linear interpolation.  Integrals from one pressure to another add up and change sign when reversed, and a bottle or start outside the cast gives NaN.",
    ["inputs", "configurations"], "every cast, bottle, start, reference, step and b",
    "No test calls it (on current NumPy it could not even run before our repair).",
    ["label.py"], [("piecewise trapezoidal integration", "label.py")], ["label returned"],
    "All casts of 2-4 levels over small alphabets x start, end, step; oracle: closed form or fine quadrature on reference interpolants.",
)
prop(
    "C18", "Mixed-layer depth is where the density threshold is first crossed",
    "The mixed layer base is the pressure (or depth) at which potential density, referenced as requested and piecewise linear between levels, exceeds that of the reference bottle by the threshold; density and specific-volume equations of state are both handled.  "
    "It depends only on its own cast, and is NaN where the threshold is never reached or the reference bottle is missing.",
    ["inputs", "configurations"], "every stable cast, threshold, reference pressure, reference bottle, equation of state and layout",
    "No test calls it.",
    ["mixed_layer.py"], [("interpolation of pressure against density", "mixed_layer.py")], ["mixed-layer depth returned"],
    "All stable casts of up to 4 levels over small alphabets and parameters; oracle: direct scan.",
)
prop(
    "C19", "Equations of state match their definition, with consistent derivatives",
    "Each built-in equation of state gives the density or specific volume of its published definition, and each partial-derivative function is the exact derivative of it, at every salinity, temperature and pressure.  "
    "The Boussinesq form evaluates at the hydrostatic pressure of a depth, its vertical derivative includes the conversion factor, and scalar and vectorised forms agree.",
    ["inputs", "configurations"], "every salinity, temperature, pressure, function and Boussinesq option",
    "Tests compare one check value and rough finite differences at one point; most derivatives are never called.",
    ["eos/gsw.py", "eos/jmd95.py", "eos/jmdfwg06.py", "eos/gswc.py", "eos/tools.py"],
    [("polynomials", "eos/"), ("factories", "eos/tools.py")], ["returned values"],
    "Exhaustive lattice of points chosen to determine the polynomials, against published coefficients, the GSW library, and derivatives by exact jets.",
)
prop(
    "C20", "Cached functions give results independent of call history",
    "Functions made by the factories and whole surface calculations give the same result whatever was asked for before, in any order, including after cache eviction and for similar-looking options (same function with "
    "different gravity, reference density or number of derivatives).",
    ["histories"], "every sequence of factory and surface calls",
    "Tests call each factory once per process in a fixed order.",
    ["eos/tools.py", "ppinterp/tools.py", "lib.py"], [("least-recently-used caches", "eos/tools.py"), ("factory", "ppinterp/tools.py")],
    ["results of the functions returned"],
    "All sequences of factory calls to a depth, plus full eviction cycles; oracle: the same call in isolation.",
    "explicit-state exploration of all call sequences to a depth on the real code",
)
prop(
    "C21", "Stabilisation makes casts stable, minimally, and counts are right",
    "The number of unstable points is the number of adjacent valid bottles whose locally referenced density does not increase downward.  After stabilisation every cast meets the required minimum stratification "
    "to solver tolerance, casts that met it already are untouched, missing levels stay missing, and the change made is close to the smallest possible in the weighted sense requested; if the solver gives up, an exception says so and that cast is unchanged.",
    ["inputs", "configurations"], "every cast, threshold, weight, equation of state and layout",
    "No test calls it.",
    ["stability.py"], [("count", "stability.py: count_unstable"), ("constrained optimisation", "stability.py: stabilize_ST")],
    ["count; S and T after the call"],
    "All casts of 2-4 levels over small alphabets; oracle: direct count, constraint evaluation, and exact active-set solution for a linear equation of state.",
)
prop(
    "C22", "Degenerate input is handled without crash, hang, or out-of-bounds access",
    "Oceans with land everywhere, single levels, single casts, no edges, pins on land or out of range, surfaces entirely NaN, and other degenerate but well-formed input make every entry point return normally with NaN (or zero counts) where nothing is "
    "defined, or raise a Python exception; never an out-of-bounds access, a crash or an endless loop.",
    ["inputs", "configurations"], "every degenerate shape, NaN pattern and pin, for every entry point",
    "Compiled code does not check bounds in normal runs, so tests pass while memory is corrupted; tests contain no degenerate input.",
    ["surface/omega.py", "surface/isopycnal.py", "ppinterp/", "traj.py", "bfs.py", "mixed_layer.py", "stability.py", "label.py", "lib.py"],
    [("valid ranges", "lib.py"), ("guards on short casts", "ppinterp/")], ["normal return, values"],
    "Exhaustive over small shapes x NaN patterns x pins, with bounds checking compiled in and a watchdog.",
)
prop(
    "C23", "Array helpers follow their specification on every input",
    "The helpers that locate the first missing level or the valid block of a cast, pick values by index along the last axis, gather with a fill value and aggregate sums by index return what their "
    "documentation says for every shape, axis, index and NaN pattern.",
    ["inputs"], "every shape, axis, index pattern and NaN pattern",
    "Tests exercise them only indirectly, on full casts.",
    ["lib.py", "ppinterp/lib.py"], [("helpers", "lib.py"), ("valid ranges", "ppinterp/lib.py")], ["returned values and shapes"],
    "Exhaustive over small shapes and patterns; oracle: direct definitions.",
)
prop(
    "C24", "Omega iteration control and diagnostics report what was done",
    "Iteration stops exactly when a documented criterion says so (limits on iterations, tolerance on the change of density or pressure), wetting is done only in its iteration window, and the "
    "diagnostics have one entry for the initial surface and one per iteration made.  Each entry is the value of its quantity for the surface of that iteration, the last one that of the returned surface.",
    ["configurations", "histories"], "every combination of iteration limits, tolerances, wetting window and diagnostics choice, on every small ocean",
    "Tests run one configuration and read one norm.",
    ["surface/omega.py"], [("iteration loop", "surface/omega.py")], ["s, t, p and the diagnostics dictionary"],
    "All combinations of control parameters on several small oceans; oracle: prefix runs and independent norms.",
)


prop(
    "C25", "Isopycnal surface diagnostics describe the returned surface",
    "Potential density and anomaly surfaces are the same with and without diagnostics, and however the equation of state is given (name, functions, Boussinesq constants).  With diagnostics the "
    "root-mean-square and mean-absolute neutrality errors are those of the returned surface on the given grid, for every documented form of grid and layout of the data, the number of wet casts is "
    "the number of finite pressures, and reference and isovalue are those used; a report is printed exactly when asked for, and missing edges or derivatives are refused.",
    ["inputs", "configurations"], "every ocean, graph, form of the distances, layout, equation of state and choice of diagnostics and output",
    "Tests read one error norm of one surface with default distances, in one layout.",
    ["surface/isopycnal.py", "ntp.py", "lib.py"], [("surface driver and diagnostics", "surface/isopycnal.py"), ("norms", "ntp.py")], ["diagnostics dictionary", "standard output"],
    "Every graph on four casts x forms of distances x options; oracle: definition of the errors applied to the returned surface.",
)
prop(
    "C26", "Numbering of casts and order or direction of edges do not matter",
    "Renumbering the casts together with their data and edges, listing edges in another order or direction, or splitting an interface into two parallel ones renumbers but does not change omega surfaces, isopycnal surfaces, "
    "mixed layers or any diagnostic.  Changing the unit of distance or of width changes errors accordingly and surfaces not at all, and casts that no path joins to the pin, or emptying them, do not affect the rest of the surface.",
    ["inputs"], "every ocean and graph, numbering of casts, order and direction of edges",
    "Tests use one numbering; results that depend on the order of search, on edge direction or on neighbours in memory look plausible on it.",
    ["surface/omega.py", "bfs.py", "ntp.py", "grid/graph.py", "surface/isopycnal.py"],
    [("search and wetting", "bfs.py"), ("matrix assembly", "surface/omega.py")], ["s, t, p and diagnostics"],
    "Every graph on four casts x all 24 numberings, all directions and orders of edges; oracle: the library's own result for the original numbering (metamorphic relation).",
)
prop(
    "C27", "Depth with Boussinesq constants equals hydrostatic pressure everywhere",
    "Giving depths together with gravity and a reference density (or an equation of state made with them) gives the same surfaces, links, trajectories, mixed layers, labels, errors and diagnostics as giving the hydrostatic pressure of "
    "those depths, with positions scaled from depth to pressure, in every part of the library.",
    ["inputs", "configurations"], "every ocean, built-in equation of state, gravity, reference density, interpolant and entry point",
    "No test uses the Boussinesq form; a constant dropped or swapped on the way, or applied twice, shifts results slightly and silently.",
    ["eos/tools.py", "lib.py", "surface/isopycnal.py", "surface/omega.py", "mixed_layer.py", "traj.py", "label.py", "ntp.py"],
    [("Boussinesq wrapping", "eos/tools.py"), ("processing of the equation of state", "lib.py")], ["values returned by every entry point"],
    "All oceans of three casts of six kinds x entry points; oracle: the non-Boussinesq calculation of the same problem (metamorphic relation; its values are decided by the other properties).",
)
prop(
    "C28", "The synthetic ocean is as its parameters say",
    "For every shape, bottom pressure, salinity anomaly, zonal structure and periodicity, the synthetic ocean has that shape, pressures from zero to the bottom value, walls of missing data exactly on the non-periodic sides and the same water elsewhere, "
    "the anomaly at the surface decreasing linearly northward, and geometry consistent with a sphere.",
    ["inputs", "configurations"], "every shape and parameter combination",
    "Tests use it as an unexamined fixture of one shape.",
    ["synthocean.py"], [("generator", "synthocean.py")], ["S, T, P and geometry returned"],
    "Exhaustive over small shapes and parameter combinations; oracle: documented laws and spherical geometry.",
)
prop(
    "C29", "Options left out have their documented defaults, in every combination",
    "Giving any combination of options with their documented default values gives exactly the result of leaving them out, options that may be given by position have the order of the documented signature, distances left out of a grid are one, "
    "options of the mixed layer given to an omega surface act as if the mixed layer were calculated with them, and nothing is printed when output is off.",
    ["inputs", "configurations"], "every entry point, every combination of its options, every ocean",
    "Tests call each function with one set of options; a default that differs from the documentation, or an option lost when another is left out, gives a plausible surface.",
    ["surface/omega.py", "surface/isopycnal.py", "mixed_layer.py", "traj.py", "label.py", "ntp.py", "stability.py", "synthocean.py", "grid/rectilinear.py", "grid/tripolar.py", "grid/xgcm.py", "grid/graph.py", "eos/tools.py", "ppinterp/tools.py"],
    [("options of omega surfaces", "surface/omega.py"), ("options of isopycnals", "surface/isopycnal.py")], ["values returned and lines printed by every entry point"],
    "All subsets of options x oceans x forms of call, compared with the call without them; oracle: the documented defaults and signatures.",
)
prop(
    "C30", "Numbers of any type give the result of the same numbers in double precision",
    "Salinity, temperature, pressure, first guess, mixed layer, distances, edges, pins, constants and parameters given as integers of any size, in single precision or in another byte order give, in every entry point that takes arrays or numbers "
    "(not the compiled one-cast interpolation helpers), the result of the same numbers in double precision: nothing is truncated, wrapped around or refused, and surfaces are double precision.",
    ["inputs"], "every entry point, every argument and combination of arguments, every number type",
    "Tests use float64 throughout; integer depths or single-precision data truncate or wrap around silently in a compiled loop.",
    ["ntp.py", "lib.py", "surface/omega.py", "surface/isopycnal.py", "traj.py", "label.py", "mixed_layer.py", "stability.py", "ppinterp/linear.py", "ppinterp/pchip.py", "eos/gsw.py", "eos/jmd95.py", "eos/jmdfwg06.py", "grid/rectilinear.py", "grid/tripolar.py", "grid/xgcm.py", "grid/tools.py"],
    [("conversion of casts", "lib.py"), ("errors on edges", "ntp.py"), ("first guess", "surface/omega.py")], ["values and types returned by every entry point"],
    "All subsets of one or two arguments (and all of them) x number types x oceans of whole numbers; oracle: the call in double precision (metamorphic relation).",
)

prop(
    "C31", "Calls in several threads do not disturb each other",
    "Any two calls running at the same time in two threads - on the same arrays and grid, or on different ones, also while both ask the factories for functions nobody asked for before - return what they return one after the other, "
    "whatever the moments at which the threads take turns, and leave their inputs unchanged (stabilize_ST, which works in place, is called on arrays of its own).",
    ["schedules"], "every pair of calls, every interleaving up to a bound on the number of switches",
    "Tests are sequential; a work space, memo or dict shared by all calls is wrong only for an interleaving that no test produces on demand.",
    ["surface/omega.py", "surface/isopycnal.py", "mixed_layer.py", "traj.py", "label.py", "ntp.py", "stability.py", "lib.py", "eos/tools.py", "ppinterp/tools.py", "ppinterp/pchip.py", "grid/rectilinear.py", "grid/tripolar.py", "grid/xgcm.py", "grid/graph.py", "synthocean.py"],
    [("caches of made functions", "eos/tools.py"), ("solution of a surface", "surface/omega.py"), ("errors on edges", "ntp.py")], ["values returned by, and inputs of, both calls"],
    "Stateless exploration of the implementation: real threads under a scheduler that switches between them at chosen lines, all schedules with one and two preemptions; oracle: the serial execution.",
)
prop(
    "C32", "A call that fails or is interrupted leaves nothing behind",
    "Wherever a call is interrupted (by the keyboard, lack of memory, a floating-point error) or refuses its input, its input arrays, grid and other arguments are to the bit as before (but for the casts that stabilize_ST works on in place), the state of the process - "
    "error handling, random numbers, warnings, output, working directory, files, environment - is as before, and the call repeated and every other call give what they would have given; calls that succeed leave the process as it was, too.",
    ["crash_points", "histories"], "every call, every line at which it can fail, every kind of failure, every later call",
    "Tests let calls succeed; state set for the duration of a call, or a cache filled in two steps, is left wrong only by a failure at the line in between.",
    ["surface/omega.py", "surface/isopycnal.py", "mixed_layer.py", "traj.py", "label.py", "ntp.py", "stability.py", "lib.py", "eos/tools.py", "ppinterp/tools.py", "ppinterp/pchip.py", "grid/rectilinear.py", "grid/tripolar.py", "grid/xgcm.py", "grid/graph.py", "synthocean.py"],
    [("caches of made functions", "eos/tools.py"), ("interpolation without warnings", "ppinterp/pchip.py"), ("solution of a surface", "surface/omega.py")], ["inputs and process state after the failure, values of later calls"],
    "Exhaustive fault injection: a failure raised at every executed line of every call (and at every pair of lines for short calls), then invariants and the reference results of later calls.",
)


def main():
    have = [p for p in PROPS if os.path.exists(os.path.join(VERIF, "mc/checks/%s.py" % p["id"].lower()))]
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as fh:
        for p in have:
            fh.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
    man = dict(
        version=1,
        setup_cmd="/opt/venv/bin/python -c 'import numpy, numba, scipy, xarray; print(1)'",
        checks=[dict(
            property=p["id"],
            quick_cmd="/opt/venv/bin/python mc/run.py %s quick" % p["id"],
            thorough_cmd="/opt/venv/bin/python mc/run.py %s thorough" % p["id"],
            technique=p["_technique"], level="model_checking",
            level_note=p["_note"] + "  Bounds are in the evidence; floating-point comparisons use stated tolerances; the oracle is trusted.",
        ) for p in have],
        not_applicable=[],
    )
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as fh:
        json.dump(man, fh, indent=1)
        fh.write("\n")
    print(len(have), "claimed")


if __name__ == "__main__":
    main()
