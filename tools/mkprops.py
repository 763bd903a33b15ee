"""Regenerates /verif/properties.jsonl (kept as a script only because JSON lines are unpleasant to edit)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    assert len(title)<=80,(title,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
G="pygsp/graphs/graph.py"; F="pygsp/graphs/fourier.py"; DI="pygsp/graphs/difference.py"; FI="pygsp/filters/filter.py"; AP="pygsp/filters/approximations.py"; U="pygsp/utils.py"; L="pygsp/learning.py"; R="pygsp/reduction.py"; IO="pygsp/graphs/_io.py"

p("C01","Graph Laplacians equal their mathematical definition",
"For every weighted graph, the combinatorial Laplacian is the diagonal of weighted degrees minus the weights (the average of the two directions for a directed graph), so it is symmetric and every row sums to zero. For non-negative weights the normalized Laplacian is the identity minus the weights divided by the square roots of both endpoint degrees, with an all-zero row and column for every vertex of degree zero. Neither depends on whether the adjacency was given dense or sparse, nor on which Laplacian was computed before.",
["inputs","histories"],"all adjacency matrices (any size, weights, self-loops, directed or not, dense or sparse, isolated vertices) and all sequences of Laplacian recomputations",
"tests compare a handful of fixed graphs with a reference; the identity must hold for every weight matrix and size, including isolated vertices, self-loops and directed weights together",
[G,U],[("Graph.compute_laplacian",G+":compute_laplacian"),("weighted degree",G+":dw"),("symmetrize average",U+":symmetrize")],["G.L"])
p("C02","Differential operator factorises the Laplacian",
"For every graph with non-negative weights and either Laplacian type, the differential operator has one column per edge and its product with its own transpose is the Laplacian, for undirected and directed graphs and in the presence of self-loops and isolated vertices. The gradient is the transpose of the divergence, and the Dirichlet energy of any signal is its Laplacian quadratic form, which equals the squared norm of its gradient and is never negative.",
["inputs"],"all graphs with non-negative weights (directed or not, self-loops, isolated vertices), both Laplacian types, all vertex and edge signals",
"tests check three named graphs; the identity is over all weights, edge orders and sizes",
[DI,G],[("compute_differential_operator",DI+":compute_differential_operator"),("grad",DI+":grad"),("div",DI+":div"),("dirichlet_energy",G+":dirichlet_energy"),("edge list",G+":get_edge_list")],["G.D","G.grad","G.div","G.dirichlet_energy"])
p("C03","Edge list and edge count describe exactly the non-zero weights",
"The edge list of any graph contains each edge exactly once with its weight: every ordered pair with a non-zero weight for a directed graph, every unordered pair (self-loops included) for an undirected one, and nothing else. The number of edges reported by the graph is the length of that list, and explicitly stored zeros are not edges.",
["inputs"],"all square adjacency matrices, including self-loops, explicitly stored zeros, negative weights and empty graphs",
"tests check counts on a few graphs; the bijection between edges and non-zero weights quantifies over all sparsity patterns",
[G],[("get_edge_list",G+":get_edge_list"),("edge counting in the constructor",G+":__init__")],["G.get_edge_list()","G.n_edges"])
p("C04","Degrees count and weigh the incident edges",
"For every graph the degree of a vertex is the number of its non-zero adjacency entries and its weighted degree is the sum of those entries; for a directed graph each is the mean of the in- and out- value. Explicitly stored zeros never count.",
["inputs"],"all square adjacency matrices, directed or not, with self-loops, explicit zeros, isolated vertices",
"tests check one path graph; the statement is over all matrices",
[G],[("degree",G+":d"),("weighted degree",G+":dw")],["G.d","G.dw"])
p("C05","Graph predicates agree with their mathematical definitions",
"A graph is reported directed exactly when its weight matrix is not symmetric, weighted exactly when some edge weight differs from one, to have loops exactly when some vertex has a non-zero self-weight, and connected exactly when every vertex can be reached from every other along edges (respecting direction if it is directed). The answers do not depend on the order in which the questions are asked.",
["inputs","histories"],"all graphs on any number of vertices and all interleavings of the queries",
"tests sample a few tiny graphs; reachability in particular is a fixpoint over every topology",
[G],[("is_directed",G+":is_directed"),("is_weighted",G+":is_weighted"),("has_loops",G+":has_loops"),("is_connected",G+":is_connected")],["is_directed()","is_weighted()","has_loops()","is_connected()"])
p("C06","The estimated largest eigenvalue bounds the spectrum and never goes stale",
"For every undirected graph with non-negative weights and either Laplacian type, the eigenvalue upper bound is at least the largest Laplacian eigenvalue, and after a successful estimation by bounds the reported largest eigenvalue is that bound. After any sequence of Laplacian changes, estimations and Fourier computations (including ones that raise), the reported largest eigenvalue and Fourier basis belong to the current Laplacian and are never missing, and an unknown method is always rejected.",
["inputs","histories"],"all undirected non-negative graphs with at least one edge between two distinct vertices, and all finite sequences of Laplacian recomputation, estimation and Fourier-basis calls with valid or invalid arguments",
"tests call each method once on fresh graphs; staleness needs particular histories, and the bound is an inequality over every weight matrix",
[G,F],[("estimate_lmax",G+":estimate_lmax"),("_get_upper_bound",G+":_get_upper_bound"),("cache reset",G+":compute_laplacian"),("compute_fourier_basis",F+":compute_fourier_basis")],["G.lmax","G.e","G.U"],[("lmax cache","estimate and the method it came from",G+":estimate_lmax")])
p("C07","The graph Fourier transform is an orthonormal, energy-preserving inverse pair",
"For every undirected graph with non-negative weights the full Fourier basis consists of orthonormal eigenvectors of the current Laplacian with non-decreasing eigenvalues starting at zero, and the largest one is recorded as the largest eigenvalue. The forward and inverse transforms are mutually inverse and preserve inner products for signals of any number of trailing dimensions, and the coherence is the largest absolute entry of the basis.",
["inputs","histories"],"all undirected graphs with non-negative weights, all signals of shape vertices x anything, all orders of basis computations (partial, full)",
"tests check two graphs; orthogonality and inversion quantify over all graphs and signal shapes",
[F],[("compute_fourier_basis",F+":compute_fourier_basis"),("gft",F+":gft"),("igft",F+":igft")],["G.e","G.U","G.gft","G.igft","G.coherence"])
p("C08","Exact filtering applies each kernel to the Laplacian spectrum",
"With the exact method, analysing a signal with a filter bank returns for each kernel g the signal multiplied by U g(Lambda) U^T, and synthesising returns the sum over kernels of that product applied to each feature; the two are adjoint. The result keeps vertices, then signals, then features in that order with singleton dimensions dropped, whatever the number of vertices, signals and filters.",
["inputs","configurations"],"all graphs, all filter banks, all signal shapes (one or several signals, one or several features)",
"tests fix N, number of signals and filters; mixing up axes is invisible when two of those sizes coincide or equal one",
[FI,F],[("Filter.filter exact branch",FI+":filter"),("evaluate",FI+":evaluate"),("gft/igft",F+":gft")],["Filter.filter(method='exact')","Filter.analyze","Filter.synthesize"])
p("C09","Chebyshev filtering evaluates the Chebyshev expansion of the kernels",
"For every order of at least one, the Chebyshev coefficients of a kernel are those of its interpolation at the Chebyshev nodes of [0, lmax], and the Chebyshev operator applied to a signal is half the first coefficient plus the sum of the remaining coefficients times the Chebyshev polynomials of the rescaled Laplacian. Consequently Chebyshev filtering equals exact filtering, for analysis and synthesis alike, whenever every kernel is a polynomial of degree at most the order.",
["inputs","configurations"],"all graphs, kernels, orders >= 1, numbers of filters and signals",
"tests compare at the default order within a tolerance on smooth kernels; a wrong recurrence term or block offset at another order or size stays inside that tolerance or is never executed",
[AP,FI,U],[("compute_cheby_coeff",AP+":compute_cheby_coeff"),("cheby_op",AP+":cheby_op"),("chebyshev branch",FI+":filter"),("filterbank_handler",U+":filterbank_handler")],["compute_cheby_coeff","cheby_op","Filter.filter(method='chebyshev')"])
p("C10","Filter-bank algebra: evaluation, indexing, union, complement and frame bounds",
"Evaluating a filter bank stacks each kernel's values along a new first axis in order; indexing selects kernels and adding two banks concatenates them on the first bank's graph. Adding the complement of a bank makes the sum of squared kernels constant and equal to the chosen bound, a bound that is too small is rejected, and the estimated frame bounds are the minimum and maximum over the evaluation points of the sum of squared kernels. Synthesis with the inverse of a bank undoes analysis with that bank wherever the bank does not vanish on the spectrum.",
["inputs","configurations"],"all kernels, numbers of filters, evaluation arrays of any shape, frame bounds",
"tests use a few named banks; the identities hold pointwise for arbitrary kernels and shapes",
[FI],[("evaluate",FI+":evaluate"),("__getitem__/__add__",FI+":__add__"),("complement",FI+":complement"),("inverse",FI+":inverse"),("estimate_frame_bounds",FI+":estimate_frame_bounds")],["Filter.evaluate","Filter.__getitem__","Filter.__add__","Filter.complement","Filter.inverse","Filter.estimate_frame_bounds"])
p("C11","Designs documented as tight frames are tight on the whole spectrum",
"For the Held, Simoncelli, Papadakis, Regular, Itersine, Meyer, SimpleTight and HalfCosine designs with their default overlaps and scales, the sum of the squared kernels is the same constant at every point of [0, lmax]: one, except 1.125 for HalfCosine. This holds for every graph, every number of filters the design accepts and every shape parameter in its documented range.",
["inputs","configurations"],"all graphs (any lmax > 0), all spectral points in [0, lmax], all numbers of filters and shape parameters",
"tests evaluate bounds on sampled points of one graph for one or two parameters; the identity is over a continuum",
["pygsp/filters/held.py","pygsp/filters/simoncelli.py","pygsp/filters/papadakis.py","pygsp/filters/regular.py","pygsp/filters/itersine.py","pygsp/filters/meyer.py","pygsp/filters/simpletight.py","pygsp/filters/halfcosine.py",FI],
[("kernels","pygsp/filters/*.py:__init__"),("complement",FI+":complement")],["Filter.evaluate","Filter.estimate_frame_bounds"])
p("C12","Symmetrization produces the documented symmetric matrix, dense or sparse",
"Symmetrizing a square matrix gives a symmetric matrix whose entries are, per method: the mean of the two mirrored entries (average); their maximum (maximum); for non-negative entries, the mean after each missing direction is filled in from the other (fill); and, for non-negative entries, the mirrored lower or upper triangle (tril, triu). Dense and sparse inputs give the same values, the input is left unmodified, and non-square input or an unknown method is rejected.",
["inputs","configurations"],"all square matrices (any size and sign where stated), all five methods, dense and sparse storage",
"tests use one small random matrix per method",
[U],[("symmetrize",U+":symmetrize")],["utils.symmetrize"])
p("C13","Kron reduction is the Schur complement on the kept vertices",
"Reducing a Laplacian matrix onto a set of kept vertices returns the Schur complement of the eliminated block, with rows and columns in the order the vertices were given. Reducing an undirected loop-free graph returns a graph on exactly the kept vertices, with their coordinates, symmetric weights, no self-loops, and whose Laplacian is that Schur complement; normalized or directed graphs are rejected.",
["inputs"],"all undirected connected graphs or Laplacian matrices and all non-trivial vertex subsets in any order",
"there is no numerical test of the reduction at all; the identity is over every graph and subset",
[R],[("kron_reduction",R+":kron_reduction")],["reduction.kron_reduction"])
p("C14","Pyramid decomposition can be inverted exactly",
"Analysing a signal with a graph pyramid and synthesising from the coarsest approximation and all prediction errors with the same interpolation parameters returns the original signal at every level, for any number of levels, any low-pass filters and any multiresolution. Each coarser approximation is the low-pass filtered finer one restricted to the kept vertices, and each prediction error is the finer approximation minus its interpolation from the coarser one.",
["inputs","configurations"],"all multiresolution sequences, numbers of levels, filters and signals (one or several)",
"the pyramid is not tested numerically anywhere; reconstruction is an induction over levels",
[R],[("pyramid_analysis",R+":pyramid_analysis"),("pyramid_synthesis",R+":pyramid_synthesis"),("interpolate",R+":interpolate")],["reduction.pyramid_analysis","reduction.pyramid_synthesis"])
p("C15","Tikhonov learning solves the stated optimisation problem",
"With a positive regularisation the regression returns the solution of (mask + tau L) x = mask * y for each column; with zero regularisation it returns the observed values unchanged where they are observed and zero Laplacian at every unobserved vertex. Classification does the same on one-hot labels built from the observed labels only, so values at unobserved vertices never influence any result, and the caller's arrays are not modified.",
["inputs"],"all connected graphs, non-empty masks, signals of one or several columns, regularisation values",
"tests check a fixed sensor graph; the equations quantify over every graph, mask and signal",
[L],[("regression_tikhonov",L+":regression_tikhonov"),("classification_tikhonov",L+":classification_tikhonov"),("_to_logits",L+":_to_logits")],["learning.regression_tikhonov","learning.classification_tikhonov"])
p("C16","Simplex-constrained classification always returns probability vectors",
"Every row returned by the simplex-constrained classifier is non-negative and sums to one, whatever the graph, labels, mask, number of classes and iterations. The projection it uses maps each row to the closest point of the probability simplex, and it rejects a non-positive regularisation.",
["inputs"],"all graphs, labels, masks, class counts >= 2, regularisations, iteration counts",
"tests check sums on one graph; the bisection in the projection has index cases that particular orderings and ties of values reach",
[L],[("classification_tikhonov_simplex",L+":classification_tikhonov_simplex")],["learning.classification_tikhonov_simplex"])
p("C17","Subgraphs and connected components preserve weights, coordinates and signals",
"The subgraph on any list of vertices has, in that order, exactly the weights between them, their coordinates, their signal values and the same Laplacian type. Extracting the components of an undirected graph returns graphs that are each connected, pairwise without edges between them, and whose recorded original indices partition the vertex set.",
["inputs"],"all graphs, all vertex selections in any order, all signals",
"tests check one graph with two components; the partition is over every topology",
[G],[("subgraph",G+":subgraph"),("extract_components",G+":extract_components")],["G.subgraph","G.extract_components"])
p("C18","Import and export round-trip graphs and signals without loss",
"Exporting a graph to NetworkX and importing it again, or saving to and loading from any supported file format, gives a graph with the same vertices in the same order, the same edges, weights and direction, and the same vertex signals, including two-dimensional ones with any number of columns, in order (a single column comes back one-dimensional). Exporting leaves the exported graph unchanged, and an unsupported format or backend is rejected.",
["inputs","histories"],"all graphs (directed or not, weighted, self-loops) and all sets of real one- and two-dimensional signals whose names the format can hold and do not end in an underscore and a number (the name of an exported column)",
"tests use a few small graphs with at most a few signal components",
[IO],[("to_networkx",IO+":to_networkx"),("from_networkx",IO+":from_networkx"),("signal splitting",IO+":_break_signals"),("signal joining",IO+":_join_signals"),("save/load",IO+":save")],["to_networkx","from_networkx","save","load"])
p("C19","Deterministic graph families have exactly their textbook adjacency",
"For every admissible parameter, the ring with k neighbours, path (directed or not), comet, star, fully connected graph, two-dimensional grid (with optional diagonals) and torus (at least three by three) have exactly the unit weights (given, positive weights on the diagonals of a grid) of their textbook definition and no other entry, and out-of-range parameters are rejected. In particular all but the directed path are symmetric, and none has a self-loop.",
["configurations","inputs"],"all sizes and neighbour counts the constructors accept",
"tests build each family at one or two sizes; index arithmetic errors show only at boundary sizes",
["pygsp/graphs/ring.py","pygsp/graphs/path.py","pygsp/graphs/comet.py","pygsp/graphs/star.py","pygsp/graphs/fullconnected.py","pygsp/graphs/grid2d.py","pygsp/graphs/torus.py"],
[("constructors","pygsp/graphs/{ring,path,comet,star,fullconnected,grid2d,torus}.py:__init__")],["G.W"])
p("C20","Analysis never alters the graph or the caller's arrays",
"Laplacian, Fourier, differential, edge-list, filtering, learning, reduction and subgraph operations never change the graph's weights, its coordinates or its signals, nor any array passed by the caller, and the weights of a graph cannot be reassigned. Repeating a query gives the same answer.",
["histories","inputs"],"all graphs, signals and sequences of public read-only operations",
"tests never compare inputs before and after; aliasing bugs need a particular follow-up use to be seen",
[G,F,DI,FI,AP,L,R,U],[("read-only operations",G),("W setter",G+":W")],["G.W","G.coords","G.signals","arguments"])
p("C21","Frame matrix and localisation agree with filtering",
"The frame matrix of a filter bank stacks, filter by filter, the transposed response to every unit impulse, so that multiplying it with a signal equals analysing the signal; localising a kernel at a vertex is the filtered unit impulse times the square root of the number of vertices. For exact filtering, the energy of the analysis coefficients lies between the frame bounds taken over the eigenvalues times the signal energy.",
["inputs","configurations"],"all graphs, filter banks, numbers of filters and vertices",
"tests check one graph; axis mix-ups vanish for one filter or symmetric responses",
[FI],[("compute_frame",FI+":compute_frame"),("localize",FI+":localize"),("estimate_frame_bounds",FI+":estimate_frame_bounds")],["Filter.compute_frame","Filter.localize"])
p("C22","Named kernels compute their documented formulas",
"At every point of [0, lmax] the heat kernels are exp(-scale x / lmax) divided by their norm over the eigenvalues when requested, wave kernels are cos(time arccos(1 - speed^2 x / (2 lmax))), the rectangular window is the indicator of its band and the exponential window lies in [0, 1] and, when it has a single band edge, equals one half there, and the Mexican-hat bank consists of its low-pass and scaled x exp(-x) kernels. The number of filters equals the number of scales or times requested.",
["inputs","configurations"],"all graphs, spectral points, scales, times, speeds and bands",
"tests evaluate a few parameter values; the formulas hold over a continuum of points and parameters, and late-bound loop variables only show with several kernels",
["pygsp/filters/heat.py","pygsp/filters/wave.py","pygsp/filters/rectangular.py","pygsp/filters/expwin.py","pygsp/filters/mexicanhat.py"],[("kernels","pygsp/filters/{heat,wave,rectangular,expwin,mexicanhat}.py:__init__")],["Filter.evaluate"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
