"""Single source for properties.jsonl and MANIFEST.json:  python3 tools/props.py"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=(), technique=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=' '.join(statement.split()), over=over, text=text, why=why,
                  files=files, mech=mech, observe=list(observe), technique=technique, note=note, na=na))


G = 'pygsp/graphs/graph.py'
EXH = 'bounded-exhaustive explicit-state exploration of the real code against a reference model'
HIS = 'explicit-state BFS over operation histories on the real objects, differential oracle'
RNG = 'stateless exploration of every random outcome through a controlled generator'

prop('P01', 'A graph reports exactly what its weight matrix says',
     '''For every square non-negative weight matrix, in every dense or sparse container and numeric type, a graph reports the same
     weights, vertex and edge counts, binary adjacency, degrees, weighted degrees, edge list and directed / weighted /
     self-loop / connected answers, all equal to their definition on that matrix, the first time and every later time they are read.
     Matrices that are not square or contain NaN or infinity anywhere are rejected.''',
     ['inputs', 'configurations'],
     'all small weight matrices (directed, looped, weighted, disconnected) x containers x dtypes x bad-value positions',
     'tests build a handful of graphs from one or two containers; the guarantee is over every matrix, container and dtype',
     [G], [dict(name='Graph.__init__ / properties W, A, d, dw', where=G), dict(name='get_edge_list, is_connected, is_directed', where=G)],
     ['Graph.W', 'Graph.A', 'Graph.d', 'Graph.dw', 'Graph.get_edge_list()', 'Graph.n_edges'], EXH,
     'All weight matrices of the stated bounds, all containers/dtypes; exact comparison. Larger graphs only by named instances.')
prop('P02', 'The Laplacian is the documented function of the weights',
     '''For every non-negative weight matrix the combinatorial Laplacian is D - W and the normalized one is I - D^-1/2 W D^-1/2, built from the
     average of the matrix and its transpose when the graph is directed, with zero rows for vertices of degree zero,
     whether chosen at construction or by recomputing it later. It is symmetric, positive semidefinite, blind to edge orientation,
     equivariant under vertex relabelling, and the combinatorial one is blind to self-loops.''',
     ['inputs', 'configurations'], 'all small weight matrices, both Laplacian types, all relabellings, extreme weight ratios',
     'tests check a few graphs; the definition must hold for every weight pattern incl. isolated vertices and loops',
     [G, 'pygsp/utils.py'], [dict(name='compute_laplacian', where=G), dict(name='symmetrize', where='pygsp/utils.py')],
     ['Graph.L'], EXH, 'All matrices in bounds, compared entrywise (1e-12) with a plain triple-loop definition.')
prop('P03', 'Gradient, divergence and Dirichlet energy agree edge by edge',
     '''For every non-negative weight matrix and both Laplacians, the differential operator has one column per edge in edge-list order and satisfies
     L = D D^T; the gradient of any signal is the documented weighted difference on every edge, the divergence is its adjoint, and div(grad(x)) = L x.
     The Dirichlet energy of any signal equals x^T L x, the squared norm of its gradient and the documented sum over edges; wrongly sized signals are rejected.''',
     ['inputs'], 'all small weight matrices x both Laplacians x complete small signal alphabets',
     'tests use one sensor graph and random signals',
     ['pygsp/graphs/difference.py', G], [dict(name='compute_differential_operator, grad, div', where='pygsp/graphs/difference.py'),
                                          dict(name='dirichlet_energy', where=G)],
     ['Graph.D', 'Graph.grad()', 'Graph.div()', 'Graph.dirichlet_energy()'], EXH,
     'Complete signal alphabets on all matrices in bounds; by linearity a basis of signals decides all signals.')
prop('P04', 'The Fourier basis diagonalizes the Laplacian; the GFT is unitary',
     '''For every graph and both Laplacians, the eigenvalues are non-negative, ascending, start at zero and are the spectrum of L with multiplicity, the eigenvectors are
     orthonormal with L = U diag(e) U*, and the coherence is the largest absolute entry of the full basis.
     A partial basis of any size holds exact lowest-frequency eigenpairs and can be extended to a larger or full one later; the graph Fourier
     transform and its inverse undo each other on the full basis, preserve energy and keep the shape of multi-signal arrays.''',
     ['inputs', 'histories'], 'all small weight matrices (degenerate and disconnected included), all partial sizes, all orders of partial/full requests',
     'tests check one or two graphs without repeated eigenvalues and one partial size',
     ['pygsp/graphs/fourier.py'], [dict(name='compute_fourier_basis, gft, igft', where='pygsp/graphs/fourier.py')],
     ['Graph.e', 'Graph.U', 'Graph.coherence', 'Graph.gft()', 'Graph.igft()'], EXH,
     'All matrices in bounds; comparison is invariant to the choice of basis in eigenspaces. ARPACK starts from one fixed vector; partial bases need an edge.')
prop('P05', 'The largest eigenvalue in use never falls below the true one',
     '''On every graph with at least one edge, whichever estimation method is asked for (Lanczos, algebraic bounds, full eigendecomposition, or the implicit default) and in whatever order estimations,
     eigendecompositions and Laplacian changes happen, the reported largest eigenvalue is a finite number not below the true one of the current Laplacian.
     The Lanczos value stays within about one percent above it, the bound never exceeds twice the maximum weighted degree nor N times the largest weight (exactly 2 when normalized), and the decomposition gives it exactly.''',
     ['inputs', 'histories'], 'all small graphs, both Laplacians, all sequences of estimation calls to depth 3-4, an alphabet of eigensolver starting vectors',
     'tests compare methods on one graph; order of calls, scale of weights and degenerate graphs are not explored',
     [G, 'pygsp/graphs/fourier.py'], [dict(name='estimate_lmax, lmax, _get_upper_bound', where=G)], ['Graph.lmax'], HIS,
     'Exhaustive on the bounds; for N>10 the Lanczos margin depends on the starting vector (known finding).')
prop('P06', 'Answers do not depend on the call history',
     '''Whatever sequence of computations, estimations, Laplacian changes and reads was performed before, on this graph or on any other graph, every quantity a graph returns
     (Laplacian, spectrum, transforms, gradients, energies, filtered signals, degrees, connectivity, attached signals) is the one a fresh graph
     with the same weights and the current Laplacian type gives.''',
     ['histories'], 'every reachable cache state of several graphs under 15 operations; all interleavings on two graphs',
     'tests exercise one or two fixed call orders; stale caches need a specific order',
     [G, 'pygsp/graphs/fourier.py', 'pygsp/graphs/difference.py'],
     [dict(name='lazy caches and their invalidation in compute_laplacian', where=G)], ['all public Graph attributes'], HIS,
     'Closure of the reachable object states (not depth-limited) for the listed graphs and operations.')
prop('P07', 'A failed call leaves the graph as it was and still usable',
     '''When a call on a graph fails - unknown Laplacian or estimation method, wrongly sized signal or coordinates, unknown layout, out-of-range vertex, unknown file format or backend,
     attempt to replace the weights, or an eigensolver that does not converge - an error is raised and every quantity the graph reported before is unchanged,
     and the same valid calls succeed afterwards as if the failure had not happened.''',
     ['fault_sequences', 'histories'], 'every fault of a 30-entry alphabet in every state reachable by up to 3-4 operations, and pairs of faults',
     'tests check that some errors are raised, never the state afterwards',
     [G, 'pygsp/graphs/fourier.py', 'pygsp/graphs/_layout.py'], [dict(name='argument checks; cache updates after success', where=G)],
     ['all public Graph attributes'], 'exhaustive fault injection over reachable states of the real objects',
     'Every fault in every state within the bounds; convergence failures injected at the eigensolver seam.')

F = 'pygsp/filters/filter.py'
AP = 'pygsp/filters/approximations.py'
IO = 'pygsp/graphs/_io.py'
LE = 'pygsp/learning.py'

prop('P08', 'Filtering applies g(L): analysis, synthesis, frame and localization',
     '''Filtering with the full Fourier basis equals g(L) x for every kernel, bank size and admissible signal shape: a signal given to a bank of several filters yields
     one output per filter, as many features as filters yield their synthesis (the sum of the filtered features), and shapes that fit neither are rejected. It is linear, analysis and synthesis are adjoint,
     the frame stacks the g_i(L) filter by filter, and localizing at a vertex gives sqrt(N) g(L) delta.''',
     ['inputs', 'configurations'], 'all small graphs x both Laplacians x bank sizes 1, 2, 3, N x all admissible shapes x a basis of signals',
     'tests filter one graph with a few shapes; N equal to the number of filters or signals is where shapes become ambiguous',
     [F], [dict(name='filter, analyze, synthesize, localize, compute_frame', where=F)],
     ['Filter.filter()', 'Filter.compute_frame()', 'Filter.localize()'], EXH,
     'A complete basis of signals decides all signals by linearity (checked). Kernels are six fixed functions.')
prop('P09', 'Polynomial filtering agrees with g(L) and is exact for polynomials',
     '''On every graph with an edge, Chebyshev filtering of order m equals g(L) x exactly for polynomial kernels of degree at most m and, for smooth kernels, errs no more than a small multiple of
     the polynomial approximation error on [0, lmax], for every bank, shape and way of estimating lmax; the coefficients are the documented cosine integrals and the rectangular and Jackson-damped
     bands are the documented polynomials. The Lanczos operator equals g(L) x once its order reaches the Krylov dimension; no argument is modified.''',
     ['inputs', 'configurations'], 'all small graphs x both Laplacians x orders x degrees x coefficient vectors x signal shapes',
     'tests compare with a loose tolerance on one graph at one order',
     [AP, F], [dict(name='compute_cheby_coeff, cheby_op, cheby_rect, compute_jackson_cheby_coeff, lanczos_op', where=AP)],
     ['Filter.filter(method="chebyshev")', 'filters.cheby_op', 'filters.lanczos_op'], EXH,
     'Exact comparison for polynomial kernels; smooth kernels against the error of our own Chebyshev fit.')
prop('P10', 'Frame bounds, tight designs, complements and inverses hold as stated',
     '''On every graph with an edge, the tight designs (Itersine, Meyer, SimpleTight, HalfCosine, Held, Papadakis, Simoncelli, Regular) have constant summed squared response on [0, lmax], so analysis
     preserves energy up to that constant and synthesis reconstructs. Frame bounds evaluated on the spectrum are the extreme eigenvalues of the frame operator, the complement makes any bank tight at the requested bound, and
     the inverse bank is the pseudo-inverse of the analysis operator.''',
     ['inputs', 'configurations'], 'all tight designs x parameters x small graphs x Laplacians x lmax estimates; all banks of up to three of six kernels',
     'tests check one graph with default parameters; tightness depends on lmax and on every scale',
     [F, 'pygsp/filters/'], [dict(name='estimate_frame_bounds, complement, inverse', where=F)],
     ['Filter.estimate_frame_bounds()', 'Filter.complement()', 'Filter.inverse()'], EXH,
     'All designs and parameter grids in bounds; tightness is read on a 200-point grid and on the spectrum.')
prop('P11', 'Designed kernels follow their formulas; filter banks compose and index',
     '''Every filter design evaluates, at any frequency and for any scalar, list or array of parameters it documents, to its published formula for the lmax and spectrum of its graph; Gabor and modulation banks have one filter per
     Fourier mode, translated or modulated to it. Indexing, slicing, iterating, concatenating and transferring banks to another graph give exactly the corresponding kernels, in order, on the stated graph and leave the operands unchanged.''',
     ['inputs', 'configurations', 'histories'], '14 designs x parameter grids x containers x graphs; all bank expressions to depth 3-4',
     'tests instantiate each design once and compare nothing but tightness',
     ['pygsp/filters/'], [dict(name='design constructors', where='pygsp/filters/'), dict(name='__add__, __getitem__, toarray, __matmul__', where=F)],
     ['Filter.evaluate()', 'Filter.__getitem__', 'Filter.__add__'], EXH,
     'Formulas re-implemented as scalar functions; compared on the spectrum, on grids and on several containers.')
prop('P12', 'Tikhonov regression and classification return the minimizer',
     '''For every graph, mask and set of measurements, Tikhonov regression returns the minimizer of ||M x - y||^2 + tau x^T L x, and with tau = 0 the exact interpolation of the observed values of minimal Dirichlet energy; integer measurements, several
     signals at once and unobserved placeholder values do not affect the result, and the arguments are not modified. Tikhonov classification is that regression applied to the class indicators, one column per class.''',
     ['inputs', 'configurations'], 'all small graphs x all masks x a basis of measurements x tau values; every labelling with at most three classes',
     'tests use one random mask on one graph',
     [LE], [dict(name='regression_tikhonov, classification_tikhonov', where=LE)],
     ['learning.regression_tikhonov', 'learning.classification_tikhonov'], EXH,
     'tau > 0 is solved iteratively upstream: optimality is required to a relative residual of 1e-4.')
prop('P13', 'Simplex classification returns feasible, optimal class probabilities',
     '''On every graph with an edge, for every mask and labelling, simplex-constrained Tikhonov classification returns one row per vertex of non-negative numbers summing to one,
     and, when the solver runs to convergence, the minimizer of ||M X - Y||^2 + tau tr(X^T L X) over such rows. The labels are not modified.''',
     ['inputs', 'configurations'], 'all small graphs x masks x labellings with two or three classes x tau values',
     'tests check one graph and one random mask',
     [LE], [dict(name='classification_tikhonov_simplex', where=LE)], ['learning.classification_tikhonov_simplex'], EXH,
     'Optimality certificate: the projected gradient step moves by at most 2e-3 at solver tolerance 1e-12.')
prop('P14', 'NetworkX and graph-tool exchange keeps graph, weights and signals',
     '''Exporting any graph to NetworkX or graph-tool yields exactly its vertices (isolated ones included), edges, weights, direction, self-loops and signals, whatever their numeric type, leaves the graph itself unchanged, and importing the result gives
     back the same weights, direction and signals, multi-dimensional ones joined in order. Importing any external graph sums parallel edges, takes the chosen attribute as weight (1 where it is absent)
     and attaches every numeric vertex attribute as a signal in vertex order, NaN where absent.''',
     ['inputs', 'configurations', 'histories'], 'all small graphs x both backends x numeric types x signal sets; all external multigraphs with up to 4-5 edges; all patterns of missing attributes',
     'tests use one or two graphs per backend with fully populated attributes',
     [IO], [dict(name='to_networkx, to_graphtool, from_networkx, from_graphtool, _break_signals, _join_signals', where=IO)],
     ['Graph.to_networkx()', 'Graph.from_networkx()', 'Graph.to_graphtool()', 'Graph.from_graphtool()'], EXH,
     'Exact comparison; two round trips. Signals 1-D or with at least two columns.')
prop('P15', 'A graph saved to a file and loaded back is the same graph',
     '''Saving any graph and loading it with the same backend, in every format the backend writes (GraphML, GML, GEXF), gives back the same vertices, weights, direction, self-loops and
     signals in the same order, whatever their numeric type, whatever was in the file before, and leaves the saved graph and its signals unchanged. Repeating save and load never
     drifts, and unknown formats or backends are rejected without writing. (GML written by graph-tool keeps six digits.)''',
     ['inputs', 'configurations', 'histories'], 'all small graphs x formats x backends x numeric types x signal sets x extreme weights, all short sequences of saves and loads',
     'tests round-trip one or two graphs per format',
     [IO], [dict(name='IOMixIn.save, IOMixIn.load', where=IO)], ['Graph.save()', 'Graph.load()'], EXH,
     'Exact comparison (relative 1e-5 for GML through graph-tool). Signals 1-D or with at least two columns.')
prop('P16', 'Subgraphs and components keep exactly the selected part of the graph',
     '''For every graph, whatever was computed on it before, and every selection of vertices (index list in any order or boolean indicator), the subgraph has exactly the selected vertices in that order, the weights among
     them, their coordinates and signals, and answers like a graph built from that weight matrix; the original graph is untouched. Extracting components
     partitions the vertices into the maximal connected sets, each a connected subgraph that records which original vertices it holds.''',
     ['inputs', 'histories'], 'all small graphs x all ordered selections and indicators, selections of selections, parents in all short histories',
     'tests extract one subgraph and one three-component graph',
     [G], [dict(name='subgraph, extract_components', where=G)], ['Graph.subgraph()', 'Graph.extract_components()'], EXH,
     'All selections of at least one vertex within bounds; directed graphs included for subgraph.')
prop('P17', 'Deterministic graph families equal their mathematical definition',
     '''For every valid size parameter, ring, path, comet, star, complete graph, 2-D grid, torus, low-stretch tree and the line graph of any given graph have exactly the vertices, edges, weights and
     direction of their definition, coordinates that place each vertex consistently with it, and the graph invariants that follow (degrees, connectivity, known spectrum).
     Invalid parameters are rejected, and the graphs shipped as data files load with their documented size.''',
     ['inputs', 'configurations'], 'all parameters up to the stated sizes, both Laplacians; line graphs of all small graphs',
     'tests build one instance of each family',
     ['pygsp/graphs/ring.py', 'pygsp/graphs/path.py', 'pygsp/graphs/grid2d.py', 'pygsp/graphs/torus.py', 'pygsp/graphs/linegraph.py', 'pygsp/graphs/lowstretchtree.py', 'pygsp/graphs/comet.py', 'pygsp/graphs/star.py', 'pygsp/graphs/fullconnected.py'],
     [dict(name='graph constructors', where='pygsp/graphs/')], ['Graph.W', 'Graph.coords'], EXH,
     'All parameters within bounds, exact comparison with an independent definition.')
prop('P18', 'Random graph families respect their model for every random outcome',
     '''For every outcome of the random generator: block-model and Erdos-Renyi graphs draw each admissible edge once with exactly the probability of its block pair (and are connected when asked, or fail after the allowed trials);
     Barabasi-Albert graphs attach each vertex to m distinct earlier ones with the documented preference; random regular graphs are simple and terminate; random rings follow their angles;
     community graphs put every vertex in its community with the requested edges. The caller's parameters are left unchanged.''',
     ['schedules', 'inputs'], 'every outcome sequence of the controlled generator, with exact probabilities, for all small parameters',
     'tests see one seed; the model speaks about all outcomes and their distribution',
     ['pygsp/graphs/stochasticblockmodel.py', 'pygsp/graphs/erdosrenyi.py', 'pygsp/graphs/barabasialbert.py', 'pygsp/graphs/randomregular.py', 'pygsp/graphs/randomring.py', 'pygsp/graphs/community.py'],
     [dict(name='graph constructors', where='pygsp/graphs/')], ['Graph.W'], RNG,
     'Uniform draws are discretised in cells aligned with the probabilities used; longer generators within a deviation bound of four base policies.')
prop('P19', 'Nearest-neighbor graphs connect exactly the nearest points',
     '''For every point cloud (repeated points included), distance, k or radius and symmetrization, each vertex is joined to its k nearest other points (or to all within the radius), never to itself, with weight exp(-d^2 / sigma),
     sigma defaulting to the mean neighbor distance, whichever search library is used; coordinates are the points centered and rescaled as asked, and the caller's points are unchanged.
     Sensor, cube, sphere, two-moons, swiss-roll and image-patch graphs place, for every random outcome, the requested number of points where they document and connect them accordingly.''',
     ['inputs', 'configurations', 'schedules'], 'all small point sets on a grid, ties and duplicates included x every option; all outcomes of the controlled generator within the deviation bound',
     'tests only construct the graphs without looking at them',
     ['pygsp/graphs/nngraphs/nngraph.py', 'pygsp/graphs/nngraphs/sensor.py', 'pygsp/graphs/nngraphs/cube.py', 'pygsp/graphs/nngraphs/sphere.py', 'pygsp/graphs/nngraphs/twomoons.py',
      'pygsp/graphs/nngraphs/imgpatches.py', 'pygsp/graphs/nngraphs/grid2dimgpatches.py', 'pygsp/graphs/swissroll.py', 'pygsp/graphs/davidsensornet.py'],
     [dict(name='NNGraph.__init__', where='pygsp/graphs/nngraphs/nngraph.py')], ['Graph.W', 'Graph.coords'], EXH,
     'Ties are free choices of the implementation. FLANN (approximate) may choose other neighbors, at their true distance.')
prop('P20', 'Kron reduction and resistance distances are exact',
     '''For every connected graph and every selection of kept vertices, the Kron-reduced graph (or matrix) has exactly the Schur complement of the Laplacian over the kept vertices, in their order, as its Laplacian, hence
     undirected non-negative weights, the same resistance distances between kept vertices, and the coordinates of the kept vertices; reducing in steps equals reducing at once.
     Resistance distances equal (e_i - e_j)^T pinv(L) (e_i - e_j), are a metric, and the caller's graph is untouched.''',
     ['inputs', 'histories'], 'all small weighted graphs x all ordered selections, plus two-step reductions',
     'the repository has no test of the reduction module',
     ['pygsp/reduction.py', 'pygsp/utils.py'], [dict(name='kron_reduction', where='pygsp/reduction.py'), dict(name='resistance_distance', where='pygsp/utils.py')],
     ['reduction.kron_reduction()', 'utils.resistance_distance()'], EXH, 'Combinatorial Laplacian; kept vertices meet every component.')
prop('P21', 'Spectral sparsification keeps edges of the graph with unbiased weights',
     '''For every random outcome, graph_sparsify returns an undirected graph (or Laplacian, if given one) on the same vertices, whose edges are edges of the original, each with weight w / (q p) times the number of times it was drawn,
     where p is proportional to weight times resistance distance and q is the documented number of draws, so that the expected graph is the original graph;
     a connected outcome is accepted, a disconnected one retried with a smaller epsilon at most maxiter times. Epsilon out of range is rejected and the original is unchanged.''',
     ['inputs', 'schedules'], 'all small connected graphs x outcomes of the controlled generator within a deviation bound; draw probabilities compared exactly',
     'the repository has no test of the reduction module, and a test sees one seed',
     ['pygsp/reduction.py'], [dict(name='graph_sparsify', where='pygsp/reduction.py')], ['reduction.graph_sparsify()'], RNG,
     'The draws are intercepted at scipy.stats.rv_discrete; the expectation is computed from the intercepted probabilities.')
prop('P22', 'Graph multiresolutions and the pyramid transform reconstruct perfectly',
     '''For every connected graph, number of levels and prior eigendecomposition, graph_multiresolution returns a chain in which each level keeps one polarity of the largest eigenvector of the level above, is its Kron reduction
     (or a sparsification of it), and records which original vertices it holds. The pyramid analysis of any signals gives filtered-and-downsampled approximations and prediction errors from the documented Green-kernel interpolation,
     and the synthesis recovers the signals exactly, whatever their number, shape, filters and filtering method, leaving graph and signals untouched.''',
     ['inputs', 'histories', 'schedules'], 'all small connected graphs x levels x prior computations x signal shapes x filter lists x methods; all basis signals',
     'the repository has no test of the reduction module',
     ['pygsp/reduction.py'], [dict(name='graph_multiresolution', where='pygsp/reduction.py'), dict(name='pyramid_analysis, pyramid_synthesis, interpolate', where='pygsp/reduction.py')],
     ['reduction.graph_multiresolution()', 'reduction.pyramid_analysis()', 'reduction.pyramid_synthesis()', 'reduction.interpolate()'], EXH,
     'Every level has at least two vertices. Least-squares synthesis and tree_multiresolution are known findings (they never worked).')
prop('P23', 'Seeded randomness is reproducible and keeps to itself',
     '''Every random construction of the package (graph families, coordinates, sparsification) given a seed returns bit for bit the same result whenever and wherever it is called: again, after any other call of the package,
     whatever the state of the global random generators, in another process, with the seed as a Python or numpy integer. No such call changes the state of the global generators,
     and different seeds give different results.''',
     ['histories', 'schedules', 'configurations'], 'all ordered pairs of seeded calls, seeds, states of the global generators, processes with different hash seeds',
     'tests draw each random graph once',
     ['pygsp/graphs/sensor.py', 'pygsp/graphs/community.py', 'pygsp/graphs/stochasticblockmodel.py', 'pygsp/reduction.py', G],
     [dict(name='random graph families', where='pygsp/graphs/'), dict(name='set_coordinates', where=G), dict(name='graph_sparsify', where='pygsp/reduction.py')],
     ['Graph.W', 'Graph.coords', 'numpy.random.get_state()'], HIS,
     'The order of calls, the global state and the process are enumerated; the seeds themselves are a fixed list.')
prop('P24', 'No call modifies its arguments; their layout in memory is irrelevant',
     '''No constructor, method or function of the package modifies an array, matrix, list, dictionary or graph it is given, so that the same arguments can be passed to any sequence of calls and read-only arrays are accepted.
     The result depends on the values of the arguments only: C or Fortran order, strides, views, byte order of signals and the format of sparse matrices make no difference.
     Every graph family takes the Laplacian type, and the options of one graph never leak into another.''',
     ['inputs', 'histories', 'configurations'], 'all calls of the API x memory forms of every array x states of the graph; all ordered pairs of calls that share one set of arguments',
     'tests pass fresh contiguous arrays and do not look at them afterwards',
     [G, 'pygsp/filters/filter.py', 'pygsp/reduction.py', 'pygsp/learning.py', 'pygsp/graphs/nngraphs/nngraph.py'],
     [dict(name='Graph.__init__', where=G), dict(name='Filter.filter', where='pygsp/filters/filter.py'), dict(name='NNGraph', where='pygsp/graphs/nngraphs/nngraph.py')],
     ['arguments after the call', 'results'], HIS,
     'A CSR adjacency and the arrays of signals may be shared with the graph. Foreign byte order in adjacency matrices is rejected by SciPy.')
prop('P25', 'Missing optional libraries cost only what depends on them',
     '''Whatever subset of the optional libraries (networkx, graph-tool, matplotlib, pyqtgraph, pyunlocbox, pyflann, scikit-learn, scikit-image) is absent or fails to load, importing the package and everything that does not need them works and gives the same results;
     where there is an alternative (the other file backend, exact instead of approximate neighbors) it is used, and what cannot be done raises an ImportError naming what is missing and leaves the graph unchanged.
     A library that becomes available later in the process is used.''',
     ['faults', 'configurations', 'histories'], 'all subsets of the optional libraries x ways of failing to import x calls; all sequences of availability changes; fresh processes',
     'tests run with everything installed',
     ['pygsp/graphs/_io.py', 'pygsp/graphs/nngraphs/nngraph.py', 'pygsp/graphs/imgpatches.py', 'pygsp/plotting.py', 'pygsp/learning.py', 'pygsp/__init__.py'],
     [dict(name='_import_networkx, _import_graphtool', where='pygsp/graphs/_io.py'), dict(name='_import_plt, _import_qtg', where='pygsp/plotting.py'), dict(name='_import_pyunlocbox', where='pygsp/learning.py')],
     ['exceptions', 'results'], 'exhaustive fault injection: every subset of unavailable libraries on the real code',
     'FLANN results are approximate and only compared where FLANN is missing (then they must be the exact ones).')
prop('P26', 'Layouts put every vertex where they promise',
     '''Every layout of set_coordinates yields one finite position per vertex whatever the graph (disconnected, edgeless, single vertex, directed, any weights) and changes nothing else of the graph: lines and rings are evenly spaced, random coordinates lie in the unit square or cube,
     Laplacian eigenmaps are the first non-trivial eigenvectors, communities are separated around a circle with their vertices around their center,
     the spring layout is the Fruchterman-Reingold iteration (fixed vertices never move, otherwise the result is centered and within its scale, and relabelling the vertices relabels the positions), and custom arrays are taken as they are or, if they do not have one position of dimension 1, 2 or 3 per vertex, rejected.''',
     ['inputs', 'schedules', 'histories'], 'all small graphs x layouts x random outcomes x initial positions, fixed vertices and relabellings; all partitions in communities; all sequences of layouts',
     'tests draw single layouts and check shapes',
     ['pygsp/graphs/_layout.py', 'pygsp/graphs/graph.py', 'pygsp/graphs/community.py'], [dict(name='set_coordinates', where='pygsp/graphs/_layout.py'), dict(name='_fruchterman_reingold', where='pygsp/graphs/_layout.py')],
     ['Graph.coords', 'Graph.set_coordinates()'], RNG,
     'Random draws are enumerated on a grid of 3 cells per number. Spring forces are compared with an independent iteration on generic initial positions.')
prop('P27', 'Plots show the data',
     '''A plotted graph has one marker per vertex at its coordinates and one line per edge between its endpoints (none if edges are hidden), with the given or default colors, sizes and widths; a signal given as color, size or width is mapped monotonically, colors spanning exactly its range or the given limits; highlighted vertices are exactly those asked, and a plotted filter bank shows every response, and the sum of squares, on the spectrum of its graph.
     A signal, option or backend that does not fit is rejected, whatever combination of options is used; plotting draws on the given axes, opens no other figure, and leaves the graph, the signals and the plotting defaults untouched.''',
     ['inputs', 'configurations', 'histories'], 'all pairs of option values, all small graphs and signals, all wrong sizes, all pairs of plotting defaults, banks of filters; both backends',
     'tests only check that plotting does not raise',
     ['pygsp/plotting.py'], [dict(name='_plot_graph, _plt_plot_graph, _plt_handle_figure', where='pygsp/plotting.py'), dict(name='_plot_filter', where='pygsp/plotting.py'), dict(name='_qtg_plot_graph, _qtg_plot_signal', where='pygsp/plotting.py')],
     ['Graph.plot()', 'Filter.plot()', 'artists of matplotlib axes', 'pyqtgraph items'], EXH,
     'Observed on the artists handed to the plotting library, not on pixels.')
prop('P28', 'Vertex features are what their definitions say',
     '''The average adjacency degree of a vertex is the mean of the degrees of the vertex and its neighbors; localized kernels and their norms are the rows of g(L), for every kernel of a bank, all at once or one at a time, and follow the filtering method and order they are given.
     The spectrogram is the squared norm of the localized kernel for the kernel shifted along the spectrum, for any kernel and number of shifts, is stored in the graph, and its plot shows each value at its vertex and frequency in the asked order.''',
     ['inputs', 'configurations'], 'all small graphs x Laplacians x kernels x filtering methods x states of the graph; all orders of plotted vertices',
     'the repository has no test of the features module',
     ['pygsp/features.py', 'pygsp/utils.py', 'pygsp/plotting.py'], [dict(name='compute_avg_adj_deg, compute_tig, compute_norm_tig, compute_spectrogram', where='pygsp/features.py'), dict(name='filterbank_handler', where='pygsp/utils.py')],
     ['features.compute_*()', 'Graph.spectr', 'Graph.plot_spectrogram()'], EXH,
     'Approximate filtering is compared exactly for polynomial kernels and with the filter itself otherwise.')
prop('P29', 'Matrix and geometry helpers compute what they document',
     '''Symmetrizing a matrix gives, entry by entry, the average, maximum, filled, lower or upper symmetric matrix, and pairwise distances, rescaled coordinates and logarithmic scales are those of their definitions, for every shape, sign and size of the data, whatever container (dense or any sparse format) and type of number holds it (no overflow, truncation or dropped entry).
     The result is as symmetric as promised, arguments are never modified, and wrong methods and shapes are rejected.''',
     ['inputs', 'configurations'], 'all small matrices x number types x containers x methods; all small point sets and pairs of bounds',
     'tests compare the methods on two float matrices',
     ['pygsp/utils.py'], [dict(name='symmetrize, distanz, rescale_center, compute_log_scales, build_logger', where='pygsp/utils.py')],
     ['utils.symmetrize()', 'utils.distanz()', 'utils.rescale_center()', 'utils.compute_log_scales()'], EXH,
     'Filling zeros is only specified for non-negative matrices.')
prop('P30', 'Copies and pickles are faithful and independent',
     '''A deep copy or a pickle of a graph, in whatever state of computed Laplacians, bases, bounds, signals and coordinates, and read in the same or another process, is the same graph: same class, same printed form, same content, and the same results of everything computed afterwards.
     No operation or edit on one ever changes the other, and copied filters have the same responses on their own graph.
     Every object prints its class, its numbers of vertices and edges (or of inputs and outputs), and its parameters with the values they were given.''',
     ['inputs', 'histories'], 'all sequences of <=2 operations on small graphs, 45 constructions of all families x ways of copying x operations afterwards on either side; banks of filters',
     'tests copy two graphs in one state',
     ['pygsp/graphs/graph.py', 'pygsp/graphs/difference.py', 'pygsp/graphs/fourier.py', 'pygsp/filters/filter.py'], [dict(name='Graph state (_lmax, _U, _e, _D, _dw, signals, plotting)', where='pygsp/graphs/graph.py'), dict(name='Graph.__repr__, _get_extra_repr', where='pygsp/graphs'), dict(name='Filter.__repr__', where='pygsp/filters/filter.py')],
     ['copy.deepcopy(G)', 'pickle.dumps(G)', 'repr(G)', 'repr(filter)'], HIS,
     'Filters hold functions, which Python does not pickle: they are deep-copied only.')
prop('P31', 'A graph obtained from other graphs is a graph like any other',
     '''Whatever sequence of operations made it - subgraphs and components, Kron reductions, levels of a multiresolution, sparsifications, line graphs, symmetrized or transposed weights, exchange with NetworkX, graph-tool or files, copies -
     and whatever was computed, attached or switched in between on any graph of the sequence, a graph has the weights, Laplacian type, signals, coordinates and plotting options these operations define, and answers everything like a graph
     built directly from its weights. The graphs it was made from keep their weights, data and results, whatever is done to it later.''',
     ['histories', 'inputs'], 'all sequences of graph-making and state-changing operations up to length 3 on small graphs',
     'tests apply single operations to fresh graphs; stale caches and shared data appear only in sequences',
     [G, 'pygsp/reduction.py', 'pygsp/graphs/linegraph.py', 'pygsp/graphs/_io.py'],
     [dict(name='subgraph, extract_components', where=G), dict(name='kron_reduction, graph_multiresolution, graph_sparsify', where='pygsp/reduction.py'), dict(name='LineGraph', where='pygsp/graphs/linegraph.py')],
     ['every method of the resulting graph'], HIS, 'All sequences in bounds on 14 graphs; complete observation of the result and its origin against a model of weights, signals, coordinates and options.')
prop('P32', 'Vertex order, weight unit and other components do not matter',
     '''Relabelling the vertices of any graph, and the data given with them, relabels every result and changes nothing else: spectra, transforms, filters, frames, reductions, distances, learned signals, features, layouts from given positions.
     Multiplying all weights by any positive number multiplies Laplacian, eigenvalues and energies by it, divides resistance distances by it, and leaves the answers, the normalized Laplacian, the designs relative to the
     largest eigenvalue and the learned signals unchanged. What is defined per component does not depend on the other components of the graph.''',
     ['inputs', 'configurations'], 'relabellings x units from 1e-9 to 1e9 x unions, over all small graphs and about 60 measures of the API',
     'a unit test fixes one labelling and one scale; absolute thresholds, index-dependent shortcuts and global quantities show elsewhere',
     [G, 'pygsp/graphs/fourier.py', 'pygsp/filters/filter.py', 'pygsp/reduction.py', 'pygsp/learning.py', 'pygsp/features.py', 'pygsp/utils.py'],
     [dict(name='Graph properties, Laplacian, operators', where=G), dict(name='Filter.filter', where='pygsp/filters/filter.py'), dict(name='kron_reduction, graph_sparsify', where='pygsp/reduction.py'), dict(name='regression_tikhonov', where='pygsp/learning.py')],
     ['results of the whole API'], EXH, 'Metamorphic relations, checked for all graphs, relabellings and units in bounds; no formula is needed, so they also cover what other checks define loosely.')


def main():
    built = {p['id'] for p in P if os.path.exists(os.path.join(ROOT, 'mc', p['id'].lower() + '.py'))}
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(dict(
                id=p['id'], title=p['title'], statement=p['statement'],
                quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                anchors=dict(files=p['files'], mechanism=p['mech'], observe_at=p['observe'], hook_needed=None))) + '\n')
    checks = [dict(property=p['id'], quick_cmd=f'./run.sh {p["id"]} quick', thorough_cmd=f'./run.sh {p["id"]} thorough',
                   technique=p['technique'], level='model_checking', level_note=p['note'],
                   evidence_file=f'evidence/{p["id"]}.json')
              for p in P if p['id'] in built and not p['na']]
    na = [dict(property=p['id'], reason=p['na'] or 'check not built yet') for p in P if p['na'] or p['id'] not in built]
    m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
             notes='No hooks in /repo: every source of nondeterminism is intercepted at library seams (numpy.random.default_rng, '
                   'scipy eigsh) before pygsp is imported. Known findings: known_findings.txt.')
    json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
    print(len(checks), 'checks', len(na), 'not applicable')


main()
