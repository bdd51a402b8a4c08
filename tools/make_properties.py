"""Writes properties.jsonl; edit here and rerun."""
import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,obs,hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=["include/aleph/"+f if not f.startswith(("bindings","src")) else f for f in files],
        mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs,hook_needed=hook)))
p("P01","Persistence diagrams equal the mod-2 persistent homology of the filtration",
"For every finite simplicial complex in a valid filtration order, the computed persistence diagrams contain, for every dimension, exactly the (birth, death) weights of the persistence intervals of its mod-2 homology. Points of infinite persistence appear exactly for the homology classes of the whole complex (the top dimension is included only on request), so their number is the Betti number, and the Euler characteristic equals both the alternating simplex count and the alternating Betti sum.",
["inputs","configurations"],"all finite filtered simplicial complexes (any dimension, ties, gaps in vertex ids, disconnected, non-pure) and all calls options",
"The tests compute diagrams of a handful of fixed complexes (triangle, tetrahedron, circle samples) and compare a few counts; they never compare complete diagrams with an independent computation and cannot range over complexes.",
["persistentHomology/Calculation.hh","persistentHomology/PersistencePairing.hh","persistentHomology/EulerCharacteristic.hh","persistenceDiagrams/Calculation.hh","topology/Conversions.hh","persistenceDiagrams/PersistenceDiagram.hh"],
[("reduce boundary matrix and read off pairs","persistentHomology/Calculation.hh, algorithms/*.hh"),("translate pairs to weights per dimension","persistenceDiagrams/Calculation.hh"),("build boundary matrix from ordered complex","topology/Conversions.hh")],
["return values of the persistence diagram calculation functions","Betti numbers of diagrams","Euler characteristic function"])
p("P02","All reduction algorithms, column representations and dualisation agree",
"For every valid boundary matrix and filtered complex, the persistence pairing and the persistence diagrams do not depend on the reduction algorithm, the column representation, the index type or whether the matrix is dualised first. The pairing is a partial matching in which each creator precedes its destroyer by exactly one dimension and every index occurs once.",
["inputs","configurations"],"all boundary matrices of filtered complexes x {standard, twist} x {vector, list, set representations} x {primal, dual} x index types",
"The tests run the combinations on two or three fixed matrices and compare only sizes; the equivalence is over all inputs and all configurations.",
["persistentHomology/algorithms/Standard.hh","persistentHomology/algorithms/Twist.hh","topology/representations/Vector.hh","topology/representations/List.hh","topology/representations/Set.hh","persistentHomology/Calculation.hh","persistentHomology/PersistencePairing.hh"],
[("column reduction","persistentHomology/algorithms"),("symmetric-difference column addition","topology/representations"),("index translation of dualised matrices","persistentHomology/Calculation.hh")],
["pairings returned for boundary matrices and complexes"])
p("P03","A simplicial complex behaves as an ordered set of simplices in any history",
"After any sequence of insertions, removals, replacements, sorts, missing-face creations, weight recalculations, copies and queries, a simplicial complex holds exactly the simplices a mathematical set with the same history would hold, each once, in the documented order. Every query (membership, position, range by dimension, vertices, size, dimension, iteration, equality, lookup with data) agrees with that set, and simplices themselves compare, hash, print their vertices and enumerate their boundaries as vertex sets.",
["histories","inputs"],"all operation histories over all vertex types and simplices",
"Tests apply a few operations to fixed complexes in one order; index structures that get out of sync only show after particular histories.",
["topology/SimplicialComplex.hh","topology/Simplex.hh","topology/Skeleton.hh","topology/Filter.hh"],
[("multi-index container with sequence and ordered views","topology/SimplicialComplex.hh"),("vertex-set semantics of simplices","topology/Simplex.hh")],
["public queries of the complex after every operation"])
p("P04","Filtration construction is valid and weight propagation is correct",
"Sorting a complex by any of the provided filtrations (data value ascending or descending, lower star, upper star, vertex degree-based) yields an order in which every face precedes its cofaces and weights are monotone whenever the weights permit one. Recalculating weights assigns each simplex the extreme (maximum or minimum, as requested) over its faces and keeps vertex weights; creating missing faces yields exactly the closure; degree and vertex-induced weights follow their definitions for every vertex.",
["inputs","configurations"],"all complexes, weights with ties and negatives, all filtration functors",
"Tests sort one or two fixed complexes; validity of the order is a statement over all weight patterns, ties in particular.",
["topology/filtrations/Data.hh","topology/filtrations/LowerStar.hh","topology/filtrations/UpperStar.hh","topology/filtrations/Degree.hh","topology/SimplicialComplex.hh"],
[("comparison functors","topology/filtrations"),("weight recalculation and face creation","topology/SimplicialComplex.hh")],
["order and weights of simplices after sorting and recalculation"])
p("P05","Connected-component persistence agrees with the full computation",
"For every graph-like or higher-dimensional filtered complex, the specialised union-find computations of zero-dimensional persistence yield the same diagram as the full boundary-matrix computation in dimension 0, and the number of infinite points equals the number of connected components. Union-find queries, component partitions, the pairing of simplices, the merge notifications delivered to callers and the persistence hierarchy describe the true components and merges at every stage of the filtration.",
["inputs","histories"],"all weighted graphs and complexes, all union histories, ascending and descending filtrations",
"Tests use one or two small graphs with a known number of components; ties, isolated vertices and merge order need quantification over graphs.",
["persistentHomology/ConnectedComponents.hh","topology/ConnectedComponents.hh","topology/UnionFind.hh","persistentHomology/ExtendedPersistenceHierarchy.hh"],
[("elder rule on union-find","persistentHomology/ConnectedComponents.hh"),("path compression","topology/UnionFind.hh")],
["diagrams, pairings and component maps returned"])
p("P06","Distances between persistence diagrams equal the optimal matching",
"The Wasserstein and bottleneck distances between two diagrams equal the cheapest matching of their points in which points may also be matched to the diagonal, for every ground metric and power; Hausdorff and nearest-neighbour distances equal their set-theoretic definitions. The assignment solver used returns a minimum-cost perfect matching for every square cost matrix.",
["inputs","configurations"],"all pairs of diagrams of the same dimension (different sizes, repeats, empty), all powers and ground metrics, all square cost matrices",
"Tests check two fixed pairs of diagrams and two cost matrices; optimality is a claim over all matchings of all inputs and one example cannot show it.",
["persistenceDiagrams/distances/Wasserstein.hh","persistenceDiagrams/distances/Bottleneck.hh","persistenceDiagrams/distances/Hausdorff.hh","persistenceDiagrams/distances/NearestNeighbour.hh","persistenceDiagrams/distances/PointSet.hh","persistenceDiagrams/distances/detail/Munkres.hh","persistenceDiagrams/distances/detail/Orthogonal.hh"],
[("Munkres assignment","persistenceDiagrams/distances/detail/Munkres.hh"),("cost matrix with diagonal projections","persistenceDiagrams/distances/Wasserstein.hh"),("threshold search for perfect matching","persistenceDiagrams/distances/Bottleneck.hh")],
["returned distances and assignments"])
p("P07","Diagrams are stable and invariant; diagram distances are metrics",
"Perturbing the function values or point coordinates of an input by at most epsilon moves its persistence diagrams by at most epsilon (twice epsilon for point clouds) in the bottleneck sense, and relabelling, reordering, translating or scaling the input changes the diagrams only by the corresponding transformation. Diagram distances are non-negative, symmetric, zero on identical diagrams and satisfy the triangle inequality.",
["inputs"],"all inputs, all perturbations, relabellings, rigid motions and scalings; all triples of diagrams",
"A stability or metric statement relates pairs or triples of runs; the tests make single runs on single inputs.",
["persistenceDiagrams/Calculation.hh","persistentHomology/Calculation.hh","geometry/VietorisRipsComplex.hh","persistenceDiagrams/distances/Wasserstein.hh","topology/io/Function.hh"],
[("whole pipeline from data to diagram","geometry, topology/io, persistentHomology"),("diagram distances","persistenceDiagrams/distances")],
["diagrams of related inputs","distances of diagrams"])
p("P08","Diagram containers and scalar summaries equal their definitions",
"A persistence diagram holds exactly the points added to it: removal of diagonal, unpaired or duplicate points, merging, insertion and erasure, extraction of persistence values, Betti numbers and comparison behave as on a list of points. Total persistence, p-norm, infinity norm and entropies (persistent, nearest-neighbour area, grid) equal their mathematical definitions on every diagram, are independent of point order, and are finite whenever the definition is.",
["inputs","histories"],"all diagrams including repeated, diagonal, infinite and inverted points; all parameters",
"Tests evaluate one or two diagrams; the definitions have edge cases (zero persistence, equal points, single point, infinite points) that need generated diagrams.",
["persistenceDiagrams/PersistenceDiagram.hh","persistenceDiagrams/Norms.hh","persistenceDiagrams/Entropy.hh","persistenceDiagrams/Extraction.hh"],
[("point container operations","persistenceDiagrams/PersistenceDiagram.hh"),("norm and entropy sums","persistenceDiagrams/Norms.hh, Entropy.hh")],
["returned containers and scalars"])
p("P09","Step functions form a pointwise vector space; indicators count intervals",
"Sums, differences, scalar multiples and absolute values of step functions equal the pointwise operation at every argument outside interval end points, and integrals, norms, suprema over the support and normalisation equal those of the pointwise function. The persistence indicator function of a diagram takes at every argument the number of intervals of the diagram that contain it, and is zero outside the range of the diagram.",
["inputs","programs"],"all step functions with overlapping, touching, nested and disjoint supports, all expressions over them; all finite diagrams including negative coordinates",
"Tests evaluate two or three hand-made functions; breakpoints merge in many relative positions and the interesting bugs are in particular positions.",
["math/StepFunction.hh","persistenceDiagrams/PersistenceIndicatorFunction.hh"],
[("breakpoint merge","math/StepFunction.hh"),("sweep over event points","persistenceDiagrams/PersistenceIndicatorFunction.hh")],
["values, integrals, norms of functions"])
p("P10","Piecewise linear functions and envelopes are pointwise exact",
"Evaluation interpolates linearly between the given samples and is zero outside them; sums and differences of functions that share a domain or vanish at its ends, scalar operations, negation, absolute values, maxima, integrals and p-norms equal those of the pointwise functions, independently of how a function has been obtained. The envelope of a diagram passes through the highest persistence at every rotated coordinate and interpolates linearly between them.",
["inputs","programs"],"all sample sequences, all expressions, all diagrams",
"Tests evaluate a few fixed functions; differing domains, sign changes and coincident breakpoints need generation.",
["math/PiecewiseLinearFunction.hh","persistenceDiagrams/Envelope.hh"],
[("common refinement of domains","math/PiecewiseLinearFunction.hh"),("extremal points along rotated axis","persistenceDiagrams/Envelope.hh")],
["values, integrals, norms of functions"])
p("P11","Vietoris-Rips complexes contain exactly the simplices of small diameter",
"For every point cloud or weighted graph, metric, threshold and dimension bound, the Vietoris-Rips construction contains a simplex exactly if all its vertex pairs are closer than the threshold and its dimension is within the bound, each weighted with its diameter (or the requested function of its vertices). Bottom-up and top-down expansions and all neighbour searches give the same complex.",
["inputs","configurations"],"all point clouds (repeats, ties), graphs, thresholds, dimension bounds, nearest-neighbour back ends, expansion strategies",
"Tests count simplices on one data set; membership of every simplex and its weight must be compared with the definition for arbitrary inputs.",
["geometry/RipsSkeleton.hh","geometry/RipsExpander.hh","geometry/RipsExpanderTopDown.hh","geometry/VietorisRipsComplex.hh"],
[("1-skeleton by radius search","geometry/RipsSkeleton.hh"),("inductive clique expansion and weight assignment","geometry/RipsExpander.hh")],
["simplices and weights of returned complexes"])
p("P12","Cech complexes contain exactly the simplices with a small enclosing ball",
"For every point cloud and radius, the Cech construction contains a vertex subset exactly if its smallest enclosing ball has at most that radius, weighted consistently with twice that radius, and sits between the Vietoris-Rips complexes given by the classical inclusions. The result is closed under taking faces and ordered as a filtration.",
["inputs"],"all point clouds in low dimension and radii away from ties",
"The tests check a single configuration of points; smallest enclosing balls have many cases (two-point, three-point, obtuse, collinear, duplicates).",
["geometry/CechComplex.hh"],
[("smallest enclosing ball per subset","geometry/CechComplex.hh")],
["simplices and weights of the returned complex"])
p("P13","Dowker, witness and beta-skeleton constructions match their definitions",
"Dowker source and sink complexes contain exactly the vertex sets that share a base point within the threshold of the shortest-path completed relation; lazy witness complexes contain exactly the cliques of landmark pairs with a common witness; beta skeletons contain exactly the pairs whose closed lune is empty of other points. Weights are the smallest parameter at which the simplex appears, and landmark selections return the requested number of distinct, admissible points.",
["inputs","configurations"],"all weighted directed graphs, point clouds, thresholds, landmark sets, relaxation parameters and beta values",
"Each construction has one or two fixed examples in the tests; admissibility must be compared with the definition pair by pair.",
["geometry/DowkerComplex.hh","geometry/WitnessComplex.hh","geometry/BetaSkeleton.hh"],
[("admissible pairs and simplex enumeration","geometry/DowkerComplex.hh"),("edge weights from witness distances","geometry/WitnessComplex.hh"),("empty-region test","geometry/BetaSkeleton.hh")],
["simplices, weights and landmark indices returned"])
p("P14","Nearest-neighbour searches are exact and back ends agree; metrics are right",
"For every point cloud, metric, radius and neighbour count, radius and k-nearest-neighbour searches return for each point exactly the indices and distances that exhaustive comparison gives, whatever the back end, with distances in the metric's own units. Distance functors and their conversions satisfy the definition of the metric they are named after.",
["inputs","configurations"],"all point clouds, radii, k, back ends and metrics",
"Tests query one point cloud with one radius; rows of different length, empty rows, ties and duplicated points need generated clouds.",
["geometry/BruteForce.hh","geometry/FLANN.hh","geometry/NearestNeighbours.hh","geometry/distances/Euclidean.hh","geometry/distances/Manhattan.hh","geometry/distances/Hamming.hh","geometry/distances/Infinity.hh","geometry/distances/Traits.hh"],
[("exhaustive search","geometry/BruteForce.hh"),("FLANN index wrapper and distance conversion","geometry/FLANN.hh, geometry/distances/Traits.hh")],
["index and distance vectors returned"])
p("P15","A cover tree stores every inserted point and satisfies its invariants",
"After inserting any sequence of points, a cover tree contains exactly those points, every child lies one level below its parent and within the covering distance of the parent's level, and the children of a node are separated by more than its separation distance. Its self-checks report validity exactly when these invariants hold.",
["histories","inputs"],"all insertion sequences of distinct points in any metric space",
"Tests insert one fixed sequence and use the tree's own validity predicates; generated sequences and an independent check are needed.",
["geometry/CoverTree.hh"],
[("insertion with level raising and re-rooting","geometry/CoverTree.hh")],
["node listing and validity predicates of the tree"])
p("P16","Maximal cliques, clique graphs and shortest paths are exact",
"Both maximal clique enumerations return exactly the inclusion-maximal cliques of the graph, each once. The clique graph connects exactly those cliques of a given size that share a face, with the documented weights, and the all-pairs shortest path computation returns the true graph distance for every pair, infinite for disconnected pairs.",
["inputs","configurations"],"all graphs (isolated vertices, complete, empty, non-contiguous ids), all clique sizes and non-negative weights",
"Tests use one or two graphs; exactness is over all graphs and requires an independent enumeration.",
["topology/MaximalCliques.hh","topology/CliqueGraph.hh","topology/FloydWarshall.hh"],
[("Bron-Kerbosch and Koch recursion","topology/MaximalCliques.hh"),("co-face sharing","topology/CliqueGraph.hh"),("dynamic programming","topology/FloydWarshall.hh")],
["cliques, graphs and distance matrices returned"])
p("P17","Topological constructions change homology exactly as theory predicts",
"Barycentric subdivision, spines and skeletons preserve homology in the dimensions theory prescribes, cones are acyclic, suspensions shift reduced homology by one dimension, and quotients and intersections contain exactly the prescribed simplices. Subdivision has one vertex per simplex and one simplex per chain of the face order, and spines have no collapsible face left.",
["inputs"],"all simplicial complexes (non-pure, disconnected, contractible, closed surfaces)",
"Tests apply each construction to one or two complexes and compare simplex counts; invariance of homology needs many complexes and an independent homology computation.",
["topology/BarycentricSubdivision.hh","topology/QuotientSpaces.hh","topology/Spine.hh","topology/Skeleton.hh","topology/Intersections.hh"],
[("flag enumeration","topology/BarycentricSubdivision.hh"),("collapse of free faces","topology/Spine.hh"),("apex vertices","topology/QuotientSpaces.hh")],
["simplices and homology of returned complexes"])
p("P18","Intersection homology filters chains exactly by the allowability condition",
"A simplex is admitted to the intersection chain complex exactly if its intersections with every stratum skeleton satisfy the dimension bound given by the perversity, and the resulting persistence is the persistence of the complex of admissible chains with admissible boundary. With a perversity that allows everything the result equals ordinary persistent homology, and partitioning a complex is a permutation that keeps the filtration order inside both parts.",
["inputs","configurations"],"all stratified complexes and perversities",
"The tests use three fixed spaces and compare Betti numbers; reduction to the ordinary theory and independence of order need generated stratifications.",
["persistentHomology/PhiPersistence.hh","topology/Intersections.hh"],
[("allowability predicate and partition","persistentHomology/PhiPersistence.hh"),("reduction of the admissible part","persistentHomology/PhiPersistence.hh")],
["diagrams and partitions returned"])
p("P19","Boundary matrices are faithful chain complexes and survive transformations",
"The boundary matrix of a filtered complex has, in each column, exactly the positions of the faces of that simplex, the square of the boundary is zero, and dimensions match. Dualising twice returns the original matrix, writing columns and reading them back (in memory or in the documented text form, including comments and blank lines) is the identity, and column addition is addition mod 2.",
["inputs","histories"],"all filtered complexes, all representations, all sequences of column operations, all documented layouts of the text form",
"Tests load one file and dualise one matrix; the laws quantify over matrices and operation sequences.",
["topology/BoundaryMatrix.hh","topology/Conversions.hh","topology/representations/Vector.hh","topology/representations/List.hh","topology/representations/Set.hh"],
[("anti-transpose","topology/BoundaryMatrix.hh"),("symmetric difference of columns","topology/representations"),("text parser","topology/BoundaryMatrix.hh")],
["columns, dimensions and comparison of matrices"])
p("P20","Diagrams, point clouds and graphs survive writing and reading back",
"Writing a persistence diagram, a point cloud, or a graph in each supported format and reading the file back yields the same data up to the printed precision: same points or simplices, same dimension, same order, same weights, infinite values included. Reading is insensitive to comments, blank lines and the choice of documented separators, and drawings of a complex list exactly its vertices and edges.",
["inputs"],"all diagrams, point clouds and graphs with values of any magnitude and sign, all documented layouts",
"Round trips are tested on one file each; the formats have many layouts and value ranges.",
["persistenceDiagrams/io/JSON.hh","persistenceDiagrams/io/Raw.hh","containers/PointCloud.hh","topology/io/GML.hh","topology/io/LinesAndPoints.hh"],
[("writers and readers","persistenceDiagrams/io, containers/PointCloud.hh, topology/io/GML.hh")],
["objects read back"])
p("P21","Graph readers return exactly the graph that the file describes",
"For every well-formed edge list, GML, GraphML, Pajek, adjacency matrix, bipartite adjacency matrix and sparse adjacency list file, the reader returns exactly the vertices, edges, weights and labels that the file describes, under every option setting, and the format dispatcher returns the same. A reader object gives the same answer for a file whatever it has read before.",
["inputs","configurations","histories"],"all graphs x formats x layouts (comments, separators, labels, order) x options, and sequences of reads with one reader object",
"Tests read one or two fixture files per format with fresh readers; layouts, options, weights with signs and exponents and reader reuse are not reached.",
["topology/io/EdgeLists.hh","topology/io/GML.hh","topology/io/GraphML.hh","topology/io/Pajek.hh","topology/io/AdjacencyMatrix.hh","topology/io/BipartiteAdjacencyMatrix.hh","topology/io/SparseAdjacencyMatrix.hh","topology/io/SimplicialComplexReader.hh"],
[("line and token parsers","topology/io"),("vertex id assignment","topology/io")],
["complexes, labels and maps returned by readers"])
p("P22","Grid, mesh and spectrum readers build exactly the described complex",
"For every well-formed matrix, one-dimensional function, structured grid, text polygon mesh, hierarchical data set, triangulation listing or spectrum file, the reader builds exactly the vertices, edges and triangles the format prescribes, with function values on the vertices and the prescribed extreme on higher simplices. Persistence computed from it equals persistence computed from the values directly.",
["inputs","configurations"],"all sizes (non-square, one row), values, filtration directions and layouts",
"Each reader is tested on one or two fixture files, mostly square; orientation mistakes and off-by-one errors depend on shape.",
["topology/io/Matrix.hh","topology/io/Function.hh","topology/io/VTK.hh","topology/io/PLY.hh","topology/io/HDF5.hh","topology/io/LexicographicTriangulation.hh","topology/io/FlexSpectrum.hh"],
[("grid neighbourhood enumeration","topology/io"),("weight functors","topology/io")],
["complexes and diagrams of files read"])
p("P23","Malformed files are rejected or read, never undefined behaviour or a hang",
"Given any byte sequence, or a path that cannot be opened, every file reader terminates and either returns an object consistent with its own queries or throws a standard exception. It never reads or writes out of bounds, aborts the process, or runs forever. A path that does not exist and a file whose counts, sizes, references or structure contradict each other are always reported by an exception.",
["inputs","fault_sequences"],"all byte strings and all corruptions (truncation, deletion, duplication, substitution) of well-formed files, for all readers",
"Tests read only well-formed fixtures; robustness is a claim over arbitrary byte strings and needs sanitised fuzzing.",
["topology/io/GML.hh","topology/io/EdgeLists.hh","topology/io/Pajek.hh","topology/io/GraphML.hh","topology/io/Matrix.hh","topology/io/AdjacencyMatrix.hh","topology/io/VTK.hh","topology/io/PLY.hh","topology/io/LexicographicTriangulation.hh","topology/io/Function.hh","topology/io/SparseAdjacencyMatrix.hh","persistenceDiagrams/io/JSON.hh","persistenceDiagrams/io/Raw.hh","containers/PointCloud.hh","topology/BoundaryMatrix.hh","utilities/String.hh"],
[("input validation and exceptions","all readers")],
["return, exception or termination of the reader under sanitizers"])
p("P24","Half-edge meshes report exactly the incidences of the faces added",
"After adding the vertices and consistently oriented polygons of any manifold surface (with or without boundary, connected or not) in any order, the mesh reports exactly those vertices, faces and edges. Stars, links (in the order of the orientation), lower and higher neighbours, component counts and data lookups equal those computed from the face list, also while the surface is incomplete. Vertex identifiers are unique, whether they are specified or assigned.",
["inputs","histories"],"all oriented manifold face lists in any order and rotation, all prefixes of them, all assignments of identifiers",
"Tests build two small meshes; half-edge linking depends on insertion order and on boundary configuration.",
["topology/Mesh.hh","topology/MorseSmaleComplex.hh"],
[("half-edge pairing and next/prev links","topology/Mesh.hh")],
["public queries of the mesh"])
p("P25","Numerical and combinatorial utilities match exact references",
"Compensated sums are exact up to a relative error that does not grow with the number, order or scaling of the terms. Sample statistics, medians, symmetric and sparse matrices, principal components, density estimates, bootstrap replicates and intervals, algebraic spheres, string, path and container utilities return the mathematically defined result for every input. Enumerations of combinations and permutations visit every object exactly once, respect early termination, restore the range, and agree with their counting functions.",
["inputs"],"all sequences, matrices, k and n; all separators and strings",
"Tests check one or two sequences; accuracy and completeness are claims over inputs.",
["math/KahanSummation.hh","math/Statistics.hh","math/Quantiles.hh","math/SymmetricMatrix.hh","math/SparseMatrix.hh","math/Combinations.hh","math/PrincipalComponentAnalysis.hh","math/KernelDensityEstimator.hh","math/Bootstrap.hh","math/AlgebraicSphere.hh","utilities/String.hh","utilities/Filesystem.hh","utilities/ContainerOperators.hh"],
[("compensated sums","math/KahanSummation.hh"),("selection by rank","math/Quantiles.hh"),("index arithmetic","math/SymmetricMatrix.hh, math/SparseMatrix.hh")],
["return values"])
p("P26","Point-cloud descriptors and dimension estimates follow their definitions",
"Eccentricities, density estimates, distance to a measure, lens depth, mean shift smoothing, local dimensionality estimates and correlation dimension equal their defining formulas, evaluated from all pairwise distances, on every point cloud. They do not depend on the neighbour-search back end, follow a reordering of the points, and do not change under translation; curvature estimates of points on a sphere are its inverse radius. Points and point cloud containers return exactly the coordinates stored in them under any sequence of changes, copies, moves, comparisons and merges.",
["inputs","histories","configurations"],"all point clouds, orders, bandwidths, neighbour counts, back ends",
"Tests evaluate a couple of clouds mostly for finiteness; formulas must be compared for generated clouds.",
["containers/DataDescriptors.hh","containers/DimensionalityEstimators.hh","containers/FractalDimension.hh","containers/MeanShift.hh","containers/PointCloud.hh","geometry/Point.hh","geometry/TangentSpace.hh"],
[("pairwise distance loops","containers")],
["descriptor vectors and containers returned"])
p("P27","Graph operators and curvature equal their matrix and combinatorial definitions",
"Adjacency and Laplacian matrices have the defined entries for every weighted graph, rows of the Laplacian sum to zero, heat kernel values equal the matrix exponential of the negative Laplacian, and its trace is the sum over the diagonal. Spectral bisection splits the vertices into two disjoint covering parts that induce subcomplexes, and combinatorial curvature equals its incidence formula for every simplex.",
["inputs"],"all weighted graphs and complexes, all diffusion times",
"Tests check the Laplacian of one graph and the curvature of one complex; the formulas quantify over graphs and times.",
["geometry/HeatKernel.hh","topology/Partitions.hh","topology/CombinatorialCurvature.hh"],
[("eigendecomposition","geometry/HeatKernel.hh"),("median split of an eigenvector","topology/Partitions.hh"),("parallel neighbour count","topology/CombinatorialCurvature.hh")],
["matrices, scalars and complexes returned"])
p("P28","Random generators produce objects of the promised kind and size",
"Random graphs, random weighted complete graphs, torus, sphere, and bootstrap samples, and random landmark choices always have the requested number of elements and satisfy the defining constraint (points on the surface, edge probability zero or one exact, indices in range and distinct). Their empirical distribution matches the promised one within statistical bounds that a correct generator passes with overwhelming probability.",
["inputs","configurations"],"all sizes, probabilities, radii",
"Tests check sizes of one sample; support and distribution need many samples with fixed statistical error.",
["topology/RandomGraph.hh","geometry/SphereSampling.hh","geometry/TorusSampling.hh","math/Bootstrap.hh","geometry/WitnessComplex.hh"],
[("rejection sampling and trigonometric transforms","geometry/*Sampling.hh"),("edge coin flips","topology/RandomGraph.hh")],
["samples returned"])
p("P29","Python bindings compute the same results as the native library",
"Every object and function of the Python module gives, for every input, the result of the native operation it wraps: simplices and complexes with their queries, sorting and weights, diagrams with their summaries and norms, Rips expansion of complexes and matrices, diagram calculation, distances, and function evaluation. Array arguments are read element by element whatever their memory layout, and invalid arguments raise Python exceptions.",
["inputs","histories","configurations"],"all Python values, array layouts and operation sequences",
"The Python tests cover a few constructors; conversion layers go wrong for particular layouts and types.",
["bindings/python/aleph.cc"],
[("wrappers","bindings/python/aleph.cc")],
["Python-level results compared with an independent Python model"])
p("P30","Diagram kernels equal their formulas; means average matched points",
"The multi-scale and persistence-weighted kernels equal their published formulas, are symmetric and positive semi-definite, and induce pseudo-metrics that vanish on equal diagrams. Calculating the mean of a set of diagrams terminates; each of its points is the average of the points that optimal matchings assign to it (unmatched diagrams contribute its projection to the diagonal), so the mean of equal diagrams is the diagram itself.",
["inputs","configurations"],"all finite sets of diagrams, all bandwidths",
"Tests check symmetry on two diagrams; formula agreement and positive semi-definiteness quantify over sets of diagrams and bandwidths.",
["persistenceDiagrams/kernels/MultiScaleKernel.hh","persistenceDiagrams/kernels/KernelEmbedding.hh","persistenceDiagrams/Mean.hh"],
[("kernel sums","persistenceDiagrams/kernels"),("alternating matching and averaging","persistenceDiagrams/Mean.hh")],
["scalars and mean diagrams returned"])
p("P31","Command-line tools report what is defined by the data in their input files",
"For every well-formed input file and setting of their options, in any order, the command-line tools for functions, graphs and collections of graphs, connectivity matrices, clique communities, Betti numbers, data descriptors, and for the statistics, entropies, signatures, indicator functions, distances and kernels of diagrams exit successfully and report exactly the values of the data in the files. Of several contradictory choices the last one counts. Given a file that does not exist or no file at all, they fail instead of reporting results.",
["inputs","configurations"],"all input files of the tools' formats and their option settings",
"No test runs the tools at all.",
["src/tools/betti_numbers.cc","src/tools/topological_distance.cc","src/tools/persistence_diagram_statistics.cc","src/tools/persistence_indicator_function.cc","src/tools/persistence_diagram_entropies.cc","src/tools/clique_persistence_diagram.cc","src/tools/function_analysis.cc","src/tools/graph_analysis.cc","src/tools/make_signature.cc","src/tools/relevant_edges.cc","src/tools/connectivity_matrix_analysis.cc","src/tools/sparse_adjacency_matrices.cc","src/tools/point_cloud_data_descriptors.cc"],
[("option parsing and output formatting","src/tools")],
["standard output and exit status of the tools"])
p("P32","Command-line tools for shapes, spectra, patches and bands report correct results",
"For every well-formed input and option setting, the command-line tools for distance distributions and local dimensionality and curvature of point clouds, spines, intersection homology, diffusion skeletons, triangulations, cover trees, stratified graphs, spectra of complexes, interlevel sets of functions, connectivity matrices, image patches, and for means, confidence bands and glyphs of functions of diagrams exit successfully and write exactly the values, complexes, diagrams and drawings that the data define. Random samples stay within the results that are possible for the data. Given a file that does not exist, they fail instead of reporting results.",
["inputs","configurations"],"all input files of these tools' formats and their option settings",
"No test runs the tools at all.",
["src/tools/rips_distributions.cc","src/tools/local_dimensionality.cc","src/tools/spectral_analysis.cc","src/tools/persistent_spines.cc","src/tools/piecewise_linear_function_smoothing.cc","src/tools/persistence_indicator_function_confidence_sets.cc","src/tools/persistence_indicator_function_glyph.cc","src/tools/interlevel_set_persistence_hierarchy.cc","src/tools/stratified_graph_analysis.cc","src/tools/ephemeral.cc","src/tools/process_image_patches.cc","src/tools/persistent_intersection_homology.cc","src/tools/multi_scale_skeleton.cc","src/tools/wicked_triangulations.cc","src/tools/cover_tree.cc","src/tools/mean_curvature.cc"],
[("option parsing, analysis and output formatting","src/tools")],
["standard output, output files and exit status of the tools"])
open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.abspath(__file__)), '..', 'properties.jsonl'),'w').write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
