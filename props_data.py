NA = {}
ENG = "Property-based search: no failure among the generated cases, no claim beyond them. Trusts the reference model in the harness, g++ 13.3 and the sandbox's TBB."
GR = ("Graphs come from 13 families (explicit edge lists, paths, cycles, stars, cliques, trees, grids, bipartite, unions of components, layered, "
      "uniform and skewed random up to about a thousand vertices, dense), with self loops, repeated edges and isolated vertices mixed in. ")

prop("C01", "An adjacency holds exactly the edges of the edge list it was built from",
     "For every edge list, the adjacency structure built from it by any construction route lists for each vertex exactly its out-neighbours (index 0), its in-neighbours (index 1) or, for an undirected list, the other end point of every incident edge, with multiplicity and with each edge's attributes attached to the right neighbour. "
     "Vertex and edge counts, degrees, neighbour ranges, iteration and the edge-to-source lookup all agree with that, vertices without edges (also past the last used id, when a vertex count is given) have empty rows, and requested sorting leaves each row in ascending order. "
     "Building does not change the edge list. All of this holds for every unsigned id and row-start type the class templates are given, as long as ids and entry counts fit them.",
     ["inputs", "configurations"], "every edge list (empty, self loops, repeated edges, isolated vertices), every attribute pack, directed or undirected, index 0 or 1, sorted or not, any execution policy, thread count and construction route",
     "The tests build a handful of fixed graphs without attributes and mostly check sizes; none compares every row, attribute and count over arbitrary edge lists and routes.",
     [I + "adjacency.hpp", I + "build.hpp", I + "containers/compressed.hpp", I + "containers/zip.hpp"],
     [("fill_directed / fill_undirected", I + "build.hpp"), ("index_adjacency constructors", I + "adjacency.hpp"), ("sort_to_be_indexed", I + "containers/compressed.hpp")],
     GR + "Each case builds one adjacency by one of nine routes and reads it back in every way offered; the oracle is a vector of rows filled edge by edge. Non-trivial: at least three edges.",
     ENG, "generated edge lists against a row-by-row reference model", ["adjacency rows", "num_vertices", "num_edges", "degrees", "source"])

prop("C02", "Edge-list transformations map the multiset of edges as documented",
     "Over every history of operations on an edge list (push, sort, stable and lexical sort, swap_to_triangular, remove_self_loops, uniq, relabel by a permutation or by degree, degrees, copy, assign), the list holds exactly the multiset of attributed edges that the history defines, and attributes never part from their edge. "
     "Sorting yields a permutation in the requested order, uniq keeps the first of every run of equal vertex pairs, triangular swaps keep the undirected edge set, relabelling applies one bijection to every end point, and the vertex and edge counts follow the contents.",
     ["histories", "inputs"], "every sequence of operations on every edge list, directed or undirected, with or without attributes",
     "The tests call each operation once on a fixed list; interactions (bounds after a removal, relabel after uniq, attributes under sorting) need histories.",
     [I + "edge_list.hpp", I + "build.hpp", I + "containers/soa.hpp", I + "graph_base.hpp"],
     [("edge list operations", I + "build.hpp"), ("index_edge_list", I + "edge_list.hpp")],
     GR + "Each case is a history of up to a few dozen operations run against a vector of edges in step. Non-trivial: at least two operations on at least three edges.",
     ENG, "stateful model-based testing of edge-list histories", ["edge list contents", "num_vertices", "num_edges", "is_open"])

prop("C15", "Every BFS returns a shortest-path tree of exactly the reachable vertices",
     "For every graph, root, thread count, schedule and tuning parameter (bins, alpha, beta), each breadth-first search returns one parent per vertex: the root is its own parent, a reachable vertex has a parent that is one of its in-neighbours and is exactly one hop nearer to the root, and an unreachable vertex has the null parent. "
     "This holds for the sequential, the direction-optimizing and every experimental variant.",
     ["inputs", "schedules", "configurations"], "every directed or symmetric graph (disconnected, with loops and repeated edges), root, thread count, interleaving and heuristic parameter",
     "The test checks one or two bundled graphs with default parameters and whatever interleaving happens; frontier switches, races and empty frontiers need many graphs, parameters and schedules.",
     [I + "algorithms/bfs.hpp", I + "experimental/algorithms/bfs.hpp", I + "util/AtomicBitVector.hpp", I + "util/atomic.hpp"],
     [("direction-optimizing search", I + "algorithms/bfs.hpp"), ("frontier bitmap", I + "util/AtomicBitVector.hpp"), ("cas", I + "util/atomic.hpp")],
     GR + "Half of the graphs are made symmetric; root, bins, alpha, beta and threads are drawn. The oracle is a queue-based search in the harness. The parallel searches run three times: under AddressSanitizer, with threads perturbed at function entries, and at full speed with few processes. Non-trivial: some vertex at distance two or more.",
     ENG, "generated graphs and schedules against a reference search", ["parents vector"])

prop("C16", "Component labellings give two vertices one label exactly when they are connected",
     "For every graph, neighbour-round count, thread count and schedule, each connected-components routine returns one label per vertex such that two vertices have the same label exactly when an undirected path joins them (afforest and the Shiloach-Vishkin variants also for graphs given by one orientation of each edge plus its transpose or not, label propagation for symmetric graphs).",
     ["inputs", "schedules", "configurations"], "every graph with any number of components, every interleaving, thread count and sampling parameter",
     "The tests use one graph and the default schedule; lost hooks between threads show up only under particular interleavings and component shapes.",
     [I + "algorithms/connected_components.hpp", I + "experimental/algorithms/connected_components.hpp"],
     [("link and compress", I + "algorithms/connected_components.hpp"), ("sample frequent element", I + "algorithms/connected_components.hpp")],
     GR + "The oracle is a disjoint-set forest in the harness; partitions are compared. Parallel routines run three times: AddressSanitizer, perturbed threads, full speed with few processes. Non-trivial: at least three vertices and two edges.",
     ENG, "generated graphs and schedules against a disjoint-set reference", ["label vector"])

prop("C17", "Every single-source shortest-path routine returns exact distances",
     "For every graph with non-negative edge weights, source, bucket width, thread count and schedule, Dijkstra and every delta-stepping variant return for each reachable vertex the exact least path weight and for each unreachable vertex the largest value of the distance type. "
     "This holds for integral and floating distance types, for zero weights, and for user-supplied weight functions, whatever the bucket width.",
     ["inputs", "schedules", "configurations"], "every non-negatively weighted graph, source, delta, distance type, thread count and interleaving",
     "Tests cover one bundled graph and one delta; buckets, re-relaxation and races depend on weight distribution, delta and interleaving.",
     [I + "algorithms/dijkstra.hpp", I + "algorithms/delta_stepping.hpp", I + "experimental/algorithms/delta_stepping.hpp"],
     [("relax", I + "algorithms/delta_stepping.hpp"), ("Dijkstra", I + "algorithms/dijkstra.hpp")],
     GR + "Weights (zero to 10^6, or dyadic fractions for floating types so that sums are exact), source and delta are drawn. The oracle is a queue-based Bellman-Ford. A distance type that yields the processor inside + and < widens the race windows of a relaxation. Non-trivial: at least three vertices reached.",
     ENG, "generated weighted graphs, deltas and schedules against Bellman-Ford", ["distance vector"])

prop("C18", "Betweenness scores equal their path-counting definition",
     "For every graph and set of sources, each betweenness routine returns for every vertex the sum, over the given sources s and every target t, of the fraction of the shortest s-t paths that pass through it (repeated edges count as different paths), divided by the largest score when normalisation is asked for. "
     "The result does not depend on execution policy, thread count, schedule or bin count; the routines that take sources include the source's own dependency or not, each consistently.",
     ["inputs", "schedules", "configurations"], "every directed or symmetric graph with repeated edges and isolated vertices, every list of sources (also repeated), policy, thread count, bin count and normalisation flag",
     "The test compares one bundled graph with one source against stored scores; path counts over parallel threads and disconnected graphs need generation.",
     [I + "algorithms/betweenness_centrality.hpp", I + "experimental/algorithms/betweenness_centrality.hpp"],
     [("parallel Brandes", I + "algorithms/betweenness_centrality.hpp"), ("atomic path counts", I + "util/atomic.hpp")],
     GR + "Scores come from all-pairs distances and path counts, by definition. Non-trivial: some vertex lies strictly inside a shortest path.",
     ENG, "generated graphs, sources and schedules against the path-counting definition", ["score vector"])

prop("C19", "PageRank returns a fixed point of its equation",
     "For every graph, damping factor, threshold, thread count and schedule, PageRank started with enough iterations returns ranks that satisfy r = (1-d)/n + d * sum over in-neighbours of r/outdegree up to the convergence threshold, hence lie within threshold/(1-d) of the unique solution. "
     "On graphs without dangling vertices the ranks add up to one within the same bound.",
     ["inputs", "schedules", "configurations"], "every directed or symmetric graph (loops, repeated edges, dangling and isolated vertices), damping, threshold, thread count",
     "The test compares one bundled graph with stored ranks; dangling vertices, other damping factors and schedules are not covered.",
     [I + "algorithms/page_rank.hpp", I + "experimental/algorithms/page_rank.hpp"],
     [("pull iteration", I + "algorithms/page_rank.hpp")],
     GR + "The oracle applies the equation once more and also solves it in the harness. Non-trivial: at least four edges and three vertices.",
     ENG, "residual and reference solution over generated graphs", ["rank vector"])

prop("C20", "Every triangle-counting variant returns the number of triangles",
     "For every simple undirected graph given with sorted rows and one orientation per edge, each sequential, parallel and experimental triangle counter returns the number of vertex triples that are pairwise adjacent, whatever the policies, thread count and schedule, and whether the vertices were renumbered by degree before. "
     "The preparation pipeline (relabel by degree, swap to triangular, sort, uniq, drop loops) does not change that number.",
     ["inputs", "schedules", "configurations"], "every undirected graph (loops and repeated edges removed by the pipeline), orientation, renumbering, policy and thread count",
     "The test uses one graph with a stored count; empty rows, cliques, stars and thread splits need generation.",
     [I + "algorithms/triangle_count.hpp", I + "experimental/algorithms/triangle_count.hpp", I + "util/intersection_size.hpp"],
     [("row intersections", I + "util/intersection_size.hpp"), ("cyclic partition", I + "adaptors/cyclic_range_adaptor.hpp")],
     GR + "The oracle enumerates triples over edge sets. Non-trivial: at least one triangle.",
     ENG, "generated graphs against triple enumeration", ["triangle count"])

prop("C21", "Intersection sizes and Jaccard similarities are exact",
     "For every pair of ascending ranges and any execution policy, the intersection size equals the number of common elements counted as the standard multiset intersection does. "
     "For every simple graph with sorted symmetric rows, Jaccard similarity writes on each edge u < v the size of the common neighbourhood divided by the size of the union, leaves all other entries unchanged and returns the number of edges.",
     ["inputs", "configurations"], "every pair of sorted ranges (also rows of a graph), every comparison, policy and simple graph",
     "The tests check two fixed pairs of ranges and one graph.",
     [I + "algorithms/jaccard.hpp", I + "util/intersection_size.hpp"],
     [("intersection_size", I + "util/intersection_size.hpp")],
     GR + "The oracle is std::set_intersection and neighbour sets. Non-trivial: a non-empty intersection.",
     ENG, "generated ranges and graphs against set operations", ["intersection size", "edge similarities"])

prop("C03", "A biadjacency holds exactly the edges of its bipartite edge list",
     "For every bipartite edge list, the two vertex sides are counted separately (largest id plus one on each side, or the declared size if larger), and a biadjacency over either side lists for each vertex of that side exactly the opposite end points of its edges, with multiplicity and attributes, for every construction route, copy and move. "
     "Degrees, edge counts, both vertex counts, the edge-to-source lookup and requested sorting agree with that. Degrees of one side, permutation by degree and relabelling of one side leave the other side untouched, and building does not change the list.",
     ["inputs", "histories", "configurations"], "every bipartite edge list (empty, unequal sides, isolated vertices, repeated edges), either side, with or without attributes, any policy and construction route",
     "The bipartite tests build a few small lists and check sizes; they never compare both sides' rows and counts over unequal sides, declared sizes and attributes.",
     [I + "edge_list.hpp", I + "adjacency.hpp", I + "build.hpp", I + "graph_base.hpp"],
     [("fill_biadjacency", I + "build.hpp"), ("index_biadjacency", I + "adjacency.hpp"), ("bipartite_graph_base", I + "graph_base.hpp")],
     "Bipartite graphs with up to a few hundred vertices a side, explicit, skewed, complete or matched, sides of unequal size, repeated edges. Each case builds one biadjacency by one of six routes after an optional one-sided relabelling; the oracle is a row-by-row model. Non-trivial: at least three edges.",
     ENG, "generated bipartite edge lists against a row-by-row reference model", ["biadjacency rows", "num_vertices of both sides", "degrees"])

prop("C05", "Tuple sequences behave as one vector of tuples",
     "A struct of arrays, a zip of ranges and an array of structs each behave, under every history of their operations, as one vector of tuples: push, write, resize, clear, move, copy, block permutation, indexing, iteration (const or not), random-access iterator arithmetic, comparison and standard algorithms (sequential and parallel sorts, reverse, rotate, find, for_each) never part the components of a tuple or touch other elements. "
     "Copies are independent, sequences of different length are unequal, and writes through a zip reach the underlying ranges.",
     ["histories", "inputs", "configurations"], "every sequence of operations and iterator moves on every contents, any execution policy and thread count",
     "The tests walk fixed contents forwards and sort once; iterator arithmetic, swaps through proxy references and histories of mixed operations are not explored.",
     [I + "containers/soa.hpp", I + "containers/zip.hpp", I + "containers/aos.hpp", I + "util/tuple_hack.hpp"],
     [("soa_iterator", I + "containers/soa.hpp"), ("zipped iterator", I + "containers/zip.hpp"), ("swap of reference tuples", I + "util/tuple_hack.hpp")],
     "Histories of up to 30 operations on sequences of three attributes, against std::vector<std::tuple>, re-read in every way after each step. Non-trivial: at least three operations and two elements.",
     ENG, "stateful model-based testing against a vector of tuples", ["elements", "size", "iterator positions"])

prop("C22", "Kruskal and Prim return optimal spanning forests",
     "For every weighted undirected graph, Kruskal's result is a subset of the graph's edges that spans every component without a cycle and has the least total weight (or the greatest, with the reversed comparison), leaving the input's edges intact; "
     "Prim's predecessors form a tree over exactly the component of the source, rooted at the source, made of graph edges, with the least total weight, and every other vertex has the null predecessor.",
     ["inputs"], "every undirected graph with integral or floating weights (negative, equal, loops, parallel edges, several components), every source and comparison",
     "The Kruskal test checks a few fixed graphs; Prim is not tested at all; disconnected graphs and ties are not covered.",
     [I + "algorithms/kruskal.hpp", I + "algorithms/prim.hpp", I + "util/disjoint_set.hpp"],
     [("kruskal", I + "algorithms/kruskal.hpp"), ("prim", I + "algorithms/prim.hpp")],
     GR + "The oracle is a dense-matrix greedy over each component. Non-trivial: the lightest and heaviest spanning forests differ.",
     ENG, "generated weighted graphs against an optimal forest computed independently", ["forest edges", "predecessors"])

prop("C23", "Maximal independent sets are independent and maximal",
     "For every undirected graph given symmetrically, each independent-set routine returns vertices of which no two are adjacent and to which no vertex can be added, each listed once, whatever the result container held before.",
     ["inputs", "schedules"], "every symmetric graph (isolated vertices, repeated edges; loops for the greedy routine), thread count and initial contents",
     "The tests check one bundled graph, the dag-based one not for maximality.",
     [I + "algorithms/maximal_independent_set.hpp", I + "algorithms/dag_based_mis.hpp", I + "adaptors/dag_range.hpp"],
     [("maximal_independent_set", I + "algorithms/maximal_independent_set.hpp"), ("dag_based_mis", I + "algorithms/dag_based_mis.hpp")],
     GR + "Graphs are made symmetric; the oracle checks the two defining conditions on the edge list. Non-trivial: at least three vertices and two edges.",
     ENG, "defining conditions checked over generated graphs", ["chosen vertices"])

prop("C24", "Greedy colouring is proper and uses at most max degree plus one colours",
     "For every undirected graph given symmetrically, Jones-Plassmann colouring gives every vertex a colour, neighbours different colours, and uses no more than one colour above the largest number of distinct neighbours.",
     ["inputs", "schedules"], "every symmetric graph (loops, repeated edges, isolated vertices), initial contents and thread count",
     "The test checks a few fixed graphs only.",
     [I + "algorithms/jones_plassmann_coloring.hpp", I + "algorithms/maximal_independent_set.hpp"],
     [("jones_plassmann_coloring", I + "algorithms/jones_plassmann_coloring.hpp")],
     GR + "Graphs are made symmetric; the oracle checks the defining conditions on the edge list. Non-trivial: at least three vertices and two edges.",
     ENG, "defining conditions checked over generated graphs", ["colours"])

prop("C27", "Sparse matrix products hold exactly the entries of the dense product",
     "For every pair of sparse matrices with matching inner dimension, spMatspMat and spMatspMatT return, in ascending order and once each, exactly the positions to which some pair of entries contributes, with the sum (or the given reduction) of the products (or the given map); elementwise intersection applies the map to exactly the common indices in order.",
     ["inputs"], "every pair of sparse matrices (empty rows, cancelling entries, sorted or unsorted rows), value type and semiring",
     "The test multiplies a few fixed matrices and compares stored values.",
     [I + "algorithms/spMatspMat.hpp"],
     [("spMatspMat", I + "algorithms/spMatspMat.hpp"), ("set_ewise_intersection", I + "algorithms/spMatspMat.hpp")],
     "Matrices up to 24 by 24 with integral or floating values, explicit, random or one entry per row. The oracle multiplies entry lists. Non-trivial: some pair of entries meets.",
     ENG, "generated sparse matrices against an entry-by-entry product", ["result entries"])

prop("C04", "Renumbering an adjacency in place keeps it the same graph",
     "Every in-place transformation of a built adjacency or biadjacency produces the graph it names, attributes still with their neighbours: sort_to_be_indexed only sorts rows, triangularize keeps exactly the neighbours before (or after) the row's vertex, permute_by_degree moves whole rows into ascending or descending order of degree and returns the permutation it applied, relabel_to_be_indexed renames neighbours through a given permutation and sorts, sort_by_degree does both and yields an isomorphic graph. "
     "The number of rows never changes, the structure stays readable in every way after each step, and renumbering one side of a bipartite graph and renaming it on the other side leaves both sides with the same edges.",
     ["histories", "inputs", "configurations"], "every adjacency or biadjacency, every sequence of these operations, direction, execution policy and thread count",
     "The tests triangularize or permute one small graph and look at one of its rows or counts; order among equal degrees, empty rows, attributes and combinations are not explored.",
     [I + "containers/compressed.hpp", I + "adjacency.hpp"],
     [("permute_by_degree, relabel_to_be_indexed, sort_by_degree", I + "containers/compressed.hpp"), ("triangularize", I + "containers/compressed.hpp"), ("sort_to_be_indexed", I + "containers/compressed.hpp")],
     GR + "Each case builds an adjacency and runs up to ten transformations against a vector of rows. Non-trivial: at least two operations of which one renumbers, on at least three edges.",
     ENG, "stateful model-based testing against a vector of rows", ["rows", "returned permutation", "counts"])

prop("C06", "The compressed container behaves as one vector of rows",
     "However it is built (from index and value arrays by copy or move, row by row with push_back, or by push_at), and after every history of moving in new contents, copying, assigning, writing through its ranges and sorting, an indexed struct of arrays presents exactly the rows it was given: sizes, degrees, indexing, iteration (const or not), random-access moves of its outer iterator, edge-to-row lookup and raw index and value arrays all agree, empty rows included. "
     "Copies are independent of the original.",
     ["histories", "inputs", "configurations"], "every contents including empty rows and no rows at all, every order of operations, 32- and 64-bit indices",
     "The tests build one fixed matrix and traverse it forwards; iterator arithmetic, empty rows, re-filling and aliasing of copies are not explored.",
     [I + "containers/compressed.hpp"],
     [("indexed_struct_of_arrays", I + "containers/compressed.hpp"), ("outer_iterator", I + "containers/compressed.hpp")],
     "Histories of up to twelve operations on containers of up to a dozen rows, against a vector of vectors of tuples re-read after each step. Non-trivial: at least two operations and two non-empty rows.",
     ENG, "stateful model-based testing against a vector of rows", ["rows", "indices", "source", "iterator positions"])

prop("C07", "Binary serialisation round-trips every container and graph",
     "Writing a struct of arrays, array of structs, zip, compressed container, edge list, adjacency or biadjacency to a stream or file and reading it back, into a fresh target or one that already holds something else, yields an object with the same elements, vertex counts and edge counts, equal to the original and usable further. "
     "Each object reads exactly the bytes it wrote, so several can follow one another in one stream, writing it again gives the same bytes, and an edge list read as the other directedness keeps its edges and prints a warning.",
     ["inputs", "histories", "configurations"], "every contents (empty included), attribute pack and target state, any number of objects per stream, stream or file",
     "The tests contain no round trip; sample programs write one file by hand.",
     [I + "containers/soa.hpp", I + "containers/aos.hpp", I + "containers/zip.hpp", I + "containers/compressed.hpp", I + "edge_list.hpp", I + "adjacency.hpp", I + "graph_base.hpp"],
     [("serialize / deserialize of the containers", I + "containers/soa.hpp"), ("of edge lists", I + "edge_list.hpp"), ("of adjacencies", I + "adjacency.hpp")],
     "Sequences of up to six objects of five kinds in one stream, or one file written over and over; edge lists and adjacencies of up to 3000 edges. Non-trivial: an object with at least two (graphs: three) elements.",
     ENG, "generated round trips through the binary format", ["elements", "counts", "bytes consumed"])

prop("C08", "Matrix Market files are read and written exactly",
     "Reading Matrix Market text in any spelling the format allows (comments, blanks, tabs, CR LF, with or without a final newline, pattern, integer or real, general or symmetric, square or not) gives exactly the entries as 0-based edges, values attached, both orientations of a symmetric file in a directed list, one in an undirected list, and at least the announced number of vertices; vectors of ids likewise. "
     "Writing an edge list, adjacency or biadjacency produces a valid file with the right sizes and counts that represents exactly the graph, from which the library reads the same graph back bit for bit. Text that is not a supported matrix, is malformed or ends early is refused.",
     ["inputs", "configurations"], "every matrix, spelling of it, target type, index 0 or 1, value type and symmetry",
     "The tests read two bundled files and only print them, and never look at what they wrote.",
     [I + "io/mmio.hpp"],
     [("read_mm, mm_fill", I + "io/mmio.hpp"), ("write_mm", I + "io/mmio.hpp"), ("read_mm_vector", I + "io/mmio.hpp")],
     "Matrices of up to 400 entries with values from small integers to scattered doubles. The harness writes and parses the text independently; loops of undirected lists written as general are excluded. Non-trivial: at least three entries.",
     ENG, "generated files and graphs against an independent writer and parser", ["edges read", "file contents", "exceptions"])

prop("C09", "The mapped Matrix Market reader delivers every entry exactly once",
     "For every coordinate file, mmio::MatrixMarketFile reports the sizes and kind the header states, one pass over it yields every entry in order with 0-based indices and its values in column order, and however the range of edges is cut into consecutive pieces, read one after another or by several threads, the pieces together are exactly the file. "
     "This holds whether or not the file ends with a newline or fills its last page, and releasing it closes what it opened.",
     ["inputs", "configurations"], "every file size and length of lines, any cuts into pieces, any value columns",
     "No test uses this reader: its only caller is disabled.",
     [I + "io/MatrixMarketFile.hpp", I + "io/mmio_nist.h"],
     [("MatrixMarketFile::at", I + "io/MatrixMarketFile.hpp"), ("iterator", I + "io/MatrixMarketFile.hpp"), ("mm_read_mtx_crd_size", I + "io/mmio_nist.h")],
     "Files of up to 400 entries padded by comments to sizes around multiples of a page, up to ten pieces. Non-trivial: at least three entries.",
     ENG, "generated files, cuts and threads against the generated entries", ["entries", "sizes", "open files"])

prop("C12", "Range adaptors present exactly the graph they view",
     "Over every graph representation the library accepts, edge_range yields every edge once in row order with its source and the selected attributes as references into the graph, neighbor_range every vertex with its row, plain_range every vertex and plain_degree_range every vertex with its degree, from any starting offset, for const graphs, with copies of iterators moved independently. "
     "back_edge_range lists each vertex's edges and the missing reverses, one object per direction however it is reached; random_range walks along edges until its length or a dead end, reproducibly; reverse_path follows predecessors to its stop; worklist_range hands out items in order; dag_range yields every edge of an acyclic relation once, each vertex after all its predecessors; on every range != is the negation of ==.",
     ["inputs", "configurations", "histories"], "every graph (empty rows anywhere), attribute selection, offset, container type and order of iterator moves",
     "The tests walk one or two fixed graphs from beginning to end.",
     [I + "adaptors/edge_range.hpp", I + "adaptors/neighbor_range.hpp", I + "adaptors/plain_range.hpp", I + "adaptors/back_edge_range.hpp", I + "adaptors/random_range.hpp", I + "adaptors/reverse.hpp", I + "adaptors/worklist.hpp", I + "adaptors/dag_range.hpp"],
     [("edge_range", I + "adaptors/edge_range.hpp"), ("back_edge_range", I + "adaptors/back_edge_range.hpp"), ("neighbor_range", I + "adaptors/neighbor_range.hpp")],
     GR + "Views are taken of an adjacency and of vectors of vectors, lists and forward lists; the oracle is the rows read by subscript. Back edges are checked on simple graphs. Non-trivial: at least three edges in two rows (walks: four steps).",
     ENG, "generated graphs and iterator histories against the rows themselves", ["yielded tuples", "attributes written", "sizes"])

prop("C13", "Splitting a range for parallel work loses and repeats nothing",
     "However an edge, neighbor, plain, vertex, splittable or cyclic range is split, again and again in any order, the pieces together hold exactly the elements of the original, each once, in order (cyclic pieces: interleaved, each ascending), with sizes that add up, and a range that says it is divisible divides into two non-empty parts. "
     "parallel_for therefore applies its operator exactly once to every element, with the element unpacked and writable, and parallel_reduce gives the sequential result for every associative reduction with neutral start, whatever the number of threads. Vertex ranges and counting iterators measure and split correctly up to the largest id.",
     ["inputs", "histories", "schedules", "configurations"], "every range length, offset, cutoff, history of splits and number of threads",
     "The tests iterate over whole ranges only, and splitting is left to what TBB happens to do on tiny inputs.",
     [I + "adaptors/splittable_range_adaptor.hpp", I + "adaptors/cyclic_range_adaptor.hpp", I + "adaptors/cyclic_neighbor_range.hpp", I + "adaptors/edge_range.hpp", I + "adaptors/neighbor_range.hpp", I + "adaptors/plain_range.hpp", I + "adaptors/vertex_range.hpp", I + "util/parallel_for.hpp"],
     [("split constructors", I + "adaptors/splittable_range_adaptor.hpp"), ("cyclic_range_adaptor", I + "adaptors/cyclic_range_adaptor.hpp"), ("parallel_for, parallel_reduce", I + "util/parallel_for.hpp")],
     "Ranges of up to a few hundred elements over adjacencies, vectors of vectors and plain sequences, up to 48 splits chosen by the generator, and TBB with one to eight threads. Non-trivial: two splits of three elements, or more than sixteen elements.",
     ENG, "generated split histories and parallel runs against the list of elements", ["pieces", "visits per element", "reduced value"])

prop("C14", "Traversal ranges visit what can be reached, once, breadth first",
     "From every seed of every graph, bfs_edge_range yields exactly one edge into every other vertex that can be reached, in an order of increasing distance with each source already visited and the edge's own attributes attached; topdown_bfs_range yields the vertices themselves in that order, bfs_edge_range3 the parent-child pairs. "
     "filtered_bfs_edge_range does the same over the edges its filter lets pass, asks the filter about real edges only, stops with the edge that reaches the target and otherwise reports it unreachable. A seed without edges, or with edges to itself only, gives an empty traversal.",
     ["inputs"], "every graph (self loops, repeated edges, unreachable parts), seed, target and filter",
     "The tests traverse one graph from two seeds, and most of these cases are compiled out.",
     [I + "adaptors/bfs_edge_range.hpp", I + "adaptors/bfs_range.hpp", I + "adaptors/filtered_bfs_range.hpp"],
     [("bfs_edge_range", I + "adaptors/bfs_edge_range.hpp"), ("topdown_bfs_range", I + "adaptors/bfs_range.hpp"), ("filtered_bfs_edge_range", I + "adaptors/filtered_bfs_range.hpp")],
     GR + "Filters block a random part of the edges. The oracle is a queue-based search in the harness plus the conditions of a breadth-first tree. Non-trivial: some vertex at distance two or more.",
     ENG, "generated graphs against the conditions of a breadth-first tree", ["edges yielded", "levels", "found"])

prop("C25", "max_flow finds a maximum flow; bk_maxflow its value and a minimum cut",
     "For every network with non-negative integral capacities, source and sink, max_flow over a back_edge_range returns the value of a maximum flow, for any choice of attributes for capacity and flow and whether back edges are made at once or as needed, and the flow attributes it leaves respect every capacity, are conserved at every other vertex, and leave no augmenting path. For every such network whose vertices also have a capacity from the source or to the sink, the value bk_maxflow returns plus the capacities to the sink is the value of a maximum flow, and the trees it returns separate source and sink by a cut of that capacity.",
     ["inputs", "configurations"], "every simple directed graph, capacities, source and sink, value type and dictionary",
     "Their tests are not built; they compute the flow of a few fixed networks.",
     [I + "algorithms/max_flow.hpp", I + "algorithms/boykov_kolmogorov.hpp", I + "adaptors/back_edge_range.hpp", I + "adaptors/filtered_bfs_range.hpp", I + "adaptors/reverse.hpp"],
     [("max_flow", I + "algorithms/max_flow.hpp"), ("bk_maxflow", I + "algorithms/boykov_kolmogorov.hpp"), ("back_edge_range", I + "adaptors/back_edge_range.hpp")],
     "Layered networks with edges back and across, and graphs of thirteen families, up to about seventy vertices, capacities up to 400000. The oracle is a capacity-scaling augmenting-path algorithm on a dense matrix. Non-trivial: a positive flow and at least four edges.",
     ENG, "generated networks against an independent maximum flow and the conditions of a flow", ["value", "flow per edge", "minimum cut"])
prop("C10", "Graphs built from vertex and edge tables are those the tables describe",
     "For every table of distinct vertices and table of edges between them, make_plain_graph, make_index_graph and make_property_graph give each vertex (by its position in the table) exactly the edges of the table that leave it, enter it (idx 1) or, when undirected, touch it, as bare neighbours, with the position of the edge in its table, or with the edge's properties. "
     "The bipartite builders do so for two vertex tables of any sizes, with one row per vertex of the side asked for, and join lists for each vertex every other vertex of its side it shares a neighbour with, once per shared neighbour and together with it (for any two graphs: the ends of every path of an edge of one and an edge of the other that leads elsewhere). The index map and index edge lists name the positions in the tables.",
     ["inputs", "configurations"], "every vertex table and edge table, key type, properties, direction, side, and container of the result",
     "No test builds a graph from tables.",
     [I + "build.hpp", I + "graph_concepts.hpp"],
     [("make_property_graph", I + "build.hpp"), ("make_bipartite_graph", I + "build.hpp"), ("join", I + "build.hpp")],
     "Tables with string and integer keys in random order, graphs of twelve families as edges (loops, repeated edges, isolated vertices), bipartite tables with sides of different and zero sizes. Non-trivial: at least three edges and three vertices (two tables: sides of different sizes).",
     ENG, "generated tables against rows computed from positions", ["rows", "edge lists", "index map"])
prop("C11", "adj_list, adj_flist and vov hold exactly the edges put into them",
     "An adj_list, adj_flist or vov filled from an edge list has one row per vertex of the list and holds in each row exactly the edges that leave the vertex (index 0), enter it (index 1) or touch it (undirected list), with their attributes, in the order of the list (adj_flist: the reverse), without changing the edge list. Edges pushed later are added at the end (adj_flist: the front) of the row of their vertex, which is created when needed. num_vertices, num_edges, target and edge_range agree with the rows, and a copy is independent.",
     ["inputs", "configurations", "histories"], "every edge list, attribute pack, direction and index, and sequence of push_back",
     "The tests construct a few and print some; one fills a vov and prints it.",
     [I + "volos.hpp", I + "vofos.hpp", I + "vovos.hpp", I + "build.hpp"],
     [("adj_list", I + "volos.hpp"), ("adj_flist", I + "vofos.hpp"), ("vov", I + "vovos.hpp"), ("fill_adj_list", I + "build.hpp")],
     "Graphs of twelve families (loops, repeated edges, isolated vertices) as directed and undirected edge lists with and without attributes, followed by pushes beyond the last row; containers grown from empty. Non-trivial: at least three edges.",
     ENG, "generated edge lists and pushes against rows kept by a model", ["rows in order", "counts", "edge_range"])
prop("C28", "The bit vector and the atomic helpers lose no update under threads",
     "An AtomicBitVector of any size and word type reads as set exactly the bits set since it was created or cleared; set and atomic_set return the previous value, its iterators and every way of splitting non_zeros yield each set bit once, and moving one keeps its bits. When threads set bits at once none is lost and exactly one of them is told each bit was unset. load, store, cas, fetch_add and fetch_or do on plain and on atomic objects what the operation of std::atomic does, sums and loops of threads are exact (floating point too), and whatever is written before a release (store, cas, fetch_add or atomic_set) is there after the acquire that sees it.",
     ["inputs", "histories", "schedules"], "every sequence of operations, size, word and value type, and interleaving of threads",
     "The tests have no concurrent use of these, and interleavings cannot be listed by examples.",
     [I + "util/AtomicBitVector.hpp", I + "util/atomic.hpp", I + "util/traits.hpp"],
     [("AtomicBitVector", I + "util/AtomicBitVector.hpp"), ("fetch_add", I + "util/atomic.hpp"), ("cas", I + "util/atomic.hpp")],
     "Operation histories of up to 300 steps on bit vectors of 0 to 2000 bits in words of 8 to 64 bits against a vector of flags; two to six threads that start together on few words (high contention) or many; hand-over of plain data between threads under the thread sanitizer. Non-trivial: two set bits and two words, or at least 100 concurrent operations.",
     ENG, "generated histories and concurrent runs against a vector of flags, exact sums, and the thread sanitizer", ["bits read", "winners of a bit", "sums", "unordered accesses"])
prop("C30", "Disjoint sets keep the partition their unions describe",
     "After every sequence of unions (disjoint_union, disjoint_union_find, unionBySize, unionByHeight, join, UnionBySplicing), finds with and without path compression, resets and copies, two elements have the same representative exactly when the unions connect them, the representative is a member of the set, and the number of sets, the sizes, the subsets, the compact labels and the roots visited describe that same partition. disjoint_union_find tells whether it merged two sets, trees made by unions of different sets are no deeper than the logarithm of their size, an index out of range is refused, and a copy is independent.",
     ["inputs", "histories"], "every sequence of operations on any number of elements, and both representations of a root",
     "No test uses the class; the functions are used by one test on one small graph.",
     [I + "util/disjoint_set.hpp"],
     [("disjoint_find", I + "util/disjoint_set.hpp"), ("disjoint_union_find", I + "util/disjoint_set.hpp"), ("disjoint_set", I + "util/disjoint_set.hpp"), ("UnionBySplicing", I + "util/disjoint_set.hpp")],
     "Histories of up to five hundred operations on up to three hundred elements against a partition kept as labels. Non-trivial: at least three unions of different sets.",
     ENG, "generated histories of unions against a partition kept as labels", ["representatives", "sizes and counts", "subsets and labels"])
prop("C33", "Algorithms and views give the same answers whatever container holds the graph",
     "The algorithms and views that accept any adjacency_list_graph work alike on graphs held in nested containers of the standard library (vectors, deques, lists or forward lists of vertex ids or of tuples) and in the library's own adj_list, adj_flist and vov: bfs, brandes_bc, dijkstra, delta_stepping, delta_stepping_m1, prim, jones_plassmann_coloring, maximal_independent_set, dag_based_mis, triangle_count, afforest, page_rank, edge_range, neighbor_range and bfs_edge_range are right for every such graph whose container offers what they need, and num_vertices and target describe the rows as they are.",
     ["inputs", "configurations"], "every graph, in every container that models adjacency_list_graph, with and without edge attributes, and vertex ids of 32 or 64 bits",
     "The tests run a few algorithms on the library's compressed adjacency; other containers are only shown to satisfy the concepts.",
     [I + "graph_concepts.hpp", I + "volos.hpp", I + "vofos.hpp", I + "vovos.hpp", I + "algorithms/bfs.hpp", I + "algorithms/betweenness_centrality.hpp", I + "algorithms/dijkstra.hpp", I + "algorithms/delta_stepping.hpp", I + "algorithms/prim.hpp", I + "algorithms/triangle_count.hpp", I + "adaptors/edge_range.hpp"],
     [("adjacency_list_graph", I + "graph_concepts.hpp"), ("num_vertices", I + "graph_concepts.hpp"), ("adj_list", I + "volos.hpp"), ("vov", I + "vovos.hpp")],
     "Graphs of twelve families with loops, repeated edges and isolated vertices (simple and symmetric, or upper triangular, where the algorithm needs that) up to about seventy vertices, in nine containers, fifteen algorithms and views. Non-trivial: at least four edges and three vertices.",
     ENG, "generated graphs in many containers against reference algorithms and the conditions of a solution", ["results of each algorithm", "views"])
prop("C32", "The verifiers accept the right results and refuse the others",
     "BFSVerifier accepts a vector of parents exactly when it describes a shortest-path tree of the vertices reachable from the source, CCVerifier a labelling exactly when two vertices have one label if and only if they are connected, and BCVerifier scores exactly when each is within 1e-6 of the (normalised) dependency sums over the given sources; for every graph, with any number of components, loops and repeated edges, and every candidate result.",
     ["inputs"], "every graph and every candidate result, right or wrong by one entry",
     "The tests give the verifiers only right results, so one that accepts everything passes.",
     [I + "algorithms/bfs.hpp", I + "algorithms/connected_components.hpp", I + "algorithms/betweenness_centrality.hpp"],
     [("BFSVerifier", I + "algorithms/bfs.hpp"), ("CCVerifier", I + "algorithms/connected_components.hpp"), ("BCVerifier", I + "algorithms/betweenness_centrality.hpp")],
     GR + "Candidates are right results, results of the wrong shape (a parent one level off, not a neighbour, missing; components merged or split; a score moved) and mixtures. The oracle decides each candidate from the definition. Scores so near the tolerance that rounding decides are not judged. Non-trivial: at least three vertices and three edges.",
     ENG, "generated candidates, right and wrong, against the definitions", ["verdict"])
prop("C35", "The benchmark drivers read, run, verify and report for every graph and option",
     "For every graph in a Matrix Market or binary file and every valid combination of options, the drivers bfs, cc, bc, pr, sssp and tc run each version asked for on each thread count the asked number of times, list each once in the table of times with minimum <= average <= maximum, log every run asked to be logged in one row with every column of the header (tc: one JSON record with the number of triangles), verify the right results as right, and report the right components and cluster sizes, ranks and number of triangles. process_edge_list writes the edges of a file so that reading them back gives the same; sources counts exactly the sources that differ from those the seed gives; random sources are vertices with an edge.",
     ["inputs", "configurations"], "every graph, file format, symmetry and field of the file, version, number of threads, trials and iterations, choice of sources, relabelling and order",
     "No test runs a driver.",
     ["bench/common.hpp", "bench/bfs.cpp", "bench/cc.cpp", "bench/bc.cpp", "bench/pr.cpp", "bench/sssp.cpp", "bench/tc.cpp", "bench/ProcessEdgelist.cpp", "bench/SourceVerifier.cpp", "bench/Log.hpp"],
     [("Times", "bench/common.hpp"), ("build_random_sources", "bench/common.hpp"), ("main", "bench/tc.cpp"), ("SSSPVerifier", "bench/sssp.cpp")],
     GR + "A graph is written as text in one of many spellings or in the binary format, a command line is drawn, and the driver's main runs inside the harness with its output captured. The oracle computes components, triangles, ranks and distances itself. Non-trivial: at least three vertices and edges (tc: a triangle).",
     ENG, "generated files and command lines; output against results computed by the harness", ["standard output", "table of times", "log", "files written"])
prop("C31", "The small utilities compute what their names say",
     "proxysort gives, in any index type and into a vector of its own or a given one, the positions of the keys in the order of the comparison, each once, without changing the keys. log2, ceil_log2 and pow2 are exact for every positive value of their type, and block splits N elements into n contiguous blocks that cover them all and differ by at most one in size. histogram counts every value once; the counting iterators (also the parallel and atomic one, under threads) count every element written. select returns the chosen elements of a tuple and leaves the tuple as it was; swap of tuples of references swaps what they refer to; make_priority_queue delivers by its comparison and permutation_iterator visits the elements in the order of the permutation; a provenance streams the lines pushed into it, in order and trimmed, and an assigned one those of its source.",
     ["inputs", "histories", "schedules"], "every sequence of keys, number, tuple, permutation, history of a provenance, and number of threads",
     "The tests call proxysort and the tuple helpers on one or two values each; most of these are not called at all.",
     [I + "util/proxysort.hpp", I + "util/util.hpp", I + "util/util_par.hpp", I + "util/tuple_hack.hpp", I + "util/make_priority_queue.hpp", I + "util/permutation_iterator.hpp", I + "util/provenance.hpp"],
     [("proxysort", I + "util/proxysort.hpp"), ("ceil_log2", I + "util/util.hpp"), ("block", I + "util/util_par.hpp"), ("select", I + "util/util.hpp"), ("provenance", I + "util/provenance.hpp")],
     "Keys of six types (repeated, descending, up to four hundred), numbers of every magnitude and around powers of two, blocks of up to 100000 elements, histories of three provenance objects. Non-trivial: three different keys or elements, a remainder in the blocks, or a history with a copy.",
     ENG, "generated values and histories against direct definitions", ["positions", "numbers", "counts", "streams"])
prop("C36", "Containers and timers print what they hold, to the stream asked for",
     "stream and stream_edges of an edge list write its edges with their attributes, one to a line, in order and each once; stream of an adjacency or biadjacency writes every (row, neighbor) pair in order after the message, stream_indices every row, and array_of_structs every tuple; stream_stats names the number of vertices (indices) and edges. Everything goes to the stream given, or to std::cout when none is, and printing changes nothing. A timer holds the whole units of its clock between its last start and stop, lap and elapsed agree, it prints its name, time and unit, and a life_timer prints once, at its end, if it has a name.",
     ["inputs", "histories"], "every edge list, adjacency and tuple container with any attributes, and history of a timer",
     "The tests print some graphs and look at none of the output.",
     [I + "edge_list.hpp", I + "containers/compressed.hpp", I + "containers/aos.hpp", I + "util/timer.hpp"],
     [("stream_edges", I + "edge_list.hpp"), ("stream_indices", I + "containers/compressed.hpp"), ("stream", I + "containers/aos.hpp"), ("timer", I + "util/timer.hpp")],
     "Edge lists of up to three hundred edges in five types, adjacencies of graphs of twelve families, tuples of numbers and strings, histories of a timer. Non-trivial: at least three edges or elements (timers: two operations).",
     ENG, "generated containers and histories; the text captured against the text expected", ["text on the given stream", "text on std::cout"])
