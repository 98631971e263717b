"""The properties, and how each check decides its own."""


def P(id, title, statement, over, qtext, why, files, mech, how, note, observe=()):
    return {"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
            "anchors": {"files": ["pydatastructs/" + f for f in files],
                        "mechanism": [{"name": a, "where": "pydatastructs/" + b} for a, b in mech],
                        "observe_at": list(observe), "hook_needed": None},
            "how": how, "note": note}


SAMPLED = ("Seeded sampling of runs, not a proof: every failure found is real and replays exactly; "
           "absence of failures is evidence for the sampled schedules, inputs and faults only. ")
THREADS = SAMPLED + ("The package's real code and CPython's real ThreadPoolExecutor, queue and "
                     "threading run on simulated primitives (_thread); every choice of who runs, "
                     "at lock, line or bytecode granularity, is the simulator's. Trusts the "
                     "scheduler in sim/simthread.py and CPython.")
SINGLE = SAMPLED + ("The real classes run; the simulator owns the seams (comparators, elements, "
                    "object construction, random draws) through which operations fail in the "
                    "middle. Trusts CPython and the reference model in the scenario.")

PROPS = [
    P("P01", "Parallel sorts sort exactly the given range, for every schedule and fault",
      "For every array with any empty slots, sub-range, comparator and number of worker threads, "
      "and for every interleaving of the workers, the parallel merge sort and the parallel brick "
      "sort put the range in order with empty slots last, touch nothing outside it, end, and "
      "leave no worker running; the merge sort keeps equal elements in their order when the "
      "comparator holds for equal elements. If the comparator raises or a worker thread cannot be started, "
      "that error reaches the caller and the array still holds exactly the same elements, and "
      "can be appended to if it is dynamic. Calls made by different threads on different arrays do not influence each other.",
      ["schedules", "inputs", "fault_sequences"],
      "all arrays, ranges, comparators, worker counts, thread interleavings, failing comparator "
      "calls and failing thread starts",
      "The tests sort a few arrays with five workers on whatever schedule the machine happens to "
      "produce, never with a failing comparator, an empty range or a failing thread start.",
      ["linear_data_structures/algorithms.py", "linear_data_structures/arrays.py"],
      [("workers sort disjoint blocks, one barrier per level", "linear_data_structures/algorithms.py: merge_sort_parallel"),
       ("odd and even phases of disjoint swaps", "linear_data_structures/algorithms.py: brick_sort_parallel")],
      "controlled thread schedules with failing comparators and thread starts against a sorted-permutation oracle", THREADS,
      ["array contents and raised error after the call"]),
    P("P02", "Parallel matrix multiplication equals the mathematical product",
      "For all matrices of compatible shapes, element types and numbers of worker threads, and "
      "for every interleaving of the workers, the parallel product equals the mathematical "
      "product and the operands are unchanged. Incompatible shapes are rejected with a value "
      "error. If the arithmetic of an element raises or a worker cannot be started, that error "
      "reaches the caller instead of a wrong matrix.",
      ["schedules", "inputs", "fault_sequences"],
      "all shapes, element types, worker counts, interleavings, failing element operations and "
      "failing thread starts",
      "One test multiplies two square-ish matrices with a fixed number of workers; shapes, "
      "failing arithmetic and schedules are never varied.",
      ["linear_data_structures/algorithms.py"],
      [("one task per result element", "linear_data_structures/algorithms.py: matrix_multiply_parallel")],
      "controlled thread schedules with failing arithmetic and thread starts against the schoolbook product", THREADS,
      ["returned matrix, raised error"]),
    P("P03", "Parallel breadth-first search visits each vertex once, layer by layer",
      "For every graph, source, visitor and number of worker threads, and for every "
      "interleaving, the parallel breadth-first search visits exactly the vertices reachable "
      "from the source, each once, no layer before the previous one has been visited completely, "
      "and reports success. When a visitor answers false for a vertex the search stops after that "
      "layer and reports failure; when a visitor raises or a worker cannot be started the error "
      "reaches the caller. The graph is never changed.",
      ["schedules", "inputs", "fault_sequences"],
      "all graphs in both representations, sources, worker counts, interleavings, hash seeds, "
      "visitor cancellations and failures, failing thread starts",
      "The tests run two tiny acyclic graphs, once per representation, on the schedule the "
      "machine gives.",
      ["graphs/algorithms.py", "graphs/graph.py", "graphs/adjacency_list.py", "graphs/adjacency_matrix.py"],
      [("layer barrier and visited set", "graphs/algorithms.py: breadth_first_search_parallel")],
      "controlled thread schedules and hash seeds with cancelling, raising visitors against reference layers", THREADS,
      ["order of visitor calls, returned status"]),
    P("P04", "Parallel minimum spanning trees are minimum spanning trees",
      "For every undirected graph, also with weights of zero and below, number of workers and "
      "interleaving, the parallel minimum spanning tree (Kruskal for both graph representations, "
      "Prim for adjacency lists) consists of edges of the graph with their weights, has no cycle, "
      "connects what the graph connects (for Prim: one whole component) and has minimum total "
      "weight. The input graph is unchanged and shares no mutable state with the result. A worker "
      "that cannot be started makes the call fail with that error rather than return a wrong tree.",
      ["schedules", "inputs", "fault_sequences"],
      "all undirected weighted graphs incl. ties and disconnected ones, both algorithms, worker "
      "counts, interleavings, hash seeds, failing thread starts",
      "The tests check the weights of three fixed graphs.",
      ["graphs/algorithms.py", "miscellaneous_data_structures/disjoint_set.py", "miscellaneous_data_structures/queue.py", "linear_data_structures/algorithms.py"],
      [("edges sorted in parallel, then joined by disjoint sets", "graphs/algorithms.py: _minimum_spanning_tree_parallel_kruskal_adjacency_list"),
       ("priority queue of edges", "graphs/algorithms.py: _minimum_spanning_tree_parallel_prim_adjacency_list")],
      "controlled thread schedules, hash seeds and failing thread starts against a reference spanning forest", THREADS,
      ["edges and vertices of the result, input graph before and after"]),
    P("P05", "Parallel topological sort returns a valid order or reports the cycle",
      "For every directed graph, number of workers and interleaving, the parallel topological "
      "sort returns every vertex once with every edge pointing forward if the graph is acyclic, "
      "and raises a value error if it has a cycle. It always ends and leaves no worker running. A "
      "worker that cannot be started makes the call fail with that error rather than return an "
      "invalid order.",
      ["schedules", "inputs", "fault_sequences"],
      "all directed graphs, worker counts, interleavings, hash seeds, failing thread starts",
      "One fixed graph with one worker count, never cyclic in parallel.",
      ["graphs/algorithms.py"],
      [("in-degree counters shared by the workers under a lock", "graphs/algorithms.py: _kahn_adjacency_list_parallel")],
      "controlled thread schedules, hash seeds and failing thread starts against edge order", THREADS,
      ["returned order or error"]),
    P("P06", "A skip list is an ordered collection whatever the coin flips",
      "For every stream of coin flips and every history of insertions, extractions and searches, "
      "a skip list holds exactly the inserted and not yet extracted items in key order, finds "
      "precisely those, and extracting a missing key fails with a key error and changes nothing. "
      "If an allocation fails in the middle of an operation, the list is as before or as after "
      "that operation and stays usable.",
      ["histories", "inputs", "fault_sequences"],
      "all histories, key types, coin-flip streams and failing allocations",
      "The tests insert about ten keys with whatever coin flips the random module gives.",
      ["linear_data_structures/linked_lists.py"],
      [("towers of linked nodes with random heights", "linear_data_structures/linked_lists.py: SkipList")],
      "simulated coin-flip streams and failing allocations against a sorted-list model", SINGLE,
      ["every level of the list after every operation"]),
    P("P07", "Linked lists are sequences, also when a node cannot be created",
      "For every history of insertions, extractions, pops and lookups with any index, each of the "
      "four linked lists (single, double, circular or not) behaves like the sequence those "
      "operations build, forwards and, where links lead back, backwards, and its length is right. "
      "An index out of range, a bad reference node or a failing node allocation makes the "
      "operation fail and leaves the list exactly as it was.",
      ["histories", "inputs", "fault_sequences"],
      "all histories, positive, negative and out-of-range indices, failing allocations",
      "The tests use one history per class and never fail an allocation; negative and "
      "out-of-range indices are tried once.",
      ["linear_data_structures/linked_lists.py"],
      [("head, tail and size updated together", "linear_data_structures/linked_lists.py: insert_at, extract")],
      "failing allocations and bad requests inside histories against a Python list model", SINGLE,
      ["forward and backward traversal after every operation"]),
    P("P08", "Stacks and queues are LIFO and FIFO, also when growth or copying fails",
      "For every history of pushes and pops at either end, each stack (array, linked list, C++) "
      "and queue (array, linked list, double-ended) returns the elements in LIFO or FIFO order, "
      "reports length, emptiness, front and rear correctly, and refuses to pop when empty. An "
      "element of the wrong type, a failing element copy or a failing allocation makes the "
      "operation fail with that error and leaves the contents as they were or as after the "
      "operation; no element is ever lost, duplicated or reordered.",
      ["histories", "inputs", "fault_sequences"],
      "all implementations, histories, element types, failing allocations and copies",
      "The tests push and pop a handful of items and never fail an allocation or shrink and "
      "regrow the array repeatedly.",
      ["miscellaneous_data_structures/stack.py", "miscellaneous_data_structures/queue.py", "miscellaneous_data_structures/_backend/cpp/stack/ArrayStack.hpp", "linear_data_structures/arrays.py"],
      [("dynamic array grown and contracted under the queue", "miscellaneous_data_structures/queue.py: ArrayQueue"),
       ("dynamic array under the stack", "miscellaneous_data_structures/stack.py: ArrayStack")],
      "failing allocations, copies and rejected elements inside histories against a deque model", SINGLE,
      ["results, length, ends, iteration after every operation"]),
    P("P09", "Heaps and priority queues always deliver the extreme element",
      "For every history of insertions, extractions, peeks, key decreases, deletions and merges "
      "over keys with ties, the d-ary, binomial and linked-list based heaps and priority queues "
      "deliver an element that is extreme by the given order, and hold exactly the elements not "
      "yet removed. If a key comparison raises or an allocation fails in the middle of an "
      "operation, the error reaches the caller, no element is lost or duplicated, and later "
      "extractions still come out in order.",
      ["histories", "inputs", "fault_sequences"],
      "all heap kinds, arities, comparators, histories, failing comparisons and allocations",
      "The tests use one short history per heap and never a comparison that fails.",
      ["trees/heaps.py", "miscellaneous_data_structures/queue.py", "miscellaneous_data_structures/binomial_trees.py"],
      [("sift up and down", "trees/heaps.py: DHeap._heapify"),
       ("merge of binomial trees of equal order", "trees/heaps.py: BinomialHeap.merge")],
      "failing comparisons and allocations inside histories against a sorted multiset model", SINGLE,
      ["results, heap order and contents after every operation"]),
    P("P10", "Search trees are ordered maps, balanced as promised, whatever fails",
      "For every comparator, stream of treap priorities and history of insertions (of new and "
      "present keys), deletions, lookups, bounds, ranks, ancestors, traversals, splits and joins, the Python "
      "search trees (plain, AVL, red-black, splay, Cartesian, treap) behave like an ordered map "
      "from keys to data, in in-order traversal as well as in every answer, also when a plain tree degenerates to a deep chain. Parent links agree "
      "with child links, AVL trees stay height-balanced, red-black trees keep their colour rules, "
      "Cartesian trees and treaps keep heap order of priorities, and splay trees bring an inserted "
      "key to the root, halving the depth of the path to it. If a comparison raises or an "
      "allocation fails, the error reaches the caller and the tree is as before the operation and "
      "stays usable.",
      ["histories", "inputs", "fault_sequences"],
      "all tree kinds, comparators, key types, priorities, histories, failing comparisons and "
      "allocations",
      "The tests use a few fixed histories with the default comparator, too short to reach most "
      "compactions of the node array, and never fail a comparison or an allocation.",
      ["trees/binary_trees.py", "linear_data_structures/arrays.py"],
      [("nodes in an array that is compacted on deletion", "linear_data_structures/arrays.py: ArrayForTrees"),
       ("rotations and colour changes", "trees/binary_trees.py: SelfBalancingBinaryTree, RedBlackTree, AVLTree")],
      "failing comparisons and allocations and simulated priorities inside histories against an ordered-map model", SINGLE,
      ["links, balance, colours, priorities and contents after every operation"]),
    P("P11", "Arrays keep elements in place when growth, shrinking or conversion fails",
      "For every history of reads, writes, appends, deletions and fills, static, dynamic and "
      "multi-dimensional arrays hold what was stored last at each position; dynamic arrays keep "
      "the elements and their order when they grow or shrink, and shrink when they fall below "
      "their load factor. Values that cannot be converted to the element type and positions out "
      "of range are refused. An operation that fails because memory runs out or an element cannot "
      "be converted leaves every element where it was, and the caller's own list is never changed.",
      ["inputs", "histories", "fault_sequences"],
      "all element types, histories, load factors and positions of failing allocations (Python "
      "objects, C++ malloc) and element conversions",
      "The tests fill and shrink a few arrays; nothing in them ever fails in the middle of growing.",
      ["linear_data_structures/arrays.py",
       "linear_data_structures/_backend/cpp/arrays/OneDimensionalArray.hpp",
       "linear_data_structures/_backend/cpp/arrays/DynamicOneDimensionalArray.hpp"],
      [("copying to a bigger or smaller buffer", "linear_data_structures/arrays.py: DynamicOneDimensionalArray.append, _modify")],
      "failing allocations (Python and C++ malloc) and conversions inside histories against a list model", SINGLE,
      ["array contents, size, str, raised error"]),
    P("P12", "Sequential sorts sort in every backend and lose nothing when one fails",
      "For every array with ties and empty slots, sub-range, comparator and pivot rule, each of the "
      "twelve sorts, in the Python, C++ and LLVM backend and in any order of calls in one process, "
      "puts the range in order with empty slots last and touches nothing outside it (counting sort "
      "returns the sorted elements in a new array). If a comparison, the comparator, the pivot "
      "rule or an allocation fails, the call fails with that error and the array still holds "
      "exactly the same elements and can be used further, dynamic arrays being appended to "
      "included.",
      ["inputs", "histories", "fault_sequences"],
      "all sorts, backends, arrays, ranges, comparators, pivots, call orders, failing comparisons "
      "and allocations, concurrent callers on different arrays",
      "The tests sort a few random arrays per algorithm and never fail a comparison, choose a "
      "pivot, use empty ranges or two LLVM sorts in one process.",
      ["linear_data_structures/algorithms.py", "linear_data_structures/arrays.py",
       "linear_data_structures/_backend/cpp/algorithms/quick_sort.hpp",
       "linear_data_structures/_backend/cpp/algorithms/quadratic_time_sort.hpp",
       "linear_data_structures/_backend/cpp/algorithms/llvm_algorithms.py"],
      [("in-place exchange sorts", "linear_data_structures/algorithms.py: quick_sort, bubble_sort, insertion_sort, shell_sort"),
       ("per-process cache of compiled sorts", "linear_data_structures/_backend/cpp/algorithms/llvm_algorithms.py: _materialize")],
      "failing comparisons, pivots and allocations inside call histories, simulated callers, against a sorted-permutation oracle", SINGLE,
      ["array contents by identity, raised error, later appends"]),
    P("P13", "Searches find what is there, or fail cleanly, without touching the array",
      "For every array, ordered ascending or descending, with ties, every sub-range (also an empty "
      "one) and every value, linear, binary and jump search return an index of the value exactly "
      "if the range has it, lower and upper bound return the first position not before, or after, "
      "the value, and is_ordered answers whether the range is in order, in the Python and the C++ "
      "backend. If a comparison fails, that error reaches the caller. The array is never changed "
      "and callers searching it at the same time do not influence each other.",
      ["inputs", "schedules", "fault_sequences"],
      "all ordered arrays, ranges, values, comparators, failing comparisons, interleavings of "
      "callers",
      "The tests look for a few values in a few arrays, never in empty or inner ranges, never with "
      "failing comparisons.",
      ["linear_data_structures/algorithms.py",
       "linear_data_structures/_backend/cpp/algorithms/misc_algorithms.hpp"],
      [("halving or jumping over the ordered range", "linear_data_structures/algorithms.py: binary_search, jump_search, lower_bound, upper_bound")],
      "failing comparisons and simulated callers inside call histories against a scan of the range", SINGLE,
      ["returned index, raised error, array before and after"]),
    P("P14", "Graph algorithms answer correctly for every caller and leave the graph alone",
      "For every graph, list or matrix, with cycles, loops, paths of any length, unreachable vertices, ties and zero, "
      "fractional or negative weights where the algorithm admits them, and for any sequence of calls by one or several "
      "threads on the same graph, also when edges change between the calls, spanning trees (Python and C++), strongly connected components, shortest paths, "
      "all-pairs distances, topological orders, maximum flows and bridges are correct, negative "
      "cycles and cyclic orders are refused with a value error, and the graph is unchanged. If "
      "arithmetic on a weight or an allocation fails, that error reaches the caller and the graph "
      "is unchanged and usable.",
      ["inputs", "schedules", "histories", "fault_sequences"],
      "all graphs, hash orders, call sequences, interleavings of callers sharing a graph, failing "
      "weight operations and allocations",
      "The tests run each algorithm once on one or two fixed graphs, by one caller, and never look "
      "at the graph afterwards.",
      ["graphs/algorithms.py", "graphs/adjacency_list.py", "graphs/adjacency_matrix.py",
       "graphs/_backend/cpp/Algorithms.hpp", "miscellaneous_data_structures/disjoint_set.py"],
      [("algorithms reading a graph that others read too", "graphs/algorithms.py: all public functions"),
       ("augmenting paths over a residual network", "graphs/algorithms.py: _max_flow_edmonds_karp_, _max_flow_dinic_")],
      "simulated callers sharing one graph with failing weights and allocations against independent oracles", THREADS,
      ["returned answers, raised error, graph before and after"]),
    P("P15", "Traversals visit everything once, in order, and stop when told to",
      "For every graph, list or matrix, Python or C++, every source and visitor, breadth-first and depth-first "
      "search call the visitor once for every reachable vertex, along an edge from a vertex reached "
      "before, breadth-first by distance, and pass the caller's arguments on. After a false answer "
      "or an error of the visitor it is not called again, and the error reaches the caller. The "
      "orders of a binary tree, however it was built, are those of their definition; nested and "
      "simultaneous traversals do not influence each other and nothing traversed is changed.",
      ["inputs", "schedules", "histories", "fault_sequences"],
      "all graphs, trees made by insertions and deletions, sources, visitors that stop or fail at "
      "any call, failing allocations, interleavings of callers",
      "The tests traverse a few fixed graphs and trees with visitors that never fail and nearly "
      "never stop.",
      ["graphs/algorithms.py", "graphs/_backend/cpp/Algorithms.hpp", "trees/binary_trees.py"],
      [("visitor called when a vertex is discovered", "graphs/algorithms.py: _breadth_first_search_adjacency_list, _depth_first_search_adjacency_list"),
       ("iterative tree orders over a stack", "trees/binary_trees.py: BinaryTreeTraversal")],
      "visitors that stop, fail or start further traversals, failing allocations and simulated callers against reference orders", THREADS,
      ["sequence of visitor calls, returned nodes, raised error"]),
    P("P16", "Range queries answer as a plain scan would, after any updates and failures",
      "For every array, every associative function (also one that does not commute) and every "
      "history of builds, updates and queries, range queries on arrays, sparse tables, segment "
      "trees and binary indexed trees (Python and C++) answer as folding the current elements of "
      "the range would, and interval trees return exactly the intervals holding the point; "
      "positions outside the array are refused and the caller's data are not changed. If the "
      "function, arithmetic on an element or an allocation fails, that error reaches the caller, "
      "the update has happened wholly or not at all, and later calls work. Threads that build and query one "
      "structure at the same time get the same answers.",
      ["inputs", "histories", "schedules", "fault_sequences"],
      "all arrays, functions, histories of updates and queries, failing functions, arithmetic and "
      "allocations, interleavings of callers",
      "The tests query a handful of arrays with functions that commute and never fail.",
      ["miscellaneous_data_structures/algorithms.py", "miscellaneous_data_structures/sparse_table.py",
       "miscellaneous_data_structures/segment_tree.py", "trees/binary_trees.py",
       "trees/space_partitioning_trees.py", "trees/_backend/cpp/BinaryIndexedTree.hpp"],
      [("update along the path to the root", "miscellaneous_data_structures/segment_tree.py: ArraySegmentTree.update"),
       ("prefix sums over lowest set bits", "trees/binary_trees.py: BinaryIndexedTree.update"),
       ("lazy build on first query", "trees/space_partitioning_trees.py: OneDimensionalSegmentTree.query")],
      "failing functions, arithmetic and allocations and simulated callers inside call histories against a plain scan", THREADS,
      ["answers, raised error, array before and after"]),
    P("P17", "Graphs hold exactly the vertices, edges and costs that were put there",
      "After any history of vertices and edges added, added again, given at construction, removed "
      "and added anew, on every graph container (adjacency list and matrix, Python and C++) the "
      "vertices, neighbours, adjacency, costs and counts are exactly those a set of vertices and "
      "a map of costs would show; calls that name unknown vertices or give costs that cannot be "
      "stored are refused and change nothing, and the caller's lists and data are not changed. If "
      "an allocation or the conversion of a cost fails, that error reaches the caller and the graph "
      "is as before the call or as after it, and usable. Memory safety does not depend on the "
      "order of calls: edges and vertices that the caller still holds stay intact, and what "
      "nobody holds is released.",
      ["inputs", "histories", "fault_sequences", "schedules"],
      "all histories of additions and removals, all names and costs, failing allocations and conversions",
      "The tests add a few edges to one graph of each kind, remove one and never fail an allocation.",
      ["graphs/graph.py", "graphs/adjacency_list.py", "graphs/adjacency_matrix.py",
       "utils/misc_util.py", "graphs/_backend/cpp/AdjacencyList.hpp",
       "graphs/_backend/cpp/AdjacencyMatrix.hpp", "utils/_backend/cpp/AdjacencyListGraphNode.hpp",
       "utils/_backend/cpp/GraphNode.hpp", "utils/_backend/cpp/GraphEdge.hpp"],
      [("edge costs and adjacency kept in separate maps", "graphs/adjacency_list.py: add_edge, remove_edge, remove_vertex"),
       ("reference counts of vertices and edges", "graphs/_backend/cpp/AdjacencyList.hpp: add_edge, remove_vertex, dealloc")],
      "failing allocations and conversions inside drawn histories against a set and map of costs", THREADS,
      ["vertices, neighbours, adjacency, costs, counts, raised error, weak references"]),
    P("P18", "Disjoint sets, multisets and tries hold exactly what was put there",
      "After any history of insertions, unions, new roots and removals, disjoint set forests report "
      "exactly the partition, sizes and roots that follow (the root of the larger set, or the "
      "key made root, leads), multisets the number of copies and neighbouring elements, and tries "
      "the inserted strings, their prefixes and the strings under a prefix; absent keys are refused "
      "or without effect. If a comparison, a hash, a step through a string or an allocation "
      "fails, that error reaches the caller and the structure is as before the call or as after it. "
      "Structures of different threads are independent, and threads may read one structure at the same time.",
      ["inputs", "histories", "fault_sequences", "schedules"],
      "all histories, keys and strings, failing comparisons, hashes, allocations, interleavings of readers",
      "The tests carry out one history per structure and nothing fails.",
      ["miscellaneous_data_structures/disjoint_set.py", "miscellaneous_data_structures/multiset.py",
       "strings/trie.py", "utils/misc_util.py"],
      [("sizes of subtrees kept through unions and new roots", "miscellaneous_data_structures/disjoint_set.py: union, make_root"),
       ("counter and tree kept in step", "miscellaneous_data_structures/multiset.py: add, remove"),
       ("nodes attached and pruned along a path", "strings/trie.py: insert, delete")],
      "failing comparisons, hashes, string steps and allocations inside drawn histories against plain models", THREADS,
      ["answers of every public reader, raised error"]),
    P("P19", "String search, permutations and subsequences are right for every caller",
      "For all texts and queries the four string search algorithms return exactly the starting "
      "positions of all occurrences (none for an empty query); next and previous permutation "
      "return the neighbour in the order of the comparator, also with equal elements and on parts of "
      "an array, or the first or last one and false; longest common and longest strictly increasing "
      "subsequences are subsequences of maximal length. Arguments are not changed, and calls by "
      "several threads do not influence each other. If a comparison, comparator, step through a "
      "string or allocation fails, that error reaches the caller and the same call can be made again.",
      ["inputs", "fault_sequences", "schedules"],
      "all texts, arrays, comparators, failing comparisons and allocations, interleavings of callers",
      "The tests use ASCII letters, distinct integers and calls that never fail.",
      ["strings/algorithms.py", "linear_data_structures/algorithms.py"],
      [("shifts and tables of the searches", "strings/algorithms.py: _do_match, _boyer_moore, _z_vector, _rabin_karp"),
       ("pivot of a permutation", "linear_data_structures/algorithms.py: _permutation_util")],
      "failing comparisons, string steps and allocations and simulated callers against plain definitions", THREADS,
      ["answers, raised error, arguments before and after"]),
    P("P20", "The C++ search trees are the same ordered maps, and memory safe",
      "For every comparator, key type, stream of treap priorities and history of insertions, "
      "deletions, lookups, bounds, ranks, ancestors, traversals, splits and joins, the C++ search "
      "trees (plain, AVL, red-black, splay, Cartesian, treap) behave like an ordered map, "
      "keep the same balance, colour, heap, splay and link rules and give the same answers as the Python "
      "ones, whatever objects the keys are. If a comparison raises, that error reaches the caller "
      "and the tree is as before the operation. No node, key or tree is used after its release.",
      ["histories", "inputs", "fault_sequences"],
      "all tree kinds, comparators, key types, priorities, histories, failing comparisons",
      "The tests use small integer keys, which CPython shares, fixed short histories and no failing comparison.",
      ["trees/_backend/cpp", "utils/_backend/cpp/TreeNode.hpp",
       "linear_data_structures/_backend/cpp/arrays/ArrayForTrees.hpp"],
      [("nodes in an array that is compacted on deletion", "linear_data_structures/_backend/cpp/arrays/ArrayForTrees.hpp"),
       ("rotations, colours, priorities and sizes", "trees/_backend/cpp/SelfBalancingBinaryTree.hpp, RedBlackTree.hpp, AVLTree.hpp, SplayTree.hpp, Treap.hpp"),
       ("errors of the comparator", "trees/_backend/cpp/BinarySearchTree.hpp")],
      "failing comparisons and simulated priorities inside drawn histories against an ordered-map model", SINGLE,
      ["links, balance, colours, priorities, traversals and contents after every operation"]),
    P("P21", "The C++ structures survive callers' code and own what they contain, no more",
      "Whatever the caller's code does while the C++ backend calls it (comparators, comparison "
      "methods, type checks, conversions to text, finalizers, pivot pickers and visitors may "
      "raise, return anything, or change the very array, stack, graph or tree being worked on), "
      "and whichever malloc fails, the process survives, the structure stays consistent and the "
      "error reaches the caller. After every operation, also a failed one, arrays, stacks, sorts, "
      "searches and graphs refer to each object exactly as often as they contain it, and release "
      "everything when they are released. Repeating an operation that changes nothing (on the "
      "whole) does not make memory grow.",
      ["histories", "inputs", "fault_sequences"],
      "all C++ structures, histories, actions of the caller's code at any of its calls, failing mallocs",
      "No test has a comparator, finalizer or visitor that changes the structure it is called "
      "from, and none looks at references or memory.",
      ["linear_data_structures/_backend/cpp", "miscellaneous_data_structures/_backend/cpp",
       "graphs/_backend/cpp", "trees/_backend/cpp", "utils/_backend/cpp"],
      [("ownership of elements", "linear_data_structures/_backend/cpp/arrays/OneDimensionalArray.hpp: OneDimensionalArray__copy_data, OneDimensionalArray_fill"),
       ("sorting in place with calls of the comparator", "linear_data_structures/_backend/cpp/algorithms/quadratic_time_sort.hpp, quick_sort.hpp"),
       ("visitors called in the middle of a traversal", "graphs/_backend/cpp/Algorithms.hpp"),
       ("vertices that refer to each other", "utils/_backend/cpp/AdjacencyListGraphNode.hpp"),
       ("comparators called in the middle of an insertion", "trees/_backend/cpp/BinaryTree.hpp: BinaryTree__compare")],
      "re-entrant, failing and odd callbacks and failing mallocs at drawn calls inside histories; references counted against the contents", SINGLE,
      ["references to every object against the contents, growth of memory, survival of the process"]),
]

NOT_APPLICABLE = {}
