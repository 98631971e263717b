"""P20: the C++ search trees are the same ordered maps as the Python ones."""
from native import NATIVE
from scen import trees

META = {
    "truth": True,
    "rule": "A run draws a C++ search tree (plain, AVL, red-black, splay, Cartesian, treap), a "
            "comparator, a key type and a history of insertions, overwrites, deletions, lookups, "
            "bounds, order statistics, ancestors, traversals, splits and joins; in many runs "
            "chosen comparisons raise in the middle of an operation; treap priorities come from "
            "a drawn stream.",
    "quick_runs": 100000, "block": 500, "quick_wall": 240, "thorough_wall": 400,
    "real": ["BinarySearchTree, AVLTree, RedBlackTree, SplayTree, CartesianTree, Treap, "
             "BinaryTreeTraversal (C++)", "ArrayForTrees (C++)"],
    "stub": ["comparator (can fail on demand)", "rand() (treap priorities come from the "
             "simulator)"],
    "must_probe": ["comparison_failed", "emptied", "overwritten", "missing_key", "refilled",
                   "root_deleted", "split", "joined", "traversed", "large", "trimmed"],
}


def gen(rng, tier):
    case = trees.gen(rng, tier, "cpp")
    case["alloc_at"] = []
    return case


def run(case, env):
    try:
        trees.run(case, env)
    finally:
        NATIVE.rand([])
