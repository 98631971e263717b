"""Scenario registry: property id -> module."""
import importlib
import json
import os

MODULES = {
    "P01": "parsort",
    "P02": "parmat",
    "P03": "parbfs",
    "P04": "parmst",
    "P05": "partopo",
    "P06": "skiplist",
    "P07": "linked",
    "P08": "stackqueue",
    "P09": "heaps",
    "P10": "trees",
    "P11": "arrays",
    "P12": "sorts",
    "P13": "searches",
    "P14": "graphalgs",
    "P15": "traversals",
    "P16": "rangeq",
    "P17": "graphstore",
    "P18": "sets",
    "P19": "sequences",
    "P20": "cpptrees",
    "P21": "memory",
}


def load(prop):
    return importlib.import_module("scen." + MODULES[prop])


def claimed():
    return sorted(MODULES)


def meta(prop):
    """META of a property, without importing the package under test."""
    import ast
    path = os.path.join(os.path.dirname(os.path.abspath(__file__)), MODULES[prop] + ".py")
    tree = ast.parse(open(path).read())
    for node in tree.body:
        if isinstance(node, ast.Assign) and node.targets[0].id == "META":
            return ast.literal_eval(node.value)
    raise KeyError(prop)
