"""Contracts of cest::map (red-black tree); see tree.py."""
from spec import *
import tree
HARNESS = "map"
tree.tasks(task, "map", "C11", ["", "_c"])
task(["C12"], "map conversion to const_iterator")(lambda T: tree.iter_convert(T, "map", "it_convert"))
