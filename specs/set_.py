"""Contracts of cest::set (red-black tree); see tree.py."""
from spec import *
import tree
HARNESS = "set"
tree.tasks(task, "set", "C09", [""])
