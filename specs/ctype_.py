"""Contracts of the character classification functions, for every int."""
from spec import *
HARNESS = "cctype"
def cls(c, ranges):
    return Or(*[And(Le(ord(a), c), Le(c, ord(b))) for a, b in ranges])
for nm, rs in (("isalnum", ["09", "AZ", "az"]), ("isupper", ["AZ"])):
    @task("C21", "c_" + nm)
    def t(T, nm=nm, rs=rs):
        T.done_externs(); import std_contracts; std_contracts.install(T.e)
        T.e.unroll_exits = 100; c = T.int("c", 32)
        def post(st, r):
            T.must(st, zb(Ne(r, 0)) == zb(cls(c, rs)), f"{nm} is nonzero exactly for the characters of its class")
            T.frame(st, [])
        T.post(T.call("c_" + nm, c), post)
