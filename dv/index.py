"""Which spec modules and replay drivers belong to which property."""
SPECS = {"C01": ["vector"], "C02": ["vector"],
 "C03": ["string"], "C04": ["string"],
 "C05": ["deq"], "C06": ["deq"], "C13": ["queue_", "queuel"],
 "C07": ["listx"], "C08": ["fwd"],
 "C09": ["set_"], "C10": ["set_", "map_"], "C11": ["map_"], "C12": ["set_", "map_"],
 "C14": ["uptr"], "C15": ["sptr"], "C16": ["func_"],
 "C17": ["stream_"], "C18": ["stream_"], "C23": ["stream_"],
 "C19": ["cplx"], "C20": ["cmath_"], "C21": ["ctype_"], "C22": ["swap_"],
 "C26": ["trans_"], "C27": ["console_"],
 "C25": ["vector", "string", "deq", "queue_", "listx", "fwd", "set_", "map_", "sptr", "func_"],
}
SPECS["C24"] = sorted({m for v in SPECS.values() for m in v}) + ["console_ce"]
REPLAY = {"C01": "vector", "C02": "vector", "C03": "string", "C04": "string",
 "C05": "deque", "C06": "deque", "C13": "deque",
 "C07": "list", "C08": "list",
 "C09": "tree", "C10": "tree", "C11": "tree", "C12": "tree",
 "C14": "uptr", "C15": "sptr", "C16": "func",
 "C17": "stream", "C18": "stream", "C23": "stream",
 "C19": "complex", "C20": "cmath", "C21": "cctype", "C22": "swap", "C25": "fail", "C26": "trans", "C27": "console",
}
FLAGS = {"ce": ["-fconstexpr-steps=200000000", "-fconstexpr-depth=4000"]}     # extra compiler options of a driver
REPLAY["C24"] = "ce"
CE_IDENTICAL = {"trans": r".", "cmath": r"sqrt"}     # functions whose contract only bounds the result
_inst = "other instantiations of the same templates (%s): executed by the replay driver under ASan/UBSan on the inputs enumerated there"
BOUNDED = {
 "C24": ["programs over every part of the library, evaluated by the compiler and at run time with the results compared (replay/ce.cpp)"],
 "C01": [_inst % "int, char, double, std::string, large, instrumented and move-only elements"], "C02": [_inst % "int, char, double, std::string, large, instrumented and move-only elements"],
 "C03": [_inst % "a second allocator and traits class, wchar_t, char8_t, char16_t and char32_t strings; all short char strings over a small alphabet plus random long ones"], "C04": [_inst % "a second allocator and a second traits class; all short char strings over a small alphabet plus random long ones"],
 "C05": [_inst % "int, char, Trk, std::string, large structs"], "C06": [_inst % "int, char, Trk, std::string, large structs"],
 "C07": [_inst % "int, Trk, std::string"], "C08": [_inst % "int, Trk, std::string"],
 "C13": [_inst % "int, Trk, std::string over cest::deque, cest::list and std::deque"],
 "C09": [_inst % "int, std::string, instrumented keys with several comparators"], "C11": [_inst % "int, std::string, instrumented keys and values"],
 "C10": [_inst % "int, std::string, instrumented keys"], "C12": [_inst % "int, std::string, instrumented keys"],
 "C16": [_inst % "eight-argument, no-argument, reference-, string-, move-only- and bool-returning signatures; lambdas, function pointers, large callables"],
 "C14": [_inst % "int, double, Trk, polymorphic base/derived, const objects, self-owning nodes"],
 "C15": [_inst % "int, double, Trk, arrays, polymorphic base/derived, function-object and lambda deleters"],
 "C17": ["the whole stream interface is also executed by the replay driver on the inputs enumerated there"],
 "C18": ["the whole stream interface is also executed by the replay driver on the inputs enumerated there"],
 "C23": ["the whole stream interface is also executed by the replay driver on the inputs enumerated there"],
 "C19": [_inst % "complex<double>, complex<float>"],
 "C20": [_inst % "float, double, long double and integer overloads"],
 "C21": ["all 256 characters and boundary ints are also executed by the replay driver"],
 "C26": ["behaviour under machine rounding (the proofs are over exact reals): executed by the replay driver against the C library on ten million arguments"],
 "C27": [_inst % "the same operations of char streams, all characters, random strings, formats with every kind of argument"],
 "C25": [_inst % "Trk, int, std::string; every allocation of every operation made to fail once, over containers of many sizes"],
 "C22": [_inst % "int, double, float, char, pointers, large structs, std::string, move-only"],
}
_cmp = "the comparator is a strict weak ordering (represented by a rank function) that does not modify the container"
_card = "size counts the nodes of the tree, and a node's in-order position is the number of smaller nodes (definitions of the ghost functions; insertion is verified to add one node and one to size)"
ASSUME = {"C09": [_cmp, _card, "the destination of a copy is abstracted by the number of source elements inserted so far; its operations insert, clear and ++ are verified separately against the contracts used"],
 "C10": [_cmp, _card, "induction over the height of a finite tree (the two induction steps are the discharged lemma obligations)"], "C12": [_cmp, _card]}
ASSUME["C11"] = ASSUME["C09"]
ASSUME["C25"] = ["element operations and comparisons do not throw; only obtaining storage fails", _cmp, "the language run-time (__cxa_*) and the unwinder are trusted: destructors run where the compiler's landing pads call them"]
ASSUME["C27"] = ["the standard stream insertions, printf and snprintf do what the C and C++ standards say: each call writes its value once to the stream it is called on; formatted text and its length depend on the format and the arguments only"]
# obligations that belong to a sibling property only (the same verified functions serve both)
SKIP = {"C01": r"post: storage .* is released|no live element in released storage|released with the size|locals of opaque type are destroyed",
        "C09": r"balance: ", "C11": r"balance: ", "C12": r"balance: ", "C10": r"post: (find|insert|recursive insertion): (?!.*(order|balance): )",
        "C02": r"post: .*(element i has the specified value|: size$|returns|result$|vector unchanged|reallocat|capacity at least|capacity does not|equal vectors|unequal vectors|cleared|throws)"}
NOTE = {}
NA = {
}
