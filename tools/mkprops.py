#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
        mechanism=[dict(name=a, where=b) for a,b in mech], observe_at=list(observe), hook_needed=hook)))
I = "include/cest/"
prop("C01", "vector behaves as a finite sequence under every operation",
 "After any sequence of operations, a vector's size and its elements in order are exactly what the sequence model prescribes: construction (default, count, list, copy, move), assignment, push_back, pop_back, resize, reserve, clear, swap and range erase. Element access, front/back/data, iteration and equality agree with that sequence, also when the argument is the vector itself or one of its own elements, and checked access throws out_of_range for exactly the positions not below the size. Reserving or copying never changes the observed sequence, and size never exceeds capacity.",
 ["inputs","histories"], "all vectors (any size, capacity and content), all element types' values, all arguments including aliases of the vector's own elements and self-assignment",
 "the tests run a dozen fixed short sequences of ints; they never sample an argument aliasing an element at the reallocation boundary, self-assignment, or large sizes",
 [I+"vector.hpp"], [("growth and element relocation", I+"vector.hpp vector::reserve, push_back"),("range erase compaction", I+"vector.hpp vector::erase"),("copy and assignment loops", I+"vector.hpp vector(const vector&), operator=")],
 [("m_size/m_capacity/m_p","length, allocated length and storage of the sequence",I+"vector.hpp")], ["vector public API"])
prop("C02", "vector storage and element lifetimes are exact",
 "Every element slot a vector exposes holds exactly one live object, every slot beyond its size holds none, and each object is constructed once and destroyed once. Storage is released exactly once with the size it was obtained with, nothing is read or written outside the storage or after it was released, and a copy shares no storage with its source.",
 ["inputs","histories"], "all vectors and all arguments, including count 0, capacity 0, empty sources, self-assignment and arguments that alias elements",
 "the tests check values only, with trivially copyable elements, so double destruction, construction over a live object, leaks and stale reads are invisible to them",
 [I+"vector.hpp"], [("construct/destroy pairing", I+"vector.hpp reserve, resize, clear, erase, pop_back, operator="),("deallocation with the allocated capacity", I+"vector.hpp ~vector, reserve")],
 [("live elements","slots [0,size) live, others raw",I+"vector.hpp")], ["element constructors/destructors, operator new/delete"])
prop("C03", "string holds exactly the characters its operations specify, terminated",
 "After any sequence of operations a string's size and characters are exactly those specified by construction (default, C string, pointer and count, iterator range, copy), assignment, push_back, append, +=, pop_back, clear and reserve, for every character value including embedded zero characters. The character after the last one is always the terminator, and all accesses stay inside the string's own storage, which is released exactly once. This also holds when the argument is the string itself or points into it.",
 ["inputs","histories"], "all strings (any size, capacity and content including embedded NULs), all arguments including empty ranges, zero counts and aliases of the string's own characters",
 "the tests use short literals; embedded NULs, self-aliasing arguments and exact-capacity boundaries are never sampled and read-after-free is invisible in a passing assertion",
 [I+"string.hpp"], [("capacity growth", I+"string.hpp reserve, append, operator=(const CharT*)"),("terminator maintenance", I+"string.hpp push_back, pop_back, clear, append")],
 [("m_size/m_capacity/m_p","length, capacity and storage (capacity+1 characters)",I+"string.hpp")], ["string public API"])
prop("C04", "string search and comparison agree with their definitions",
 "find returns the smallest position not before the given start at which the searched character or substring occurs, and npos when there is none, for every haystack, needle (also empty, longer than the haystack, or containing zero characters) and start position. Comparison returns a value whose sign is that of the lexicographic order, so the relational operators form a total order and equality means same length and same characters.",
 ["inputs"], "all pairs of strings / C strings, all characters and start positions, including empty needles and positions beyond the end",
 "the tests sample a handful of ASCII literals; repeated partial matches, start positions, prefixes, and embedded NULs are not enumerable",
 [I+"string.hpp"], [("substring scan", I+"string.hpp find(const CharT*, size_type, size_type)"),("comparison", I+"string.hpp compare, _S_compare, operator==, operator<")], (), ["string find/compare/operators"])
prop("C05", "deque behaves as a double-ended sequence",
 "After any sequence of push_front, push_back, pop_front, pop_back, clear, copy, assignment and initialiser-list construction, a deque's size, front, back and indexed elements are exactly those of the sequence model, whatever mixture of ends was used and however far the contents have drifted; popping an empty deque changes nothing. Each element is constructed once and destroyed once, and all storage is released when the deque is destroyed.",
 ["inputs","histories"], "all deques (any number of elements, any position inside the internal storage, any history of growth at both ends), all element values",
 "chunk boundaries occur every 1024 elements; the tests push at most a few thousand elements in two or three patterns, and never refill after draining across a boundary",
 [I+"deque.hpp"], [("chunk growth at the front", I+"deque.hpp push_front_helper"),("chunk growth at the back", I+"deque.hpp push_back_helper"),("index to chunk mapping", I+"deque.hpp operator[]")],
 [("m_front,m_back,m_front_chunk,m_back_chunk,m_size,m_chunks","position of the sequence inside the chunk map",I+"deque.hpp")], ["deque public API"])
prop("C06", "deque iterators traverse and measure the sequence exactly",
 "Starting at begin() and incrementing visits exactly the elements in index order and reaches end() after size() steps, for every deque including empty ones; decrement undoes increment at every position, including from end(); dereferencing the iterator reached after i steps yields element i; and the difference of two iterators of one deque is the number of elements between them. Const iterators behave the same.",
 ["inputs","histories"], "all deques and all pairs of positions, including positions at internal storage boundaries",
 "the tests iterate a few small deques; boundary positions, decrements across a boundary and differences across several chunks are not reached",
 [I+"deque.hpp"], [("iterator increment/decrement", I+"deque.hpp iter::operator++/--, const_iter::operator++/--"),("iterator difference", I+"deque.hpp operator-(iter,iter)"),("begin/end", I+"deque.hpp begin, end")], (), ["deque iterators"])
prop("C07", "list behaves as a doubly linked sequence with exact node ownership",
 "After any sequence of operations on a list (construction, copy, assignment including self-assignment, push/pop/emplace at either end, insert, emplace, erase, clear) its size and its elements in forward and in backward iteration order are exactly those of the sequence model. insert and erase return iterators to the new element and to the element after the erased one, iterators (pre- and post-increment and -decrement) move one position in that order, every other element stays where it is, and each element node is created once and released once.",
 ["inputs","histories"], "all lists of any length, every position including begin and end, all element values including references to elements of the same list",
 "tests check a few short lists in the forward direction; link consistency at every position and leak freedom for every length need an unbounded argument",
 [I+"list.hpp"], [("node hook/unhook", I+"list.hpp insert, emplace, erase, m_unhook"),("clear", I+"list.hpp clear")], [("circular links","next/prev inverse, size equals node count",I+"list.hpp")], ["list public API"])
prop("C08", "forward_list behaves as a singly linked sequence with exact node ownership",
 "After any sequence of operations on a forward_list (copy, assignment including self-assignment, swap, push_front, pop_front, insert_after, both forms of erase_after, clear) its elements in iteration order are exactly those of the sequence model. The returned iterators denote the inserted element or the element after the erased ones, increments (pre and post) move one position, and each node is created once and released once.",
 ["inputs","histories"], "all forward_lists of any length, every position including before_begin, all element values",
 "tests check a few short lists; every position and length needs an unbounded argument and leaks are invisible",
 [I+"forward_list.hpp"], [("insertion", I+"forward_list.hpp insert_after"),("erasure", I+"forward_list.hpp erase_after"),("copy", I+"forward_list.hpp forward_list(const forward_list&)")], (), ["forward_list public API"])
prop("C09", "set holds exactly the inserted keys, each once, and finds exactly those",
 "After any sequence of insertions, copies, assignments and clears, a set holds each inserted key exactly once and nothing else, and size and empty agree. insert reports whether the key was new and returns an iterator to the element equivalent to it, leaving the contents unchanged when it was already present; find returns the element equivalent to the key exactly when it is present and end() otherwise. Each node is created once and released once, and a copy is independent of its source.",
 ["inputs","histories"], "all sets built by any insertion order of any number of keys, any strict weak ordering, all probe keys",
 "tests insert at most a few dozen keys in fixed orders; the rebalancing has four asymmetric cases whose combinations over insertion orders are unbounded",
 [I+"set.hpp"], [("recursive insertion and rebalancing", I+"set.hpp insert, rotate_left, rotate_right"),("descent", I+"set.hpp find")], [("search-tree order","in-order keys strictly increasing",I+"set.hpp")], ["set public API"])
prop("C10", "set and map stay balanced: logarithmic depth for every insertion order",
 "For every insertion order, the search tree inside a set or map stays balanced: no path from its root is longer than twice the base-two logarithm of the number of elements plus one, so lookup and insertion perform logarithmically many comparisons.",
 ["inputs","histories"], "all insertion orders of any number of keys, including sorted, reversed and adversarial orders, for set and map",
 "the tests assert contents, never shape; a rebalancing that loses a colour or skips a case returns correct results while depth degrades",
 [I+"set.hpp", I+"map.hpp"], [("red-black rebalancing", I+"set.hpp insert; "+I+"map.hpp insert")], [("node colours","root black, no red node with a red child, equal black height",I+"set.hpp, map.hpp")], ["number of key comparisons performed by find/insert"])
prop("C11", "map associates each inserted key with its value, and finds exactly those",
 "After any sequence of insertions, copies, assignments and clears, a map holds exactly one entry per inserted key, with the value given when that key was first inserted. insert reports whether the key was new and returns an iterator to the entry with that key, leaving an existing entry unchanged; find returns the entry exactly when the key is present and end() otherwise. Each node is created once and released once, and a copy is independent of its source.",
 ["inputs","histories"], "all maps built by any insertion order of any number of entries, all probe keys and values",
 "tests insert a few entries in fixed orders; rebalancing cases over insertion orders are unbounded",
 [I+"map.hpp"], [("recursive insertion and rebalancing", I+"map.hpp insert, rotate_left, rotate_right"),("descent", I+"map.hpp find")], (), ["map public API"])
prop("C12", "set and map iteration visits every element once in ascending order",
 "For every set and map, begin() denotes the smallest element (or equals end() when empty) and each increment moves to the next larger element, reaching end() exactly after the largest. Hence iteration visits every element exactly once in ascending key order, for every tree shape that insertion can produce; pre- and post-increment and const iterators agree.",
 ["inputs","histories"], "all sets and maps, from every element of every reachable tree shape",
 "successor computation climbs and descends through unboundedly many tree shapes; tests iterate a few",
 [I+"set.hpp", I+"map.hpp"], [("successor", I+"set.hpp const_tree_iter::operator++; "+I+"map.hpp tree_iter::operator++, const_tree_iter::operator++"),("smallest element cache", I+"set.hpp insert m_begin; "+I+"map.hpp insert m_begin")], (), ["set/map iterators"])
prop("C13", "queue is first-in first-out",
 "After any sequence of push and pop operations on a queue, front is the oldest and back the newest element not yet popped, size is the number of pushes minus pops, empty agrees with size zero, and elements leave in the order they entered.",
 ["inputs","histories"], "all push/pop histories and all element values, copy construction from an existing container included",
 "tests run one or two short histories; FIFO order over unbounded histories rests on the underlying container's contract",
 [I+"queue.hpp", I+"deque.hpp"], [("delegation", I+"queue.hpp push, pop, front, back")], (), ["queue public API"])
prop("C14", "unique_ptr owns at most one object and deletes it exactly once",
 "At every moment an object handed to a unique_ptr is owned by exactly one owner; it is deleted exactly once, when its owner is destroyed or reset, and never while still owned or after release. Moving transfers ownership without deleting what is transferred, get/release/reset/bool/comparison report the owned pointer faithfully, and make_unique owns a freshly constructed object.",
 ["inputs","histories"], "all pointers including null, all sequences of construction, move, assignment (self included), reset, release and destruction",
 "tests look at values, not at the number of deletions on every path",
 [I+"memory.hpp"], [("ownership transfer", I+"memory.hpp unique_ptr move constructor, operator=, release, reset"),("deletion", I+"memory.hpp ~unique_ptr, reset")], (), ["operator new/delete calls of the owned type"])
prop("C15", "shared_ptr deletes the shared object once, when its last owner goes",
 "use_count equals the number of live shared_ptrs sharing the object (0 for an empty one) after any sequence of construction, copying, assignment (self included) and destruction. The object is destroyed by its deleter exactly once, precisely when the last of them goes away, and the bookkeeping is released with it; empty pointers can be copied, assigned and destroyed freely.",
 ["inputs","histories"], "all histories of construction, copy, aliasing construction, assignment and destruction, null and empty pointers included, default and custom deleters",
 "tests count references on two or three copies; assignment, empty pointers and destruction order over all histories are not sampled",
 [I+"shared_ptr.hpp"], [("reference count", I+"shared_ptr.hpp shared_ptr_base copy constructor, destructor"),("control block", I+"shared_ptr.hpp ctrl, ctrl_derived")], [("count_","number of owners",I+"shared_ptr.hpp")], ["use_count, deleter calls"])
prop("C16", "function calls its target once with the given arguments and returns its result",
 "Calling a function object invokes the stored callable exactly once with exactly the arguments given, in order, and returns exactly its result, for value-returning and void signatures alike. The stored callable is a private copy that lives exactly as long as the function object and is destroyed exactly once.",
 ["inputs","programs"], "all argument values, callables with and without state, both the value-returning and void forms",
 "tests call two or three lambdas",
 [I+"functional.hpp"], [("type erasure", I+"functional.hpp function, impl_f")], (), ["function::operator()"])
prop("C17", "input string streams deliver exactly the buffered characters",
 "Reading from a string stream delivers the characters of its buffer (zero characters included) in order, each once: get yields the next character or, when none is left, sets eof and fail and reports a count of zero; read yields the next characters up to the requested count, reports exactly how many were delivered, and sets eof and fail exactly when fewer than requested. unget steps back exactly one character, clears eof, and sets bad when there is nothing to step back to; nothing is read outside the buffer and a failed stream delivers nothing.",
 ["inputs","histories"], "all buffer contents and sizes, all sequences of get, unget and read with all counts",
 "tests read a few short literals; counts at and beyond the end, repeated unget and embedded NULs are not sampled",
 [I+"istream.hpp", I+"sstream.hpp", I+"streambuf.hpp"], [("get area", I+"streambuf.hpp sbumpc, sungetc, xsgetn"),("state bits", I+"istream.hpp get, unget, read")], [("get pointers","beginning, current position and end of the buffered text",I+"streambuf.hpp")], ["istringstream/stringstream API"])
prop("C18", "stream state bits follow the error-state rules",
 "clear sets the state to exactly the given bits and additionally bad when there is no buffer, setstate only adds bits, and good/eof/fail/bool/! report them by their definitions. A stream initialised with a buffer is good and without one is bad.",
 ["inputs"], "all state and exception masks, with and without a buffer",
 "tests query state after one or two reads",
 [I+"basic_ios.hpp"], [("state", I+"basic_ios.hpp clear, setstate, init, good, eof, fail")], (), ["basic_ios state API"])
prop("C19", "complex arithmetic obeys the field formulas",
 "For all operands, complex addition, subtraction, multiplication and division (complex-complex, complex-scalar and scalar-complex, plain and compound, aliased operands included), negation, conj, norm, real/imag access and assignment, and equality compute the textbook formulas in exact arithmetic; integer powers equal repeated multiplication for every exponent and the inverse for negative ones.",
 ["inputs"], "all operand values (in exact real arithmetic), all exponents, all aliasing of operands",
 "tests evaluate a few points",
 [I+"complex.hpp"], [("compound operators", I+"complex.hpp complex::operator*=, operator/=, operator+=, operator-="),("powers", I+"complex.hpp pow(const complex&, int), __complex_pow_unsigned")], (), ["complex operators"])
prop("C20", "exact math functions are right for every argument and always terminate",
 "abs, floor and ceil return the exact result for every double whose result fits their return type, and integer power equals repeated multiplication (or its reciprocal for negative exponents) for every base and every exponent. Square root terminates for every non-negative argument and satisfies its accuracy bound, with sqrt(0) = 0.",
 ["inputs"], "all double arguments in range, all exponents",
 "tests evaluate a handful of points; boundaries (negative fractions, zero, integers, extreme exponents) are not covered",
 [I+"cmath.hpp", I+"bits/abs.hpp"], [("rounding", I+"cmath.hpp floor, ceil"),("power recursion", I+"cmath.hpp pow"),("Newton iteration", I+"cmath.hpp sqrt_helper")], (), ["floor, ceil, abs, pow, sqrt"])
prop("C21", "character classification is right for every character",
 "isalnum is non-zero exactly for the ten digits and the fifty-two Latin letters, and isupper exactly for the twenty-six capital letters, for every integer argument.",
 ["inputs"], "all int arguments",
 "tests sample a few characters",
 [I+"cctype.hpp"], [("table search", I+"cctype.hpp isalnum, isupper")], (), ["isalnum, isupper"])
prop("C22", "n-ary swap rotates its arguments exactly",
 "swap of n objects of one type gives each the former value of the next and the last the former value of the first; swapr rotates the other way, so swapr undoes swap. No value is lost or duplicated, whatever the values and whatever positions the objects occupy.",
 ["inputs"], "all values and argument counts used (0 to 6 arguments), distinct objects",
 "tests rotate a few ints; set and map rebalancing rests on the six-argument form",
 [I+"swap.hpp"], [("fold expressions over moves", I+"swap.hpp nary::swap, nary::swapr")], (), ["nary::swap, nary::swapr"])
prop("C23", "memory-backed files deliver exactly the given bytes",
 "fmemopen of a byte array followed by any sequence of fread calls delivers exactly the array's bytes in order (zero bytes included): each fread returns the number of bytes delivered, which is the smaller of the requested and the remaining count, and fclose releases everything. The source array is not modified.",
 ["inputs","histories"], "all byte arrays and sizes (0 included), all sequences of requested counts",
 "tests read one short buffer",
 [I+"cstdio.hpp", I+"sstream.hpp"], [("FILE over string stream", I+"cstdio.hpp fmemopen, fread, fclose")], (), ["fmemopen, fread, fclose"])
prop("C24", "compile-time and run-time evaluation give the same results",
 "Any program over the library that is accepted in a constant expression yields the same observable results when the same calls are made at run time. Console output is the only exception: in a constant expression the output operations write nothing, leave the stream as it was, and printf and fprintf report no characters.",
 ["programs"], "all programs using the library in constant expressions",
 "the tests compare a fixed list of expressions",
 [I+f for f in ("vector.hpp", "string.hpp", "deque.hpp", "queue.hpp", "list.hpp", "forward_list.hpp", "set.hpp", "map.hpp", "memory.hpp", "shared_ptr.hpp", "functional.hpp", "istream.hpp", "cstdio.hpp", "runtime_ostream.hpp", "cmath.hpp", "complex.hpp", "cctype.hpp", "swap.hpp")], [("tests of is_constant_evaluated", I+"runtime_ostream.hpp, cstdio.hpp, memory.hpp, shared_ptr.hpp")], (), ["every constexpr function"])
prop("C25", "containers survive failing allocations",
 "When storage for an operation on vector, string, deque, queue, list, forward_list, set or map, or for a shared_ptr or function being constructed, cannot be obtained (the allocator throws, or the requested size is impossible), the exception reaches the caller, nothing leaks, and nothing is released or destroyed twice. A failed insertion (push, emplace, insert, append) or reserve leaves the container exactly as it was, a failed assignment leaves a valid container that can still be used and destroyed, and a failed constructor leaves nothing behind. A shared_ptr constructor that cannot obtain its bookkeeping deletes the object it was given, exactly once and with its deleter, and a function constructor leaves the callable it was given as it was. Element operations themselves are taken not to throw.",
 ["inputs","fault_sequences"], "all container states, all operations and every allocation within an operation that can fail",
 "no test injects a failing allocation",
 [I+"vector.hpp", I+"string.hpp", I+"deque.hpp", I+"queue.hpp", I+"list.hpp", I+"forward_list.hpp", I+"set.hpp", I+"map.hpp", I+"shared_ptr.hpp", I+"functional.hpp"],
 [("storage is obtained before anything is changed", I+"deque.hpp add_chunk"), ("constructors that delegate so that the destructor runs", I+"set.hpp set(const set&)"), ("ownership of the object from the first moment", I+"shared_ptr.hpp shared_ptr_base(Y*, Deleter)")], (), ["public container interface with an allocator that throws"])
prop("C26", "transcendental functions approximate the real functions",
 "For every argument in its domain each function is within the stated error of the real function: sin and cos within 0.00002 for |x| <= 2 pi; sinh within a relative 0.00002 and cosh within a relative 0.0006 for |x| <= 10; exp within a relative 0.0001 for |x| <= 700; log within 0.0012 for every positive finite x, minus infinity at zero and NaN below; atan within 0.0001 everywhere and atan2 within 0.0001 in every quadrant and on the axes except the origin.",
 ["inputs"], "all double arguments in the stated domains",
 "tests compare a few points with a coarse tolerance; the branches of the argument reductions and their boundaries are not covered",
 [I+"cmath.hpp"], [("triple-angle recursions", I+"cmath.hpp sin_helper, sinh_helper"), ("argument reductions", I+"cmath.hpp atan_identity, atan_cmplmntry, atan2, sin, exp, log"), ("series", I+"cmath.hpp atan_poly_helper, exp_helper, log_helper2"), ("decimal mantissa and exponent", I+"cmath.hpp mantissa, exponent_helper")], (), ["sin, cos, sinh, cosh, exp, log, atan, atan2"])
prop("C27", "console output reaches the standard stream of the same name",
 "At run time, inserting an int, an unsigned int, a char, a C string, a cest string or endl into cest::cout, cest::cerr or cest::clog hands exactly that value (every character of it, embedded null characters included) once to the std stream of the same name and to no other, returns the stream and leaves its own state unchanged; the same insertions into any other cest stream write nothing to the standard streams. A manipulator is called exactly once with the stream. printf hands its format and arguments unchanged to the C function and returns its result; fprintf writes exactly the formatted text to the stream given and returns the number of characters, or the error with nothing written, keeping no storage.",
 ["inputs"], "all values, strings and formats, all states of the streams",
 "the tests run these only in constant expressions or do not look at what is written",
 [I+"ostream.hpp", I+"runtime_ostream.hpp", I+"iostream.hpp", I+"cstdio.hpp", I+"string.hpp"], [("one dispatch on the stream's address", I+"runtime_ostream.hpp runtime_ostream"), ("formatted text of known length", I+"cstdio.hpp fprintf")], (), ["operator<<, endl, manipulators, printf, fprintf"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
import re
for p in P:
    assert len(p["title"]) <= 80, p["id"]
    n = len(re.findall(r'[.;](?:\s|$)', p["statement"]))
print(len(P))
