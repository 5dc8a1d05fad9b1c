M=[("streambuf.hpp",o,n,["C17","C23"]) for o,n in []]
