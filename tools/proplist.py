"""The properties: the text of properties.jsonl and MANIFEST.json."""
TB = ("Trusted: the clang 18 front end, the analysis in /verif/pl, and the declared contracts of libc, glpk and isl. ")
P = []
NA = []


def prop(id, title, statement, over, quant, why, files, mech, technique, note, level="other"):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                  technique=technique, note=note, level=level))


def na(id, title, statement, over, quant, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                   reason=reason))


prop("C01", "Calls are independent: nothing is remembered between calls",
     "What a call into the library does and returns depends only on its arguments and the objects reachable from them. "
     "No call leaves anything behind in storage that is not part of its arguments or results (static or global variables, "
     "hidden caches, counters, or state kept for it by the C library), so any sequence or nesting of calls, on any mix of "
     "contexts, gives what each call would give in isolation.",
     ["histories", "schedules", "inputs"], "every sequence of API calls, on any number of contexts",
     "The tests make a few calls in one fixed order in one process; a remembered value only shows for a particular earlier history.",
     ["lib/*.c", "lib/*.cpp"], [("all state lives in the context and program objects passed in", "lib/pluto.h: PlutoProg, PlutoContext")],
     "interprocedural mod/ref (effect) analysis of globals on LLVM IR",
     TB + "Every store, memory intrinsic and callee summary of the whole library is inspected, so no write to a global or static can be missed other than through isl, glpk or gmp internals.")

prop("C02", "The caller's options are never changed by the library",
     "The library treats the options in a context as read-only input: apart from creating and destroying them, no call "
     "changes any option value or replaces the options object, so options read back after any call are those the caller set, "
     "and a context can be reused for further calls.",
     ["inputs", "configurations", "histories"], "every option combination, program and call sequence",
     "Tests never look at the options after a call, and sample a handful of option combinations.",
     ["lib/*.c", "lib/*.cpp", "include/pluto/pluto.h"], [("options are set by the caller and only read afterwards", "lib/program.cpp: pluto_options_alloc")],
     "interprocedural access-path mod/ref analysis on LLVM IR",
     TB + "All write and free summaries of all functions are inspected for paths through an option field or the context's option pointer.")

prop("C03", "isl objects are consumed exactly once, as their contracts say",
     "Every isl object that passes through the library is consumed exactly as declared: objects taken by a call (its own "
     "arguments included) are released or handed on exactly once on every path, objects only kept are never released, and no "
     "isl object is used after it was consumed; contexts, sets, maps, spaces, values and printers created on the way are all "
     "released.",
     ["inputs", "configurations"], "every control-flow path of every function, for every input and option combination",
     "The tests run few paths and do not look for leaked or doubly released isl objects; a wrong count on an unusual path corrupts or exhausts memory later.",
     ["lib/plutolib.c", "lib/constraints_isl.c", "lib/isl_support.c", "lib/program.cpp", "lib/iss.c"],
     [("isl's __isl_take/__isl_give/__isl_keep discipline", "lib/plutolib.c, lib/constraints_isl.c, lib/isl_support.c, lib/program.cpp")],
     "path-sensitive interprocedural ownership (typestate) analysis on LLVM IR against isl's declared contracts",
     TB + "Path-sensitive in null tests and flags, summaries for callees; objects stored into arrays are followed to the store only.")

prop("C04", "Nothing is used or released after it was released",
     "On no path does the library use, return or release again memory, a constraint system, matrix, statement, dependence, "
     "loop, band, stream or solver object that was already released, and it never releases an object it was only lent.",
     ["inputs", "configurations", "fault_sequences"], "every control-flow path of every function, failure paths included",
     "The tests do not run under a memory checker and reach few failure paths; a stale access usually goes unnoticed.",
     ["lib/*.c", "lib/*.cpp"], [("one owner per object; destructors per type", "lib/constraints.c, lib/math_support.c, lib/program.cpp, lib/polyloop.c, lib/ddg.c")],
     "path-sensitive interprocedural ownership (typestate) analysis on LLVM IR",
     TB + "Decides objects held in local variables and parameters; aliases kept in array elements are not tracked by index.")

prop("C05", "Everything a call allocates is released or handed to the caller",
     "Whatever a call allocates for its own use (memory, constraint systems, matrices, loops, bands, graphs, streams, solver "
     "problems) is released before the call ends, on every path including early returns and failures; the rest is handed to "
     "the caller or kept in an object the caller owns.",
     ["inputs", "configurations", "fault_sequences"], "every control-flow path of every function, failure paths included",
     "The tests do not check for leaks and reach few of the early exits.",
     ["lib/*.c", "lib/*.cpp"], [("scratch objects are released on all exits", "lib/constraints.c, lib/framework.cpp, lib/polyloop.c, lib/iss.c, lib/tile.c, lib/pluto.c")],
     "path-sensitive interprocedural ownership (typestate) analysis on LLVM IR",
     TB + "Decides objects held in local variables; an object stored into a longer-lived object is that object's responsibility.")

prop("C06", "Queries and constant operands leave their arguments unchanged",
     "An operation that only asks something of a constraint system, matrix, statement, dependence, program, band, loop or "
     "graph (emptiness, equality, rank, bounds, counts, printing, conversion, copying) or takes it as a constant operand leaves "
     "it, and everything reachable from it, exactly as it was; only the operand an operation is documented to modify changes.",
     ["inputs", "configurations"], "every argument of every query and every operand declared constant",
     "Tests look at the result of a query, not at its operands afterwards.",
     ["lib/constraints.c", "lib/math_support.c", "lib/program.cpp", "lib/polyloop.c", "lib/framework.cpp", "lib/ddg.c"],
     [("const-qualified operands and working copies", "lib/constraints.h, lib/math_support.h, lib/program.h, lib/pluto.h")],
     "interprocedural access-path mod/ref analysis on LLVM IR against the declared constness and a reviewed query table",
     TB + "Writes through a path the analysis knows only as 'possibly aliased' (weak) are not reported.")

exec(open(__import__("os").path.join(__import__("os").path.dirname(__file__), "proplist2.py")).read())
