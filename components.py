"""Which harnesses decide which property, and how they are built."""

O2 = ["-O2"]


def parts(src, n, flags, libs=(), deep=(), cxx="g++"):
    """A harness split in n+1 translation units, compiled in parallel."""
    def steps(name, tier, flags=flags):
        if tier == "thorough":
            flags = flags + list(deep)
        st = [dict(out="part%d.o" % i, src=[src], cxx=cxx,
                   flags=flags + ["-c", "-DPART=%d" % i]) for i in range(n)]
        st.append(dict(out="main.o", src=[src], cxx=cxx, flags=flags + ["-c"]))
        st.append(dict(out=name, src=["{build}/part%d.o" % i for i in range(n)] + ["{build}/main.o"],
                       cxx=cxx, flags=[], libs=list(libs), stage=1))
        return st
    return steps


def threads(name, tier):
    """Instrumented by clang for ThreadSanitizer, linked with our runtime."""
    flags = ["-O1", "-fsanitize=thread", "-c"]
    st = [dict(out="part%d.o" % i, src=["h_threads.cpp"], cxx="clang++", flags=flags + ["-DPART=%d" % i])
          for i in range(5)]
    st.append(dict(out="main.o", src=["h_threads.cpp"], cxx="clang++", flags=flags))
    st.append(dict(out="sched.o", src=["sched.cpp"], cxx="clang++", flags=["-O2", "-c"]))
    st.append(dict(out=name, src=["{build}/part%d.o" % i for i in range(5)] + ["{build}/main.o", "{build}/sched.o"],
                   cxx="clang++", flags=["-pthread"], stage=1))
    return st


def odr(cxx, opt):
    """Programs made of units compiled with and without runtime checks, linked
    together, or loaded. Must agree with h_odr.cpp."""
    def steps(name, tier):
        st = [dict(out=name, src=["h_odr.cpp"], cxx="g++", flags=["-O1"])]
        for c in range(2):
            st.append(dict(out="main%d.o" % c, src=["odr_main.cpp"], cxx=cxx,
                           flags=[opt, "-c", "-DCHECKS=%d" % c]))
        for u in range(6):
            f = [opt, "-fPIC", "-DCHECKS=%d" % (u % 2), "-DCONTENT=%d" % (u // 2)]
            st.append(dict(out="u%d.o" % u, src=["odr_unit.cpp"], cxx=cxx, flags=f + ["-c"]))
            st.append(dict(out="u%d.so" % u, src=["{build}/u%d.o" % u], cxx=cxx, flags=["-shared"], stage=1))
        pairs = [(u, w) for u in range(6) for w in range(6) if u // 2 != 1 and w // 2 != 1]
        for m in range(2):
            for f in "fl":
                for units in [()] + [(u,) for u in range(6)] + pairs:
                    o = ["{build}/u%d.o" % u for u in units]
                    mo = ["{build}/main%d.o" % m]
                    st.append(dict(out="_".join(["odr_%d%s" % (m, f)] + [str(u) for u in units]),
                                   src=mo + o if f == "f" else o + mo, cxx=cxx,
                                   flags=["-rdynamic"], libs=["-ldl"], stage=1))
        return st
    return steps


def modules(name, tier):
    """A program and the shared libraries that it loads and unloads."""
    flags = ["-O1", "-fno-gnu-unique"]
    st = [dict(out="mod_%d_%d.so" % (k, m), src=["module.cpp"], cxx="g++",
               flags=flags + ["-fPIC", "-shared", "-DREG=%d" % k, "-DMODULE=%d" % m])
          for k in range(4) for m in range(6)]
    st.append(dict(out=name, src=["h_modules.cpp"], cxx="g++", flags=flags + ["-rdynamic"], libs=["-ldl"]))
    return st


# the dynamic harnesses keep the library's assertions on
COMPONENTS = {
    "h_dispatch": dict(src="h_dispatch.cpp", flags=O2),
    "h_abstract": dict(src="h_abstract.cpp", flags=["-O1"]),
    "h_order": dict(src="h_order.cpp", flags=O2),
    "h_multi": dict(src="h_multi.cpp", flags=O2),
    "h_n2216": dict(src="h_n2216.cpp", flags=O2),
    "h_errors": dict(build=parts("h_errors.cpp", 8, ["-O0", "-fsanitize=bounds", "-fsanitize-undefined-trap-on-error"])),
    "h_pptr": dict(build=parts("h_pptr.cpp", 5, ["-O1"])),
    "h_vptr": dict(build=parts("h_vptr.cpp", 3, ["-O1"])),
    "h_ids": dict(build=parts("h_ids.cpp", 3, O2)),
    "h_checks": dict(build=parts("h_checks.cpp", 4, ["-O1"])),
    "h_indirect": dict(build=parts("h_indirect.cpp", 4, ["-O1"])),
    "h_isolation": dict(build=parts("h_isolation.cpp", 4, ["-O1"])),
    "h_args": dict(build=parts("h_args.cpp", 16, ["-O0", "-DNPARTS=16"], deep=["-DDEEP"])),
    "h_forward": dict(build=parts("h_forward.cpp", 8, ["-O0", "-DNPARTS=8"], deep=["-DDEEP"])),
    "h_inplace": dict(build=parts("h_inplace.cpp", 8, ["-O1", "-DNPARTS=8"], deep=["-DDEEP"])),
    "h_threads": dict(build=threads),
    "h_modules": dict(build=modules),
    "h_scale": dict(build=parts("h_scale.cpp", 6, ["-O1"])),
    "h_macros": dict(build=parts("h_macros.cpp", 11, ["-O0"])),
    # other language modes and compilers: the code differs
    "h_vptr_20": dict(build=parts("h_vptr.cpp", 3, ["-O1", "-std=c++20"])),
    "h_forward_20": dict(build=parts("h_forward.cpp", 8, ["-O0", "-std=c++20", "-DNPARTS=8"])),
    "h_vptr_clang": dict(build=parts("h_vptr.cpp", 3, ["-O2"], cxx="clang++"), thorough_only=True),
    "h_pptr_clang": dict(build=parts("h_pptr.cpp", 5, ["-O2"], cxx="clang++"), thorough_only=True),
    "h_args_clang": dict(build=parts("h_args.cpp", 16, ["-O1", "-std=c++20", "-DNPARTS=16"], cxx="clang++"), thorough_only=True),
    "h_forward_clang": dict(build=parts("h_forward.cpp", 8, ["-O1", "-DNPARTS=8"], cxx="clang++"), thorough_only=True),
    "h_macros_clang": dict(build=parts("h_macros.cpp", 11, ["-O1"], cxx="clang++"), thorough_only=True),
    "h_inplace_clang": dict(build=parts("h_inplace.cpp", 8, ["-O1", "-DNPARTS=8"], cxx="clang++"), thorough_only=True),
    "h_dispatch_clang": dict(src="h_dispatch.cpp", flags=O2, cxx="clang++", thorough_only=True),
    "h_convert": dict(build=parts("h_convert.cpp", 10, ["-O0"])),
    "h_convert_20": dict(build=parts("h_convert.cpp", 10, ["-O0", "-std=c++20"]), thorough_only=True),
    "h_convert_clang": dict(build=parts("h_convert.cpp", 10, ["-O1"], cxx="clang++"), thorough_only=True),
    "h_odr": dict(build=odr("g++", "-O0")),
    "h_odr_O2": dict(build=odr("g++", "-O2")),
    "h_odr_clang": dict(build=odr("clang++", "-O2"), thorough_only=True),
    "h_describe": dict(build=lambda name, tier: [dict(out=name, src=["h_describe.cpp"], cxx="g++", flags=["-O1"])]),
    "h_policies": dict(build=parts("h_policies.cpp", 17, ["-O0", "-std=c++20"], deep=["-DDEEP"], cxx="clang++")),
    "h_missing": dict(src="h_missing.cpp", flags=O2),
    "h_sparse": dict(src="h_sparse.cpp", flags=["-O1"]),
}

LATTICES = ("class lattices: every partial order (labelled, i.e. every registration "
            "order of the classes), up to isomorphism beyond the stated size; ")

PROPERTIES = {
    "C01": dict(
        uses=[("h_dispatch", {}), ("h_abstract", {}), ("h_scale", {})],
        technique="exhaustive bounded exploration of configurations of the real code against a reference dispatch model",
        note="Every configuration within the bounds is executed on the real initialize and the real call path; exhaustive within bounds, nothing beyond them. Trusts the reference model (a direct transcription of the documented rules) and the rtti policy of the harness.",
        bounds=LATTICES + "labelled <= 4 classes for arity 1 (<= 3-4 overriders, every sequence) and arity 2 (<= 2), labelled <= 3 for arity 2-3 with 3 overriders, unlabelled 4-5 classes for 3 overriders; every method signature; every tuple of dynamic types called; and one- and two-parameter families of large configurations (chains, stars, wide and laddered multiple inheritance, trees, grids, many methods, up to 16 virtual parameters, repeated registrations), for every size up to 300 (quick: up to 20-140 and around the powers of two)",
    ),
    "C02": dict(
        uses=[("h_dispatch", {}), ("h_abstract", {}), ("h_errors", {}), ("h_scale", {})],
        technique="exhaustive bounded exploration of configurations of the real code, error objects and process fate compared with a reference model",
        note="",
        bounds="as C01, restricted to the calls that the model says cannot be resolved; 18 signature shapes x 8 error handler behaviours x with/without runtime_checks x every tuple of dynamic types x call/next, plus 13 other errors, each in a child process whose fate is observed; and one- and two-parameter families of large configurations (chains, stars, wide and laddered multiple inheritance, trees, grids, many methods, up to 16 virtual parameters, repeated registrations), for every size up to 300 (quick: up to 20-140 and around the powers of two)",
    ),
    "C03": dict(
        uses=[("h_dispatch", {}), ("h_abstract", {}), ("h_scale", {}), ("h_macros", {})],
        technique="exhaustive bounded exploration of configurations of the real code, next/has_next compared with a reference model",
        note="",
        bounds="as C01; next and has_next of every overrider from every tuple that selects it; and one- and two-parameter families of large configurations (chains, stars, wide and laddered multiple inheritance, trees, grids, many methods, up to 16 virtual parameters, repeated registrations), for every size up to 300 (quick: up to 20-140 and around the powers of two)",
    ),
    "C04": dict(
        uses=[("h_order", {}), ("h_scale", {})],
        technique="exhaustive enumeration of registration orders and groupings, executed on the real code and compared with an order-free reference model",
        note="",
        bounds="all lattices of <= 4 classes; groups: every choice of listed bases between direct and all bases, one group per edge, duplicated groups; every permutation of the groups, with and without a prior registration of the classes alone; and one- and two-parameter families of large configurations (chains, stars, wide and laddered multiple inheritance, trees, grids, many methods, up to 16 virtual parameters, repeated registrations), for every size up to 300 (quick: up to 20-140 and around the powers of two)",
    ),
    "C05": dict(
        uses=[("h_multi", {}), ("h_scale", {})],
        technique="exhaustive bounded exploration of placements of several methods, executed on the real code, against a per-method reference model",
        note="",
        bounds="1-4 uni-methods, uni+bi, uni+tri, two bi-methods; every placement on every labelled lattice of <= 4 classes (<= 5 for up to 3 uni-methods), unlabelled 5 (6 in thorough) for the rest; and one- and two-parameter families of large configurations (chains, stars, wide and laddered multiple inheritance, trees, grids, many methods, up to 16 virtual parameters, repeated registrations), for every size up to 300 (quick: up to 20-140 and around the powers of two)",
    ),
    "C06": dict(
        uses=[("h_dispatch", {}), ("h_abstract", {}), ("h_scale", {})],
        technique="exhaustive bounded exploration of configurations of the real code; report compared with counts computed by the reference model; runs repeated with trace on/off",
        note="",
        bounds="as C01; three runs of initialize per configuration (no option, trace on, trace off); and one- and two-parameter families of large configurations (chains, stars, wide and laddered multiple inheritance, trees, grids, many methods, up to 16 virtual parameters, repeated registrations), for every size up to 300 (quick: up to 20-140 and around the powers of two)",
    ),
    "C07": dict(
        uses=[("h_n2216", {})],
        technique="exhaustive bounded exploration of configurations of the real code initialized with n2216, against a reference model; runs repeated for stability",
        note="Which of several equally good overriders is picked is not specified; the check accepts any of them, but the same one on every run.",
        bounds=LATTICES + "return classes: every assignment of registered classes, of non-polymorphic types, to the overriders, on lattices of <= 4 classes; arity 1-2, <= 4 overriders",
    ),
    "C08": dict(
        uses=[("h_missing", {})],
        technique="exhaustive enumeration of partial registrations executed on the real initialize; error object compared with the set of errors a reference model allows",
        note="Which of several missing classes is named is not specified; the check accepts any class that is really missing.",
        bounds="every subset of <= 3 (4-5 for the smaller shapes) classes registered, with every partial order on them; 14 shapes of 1-2 methods (arity 1-3, 0-3 overriders, covariant or not), every assignment of classes to their parameters and return types; every error followed by a corrected registration",
    ),
    "C09": dict(
        uses=[("h_modules", {})],
        technique="exhaustive exploration of all sequences, up to a depth, of loading and unloading of real shared libraries, initialize and finalize, each executed by a process of its own on the real code; after each initialize, all the calls compared with a reference model of what is loaded",
        note="Libraries are built with -fno-gnu-unique, otherwise dlclose does not unload them.",
        bounds="4 registries (vptr_vector + fast_perfect_hash, with and without runtime_checks and indirect_vptr; vptr_map) x 6 libraries (classes with overlapping registrations, methods, overriders, overriders of unregistered classes, classes of the library's own) x all sequences of <= 5 (thorough: 6) loads, unloads, initializes, finalizes, then initialize, then exit()",
    ),
    "C10": dict(
        uses=[("h_indirect", {})],
        technique="exhaustive exploration of chains of configurations of a real registry; virtual_ptrs of every kind created at each step compared with fresh ones after every later initialize",
        note="",
        bounds="398 configurations (every hierarchy of <= 4 classes with a common root, several overriders): every ordered pair (in the quick tier each pair with one of four policy combinations; thorough: all), with and without a finalize in between, and chains of three over a subset; plain, shared, unique, intrusive virtual_ptrs obtained in 7 ways, in-place objects",
    ),
    "C11": dict(
        uses=[("h_isolation", {})],
        technique="exhaustive exploration of the interleavings of operations on two real registries, each compared with a state machine that sees only its own operations",
        note="",
        bounds="8 pairs of registries sharing classes, method names and signatures; every interleaving of <= 5 (thorough 6) of 10 state-changing operations, followed by every use of both",
    ),
    "C12": dict(
        uses=[("h_ids", {})],
        technique="exhaustive enumeration of sets of type ids and of their assignment to classes, executed on the real policies; every class looked up and called, compared with a reference that knows nothing of ids",
        note="The id ~0 is excluded (known finding). search_error is accepted only when some class has several ids.",
        bounds="12 combinations of vptr_vector/fast_perfect_hash/vptr_map, indirect_vptr, runtime_checks; all sets of <= 3 (half of those of 4; thorough: all of 4, half of 5) of 28 ids (small, addresses, extreme bit patterns) with every assignment to classes; regularly spaced families of up to 34 ids, 32 base/stride pairs, 1-34 ids per class; every pair of ~100 configurations initialized in a row",
    ),
    "C13": dict(
        uses=[("h_checks", {}), ("h_sparse", {}), ("h_ids", {}), ("h_errors", {})],
        technique="explicit exploration of every sequence of initialize, finalize and uses on the real code, compared with a small state machine; exhaustive enumeration of unregistered type ids",
        note="",
        bounds="sequences of <= 3 (thorough 4) of 94 operations, and of <= 4 (6) state-changing operations followed by every use; 4 vptr policies x indirect_vptr, in-place objects created and used separately; every unregistered id of a pool against every registered set as in C12; process fate of each error (h_errors); registries without classes, methods or overriders (h_sparse): sequences of <= 5 (8) of initialize, finalize, load/unload classes, every use, and of <= 3 (4) of ~40 operations",
    ),
    "C14": dict(
        compile_verdict=True,
        uses=[("h_pptr", {}), ("h_pptr_clang", {})],
        technique="explicit-state search of the real code: every virtual_ptr operation from every reachable state of a set of variables, compared step by step with plain pointers",
        note="The state space of the variables is explored to its fixpoint (no depth bound); operations whose precondition does not hold for plain pointers (casting null, wrong downcast) are not applied.",
        bounds="five variables (two of the base class, one const, two of derived classes), four objects of three classes, one of which is replaced in place by an object of another class; single, virtual and multiple inheritance, non-polymorphic classes, in-place v-table pointers, a user's boost_openmethod_vptr; with and without indirect_vptr and runtime_checks; two vptr policies; thorough: also compiled by clang",
    ),
    "C15": dict(
        compile_verdict=True,
        uses=[("h_vptr", {}), ("h_vptr_20", {}), ("h_vptr_clang", {})],
        technique="explicit-state search of the real code: every smart virtual_ptr operation from every reachable state, compared step by step with the bare smart pointers",
        note="The state space of the variables is explored to its fixpoint. After a cast from an rvalue, the source may be moved from or intact, as long as it is consistent.",
        bounds="three variables (base, derived and const) of std::shared_ptr, std::unique_ptr and boost::intrusive_ptr; two objects; polymorphic, virtual inheritance; with and without indirect_vptr; C++17 and C++20; thorough: also compiled by clang",
    ),
    "C16": dict(
        uses=[("h_args", {}), ("h_forward", {}), ("h_forward_20", {}), ("h_macros", {}), ("h_args_clang", {}), ("h_forward_clang", {}), ("h_macros_clang", {})],
        technique="exhaustive enumeration of small programs (class hierarchies x parameter kinds x classes; sequences of parameters; kinds of results), each executed on the real code and compared with what the language guarantees",
        note="The address an overrider must receive is computed by the compiler's own implicit conversions. A program of the enumeration that does not compile against the tree, while an elementary one does, is a violation.",
        bounds="58 hierarchies of 2-4 classes (every edge absent, non-virtual or virtual, no repeated bases, two orders of the bases (4 classes: one)), 24 parameter kinds (4 classes: 9; thorough: all, both orders), every method class, overrider class, dynamic class and static class of the argument; every pair of 11 virtual and 19 non-virtual parameter kinds, triples of 9 kinds (thorough: 9 more, quadruples of 4); 25 kinds of results; every pair of a virtual kind and one of 23 kinds, through the macros, in four forms (explicit registry, inline, declared then defined, nested namespaces with overloads); C++17 and C++20; thorough: also compiled by clang",
        compile_verdict=True,
    ),
    "C17": dict(
        uses=[("h_inplace", {}), ("h_inplace_clang", {})],
        technique="exhaustive enumeration of in-place class hierarchies and, for each, of all sequences of operations on two objects up to a depth, executed on the real code; every living subobject used at every step of every construction and destruction and compared with a model of native v-tables",
        note="Each constructor body, destructor body, member initialization and member destruction of each operation is a point at which all the living subobjects are used.",
        bounds="all hierarchies of 1-3 in-place classes (including repeated bases) x 4 class layouts (monomorphic, polymorphic, polymorphic first bases, virtual base) x 4 registries, 4 classes with 4 of the 16 combinations (thorough: all); 2 objects; sequences of 3 operations (thorough: 4 for up to 3 classes): construct, throw at each point of a construction, slicing copy/move, the same throwing, copy/move assignment and swap of any two subobjects, destroy, re-initialize (indirect registries); thorough: also compiled by clang",
    ),
    "C18": dict(
        uses=[("h_threads", {})],
        technique="stateless model checking of the real code: all schedules up to a preemption bound under a controlled scheduler that owns every memory access (clang's thread instrumentation with our own runtime), a happens-before race detector on each of them, and the results compared with those of the programs executed alone",
        note="Each schedule is executed by a fresh process, so that first uses are concurrent. Interleavings are sequentially consistent; the weaker orders are covered by the race detector, which honours the memory orders of the atomic operations.",
        bounds="5 registries x every pair of 16 programs (calls of methods of arity 1-3, through references, virtual_ptrs, shared, unique and intrusive virtual_ptrs, virtual bases, next, has_next, erroneous calls, final_virtual_ptr, copies and conversions, in-place objects): all schedules with <= 1 preemption at any access of memory outside the thread's own stack and allocations, and with <= 2 preemptions at accesses of conflicting memory (thorough: 3); 3 threads (1 preemption; thorough: every pair of programs); thorough: sequences of two programs",
        assumptions=["libstdc++'s and libc's own code is not instrumented"],
    ),
    "C19": dict(
        compile_verdict=True,
        uses=[("h_policies", {})],
        technique="exhaustive enumeration of compositions of policies and, for each valid combination of them, of all sequences of initialize and finalize up to a depth, executed on the real code; the registry obtained, what user-supplied policies are told, and the calls, compared with a reference model",
        note="A combination that does not compile against the tree, while an elementary program does, is a violation.",
        bounds="with and without, 15 policies of 8 categories, from 3 registries: all sequences of <= 2 (thorough 3), all pairs in one go; 4 rtti policies (standard, static, user, user deferred with several ids per class) x 8 ways to store v-table pointers (none, vector, vector + hash, vector + user hash, map, ordered map, user, map + hash) x 4 (thorough: 9) pairs of error handler and output (none, supplied, user) x indirect_vptr x runtime_checks, except invalid ones (static_rtti with an error handler; vptr_vector without a hash over addresses); for each, all sequences of <= 3 (thorough 4) of 6 (8) initialize and finalize with and without options, all the calls after each",
    ),
    "C20": dict(
        compile_verdict=True,
        uses=[("h_convert", {}), ("h_convert_20", {}), ("h_convert_clang", {})],
        technique="exhaustive enumeration of the matrix of targets, sources and value categories; whether each conversion is accepted is compared with the conversions of the underlying pointers, and each accepted one is executed on the real code, on each possible dynamic class and from null, into a new, a null and an occupied target",
        note="Conversions are decided by the compiler, one at a time (is_constructible, is_assignable, is_convertible, is_invocable): each case is one of its verdicts, or one execution. An accepted conversion that does not compile when used is a violation. Assignments between intrusive_ptrs are declared by Boost whether they are valid or not: those are only checked when valid.",
        bounds="targets: virtual_ptrs, plain, shared, unique and intrusive, to 14 classes (const and not, polymorphic and not, multiple, private and ambiguous bases), in 2 registries (one with indirect_vptr); sources: the same virtual_ptrs, smart and plain pointers and objects of the same classes, virtual_ptrs of another registry, nullptr and unrelated types, as lvalues, const lvalues and rvalues; calls of methods with 22 kinds of virtual parameters with each source; dynamic classes: 7; thorough: also C++20 and clang",
    ),
    "C21": dict(
        uses=[("h_odr", {}), ("h_odr_O2", {}), ("h_odr_clang", {})],
        technique="exhaustive enumeration of programs (which units, compiled how, linked in which order) and of sequences of loading libraries and initializing, each executed by a real process; compared with a reference model",
        bounds="main program and <= 2 linked units, in every order, each with and without BOOST_OPENMETHOD_ENABLE_RUNTIME_CHECKS, of 3 contents; sequences of <= 3 (thorough 4) operations: load one of 6 libraries (with local or global symbols), initialize the default registry, initialize another registry; handlers that throw and that return; -O0 and -O2 (thorough: clang)",
    ),
    "C22": dict(
        uses=[("h_describe", {})],
        technique="exhaustive enumeration of errors, of sequences of operations (initialize, finalize, changes of handler, uses that cause errors or not), of operations on the output stream, and of values of the environment variable, executed on the real code and compared with a reference model",
        bounds="8 registries (3 rtti policies, default and throwing handlers, with and without output) x 8 errors x all pairs of 6 classes: descriptions compared pairwise; all sequences of <= 4 (thorough 5) operations among initialize, finalize, 2 handlers, restoring the previous one, and 3 uses of objects of 6 classes (2 unregistered), ending in a use; sequences of <= 3 (thorough 4) of 25 operations on a stderr_output stream; values of BOOST_OPENMETHOD_TRACE: unset, all strings of <= 4 characters from 5",
        assumptions=["descriptions are not compared with fixed texts: they must be non-empty, distinct for distinct errors, name the classes at fault, and, where they use the words static, dynamic and base, attach them to the right class"],
    ),
}
