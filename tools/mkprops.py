#!/usr/bin/env python3
# Writes properties.jsonl.  Kept as a script so that the long texts stay readable.
import json, os
I = "include/boost/openmethod/"
P = []

def prop(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext),
        why_tests_cant=why,
        anchors=dict(
            files=[I + f for f in files],
            mechanism=[dict(name=n, where=I + w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=I + w) for n, m, w in state],
            observe_at=list(observe), hook_needed=None)))

prop("C01", "A method call runs the unique most specialized applicable overrider",
 "After initialization, for any registered class hierarchy (including multiple and virtual inheritance), any method with one or more virtual parameters and any set of overriders, a call executes exactly the overrider that is applicable to the dynamic types of the virtual arguments and is not dominated by another applicable overrider (A dominates B if one of A's virtual parameters is more specialized than B's and none of B's is more specialized than A's). If there is exactly one such overrider, it and no other runs.",
 ["inputs", "programs", "configurations"],
 "all class lattices x method signatures x overrider sets x tuples of dynamic types",
 "Tests sample about a dozen fixed hierarchies with at most a handful of overriders each; the interesting failures need particular lattices, particular overrider sets and a particular call.",
 ["initialize.hpp", "core.hpp"],
 [("overrider selection", "initialize.hpp: select_dominant_overriders, is_more_specific"),
  ("dispatch table construction", "initialize.hpp: build_dispatch_tables, write_global_data"),
  ("table lookup", "core.hpp: method::resolve_uni, resolve_multi_first, resolve_multi_next")],
 ["result of a method call"],
 [("dispatch data", "v-tables and multi-method dispatch tables", "preamble.hpp: registry::dispatch_data")])

prop("C02", "A call that cannot be resolved is reported precisely and never returns",
 "A call to which no overrider applies reports no_overrider, and a call for which no single best overrider exists reports ambiguous_call, naming the method, its number of virtual arguments and the dynamic type of each of them, exactly once and without running any overrider. If the error handler returns, or if there is no error handler, the program is terminated with abort, as it is for every other error the library detects; if the handler throws, the exception reaches the caller and the registry remains usable.",
 ["inputs", "configurations", "fault_sequences"],
 "all lattices, overrider sets and argument tuples that are not resolvable; all error handler behaviours; all positions of the virtual arguments",
 "Tests check one ambiguous and one unimplemented matrix pair; the content of the report is checked for a single signature, and termination after a returning handler is not exercised.",
 ["core.hpp", "preamble.hpp", "policies/default_error_handler.hpp", "policies/throw_error_handler.hpp"],
 [("synthetic overriders", "core.hpp: fn_not_implemented, fn_ambiguous, init_bad_call"),
  ("error handlers", "policies/default_error_handler.hpp: fn::error")],
 ["error object passed to the handler", "process exit status"])

prop("C03", "next calls the next most specialized overrider; has_next tells if it exists",
 "From an overrider, `next` executes the overrider that would have been selected for the same virtual arguments had the current overrider not been registered; if there is none, or if it is ambiguous, calling `next` reports no_overrider or ambiguous_call. `has_next` returns true exactly when `next` can be called without causing such an error.",
 ["inputs", "configurations"],
 "all lattices, overrider sets, and overriders selected by some call",
 "Tests follow a few hand-written chains, all of them linear.",
 ["initialize.hpp", "core.hpp", "macros.hpp"],
 [("computation of next", "initialize.hpp: build_dispatch_table"),
  ("has_next", "core.hpp: method::has_next")],
 ["method::next<Fn>", "method::has_next<Fn>()"])

prop("C04", "Dispatch does not depend on registration order, grouping or repetition",
 "The behaviour of a registry after initialization depends only on the sets of classes, inheritance relations, methods and overriders registered, not on the order in which they were registered, on how classes are split between registration calls (as long as each class appears with each of its direct bases in some call), or on how many times a class is registered.",
 ["inputs", "configurations", "histories"],
 "all permutations and groupings of the registrations of a hierarchy; all permutations of the overriders",
 "Static registration order is fixed by the order of the definitions in each test; only one order is tested per hierarchy.",
 ["initialize.hpp", "core.hpp"],
 [("merging of class records", "initialize.hpp: augment_classes, collect_transitive_bases"),
  ("registrars", "core.hpp: use_class_aux, inheritance_map")],
 ["results of calls and of next"])

prop("C05", "Methods do not interfere with each other",
 "Dispatch of a method is unaffected by the presence, in the same registry, of other methods on the same, related or unrelated classes, and by their overriders: every method of a registry behaves as if it were alone.",
 ["inputs", "configurations"],
 "all lattices x assignments of several methods (of several arities) to their classes",
 "A slot collision needs a specific lattice shape and a specific placement of methods; tests contain a few placements only.",
 ["initialize.hpp"],
 [("slot allocation", "initialize.hpp: assign_slots, assign_tree_slots, assign_lattice_slots"),
  ("v-table layout", "initialize.hpp: write_global_data")],
 ["results of calls"],
 [("slots", "used and reserved v-table slots per class", "initialize.hpp: class_::used_slots, reserved_slots, first_slot")])

prop("C06", "initialize's report is exact; tracing changes nothing",
 "The report returned by initialize gives the number of methods for which some combination of registered classes has no overrider, the number of methods for which some combination is ambiguous, and the number of cells of the multi-method dispatch tables, which contain one cell per combination of distinguishable groups of classes (classes accepting the same overriders in that parameter are merged). Passing the `trace` option, on or off, never changes the report or the behaviour of calls.",
 ["inputs", "configurations"],
 "all lattices, methods and overrider sets; trace absent, on and off",
 "Tests assert the report of two or three small programs.",
 ["initialize.hpp"],
 [("report", "initialize.hpp: accumulate, method_report, build_dispatch_tables"),
  ("trace", "initialize.hpp: trace_stream")],
 ["initialize(...).report"])

prop("C07", "n2216 resolves ambiguities by covariant return type, stably",
 "With the n2216 option, calls that are not ambiguous behave as without it; for an ambiguous call, if the method's return type is a registered class and the return type of one of the best overriders is more specialized than those of all the others, that overrider is called; otherwise one of the best overriders, none of which returns a less specialized type than another, is called, and always the same one. An ambiguity never makes initialize fail or a call report ambiguous_call.",
 ["inputs", "configurations"],
 "all lattices, overrider sets and assignments of return types",
 "Tests contain two ambiguous pairs; sets of three or more ambiguous overriders are never built.",
 ["initialize.hpp", "preamble.hpp"],
 [("covariant return resolution", "initialize.hpp: select_dominant_overriders (n2216)")],
 ["results of calls after initialize(n2216())"])

prop("C08", "initialize rejects exactly the inconsistent registrations",
 "initialize reports missing_class, carrying the offending type, if and only if a class used as a virtual parameter in a method or an overrider (or, when the method returns a registered class, as the return type of an overrider) is not registered; otherwise it reports missing_base, carrying the base class from the method and the derived class from the overrider, if and only if an overrider's parameter class is not registered as derived from the method's; otherwise it succeeds.",
 ["inputs", "configurations"],
 "all sets of registered classes and inheritance relations x method signatures x overriders",
 "Tests cover one missing class of each kind; false positives and the content of missing_base are not tested.",
 ["initialize.hpp"],
 [("class lookup", "initialize.hpp: augment_methods"),
  ("base check", "initialize.hpp: augment_methods (missing_base)")],
 ["error object passed to the handler"])

prop("C09", "Re-initialization after loading/unloading behaves as a fresh start",
 "After any history of loading and unloading of libraries that register classes, methods and overriders, of initialize and finalize, calls made after a new call to initialize behave (results, errors, next) as in a program in which only what is currently loaded was ever registered. Until then, and as long as nothing that was initialized is unloaded, calls keep behaving as they did. Unloading in any order, and finalize at any time, never corrupts the registry.",
 ["histories", "fault_sequences"],
 "all sequences of load, unload, initialize, finalize up to a depth, over several libraries",
 "The shared library tests run one fixed script.",
 ["initialize.hpp", "detail/static_list.hpp", "core.hpp", "policies/vptr_vector.hpp", "policies/fast_perfect_hash.hpp", "policies/vptr_map.hpp"],
 [("registration lists", "detail/static_list.hpp: push_back, remove"),
  ("rebuild", "initialize.hpp: registry::compiler, registry::finalize"),
  ("policy state", "policies/*: initialize, finalize")],
 ["results of calls after initialize"],
 [("registration lists", "classes, methods, overriders", "preamble.hpp: registry::classes, registry::methods")])

prop("C10", "With indirect_vptr, existing virtual_ptrs survive re-initialization",
 "In a registry that contains the indirect_vptr policy, a virtual_ptr (plain or smart) or an object with an in-place v-table pointer created before a subsequent call to initialize dispatches, after that call, exactly as one created afresh, provided its class is still registered.",
 ["histories", "configurations"],
 "all pairs (and longer sequences) of configurations of a registry; all ways of creating a virtual_ptr",
 "Tests re-initialize one registry, once.",
 ["core.hpp", "policies/vptr_vector.hpp", "policies/vptr_map.hpp", "inplace_vptr.hpp"],
 [("boxed vptr", "core.hpp: box_vptr, unbox_vptr, virtual_ptr::vp"),
  ("indirect vectors", "policies/vptr_vector.hpp: vptr_vector_indirect_vptrs"),
  ("static_vptr", "preamble.hpp: registry::static_vptr")],
 ["results of calls through old virtual_ptrs"])

prop("C11", "Registries are isolated from each other",
 "Classes, methods, overriders, policies' state, initialization and finalization of one registry have no effect on calls made through, or virtual_ptrs belonging to, another registry, even if the same classes and the same method and overrider signatures are used in both (registries are distinct if their policy lists differ).",
 ["histories", "configurations"],
 "all interleavings of initialize, finalize and calls on two registries, for pairs of policy sets",
 "Tests use many registries but never interleave operations on two registries sharing classes.",
 ["preamble.hpp", "policies/vptr_vector.hpp", "policies/vptr_map.hpp", "policies/fast_perfect_hash.hpp", "policies/default_error_handler.hpp"],
 [("per-registry static state", "preamble.hpp: registry static members"),
  ("per-registry policy state", "policies/*: fn<Registry>")],
 ["results of calls; errors reported"])

prop("C12", "Dispatch is the same with every vptr policy and every set of type ids",
 "For any set of distinct type ids of the registered classes, including several ids for one class, vptr_vector (with or without fast_perfect_hash) and vptr_map, with or without indirect_vptr and runtime_checks, find the v-table of every registered class: calls give the same results with all of them. fast_perfect_hash either finds a collision-free function for the registered ids or reports search_error, and never hangs; when each class has one id, it finds a function for a few dozen classes.",
 ["inputs", "configurations"],
 "sets of type ids x policy combinations",
 "Tests use the addresses of type_info objects as laid out by one linker.",
 ["policies/fast_perfect_hash.hpp", "policies/vptr_vector.hpp", "policies/vptr_map.hpp", "policies/std_rtti.hpp", "policies/static_rtti.hpp"],
 [("hash search", "policies/fast_perfect_hash.hpp: fn::initialize, fn::hash, fn::check"),
  ("vptr tables", "policies/vptr_vector.hpp, policies/vptr_map.hpp: fn::initialize, fn::dynamic_vptr")],
 ["results of calls"])

prop("C13", "runtime_checks detect misuse, and only misuse",
 "With runtime_checks, calling a method or creating a virtual_ptr before initialize (or after finalize) reports not_initialized; passing an object of an unregistered class to a method or to a virtual_ptr constructor reports missing_class with its type (for a vptr policy that can identify it: fast_perfect_hash or vptr_map); final_virtual_ptr on an object whose dynamic type differs from its static type reports final_error with both types. Correct programs never see these errors.",
 ["inputs", "histories", "configurations"],
 "all sequences of initialize/finalize and uses; registered and unregistered dynamic types; policy combinations",
 "Tests provoke each error once, from one state, with one policy set.",
 ["core.hpp", "preamble.hpp", "policies/fast_perfect_hash.hpp", "policies/vptr_map.hpp"],
 [("initialized flag", "preamble.hpp: registry::require_initialized"),
  ("type id checks", "policies/fast_perfect_hash.hpp: check; policies/vptr_map.hpp: dynamic_vptr"),
  ("final check", "core.hpp: final_virtual_ptr")],
 ["errors reported"])

prop("C14", "Plain virtual_ptr always pairs the object with the v-table of its class",
 "After any sequence of constructions, conversions, copies, moves, assignments and casts, a plain virtual_ptr designates the object a plain pointer put through the same operations would designate, and its v-table is that of the object's dynamic class; when null, get() is null and it compares equal to a null virtual_ptr, and assigning to it makes it usable again.",
 ["histories", "inputs"],
 "all sequences of virtual_ptr operations up to a depth, over several static and dynamic types, for direct and indirect registries",
 "Tests exercise each operation once, from one state.",
 ["core.hpp"],
 [("virtual_ptr", "core.hpp: virtual_ptr<Class, Registry>"),
  ("final_virtual_ptr", "core.hpp: final_virtual_ptr")],
 ["get(), operator*, vptr(), == and !=, method calls"],
 [("vp, obj", "v-table pointer and object pointer", "core.hpp: virtual_ptr")])

prop("C15", "Smart virtual_ptrs have the ownership semantics of their smart pointer",
 "After any sequence of constructions, conversions, copies, moves, assignments and casts, a smart virtual_ptr (shared, unique, intrusive) owns what the underlying smart pointer put through the same operations would own (same object, same use count, destroyed exactly once), and its v-table is that of the object's dynamic class, or null if it owns nothing. (A cast from an rvalue may leave its source moved from or intact.)",
 ["histories", "inputs"],
 "all sequences of smart virtual_ptr operations up to a depth, from null and non-null states",
 "Tests exercise each operation once, mostly from non-null states.",
 ["core.hpp", "interop/std_shared_ptr.hpp", "interop/std_unique_ptr.hpp", "interop/boost_intrusive_ptr.hpp"],
 [("smart virtual_ptr", "core.hpp: virtual_ptr<SmartPtr, Registry, enable_if smart>"),
  ("traits", "interop/*: virtual_traits specializations")],
 ["get(), use_count(), vptr(), destructor runs"])

prop("C16", "Overriders receive the caller's arguments, and callers the overrider's result",
 "For every kind of virtual parameter (references, rvalue references, pointers, virtual_ptrs by value and by const reference, smart pointers and smart virtual_ptrs) and every accessible unambiguous inheritance relation (single, multiple, virtual), the overrider receives the very object passed by the caller, as the subobject of the overrider's parameter type; non-virtual arguments are forwarded with their value, identity and value category, and the result is returned unchanged, converted if covariant.",
 ["inputs", "programs", "configurations"],
 "all small C++ hierarchies with single, multiple and virtual inheritance x parameter kinds x positions of virtual and non-virtual parameters",
 "Tests use a few hierarchies, mostly single inheritance with empty bases, for which a wrong pointer adjustment is invisible.",
 ["core.hpp", "macros.hpp", "interop/std_shared_ptr.hpp", "interop/std_unique_ptr.hpp", "interop/boost_intrusive_ptr.hpp", "policies/std_rtti.hpp"],
 [("thunks", "core.hpp: method::thunk"),
  ("casts", "core.hpp: virtual_traits::cast, optimal_cast; interop/*: cast")],
 ["addresses and values seen by overriders; values returned"])

prop("C17", "In-place v-table pointers follow construction and destruction",
 "In an object whose class embeds its v-table pointer with inplace_vptr_base/inplace_vptr_derived, a method called on the object from a constructor or destructor of one of its classes dispatches as for an object of that class, and as for the complete class when fully constructed, whatever the hierarchy, including several bases, copies and assignments.",
 ["programs", "histories"],
 "all small hierarchies of in-place classes x points in construction/destruction x ways to construct",
 "Tests check one single-inheritance and one multiple-inheritance hierarchy.",
 ["inplace_vptr.hpp", "core.hpp"],
 [("vptr setting", "inplace_vptr.hpp: inplace_vptr_base, inplace_vptr_derived constructors and destructors"),
  ("vptr acquisition", "core.hpp: acquire_vptr, boost_openmethod_vptr")],
 ["results of calls during construction and destruction"])

prop("C18", "Initialized registries can be used concurrently",
 "Once initialize has returned, any number of threads may call methods, create, copy and destroy their own virtual_ptrs, and call next and has_next concurrently without synchronization: there is no data race and every call gives the result it gives when executed alone.",
 ["schedules"],
 "all interleavings of calls in several threads",
 "All tests are single-threaded.",
 ["core.hpp", "policies/fast_perfect_hash.hpp", "policies/vptr_vector.hpp", "policies/vptr_map.hpp", "interop/std_shared_ptr.hpp"],
 [("read-only dispatch", "core.hpp: method::resolve, acquire_vptr"),
  ("read-only lookup", "policies/*: dynamic_vptr, hash")],
 ["memory accesses of the call path", "results of calls"])

prop("C19", "Registries made of any combination of policies behave as documented",
 "A registry obtained by any sequence of `with` and `without` contains, for each category, the policy added last and not removed since, and nothing else, and its `policy` alias and `has_` flags say so. Any valid combination of policies, supplied or written by the user against the documented blueprints, compiles, initializes, finalizes and dispatches correctly, with or without options. At each `initialize` the v-table and hash policies are initialized exactly once, with the options and every registered class exactly once with all its type ids and its v-table pointer; at each `finalize`, every policy that has a matching `finalize` is finalized exactly once, with the options.",
 ["configurations", "programs", "histories"],
 "all compositions of policies up to a depth; all valid combinations of policies; all sequences of initialize and finalize on each",
 "Tests use half a dozen combinations of policies, call `with` and `without` a few times, and have no policy that counts what it is told.",
 ["preamble.hpp", "initialize.hpp", "default_registry.hpp", "policies/vptr_vector.hpp", "policies/vptr_map.hpp", "policies/fast_perfect_hash.hpp", "policies/std_rtti.hpp", "policies/static_rtti.hpp", "policies/stderr_output.hpp", "policies/default_error_handler.hpp", "policies/throw_error_handler.hpp"],
 [("composition", "preamble.hpp: registry::with, without, policy, has_*; detail::with_aux, without_aux, get_policy_aux"),
  ("initialization of policies", "initialize.hpp: compiler::write_global_data, class_::type_id_begin, classes_begin; registry::finalize")],
 ["policy_list, policy<>, has_*", "what user policies are passed", "results of calls"])

prop("C20", "Conversions to virtual_ptr are exactly those of the underlying pointers",
 "For every pair of types, a plain virtual_ptr can be constructed and assigned from lvalues of, pointers to, and (plain or smart) virtual_ptrs to, an object if and only if the corresponding plain pointers convert implicitly, constness, accessibility and ambiguity of bases included (from objects and pointers: only if the class is polymorphic); a smart virtual_ptr, from smart pointers (to polymorphic classes) and smart virtual_ptrs that use the same smart pointer template, in the value category at hand, if and only if the smart pointers convert; both from nullptr, explicitly when constructing. virtual_ptrs never convert across registries, nor plain to smart. Methods can be called with exactly the arguments that convert to their undecorated parameters. Every accepted conversion, from any dynamic class, yields the same object (with pointers adjusted) and the v-table of its dynamic class; or null and no v-table from null.",
 ["programs", "inputs"],
 "all pairs of target and source types, value categories included, in a universe of classes; each accepted one executed with all dynamic classes and states of the target",
 "Tests assert a few dozen of the conversions, between two classes, and execute fewer.",
 ["core.hpp", "interop/std_shared_ptr.hpp", "interop/std_unique_ptr.hpp", "interop/boost_intrusive_ptr.hpp"],
 [("constructors and assignment operators", "core.hpp: virtual_ptr (both specializations); detail::SameSmartPtr, IsSmartPtr, IsPolymorphic"),
  ("call operators of methods", "core.hpp: method::operator(), detail::StripVirtualDecorator")],
 ["is_constructible, is_assignable, is_convertible, is_invocable", "virtual_ptr::get, vptr"])

prop("C21", "Mixed definitions of the default registry are rejected, and only those",
 "If translation units of a program, in the executable or in libraries loaded so far, were compiled some with and some without BOOST_OPENMETHOD_ENABLE_RUNTIME_CHECKS, whatever they contain and in whatever order they were linked or loaded, then each attempt to initialize the default registry reports odr_violation to the error handler, once, and does nothing else; the program is aborted if the handler returns. Consistent programs never see this error, and neither do other registries.",
 ["programs", "histories"],
 "all combinations of units and orders of linking and loading, and all sequences of loads and initializations, up to a size",
 "One test: a program of two units.",
 ["preamble.hpp", "default_registry.hpp", "initialize.hpp"],
 [("detection", "preamble.hpp: detail::odr_check; default_registry.hpp: default_registry_odr_check_instance"),
  ("report", "initialize.hpp: initialize")],
 ["errors reported to the handler", "termination of the process", "results of calls"])

prop("C22", "Errors reach the handler in force, once, and are described on the output",
 "Each error is passed exactly once to the handler in force, as the right type with the right classes, or thrown by throw_error_handler as an object that can be caught as the error, as openmethod_error, or as a std::runtime_error whose what() is the description. `set` returns the previous handler, and setting it again restores it. The default handler writes one line with the description of the error, to the output policy's stream if there is one, and nothing is written otherwise. Descriptions of different errors differ, and name the classes at fault, in their roles. The standard output policy writes exactly what is inserted to the stream it was directed to, and nothing when off. Traces requested by trace::from_env are on if and only if BOOST_OPENMETHOD_TRACE is exactly '1'.",
 ["inputs", "histories", "configurations"],
 "all errors with all classes; all sequences of changes of handler, initialize, finalize and errors, up to a depth; all sequences of operations on the stream; all values of the variable up to a length",
 "Tests install a handler once and check one error at a time; descriptions, streams and the environment variable are not tested.",
 ["preamble.hpp", "policies/default_error_handler.hpp", "policies/throw_error_handler.hpp", "policies/stderr_output.hpp", "detail/ostdstream.hpp", "policies/fast_perfect_hash.hpp", "policies/std_rtti.hpp"],
 [("descriptions", "preamble.hpp: write; policies/fast_perfect_hash.hpp: search_error::write; policies: type_name"),
  ("handlers", "policies/default_error_handler.hpp: error, set, default_handler; policies/throw_error_handler.hpp: error"),
  ("output", "detail/ostdstream.hpp; policies/stderr_output.hpp"),
  ("environment", "preamble.hpp: trace::from_env")],
 ["error handler's argument", "exceptions", "bytes written"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
