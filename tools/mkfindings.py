#!/usr/bin/env python3
# Writes known_findings.json.
import json, os
F = [
 ("C03", "known", None,
  "`next` is one static pointer per overrider although, for multi-methods under multiple inheritance, the next overrider can depend on the arguments: classes R; P<R; S<R; x<P,S; method(R,R); overriders W=(P,P), V=(S,R): for (x,P) the next of W is V, for (P,P) W has no next; both calls use the same pointer. Every other disagreement is reported: the check accepts, for an overrider whose reference `next` differs between the argument tuples that select it, only one of these reference results."),
 ("C12", "known", None,
  "fast_perfect_hash marks empty buckets with the type id ~0 (fast_perfect_hash.hpp: initialize): a class registered with that id can lose its bucket to another class. Ids other than ~0 are all checked."),
 ("C13", "known", None,
  "fast_perfect_hash marks empty buckets with the type id ~0: with runtime_checks, an object of an unregistered class whose type id is ~0 is not reported as missing_class. Ids other than ~0 are all checked."),
 ("C17", "known", None,
  "inplace_vptr_derived with a virtual base (struct A : inplace_vptr_base<A> {}; struct B : virtual A, inplace_vptr_derived<B, A> {};): constructing a B crashes or corrupts memory, because the constructor of the mixin converts a B* to its virtual base before the native v-table pointer of B is set. All the hierarchies without a virtual derivation between in-place classes are checked."),
 ("C01", "fixed", "4e1b7ad", "the selected overrider depended on the order of registration: classes R; P<R; S<R; Q<P; x<Q,S; overriders (Q,S),(P,Q),(S,P) called with (x,x)"),
 ("C04", "fixed", "4e1b7ad", "same defect, seen as a dependence on registration order"),
 ("C04", "fixed", "f685ff9", "c2<c0, c3<c1,c2 registered derived-first, direct bases only: crash in initialize"),
 ("C01", "fixed", "70bfd6b", "method(virtual_ptr<X>,int,virtual_ptr<X>) with overriders (X,Y),(Y,X): call (y,1,y) ran the second overrider instead of reporting an ambiguity"),
 ("C16", "fixed", "70bfd6b", "same defect, seen at the level of parameter kinds and positions"),
 ("C02", "fixed", "7b999de", "no_overrider on method(virtual_ptr<X>,int,virtual_ptr<X>): arity 3 and the type of the int among the dynamic types"),
 ("C07", "fixed", "64a177f", "n2216 o; initialize<R>(o): the option was ignored"),
 ("C07", "fixed", "92eb84c", "three ambiguous overriders with covariant return types: null dereference in initialize"),
 ("C08", "fixed", "ef8ec3a", "missing_base carried the derived class as the base and vice versa"),
 ("C15", "fixed", "3f64b7c", "assigning a null smart pointer to a virtual_ptr kept or computed a v-table pointer from a null pointer"),
 ("C14", "fixed", "54137f9", "assignment of an object of an unregistered class, rejected by a throwing error handler, left the new object paired with the old v-table"),
 ("C17", "fixed", "c860377", "Animal a = cat; or a = cat; copied the v-table pointer of Cat into an Animal"),
 ("C10", "fixed", "cabddba", "virtual_ptr to an object with an in-place vptr, in a registry with indirect_vptr, stored the address of a temporary"),
 ("C15", "fixed", "4dd18ca", "std::move(p).cast<D>() on a unique virtual_ptr left a v-table pointer in a virtual_ptr that owns nothing"),
 ("C16", "fixed", "47c95cd", "a method with a 'const virtual_ptr<Base>&' parameter could not have an overrider with exactly the same parameter type (ambiguous specialization)"),
 ("C06", "fixed", "d02a358", "initialize(trace(false)) wrote 'Finding hash factor' to the output stream"),
 ("C12", "fixed", "68635cb", "search_error.buckets was twice the number of buckets of the last attempt"),
 ("C16", "fixed", "8ddea20", "methods taking virtual_<unique_ptr<Class>> did not compile for non-polymorphic classes: the cast always used dynamic_cast_ref, contrary to its documentation"),
 ("C16", "fixed", "2725331", "methods taking virtual_<const shared_ptr<Class>&> did not compile for non-polymorphic classes: the downcast always used dynamic_pointer_cast, contrary to its documentation"),
 ("C16", "fixed", "9a9823b", "virtual_<Class*> parameters did not work with custom rtti and virtual inheritance: the cast ignored the rtti policy of the registry"),
 ("C16", "fixed", "90ce3b6", "overriders of methods with a non-virtual parameter of rvalue reference type did not compile: the argument was forwarded as a lvalue"),
 ("C19", "fixed", "059e334", "registry<foo1>::with<foo1> was registry<foo1, foo1>"),
 ("C20", "fixed", "6b19ed1", "virtual_ptr<Base> p(&derived), or p = &derived, were rejected if Derived is polymorphic, as documented, but not Base: the class of the virtual_ptr was tested instead"),
 ("C19", "fixed", "326e61f", "initialize<R>(trace()) did not compile with an output policy whose stream provides what LightweightOutputStream requires: it inserted pointers to functions"),
]
out = []
for p, st, c, w in F:
    e = dict(property=p, status=st, what=w if st == "known" else "fixed: property=%s %s %s" % (p, c, w))
    out.append(e)
json.dump(out, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known_findings.json"), "w"), indent=1)
