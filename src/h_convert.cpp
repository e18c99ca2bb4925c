// C20: which conversions to virtual_ptr exist, and what they do.  The matrix of
// all the targets and all the sources (virtual_ptrs, smart pointers, pointers
// and objects, of related and unrelated classes, const and not, in the same
// registry or not, as lvalues, const lvalues and rvalues) is enumerated; whether
// the conversion is accepted is compared with the conversions of the underlying
// pointers, and the accepted ones are executed on every dynamic type.
#include <boost/openmethod.hpp>
#include <boost/openmethod/initialize.hpp>
#include <boost/openmethod/interop/boost_intrusive_ptr.hpp>
#include <boost/openmethod/interop/std_shared_ptr.hpp>
#include <boost/openmethod/interop/std_unique_ptr.hpp>
#include <boost/smart_ptr/intrusive_ref_counter.hpp>

#include "mc.hpp"

#include <optional>
#include <set>

namespace bom = boost::openmethod;
namespace pol = boost::openmethod::policies;
namespace mp11 = boost::mp11;
using bom::virtual_ptr;

#ifndef PART
#define PART -1
#endif
// parts: 0-7: kind of target * 2 + registry; 8-9: calls of methods, in each registry

inline int alive;

struct Count {
    Count() { ++alive; }
    Count(const Count&) { ++alive; }
    ~Count() { --alive; }
};

// polymorphic classes
struct Pad {
    long pad = 7;
    virtual ~Pad() = default;
};
struct A : boost::intrusive_ref_counter<A, boost::thread_unsafe_counter> {
    Count count;
    virtual ~A() = default;
};
struct P {
    long p = 1;
    mutable int refs = 0;
    virtual ~P() = default;
};
inline void intrusive_ptr_add_ref(const P* p) { ++p->refs; }
inline void intrusive_ptr_release(const P* p) { if (!--p->refs) delete p; }
struct D : Pad, A {};
struct E : D, P {};
struct S : A {};
inline void intrusive_ptr_add_ref(const E* p) { intrusive_ptr_add_ref(static_cast<const A*>(p)); }
inline void intrusive_ptr_release(const E* p) { intrusive_ptr_release(static_cast<const A*>(p)); }
// not polymorphic
struct N0 { int n = 0; };
struct Npad { int n = 3; };
struct N1 : Npad, N0 {};
// polymorphic, with a base that is not
struct NP : N0 { virtual ~NP() = default; };
// inaccessible and ambiguous bases, never registered
struct X : private A {};
struct L1 : A {};
struct L2 : A {};
struct M : L1, L2 {};

struct RA : bom::default_registry::with<pol::runtime_checks> {};
struct RB : bom::default_registry::with<pol::indirect_vptr> {};
BOOST_OPENMETHOD_REGISTER(bom::use_classes<A, P, D, E, S, N0, N1, NP, RA>);
BOOST_OPENMETHOD_REGISTER(bom::use_classes<A, P, D, E, S, N0, N1, NP, RB>);

// (boost::intrusive_ptr does not support X and M)
using Intrusive = mp11::mp_list<A, P, D, E, S, N0, N1, NP, const A, const P, const E, const N0, const N1>;
using Classes = mp11::mp_list<A, P, D, E, S, N0, N1, NP, X, M, const A, const P, const E, const N0, const N1>;
constexpr const char* class_names[] = {"A", "P", "D", "E", "S", "N0", "N1", "NP", "X", "M", "const A", "const P", "const E", "const N0", "const N1"};

template<class C>
const char* cname() { return class_names[mp11::mp_find<Classes, C>::value]; }

template<int K, class C>
struct ptr_;
template<class C> struct ptr_<0, C> { using type = C*; };
template<class C> struct ptr_<1, C> { using type = std::shared_ptr<C>; };
template<class C> struct ptr_<2, C> { using type = std::unique_ptr<C>; };
template<class C> struct ptr_<3, C> { using type = boost::intrusive_ptr<C>; };
template<int K, class C> using ptr = typename ptr_<K, C>::type;
constexpr const char* kind_names[] = {"", "shared_ptr ", "unique_ptr ", "intrusive_ptr "};

template<int K, class C, class R>
using vp = virtual_ptr<std::conditional_t<K == 0, C, ptr<K, C>>, R>;

// sources
template<class C> struct Obj { using type = C; using cls = C; };
template<int K, class C> struct Ptr { using type = ptr<K, C>; using cls = C; };
template<int K, class C, class R> struct Vp { using type = vp<K, C, R>; using cls = C; };
struct Null { using type = std::nullptr_t; };
template<class T> struct Junk { using type = T; };

template<class C> std::string name(Obj<C>) { return std::string("object ") + cname<C>(); }
template<int K, class C> std::string name(Ptr<K, C>) { return std::string(kind_names[K]) + cname<C>() + (K ? "" : "*"); }
template<int K, class C, class R> std::string name(Vp<K, C, R>) {
    return std::string("virtual_ptr ") + kind_names[K] + cname<C>() + (std::is_same_v<R, RA> ? " (registry 1)" : " (registry 2)");
}
inline std::string name(Null) { return "nullptr"; }
template<class T> std::string name(Junk<T>) { return typeid(T).name(); }

template<class T, int Cat> struct cat_;
template<class T> struct cat_<T, 0> { using type = T&; };
template<class T> struct cat_<T, 1> { using type = const T&; };
template<class T> struct cat_<T, 2> { using type = T&&; };
template<class T, int Cat> using cat = typename cat_<T, Cat>::type;

// ---------------------------------------------------------------------------
// oracle: in terms of the underlying pointers only

template<class Target, class Source, int Cat>
struct ok : std::false_type {};
// from objects: lvalues of polymorphic classes
template<class C, class R, class Y, int Cat>
struct ok<Vp<0, C, R>, Obj<Y>, Cat>
    : std::bool_constant<Cat != 2 && std::is_polymorphic_v<Y> &&
          std::is_convertible_v<std::conditional_t<Cat == 1, const Y*, Y*>, C*>> {};
// from pointers to polymorphic classes
template<class C, class R, class Y, int Cat>
struct ok<Vp<0, C, R>, Ptr<0, Y>, Cat>
    : std::bool_constant<std::is_polymorphic_v<Y> && std::is_convertible_v<Y*, C*>> {};
// from virtual_ptrs, plain or smart, in the same registry
template<class C, class R, int K, class Y, int Cat>
struct ok<Vp<0, C, R>, Vp<K, Y, R>, Cat> : std::is_convertible<Y*, C*> {};
template<int K, class C, class R, int Cat>
struct ok<Vp<K, C, R>, Null, Cat> : std::true_type {};
// smart: from the same smart pointer
template<int K, class C, class R, class Y, int Cat>
struct smart_ok : std::bool_constant<K != 0 && std::is_convertible_v<cat<ptr<K, Y>, Cat>, ptr<K, C>>> {};
template<int K, class C, class R, class Y, int Cat>
struct ok<Vp<K, C, R>, Ptr<K, Y>, Cat>
    : std::bool_constant<std::is_polymorphic_v<Y> && smart_ok<K, C, R, Y, Cat>::value> {};
template<class C, class R, class Y, int Cat>
struct ok<Vp<0, C, R>, Vp<0, Y, R>, Cat> : std::is_convertible<Y*, C*> {};
template<int K, class C, class R, class Y, int Cat>
struct ok<Vp<K, C, R>, Vp<K, Y, R>, Cat> : smart_ok<K, C, R, Y, Cat> {};

// ---------------------------------------------------------------------------
// execution

// objects owned in the way that a source needs
template<class Dyn, int K, class C>
ptr<K, C> make_owner() {
    return ptr<K, C>(new Dyn);
}

template<class S, class Dyn>
struct Maker;
template<class C, class Dyn>
struct Maker<Obj<C>, Dyn> {
    Dyn obj;
    const volatile void* addr = &obj;
    Dyn* most = &obj;
    C& source = obj;
};
template<class C, class Dyn>
struct Maker<Ptr<0, C>, Dyn> {
    Dyn obj;
    Dyn* most = &obj;
    C* source = &obj;
};
template<int K, class C, class Dyn>
struct Maker<Ptr<K, C>, Dyn> {
    Dyn* most = new Dyn;
    ptr<K, C> source{most};
};
template<class C, class R, class Dyn>
struct Maker<Vp<0, C, R>, Dyn> {
    Dyn obj;
    Dyn* most = &obj;
    vp<0, C, R> source{bom::final_virtual_ptr<R>(obj)};
};
template<int K, class C, class R, class Dyn>
struct Maker<Vp<K, C, R>, Dyn> {
    Dyn* most = new Dyn;
    vp<K, C, R> source{bom::final_virtual_ptr<R>(ptr<K, Dyn>(most))};
};

template<class T>
constexpr bool is_vp = false;
template<int K, class C, class R>
constexpr bool is_vp<Vp<K, C, R>> = true;

template<class Target, class Source, int Cat>
struct exec;

template<int K, class C, class R, class Source, int Cat>
struct exec<Vp<K, C, R>, Source, Cat> {
    using T = vp<K, C, R>;

    // what: bit 0: assign, instead of construct; bit 1: to a target that
    // already holds something
    template<class Dyn>
    static void run(int what) {
        {
            Maker<Source, Dyn> m;
            C* expected = m.most;
            auto check = [&](const T& t, const char* when) {
                if (t.get() != expected)
                    mc::fail("%s: the object is %p, expected %p", when, (void*)t.get(), (void*)expected);
                if (&*t != expected || t.operator->() != expected)
                    mc::fail("%s: operators * and -> disagree with get", when);
                if (t.vptr() != R::template static_vptr<Dyn>)
                    mc::fail("%s: not the v-table of the class of the object", when);
            };
            using Q = cat<std::remove_reference_t<decltype((m.source))>, Cat>;
            auto after = [&] {
                if constexpr (is_vp<Source>) {
                    bool null = m.source.get() == nullptr;
                    bool moved = K != 0 && Cat == 2;
                    if (null != moved)
                        mc::fail("the source is %s", null ? "null" : "not moved from");
                    if (m.source.vptr() != (moved ? nullptr : R::template static_vptr<Dyn>))
                        mc::fail("wrong v-table in the source");
                } else if constexpr (K != 0) {
                    if ((m.source.get() == nullptr) != (Cat == 2))
                        mc::fail("the source is %s", Cat == 2 ? "not moved from" : "null");
                }
            };
            if (!(what & 1)) {
                T t(static_cast<Q>(m.source));
                check(t, "construct");
                after();
            } else {
                T t;
                if (what & 2) {
                    if constexpr (K == 0) {
                        static std::remove_const_t<C> other;
                        t = bom::final_virtual_ptr<R>(other);
                        t = static_cast<Q>(m.source);
                    } else {
                        t = bom::final_virtual_ptr<R>(ptr<K, C>(new std::remove_const_t<C>));
                        t = static_cast<Q>(m.source);
                    }
                } else {
                    t = static_cast<Q>(m.source);
                }
                check(t, "assign");
                after();
            }
        }
    }

    // from null sources
    static void run_null(int what) {
        auto check = [&](const T& t) {
            if (t.get() != nullptr)
                mc::fail("not null");
            if (t.vptr() != nullptr)
                mc::fail("null, with a v-table pointer");
        };
        typename Source::type source{nullptr};
        using Q = cat<typename Source::type, Cat>;
        if (!(what & 1)) {
            T t(static_cast<Q>(source));
            check(t);
        } else {
            T t;
            if (what & 2) {
                if constexpr (K == 0) {
                    static std::remove_const_t<C> other;
                    t = bom::final_virtual_ptr<R>(other);
                } else {
                    t = bom::final_virtual_ptr<R>(ptr<K, C>(new std::remove_const_t<C>));
                }
            }
            t = static_cast<Q>(source);
            check(t);
        }
    }
};

struct Row {
    std::string text;
    bool expected, expected_implicit, constructible, assignable, convertible;
    std::vector<void (*)(int)> runs;
};

template<class C>
constexpr bool registered = mp11::mp_contains<mp11::mp_list<A, P, D, E, S, N0, N1, NP>, std::remove_const_t<C>>::value;
template<int K, class C>
constexpr bool owned = K != 3 || (std::is_polymorphic_v<C> && !std::is_same_v<std::remove_const_t<C>, NP>);
// deleting through a base requires a virtual destructor, except for shared_ptr
template<int K, class C, class Dyn>
constexpr bool deletes = K <= 1 || std::is_same_v<std::remove_const_t<C>, Dyn> || std::is_polymorphic_v<C>;
// an object owned via P and via A would have two counts
template<int K, class C, class Dyn>
constexpr bool counted = K != 3 || !std::is_same_v<Dyn, E> || !std::is_same_v<std::remove_const_t<C>, P>;

template<class Source>
constexpr int source_kind = 0;
template<int K, class C>
constexpr int source_kind<Ptr<K, C>> = K;
template<int K, class C, class R>
constexpr int source_kind<Vp<K, C, R>> = K;

template<class Target>
constexpr int target_kind = source_kind<Target>;

template<class Target, class Source, int Cat>
struct runs {
    static void get(Row&) {}
};
template<int K, class C, class R, int Cat>
struct runs<Vp<K, C, R>, Null, Cat> {
    static void get(Row& row) {
        if constexpr (registered<C> && owned<K, C>)
            row.runs.push_back(exec<Vp<K, C, R>, Null, Cat>::run_null);
    }
};
template<int K, class C, class R, class Source, int Cat>
void get_runs(Row& row) {
    using Y = typename Source::cls;
    constexpr int K2 = source_kind<Source>;
    if constexpr (registered<C> && registered<Y> && owned<K, C>) {
        if constexpr (!std::is_same_v<Source, Obj<Y>> && !std::is_same_v<Source, Ptr<0, Y>>)
            row.runs.push_back(exec<Vp<K, C, R>, Source, Cat>::run_null);
        using DynClasses = mp11::mp_list<A, P, D, E, S, N0, N1, NP>;
        mp11::mp_for_each<mp11::mp_transform<mp11::mp_identity, DynClasses>>([&](auto id) {
            using Dyn = typename decltype(id)::type;
            if constexpr (std::is_convertible_v<Dyn*, Y*> && deletes<K, C, Dyn> && deletes<K2, Y, Dyn> &&
                          counted<K, C, Dyn> && counted<K2, Y, Dyn>)
                row.runs.push_back(exec<Vp<K, C, R>, Source, Cat>::template run<Dyn>);
        });
    }
}
template<int K, class C, class R, class Y, int Cat>
struct runs<Vp<K, C, R>, Obj<Y>, Cat> {
    static void get(Row& row) { get_runs<K, C, R, Obj<Y>, Cat>(row); }
};
template<int K, class C, class R, int K2, class Y, int Cat>
struct runs<Vp<K, C, R>, Ptr<K2, Y>, Cat> {
    static void get(Row& row) { get_runs<K, C, R, Ptr<K2, Y>, Cat>(row); }
};
template<int K, class C, class R, int K2, class Y, int Cat>
struct runs<Vp<K, C, R>, Vp<K2, Y, R>, Cat> {
    static void get(Row& row) {
        if constexpr (owned<K2, Y> && (K2 == 0 || (registered<Y> && registered<C>)))
            if constexpr (K2 == K || K == 0)
                get_runs<K, C, R, Vp<K2, Y, R>, Cat>(row);
    }
};

template<class Target, class Source, int Cat>
void row(std::vector<Row>& v) {
    using T = typename Target::type;
    using Q = cat<typename Source::type, Cat>;
    Row r;
    static const char* cats[] = {" lvalue", " const lvalue", " rvalue"};
    r.text = name(Target()) + " from " + name(Source()) + cats[Cat];
    r.expected = ok<Target, Source, Cat>::value;
    r.expected_implicit = r.expected && !std::is_same_v<Source, Null>;
    r.constructible = std::is_constructible_v<T, Q>;
    r.assignable = std::is_assignable_v<T&, Q>;
    // assigning a boost::intrusive_ptr to another is always declared, and the
    // invalid ones are rejected later
    if (r.assignable && !r.expected && target_kind<Target> == 3 && source_kind<Source> == 3)
        r.assignable = false;
    r.convertible = std::is_convertible_v<Q, T>;
    if constexpr (ok<Target, Source, Cat>::value && std::is_constructible_v<T, Q> && std::is_assignable_v<T&, Q>)
        runs<Target, Source, Cat>::get(r);
    v.push_back(r);
}

// calls of methods: their virtual parameters accept what their undecorated types
// accept
template<class T> struct Virtual { using type = bom::virtual_<T>; };
template<class V> struct Value { using type = typename V::type; };
template<class V> struct Ref { using type = const typename V::type&; };

template<class Param, class Source, int Cat>
struct accepts;
template<class T, class Source, int Cat>
struct accepts<Virtual<T>, Source, Cat> : std::is_convertible<cat<typename Source::type, Cat>, T> {};
template<class V, class Source, int Cat>
struct accepts<Value<V>, Source, Cat>
    : std::bool_constant<ok<V, Source, Cat>::value && !std::is_same_v<Source, Null>> {};
template<class V, class Source, int Cat>
struct accepts<Ref<V>, Source, Cat> : accepts<Value<V>, Source, Cat> {};

template<class Param>
struct method_id;

template<class R, class Param, class Source, int Cat>
void call_row(std::vector<Row>& v, int param) {
    using Method = bom::method<method_id<Param>, void(typename Param::type, int), R>;
    using Q = cat<typename Source::type, Cat>;
    Row r;
    static const char* cats[] = {" lvalue", " const lvalue", " rvalue"};
    r.text = "call method " + std::to_string(param) + " with " + name(Source()) + cats[Cat];
    r.expected = r.expected_implicit = accepts<Param, Source, Cat>::value;
    r.constructible = r.assignable = r.convertible =
        std::is_invocable_v<decltype(Method::fn)&, Q, int> && !std::is_invocable_v<decltype(Method::fn)&, Q> &&
        !std::is_invocable_v<decltype(Method::fn)&, Q, int, int> && !std::is_invocable_v<decltype(Method::fn)&, int, Q>;
    // two objects rather than one
    if constexpr (std::is_copy_constructible_v<typename Source::type>) {
        using Method2 = bom::method<method_id<Param>, int(typename Param::type, typename Param::type), R>;
        if (std::is_invocable_v<decltype(Method2::fn)&, Q, Q> != r.expected)
            r.constructible = !r.expected;
    }
    v.push_back(r);
}

template<int I>
void rows(std::vector<Row>& v);

#if PART >= 0
template<class R>
struct sources_ {
    using R2 = std::conditional_t<std::is_same_v<R, RA>, RB, RA>;
    template<class C> using obj = Obj<C>;
    template<class C> using p0 = Ptr<0, C>;
    template<class C> using p1 = Ptr<1, C>;
    template<class C> using p2 = Ptr<2, C>;
    template<class C> using p3 = Ptr<3, C>;
    template<class C> using v0 = Vp<0, C, R>;
    template<class C> using v1 = Vp<1, C, R>;
    template<class C> using v2 = Vp<2, C, R>;
    template<class C> using v3 = Vp<3, C, R>;
    using O = Classes;
    using type = mp11::mp_append<
        mp11::mp_transform<obj, O>, mp11::mp_transform<p0, O>, mp11::mp_transform<p1, O>,
        mp11::mp_transform<p2, O>, mp11::mp_transform<p3, Intrusive>, mp11::mp_transform<v0, O>,
        mp11::mp_transform<v1, O>, mp11::mp_transform<v2, O>, mp11::mp_transform<v3, Intrusive>,
        mp11::mp_list<
            Vp<0, A, R2>, Vp<0, E, R2>, Vp<1, A, R2>, Vp<1, E, R2>, Vp<2, A, R2>, Vp<2, E, R2>,
            Vp<3, A, R2>, Vp<3, E, R2>, Null, Junk<int>, Junk<void*>, Junk<A**>, Junk<std::string>,
            Junk<std::shared_ptr<void>>, Junk<std::weak_ptr<E>>, Junk<std::vector<E>>>>;
};

#if PART >= 8
template<>
void rows<PART>(std::vector<Row>& v) {
    using R = std::conditional_t<PART % 2 == 0, RA, RB>;
    using Params = mp11::mp_list<
        Value<Vp<0, A, R>>, Value<Vp<0, const A, R>>, Value<Vp<0, E, R>>, Value<Vp<0, N0, R>>, Value<Vp<1, A, R>>,
        Value<Vp<1, const A, R>>, Value<Vp<1, N0, R>>, Value<Vp<2, A, R>>, Value<Vp<2, const E, R>>, Value<Vp<3, A, R>>,
        Ref<Vp<0, A, R>>, Ref<Vp<1, A, R>>, Virtual<A&>, Virtual<const A&>, Virtual<A&&>, Virtual<A*>, Virtual<const A*>,
        Virtual<E&>, Virtual<std::shared_ptr<A>>, Virtual<std::shared_ptr<const A>>, Virtual<const std::shared_ptr<A>&>,
        Virtual<std::unique_ptr<A>>>;
    int param = 0;
    mp11::mp_for_each<Params>([&](auto p) {
        using Param = decltype(p);
        mp11::mp_for_each<typename sources_<R>::type>([&](auto s) {
            using Source = decltype(s);
            call_row<R, Param, Source, 0>(v, param);
            call_row<R, Param, Source, 1>(v, param);
            if constexpr (!std::is_const_v<typename Source::type>)
                call_row<R, Param, Source, 2>(v, param);
        });
        ++param;
    });
}
#else
template<>
void rows<PART>(std::vector<Row>& v) {
    using R = std::conditional_t<PART % 2 == 0, RA, RB>;
    using Sources = typename sources_<R>::type;
    using Targets = std::conditional_t<PART / 2 == 3, Intrusive, Classes>;
    mp11::mp_for_each<mp11::mp_transform<mp11::mp_identity, Targets>>([&](auto c) {
        using C = typename decltype(c)::type;
        using Target = Vp<PART / 2, C, R>;
        mp11::mp_for_each<Sources>([&](auto s) {
            using Source = decltype(s);
            row<Target, Source, 0>(v);
            row<Target, Source, 1>(v);
            // (nothing is said of const rvalues)
            if constexpr (!std::is_const_v<typename Source::type>)
                row<Target, Source, 2>(v);
        });
    });
}
#endif
#else
template<> void rows<8>(std::vector<Row>& v);
template<> void rows<9>(std::vector<Row>& v);
template<> void rows<0>(std::vector<Row>& v);
template<> void rows<1>(std::vector<Row>& v);
template<> void rows<2>(std::vector<Row>& v);
template<> void rows<3>(std::vector<Row>& v);
template<> void rows<4>(std::vector<Row>& v);
template<> void rows<5>(std::vector<Row>& v);
template<> void rows<6>(std::vector<Row>& v);
template<> void rows<7>(std::vector<Row>& v);

// without methods there would be no v-tables
template<class C, class R>
struct m1 {
    using type = bom::method<m1<C, R>, int(virtual_ptr<C, R>), R>;
};
int use() {
    auto u = [](auto& fn) { return &fn != nullptr; };
    return u(m1<A, RA>::type::fn) + u(m1<P, RA>::type::fn) + u(m1<N0, RA>::type::fn) +
        u(m1<A, RB>::type::fn) + u(m1<P, RB>::type::fn) + u(m1<N0, RB>::type::fn);
}

int main(int argc, char** argv) {
    use();
    std::vector<Row> all;
    rows<0>(all); rows<1>(all); rows<2>(all); rows<3>(all);
    rows<4>(all); rows<5>(all); rows<6>(all); rows<7>(all);
    rows<8>(all); rows<9>(all);
    mc::Harness h;
    h.run = [&](mc::Explorer& ex, const mc::Case& c) {
        static int accepted = ex.counter("conversions accepted"), rejected = ex.counter("conversions rejected"),
                   executed = ex.counter("conversions executed");
        const Row& r = all[c[0]];
        if (c.size() == 1) {
            if (r.constructible != r.expected)
                mc::fail("constructible: %d, expected %d", r.constructible, r.expected);
            if (r.assignable != r.expected)
                mc::fail("assignable: %d, expected %d", r.assignable, r.expected);
            if (r.convertible != r.expected_implicit)
                mc::fail("implicitly convertible: %d, expected %d", r.convertible, r.expected_implicit);
            ex.count(r.expected ? accepted : rejected);
        } else {
            static bool initialized = [] {
                bom::initialize<RA>();
                bom::initialize<RB>();
                auto distinct = [](std::set<bom::vptr_type> s, std::size_t n) {
                    if (s.size() != n || s.count(nullptr))
                        mc::fail("the v-tables of related classes are not distinct");
                };
                distinct({RA::static_vptr<A>, RA::static_vptr<D>, RA::static_vptr<E>, RA::static_vptr<S>}, 4);
                distinct({RA::static_vptr<P>, RA::static_vptr<E>}, 2);
                distinct({RA::static_vptr<N0>, RA::static_vptr<N1>}, 2);
                distinct({RB::static_vptr<A>, RB::static_vptr<D>, RB::static_vptr<E>, RB::static_vptr<S>}, 4);
                distinct({RB::static_vptr<P>, RB::static_vptr<E>}, 2);
                distinct({RB::static_vptr<N0>, RB::static_vptr<N1>}, 2);
                return true;
            }();
            (void)initialized;
            int before = alive;
            // warms the static objects up
            r.runs[c[1]](c[2]);
            int warm = alive;
            r.runs[c[1]](c[2]);
            if (alive != warm || warm < before)
                mc::fail("%d objects before, %d after", warm, alive);
            ex.count(executed);
            ex.trace_ok();
        }
        ex.transition();
        std::uint64_t st = 20;
        for (int x : c)
            st = mc::mix(st, x);
        ex.state(st);
    };
    h.describe = [&](const mc::Case& c) {
        std::string s = all[c[0]].text;
        if (c.size() > 1) {
            static const char* what[] = {": construct", ": assign to null", "", ": assign to another"};
            s += what[c[2]];
        }
        return s;
    };
    h.enumerate = [&](mc::Explorer& ex) {
        for (int i = 0; i < int(all.size()); ++i) {
            ex.consider({i});
            for (int k = 0; k < int(all[i].runs.size()); ++k)
                for (int w : {0, 1, 3})
                    ex.consider({i, k, w});
        }
    };
    return mc::main(argc, argv, h);
}
#endif
