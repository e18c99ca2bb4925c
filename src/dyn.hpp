// dyn.hpp - Boost.OpenMethod registries whose class hierarchy, methods and
// overriders are chosen at run time.
//
// The trick uses only documented extension points: a custom `rtti` policy
// derived from `deferred_static_rtti` (type ids are collected when
// `initialize` runs, not when the registration objects are constructed), whose
// `static_type<T>()` returns a value the harness chooses before each call to
// `initialize`.  Registration objects are ordinary `use_classes`, `method` and
// `override` objects.
#ifndef VERIF_DYN_HPP
#define VERIF_DYN_HPP

#include <boost/openmethod/core.hpp>
#include <boost/openmethod/initialize.hpp>
#include <boost/openmethod/policies/vptr_map.hpp>
#include <boost/openmethod/policies/vptr_vector.hpp>
#include <boost/openmethod/policies/fast_perfect_hash.hpp>

#include "mc.hpp"

#include <array>
#include <set>
#include <utility>

namespace dyn {

namespace bom = boost::openmethod;
namespace pol = boost::openmethod::policies;
namespace mp11 = boost::mp11;
using bom::type_id;

// ---------------------------------------------------------------------------
// errors

enum class Err {
    none,
    not_initialized,
    missing_class,
    missing_base,
    no_overrider,
    ambiguous,
    final_error,
    search_error,
    odr
};

inline const char* err_name(Err e) {
    static const char* n[] = {"none",         "not_initialized", "missing_class",
                              "missing_base", "no_overrider",    "ambiguous_call",
                              "final_error",  "search_error",    "odr_violation"};
    return n[int(e)];
}

struct Seen {
    Err kind = Err::none;
    type_id type = nullptr;    // missing_class
    type_id base = nullptr;    // missing_base
    type_id derived = nullptr; // missing_base
    type_id method = nullptr;  // bad_call
    std::size_t arity = 0;
    type_id types[16] = {};
    int count = 0;
};

inline Seen seen;

struct Thrown {
    Err kind;
};

struct recording_handler : pol::error_handler {
    template<class Registry>
    struct fn {
        static void note(Err k) {
            seen.kind = k;
            ++seen.count;
            throw Thrown{k};
        }
        static void bad(Err k, const bom::bad_call& e) {
            seen.method = e.method;
            seen.arity = e.arity;
            for (std::size_t i = 0; i < 16 && i < e.arity; ++i)
                seen.types[i] = e.types[i];
            note(k);
        }
        static void error(const bom::not_initialized&) {
            note(Err::not_initialized);
        }
        static void error(const bom::missing_class& e) {
            seen.type = e.type;
            note(Err::missing_class);
        }
        static void error(const bom::missing_base& e) {
            seen.base = e.base;
            seen.derived = e.derived;
            note(Err::missing_base);
        }
        static void error(const bom::no_overrider& e) {
            bad(Err::no_overrider, e);
        }
        static void error(const bom::ambiguous_call& e) {
            bad(Err::ambiguous, e);
        }
        static void error(const bom::final_error&) {
            note(Err::final_error);
        }
        static void error(const bom::odr_violation&) {
            note(Err::odr);
        }
        static void error(const pol::fast_perfect_hash::search_error&) {
            note(Err::search_error);
        }
    };
};

// ---------------------------------------------------------------------------
// rtti

inline type_id cls_id(int c) {
    return reinterpret_cast<type_id>(std::uintptr_t(c + 1));
}
inline int id_cls(type_id t) {
    return int(reinterpret_cast<std::uintptr_t>(t)) - 1;
}

template<class T>
inline char static_tag;

template<class T, class = void>
struct has_dyn : std::false_type {};
template<class T>
struct has_dyn<T, std::void_t<typename T::dyn_tag>> : std::true_type {};

struct dyn_rtti : pol::deferred_static_rtti {
    template<class Registry>
    struct fn : pol::rtti::defaults {
        template<class T>
        static constexpr bool is_polymorphic = has_dyn<T>::value;

        template<class T>
        static type_id static_type() {
            if constexpr (has_dyn<T>::value) {
                return T::dyn_id();
            } else {
                return type_id(&static_tag<T>);
            }
        }

        template<class T>
        static type_id dynamic_type(const T& obj) {
            if constexpr (has_dyn<T>::value) {
                return obj.id;
            } else {
                return nullptr;
            }
        }

        template<class D, class B>
        static D dynamic_cast_ref(B&& obj) {
            return static_cast<D>(obj);
        }
    };
};

// null output policy, for `trace`
struct null_os {
    std::uint64_t bytes = 0;
    null_os& operator<<(const char* s) {
        bytes += std::strlen(s);
        return *this;
    }
    null_os& operator<<(const std::string_view& s) {
        bytes += s.size();
        return *this;
    }
    null_os& operator<<(const void*) {
        ++bytes;
        return *this;
    }
    null_os& operator<<(std::size_t) {
        ++bytes;
        return *this;
    }
    null_os& operator<<(void (*)()) {
        ++bytes;
        return *this;
    }
};

struct null_output : pol::output {
    template<class Registry>
    struct fn {
        inline static null_os os;
    };
};

template<class T>
struct marker {
    using category = marker;
    template<class R>
    struct fn {};
};

// ---------------------------------------------------------------------------
// dynamic classes

// a class whose identity is decided at run time
template<class Tag>
struct Dyn {
    using dyn_tag = Tag;
    type_id id = nullptr;
    inline static type_id the_id = nullptr;
    static type_id dyn_id() {
        return the_id;
    }
};

template<class R, class T>
struct Ord : Dyn<Ord<R, T>> {};

// K<R, g> : S<R,g,0> ... S<R,g,n-1>
template<class R, int G, int J>
struct Sub {
    using dyn_tag = Sub;
    type_id id;
    inline static type_id the_id = nullptr;
    static type_id dyn_id() {
        return the_id;
    }
};

template<class R, int G, class Js>
struct Grp;

template<class R, int G, int... J>
struct Grp<R, G, std::integer_sequence<int, J...>> : Sub<R, G, J>... {
    using dyn_tag = Grp;
    type_id id;
    inline static type_id the_id = nullptr;
    static type_id dyn_id() {
        return the_id;
    }
    using use = bom::use_classes<Grp, Sub<R, G, J>..., R>;
    static void set(type_id self, const type_id* bases, int n) {
        the_id = self;
        ((Sub<R, G, J>::the_id = J < n ? bases[J] : self), ...);
    }
};

// ---------------------------------------------------------------------------
// dynamic methods

template<class R, int M>
struct MethodId {};

// class of the method's j-th virtual parameter
template<class R, int M, int J>
struct MParam {
    using dyn_tag = MParam;
    type_id id = nullptr;
    explicit MParam(int c = 0) : id(cls_id(c)) {
    }
    inline static type_id the_id = nullptr;
    static type_id dyn_id() {
        return the_id;
    }
};

// class of the k-th overrider's j-th virtual parameter
template<class R, int M, int K, int J>
struct OParam : MParam<R, M, J> {
    using dyn_tag = OParam;
    inline static type_id the_id = nullptr;
    static type_id dyn_id() {
        return the_id;
    }
};

// return types
template<class R, int M>
struct MRet {
    using dyn_tag = MRet;
    type_id id = nullptr;
    int code = -1;
    inline static type_id the_id = nullptr;
    static type_id dyn_id() {
        return the_id;
    }
    virtual ~MRet() = default;
};

template<class R, int M, int K>
struct ORet : MRet<R, M> {
    using dyn_tag = ORet;
    ORet() {
        this->code = K;
    }
    inline static type_id the_id = nullptr;
    static type_id dyn_id() {
        return the_id;
    }
};

// what the last overrider saw
inline int last_overrider = -1;
inline std::uintptr_t last_args[20];

template<class R, int M, bool CovRet, int NOvr, class Js>
struct DynMethod;

template<class R, int M, bool CovRet, int NOvr, int... J>
struct DynMethod<R, M, CovRet, NOvr, std::integer_sequence<int, J...>> {
    static constexpr int arity = sizeof...(J);
    static constexpr int novr = NOvr;
    static constexpr int number = M;
    using Ret = std::conditional_t<CovRet, MRet<R, M>*, int>;
    using Method =
        bom::method<MethodId<R, M>, Ret(bom::virtual_<MParam<R, M, J>&>...), R>;

    template<int K>
    static auto fn(OParam<R, M, K, J>&... a)
        -> std::conditional_t<CovRet, ORet<R, M, K>*, int> {
        last_overrider = K;
        int i = 0;
        ((last_args[i++] = reinterpret_cast<std::uintptr_t>(
              static_cast<MParam<R, M, J>*>(&a))),
         ...);
        if constexpr (CovRet) {
            static ORet<R, M, K> r;
            return &r;
        } else {
            return K;
        }
    }

    template<class Ks>
    struct overriders;
    template<int... K>
    struct overriders<std::integer_sequence<int, K...>> {
        using type = typename Method::template override<fn<K>...>;
        static bool has_next(int k) {
            bool r = false;
            (void)((k == K && (r = Method::template has_next<fn<K>>(), true)) || ...);
            return r;
        }
        // calls next<fn<k>> with the given args
        static int next(int k, const int* c) {
            int r = -2;
            (void)((k == K && (r = call_next<K>(c), true)) || ...);
            return r;
        }
        static void set(int k, const int* p, int ret) {
            (void)((k == K && (set1<K>(p, ret), true)) || ...);
        }
    };
    using Ovr = overriders<std::make_integer_sequence<int, NOvr>>;

    template<int K>
    static void set1([[maybe_unused]] const int* p, int ret) {
        ((OParam<R, M, K, J>::the_id = cls_id(p[J])), ...);
        ORet<R, M, K>::the_id = cls_id(ret);
    }

    static int code(int r) {
        return r;
    }
    static int code(const MRet<R, M>* r) {
        return r->code;
    }

    template<int K>
    static int call_next(const int* c) {
        std::tuple<MParam<R, M, J>...> args{MParam<R, M, J>(c[J])...};
        last_overrider = -1;
        return code(Method::template next<fn<K>>(std::get<J>(args)...));
    }

    static void set_method(const int* p, int ret = -1) {
        ((MParam<R, M, J>::the_id = cls_id(p[J])), ...);
        MRet<R, M>::the_id = cls_id(ret);
    }

    // Call the method.  Returns the number of the overrider that ran, or the
    // error reported.
    static constexpr int NOT_IMPL = -10, AMBIG = -11, OTHER = -12;

    static int call(const int* c) {
        std::tuple<MParam<R, M, J>...> args{MParam<R, M, J>(c[J])...};
        last_overrider = -1;
        seen = Seen();
        try {
            int r = code(Method::fn(std::get<J>(args)...));
            if (last_overrider != r)
                mc::fail(
                    "overrider %d returned, but the call yielded %d",
                    last_overrider, r);
            int i = 0;
            bool ok = true;
            ((ok = ok &&
                  last_args[i++] ==
                      reinterpret_cast<std::uintptr_t>(&std::get<J>(args))),
             ...);
            if (!ok)
                mc::fail("overrider did not receive the caller's arguments");
            return r;
        } catch (Thrown& t) {
            if (last_overrider != -1)
                mc::fail("an overrider ran although the call failed");
            if (t.kind == Err::no_overrider || t.kind == Err::ambiguous) {
                if (seen.method != type_id(&static_tag<Method>))
                    mc::fail("error reports the wrong method");
                if (seen.arity != arity)
                    mc::fail(
                        "error reports arity %d instead of %d", int(seen.arity),
                        arity);
                for (int i = 0; i < arity; ++i)
                    if (seen.types[i] != cls_id(c[i]))
                        mc::fail(
                            "error reports type %d for virtual argument %d, "
                            "which has type %d",
                            id_cls(seen.types[i]), i, c[i]);
                if (seen.count != 1)
                    mc::fail("error reported %d times", seen.count);
                return t.kind == Err::no_overrider ? NOT_IMPL : AMBIG;
            }
            return OTHER - int(t.kind);
        }
    }

    static int next(int k, const int* c) {
        seen = Seen();
        try {
            return Ovr::next(k, c);
        } catch (Thrown& t) {
            return t.kind == Err::no_overrider    ? NOT_IMPL
                : t.kind == Err::ambiguous ? AMBIG
                                                  : OTHER - int(t.kind);
        }
    }
};

template<class R, int M, int Arity, int NOvr, bool CovRet = false>
using dyn_method =
    DynMethod<R, M, CovRet, NOvr, std::make_integer_sequence<int, Arity>>;

// ---------------------------------------------------------------------------
// reference model (see DESIGN.md): class lattices and dispatch

struct Poset {
    int n = 0;
    // up[i]: bit set of the ancestors of i, including i
    unsigned up[8] = {};
    bool leq(int d, int b) const { // d is b, or derived from b
        return (up[d] >> b) & 1;
    }
    unsigned down(int b) const {
        unsigned r = 0;
        for (int i = 0; i < n; ++i)
            if (leq(i, b))
                r |= 1u << i;
        return r;
    }
    unsigned proper_up(int i) const {
        return up[i] & ~(1u << i);
    }
    // direct bases
    unsigned covers(int i) const {
        unsigned r = 0, p = proper_up(i);
        for (int b = 0; b < n; ++b)
            if ((p >> b) & 1) {
                bool direct = true;
                for (int m = 0; m < n; ++m)
                    if (m != b && ((p >> m) & 1) && leq(m, b))
                        direct = false;
                if (direct)
                    r |= 1u << b;
            }
        return r;
    }
    bool operator<(const Poset& o) const {
        if (n != o.n)
            return n < o.n;
        return std::lexicographical_compare(up, up + n, o.up, o.up + n);
    }
    bool operator==(const Poset& o) const {
        return n == o.n && std::equal(up, up + n, o.up);
    }
};

// all partial orders on {0..n-1} (labelled: the label is the registration
// order), in a fixed order
inline std::vector<Poset> all_posets(int n) {
    std::vector<Poset> r;
    if (n == 0) {
        r.push_back(Poset());
        return r;
    }
    for (auto& p : all_posets(n - 1)) {
        // add element n-1 with a set U of ancestors (an up-set) and a set D of
        // descendants (a down-set), every element of D below every one of U
        int m = n - 1;
        for (unsigned U = 0; U < (1u << m); ++U) {
            bool ok = true;
            for (int i = 0; i < m && ok; ++i)
                if ((U >> i) & 1)
                    ok = (p.up[i] & ~U) == 0;
            if (!ok)
                continue;
            for (unsigned D = 0; D < (1u << m); ++D) {
                if (U & D)
                    continue;
                ok = true;
                for (int i = 0; i < m && ok; ++i)
                    if ((D >> i) & 1)
                        ok = (p.down(i) & ~D) == 0 && (U & ~p.up[i]) == 0;
                if (!ok)
                    continue;
                Poset q = p;
                q.n = n;
                q.up[m] = U | (1u << m);
                for (int i = 0; i < m; ++i)
                    if ((D >> i) & 1)
                        q.up[i] |= 1u << m;
                r.push_back(q);
            }
        }
    }
    return r;
}

// one representative per isomorphism class; each is the smallest relabelling
inline std::vector<Poset> unlabelled_posets(int n) {
    std::vector<Poset> r;
    std::set<Poset> reps;
    for (auto& p : all_posets(n)) {
        std::vector<int> perm(n);
        for (int i = 0; i < n; ++i)
            perm[i] = i;
        bool least = true;
        do {
            Poset q;
            q.n = n;
            for (int i = 0; i < n; ++i) {
                unsigned u = 0;
                for (int j = 0; j < n; ++j)
                    if ((p.up[i] >> j) & 1)
                        u |= 1u << perm[j];
                q.up[perm[i]] = u;
            }
            if (q < p) {
                least = false;
                break;
            }
        } while (std::next_permutation(perm.begin(), perm.end()));
        if (least)
            r.push_back(p);
    }
    return r;
}

constexpr int NOT_IMPL = -10, AMBIG = -11;

// Overrider parameters: ovr[k][j]
struct RefMethod {
    int arity = 0;
    int novr = 0;
    int root[4] = {};
    int ovr[8][4] = {};
};

inline bool
applicable(const Poset& p, const RefMethod& m, int k, const int* args) {
    for (int j = 0; j < m.arity; ++j)
        if (!p.leq(args[j], m.ovr[k][j]))
            return false;
    return true;
}

// "A dominates B if any of its virtual parameters is more specialized than
// B's, and none of B's is more specialized than A's"
inline bool dominates(const Poset& p, const RefMethod& m, int a, int b) {
    bool any = false;
    for (int j = 0; j < m.arity; ++j) {
        int x = m.ovr[a][j], y = m.ovr[b][j];
        if (x == y)
            continue;
        if (p.leq(x, y))
            any = true;
        else if (p.leq(y, x))
            return false;
    }
    return any;
}

// the set of overriders left after removing the dominated ones
inline unsigned
best_of(const Poset& p, const RefMethod& m, unsigned candidates) {
    unsigned r = 0;
    for (int a = 0; a < m.novr; ++a)
        if ((candidates >> a) & 1) {
            bool dominated = false;
            for (int b = 0; b < m.novr; ++b)
                if (b != a && ((candidates >> b) & 1) && dominates(p, m, b, a))
                    dominated = true;
            if (!dominated)
                r |= 1u << a;
        }
    return r;
}

inline unsigned
applicable_set(const Poset& p, const RefMethod& m, const int* args) {
    unsigned r = 0;
    for (int k = 0; k < m.novr; ++k)
        if (applicable(p, m, k, args))
            r |= 1u << k;
    return r;
}

inline int
ref_resolve_set(const Poset& p, const RefMethod& m, unsigned applicable) {
    if (!applicable)
        return NOT_IMPL;
    unsigned best = best_of(p, m, applicable);
    if (best && !(best & (best - 1)))
        return __builtin_ctz(best);
    return AMBIG;
}

inline int ref_resolve(const Poset& p, const RefMethod& m, const int* args) {
    return ref_resolve_set(p, m, applicable_set(p, m, args));
}

} // namespace dyn

#endif
