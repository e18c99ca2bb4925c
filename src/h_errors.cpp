// C02 (part 2), C13 (part): what happens after an error is detected, for every
// error handler behaviour, every kind of error, every shape of signature.
#include <boost/openmethod.hpp>
#include <boost/openmethod/initialize.hpp>
#include <boost/openmethod/interop/std_shared_ptr.hpp>
#include <boost/openmethod/interop/std_unique_ptr.hpp>
#include <boost/openmethod/policies/throw_error_handler.hpp>
#include <boost/openmethod/policies/vptr_map.hpp>

#include "mc.hpp"

namespace bom = boost::openmethod;
namespace pol = boost::openmethod::policies;
namespace mp11 = boost::mp11;
using bom::type_id;
using bom::virtual_;
using bom::virtual_ptr;

// ---------------------------------------------------------------------------
// log, shared with the child process

enum Kind {
    none,
    k_not_initialized,
    k_no_overrider,
    k_ambiguous,
    k_missing_class,
    k_missing_base,
    k_odr,
    k_final,
    k_search
};

inline const char* kind_name(int k) {
    const char* n[] = {"none",          "not_initialized", "no_overrider",
                       "ambiguous",     "missing_class",   "missing_base",
                       "odr_violation", "final_error",     "search_error"};
    return n[k];
}

struct Log {
    int errors;     // handler invocations
    int handler_id; // which handler
    int kind;
    type_id method;
    std::size_t arity;
    type_id types[16];
    type_id t1, t2;
    int overriders; // overriders run
    int which;      // last one
    int returned;   // the call returned normally
    int caught;     // an exception reached the caller
    int out;        // bytes written to the output policy
    int finished;
    int before_errors; // of the calls that precede the one of interest
    void clear() {
        std::memset(this, 0, sizeof *this);
    }
};

inline Log* lg;

struct Boom {
    int tag;
};

struct Note {
    static void bad(const bom::bad_call& e) {
        lg->method = e.method;
        lg->arity = e.arity;
        for (std::size_t i = 0; i < e.arity && i < 16; ++i)
            lg->types[i] = e.types[i];
    }
    void operator()(const bom::not_initialized&) const {
        lg->kind = k_not_initialized;
    }
    void operator()(const bom::no_overrider& e) const {
        lg->kind = k_no_overrider;
        bad(e);
    }
    void operator()(const bom::ambiguous_call& e) const {
        lg->kind = k_ambiguous;
        bad(e);
    }
    void operator()(const bom::missing_class& e) const {
        lg->kind = k_missing_class;
        lg->t1 = e.type;
    }
    void operator()(const bom::missing_base& e) const {
        lg->kind = k_missing_base;
        lg->t1 = e.base;
        lg->t2 = e.derived;
    }
    void operator()(const bom::odr_violation&) const {
        lg->kind = k_odr;
    }
    void operator()(const bom::final_error& e) const {
        lg->kind = k_final;
        lg->t1 = e.static_type;
        lg->t2 = e.dynamic_type;
    }
    void operator()(const pol::fast_perfect_hash::search_error& e) const {
        lg->kind = k_search;
    }
};

// policies ------------------------------------------------------------------

struct sink {
    sink& operator<<(const char* s) {
        lg->out += int(std::strlen(s));
        return *this;
    }
    sink& operator<<(const std::string& s) {
        lg->out += int(s.size());
        return *this;
    }
    sink& operator<<(const std::string_view& s) {
        lg->out += int(s.size());
        return *this;
    }
    sink& operator<<(const void*) {
        ++lg->out;
        return *this;
    }
    sink& operator<<(std::size_t) {
        ++lg->out;
        return *this;
    }
};

struct sink_output : pol::output {
    template<class Registry>
    struct fn {
        inline static sink os;
    };
};

struct returning_handler : pol::error_handler {
    template<class Registry>
    struct fn {
        template<class E>
        static void error(const E& e) {
            ++lg->errors;
            lg->handler_id = 5;
            Note()(e);
        }
    };
};

struct throwing_handler : pol::error_handler {
    template<class Registry>
    struct fn {
        template<class E>
        static void error(const E& e) {
            ++lg->errors;
            lg->handler_id = 6;
            Note()(e);
            throw Boom{6};
        }
    };
};

template<class T>
struct marker {
    using category = marker;
    template<class R>
    struct fn {};
};

// rtti in which 17 C++ types stand for one class, with 17 type ids: for one
// class, fast_perfect_hash tries up to 16 buckets, so it must give up
template<int I>
struct Twin {
    virtual ~Twin() = default;
};
template<class T>
struct is_twin : std::false_type {};
template<int I>
struct is_twin<Twin<I>> : std::true_type {};
inline char twin_ids[32];
struct clashing_rtti : pol::rtti {
    template<class Registry>
    struct fn : pol::rtti::defaults {
        template<class T>
        static constexpr bool is_polymorphic = std::is_polymorphic_v<T>;
        template<int I>
        static type_id id(Twin<I>*) {
            return &twin_ids[I];
        }
        template<class T>
        static type_id static_type() {
            static char c;
            if constexpr (is_twin<T>::value)
                return id(static_cast<T*>(nullptr));
            else
                return &c;
        }
        template<class T>
        static type_id dynamic_type(const T&) {
            return &twin_ids[0];
        }
        static type_id type_index(type_id t) {
            auto p = static_cast<const char*>(t);
            return p >= twin_ids && p < twin_ids + 32 ? &twin_ids[0] : t;
        }
    };
};
template<class R, class Is>
struct twin_uses;
template<class R, std::size_t... I>
struct twin_uses<R, std::index_sequence<I...>> {
    using type = std::tuple<bom::use_classes<Twin<int(I)>, R>...>;
};

enum Handler {
    h_none,        // no error_handler policy
    h_default,     // default_error_handler, as is, no output
    h_default_out, // default_error_handler, as is, output
    h_set_ret,     // default_error_handler, set() to a handler that returns
    h_set_throw,   // default_error_handler, set() to a handler that throws
    h_ret,         // custom policy, returns
    h_throwing,    // custom policy, throws
    h_throw,       // throw_error_handler
    h_count
};
inline const char* handler_names[] = {
    "no error_handler",
    "default_error_handler",
    "default_error_handler+output",
    "default_error_handler::set(returning)",
    "default_error_handler::set(throwing)",
    "custom returning",
    "custom throwing",
    "throw_error_handler"};

constexpr bool handler_throws(int h) {
    return h == h_set_throw || h == h_throwing || h == h_throw;
}

template<int H>
struct handler_policy;
template<>
struct handler_policy<h_none> {
    using type = mp11::mp_list<>;
};
template<>
struct handler_policy<h_default> {
    using type = mp11::mp_list<pol::default_error_handler>;
};
template<>
struct handler_policy<h_default_out> {
    using type = mp11::mp_list<pol::default_error_handler, sink_output>;
};
template<>
struct handler_policy<h_set_ret> {
    using type = mp11::mp_list<pol::default_error_handler>;
};
template<>
struct handler_policy<h_set_throw> {
    using type = mp11::mp_list<pol::default_error_handler, sink_output>;
};
template<>
struct handler_policy<h_ret> {
    using type = mp11::mp_list<returning_handler>;
};
template<>
struct handler_policy<h_throwing> {
    using type = mp11::mp_list<throwing_handler>;
};
template<>
struct handler_policy<h_throw> {
    using type = mp11::mp_list<pol::throw_error_handler>;
};

template<int H, bool Checks, class Tag, class Rtti = pol::std_rtti>
using make_registry = mp11::mp_apply<
    bom::registry,
    mp11::mp_append<
        mp11::mp_list<Rtti, pol::vptr_vector, pol::fast_perfect_hash>,
        typename handler_policy<H>::type,
        std::conditional_t<
            Checks, mp11::mp_list<pol::runtime_checks>, mp11::mp_list<>>,
        mp11::mp_list<marker<mp11::mp_list<Tag, mp11::mp_int<H>>>>>>;

// ---------------------------------------------------------------------------
// hierarchy

struct A {
    int pad = 1;
    virtual ~A() = default;
};
struct B : virtual A {
    int b = 2;
};
struct C : virtual A {
    int c = 3;
};
struct D : B, C {
    int d = 4;
};
struct Z : A {}; // never registered

constexpr int NT = 4;
inline type_id dyn_id(int t) {
    const type_id ids[] = {&typeid(A), &typeid(B), &typeid(C), &typeid(D)};
    return ids[t];
}

inline A* make(int t) {
    switch (t) {
    case 0:
        return new A;
    case 1:
        return new B;
    case 2:
        return new C;
    default:
        return new D;
    }
}

inline int ran(int k) {
    ++lg->overriders;
    lg->which = k;
    return k;
}

template<class T>
constexpr int num = std::is_same_v<T, A> ? 0
    : std::is_same_v<T, B>               ? 1
    : std::is_same_v<T, C>               ? 2
                                         : 3;

// ---------------------------------------------------------------------------
// shapes: the position and form of the virtual arguments

struct Objs {
    std::unique_ptr<A> o[17];
    std::shared_ptr<A> s[17];
    Objs(const int* t, int n) {
        for (int i = 0; i < n; ++i) {
            o[i].reset(make(t[i]));
            s[i].reset(make(t[i]));
        }
    }
};

// each shape: n virtual arguments; ovr<X>: overrider for X as the class of the
// first virtual argument, A for the others
#define SHAPE(NAME, N, SIG, PARAMS, ...)                                       \
    template<class R, int V>                                                   \
    struct NAME {                                                              \
        static constexpr int n = N;                                            \
        struct Id;                                                             \
        using M = bom::method<Id, int SIG, R>;                                 \
        template<class X>                                                      \
        static int ovr PARAMS {                                                \
            return ran(num<X>);                                                \
        }                                                                      \
        template<class F>                                                      \
        static int call(F f, [[maybe_unused]] Objs& x) {                       \
            return f(__VA_ARGS__);                                             \
        }                                                                      \
    };

using S = std::string;
inline const S str("x");

#define MC_COMMA ,
SHAPE(S_ref, 1, (virtual_<A&>), (X&), *x.o[0])
SHAPE(S_cref, 1, (virtual_<const A&>), (const X&), *x.o[0])
SHAPE(S_int_ref, 1, (int, virtual_<A&>), (int, X&), 1, *x.o[0])
SHAPE(S_ref_int, 1, (virtual_<A&>, int), (X&, int), *x.o[0], 1)
SHAPE(
    S_ref_int_ref, 2, (virtual_<A&>, int, virtual_<A&>), (X&, int, A&), *x.o[0],
    1, *x.o[1])
SHAPE(
    S_str_ptr_dbl_cref, 2,
    (const S&, virtual_<A*>, double, virtual_<const A&>),
    (const S&, X*, double, const A&), str, x.o[0].get(), 1.5, *x.o[1])
SHAPE(S_vp, 1, (virtual_ptr<A, R>), (virtual_ptr<X, R>), virtual_ptr<A, R>(*x.o[0]))
SHAPE(
    S_int_cvp_int, 1, (int, const virtual_ptr<A, R>&, int),
    (int, const virtual_ptr<X, R>&, int), 1, virtual_ptr<A, R>(*x.o[0]), 2)
SHAPE(
    S_vp_int_vp, 2, (virtual_ptr<A, R>, int, virtual_ptr<A, R>),
    (virtual_ptr<X, R>, int, virtual_ptr<A, R>), virtual_ptr<A, R>(*x.o[0]), 1,
    virtual_ptr<A, R>(*x.o[1]))
SHAPE(
    S_shared, 1, (virtual_<std::shared_ptr<A>>), (std::shared_ptr<X>), x.s[0])
SHAPE(
    S_cshared, 1, (int, virtual_<const std::shared_ptr<A>&>),
    (int, const std::shared_ptr<X>&), 1, x.s[0])
SHAPE(
    S_svp_uptr, 1, (virtual_ptr<std::shared_ptr<A>, R>, std::unique_ptr<int>),
    (virtual_ptr<std::shared_ptr<X>, R>, std::unique_ptr<int>),
    virtual_ptr<std::shared_ptr<A> MC_COMMA R>(x.s[0]), std::make_unique<int>(1))
SHAPE(
    S_csvp, 1, (const virtual_ptr<std::shared_ptr<A>, R>&),
    (const virtual_ptr<std::shared_ptr<X>, R>&),
    virtual_ptr<std::shared_ptr<A> MC_COMMA R>(x.s[0]))
SHAPE(
    S_uptr_ref, 2, (virtual_<std::unique_ptr<A>>, virtual_<A&>),
    (std::unique_ptr<X>, A&), std::move(x.o[0]), *x.o[1])
SHAPE(
    S_uvp, 1, (virtual_ptr<std::unique_ptr<A>, R>),
    (virtual_ptr<std::unique_ptr<X>, R>),
    virtual_ptr<std::unique_ptr<A> MC_COMMA R>(std::move(x.o[0])))
SHAPE(S_rref, 1, (virtual_<A&&>), (X&&), std::move(*x.o[0]))
SHAPE(
    S_mix3, 3,
    (char, virtual_ptr<A, R>, virtual_<A&>, int,
     virtual_<const std::shared_ptr<A>&>, int),
    (char, virtual_ptr<X, R>, A&, int, const std::shared_ptr<A>&, int), 'c',
    virtual_ptr<A, R>(*x.o[0]), *x.o[1], 1, x.s[2], 2)
// more than bad_call::max_types
// the 17-ary method has a single class, so that its table stays small
struct P {
    virtual ~P() = default;
};
template<class R>
struct S_17 {
    struct Id;
    using V = virtual_<P&>;
    using M = bom::method<
        Id, int(V, V, V, V, int, V, V, V, V, V, V, V, V, V, V, V, V, V), R>;
};

#define SHAPES                                                                 \
    X(S_ref)                                                                   \
    X(S_cref)                                                                  \
    X(S_int_ref)                                                               \
    X(S_ref_int)                                                               \
    X(S_ref_int_ref)                                                           \
    X(S_str_ptr_dbl_cref)                                                      \
    X(S_vp)                                                                    \
    X(S_int_cvp_int)                                                           \
    X(S_vp_int_vp)                                                             \
    X(S_shared)                                                                \
    X(S_cshared)                                                               \
    X(S_svp_uptr)                                                              \
    X(S_csvp)                                                                  \
    X(S_uptr_ref)                                                              \
    X(S_uvp)                                                                   \
    X(S_rref)                                                                  \
    X(S_mix3)

inline const char* shape_names[] = {
#define X(N) #N,
    SHAPES
#undef X
    "S_17"};
inline int shape_n[] = {
#define X(N) N<bom::default_registry, 0>::n,
    SHAPES
#undef X
    17};
constexpr int NSHAPES = sizeof(shape_names) / sizeof(*shape_names) - 1;

// ---------------------------------------------------------------------------

// what a case asks: performed in the (child) process
enum What { w_call, w_next };

template<class R, int V, template<class, int> class Sh>
struct Prog {
    using S = Sh<R, V>;
    using M = typename S::M;
    static void install() {
        if constexpr (V == 0) {
            static typename M::template override<
                S::template ovr<B>, S::template ovr<C>>
                o;
            (void)&o;
        } else {
            static typename M::template override<
                S::template ovr<B>, S::template ovr<C>, S::template ovr<D>>
                o;
            (void)&o;
        }
    }
    // returns what the call returned
    static int act(int what, const int* t) {
        Objs x(t, S::n);
        if (what == w_call) {
            return S::call(
                [](auto&&... a) {
                    return M::fn(std::forward<decltype(a)>(a)...);
                },
                x);
        }
        switch (t[0]) {
        case 1:
            return S::call(
                [](auto&&... a) {
                    return M::template next<S::template ovr<B>>(
                        std::forward<decltype(a)>(a)...);
                },
                x);
        case 2:
            return S::call(
                [](auto&&... a) {
                    return M::template next<S::template ovr<C>>(
                        std::forward<decltype(a)>(a)...);
                },
                x);
        default:
            if constexpr (V == 1)
                return S::call(
                    [](auto&&... a) {
                        return M::template next<S::template ovr<D>>(
                            std::forward<decltype(a)>(a)...);
                    },
                    x);
            return -1;
        }
    }
    static bool has_next(int t) {
        switch (t) {
        case 1:
            return M::template has_next<S::template ovr<B>>();
        case 2:
            return M::template has_next<S::template ovr<C>>();
        default:
            if constexpr (V == 1)
                return M::template has_next<S::template ovr<D>>();
            return false;
        }
    }
    static type_id method_id() {
        return R::rtti::template static_type<M>();
    }
};

// model: which overrider runs, or which error
struct Expect {
    int kind = none;
    int which = -1;
};
inline Expect expect(int variant, int what, int first) {
    Expect e;
    if (what == w_call) {
        if (first == 0)
            e.kind = k_no_overrider;
        else if (first == 3 && variant == 0)
            e.kind = k_ambiguous;
        else
            e.which = first;
    } else {
        e.kind = first == 3 ? k_ambiguous : k_no_overrider;
    }
    return e;
}

struct Fns {
    void (*install)();
    int (*act)(int, const int*);
    bool (*has_next)(int);
    type_id (*method_id)();
};

struct CallTag {};

template<int H, bool Checks>
struct CallRegistry {
    struct R : make_registry<H, Checks, CallTag> {};

    static void install() {
        static bom::use_classes<A, B, C, D, R> u;
        static bom::use_classes<P, R> p;
        (void)&u;
        (void)&p;
#define X(N)                                                                   \
    Prog<R, 0, N>::install();                                                  \
    Prog<R, 1, N>::install();
        SHAPES
#undef X
        (void)&S_17<R>::M::fn;
    }
    static Fns fns(int shape, int v) {
        int k = 0;
#define X(N)                                                                   \
    if (shape == k++)                                                          \
        return v                                                               \
            ? Fns{Prog<R, 1, N>::install, Prog<R, 1, N>::act, Prog<R, 1, N>::has_next, Prog<R, 1, N>::method_id} \
            : Fns{Prog<R, 0, N>::install, Prog<R, 0, N>::act, Prog<R, 0, N>::has_next, Prog<R, 0, N>::method_id};
        SHAPES
#undef X
        return Fns{nullptr, [](int, const int*) {
                       P p;
                       return S_17<R>::M::fn(
                           p, p, p, p, 1, p, p, p, p, p, p, p, p, p, p, p, p, p);
                   },
                   nullptr, [] {
                       return R::rtti::template static_type<
                           typename S_17<R>::M>();
                   }};
    }
};

// put the handler of registry R in the state that H asks for.  Returns false
// if set() misbehaves.
template<int H, class R>
bool set_handler() {
    if constexpr (H == h_set_ret || H == h_set_throw) {
        using EH = typename R::error_handler;
        using Fn = typename EH::function_type;
        // a first handler, replaced: set() must give it back
        static int first_called;
        first_called = 0;
        auto original =
            EH::set([](const typename EH::error_variant&) { ++first_called; });
        if (!original)
            return false;
        auto prev = EH::set([](const typename EH::error_variant& v) {
            ++lg->errors;
            lg->handler_id = H;
            std::visit(Note(), v);
            if (H == h_set_throw)
                throw Boom{H};
        });
        if (!prev)
            return false;
        prev(typename EH::error_variant(bom::not_initialized()));
        return first_called == 1;
    }
    return true;
}

// Runs f, recording how it ends.
template<int H, class F>
void guarded(F f) {
    try {
        f();
        lg->returned = 1;
    } catch (const Boom& b) {
        lg->caught = b.tag;
    } catch (const bom::openmethod_error& e) {
        lg->caught = 100;
        ++lg->errors;
    } catch (...) {
        lg->caught = 200;
    }
}

template<int H>
void guarded_throw(std::function<void()> f) {
    // throw_error_handler: the exception is the error, and a runtime_error
    int as_error = 0, as_runtime = 0;
    try {
        try {
            f();
            lg->returned = 1;
            return;
        } catch (const bom::no_overrider& e) {
            as_error = 1;
            Note()(e);
            throw;
        } catch (const bom::ambiguous_call& e) {
            as_error = 1;
            Note()(e);
            throw;
        } catch (const bom::missing_class& e) {
            as_error = 1;
            Note()(e);
            throw;
        } catch (const bom::missing_base& e) {
            as_error = 1;
            Note()(e);
            throw;
        } catch (const bom::final_error& e) {
            as_error = 1;
            Note()(e);
            throw;
        } catch (const bom::not_initialized& e) {
            as_error = 1;
            Note()(e);
            throw;
        } catch (const pol::fast_perfect_hash::search_error& e) {
            as_error = 1;
            Note()(e);
            throw;
        }
    } catch (const std::runtime_error& e) {
        as_runtime = std::strlen(e.what()) > 0;
    } catch (...) {
    }
    ++lg->errors;
    lg->handler_id = h_throw;
    lg->caught = as_error && as_runtime ? h_throw : 200;
}

template<int H>
void run_guarded(std::function<void()> f) {
    if (H == h_throw)
        guarded_throw<H>(f);
    else
        guarded<H>(f);
}

// run `f` in a child process; returns the wait status
inline int in_child(const std::function<void()>& f) {
    std::fflush(nullptr);
    pid_t p = fork();
    if (p == 0) {
        f();
        lg->finished = 1;
        _exit(0);
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {
    }
    return st;
}

// compare the log with what must have happened for an error of kind `kind`
inline void check_error(int H, int st, int kind) {
    auto* l = lg;
    if (l->finished < 0)
        mc::fail("default_error_handler::set does not return the previous handler");
    if (handler_throws(H)) {
        if (!WIFEXITED(st) || WEXITSTATUS(st) || !l->finished)
            mc::fail("the handler throws, but the program ended (status %x)", st);
        if (l->returned)
            mc::fail("the call returned although it is in error");
        if (l->errors != 1)
            mc::fail("the error was reported %d times", l->errors);
        if (l->caught != H)
            mc::fail(
                "the exception thrown by the handler did not reach the caller "
                "as it was (%d)",
                l->caught);
    } else {
        if (!WIFSIGNALED(st) || WTERMSIG(st) != SIGABRT)
            mc::fail(
                "the program did not abort after error %s (status %x, "
                "returned %d, caught %d)",
                kind_name(kind), st, l->returned, l->caught);
        if (H == h_set_ret || H == h_ret) {
            if (l->errors != 1)
                mc::fail("the error was reported %d times", l->errors);
            if (l->handler_id != H)
                mc::fail("the wrong handler was called");
        } else if (l->errors) {
            mc::fail("unexpected handler called");
        }
        if (H == h_default_out && !l->out)
            mc::fail("the default handler wrote nothing");
    }
    bool logged = handler_throws(H) || H == h_set_ret || H == h_ret;
    if (logged && l->kind != kind)
        mc::fail(
            "%s was reported instead of %s", kind_name(l->kind),
            kind_name(kind));
    if (l->overriders)
        mc::fail("an overrider ran although the call is in error");
}

template<int H, bool Checks>
struct CallCase {
    using CR = CallRegistry<H, Checks>;
    using R = typename CR::R;
    static void run(mc::Explorer& ex, int shape, int v, int what, const int* t) {
        auto f = CR::fns(shape, v);
        int n = shape_n[shape];
        auto e = shape == NSHAPES ? Expect{k_no_overrider, -1}
                                  : expect(v, what, t[0]);
        ex.transition();
        lg->clear();
        static bool init = [] {
            bom::initialize<R>();
            return true;
        }();
        (void)init;
        auto body = [&] {
            if (!set_handler<H, R>()) {
                lg->finished = -1;
                _exit(0);
            }
            run_guarded<H>([&] {
                int r = f.act(what, t);
                if (r != lg->which)
                    lg->which = -100;
            });
        };
        if (e.kind == none) {
            int st = in_child(body);
            if (st != 0 || !lg->returned || lg->errors || lg->caught ||
                lg->overriders != 1 || lg->which != e.which)
                mc::fail(
                    "a correct call ended with status %x, returned %d, errors "
                    "%d, caught %d, overriders %d, which %d (expected %d)",
                    st, lg->returned, lg->errors, lg->caught, lg->overriders,
                    lg->which, e.which);
            ex.count(0);
            return;
        }
        ex.count(1);
        if (what == w_next && f.has_next(t[0]))
            mc::fail("has_next is true, but next is in error");
        auto st = in_child(body);
        check_error(H, st, e.kind);
        bool logged = handler_throws(H) || H == h_set_ret || H == h_ret;
        if (logged) {
            if (lg->method != f.method_id())
                mc::fail("the error names another method");
            if (int(lg->arity) != n)
                mc::fail("arity %d instead of %d", int(lg->arity), n);
            for (int i = 0; i < n && i < 16; ++i) {
                type_id want =
                    shape == NSHAPES ? type_id(&typeid(P)) : dyn_id(t[i]);
                if (lg->types[i] != want)
                    mc::fail(
                        "the error gives the wrong type for virtual argument "
                        "%d",
                        i);
            }
        }
        if (handler_throws(H)) {
            // the registry remains usable: the same error again, then a correct
            // call, in the same process
            if (shape == NSHAPES)
                return;
            lg->clear();
            int seq[17] = {1, 0, 0};
            auto st2 = in_child([&] {
                if (!set_handler<H, R>())
                    _exit(7);
                for (int i = 0; i < 2; ++i) {
                    Log keep = *lg;
                    run_guarded<H>([&] { f.act(what, t); });
                    if (lg->kind != e.kind || lg->errors != keep.errors + 1 ||
                        lg->overriders)
                        _exit(8);
                }
                run_guarded<H>([&] {
                    if (f.act(w_call, seq) != 1)
                        _exit(9);
                });
                if (lg->overriders != 1 || !lg->returned)
                    _exit(10);
                // and it can be finalized and initialized again
                bom::finalize<R>();
                bom::initialize<R>();
                lg->clear();
                run_guarded<H>([&] { f.act(w_call, seq); });
                if (lg->overriders != 1 || lg->errors)
                    _exit(11);
            });
            ex.transition(4);
            if (st2)
                mc::fail(
                    "after an error reported by an exception, the registry "
                    "misbehaves (status %x)",
                    st2);
        }
    }
};

// ---------------------------------------------------------------------------
// errors other than bad calls

enum Other {
    o_missing_method_class, // initialize
    o_missing_overrider_class,
    o_missing_base,
    o_search_error,
    o_not_init_call, // runtime checks
    o_not_init_call_vp,
    o_not_init_vp,
    o_not_init_final,
    o_missing_call,
    o_missing_vp,
    o_missing_shared,
    o_final,
    o_final_shared,
    o_count
};
inline const char* other_names[] = {
    "initialize: unregistered class in a method",
    "initialize: unregistered class in an overrider",
    "initialize: missing base",
    "initialize: no hash function",
    "call before initialize",
    "call through a virtual_ptr before initialize",
    "virtual_ptr before initialize",
    "final_virtual_ptr before initialize",
    "call with an unregistered dynamic type",
    "virtual_ptr to an unregistered dynamic type",
    "shared virtual_ptr to an unregistered dynamic type",
    "final_virtual_ptr on another dynamic type",
    "final_virtual_ptr(shared_ptr) on another dynamic type"};

template<int O>
struct OtherTag {};

template<int H, bool Checks, int O>
struct OtherCase {
    using Rtti =
        std::conditional_t<O == o_search_error, clashing_rtti, pol::std_rtti>;
    struct R : make_registry<H, Checks, OtherTag<O>, Rtti> {};
    struct Id;
    using M = bom::method<Id, int(virtual_<A&>), R>;
    static int fa(A&) {
        return ran(0);
    }
    static int fb(B&) {
        return ran(1);
    }
    static void install() {
        if constexpr (O == o_missing_method_class) {
            static bom::use_classes<B, R> u;
            static typename M::template override<fb> o;
            (void)&u;
            (void)&o;
        } else if constexpr (O == o_missing_overrider_class) {
            static bom::use_classes<A, R> u;
            static typename M::template override<fa, fb> o;
            (void)&u;
            (void)&o;
        } else if constexpr (O == o_missing_base) {
            static bom::use_classes<A, R> u;
            static bom::use_classes<B, R> v;
            static typename M::template override<fa, fb> o;
            (void)&u;
            (void)&v;
            (void)&o;
        } else if constexpr (O == o_search_error) {
            static typename twin_uses<R, std::make_index_sequence<17>>::type u;
            (void)&u;
        } else {
            static bom::use_classes<A, B, R> u;
            static typename M::template override<fa, fb> o;
            (void)&u;
            (void)&o;
        }
    }
    static void run(mc::Explorer& ex) {
        ex.transition();
        ex.count(2);
        lg->clear();
        int kind = none;
        type_id t1 = nullptr, t2 = nullptr;
        std::function<void()> f;
        A a;
        B b;
        Z z;
        switch (O) {
        case o_missing_method_class:
            kind = k_missing_class;
            t1 = &typeid(A);
            break;
        case o_missing_overrider_class:
            kind = k_missing_class;
            t1 = &typeid(B);
            break;
        case o_missing_base:
            kind = k_missing_base;
            t1 = &typeid(A);
            t2 = &typeid(B);
            break;
        case o_search_error:
            kind = k_search;
            break;
        case o_not_init_call:
        case o_not_init_call_vp:
        case o_not_init_vp:
        case o_not_init_final:
            kind = k_not_initialized;
            break;
        case o_missing_call:
        case o_missing_vp:
        case o_missing_shared:
            kind = k_missing_class;
            t1 = &typeid(Z);
            break;
        case o_final:
        case o_final_shared:
            kind = k_final;
            t1 = &typeid(A);
            t2 = &typeid(B);
            break;
        }
        auto st = in_child([&] {
            if (!set_handler<H, R>()) {
                lg->finished = -1;
                _exit(0);
            }
            if constexpr (O >= o_missing_call)
                bom::initialize<R>();
            run_guarded<H>([&] {
                if constexpr (O <= o_search_error) {
                    bom::initialize<R>();
                } else if constexpr (O == o_not_init_call) {
                    M::fn(a);
                } else if constexpr (O == o_not_init_vp ||
                                     O == o_not_init_call_vp) {
                    virtual_ptr<A, R> p(a);
                    (void)p;
                } else if constexpr (O == o_not_init_final) {
                    bom::final_virtual_ptr<R>(a);
                } else if constexpr (O == o_missing_call) {
                    M::fn(z);
                } else if constexpr (O == o_missing_vp) {
                    A& r = z;
                    virtual_ptr<A, R> p(r);
                    (void)p;
                } else if constexpr (O == o_missing_shared) {
                    std::shared_ptr<A> s = std::make_shared<Z>();
                    virtual_ptr<std::shared_ptr<A>, R> p(s);
                    (void)p;
                } else if constexpr (O == o_final) {
                    A& r = b;
                    bom::final_virtual_ptr<R>(r);
                } else if constexpr (O == o_final_shared) {
                    bom::final_virtual_ptr<R>(
                        std::shared_ptr<A>(std::make_shared<B>()));
                }
            });
        });
        check_error(H, st, kind);
        bool logged = handler_throws(H) || H == h_set_ret || H == h_ret;
        if (logged && (lg->t1 != t1 || lg->t2 != t2))
            mc::fail("%s names the wrong types", kind_name(kind));
    }
};

// ---------------------------------------------------------------------------

constexpr int NR = h_count * 2;

template<int I>
struct Reg {
    static constexpr int H = I / 2;
    static constexpr bool checks = I % 2;

    template<std::size_t... O>
    static void install_other(std::index_sequence<O...>) {
        (install_one<int(O)>(), ...);
    }
    template<int O>
    static void install_one() {
        if constexpr (O < o_not_init_call || checks)
            OtherCase<H, checks, O>::install();
    }
    template<std::size_t... O>
    static void
    run_other(mc::Explorer& ex, int o, std::index_sequence<O...>) {
        ((o == int(O) ? run_one<int(O)>(ex) : void()), ...);
    }
    template<int O>
    static void run_one(mc::Explorer& ex) {
        if constexpr (O < o_not_init_call || checks)
            OtherCase<H, checks, O>::run(ex);
    }
    using Os = std::make_index_sequence<o_count>;
    static void install() {
        CallRegistry<H, checks>::install();
        install_other(Os());
    }
    static void run(mc::Explorer& ex, const mc::Case& c) {
        if (c[1] >= 0)
            CallCase<H, checks>::run(ex, c[1], c[2], c[3], c.data() + 4);
        else
            run_other(ex, c[2], Os());
    }
};

// One translation unit per handler (-DPART=H), and one for main.
#define EACH_PART(X) X(0) X(1) X(2) X(3) X(4) X(5) X(6) X(7)
#define DECL(H)                                                                \
    void install_##H();                                                        \
    void run_##H(mc::Explorer&, const mc::Case&);
EACH_PART(DECL)
static_assert(h_count == 8);

#ifdef PART
#define CAT(A, B) A##B
#define XCAT(A, B) CAT(A, B)
void XCAT(install_, PART)() {
    Reg<2 * PART>::install();
    Reg<2 * PART + 1>::install();
}
void XCAT(run_, PART)(mc::Explorer& ex, const mc::Case& c) {
    if (c[0] % 2)
        Reg<2 * PART + 1>::run(ex, c);
    else
        Reg<2 * PART>::run(ex, c);
}
#else

void install_all() {
#define INST(H) install_##H();
    EACH_PART(INST)
}
void run_all(mc::Explorer& ex, const mc::Case& c) {
#define RUN(H)                                                                 \
    if (c[0] / 2 == H)                                                         \
        run_##H(ex, c);
    EACH_PART(RUN)
}

int main(int argc, char** argv) {
    lg = static_cast<Log*>(mmap(
        nullptr, sizeof(Log), PROT_READ | PROT_WRITE,
        MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    install_all();
    mc::Harness h;
    h.name = "errors";
    h.counters = {"correct_calls", "bad_calls", "other_errors"};
    h.run = [](mc::Explorer& ex, const mc::Case& c) {
        // one log per process
        static bool own = false;
        if (!own) {
            own = true;
            lg = static_cast<Log*>(mmap(
                nullptr, sizeof(Log), PROT_READ | PROT_WRITE,
                MAP_SHARED | MAP_ANONYMOUS, -1, 0));
        }
        run_all(ex, c);
        std::uint64_t s = 7;
        for (int v : c)
            s = mc::mix(s, std::uint64_t(v + 20));
        ex.state(s);
        ex.trace_ok();
    };
    h.describe = [](const mc::Case& c) {
        std::string r = std::string(handler_names[c[0] / 2]) +
            (c[0] % 2 ? ", runtime_checks: " : ": ");
        if (c[1] < 0)
            return r + other_names[c[2]];
        r += std::string(c[3] == w_call ? "call" : "next") + " with signature " +
            shape_names[c[1]] + ", overriders for B, C" + (c[2] ? ", D" : "") +
            ", dynamic types";
        for (std::size_t i = 4; i < c.size(); ++i)
            r += std::string(" ") + "ABCD"[c[i]];
        return r;
    };
    h.enumerate = [](mc::Explorer& ex) {
        for (int r = 0; r < NR; ++r) {
            for (int s = 0; s <= NSHAPES; ++s) {
                if (s == NSHAPES) {
                    ex.consider({r, s, 0, w_call});
                    continue;
                }
                for (int v = 0; v < 2; ++v)
                    for (int what = 0; what < 2; ++what) {
                        int n = shape_n[s], tot = 1;
                        for (int i = 0; i < n; ++i)
                            tot *= NT;
                        for (int x = 0; x < tot; ++x) {
                            mc::Case c{r, s, v, what};
                            for (int i = 0, y = x; i < n; ++i, y /= NT)
                                c.push_back(y % NT);
                            if (what == w_next &&
                                (c[4] == 0 || (c[4] == 3 && v == 0)))
                                continue;
                            ex.consider(c);
                        }
                    }
            }
            for (int o = 0; o < o_count; ++o)
                if (o < o_not_init_call || r % 2)
                    ex.consider({r, -1, o});
        }
    };
    return mc::main(argc, argv, h);
}
#endif
