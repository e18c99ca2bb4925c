// C19: registries are composed from policies.
//  1. Every sequence of `with` and `without` up to a depth, from several
//     registries, against a map from categories to policies.
//  2. Every valid combination of policies (rtti x v-table policy and hash x
//     error handler x output x indirect_vptr x runtime_checks): every sequence
//     of initialize, finalize (with and without options) up to a depth, the
//     calls after each of them, and what policies supplied by the user see.
#include <boost/openmethod/core.hpp>
#include <boost/openmethod/default_registry.hpp>
#include <boost/openmethod/initialize.hpp>
#include <boost/openmethod/interop/std_shared_ptr.hpp>
#include <boost/openmethod/interop/std_unique_ptr.hpp>
#include <boost/openmethod/policies/default_error_handler.hpp>
#include <boost/openmethod/policies/fast_perfect_hash.hpp>
#include <boost/openmethod/policies/static_rtti.hpp>
#include <boost/openmethod/policies/std_rtti.hpp>
#include <boost/openmethod/policies/stderr_output.hpp>
#include <boost/openmethod/policies/throw_error_handler.hpp>
#include <boost/openmethod/policies/vptr_map.hpp>
#include <boost/openmethod/policies/vptr_vector.hpp>

#include <fcntl.h>
#include <map>
#include <set>
#include <sys/wait.h>
#include <unistd.h>

#include "mc.hpp"

namespace bom = boost::openmethod;
namespace pol = bom::policies;
namespace mp11 = boost::mp11;
using bom::type_id;

#ifndef PART
#define PART -1
#endif

// parts: combinations, then compositions
#define CPARTS 14
#define TPARTS 3

using Runner = void (*)(mc::Explorer&, const mc::Case&);
struct Combo {
    Runner run;
    std::string name;
    bool valid = false;
};

template<int P>
void combos(std::vector<Combo>&);
template<int P>
void compositions(std::vector<Combo>&);

// counters
constexpr int C_CALLS = 0, C_SPIED = 1, C_FATAL = 2, C_TYPES = 3;

// the only thing a policy writes to, here
struct count_os {
    static inline long written = 0;
    template<class T>
    count_os& put(const T&) {
        ++written;
        return *this;
    }
};
inline count_os& operator<<(count_os& os, const char* s) {
    return os.put(s);
}
inline count_os& operator<<(count_os& os, const std::string_view& s) {
    return os.put(s);
}
inline count_os& operator<<(count_os& os, const void* s) {
    return os.put(s);
}
inline count_os& operator<<(count_os& os, std::size_t s) {
    return os.put(s);
}

// ---------------------------------------------------------------------------
// options

struct Opt {
    int value;
};

struct Options {
    std::size_t n = 0;   // number of options
    int value = -1;      // of the Opt
    bool trace = false, n2216 = false;
};

template<class... O>
Options see(const std::tuple<O...>& t) {
    Options r;
    r.n = sizeof...(O);
    auto one = [&](const auto& o) {
        using T = std::decay_t<decltype(o)>;
        if constexpr (std::is_same_v<T, Opt>)
            r.value = o.value;
        else if constexpr (std::is_same_v<T, bom::trace>)
            r.trace = true;
        else if constexpr (std::is_same_v<T, bom::n2216>)
            r.n2216 = true;
    };
    std::apply([&](const auto&... o) { (one(o), ...); }, t);
    return r;
}

// ---------------------------------------------------------------------------
// user policies that tell what they see

struct Spy {
    int init = 0, fin = 0;
    Options init_opts, fin_opts;
    struct Cls {
        std::vector<type_id> ids;
        bom::vptr_type vptr;
        const bom::vptr_type* where;
    };
    std::vector<Cls> classes;
    template<class Ctx>
    void look(const Ctx& ctx) {
        classes.clear();
        for (auto i = ctx.classes_begin(); i != ctx.classes_end(); ++i) {
            Cls c;
            for (auto j = i->type_id_begin(); j != i->type_id_end(); ++j)
                c.ids.push_back(*j);
            c.vptr = i->vptr();
            c.where = &i->vptr();
            classes.push_back(c);
        }
    }
};

struct spy_vptr : pol::vptr {
    template<class R>
    struct fn {
        inline static Spy spy;
        inline static std::map<type_id, bom::vptr_type> direct;
        inline static std::map<type_id, const bom::vptr_type*> indirect;
        template<class Ctx, class... O>
        static void initialize(const Ctx& ctx, const std::tuple<O...>& o) {
            ++spy.init;
            spy.init_opts = see(o);
            spy.look(ctx);
            direct.clear();
            indirect.clear();
            for (auto& c : spy.classes)
                for (auto id : c.ids) {
                    direct[id] = c.vptr;
                    indirect[id] = c.where;
                }
        }
        template<class T>
        static const bom::vptr_type& dynamic_vptr(const T& obj) {
            auto id = R::rtti::dynamic_type(obj);
            if constexpr (R::has_indirect_vptr)
                return *indirect.at(id);
            else
                return direct.at(id);
        }
        template<class... O>
        static void finalize(const std::tuple<O...>& o) {
            ++spy.fin;
            spy.fin_opts = see(o);
        }
    };
};

struct spy_hash : pol::type_hash {
    template<class R>
    struct fn {
        inline static Spy spy;
        inline static std::map<type_id, std::size_t> table;
        template<class Ctx, class... O>
        static std::pair<std::size_t, std::size_t>
        initialize(const Ctx& ctx, const std::tuple<O...>& o) {
            ++spy.init;
            spy.init_opts = see(o);
            spy.look(ctx);
            table.clear();
            std::size_t next = 3;
            for (auto& c : spy.classes)
                for (auto id : c.ids)
                    table[id] = next += 2;
            return {5, next};
        }
        static std::size_t hash(type_id id) {
            return table.at(id);
        }
        template<class... O>
        static void finalize(const std::tuple<O...>& o) {
            ++spy.fin;
            spy.fin_opts = see(o);
        }
    };
};

// a category of its own, with a finalize
struct other_cat {
    using category = other_cat;
};
struct spy_other : other_cat {
    template<class R>
    struct fn {
        inline static Spy spy;
        template<class... O>
        static void finalize(const std::tuple<O...>& o) {
            ++spy.fin;
            spy.fin_opts = see(o);
        }
    };
};
// finalize that takes one option object, and nothing else
struct strict_cat {
    using category = strict_cat;
};
struct spy_strict : strict_cat {
    template<class R>
    struct fn {
        inline static Spy spy;
        static void finalize(const std::tuple<Opt>& o) {
            ++spy.fin;
            spy.fin_opts = see(o);
        }
    };
};
// no finalize
struct mute_cat {
    using category = mute_cat;
};
struct spy_mute : mute_cat {
    template<class R>
    struct fn {};
};

struct count_output : pol::output {
    template<class R>
    struct fn {
        inline static count_os os;
    };
};

template<class Fn, class = void>
struct spy_of {
    static Spy* get() {
        return nullptr;
    }
};
template<class Fn>
struct spy_of<Fn, std::void_t<decltype(Fn::spy)>> {
    static Spy* get() {
        return &Fn::spy;
    }
};

#if PART >= 0 && PART < CPARTS

// ---------------------------------------------------------------------------
// combinations

enum RttiK { STD, STATIC, CUSTOM, DEFERRED, NRTTI };
enum VptrK { NONE, VECTOR, VECTOR_FPH, VECTOR_SPY, MAP, ORDERED, SPY, MAP_FPH, NVPTR };
enum HandK { NO_HANDLER, DEFAULT, THROW, NHAND };
enum OutK { NO_OUTPUT, STDERR, COUNT, NOUT };

// four classes: 0 <- 1 <- 2, 0 <- 3
template<bool Poly>
struct Hier;
template<>
struct Hier<true> {
    struct A {
        virtual ~A() {
        }
        int tag = 7;
    };
    struct B : A {};
    struct C : B {};
    struct D : A {};
};
template<>
struct Hier<false> {
    struct A {
        int tag = 7;
    };
    struct B : A {};
    struct C : B {};
    struct D : A {};
};
// ids held by the objects; each class has two, 2k and 2k+1
struct Ids {
    struct A {
        std::size_t id = 0;
        static constexpr std::size_t the_id = 0;
        int tag = 7;
    };
    struct B : A {
        static constexpr std::size_t the_id = 2;
        B() {
            id = the_id;
        }
    };
    struct C : B {
        static constexpr std::size_t the_id = 4;
        C() {
            id = the_id;
        }
    };
    struct D : A {
        static constexpr std::size_t the_id = 6;
        D() {
            id = the_id;
        }
    };
    // B and C as known by another module
    struct B2 : A {
        static constexpr std::size_t the_id = 3;
        B2() {
            id = the_id;
        }
    };
    struct C2 : B2 {
        static constexpr std::size_t the_id = 5;
        C2() {
            id = the_id;
        }
    };
};

template<class T, class = void>
struct has_id : std::false_type {};
template<class T>
struct has_id<T, std::void_t<decltype(T::the_id)>> : std::true_type {};

inline char no_id;

template<class Base>
struct ids_rtti : Base {
    template<class R>
    struct fn : pol::rtti::defaults {
        template<class T>
        static constexpr bool is_polymorphic = has_id<T>::value;
        template<class T>
        static type_id static_type() {
            if constexpr (has_id<T>::value)
                return type_id(T::the_id);
            else
                return &no_id;
        }
        template<class T>
        static type_id dynamic_type(const T& obj) {
            if constexpr (has_id<T>::value)
                return type_id(obj.id);
            else
                return nullptr;
        }
        static std::size_t type_index(type_id t) {
            return std::size_t(t) / 2;
        }
    };
};

template<RttiK K>
using rtti_list = mp11::mp_list<mp11::mp_at_c<
    mp11::mp_list<
        pol::std_rtti, pol::static_rtti, ids_rtti<pol::rtti>,
        ids_rtti<pol::deferred_static_rtti>>,
    K>>;
template<VptrK K>
using vptr_list = mp11::mp_at_c<
    mp11::mp_list<
        mp11::mp_list<>, mp11::mp_list<pol::vptr_vector>,
        mp11::mp_list<pol::vptr_vector, pol::fast_perfect_hash>,
        mp11::mp_list<spy_hash, pol::vptr_vector>,
        mp11::mp_list<pol::vptr_map<>>,
        mp11::mp_list<pol::vptr_map<mp11::mp_quote<std::map>>>,
        mp11::mp_list<spy_vptr>,
        mp11::mp_list<pol::fast_perfect_hash, pol::vptr_map<>>>,
    K>;
template<HandK K>
using hand_list = mp11::mp_at_c<
    mp11::mp_list<
        mp11::mp_list<>, mp11::mp_list<pol::default_error_handler>,
        mp11::mp_list<pol::throw_error_handler>>,
    K>;
template<OutK K>
using out_list = mp11::mp_at_c<
    mp11::mp_list<
        mp11::mp_list<>, mp11::mp_list<pol::stderr_output>,
        mp11::mp_list<count_output>>,
    K>;

enum { NOT_INIT = -1, NO_OVERRIDER = -2, AMBIGUOUS = -3, OTHER = -4 };

template<RttiK RT, VptrK V, HandK H, OutK O, bool I, bool CHK>
struct World {
    using list = mp11::mp_append<
        rtti_list<RT>, vptr_list<V>, hand_list<H>,
        mp11::mp_list<spy_other, spy_strict, spy_mute>, out_list<O>,
        std::conditional_t<I, mp11::mp_list<pol::indirect_vptr>, mp11::mp_list<>>,
        std::conditional_t<
            CHK, mp11::mp_list<pol::runtime_checks>, mp11::mp_list<>>>;
    struct R : mp11::mp_apply<bom::registry, list> {};
    static constexpr bool ids = RT == CUSTOM || RT == DEFERRED;
    static constexpr bool dynamic = RT != STATIC && V != NONE;

    using Hr = std::conditional_t<ids, Ids, Hier<RT == STD>>;
    using A = typename Hr::A;
    using B = typename Hr::B;
    using C = typename Hr::C;
    using D = typename Hr::D;

    template<class T>
    using vp = bom::virtual_ptr<T, R>;

    struct UId;
    using U = bom::method<UId, int(vp<A>), R>;
    struct MId;
    using M = bom::method<MId, int(vp<A>, int, vp<A>), R>;
    struct FId;
    template<bool Dyn, class = void>
    struct ByRef {
        using F = bom::method<FId, int(bom::virtual_<A&>), R>;
        static int a(A& x) {
            return 40 + x.tag;
        }
        static int c(C& x) {
            return F::template next<c>(x) * 2;
        }
        static void install() {
            static typename F::template override<a, c> o;
            (void)&o;
        }
        static int call(A& x) {
            return F::fn(x);
        }
    };
    template<class X>
    struct ByRef<false, X> {
        static void install() {
        }
        static int call(A&) {
            return 0;
        }
    };
    using Ref = ByRef<dynamic>;

    static int ub(vp<B> p) {
        return 10 + p->tag;
    }
    static int uc(vp<C> p) {
        return 1000 + U::template next<uc>(p);
    }
    static int maa(vp<A>, int i, vp<A>) {
        return i;
    }
    static int mba(vp<B> a, int i, vp<A> b) {
        return 1000 + M::template next<mba>(a, i, b);
    }
    static int mab(vp<A> a, int i, vp<B> b) {
        return 2000 + M::template next<mab>(a, i, b);
    }

    template<bool X, class W>
    struct Extra {
        static void install() {
        }
    };
    template<class W>
    struct Extra<true, W> {
        static void install() {
            static bom::use_classes<
                Ids::A, Ids::B2, Ids::C2, typename W::R>
                u;
            (void)&u;
        }
    };

    static void install() {
        static bom::use_classes<A, B, C, D, R> u;
        static typename U::template override<ub, uc> o;
        static typename M::template override<maa, mba, mab> p;
        (void)&u, (void)&o, (void)&p;
        Extra<ids, World>::install();
        Ref::install();
    }

    // reference
    static bool is_b(int c) {
        return c == 1 || c == 2;
    }
    static int ref_u(int c) {
        return c == 1 ? 17 : c == 2 ? 1017 : NO_OVERRIDER;
    }
    static int ref_m(int c, int d, int i) {
        return is_b(c) && is_b(d) ? AMBIGUOUS
            : is_b(c)             ? 1000 + i
            : is_b(d)             ? 2000 + i
                                  : i;
    }
    static int ref_f(int c) {
        return c == 2 ? 94 : 47;
    }

    // run f; with a handler that throws, tell which error it is
    template<class F>
    static int attempt(F f) {
        try {
            return f();
        } catch (bom::no_overrider&) {
            return NO_OVERRIDER;
        } catch (bom::ambiguous_call&) {
            return AMBIGUOUS;
        } catch (bom::not_initialized&) {
            return NOT_INIT;
        } catch (mc::Violation&) {
            throw;
        } catch (std::exception&) {
            return OTHER;
        }
    }
    static void expect(const char* what, int want, int got) {
        auto s = [](int r) {
            return r == NOT_INIT     ? std::string("not_initialized")
                : r == NO_OVERRIDER ? std::string("no_overrider")
                : r == AMBIGUOUS    ? std::string("ambiguous_call")
                : r == OTHER        ? std::string("another exception")
                                    : std::to_string(r);
        };
        if (want != got)
            mc::fail("%s: %s, should be %s", what, s(got).c_str(), s(want).c_str());
    }

    // does f kill the process?
    template<class F>
    static void dies(mc::Explorer& ex, const char* what, F f) {
        ex.count(C_FATAL);
        std::fflush(nullptr);
        int pid = fork();
        if (pid == 0) {
            mc::quiet_child();
            int null = open("/dev/null", O_WRONLY);
            dup2(null, 2);
            int code = 1;
            try {
                f();
            } catch (...) {
                code = 2;
            }
            _exit(code);
        }
        int st = 0;
        waitpid(pid, &st, 0);
        if (!(WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT))
            mc::fail(
                "%s should abort the process; it %s", what,
                WIFSIGNALED(st)            ? strsignal(WTERMSIG(st))
                    : WEXITSTATUS(st) == 2 ? "threw an exception"
                                           : "went on");
    }

    template<class T>
    static void with_ptrs(T& obj, const std::function<void(const char*, vp<A>)>& f) {
        f("final_virtual_ptr", bom::final_virtual_ptr<R>(obj));
        f("make_shared_virtual", bom::make_shared_virtual<T, R>());
        f("make_unique_virtual", bom::make_unique_virtual<T, R>());
        if constexpr (dynamic) {
            f("virtual_ptr", vp<A>(static_cast<A&>(obj)));
            f("virtual_ptr", vp<A>(obj));
            std::shared_ptr<A> s = std::make_shared<T>();
            f("shared_virtual_ptr", bom::virtual_ptr<std::shared_ptr<A>, R>(s));
        }
    }
    static void all_ptrs(const std::function<void(int, const char*, vp<A>)>& f) {
        auto at = [&](int c) {
            return [c, &f](const char* how, vp<A> p) { f(c, how, p); };
        };
        A a;
        B b;
        C c;
        D d;
        with_ptrs(a, at(0));
        with_ptrs(b, at(1));
        with_ptrs(c, at(2));
        with_ptrs(d, at(3));
        if constexpr (ids) {
            Ids::B2 b2;
            Ids::C2 c2;
            if constexpr (dynamic) {
                f(1, "virtual_ptr", vp<A>(static_cast<A&>(b2)));
                f(2, "virtual_ptr", vp<A>(static_cast<A&>(c2)));
            }
        }
    }

    static void calls(mc::Explorer& ex, bool fatal) {
        all_ptrs([&](int c, const char* how, vp<A> p) {
            ex.count(C_CALLS);
            ex.transition();
            std::string w = std::string("call(") + "ABCD"[c] + "), " + how;
            if (ref_u(c) >= 0 || H == THROW)
                expect(w.c_str(), ref_u(c), attempt([&] { return U::fn(p); }));
            else if (fatal)
                dies(ex, w.c_str(), [&] { U::fn(p); });
            all_ptrs([&](int d, const char* how2, vp<A> q) {
                ex.count(C_CALLS);
                ex.transition();
                int want = ref_m(c, d, 5);
                std::string w = std::string("call(") + "ABCD"[c] + ", 5, " +
                    "ABCD"[d] + "), " + how + ", " + how2;
                if (want >= 0 || H == THROW)
                    expect(w.c_str(), want, attempt([&] {
                               return M::fn(p, 5, q);
                           }));
                else if (fatal && c == 1 && d == 2 && how[0] == 'f' && how2[0] == 'f')
                    dies(ex, w.c_str(), [&] { M::fn(p, 5, q); });
            });
        });
        if constexpr (dynamic) {
            A a;
            B b;
            C c;
            D d;
            A* all[] = {&a, &b, &c, &d};
            for (int k = 0; k < 4; ++k)
                expect("call by reference", ref_f(k), attempt([&] {
                           return Ref::call(*all[k]);
                       }));
        }
    }

    // uses of a registry that is not initialized
    static void uninitialized(mc::Explorer& ex) {
        if constexpr (CHK) {
            C c;
            auto use = [&] {
                return attempt([&] {
                    bom::final_virtual_ptr<R>(c);
                    return 0;
                });
            };
            auto make = [&] {
                return attempt([&] {
                    bom::make_shared_virtual<C, R>();
                    return 0;
                });
            };
            auto ref = [&] { return attempt([&] { return Ref::call(c); }); };
            if (H == THROW) {
                expect("final_virtual_ptr, not initialized", NOT_INIT, use());
                expect("make_shared_virtual, not initialized", NOT_INIT, make());
                if (dynamic)
                    expect("call, not initialized", NOT_INIT, ref());
            } else {
                dies(ex, "final_virtual_ptr, not initialized", use);
                if (dynamic)
                    dies(ex, "call, not initialized", ref);
            }
        }
    }

    template<class Cat>
    static Spy* spy() {
        return spy_of<typename R::template policy<Cat>>::get();
    }

    static void initialized(
        mc::Explorer& ex, const char* what, Spy* s, int before,
        const Options& o) {
        if (!s)
            return;
        ex.count(C_SPIED);
        if (s->init != before + 1)
            mc::fail(
                "initialize initialized the %s policy %d times", what,
                s->init - before);
        auto& q = s->init_opts;
        if (q.n != o.n || q.value != o.value || q.trace != o.trace ||
            q.n2216 != o.n2216)
            mc::fail("initialize did not pass its options to the %s policy", what);
        std::vector<std::set<type_id>> want;
        auto id = [](std::size_t i) { return type_id(i); };
        if constexpr (ids)
            want = {{id(0)}, {id(2), id(3)}, {id(4), id(5)}, {id(6)}};
        else
            want = {
                {R::rtti::template static_type<A>()},
                {R::rtti::template static_type<B>()},
                {R::rtti::template static_type<C>()},
                {R::rtti::template static_type<D>()}};
        bom::vptr_type vptr[] = {
            R::template static_vptr<A>, R::template static_vptr<B>,
            R::template static_vptr<C>, R::template static_vptr<D>};
        if (s->classes.size() != want.size())
            mc::fail(
                "the %s policy was told of %d classes instead of %d", what,
                int(s->classes.size()), int(want.size()));
        for (std::size_t i = 0; i < want.size(); ++i) {
            int found = 0;
            for (auto& c : s->classes) {
                std::set<type_id> got(c.ids.begin(), c.ids.end());
                if (got != want[i])
                    continue;
                ++found;
                if (got.size() != c.ids.size())
                    mc::fail("the %s policy was given an id twice", what);
                if (c.vptr != vptr[i] || !c.vptr)
                    mc::fail(
                        "the %s policy was given a wrong v-table pointer for "
                        "class %c",
                        what, "ABCD"[i]);
                if (*c.where != c.vptr)
                    mc::fail(
                        "the v-table pointer of class %c changed after the %s "
                        "policy saw it",
                        "ABCD"[i], what);
            }
            if (found != 1)
                mc::fail(
                    "the %s policy was told %d times of the ids of class %c",
                    what, found, "ABCD"[i]);
        }
    }
    static void finalized(
        mc::Explorer& ex, const char* what, Spy* s, int before, int times,
        const Options& o) {
        if (!s)
            return;
        ex.count(C_SPIED);
        if (s->fin != before + times)
            mc::fail(
                "finalize finalized the %s policy %d times instead of %d", what,
                s->fin - before, times);
        auto& q = s->fin_opts;
        if (times && (q.n != o.n || q.value != o.value))
            mc::fail("finalize did not pass its options to the %s policy", what);
    }

    // ops: 0 initialize(), 1 initialize(Opt, trace), 2 initialize(n2216),
    // 3 initialize(n2216, Opt), 4 initialize(Opt, trace(false)), 5 finalize(),
    // 6 finalize(Opt), 7 finalize(Opt, trace)
    static void run(mc::Explorer& ex, const mc::Case& c) {
        static bool once = (install(), true);
        (void)once;
        bom::finalize<R>();
        int hush = -1;
        if (O == STDERR) {
            hush = dup(2);
            int null = open("/dev/null", O_WRONLY);
            dup2(null, 2);
            close(null);
        }
        struct Restore {
            int fd;
            ~Restore() {
                if (fd >= 0) {
                    dup2(fd, 2);
                    close(fd);
                }
            }
        } restore{hush};
        std::uint64_t h = 17;
        for (std::size_t i = 1; i < c.size(); ++i) {
            int op = c[i];
            Spy* v = spy<pol::vptr>();
            Spy* hs = spy<pol::type_hash>();
            Spy* o = spy<other_cat>();
            Spy* s = spy<strict_cat>();
            auto n = [](Spy* s, int Spy::*m) { return s ? s->*m : 0; };
            int vi = n(v, &Spy::init), hi = n(hs, &Spy::init);
            int vf = n(v, &Spy::fin), hf = n(hs, &Spy::fin);
            int of = n(o, &Spy::fin), sf = n(s, &Spy::fin);
            Options want;
            long w0 = count_os::written;
            int value = int(i) * 11;
            bool init = op < 5;
            switch (op) {
            case 0:
                bom::initialize<R>();
                break;
            case 1:
            case 4: {
                // an lvalue and an rvalue
                Opt opt{value};
                if constexpr (O != NO_OUTPUT) {
                    bom::initialize<R>(opt, bom::trace(op == 1));
                    want.n = 2;
                    want.trace = true;
                } else {
                    bom::initialize<R>(opt);
                    want.n = 1;
                }
                want.value = value;
                break;
            }
#ifdef DEEP
            case 2:
                bom::initialize<R>(bom::n2216());
                want.n = 1;
                want.n2216 = true;
                break;
            case 3: {
                const bom::n2216 k{};
                bom::initialize<R>(k, Opt{value});
                want.n = 2;
                want.n2216 = true;
                want.value = value;
                break;
            }
#endif
            case 5:
                bom::finalize<R>();
                break;
            case 6:
                bom::finalize<R>(Opt{value});
                want.n = 1;
                want.value = value;
                break;
            case 7:
                bom::finalize<R>(Opt{value}, bom::trace());
                want.n = 2;
                want.value = value;
                break;
            }
            ex.transition();
            if (O == COUNT && (count_os::written != w0) != (op == 1))
                mc::fail(
                    op == 1 ? "initialize(trace()) wrote nothing"
                            : "wrote to the output without being asked to");
            if (init) {
                initialized(ex, "vptr", v, vi, want);
                initialized(ex, "type_hash", hs, hi, want);
                if (n(v, &Spy::fin) != vf || n(hs, &Spy::fin) != hf ||
                    n(o, &Spy::fin) != of || n(s, &Spy::fin) != sf)
                    mc::fail("initialize finalized a policy");
                if (want.n2216 == false)
                    calls(ex, i == 1 && c.size() == 2 && op == 0);
            } else {
                finalized(ex, "vptr", v, vf, 1, want);
                finalized(ex, "type_hash", hs, hf, 1, want);
                finalized(ex, "other", o, of, 1, want);
                finalized(ex, "strict", s, sf, op == 6, want);
                if (n(v, &Spy::init) != vi || n(hs, &Spy::init) != hi)
                    mc::fail("finalize initialized a policy");
                uninitialized(ex);
            }
            h = mc::mix(h, op + 3);
        }
        ex.state(mc::mix(h, c[0] + 1));
        ex.trace_ok();
    }
};

constexpr int NCOMBOS = NRTTI * NVPTR * NHAND * NOUT * 2 * 2;

template<int X>
static void add(std::vector<Combo>& v) {
    constexpr RttiK r = RttiK(X % NRTTI);
    constexpr VptrK k = VptrK(X / NRTTI % NVPTR);
    constexpr HandK h = HandK(X / NRTTI / NVPTR % NHAND);
    constexpr OutK o = OutK(X / NRTTI / NVPTR / NHAND % NOUT);
    constexpr bool i = X / NRTTI / NVPTR / NHAND / NOUT % 2;
    constexpr bool c = X / NRTTI / NVPTR / NHAND / NOUT / 2 % 2;
#ifdef DEEP
    constexpr bool ho = true;
#else
    constexpr bool ho = (h == NO_HANDLER && o == NO_OUTPUT) ||
        (h == DEFAULT && o == STDERR) || (h == DEFAULT && o == NO_OUTPUT) ||
        (h == THROW && o == COUNT) || (r == STATIC && o == COUNT);
#endif
    // addresses are not indices; static_rtti has no dynamic types to report
    constexpr bool valid = ho && !(k == VECTOR && r != CUSTOM && r != DEFERRED) &&
        !(r == STATIC && h != NO_HANDLER);
    Combo& m = v[X];
    if constexpr (valid && (X / NRTTI + X / 97) % CPARTS == PART) {
        m.valid = true;
        m.run = World<r, k, h, o, i, c>::run;
        static const char* rn[] = {"std_rtti", "static_rtti", "custom rtti", "deferred rtti"};
        static const char* vn[] = {"no vptr", "vptr_vector", "vptr_vector, fast_perfect_hash",
            "vptr_vector, user hash", "vptr_map", "vptr_map<std::map>", "user vptr",
            "vptr_map, fast_perfect_hash"};
        static const char* hn[] = {"no error handler", "default_error_handler", "throw_error_handler"};
        static const char* on[] = {"no output", "stderr_output", "user output"};
        m.name = std::string(rn[r]) + ", " + vn[k] + ", " + hn[h] + ", " + on[o] +
            (i ? ", indirect_vptr" : "") + (c ? ", runtime_checks" : "");
    }
}

template<int... X>
static void add_all(std::vector<Combo>& v, std::integer_sequence<int, X...>) {
    int all[] = {(add<X>(v), 0)...};
    (void)all;
}

template<>
void combos<PART>(std::vector<Combo>& v) {
    v.resize(NCOMBOS);
    add_all(v, std::make_integer_sequence<int, NCOMBOS>());
}

#elif PART >= CPARTS

// ---------------------------------------------------------------------------
// compositions

struct user_cat {
    using category = user_cat;
};
struct user1 : user_cat {
    template<class R>
    struct fn {};
};
struct user2 : user_cat {
    template<class R>
    struct fn {};
};
struct user_deferred : pol::deferred_static_rtti {
    template<class R>
    struct fn : pol::rtti::defaults {};
};

// the policies and their categories
using catalogue = mp11::mp_list<
    pol::std_rtti, pol::static_rtti, user_deferred, pol::vptr_vector,
    pol::vptr_map<>, pol::fast_perfect_hash, spy_hash,
    pol::default_error_handler, pol::throw_error_handler, pol::stderr_output,
    count_output, pol::indirect_vptr, pol::runtime_checks, user1, user2>;
static const int category_of[] = {0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 6, 7, 7};
using categories = mp11::mp_list<
    pol::rtti, pol::vptr, pol::type_hash, pol::error_handler, pol::output,
    pol::indirect_vptr, pol::runtime_checks, user_cat>;
constexpr int NPOL = mp11::mp_size<catalogue>::value;
constexpr int NCAT = mp11::mp_size<categories>::value;
constexpr int NOPS = NPOL + NCAT;
static const char* pol_name[] = {
    "std_rtti", "static_rtti", "user_deferred_rtti", "vptr_vector", "vptr_map<>",
    "fast_perfect_hash", "user_hash", "default_error_handler",
    "throw_error_handler", "stderr_output", "user_output", "indirect_vptr",
    "runtime_checks", "user1", "user2"};
static const char* cat_name[] = {
    "rtti", "vptr", "type_hash", "error_handler", "output", "indirect_vptr",
    "runtime_checks", "user"};

struct Seen {
    unsigned has = 0;         // policies in the list
    unsigned by_policy = 0;   // policies found by policy<...>
    int by_category[NCAT];    // policies found by policy<category>, or -1
    int size = 0;
    unsigned flags = 0;       // has_*
};

template<class Fn, class Reg>
constexpr int which() {
    int r = std::is_same_v<Fn, void> ? -1 : -2, i = 0;
    mp11::mp_for_each<mp11::mp_transform<mp11::mp_identity, catalogue>>(
        [&](auto p) {
            using P = typename decltype(p)::type;
            if (std::is_same_v<Fn, typename P::template fn<Reg>>)
                r = i;
            ++i;
        });
    return r;
}

template<class Reg>
const Seen& see_registry() {
    static const Seen seen = [] {
        Seen s;
        using L = typename Reg::policy_list;
        using RT = typename Reg::registry_type;
        s.size = int(mp11::mp_size<L>::value);
        int i = 0;
        mp11::mp_for_each<mp11::mp_transform<mp11::mp_identity, catalogue>>(
            [&](auto p) {
                using P = typename decltype(p)::type;
                if (mp11::mp_contains<L, P>::value)
                    s.has |= 1u << i;
                if (std::is_same_v<
                        typename Reg::template policy<P>,
                        typename P::template fn<RT>>)
                    s.by_policy |= 1u << i;
                ++i;
            });
        i = 0;
        mp11::mp_for_each<mp11::mp_transform<mp11::mp_identity, categories>>(
            [&](auto c) {
                using C = typename decltype(c)::type;
                s.by_category[i++] = which<typename Reg::template policy<C>, RT>();
            });
        s.flags = unsigned(Reg::has_vptr) | Reg::has_error_handler << 1 |
            Reg::has_output << 2 | Reg::has_deferred_static_rtti << 3 |
            Reg::has_runtime_checks << 4 | Reg::has_indirect_vptr << 5 |
            unsigned(std::is_same_v<
                     typename Reg::rtti, typename Reg::template policy<pol::rtti>>)
                << 6;
        return s;
    }();
    return seen;
}

template<int Op, class Reg>
auto apply_op() {
    if constexpr (Op < NPOL)
        return mp11::mp_identity<
            typename Reg::template with<mp11::mp_at_c<catalogue, Op>>>();
    else
        return mp11::mp_identity<typename Reg::template without<
            mp11::mp_at_c<categories, Op - NPOL>>>();
}
template<class Reg, int Op>
using Apply = typename decltype(apply_op<Op, Reg>())::type;

using Model = std::array<int, NCAT>;

inline std::string op_name(int op) {
    return op < NPOL ? std::string("with<") + pol_name[op] + ">"
                     : std::string("without<") + cat_name[op - NPOL] + ">";
}

inline void model_op(Model& m, int op) {
    if (op < NPOL)
        m[category_of[op]] = op;
    else
        m[op - NPOL] = -1;
}

inline void compare(const Model& m, const Seen& s) {
    unsigned has = 0;
    int size = 0;
    for (int c = 0; c < NCAT; ++c) {
        if (m[c] >= 0) {
            has |= 1u << m[c];
            ++size;
        }
        if (s.by_category[c] != m[c])
            mc::fail(
                "policy<%s> is %s, should be %s", cat_name[c],
                s.by_category[c] == -1       ? "void"
                    : s.by_category[c] == -2 ? "something else"
                                             : pol_name[s.by_category[c]],
                m[c] < 0 ? "void" : pol_name[m[c]]);
    }
    for (int p = 0; p < NPOL; ++p) {
        if (((s.has >> p) & 1) != ((has >> p) & 1))
            mc::fail(
                "%s is %s the registry", pol_name[p],
                (s.has >> p) & 1 ? "still in" : "not in");
        if (((s.by_policy >> p) & 1) != ((has >> p) & 1))
            mc::fail("policy<%s> is wrong", pol_name[p]);
    }
    if (s.size != size)
        mc::fail("%d policies instead of %d", s.size, size);
    unsigned flags = unsigned(m[1] >= 0) | (m[3] >= 0) << 1 | (m[4] >= 0) << 2 |
        (m[0] == 2) << 3 | (m[6] >= 0) << 4 | (m[5] >= 0) << 5 | 1 << 6;
    if (s.flags != flags)
        mc::fail("has_... flags are %#x, should be %#x", s.flags, flags);
}

// explore every path from Reg; registries reached by several paths are
// instantiated once
template<class Reg, int Depth>
void walk(mc::Explorer& ex, Model m, const int* path, int n) {
    if (n == 0 || path[0] < 0) {
        compare(m, see_registry<Reg>());
        ex.count(C_TYPES);
        ex.transition();
        return;
    }
    if constexpr (Depth > 0) {
        model_op(m, path[0]);
        using F = void (*)(mc::Explorer&, Model, const int*, int);
        static const auto table = []<int... Op>(std::integer_sequence<int, Op...>) {
            return std::array<F, NOPS>{walk<Apply<Reg, Op>, Depth - 1>...};
        }(std::make_integer_sequence<int, NOPS>());
        table[path[0]](ex, m, path + 1, n - 1);
    }
}

// several policies at once
template<class Reg>
void pairs(mc::Explorer& ex, Model m, int a, int b) {
    auto one = [&](auto x, auto y) {
        constexpr int X = decltype(x)::value, Y = decltype(y)::value;
        if (X != a || Y != b)
            return;
        Model w = m;
        if constexpr (X < NPOL && Y < NPOL) {
            model_op(w, X);
            model_op(w, Y);
            compare(w, see_registry<typename Reg::template with<
                           mp11::mp_at_c<catalogue, X>,
                           mp11::mp_at_c<catalogue, Y>>>());
            // and once more
            using T = typename Reg::template with<
                mp11::mp_at_c<catalogue, X>, mp11::mp_at_c<catalogue, Y>>;
            if (category_of[X] != category_of[Y] &&
                !std::is_same_v<T, typename T::template with<
                                       mp11::mp_at_c<catalogue, X>,
                                       mp11::mp_at_c<catalogue, Y>>>)
                mc::fail("applying the same policies again changes the registry");
        } else if constexpr (X >= NPOL && Y >= NPOL) {
            model_op(w, X);
            model_op(w, Y);
            compare(w, see_registry<typename Reg::template without<
                           mp11::mp_at_c<categories, X - NPOL>,
                           mp11::mp_at_c<categories, Y - NPOL>>>());
        } else {
            return;
        }
        ex.count(C_TYPES);
        ex.transition();
    };
    mp11::mp_for_each<mp11::mp_iota_c<NOPS>>([&](auto x) {
        mp11::mp_for_each<mp11::mp_iota_c<NOPS>>([&](auto y) {
            one(std::integral_constant<int, decltype(x)::value>(),
                std::integral_constant<int, decltype(y)::value>());
        });
    });
}

#ifdef DEEP
constexpr int DEPTH = 3;
#else
constexpr int DEPTH = 2;
#endif

#if PART == CPARTS
#define START "registry<>"
using Start = bom::registry<>;
static const Model start = {-1, -1, -1, -1, -1, -1, -1, -1};
#elif PART == CPARTS + 1
// not in the order of the categories
#define START "registry<user1, runtime_checks, vptr_map<>, static_rtti>"
struct Start
    : bom::registry<user1, pol::runtime_checks, pol::vptr_map<>, pol::static_rtti> {};
static const Model start = {1, 4, -1, -1, -1, -1, 12, 13};
#else
#define START "indirect_registry"
using Start = bom::indirect_registry;
static const Model start = {0, 3, 5, 7, 9, 11, -1, -1};
#endif

static void run_composition(mc::Explorer& ex, const mc::Case& c) {
    if (c[1] == 1) {
        pairs<Start>(ex, start, c[2], c[3]);
    } else {
        walk<Start, DEPTH>(ex, start, c.data() + 2, int(c.size()) - 2);
        // adding nothing
        if (c.size() == 2 &&
            (!std::is_same_v<
                 typename Start::template with<>, typename Start::registry_type> ||
             !std::is_same_v<
                 typename Start::template without<>,
                 typename Start::registry_type>))
            mc::fail("with<> or without<> changes the registry");
    }
    std::uint64_t h = PART;
    for (int x : c)
        h = mc::mix(h, x + 5);
    ex.state(h);
    ex.trace_ok();
}

template<>
void compositions<PART - CPARTS>(std::vector<Combo>& v) {
    v.push_back({run_composition, START, true});
    for (int i = 0; i < NOPS; ++i)
        v.push_back({nullptr, op_name(i), true});
}

#else

template<int... P>
void gather(std::vector<Combo>& all, std::integer_sequence<int, P...>) {
    auto one = [&](auto f) {
        std::vector<Combo> v;
        f(v);
        all.resize(v.size());
        for (std::size_t i = 0; i < v.size(); ++i)
            if (v[i].valid)
                all[i] = v[i];
    };
    (one(combos<P>), ...);
}

int main(int argc, char** argv) {
    std::vector<Combo> all;
    gather(all, std::make_integer_sequence<int, CPARTS>());
    int ncombos = int(all.size());
    std::vector<std::vector<Combo>> comp(TPARTS);
    compositions<0>(comp[0]);
    compositions<1>(comp[1]);
    compositions<2>(comp[2]);
    int nops = int(comp[0].size()) - 1;

    mc::Harness h;
    h.name = "policies";
    h.counters = {"calls", "spied", "fatal_errors", "compositions"};
    // a case: combination, ops; or -1 - start, 0, ops; or -1 - start, 1, op, op
    h.run = [&](mc::Explorer& ex, const mc::Case& c) {
        if (c[0] >= 0)
            all[c[0]].run(ex, c);
        else
            comp[-1 - c[0]][0].run(ex, c);
    };
    h.describe = [&](const mc::Case& c) {
        static const char* ops[] = {
            "initialize()", "initialize(Opt, trace())", "initialize(n2216())",
            "initialize(n2216(), Opt)", "initialize(Opt, trace(false))",
            "finalize()", "finalize(Opt)", "finalize(Opt, trace())"};
        std::string s;
        if (c[0] >= 0) {
            s = all[c[0]].name + ":";
            for (std::size_t i = 1; i < c.size(); ++i)
                s += std::string(" ") + ops[c[i]];
        } else {
            auto& k = comp[-1 - c[0]];
            s = k[0].name + (c[1] ? " in one go:" : ":");
            for (std::size_t i = 2; i < c.size(); ++i)
                s += " " + k[1 + c[i]].name;
        }
        return s;
    };
    h.enumerate = [&](mc::Explorer& ex) {
        int depth = ex.thorough ? 4 : 3;
        for (int d = 1; d <= depth; ++d)
            for (int k = 0; k < ncombos; ++k) {
                if (!all[k].valid)
                    continue;
                // all the sequences of d operations, from 8
                int total = 1 << 3 * d;
                for (int x = 0; x < total; ++x) {
                    mc::Case c{k};
                    bool ok = true;
                    for (int i = 0; i < d; ++i) {
                        int op = x >> 3 * i & 7;
                        c.push_back(op);
                        ok = ok && (ex.thorough || (op != 2 && op != 3));
                    }
                    if (ok)
                        ex.consider(c);
                }
            }
        for (int s = 0; s < TPARTS; ++s) {
            ex.consider({-1 - s, 0});
            for (int a = 0; a < nops; ++a) {
                ex.consider({-1 - s, 0, a});
                for (int b = 0; b < nops; ++b) {
                    ex.consider({-1 - s, 0, a, b});
                    ex.consider({-1 - s, 1, a, b});
                    for (int c = 0; ex.thorough && c < nops; ++c)
                        ex.consider({-1 - s, 0, a, b, c});
                }
            }
        }
    };
    return mc::main(argc, argv, h);
}
#endif
