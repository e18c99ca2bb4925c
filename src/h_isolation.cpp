// C11: two registries sharing classes and methods.  Every interleaving of
// operations on both, up to a depth; each registry must behave as the state
// machine that only knows about the operations on that registry.
#include <boost/openmethod.hpp>
#include <boost/openmethod/initialize.hpp>
#include <boost/openmethod/inplace_vptr.hpp>
#include <boost/openmethod/interop/std_shared_ptr.hpp>
#include <boost/openmethod/policies/default_error_handler.hpp>
#include <boost/openmethod/policies/vptr_map.hpp>

#include "mc.hpp"

namespace bom = boost::openmethod;
namespace pol = boost::openmethod::policies;
namespace mp11 = boost::mp11;

template<class T>
struct marker {
    using category = marker;
    template<class R>
    struct fn {};
};
struct null_stream {
    std::uint64_t bytes = 0;
    template<class T>
    null_stream& operator<<(const T&) {
        ++bytes;
        return *this;
    }
};
struct null_output : pol::output {
    template<class R>
    struct fn {
        inline static null_stream os;
    };
};

struct A {
    int cls = 0;
    virtual ~A() = default;
};
struct B : A {
    B() {
        cls = 1;
    }
};
struct C : A {
    C() {
        cls = 2;
    }
};
struct D : B {
    D() {
        cls = 3;
    }
};

// thrown by the error handlers of registry `reg`, when handler `h` is set
struct Thrown {
    int reg, handler, kind;
};
enum { NONE, NOT_INIT, MISSING, NO_OVR, AMBIG, OTHER };
inline const char* kind_name(int k) {
    static const char* n[] = {"none", "not_initialized", "missing_class",
                              "no_overrider", "ambiguous_call", "another error"};
    return n[k];
}

struct One { // one registry, type-erased
    bool checks, indirect;
    std::function<void()> init, fin;
    std::function<void(int)> set_handler;
    std::function<int(int)> uni, ptr, next, inplace;
    std::function<int(int, int)> bi;
    std::function<void(int)> keep;
    std::function<int()> kept, kept_shared;
    std::function<void()> drop;
    std::function<std::uint64_t()> output_bytes;
    bool traced = false;
};

struct UniId;
struct BiId;
struct PtrId;
struct ShId;
struct InId;

inline A* objs[4];

template<class... P>
using mk = bom::registry<P...>;

template<class R1, class R2>
struct Pair {
    struct IA : bom::inplace_vptr_base<IA, R1> {
        virtual ~IA() = default;
    };
    struct IB : IA, bom::inplace_vptr_derived<IB, IA> {};
    static inline IA* iobjs[2];

    // the same classes, names, signatures and overriders in both registries
    template<class R, int WHICH>
    struct Side {
        template<class T>
        using VP = bom::virtual_ptr<T, R>;
        using Uni = bom::method<UniId, int(bom::virtual_<A&>), R>;
        using Bi = bom::method<BiId, int(bom::virtual_<A&>, bom::virtual_<A&>), R>;
        using Ptr = bom::method<PtrId, int(VP<A>), R>;
        using Sh = bom::method<ShId, int(bom::shared_virtual_ptr<A, R>), R>;
        using In = bom::method<InId, int(bom::virtual_<IA&>), R>;

        static int uni_a(A&) {
            return WHICH * 100 + 0;
        }
        static int uni_b(B& b) {
            // next is uni_a
            return WHICH * 100 + 10 + Uni::template next<uni_b>(b) % 100;
        }
        static int uni_c(C& c) {
            return WHICH * 100 + 20 + Uni::template next<uni_c>(c) % 100;
        }
        static int bi_aa(A&, A&) {
            return WHICH * 100;
        }
        static int bi_ab(A&, B&) {
            return WHICH * 100 + 1;
        }
        static int bi_ba(B&, A&) {
            return WHICH * 100 + 2;
        }
        static int bi_ac(A&, C&) {
            return WHICH * 100 + 3;
        }
        static int ptr_a(VP<A>) {
            return WHICH * 100;
        }
        static int ptr_b(VP<B>) {
            return WHICH * 100 + 1;
        }
        static int ptr_c(VP<C>) {
            return WHICH * 100 + 2;
        }
        static int sh_a(bom::shared_virtual_ptr<A, R>) {
            return WHICH * 100;
        }
        static int sh_b(bom::shared_virtual_ptr<B, R>) {
            return WHICH * 100 + 1;
        }
        static int sh_c(bom::shared_virtual_ptr<C, R>) {
            return WHICH * 100 + 2;
        }
        static int in_a(IA&) {
            return WHICH * 100;
        }
        static int in_b(IB&) {
            return WHICH * 100 + 1;
        }

        static void install() {
            if constexpr (WHICH == 1) {
                // D is not registered; overriders for B
                static bom::use_classes<A, B, C, R> u;
                static typename Uni::template override<uni_a, uni_b> o1;
                static typename Bi::template override<bi_aa, bi_ab, bi_ba> o2;
                static typename Ptr::template override<ptr_a, ptr_b> o3;
                static typename Sh::template override<sh_a, sh_b> o4;
                (void)&u, (void)&o1, (void)&o2, (void)&o3, (void)&o4;
            } else {
                // no overrider for (A, A); overriders for C
                static bom::use_classes<D, B, A, R> u;
                static bom::use_classes<C, A, R> u2;
                static bom::use_classes<IA, IB, R> u3;
                static typename Uni::template override<uni_c, uni_a> o1;
                static typename Bi::template override<bi_ac, bi_ba> o2;
                static typename Ptr::template override<ptr_c, ptr_a> o3;
                static typename Sh::template override<sh_c, sh_a> o4;
                (void)&u, (void)&u2, (void)&u3, (void)&o1, (void)&o2, (void)&o3,
                    (void)&o4;
            }
            static typename In::template override<in_a, in_b> o5;
            (void)&o5;
        }

        static inline VP<A>* kept;
        static inline bom::shared_virtual_ptr<A, R>* shared;

        struct visitor {
            int h;
            [[noreturn]] void operator()(const bom::not_initialized&) const {
                throw Thrown{WHICH, h, NOT_INIT};
            }
            [[noreturn]] void operator()(const bom::missing_class&) const {
                throw Thrown{WHICH, h, MISSING};
            }
            [[noreturn]] void operator()(const bom::no_overrider&) const {
                throw Thrown{WHICH, h, NO_OVR};
            }
            [[noreturn]] void operator()(const bom::ambiguous_call&) const {
                throw Thrown{WHICH, h, AMBIG};
            }
            template<class T>
            [[noreturn]] void operator()(const T&) const {
                throw Thrown{WHICH, h, OTHER};
            }
        };

        static One erase() {
            One o;
            o.checks = R::has_runtime_checks;
            o.indirect = R::has_indirect_vptr;
            o.init = [] { bom::initialize<R>(); };
            o.fin = [] { bom::finalize<R>(); };
            o.set_handler = [](int h) {
                R::error_handler::set([h](const auto& e) {
                    std::visit(visitor{h}, e);
                });
            };
            o.uni = [](int c) { return Uni::fn(*objs[c]); };
            o.ptr = [](int c) { return Ptr::fn(VP<A>(*objs[c])); };
            o.next = [](int c) {
                bool has = WHICH == 1 ? Uni::template has_next<uni_b>()
                                      : Uni::template has_next<uni_c>();
                return has;
            };
            o.inplace = [](int c) { return In::fn(*iobjs[c]); };
            o.bi = [](int c, int d) { return Bi::fn(*objs[c], *objs[d]); };
            o.keep = [](int c) {
                *kept = *objs[c];
                *shared = c == 0 ? std::make_shared<A>()
                    : c == 1     ? std::shared_ptr<A>(std::make_shared<B>())
                    : c == 2     ? std::shared_ptr<A>(std::make_shared<C>())
                                 : std::shared_ptr<A>(std::make_shared<D>());
            };
            o.kept = [] { return Ptr::fn(*kept); };
            o.kept_shared = [] { return Sh::fn(*shared); };
            o.drop = [] {
                *kept = nullptr;
                *shared = nullptr;
            };
            return o;
        }
        static void prepare() {
            install();
            kept = new VP<A>(nullptr);
            shared = new bom::shared_virtual_ptr<A, R>();
        }
    };

    static std::vector<One> make() {
        return {Side<R1, 1>::erase(), Side<R2, 2>::erase()};
    }
    static void prepare() {
        Side<R1, 1>::prepare();
        Side<R2, 2>::prepare();
        iobjs[0] = nullptr;
    }
    static void objects() {
        // in-place objects take the current v-table pointers of R1
        delete iobjs[0];
        delete iobjs[1];
        iobjs[0] = new IA;
        iobjs[1] = new IB;
    }
};

struct State { // of one registry
    bool ready = false;
    int handler = 0;
    int kept = -1;
    int epoch = 0, kept_epoch = -1;
    bool keepable() const {
        return kept >= 0;
    }
};

struct Config {
    void (*prepare)();
    std::vector<One> (*make)();
    void (*objects)();
    const char* name;
};

template<class R1, class R2>
Config config(const char* name) {
    using P = Pair<R1, R2>;
    return {P::prepare, P::make, P::objects, name};
}

using Hash = mp11::mp_list<pol::vptr_vector, pol::fast_perfect_hash>;
using Map = mp11::mp_list<pol::vptr_map<>>;

// N: distinguishes the pairs
template<class V, bool Indirect, bool Checks, int N>
struct policies {
    using list = mp11::mp_append<
        mp11::mp_list<pol::std_rtti, pol::default_error_handler, null_output>, V,
        std::conditional_t<
            Indirect, mp11::mp_list<pol::indirect_vptr>, mp11::mp_list<>>,
        std::conditional_t<
            Checks, mp11::mp_list<pol::runtime_checks>, mp11::mp_list<>>,
        mp11::mp_list<marker<mp11::mp_int<N>>>>;
    using type = mp11::mp_apply<bom::registry, list>;
};
template<class V, bool I, bool C, int N>
struct Reg : policies<V, I, C, N>::type {};

std::vector<Config> configs0();
std::vector<Config> configs1();
std::vector<Config> configs2();
std::vector<Config> configs3();

#ifndef PART
#define PART -1
#endif
#if PART == 0
std::vector<Config> configs0() {
    return {
        config<Reg<Hash, false, true, 1>, Reg<Hash, false, true, 2>>(
            "both with fast_perfect_hash and runtime_checks"),
        config<Reg<Hash, false, false, 3>, Reg<Hash, false, false, 4>>(
            "both with fast_perfect_hash")};
}
#elif PART == 1
std::vector<Config> configs1() {
    return {
        config<Reg<Map, false, true, 5>, Reg<Map, false, true, 6>>(
            "both with vptr_map and runtime_checks"),
        config<Reg<Hash, true, false, 7>, Reg<Hash, true, false, 8>>(
            "both with fast_perfect_hash and indirect_vptr")};
}
#elif PART == 2
// as users write them: one registry made from the other
struct R9 : policies<Hash, false, true, 9>::type {};
struct R10 : R9::with<pol::indirect_vptr> {};
struct R11 : policies<Hash, false, true, 11>::type {};
struct R12 : R11::without<pol::runtime_checks> {};
std::vector<Config> configs2() {
    return {
        config<R9, R10>("fast_perfect_hash, runtime_checks; with<indirect_vptr>"),
        config<R11, R12>("fast_perfect_hash, runtime_checks; without<runtime_checks>")};
}
#elif PART == 3
struct R13 : policies<Map, true, true, 13>::type {};
struct R14 : R13::with<pol::vptr_vector, pol::fast_perfect_hash> {};
struct D1 : bom::default_registry::with<null_output> {};
struct D2 : bom::indirect_registry::with<null_output> {};
std::vector<Config> configs3() {
    return {
        config<R13, R14>(
            "vptr_map, indirect_vptr, runtime_checks; with<vptr_vector, fast_perfect_hash>"),
        config<D1, D2>("default_registry; indirect_registry")};
}
#else

struct Op {
    const char* name;
    int kind; // 0 init, 1 finalize, 2 keep, 3 set handler
    int arg;
};
static const Op OPS[] = {
    {"initialize", 0, 0},   {"finalize", 1, 0},      {"keep(B)", 2, 1},
    {"keep(C)", 2, 2},      {"set_handler(1)", 3, 1},
};
constexpr int NOPS = 5;

int main(int argc, char** argv) {
    std::vector<Config> configs;
    for (auto& v : {configs0(), configs1(), configs2(), configs3()})
        for (auto& c : v)
            configs.push_back(c);
    std::vector<std::vector<One>> regs;
    for (auto& c : configs) {
        c.prepare();
        regs.push_back(c.make());
    }
    objs[0] = new A;
    objs[1] = new B;
    objs[2] = new C;
    objs[3] = new D;

    auto attempt = [](int which, int handler, auto f) -> int {
        try {
            return f();
        } catch (Thrown& t) {
            if (t.reg != which + 1)
                mc::fail(
                    "an error in registry %d is reported to the handler of "
                    "registry %d",
                    which + 1, t.reg);
            if (t.handler != handler)
                mc::fail(
                    "registry %d: the error handler called is not the one that "
                    "was set",
                    which + 1);
            return -t.kind;
        }
    };

    // expected results (kinds of errors are negative)
    auto exp_uni = [](int w, int c) {
        if (w == 0)
            return c == 3 ? -MISSING : c == 1 ? 110 : 100;
        return c == 2 ? 220 : 200;
    };
    auto exp_ptr = [](int w, int c) {
        if (w == 0)
            return c == 3 ? -MISSING : c == 1 ? 101 : 100;
        return c == 2 ? 202 : 200;
    };
    auto exp_bi = [](int w, int c, int d) {
        bool cb = c == 1 || c == 3, db = d == 1 || d == 3;
        if (w == 0) {
            if (c == 3 || d == 3)
                return -MISSING;
            return cb && db ? -AMBIG : cb ? 102 : db ? 101 : 100;
        }
        return cb && d == 2 ? -AMBIG : cb ? 202 : d == 2 ? 203 : -NO_OVR;
    };

    mc::Harness h;
    h.name = "isolation";
    h.counters = {"calls", "errors"};
    h.run = [&](mc::Explorer& ex, const mc::Case& c) {
        auto& rs = regs[c[0]];
        State st[2];
        for (int w = 0; w < 2; ++w) {
            rs[w].fin();
            rs[w].drop();
            rs[w].set_handler(0);
        }
        for (std::size_t i = 1; i < c.size(); ++i) {
            int w = c[i] / NOPS;
            auto& op = OPS[c[i] % NOPS];
            auto& s = st[w];
            auto& r = rs[w];
            ex.transition();
            if (op.kind == 0) {
                attempt(w, s.handler, [&] {
                    r.init();
                    return 0;
                });
                s.ready = true;
                ++s.epoch;
            } else if (op.kind == 1) {
                r.fin();
                s.ready = false;
                ++s.epoch;
            } else if (op.kind == 2) {
                if (!s.ready && !r.checks)
                    return;
                int e = attempt(w, s.handler, [&] {
                    r.keep(op.arg);
                    return 0;
                });
                if (e != (s.ready ? 0 : -NOT_INIT))
                    mc::fail(
                        "registry %d: creating a virtual_ptr: %s reported", w + 1,
                        kind_name(-e));
                if (s.ready) {
                    s.kept = op.arg;
                    s.kept_epoch = s.epoch;
                }
            } else {
                r.set_handler(op.arg);
                s.handler = op.arg;
            }
        }
        // now use both
        std::uint64_t hh = c[0];
        for (int w = 0; w < 2; ++w) {
            auto& s = st[w];
            auto& r = rs[w];
            hh = mc::mix(
                hh,
                s.ready * 100 + s.handler * 50 + (s.kept + 1) * 2 +
                    (s.kept >= 0 && s.kept_epoch == s.epoch));
            if (!s.ready && !r.checks)
                continue;
            auto expect = [&](const char* what, int got, int want) {
                ex.transition();
                ex.count(got < 0 ? 1 : 0);
                if (!s.ready)
                    want = -NOT_INIT;
                if (got != want)
                    mc::fail(
                        "registry %d: %s gives %d (%s), should give %d (%s)", w + 1,
                        what, got, got < 0 ? kind_name(-got) : "no error", want,
                        want < 0 ? kind_name(-want) : "no error");
            };
            for (int a = 0; a < 4; ++a) {
                // without runtime_checks, D cannot be passed to registry 1
                if (a == 3 && w == 0 && !r.checks)
                    continue;
                expect("call", attempt(w, s.handler, [&] { return r.uni(a); }), exp_uni(w, a));
                expect("call by virtual_ptr", attempt(w, s.handler, [&] { return r.ptr(a); }), exp_ptr(w, a));
                for (int b = 0; b < 4; ++b) {
                    if (b == 3 && w == 0 && !r.checks)
                        continue;
                    expect("call(2)", attempt(w, s.handler, [&] { return r.bi(a, b); }), exp_bi(w, a, b));
                }
            }
            if (s.ready) {
                expect("has_next", r.next(0), 1);
                if (w == 0)
                    configs[c[0]].objects();
                else if (!st[0].ready)
                    configs[c[0]].objects();
                for (int a = 0; a < 2; ++a)
                    expect("call on an in-place object", attempt(w, s.handler, [&] { return r.inplace(a); }), (w + 1) * 100 + a);
            }
            if (s.kept >= 0 &&
                (!s.ready || s.kept_epoch == s.epoch || r.indirect)) {
                expect("call by an old virtual_ptr", attempt(w, s.handler, [&] { return r.kept(); }), exp_ptr(w, s.kept));
                expect("call by an old shared_virtual_ptr", attempt(w, s.handler, [&] { return r.kept_shared(); }), exp_ptr(w, s.kept));
            }
        }
        ex.state(hh);
        ex.trace_ok();
    };
    h.describe = [&](const mc::Case& c) {
        std::string s = std::string(configs[c[0]].name) + ":";
        for (std::size_t i = 1; i < c.size(); ++i)
            s += std::string(i > 1 ? "; " : " ") + OPS[c[i] % NOPS].name + "<R" +
                std::to_string(c[i] / NOPS + 1) + ">";
        return s + "; then every use of both";
    };
    h.enumerate = [&](mc::Explorer& ex) {
        int depth = ex.thorough ? 6 : 5;
        for (int k = 0; k < int(configs.size()); ++k) {
            std::function<void(mc::Case&)> rec = [&](mc::Case& c) {
                ex.consider(c);
                if (int(c.size()) > depth)
                    return;
                for (int o = 0; o < 2 * NOPS; ++o) {
                    c.push_back(o);
                    rec(c);
                    c.pop_back();
                }
            };
            mc::Case c{k};
            rec(c);
        }
    };
    return mc::main(argc, argv, h);
}
#endif
