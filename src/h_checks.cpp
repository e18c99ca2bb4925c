// C13: every sequence of initialize, finalize, and uses - correct or not - up to
// a depth; the error reported by each step is compared with the one that a small
// state machine (uninitialized, or initialized with a set of classes) expects.
#include "dyn.hpp"

#include <boost/openmethod/inplace_vptr.hpp>
#include <boost/openmethod/interop/std_shared_ptr.hpp>
#include <boost/openmethod/interop/std_unique_ptr.hpp>

#include <map>

using namespace dyn;

constexpr int NCLS = 4; // ids 0..3; which are registered depends on the config
// a configuration: bit mask of the registered classes; 1, 2, 3 derive from 0
constexpr unsigned CONFIGS[] = {0b0111, 0b1011, 0b0011};
constexpr int NCONFIG = 3;

// the lowest ids are those of the classes with an in-place v-table pointer
constexpr int BASE = 2;
inline type_id kid(int c) {
    return cls_id(c + BASE);
}
inline int unkid(type_id t) {
    return id_cls(t) - BASE;
}

struct Errors {
    Err kind = Err::none;
    type_id type = nullptr, stat = nullptr, dynamic = nullptr;
    int count = 0;
};
inline Errors err;
// set once the virtual_ptr has been created, before it is used in a call
inline bool created;
template<class T>
T&& made(T&& t) {
    created = true;
    return std::forward<T>(t);
}

struct Stop {};

struct check_handler : pol::error_handler {
    template<class Registry>
    struct fn {
        [[noreturn]] static void note(Err k) {
            err.kind = k;
            ++err.count;
            throw Stop();
        }
        static void error(const bom::not_initialized&) {
            note(Err::not_initialized);
        }
        static void error(const bom::missing_class& e) {
            err.type = e.type;
            note(Err::missing_class);
        }
        static void error(const bom::missing_base&) {
            note(Err::missing_base);
        }
        static void error(const bom::no_overrider&) {
            note(Err::no_overrider);
        }
        static void error(const bom::ambiguous_call&) {
            note(Err::ambiguous);
        }
        static void error(const bom::final_error& e) {
            err.stat = e.static_type;
            err.dynamic = e.dynamic_type;
            note(Err::final_error);
        }
        static void error(const bom::odr_violation&) {
            note(Err::odr);
        }
        static void error(const pol::fast_perfect_hash::search_error&) {
            note(Err::search_error);
        }
    };
};

enum class Kind { hash, vector, map, tree };

struct tree_map {
    template<class K, class V>
    using fn = std::map<K, V>;
};

enum class K2 { init, fail, finalize, use };

struct Model {
    bool ready = false;
    unsigned mask = 0;
    int epoch = 0;
    int kept = -1; // class of the object designated by the virtual_ptr we keep
    int kept_epoch = -1;
    bool has(int c) const {
        return (mask >> c) & 1;
    }
};

struct Expect {
    bool applicable = true;
    Err kind = Err::none;
    int value = 0;               // when no error
    unsigned types = 0;          // acceptable classes in missing_class
    int stat = -1, dynamic = -1; // final_error
};

template<Kind K, bool Indirect>
struct World {
    using Policies = mp11::mp_append<
        mp11::mp_list<dyn_rtti, check_handler, null_output, pol::runtime_checks>,
        std::conditional_t<
            K == Kind::hash,
            mp11::mp_list<pol::vptr_vector, pol::fast_perfect_hash>,
            std::conditional_t<
                K == Kind::vector, mp11::mp_list<pol::vptr_vector>,
                std::conditional_t<
                    K == Kind::map, mp11::mp_list<pol::vptr_map<>>,
                    mp11::mp_list<pol::vptr_map<tree_map>>>>>,
        std::conditional_t<
            Indirect, mp11::mp_list<pol::indirect_vptr>, mp11::mp_list<>>>;
    struct R : mp11::mp_apply<bom::registry, Policies> {};

    struct X {
        using dyn_tag = X;
        static type_id dyn_id() {
            return kid(0);
        }
        type_id id;
        explicit X(int c = 0) : id(kid(c)) {
        }
    };
    template<int I>
    struct C : X {
        using dyn_tag = C;
        inline static type_id the_id = kid(I);
        static type_id dyn_id() {
            return the_id;
        }
        explicit C(int c = I) : X(c) {
        }
    };
    // class 1, as seen by the overriders
    struct D1 : X {
        using dyn_tag = D1;
        inline static type_id the_id = kid(1);
        static type_id dyn_id() {
            return the_id;
        }
    };

    struct IX : bom::inplace_vptr_base<IX, R> {
        using dyn_tag = IX;
        static type_id dyn_id() {
            return cls_id(0);
        }
        type_id id = cls_id(0);
    };
    struct I1 : IX, bom::inplace_vptr_derived<I1, IX> {
        using dyn_tag = I1;
        static type_id dyn_id() {
            return cls_id(1);
        }
        I1() {
            this->id = cls_id(1);
        }
    };

    template<class T>
    using VP = bom::virtual_ptr<T, R>;
    template<class T>
    using SVP = bom::shared_virtual_ptr<T, R>;
    template<class T>
    using UVP = bom::unique_virtual_ptr<T, R>;

    struct RefId;
    using Ref = bom::method<RefId, int(bom::virtual_<X&>), R>;
    static int ref0(X&) {
        return 0;
    }
    static int ref1(D1&) {
        return 1;
    }
    struct PtrId;
    using Ptr = bom::method<PtrId, int(VP<X>), R>;
    static int ptr0(VP<X>) {
        return 0;
    }
    static int ptr1(VP<D1>) {
        return 1;
    }
    struct RawId;
    using Raw = bom::method<RawId, int(int, bom::virtual_<const X*>), R>;
    static int raw0(int, const X*) {
        return 0;
    }
    static int raw1(int, const D1*) {
        return 1;
    }
    struct ShId;
    using Sh = bom::method<ShId, int(const SVP<X>&), R>;
    static int sh0(const SVP<X>&) {
        return 0;
    }
    static int sh1(const SVP<D1>&) {
        return 1;
    }
    struct MixId;
    using Mix = bom::method<MixId, int(bom::virtual_<X&>, int, VP<X>), R>;
    static int mix00(X&, int, VP<X>) {
        return 0;
    }
    static int mix10(D1&, int, VP<X>) {
        return 1;
    }
    static int mix01(X&, int, VP<D1>) {
        return 2;
    }
    static int mix11(D1&, int, VP<D1>) {
        return 3;
    }

    struct InRefId;
    using InRef = bom::method<InRefId, int(bom::virtual_<IX&>), R>;
    static int in0(IX&) {
        return 0;
    }
    static int in1(I1&) {
        return 1;
    }
    struct InPtrId;
    using InPtr = bom::method<InPtrId, int(VP<IX>), R>;
    static int inp0(VP<IX>) {
        return 0;
    }
    static int inp1(VP<I1>) {
        return 1;
    }

    static void install() {
        static typename InRef::template override<in0, in1> o6;
        static typename InPtr::template override<inp0, inp1> o7;
        (void)&o6, (void)&o7;
        // first: X is the type that represents class 0
        static bom::use_classes<X, R> x;
        static bom::use_classes<C<1>, X, R> c1;
        static bom::use_classes<C<2>, X, R> c2;
        static bom::use_classes<C<3>, X, R> c3;
        static typename Ref::template override<ref0, ref1> o1;
        static typename Ptr::template override<ptr0, ptr1> o2;
        static typename Raw::template override<raw0, raw1> o3;
        static typename Sh::template override<sh0, sh1> o4;
        static typename Mix::template override<mix00, mix10, mix01, mix11> o5;
        (void)&x, (void)&c1, (void)&c2, (void)&c3;
        (void)&o1, (void)&o2, (void)&o3, (void)&o4, (void)&o5;
    }

    // a class that is not in the configuration is given the id of class 0
    // during initialize
    static void initialize(unsigned mask, bool fail) {
        C<2>::the_id = kid((mask >> 2) & 1 ? 2 : 0);
        C<3>::the_id = kid((mask >> 3) & 1 ? 3 : 0);
        D1::the_id = kid(fail ? 50 : 1);
        struct Restore {
            ~Restore() {
                C<2>::the_id = kid(2);
                C<3>::the_id = kid(3);
                D1::the_id = kid(1);
            }
        } r;
        bom::initialize<R>();
    }

    static inline VP<X>* kept; // never destroyed
    static inline X* objs[NCLS];

    struct Op {
        std::string name;
        std::function<Expect(Model&)> model; // may change the model
        std::function<int()> run;
        bool state_op = false;
    };
    static inline std::vector<Op> ops;

    // does the vptr policy promise to identify an unregistered class?
    static bool identifies(const Model& m, int c) {
        if (K != Kind::vector)
            return true;
        for (int i = c; i < NCLS; ++i)
            if (m.has(i))
                return false;
        return true;
    }

    static Expect lookup(const Model& m, std::initializer_list<int> cs, int value) {
        Expect e;
        if (!m.ready) {
            e.kind = Err::not_initialized;
            return e;
        }
        e.value = value;
        for (int c : cs)
            if (!m.has(c)) {
                if (!identifies(m, c))
                    e.applicable = false;
                e.kind = Err::missing_class;
                e.types |= 1u << c;
            }
        return e;
    }

    static void use(
        std::string name, std::function<Expect(const Model&)> model,
        std::function<int()> run) {
        ops.push_back({name, [model](Model& m) { return model(m); }, run, false});
    }

    template<int I>
    using Cls = std::conditional_t<I == 0, X, C<I>>;

    template<int I>
    static void final_ops() {
        auto n = std::to_string(I);
        auto good = [](const Model& m) {
            Expect e;
            if (!m.ready)
                e.kind = Err::not_initialized;
            else if (!m.has(I))
                e.applicable = false; // static_vptr is not set
            else
                e.value = I == 1;
            return e;
        };
        use("final(C" + n + ")", good, [] {
            Cls<I> o(I);
            return Ptr::fn(made(bom::final_virtual_ptr<R>(o)));
        });
        use("make_shared_virtual(C" + n + ")", good, [] {
            return Sh::fn(made(bom::make_shared_virtual<Cls<I>, R>(I)));
        });
        use("make_unique_virtual(C" + n + ")", good, [] {
            UVP<X> p = bom::make_unique_virtual<Cls<I>, R>(I);
            made(p);
            return Ptr::fn(VP<X>(p));
        });
        for (int d = 0; d < NCLS; ++d) {
            if (d == I)
                continue;
            auto wrong = [d](const Model& m) {
                Expect e;
                e.kind = m.ready ? Err::final_error : Err::not_initialized;
                e.stat = I;
                e.dynamic = d;
                return e;
            };
            auto nn = n + ") on C" + std::to_string(d);
            use("final(C" + nn, wrong, [d] {
                Cls<I> o(d);
                auto p = bom::final_virtual_ptr<R>(o);
                return 100;
            });
            use("virtual_ptr::final(C" + nn, wrong, [d] {
                Cls<I> o(d);
                auto p = VP<Cls<I>>::final(o);
                return 100;
            });
            use("final(shared_ptr C" + nn, wrong, [d] {
                auto p = bom::final_virtual_ptr<R>(std::make_shared<Cls<I>>(d));
                return 100;
            });
        }
    }

    template<class T>
    static void inplace_ops(std::string n, int v) {
        auto exp = [v](const Model& m) {
            Expect e;
            if (!m.ready)
                e.kind = Err::not_initialized;
            e.value = v;
            return e;
        };
        use("in-place ref(" + n + ")", exp, [] {
            T o;
            return InRef::fn(o);
        });
        use("virtual_ptr(in-place " + n + ")", exp, [] {
            T o;
            VP<IX> p(o);
            made(p);
            return InPtr::fn(p);
        });
        use("virtual_ptr = (in-place " + n + ")", exp, [] {
            T o;
            VP<IX> p(nullptr);
            p = &o;
            made(p);
            return InPtr::fn(p);
        });
        use("shared(in-place " + n + ")", exp, [] {
            SVP<IX> p(std::make_shared<T>());
            made(p);
            return InPtr::fn(VP<IX>(p));
        });
    }

    static void prepare() {
        install();
        for (int c = 0; c < NCLS; ++c)
            objs[c] = new X(c);
        kept = new VP<X>(nullptr);
        for (int k = 0; k < NCONFIG; ++k)
            ops.push_back(
                {"initialize(" + std::to_string(k) + ")",
                 [k](Model& m) {
                     m.ready = true;
                     m.mask = CONFIGS[k];
                     ++m.epoch;
                     return Expect();
                 },
                 [k] {
                     initialize(CONFIGS[k], false);
                     return 0;
                 },
                 true});
        ops.push_back(
            {"initialize(unregistered class)",
             [](Model& m) {
                 Expect e;
                 e.applicable = !m.ready;
                 e.kind = Err::missing_class;
                 return e;
             },
             [] {
                 initialize(CONFIGS[0], true);
                 return 0;
             },
             true});
        ops.push_back(
            {"finalize",
             [](Model& m) {
                 m.ready = false;
                 m.mask = 0;
                 ++m.epoch;
                 return Expect();
             },
             [] {
                 bom::finalize<R>();
                 return 0;
             },
             true});
        for (int c = 0; c < NCLS; ++c) {
            int v = c == 1;
            auto n = std::to_string(c);
            auto exp = [c, v](const Model& m) { return lookup(m, {c}, v); };
            use("ref(" + n + ")", exp, [c] { return Ref::fn(*objs[c]); });
            use("ref operator()(" + n + ")", exp,
                [c] { return Ref::fn.operator()(*objs[c]); });
            use("raw(" + n + ")", exp, [c] { return Raw::fn(5, objs[c]); });
            use("ptr from ref(" + n + ")", exp, [c] { return Ptr::fn(*objs[c]); });
            use("virtual_ptr(" + n + ")", exp, [c] {
                VP<X> p(objs[c]);
                made(p);
                return Ptr::fn(p);
            });
            use("virtual_ptr = (" + n + ")", exp, [c] {
                VP<X> p(nullptr);
                p = *objs[c];
                made(p);
                return Ptr::fn(p);
            });
            use("shared(" + n + ")", exp,
                [c] { return Sh::fn(std::make_shared<X>(c)); });
            use("shared lvalue(" + n + ")", exp, [c] {
                auto s = std::make_shared<X>(c);
                SVP<X> p(s);
                made(p);
                return Sh::fn(p);
            });
            use("shared = (" + n + ")", exp, [c] {
                SVP<X> p;
                p = std::make_shared<X>(c);
                made(p);
                return Sh::fn(p);
            });
            use("unique(" + n + ")", exp, [c] {
                UVP<X> p(std::make_unique<X>(c));
                made(p);
            return Ptr::fn(VP<X>(p));
            });
            for (int d = 0; d < NCLS; ++d)
                use("mix(" + n + "," + std::to_string(d) + ")",
                    [c, d](const Model& m) {
                        return lookup(m, {c, d}, (c == 1) + 2 * (d == 1));
                    },
                    [c, d] { return Mix::fn(*objs[c], 7, *objs[d]); });
            ops.push_back(
                {"keep(" + n + ")",
                 [c](Model& m) {
                     auto e = lookup(m, {c}, 0);
                     if (e.applicable && e.kind == Err::none) {
                         m.kept = c;
                         m.kept_epoch = m.epoch;
                     }
                     return e;
                 },
                 [c] {
                     *kept = *objs[c];
                     return 0;
                 },
                 true});
        }
        auto kept_model = [](const Model& m, bool first) {
            Expect e;
            e.applicable = m.kept >= 0 &&
                (!m.ready || m.kept_epoch == m.epoch ||
                 (Indirect && m.has(m.kept)));
            if (!m.ready)
                e.kind = Err::not_initialized;
            e.value = (m.kept == 1) * (first ? 1 : 2);
            return e;
        };
        use("ptr(kept)", [=](const Model& m) { return kept_model(m, true); },
            [] { return Ptr::fn(*kept); });
        use("mix(0,kept)", [=](const Model& m) { return kept_model(m, false); },
            [] { return Mix::fn(*objs[0], 7, *kept); });
        use("copy kept", [=](const Model& m) {
                auto e = kept_model(m, true);
                return e;
            },
            [] {
                VP<X> p(*kept), q(nullptr);
                q = p;
                return Ptr::fn(q);
            });
        inplace_ops<IX>("base", 0);
        inplace_ops<I1>("derived", 1);
        final_ops<0>();
        final_ops<1>();
        final_ops<2>();
        final_ops<3>();
    }

    // returns false if an operation was not applicable
    static bool run(mc::Explorer& ex, const mc::Case& c, std::size_t from) {
        bom::finalize<R>();
        *kept = nullptr;
        Model m;
        for (std::size_t i = from; i < c.size(); ++i) {
            if (c[i] >= 0) {
                if (!step(ex, m, ops[c[i]]))
                    return false;
            } else {
                // every use, in this state
                for (auto& o : ops)
                    if (!o.state_op)
                        step(ex, m, o);
            }
        }
        ex.state(mc::mix(
            mc::mix(m.ready * 64 + m.mask, m.kept),
            m.kept >= 0 && m.kept_epoch == m.epoch));
        ex.trace_ok();
        return true;
    }

    static bool step(mc::Explorer& ex, Model& m, Op& o) {
        auto e = o.model(m);
        if (!e.applicable)
            return false;
        err = Errors();
        int r = -1;
        bool thrown = false;
        created = false;
        try {
            r = o.run();
        } catch (Stop&) {
            thrown = true;
        }
        ex.transition();
        ex.count(int(e.kind) < 9 ? int(e.kind) : 0);
        auto n = o.name.c_str();
        if (err.kind != e.kind)
            mc::fail(
                "%s: %s reported, should be %s", n, err_name(err.kind),
                err_name(e.kind));
        if (e.kind == Err::none) {
            if (r != e.value)
                mc::fail("%s: result is %d, should be %d", n, r, e.value);
            return true;
        }
        if (created)
            mc::fail("%s: the virtual_ptr is created nonetheless", n);
        if (!thrown || err.count != 1)
            mc::fail("%s: error reported %d times", n, err.count);
        if (e.kind == Err::missing_class && e.types) {
            int t = unkid(err.type);
            if (t < 0 || t >= NCLS || !((e.types >> t) & 1))
                mc::fail("%s: missing_class reports type %d", n, t);
        }
        if (e.kind == Err::final_error &&
            (err.stat != kid(e.stat) || err.dynamic != kid(e.dynamic)))
            mc::fail(
                "%s: final_error reports static type %d and dynamic type %d", n,
                unkid(err.stat), unkid(err.dynamic));
        return true;
    }

    static std::string describe(const mc::Case& c) {
        static const char* kinds[] = {
            "vptr_vector, fast_perfect_hash", "vptr_vector", "vptr_map",
            "vptr_map over std::map"};
        std::string s = std::string(kinds[int(K)]) +
            (Indirect ? ", indirect_vptr" : "") + ", runtime_checks:";
        for (std::size_t i = 1; i < c.size(); ++i)
            s += std::string(i > 1 ? "; " : " ") +
                (c[i] < 0 ? "every use" : ops[c[i]].name);
        return s;
    }
    static std::vector<int> state_ops() {
        std::vector<int> r;
        for (int i = 0; i < int(ops.size()); ++i)
            if (ops[i].state_op)
                r.push_back(i);
        return r;
    }
    static int nops() {
        return int(ops.size());
    }
};

struct Config {
    void (*prepare)();
    bool (*run)(mc::Explorer&, const mc::Case&, std::size_t);
    std::string (*describe)(const mc::Case&);
    std::vector<int> (*state_ops)();
    int (*nops)();
};
template<Kind K, bool I>
Config config() {
    using W = World<K, I>;
    return {W::prepare, W::run, W::describe, W::state_ops, W::nops};
}

std::vector<Config> configs0();
std::vector<Config> configs1();
std::vector<Config> configs2();
std::vector<Config> configs3();

#ifndef PART
#define PART -1
#endif
#if PART == 0
std::vector<Config> configs0() {
    return {config<Kind::hash, false>(), config<Kind::hash, true>()};
}
#elif PART == 1
std::vector<Config> configs1() {
    return {config<Kind::vector, false>(), config<Kind::vector, true>()};
}
#elif PART == 2
std::vector<Config> configs2() {
    return {config<Kind::map, false>(), config<Kind::map, true>()};
}
#elif PART == 3
std::vector<Config> configs3() {
    return {config<Kind::tree, false>(), config<Kind::tree, true>()};
}
#else
int main(int argc, char** argv) {
    std::vector<Config> configs;
    for (auto& v : {configs0(), configs1(), configs2(), configs3()})
        for (auto& c : v)
            configs.push_back(c);
    for (auto& c : configs)
        c.prepare();
    mc::Harness h;
    h.name = "checks";
    h.counters = {"no_error",  "not_initialized", "missing_class",
                  "missing_base", "no_overrider", "ambiguous",
                  "final_error"};
    bool ok = true;
    h.run = [&](mc::Explorer& ex, const mc::Case& c) {
        ok = configs[c[0]].run(ex, c, 1);
    };
    h.describe = [&](const mc::Case& c) { return configs[c[0]].describe(c); };
    h.enumerate = [&](mc::Explorer& ex) {
        for (int w = 0; w < int(configs.size()); ++w) {
            int n = configs[w].nops();
            auto so = configs[w].state_ops();
            // 1. all sequences of operations
            int depth = ex.thorough ? 4 : 3;
            std::function<void(mc::Case&, bool)> rec = [&](mc::Case& c, bool mine) {
                for (int o = 0; o < n; ++o) {
                    c.push_back(o);
                    bool m = mine;
                    if (c.size() == 3)
                        m = ex.mine();
                    if (m) {
                        if (ex.sh->stop.load())
                            _exit(0);
                        ex.exec(c);
                        if (ok && int(c.size()) <= depth)
                            rec(c, true);
                    } else if (c.size() == 2)
                        rec(c, false);
                    c.pop_back();
                }
            };
            mc::Case c{w};
            rec(c, false);
            // 2. longer sequences of the operations that change the state,
            // every use being tried at the end
            int sd = ex.thorough ? 7 : 5;
            std::function<void(mc::Case&)> rec2 = [&](mc::Case& c) {
                auto d = c;
                d.push_back(-1);
                ex.consider(d);
                if (int(c.size()) > sd)
                    return;
                for (int o : so) {
                    c.push_back(o);
                    rec2(c);
                    c.pop_back();
                }
            };
            rec2(c);
        }
    };
    return mc::main(argc, argv, h);
}
#endif
