// C10: chains of configurations of a registry with indirect_vptr.  After each
// initialize, virtual_ptrs of all kinds, created at every earlier step, must be
// indistinguishable from fresh ones.
#include "dyn.hpp"

#include <deque>

#include <boost/openmethod/inplace_vptr.hpp>
#include <boost/openmethod/interop/boost_intrusive_ptr.hpp>
#include <boost/openmethod/interop/std_shared_ptr.hpp>
#include <boost/openmethod/interop/std_unique_ptr.hpp>
#include <boost/smart_ptr/intrusive_ref_counter.hpp>

using namespace dyn;

constexpr int NCLS = 4;

// a configuration: which of the classes 1..3 are registered, how they derive
// from each other (all derive from 0), and the overriders
struct Cfg {
    Poset p;       // on the 4 classes; only those of the mask matter
    unsigned mask; // includes class 0
    int o1;        // uni-method: overriders (0), (o1)
    int b1, b2;    // bi-method: overriders (0,0), (b1,b2)
    bool finalize_before = false;
};

inline const std::vector<Cfg>& all_cfgs() {
    static std::vector<Cfg> r = [] {
        std::vector<Cfg> r;
        for (unsigned sub = 0; sub < 8; ++sub) {
            std::vector<int> members;
            for (int i = 0; i < 3; ++i)
                if ((sub >> i) & 1)
                    members.push_back(i + 1);
            for (auto& q : all_posets(int(members.size()))) {
                Cfg c;
                c.mask = sub << 1 | 1;
                c.p.n = NCLS;
                for (int i = 0; i < NCLS; ++i)
                    c.p.up[i] = 1u << i;
                for (int i = 0; i < q.n; ++i) {
                    c.p.up[members[i]] = 1;
                    for (int j = 0; j < q.n; ++j)
                        if (q.leq(i, j))
                            c.p.up[members[i]] |= 1u << members[j];
                }
                auto all = members;
                all.insert(all.begin(), 0);
                for (int a : all)
                    for (int b : all) {
                        // (0) alone is expressed by o1 == 0: ambiguous for 0
                        c.o1 = a;
                        c.b1 = a;
                        c.b2 = b;
                        r.push_back(c);
                    }
            }
        }
        return r;
    }();
    return r;
}

constexpr int C_OLD = 0, C_FRESH = 1, C_REINIT = 2;

template<class Vptr, bool Checks>
struct World {
    using Policies = mp11::mp_append<
        mp11::mp_list<dyn_rtti, recording_handler, null_output, pol::indirect_vptr>,
        Vptr,
        std::conditional_t<
            Checks, mp11::mp_list<pol::runtime_checks>, mp11::mp_list<>>>;
    struct R : mp11::mp_apply<bom::registry, Policies> {};
    template<class T>
    using VP = bom::virtual_ptr<T, R>;
    using bom_R = R;

    struct X : boost::intrusive_ref_counter<X> {
        using dyn_tag = X;
        static type_id dyn_id() {
            return cls_id(0);
        }
        type_id id;
        explicit X(int c = 0) : id(cls_id(c)) {
        }
        X(const X& o) = default;
    };
    // T<I>: the class registered as I; T<0> is X
    template<int I>
    struct T : X {
        using dyn_tag = T;
        inline static type_id the_id = cls_id(I);
        static type_id dyn_id() {
            return the_id;
        }
        T() : X(I) {
        }
    };
    template<int K>
    struct O : X {
        using dyn_tag = O;
        inline static type_id the_id = cls_id(0);
        static type_id dyn_id() {
            return the_id;
        }
    };

    // classes with an in-place vptr; IX <- I1 <- I2, IX <- I3
    struct IX : bom::inplace_vptr_base<IX, R> {
        using dyn_tag = IX;
        static type_id dyn_id() {
            return cls_id(10);
        }
        type_id id = cls_id(10);
    };
    struct I1 : IX, bom::inplace_vptr_derived<I1, IX> {
        using dyn_tag = I1;
        static type_id dyn_id() {
            return cls_id(11);
        }
        I1() {
            this->id = cls_id(11);
        }
    };
    struct I2 : I1, bom::inplace_vptr_derived<I2, I1> {
        using dyn_tag = I2;
        static type_id dyn_id() {
            return cls_id(12);
        }
        I2() {
            this->id = cls_id(12);
        }
    };
    struct I3 : IX, bom::inplace_vptr_derived<I3, IX> {
        using dyn_tag = I3;
        static type_id dyn_id() {
            return cls_id(13);
        }
        I3() {
            this->id = cls_id(13);
        }
    };
    template<int K>
    struct IO : IX {
        using dyn_tag = IO;
        inline static type_id the_id = cls_id(10);
        static type_id dyn_id() {
            return the_id;
        }
    };

    struct UniId;
    using Uni = bom::method<UniId, int(VP<X>), R>;
    struct RefId;
    using Ref = bom::method<RefId, int(bom::virtual_<X&>), R>;
    struct BiId;
    using Bi = bom::method<BiId, int(const VP<X>&, VP<X>), R>;
    struct ShId;
    using Sh = bom::method<ShId, int(bom::shared_virtual_ptr<X, R>), R>;
    struct InId;
    using In = bom::method<InId, int(VP<IX>), R>;
    struct In2Id;
    using In2 = bom::method<In2Id, int(bom::virtual_<IX&>, VP<X>), R>;

    template<int K>
    static int uni(VP<O<K>>) {
        return K;
    }
    template<int K>
    static int ref(O<K>&) {
        return K;
    }
    template<int K>
    static int bi(const VP<O<K * 2 + 2>>&, VP<O<K * 2 + 3>>) {
        return K;
    }
    template<int K>
    static int sh(bom::shared_virtual_ptr<O<K>, R>) {
        return K;
    }
    template<int K>
    static int in(VP<IO<K>>) {
        return K;
    }
    template<int K>
    static int in2(IO<K>&, VP<O<K>>) {
        return K;
    }

    // edges
    template<int G>
    using Grp3 = Grp<R, G, std::make_integer_sequence<int, 3>>;

    static void install() {
        // one record per class first, so that static_vptr<T> is its v-table
        static bom::use_classes<X, R> x;
        static bom::use_classes<T<1>, X, R> t1;
        static bom::use_classes<T<2>, X, R> t2;
        static bom::use_classes<T<3>, X, R> t3;
        static typename Grp3<1>::use g1;
        static typename Grp3<2>::use g2;
        static typename Grp3<3>::use g3;
        static typename Uni::template override<uni<0>, uni<1>> o1;
        static typename Ref::template override<ref<0>, ref<1>> o2;
        static typename Bi::template override<bi<0>, bi<1>> o3;
        static typename Sh::template override<sh<0>, sh<1>> o4;
        static typename In::template override<in<0>, in<1>> o5;
        static typename In2::template override<in2<0>, in2<1>> o6;
        (void)&x, (void)&t1, (void)&t2, (void)&t3, (void)&g1, (void)&g2, (void)&g3;
        (void)&o1, (void)&o2, (void)&o3, (void)&o4, (void)&o5, (void)&o6;
    }

    static void initialize(const Cfg& c) {
        auto id = [&](int k) { return cls_id((c.mask >> k) & 1 ? k : 0); };
        T<1>::the_id = id(1);
        T<2>::the_id = id(2);
        T<3>::the_id = id(3);
        auto grp = [&](auto g) {
            constexpr int G = decltype(g)::value;
            type_id b[3];
            int n = 0;
            for (int k = 0; k < NCLS; ++k)
                if (k != G && c.p.leq(G, k) && ((c.mask >> G) & 1))
                    b[n++] = cls_id(k);
            Grp3<G>::set(id(G), b, n);
        };
        grp(std::integral_constant<int, 1>());
        grp(std::integral_constant<int, 2>());
        grp(std::integral_constant<int, 3>());
        O<1>::the_id = cls_id(c.o1);
        O<2>::the_id = cls_id(0);
        O<3>::the_id = cls_id(0);
        O<4>::the_id = cls_id(c.b1);
        O<5>::the_id = cls_id(c.b2);
        IO<1>::the_id = cls_id(10 + in_ovr(c));
        bom::initialize<R>();
        T<1>::the_id = cls_id(1);
        T<2>::the_id = cls_id(2);
        T<3>::the_id = cls_id(3);
    }
    static int in_ovr(const Cfg& c) {
        return (c.o1 + c.b2) % 3 + 1;
    }

    template<class F>
    static int attempt(F f) {
        seen = Seen();
        try {
            return f();
        } catch (Thrown& t) {
            return t.kind == Err::no_overrider    ? NOT_IMPL
                : t.kind == Err::ambiguous ? AMBIG
                                                  : -100 - int(t.kind);
        }
    }

    static X* objs[NCLS];
    static IX* iobjs[4];

    struct Set {
        int step;
        unsigned mask; // registered when created
        std::vector<VP<X>> plain[NCLS];
        std::vector<bom::shared_virtual_ptr<X, R>> shared[NCLS];
        std::vector<bom::unique_virtual_ptr<X, R>> unique[NCLS];
        std::vector<bom::boost_intrusive_virtual_ptr<X, R>> intrusive[NCLS];
        std::vector<VP<IX>> inplace[4];
        std::vector<std::unique_ptr<IX>> iown;
    };

    template<int I>
    static void final_set(Set& s) {
        using C = std::conditional_t<I == 0, X, T<I>>;
        if (!((s.mask >> I) & 1))
            return;
        s.plain[I].push_back(bom::final_virtual_ptr<R>(static_cast<C&>(*objs[I])));
        s.shared[I].push_back(bom::make_shared_virtual<C, R>());
        s.unique[I].push_back(bom::make_unique_virtual<C, R>());
        s.intrusive[I].push_back(bom::make_boost_intrusive_virtual<C, R>());
    }
    static X* make(int c) {
        return new X(c);
    }

    static Set create(int step, const Cfg& cfg) {
        Set s;
        s.step = step;
        s.mask = cfg.mask;
        for (int c = 0; c < NCLS; ++c) {
            if (!((cfg.mask >> c) & 1))
                continue;
            auto& o = *objs[c];
            auto& p = s.plain[c];
            p.push_back(VP<X>(o));
            p.push_back(VP<X>(&o));
            p.push_back(p[0]);
            VP<X> q(nullptr);
            q = o;
            p.push_back(q);
            p.push_back(std::move(q));
            VP<X> q2;
            q2 = p[0];
            p.push_back(q2);
            p.push_back(VP<X>(p[0].template cast<X>()));
            auto& sh = s.shared[c];
            sh.push_back(std::shared_ptr<X>(make(c)));
            sh.push_back(sh[0]);
            bom::shared_virtual_ptr<X, R> t;
            t = sh[0];
            sh.push_back(t);
            sh.push_back(std::move(t));
            s.unique[c].push_back(
                bom::unique_virtual_ptr<X, R>(std::unique_ptr<X>(make(c))));
            s.intrusive[c].push_back(
                bom::boost_intrusive_virtual_ptr<X, R>(
                    boost::intrusive_ptr<X>(make(c))));
            s.intrusive[c].push_back(s.intrusive[c][0]);
            p.push_back(VP<X>(sh[0]));
            p.push_back(VP<X>(s.unique[c][0]));
        }
        final_set<0>(s);
        final_set<1>(s);
        final_set<2>(s);
        final_set<3>(s);
        s.iown.emplace_back(new IX);
        s.iown.emplace_back(new I1);
        s.iown.emplace_back(new I2);
        s.iown.emplace_back(new I3);
        for (int i = 0; i < 4; ++i) {
            s.inplace[i].push_back(VP<IX>(*s.iown[i]));
            s.inplace[i].push_back(VP<IX>(s.iown[i].get()));
            s.inplace[i].push_back(VP<IX>(*iobjs[i])); // made before step 0
            s.inplace[i].push_back(s.inplace[i][0]);
        }
        return s;
    }

    static void check(mc::Explorer& ex, std::deque<Set>& sets, int step, const Cfg& c) {
        RefMethod u;
        u.arity = 1;
        u.novr = 2;
        u.ovr[1][0] = c.o1;
        RefMethod b;
        b.arity = 2;
        b.novr = 2;
        b.ovr[1][0] = c.b1;
        b.ovr[1][1] = c.b2;
        static const int iparent[] = {-1, 0, 1, 0};
        auto iderives = [](int d, int b) {
            for (; d >= 0; d = iparent[d])
                if (d == b)
                    return true;
            return false;
        };
        auto& fresh = sets.back();
        for (auto& s : sets) {
            bool old = s.step != step;
            auto bad = [&](const char* what, int k, int cls, int got, int want) {
                mc::fail(
                    "step %d: %s #%d designating an object of class %d, created "
                    "at step %d: result %d, should be %d",
                    step, what, k, cls, s.step, got, want);
            };
            for (int cls = 0; cls < NCLS; ++cls) {
                if (!((c.mask >> cls) & 1) || !((s.mask >> cls) & 1))
                    continue;
                int want = ref_resolve(c.p, u, &cls);
                auto vptr = fresh.plain[cls][0].vptr();
                auto one = [&](const char* what, int k, auto& p) {
                    ex.count(old ? C_OLD : C_FRESH);
                    ex.transition(2);
                    if (p.vptr() != vptr)
                        mc::fail(
                            "step %d: %s #%d to class %d, created at step %d, "
                            "has another v-table pointer than a fresh one",
                            step, what, k, cls, s.step);
                    int got = attempt([&] { return Uni::fn(VP<X>(p)); });
                    if (got != want)
                        bad(what, k, cls, got, want);
                    // paired with the first fresh one of every class
                    for (int other = 0; other < NCLS; ++other) {
                        if (!((c.mask >> other) & 1))
                            continue;
                        int a[2] = {cls, other};
                        int w = ref_resolve(c.p, b, a);
                        int g = attempt(
                            [&] { return Bi::fn(p, fresh.plain[other][0]); });
                        if (g != w)
                            bad(what, k, cls, g, w);
                        std::swap(a[0], a[1]);
                        w = ref_resolve(c.p, b, a);
                        g = attempt(
                            [&] { return Bi::fn(fresh.plain[other][0], VP<X>(p)); });
                        if (g != w)
                            bad(what, k, cls, g, w);
                        ex.transition(2);
                    }
                };
                for (int k = 0; k < int(s.plain[cls].size()); ++k)
                    one("virtual_ptr", k, s.plain[cls][k]);
                for (int k = 0; k < int(s.shared[cls].size()); ++k) {
                    one("shared_virtual_ptr", k, s.shared[cls][k]);
                    int got = attempt([&] { return Sh::fn(s.shared[cls][k]); });
                    if (got != want)
                        bad("shared_virtual_ptr", k, cls, got, want);
                }
                for (int k = 0; k < int(s.unique[cls].size()); ++k)
                    one("unique_virtual_ptr", k, s.unique[cls][k]);
                for (int k = 0; k < int(s.intrusive[cls].size()); ++k)
                    one("intrusive virtual_ptr", k, s.intrusive[cls][k]);
                int got = attempt([&] { return Ref::fn(*objs[cls]); });
                if (got != want)
                    bad("reference", 0, cls, got, want);
            }
            for (int i = 0; i < 4; ++i) {
                bool app = iderives(i, in_ovr(c));
                int want = app;
                for (int k = 0; k < int(s.inplace[i].size()); ++k) {
                    ex.transition();
                    ex.count(old ? C_OLD : C_FRESH);
                    int got = attempt([&] { return In::fn(s.inplace[i][k]); });
                    if (got != want)
                        bad("virtual_ptr to an in-place object", k, i, got, want);
                }
                auto call = [&](IX& o, const char* what) {
                    int got = attempt(
                        [&] { return In2::fn(o, fresh.plain[0][0]); });
                    // overriders (IX, 0) and (IO<1>, o1)
                    int w = app && c.o1 == 0 ? 1 : 0;
                    if (got != w)
                        bad(what, 0, i, got, w);
                    got = attempt([&] { return In::fn(o); });
                    if (got != want)
                        bad(what, 1, i, got, want);
                };
                call(*s.iown[i], "in-place object");
                call(*iobjs[i], "in-place object made before everything");
            }
        }
    }

    static void run(mc::Explorer& ex, const std::vector<Cfg>& chain) {
        bom::finalize<R>();
        std::deque<Set> sets;
        for (int i = 0; i < int(chain.size()); ++i) {
            if (chain[i].finalize_before)
                bom::finalize<R>();
            try {
                initialize(chain[i]);
            } catch (Thrown& t) {
                mc::fail("initialize reports %s", err_name(t.kind));
            }
            if (i)
                ex.count(C_REINIT);
            sets.push_back(create(i, chain[i]));
            check(ex, sets, i, chain[i]);
        }
    }
    static void prepare() {
        install();
        for (int c = 0; c < NCLS; ++c)
            objs[c] = c == 0 ? new X
                : c == 1     ? new T<1>
                : c == 2     ? (X*)new T<2>
                             : new T<3>;
        iobjs[0] = new IX;
        iobjs[1] = new I1;
        iobjs[2] = new I2;
        iobjs[3] = new I3;
    }
};
template<class V, bool C>
typename World<V, C>::X* World<V, C>::objs[NCLS];
template<class V, bool C>
typename World<V, C>::IX* World<V, C>::iobjs[4];

struct Reg {
    void (*prepare)();
    void (*run)(mc::Explorer&, const std::vector<Cfg>&);
    const char* name;
};
template<class V, bool C>
Reg reg(const char* name) {
    return {World<V, C>::prepare, World<V, C>::run, name};
}

using Hash = mp11::mp_list<pol::vptr_vector, pol::fast_perfect_hash>;
using Vec = mp11::mp_list<pol::vptr_vector>;
using Map = mp11::mp_list<pol::vptr_map<>>;

std::vector<Reg> regs0();
std::vector<Reg> regs1();
std::vector<Reg> regs2();
std::vector<Reg> regs3();

#ifndef PART
#define PART -1
#endif
#if PART == 0
std::vector<Reg> regs0() {
    return {reg<Hash, false>("vptr_vector, fast_perfect_hash")};
}
#elif PART == 1
std::vector<Reg> regs1() {
    return {reg<Hash, true>("vptr_vector, fast_perfect_hash, runtime_checks")};
}
#elif PART == 2
std::vector<Reg> regs2() {
    return {reg<Map, false>("vptr_map")};
}
#elif PART == 3
std::vector<Reg> regs3() {
    return {reg<Vec, true>("vptr_vector, runtime_checks")};
}
#else
int main(int argc, char** argv) {
    std::vector<Reg> regs;
    for (auto& v : {regs0(), regs1(), regs2(), regs3()})
        for (auto& r : v)
            regs.push_back(r);
    for (auto& r : regs)
        r.prepare();
    auto& cfgs = all_cfgs();
    mc::Harness h;
    h.name = "indirect";
    h.counters = {"old_virtual_ptrs", "fresh_virtual_ptrs", "reinitializations"};
    auto chain = [&](const mc::Case& c) {
        std::vector<Cfg> r;
        for (std::size_t i = 1; i < c.size(); ++i) {
            r.push_back(cfgs[c[i] / 2]);
            r.back().finalize_before = c[i] % 2;
        }
        return r;
    };
    h.run = [&](mc::Explorer& ex, const mc::Case& c) {
        regs[c[0]].run(ex, chain(c));
        std::uint64_t hh = 0;
        for (int x : c)
            hh = mc::mix(hh, x + 1);
        ex.state(hh);
        ex.trace_ok();
    };
    h.describe = [&](const mc::Case& c) {
        std::string s = std::string(regs[c[0]].name) + ", indirect_vptr:";
        const char* sep = " ";
        for (auto& k : chain(c)) {
            s += sep;
            sep = "; ";
            if (k.finalize_before)
                s += "finalize; ";
            s += "initialize with classes 0";
            for (int i = 1; i < NCLS; ++i)
                if ((k.mask >> i) & 1) {
                    s += ", " + std::to_string(i) + ":";
                    for (int b = 0; b < NCLS; ++b)
                        if (b != i && k.p.leq(i, b))
                            s += " " + std::to_string(b);
                }
            s += "; overriders (0), (" + std::to_string(k.o1) + "), (0,0), (" +
                std::to_string(k.b1) + "," + std::to_string(k.b2) + ")";
        }
        return s;
    };
    h.enumerate = [&](mc::Explorer& ex) {
        int n = int(cfgs.size());
        for (int r = 0; r < int(regs.size()); ++r) {
            // pairs
            for (int a = 0; a < n; ++a)
                for (int b = 0; b < n; ++b) {
                    bool quick = (a * 7 + b) % 4 == r;
                    if (quick || ex.thorough)
                        ex.consider({r, a * 2, b * 2});
                    if ((a * 7 + b) % 8 == r)
                        ex.consider({r, a * 2, b * 2 + 1});
                }
            // chains of three
            int step = ex.thorough ? 5 : 17;
            for (int a = r % step; a < n; a += step)
                for (int b = 0; b < n; b += step)
                    for (int c = 0; c < n; c += step)
                        ex.consider({r, a * 2, b * 2, c * 2});
        }
    };
    return mc::main(argc, argv, h);
}
#endif
