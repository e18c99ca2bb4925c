// C07: initialize(n2216()).  All param lattices x overrider sequences x return
// type lattices x assignments of return types, within bounds.
#include "engine.hpp"

using namespace dyn;

constexpr int N = 7; // parameter classes + return classes

template<int Arity, int NOvr>
struct Eng {
    struct Tag {};
    using CW = ClassWorld<Tag, N, N, N - 1, true, pol::vptr_vector, false>;
    using R = typename CW::R;
    using DM = dyn_method<R, 0, Arity, NOvr, true>;
    static constexpr int id = Arity * 10 + NOvr;
    static Config blank() {
        Config c;
        c.methods.resize(1);
        c.methods[0].arity = Arity;
        c.methods[0].novr = NOvr;
        return c;
    }
    static void install() {
        CW::install_classes();
        static typename DM::Ovr::type o;
        (void)&o;
    }

    // overriders that remain after removing those that return a less specific
    // type than another
    static unsigned
    covariant(const Poset& p, unsigned best, int root, const int* ret) {
        if (root < 0)
            return best;
        unsigned r = 0;
        for (int a = 0; a < NOvr; ++a)
            if ((best >> a) & 1) {
                bool out = false;
                for (int b = 0; b < NOvr; ++b)
                    if (((best >> b) & 1) && ret[a] != ret[b] &&
                        p.leq(ret[b], ret[a]))
                        out = true;
                if (!out)
                    r |= 1u << a;
            }
        return r;
    }

    template<class F>
    static void tuples(const Poset& p, const RefMethod& m, F f) {
        int idx[4] = {};
        for (;;) {
            bool ok = true;
            for (int j = 0; j < Arity; ++j)
                ok = ok && p.leq(idx[j], m.root[j]);
            if (ok)
                f(idx);
            int j = 0;
            while (j < Arity && ++idx[j] == p.n)
                idx[j++] = 0;
            if (j == Arity)
                return;
        }
    }

    static std::vector<int>
    observe(mc::Explorer& ex, const Config& c, int root, const int* ret) {
        auto& m = c.methods[0];
        std::vector<int> r;
        struct NX {
            bool selected = false, exact = true;
            std::set<int> ref;
            int got = -100;
        };
        std::vector<NX> nx(NOvr);
        tuples(c.p, m, [&](const int* args) {
            unsigned app = applicable_set(c.p, m, args);
            unsigned best = best_of(c.p, m, app);
            if (app && !best)
                best = app; // dominance cycle
            int got = DM::call(args);
            ex.transition();
            r.push_back(got);
            unsigned want = covariant(c.p, best, root, ret);
            auto what = [&] {
                std::string s;
                for (int k = 0; k < NOvr; ++k)
                    if ((want >> k) & 1)
                        s += " #" + std::to_string(k);
                return s;
            };
            if (!app) {
                if (got != NOT_IMPL)
                    mc::fail(
                        "call (c%d,c%d): expected no_overrider, got %d",
                        args[0], args[1], got);
                return;
            }
            if (got < 0 || !((want >> got) & 1))
                mc::fail(
                    "call (c%d,c%d) [arity %d]: expected one of%s, got %d",
                    args[0], args[1], Arity, what().c_str(), got);
            if (DM::call(args) != got)
                mc::fail("the same call selects different overriders");
            if (best & (best - 1)) {
                ex.count(0);
                if (!(want & (want - 1)))
                    ex.count(1);
            }
            // next
            NX& x = nx[got];
            int n = DM::next(got, args);
            ex.transition();
            r.push_back(n);
            if (n == got)
                mc::fail("next of overrider #%d calls itself", got);
            if (n < 0 && n != NOT_IMPL)
                mc::fail("next of overrider #%d: error %d", got, n);
            if (x.got != -100 && x.got != n)
                mc::fail("next of overrider #%d is not stable", got);
            x.got = n;
            x.selected = true;
            if (best & (best - 1))
                x.exact = false; // unspecified among the ambiguous
            unsigned rest = app & ~(1u << got);
            unsigned nb = best_of(c.p, m, rest);
            if (rest && !nb)
                nb = rest;
            unsigned nw = covariant(c.p, nb, root, ret);
            if (!rest)
                x.ref.insert(NOT_IMPL);
            for (int k = 0; k < NOvr; ++k)
                if ((nw >> k) & 1)
                    x.ref.insert(k);
        });
        for (int k = 0; k < NOvr; ++k) {
            if (!nx[k].selected)
                continue;
            if (nx[k].exact && !nx[k].ref.count(nx[k].got))
                mc::fail("next of overrider #%d calls %d", k, nx[k].got);
            if (DM::Ovr::has_next(k) != (nx[k].got >= 0))
                mc::fail(
                    "has_next of #%d is wrong: next gives %d", k, nx[k].got);
        }
        return r;
    }

    template<class... O>
    static void init(O&&... o) {
        seen = Seen();
        try {
            bom::initialize<R>(std::forward<O>(o)...);
        } catch (Thrown& t) {
            mc::fail("initialize failed with %s", err_name(t.kind));
        }
    }

    static void run(mc::Explorer& ex, const Case& cs) {
        auto c = blank();
        c.decode(cs);
        auto& m = c.methods[0];
        const int* tail = cs.data() + cs.size() - 1 - NOvr;
        int root = tail[0];
        const int* ret = tail + 1;
        CW::set_classes(c.p.n, c.effective_groups());
        DM::set_method(m.root, root);
        for (int k = 0; k < NOvr; ++k)
            DM::Ovr::set(k, m.ovr[k], ret[k]);
        bom::n2216 opt;
        bom::trace off(false);
        init(bom::n2216());
        auto a = observe(ex, c, root, ret);
        init(opt);
        auto b = observe(ex, c, root, ret);
        if (a != b)
            mc::fail("a second initialize selects other overriders");
        init(off, opt);
        b = observe(ex, c, root, ret);
        if (a != b)
            mc::fail("with an option object and trace: other overriders");
        // and without the option
        init();
        std::uint64_t h = 7;
        for (int x : a)
            h = mc::mix(h, std::uint64_t(x + 50));
        for (int x : cs)
            h = mc::mix(h, std::uint64_t(x + 50));
        tuples(c.p, m, [&](const int* args) {
            int want = ref_resolve(c.p, m, args);
            int got = DM::call(args);
            ex.transition();
            if (got != want)
                mc::fail(
                    "without n2216: call (c%d,c%d): %d instead of %d", args[0],
                    args[1], got, want);
        });
        ex.state(h);
        ex.trace_ok();
    }
    static std::string describe(const Case& cs) {
        auto c = blank();
        c.decode(cs);
        auto s = c.describe();
        const int* tail = cs.data() + cs.size() - 1 - NOvr;
        s += "; returns c" + std::to_string(tail[0]) + "; overriders return";
        for (int k = 0; k < NOvr; ++k)
            s += " c" + std::to_string(tail[1 + k]);
        return s;
    }
};

// p: parameter classes, q: return classes
static Poset join(const Poset& p, const Poset& q) {
    Poset r = p;
    r.n = p.n + q.n;
    for (int i = 0; i < q.n; ++i)
        r.up[p.n + i] = q.up[i] << p.n;
    return r;
}

template<int Arity, int NOvr>
void enum1(
    mc::Explorer& ex, const std::vector<Poset>& ps,
    const std::vector<Poset>& qs, bool sets, bool top, bool only_ambiguous) {
    using E = Eng<Arity, NOvr>;
    for (auto& p : ps)
        for (auto& q : qs) {
            auto c = E::blank();
            c.p = join(p, q);
            auto& m = c.methods[0];
            // roots and overriders are parameter classes
            for_roots(p, m, [&] {
                if (top)
                    for (int j = 0; j < Arity; ++j)
                        if (p.proper_up(m.root[j]))
                            return;
                for_overriders(p, m, sets, [&] {
                    if (ex.sh->stop.load())
                        _exit(0);
                    if (only_ambiguous) {
                        bool amb = false;
                        E::tuples(c.p, m, [&](const int* a) {
                            amb = amb || ref_resolve(c.p, m, a) == AMBIG;
                        });
                        if (!amb)
                            return;
                    }
                    for (int root = -1; root < q.n; ++root) {
                        if (root >= 0 && q.proper_up(root) && q.n > 1)
                            continue; // the root of the return hierarchy
                        std::vector<int> below;
                        for (int i = 0; i < q.n; ++i)
                            if (root < 0 || q.leq(i, root))
                                below.push_back(i);
                        if (root < 0)
                            below.resize(1);
                        std::vector<int> idx(NOvr, 0);
                        for (;;) {
                            if (ex.mine()) {
                                auto cs = c.encode(E::id);
                                cs.push_back(root < 0 ? -1 : p.n + root);
                                for (int k = 0; k < NOvr; ++k)
                                    cs.push_back(p.n + below[idx[k]]);
                                ex.exec(cs);
                            }
                            int k = 0;
                            while (k < NOvr && ++idx[k] == int(below.size()))
                                idx[k++] = 0;
                            if (k == NOvr)
                                break;
                        }
                    }
                });
            });
        }
}

template<class... Es>
struct All {
    static void install() {
        (Es::install(), ...);
    }
    static void run(mc::Explorer& ex, const Case& c) {
        (void)((c[0] == Es::id && (Es::run(ex, c), true)) || ...);
    }
    static std::string describe(const Case& c) {
        std::string r;
        (void)((c[0] == Es::id && (r = Es::describe(c), true)) || ...);
        return r;
    }
};
using A = All<
    Eng<1, 2>, Eng<1, 3>, Eng<1, 4>, Eng<2, 2>, Eng<2, 3>, Eng<2, 4>,
    Eng<3, 2>, Eng<3, 3>>;

int main(int argc, char** argv) {
    A::install();
    mc::Harness h;
    h.name = "n2216";
    h.counters = {"ambiguous_calls", "resolved_by_return_type"};
    h.run = A::run;
    h.describe = A::describe;
    h.enumerate = [](mc::Explorer& ex) {
        std::vector<std::vector<Poset>> u(6);
        for (int n = 1; n <= 5; ++n)
            u[n] = n <= 4 || ex.thorough ? unlabelled_posets(n)
                                         : std::vector<Poset>();
        for (int q = 1; q <= 3; ++q) {
            auto qs = all_posets(q);
            for (int n = 1; n <= 3; ++n) {
                enum1<1, 2>(ex, all_posets(n), qs, false, false, false);
                enum1<1, 3>(ex, u[n], qs, false, false, false);
                enum1<2, 2>(ex, u[n], qs, false, false, false);
                enum1<2, 3>(ex, u[n], u[q], n > 2, n > 2, true);
                enum1<1, 4>(ex, u[n], u[q], false, true, true);
            }
            enum1<2, 4>(ex, u[2], u[q], false, true, true);
            enum1<2, 3>(ex, u[4], u[q], true, true, true);
            enum1<3, 2>(ex, u[2], u[q], true, false, true);
            enum1<3, 3>(ex, u[2], u[q], true, true, true);
        }
        // longer return hierarchies
        enum1<1, 3>(ex, u[1], u[4], false, false, true);
        enum1<2, 3>(ex, u[2], u[4], true, true, true);
        enum1<1, 4>(ex, u[1], u[4], false, false, true);
        if (ex.thorough) {
            enum1<1, 4>(ex, u[2], all_posets(4), false, false, true);
            enum1<2, 4>(ex, u[3], u[3], true, true, true);
            enum1<2, 3>(ex, all_posets(3), all_posets(3), false, true, true);
            enum1<2, 4>(ex, u[2], u[4], false, true, true);
            enum1<3, 3>(ex, u[3], u[3], true, true, true);
        }
    };
    return mc::main(argc, argv, h);
}
