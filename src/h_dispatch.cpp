// Dispatch of one method, over all class lattices and all sets of overriders,
// within bounds.  Decides C01, C02 (content of the errors), C03, C06.
#include "engine.hpp"

using namespace dyn;

#ifndef NCLS
#define NCLS 5
#endif

template<int Arity, int NOvr>
struct Eng {
    struct Tag {};
    using CW =
        ClassWorld<Tag, NCLS, NCLS, NCLS - 1, true, pol::vptr_vector, false>;
    using E = Engine<CW, dyn_method<typename CW::R, 0, Arity, NOvr>>;
    static constexpr int id = Arity * 10 + NOvr;
    static Config blank() {
        Config c;
        c.methods = E::shapes();
        return c;
    }
};

static Obl obl;
static bool use_trace = false;

template<class... Es>
struct All {
    static void install() {
        (Es::E::install(), ...);
    }
    static void run(mc::Explorer& ex, const Case& c) {
        bool found = false;
        (void)((c[0] == Es::id && (run1<Es>(ex, c), found = true)) || ...);
        if (!found)
            mc::fail("harness: unknown engine %d", c[0]);
    }
    template<class X>
    static void run1(mc::Explorer& ex, const Case& c) {
        auto cfg = X::blank();
        cfg.decode(c);
        X::E::run(ex, cfg, obl);
        if (use_trace) {
            X::E::run(ex, cfg, obl, bom::trace(true));
            X::E::run(ex, cfg, obl, bom::trace(false));
        }
    }
    static std::string describe(const Case& c) {
        std::string r;
        (void)((c[0] == Es::id && (r = desc1<Es>(c), true)) || ...);
        return r;
    }
    template<class X>
    static std::string desc1(const Case& c) {
        auto cfg = X::blank();
        cfg.decode(c);
        return cfg.describe();
    }
};

using A = All<
    Eng<1, 0>, Eng<1, 1>, Eng<1, 2>, Eng<1, 3>, Eng<1, 4>, Eng<2, 0>,
    Eng<2, 1>, Eng<2, 2>, Eng<2, 3>, Eng<2, 4>, Eng<3, 1>, Eng<3, 2>,
    Eng<3, 3>>;

template<int Arity, int NOvr>
void enum1(
    mc::Explorer& ex, const std::vector<Poset>& ps, bool sets,
    bool top_roots = false) {
    auto cfg = Eng<Arity, NOvr>::blank();
    for (auto& p : ps) {
        cfg.p = p;
        auto& m = cfg.methods[0];
        for_roots(p, m, [&] {
            if (top_roots)
                for (int j = 0; j < Arity; ++j)
                    if (p.proper_up(m.root[j]))
                        return;
            for_overriders(p, m, sets, [&] {
                if (ex.sh->stop.load())
                    _exit(0);
                if (ex.mine())
                    ex.exec(cfg.encode(Eng<Arity, NOvr>::id));
            });
        });
    }
}

int main(int argc, char** argv) {
    A::install();
    mc::Harness h;
    h.name = "dispatch";
    h.counters = {"next_depends_on_arguments"};
    std::string prop = getenv("VERIF_PROP") ? getenv("VERIF_PROP") : "C01";
    obl.dispatch = prop == "C01" || prop == "C06";
    obl.errors = prop == "C02";
    obl.next = prop == "C03";
    obl.report = prop == "C06";
    use_trace = prop == "C06";
    h.run = A::run;
    h.describe = A::describe;
    h.enumerate = [](mc::Explorer& ex) {
        for (int n = 1; n <= (ex.thorough ? NCLS : 4); ++n) {
            auto ps = all_posets(n);
            enum1<1, 0>(ex, ps, false);
            enum1<1, 1>(ex, ps, false);
            enum1<1, 2>(ex, ps, false);
            enum1<1, 3>(ex, ps, n > 4);
            if (n <= 4 || ex.thorough)
                enum1<1, 4>(ex, ps, true);
            enum1<2, 0>(ex, ps, false);
            enum1<2, 1>(ex, ps, false);
            if (n <= 4)
                enum1<2, 2>(ex, ps, false);
            if (n <= 3) {
                enum1<2, 3>(ex, ps, false);
                enum1<2, 4>(ex, ps, true);
                enum1<3, 1>(ex, ps, false);
                enum1<3, 2>(ex, ps, false);
                if (n < 3)
                    enum1<3, 3>(ex, ps, false);
                else
                    enum1<3, 3>(ex, ps, true);
            }
        }
        auto u4 = unlabelled_posets(4), u5 = unlabelled_posets(5);
        enum1<2, 3>(ex, u4, false);
        enum1<2, 3>(ex, u5, !ex.thorough);
        enum1<2, 4>(ex, u4, true);
        enum1<3, 2>(ex, u4, true);
        enum1<3, 3>(ex, u4, true, true);
        // the smallest lattice in which three overriders can dominate each
        // other in a cycle
        std::vector<Poset> diamond;
        for (auto& p : u5) {
            int tops = 0, bots = 0;
            for (int i = 0; i < 5; ++i) {
                tops += p.proper_up(i) == 0;
                bots += p.down(i) == (1u << i);
            }
            if (tops == 1 && bots == 1)
                diamond.push_back(p);
        }
        if (ex.thorough) {
            enum1<3, 3>(ex, diamond, true, true);
            enum1<2, 4>(ex, u5, true, true);
            enum1<3, 2>(ex, u5, true);
        } else {
            std::vector<Poset> one;
            for (auto& p : diamond) {
                // middle: a chain of two next to a single class
                int cov = 0;
                for (int i = 0; i < 5; ++i)
                    cov += __builtin_popcount(p.covers(i));
                int h = 0;
                for (int i = 0; i < 5; ++i)
                    h = std::max(h, __builtin_popcount(p.up[i]));
                if (cov == 5 && h == 5) {
                    int longest = 0;
                    for (int i = 0; i < 5; ++i)
                        longest += __builtin_popcount(p.up[i]) == 3;
                    if (longest == 1)
                        one.push_back(p);
                }
            }
            enum1<3, 3>(ex, one, true, true);
        }
    };
    return mc::main(argc, argv, h);
}
