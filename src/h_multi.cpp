// Several methods in one registry: dispatch of each is unaffected by the
// others.  Decides C05.
#include "engine.hpp"

using namespace dyn;

#ifndef NCLS
#define NCLS 6
#endif

template<int Id, int... Shape> // Shape: arity * 10 + novr
struct Eng {
    struct Tag {};
    using CW =
        ClassWorld<Tag, NCLS, NCLS, NCLS - 1, true, pol::vptr_vector, false>;
    template<class Is>
    struct mk;
    template<int... I>
    struct mk<std::integer_sequence<int, I...>> {
        using type = Engine<
            CW,
            dyn_method<typename CW::R, I, Shape / 10, Shape % 10>...>;
    };
    using E = typename mk<std::make_integer_sequence<int, sizeof...(Shape)>>::type;
    static constexpr int id = Id;
    static Config blank() {
        Config c;
        c.methods = E::shapes();
        return c;
    }
};

using E1 = Eng<1, 11>;
using E2 = Eng<2, 11, 11>;
using E3 = Eng<3, 11, 11, 11>;
using E4 = Eng<4, 11, 11, 11, 11>;
using E5 = Eng<5, 21, 11>;
using E6 = Eng<6, 22, 22>;
using E7 = Eng<7, 21, 11, 11>;
using E8 = Eng<8, 31, 11>;
using E9 = Eng<9, 12, 12>;

static Obl obl;

template<class... Es>
struct All {
    static void install() {
        (Es::E::install(), ...);
    }
    static void run(mc::Explorer& ex, const Case& c) {
        bool found = false;
        (void)((c[0] == Es::id && (run1<Es>(ex, c), found = true)) || ...);
        if (!found)
            mc::fail("harness: unknown engine %d", c[0]);
    }
    template<class X>
    static void run1(mc::Explorer& ex, const Case& c) {
        auto cfg = X::blank();
        cfg.decode(c);
        X::E::run(ex, cfg, obl);
    }
    static std::string describe(const Case& c) {
        std::string r;
        (void)((c[0] == Es::id && (r = desc1<Es>(c), true)) || ...);
        return r;
    }
    template<class X>
    static std::string desc1(const Case& c) {
        auto cfg = X::blank();
        cfg.decode(c);
        return cfg.describe();
    }
};

using A = All<E1, E2, E3, E4, E5, E6, E7, E8, E9>;

// every assignment of root classes to the methods; overrider #0 at the root,
// #1 (if any) at every choice below the root, in the first virtual parameter
template<class X>
void enum_roots(
    mc::Explorer& ex, const std::vector<Poset>& ps, bool all_second) {
    auto cfg = X::blank();
    for (auto& p : ps) {
        cfg.p = p;
        std::function<void(std::size_t)> rec = [&](std::size_t i) {
            if (i == cfg.methods.size()) {
                if (ex.sh->stop.load())
                    _exit(0);
                if (ex.mine())
                    ex.exec(cfg.encode(X::id));
                return;
            }
            auto& m = cfg.methods[i];
            for_roots(p, m, [&] {
                for (int j = 0; j < m.arity; ++j)
                    m.ovr[0][j] = m.root[j];
                if (m.novr < 2) {
                    rec(i + 1);
                    return;
                }
                for (int x = 0; x < p.n; ++x) {
                    if (!p.leq(x, m.root[0]))
                        continue;
                    if (!all_second && p.down(x) != (1u << x))
                        continue;
                    m.ovr[1][0] = x;
                    for (int j = 1; j < m.arity; ++j)
                        m.ovr[1][j] = m.root[j];
                    rec(i + 1);
                }
            });
        };
        rec(0);
    }
}

int main(int argc, char** argv) {
    A::install();
    mc::Harness h;
    h.name = "multi";
    h.counters = {"next_depends_on_arguments"};
    obl.dispatch = true;
    h.run = A::run;
    h.describe = A::describe;
    h.enumerate = [](mc::Explorer& ex) {
        bool t = ex.thorough;
        for (int n = 1; n <= 4; ++n) {
            auto ps = all_posets(n);
            enum_roots<E1>(ex, ps, true);
            enum_roots<E2>(ex, ps, true);
            enum_roots<E3>(ex, ps, true);
            enum_roots<E4>(ex, ps, true);
            enum_roots<E5>(ex, ps, true);
            enum_roots<E7>(ex, ps, true);
            enum_roots<E8>(ex, ps, true);
            enum_roots<E9>(ex, ps, true);
        }
        for (int n = 1; n <= 3; ++n)
            enum_roots<E6>(ex, all_posets(n), true);
        enum_roots<E6>(ex, unlabelled_posets(4), false);
        auto l5 = all_posets(5);
        enum_roots<E1>(ex, l5, true);
        enum_roots<E2>(ex, l5, true);
        enum_roots<E3>(ex, l5, true);
        auto u5 = unlabelled_posets(5);
        enum_roots<E4>(ex, u5, true);
        enum_roots<E5>(ex, t ? l5 : u5, true);
        enum_roots<E7>(ex, t ? l5 : u5, true);
        enum_roots<E8>(ex, u5, true);
        if (t) {
            auto l6 = all_posets(6);
            enum_roots<E2>(ex, l6, true);
            enum_roots<E3>(ex, unlabelled_posets(6), true);
            enum_roots<E4>(ex, l5, true);
            enum_roots<E6>(ex, u5, false);
            enum_roots<E9>(ex, u5, true);
        }
    };
    return mc::main(argc, argv, h);
}
