// Independence from the order, the grouping and the repetition of class
// registrations.  Decides C04.
#include "engine.hpp"

using namespace dyn;

#ifndef NCLS
#define NCLS 4
#endif
constexpr int NG = 8;

struct Tag1 {};
struct Tag2 {};
// no leading one-by-one registration of the classes: the order of the groups is
// the order of registration
using CW1 = ClassWorld<Tag1, NCLS, NG, NCLS - 1, false, pol::vptr_vector, false>;
// same, with a leading registration of all the classes without their bases
using CW2 = ClassWorld<Tag2, NCLS, NG, NCLS - 1, true, pol::vptr_vector, false>;

// Two uni-methods and a bi-method
template<class CW>
using E = Engine<
    CW, dyn_method<typename CW::R, 0, 1, 1>, dyn_method<typename CW::R, 1, 1, 1>,
    dyn_method<typename CW::R, 2, 2, 2>>;

static Obl obl;

template<class X>
void run1(mc::Explorer& ex, const Case& c) {
    Config cfg;
    cfg.methods = X::shapes();
    cfg.decode(c);
    X::run(ex, cfg, obl);
}

// methods: uni-methods at every pair of classes; the bi-method at the top
template<class F>
void for_methods(const Poset& p, Config& cfg, bool thorough, F f) {
    auto& m = cfg.methods;
    for (int a = 0; a < p.n; ++a)
        for (int b = 0; b < p.n; ++b) {
            m[0].root[0] = a;
            m[1].root[0] = b;
            m[0].ovr[0][0] = a;
            m[1].ovr[0][0] = b;
            for (int r = 0; r < p.n; ++r) {
                if (!thorough && p.proper_up(r))
                    continue;
                // overriders: most general; first leaf
                int leaf = r;
                for (int i = 0; i < p.n; ++i)
                    if (p.leq(i, r) && p.down(i) == (1u << i))
                        leaf = i;
                m[2].root[0] = r;
                m[2].root[1] = a;
                m[2].ovr[0][0] = leaf;
                m[2].ovr[0][1] = a;
                m[2].ovr[1][0] = r;
                m[2].ovr[1][1] = a;
                f();
            }
        }
}

int main(int argc, char** argv) {
    E<CW1>::install();
    E<CW2>::install();
    mc::Harness h;
    h.name = "order";
    h.counters = {"next_depends_on_arguments", "groupings"};
    obl.dispatch = true;
    obl.next = true;
    h.run = [](mc::Explorer& ex, const Case& c) {
        if (c[0] == 1)
            run1<E<CW1>>(ex, c);
        else
            run1<E<CW2>>(ex, c);
    };
    h.describe = [](const Case& c) {
        Config cfg;
        cfg.methods = E<CW1>::shapes();
        cfg.decode(c);
        return (c[0] == 1 ? "" : "[each class first registered alone] ") +
            cfg.describe();
    };
    h.enumerate = [](mc::Explorer& ex) {
        Config cfg;
        cfg.methods = E<CW1>::shapes();
        auto emit = [&](const Poset& p, std::vector<Group> g) {
            cfg.p = p;
            cfg.mode = 0;
            std::vector<int> perm(g.size());
            for (std::size_t i = 0; i < g.size(); ++i)
                perm[i] = int(i);
            do {
                cfg.groups.clear();
                for (int i : perm)
                    cfg.groups.push_back(g[i]);
                for_methods(p, cfg, ex.thorough, [&] {
                    if (ex.sh->stop.load())
                        _exit(0);
                    if (ex.mine())
                        ex.exec(cfg.encode(1));
                });
                // class order fixed by the labels
                for_methods(p, cfg, false, [&] {
                    if (ex.mine())
                        ex.exec(cfg.encode(2));
                });
            } while (std::next_permutation(perm.begin(), perm.end()));
        };
        auto add_isolated = [](const Poset& p, std::vector<Group>& g) {
            for (int i = 0; i < p.n; ++i) {
                bool found = false;
                for (auto& x : g) {
                    found = found || x.self == i;
                    for (int b : x.bases)
                        found = found || b == i;
                }
                if (!found) {
                    Group y;
                    y.self = i;
                    g.push_back(y);
                }
            }
        };
        for (int n = 1; n <= NCLS; ++n)
            for (auto& p : unlabelled_posets(n)) {
                // one group per class that has bases: every choice of the
                // listed bases between "direct bases" and "all bases"
                std::vector<std::vector<Group>> choices(1);
                for (int i = 0; i < n; ++i) {
                    unsigned cov = p.covers(i), up = p.proper_up(i);
                    if (!up)
                        continue;
                    unsigned extra = up & ~cov;
                    std::vector<std::vector<Group>> next;
                    for (auto& v : choices)
                        for (unsigned s = extra;; s = (s - 1) & extra) {
                            auto w = v;
                            Group g;
                            g.self = i;
                            for (int b = 0; b < n; ++b)
                                if (((cov | s) >> b) & 1)
                                    g.bases.push_back(b);
                            w.push_back(g);
                            next.push_back(w);
                            if (!s)
                                break;
                        }
                    choices.swap(next);
                }
                for (auto& g : choices) {
                    add_isolated(p, g);
                    emit(p, g);
                }
                auto e = edge_groups(p);
                add_isolated(p, e);
                emit(p, e);
                // the same group twice
                auto c = cover_groups(p);
                add_isolated(p, c);
                if (c.size() < 4) {
                    auto d = c;
                    d.insert(d.end(), c.begin(), c.end());
                    emit(p, d);
                }
            }
    };
    return mc::main(argc, argv, h);
}
