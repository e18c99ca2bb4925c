// engine.hpp - runs one configuration (class lattice, registration groups,
// methods, overriders) through the real `initialize`, then calls every method
// with every tuple of classes and compares with the reference model.
#ifndef VERIF_ENGINE_HPP
#define VERIF_ENGINE_HPP

#include "world.hpp"

#include <sstream>

namespace dyn {

using mc::Case;

struct Config {
    Poset p;
    int mode = -1; // -1: closure groups, -2: covers, -3: edges, >=0: explicit
    std::vector<Group> groups;
    std::vector<RefMethod> methods;

    std::vector<Group> effective_groups() const {
        switch (mode) {
        case -1:
            return closure_groups(p);
        case -2:
            return cover_groups(p);
        case -3:
            return edge_groups(p);
        }
        return groups;
    }

    Case encode(int engine) const {
        Case c{engine, p.n};
        for (int i = 0; i < p.n; ++i)
            c.push_back(int(p.up[i]));
        c.push_back(mode);
        if (mode >= 0) {
            c.push_back(int(groups.size()));
            for (auto& g : groups) {
                c.push_back(g.self);
                c.push_back(int(g.bases.size()));
                c.insert(c.end(), g.bases.begin(), g.bases.end());
            }
        }
        for (auto& m : methods) {
            for (int j = 0; j < m.arity; ++j)
                c.push_back(m.root[j]);
            for (int k = 0; k < m.novr; ++k)
                for (int j = 0; j < m.arity; ++j)
                    c.push_back(m.ovr[k][j]);
        }
        return c;
    }

    // the shapes (arity, novr) of `methods` must be set
    void decode(const Case& c) {
        const int* q = c.data() + 1;
        p.n = *q++;
        for (int i = 0; i < p.n; ++i)
            p.up[i] = unsigned(*q++);
        mode = *q++;
        groups.clear();
        if (mode >= 0) {
            int ng = *q++;
            for (int g = 0; g < ng; ++g) {
                Group x;
                x.self = *q++;
                int nb = *q++;
                for (int b = 0; b < nb; ++b)
                    x.bases.push_back(*q++);
                groups.push_back(x);
            }
        }
        for (auto& m : methods) {
            for (int j = 0; j < m.arity; ++j)
                m.root[j] = *q++;
            for (int k = 0; k < m.novr; ++k)
                for (int j = 0; j < m.arity; ++j)
                    m.ovr[k][j] = *q++;
        }
    }

    std::string describe() const {
        std::ostringstream os;
        os << "classes:";
        for (int i = 0; i < p.n; ++i) {
            os << " c" << i;
            const char* sep = "<";
            for (int b = 0; b < p.n; ++b)
                if ((p.covers(i) >> b) & 1) {
                    os << sep << "c" << b;
                    sep = ",";
                }
        }
        os << "; registered as:";
        for (auto& g : effective_groups()) {
            os << " (c" << g.self;
            for (int b : g.bases)
                os << ",c" << b;
            os << ")";
        }
        for (std::size_t i = 0; i < methods.size(); ++i) {
            auto& m = methods[i];
            os << "; method " << i << "(";
            for (int j = 0; j < m.arity; ++j)
                os << (j ? "," : "") << "c" << m.root[j];
            os << ") overriders:";
            for (int k = 0; k < m.novr; ++k) {
                os << " #" << k << "(";
                for (int j = 0; j < m.arity; ++j)
                    os << (j ? "," : "") << "c" << m.ovr[k][j];
                os << ")";
            }
        }
        return os.str();
    }
};

// What to check
struct Obl {
    bool dispatch = false; // C01: which overrider runs
    bool errors = false;   // C02: which error is reported, and its content
    bool next = false;     // C03
    bool report = false;   // C06
};

template<class DM>
void verify_method(
    mc::Explorer& ex, const Poset& p, const RefMethod& m, int number,
    const Obl& o, std::uint64_t& h, int& bad_ni, int& bad_amb) {
    constexpr int A = DM::arity;
    int args[4] = {};
    // odometer over all tuples of classes conforming to the parameters
    int cand[4][8], nc[4];
    for (int j = 0; j < A; ++j) {
        nc[j] = 0;
        for (int c = 0; c < p.n; ++c)
            if (p.leq(c, m.root[j]))
                cand[j][nc[j]++] = c;
    }
    // next results by overrider
    struct NX {
        int n = 0;
        int ref[64];
        int args[4];
        int got = -100;
    };
    static thread_local std::vector<NX> nx;
    nx.assign(m.novr, NX());
    int idx[4] = {};
    bool any_ni = false, any_amb = false;
    for (;;) {
        for (int j = 0; j < A; ++j)
            args[j] = cand[j][idx[j]];
        unsigned app = applicable_set(p, m, args);
        int want = ref_resolve_set(p, m, app);
        any_ni = any_ni || want == NOT_IMPL;
        any_amb = any_amb || want == AMBIG;
        if ((o.dispatch) || (o.errors && want < 0)) {
            int got = DM::call(args);
            ex.transition();
            h = mc::mix(h, std::uint64_t(got + 40));
            if (got != want) {
                bool relevant = o.dispatch || o.errors;
                if (relevant)
                    mc::fail(
                        "method %d called with (c%d,c%d,c%d) [arity %d]: "
                        "expected %s%d, got %s%d",
                        number, args[0], args[1], args[2], A,
                        want >= 0             ? "overrider #"
                            : want == NOT_IMPL ? "no_overrider "
                                              : "ambiguous_call ",
                        want,
                        got >= 0             ? "overrider #"
                            : got == NOT_IMPL ? "no_overrider "
                            : got == AMBIG    ? "ambiguous_call "
                                              : "other error ",
                        got);
            }
        }
        if (o.next && want >= 0) {
            NX& x = nx[want];
            int r = ref_resolve_set(p, m, app & ~(1u << want));
            bool have = false;
            for (int i = 0; i < x.n; ++i)
                have = have || x.ref[i] == r;
            if (!have && x.n < 64)
                x.ref[x.n++] = r;
            int got = DM::next(want, args);
            ex.transition();
            h = mc::mix(h, std::uint64_t(got + 60));
            if (x.got != -100 && x.got != got)
                mc::fail("next of overrider #%d is not stable", want);
            x.got = got;
            for (int j = 0; j < A; ++j)
                x.args[j] = args[j];
        }
        int j = 0;
        while (j < A && ++idx[j] == nc[j])
            idx[j++] = 0;
        if (j == A)
            break;
    }
    bad_ni += any_ni;
    bad_amb += any_amb;
    if (o.next) {
        for (int k = 0; k < m.novr; ++k) {
            NX& x = nx[k];
            if (!x.n)
                continue;
            bool in = false;
            for (int i = 0; i < x.n; ++i)
                in = in || x.ref[i] == x.got;
            if (!in)
                mc::fail(
                    "method %d: next of overrider #%d called with (c%d,c%d,c%d)"
                    " [arity %d] yields %d instead of %d",
                    number, k, x.args[0], x.args[1], x.args[2], A, x.got,
                    x.ref[0]);
            if (DM::Ovr::has_next(k) != (x.got >= 0))
                mc::fail(
                    "method %d: has_next of overrider #%d is %d, but calling "
                    "next yields %d",
                    number, k, int(DM::Ovr::has_next(k)), x.got);
            if (x.n > 1)
                ex.count(0); // argument-dependent `next` (known finding)
        }
    }
}

// groups of classes that accept the same overriders, per parameter
inline std::size_t ref_cells(const Poset& p, const RefMethod& m) {
    if (m.arity < 2)
        return 0;
    std::size_t cells = 1;
    for (int j = 0; j < m.arity; ++j) {
        std::set<unsigned> masks;
        for (int c = 0; c < p.n; ++c)
            if (p.leq(c, m.root[j])) {
                unsigned mask = 0;
                for (int k = 0; k < m.novr; ++k)
                    if (p.leq(c, m.ovr[k][j]))
                        mask |= 1u << k;
                masks.insert(mask);
            }
        cells *= masks.size();
    }
    return cells;
}

template<class CW_, class... DM>
struct Engine {
    using CW = CW_;
    using R = typename CW::R;
    static constexpr int nmethods = sizeof...(DM);

    static std::vector<RefMethod> shapes() {
        std::vector<RefMethod> v(sizeof...(DM));
        int i = 0;
        ((v[i].arity = DM::arity, v[i].novr = DM::novr, ++i), ...);
        return v;
    }

    static void install() {
        CW::install_classes();
        static std::tuple<typename DM::Ovr::type...> ovr;
        (void)&ovr;
    }

    static void setup(const Config& c) {
        CW::set_classes(c.p.n, c.effective_groups());
        int i = 0;
        (set_method<DM>(c.methods[i++]), ...);
    }

    template<class D>
    static void set_method(const RefMethod& m) {
        D::set_method(m.root);
        for (int k = 0; k < D::novr; ++k)
            D::Ovr::set(k, m.ovr[k], -1);
    }

    template<class... Options>
    static void run(
        mc::Explorer& ex, const Config& c, const Obl& o, Options... options) {
        setup(c);
        seen = Seen();
        std::size_t cells = 0, ni = 0, amb = 0;
        try {
            auto report = bom::initialize<R>(options...).report;
            cells = report.cells;
            ni = report.not_implemented;
            amb = report.ambiguous;
        } catch (Thrown& t) {
            mc::fail("initialize failed with %s", err_name(t.kind));
        }
        ex.transition();
        std::uint64_t h = 1;
        for (int i = 0; i < c.p.n; ++i)
            h = mc::mix(h, c.p.up[i]);
        for (auto& m : c.methods)
            for (int j = 0; j < m.arity; ++j)
                h = mc::mix(h, std::uint64_t(m.root[j]));
        int bad_ni = 0, bad_amb = 0;
        int i = 0;
        ((verify_method<DM>(ex, c.p, c.methods[i], i, o, h, bad_ni, bad_amb), ++i),
         ...);
        if (o.report) {
            std::size_t want = 0;
            for (auto& m : c.methods)
                want += ref_cells(c.p, m);
            if (cells != want)
                mc::fail(
                    "report says %d dispatch table cells, expected %d",
                    int(cells), int(want));
            if (int(ni) != bad_ni)
                mc::fail(
                    "report says %d not implemented, but %d methods have an "
                    "unimplemented tuple",
                    int(ni), bad_ni);
            if (int(amb) != bad_amb)
                mc::fail(
                    "report says %d ambiguous, but %d methods have an "
                    "ambiguous tuple",
                    int(amb), bad_amb);
            h = mc::mix(h, cells);
            h = mc::mix(h, ni);
            h = mc::mix(h, amb);
        }
        ex.state(h);
        ex.trace_ok();
    }
};

// all pairs/tuples of classes below the roots
inline std::vector<std::array<int, 4>>
tuples_below(const Poset& p, const RefMethod& m) {
    std::vector<std::array<int, 4>> r;
    std::array<int, 4> t{};
    int idx[4] = {};
    for (;;) {
        bool ok = true;
        for (int j = 0; j < m.arity; ++j) {
            t[j] = idx[j];
            ok = ok && p.leq(idx[j], m.root[j]);
        }
        if (ok)
            r.push_back(t);
        int j = 0;
        while (j < m.arity && ++idx[j] == p.n)
            idx[j++] = 0;
        if (j == m.arity)
            break;
    }
    return r;
}

// Enumerate the overriders of method m: all sequences (every registration
// order, with repetitions) or all sets.
template<class F>
void for_overriders(const Poset& p, RefMethod& m, bool sets, F f) {
    auto t = tuples_below(p, m);
    std::vector<int> idx(m.novr, 0);
    int T = int(t.size());
    if (sets) {
        if (m.novr > T)
            return;
        for (int k = 0; k < m.novr; ++k)
            idx[k] = k;
    }
    for (;;) {
        for (int k = 0; k < m.novr; ++k)
            for (int j = 0; j < m.arity; ++j)
                m.ovr[k][j] = t[idx[k]][j];
        f();
        if (sets) {
            int k = m.novr - 1;
            while (k >= 0 && idx[k] == T - m.novr + k)
                --k;
            if (k < 0)
                return;
            ++idx[k];
            for (int i = k + 1; i < m.novr; ++i)
                idx[i] = idx[i - 1] + 1;
        } else {
            int k = 0;
            while (k < m.novr && ++idx[k] == T)
                idx[k++] = 0;
            if (k == m.novr)
                return;
        }
    }
}

template<class F>
void for_roots(const Poset& p, RefMethod& m, F f) {
    int idx[4] = {};
    for (;;) {
        for (int j = 0; j < m.arity; ++j)
            m.root[j] = idx[j];
        f();
        int j = 0;
        while (j < m.arity && ++idx[j] == p.n)
            idx[j++] = 0;
        if (j == m.arity)
            return;
    }
}

} // namespace dyn

#endif
