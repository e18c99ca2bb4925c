// C08: initialize rejects exactly the inconsistent registrations.
#include "engine.hpp"

using namespace dyn;

constexpr int N = 5; // classes; N is a dummy, always registered

struct World2Tag {};

template<int Id, class... Specs>
struct Eng;

template<int A, int O, bool C>
struct Spec {
    static constexpr int arity = A, novr = O;
    static constexpr bool cov = C;
};

template<class R, class Is, class... Specs>
struct DMs;
template<class R, std::size_t... I, class... Specs>
struct DMs<R, std::index_sequence<I...>, Specs...> {
    using type = boost::mp11::mp_list<
        dyn_method<R, int(I), Specs::arity, Specs::novr, Specs::cov>...>;
};

template<int Id, class... Specs>
struct Eng {
    struct Tag {};
    using CW = ClassWorld<Tag, N, N, N - 1, false, pol::vptr_vector, false>;
    using R = typename CW::R;
    using Ms = typename DMs<R, std::index_sequence_for<Specs...>, Specs...>::type;
    static constexpr int id = Id;
    static constexpr int nm = sizeof...(Specs);

    static Config blank() {
        Config c;
        c.methods.resize(nm);
        int i = 0;
        ((c.methods[i].arity = Specs::arity, c.methods[i].novr = Specs::novr, ++i),
         ...);
        return c;
    }
    template<class... DM>
    static void install_m(boost::mp11::mp_list<DM...>) {
        static std::tuple<typename DM::Ovr::type...> o;
        (void)&o;
    }
    static void install() {
        CW::install_classes();
        install_m(Ms());
    }

    static constexpr int ncov = ((Specs::cov ? Specs::novr + 1 : 0) + ... + 0);

    // case: config (poset over n classes) | mask of registered | rets
    struct Decoded {
        Config c;
        int mask;
        std::vector<std::vector<int>> rets; // [method][0]=method, then overriders
    };
    static Decoded decode(const Case& cs) {
        Decoded d;
        d.c = blank();
        d.c.decode(cs);
        const int* q = cs.data() + cs.size() - 1 - ncov;
        d.mask = *q++;
        constexpr bool cov[] = {Specs::cov...};
        for (int i = 0; i < nm; ++i) {
            std::vector<int> r;
            if (cov[i])
                for (int k = 0; k <= d.c.methods[i].novr; ++k)
                    r.push_back(*q++);
            d.rets.push_back(r);
        }
        return d;
    }

    static void setup(const Decoded& d) {
        std::vector<Group> g;
        for (auto& x : closure_groups(d.c.p))
            if ((d.mask >> x.self) & 1)
                g.push_back(x);
        for (int i = 0; i < N; ++i) {
            type_id b[N];
            int k = 0;
            if (i < int(g.size())) {
                for (int x : g[i].bases)
                    b[k++] = cls_id(x);
                CW::Grps::set(i, cls_id(g[i].self), b, k);
            } else {
                CW::Grps::set(i, cls_id(N), b, 0);
            }
        }
    }
    template<class... DM>
    static void set_methods(const Decoded& d, boost::mp11::mp_list<DM...>) {
        int i = 0;
        (set_method<DM>(d.c.methods[i], d.rets[i], i), ...);
    }
    template<class DM>
    static void set_method(const RefMethod& m, const std::vector<int>& r, int& i) {
        DM::set_method(m.root, r.empty() ? -1 : r[0]);
        for (int k = 0; k < DM::novr; ++k)
            DM::Ovr::set(k, m.ovr[k], r.empty() ? -1 : r[k + 1]);
        ++i;
    }

    template<class... DM>
    static void verify(
        mc::Explorer& ex, const Decoded& d, std::uint64_t& h,
        boost::mp11::mp_list<DM...>) {
        Obl o;
        o.dispatch = true;
        int a = 0, b = 0, i = 0;
        ((verify_method<DM>(ex, d.c.p, d.c.methods[i], i, o, h, a, b), ++i), ...);
    }

    static bool leq(const Decoded& d, int x, int y) {
        return ((d.mask >> x) & 1) && ((d.mask >> y) & 1) && d.c.p.leq(x, y);
    }

    static void run(mc::Explorer& ex, const Case& cs) {
        auto d = decode(cs);
        setup(d);
        set_methods(d, Ms());
        // reference
        std::set<int> missing;
        std::set<std::pair<int, int>> bases;
        auto reg = [&](int c) { return c >= 0 && ((d.mask >> c) & 1); };
        for (int i = 0; i < nm; ++i) {
            auto& m = d.c.methods[i];
            for (int j = 0; j < m.arity; ++j) {
                if (!reg(m.root[j]))
                    missing.insert(m.root[j]);
                for (int k = 0; k < m.novr; ++k) {
                    if (!reg(m.ovr[k][j]))
                        missing.insert(m.ovr[k][j]);
                    if (!leq(d, m.ovr[k][j], m.root[j]))
                        bases.insert({m.root[j], m.ovr[k][j]});
                }
            }
            if (!d.rets[i].empty() && reg(d.rets[i][0]))
                for (int k = 0; k < m.novr; ++k)
                    if (!reg(d.rets[i][k + 1]))
                        missing.insert(d.rets[i][k + 1]);
        }
        std::uint64_t h = 3;
        for (int x : cs)
            h = mc::mix(h, std::uint64_t(x + 9));
        seen = Seen();
        Err got = Err::none;
        try {
            bom::initialize<R>();
        } catch (Thrown& t) {
            got = t.kind;
        }
        ex.transition();
        if (seen.count > 1)
            mc::fail("%d errors reported", seen.count);
        if (!missing.empty()) {
            ex.count(0);
            if (got != Err::missing_class)
                mc::fail(
                    "c%d is not registered, but initialize reports %s",
                    *missing.begin(), err_name(got));
            if (!missing.count(id_cls(seen.type)))
                mc::fail(
                    "missing_class names c%d, which is not missing",
                    id_cls(seen.type));
        } else if (!bases.empty()) {
            ex.count(1);
            if (got != Err::missing_base)
                mc::fail(
                    "c%d is not registered as derived from c%d, but initialize "
                    "reports %s",
                    bases.begin()->second, bases.begin()->first, err_name(got));
            if (!bases.count({id_cls(seen.base), id_cls(seen.derived)}))
                mc::fail(
                    "missing_base names base c%d and derived c%d",
                    id_cls(seen.base), id_cls(seen.derived));
        } else {
            ex.count(2);
            if (got != Err::none)
                mc::fail(
                    "the registration is consistent, but initialize reports "
                    "%s (type c%d, base c%d, derived c%d)",
                    err_name(got), id_cls(seen.type), id_cls(seen.base),
                    id_cls(seen.derived));
            verify(ex, d, h, Ms());
        }
        if (got != Err::none) {
            // complete the registration: it works
            Decoded full = d;
            full.mask = (1 << d.c.p.n) - 1;
            for (auto& m : full.c.methods)
                for (int j = 0; j < m.arity; ++j)
                    for (int k = 0; k < m.novr; ++k)
                        if (!full.c.p.leq(m.ovr[k][j], m.root[j]))
                            m.ovr[k][j] = m.root[j];
            for (auto& r : full.rets)
                for (auto& x : r)
                    if (x < 0)
                        x = 0;
            setup(full);
            set_methods(full, Ms());
            seen = Seen();
            try {
                bom::initialize<R>();
            } catch (Thrown& t) {
                mc::fail(
                    "after an error and a correction, initialize reports %s",
                    err_name(t.kind));
            }
            verify(ex, full, h, Ms());
        }
        ex.state(h);
        ex.trace_ok();
    }

    static std::string describe(const Case& cs) {
        auto d = decode(cs);
        auto s = d.c.describe() + "; registered:";
        for (int i = 0; i < d.c.p.n; ++i)
            if ((d.mask >> i) & 1)
                s += " c" + std::to_string(i);
        for (auto& r : d.rets)
            if (!r.empty()) {
                s += "; returns";
                for (int x : r)
                    s += " c" + std::to_string(x);
            }
        return s;
    }
};

// all assignments of values in [0, n) to k variables
template<class F>
void odometer(int k, int n, F f) {
    std::vector<int> v(k, 0);
    for (;;) {
        f(v);
        int i = 0;
        while (i < k && ++v[i] == n)
            v[i++] = 0;
        if (i == k)
            return;
    }
}

template<class E>
void enum1(mc::Explorer& ex, int n) {
    for (int mask = 0; mask < (1 << n); ++mask) {
        // every partial order on the registered classes
        int k = __builtin_popcount(unsigned(mask));
        std::vector<int> pos;
        for (int i = 0; i < n; ++i)
            if ((mask >> i) & 1)
                pos.push_back(i);
        for (auto& q : all_posets(k)) {
            auto c = E::blank();
            c.p.n = n;
            for (int i = 0; i < n; ++i)
                c.p.up[i] = 1u << i;
            for (int i = 0; i < k; ++i)
                for (int j = 0; j < k; ++j)
                    if (q.leq(i, j))
                        c.p.up[pos[i]] |= 1u << pos[j];
            int vars = E::ncov;
            for (auto& m : c.methods)
                vars += m.arity * (1 + m.novr);
            odometer(vars, n, [&](const std::vector<int>& v) {
                if (ex.sh->stop.load())
                    _exit(0);
                if (!ex.mine())
                    return;
                const int* p = v.data();
                for (auto& m : c.methods) {
                    for (int j = 0; j < m.arity; ++j)
                        m.root[j] = *p++;
                    for (int k = 0; k < m.novr; ++k)
                        for (int j = 0; j < m.arity; ++j)
                            m.ovr[k][j] = *p++;
                }
                auto cs = c.encode(E::id);
                cs.push_back(mask);
                for (int i = 0; i < E::ncov; ++i)
                    cs.push_back(*p++);
                ex.exec(cs);
            });
        }
    }
}

template<class... Es>
struct All {
    static void install() {
        (Es::install(), ...);
    }
    static void run(mc::Explorer& ex, const Case& c) {
        (void)((c[0] == Es::id && (Es::run(ex, c), true)) || ...);
    }
    static std::string describe(const Case& c) {
        std::string r;
        (void)((c[0] == Es::id && (r = Es::describe(c), true)) || ...);
        return r;
    }
};

using E0 = Eng<0, Spec<1, 0, false>>;
using E1 = Eng<1, Spec<1, 1, false>>;
using E2 = Eng<2, Spec<1, 2, false>>;
using E3 = Eng<3, Spec<2, 0, false>>;
using E4 = Eng<4, Spec<2, 1, false>>;
using E5 = Eng<5, Spec<2, 2, false>>;
using E6 = Eng<6, Spec<3, 1, false>>;
using E7 = Eng<7, Spec<1, 1, false>, Spec<1, 1, false>>;
using E8 = Eng<8, Spec<1, 1, true>>;
using E9 = Eng<9, Spec<1, 2, true>>;
using E10 = Eng<10, Spec<1, 0, true>, Spec<1, 1, false>>;
using E11 = Eng<11, Spec<2, 1, true>>;
using E12 = Eng<12, Spec<1, 0, false>, Spec<2, 1, false>>;
using E13 = Eng<13, Spec<1, 3, false>>;
using A = All<E0, E1, E2, E3, E4, E5, E6, E7, E8, E9, E10, E11, E12, E13>;

int main(int argc, char** argv) {
    A::install();
    mc::Harness h;
    h.name = "missing";
    h.counters = {"missing_class", "missing_base", "consistent"};
    h.run = A::run;
    h.describe = A::describe;
    h.enumerate = [](mc::Explorer& ex) {
        for (int n = 1; n <= 3; ++n) {
            enum1<E0>(ex, n);
            enum1<E1>(ex, n);
            enum1<E2>(ex, n);
            enum1<E3>(ex, n);
            enum1<E4>(ex, n);
            enum1<E5>(ex, n);
            enum1<E6>(ex, n);
            enum1<E7>(ex, n);
            enum1<E8>(ex, n);
            enum1<E9>(ex, n);
            enum1<E10>(ex, n);
            enum1<E11>(ex, n);
            enum1<E12>(ex, n);
            enum1<E13>(ex, n);
        }
        enum1<E1>(ex, 4);
        enum1<E2>(ex, 4);
        enum1<E4>(ex, 4);
        enum1<E7>(ex, 4);
        enum1<E8>(ex, 4);
        enum1<E13>(ex, 4);
        if (ex.thorough) {
            enum1<E3>(ex, 4);
            enum1<E6>(ex, 4);
            enum1<E9>(ex, 4);
            enum1<E10>(ex, 4);
            enum1<E12>(ex, 4);
            enum1<E1>(ex, 5);
            enum1<E2>(ex, 5);
        }
    };
    return mc::main(argc, argv, h);
}
