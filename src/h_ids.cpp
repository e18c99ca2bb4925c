// C12 (and, for unregistered ids, C13): sets of type ids x policies.  Every
// combination of vptr policy, type hash, indirect_vptr and runtime_checks is
// initialized with every set of ids in the bounds, including several ids per
// class; every class is then looked up, called, and compared with a reference
// that knows nothing about ids.
#include <boost/openmethod/core.hpp>
#include <boost/openmethod/initialize.hpp>
#include <boost/openmethod/policies/fast_perfect_hash.hpp>
#include <boost/openmethod/policies/vptr_map.hpp>
#include <boost/openmethod/policies/vptr_vector.hpp>

#include "dyn.hpp"

#include <map>

using namespace dyn;

using Id = std::uint64_t;

// id -> class, for the configuration being explored
extern std::vector<std::pair<Id, int>> g_ids;

inline int class_of(Id id) {
    for (auto& [i, c] : g_ids)
        if (i == id)
            return c;
    return -1;
}

struct id_rtti : pol::deferred_static_rtti {
    template<class Registry>
    struct fn : pol::rtti::defaults {
        template<class T>
        static constexpr bool is_polymorphic = has_dyn<T>::value;
        template<class T>
        static type_id static_type() {
            if constexpr (has_dyn<T>::value)
                return T::the_id;
            else
                return type_id(&static_tag<T>);
        }
        template<class T>
        static type_id dynamic_type(const T& obj) {
            if constexpr (has_dyn<T>::value)
                return obj.id;
            else
                return nullptr;
        }
        // the harness chooses which ids denote the same class
        static std::uint64_t type_index(type_id t) {
            int c = class_of(Id(t));
            return c >= 0 ? std::uint64_t(c) : Id(t) | 1024;
        }
    };
};

constexpr int NREC = 34;  // registration records
constexpr int MAXCLS = 34;
constexpr int NOVR = 4;

// classes form a tree
inline int parent(int c) {
    return c == 0 ? -1 : c < 4 ? (c - 1) / 2 : c % 4;
}
inline bool derives(int d, int b) {
    for (; d >= 0; d = parent(d))
        if (d == b)
            return true;
    return false;
}

// overriders: class per parameter, given the number of classes
inline int uni_ovr(int k, int n) {
    return std::min(k, n - 1);
}
inline int bi_ovr(int k, int j, int n) {
    static const int t[NOVR][2] = {{0, 0}, {1, 0}, {0, 2}, {3, 3}};
    return std::min(t[k][j], n - 1);
}

template<int A, class F>
int reference(const int* args, F cls) {
    unsigned app = 0;
    for (int k = 0; k < NOVR; ++k) {
        bool ok = true;
        for (int j = 0; j < A; ++j)
            ok = ok && derives(args[j], cls(k, j));
        if (ok)
            app |= 1u << k;
    }
    if (!app)
        return NOT_IMPL;
    int best = -1, count = 0;
    for (int a = 0; a < NOVR; ++a) {
        if (!((app >> a) & 1))
            continue;
        bool dominated = false;
        for (int b = 0; b < NOVR; ++b) {
            if (b == a || !((app >> b) & 1))
                continue;
            bool some = false, none = true;
            for (int j = 0; j < A; ++j) {
                int x = cls(b, j), y = cls(a, j);
                if (x != y && derives(x, y))
                    some = true;
                else if (x != y && derives(y, x))
                    none = false;
            }
            dominated = dominated || (some && none);
        }
        if (!dominated) {
            best = a;
            ++count;
        }
    }
    return count == 1 ? best : AMBIG;
}

struct Rec {
    Id id;
    int cls;
};
using Config = std::vector<Rec>;

inline int num_classes(const Config& c) {
    int n = 0;
    for (auto& r : c)
        n = std::max(n, r.cls + 1);
    return n;
}

struct hash_error : Thrown {
    std::size_t attempts, buckets;
};

struct handler : recording_handler {
    template<class Registry>
    struct fn : recording_handler::fn<Registry> {
        using recording_handler::fn<Registry>::error;
        static void error(const pol::fast_perfect_hash::search_error& e) {
            throw hash_error{{Err::search_error}, e.attempts, e.buckets};
        }
    };
};

// C13 looks at the unregistered ids
inline bool only(const char* prop) {
    auto p = std::getenv("VERIF_PROP");
    return p && std::string(p) == prop;
}
inline bool want_unregistered() {
    static bool w = !only("C12");
    return w;
}

// counters
constexpr int C_INIT = 0, C_SEARCH_ERR = 1, C_LOOKUP = 2, C_UNREG = 3, C_REINIT = 4;

enum class Kind { hash, vector, map };

template<Kind K, bool Indirect, bool Checks>
struct World {
    template<class... P>
    using mk = bom::registry<P...>;
    using Policies = mp11::mp_append<
        mp11::mp_list<id_rtti, handler, null_output>,
        std::conditional_t<
            K == Kind::hash,
            mp11::mp_list<pol::vptr_vector, pol::fast_perfect_hash>,
            std::conditional_t<
                K == Kind::vector, mp11::mp_list<pol::vptr_vector>,
                mp11::mp_list<pol::vptr_map<>>>>,
        std::conditional_t<
            Indirect, mp11::mp_list<pol::indirect_vptr>, mp11::mp_list<>>,
        std::conditional_t<
            Checks, mp11::mp_list<pol::runtime_checks>, mp11::mp_list<>>>;
    struct R : mp11::mp_apply<bom::registry, Policies> {};

    // parameters and overriders' parameters
    struct P {
        using dyn_tag = P;
        type_id id;
        inline static type_id the_id = nullptr;
        explicit P(Id i = 0) : id(type_id(i)) {
        }
    };
    template<int KK, int J>
    struct Q : P {
        using dyn_tag = Q;
        inline static type_id the_id = nullptr;
    };
    struct UniId;
    using Uni = bom::method<UniId, int(bom::virtual_<P&>), R>;
    struct BiId;
    using Bi = bom::method<BiId, int(bom::virtual_<P&>, bom::virtual_<P&>), R>;
    struct PtrId;
    using Ptr = bom::method<PtrId, int(bom::virtual_ptr<P, R>), R>;

    template<int KK>
    static int uni(Q<KK, 0>&) {
        return KK;
    }
    template<int KK>
    static int bi(Q<KK, 1>&, Q<KK, 2>&) {
        return KK;
    }
    template<int KK>
    static int ptr(bom::virtual_ptr<Q<KK, 0>, R>) {
        return KK;
    }

    template<int G>
    using Grp1 = Grp<R, G, std::make_integer_sequence<int, 1>>;
    template<int... G>
    static void install_groups(std::integer_sequence<int, G...>) {
        static std::tuple<typename Grp1<G>::use...> t;
        (void)&t;
    }
    template<int... G>
    static void set_groups(
        const Config& c, const std::vector<Id>& first,
        std::integer_sequence<int, G...>) {
        auto one = [&](auto g) {
            constexpr int I = decltype(g)::value;
            auto& r = c[I < int(c.size()) ? I : 0];
            int p = parent(r.cls);
            type_id b = type_id(p < 0 ? r.id : first[p]);
            Grp1<I>::set(type_id(r.id), &b, 1);
        };
        (one(std::integral_constant<int, G>()), ...);
    }
    template<int... KK>
    static void set_overriders(
        const std::vector<Id>& last, std::integer_sequence<int, KK...>) {
        int n = int(last.size());
        ((Q<KK, 0>::the_id = type_id(last[uni_ovr(KK, n)])), ...);
        ((Q<KK, 1>::the_id = type_id(last[bi_ovr(KK, 0, n)])), ...);
        ((Q<KK, 2>::the_id = type_id(last[bi_ovr(KK, 1, n)])), ...);
    }
    using Gs = std::make_integer_sequence<int, NREC>;
    using Ks = std::make_integer_sequence<int, NOVR>;

    static void install() {
        install_groups(Gs());
        static typename Uni::template override<uni<0>, uni<1>, uni<2>, uni<3>> o1;
        static typename Bi::template override<bi<0>, bi<1>, bi<2>, bi<3>> o2;
        static typename Ptr::template override<ptr<0>, ptr<1>, ptr<2>, ptr<3>> o3;
        (void)&o1, (void)&o2, (void)&o3;
    }

    static void configure(const Config& c) {
        g_ids.clear();
        int n = num_classes(c);
        std::vector<Id> first(n), last(n);
        for (auto& r : c) {
            g_ids.push_back({r.id, r.cls});
            last[r.cls] = r.id;
        }
        for (auto i = c.rbegin(); i != c.rend(); ++i)
            first[i->cls] = i->id;
        set_groups(c, first, Gs());
        set_overriders(last, Ks());
        P::the_id = type_id(last[0]);
    }

    template<class F>
    static int attempt(F f) {
        seen = Seen();
        try {
            return f();
        } catch (Thrown& t) {
            return t.kind == Err::no_overrider    ? NOT_IMPL
                : t.kind == Err::ambiguous ? AMBIG
                                                  : -100 - int(t.kind);
        }
    }
    static const char* result(int r) {
        static std::string s;
        s = r == NOT_IMPL ? "no_overrider"
            : r == AMBIG  ? "ambiguous_call"
            : r <= -100   ? err_name(Err(-100 - r))
                          : "overrider " + std::to_string(r);
        return s.c_str();
    }

    // pigeonhole: can the ids ever fit the tables the library tries?
    static void one(
        mc::Explorer& ex, const Config& c, const std::vector<Id>& others) {
        configure(c);
        int n = num_classes(c);
        ex.count(C_INIT);
        try {
            bom::initialize<R>();
        } catch (hash_error& e) {
            ex.count(C_SEARCH_ERR);
            if (K != Kind::hash)
                mc::fail("search_error in a registry without a type hash");
            if (int(c.size()) <= n)
                mc::fail(
                    "no hash function found for %d ids of %d classes",
                    int(c.size()), n);
            if (e.attempts == 0 || (e.buckets & (e.buckets - 1)) != 0)
                mc::fail(
                    "search_error: %d attempts, %d buckets", int(e.attempts),
                    int(e.buckets));
            if (e.buckets >= c.size() && c.size() > 16)
                mc::fail(
                    "search_error reports %d buckets for %d ids: larger than "
                    "any it tried",
                    int(e.buckets), int(c.size()));
            return;
        } catch (Thrown& t) {
            mc::fail("initialize reports %s", err_name(t.kind));
        }
        std::vector<bom::vptr_type> vp(n, nullptr);
        auto nr = c.size();
        for (std::size_t i = 0; i < nr; ++i) {
            ex.count(C_LOOKUP);
            P obj(c[i].id);
            int a[2] = {c[i].cls, 0};
            int want = reference<1>(
                a, [&](int k, int) { return uni_ovr(k, n); });
            int got = attempt([&] { return Uni::fn(obj); });
            if (got != want)
                mc::fail(
                    "call with id %#llx of class %d: %s, should be %d",
                    (unsigned long long)c[i].id, c[i].cls, result(got), want);
            got = attempt([&] {
                bom::virtual_ptr<P, R> p(obj);
                auto v = p.vptr();
                if (!v)
                    mc::fail(
                        "null v-table for id %#llx",
                        (unsigned long long)c[i].id);
                auto& w = vp[c[i].cls];
                if (w && w != v)
                    mc::fail("two ids of class %d give different v-tables", c[i].cls);
                w = v;
                return Ptr::fn(p);
            });
            if (got != want)
                mc::fail(
                    "call through a virtual_ptr, id %#llx of class %d: %s, "
                    "should be %d",
                    (unsigned long long)c[i].id, c[i].cls, result(got), want);
            ex.transition(2);
            for (std::size_t j = 0; j < nr; ++j) {
                if (nr > 8 && j != i && j != 0 && j + 1 != nr && j != i + 1)
                    continue;
                P o2(c[j].id);
                int b[2] = {c[i].cls, c[j].cls};
                int w2 = reference<2>(
                    b, [&](int k, int j) { return bi_ovr(k, j, n); });
                int g2 = attempt([&] { return Bi::fn(obj, o2); });
                if (g2 != w2)
                    mc::fail(
                        "call with ids %#llx, %#llx of classes %d, %d: %s, "
                        "should be %d",
                        (unsigned long long)c[i].id, (unsigned long long)c[j].id,
                        b[0], b[1], result(g2), w2);
                ex.transition();
            }
        }
        for (int a = 0; a < n; ++a)
            for (int b = 0; b < a; ++b)
                if (vp[a] && vp[a] == vp[b])
                    mc::fail("classes %d and %d have the same v-table", a, b);
        if (Checks && want_unregistered()) {
            Id top = 0;
            for (auto& r : c)
                top = std::max(top, r.id);
            for (auto id : others) {
                if (class_of(id) >= 0 || (K == Kind::vector && id <= top))
                    continue;
                ex.count(C_UNREG);
                ex.transition(2);
                P obj(id), good(c[0].id);
                auto check = [&](const char* what, int got) {
                    if (got != -100 - int(Err::missing_class))
                        mc::fail(
                            "%s with unregistered id %#llx: %s, should be "
                            "missing_class",
                            what, (unsigned long long)id, result(got));
                    if (seen.type != type_id(id) || seen.count != 1)
                        mc::fail(
                            "%s with unregistered id %#llx reports id %#llx",
                            what, (unsigned long long)id,
                            (unsigned long long)seen.type);
                };
                check("call", attempt([&] { return Uni::fn(obj); }));
                check("virtual_ptr", attempt([&] {
                          bom::virtual_ptr<P, R> p(obj);
                          return 0;
                      }));
                check("call(2)", attempt([&] { return Bi::fn(good, obj); }));
                check("call(1)", attempt([&] { return Bi::fn(obj, good); }));
            }
        }
    }

    static void finalize() {
        bom::finalize<R>();
    }
};

struct Reg {
    void (*install)();
    void (*one)(mc::Explorer&, const Config&, const std::vector<Id>&);
    void (*finalize)();
    Kind kind;
    bool checks;
    const char* name;
};

template<Kind K, bool I, bool C>
Reg reg(const char* name) {
    using W = World<K, I, C>;
    return {W::install, W::one, W::finalize, K, C, name};
}

std::vector<Reg> regs0();
std::vector<Reg> regs1();
std::vector<Reg> regs2();

#ifndef PART
#define PART -1
#endif

#if PART == 0
std::vector<Reg> regs0() {
    return {
        reg<Kind::hash, false, false>("vptr_vector, fast_perfect_hash"),
        reg<Kind::hash, false, true>("vptr_vector, fast_perfect_hash, runtime_checks"),
        reg<Kind::hash, true, false>("vptr_vector, fast_perfect_hash, indirect_vptr"),
        reg<Kind::hash, true, true>("vptr_vector, fast_perfect_hash, indirect_vptr, runtime_checks")};
}
#elif PART == 1
std::vector<Reg> regs1() {
    return {
        reg<Kind::vector, false, false>("vptr_vector"),
        reg<Kind::vector, false, true>("vptr_vector, runtime_checks"),
        reg<Kind::vector, true, false>("vptr_vector, indirect_vptr"),
        reg<Kind::vector, true, true>("vptr_vector, indirect_vptr, runtime_checks")};
}
#elif PART == 2
std::vector<Reg> regs2() {
    return {
        reg<Kind::map, false, false>("vptr_map"),
        reg<Kind::map, false, true>("vptr_map, runtime_checks"),
        reg<Kind::map, true, false>("vptr_map, indirect_vptr"),
        reg<Kind::map, true, true>("vptr_map, indirect_vptr, runtime_checks")};
}
#else

std::vector<std::pair<Id, int>> g_ids;

// ids are designated by their index in this pool.  The first SMALL ones may be
// used as indices.  (~0 is excluded: see known_findings.json.)
constexpr int SMALL = 12;
static const std::vector<Id> pool = {
    0, 1, 2, 3, 4, 5, 7, 8, 13, 64, 100, 1000,
    // addresses, as laid out by a linker
    0x555555558d40, 0x555555558d50, 0x555555558d58, 0x555555558d70,
    0x7ffff7fb0d40, 0x7ffff7fa0d40,
    // unusual values
    1ull << 31, 1ull << 32, 1ull << 48, 1ull << 63, (1ull << 63) + 8,
    0xfffffffffffffffe, 0xaaaaaaaaaaaaaaaa, 0x5555555555555555,
    0x0001000100010001, 0x8000000080000000};

static const Id fam_base[] = {0, 0x555555558d40, 0x7ffff7fb0d48, 0xffffffffffff0000};
static const Id fam_stride[] = {1, 8, 16, 24, 40, 4096, 1ull << 32, 3};

// a case: registry, then configurations; a configuration is either
//   0 n (id class)*n      ids from the pool
//   1 base stride n m     n classes, m ids per class, regularly spaced
struct Parsed {
    int reg;
    std::vector<Config> configs;
};

Parsed parse(const mc::Case& c) {
    Parsed p;
    p.reg = c[0];
    std::size_t i = 1;
    while (i < c.size()) {
        Config cfg;
        if (c[i] == 0) {
            int n = c[i + 1];
            for (int k = 0; k < n; ++k)
                cfg.push_back({pool[c[i + 2 + 2 * k]], c[i + 3 + 2 * k]});
            i += 2 + 2 * n;
        } else {
            Id b = fam_base[c[i + 1]], s = fam_stride[c[i + 2]];
            int n = c[i + 3], m = c[i + 4];
            for (int k = 0; k < n * m; ++k)
                cfg.push_back({b + Id(k) * s, k % n});
            i += 5;
        }
        p.configs.push_back(cfg);
    }
    return p;
}

int main(int argc, char** argv) {
    std::vector<Reg> regs;
    for (auto& v : {regs0(), regs1(), regs2()})
        for (auto& r : v)
            regs.push_back(r);
    for (auto& r : regs)
        r.install();

    mc::Harness h;
    h.name = "ids";
    h.counters = {"initialized", "search_errors", "lookups", "unregistered_ids", "reinitialized"};
    h.run = [&](mc::Explorer& ex, const mc::Case& c) {
        auto p = parse(c);
        auto& r = regs[p.reg];
        r.finalize();
        if (p.configs.size() > 1)
            ex.count(C_REINIT);
        for (std::size_t i = 0; i < p.configs.size(); ++i) {
            std::vector<Id> others = pool;
            // ids of the other configurations, and neighbours
            for (auto& k : p.configs)
                for (auto& x : k) {
                    others.push_back(x.id);
                    if (i == 0)
                        others.push_back(x.id + 8);
                }
            others.erase(
                std::remove(others.begin(), others.end(), ~Id(0)), others.end());
            r.one(ex, p.configs[i], others);
        }
        std::uint64_t hh = 0;
        for (int x : c)
            hh = mc::mix(hh, x + 7);
        ex.state(hh);
        ex.trace_ok();
    };
    h.describe = [&](const mc::Case& c) {
        auto p = parse(c);
        std::string s = std::string(regs[p.reg].name) + ":";
        const char* sep = " ";
        for (auto& k : p.configs) {
            s += sep;
            sep = ", then ";
            s += "initialize with";
            for (auto& r : k) {
                char b[40];
                std::snprintf(
                    b, sizeof b, " %#llx=C%d", (unsigned long long)r.id, r.cls);
                s += b;
            }
        }
        return s;
    };
    h.enumerate = [&](mc::Explorer& ex) {
        // 1. every sequence of <= K distinct ids, every assignment of the ids
        // to classes (restricted growth for the classes' numbers, then all
        // surjections: class numbers matter, they are the hierarchy)
        auto assignments = [&](int m, auto f) {
            // all surjections of m records onto n classes, n = 1..m
            std::vector<int> a(m, 0);
            for (;;) {
                int n = 0;
                unsigned used = 0;
                for (int x : a) {
                    n = std::max(n, x + 1);
                    used |= 1u << x;
                }
                if (used == (1u << n) - 1)
                    f(a);
                int i = m - 1;
                while (i >= 0 && ++a[i] == m)
                    a[i--] = 0;
                if (i < 0)
                    break;
            }
        };
        auto subsets = [&](int lo, int hi, int m, auto f) {
            // increasing sequences of m pool indices in [lo, hi)
            std::vector<int> s(m);
            for (int i = 0; i < m; ++i)
                s[i] = lo + i;
            if (lo + m > hi)
                return;
            for (;;) {
                f(s);
                int i = m - 1;
                while (i >= 0 && s[i] == hi - m + i)
                    --i;
                if (i < 0)
                    break;
                ++s[i];
                for (int k = i + 1; k < m; ++k)
                    s[k] = s[k - 1] + 1;
            }
        };
        int np = int(pool.size());
        static bool c13 = only("C13");
        auto skip = [&](int r) { return c13 && !regs[r].checks; };
        for (int r = 0; r < int(regs.size()); ++r) {
            if (skip(r))
                continue;
            int hi = regs[r].kind == Kind::vector ? SMALL : np;
            for (int m = 1; m <= (ex.thorough ? 5 : 4) - c13; ++m)
                subsets(0, hi, m, [&](const std::vector<int>& s) {
                    // beyond the first sizes, use half of the pool, and one
                    // assignment per partition of the ids
                    bool half = m == (ex.thorough ? 5 : 4);
                    if (half)
                        for (int x : s)
                            if (x % 2 == 0)
                                return;
                    assignments(m, [&](const std::vector<int>& a) {
                        if (m >= 4) {
                            int top = -1; // restricted growth strings only
                            for (int x : a) {
                                if (x > top + 1)
                                    return;
                                top = std::max(top, x);
                            }
                        }
                        mc::Case c{r, 0, m};
                        for (int i = 0; i < m; ++i) {
                            c.push_back(s[i]);
                            c.push_back(a[i]);
                        }
                        ex.consider(c);
                        if (m <= 3) {
                            // reverse registration order
                            mc::Case d{r, 0, m};
                            for (int i = m - 1; i >= 0; --i) {
                                d.push_back(s[i]);
                                d.push_back(a[i]);
                            }
                            ex.consider(d);
                        }
                    });
                });
        }
        // 2. families of regularly spaced ids
        for (int r = 0; r < int(regs.size()); ++r)
            for (int b = 0; b < 4; ++b)
                for (int s = 0; s < 8; ++s) {
                    if (skip(r))
                        continue;
                    if (regs[r].kind == Kind::vector && (b != 0 || s > 5))
                        continue;
                    for (int n = 1; n <= NREC; ++n)
                        for (int m = 1; n * m <= NREC; ++m)
                            ex.consider({r, 1, b, s, n, m});
                }
        // 3. two initializations in a row
        for (int r = 0; r < int(regs.size()); ++r) {
            if (skip(r))
                continue;
            bool small = regs[r].kind == Kind::vector;
            std::vector<int> few = small ? std::vector<int>{0, 1, 2, 8, 11}
                                         : std::vector<int>{0, 1, 12, 13, 21};
            std::vector<mc::Case> cfgs;
            for (int m = 1; m <= (ex.thorough ? 4 : 3); ++m)
                subsets(0, int(few.size()), m, [&](const std::vector<int>& s) {
                    assignments(m, [&](const std::vector<int>& a) {
                        mc::Case c{0, m};
                        for (int i = 0; i < m; ++i) {
                            c.push_back(few[s[i]]);
                            c.push_back(a[i]);
                        }
                        cfgs.push_back(c);
                    });
                });
            for (int n : {5, 17, 34})
                cfgs.push_back({1, 0, 2, n, 1});
            cfgs.push_back({1, 0, 1, 1, 20}); // search fails
            for (auto& x : cfgs)
                for (auto& y : cfgs) {
                    mc::Case c{r};
                    c.insert(c.end(), x.begin(), x.end());
                    c.insert(c.end(), y.begin(), y.end());
                    ex.consider(c);
                }
        }
    };
    return mc::main(argc, argv, h);
}
#endif
