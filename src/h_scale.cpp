// h_scale: the families of h_dispatch and h_multi are exhaustive, but small.
// Here are families of configurations with one or two parameters, explored for
// *every* value of the parameters up to bounds that exceed the natural
// thresholds of an implementation (8, 16, 32, 64, 128, 256 classes, overriders,
// methods; 65536 cells; many virtual parameters).
//
// VERIF_PROP: C01 (overrider that runs), C02 (errors), C03 (next), C05 (many
// methods), C06 (report).
#include "dyn.hpp"

#include <bitset>
#include <map>
#include <memory>

using namespace dyn;

constexpr int MAXC = 330;   // classes
constexpr int MAXE = 700;   // inheritance relations
constexpr int KU = 300;     // overriders of the large methods
constexpr int NUNI = 150;   // small methods
constexpr int NBIN = 20;
constexpr int MAXA = 16;    // virtual parameters

struct R : bom::registry<dyn_rtti, pol::vptr_vector, recording_handler, null_output,
                         pol::runtime_checks, marker<struct scale>> {};

// an inheritance relation, or (self, self)
template<int I>
struct EdgeB {
    using dyn_tag = EdgeB;
    type_id id;
    inline static type_id the_id = nullptr;
    static type_id dyn_id() {
        return the_id;
    }
};
template<int I>
struct Edge : EdgeB<I> {
    using dyn_tag = Edge;
    type_id id;
    inline static type_id the_id = nullptr;
    static type_id dyn_id() {
        return the_id;
    }
};

// the type ids of the edges, by index
extern type_id* edge_self[MAXE];
extern type_id* edge_base[MAXE];

template<int I>
void install_edge() {
    static bom::use_classes<Edge<I>, EdgeB<I>, R> classes;
    edge_self[I] = &Edge<I>::the_id;
    edge_base[I] = &EdgeB<I>::the_id;
}

template<int... I>
void install_edges(std::integer_sequence<int, I...>) {
    (install_edge<I>(), ...);
}

struct MethodOps {
    int arity, novr;
    void (*set_method)(const int*, int);
    void (*set)(int, const int*, int);
    int (*call)(const int*);
    int (*next)(int, const int*);
    bool (*has_next)(int);
};

extern std::vector<MethodOps> method_ops;

template<class DM>
void install_method() {
    static typename DM::Ovr::type o;
    (void)&o;
    (void)&DM::Method::fn;
    method_ops.push_back(MethodOps{
        DM::arity, DM::novr, [](const int* p, int r) { DM::set_method(p, r); },
        [](int k, const int* p, int r) { DM::Ovr::set(k, p, r); },
        [](const int* c) { return DM::call(c); },
        [](int k, const int* c) { return DM::next(k, c); },
        [](int k) { return DM::Ovr::has_next(k); }});
}

void install_part0();
void install_part1();
void install_part2();
void install_part3();
void install_part4();
void install_part5();

template<int Base, int... I>
void install_unis(std::integer_sequence<int, I...>) {
    (install_method<dyn_method<R, Base + I, 1, 2>>(), ...);
}
template<int Base, int... I>
void install_bins(std::integer_sequence<int, I...>) {
    (install_method<dyn_method<R, Base + I, 2, 2>>(), ...);
}
template<int Base, int... I>
void install_arities(std::integer_sequence<int, I...>) {
    (install_method<dyn_method<R, Base + I, I + 3, I + 3 + 3>>(), ...);
}

#ifdef PART
#if PART == 0
void install_part0() { // method 0
    install_method<dyn_method<R, 0, 1, KU>>();
}
#elif PART == 1
void install_part1() { // method 1
    install_method<dyn_method<R, 1, 2, KU>>();
}
#elif PART == 2
void install_part2() { // 2 .. NUNI+1
    install_unis<2>(std::make_integer_sequence<int, NUNI>());
}
#elif PART == 3
void install_part3() {
    install_bins<2 + NUNI>(std::make_integer_sequence<int, NBIN>());
}
#elif PART == 4
void install_part4() { // arities 3 to 16
    install_arities<2 + NUNI + NBIN>(std::make_integer_sequence<int, MAXA - 2>());
}
#elif PART == 5
void install_part5() {
    install_edges(std::make_integer_sequence<int, MAXE>());
}
#endif
#else

type_id* edge_self[MAXE];
type_id* edge_base[MAXE];
std::vector<MethodOps> method_ops;

constexpr int M_UNI = 0, M_BIN = 1, M_UNIS = 2, M_BINS = 2 + NUNI,
              M_ARITY = 2 + NUNI + NBIN - 3; // + arity

static bool chk_calls, chk_errors, chk_next, chk_report;

// ---------------------------------------------------------------------------
// configurations

struct Meth {
    int index; // in method_ops
    std::vector<int> root;
    std::vector<std::vector<int>> ovr;
};

struct Conf {
    int n = 0; // classes
    std::vector<std::pair<int, int>> edges; // derived, base
    std::vector<Meth> methods;
    int sink = -1; // the class on which the unused overriders are put
};

using Bits = std::bitset<MAXC>;

struct Ref {
    const Conf& c;
    std::vector<Bits> up;
    explicit Ref(const Conf& c) : c(c), up(c.n) {
        std::vector<std::vector<int>> bases(c.n);
        for (auto& e : c.edges)
            if (e.first != e.second)
                bases[e.first].push_back(e.second);
        std::vector<char> done(c.n);
        for (int i = 0; i < c.n; ++i)
            visit(i, bases, done);
    }
    void visit(int i, std::vector<std::vector<int>>& bases, std::vector<char>& done) {
        if (done[i])
            return;
        done[i] = 1;
        up[i].set(i);
        for (int b : bases[i]) {
            visit(b, bases, done);
            up[i] |= up[b];
        }
    }
    bool isa(int d, int b) const {
        return up[d][b];
    }
    bool dominates(const std::vector<int>& x, const std::vector<int>& y) const {
        bool any = false;
        for (std::size_t j = 0; j < x.size(); ++j) {
            if (x[j] == y[j])
                continue;
            if (isa(y[j], x[j]))
                return false;
            any = any || isa(x[j], y[j]);
        }
        return any;
    }
    int resolve(const Meth& m, const std::vector<int>& cand) const {
        if (cand.empty())
            return NOT_IMPL;
        int best = AMBIG;
        int nb = 0;
        for (int a : cand) {
            bool dom = false;
            for (int b : cand)
                if (b != a && dominates(m.ovr[b], m.ovr[a])) {
                    dom = true;
                    break;
                }
            if (!dom) {
                if (++nb > 1)
                    return AMBIG;
                best = a;
            }
        }
        return nb == 1 ? best : AMBIG;
    }
};

static std::string to_s(const std::vector<int>& v) {
    std::string s = "(";
    for (std::size_t i = 0; i < v.size(); ++i)
        s += (i ? ",c" : "c") + std::to_string(v[i]);
    return s + ")";
}
static std::string res_s(int r) {
    return r >= 0       ? "overrider #" + std::to_string(r)
        : r == NOT_IMPL ? "no_overrider"
        : r == AMBIG    ? "ambiguous_call"
                        : "another error";
}

static void verify(mc::Explorer& ex, const Conf& c, const Ref& ref, std::uint64_t& h,
                   int& ni, int& amb, std::size_t& cells) {
    for (auto& m : c.methods) {
        auto& ops = method_ops[m.index];
        int A = ops.arity;
        std::vector<std::vector<int>> cand(A);
        for (int j = 0; j < A; ++j)
            for (int x = 0; x < c.n; ++x)
                if (ref.isa(x, m.root[j]))
                    cand[j].push_back(x);
        // overriders accepting a class in position j
        std::vector<std::vector<std::bitset<KU>>> acc(A);
        std::size_t product = 1;
        for (int j = 0; j < A; ++j) {
            std::map<std::string, int> masks;
            for (int x : cand[j]) {
                std::bitset<KU> s;
                for (std::size_t k = 0; k < m.ovr.size(); ++k)
                    if (ref.isa(x, m.ovr[k][j]))
                        s.set(k);
                acc[j].push_back(s);
                if (chk_report)
                    masks[s.to_string()];
            }
            product *= masks.size();
        }
        if (A > 1)
            cells += product;
        bool any_ni = false, any_amb = false;
        std::vector<int> idx(A), args(A), app;
        struct NX {
            std::vector<int> ref;
            std::vector<int> args;
            int got = -100;
        };
        std::map<int, NX> nx;
        for (;;) {
            std::bitset<KU> s;
            s.set();
            for (int j = 0; j < A; ++j) {
                args[j] = cand[j][idx[j]];
                s &= acc[j][idx[j]];
            }
            app.clear();
            for (std::size_t k = s._Find_first(); k < s.size(); k = s._Find_next(k))
                app.push_back(int(k));
            int want = ref.resolve(m, app);
            any_ni = any_ni || want == NOT_IMPL;
            any_amb = any_amb || want == AMBIG;
            if (chk_calls || (chk_errors && want < 0)) {
                int got = ops.call(args.data());
                ex.transition();
                h = mc::mix(h, std::uint64_t(got + 40));
                if (got != want)
                    mc::fail("method of arity %d called with %s: expected %s, got %s", A,
                             to_s(args).c_str(), res_s(want).c_str(), res_s(got).c_str());
            }
            if (chk_next && want >= 0) {
                app.erase(std::find(app.begin(), app.end(), want));
                int r = ref.resolve(m, app);
                NX& x = nx[want];
                if (std::find(x.ref.begin(), x.ref.end(), r) == x.ref.end()) {
                    x.ref.push_back(r);
                    int got = ops.next(want, args.data());
                    ex.transition();
                    h = mc::mix(h, std::uint64_t(got + 60));
                    if (x.got != -100 && x.got != got)
                        mc::fail("next of overrider #%d is not stable", want);
                    x.got = got;
                    x.args = args;
                }
            }
            int j = 0;
            while (j < A && ++idx[j] == int(cand[j].size()))
                idx[j++] = 0;
            if (j == A)
                break;
        }
        for (auto& kv : nx) {
            auto& x = kv.second;
            if (std::find(x.ref.begin(), x.ref.end(), x.got) == x.ref.end())
                mc::fail("method of arity %d: next of overrider #%d called with %s is %s instead "
                         "of %s",
                         A, kv.first, to_s(x.args).c_str(), res_s(x.got).c_str(),
                         res_s(x.ref[0]).c_str());
            if (ops.has_next(kv.first) != (x.got >= 0))
                mc::fail("method of arity %d: has_next of overrider #%d is %d, next is %s", A,
                         kv.first, x.got < 0, res_s(x.got).c_str());
        }
        ni += any_ni;
        amb += any_amb;
    }
}

static void execute(mc::Explorer& ex, const mc::Case& k, Conf c) {
    // the unused methods and overriders
    int z = c.n++; // a class of its own
    c.edges.emplace_back(z, z);
    if (c.n > MAXC || int(c.edges.size()) > MAXE)
        mc::fail("harness: too many classes");
    for (int i = 0; i < MAXE; ++i) {
        bool used = i < int(c.edges.size());
        *edge_self[i] = cls_id(used ? c.edges[i].first : z);
        *edge_base[i] = cls_id(used ? c.edges[i].second : z);
    }
    std::vector<const Meth*> by(method_ops.size());
    for (auto& m : c.methods) {
        while (int(m.ovr.size()) < method_ops[m.index].novr) {
            if (c.sink < 0)
                mc::fail("harness: no class for the unused overriders");
            m.ovr.emplace_back(method_ops[m.index].arity, c.sink);
        }
        by[m.index] = &m;
    }
    std::vector<int> zs(MAXA, z);
    int other_ni = 0, other_amb = 0;
    std::size_t other_cells = 0;
    for (std::size_t i = 0; i < by.size(); ++i) {
        auto& ops = method_ops[i];
        ops.set_method(by[i] ? by[i]->root.data() : zs.data(), -1);
        for (int o = 0; o < ops.novr; ++o)
            ops.set(o, by[i] ? by[i]->ovr[o].data() : zs.data(), -1);
        if (!by[i]) {
            ++other_amb; // they have several overriders for the same class
            other_cells += ops.arity > 1;
        }
    }
    Ref ref(c);
    seen = Seen();
    int got_ni = 0, got_amb = 0;
    std::size_t got_cells = 0;
    try {
        auto comp = bom::initialize<R>();
        got_ni = int(comp.report.not_implemented);
        got_amb = int(comp.report.ambiguous);
        got_cells = comp.report.cells;
    } catch (Thrown& t) {
        mc::fail("initialize reports %s", err_name(t.kind));
    }
    std::uint64_t h = mc::mix(0x7363616c, k[0]);
    for (int x : k)
        h = mc::mix(h, std::uint64_t(x));
    int ni = other_ni, amb = other_amb;
    std::size_t cells = other_cells;
    verify(ex, c, ref, h, ni, amb, cells);
    if (chk_report) {
        if (got_ni != ni || got_amb != amb)
            mc::fail("report: %d methods not implemented, %d ambiguous instead of %d, %d", got_ni,
                     got_amb, ni, amb);
        if (got_cells != cells)
            mc::fail("report: %d cells instead of %d", int(got_cells), int(cells));
        h = mc::mix(h, cells);
    }
    ex.state(h);
    ex.trace_ok();
}

// ---------------------------------------------------------------------------
// families

struct Builder {
    Conf c;
    int add(std::initializer_list<int> bases = {}) {
        return add(std::vector<int>(bases));
    }
    int add(const std::vector<int>& bases) {
        int i = c.n++;
        if (bases.empty())
            c.edges.emplace_back(i, i);
        for (int b : bases)
            c.edges.emplace_back(i, b);
        return i;
    }
    Meth& method(int index, std::vector<int> root) {
        c.methods.push_back(Meth{index, root, {}});
        return c.methods.back();
    }
};

enum { CHAIN, STAR, BASES, LADDER, TREE, GRID, METHODS, BINS, ROOTS, ARITY, REPEAT, NFAM };
static const char* fam_names[] = {
    "chain(n, step, order): n classes in a line, an overrider at every step-th",
    "star(n, with root, order): n classes derived from one, an overrider at each",
    "bases(n, kind, order): a class with n bases derived from one; overriders at the bases (and at "
    "the class)",
    "ladder(n, step, order): n diamonds in a line, an overrider at the junctions (every step-th)",
    "tree(depth, step, order): binary tree, an overrider at every step-th class",
    "grid(n, kind, order): n classes derived from one; method of 2 virtual parameters with "
    "overriders at each pair (i,i) (kind 1: (i,n-i); 2: also (root,root); 3: the k first pairs in "
    "lexicographical order, k <= 300)",
    "methods(n, kind, order): n methods of 1 virtual parameter on one class (kind 1: spread on the "
    "classes of a chain of 5; 2: on both sides of a diamond; 3: spread on a ternary tree)",
    "bins(n, kind, order): n methods of 2 virtual parameters, as methods",
    "roots(n, order): a class with n bases without common base, each with a method",
    "arity(a, subset, order): method of a virtual parameters on classes c0 <- c1 <- c2; overriders "
    "(bits): all c0; c1 in position j and c0 in the others; all c1; all c2",
    "repeat(n, order): two classes and a diamond, each registered n times",
};

static Conf make(const mc::Case& k) {
    Builder b;
    auto& c = b.c;
    int fam = k[0], n = k[1], opt = k[2], order = k[3];
    auto uni = [&](int root) -> Meth& { return b.method(M_UNI, {root}); };
    switch (fam) {
    case CHAIN: {
        b.add();
        for (int i = 1; i < n; ++i)
            b.add({i - 1});
        auto& m = uni(0);
        for (int i = 0; i < n; i += opt)
            m.ovr.push_back({i});
        c.sink = b.add({0});
    } break;
    case STAR: {
        b.add();
        auto& m = uni(0);
        if (opt)
            m.ovr.push_back({0});
        for (int i = 0; i < n; ++i)
            m.ovr.push_back({b.add({0})});
        c.sink = b.add({0});
    } break;
    case BASES: {
        b.add();
        std::vector<int> bases;
        auto& m = uni(0);
        for (int i = 0; i < n; ++i) {
            bases.push_back(b.add({0}));
            if (opt != 2 || i == n - 1)
                m.ovr.push_back({bases.back()});
        }
        int x = b.add(bases);
        b.add({x});
        if (opt == 1)
            m.ovr.push_back({x});
        c.sink = b.add({0});
    } break;
    case LADDER: {
        int top = b.add();
        auto& m = uni(0);
        m.ovr.push_back({0});
        for (int i = 0; i < n; ++i) {
            int l = b.add({top}), r = b.add({top});
            top = b.add({l, r});
            if (i % opt == 0)
                m.ovr.push_back({top});
        }
        c.sink = b.add({0});
    } break;
    case TREE: {
        int size = (1 << n) - 1;
        auto& m = uni(0);
        for (int i = 0; i < size; ++i) {
            if (i == 0)
                b.add();
            else
                b.add({(i - 1) / 2});
            if (i % opt == 0)
                m.ovr.push_back({i});
        }
        c.sink = b.add({0});
    } break;
    case GRID: {
        b.add();
        for (int i = 0; i < n; ++i)
            b.add({0});
        auto& m = b.method(M_BIN, {0, 0});
        if (opt == 3) {
            for (int i = 0; i < n; ++i)
                for (int j = 0; j < n; ++j)
                    if (m.ovr.size() < KU)
                        m.ovr.push_back({i + 1, j + 1});
        } else {
            for (int i = 1; i <= n; ++i)
                m.ovr.push_back({i, opt == 1 ? n + 1 - i : i});
            if (opt == 2)
                m.ovr.push_back({0, 0});
        }
        c.sink = b.add({0});
    } break;
    case METHODS:
    case BINS: {
        std::vector<std::pair<int, int>> spots; // root, derived
        switch (opt) {
        case 0:
            b.add();
            b.add({0});
            spots = {{0, 1}};
            break;
        case 1:
            b.add();
            for (int i = 1; i < 6; ++i)
                b.add({i - 1});
            for (int i = 0; i < 5; ++i)
                spots.emplace_back(i, i + 1);
            break;
        case 2:
            b.add();
            b.add({0});
            b.add({0});
            b.add({1, 2});
            spots = {{1, 3}, {2, 3}, {0, 2}, {3, 3}, {0, 1}};
            break;
        case 3:
            b.add();
            for (int i = 1; i < 13; ++i)
                b.add({(i - 1) / 3});
            spots = {{0, 1}, {1, 4}, {2, 8}, {3, 3}, {4, 4}, {12, 12}, {0, 12}};
            break;
        }
        for (int i = 0; i < n; ++i) {
            auto& s = spots[i % spots.size()];
            if (fam == METHODS) {
                auto& m = b.method(M_UNIS + i, {s.first});
                m.ovr = {{s.first}, {s.second}};
            } else {
                auto& t = spots[(i / 2) % spots.size()];
                auto& m = b.method(M_BINS + i, {s.first, t.first});
                m.ovr = {{s.first, t.second}, {s.second, t.first}};
            }
        }
    } break;
    case ROOTS: {
        std::vector<int> bases;
        for (int i = 0; i < n; ++i) {
            bases.push_back(b.add());
            b.method(M_UNIS + i, {i}).ovr = {{i}, {n}};
        }
        int x = b.add(bases);
        b.add({x});
    } break;
    case ARITY: {
        b.add();
        b.add({0});
        b.add({1});
        std::vector<int> z(n, 0);
        auto& m = b.method(M_ARITY + n, z);
        if (opt & 1)
            m.ovr.push_back(z);
        for (int j = 0; j < n; ++j)
            if (opt >> (1 + j) & 1) {
                auto o = z;
                o[j] = 1;
                m.ovr.push_back(o);
            }
        if (opt >> (n + 1) & 1)
            m.ovr.push_back(std::vector<int>(n, 1));
        if (opt >> (n + 2) & 1)
            m.ovr.push_back(std::vector<int>(n, 2));
        c.sink = 2;
    } break;
    case REPEAT: {
        int a = b.add(), l = b.add({a}), r = b.add({a}), d = b.add({l, r});
        auto e = c.edges;
        for (int i = 1; i < n; ++i)
            c.edges.insert(c.edges.end(), e.begin(), e.end());
        uni(a).ovr = {{a}, {l}, {d}};
        c.sink = b.add({a});
    } break;
    }
    if (order == 1)
        std::reverse(c.edges.begin(), c.edges.end());
    return c;
}

static std::string describe(const mc::Case& k) {
    std::string s = fam_names[k[0]];
    s += "; parameters:";
    for (std::size_t i = 1; i < k.size(); ++i)
        s += " " + std::to_string(k[i]);
    if (k.back())
        s += " (registered in reverse order)";
    return s;
}

// the values around the powers of two, and the small ones
static bool sampled(int n, int all, int max) {
    if (n <= all || n == max)
        return true;
    for (int p = 8; p <= 512; p *= 2)
        if (n >= p - 2 && n <= p + 2)
            return true;
    return false;
}

static void enumerate(mc::Explorer& ex) {
    bool T = ex.thorough;
    bool only_many = getenv("VERIF_PROP") && !std::strcmp(getenv("VERIF_PROP"), "C05");
    for (int order = 0; order < 2; ++order) {
        auto go = [&](int f, int n, int o) { ex.consider({f, n, o, order}); };
        if (!only_many) {
            for (int a = 3; a <= MAXA; ++a) {
                // all the subsets, or those of at most two missing
                int bits = a + 3;
                for (int s = 0; s < 1 << bits; ++s) {
                    int on = __builtin_popcount(s);
                    bool few = on <= (a <= 8 ? 2 : a <= 12 ? 1 : 0) ||
                        on >= bits - (a <= 6 ? 2 : a <= 10 ? 1 : 0);
                    bool all = a <= (T ? 7 : 5);
                    if ((few || all) && (a <= (T ? 9 : 7) || (order == 0 && a <= (T ? 11 : 8))))
                        go(ARITY, a, s);
                }
            }
            for (int n = 1; n <= 300; ++n) {
                if (!sampled(n, T ? 300 : 140, 300))
                    continue;
                for (int step = 1; step <= 3; ++step)
                    go(CHAIN, n, step);
                for (int r = 0; r < 2; ++r)
                    if (n + r <= KU)
                        go(STAR, n, r);
                for (int kind = 0; kind < 3; ++kind)
                    if (n < KU)
                        go(BASES, n, kind);
            }
            for (int n = 1; n <= 100; ++n)
                if (sampled(n, T ? 100 : 40, 100))
                    for (int step = 1; step <= 3; ++step)
                        go(LADDER, n, step);
            for (int d = 1; d <= 8; ++d)
                for (int step = 1; step <= 3; ++step)
                    go(TREE, d, step);
            for (int n = 1; n <= 299; ++n)
                if (sampled(n, T ? 299 : 20, 299))
                    for (int kind = 0; kind < 4; ++kind)
                        go(GRID, n, kind);
            for (int n = 1; n <= 100; ++n)
                if (sampled(n, T ? 100 : 20, 100))
                    go(REPEAT, n, 0);
        }
        for (int n = 1; n <= NUNI; ++n)
            if (sampled(n, T ? NUNI : 40, NUNI)) {
                for (int kind = 0; kind < 4; ++kind)
                    go(METHODS, n, kind);
                go(ROOTS, n, 0);
            }
        for (int n = 1; n <= NBIN; ++n)
            for (int kind = 0; kind < 4; ++kind)
                go(BINS, n, kind);
    }
}

int main(int argc, char** argv) {
    install_part0();
    install_part1();
    install_part2();
    install_part3();
    install_part4();
    install_part5();
    std::string prop = getenv("VERIF_PROP") ? getenv("VERIF_PROP") : "C01";
    chk_calls = prop == "C01" || prop == "C05" || prop == "C04";
    chk_errors = prop == "C02";
    chk_next = prop == "C03";
    chk_report = prop == "C06";
    mc::Harness h;
    h.name = "scale";
    h.run = [](mc::Explorer& ex, const mc::Case& k) { execute(ex, k, make(k)); };
    h.describe = describe;
    h.enumerate = enumerate;
    h.case_timeout = 300;
    return mc::main(argc, argv, h);
}
#endif
