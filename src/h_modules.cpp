// C09: all the sequences, up to a length, of loading and unloading of shared
// libraries (dlopen, dlclose) that register classes, methods and overriders, of
// initialize and of finalize.  After each initialize, every call is compared
// with a reference model of what the libraries that are loaded contribute.
// Each sequence is executed by a process of its own, which ends with exit(), so
// that the destructors run with whatever is loaded.
#include "modules.hpp"

#include <boost/openmethod/initialize.hpp>

#include "mc.hpp"

#include <dlfcn.h>
#include <memory>

int trace_length;
int trace[16];

static const char* cls_names[NCLS] = {"A", "B", "C", "D", "E", "P"};
static const char* ovr_names[NOVR] = {"m1(A)",   "m1(B)",   "m2(B,A)", "m1(C)",   "m2(A,C)",
                                      "m1(D)",   "m2(D,A)", "m1(E)",   "m3(A,C)", "m3(B,C)",
                                      "m3(E,E)", "m2(B,C)", "m1(P)",   "m2(P,P)", "m1(B)'"};
static const char* reg_names[NREG] = {
    "vptr_vector, hash, checks", "vptr_vector, hash", "vptr_map, checks",
    "vptr_vector, hash, checks, indirect"};

// ---------------------------------------------------------------------------
// reference

struct Ovr {
    int id, method, cls[2];
};

static const std::vector<Ovr> module_ovrs[NMOD] = {
    {{M1_B, 1, {B_, -1}}, {M2_BA, 2, {B_, A_}}},
    {{M1_C, 1, {C_, -1}}, {M2_AC, 2, {A_, C_}}},
    {{M1_D, 1, {D_, -1}}, {M2_DA, 2, {D_, A_}}},
    {{M1_E, 1, {E_, -1}}, {M3_AC, 3, {A_, C_}}, {M3_BC, 3, {B_, C_}}, {M3_EE, 3, {E_, E_}}},
    {{M2_BC, 2, {B_, C_}}, {M1_B2, 1, {B_, -1}}},
    {{M1_P, 1, {P_, -1}}, {M2_PP, 2, {P_, P_}}},
};
#define BIT(X) (1u << X##_)
static const unsigned module_classes[NMOD] = {
    BIT(A) | BIT(B),
    BIT(A) | BIT(C),
    BIT(A) | BIT(B) | BIT(D),
    BIT(A) | BIT(B) | BIT(C) | BIT(E),
    0,
    BIT(A) | BIT(B) | BIT(C) | BIT(P)};
// a class and its bases
static const unsigned up[NCLS] = {
    BIT(A),          BIT(A) | BIT(B),          BIT(A) | BIT(C), BIT(A) | BIT(B) | BIT(D),
    BIT(A) | BIT(B) | BIT(C) | BIT(E), BIT(A) | BIT(C) | BIT(P)};

static bool isa(int d, int b) {
    return up[d] >> b & 1;
}

struct Model {
    unsigned loaded = 0;
    unsigned known = 0; // the libraries seen by the last initialize
    enum { NONE, READY, STALE, FAILED } state = NONE;
    unsigned classes = 0;
    std::vector<Ovr> ovrs;

    void initialize() {
        known = loaded;
        classes = BIT(A);
        ovrs = {{M1_A, 1, {A_, -1}}};
        for (int m = 0; m < NMOD; ++m)
            if (loaded >> m & 1) {
                classes |= module_classes[m];
                ovrs.insert(ovrs.end(), module_ovrs[m].begin(), module_ovrs[m].end());
            }
        state = READY;
        for (auto& o : ovrs)
            for (int c : o.cls)
                if (c >= 0 && !(classes >> c & 1))
                    state = FAILED;
    }
    static bool matches(const Ovr& o, const int* args) {
        for (int i = 0; i < 2; ++i)
            if (o.cls[i] >= 0 && !isa(args[i], o.cls[i]))
                return false;
        return true;
    }
    static bool more_specific(const Ovr& a, const Ovr& b) {
        bool strict = false;
        for (int i = 0; i < 2; ++i) {
            if (a.cls[i] < 0 || a.cls[i] == b.cls[i])
                continue;
            if (isa(b.cls[i], a.cls[i]))
                return false;
            strict = strict || isa(a.cls[i], b.cls[i]);
        }
        return strict;
    }
    // -1: none, -2: ambiguous
    static int best(const std::vector<Ovr>& v) {
        int r = -1;
        for (auto& a : v) {
            bool dominated = false;
            for (auto& b : v)
                dominated = dominated || more_specific(b, a);
            if (!dominated)
                r = r == -1 ? a.id : -2;
        }
        return v.empty() ? -1 : r == -1 ? -2 : r;
    }
    // the overriders that run, ended by -1 or -2 if the last one has no next
    std::vector<int> call(int method, const int* args) const {
        std::vector<Ovr> v;
        for (auto& o : ovrs)
            if (o.method == method && matches(o, args))
                v.push_back(o);
        std::vector<int> r;
        for (;;) {
            int b = best(v);
            if (b < 0) {
                if (r.empty())
                    return {b};
                // M3's overriders always have a next until the last one; the
                // one in the program has none
                if (method != 3 && r.back() != M1_A)
                    r.push_back(-1);
                return r;
            }
            r.push_back(b);
            std::vector<Ovr> w;
            for (auto& x : v)
                if (x.id != b)
                    w.push_back(x);
            v = w;
        }
    }
};

// ---------------------------------------------------------------------------
// execution

static std::string dir; // of the libraries

static std::string str(const std::vector<int>& v) {
    std::string s;
    for (int x : v)
        s += (s.empty() ? "" : " ") +
            std::string(
                x >= 0       ? ovr_names[x]
                    : x == -1 ? "no-next/no_overrider"
                    : x == -2 ? "ambiguous"
                    : x == -3 ? "missing_class"
                    : x == -4 ? "not_initialized"
                              : "?");
    return s;
}

template<class F>
static std::vector<int> outcome(F f) {
    trace_length = 0;
    try {
        f();
    } catch (bom::no_overrider&) {
        return {-1};
    } catch (bom::ambiguous_call&) {
        return {-2};
    } catch (bom::missing_class&) {
        return {-3};
    } catch (bom::not_initialized&) {
        return {-4};
    }
    return std::vector<int>(trace, trace + trace_length);
}

static std::uint64_t calls;

static void expect(const std::vector<int>& actual, const std::vector<int>& expected,
                   const char* what, int a, int b = -1) {
    ++calls;
    if (actual != expected)
        mc::fail("%s(%s%s%s): [%s] instead of [%s]", what, cls_names[a], b >= 0 ? "," : "",
                 b >= 0 ? cls_names[b] : "", str(actual).c_str(), str(expected).c_str());
}

template<int K>
struct Runner {
    using W = World<K>;
    using R = typename W::R;
    using A = typename W::A;
    using B = typename W::B;
    using C = typename W::C;
    using D = typename W::D;
    using E = typename W::E;
    using Api = typename W::Api;
    template<class T>
    using VP = typename W::template VP<T>;

    static void m1_A(A&) {
        record(M1_A);
    }
    static inline bom::use_classes<A, R> classes;
    static inline typename W::m1::template override<m1_A> m1_A_;

    static std::string path(int m) {
        return dir + "/mod_" + std::to_string(K) + "_" + std::to_string(m) + ".so";
    }

    static void run(const mc::Case& c) {
        (void)&classes; // instantiate
        (void)&m1_A_;
        Model model;
        void* handle[NMOD] = {};
        Api* api[NMOD] = {};
        std::unique_ptr<A> obj[NCLS];
        obj[A_].reset(new A);
        obj[B_].reset(new B);
        obj[C_].reset(new C);
        obj[D_].reset(new D);
        obj[E_].reset(new E);
        std::vector<std::pair<int, VP<A>>> kept;

        for (std::size_t i = 1; i < c.size(); ++i) {
            int op = c[i];
            if (op < NMOD) {
                if (!handle[op]) {
                    handle[op] = dlopen(path(op).c_str(), RTLD_NOW | RTLD_LOCAL);
                    if (!handle[op])
                        mc::fail("harness: %s", dlerror());
                    api[op] = static_cast<Api*>(
                        reinterpret_cast<void* (*)()>(dlsym(handle[op], "module_api"))());
                    if (api[op]->make)
                        obj[P_].reset(api[op]->make());
                } else {
                    if (api[op]->make) {
                        obj[P_].reset();
                        for (std::size_t k = 0; k < kept.size(); ++k)
                            if (kept[k].first == P_)
                                kept.erase(kept.begin() + k--);
                    }
                    dlclose(handle[op]);
                    if (dlopen(path(op).c_str(), RTLD_NOW | RTLD_NOLOAD))
                        mc::fail("harness: the library is still loaded");
                    handle[op] = nullptr;
                    api[op] = nullptr;
                }
                model.loaded ^= 1u << op;
                // what was initialized keeps working until something in it goes
                if (model.state == Model::READY && !(model.loaded >> op & 1) &&
                    (model.known >> op & 1))
                    model.state = Model::STALE;
                if (model.state == Model::READY)
                    verify(model, api, obj, kept);
            } else if (op == NMOD) {
                model.initialize();
                bool failed = false;
                try {
                    bom::initialize<R>();
                } catch (bom::missing_class&) {
                    failed = true;
                }
                if (failed != (model.state == Model::FAILED))
                    mc::fail("initialize %s", failed ? "reports a missing class"
                                                     : "does not report the missing class");
                if (!failed)
                    verify(model, api, obj, kept);
            } else {
                bom::finalize<R>();
                model.state = Model::NONE;
            }
            if (model.state == Model::NONE && R::has_runtime_checks) {
                expect(outcome([&] { W::m1::fn(*obj[A_]); }), {-4}, "m1", A_);
                expect(outcome([&] { VP<A> p(*obj[B_]); }), {-4}, "virtual_ptr", B_);
            }
        }
    }

    static void verify(const Model& m, Api** api, std::unique_ptr<A>* obj,
                       std::vector<std::pair<int, VP<A>>>& kept) {
        for (int x = 0; x < NCLS; ++x) {
            if (!obj[x])
                continue;
            if (!(m.classes >> x & 1)) {
                if constexpr (R::has_runtime_checks) {
                    expect(outcome([&] { W::m1::fn(*obj[x]); }), {-3}, "m1", x);
                    expect(outcome([&] { VP<A> p(*obj[x]); }), {-3}, "virtual_ptr", x);
                }
                continue;
            }
            expect(outcome([&] { W::m1::fn(*obj[x]); }), m.call(1, &x), "m1", x);
            for (int y = 0; y < NCLS; ++y) {
                if (!obj[y] || !(m.classes >> y & 1))
                    continue;
                int xy[2] = {x, y};
                expect(outcome([&] { W::m2::fn(*obj[x], VP<A>(*obj[y])); }), m.call(2, xy), "m2", x,
                       y);
                if ((m.known >> 3 & 1) && isa(y, C_))
                    expect(outcome([&] { api[3]->m3(*obj[x], dynamic_cast<C&>(*obj[y])); }),
                           m.call(3, xy), "m3", x, y);
            }
            if (x == P_) {
                int pp[2] = {P_, P_};
                expect(outcome([&] { api[5]->final_m1(*obj[P_]); }), m.call(2, pp), "final m2", x,
                       x);
            }
        }
        // final_virtual_ptrs in the program
        final_ptr<A>(m, obj, A_);
        final_ptr<B>(m, obj, B_);
        final_ptr<C>(m, obj, C_);
        final_ptr<D>(m, obj, D_);
        final_ptr<E>(m, obj, E_);
        // virtual_ptrs made after an earlier initialize
        if constexpr (R::has_indirect_vptr) {
            for (auto& k : kept)
                for (auto& l : kept)
                    if ((m.classes >> k.first & 1) && (m.classes >> l.first & 1)) {
                        int xy[2] = {k.first, l.first};
                        expect(outcome([&] { W::m2::fn(k.second, l.second); }), m.call(2, xy),
                               "m2 on earlier virtual_ptrs", k.first, l.first);
                    }
            for (int x = 0; x < NCLS; ++x)
                if (obj[x] && (m.classes >> x & 1))
                    kept.emplace_back(x, VP<A>(*obj[x]));
        }
    }

    template<class T>
    static void final_ptr(const Model& m, std::unique_ptr<A>* obj, int x) {
        if (!(m.classes >> x & 1))
            return;
        int xx[2] = {x, x};
        expect(outcome([&] {
                   VP<A> p = bom::final_virtual_ptr<R>(dynamic_cast<T&>(*obj[x]));
                   W::m2::fn(p, p);
               }),
               m.call(2, xx), "m2 on final_virtual_ptrs", x, x);
    }
};

static void (*const runners[NREG])(const mc::Case&) = {
    Runner<0>::run, Runner<1>::run, Runner<2>::run, Runner<3>::run};

struct Message {
    int status; // 1: ok, 2: violation
    std::uint64_t calls;
    char text[3000];
};

static void run(mc::Explorer& ex, const mc::Case& c) {
    static Message* msg = static_cast<Message*>(mmap(
        nullptr, sizeof(Message), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    msg->status = 0;
    pid_t pid = fork();
    if (pid == 0) {
        alarm(100);
        try {
            calls = 0;
            runners[c[0]](c);
            msg->calls = calls;
            msg->status = 1;
        } catch (mc::Violation& v) {
            std::snprintf(msg->text, sizeof msg->text, "%s", v.msg.c_str());
            msg->status = 2;
            _exit(0);
        }
        exit(0);
    }
    int status = 0;
    while (waitpid(pid, &status, 0) < 0 && errno == EINTR)
        ;
    if (msg->status == 2)
        mc::fail("%s", msg->text);
    if (!WIFEXITED(status) || WEXITSTATUS(status) != 0 || !msg->status)
        mc::fail("the process %s %d%s", WIFSIGNALED(status) ? "is killed by signal" : "exits with",
                 WIFSIGNALED(status) ? WTERMSIG(status) : WEXITSTATUS(status),
                 msg->status ? ", at exit" : "");
    std::uint64_t h = mc::mix(0x6d6f64, c[0]);
    unsigned loaded = 0;
    for (std::size_t i = 1; i < c.size(); ++i) {
        if (c[i] < NMOD)
            loaded ^= 1u << c[i];
        h = mc::mix(mc::mix(h, c[i]), loaded);
        ex.state(h);
        ex.transition();
    }
    ex.count(0, msg->calls);
    ex.trace_ok();
}

static std::string describe(const mc::Case& c) {
    std::string s = std::string("registry: ") + reg_names[c[0]] + ";";
    unsigned loaded = 0;
    for (std::size_t i = 1; i < c.size(); ++i) {
        if (c[i] < NMOD) {
            s += std::string(loaded >> c[i] & 1 ? " unload " : " load ") + std::to_string(c[i]);
            loaded ^= 1u << c[i];
        } else
            s += c[i] == NMOD ? " initialize" : " finalize";
    }
    s += "; libraries:";
    for (int m = 0; m < NMOD; ++m) {
        s += " " + std::to_string(m) + ": classes";
        for (int x = 0; x < NCLS; ++x)
            if (module_classes[m] >> x & 1)
                s += std::string(" ") + cls_names[x];
        for (auto& o : module_ovrs[m])
            s += std::string(" ") + ovr_names[o.id];
        s += ";";
    }
    return s;
}

static void sequences(mc::Explorer& ex, mc::Case& c, int depth) {
    if (depth == 0) {
        c.push_back(NMOD);
        ex.consider(c);
        c.pop_back();
        return;
    }
    int last = c.size() > 1 ? c.back() : NMOD + 1;
    for (int op = 0; op <= NMOD + 1; ++op) {
        // idempotent
        if (op >= NMOD && op == last && c.size() != 2)
            continue;
        if (op == NMOD && depth == 1)
            continue; // initialize follows
        c.push_back(op);
        sequences(ex, c, depth - 1);
        c.pop_back();
    }
}

int main(int argc, char** argv) {
    dir = argv[0];
    dir = dir.substr(0, dir.rfind('/'));
    mc::Harness h;
    h.name = "modules";
    h.counters = {"calls"};
    h.workers_per_core = 2;
    h.case_timeout = 200;
    h.run = run;
    h.describe = describe;
    h.enumerate = [&](mc::Explorer& ex) {
        for (int d = 0; d <= (ex.thorough ? 6 : 5); ++d)
            for (int r = 0; r < NREG; ++r) {
                mc::Case c{r};
                sequences(ex, c, d);
            }
    };
    return mc::main(argc, argv, h);
}
