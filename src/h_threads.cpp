// C18: threads that use an initialized registry, under a controlled scheduler
// (sched.hpp).  For every pair (triple) of short programs out of a menu, the
// schedules are enumerated: by default a thread runs until it ends; all the
// schedules with up to a number of preemptions, placed before accesses of
// memory on which the threads conflict (found by iteration), and all those with
// one preemption, placed before any access.  A data race in any schedule (with
// respect to the happens-before relation), a deadlock, or a result that differs
// from the one that the program gives when executed alone, is a violation.
#include <boost/openmethod.hpp>
#include <boost/openmethod/initialize.hpp>
#include <boost/openmethod/inplace_vptr.hpp>
#include <boost/openmethod/interop/boost_intrusive_ptr.hpp>
#include <boost/openmethod/interop/std_shared_ptr.hpp>
#include <boost/openmethod/interop/std_unique_ptr.hpp>
#include <boost/openmethod/policies/throw_error_handler.hpp>
#include <boost/openmethod/policies/vptr_map.hpp>
#include <boost/preprocessor/cat.hpp>
#include <boost/preprocessor/repetition/repeat.hpp>
#include <boost/smart_ptr/intrusive_ref_counter.hpp>

#include "mc.hpp"
#include "sched.hpp"

#include <string_view>

namespace bom = boost::openmethod;
namespace pol = boost::openmethod::policies;
namespace mp11 = boost::mp11;
using bom::virtual_;
using bom::virtual_ptr;

constexpr int NREG = 5;

// ---------------------------------------------------------------------------
// registries

struct null_os {
    null_os& operator<<(const char*) {
        return *this;
    }
    null_os& operator<<(const std::string_view&) {
        return *this;
    }
    null_os& operator<<(const void*) {
        return *this;
    }
    null_os& operator<<(std::size_t) {
        return *this;
    }
};

struct null_output : pol::output {
    template<class Registry>
    struct fn {
        inline static null_os os;
    };
};

template<class T, class = void>
struct has_id : std::false_type {};
template<class T>
struct has_id<T, std::void_t<decltype(T::static_id())>> : std::true_type {};

// small integers, collected by initialize
struct id_rtti : pol::deferred_static_rtti {
    template<class Registry>
    struct fn : pol::rtti::defaults {
        template<class T>
        static constexpr bool is_polymorphic = has_id<T>::value;
        template<class T>
        static bom::type_id static_type() {
            if constexpr (has_id<T>::value)
                return bom::type_id(std::intptr_t(T::static_id()));
            else
                return nullptr;
        }
        template<class T>
        static bom::type_id dynamic_type(const T& obj) {
            if constexpr (has_id<T>::value)
                return bom::type_id(std::intptr_t(obj.id));
            else
                return nullptr;
        }
        template<class D, class B>
        static D dynamic_cast_ref(B&& obj) {
            return static_cast<D>(obj);
        }
    };
};

template<int K>
struct Reg;
template<>
struct Reg<0> : bom::registry<
                    pol::std_rtti, pol::vptr_vector, pol::fast_perfect_hash,
                    pol::default_error_handler, null_output> {};
template<>
struct Reg<1> : bom::registry<
                    pol::std_rtti, pol::vptr_vector, pol::fast_perfect_hash,
                    pol::default_error_handler, null_output, pol::runtime_checks> {};
template<>
struct Reg<2>
    : bom::registry<pol::std_rtti, pol::vptr_map<>, pol::throw_error_handler, null_output> {};
template<>
struct Reg<3> : bom::registry<
                    pol::std_rtti, pol::vptr_vector, pol::fast_perfect_hash,
                    pol::throw_error_handler, null_output, pol::runtime_checks,
                    pol::indirect_vptr> {};
template<>
struct Reg<4>
    : bom::registry<
          id_rtti, pol::vptr_vector, pol::default_error_handler, null_output> {};

inline const char* reg_names[NREG] = {
    "default", "default with checks", "vptr_map", "indirect with checks",
    "deferred custom rtti, vptr_vector"};

struct Unresolved {};

#define METHOD(ID, RET, ARGS) struct BOOST_PP_CAT(ID, _id);                    \
    using ID = bom::method<BOOST_PP_CAT(ID, _id), RET ARGS, R>

template<int K>
struct World {
    using R = Reg<K>;
    static constexpr bool custom = K == 4;

    struct Plain {};
    template<int I>
    struct Id {
        static int static_id() {
            return I;
        }
    };

    // the classes
    struct A : boost::intrusive_ref_counter<A> {
        static int static_id() {
            return 1;
        }
        int id = 1;
        int v = 10;
        virtual ~A() = default;
    };
    struct B : A {
        static int static_id() {
            return 2;
        }
        B() {
            this->id = 2;
        }
    };
    struct C : A {
        static int static_id() {
            return 3;
        }
        C() {
            this->id = 3;
        }
    };
    struct BB : B {
        static int static_id() {
            return 4;
        }
        BB() {
            this->id = 4;
        }
    };
    struct Empty {};
    struct Filler {
        long filler = 0;
        virtual ~Filler() = default;
    };
    template<class Base>
    struct V1 : Filler, virtual Base {
        static int static_id() {
            return 5;
        }
        V1() {
            this->id = 5;
        }
    };
    template<class Base>
    struct V2 : Filler, Base {
        static int static_id() {
            return 5;
        }
        V2() {
            this->id = 5;
        }
    };
    using V = std::conditional_t<custom, V2<A>, V1<A>>;
    struct Unregistered : A {
        static int static_id() {
            return 6;
        }
    };
    struct J0 : bom::inplace_vptr_base<J0, R> {
        int id = 7;
        static int static_id() {
            return 7;
        }
    };
    struct J1 : J0, bom::inplace_vptr_derived<J1, J0> {
        static int static_id() {
            return 8;
        }
        int during;
        J1();
    };

    template<class T>
    using VP = bom::virtual_ptr<T, R>;
    template<class T>
    using SVP = bom::shared_virtual_ptr<T, R>;
    template<class T>
    using UVP = bom::unique_virtual_ptr<T, R>;
    template<class T>
    using IVP = bom::virtual_ptr<boost::intrusive_ptr<T>, R>;

    METHOD(uni, int, (virtual_<const A&>, int));
    METHOD(hole, int, (virtual_<A&>));
    METHOD(bi, int, (VP<A>, VP<A>));
    METHOD(tri, int, (virtual_<A&>, int, virtual_<A&>, VP<const A>));
    METHOD(shared, int, (const SVP<A>&));
    METHOD(unique, int, (UVP<A>));
    METHOD(intrusive, int, (IVP<A>));
    METHOD(inplace, int, (virtual_<J0&>));

    static int uni_a(const A& a, int x) {
        return a.v + x;
    }
    static int uni_b(const B& a, int x) {
        return uni::template next<uni_b>(a, x + 1) * 3 + uni::template has_next<uni_b>();
    }
    static int uni_c(const C& a, int x) {
        return a.v + x + 500;
    }
    static int uni_bb(const BB& a, int x) {
        return uni::template next<uni_bb>(a, x + 7) * 5 + uni::template has_next<uni_bb>();
    }
    static int uni_v(const V& a, int x) {
        return a.v + x + int(a.filler) + 900;
    }
    static int hole_b(B& b) {
        return b.v + hole::template has_next<hole_b>();
    }
    static int bi_aa(VP<A> a, VP<A> b) {
        return a->v + b->v;
    }
    static int bi_ba(VP<B> a, VP<A> b) {
        return 2 * bi::template next<bi_ba>(a, b) + 1;
    }
    static int bi_ac(VP<A> a, VP<C> b) {
        return 3 * bi::template next<bi_ac>(a, b) + 1;
    }
    static int bi_bbc(VP<BB> a, VP<C> b) {
        return bi::template has_next<bi_bbc>() + 40 + a->v + b->v;
    }
    static int tri_a(A& a, int x, A& b, VP<const A> c) {
        return a.v + x + b.v + c->v;
    }
    static int tri_b(B& a, int x, V& b, VP<const C> c) {
        return 7 * tri::template next<tri_b>(a, x, b, c);
    }
    static int shared_a(const SVP<A>& p) {
        return p->v;
    }
    static int shared_b(const SVP<B>& p) {
        SVP<A> q = p;
        return 2 * shared::template next<shared_b>(q) + int(q.get() == p.get());
    }
    static int unique_a(UVP<A> p) {
        return p->v;
    }
    static int unique_b(UVP<B> p) {
        int r = 2 * unique::template next<unique_b>(std::move(p));
        return r + (p.get() == nullptr);
    }
    static int intrusive_a(IVP<A> p) {
        return p->v;
    }
    static int intrusive_b(IVP<B> p) {
        return 2 * intrusive::template next<intrusive_b>(p);
    }
    static int inplace_0(J0&) {
        return 1;
    }
    static int inplace_1(J1& j) {
        return 2 + inplace::template next<inplace_1>(j);
    }

    static void setup() {
        static bom::use_classes<A, B, C, BB, V, R> classes;
        static typename uni::template override<uni_a, uni_b, uni_c, uni_bb, uni_v> o1;
        static typename hole::template override<hole_b> o2;
        static typename bi::template override<bi_aa, bi_ba, bi_ac, bi_bbc> o3;
        static typename tri::template override<tri_a, tri_b> o4;
        static typename shared::template override<shared_a, shared_b> o5;
        static typename unique::template override<unique_a, unique_b> o6;
        static typename intrusive::template override<intrusive_a, intrusive_b> o7;
        static typename inplace::template override<inplace_0, inplace_1> o8;
        set_handler();
        bom::initialize<R>();
    }
    template<class H>
    static auto set_on(int) -> decltype(H::set({}), void()) {
        H::set([](const auto&) { throw Unresolved(); });
    }
    template<class>
    static void set_on(...) {
    }
    static void set_handler() {
        set_on<typename R::error_handler>(0);
    }

    // what the threads share
    struct Data {
        A a;
        B b;
        C c;
        BB bb;
        V v;
        Unregistered unregistered;
        VP<A> pb{b}, pc{c};
        const VP<const A> cpbb{bb};
        std::shared_ptr<A> raw = std::make_shared<B>();
        SVP<A> sb = bom::make_shared_virtual<B, R>();
        IVP<A> ib{boost::intrusive_ptr<A>(new B)};
        J1 j;
    };
    inline static Data* data;

    template<class F>
    static int attempt(F f) {
        try {
            return f();
        } catch (Unresolved&) {
            return -1;
        } catch (bom::no_overrider& e) {
            return -2 - int(e.arity);
        } catch (bom::ambiguous_call& e) {
            return -12 - int(e.arity);
        } catch (bom::missing_class&) {
            return -20;
        } catch (bom::final_error&) {
            return -21;
        }
    }

    static int p_ref() {
        return uni::fn(data->b, 1);
    }
    static int p_next() {
        BB own;
        return uni::fn(data->bb, 2) + uni::fn(own, 3) * 1000;
    }
    static int p_virtual_base() {
        return uni::fn(data->v, 2) + uni::fn(data->c, 2);
    }
    static int p_bi() {
        VP<A> p(data->b), q(data->a);
        int r = bi::fn(p, q);
        r = r * 100 + bi::fn(data->pb, q);
        return r * 100 + bi::fn(data->a, data->pc);
    }
    static int p_tri() {
        return tri::fn(data->b, 1, data->v, VP<const A>(data->c)) +
            tri::fn(data->b, 1, data->a, data->cpbb);
    }
    static int p_ambiguous() {
        return attempt([] { return bi::fn(data->b, data->pc); });
    }
    static int p_hole() {
        return attempt([] { return hole::fn(data->b); }) +
            attempt([] { return hole::fn(data->c); });
    }
    static int p_next_hole() {
        return bi::template has_next<bi_aa>() + 10 * hole::template has_next<hole_b>() +
            attempt([] { return 100 * hole::template next<hole_b>(data->b); });
    }
    static int p_final() {
        BB own;
        auto p = bom::final_virtual_ptr<R>(own);
        VP<A> q = p;
        return attempt([&] { return uni::fn(*p, 1) + bi::fn(q, data->pc); });
    }
    static int p_copies() {
        VP<A> p = data->pb, q(data->c), r(nullptr);
        r = p;
        p = q;
        q = VP<A>(data->bb);
        VP<const A> s = data->cpbb;
        auto b = r.template cast<B>();
        s = b;
        std::swap(p, q);
        return bi::fn(p, q) + 1000 * (r == b) + 2000 * (s.get() == &data->b) + s->v +
            10000 * bi::fn(b, r);
    }
    static int p_make_shared() {
        auto own = bom::make_shared_virtual<B, R>();
        SVP<A> up = own;
        int r = shared::fn(up);
        auto down = std::move(up).template cast<B>();
        r += shared::fn(down) * 100;
        own = nullptr;
        return r + int(down.pointer().use_count()) * 10000;
    }
    static int p_shared() {
        SVP<A> own = data->sb;
        int r = shared::fn(own) + shared::fn(data->sb) * 100;
        SVP<A> other(data->raw);
        own = other;
        return r + shared::fn(own) * 10000;
    }
    static int p_unique() {
        auto own = bom::make_unique_virtual<B, R>();
        UVP<A> up = std::move(own);
        int r = unique::fn(std::move(up));
        return r + 1000 * (own.get() == nullptr) + 2000 * (up.get() == nullptr);
    }
    static int p_intrusive() {
        IVP<A> own = data->ib;
        return intrusive::fn(own) + 100 * intrusive::fn(data->ib);
    }
    static int p_inplace() {
        J1 own;
        J0 slice = own;
        return inplace::fn(own) + 10 * own.during + 100 * inplace::fn(slice) +
            1000 * inplace::fn(data->j);
    }
    static int p_missing() {
        if constexpr (R::has_runtime_checks)
            return attempt([] { return uni::fn(data->unregistered, 1); }) +
                100 * attempt([] {
                    A& a = data->b;
                    return bom::final_virtual_ptr<R>(a)->v;
                });
        else
            return 0;
    }

    static void run(int program, std::uint64_t& result);
};

template<int K>
World<K>::J1::J1() {
    during = inplace::fn(*this);
}

#define PROGRAMS(X)                                                            \
    X(ref) X(next) X(virtual_base) X(bi) X(tri) X(ambiguous) X(hole)           \
    X(next_hole) X(final) X(copies) X(make_shared) X(shared) X(unique)         \
    X(intrusive) X(inplace) X(missing)

inline const char* program_names[] = {
#define NAME(P) #P,
    PROGRAMS(NAME)};
constexpr int NPROG = sizeof program_names / sizeof *program_names;

struct Entry {
    void (*run)(int program, std::uint64_t& result);
    void (*setup)();
};

template<int K>
void World<K>::run(int program, std::uint64_t& result) {
    static int (*const programs[])() = {
#define PTR(P) p_##P,
        PROGRAMS(PTR)};
    result = std::uint64_t(std::int64_t(programs[program]()));
}

#define PARTFN(I) BOOST_PP_CAT(threads_part_, I)

#ifdef PART
Entry PARTFN(PART)() {
    return {&World<PART>::run, [] {
                World<PART>::setup();
                World<PART>::data = new typename World<PART>::Data;
            }};
}
#else

#define DECL(Z, I, _) Entry PARTFN(I)();
BOOST_PP_REPEAT(5, DECL, _)

static Entry entries[NREG];
static sched::Run* shared_run;
static std::uint64_t alone[NREG][NPROG];

// the current case
static int reg, nthreads;
static std::vector<int> programs[sched::MAXTHREADS];

static void body(int t, std::uint64_t& result) {
    result = 0;
    for (int p : programs[t]) {
        std::uint64_t r;
        entries[reg].run(p, r);
        result = result * 1000003 + r;
    }
}

static std::string deviations() {
    std::string s;
    for (int i = 0; i < shared_run->ndev; ++i)
        s += (i ? ", " : "") + std::string("thread ") + std::to_string(shared_run->dev[i].thread) +
            " at point " + std::to_string(shared_run->dev[i].point);
    return s.empty() ? "in order" : s;
}

static void execute() {
    auto* r = shared_run;
    r->nthreads = nthreads;
    r->status = sched::UNFINISHED;
    r->message[0] = 0;
    pid_t pid = fork();
    if (pid == 0) {
        alarm(100);
        sched::execute(r, body);
        _exit(0);
    }
    int status = 0;
    while (waitpid(pid, &status, 0) < 0 && errno == EINTR)
        ;
    if (r->status == sched::UNFINISHED)
        mc::fail(
            "schedule [%s]: the process %s %d", deviations().c_str(),
            WIFSIGNALED(status) ? "is killed by signal" : "exits with status",
            WIFSIGNALED(status) ? WTERMSIG(status) : WEXITSTATUS(status));
    if (r->status != sched::OK)
        mc::fail("schedule [%s]: %s", deviations().c_str(), r->message);
}

static void check() {
    for (int t = 0; t < nthreads; ++t) {
        std::uint64_t expected = 0;
        for (int p : programs[t])
            expected = expected * 1000003 + alone[reg][p];
        if (shared_run->result[t] != expected)
            mc::fail(
                "schedule [%s]: the result of thread %d (%lld) is not the one that it has when "
                "executed alone (%lld)",
                deviations().c_str(), t, (long long)shared_run->result[t], (long long)expected);
    }
}

// case: registry, number of threads, then the programs of each thread, each
// list ended by -1
static void decode(const mc::Case& c) {
    reg = c[0];
    nthreads = c[1];
    int t = 0;
    for (auto& p : programs)
        p.clear();
    for (std::size_t i = 2; i < c.size(); ++i)
        if (c[i] < 0)
            ++t;
        else
            programs[t].push_back(c[i]);
}

enum { N_ALL, N_HOT, N_ACCESSES, N_CONFLICTS, N_TRUNCATED };

// All the schedules with at most `bound` preemptions.  Returns false if new
// conflicts were found.
static bool explore(
    mc::Explorer& ex, std::vector<std::uint64_t>& hot, bool all_points, int bound,
    std::uint64_t h) {
    struct Todo {
        std::vector<std::pair<int, int>> dev;
        int preemptions;
    };
    auto* r = shared_run;
    std::vector<std::vector<Todo>> by_preemptions(bound + 2);
    by_preemptions[0].push_back({{}, 0});
    int level = 0, done = 0;
    for (;;) {
        while (level <= bound && by_preemptions[level].empty())
            ++level;
        if (level > bound)
            break;
        // a guard against implementations that synchronize a lot
        if (++done > (ex.thorough ? 100000 : 10000)) {
            ex.count(N_TRUNCATED);
            break;
        }
        Todo t = std::move(by_preemptions[level].back());
        by_preemptions[level].pop_back();
        r->all_points = all_points;
        r->nhot = int(std::min<std::size_t>(hot.size(), sched::MAXHOT));
        for (int i = 0; i < r->nhot; ++i)
            r->hot[i] = hot[i];
        r->ndev = int(t.dev.size());
        for (int i = 0; i < r->ndev; ++i)
            r->dev[i] = {t.dev[i].first, t.dev[i].second};
        execute();
        ex.count(all_points ? N_ALL : N_HOT);
        ex.count(N_ACCESSES, r->accesses);
        ex.transition(r->npoints);
        check();
        std::uint64_t s = h;
        for (auto& d : t.dev)
            s = mc::mix(mc::mix(s, d.first), d.second);
        ex.state(s);
        bool more = false;
        for (int i = 0; i < r->nconflicts; ++i)
            if (std::find(hot.begin(), hot.end(), r->conflict[i]) == hot.end()) {
                hot.push_back(r->conflict[i]);
                more = true;
            }
        if (more && !all_points)
            return false;
        if (int(t.dev.size()) == sched::MAXDEV)
            continue;
        for (int i = t.dev.empty() ? 0 : t.dev.back().first + 1; i < r->npoints; ++i) {
            auto& p = r->point[i];
            for (int u = 0; u < nthreads; ++u) {
                if (u == p.chosen || !(p.enabled >> u & 1))
                    continue;
                int n = t.preemptions + (p.current != 0xFF);
                if (n > bound)
                    continue;
                auto dev = t.dev;
                dev.push_back({i, u});
                by_preemptions[n].push_back({std::move(dev), n});
                level = std::min(level, n);
            }
        }
    }
    return true;
}

static int hot_bound(bool thorough) {
    return nthreads > 2 ? 1 : thorough && programs[0].size() == 1 ? 3 : 2;
}

static void run(mc::Explorer& ex, const mc::Case& c) {
    decode(c);
    std::uint64_t h = 0x746872;
    for (int x : c)
        h = mc::mix(h, x + 2);
    std::vector<std::uint64_t> hot;
    explore(ex, hot, true, 1, h);
    while (!explore(ex, hot, false, hot_bound(ex.thorough), mc::mix(h, hot.size() + 1)))
        ;
    ex.count(N_CONFLICTS, hot.size());
    ex.trace_ok();
}

static std::string describe(const mc::Case& c) {
    decode(c);
    std::string s = std::string("registry: ") + reg_names[reg];
    for (int t = 0; t < nthreads; ++t) {
        s += "; thread " + std::to_string(t) + ":";
        for (int p : programs[t])
            s += std::string(" ") + program_names[p];
    }
    return s;
}

int main(int argc, char** argv) {
#define GET(Z, I, _) entries[I] = PARTFN(I)();
    BOOST_PP_REPEAT(5, GET, _)
    for (auto& e : entries)
        e.setup();

    mc::Harness h;
    h.name = "threads";
    h.counters = {"schedules_preempted_anywhere", "schedules_preempted_at_conflicts", "accesses",
                  "conflicting_bytes", "explorations_truncated"};
    h.describe = describe;
    auto prepare = [] {
        if (shared_run)
            return;
        shared_run = static_cast<sched::Run*>(mmap(
            nullptr, sizeof(sched::Run), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1,
            0));
        // each program, alone, in a process of its own
        nthreads = 1;
        shared_run->all_points = 0;
        shared_run->nhot = shared_run->ndev = 0;
        for (reg = 0; reg < NREG; ++reg)
            for (int p = 0; p < NPROG; ++p) {
                programs[0] = {p};
                execute();
                alone[reg][p] = shared_run->result[0];
            }
    };
    h.run = [&](mc::Explorer& ex, const mc::Case& c) {
        prepare();
        run(ex, c);
    };
    h.case_timeout = 800;
    h.workers_per_core = 2; // they wait for processes
    h.enumerate = [&](mc::Explorer& ex) {
        for (int r = 0; r < NREG; ++r)
            for (int a = 0; a < NPROG; ++a)
                for (int b = a; b < NPROG; ++b)
                    ex.consider({r, 2, a, -1, b, -1});
        if (!ex.thorough) {
            // three threads, two of which execute the same program
            for (int r = 0; r < NREG; r += 3)
                for (int a = 0; a < NPROG; ++a)
                    ex.consider({r, 3, a, -1, a, -1, (a + 1) % NPROG, -1});
            return;
        }
        for (int r = 0; r < NREG; ++r)
            for (int a = 0; a < NPROG; ++a)
                for (int b = 0; b < NPROG; ++b)
                    // two programs against one of them in the other order
                    ex.consider({r, 2, a, b, -1, b, a, -1});
        for (int r = 0; r < NREG; ++r)
            for (int a = 0; a < NPROG; ++a)
                for (int b = a; b < NPROG; ++b)
                    ex.consider({r, 3, a, -1, a, -1, b, -1});
    };
    return mc::main(argc, argv, h);
}
#endif
