// C16, part 2: every sequence of parameters up to a length, drawn from kinds of
// virtual and non-virtual parameters; every kind of result.  The overrider of
// the derived class checks what it receives and forwards it to the next one,
// which checks it again.
#include <boost/openmethod.hpp>
#include <boost/openmethod/initialize.hpp>
#include <boost/openmethod/interop/boost_intrusive_ptr.hpp>
#include <boost/openmethod/interop/std_shared_ptr.hpp>
#include <boost/openmethod/interop/std_unique_ptr.hpp>
#include <boost/preprocessor/repetition/repeat.hpp>

#include "mc.hpp"

namespace bom = boost::openmethod;
namespace pol = boost::openmethod::policies;
namespace mp11 = boost::mp11;
using bom::virtual_;
using bom::virtual_ptr;

#ifndef NPARTS
#define NPARTS 8
#endif

struct Reg : bom::registry<pol::std_rtti, pol::vptr_vector, pol::fast_perfect_hash> {};

#include "kinds.hpp"

// ---------------------------------------------------------------------------
// a method

struct Entry {
    std::string what;
    void (*run)();
};
inline std::vector<Entry>& entries() {
    static std::vector<Entry> v;
    return v;
}

template<class... K>
struct Id;

inline void* holders[4];
inline int calls_r, calls_d;

template<class C, class K>
using OP = typename K::template O<std::conditional_t<K::is_virtual, C, void>>;

template<class... K>
struct Test {
    using Meth = bom::method<Id<K...>, int(typename K::M...), Reg>;

    template<class C, class... A>
    static void check_all(A&... args) {
        int i = 0;
        (..., (pos = i, K::check(args, *static_cast<typename K::Holder*>(holders[i])), ++i));
    }
    static int over_r(OP<R, K>... args) {
        ++calls_r;
        where = "R";
        check_all<R>(args...);
        return 7;
    }
    static int over_d(OP<D, K>... args) {
        ++calls_d;
        where = "D";
        check_all<D>(args...);
        int r = Meth::template next<over_d>(std::forward<OP<D, K>>(args)...);
        return r + 100;
    }
    static int over_e(OP<E, K>...) {
        mc::fail("the overrider of another class was called");
    }
    template<std::size_t... I>
    static int call(std::tuple<typename K::Holder...>& h, std::index_sequence<I...>) {
        (..., (holders[I] = &std::get<I>(h)));
        return Meth::fn(std::get<I>(h).pass()...);
    }
    static void run() {
        int live0 = live;
        {
            std::tuple<typename K::Holder...> h;
            calls_r = calls_d = 0;
            int r = call(h, std::index_sequence_for<K...>());
            if (r != 107)
                mc::fail("the call returned %d", r);
            if (calls_r != 1 || calls_d != 1)
                mc::fail("overriders called %d and %d times", calls_d, calls_r);
            std::apply([](auto&... x) { (x.after(), ...); }, h);
        }
        if (live != live0)
            mc::fail("%d objects leaked or destroyed twice", live - live0);
        if (refs)
            mc::fail("unbalanced use counts: %d", refs);
    }
    static void add() {
        static typename Meth::template override<over_r, over_d, over_e> o;
        std::string s = "(";
        int i = 0;
        ((s += std::string(i++ ? ", " : "") + K::name), ...);
        entries().push_back({"method with parameters " + s + ")", &run});
    }
};

template<int P, class... Ls>
void add_lists(mp11::mp_list<Ls...>) {
    (..., mp11::mp_rename<Ls, Test>::add());
}

template<int P, class L>
struct mine_q {
    template<class I>
    using sel = mp11::mp_bool<I::value % NPARTS == P>;
    using idx = mp11::mp_filter<sel, mp11::mp_iota<mp11::mp_size<L>>>;
    template<class I>
    using at = mp11::mp_at<L, I>;
    using type = mp11::mp_transform<at, mp11::mp_rename<idx, mp11::mp_list>>;
};

template<class K>
using isv = mp11::mp_bool<K::is_virtual>;
template<class L>
using anyv = mp11::mp_any_of<L, isv>;

template<class A, class B>
using pairs = mp11::mp_filter<anyv, mp11::mp_product<mp11::mp_list, A, B>>;
template<class A, class B, class C>
using triples = mp11::mp_filter<anyv, mp11::mp_product<mp11::mp_list, A, B, C>>;

using All = mp11::mp_append<Vs, Ns>;
using Mid = mp11::mp_list<v_rref, v_cvp, v_svp, v_un, n_clref, n_crref, n_morref, n_obj, n_arr>;
using Few = mp11::mp_append<FewVs, FewNs>;

// pairs: everything with everything; triples and quadruples: a subset
using Tiny = mp11::mp_list<v_vp, v_uvp, n_mo, n_rref>;
using Seqs = mp11::mp_append<
    mp11::mp_transform<mp11::mp_list, Vs>, pairs<All, All>, triples<Few, Few, Few>
#ifdef DEEP
    ,
    triples<Mid, Mid, Mid>, mp11::mp_filter<anyv, mp11::mp_product<mp11::mp_list, Tiny, Tiny, Tiny, Tiny>>
#endif
    >;

// ---------------------------------------------------------------------------
// results

template<class M>
struct RId;

inline Tr the_tr{77};

#define RESULT(N, RM_, RR_, RD_, MAKER, MAKED, ...)                            \
    struct Res##N {                                                            \
        static constexpr bool next_too = N != 15 && N != 16; /* vptr of R */   \
        static constexpr const char* name = #RM_;                              \
        using RM = RM_;                                                        \
        using RR = RR_;                                                        \
        using RD = RD_;                                                        \
        static RR make_r(R& r) {                                               \
            (void)r;                                                           \
            MAKER;                                                             \
        }                                                                      \
        static RD make_d(D& d) {                                               \
            (void)d;                                                           \
            MAKED;                                                             \
        }                                                                      \
        template<class F>                                                      \
        static void check(F f, R& r, bool isd) {                               \
            (void)r, (void)isd;                                                \
            __VA_ARGS__                                                        \
        }                                                                      \
    };

inline int side_effect;
using FnP = int (*)(int);
using VPR = virtual_ptr<R, Reg>;
using VPD = virtual_ptr<D, Reg>;
using SPR = std::shared_ptr<R>;
using SPD = std::shared_ptr<D>;
using UPR = std::unique_ptr<R>;
using UPD = std::unique_ptr<D>;
using SVPR = virtual_ptr<SPR, Reg>;
using SVPD = virtual_ptr<SPD, Reg>;
using UVPR = virtual_ptr<UPR, Reg>;
using UVPD = virtual_ptr<UPD, Reg>;
using Str = std::string;
using PairIM = std::pair<int, Mo>;
using TrR = Tr&;
using CTrR = const Tr&;
using TrRR = Tr&&;
using RRef = R&;
using DRef = D&;
using CRRef = const R&;
using RPtr = R*;
using DPtr = D*;
using CRPtr = const R*;

#define RES_OK(COND) CHECK(COND, "wrong result: " #COND);

RESULT(0, void, void, void, side_effect = 1, side_effect = 2, side_effect = 0; f(r);
       RES_OK(side_effect == (isd ? 2 : 1)))
RESULT(1, int, int, int, return -1, return 0x7fffffff, RES_OK(f(r) == (isd ? 0x7fffffff : -1)))
RESULT(2, Tr, Tr, Tr, return Tr(1), return Tr(2), Tr t = f(r);
       RES_OK(t.v == (isd ? 2 : 1) && !t.copies && !t.gone))
RESULT(3, Mo, Mo, Mo, return Mo(1), return Mo(2), Mo t = f(r);
       RES_OK(t.v == (isd ? 2 : 1) && !t.gone))
RESULT(4, TrR, TrR, TrR, return the_tr, return the_tr, Tr & t = f(r); RES_OK(&t == &the_tr && !t.gone))
RESULT(5, CTrR, CTrR, CTrR, return the_tr, return the_tr, const Tr& t = f(r);
       RES_OK(&t == &the_tr && !t.gone))
RESULT(6, TrRR, TrRR, TrRR, return std::move(the_tr), return std::move(the_tr), Tr && t = f(r);
       RES_OK(&t == &the_tr && !t.gone))
RESULT(7, RRef, RRef, DRef, return r, return d, R& x = f(r); RES_OK(&x == &r))
RESULT(8, CRRef, CRRef, DRef, return r, return d, const R& x = f(r); RES_OK(&x == &r))
RESULT(9, RPtr, RPtr, DPtr, return &r, return &d, RES_OK(f(r) == &r))
RESULT(10, CRPtr, RPtr, DPtr, return &r, return &d, RES_OK(f(r) == &r))
RESULT(11, RPtr, RPtr, DPtr, return nullptr, return nullptr, RES_OK(f(r) == nullptr))
RESULT(12, VPR, VPR, VPD, return VPR(r), return VPD(d), auto p = f(r);
       RES_OK(p.get() == &r && p.vptr() == VPR(r).vptr()))
RESULT(13, SPR, SPR, SPD, return SPR(&r, [](void*) {}), return SPD(&d, [](void*) {}), auto p = f(r);
       RES_OK(p.get() == &r && p.use_count() == 1))
RESULT(14, UPR, UPR, UPD, return std::make_unique<R>(), return std::make_unique<D>(), auto p = f(r);
       RES_OK(p && bool(dynamic_cast<D*>(p.get())) == isd))
RESULT(15, SVPR, SVPR, SVPD, return std::make_shared<R>(), return std::make_shared<D>(), auto p = f(r);
       RES_OK(p.get() && bool(dynamic_cast<D*>(p.get())) == isd &&
              p.vptr() == VPR(r).vptr() && p.pointer().use_count() == 1))
RESULT(16, UVPR, UVPR, UVPD, return std::make_unique<R>(), return std::make_unique<D>(), auto p = f(r);
       RES_OK(p.get() && bool(dynamic_cast<D*>(p.get())) == isd && p.vptr() == VPR(r).vptr()))
RESULT(17, Str, Str, Str, return Str("r"), return Str(100, 'd'),
       RES_OK(f(r) == (isd ? Str(100, 'd') : Str("r"))))
RESULT(18, Big, Big, Big, return (Big{{1, 2, 3}}), return (Big{{4, 5, 6, 0, 0, 0, 0, 0, 9}}),
       Big b = f(r); RES_OK(b.a[0] == (isd ? 4 : 1) && b.a[8] == (isd ? 9 : 0)))
RESULT(19, PairIM, PairIM, PairIM, return PairIM(1, Mo(2)), return PairIM(3, Mo(4)),
       auto p = f(r); RES_OK(p.first == (isd ? 3 : 1) && p.second.v == (isd ? 4 : 2) && !p.second.gone))
RESULT(20, double, double, double, return 0.1, return -0.2, RES_OK(f(r) == (isd ? -0.2 : 0.1)))
RESULT(21, bool, bool, bool, return false, return true, RES_OK(f(r) == isd))
RESULT(22, FnP, FnP, FnP, return nullptr, return some_function, RES_OK(f(r) == (isd ? &some_function : nullptr)))
RESULT(23, En, En, En, return En::x, return En::y, RES_OK(f(r) == (isd ? En::y : En::x)))
RESULT(24, CRPtr, CRPtr, CRPtr, return &r, return &d, RES_OK(f(r) == &r))

// K: how the virtual argument is passed
template<class Res, class K>
struct ResTest {
    using Meth = bom::method<RId<ResTest>, typename Res::RM(typename K::M, int), Reg>;
    static typename Res::RR over_r(typename K::template O<R> a, int x) {
        CHECK(x == 321, "argument %d instead of 321", x);
        return Res::make_r(K::get(a));
    }
    static typename Res::RD over_d(typename K::template O<D> a, int x) {
        CHECK(x == 321, "argument %d instead of 321", x);
        ++calls_d;
        return Res::make_d(K::get(a));
    }
    // goes through next
    struct N;
    using NMeth = bom::method<N, typename Res::RM(typename K::M, int), Reg>;
    static typename Res::RM nover_r(typename K::template O<R> a, int x) {
        CHECK(x == 321, "argument %d instead of 321", x);
        return Res::make_r(K::get(a));
    }
    static typename Res::RM nover_d(typename K::template O<D> a, int x) {
        ++calls_d;
        return NMeth::template next<nover_d>(a, x);
    }
    static void run() {
        R r;
        D d;
        int live0 = live;
        Res::check([](R& o) -> typename Res::RM { return Meth::fn(K::pass(o), 321); }, r, false);
        calls_d = 0;
        Res::check([](R& o) -> typename Res::RM { return Meth::fn(K::pass(o), 321); }, d, true);
        CHECK(calls_d == 1, "overrider called %d times", calls_d);
        calls_d = 0;
        // next: the overrider of R, applied to the D object
        Res::check(
            [](R& o) -> typename Res::RM { return NMeth::fn(K::pass(o), 321); },
            static_cast<R&>(r), false);
        CHECK(calls_d == 0, "overrider called %d times", calls_d);
        if constexpr (Res::next_too) {
            Res::check(
                [](R& o) -> typename Res::RM { return NMeth::fn(K::pass(o), 321); }, d, false);
            CHECK(calls_d == 1, "overrider called %d times", calls_d);
        }
        CHECK(live == live0, "%d objects leaked", live - live0);
    }
    static void add() {
        static typename Meth::template override<over_r, over_d> o;
        static typename NMeth::template override<nover_r, nover_d> n;
        entries().push_back(
            {std::string("method (") + K::name + ", int) -> " + Res::name, &run});
    }
};

struct rk_ref : v_ref {
    template<class C>
    static C& get(C& c) {
        return c;
    }
    static R& pass(R& o) {
        return o;
    }
};
struct rk_vp : v_vp {
    template<class P>
    static auto& get(P& p) {
        return *p;
    }
    static VPR pass(R& o) {
        return VPR(o);
    }
};

#define PARTFN(I) BOOST_PP_CAT(forward_part_, I)

#ifdef PART
void PARTFN(PART)() {
    add_lists<PART>(typename mine_q<PART, Seqs>::type());
}
#else

#define DECL(Z, I, _) void PARTFN(I)();
BOOST_PP_REPEAT(NPARTS, DECL, _)

int main(int argc, char** argv) {
#define CALL(Z, I, _) PARTFN(I)();
    BOOST_PP_REPEAT(NPARTS, CALL, _)
#define RES(Z, I, _)                                                           \
    ResTest<Res##I, rk_ref>::add();                                            \
    ResTest<Res##I, rk_vp>::add();
    BOOST_PP_REPEAT(25, RES, _)

    auto& v = entries();
    bom::initialize<Reg>();

    mc::Harness h;
    h.name = "forward";
    h.run = [&](mc::Explorer& ex, const mc::Case& c) {
        v[c[0]].run();
        ex.transition();
        ex.state(mc::mix(0x66777264, c[0]));
        ex.trace_ok();
    };
    h.describe = [&](const mc::Case& c) { return v[c[0]].what; };
    h.enumerate = [&](mc::Explorer& ex) {
        for (int i = 0; i < int(v.size()); ++i)
            ex.consider({i});
    };
    return mc::main(argc, argv, h);
}
#endif
