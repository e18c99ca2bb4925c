// C16, part 3: methods declared, overridden and called via the macros.  Pairs of
// parameter kinds, in every form of the macros.
#include <boost/openmethod/preamble.hpp>
#include <boost/openmethod/policies/std_rtti.hpp>
#include <boost/openmethod/policies/vptr_vector.hpp>
#include <boost/openmethod/policies/fast_perfect_hash.hpp>

namespace bom = boost::openmethod;
namespace pol = boost::openmethod::policies;

struct Reg : bom::registry<pol::std_rtti, pol::vptr_vector, pol::fast_perfect_hash> {};
#define BOOST_OPENMETHOD_DEFAULT_REGISTRY Reg

#include <boost/openmethod.hpp>
#include <boost/openmethod/initialize.hpp>
#include <boost/openmethod/interop/boost_intrusive_ptr.hpp>
#include <boost/openmethod/interop/std_shared_ptr.hpp>
#include <boost/openmethod/interop/std_unique_ptr.hpp>
#include <boost/preprocessor/repetition/repeat.hpp>
#include <boost/preprocessor/seq/elem.hpp>
#include <boost/preprocessor/seq/for_each_product.hpp>

#include "mc.hpp"

namespace mp11 = boost::mp11;
using bom::virtual_;
using bom::virtual_ptr;

#include "kinds.hpp"

struct Entry {
    std::string what;
    void (*run)();
};
std::vector<Entry>& entries();

inline void* holders[4];
inline int calls_r, calls_d, calls_e;

template<class C, class K>
using OP = typename K::template O<std::conditional_t<K::is_virtual, C, void>>;

template<class K1, class K2, class A, class B>
void check2(A& a, B& b) {
    pos = 0;
    K1::check(a, *static_cast<typename K1::Holder*>(holders[0]));
    pos = 1;
    K2::check(b, *static_cast<typename K2::Holder*>(holders[1]));
}

template<class K1, class K2, class F>
void run_one(F call) {
    int live0 = live;
    {
        typename K1::Holder h1;
        typename K2::Holder h2;
        holders[0] = &h1;
        holders[1] = &h2;
        calls_r = calls_d = calls_e = 0;
        int r = call(h1, h2);
        CHECK(r == 107, "the call returned %d", r);
        CHECK(calls_r == 1 && calls_d == 1 && !calls_e, "overriders called %d, %d and %d times", calls_d, calls_r,
              calls_e);
        h1.after();
        h2.after();
    }
    CHECK(live == live0, "%d objects leaked or destroyed twice", live - live0);
    CHECK(!refs, "unbalanced use counts: %d", refs);
}

#define BODY_R(K1, K2)                                                         \
    {                                                                          \
        ++calls_r;                                                             \
        where = "R";                                                           \
        CHECK(!has_next(), "has_next in the last overrider");                  \
        check2<K1, K2>(a, b);                                                  \
        return 7;                                                              \
    }
#define BODY_D(K1, K2)                                                         \
    {                                                                          \
        ++calls_d;                                                             \
        where = "D";                                                           \
        CHECK(has_next(), "no has_next in the first overrider");               \
        check2<K1, K2>(a, b);                                                  \
        return 100 +                                                           \
            next(std::forward<decltype(a)>(a), std::forward<decltype(b)>(b));  \
    }
#define BODY_E                                                                 \
    {                                                                          \
        ++calls_e;                                                             \
        return 0;                                                              \
    }

#define ARGS(C, K1, K2) (OP<C, K1> a, OP<C, K2> b)

// the forms
#define FORM_explicit_registry(K1, K2)                                         \
    BOOST_OPENMETHOD(meth, (K1::M, K2::M), int, Reg);                          \
    BOOST_OPENMETHOD_OVERRIDE(meth, ARGS(R, K1, K2), int)                      \
    BODY_R(K1, K2)                                                             \
    BOOST_OPENMETHOD_OVERRIDE(meth, ARGS(D, K1, K2), int)                      \
    BODY_D(K1, K2)                                                             \
    BOOST_OPENMETHOD_OVERRIDE(meth, ARGS(E, K1, K2), int)                      \
    BODY_E

#define FORM_inline(K1, K2)                                                    \
    BOOST_OPENMETHOD(meth, (K1::M, K2::M), int);                               \
    BOOST_OPENMETHOD_INLINE_OVERRIDE(meth, ARGS(E, K1, K2), int)               \
    BODY_E                                                                     \
    BOOST_OPENMETHOD_INLINE_OVERRIDE(meth, ARGS(D, K1, K2), int)               \
    BODY_D(K1, K2)                                                             \
    BOOST_OPENMETHOD_INLINE_OVERRIDE(meth, ARGS(R, K1, K2), int)               \
    BODY_R(K1, K2)

#define FORM_declared(K1, K2)                                                  \
    BOOST_OPENMETHOD(meth, (K1::M m1, K2::M m2), int, Reg);                    \
    BOOST_OPENMETHOD_DECLARE_OVERRIDER(meth, ARGS(D, K1, K2), int)             \
    BOOST_OPENMETHOD_DECLARE_OVERRIDER(meth, ARGS(E, K1, K2), int)             \
    BOOST_OPENMETHOD_DECLARE_OVERRIDER(meth, ARGS(R, K1, K2), int)             \
    BOOST_OPENMETHOD_DEFINE_OVERRIDER(meth, ARGS(R, K1, K2), int)              \
    BODY_R(K1, K2)                                                             \
    BOOST_OPENMETHOD_DEFINE_OVERRIDER(meth, ARGS(D, K1, K2), int)              \
    BODY_D(K1, K2)                                                             \
    BOOST_OPENMETHOD_DEFINE_OVERRIDER(meth, ARGS(E, K1, K2), int)              \
    BODY_E

// overriders in nested namespaces; another method with the same name, one with
// other parameters
#define FORM_nested(K1, K2)                                                    \
    BOOST_OPENMETHOD(meth, (K1::M, K2::M), int);                               \
    BOOST_OPENMETHOD(meth, (virtual_<const E&>, K2::M, const char*), int);     \
    BOOST_OPENMETHOD(other_meth, (K1::M, K2::M), int);                         \
    BOOST_OPENMETHOD_OVERRIDE(meth, ARGS(R, K1, K2), int)                      \
    BODY_R(K1, K2)                                                             \
    namespace inner {                                                          \
    BOOST_OPENMETHOD_OVERRIDE(meth, ARGS(D, K1, K2), int)                      \
    BODY_D(K1, K2)                                                             \
    }                                                                          \
    namespace other_inner {                                                    \
    BOOST_OPENMETHOD_OVERRIDE(meth, ARGS(E, K1, K2), int)                      \
    BODY_E                                                                     \
    BOOST_OPENMETHOD_OVERRIDE(                                                 \
        meth, (const E&, OP<E, K2>, const char*), int)                         \
    BODY_E                                                                     \
    BOOST_OPENMETHOD_OVERRIDE(other_meth, ARGS(D, K1, K2), int)                \
    BODY_E                                                                     \
    }

#define TEST(NAME, FORM, K1, K2)                                               \
    namespace NAME {                                                           \
    BOOST_PP_CAT(FORM_, FORM)(K1, K2) struct Add {                             \
        Add() {                                                                \
            entries().push_back(                                               \
                {"macros (" #FORM "): method with parameters (" +              \
                     std::string(K1::name) + ", " + K2::name + ")",            \
                 +[] {                                                         \
                     run_one<K1, K2>([](auto& h1, auto& h2) {                  \
                         return meth(h1.pass(), h2.pass());                    \
                     });                                                       \
                 }});                                                          \
        }                                                                      \
    } add;                                                                     \
    }

#define V_KINDS                                                                \
    (v_ref)(v_rref)(v_ptr)(v_vp)(v_cvp)(v_uvp)(v_un)(v_shr)(v_svp)(v_svpr)(v_in)
#define N_KINDS_0                                                              \
    (n_int)(n_tr)(n_trm)(n_mo)(n_lref)(n_clref)(n_rref)(n_crref)(n_morref)(n_moref)
#define N_KINDS_1                                                              \
    (n_obj)(n_objptr)(n_sp)(n_arr)(n_fn)(n_dbl)(n_big)(n_en)(n_upc)(v_vp)(v_uvp)(v_shr)(v_rref)

#define PRODUCT(R_, S)                                                         \
    PRODUCT_(BOOST_PP_SEQ_ELEM(0, S), BOOST_PP_SEQ_ELEM(1, S), BOOST_PP_SEQ_ELEM(2, S))
#define PRODUCT_(F, A, B) PRODUCT__(F, A, B)
#define PRODUCT__(F, A, B) TEST(t_##F##_##A##_##B, F, A, B)

#ifdef PART
// PART: a kind of virtual parameter
#define VK BOOST_PP_SEQ_ELEM(PART, V_KINDS)
#define FORMS (explicit_registry)(inline)(declared)(nested)
BOOST_PP_SEQ_FOR_EACH_PRODUCT(PRODUCT, (FORMS)((VK))(N_KINDS_0))
BOOST_PP_SEQ_FOR_EACH_PRODUCT(PRODUCT, (FORMS)((VK))(N_KINDS_1))
#else
std::vector<Entry>& entries() {
    static std::vector<Entry> v;
    return v;
}

int main(int argc, char** argv) {
    auto& v = entries();
    std::sort(v.begin(), v.end(), [](auto& x, auto& y) { return x.what < y.what; });
    bom::initialize();

    mc::Harness h;
    h.name = "macros";
    h.run = [&](mc::Explorer& ex, const mc::Case& c) {
        v[c[0]].run();
        ex.transition();
        ex.state(mc::mix(0x6d616372, c[0]));
        ex.trace_ok();
    };
    h.describe = [&](const mc::Case& c) { return v[c[0]].what; };
    h.enumerate = [&](mc::Explorer& ex) {
        for (int i = 0; i < int(v.size()); ++i)
            ex.consider({i});
    };
    return mc::main(argc, argv, h);
}
#endif
