// A library of h_modules: -DREG=registry -DMODULE=number.
#include "modules.hpp"

namespace {

using W = World<REG>;
using R = W::R;
using A = W::A;
using B = W::B;
using C = W::C;
using D = W::D;
using E = W::E;
template<class T>
using VP = W::VP<T>;

#define NEXT(M, F, ...)                                                        \
    if (W::M::has_next<F>())                                                   \
        W::M::next<F>(__VA_ARGS__);                                            \
    else                                                                       \
        record(-1)

#define M1(T)                                                                  \
    void m1_##T(T& x) {                                                        \
        record(M1_##T);                                                        \
        NEXT(m1, m1_##T, x);                                                   \
    }                                                                          \
    W::m1::override<m1_##T> m1_##T##_;

#define M2(T, U)                                                               \
    void m2_##T##U(VP<T> x, VP<U> y) {                                         \
        record(M2_##T##U);                                                     \
        NEXT(m2, m2_##T##U, x, y);                                             \
    }                                                                          \
    W::m2::override<m2_##T##U> m2_##T##U##_;

W::Api api{};

#if MODULE == 0
bom::use_classes<A, B, R> classes;
M1(B)
M2(B, A)
#elif MODULE == 1
bom::use_classes<A, C, R> classes;
M1(C)
M2(A, C)
#elif MODULE == 2
bom::use_classes<A, B, D, R> classes;
M1(D)
M2(D, A)
#elif MODULE == 3
bom::use_classes<A, B, C, E, R> classes;
M1(E)
struct m3_id;
using m3 = bom::method<m3_id, void(VP<A>, virtual_<C&>), R>;
void m3_AC(VP<A> x, C& y) {
    record(M3_AC);
}
void m3_BC(VP<B> x, C& y) {
    record(M3_BC);
    m3::next<m3_BC>(x, y);
}
void m3_EE(VP<E> x, E& y) {
    record(M3_EE);
    m3::next<m3_EE>(x, y);
}
m3::override<m3_AC, m3_BC, m3_EE> m3_;
struct Init {
    Init() {
        api.m3 = [](A& x, C& y) { m3::fn(x, y); };
    }
} init;
#elif MODULE == 4
// overriders only
M2(B, C)
void m1_B2(B& x) {
    record(M1_B2);
    NEXT(m1, m1_B2, x);
}
W::m1::override<m1_B2> m1_B2_;
#elif MODULE == 5
// a class of its own
struct P : C {
    P() {
        this->cls = P_;
    }
};
bom::use_classes<A, C, P, R> classes;
bom::use_classes<A, B, R> more_classes;
M1(P)
M2(P, P)
struct Init {
    Init() {
        api.make = []() -> A* { return new P; };
        api.final_m1 = [](A& x) {
            VP<A> p = bom::final_virtual_ptr<R>(dynamic_cast<P&>(x));
            W::m2::fn(p, p);
        };
    }
} init;
#endif

} // namespace

extern "C" void* module_api() {
    return &api;
}
