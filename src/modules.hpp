// What the program and the libraries of h_modules have in common.
#ifndef VERIF_MODULES_HPP
#define VERIF_MODULES_HPP

#include <boost/openmethod.hpp>
#include <boost/openmethod/policies/throw_error_handler.hpp>
#include <boost/openmethod/policies/vptr_map.hpp>

namespace bom = boost::openmethod;
namespace pol = boost::openmethod::policies;
using bom::virtual_;

constexpr int NREG = 4, NMOD = 6;

template<int K>
struct Reg;
template<>
struct Reg<0> : bom::registry<
                    pol::std_rtti, pol::vptr_vector, pol::fast_perfect_hash,
                    pol::throw_error_handler, pol::runtime_checks> {};
template<>
struct Reg<1> : bom::registry<
                    pol::std_rtti, pol::vptr_vector, pol::fast_perfect_hash,
                    pol::throw_error_handler> {};
template<>
struct Reg<2> : bom::registry<
                    pol::std_rtti, pol::vptr_map<>, pol::throw_error_handler,
                    pol::runtime_checks> {};
template<>
struct Reg<3> : bom::registry<
                    pol::std_rtti, pol::vptr_vector, pol::fast_perfect_hash,
                    pol::throw_error_handler, pol::runtime_checks, pol::indirect_vptr> {};

// classes
enum { A_, B_, C_, D_, E_, P_, NCLS };

// overriders; the program registers the first one
enum {
    M1_A, // in the program
    M1_B,
    M2_BA,
    M1_C,
    M2_AC,
    M1_D,
    M2_DA,
    M1_E,
    M3_AC,
    M3_BC,
    M3_EE,
    M2_BC,
    M1_P,
    M2_PP,
    M1_B2, // same signature as M1_B, another library
    NOVR
};

// the overriders that ran, defined in the program
extern int trace_length;
extern int trace[16];

inline void record(int overrider) {
    if (trace_length < 16)
        trace[trace_length++] = overrider;
}

template<int K>
struct World {
    using R = Reg<K>;
    template<class T>
    using VP = bom::virtual_ptr<T, R>;

    struct A {
        virtual ~A() {
        }
        int cls = A_;
    };
    struct B : virtual A {
        long b = 0;
        B() {
            this->cls = B_;
        }
    };
    struct C : virtual A {
        long c = 0;
        C() {
            this->cls = C_;
        }
    };
    struct D : B {
        D() {
            this->cls = D_;
        }
    };
    struct E : B, C {
        E() {
            this->cls = E_;
        }
    };

    struct m1_id;
    struct m2_id;
    using m1 = bom::method<m1_id, void(virtual_<A&>), R>;
    using m2 = bom::method<m2_id, void(VP<A>, VP<A>), R>;

    struct Api {
        A* (*make)();
        void (*m3)(A&, C&);  // 0: none
        void (*final_m1)(A&); // with a final_virtual_ptr to the class of the library
    };
};

#endif
