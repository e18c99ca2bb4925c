// C14: plain virtual_ptrs.  Explicit-state search: every operation from every
// reachable state of a small set of variables; each execution is compared, step
// by step, with plain pointers put through the same operations.
#include <boost/openmethod.hpp>
#include <boost/openmethod/initialize.hpp>
#include <boost/openmethod/inplace_vptr.hpp>
#include <boost/openmethod/policies/static_rtti.hpp>
#include <boost/openmethod/policies/throw_error_handler.hpp>
#include <boost/openmethod/policies/vptr_map.hpp>

#include "mc.hpp"

#include <deque>
#include <set>

namespace bom = boost::openmethod;
namespace pol = boost::openmethod::policies;
namespace mp11 = boost::mp11;
using bom::virtual_ptr;

template<class T>
struct marker {
    using category = marker;
    template<class R>
    struct fn {};
};

// ---------------------------------------------------------------------------
// hierarchies: A <- B <- D (and A <- C <- D when inheritance is virtual)

struct Plain {
    template<class R>
    struct H {
        struct Pad {
            long pad = 1;
            virtual ~Pad() = default;
        };
        struct A {
            int cls;
            A(int c = 0) : cls(c) {
            }
            virtual ~A() = default;
        };
        struct B : Pad, A {
            B(int c = 1) : A(c) {
            }
        };
        struct D : B {
            long d = 3;
            D() : B(2) {
            }
        };
        using use = bom::use_classes<A, B, D, R>;
    };
    static constexpr bool poly = true, down = true;
    static constexpr const char* name = "single inheritance";
};

struct Virt {
    template<class R>
    struct H {
        struct Pad {
            long pad = 1;
            virtual ~Pad() = default;
        };
        struct A {
            int cls;
            A(int c = 0) : cls(c) {
            }
            virtual ~A() = default;
        };
        struct B : Pad, virtual A {
            B() : A(1) {
            }
        };
        struct C : virtual A {
            long c = 3;
        };
        struct D : C, B {
            long d = 3;
            D() : A(2) {
            }
        };
        using use = bom::use_classes<A, B, C, D, R>;
    };
    static constexpr bool poly = true, down = true;
    static constexpr const char* name = "virtual inheritance";
};

struct NonPoly {
    template<class R>
    struct H {
        struct Pad {
            long pad = 1;
        };
        struct A {
            int cls;
            A(int c = 0) : cls(c) {
            }
        };
        struct B : Pad, A {
            B(int c = 1) : A(c) {
            }
        };
        struct D : B {
            long d = 3;
            D() : B(2) {
            }
        };
        using use = bom::use_classes<A, B, D, R>;
    };
    static constexpr bool poly = false, down = true;
    static constexpr const char* name = "no polymorphic class";
};

struct Inplace {
    template<class R>
    struct H {
        struct Pad {
            long pad = 1;
            virtual ~Pad() = default;
        };
        struct A : bom::inplace_vptr_base<A, R> {
            int cls;
            A(int c = 0) : cls(c) {
            }
            virtual ~A() = default;
        };
        struct B : Pad, A, bom::inplace_vptr_derived<B, A> {
            B(int c = 1) : A(c) {
            }
        };
        struct D : B, bom::inplace_vptr_derived<D, B> {
            long d = 3;
            D() : B(2) {
            }
        };
        struct use {};
    };
    static constexpr bool poly = true, down = true;
    static constexpr const char* name = "in-place v-table pointer";
};

// the user finds the v-table: a field set from static_vptr
struct Custom {
    template<class R>
    struct H {
        struct Pad {
            long pad = 1;
            virtual ~Pad() = default;
        };
        struct A;
        struct B;
        struct D;
        struct A {
            int cls;
            A(int c = 0) : cls(c) {
            }
            virtual ~A() = default;
            friend auto boost_openmethod_vptr(const A& a, R*)
                -> const bom::vptr_type& {
                return a.cls == 0 ? R::template static_vptr<A>
                    : a.cls == 1  ? R::template static_vptr<B>
                                  : R::template static_vptr<D>;
            }
        };
        struct B : Pad, A {
            B(int c = 1) : A(c) {
            }
        };
        struct D : B {
            long d = 3;
            D() : B(2) {
            }
        };
        using use = bom::use_classes<A, B, D, R>;
    };
    static constexpr bool poly = true, down = true;
    static constexpr const char* name = "boost_openmethod_vptr";
};

// ---------------------------------------------------------------------------

template<class T>
struct Box {
    alignas(T) unsigned char mem[sizeof(T)];
    Box() {
        std::memset(mem, 0xAA, sizeof mem);
        new (mem) T(nullptr);
    }
    Box(const Box&) = delete;
    T& get() {
        return *reinterpret_cast<T*>(mem);
    }
    template<class... X>
    void renew(X&&... x) {
        std::memset(mem, 0xAA, sizeof mem);
        new (mem) T(std::forward<X>(x)...);
    }
    void uninit() {
        std::memset(mem, 0xAA, sizeof mem);
        new (mem) T;
    }
};

template<int N, class Hier, bool Indirect, bool Checks, class Vptr>
struct Search {
    template<class... P>
    using mk = bom::registry<P...>;
    using Policies = mp11::mp_append<
        std::conditional_t<
            Hier::poly, mp11::mp_list<pol::std_rtti>,
            mp11::mp_list<pol::static_rtti>>,
        Vptr,
        std::conditional_t<
            Indirect, mp11::mp_list<pol::indirect_vptr>, mp11::mp_list<>>,
        std::conditional_t<
            Checks, mp11::mp_list<pol::runtime_checks>, mp11::mp_list<>>,
        // an error handler needs the dynamic types of the arguments
        std::conditional_t<
            Hier::poly, mp11::mp_list<pol::throw_error_handler>,
            mp11::mp_list<>>,
        mp11::mp_list<marker<mp11::mp_int<N>>>>;
    struct R : mp11::mp_apply<bom::registry, Policies> {};
    using HH = typename Hier::template H<R>;
    using A = typename HH::A;
    using B = typename HH::B;
    using D = typename HH::D;
    template<class T>
    using VP = virtual_ptr<T, R>;
    static constexpr bool poly = Hier::poly;

    struct Id;
    using M = bom::method<Id, int(VP<A>, int), R>;
    static int fa(VP<A> p, int c) {
        return p->cls == c ? 0 : -1;
    }
    static int fb(VP<B> p, int c) {
        return p->cls == c ? 1 : -1;
    }
    static int fd(VP<D> p, int c) {
        return p->cls == c ? 2 : -1;
    }
    struct Id2;
    using M2 = bom::method<Id2, int(int, const VP<const A>&), R>;
    static int ga(int c, const VP<const A>& p) {
        return p->cls == c ? 0 : -1;
    }
    static int gb(int c, const VP<const B>& p) {
        return p->cls == c ? 1 : -1;
    }
    static int gd(int c, const VP<const D>& p) {
        return p->cls == c ? 2 : -1;
    }

    static void install() {
        static typename HH::use u;
        (void)&u;
        static typename M::template override<fa, fb, fd> o;
        (void)&o;
        static typename M2::template override<ga, gb, gd> o2;
        (void)&o2;
    }

    struct Objs {
        A a;
        D d;
        D d2;
        // object #1: a B, or a D in the same place
        alignas(B) alignas(D) unsigned char mem
            [sizeof(B) > sizeof(D) ? sizeof(B) : sizeof(D)];
        B* b = nullptr;
        D* bd = nullptr;
        Objs() {
            b = new (mem) B;
        }
        ~Objs() {
            destroy();
        }
        void destroy() {
            if (bd)
                bd->~D();
            else
                b->~B();
        }
        void recreate() {
            bool to_d = !bd;
            destroy();
            if (to_d) {
                b = bd = new (mem) D;
            } else {
                bd = nullptr;
                b = new (mem) B;
            }
        }
    };
    static inline Objs* objs;

    template<class T>
    static T* object(int k) {
        switch (k) {
        case 0:
            return up<T>(&objs->a);
        case 1:
            return objs->bd ? up<T>(objs->bd) : up<T>(objs->b);
        case 2:
            return up<T>(&objs->d);
        default:
            return up<T>(&objs->d2);
        }
    }
    template<class T, class U>
    static T* up(U* p) {
        if constexpr (std::is_convertible_v<U*, T*>)
            return p;
        else
            return nullptr;
    }
    static constexpr int NOBJ = 4;

    static constexpr int PAIRS[2][2] = {{0, 2}, {3, 4}};
    using VTypes = mp11::mp_list<A, A, B, const A, D>;
    static constexpr int NV = 5;
    template<int I>
    using VT = mp11::mp_at_c<VTypes, I>;
    template<class... T>
    using Vars = std::tuple<Box<VP<T>>...>;
    template<class... T>
    using Ptrs = std::tuple<T*...>;

    struct State {
        mp11::mp_apply<Vars, VTypes> v;
        mp11::mp_apply<Ptrs, VTypes> m{};
        bool uninit[NV] = {};
        bool dead[NV] = {}; // uninit, and designates an object that is gone
        // while object #1 is a D or a variable is dead, only two variables
        // are used, to keep the number of states down
        int pair = -1;
        bool frozen(int i) const {
            return pair >= 0 && i != PAIRS[pair][0] && i != PAIRS[pair][1];
        }
        void settle() {
            if (!objs->bd && !std::count(dead, dead + NV, true))
                pair = -1;
        }
        template<int I>
        Box<VP<VT<I>>>& box() {
            return std::get<I>(v);
        }
        template<int I>
        VP<VT<I>>& var() {
            return std::get<I>(v).get();
        }
        template<int I>
        VT<I>*& ptr() {
            return std::get<I>(m);
        }
    };

    struct Op {
        std::string name;
        std::function<bool(State&)> run;
    };
    static inline std::vector<Op> ops;

    template<class T>
    static std::string tname() {
        return std::is_const_v<T> ? "cA"
            : std::is_same_v<T, A> ? "A"
            : std::is_same_v<T, B> ? "B"
                                   : "D";
    }
    template<int I>
    static std::string vn() {
        return "v" + std::to_string(I) + tname<VT<I>>();
    }

    // f: implementation; g: new value of the mirror
    template<int I, class F, class G>
    static void add(std::string name, F f, G g) {
        ops.push_back({std::move(name), [f, g](State& s) {
                           VT<I>* n;
                           if (s.frozen(I) || !g(s, n))
                               return false;
                           f(s);
                           s.template ptr<I>() = n;
                           s.uninit[I] = s.dead[I] = false;
                           s.settle();
                           return true;
                       }});
    }

    template<int I>
    static void bury(State& s) {
        auto m = s.template ptr<I>();
        if (!s.uninit[I] && m &&
            object<const A>(1) == static_cast<const A*>(m))
            s.uninit[I] = s.dead[I] = true;
    }

    template<class To, class From>
    static bool valid_cast(From* p, To*& r) {
        if (!p)
            return false; // dereferences the object: precondition
        if constexpr (std::is_convertible_v<From*, To*>) {
            r = p;
            return true;
        } else {
            for (int k = 0; k < NOBJ; ++k)
                if (auto* o = object<From>(k))
                    if (o == p) {
                        r = object<To>(k);
                        return r != nullptr;
                    }
            return false;
        }
    }

    template<int I, int J>
    static void pair_ops() {
        using TI = VT<I>;
        using TJ = VT<J>;
        auto ij = vn<I>() + "," + vn<J>();
        if constexpr (std::is_convertible_v<TJ*, TI*>) {
            auto g = [](State& s, TI*& n) {
                n = s.template ptr<J>();
                return !s.uninit[J];
            };
            add<I>(
                "copy-assign " + ij,
                [](State& s) {
                    s.template var<I>() = std::as_const(s.template var<J>());
                },
                g);
            add<I>(
                "assign-lvalue " + ij,
                [](State& s) { s.template var<I>() = s.template var<J>(); }, g);
            add<I>(
                "move-assign " + ij,
                [](State& s) {
                    s.template var<I>() = std::move(s.template var<J>());
                },
                g);
            if constexpr (I != J) {
                add<I>(
                    "copy-construct " + ij,
                    [](State& s) {
                        s.template box<I>().renew(
                            std::as_const(s.template var<J>()));
                    },
                    g);
                add<I>(
                    "construct-lvalue " + ij,
                    [](State& s) {
                        s.template box<I>().renew(s.template var<J>());
                    },
                    g);
                add<I>(
                    "move-construct " + ij,
                    [](State& s) {
                        s.template box<I>().renew(
                            std::move(s.template var<J>()));
                    },
                    g);
            }
            if constexpr (std::is_same_v<TI, TJ> && I < J) {
                ops.push_back({"swap " + ij, [](State& s) {
                                   if (s.uninit[I] || s.uninit[J] ||
                                       s.frozen(I) || s.frozen(J))
                                       return false;
                                   using std::swap;
                                   swap(s.template var<I>(), s.template var<J>());
                                   swap(s.template ptr<I>(), s.template ptr<J>());
                                   return true;
                               }});
            }
        }
        if constexpr (
            (std::is_const_v<TI> || !std::is_const_v<TJ>) &&
            (std::is_const_v<TI> == std::is_const_v<TJ>)) {
            auto g = [](State& s, TI*& n) {
                return !s.uninit[J] && valid_cast<TI>(s.template ptr<J>(), n);
            };
            add<I>(
                "cast " + ij,
                [](State& s) {
                    s.template var<I>() = s.template var<J>().template cast<TI>();
                },
                g);
            add<I>(
                "cast-const " + ij,
                [](State& s) {
                    s.template var<I>() = std::as_const(s.template var<J>())
                                              .template cast<TI>();
                },
                g);
            if constexpr (I != J)
                add<I>(
                    "cast-construct " + ij,
                    [](State& s) {
                        s.template box<I>().renew(
                            std::move(s.template var<J>()).template cast<TI>());
                    },
                    g);
        }
    }

    template<int I>
    static void var_ops() {
        using TI = VT<I>;
        auto null = [](State&, TI*& n) {
            n = nullptr;
            return true;
        };
        add<I>(
            "assign-null " + vn<I>(),
            [](State& s) { s.template var<I>() = nullptr; }, null);
        add<I>(
            "construct-null " + vn<I>(),
            [](State& s) { s.template box<I>().renew(nullptr); }, null);
        ops.push_back({"construct-default " + vn<I>(), [](State& s) {
                           if (s.frozen(I))
                               return false;
                           s.template box<I>().uninit();
                           s.uninit[I] = true;
                           s.dead[I] = false;
                           s.settle();
                           return true;
                       }});
        for (int k = 0; k < NOBJ; ++k) {
            obj_ops<I, A>(k);
            obj_ops<I, B>(k);
            obj_ops<I, D>(k);
            obj_ops<I, const A>(k);
            obj_ops<I, const B>(k);
        }
        final_ops<I, A>(0);
        final_ops<I, B>(1);
        final_ops<I, D>(2);
        final_ops<I, D>(3);
    }
    template<int I, class T>
    static void obj_ops(int k) {
        using TI = VT<I>;
        if constexpr (poly && std::is_convertible_v<T*, TI*>) {
            auto n = vn<I>() + "<-" + (std::is_const_v<T> ? "const " : "") +
                tname<std::remove_const_t<T>>() + " #" + std::to_string(k);
            auto g = [k](State&, TI*& n) {
                n = object<T>(k);
                return n != nullptr;
            };
            add<I>(
                "assign-ref " + n,
                [k](State& s) { s.template var<I>() = *object<T>(k); }, g);
            add<I>(
                "assign-ptr " + n,
                [k](State& s) { s.template var<I>() = object<T>(k); }, g);
            add<I>(
                "assign-ptr-lvalue " + n,
                [k](State& s) {
                    T* p = object<T>(k);
                    s.template var<I>() = p;
                },
                g);
            add<I>(
                "construct-ref " + n,
                [k](State& s) { s.template box<I>().renew(*object<T>(k)); }, g);
            add<I>(
                "construct-ptr " + n,
                [k](State& s) { s.template box<I>().renew(object<T>(k)); }, g);
        }
    }
    template<int I, class T>
    static void final_ops(int k) {
        using TI = VT<I>;
        if constexpr (std::is_convertible_v<T*, TI*>) {
            auto n = vn<I>() + "<-#" + std::to_string(k);
            auto g = [k](State&, TI*& n) {
                n = object<T>(k);
                return n != nullptr && !(k == 1 && objs->bd);
            };
            add<I>(
                "assign-final " + n,
                [k](State& s) {
                    s.template var<I>() = bom::final_virtual_ptr<R>(*object<T>(k));
                },
                g);
            add<I>(
                "construct-final " + n,
                [k](State& s) {
                    s.template box<I>().renew(
                        bom::final_virtual_ptr<R>(*object<T>(k)));
                },
                g);
            add<I>(
                "static-final " + n,
                [k](State& s) {
                    s.template var<I>() = VP<T>::final(*object<T>(k));
                },
                g);
        }
    }

    template<int... I>
    static void build(std::integer_sequence<int, I...>) {
        (var_ops<I>(), ...);
        (build_row<I>(std::integer_sequence<int, I...>()), ...);
        for (int p = 0; p < 2; ++p)
            ops.push_back({"replace object #1", [p](State& s) {
                               if (s.pair >= 0 && s.pair != p)
                                   return false;
                               for (bool d : s.dead)
                                   if (d)
                                       return false;
                               s.pair = p;
                               bool ok = true;
                               ((ok = ok &&
                                     (!s.frozen(I) ||
                                      (!s.uninit[I] && !s.template ptr<I>()))),
                                ...);
                               if (!ok) {
                                   s.settle();
                                   return false;
                               }
                               (bury<I>(s), ...);
                               objs->recreate();
                               s.settle();
                               return true;
                           }});
        if constexpr (Indirect)
            ops.push_back({"initialize again", [](State&) {
                               bom::initialize<R>();
                               return true;
                           }});
    }
    template<int I, int... J>
    static void build_row(std::integer_sequence<int, J...>) {
        (pair_ops<I, J>(), ...);
    }

    static bom::vptr_type vptr_of(int d) {
        return d == 0     ? R::template static_vptr<A>
            : d == 1 ? R::template static_vptr<B>
                     : R::template static_vptr<D>;
    }

    template<int I>
    static void check_var(State& s, std::string& key) {
        if (s.uninit[I]) {
            key += s.dead[I] ? 'X' : 'U';
            return;
        }
        const auto& v = s.template var<I>();
        auto* m = s.template ptr<I>();
        auto n = vn<I>();
        if (v.get() != m)
            mc::fail("%s designates the wrong object", n.c_str());
        if (v.pointer() != m || v.operator->() != m)
            mc::fail("%s: get(), pointer() and -> differ", n.c_str());
        if (!m) {
            key += '.';
            if (v.vptr() != nullptr)
                mc::fail("%s is null, but not its v-table pointer", n.c_str());
            if (!(v == VP<VT<I>>(nullptr)) || v != VP<VT<I>>(nullptr))
                mc::fail("%s is null, but is not equal to null", n.c_str());
            return;
        }
        if (v == VP<VT<I>>(nullptr))
            mc::fail("%s is not null, but is equal to null", n.c_str());
        if (&*v != m)
            mc::fail("%s: operator* is wrong", n.c_str());
        int d = m->cls;
        if (v.vptr() != vptr_of(d))
            mc::fail(
                "%s: the v-table is %s the object's dynamic class %c",
                n.c_str(), v.vptr() ? "not that of" : "null instead of that of",
                "ABD"[d]);
        int r;
        if constexpr (std::is_same_v<VT<I>, A>)
            r = M::fn(v, d);
        else
            r = M2::fn(d, v);
        if (r != d)
            mc::fail("%s: a method call runs the wrong overrider", n.c_str());
        for (int k = 0; k < NOBJ; ++k)
            if (object<const A>(k) == static_cast<const A*>(m))
                key += char('0' + k);
    }
    template<int I, int J>
    static void check_eq(State& s) {
        if (s.uninit[I] || s.uninit[J])
            return;
        const auto& a = s.template var<I>();
        const auto& b = s.template var<J>();
        bool m = s.template ptr<I>() == s.template ptr<J>();
        if ((a == b) != m || (a != b) == m)
            mc::fail("%s == %s is wrong", vn<I>().c_str(), vn<J>().c_str());
    }
    template<int... I>
    static std::string observe(State& s, std::integer_sequence<int, I...>) {
        std::string key;
        (check_var<I>(s, key), ...);
        (check_eq<0, I>(s), ...);
        (check_eq<2, I>(s), ...);
        key += objs->bd ? 'd' : 'b';
        key += char('1' + s.pair);
        return key;
    }

    static inline std::string last_key;
    static inline bool applicable;

    static void run(mc::Explorer& ex, const mc::Case& c) {
        bom::initialize<R>();
        Objs o;
        objs = &o;
        using Is = std::make_integer_sequence<int, NV>;
        applicable = true;
        State s;
        std::string key = observe(s, Is());
        for (std::size_t i = 1; i < c.size(); ++i) {
            applicable = ops[c[i]].run(s);
            if (!applicable)
                break;
            ex.transition();
            key = observe(s, Is());
        }
        last_key = key;
        ex.trace_ok();
    }

    static void search(mc::Explorer& ex, int config) {
        std::set<std::string> visited;
        std::deque<mc::Case> queue;
        mc::Case root{config};
        ex.exec(root);
        visited.insert(last_key);
        queue.push_back(root);
        while (!queue.empty()) {
            auto c = queue.front();
            queue.pop_front();
            for (int o = 0; o < int(ops.size()); ++o) {
                if (ex.sh->stop.load())
                    _exit(0);
                auto n = c;
                n.push_back(o);
                ex.exec(n);
                if (!applicable)
                    continue;
                if (visited.insert(last_key).second) {
                    ex.state(mc::mix(
                        std::hash<std::string>()(last_key), config + 1));
                    queue.push_back(n);
                }
            }
        }
    }

    static std::string describe(const mc::Case& c) {
        std::string r = std::string(Hier::name) +
            (Indirect ? ", indirect_vptr" : "") +
            (Checks ? ", runtime_checks" : "") + ":";
        for (std::size_t i = 1; i < c.size(); ++i)
            r += std::string(i > 1 ? "; " : " ") + ops[c[i]].name;
        return r;
    }
    static void prepare() {
        install();
        Objs o;
        objs = &o;
        build(std::make_integer_sequence<int, NV>());
    }
};

struct Config {
    void (*prepare)();
    void (*run)(mc::Explorer&, const mc::Case&);
    void (*search)(mc::Explorer&, int);
    std::string (*describe)(const mc::Case&);
};

template<class S>
Config config() {
    return {S::prepare, S::run, S::search, S::describe};
}

std::vector<Config> configs0();
std::vector<Config> configs1();
std::vector<Config> configs2();
std::vector<Config> configs3();
std::vector<Config> configs4();

#ifndef PART
#define PART -1
#endif

using Vec = mp11::mp_list<pol::vptr_vector, pol::fast_perfect_hash>;
using Map = mp11::mp_list<pol::vptr_map<>>;
using None = mp11::mp_list<>;

template<int N, class H, class V0, class V1>
std::vector<Config> hier() {
    return {
        config<Search<N, H, false, false, V0>>(),
        config<Search<N, H, true, false, V0>>(),
        config<Search<N, H, false, true, V1>>(),
        config<Search<N, H, true, true, V1>>()};
}

#if PART == 0
std::vector<Config> configs0() {
    return hier<0, Plain, Vec, Map>();
}
#elif PART == 1
std::vector<Config> configs1() {
    return hier<1, Virt, Map, Vec>();
}
#elif PART == 2
std::vector<Config> configs2() {
    return hier<2, NonPoly, None, None>();
}
#elif PART == 3
std::vector<Config> configs3() {
    return hier<3, Inplace, None, Vec>();
}
#elif PART == 4
std::vector<Config> configs4() {
    return hier<4, Custom, None, None>();
}
#else
int main(int argc, char** argv) {
    std::vector<Config> configs;
    for (auto& v : {configs0(), configs1(), configs2(), configs3(), configs4()})
        for (auto& c : v)
            configs.push_back(c);
    for (auto& c : configs)
        c.prepare();
    mc::Harness h;
    h.name = "pptr";
    h.run = [&](mc::Explorer& ex, const mc::Case& c) {
        configs[c[0]].run(ex, c);
    };
    h.describe = [&](const mc::Case& c) { return configs[c[0]].describe(c); };
    h.enumerate = [&](mc::Explorer& ex) {
        for (int i = 0; i < int(configs.size()); ++i)
            if (ex.mine())
                configs[i].search(ex, i);
    };
    return mc::main(argc, argv, h);
}
#endif
