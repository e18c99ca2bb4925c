// C15: smart virtual_ptrs.  Explicit-state search: every operation from every
// reachable state of a small set of variables; each execution is compared, step
// by step, with plain smart pointers put through the same operations.
#include <boost/openmethod.hpp>
#include <boost/openmethod/initialize.hpp>
#include <boost/openmethod/interop/boost_intrusive_ptr.hpp>
#include <boost/openmethod/interop/std_shared_ptr.hpp>
#include <boost/openmethod/interop/std_unique_ptr.hpp>
#include <boost/openmethod/policies/vptr_map.hpp>
#include <boost/openmethod/policies/throw_error_handler.hpp>
#include <boost/smart_ptr/intrusive_ref_counter.hpp>

#include "mc.hpp"

#include <deque>
#include <set>

namespace bom = boost::openmethod;
namespace pol = boost::openmethod::policies;
namespace mp11 = boost::mp11;
using bom::virtual_ptr;

template<class T>
struct marker {
    using category = marker;
    template<class R>
    struct fn {};
};

// ---------------------------------------------------------------------------
// objects

constexpr int MAXOBJ = 2; // alive at the same time
inline int universe;             // 0: implementation, 1: mirror
inline int next_uid[2];
inline int alive[2];

inline std::string dtors[2];

template<int Virt>
struct H {
    struct Pad {
        long pad = 77;
        virtual ~Pad() = default;
    };
    struct A : boost::intrusive_ref_counter<A, boost::thread_unsafe_counter> {
        int uid, side;
        A() : uid(next_uid[universe]++), side(universe) {
            ++alive[side];
        }
        A(const A&) = delete;
        virtual ~A() {
            --alive[side];
            dtors[side] += char('0' + uid);
        }
    };
    struct B0 : Pad, A {};
    struct B1 : Pad, virtual A {};
    using B = std::conditional_t<Virt, B1, B0>;
    struct C1 : virtual A {
        long c = 5;
    };
    struct D0 : B {
        long d = 3;
    };
    struct D1 : C1, B1 {
        long d = 4;
    };
    using D = std::conditional_t<Virt, D1, D0>;
};

// ---------------------------------------------------------------------------
// kinds of smart pointers

struct Shared {
    template<class T>
    using P = std::shared_ptr<T>;
    static constexpr const char* name = "shared_ptr";
    static constexpr bool null_cast = true;
    template<class T>
    static P<T> make() {
        return std::make_shared<T>();
    }
    template<class T, class R>
    static auto make_virtual() {
        return bom::make_shared_virtual<T, R>();
    }
    template<class T>
    static int count(const P<T>& p) {
        return int(p.use_count());
    }
};

struct Intrusive {
    template<class T>
    using P = boost::intrusive_ptr<T>;
    static constexpr const char* name = "intrusive_ptr";
    static constexpr bool null_cast = false;
    template<class T>
    static P<T> make() {
        return P<T>(new T);
    }
    template<class T, class R>
    static auto make_virtual() {
        return bom::make_boost_intrusive_virtual<T, R>();
    }
    template<class T>
    static int count(const P<T>& p) {
        return p ? int(p->use_count()) : 0;
    }
};

struct Unique {
    template<class T>
    using P = std::unique_ptr<T>;
    static constexpr const char* name = "unique_ptr";
    static constexpr bool null_cast = false;
    template<class T>
    static P<T> make() {
        return std::make_unique<T>();
    }
    template<class T, class R>
    static auto make_virtual() {
        return bom::make_unique_virtual<T, R>();
    }
    template<class T>
    static int count(const P<T>& p) {
        return p ? 1 : 0;
    }
};

// ---------------------------------------------------------------------------

template<class T>
struct Box {
    alignas(T) unsigned char mem[sizeof(T)];
    Box() {
        std::memset(mem, 0xAA, sizeof mem);
        new (mem) T();
    }
    Box(const Box&) = delete;
    ~Box() {
        get().~T();
    }
    T& get() {
        return *reinterpret_cast<T*>(mem);
    }
    template<class... X>
    void renew(X&&... x) {
        get().~T();
        std::memset(mem, 0xAA, sizeof mem);
        new (mem) T(std::forward<X>(x)...);
    }
};

template<class K, int Virt, bool Indirect, class Vptr>
struct Search {
    using A = typename H<Virt>::A;
    using B = typename H<Virt>::B;
    using D = typename H<Virt>::D;
    template<class T>
    using P = typename K::template P<T>;

    using Base = std::conditional_t<
        Indirect,
        bom::registry<
            pol::std_rtti, Vptr, pol::fast_perfect_hash, pol::indirect_vptr,
            pol::throw_error_handler, marker<Search>>,
        bom::registry<
            pol::std_rtti, Vptr, pol::fast_perfect_hash,
            pol::throw_error_handler, marker<Search>>>;
    struct R : Base {};
    template<class T>
    using VP = virtual_ptr<P<T>, R>;

    struct Id;
    using M = bom::method<
        Id, int(const VP<A>&), R>;
    static int fa(const VP<A>&) {
        return 0;
    }
    static int fb(const VP<B>&) {
        return 1;
    }
    static int fd(const VP<D>&) {
        return 2;
    }
    // through the plain virtual_ptr
    struct Id2;
    using M2 = bom::method<Id2, int(virtual_ptr<A, R>), R>;
    static int ga(virtual_ptr<A, R>) {
        return 0;
    }
    static int gb(virtual_ptr<B, R>) {
        return 1;
    }
    static int gd(virtual_ptr<D, R>) {
        return 2;
    }
    template<class From, class To>
    static constexpr bool conv = std::is_convertible_v<From*, To*>;
    static constexpr bool copyable = std::is_copy_constructible_v<P<A>>;

    static void install() {
        if constexpr (Virt) {
            static bom::use_classes<A, B, typename H<1>::C1, D, R> u;
            (void)&u;
        } else {
            static bom::use_classes<A, B, D, R> u;
            (void)&u;
        }
        if constexpr (copyable) {
            static typename M::template override<fa, fb, fd> o;
            (void)&o;
        }
        static typename M2::template override<ga, gb, gd> o2;
        (void)&o2;
    }

    // variables
    using VTypes = mp11::mp_list<A, A, B, const A>;
    static constexpr int NV = 4;
    using RTypes = mp11::mp_list<A, B>;
    static constexpr int NRAW = 2;
    template<int I>
    using VT = mp11::mp_at_c<VTypes, I>;
    template<int I>
    using RT = mp11::mp_at_c<RTypes, I>;

    template<class... T>
    using Boxes = std::tuple<Box<T>...>;

    template<int U>
    struct Side {
        static constexpr bool impl = U == 0;
        template<class T>
        using V = std::conditional_t<impl, VP<T>, P<T>>;
        mp11::mp_apply<Boxes, mp11::mp_transform<V, VTypes>> v;
        mp11::mp_apply<std::tuple, mp11::mp_transform<P, RTypes>> r;

        template<int I>
        Box<V<VT<I>>>& box() {
            return std::get<I>(v);
        }
        template<int I>
        V<VT<I>>& var() {
            return std::get<I>(v).get();
        }
        template<int I>
        P<RT<I>>& raw() {
            return std::get<I>(r);
        }
        template<int I>
        const P<VT<I>>& ptr() {
            if constexpr (impl)
                return var<I>().pointer();
            else
                return var<I>();
        }
    };

    struct State {
        Side<0> i;
        Side<1> m;
        const char* skip = nullptr;
    };

    struct Op {
        std::string name;
        // false: not applicable in this state
        std::function<bool(State&)> run;
    };
    static inline std::vector<Op> ops;

    template<class F>
    static void both(State& s, F f) {
        universe = 0;
        f(s.i);
        universe = 1;
        f(s.m);
    }
    template<class F>
    static void add(std::string name, F f) {
        ops.push_back({std::move(name), [f](State& s) {
                           both(s, f);
                           return true;
                       }});
    }

    template<class T>
    static std::string tname() {
        return std::is_const_v<T> ? "cA"
            : std::is_same_v<T, A> ? "A"
                                   : "B";
    }
    template<int I>
    static std::string vn() {
        return "v" + std::to_string(I) + tname<VT<I>>();
    }
    template<int I>
    static std::string rn() {
        return "r" + std::to_string(I) + tname<RT<I>>();
    }

    template<int I, int J>
    static void pair_ops() {
        using TI = VT<I>;
        using TJ = VT<J>;
        using PI = P<TI>;
        using PJ = P<TJ>;
        using VI = VP<TI>;
        using VJ = VP<TJ>;
        auto ij = vn<I>() + "," + vn<J>();
        if constexpr (conv<TJ, TI> && copyable) {
            add("copy-assign " + ij, [](auto& s) {
                s.template var<I>() = std::as_const(s.template var<J>());
            });
            add("assign-lvalue " + ij,
                [](auto& s) { s.template var<I>() = s.template var<J>(); });
        }
        if constexpr (conv<TJ, TI>) {
            // self-move-assignment is left unspecified by the standard library
            if constexpr (I != J)
                add("move-assign " + ij, [](auto& s) {
                    s.template var<I>() = std::move(s.template var<J>());
                });
        }
        if constexpr (I != J) {
            if constexpr (conv<TJ, TI> && copyable) {
                add("copy-construct " + ij, [](auto& s) {
                    s.template box<I>().renew(
                        std::as_const(s.template var<J>()));
                });
                add("construct-lvalue " + ij, [](auto& s) {
                    s.template box<I>().renew(s.template var<J>());
                });
            }
            if constexpr (conv<TJ, TI>)
                add("move-construct " + ij, [](auto& s) {
                    s.template box<I>().renew(std::move(s.template var<J>()));
                });
            if constexpr (std::is_same_v<TI, TJ> && I < J)
                add("swap " + ij, [](auto& s) {
                    using std::swap;
                    swap(s.template var<I>(), s.template var<J>());
                });
        }
        // casts: const-ness is not cast
        if constexpr (!std::is_const_v<TI> && !std::is_const_v<TJ>) {
            auto cast = [&](std::string kind, auto how, auto mirror) {
                ops.push_back(
                    {"cast-" + kind + " " + ij, [how, mirror](State& s) {
                         // only valid casts
                         auto* p = s.m.template var<J>().get();
                         if (!p && !K::null_cast)
                             return false;
                         if (p && !dynamic_cast<TI*>(p))
                             return false;
                         universe = 0;
                         how(s);
                         universe = 1;
                         mirror(s);
                         return true;
                     }});
            };
            if constexpr (copyable) {
                auto mirror = [](State& s) {
                    auto& src = s.m.template var<J>();
                    PI tmp(
                        src ? PI(pcast<TI>(src)) : PI());
                    s.m.template var<I>() = std::move(tmp);
                };
                cast(
                    "lvalue",
                    [](State& s) {
                        s.i.template var<I>() =
                            s.i.template var<J>().template cast<TI>();
                    },
                    mirror);
                cast(
                    "const",
                    [](State& s) {
                        s.i.template var<I>() =
                            std::as_const(s.i.template var<J>())
                                .template cast<TI>();
                    },
                    mirror);
                if constexpr (I != J) {
                    cast(
                        "construct",
                        [](State& s) {
                            s.i.template box<I>().renew(
                                s.i.template var<J>().template cast<TI>());
                        },
                        mirror);
                }
            }
            if constexpr (I != J) {
                cast(
                    "rvalue",
                    [](State& s) {
                        s.i.template var<I>() = std::move(s.i.template var<J>())
                                                    .template cast<TI>();
                    },
                    [](State& s) {
                        auto& src = s.m.template var<J>();
                        // the source may be left intact, or moved from
                        bool moved =
                            !copyable || s.i.template var<J>().get() == nullptr;
                        if constexpr (copyable) {
                            PI tmp(src ? PI(pcast<TI>(src)) : PI());
                            if (moved)
                                src = PJ();
                            s.m.template var<I>() = std::move(tmp);
                        } else {
                            PI tmp(pcast_u<TI>(src));
                            s.m.template var<I>() = std::move(tmp);
                        }
                    });
            }
        }
    }

    template<class T, class U>
    static P<T> pcast(const P<U>& p) {
        if constexpr (std::is_same_v<K, Shared>)
            return std::dynamic_pointer_cast<T>(p);
        else
            return P<T>(dynamic_cast<T*>(p.get()));
    }
    template<class T, class U>
    static P<T> pcast_u(P<U>& p) {
        return P<T>(dynamic_cast<T*>(p.release()));
    }

    template<int I, int J>
    static void raw_ops() {
        using TI = VT<I>;
        using TJ = RT<J>;
        using PI = P<TI>;
        using PJ = P<TJ>;
        auto ij = vn<I>() + "," + rn<J>();
        if constexpr (conv<TJ, TI> && copyable) {
            add("assign-const-raw " + ij, [](auto& s) {
                s.template var<I>() = std::as_const(s.template raw<J>());
            });
            add("assign-raw " + ij,
                [](auto& s) { s.template var<I>() = s.template raw<J>(); });
            add("construct-const-raw " + ij, [](auto& s) {
                s.template box<I>().renew(std::as_const(s.template raw<J>()));
            });
            add("construct-raw " + ij, [](auto& s) {
                s.template box<I>().renew(s.template raw<J>());
            });
        }
        if constexpr (conv<TJ, TI>) {
            add("assign-rvalue-raw " + ij, [](auto& s) {
                s.template var<I>() = std::move(s.template raw<J>());
            });
            add("construct-rvalue-raw " + ij, [](auto& s) {
                s.template box<I>().renew(std::move(s.template raw<J>()));
            });
        }
        if constexpr (copyable && conv<TI, TJ>)
            add("get-raw " + ij, [](auto& s) {
                s.template raw<J>() = s.template ptr<I>();
            });
    }

    template<int I>
    static void var_ops() {
        using TI = VT<I>;
        add("assign-null " + vn<I>(),
            [](auto& s) { s.template var<I>() = nullptr; });
        add("construct-null " + vn<I>(),
            [](auto& s) { s.template box<I>().renew(nullptr); });
        add("construct-default " + vn<I>(),
            [](auto& s) { s.template box<I>().renew(); });
        make_ops<I, A>();
        make_ops<I, B>();
        make_ops<I, D>();
    }
    template<int I, class T>
    static void make_ops() {
        using TI = VT<I>;
        if constexpr (std::is_convertible_v<T*, TI*>) {
            auto n = vn<I>() + "<-" +
                (std::is_same_v<T, A>       ? "A"
                     : std::is_same_v<T, B> ? "B"
                                            : "D");
            auto guard = [](auto f) {
                return [f](State& s) {
                    if (::alive[0] >= MAXOBJ)
                        return false;
                    universe = 0;
                    f(s);
                    universe = 1;
                    s.m.template var<I>() = K::template make<T>();
                    return true;
                };
            };
            ops.push_back({"make-assign " + n, guard([](State& s) {
                               s.i.template var<I>() =
                                   K::template make_virtual<T, R>();
                           })});
            ops.push_back({"make-construct " + n, guard([](State& s) {
                               // make first: as in the mirror
                               auto x = K::template make_virtual<T, R>();
                               s.i.template box<I>().renew(std::move(x));
                           })});
            ops.push_back({"final-assign " + n, guard([](State& s) {
                               s.i.template var<I>() =
                                   bom::final_virtual_ptr<R>(
                                       K::template make<T>());
                           })});
            ops.push_back({"static-final-construct " + n, guard([](State& s) {
                               s.i.template box<I>().renew(
                                   VP<T>::final(K::template make<T>()));
                           })});
        }
    }
    template<int J>
    static void rawvar_ops() {
        using TJ = RT<J>;
        add("reset " + rn<J>(),
            [](auto& s) { s.template raw<J>() = P<TJ>(); });
        rawmake<J, A>("A");
        rawmake<J, B>("B");
        rawmake<J, D>("D");
    }
    template<int J, class T>
    static void rawmake(const char* t) {
        if constexpr (std::is_convertible_v<T*, RT<J>*>)
            ops.push_back({std::string("new-raw ") + rn<J>() + "<-" + t,
                           [](State& s) {
                               if (::alive[0] >= MAXOBJ)
                                   return false;
                               both(s, [](auto& x) {
                                   x.template raw<J>() =
                                       K::template make<T>();
                               });
                               return true;
                           }});
    }

    template<int... I, int... J>
    static void build(
        std::integer_sequence<int, I...>, std::integer_sequence<int, J...>) {
        (rawvar_ops<J>(), ...);
        (var_ops<I>(), ...);
        (build_row<I>(
             std::integer_sequence<int, I...>(),
             std::integer_sequence<int, J...>()),
         ...);
        if constexpr (Indirect) {
            ops.push_back({"initialize again", [](State&) {
                               // different v-tables: with and without padding
                               bom::initialize<R>();
                               return true;
                           }});
        }
    }
    template<int I, int... J, int... L>
    static void build_row(
        std::integer_sequence<int, J...>, std::integer_sequence<int, L...>) {
        (pair_ops<I, J>(), ...);
        (raw_ops<I, L>(), ...);
    }

    // observation ---------------------------------------------------------

    static int dyn(const A* p) {
        return typeid(*p) == typeid(A) ? 0 : typeid(*p) == typeid(B) ? 1 : 2;
    }
    static bom::vptr_type vptr_of(int d) {
        return d == 0     ? R::template static_vptr<A>
            : d == 1 ? R::template static_vptr<B>
                     : R::template static_vptr<D>;
    }

    template<int I>
    static void check_var(State& s, std::string& key, std::vector<int>& uids) {
        auto& v = s.i.template var<I>();
        auto& m = s.m.template var<I>();
        auto n = vn<I>();
        if ((v.get() == nullptr) != (m.get() == nullptr))
            mc::fail(
                "%s is %s", n.c_str(), v.get() ? "not null" : "null");
        if (v.get() != v.pointer().get() || v.operator->() != v.get())
            mc::fail("%s: get(), pointer() and -> differ", n.c_str());
        if (K::count(v.pointer()) != K::count(m))
            mc::fail(
                "%s: use_count is %d instead of %d", n.c_str(),
                K::count(v.pointer()), K::count(m));
        if (!v.get()) {
            if (v.vptr() != nullptr)
                mc::fail("%s is null, but not its v-table pointer", n.c_str());
            key += '.';
            uids.push_back(-1);
            return;
        }
        if (v->uid != m->uid)
            mc::fail(
                "%s designates object #%d instead of #%d", n.c_str(), v->uid,
                m->uid);
        if (v->side != 0)
            mc::fail("%s designates an object of the mirror", n.c_str());
        if (&*v != v.get())
            mc::fail("%s: operator* is wrong", n.c_str());
        const A* a = v.get();
        const A* am = m.get();
        if (typeid(*a) != typeid(*am))
            mc::fail("%s: wrong dynamic type", n.c_str());
        if (a != dynamic_cast<const A*>(v.get()))
            mc::fail("%s: wrong address", n.c_str());
        int d = dyn(a);
        if (v.vptr() != vptr_of(d))
            mc::fail(
                "%s: the v-table is %s the object's dynamic class %c",
                n.c_str(), v.vptr() ? "not that of" : "null instead of that of",
                "ABD"[d]);
        key += char('0' + d);
        uids.push_back(v->uid);
        if constexpr (copyable && std::is_same_v<VT<I>, A>) {
            if (M::fn(v) != d)
                mc::fail("%s: a method call runs the wrong overrider", n.c_str());
        }
        if constexpr (!std::is_const_v<VT<I>>) {
            // conversion to the plain virtual_ptr
            virtual_ptr<A, R> plain(v);
            if (plain.get() != a || plain.vptr() != v.vptr())
                mc::fail("%s: wrong conversion to virtual_ptr", n.c_str());
            if (M2::fn(plain) != d)
                mc::fail("%s: a method call runs the wrong overrider", n.c_str());
            plain = nullptr;
            plain = v;
            if (plain.get() != a || plain.vptr() != v.vptr())
                mc::fail("%s: wrong assignment to virtual_ptr", n.c_str());
        }
    }
    template<int J>
    static void check_raw(State& s, std::string& key, std::vector<int>& uids) {
        auto& v = s.i.template raw<J>();
        auto& m = s.m.template raw<J>();
        auto n = rn<J>();
        if ((v.get() == nullptr) != (m.get() == nullptr))
            mc::fail("%s is %s", n.c_str(), v.get() ? "not null" : "null");
        if (K::count(v) != K::count(m))
            mc::fail(
                "%s: use_count is %d instead of %d", n.c_str(), K::count(v),
                K::count(m));
        if (!v) {
            key += '.';
            uids.push_back(-1);
            return;
        }
        if (v->uid != m->uid)
            mc::fail("%s designates the wrong object", n.c_str());
        key += char('0' + dyn(v.get()));
        uids.push_back(v->uid);
    }
    template<int I, int J>
    static void check_eq(State& s) {
        bool eq = s.i.template var<I>() == s.i.template var<J>();
        bool ne = s.i.template var<I>() != s.i.template var<J>();
        bool meq = s.m.template var<I>() == s.m.template var<J>();
        if (eq != meq || ne == meq)
            mc::fail("%s == %s is wrong", vn<I>().c_str(), vn<J>().c_str());
    }

    template<int... I, int... J>
    static std::string observe(
        State& s, std::integer_sequence<int, I...>,
        std::integer_sequence<int, J...>) {
        std::string key;
        std::vector<int> uids;
        (check_var<I>(s, key, uids), ...);
        (check_raw<J>(s, key, uids), ...);
        (check_eq<0, I>(s), ...);
        (check_eq<2, I>(s), ...);
        if (alive[0] != alive[1])
            mc::fail(
                "%d objects are alive instead of %d", alive[0], alive[1]);
        if (dtors[0] != dtors[1])
            mc::fail(
                "objects destroyed: %s instead of %s", dtors[0].c_str(),
                dtors[1].c_str());
        // sharing pattern, up to renaming
        std::map<int, char> ren;
        for (int u : uids)
            if (u < 0)
                key += '.';
            else {
                auto it = ren.emplace(u, char('a' + ren.size())).first;
                key += it->second;
            }
        return key;
    }

    static inline std::string last_key;
    static inline bool applicable;

    static void run(mc::Explorer& ex, const mc::Case& c) {
        universe = 0;
        for (int u = 0; u < 2; ++u) {
            next_uid[u] = alive[u] = 0;
            dtors[u].clear();
        }
        bom::initialize<R>();
        using Is = std::make_integer_sequence<int, NV>;
        using Js = std::make_integer_sequence<int, NRAW>;
        applicable = true;
        {
            State s;
            std::string key = observe(s, Is(), Js());
            for (std::size_t i = 1; i < c.size(); ++i) {
                applicable = ops[c[i]].run(s);
                if (!applicable)
                    break;
                ex.transition();
                key = observe(s, Is(), Js());
            }
            last_key = key;
        }
        if (alive[0] || alive[1])
            mc::fail(
                "%d objects are still alive after everything is destroyed",
                alive[0]);
        if (dtors[0].size() != dtors[1].size())
            mc::fail("an object was destroyed several times, or never");
        ex.trace_ok();
    }

    static void search(mc::Explorer& ex, int config) {
        std::set<std::string> visited;
        std::deque<mc::Case> queue;
        mc::Case root{config};
        ex.exec(root);
        visited.insert(last_key);
        queue.push_back(root);
        std::size_t bound = 1u << 20;
        while (!queue.empty()) {
            auto c = queue.front();
            queue.pop_front();
            for (int o = 0; o < int(ops.size()); ++o) {
                if (ex.sh->stop.load())
                    _exit(0);
                auto n = c;
                n.push_back(o);
                ex.exec(n);
                if (!applicable)
                    continue;
                if (visited.insert(last_key).second) {
                    ex.state(mc::mix(
                        std::hash<std::string>()(last_key), config + 1));
                    queue.push_back(n);
                }
            }
        }
    }

    static std::string describe(const mc::Case& c) {
        std::string r = std::string(K::name) +
            (Virt ? ", virtual inheritance" : "") +
            (Indirect ? ", indirect_vptr" : "") + ":";
        for (std::size_t i = 1; i < c.size(); ++i)
            r += std::string(i > 1 ? "; " : " ") + ops[c[i]].name;
        return r;
    }
    static void prepare() {
        install();
        build(
            std::make_integer_sequence<int, NV>(),
            std::make_integer_sequence<int, NRAW>());
    }
};

struct Config {
    void (*prepare)();
    void (*run)(mc::Explorer&, const mc::Case&);
    void (*search)(mc::Explorer&, int);
    std::string (*describe)(const mc::Case&);
};

template<class S>
Config config() {
    return {S::prepare, S::run, S::search, S::describe};
}

#ifndef PART
#define PART -1
#endif

template<class K>
std::vector<Config> kind() {
    return {
        config<Search<K, 0, false, pol::vptr_vector>>(),
        config<Search<K, 1, false, pol::vptr_vector>>(),
        config<Search<K, 0, true, pol::vptr_vector>>(),
        config<Search<K, 1, true, pol::vptr_map<>>>(),
    };
}

std::vector<Config> configs_shared();
std::vector<Config> configs_intrusive();
std::vector<Config> configs_unique();

#if PART == 0
std::vector<Config> configs_shared() {
    return kind<Shared>();
}
#elif PART == 1
std::vector<Config> configs_intrusive() {
    return kind<Intrusive>();
}
#elif PART == 2
std::vector<Config> configs_unique() {
    return kind<Unique>();
}
#else
int main(int argc, char** argv) {
    std::vector<Config> configs;
    for (auto& v : {configs_shared(), configs_intrusive(), configs_unique()})
        for (auto& c : v)
            configs.push_back(c);
    for (auto& c : configs)
        c.prepare();
    mc::Harness h;
    h.name = "vptr";
    h.run = [&](mc::Explorer& ex, const mc::Case& c) { configs[c[0]].run(ex, c); };
    h.describe = [&](const mc::Case& c) { return configs[c[0]].describe(c); };
    h.enumerate = [&](mc::Explorer& ex) {
        for (int i = 0; i < int(configs.size()); ++i)
            if (ex.mine())
                configs[i].search(ex, i);
    };
    return mc::main(argc, argv, h);
}
#endif
