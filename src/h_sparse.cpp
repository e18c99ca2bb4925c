// C13: registries in which something is missing - no class, no method, no
// overrider - under every sequence of initialize and finalize up to a depth:
// what each use reports, compared with a two-state machine.
#include <boost/openmethod/core.hpp>
#include <boost/openmethod/initialize.hpp>
#include <boost/openmethod/interop/std_shared_ptr.hpp>
#include <boost/openmethod/interop/std_unique_ptr.hpp>
#include <boost/openmethod/policies/fast_perfect_hash.hpp>
#include <boost/openmethod/policies/std_rtti.hpp>
#include <boost/openmethod/policies/vptr_map.hpp>
#include <boost/openmethod/policies/vptr_vector.hpp>

#include "mc.hpp"

#include <map>
#include <optional>

namespace bom = boost::openmethod;
namespace pol = boost::openmethod::policies;
namespace mp11 = boost::mp11;

enum Err { none, not_initialized, missing_class, no_overrider, final_error, other };
static const char* names[] = {"no error",     "not_initialized", "missing_class",
                              "no_overrider", "final_error",     "another error"};

inline Err seen;
inline int reports;
inline const std::type_info* seen_type;
struct Stop {};

struct handler : pol::error_handler {
    template<class Registry>
    struct fn {
        [[noreturn]] static void note(Err e) {
            seen = e;
            ++reports;
            throw Stop();
        }
        static void error(const bom::not_initialized&) {
            note(not_initialized);
        }
        static void error(const bom::missing_class& e) {
            seen_type = reinterpret_cast<const std::type_info*>(e.type);
            note(missing_class);
        }
        static void error(const bom::no_overrider&) {
            note(no_overrider);
        }
        static void error(const bom::final_error&) {
            note(final_error);
        }
        template<class E>
        static void error(const E&) {
            note(other);
        }
    };
};

// classes whose type ids are small integers, for a vptr_vector without a hash
struct int_rtti : pol::rtti {
    template<class Registry>
    struct fn : pol::rtti::defaults {
        template<class T>
        static constexpr bool is_polymorphic = std::is_polymorphic_v<T>;
        template<class T>
        static auto static_type() -> bom::type_id {
            if constexpr (std::is_polymorphic_v<T>)
                return reinterpret_cast<bom::type_id>(std::uintptr_t(T::number));
            else
                return nullptr;
        }
        template<class T>
        static auto dynamic_type(const T& o) -> bom::type_id {
            if constexpr (std::is_polymorphic_v<T>)
                return reinterpret_cast<bom::type_id>(std::uintptr_t(o.num()));
            else
                return nullptr;
        }
    };
};

enum class Kind { hash, map, tree, vector };

struct tree_map {
    template<class K, class V>
    using fn = std::map<K, V>;
};

enum Content { nothing, classes, bare_method, bare_multi, complete, NCONTENT };
static const char* contents[] = {
    "an empty registry", "a registry without methods",
    "a registry with a method without overriders",
    "a registry with a multi-method without overriders",
    "a registry with a method"};

template<Kind K, bool Indirect, Content Cn>
struct World {
    using Policies = mp11::mp_append<
        mp11::mp_list<
            std::conditional_t<K == Kind::vector, int_rtti, pol::std_rtti>,
            handler, pol::runtime_checks>,
        std::conditional_t<
            K == Kind::hash,
            mp11::mp_list<pol::vptr_vector, pol::fast_perfect_hash>,
            std::conditional_t<
                K == Kind::vector, mp11::mp_list<pol::vptr_vector>,
                std::conditional_t<
                    K == Kind::map, mp11::mp_list<pol::vptr_map<>>,
                    mp11::mp_list<pol::vptr_map<tree_map>>>>>,
        std::conditional_t<
            Indirect, mp11::mp_list<pol::indirect_vptr>, mp11::mp_list<>>>;
    // the state of a registry depends on its policies: make them unique
    struct marker {
        using category = marker;
        template<class>
        struct fn {};
    };
    struct R : mp11::mp_apply<bom::registry, mp11::mp_push_back<Policies, marker>> {};

    struct A {
        static constexpr int number = 1;
        virtual int num() const {
            return 1;
        }
        virtual ~A() {
        }
    };
    struct B : A {
        static constexpr int number = 2;
        int num() const override {
            return 2;
        }
    };
    // never registered; without a hash, vptr_vector can tell, because its id is
    // larger than those of the registered classes
    struct U : A {
        static constexpr int number = 30;
        int num() const override {
            return 30;
        }
    };

    template<class T>
    using VP = bom::virtual_ptr<T, R>;

    static constexpr bool has_classes = Cn != nothing;
    static constexpr bool has_method = Cn >= bare_method;

    struct MId;
    using M = bom::method<MId, int(bom::virtual_<A&>), R>;
    struct PId;
    using P = bom::method<PId, int(VP<A>), R>;
    struct XId;
    using X = bom::method<XId, int(bom::virtual_<A&>, VP<A>), R>;

    static int m0(A&) {
        return 10;
    }
    static int m1(B&) {
        return 11;
    }
    static int p0(VP<A>) {
        return 20;
    }
    static int p1(VP<B>) {
        return 21;
    }

    // in a registry without methods, the classes come and go
    static inline std::optional<bom::use_classes<A, B, R>> loadable;
    static inline bool present; // in the last initialize
    static bool loaded() {
        return Cn == classes ? bool(loadable) : has_classes;
    }

    static void install() {
        if constexpr (Cn > classes) {
            static bom::use_classes<A, B, R> uc;
            (void)&uc;
        }
        if constexpr (Cn == complete) {
            static typename M::template override<m0, m1> om;
            static typename P::template override<p0, p1> op;
            (void)&om, (void)&op;
        }
    }

    struct Expect {
        Err err;
        int value = 0;
        const std::type_info* type = nullptr;
    };
    struct Use {
        std::string name;
        std::function<Expect(bool)> model;
        std::function<int()> run;
    };
    static inline std::vector<Use> uses;

    template<class T>
    static constexpr bool known = has_classes && !std::is_same_v<T, U>;

    static constexpr int FIRST = 4; // number of the first use

    template<class T>
    static Expect expect(bool ready, int value, bool calls) {
        if (!ready)
            return {not_initialized};
        if (!known<T> || !present)
            return {missing_class, 0, K == Kind::vector ? nullptr : &typeid(T)};
        if (calls && Cn != complete)
            return {no_overrider};
        return {none, value};
    }

    template<class T>
    static void per_class(const std::string& n, int which) {
        auto create = [](bool r) { return expect<T>(r, 1, false); };
        uses.push_back({"virtual_ptr(" + n + ")", create, [] {
                            T o;
                            A& a = o;
                            VP<A> p(a);
                            return p.get() == &o;
                        }});
        uses.push_back({"virtual_ptr(&" + n + ")", create, [] {
                            T o;
                            A* a = &o;
                            VP<A> p(a);
                            return p.get() == &o;
                        }});
        uses.push_back({"virtual_ptr = " + n, create, [] {
                            T o;
                            A& a = o;
                            VP<A> p(nullptr);
                            p = a;
                            return p.get() == &o;
                        }});
        uses.push_back({"const virtual_ptr(" + n + ")", create, [] {
                            const T o;
                            const A& a = o;
                            VP<const A> p(a);
                            return p.get() == &o;
                        }});
        uses.push_back({"shared_virtual_ptr(" + n + ")", create, [] {
                            auto s = std::make_shared<T>();
                            bom::shared_virtual_ptr<A, R> p(s);
                            return p.get() == s.get();
                        }});
        uses.push_back({"unique_virtual_ptr(" + n + ")", create, [] {
                            bom::unique_virtual_ptr<A, R> p(std::make_unique<T>());
                            return p.get() != nullptr;
                        }});
        if constexpr (!std::is_same_v<T, A>) {
            auto wrong = [](bool r) {
                return Expect{r ? final_error : not_initialized};
            };
            uses.push_back({"final_virtual_ptr(A) on " + n, wrong, [] {
                                T o;
                                A& a = o;
                                auto p = bom::final_virtual_ptr<R>(a);
                                return p.get() == &o;
                            }});
        }
        if constexpr (has_method && known<T>) {
            uses.push_back({"final_virtual_ptr(" + n + ")", create, [] {
                                T o;
                                auto p = bom::final_virtual_ptr<R>(o);
                                return p.get() == &o;
                            }});
            uses.push_back({"make_shared_virtual(" + n + ")", create, [] {
                                auto p = bom::make_shared_virtual<T, R>();
                                return p.get() != nullptr;
                            }});
        }
        if constexpr (has_method) {
            if constexpr (Cn != bare_multi) {
                uses.push_back({"method(" + n + ")",
                                [which](bool r) {
                                    return expect<T>(r, 10 + which, true);
                                },
                                [] {
                                    T o;
                                    return M::fn(o);
                                }});
                uses.push_back({"method(virtual_ptr " + n + ")",
                                [which](bool r) {
                                    return expect<T>(r, 20 + which, true);
                                },
                                [] {
                                    T o;
                                    A& a = o;
                                    return P::fn(a);
                                }});
            } else {
                uses.push_back(
                    {"multi-method(" + n + ", A)",
                     [](bool r) { return expect<T>(r, 0, true); },
                     [] {
                         T o;
                         A a, &r = a;
                         return X::fn(o, r);
                     }});
                uses.push_back(
                    {"multi-method(B, " + n + ")",
                     [](bool r) { return expect<T>(r, 0, true); },
                     [] {
                         B b;
                         T o;
                         A& r = o;
                         return X::fn(b, r);
                     }});
            }
        }
    }

    static void prepare() {
        install();
        uses.push_back({"require_initialized",
                        [](bool r) {
                            return Expect{r ? none : not_initialized, 1};
                        },
                        [] {
                            R::require_initialized();
                            return 1;
                        }});
        per_class<A>("A", 0);
        per_class<B>("B", 1);
        per_class<U>("unregistered", 0);
    }

    // returns false if an operation was not applicable
    static bool run(mc::Explorer& ex, const mc::Case& c) {
        bom::finalize<R>();
        bool ready = false;
        present = false;
        if constexpr (Cn == classes)
            loadable.emplace();
        for (std::size_t i = 1; i < c.size(); ++i) {
            if (c[i] == 0) {
                Err e = none;
                seen = none;
                try {
                    bom::initialize<R>();
                } catch (Stop&) {
                    e = seen;
                }
                if (e != none)
                    mc::fail("initialize: %s", names[e]);
                ready = true;
                present = loaded();
                ex.transition();
            } else if (c[i] == 1) {
                bom::finalize<R>();
                ready = false;
                ex.transition();
            } else if (c[i] == 3) {
                if constexpr (Cn == classes) {
                    if (loadable)
                        loadable.reset();
                    else
                        loadable.emplace();
                    ex.transition();
                } else
                    return false;
            } else if (ready && present != loaded()) {
                return false; // initialize must be called first
            } else if (c[i] == 2) {
                for (auto& u : uses)
                    step(ex, u, ready);
            } else
                step(ex, uses[c[i] - FIRST], ready);
        }
        ex.state(mc::mix(mc::mix(int(ready) * 4 + present * 2 + loaded(), c[0]), 1));
        ex.trace_ok();
        return true;
    }

    static void step(mc::Explorer& ex, Use& u, bool ready) {
        auto e = u.model(ready);
        seen = none;
        reports = 0;
        seen_type = nullptr;
        int r = -1;
        try {
            r = u.run();
        } catch (Stop&) {
        }
        ex.transition();
        ex.count(e.err);
        if (seen != e.err)
            mc::fail(
                "%s: %s, should be %s", u.name.c_str(), names[seen], names[e.err]);
        if (reports > 1)
            mc::fail("%s: reported %d times", u.name.c_str(), reports);
        if (e.err == none && r != e.value)
            mc::fail("%s: result is %d, should be %d", u.name.c_str(), r, e.value);
        if (e.err == missing_class && e.type && *seen_type != *e.type)
            mc::fail("%s: missing_class for another class", u.name.c_str());
    }

    static std::string describe(const mc::Case& c) {
        static const char* kinds[] = {
            "fast_perfect_hash", "vptr_map", "vptr_map over std::map",
            "vptr_vector"};
        std::string s = std::string(contents[Cn]) + ", " + kinds[int(K)] +
            (Indirect ? ", indirect_vptr" : "") + ":";
        for (std::size_t i = 1; i < c.size(); ++i)
            s += std::string(i > 1 ? "; " : " ") +
                (c[i] == 0       ? "initialize"
                     : c[i] == 1 ? "finalize"
                     : c[i] == 2 ? "every use"
                     : c[i] == 3 ? "load or unload the classes"
                                 : uses[c[i] - FIRST].name);
        return s;
    }
    static int nops() {
        return int(uses.size()) + FIRST;
    }
};

struct Config {
    void (*prepare)();
    bool (*run)(mc::Explorer&, const mc::Case&);
    std::string (*describe)(const mc::Case&);
    int (*nops)();
    bool loads;
};
static std::vector<Config> configs;

template<Kind K, bool I, Content Cn>
void add() {
    using W = World<K, I, Cn>;
    configs.push_back({W::prepare, W::run, W::describe, W::nops, Cn == classes});
}
template<Kind K, bool I>
void add_contents() {
    add<K, I, nothing>();
    add<K, I, classes>();
    add<K, I, bare_method>();
    add<K, I, bare_multi>();
    add<K, I, complete>();
}
template<Kind K>
void add_kind() {
    add_contents<K, false>();
    add_contents<K, true>();
}

int main(int argc, char** argv) {
    add_kind<Kind::hash>();
    add_kind<Kind::map>();
    add_kind<Kind::tree>();
    add_kind<Kind::vector>();
    for (auto& c : configs)
        c.prepare();
    mc::Harness h;
    h.name = "sparse";
    h.counters = {"no_error",     "not_initialized", "missing_class",
                  "no_overrider", "final_error",     "other"};
    h.run = [&](mc::Explorer& ex, const mc::Case& c) {
        configs[c[0]].run(ex, c);
    };
    h.describe = [&](const mc::Case& c) { return configs[c[0]].describe(c); };
    h.enumerate = [&](mc::Explorer& ex) {
        for (int w = 0; w < int(configs.size()); ++w) {
            int n = configs[w].nops();
            // every sequence of the operations that change the state and of
            // "every use", then every use
            int depth = ex.thorough ? 8 : 5;
            std::function<void(mc::Case&)> rec = [&](mc::Case& c) {
                auto d = c;
                d.push_back(2);
                ex.consider(d);
                if (int(c.size()) > depth)
                    return;
                for (int o = 0; o < 4; ++o) {
                    if (o == 3 && !configs[w].loads)
                        continue;
                    c.push_back(o);
                    rec(c);
                    c.pop_back();
                }
            };
            mc::Case c{w};
            rec(c);
            // every sequence of operations
            int d2 = ex.thorough ? 4 : 3;
            std::function<void(mc::Case&)> rec2 = [&](mc::Case& c) {
                ex.consider(c);
                if (int(c.size()) > d2)
                    return;
                for (int o = 0; o < n; ++o) {
                    if (o == 2 || (o == 3 && !configs[w].loads))
                        continue;
                    c.push_back(o);
                    rec2(c);
                    c.pop_back();
                }
            };
            rec2(c);
        }
    };
    return mc::main(argc, argv, h);
}
