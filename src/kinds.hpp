// The kinds of parameters of h_forward and h_macros.  Reg must be defined.
#ifndef VERIF_KINDS_HPP
#define VERIF_KINDS_HPP


// ---------------------------------------------------------------------------
// classes

inline int live;
inline int refs;

struct Pad {
    long pad[3] = {1, 2, 3};
    virtual ~Pad() = default;
};
struct R {
    bool* dead = nullptr;
    R() {
        ++live;
    }
    R(const R&) = delete;
    virtual ~R() {
        --live;
        if (dead)
            *dead = true;
    }
};
struct D : Pad, virtual R {
    int did = 0;
};
struct E : Pad, R { // sibling: overriders must not be confused
    int eid = 0;
};
inline void intrusive_ptr_add_ref(const R*) {
    ++refs;
}
inline void intrusive_ptr_release(const R*) {
    --refs;
}

static bom::use_classes<R, D, E, Reg> use_them;

struct Tr { // value with history
    int v = 0;
    int copies = 0, moves = 0;
    bool gone = false;
    explicit Tr(int v = 0) : v(v) {
    }
    Tr(const Tr& o) : v(o.v), copies(o.copies + 1), moves(o.moves), gone(o.gone) {
    }
    Tr(Tr&& o) noexcept : v(o.v), copies(o.copies), moves(o.moves + 1), gone(o.gone) {
        o.gone = true;
    }
};
struct Mo { // move only
    int v = 0;
    bool gone = false;
    explicit Mo(int v = 0) : v(v) {
    }
    Mo(const Mo&) = delete;
    Mo(Mo&& o) noexcept : v(o.v), gone(o.gone) {
        o.gone = true;
    }
};
struct Big {
    long a[9];
};
enum class En : unsigned char { x = 7, y = 200 };

#define CHECK(COND, ...)                                                       \
    if (!(COND))                                                               \
    mc::fail(__VA_ARGS__)

inline const char* where; // "D", "R" (next)
inline int pos;

#define AT "parameter %d, overrider %s: "

// ---------------------------------------------------------------------------
// kinds.  M: method parameter; O<C>: overrider parameter for class C.
// Holder: what the caller has; check(arg, holder) in the overrider.
// 
struct vbase {
    static constexpr bool is_virtual = true;
};
struct nbase {
    static constexpr bool is_virtual = false;
};

template<class C>
bool same(const C* p, const D& d) {
    return p == static_cast<const C*>(&d);
}

struct v_ref : vbase {
    static constexpr const char* name = "virtual_<R&>";
    using M = virtual_<R&>;
    template<class C>
    using O = C&;
    struct Holder {
        D d;
        R& pass() {
            return d;
        }
        void after() {
        }
    };
    template<class C>
    static void check(C& arg, Holder& h) {
        CHECK(same(&arg, h.d), AT "another object", pos, where);
    }
};
struct v_rref : vbase {
    static constexpr const char* name = "virtual_<R&&>";
    using M = virtual_<R&&>;
    template<class C>
    using O = C&&;
    struct Holder {
        D d;
        R&& pass() {
            return std::move(d);
        }
        void after() {
        }
    };
    template<class C>
    static void check(C& arg, Holder& h) {
        CHECK(same(&arg, h.d), AT "another object", pos, where);
    }
};
struct v_ptr : vbase {
    static constexpr const char* name = "virtual_<R*>";
    using M = virtual_<R*>;
    template<class C>
    using O = C*;
    struct Holder {
        D d;
        R* pass() {
            return &d;
        }
        void after() {
        }
    };
    template<class C>
    static void check(C* arg, Holder& h) {
        CHECK(same(arg, h.d), AT "another object", pos, where);
    }
};
struct v_vp : vbase {
    static constexpr const char* name = "virtual_ptr<R>";
    using M = virtual_ptr<R, Reg>;
    template<class C>
    using O = virtual_ptr<C, Reg>;
    struct Holder {
        D d;
        D& pass() { // converted to virtual_ptr<R> by the call
            return d;
        }
        void after() {
        }
    };
    template<class P>
    static void check(P& arg, Holder& h) {
        CHECK(same(arg.get(), h.d), AT "another object", pos, where);
    }
};
struct v_cvp : vbase {
    static constexpr const char* name = "const virtual_ptr<const R>&";
    using M = const virtual_ptr<const R, Reg>&;
    template<class C>
    using O = const virtual_ptr<const C, Reg>&;
    struct Holder {
        D d;
        virtual_ptr<const R, Reg> p{static_cast<const R&>(d)};
        auto& pass() {
            return p;
        }
        void after() {
        }
    };
    template<class P>
    static void check(P& arg, Holder& h) {
        CHECK(same(arg.get(), h.d), AT "another object", pos, where);
    }
};
struct v_uvp : vbase {
    static constexpr const char* name = "virtual_ptr<unique_ptr<R>>";
    using M = virtual_ptr<std::unique_ptr<R>, Reg>;
    template<class C>
    using O = virtual_ptr<std::unique_ptr<C>, Reg>;
    struct Holder {
        D* d = new D;
        bool dead = false;
        Holder() {
            d->dead = &dead;
        }
        auto pass() {
            return virtual_ptr<std::unique_ptr<R>, Reg>(std::unique_ptr<R>(d));
        }
        void after() {
            CHECK(dead, "the object was not destroyed");
        }
    };
    template<class P>
    static void check(P& arg, Holder& h) {
        CHECK(same(arg.get(), *h.d), AT "another object", pos, where);
    }
};
struct v_un : vbase {
    static constexpr const char* name = "virtual_<unique_ptr<R>>";
    using M = virtual_<std::unique_ptr<R>>;
    template<class C>
    using O = std::unique_ptr<C>;
    struct Holder {
        D* d = new D;
        bool dead = false;
        Holder() {
            d->dead = &dead;
        }
        auto pass() {
            return std::unique_ptr<D>(d);
        }
        void after() {
            CHECK(dead, "the object was not destroyed");
        }
    };
    template<class P>
    static void check(P& arg, Holder& h) {
        CHECK(same(arg.get(), *h.d), AT "another object", pos, where);
    }
};
struct v_shr : vbase {
    static constexpr const char* name = "virtual_<const shared_ptr<R>&>";
    using M = virtual_<const std::shared_ptr<R>&>;
    template<class C>
    using O = const std::shared_ptr<C>&;
    struct Holder {
        std::shared_ptr<D> d = std::make_shared<D>();
        std::shared_ptr<R> p = d;
        auto& pass() {
            return p;
        }
        void after() {
            CHECK(d.use_count() == 2, "use count %ld after the call", d.use_count());
        }
    };
    template<class P>
    static void check(P& arg, Holder& h) {
        CHECK(same(arg.get(), *h.d), AT "another object", pos, where);
        CHECK(!arg.owner_before(h.d) && !h.d.owner_before(arg), AT "another owner", pos, where);
    }
};
struct v_svp : vbase {
    static constexpr const char* name = "virtual_ptr<shared_ptr<R>>";
    using M = virtual_ptr<std::shared_ptr<R>, Reg>;
    template<class C>
    using O = virtual_ptr<std::shared_ptr<C>, Reg>;
    struct Holder {
        std::shared_ptr<D> d = std::make_shared<D>();
        auto& pass() { // converted by the call
            return d;
        }
        void after() {
            CHECK(d.use_count() == 1, "use count %ld after the call", d.use_count());
        }
    };
    template<class P>
    static void check(P& arg, Holder& h) {
        CHECK(same(arg.get(), *h.d), AT "another object", pos, where);
        CHECK(
            !arg.pointer().owner_before(h.d) && !h.d.owner_before(arg.pointer()),
            AT "another owner", pos, where);
    }
};
struct v_svpr : v_svp {
    static constexpr const char* name = "const virtual_ptr<shared_ptr<R>>&";
    using M = const virtual_ptr<std::shared_ptr<R>, Reg>&;
    template<class C>
    using O = const virtual_ptr<std::shared_ptr<C>, Reg>&;
};
struct v_in : vbase {
    static constexpr const char* name = "virtual_<intrusive_ptr<R>>";
    using M = virtual_<boost::intrusive_ptr<R>>;
    template<class C>
    using O = boost::intrusive_ptr<C>;
    struct Holder {
        D d;
        boost::intrusive_ptr<R> p{&d};
        auto& pass() {
            return p;
        }
        void after() {
        }
    };
    template<class P>
    static void check(P& arg, Holder& h) {
        CHECK(same(arg.get(), h.d), AT "another object", pos, where);
    }
};

// non-virtual -----------------------------------------------------------------

template<class T>
struct by_value : nbase {
    using M = T;
    template<class>
    using O = T;
};
struct n_int : by_value<int> {
    static constexpr const char* name = "int";
    struct Holder {
        int v = -123456789;
        int pass() {
            return v;
        }
        void after() {
        }
    };
    static void check(int arg, Holder& h) {
        CHECK(arg == h.v, AT "value %d", pos, where, arg);
    }
};
struct n_tr : by_value<Tr> { // from a lvalue
    static constexpr const char* name = "Tr (lvalue)";
    struct Holder {
        Tr v{42};
        Tr& pass() {
            return v;
        }
        void after() {
            CHECK(!v.gone && v.v == 42, "the caller's value was moved from");
        }
    };
    static void check(Tr& arg, Holder& h) {
        CHECK(arg.v == 42 && !arg.gone && &arg != &h.v, AT "value", pos, where);
    }
};
struct n_trm : by_value<Tr> { // from a rvalue
    static constexpr const char* name = "Tr (rvalue)";
    struct Holder {
        Tr v{43};
        Tr&& pass() {
            return std::move(v);
        }
        void after() {
        }
    };
    static void check(Tr& arg, Holder& h) {
        CHECK(arg.v == 43 && !arg.gone && &arg != &h.v, AT "value", pos, where);
        CHECK(arg.copies == 0, AT "copied %d times, not moved", pos, where, arg.copies);
    }
};
struct n_mo : by_value<Mo> {
    static constexpr const char* name = "Mo";
    struct Holder {
        Mo v{44};
        Mo&& pass() {
            return std::move(v);
        }
        void after() {
            CHECK(v.gone, "the caller's value was not moved from");
        }
    };
    static void check(Mo& arg, Holder& h) {
        CHECK(arg.v == 44 && !arg.gone && &arg != &h.v, AT "value", pos, where);
    }
};
template<class T, class Ref>
struct by_ref : nbase {
    using M = Ref;
    template<class>
    using O = Ref;
    struct Holder {
        T v{45};
        Ref pass() {
            return static_cast<Ref>(v);
        }
        void after() {
            CHECK(v.v == 45 && !v.gone, "the caller's value was moved from");
        }
    };
    static void check(std::remove_reference_t<Ref>& arg, Holder& h) {
        CHECK(&arg == &h.v, AT "not the caller's object", pos, where);
        CHECK(arg.v == 45 && !arg.gone, AT "value", pos, where);
    }
};
struct n_lref : by_ref<Tr, Tr&> {
    static constexpr const char* name = "Tr&";
};
struct n_clref : by_ref<Tr, const Tr&> {
    static constexpr const char* name = "const Tr&";
};
struct n_rref : by_ref<Tr, Tr&&> {
    static constexpr const char* name = "Tr&&";
};
struct n_crref : by_ref<Tr, const Tr&&> {
    static constexpr const char* name = "const Tr&&";
};
struct n_morref : by_ref<Mo, Mo&&> {
    static constexpr const char* name = "Mo&&";
};
struct n_moref : by_ref<Mo, const Mo&> {
    static constexpr const char* name = "const Mo&";
};
struct n_obj : nbase { // looks virtual, is not: E object, R parameter
    static constexpr const char* name = "R&";
    using M = R&;
    template<class>
    using O = R&;
    struct Holder {
        E e;
        R& pass() {
            return e;
        }
        void after() {
        }
    };
    static void check(R& arg, Holder& h) {
        CHECK(&arg == &h.e, AT "another object", pos, where);
    }
};
struct n_objptr : by_value<R*> {
    static constexpr const char* name = "R*";
    struct Holder {
        R* pass() { // not dereferenced
            return nullptr;
        }
        void after() {
        }
    };
    static void check(R* arg, Holder&) {
        CHECK(!arg, AT "another object", pos, where);
    }
};
struct n_sp : nbase {
    static constexpr const char* name = "const shared_ptr<R>&";
    using M = const std::shared_ptr<R>&;
    template<class>
    using O = const std::shared_ptr<R>&;
    struct Holder {
        std::shared_ptr<R> p = std::make_shared<E>();
        auto& pass() {
            return p;
        }
        void after() {
            CHECK(p.use_count() == 1, "use count %ld after the call", p.use_count());
        }
    };
    static void check(const std::shared_ptr<R>& arg, Holder& h) {
        CHECK(&arg == &h.p, AT "another object", pos, where);
    }
};
struct n_arr : nbase {
    static constexpr const char* name = "int (&)[3]";
    using M = int (&)[3];
    template<class>
    using O = int (&)[3];
    struct Holder {
        int a[3] = {7, 8, 9};
        int (&pass())[3] {
            return a;
        }
        void after() {
        }
    };
    static void check(int (&arg)[3], Holder& h) {
        CHECK(&arg == &h.a, AT "another array", pos, where);
    }
};
inline int some_function(int x) {
    return x + 1;
}
struct n_fn : by_value<int (*)(int)> {
    static constexpr const char* name = "int (*)(int)";
    struct Holder {
        auto pass() {
            return &some_function;
        }
        void after() {
        }
    };
    static void check(int (*arg)(int), Holder&) {
        CHECK(arg == &some_function, AT "another function", pos, where);
    }
};
struct n_dbl : by_value<double> {
    static constexpr const char* name = "double";
    struct Holder {
        double pass() {
            return 0.1;
        }
        void after() {
        }
    };
    static void check(double arg, Holder&) {
        CHECK(arg == 0.1, AT "value %g", pos, where, arg);
    }
};
struct n_big : by_value<Big> {
    static constexpr const char* name = "Big";
    struct Holder {
        Big b{{9, 8, 7, 6, 5, 4, 3, 2, 1}};
        Big pass() {
            return b;
        }
        void after() {
        }
    };
    static void check(Big& arg, Holder& h) {
        CHECK(!memcmp(&arg, &h.b, sizeof arg), AT "value", pos, where);
    }
};
struct n_en : by_value<En> {
    static constexpr const char* name = "En";
    struct Holder {
        En pass() {
            return En::y;
        }
        void after() {
        }
    };
    static void check(En arg, Holder&) {
        CHECK(arg == En::y, AT "value", pos, where);
    }
};
struct n_upc : by_value<std::unique_ptr<int>> {
    static constexpr const char* name = "unique_ptr<int>";
    struct Holder {
        int* p = new int(5);
        auto pass() {
            return std::unique_ptr<int>(p);
        }
        void after() {
        }
    };
    static void check(std::unique_ptr<int>& arg, Holder& h) {
        CHECK(arg.get() == h.p && *arg == 5, AT "value", pos, where);
    }
};

using Vs = mp11::mp_list<
    v_ref, v_rref, v_ptr, v_vp, v_cvp, v_uvp, v_un, v_shr, v_svp, v_svpr, v_in>;
using Ns = mp11::mp_list<
    n_int, n_tr, n_trm, n_mo, n_lref, n_clref, n_rref, n_crref, n_morref, n_moref, n_obj,
    n_objptr, n_sp, n_arr, n_fn, n_dbl, n_big, n_en, n_upc>;
using FewVs = mp11::mp_list<v_ref, v_vp, v_uvp, v_shr>;
using FewNs = mp11::mp_list<n_int, n_trm, n_mo, n_rref, n_lref>;


#endif
