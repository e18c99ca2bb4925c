// C16, part 1: addresses.  Every inheritance hierarchy of 2-4 classes (every
// edge absent, non-virtual or virtual; two orders of the bases) x every kind of
// virtual parameter x method class R x overrider class Y x dynamic class X x
// static class of the argument S, executed on the real code.
#include <boost/openmethod.hpp>
#include <boost/openmethod/initialize.hpp>
#include <boost/openmethod/interop/boost_intrusive_ptr.hpp>
#include <boost/openmethod/interop/std_shared_ptr.hpp>
#include <boost/openmethod/interop/std_unique_ptr.hpp>
#include <boost/openmethod/policies/static_rtti.hpp>
#include <boost/openmethod/policies/vptr_map.hpp>

#include <boost/preprocessor/repetition/repeat.hpp>

#include "mc.hpp"

namespace bom = boost::openmethod;
namespace pol = boost::openmethod::policies;
namespace mp11 = boost::mp11;
using bom::virtual_;
using bom::virtual_ptr;

// ---------------------------------------------------------------------------
// hierarchies

template<int N, int H>
struct Hier { // H: base 3 digits, one per pair (i < j), then the order of bases
    static constexpr int npairs = N * (N - 1) / 2;
    static constexpr int edge(int i, int j) {
        int k = 0, c = H / 2;
        for (int y = 0; y < N; ++y)
            for (int x = 0; x < y; ++x, ++k) {
                if (x == i && y == j)
                    return c % 3;
                c /= 3;
            }
        return 0;
    }
    static constexpr int order = H % 2;
    static constexpr bool derives(int j, int i) {
        if (i == j)
            return true;
        for (int k = i; k < j; ++k)
            if (edge(k, j) && derives(k, i))
                return true;
        return false;
    }
    static constexpr bool has_virtual() {
        for (int j = 0; j < N; ++j)
            for (int i = 0; i < j; ++i)
                if (edge(i, j) == 2)
                    return true;
        return false;
    }
};

inline int live;

template<bool Poly, int N, int H, int I>
struct Node;

template<bool Poly, int N, int H, int J, int Kind>
struct base_list {
    template<class I>
    using keep = mp11::mp_bool<(int(I::value) < J) && Hier<N, H>::edge(I::value, J) == Kind>;
    template<class I>
    using node = Node<Poly, N, H, I::value>;
    using ids0 = mp11::mp_filter<keep, mp11::mp_iota_c<N>>;
    using ids = std::conditional_t<Hier<N, H>::order, mp11::mp_reverse<ids0>, ids0>;
    using type = mp11::mp_rename<mp11::mp_transform<node, ids>, mp11::mp_list>;
};

struct Cell {
    int mark;
    int check = ~mark;
    bool ok() const {
        return check == ~mark;
    }
};

template<bool Poly, bool Flip, int N, int H, int I, class Vs, class Ns>
struct NodeImpl;

template<int N, int H, int I, class... Vs, class... Ns>
struct NodeImpl<true, false, N, H, I, mp11::mp_list<Vs...>, mp11::mp_list<Ns...>>
    : virtual Vs..., Ns... {
    static constexpr int index = I;
    Cell cell{I};
    NodeImpl() {
        ++live;
    }
    NodeImpl(const NodeImpl&) = delete;
    virtual ~NodeImpl() {
        --live;
    }
};
template<int N, int H, int I, class... Vs, class... Ns>
struct NodeImpl<true, true, N, H, I, mp11::mp_list<Vs...>, mp11::mp_list<Ns...>>
    : Ns..., virtual Vs... {
    static constexpr int index = I;
    Cell cell{I};
    NodeImpl() {
        ++live;
    }
    NodeImpl(const NodeImpl&) = delete;
    virtual ~NodeImpl() {
        --live;
    }
};
template<bool Flip, int N, int H, int I, class... Vs, class... Ns>
struct NodeImpl<false, Flip, N, H, I, mp11::mp_list<Vs...>, mp11::mp_list<Ns...>> : Ns... {
    static constexpr int index = I;
    Cell cell{I};
    NodeImpl() {
        ++live;
    }
    NodeImpl(const NodeImpl&) = delete;
    ~NodeImpl() {
        --live;
    }
};

template<bool Poly, int N, int H, int I>
struct Node : NodeImpl<
                  Poly, Hier<N, H>::order, N, H, I,
                  typename base_list<Poly, N, H, I, 2>::type,
                  typename base_list<Poly, N, H, I, 1>::type> {};

// a user-defined handle, made a virtual parameter by a user-defined virtual_traits
template<class T>
struct handle {
    T* p;
    int cookie;
    template<class U, class = std::enable_if_t<std::is_convertible_v<T*, U*>>>
    operator handle<U>() const {
        return {p, cookie};
    }
};

namespace boost::openmethod {
template<class Class, class Registry>
struct virtual_traits<handle<Class>, Registry> {
    using virtual_type = std::remove_cv_t<Class>;
    static const Class& peek(const handle<Class>& h) {
        return *h.p;
    }
    template<class Derived>
    static Derived cast(const handle<Class>& h) {
        return {dynamic_cast<decltype(std::declval<Derived&>().p)>(h.p), h.cookie + 1};
    }
};
} // namespace boost::openmethod

inline int refs;
template<bool P, int N, int H, int I>
void intrusive_ptr_add_ref(const Node<P, N, H, I>*) {
    ++refs;
}
template<bool P, int N, int H, int I>
void intrusive_ptr_release(const Node<P, N, H, I>*) {
    --refs; // the harness owns the objects
}

// ---------------------------------------------------------------------------
// registries

struct PolyReg : bom::registry<pol::std_rtti, pol::vptr_vector, pol::fast_perfect_hash> {};
struct StatReg : bom::registry<pol::static_rtti, pol::vptr_map<>> {};

template<bool Poly>
using RegOf = std::conditional_t<Poly, PolyReg, StatReg>;

// ---------------------------------------------------------------------------
// what the overrider saw

struct Seen {
    int calls = 0;
    int overrider = -1;  // class of the overrider
    const void* addr = nullptr;
    int mark = -1;
    bool intact = false;
    long use = -1;
    bool vptr_ok = true;
};
inline Seen seen;

// ---------------------------------------------------------------------------
// parameter kinds.  K::M<R>: method parameter; K::O<Y>: overrider parameter;
// K::ptr(arg): the object seen; K::call(method, X&, S*): call with static type S

struct kref {
    static constexpr bool nonpoly = false;
    static constexpr const char* name = "virtual_<R&>";
    template<class C, class>
    using M = virtual_<C&>;
    template<class C, class>
    using O = C&;
    template<class P>
    static auto ptr(P& p) {
        return &p;
    }
    template<class Meth, class Reg, class S, class X>
    static int call(X* x) {
        return Meth::fn(static_cast<S&>(*x));
    }
};
struct kcref : kref {
    static constexpr const char* name = "virtual_<const R&>";
    template<class C, class>
    using M = virtual_<const C&>;
    template<class C, class>
    using O = const C&;
};
struct krref : kref {
    static constexpr const char* name = "virtual_<R&&>";
    template<class C, class>
    using M = virtual_<C&&>;
    template<class C, class>
    using O = C&&;
    template<class Meth, class Reg, class S, class X>
    static int call(X* x) {
        return Meth::fn(static_cast<S&&>(*x));
    }
};
struct kptr : kref {
    static constexpr const char* name = "virtual_<R*>";
    template<class C, class>
    using M = virtual_<C*>;
    template<class C, class>
    using O = C*;
    template<class P>
    static auto ptr(P& p) {
        return p;
    }
    template<class Meth, class Reg, class S, class X>
    static int call(X* x) {
        return Meth::fn(static_cast<S*>(x));
    }
};
struct kcptr : kptr {
    static constexpr const char* name = "virtual_<const R*>";
    template<class C, class>
    using M = virtual_<const C*>;
    template<class C, class>
    using O = const C*;
};
// plain virtual_ptr
template<class S, class Reg, class X>
auto make_vp(X* x) {
    if constexpr (std::is_polymorphic_v<X>)
        return virtual_ptr<S, Reg>(static_cast<S&>(*x));
    else
        return virtual_ptr<S, Reg>(bom::final_virtual_ptr<Reg>(*x));
}
struct kvp : kref {
    static constexpr bool nonpoly = true;
    static constexpr const char* name = "virtual_ptr<R>";
    template<class C, class Reg>
    using M = virtual_ptr<C, Reg>;
    template<class C, class Reg>
    using O = virtual_ptr<C, Reg>;
    template<class P>
    static auto ptr(P& p) {
        return p.get();
    }
    template<class Meth, class Reg, class S, class X>
    static int call(X* x) {
        auto p = make_vp<S, Reg>(x);
        auto before = p.get();
        int r = Meth::fn(p);
        if (p.get() != before)
            mc::fail("the caller's virtual_ptr changed");
        return r;
    }
};
struct kcvp : kvp {
    static constexpr const char* name = "virtual_ptr<const R>";
    template<class C, class Reg>
    using M = virtual_ptr<const C, Reg>;
    template<class C, class Reg>
    using O = virtual_ptr<const C, Reg>;
};
struct kvpr : kvp {
    static constexpr const char* name = "const virtual_ptr<R>&";
    template<class C, class Reg>
    using M = const virtual_ptr<C, Reg>&;
    template<class C, class Reg>
    using O = const virtual_ptr<C, Reg>&;
};
struct kcvpr : kvp {
    static constexpr const char* name = "const virtual_ptr<const R>&";
    template<class C, class Reg>
    using M = const virtual_ptr<const C, Reg>&;
    template<class C, class Reg>
    using O = const virtual_ptr<const C, Reg>&;
};
// bare smart pointers
struct no_delete {
    void operator()(const void*) const {
    }
};
struct ksh : kref {
    static constexpr const char* name = "virtual_<shared_ptr<R>>";
    template<class C, class>
    using M = virtual_<std::shared_ptr<C>>;
    template<class C, class>
    using O = std::shared_ptr<C>;
    template<class P>
    static auto ptr(P& p) {
        seen.use = p.use_count();
        return p.get();
    }
    template<class Meth, class Reg, class S, class X>
    static int call(X* x) {
        std::shared_ptr<X> own(x, no_delete());
        std::shared_ptr<S> p(own);
        int r = Meth::fn(p);
        if (p.get() != static_cast<S*>(x))
            mc::fail("the caller's shared_ptr changed");
        if (own.use_count() != 2)
            mc::fail("use count is %ld after the call instead of 2", own.use_count());
        if (seen.use < 3)
            mc::fail("use count in the overrider is %ld: it does not share ownership", seen.use);
        return r;
    }
};
struct kshc : ksh {
    static constexpr const char* name = "virtual_<shared_ptr<const R>>";
    template<class C, class>
    using M = virtual_<std::shared_ptr<const C>>;
    template<class C, class>
    using O = std::shared_ptr<const C>;
};
struct kshr : ksh {
    static constexpr const char* name = "virtual_<const shared_ptr<R>&>";
    template<class C, class>
    using M = virtual_<const std::shared_ptr<C>&>;
    template<class C, class>
    using O = const std::shared_ptr<C>&;
    template<class Meth, class Reg, class S, class X>
    static int call(X* x) {
        std::shared_ptr<X> own(x, no_delete());
        std::shared_ptr<S> p(own);
        int r = Meth::fn(p);
        if (p.get() != static_cast<S*>(x))
            mc::fail("the caller's shared_ptr changed");
        if (own.use_count() != 2)
            mc::fail("use count is %ld after the call instead of 2", own.use_count());
        if (seen.use < 2)
            mc::fail("use count in the overrider is %ld: it does not share ownership", seen.use);
        return r;
    }
};
struct kshm : ksh {
    static constexpr const char* name = "virtual_<shared_ptr<R>>, moved";
    template<class Meth, class Reg, class S, class X>
    static int call(X* x) {
        std::shared_ptr<X> own(x, no_delete());
        std::shared_ptr<S> p(own);
        int r = Meth::fn(std::move(p));
        if (p)
            mc::fail("the shared_ptr was copied instead of moved");
        if (own.use_count() != 1)
            mc::fail("use count is %ld after the call instead of 1", own.use_count());
        return r;
    }
};
struct kun : kref {
    static constexpr const char* name = "virtual_<unique_ptr<R>>";
    template<class C, class>
    using M = virtual_<std::unique_ptr<C>>;
    template<class C, class>
    using O = std::unique_ptr<C>;
    template<class P>
    static auto ptr(P& p) {
        return p.release(); // the harness owns the object
    }
    template<class Meth, class Reg, class S, class X>
    static int call(X* x) {
        std::unique_ptr<S> p(x);
        int r = Meth::fn(std::move(p));
        if (p)
            mc::fail("the caller still owns the object");
        return r;
    }
};
struct kunc : kun {
    static constexpr const char* name = "virtual_<unique_ptr<const R>>";
    template<class C, class>
    using M = virtual_<std::unique_ptr<const C>>;
    template<class C, class>
    using O = std::unique_ptr<const C>;
};
struct kin : kref {
    static constexpr const char* name = "virtual_<intrusive_ptr<R>>";
    template<class C, class>
    using M = virtual_<boost::intrusive_ptr<C>>;
    template<class C, class>
    using O = boost::intrusive_ptr<C>;
    template<class P>
    static auto ptr(P& p) {
        seen.use = refs;
        return p.get();
    }
    template<class Meth, class Reg, class S, class X>
    static int call(X* x) {
        boost::intrusive_ptr<S> p(static_cast<S*>(x));
        int r = Meth::fn(p);
        if (p.get() != static_cast<S*>(x))
            mc::fail("the caller's intrusive_ptr changed");
        if (refs != 1)
            mc::fail("use count is %d after the call instead of 1", refs);
        if (seen.use < 2)
            mc::fail("use count in the overrider is %ld: it does not share ownership", seen.use);
        return r;
    }
};
struct kinr : kin {
    static constexpr const char* name = "virtual_<const intrusive_ptr<R>&>";
    template<class C, class>
    using M = virtual_<const boost::intrusive_ptr<C>&>;
    template<class C, class>
    using O = const boost::intrusive_ptr<C>&;
    template<class Meth, class Reg, class S, class X>
    static int call(X* x) {
        boost::intrusive_ptr<S> p(static_cast<S*>(x));
        int r = Meth::fn(p);
        if (p.get() != static_cast<S*>(x))
            mc::fail("the caller's intrusive_ptr changed");
        if (refs != 1)
            mc::fail("use count is %d after the call instead of 1", refs);
        return r;
    }
};
// user-defined virtual_traits
struct khandle : kref {
    static constexpr const char* name = "virtual_<user-defined handle<R>>";
    template<class C, class>
    using M = virtual_<handle<C>>;
    template<class C, class>
    using O = handle<C>;
    template<class P>
    static auto ptr(P& p) {
        seen.use = p.cookie;
        return p.p;
    }
    template<class Meth, class Reg, class S, class X>
    static int call(X* x) {
        handle<S> p{static_cast<S*>(x), 41};
        int r = Meth::fn(p);
        if (p.p != static_cast<S*>(x) || p.cookie != 41)
            mc::fail("the caller's handle changed");
        if (seen.use != 42)
            mc::fail("the argument was cast %ld times by its virtual_traits", seen.use - 41);
        return r;
    }
};
// smart virtual_ptrs
template<class Smart, class Reg, class X>
auto make_svp(Smart&& p, X*) {
    if constexpr (std::is_polymorphic_v<X>)
        return virtual_ptr<std::remove_reference_t<Smart>, Reg>(std::move(p));
    else
        return bom::final_virtual_ptr<Reg>(std::move(p));
}
struct ksvp : ksh {
    static constexpr bool nonpoly = true;
    static constexpr const char* name = "virtual_ptr<shared_ptr<R>>";
    template<class C, class Reg>
    using M = virtual_ptr<std::shared_ptr<C>, Reg>;
    template<class C, class Reg>
    using O = virtual_ptr<std::shared_ptr<C>, Reg>;
    template<class P>
    static auto ptr(P& p) {
        seen.use = p.pointer().use_count();
        return p.get();
    }
    template<class Meth, class Reg, class S, class X>
    static int call(X* x) {
        std::shared_ptr<X> own(x, no_delete());
        virtual_ptr<std::shared_ptr<S>, Reg> p(make_svp<std::shared_ptr<X>, Reg>(std::shared_ptr<X>(own), x));
        int r = Meth::fn(p);
        if (p.get() != static_cast<S*>(x))
            mc::fail("the caller's virtual_ptr changed");
        if (own.use_count() != 2)
            mc::fail("use count is %ld after the call instead of 2", own.use_count());
        if (seen.use < 2)
            mc::fail("use count in the overrider is %ld: it does not share ownership", seen.use);
        return r;
    }
};
struct ksvpr : ksvp {
    static constexpr const char* name = "const virtual_ptr<shared_ptr<R>>&";
    template<class C, class Reg>
    using M = const virtual_ptr<std::shared_ptr<C>, Reg>&;
    template<class C, class Reg>
    using O = const virtual_ptr<std::shared_ptr<C>, Reg>&;
};
struct ksvpc : ksvp {
    static constexpr const char* name = "virtual_ptr<shared_ptr<const R>>";
    template<class C, class Reg>
    using M = virtual_ptr<std::shared_ptr<const C>, Reg>;
    template<class C, class Reg>
    using O = virtual_ptr<std::shared_ptr<const C>, Reg>;
};
struct ksvpm : ksvp {
    static constexpr const char* name = "virtual_ptr<shared_ptr<R>>, moved";
    template<class Meth, class Reg, class S, class X>
    static int call(X* x) {
        std::shared_ptr<X> own(x, no_delete());
        virtual_ptr<std::shared_ptr<S>, Reg> p(make_svp<std::shared_ptr<X>, Reg>(std::shared_ptr<X>(own), x));
        int r = Meth::fn(std::move(p));
        if (p.get())
            mc::fail("the virtual_ptr was copied instead of moved");
        if (own.use_count() != 1)
            mc::fail("use count is %ld after the call instead of 1", own.use_count());
        return r;
    }
};
struct kuvp : kun {
    static constexpr bool nonpoly = true;
    static constexpr const char* name = "virtual_ptr<unique_ptr<R>>";
    template<class C, class Reg>
    using M = virtual_ptr<std::unique_ptr<C>, Reg>;
    template<class C, class Reg>
    using O = virtual_ptr<std::unique_ptr<C>, Reg>;
    template<class P>
    static auto ptr(P& p) {
        auto r = p.get();
        const_cast<std::unique_ptr<std::remove_reference_t<decltype(*p)>>&>(p.pointer()).release();
        return r;
    }
    template<class Meth, class Reg, class S, class X>
    static int call(X* x) {
        virtual_ptr<std::unique_ptr<S>, Reg> p(make_svp<std::unique_ptr<X>, Reg>(std::unique_ptr<X>(x), x));
        int r = Meth::fn(std::move(p));
        if (p.get())
            mc::fail("the caller still owns the object");
        return r;
    }
};
struct kivp : kin {
    static constexpr bool nonpoly = true;
    static constexpr const char* name = "virtual_ptr<intrusive_ptr<R>>";
    template<class C, class Reg>
    using M = virtual_ptr<boost::intrusive_ptr<C>, Reg>;
    template<class C, class Reg>
    using O = virtual_ptr<boost::intrusive_ptr<C>, Reg>;
    template<class Meth, class Reg, class S, class X>
    static int call(X* x) {
        {
            virtual_ptr<boost::intrusive_ptr<S>, Reg> p(
                make_svp<boost::intrusive_ptr<X>, Reg>(boost::intrusive_ptr<X>(x), x));
            int r = Meth::fn(p);
            if (p.get() != static_cast<S*>(x))
                mc::fail("the caller's virtual_ptr changed");
            if (refs != 1)
                mc::fail("use count is %d after the call instead of 1", refs);
            return r;
        }
    }
};
struct kivpr : kivp {
    static constexpr const char* name = "const virtual_ptr<intrusive_ptr<R>>&";
    template<class C, class Reg>
    using M = const virtual_ptr<boost::intrusive_ptr<C>, Reg>&;
    template<class C, class Reg>
    using O = const virtual_ptr<boost::intrusive_ptr<C>, Reg>&;
};

using AllKinds = mp11::mp_list<
    kref, kcref, krref, kptr, kcptr, kvp, kcvp, kvpr, kcvpr, ksh, kshc, kshr, kshm, kun, kunc,
    kin, kinr, ksvp, ksvpr, ksvpc, ksvpm, kuvp, kivp, kivpr, khandle>;
using FewKinds = mp11::mp_list<kref, krref, kcptr, kvp, kshr, kun, ksvp, kinr, kuvp, khandle>;

// ---------------------------------------------------------------------------
// one method per (hierarchy, kind, R, Y)

template<class K, class R, class Y>
struct Id;

template<class K, class R, class Y, class Reg>
struct M1 {
    using Meth = bom::method<Id<K, R, Y>, int(typename K::template M<R, Reg>), Reg>;
    static int over(typename K::template O<Y, Reg> arg) {
        seen.calls++;
        auto p = K::ptr(arg);
        static_assert(std::is_same_v<std::remove_cv_t<std::remove_pointer_t<decltype(p)>>, Y>);
        seen.addr = p;
        seen.mark = p->cell.mark;
        seen.intact = p->cell.ok();
        return 1000 + Y::index;
    }
};

struct Entry {
    const char* kind;
    bool poly;
    int n, h, r, y, x, s;
    void (*run)(const Entry&);
};
inline std::vector<Entry>& entries() {
    static std::vector<Entry> v;
    return v;
}

template<class K, class R, class Y, class X, class S, class Reg>
void run_entry(const Entry& e) {
    using Meth = typename M1<K, R, Y, Reg>::Meth;
    int live0 = live;
    auto* x = new X;
    struct Del {
        X* x;
        ~Del() {
            delete x;
        }
    } del{x};
    seen = Seen();
    refs = 0;
    int r = K::template call<Meth, Reg, S>(x);
    if (seen.calls != 1)
        mc::fail("the overrider was called %d times", seen.calls);
    if (r != 1000 + e.y)
        mc::fail("the call returned %d instead of %d", r, 1000 + e.y);
    const void* expected = static_cast<Y*>(x);
    if (seen.addr != expected)
        mc::fail(
            "the overrider received the address of the object %+ld instead of %+ld",
            long((const char*)seen.addr - (const char*)x),
            long((const char*)expected - (const char*)x));
    if (seen.mark != e.y || !seen.intact)
        mc::fail("the overrider saw a wrong object (mark %d instead of %d)", seen.mark, e.y);
    if (live == live0)
        mc::fail("the object was destroyed during the call");
}

template<bool Poly, int N, int H, class Kinds>
struct GenHier {
    using HH = Hier<N, H>;
    using Reg = RegOf<Poly>;
    template<class>
    struct classes;
    template<std::size_t... I>
    struct classes<std::index_sequence<I...>> {
        static inline bom::use_classes<Node<Poly, N, H, int(I)>..., Reg> reg;
    };

    template<class K, int R, int Y, int X, int S>
    static void gen_s() {
        if constexpr (HH::derives(X, S) && HH::derives(S, R) && (S == R || S == X))
            entries().push_back(
                {K::name, Poly, N, H, R, Y, X, S,
                 &run_entry<
                     K, Node<Poly, N, H, R>, Node<Poly, N, H, Y>, Node<Poly, N, H, X>,
                     Node<Poly, N, H, S>, Reg>});
    }
    template<class K, int R, int Y, int X, std::size_t... S>
    static void gen_x(std::index_sequence<S...>) {
        if constexpr (HH::derives(X, Y))
            (gen_s<K, R, Y, X, int(S)>(), ...);
    }
    template<class K, int R, int Y, std::size_t... X>
    static void gen_y(std::index_sequence<X...>) {
        if constexpr (HH::derives(Y, R)) {
            using M = M1<K, Node<Poly, N, H, R>, Node<Poly, N, H, Y>, Reg>;
            static typename M::Meth::template override<M::over> o;
            (gen_x<K, R, Y, int(X)>(std::make_index_sequence<N>()), ...);
        }
    }
    template<class K, int R, std::size_t... Y>
    static void gen_r(std::index_sequence<Y...>) {
        (gen_y<K, R, int(Y)>(std::make_index_sequence<N>()), ...);
    }
    template<class K, std::size_t... R>
    static void gen_k(std::index_sequence<R...>) {
        if constexpr (Poly || K::nonpoly)
            (gen_r<K, int(R)>(std::make_index_sequence<N>()), ...);
    }
    template<class... K>
    static void gen(mp11::mp_list<K...>) {
        (void)&classes<std::make_index_sequence<N>>::reg;
        (gen_k<K>(std::make_index_sequence<N>()), ...);
    }
    static void all() {
        if constexpr (Poly || !HH::has_virtual())
            gen(Kinds());
    }
};


#ifndef NPARTS
#define NPARTS 16
#endif

#ifndef MAXN
#define MAXN 4
#endif
#ifdef DEEP
constexpr bool deep = true;
#else
constexpr bool deep = false;
#endif

#include "hier.inc"

// 4 classes: each hierarchy with one of the orders, unless deep
template<int N, int I>
constexpr int hier_code() {
    constexpr auto nth = [](const auto& a) {
        return I < int(sizeof a / sizeof *a) ? a[I < int(sizeof a / sizeof *a) ? I : 0] : -1;
    };
    if constexpr (N == 2)
        return nth(hier_all_2);
    else if constexpr (N == 3)
        return nth(hier_all_3);
    else if constexpr (deep)
        return nth(hier_all_4);
    else
        return nth(hier_one_4);
}

template<int N, class Kinds, int P, int I>
void gen_from() {
    constexpr int H = hier_code<N, I>();
    if constexpr (H >= 0) {
        GenHier<true, N, H, Kinds>::all();
        GenHier<false, N, H, Kinds>::all();
        gen_from<N, Kinds, P, I + NPARTS>();
    }
}

template<int P>
void part() {
    gen_from<2, AllKinds, P, P>();
    gen_from<3, AllKinds, P, P>();
    if constexpr (MAXN >= 4)
        gen_from<4, std::conditional_t<deep, AllKinds, FewKinds>, P, P>();
}

#define PARTFN(I) BOOST_PP_CAT(args_part_, I)

#ifdef PART
void PARTFN(PART)() {
    part<PART>();
}
#else

#define DECL(Z, I, _) void PARTFN(I)();
BOOST_PP_REPEAT(NPARTS, DECL, _)

int main(int argc, char** argv) {
#define CALL(Z, I, _) PARTFN(I)();
    BOOST_PP_REPEAT(NPARTS, CALL, _)
    auto& v = entries();
    // thousands of methods: initialize once, before the workers are forked
    bom::initialize<PolyReg>();
    bom::initialize<StatReg>();

    mc::Harness h;
    h.name = "args";
    h.run = [&](mc::Explorer& ex, const mc::Case& c) {
        v[c[0]].run(v[c[0]]);
        ex.transition();
        ex.state(mc::mix(0x61726773, c[0]));
        ex.trace_ok();
    };
    h.describe = [&](const mc::Case& c) {
        auto& e = v[c[0]];
        std::string s = e.poly ? "polymorphic classes: " : "classes without virtual functions: ";
        int k = 0, code = e.h / 2;
        for (int j = 0; j < e.n; ++j) {
            s += "C" + std::to_string(j);
            for (int i = 0; i < j; ++i, ++k, code /= 3)
                if (code % 3)
                    s += std::string(code % 3 == 2 ? " virtual C" : " C") + std::to_string(i);
            s += "; ";
        }
        s += e.h % 2 ? "non-virtual bases first, last first; " : "virtual bases first; ";
        s += std::string("parameter ") + e.kind + " with R = C" + std::to_string(e.r) +
            ", overrider for C" + std::to_string(e.y) + ", object of C" + std::to_string(e.x) +
            " passed as a C" + std::to_string(e.s);
        return s;
    };
    h.enumerate = [&](mc::Explorer& ex) {
        for (int i = 0; i < int(v.size()); ++i)
            ex.consider({i});
    };
    return mc::main(argc, argv, h);
}
#endif
