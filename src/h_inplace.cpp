// C17: in-place v-table pointers.  Every hierarchy of in-place classes up to a
// size; all sequences, up to a depth, of constructions, constructions that
// throw, slicing copies and moves, assignments, swaps, destructions and
// re-initializations on two objects.  In every constructor and destructor body,
// in the initialization and the destruction of every member, and after every
// operation, every living subobject is used through the methods of its class
// and must dispatch like the class that a native v-table would give it.
//
// The classes of a hierarchy are numbered; class i derives, without virtual
// inheritance, from the classes of bases(i), all below i and none of them a
// base of another; two of them may have a base in common (which then occurs
// twice) if the hierarchy is polymorphic.
#include <boost/openmethod.hpp>
#include <boost/openmethod/initialize.hpp>
#include <boost/openmethod/inplace_vptr.hpp>

#include <boost/preprocessor/cat.hpp>
#include <boost/preprocessor/repetition/repeat.hpp>

#include "mc.hpp"

#include <cstddef>
#include <new>
#include <utility>

#ifndef NPARTS
#define NPARTS 8
#endif
#ifndef MAXN
#define MAXN 4
#endif

namespace bom = boost::openmethod;
namespace pol = boost::openmethod::policies;
namespace mp11 = boost::mp11;
using bom::virtual_;
using bom::virtual_ptr;

struct R0 : bom::registry<pol::std_rtti> {}; // static v-table pointers only
struct R1 : bom::registry<pol::std_rtti, pol::indirect_vptr> {};
struct R2 : bom::registry<pol::std_rtti, pol::vptr_vector, pol::fast_perfect_hash> {};
struct R3 : bom::registry<
                pol::std_rtti, pol::vptr_vector, pol::fast_perfect_hash, pol::indirect_vptr,
                pol::runtime_checks, pol::default_error_handler, pol::stderr_output> {};

template<int I>
using reg_t = mp11::mp_at_c<mp11::mp_list<R0, R1, R2, R3>, I>;

enum Variant {
    Monomorphic, // no virtual function anywhere
    Polymorphic, // the roots have a virtual destructor
    Padded,      // the derived classes have a first, polymorphic base
    Virtual,     // the roots have a (not in-place) virtual base
};

struct Hierarchy {
    int n, code, variant, reg;
    constexpr unsigned bases(int i) const {
        return i == 0 ? 0 : unsigned(code >> (i * (i - 1) / 2)) & ((1u << i) - 1);
    }
    constexpr unsigned ancestors(int i) const { // and itself
        unsigned r = 1u << i;
        for (int b = 0; b < i; ++b)
            if (bases(i) >> b & 1)
                r |= ancestors(b);
        return r;
    }
    constexpr bool derives(int d, int b) const { // or same
        return ancestors(d) >> b & 1;
    }
    constexpr bool valid() const {
        for (int i = 0; i < n; ++i) {
            unsigned all = 0;
            for (int b = 0; b < i; ++b) {
                if (!(bases(i) >> b & 1))
                    continue;
                for (int c = 0; c < i; ++c)
                    if (c != b && (bases(i) >> c & 1) && derives(c, b))
                        return false;
                if ((all & ancestors(b)) && variant != Polymorphic && variant != Virtual)
                    return false;
                all |= ancestors(b);
            }
        }
        // connected: the last class of a hierarchy has a base or is a base...
        // isolated classes occur in smaller hierarchies
        unsigned used = 0;
        for (int i = 0; i < n; ++i)
            if (bases(i))
                used |= bases(i) | 1u << i;
        if (n > 1 && used != (1u << n) - 1)
            return false;
        // all the combinations up to 3 classes, by default 4 of 16 beyond
        #ifdef DEEP
        return true;
#endif
        return n <= 3 || (variant + reg + (code ^ code >> 3)) % 4 == 0;
    }
    // the subobjects of a class in order of construction
    void subobjects(int i, std::vector<int>& out) const {
        for (int b = 0; b < i; ++b)
            if (bases(i) >> b & 1)
                subobjects(b, out);
        out.push_back(i);
    }
};

// all the codes of all the sizes, in one list
constexpr int ncodes(int n) {
    return 1 << (n * (n - 1) / 2);
}
constexpr int total(int n) { // hierarchies of less than n classes
    int r = 0;
    for (int m = 1; m < n; ++m)
        r += ncodes(m) * 16;
    return r;
}
constexpr int NHIER = total(MAXN + 1);
constexpr Hierarchy hierarchy(int x) {
    int n = 1;
    while (x >= total(n + 1))
        ++n;
    x -= total(n);
    return {n, x / 16, x / 4 % 4, x % 4};
}

// ---------------------------------------------------------------------------
// the reference: what native v-tables would do

struct Living {
    int cls;
    void* ptr;
    // the object that this subobject belongs to, and those that it belonged to
    // while they were not constructed yet
    int depth;
    int as[MAXN + 1];
    void* of[MAXN + 1];
};

constexpr int MAXSUB = 16;

struct World {
    int n = 0;
    Living living[MAXSUB];
    int throw_at = -1; // constructor, in order of execution
    int phase = 0;     // 0: in the initialization of the member, 1: in the body
    int constructors = 0;
    void push(int cls, void* ptr) {
        if (n == MAXSUB)
            mc::fail("harness: too many subobjects");
        living[n] = {};
        living[n].cls = cls;
        living[n++].ptr = ptr;
    }
    Living& find(int cls, void* ptr) {
        for (int i = 0; i < n; ++i)
            if (living[i].cls == cls && living[i].ptr == ptr)
                return living[i];
        mc::fail("harness: unknown subobject");
    }
    void remove(int cls, void* ptr) {
        Living& l = find(cls, ptr);
        if (&l != living + n - 1)
            mc::fail("harness: destruction out of order");
        --n;
    }
};

inline World* cur; // of the object being constructed or destroyed
struct Thrown {};

struct Result {
    int cls;
    void* ptr;
};

// ---------------------------------------------------------------------------
// the classes

template<int X>
struct Hier {
    static constexpr Hierarchy h = hierarchy(X);
    static constexpr int index = X;
    using Reg = reg_t<h.reg>;
};

template<class H>
struct Ops;

template<class Tag>
struct HasVirtual {
    long x = 0x7777;
    virtual ~HasVirtual() = default;
};

struct Shared {
    long x = 0x8888;
    virtual ~Shared() = default;
};

template<class Tag>
struct HasVirtualBase : virtual Shared {};

template<class N>
struct Member {
    N* self;
    Member(N* self) : self(self) {
        N::ops::born(self);
    }
    Member(const Member&) = delete;
    Member& operator=(const Member&) noexcept {
        return *this;
    }
    ~Member() {
        N::ops::gone(self);
    }
};

// Tops: nothing, or a class that the library knows nothing about.  Bases: the
// in-place bases.
template<class H, int I, class Tops, class Bases>
struct NodeT;

template<class H, int I>
struct tag;

template<class H, int I>
struct node_ {
    template<class B>
    using keep = mp11::mp_bool<bool(H::h.bases(I) >> B::value & 1)>;
    template<class B>
    using node = typename node_<H, int(B::value)>::type;
    using bases = mp11::mp_transform<
        node, mp11::mp_filter<keep, mp11::mp_rename<mp11::mp_iota_c<I>, mp11::mp_list>>>;
    static constexpr bool root = H::h.bases(I) == 0;
    static constexpr int v = H::h.variant;
    using tops = std::conditional_t<
        (v == Polymorphic && root) || (v == Padded && !root), mp11::mp_list<HasVirtual<tag<H, I>>>,
        std::conditional_t<
            v == Virtual && root, mp11::mp_list<HasVirtualBase<tag<H, I>>>, mp11::mp_list<>>>;
    using type = NodeT<H, I, tops, bases>;
};

template<class H, int I>
using Node = typename node_<H, I>::type;

template<class H, class Self, class... Bases>
struct mixin_ {
    using type = bom::inplace_vptr_derived<Self, Bases...>;
};
template<class H, class Self>
struct mixin_<H, Self> {
    using type = bom::inplace_vptr_base<Self, typename H::Reg>;
};

template<class H, int I, class... Tops, class... Bases>
struct NodeT<H, I, mp11::mp_list<Tops...>, mp11::mp_list<Bases...>>
    : Tops...,
      Bases...,
      mixin_<H, NodeT<H, I, mp11::mp_list<Tops...>, mp11::mp_list<Bases...>>, Bases...>::type {
    using self = NodeT;
    using mixin = typename mixin_<H, NodeT, Bases...>::type;
    using bases = mp11::mp_list<Bases...>;
    using ops = Ops<H>;
    static constexpr int index = I;

    int data = 1000 + I;
    Member<NodeT> member{this};

    NodeT() {
        ops::body(this);
    }
    NodeT(const NodeT& o)
        : Tops(static_cast<const Tops&>(o))..., Bases(static_cast<const Bases&>(o))...,
          mixin(static_cast<const mixin&>(o)), data(o.data) {
        ops::body(this);
    }
    NodeT(NodeT&& o)
        : Tops(static_cast<Tops&&>(o))..., Bases(static_cast<Bases&&>(o))...,
          mixin(static_cast<mixin&&>(o)), data(o.data) {
        ops::body(this);
    }
    NodeT& operator=(const NodeT&) = default;
    NodeT& operator=(NodeT&&) = default;
    ~NodeT() {
        ops::dying(this);
    }
};

template<class N, class F>
void each_subobject(N* p, F&& f) {
    mp11::mp_for_each<mp11::mp_transform<mp11::mp_identity, typename N::bases>>(
        [&](auto id) { each_subobject(static_cast<typename decltype(id)::type*>(p), f); });
    f(N::index, static_cast<void*>(p));
}

// ---------------------------------------------------------------------------
// methods: for each class, one taking a reference and one taking a virtual_ptr,
// overridden for each class

template<class H, int I>
struct id_r;
template<class H, int I>
struct id_p;

template<class H, int I>
using method_r = bom::method<id_r<H, I>, Result(virtual_<Node<H, I>&>), typename H::Reg>;
template<class H, int I>
using method_p =
    bom::method<id_p<H, I>, Result(virtual_ptr<Node<H, I>, typename H::Reg>), typename H::Reg>;

template<class H, int D>
Result over_r(Node<H, D>& d) {
    return {D, &d};
}
template<class H, int D>
Result over_p(virtual_ptr<Node<H, D>, typename H::Reg> d) {
    return {D, d.get()};
}

template<class H, int I, int D>
struct Overriders {
    static inline typename method_r<H, I>::template override<over_r<H, D>> r;
};
template<class H, int I, int D>
struct OverridersP {
    static inline typename method_p<H, I>::template override<over_p<H, D>> p;
};

inline char failure[2000];
inline std::uint64_t checks;

#define FAIL(...)                                                              \
    do {                                                                       \
        if (!failure[0])                                                       \
            std::snprintf(failure, sizeof failure, __VA_ARGS__);               \
        return;                                                                \
    } while (0)

template<class H>
struct Ops {
    using Reg = typename H::Reg;
    static constexpr int n = H::h.n;
    static constexpr bool with_p = n <= 3;

    template<int I>
    static void check(const Living& l, const char* when) {
        auto& obj = *static_cast<Node<H, I>*>(l.ptr);
        int cls = l.as[l.depth - 1];
        void* ptr = l.of[l.depth - 1];
        auto expect = *static_vptrs()[cls];
        auto actual = boost_openmethod_vptr(obj, static_cast<Reg*>(nullptr));
        ++checks;
        if (actual != expect)
            FAIL("%s, boost_openmethod_vptr of the subobject of class %d is %p, not %p, the "
                 "static_vptr of class %d", when, I, (const void*)actual, (const void*)expect, cls);
        auto r = method_r<H, I>::fn(obj);
        if (r.cls != cls || r.ptr != ptr)
            FAIL("%s, a call with virtual_<C%d&> calls the overrider for class %d on %p; expected "
                 "class %d, %p", when, I, r.cls, r.ptr, cls, ptr);
        if constexpr (with_p && std::is_polymorphic_v<Node<H, I>>) {
            virtual_ptr<Node<H, I>, Reg> p(obj);
            r = method_p<H, I>::fn(p);
            if (r.cls != cls || r.ptr != ptr)
                FAIL("%s, a call with virtual_ptr<C%d> calls the overrider for class %d on %p; "
                     "expected class %d, %p", when, I, r.cls, r.ptr, cls, ptr);
        }
    }

    static const bom::vptr_type* const* static_vptrs() {
        return static_vptrs(std::make_index_sequence<n>());
    }
    template<std::size_t... Is>
    static const bom::vptr_type* const* static_vptrs(std::index_sequence<Is...>) {
        static const bom::vptr_type* const r[] = {&Reg::template static_vptr<Node<H, int(Is)>>...};
        return r;
    }

    static void verify(const World& w, const char* when) {
        for (int i = 0; i < w.n; ++i)
            mp11::mp_with_index<n>(w.living[i].cls, [&](auto I) {
                check<int(I)>(w.living[i], when);
            });
    }

    // called for the member of each object: the object itself takes over its
    // subobjects
    template<class N>
    static void born(N* p) {
        World& w = *cur;
        w.push(N::index, p);
        each_subobject(p, [&](int cls, void* s) {
            Living& l = w.find(cls, s);
            l.as[l.depth] = N::index;
            l.of[l.depth++] = p;
        });
        verify(w, "in the constructor of a member");
        if (w.throw_at == w.constructors && w.phase == 0) {
            leave(w, p);
            throw Thrown();
        }
    }
    template<class N>
    static void leave(World& w, N* p) {
        each_subobject(p, [&](int cls, void* s) { --w.find(cls, s).depth; });
        w.remove(N::index, p);
    }
    template<class N>
    static void body(N*) {
        World& w = *cur;
        verify(w, "in a constructor");
        if (w.throw_at == w.constructors++)
            throw Thrown();
    }
    template<class N>
    static void dying(N*) {
        verify(*cur, "in a destructor");
    }
    template<class N>
    static void gone(N* p) {
        World& w = *cur;
        verify(w, "in the destructor of a member");
        leave(w, p);
    }

    // -----------------------------------------------------------------------
    // operations on two objects

    static constexpr std::size_t room = 2048;
    struct Object {
        alignas(16) unsigned char mem[room];
        World w;
        int cls = -1;
        void* ptr = nullptr;
        // virtual_ptrs to the subobjects, made when the object was constructed
        alignas(16) unsigned char vptrs[MAXSUB][32];
    };
    static inline Object obj[2];

    template<int I>
    using VP = virtual_ptr<Node<H, I>, Reg>;

    static void make_vptrs(Object& o) {
        for (int i = 0; i < o.w.n; ++i)
            mp11::mp_with_index<n>(o.w.living[i].cls, [&](auto I_) {
                constexpr int I = int(I_);
                if constexpr (with_p && std::is_polymorphic_v<Node<H, I>>) {
                    static_assert(sizeof(VP<I>) <= 32);
                    new (o.vptrs[i]) VP<I>(*static_cast<Node<H, I>*>(o.w.living[i].ptr));
                }
            });
    }
    static void check_vptrs(Object& o) {
        for (int i = 0; i < o.w.n; ++i)
            mp11::mp_with_index<n>(o.w.living[i].cls, [&](auto I_) {
                constexpr int I = int(I_);
                if constexpr (with_p && std::is_polymorphic_v<Node<H, I>>) {
                    auto r = method_p<H, I>::fn(*reinterpret_cast<VP<I>*>(o.vptrs[i]));
                    if (r.cls != o.cls || r.ptr != o.ptr)
                        FAIL("a call with a virtual_ptr<C%d> made when an object of class %d was "
                             "constructed calls the overrider for class %d", I, o.cls, r.cls);
                }
            });
    }

    template<class F>
    static void with(int cls, F&& f) {
        mp11::mp_with_index<n>(cls, [&](auto I) {
            f(mp11::mp_identity<Node<H, int(I)>>());
        });
    }

    static void create(int s, int cls, int throw_at, int phase) {
        make(s, cls, throw_at, phase, [&](auto id, void* mem) {
            using N = typename decltype(id)::type;
            return static_cast<void*>(new (mem) N);
        });
    }
    template<class F>
    static void make(int s, int cls, int throw_at, int phase, F f) {
        Object& o = obj[s];
        std::memset(o.mem, 0xCC, room);
        o.w.n = 0;
        o.w.constructors = 0;
        o.w.throw_at = throw_at;
        o.w.phase = phase;
        cur = &o.w;
        try {
            with(cls, [&](auto id) {
                static_assert(sizeof(typename decltype(id)::type) <= room);
                o.ptr = f(id, o.mem);
            });
            o.cls = cls;
            make_vptrs(o);
            if (throw_at >= 0)
                mc::fail("harness: no exception");
        } catch (Thrown) {
            if (throw_at < 0 || o.w.n)
                mc::fail("harness: exception");
        }
    }
    static void copy(int s, int sub, bool move, int throw_at) {
        const Living src = obj[1 - s].w.living[sub];
        make(s, src.cls, throw_at, 1, [&](auto id, void* mem) {
            using N = typename decltype(id)::type;
            auto& from = *static_cast<N*>(src.ptr);
            return static_cast<void*>(move ? new (mem) N(std::move(from)) : new (mem) N(from));
        });
    }
    static void assign(int s1, int sub1, int s2, int sub2, int kind) {
        const Living to = obj[s1].w.living[sub1], from = obj[s2].w.living[sub2];
        World temporary;
        cur = &temporary;
        with(to.cls, [&](auto id) {
            using N = typename decltype(id)::type;
            auto &a = *static_cast<N*>(to.ptr), &b = *static_cast<N*>(from.ptr);
            if (kind == 0)
                a = b;
            else if (kind == 1)
                a = std::move(b);
            else {
                using std::swap;
                swap(a, b);
            }
        });
    }
    static void destroy(int s) {
        Object& o = obj[s];
        cur = &o.w;
        with(o.cls, [&](auto id) {
            using N = typename decltype(id)::type;
            static_cast<N*>(o.ptr)->~N();
        });
        if (o.w.n)
            mc::fail("harness: subobjects left");
        o.cls = -1;
    }
    static void reinitialize() {
        bom::initialize<Reg>();
    }

    template<int I>
    static void register_class() {
        mp11::mp_for_each<mp11::mp_iota_c<n>>([](auto d) {
            constexpr int D = int(decltype(d)::value);
            if constexpr (H::h.derives(D, I)) {
                (void)&Overriders<H, I, D>::r;
                if constexpr (with_p)
                    (void)&OverridersP<H, I, D>::p;
            }
        });
    }
    static void setup() {
        mp11::mp_for_each<mp11::mp_iota_c<n>>(
            [](auto i) { register_class<int(decltype(i)::value)>(); });
    }
};

struct Entry {
    Hierarchy h;
    void (*create)(int s, int cls, int throw_at, int phase);
    void (*copy)(int s, int sub, bool move, int throw_at);
    void (*assign)(int s1, int sub1, int s2, int sub2, int kind);
    void (*destroy)(int s);
    void (*reinitialize)();
    void (*verify)(int s);
    void (*check_vptrs)(int s);
    int (*cls)(int s);
};

inline std::vector<Entry>& entries() {
    static std::vector<Entry> v(NHIER);
    return v;
}

template<class H>
void add() {
    using O = Ops<H>;
    O::setup();
    entries()[H::index] = {
        H::h, O::create, O::copy, O::assign, O::destroy, O::reinitialize,
        [](int s) {
            if (O::obj[s].cls >= 0)
                O::verify(O::obj[s].w, s ? "object 1" : "object 0");
        },
        [](int s) {
            if (O::obj[s].cls >= 0)
                O::check_vptrs(O::obj[s]);
        },
        [](int s) { return O::obj[s].cls; }};
}

#define PARTFN(I) BOOST_PP_CAT(inplace_part_, I)

#ifdef PART
template<class X>
using mine = mp11::mp_bool<X::value % NPARTS == PART && hierarchy(X::value).valid()>;
void PARTFN(PART)() {
    mp11::mp_for_each<
        mp11::mp_filter<mine, mp11::mp_rename<mp11::mp_iota_c<NHIER>, mp11::mp_list>>>(
        [](auto x) { add<Hier<int(decltype(x)::value)>>(); });
}
#else

#define DECL(Z, I, _) void PARTFN(I)();
BOOST_PP_REPEAT(NPARTS, DECL, _)

enum Kind { CREATE, CREATE_THROW, COPY, COPY_THROW, ASSIGN, DESTROY, REINIT };

struct Op {
    int kind, a = 0, b = 0, c = 0, d = 0, e = 0;
    int encode() const {
        return kind | a << 3 | b << 7 | c << 11 | d << 15 | e << 19;
    }
    static Op decode(int x) {
        return {x & 7, x >> 3 & 15, x >> 7 & 15, x >> 11 & 15, x >> 15 & 15, x >> 19 & 15};
    }
    std::string str() const {
        char buf[200];
        switch (kind) {
        case CREATE:
            std::snprintf(buf, sizeof buf, "o%d: new C%d", a, b);
            break;
        case CREATE_THROW:
            std::snprintf(
                buf, sizeof buf, "o%d: new C%d, %s of subobject %d throws", a, b,
                d ? "constructor" : "member", c);
            break;
        case COPY:
        case COPY_THROW:
            std::snprintf(
                buf, sizeof buf, "o%d: new %s of subobject %d of o%d%s", a, c ? "move" : "copy", b,
                1 - a, kind == COPY ? "" : ", a constructor throws");
            break;
        case ASSIGN:
            std::snprintf(
                buf, sizeof buf, "subobject %d of o%d %s subobject %d of o%d", b, a,
                e == 0 ? "= copy of" : e == 1 ? "= move of" : "swapped with", d, c);
            break;
        case DESTROY:
            std::snprintf(buf, sizeof buf, "delete o%d", a);
            break;
        default:
            return "initialize";
        }
        return buf;
    }
};

static void run(mc::Explorer& ex, const mc::Case& c) {
    Entry& e = entries()[c[0]];
    failure[0] = 0;
    std::uint64_t h = mc::mix(0x6970, c[0]);
    auto verify = [&](const Op& op) {
        e.verify(0);
        e.verify(1);
        e.check_vptrs(0);
        e.check_vptrs(1);
        if (failure[0])
            mc::fail("[%s] %s", op.str().c_str(), failure);
        ex.transition();
        ex.state(mc::mix(mc::mix(h, e.cls(0) + 1), e.cls(1) + 1));
    };
    for (std::size_t i = 1; i < c.size(); ++i) {
        Op op = Op::decode(c[i]);
        switch (op.kind) {
        case CREATE:
            e.create(op.a, op.b, -1, 0);
            break;
        case CREATE_THROW:
            e.create(op.a, op.b, op.c, op.d);
            break;
        case COPY:
            e.copy(op.a, op.b, op.c, -1);
            break;
        case COPY_THROW:
            e.copy(op.a, op.b, op.c, op.d);
            break;
        case ASSIGN:
            e.assign(op.a, op.b, op.c, op.d, op.e);
            break;
        case DESTROY:
            e.destroy(op.a);
            break;
        case REINIT:
            e.reinitialize();
            break;
        }
        verify(op);
    }
    for (int s = 0; s < 2; ++s)
        if (e.cls(s) >= 0) {
            e.destroy(s);
            verify({DESTROY, s});
        }
    ex.trace_ok();
    ex.count(0, checks);
    checks = 0;
}

static std::vector<Op> enabled(const Hierarchy& h, const int (&cls)[2]) {
    std::vector<Op> r;
    std::vector<int> subs[2];
    for (int s = 0; s < 2; ++s)
        if (cls[s] >= 0)
            h.subobjects(cls[s], subs[s]);
    for (int s = 0; s < 2; ++s) {
        if (cls[s] >= 0) {
            r.push_back({DESTROY, s});
            continue;
        }
        if (s == 1 && cls[0] < 0)
            continue;
        for (int c = 0; c < h.n; ++c) {
            r.push_back({CREATE, s, c});
            std::vector<int> sub;
            h.subobjects(c, sub);
            for (int t = 0; t < int(sub.size()); ++t)
                for (int phase = 0; phase < 2; ++phase)
                    r.push_back({CREATE_THROW, s, c, t, phase});
        }
        for (int i = 0; i < int(subs[1 - s].size()); ++i) {
            r.push_back({COPY, s, i, 0});
            r.push_back({COPY, s, i, 1});
            std::vector<int> sub;
            h.subobjects(subs[1 - s][i], sub);
            for (int t = 0; t < int(sub.size()); ++t)
                r.push_back({COPY_THROW, s, i, 0, t});
        }
    }
    for (int s1 = 0; s1 < 2; ++s1)
        for (int s2 = 0; s2 < 2; ++s2)
            for (int i = 0; i < int(subs[s1].size()); ++i)
                for (int j = 0; j < int(subs[s2].size()); ++j)
                    if (subs[s1][i] == subs[s2][j])
                        for (int k = 0; k < 3; ++k)
                            if (k < 2 || s1 < s2 || (s1 == s2 && i < j))
                                r.push_back({ASSIGN, s1, i, s2, j, k});
    if ((h.reg == 1 || h.reg == 3) && (cls[0] >= 0 || cls[1] >= 0))
        r.push_back({REINIT});
    return r;
}

static void sequences(mc::Explorer& ex, mc::Case& c, const int (&cls)[2], int depth) {
    if (depth == 0)
        return ex.consider(c);
    const Hierarchy& h = entries()[c[0]].h;
    for (auto& op : enabled(h, cls)) {
        // initialize is long: at most once, and followed by something
        if (op.kind == REINIT &&
            (depth == 1 || std::find(c.begin() + 1, c.end(), Op{REINIT}.encode()) != c.end()))
            continue;
        int next[2] = {cls[0], cls[1]};
        if (op.kind == CREATE)
            next[op.a] = op.b;
        if (op.kind == COPY) {
            std::vector<int> sub;
            h.subobjects(cls[1 - op.a], sub);
            next[op.a] = sub[op.b];
        }
        if (op.kind == DESTROY)
            next[op.a] = -1;
        c.push_back(op.encode());
        sequences(ex, c, next, depth - 1);
        c.pop_back();
    }
}

static std::string describe(const mc::Case& c) {
    auto& h = entries()[c[0]].h;
    static const char* regs[] = {
        "static vptrs only", "static vptrs only, indirect", "vptr_vector", "vptr_vector, indirect, checks"};
    static const char* variants[] = {
        "non-polymorphic", "polymorphic", "polymorphic first bases", "roots with a virtual base"};
    std::string r = std::string("registry: ") + regs[h.reg] + "; " + variants[h.variant] + ";";
    for (int i = 0; i < h.n; ++i) {
        r += " C" + std::to_string(i);
        const char* sep = " : ";
        for (int b = 0; b < i; ++b)
            if (h.bases(i) >> b & 1) {
                r += sep + ("C" + std::to_string(b));
                sep = ", ";
            }
        r += ";";
    }
    for (std::size_t i = 1; i < c.size(); ++i)
        r += " [" + Op::decode(c[i]).str() + "]";
    return r;
}

int main(int argc, char** argv) {
#define CALL(Z, I, _) PARTFN(I)();
    BOOST_PP_REPEAT(NPARTS, CALL, _)
    bom::initialize<R0>();
    bom::initialize<R1>();
    bom::initialize<R2>();
    bom::initialize<R3>();

    mc::Harness h;
    h.name = "inplace";
    h.counters = {"subobjects_verified"};
    h.run = run;
    h.describe = describe;
    h.enumerate = [&](mc::Explorer& ex) {
        for (int x = 0; x < NHIER; ++x) {
            auto& e = entries()[x];
            if (!e.create)
                continue;
            mc::Case c{x};
            int none[2] = {-1, -1};
            sequences(ex, c, none, ex.thorough && e.h.n <= 3 ? 4 : 3);
        }
    };
    return mc::main(argc, argv, h);
}
#endif
