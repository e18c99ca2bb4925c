// Abstract classes: as h_dispatch, with every subset of the classes abstract.
// In real programs the flag follows from the C++ type, and all the records of a
// class agree on it; hence one type per (class, abstract?, number of concrete
// bases, number of abstract bases), of which exactly one plays the class and the
// others play an unrelated dummy class.
#include "engine.hpp"

using namespace dyn;

constexpr int N = 4;
static int abs_mask = 0;

template<class R, int I, bool Abs, int NC, int NA, int J, bool BaseAbs>
struct PSub {
    using dyn_tag = PSub;
    type_id id;
    inline static type_id the_id = nullptr;
    static type_id dyn_id() {
        return the_id;
    }
};
template<class R, int I, bool Abs, int NC, int NA, int J>
struct PSub<R, I, Abs, NC, NA, J, true> {
    using dyn_tag = PSub;
    type_id id;
    inline static type_id the_id = nullptr;
    static type_id dyn_id() {
        return the_id;
    }
    virtual void pure() = 0;
};

template<bool Abs>
struct Purity {
    // hides nothing, leaves the class abstract
    virtual void own() = 0;
};
template<>
struct Purity<false> {};

template<class R, int I, bool Abs, int NC, int NA, class Jc, class Ja>
struct Play;
template<class R, int I, bool Abs, int NC, int NA, int... Jc, int... Ja>
struct Play<
    R, I, Abs, NC, NA, std::integer_sequence<int, Jc...>,
    std::integer_sequence<int, Ja...>>
    : Purity<Abs>,
      PSub<R, I, Abs, NC, NA, Jc, false>...,
      PSub<R, I, Abs, NC, NA, Ja, true>... {
    using dyn_tag = Play;
    type_id id;
    // only abstract if Abs
    template<bool B = (NA > 0)>
    void dummy() {
    }
    void pure() {
    }
    inline static type_id the_id = nullptr;
    static type_id dyn_id() {
        return the_id;
    }
    using use = bom::use_classes<
        Play, PSub<R, I, Abs, NC, NA, Jc, false>...,
        PSub<R, I, Abs, NC, NA, Ja, true>..., R>;
    static void set(type_id self, const type_id* conc, const type_id* abs) {
        the_id = self;
        ((PSub<R, I, Abs, NC, NA, Jc, false>::the_id = conc ? conc[Jc] : self),
         ...);
        ((PSub<R, I, Abs, NC, NA, Ja, true>::the_id = abs ? abs[Ja] : self),
         ...);
    }
};

template<class Tag>
struct AbsWorld {
    struct R : bom::registry<
                   dyn_rtti, pol::vptr_vector, recording_handler, null_output,
                   pol::runtime_checks, marker<Tag>> {};

    // K enumerates (i, abs, nc, na)
    static constexpr int combos = 10; // nc + na <= 3
    static constexpr int NCS[combos] = {0, 0, 0, 0, 1, 1, 1, 2, 2, 3};
    static constexpr int NAS[combos] = {0, 1, 2, 3, 0, 1, 2, 0, 1, 0};
    static constexpr int total = N * 2 * combos;
    template<int K>
    using P = Play<
        R, K / (2 * combos), ((K / combos) % 2) != 0, NCS[K % combos],
        NAS[K % combos], std::make_integer_sequence<int, NCS[K % combos]>,
        std::make_integer_sequence<int, NAS[K % combos]>>;

    template<class I>
    struct plays;
    template<int... K>
    struct plays<std::integer_sequence<int, K...>> {
        static_assert(
            ((std::is_abstract_v<P<K>> == (((K / combos) % 2) != 0)) && ...));
        using type = std::tuple<typename P<K>::use...>;
        static void
        set(int k, type_id self, const type_id* conc, const type_id* abs) {
            (void)((k == K && (P<K>::set(self, conc, abs), true)) || ...);
        }
    };
    using Plays = plays<std::make_integer_sequence<int, total>>;

    static void install_classes() {
        static typename Plays::type t;
        (void)&t;
    }
    static void set_classes(int, const std::vector<Group>& groups) {
        for (int k = 0; k < total; ++k)
            Plays::set(k, cls_id(N), nullptr, nullptr);
        for (auto& g : groups) {
            type_id conc[N], abs[N];
            int nc = 0, na = 0;
            for (int b : g.bases)
                if ((abs_mask >> b) & 1)
                    abs[na++] = cls_id(b);
                else
                    conc[nc++] = cls_id(b);
            int combo = 0;
            while (NCS[combo] != nc || NAS[combo] != na)
                ++combo;
            int k = g.self * 2 * combos + ((abs_mask >> g.self) & 1) * combos +
                combo;
            Plays::set(k, cls_id(g.self), conc, abs);
        }
    }
};

template<int Arity, int NOvr>
struct Eng {
    struct Tag {};
    using CW = AbsWorld<Tag>;
    using E = Engine<CW, dyn_method<typename CW::R, 0, Arity, NOvr>>;
    static constexpr int id = Arity * 10 + NOvr;
};

static Obl obl;
static bool use_trace = false;

template<class X>
void run1(mc::Explorer& ex, const Case& c) {
    Config cfg;
    cfg.methods = X::E::shapes();
    cfg.decode(c);
    X::E::run(ex, cfg, obl);
    if (use_trace)
        X::E::run(ex, cfg, obl, bom::trace(true));
}

template<class... Es>
struct All {
    static void install() {
        (Es::E::install(), ...);
    }
    static void run(mc::Explorer& ex, const Case& c) {
        abs_mask = c.back();
        (void)((c[0] == Es::id && (run1<Es>(ex, c), true)) || ...);
    }
    static std::string describe(const Case& c) {
        std::string r;
        (void)((c[0] == Es::id && (r = desc1<Es>(c), true)) || ...);
        return r + "; abstract mask " + std::to_string(c.back());
    }
    template<class X>
    static std::string desc1(const Case& c) {
        Config cfg;
        cfg.methods = X::E::shapes();
        cfg.decode(c);
        return cfg.describe();
    }
};
using A = All<Eng<1, 0>, Eng<1, 1>, Eng<1, 2>, Eng<2, 0>, Eng<2, 1>, Eng<2, 2>>;

template<int Arity, int NOvr>
void enum1(mc::Explorer& ex, const std::vector<Poset>& ps, bool sets) {
    Config cfg;
    cfg.methods = Eng<Arity, NOvr>::E::shapes();
    for (auto& p : ps) {
        cfg.p = p;
        auto& m = cfg.methods[0];
        for_roots(p, m, [&] {
            for_overriders(p, m, sets, [&] {
                for (int mask = 0; mask < (1 << p.n); ++mask) {
                    if (ex.sh->stop.load())
                        _exit(0);
                    if (ex.mine()) {
                        auto c = cfg.encode(Eng<Arity, NOvr>::id);
                        c.push_back(mask);
                        ex.exec(c);
                    }
                }
            });
        });
    }
}

int main(int argc, char** argv) {
    A::install();
    mc::Harness h;
    h.name = "abstract";
    h.counters = {"next_depends_on_arguments"};
    std::string prop = getenv("VERIF_PROP") ? getenv("VERIF_PROP") : "C01";
    obl.dispatch = prop == "C01" || prop == "C06";
    obl.errors = prop == "C02";
    obl.next = prop == "C03";
    obl.report = prop == "C06";
    use_trace = prop == "C06";
    h.run = A::run;
    h.describe = A::describe;
    h.enumerate = [](mc::Explorer& ex) {
        for (int n = 1; n <= 3; ++n) {
            auto ps = all_posets(n);
            enum1<1, 0>(ex, ps, false);
            enum1<1, 1>(ex, ps, false);
            enum1<1, 2>(ex, ps, false);
            enum1<2, 0>(ex, ps, false);
            enum1<2, 1>(ex, ps, false);
            enum1<2, 2>(ex, ps, false);
        }
        auto u4 = unlabelled_posets(4);
        auto p4 = ex.thorough ? all_posets(4) : u4;
        enum1<1, 0>(ex, p4, false);
        enum1<1, 1>(ex, p4, false);
        enum1<1, 2>(ex, p4, false);
        enum1<2, 1>(ex, p4, false);
        enum1<2, 2>(ex, u4, true);
    };
    return mc::main(argc, argv, h);
}
