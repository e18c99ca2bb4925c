// world.hpp - a dynamic registry with N classes, G registration groups and a
// fixed list of dynamic methods.
#ifndef VERIF_WORLD_HPP
#define VERIF_WORLD_HPP

#include "dyn.hpp"

namespace dyn {

struct Group {
    int self = 0;
    std::vector<int> bases;
};

// registration groups: one per class, listing all its bases
inline std::vector<Group> closure_groups(const Poset& p) {
    std::vector<Group> g;
    for (int i = 0; i < p.n; ++i) {
        Group x;
        x.self = i;
        for (int b = 0; b < p.n; ++b)
            if (b != i && p.leq(i, b))
                x.bases.push_back(b);
        g.push_back(x);
    }
    return g;
}

inline std::vector<Group> cover_groups(const Poset& p) {
    std::vector<Group> g;
    for (int i = 0; i < p.n; ++i) {
        Group x;
        x.self = i;
        for (int b = 0; b < p.n; ++b)
            if ((p.covers(i) >> b) & 1)
                x.bases.push_back(b);
        g.push_back(x);
    }
    return g;
}

inline std::vector<Group> edge_groups(const Poset& p) {
    std::vector<Group> g;
    for (int i = 0; i < p.n; ++i) {
        for (int b = 0; b < p.n; ++b)
            if ((p.covers(i) >> b) & 1) {
                Group x;
                x.self = i;
                x.bases.push_back(b);
                g.push_back(x);
            }
    }
    return g;
}

template<
    class Tag, int N, int G, int S, bool UseOrd, class Vptr, bool Indirect>
struct ClassWorld {
    struct RBase {};
    using Policies = std::conditional_t<
        Indirect,
        bom::registry<
            dyn_rtti, Vptr, recording_handler, null_output,
            pol::runtime_checks, pol::indirect_vptr, marker<Tag>>,
        bom::registry<
            dyn_rtti, Vptr, recording_handler, null_output,
            pol::runtime_checks, marker<Tag>>>;
    struct R : Policies {};

    template<int G_>
    using GrpT = Grp<R, G_, std::make_integer_sequence<int, S>>;

    template<class I>
    struct ords;
    template<int... I>
    struct ords<std::integer_sequence<int, I...>> {
        using type = std::tuple<bom::use_classes<Ord<R, marker<std::integral_constant<int, I>>>, R>...>;
        static void set(const type_id* ids) {
            ((Ord<R, marker<std::integral_constant<int, I>>>::the_id = ids[I]), ...);
        }
    };
    template<class I>
    struct grps;
    template<int... I>
    struct grps<std::integer_sequence<int, I...>> {
        using type = std::tuple<typename GrpT<I>::use...>;
        static void set(int g, type_id self, const type_id* bases, int n) {
            (void)((g == I && (GrpT<I>::set(self, bases, n), true)) || ...);
        }
    };
    using Ords = ords<std::make_integer_sequence<int, UseOrd ? N : 0>>;
    using Grps = grps<std::make_integer_sequence<int, G>>;

    // Construct the registration objects (static storage, as documented).
    static void install_classes() {
        static typename Ords::type o;
        static typename Grps::type g;
        (void)&o;
        (void)&g;
    }

    static void set_classes(int n, const std::vector<Group>& groups) {
        if constexpr (UseOrd) {
            type_id ids[N];
            for (int i = 0; i < N; ++i)
                ids[i] = cls_id(i < n ? i : 0);
            Ords::set(ids);
        }
        if (int(groups.size()) > G)
            mc::fail("harness: too many groups");
        for (int g = 0; g < G; ++g) {
            type_id b[S + 1];
            if (g < int(groups.size())) {
                int k = 0;
                for (int x : groups[g].bases) {
                    if (k >= S)
                        mc::fail("harness: too many bases");
                    b[k++] = cls_id(x);
                }
                Grps::set(g, cls_id(groups[g].self), b, k);
            } else {
                Grps::set(g, cls_id(0), b, 0);
            }
        }
    }
};

} // namespace dyn

#endif
