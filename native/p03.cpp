// P03: cascading removal of under-connected sites against a naive fixpoint.
#include "gen.hpp"
#include "system/Foundation.hpp"
using namespace cpb;
using gen::I3;

static void counts_agree(Foundation const& f, gen::Box const& b) {
    auto cn = cpb::detail::count_neighbors(f);
    NCHECK(cn.size() == f.size(), "count array length");
    for (int i = 0; i < b.size(); ++i) NCHECK(cn[i] == (int)b.neighbors(i).size(), "neighbours of ", i, " counted ", cn[i], " actual ", b.neighbors(i).size());
}
static void compare(Foundation const& f, gen::Box const& b, std::string const& before) {
    for (int i = 0; i < b.size(); ++i) NCHECK((bool)f.get_states()[i] == (bool)b.valid[i], "site ", i, " valid ", f.get_states()[i], " expected ", (int)b.valid[i], " mask before ", before, " expected ", b.mask());
}

int main(int argc, char** argv) {
    return nat::run(argc, argv, [] {
        nat::section("mask", 4000, [](nat::Rng& r, long) {
            gen::Opt o; o.max_orb = 2;
            auto l = gen::lattice(r, o);
            I3 n{{r.range(1, 6), l.ndim > 1 ? r.range(1, 5) : 1, l.ndim > 2 ? r.range(1, 3) : 1}};
            int min = r.range(0, 4), den = r.range(2, 9);
            auto lat = l.build();
            Foundation f(lat, Primitive(n[0], n[1], n[2]));
            gen::Box b(l, {{-(n[0] / 2), -(n[1] / 2), -(n[2] / 2)}}, n);
            counts_agree(f, b);
            for (int i = 0; i < b.size(); ++i) { b.valid[i] = r.coin(den - 1, den); f.get_states()[i] = b.valid[i]; }
            auto before = b.mask();
            nat::note(l.str(), "; box ", n[0], "x", n[1], "x", n[2], " min ", min, " mask ", before);
            b.remove_dangling(min);
            remove_dangling(f, min);
            compare(f, b, before);
            if (b.mask() != before) nat::cover("removed");
            int direct = 0; for (int i = 0; i < b.size(); ++i) if (before[i] == '1' && !b.valid[i]) ++direct;
            if (direct > 2) nat::cover("cascade");
            // a second modifier on the same foundation
            if (r.coin()) {
                for (int i = 0; i < b.size(); ++i) if (r.coin(1, 8)) { b.valid[i] = 0; f.get_states()[i] = false; }
                auto again = b.mask(); int m2 = r.range(0, 4);
                b.remove_dangling(m2); remove_dangling(f, m2); compare(f, b, again); nat::cover("second");
            }
        });
        // through the public entry points: shape carving and a site-state modifier with min_neighbors
        nat::section("model", 800, [](nat::Rng& r, long) {
            gen::Opt o; o.max_orb = 1; o.max_sub = 3;
            auto l = gen::lattice(r, o); l.min_neighbors = r.range(0, 3);
            auto lat = l.build();
            uint64_t seed = r.u64(), seed2 = r.u64(); int m2 = r.range(0, 3);
            Cartesian w(r.range(2, 6), l.ndim > 1 ? r.range(2, 5) : 0, l.ndim > 2 ? r.range(1, 3) : 0);
            nat::note(l.str(), "; shape ", w[0], "x", w[1], "x", w[2], " then min ", m2);
            auto pick = [](CartesianArrayConstRef p, uint64_t s) { ArrayX<bool> k(p.size()); for (int i = 0; i < k.size(); ++i) k[i] = gen::mark(Cartesian(p.x()[i], p.y()[i], p.z()[i]), s, 6, 7); return k; };
            FreeformShape sh([=](CartesianArrayConstRef p) { return pick(p, seed); }, w);
            Foundation f(lat, sh);
            auto bd = f.get_bounds(); I3 lo{{bd.first[0], bd.first[1], bd.first[2]}}, n;
            for (int d = 0; d < 3; ++d) n[d] = bd.second[d] - lo[d] + 1;
            gen::Box b(l, lo, n);
            for (int i = 0; i < b.size(); ++i) b.valid[i] = gen::mark(b.pos[i], seed, 6, 7);
            auto before = b.mask(); b.remove_dangling(l.min_neighbors);
            compare(f, b, before);
            SiteStateModifier m([=](Eigen::Ref<ArrayX<bool>> st, CartesianArrayConstRef p, string_view) {
                auto k = pick(p, seed2); for (int i = 0; i < k.size(); ++i) if (!k[i]) st[i] = false; }, m2);
            apply(m, f);
            for (int i = 0; i < b.size(); ++i) if (!gen::mark(b.pos[i], seed2, 6, 7)) b.valid[i] = 0;
            before = b.mask(); if (m2 > 0) b.remove_dangling(m2);
            compare(f, b, before);
        });
    });
}
