// P02 and P04: finished systems against an independent enumeration of sites and bonds.
#include "gen.hpp"
#include "system/Foundation.hpp"
using namespace cpb;
using gen::I3;
// The same cases decide both properties; each looks only at what it is about.
#ifdef P04
#  define SAME_SYSTEM(s, ref) gen::same_bond_sets(s, ref)
#else
#  define SAME_SYSTEM(s, ref) gen::same_sites(s, ref)
#endif

int main(int argc, char** argv) {
    return nat::run(argc, argv, [] {
        nat::section("populate", 2500, [](nat::Rng& r, long) {
            auto l = gen::lattice(r);
            I3 n{{r.range(1, 6), l.ndim > 1 ? r.range(1, 5) : 1, l.ndim > 2 ? r.range(1, 3) : 1}};
            auto lat = l.build();
            Foundation f(lat, Primitive(n[0], n[1], n[2]));
            gen::Box b(l, {{-(n[0] / 2), -(n[1] / 2), -(n[2] / 2)}}, n);
            int den = r.range(2, 9); bool all = r.coin(1, 6);
            for (int i = 0; i < b.size(); ++i) { b.valid[i] = all || r.coin(den - 1, den); f.get_states()[i] = b.valid[i]; }
            nat::note(l.str(), "; box ", n[0], "x", n[1], "x", n[2], " mask ", b.mask());
            auto ref = gen::make(b);
#ifndef P04
            auto const& fi = f.get_finalized_indices();
            NCHECK(fi.size() == (idx_t)ref.pos.size(), "number of valid sites ", fi.size(), " expected ", ref.pos.size());
            int k = 0;
            for (auto const& s : f) { int want = b.valid[s.get_flat_idx()] ? k++ : -1; NCHECK(fi[s] == want, "final index of ", s.get_flat_idx(), " = ", fi[s], " expected ", want); }
            auto const& hc = fi.max_hoppings_per_family();
            NCHECK(hc.size() == (idx_t)l.fams.size(), "hopping counts"); std::vector<int> used(l.fams.size(), 0);
            for (auto& x : ref.bonds) ++used[x.fam];
            for (auto i = 0u; i < used.size(); ++i) NCHECK(hc[i] >= used[i], "reserved ", hc[i], " of family ", i, " needs ", used[i]);
#endif
            if (ref.pos.empty()) { nat::cover("empty"); return; }
            System s(lat.site_registry(), lat.hopping_registry());
            cpb::detail::populate_system(s, f);
            SAME_SYSTEM(s, ref);
            if (ref.pos.size() < b.pos.size()) nat::cover("carved");
            // removing sites from the finished system
            int rounds = r.range(0, 2);
            for (int q = 0; q < rounds; ++q) {
                s.is_valid = ArrayX<bool>::Constant(s.num_sites(), true); std::vector<int> ni(ref.pos.size(), -1); gen::Sys t = ref; t.pos.clear(); t.sub.clear(); t.norb.clear(); t.bonds.clear();
                bool keepall = r.coin(1, 6);
                for (auto i = 0u; i < ref.pos.size(); ++i) { bool keep = keepall || r.coin(3, 4); s.is_valid[i] = keep; if (keep) { ni[i] = (int)t.pos.size(); t.pos.push_back(ref.pos[i]); t.sub.push_back(ref.sub[i]); t.norb.push_back(ref.norb[i]); } }
                for (auto& x : ref.bonds) if (ni[x.from] >= 0 && ni[x.to] >= 0) t.bonds.push_back({x.fam, ni[x.from], ni[x.to]});
                cpb::detail::remove_invalid(s);
                NCHECK(s.is_valid.size() == 0, "mask is consumed");
                ref = t; SAME_SYSTEM(s, ref); nat::cover("remove_invalid");
                if (ref.pos.empty()) return;
            }
            cpb::detail::remove_invalid(s); SAME_SYSTEM(s, ref);
        });
        nat::section("periodic", 3000, [](nat::Rng& r, long) {
            gen::Opt o; o.max_rel = 1;
            auto l = gen::lattice(r, o);
            auto lat = l.build();
            I3 n{{r.range(1, 6), l.ndim > 1 ? r.range(1, 5) : 1, l.ndim > 2 ? r.range(1, 4) : 1}}, lo{{0, 0, 0}}, hi{{n[0] - 1, n[1] - 1, n[2] - 1}}, per{{0, 0, 0}};
            float len[3] = {-1, -1, -1};
            for (int d = 0; d < l.ndim; ++d) if (r.coin(2, 3)) {
                per[d] = r.range(1, n[d]); len[d] = per[d] == 1 && r.coin() ? 0.f : per[d] * l.vec[d].norm() * (1 + r.range(-8, 8) / 64.f / per[d]);
                lo[d] = (n[d] - per[d]) / 2; hi[d] = lo[d] + per[d] - 1;
            }
            TranslationalSymmetry sym(len[0], len[1], len[2]);
            Foundation f(lat, Primitive(n[0], n[1], n[2]));
            gen::Box b(l, {{-(n[0] / 2), -(n[1] / 2), -(n[2] / 2)}}, n);
            int den = r.range(2, 9); bool all = r.coin(1, 2);
            for (int i = 0; i < b.size(); ++i) { b.valid[i] = all || r.coin(den - 1, den); f.get_states()[i] = b.valid[i]; }
            nat::note(l.str(), "; box ", n[0], "x", n[1], "x", n[2], " period ", per[0], ",", per[1], ",", per[2], " mask ", b.mask());
#ifdef P04
            auto area = sym.area(f);
            for (int d = 0; d < 3; ++d) NCHECK(area.left[d] == lo[d] && area.right[d] == hi[d] && area.middle[d] == per[d], "area[", d, "] ", area.left[d], "..", area.right[d], " width ", area.middle[d], " expected ", lo[d], "..", hi[d]);
#endif
            sym.apply(f);
            for (int i = 0; i < b.size(); ++i) { auto c = b.cell_of(i); for (int d = 0; d < 3; ++d) if (c[d] < lo[d] || c[d] > hi[d]) b.valid[i] = 0; }
#ifdef P04
            for (int i = 0; i < b.size(); ++i) NCHECK((bool)f.get_states()[i] == (bool)b.valid[i], "site ", i, " valid ", f.get_states()[i]);
#else
            for (int i = 0; i < b.size(); ++i) b.valid[i] = f.get_states()[i];
#endif
            auto ref = gen::make(b);
            if (ref.pos.empty()) return;
            gen::add_periodic(ref, b, lo, hi, per);
            System s(lat.site_registry(), lat.hopping_registry());
            cpb::detail::populate_system(s, f);
            if (sym) cpb::detail::populate_boundaries(s, f, sym);
            SAME_SYSTEM(s, ref);
            if (!ref.per.empty()) nat::cover("boundary"); if (ref.per.size() > 2) nat::cover("several_boundaries");
            for (auto& p : ref.per) if (std::abs(p.dir[0]) + std::abs(p.dir[1]) + std::abs(p.dir[2]) > 1) nat::cover("corner_boundary");
            for (auto& p : ref.per) for (auto& x : p.bonds) if (x.from == x.to) nat::cover("self_image");
        });
        nat::section("model", 500, [](nat::Rng& r, long) {
            gen::Opt o; o.max_rel = 1; auto l = gen::lattice(r, o); l.min_neighbors = 0;
            auto lat = l.build(); uint64_t seed = r.u64(), seed2 = r.u64();
            Cartesian w(r.range(2, 6), l.ndim > 1 ? r.range(2, 5) : 0, l.ndim > 2 ? r.range(1, 3) : 0);
            nat::note(l.str(), "; shape ", w[0], "x", w[1], "x", w[2]);
            FreeformShape sh([=](CartesianArrayConstRef p) { ArrayX<bool> k(p.size()); for (int i = 0; i < k.size(); ++i) k[i] = gen::mark(Cartesian(p.x()[i], p.y()[i], p.z()[i]), seed, 6, 7); return k; }, w);
            Model m(lat); m.add(sh);
            I3 lo, n; { Foundation f(lat, sh); auto bd = f.get_bounds(); for (int d = 0; d < 3; ++d) { lo[d] = bd.first[d]; n[d] = bd.second[d] - lo[d] + 1; } }
            gen::Box b(l, lo, n);
            for (int i = 0; i < b.size(); ++i) b.valid[i] = gen::mark(b.pos[i], seed, 6, 7);
            b.remove_dangling(l.min_neighbors);
            I3 alo{{0, 0, 0}}, ahi{{n[0] - 1, n[1] - 1, n[2] - 1}}, per{{0, 0, 0}}; bool sy = r.coin();
            if (sy) { int p = r.range(1, n[0]); per[0] = p; alo[0] = (n[0] - p) / 2; ahi[0] = alo[0] + p - 1; m.add(TranslationalSymmetry(p * l.vec[0].norm()));
                for (int i = 0; i < b.size(); ++i) { auto c = b.cell_of(i); if (c[0] < alo[0] || c[0] > ahi[0]) b.valid[i] = 0; } }
            if (r.coin()) {
                m.add(SiteStateModifier([=](Eigen::Ref<ArrayX<bool>> st, CartesianArrayConstRef p, string_view) { for (int i = 0; i < st.size(); ++i) if (!gen::mark(Cartesian(p.x()[i], p.y()[i], p.z()[i]), seed2, 5, 6)) st[i] = false; }));
                for (int i = 0; i < b.size(); ++i) if (!gen::mark(b.pos[i], seed2, 5, 6)) b.valid[i] = 0;
            }
            auto ref = gen::make(b);
            if (sy) gen::add_periodic(ref, b, alo, ahi, per);
            if (ref.pos.empty()) { nat::cover("rejected_empty"); NCHECK(nat::throws([&] { m.system(); }), "an empty system must be rejected"); return; }
            SAME_SYSTEM(*m.system(), ref);
        });
    });
}
