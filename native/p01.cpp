// P01: foundation indexing and positions against plain nested loops.
#include "gen.hpp"
#include "system/Foundation.hpp"
using namespace cpb;
using gen::I3;

static void check_site(Site const& s, gen::Box const& b, int slot, I3 c, char const* what) {
    NCHECK(s.get_sub_idx() == slot, what, " sublattice ", s.get_sub_idx(), " expected ", slot);
    for (int d = 0; d < 3; ++d) NCHECK(s.get_spatial_idx()[d] == c[d], what, " cell[", d, "] ", s.get_spatial_idx()[d], " expected ", c[d]);
    NCHECK(s.get_flat_idx() == b.at(slot, c), what, " flat index ", s.get_flat_idx(), " expected ", b.at(slot, c));
    auto& sub = b.l->subs[b.ord[slot]];
    NCHECK(s.get_norb() == sub.norb(), what, " orbitals"); NCHECK(s.get_alias_id().value() == sub.alias_of, what, " alias ", s.get_alias_id().value());
    Cartesian p = s.get_position(), q = b.pos[b.at(slot, c)];
    NCHECK((p - q).norm() <= 1e-4f, what, " position ", p[0], ",", p[1], ",", p[2], " expected ", q[0], ",", q[1], ",", q[2]);
}

int main(int argc, char** argv) {
    return nat::run(argc, argv, [] {
        nat::section("foundation", 1500, [](nat::Rng& r, long) {
            auto l = gen::lattice(r);
            if (r.coin(1, 3)) l.offset = Cartesian(r.range(-3, 3) / 8.f * l.vec[0]);
            I3 n{{r.range(1, 5), l.ndim > 1 ? r.range(1, 4) : 1, l.ndim > 2 ? r.range(1, 4) : 1}};
            nat::note(l.str(), "; primitive ", n[0], "x", n[1], "x", n[2]);
            auto lat = l.build();
            Foundation f(lat, Primitive(n[0], n[1], n[2])); Foundation const& cf = f;
            I3 lo{{-(n[0] / 2), -(n[1] / 2), -(n[2] / 2)}};
            gen::Box b(l, lo, n);
            NCHECK(f.size() == b.size(), "size ", f.size(), " expected ", b.size());
            NCHECK(f.get_sub_size() == (idx_t)l.subs.size(), "sub size");
            for (int d = 0; d < 3; ++d) {
                NCHECK(f.get_spatial_size()[d] == n[d], "spatial size");
                NCHECK(f.get_bounds().first[d] == lo[d] && f.get_bounds().second[d] == lo[d] + n[d] - 1, "bounds[", d, "] ", f.get_bounds().first[d], "..", f.get_bounds().second[d]);
            }
            NCHECK(f.get_positions().size() == f.size() && f.get_states().size() == f.size(), "array lengths");
            for (idx_t i = 0; i < f.size(); ++i) NCHECK(f.get_states()[i], "all sites of a primitive are valid");
            std::vector<int> seen(b.size(), 0); idx_t k = 0;
            for (auto const& s : cf) {
                NCHECK(k < b.size(), "iteration runs past the end");
                check_site(s, b, (int)(k / (n[0] * n[1] * n[2])), b.cell_of((int)k), "iterated");
                NCHECK(s.get_flat_idx() == k, "iteration order"); ++seen[k]; ++k;
            }
            NCHECK(k == b.size(), "iteration visits ", k, " of ", b.size());
            // direct construction and shifting
            for (int t = 0; t < 6; ++t) {
                int s = r.range(0, (int)l.subs.size() - 1); I3 c{{r.range(0, n[0] - 1), r.range(0, n[1] - 1), r.range(0, n[2] - 1)}};
                I3 c2{{r.range(0, n[0] - 1), r.range(0, n[1] - 1), r.range(0, n[2] - 1)}};
                Site x(&f, Index3D(c[0], c[1], c[2]), s);
                check_site(x, b, s, c, "constructed");
                auto y = x.shifted(Index3D(c2[0] - c[0], c2[1] - c[1], c2[2] - c[2]));
                check_site(y, b, s, c2, "shifted");
                NCHECK((x == y) == (c == c2) && (x != y) == !(c == c2), "site comparison");
                bool st = r.coin(); y.set_valid(st); NCHECK(y.is_valid() == st && f.get_states()[b.at(s, c2)] == st, "set_valid"); y.set_valid(true);
            }
            // neighbours
            for (auto const& s : cf) {
                std::multiset<std::tuple<int, int, bool>> got, ref;
                int u = b.ord[s.get_sub_idx()]; I3 c = b.cell_of((int)s.get_flat_idx());
                s.for_each_neighbor([&](Site q, Hopping h) {
                    check_site(q, b, (int)q.get_sub_idx(), b.cell_of((int)q.get_flat_idx()), "neighbour");
                    got.insert(std::make_tuple((int)q.get_flat_idx(), (int)h.family_id.value(), (bool)h.is_conjugate));
                });
                for (auto& t : l.terms) for (int dir : {0, 1}) if ((dir ? t.to : t.from) == u) {
                    I3 q; for (int d = 0; d < 3; ++d) q[d] = c[d] + (dir ? -t.rel[d] : t.rel[d]);
                    if (b.inside(q)) ref.insert(std::make_tuple(b.at(b.slot(dir ? t.from : t.to), q), t.fam, dir == 1)); else nat::cover("neighbour_outside");
                }
                NCHECK(got == ref, "neighbours of site ", s.get_flat_idx(), ": ", got.size(), " expected ", ref.size());
            }
            // spatial slices
            for (int t = 0; t < 6; ++t) {
                SliceIndex3D si; I3 a, e;
                for (int d = 0; d < 3; ++d) {
                    int mode = r.range(0, 3);
                    if (mode == 0) { a[d] = 0; e[d] = n[d]; si[d] = SliceIndex(); }
                    else if (mode == 1) { a[d] = r.range(0, n[d] - 1); e[d] = a[d] + 1; si[d] = a[d]; }
                    else if (mode == 2) { a[d] = r.range(0, n[d] - 1); e[d] = n[d]; si[d] = {a[d], -1}; }
                    else { a[d] = r.range(0, n[d]); e[d] = r.range(0, n[d]); si[d] = {a[d], e[d]}; if (e[d] < a[d]) nat::cover("empty_slice"); }
                }
                idx_t want = (idx_t)l.subs.size(); for (int d = 0; d < 3; ++d) want *= std::max(0, e[d] - a[d]);
                auto sl = cf[si];
                NCHECK(sl.size() == want, "slice size ", sl.size(), " expected ", want);
                idx_t m = 0; std::vector<Cartesian> pos;
                if (want > 0) for (int s = 0; s < (int)l.subs.size(); ++s) for (int z = a[2]; z < e[2]; ++z) for (int y = a[1]; y < e[1]; ++y) for (int x = a[0]; x < e[0]; ++x)
                    pos.push_back(b.pos[b.at(s, {{x, y, z}})]);
                idx_t per = want / (idx_t)l.subs.size();
                for (auto const& s : sl) {
                    NCHECK(m < want, "slice runs past its end");
                    int sx = std::max(1, e[0] - a[0]), sy = std::max(1, e[1] - a[1]); int q = (int)(m % per);
                    check_site(s, b, (int)(m / per), I3{{a[0] + q % sx, a[1] + q / sx % sy, a[2] + q / sx / sy}}, "slice");
                    NCHECK(s.get_slice_idx() == m, "slice index"); ++m;
                }
                NCHECK(m == want, "slice visits ", m, " of ", want);
                auto const sp = sl.positions();
                NCHECK(sp.size() == want, "slice positions");
                for (idx_t i = 0; i < want; ++i) NCHECK((sp[i] - pos[i]).norm() <= 1e-4f, "slice position ", i);
            }
            // sublattice slices
            for (int u = 0; u < (int)l.subs.size(); ++u) {
                auto ss = f[SubID{(idx_t)u}]; int slot = b.slot(u); idx_t blk = n[0] * n[1] * n[2];
                NCHECK(ss.size() == blk, "sublattice slice size"); idx_t m = 0;
                for (auto& s : ss) { NCHECK(m < blk && s.get_flat_idx() == slot * blk + m, "sublattice slice index ", s.get_flat_idx()); ++m; }
                NCHECK(m == blk, "sublattice slice count ", m);
                auto ps = ss.get_positions(); auto st = ss.get_states();
                NCHECK(ps.size() == blk && st.size() == blk, "sublattice slice arrays");
                for (idx_t i = 0; i < blk; ++i) { auto q = b.pos[slot * blk + i]; NCHECK((Cartesian(ps.x()[i], ps.y()[i], ps.z()[i]) - q).norm() <= 1e-4f, "sublattice slice position"); }
                int w = r.range(0, (int)blk - 1); st[w] = false; NCHECK(!f.get_states()[slot * blk + w], "sublattice slice state");
                idx_t inv = 0; for (idx_t i = 0; i < f.size(); ++i) if (!f.get_states()[i]) ++inv; NCHECK(inv == 1, "only one state changed"); st[w] = true;
            }
            NCHECK(nat::throws([&] { f[SubID{(idx_t)l.subs.size()}]; }), "unknown sublattice slice must be rejected");
        });
        // a system carved by a shape: the box holds every cell whose sites the shape can contain
        nat::section("shaped", 400, [](nat::Rng& r, long) {
            auto l = gen::lattice(r); l.min_neighbors = 0;
            auto lat = l.build();
            Cartesian w(r.range(2, 5), l.ndim > 1 ? r.range(2, 5) : 0, l.ndim > 2 ? r.range(2, 4) : 0), c(r.range(-3, 3), l.ndim > 1 ? r.range(-3, 3) : 0, 0);
            uint64_t seed = r.u64(); nat::note(l.str(), "; box ", w[0], "x", w[1], "x", w[2], " at ", c[0], ",", c[1]);
            FreeformShape sh([=](CartesianArrayConstRef p) { ArrayX<bool> k(p.size()); for (int i = 0; i < k.size(); ++i) k[i] = gen::mark(Cartesian(p.x()[i], p.y()[i], p.z()[i]), seed, 2, 3); return k; }, w, c);
            Foundation f(lat, sh);
            auto bd = f.get_bounds(); I3 lo{{bd.first[0], bd.first[1], bd.first[2]}}, n;
            for (int d = 0; d < 3; ++d) { n[d] = bd.second[d] - lo[d] + 1; NCHECK(f.get_spatial_size()[d] == n[d], "size vs bounds"); if (d >= l.ndim) NCHECK(lo[d] == 0 && n[d] == 1, "unused dimension"); }
            gen::Box b(l, lo, n);
            NCHECK(f.size() == b.size(), "size"); idx_t k = 0;
            for (auto const& s : f) { check_site(s, b, (int)(k / (n[0] * n[1] * n[2])), b.cell_of((int)k), "iterated"); ++k; }
            NCHECK(k == b.size(), "count");
            for (int i = 0; i < b.size(); ++i) NCHECK(f.get_states()[i] == gen::mark(b.pos[i], seed, 2, 3), "state of site ", i, " disagrees with the shape");
        });
    });
}
