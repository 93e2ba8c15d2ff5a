// P14: leads against an independent construction of the attachment area, the lead cell and its matrices.
#include "gen.hpp"
#include <Eigen/LU>
#include "system/Foundation.hpp"
using namespace cpb;
using gen::I3; using gen::Z; using gen::MatZ;

struct Ld { int axis, sign; double t0, t1; Cartesian width, center; std::vector<int> range_lo, range_hi; };

/// coordinates in units of the lattice vectors
static std::array<double, 3> frac(gen::Lat const& l, Cartesian p) {
    Eigen::MatrixXd m(l.ndim, l.ndim); Eigen::VectorXd v(l.ndim);
    for (int i = 0; i < l.ndim; ++i) { v[i] = p[i]; for (int j = 0; j < l.ndim; ++j) m(j, i) = l.vec[i][j]; }
    Eigen::VectorXd x = m.fullPivLu().solve(v);
    return {{x[0], x[1], l.ndim > 2 ? x[2] : 0.0}};
}

struct Cross { int axis, at; std::vector<int> sites; bool hit; };   // sites: slots and transverse cells, as flat indices at cell `at`

/// where the lead meets the box: the first layer on its way with any site, and the sites of its cross-section there
static Cross junction(gen::Box const& b, Ld const& d) {
    Cross x{d.axis, 0, {}, false}; int n = b.n[d.axis];
    for (int k = 0; k < n && !x.hit; ++k) {
        x.at = d.sign > 0 ? n - 1 - k : k;
        for (int i = 0; i < b.size(); ++i) if (b.valid[i]) {
            I3 c = b.cell_of(i); bool in = c[d.axis] == x.at;
            for (int e = 0; e < 3; ++e) if (e != d.axis && (c[e] < d.range_lo[e] || c[e] >= d.range_hi[e])) in = false;
            if (in) x.hit = true;
        }
    }
    if (!x.hit) return x;
    int tr = d.axis == 0 ? 1 : 0;
    for (int i = 0; i < b.size(); ++i) {
        I3 c = b.cell_of(i); bool in = c[d.axis] == x.at;
        for (int e = 0; e < 3; ++e) if (e != d.axis && (c[e] < d.range_lo[e] || c[e] >= d.range_hi[e])) in = false;
        if (!in) continue;
        double t = frac(*b.l, b.pos[i])[tr];
        if (t > d.t0 && t < d.t1) x.sites.push_back(i);
    }
    return x;
}

int main(int argc, char** argv) {
    return nat::run(argc, argv, [] {
        nat::section("leads", 3000, [](nat::Rng& r, long) {
            gen::Opt o; o.min_dim = 2; o.max_dim = 3; o.max_rel = 1; o.max_sub = 3; o.max_orb = 2;
            auto l = gen::lattice(r, o); l.min_neighbors = 0; auto lat = l.build(); uint64_t seed = r.u64();
            I3 n{{r.range(2, 6), r.range(2, 5), l.ndim > 2 ? r.range(1, 3) : 1}};
            gen::Box b(l, {{-(n[0] / 2), -(n[1] / 2), -(n[2] / 2)}}, n);
            Model m(lat); m.add(Primitive(n[0], n[1], n[2]));
            int num = r.range(3, 9); bool mask = r.coin(2, 3);
            if (mask) {
                for (int i = 0; i < b.size(); ++i) if (!gen::mark(b.pos[i], seed, num, 9)) b.valid[i] = 0;
                m.add(SiteStateModifier([=](Eigen::Ref<ArrayX<bool>> st, CartesianArrayConstRef p, string_view) { for (int i = 0; i < st.size(); ++i) if (!gen::mark(Cartesian(p.x()[i], p.y()[i], p.z()[i]), seed, num, 9)) st[i] = false; }));
            }
            std::vector<Ld> leads; std::string log;
            for (int k = r.coin() ? 2 : 1; k > 0; --k) {
                Ld d; d.axis = r.range(0, l.ndim - 1); d.sign = r.coin() ? 1 : -1; if (!leads.empty() && r.coin(2, 3)) { d.axis = leads[0].axis; d.sign = leads[0].sign; }
                int tr = d.axis == 0 ? 1 : 0;
                // a band along the lead; its bounding box overlaps the system
                double lo = -(n[tr] / 2) - 1 + r.range(0, 4 * n[tr]) / 4.0 + 0.0313, hi = lo + r.range(1, 10) / 4.0 + 0.011; d.t0 = lo; d.t1 = hi;
                d.width = Cartesian(r.range(2, 20) / 4.f + .03f, r.range(2, 20) / 4.f + .03f, r.range(0, 8) / 4.f + .03f);
                d.center = Cartesian(r.range(-6, 6) / 4.f + .017f, r.range(-6, 6) / 4.f + .017f, l.ndim > 2 ? r.range(-2, 2) / 4.f + .017f : 0.f);
                if (r.coin(1, 4)) { Cartesian away = (r.coin() ? 1.f : -1.f) * r.range(1, 12) * l.vec[d.axis]; d.center += away; }
                d.range_lo = {0, 0, 0}; d.range_hi = {n[0], n[1], n[2]}; bool ok = true;
                for (int e = 0; e < l.ndim; ++e) {
                    int mn = 1 << 20, mx = -(1 << 20);
                    for (int q = 0; q < 8; ++q) {
                        Cartesian p = d.center; for (int f = 0; f < 3; ++f) p[f] += (q >> f & 1 ? .5f : -.5f) * d.width[f];
                        double c = frac(l, p)[e]; if (std::abs(c - std::round(c)) < 1e-3) ok = false;
                        mn = std::min(mn, (int)c); mx = std::max(mx, (int)c);
                    }
                    d.range_lo[e] = std::max(mn - 1 - b.lo[e], 0); d.range_hi[e] = std::min(mx + 2 - b.lo[e], n[e]);
                    if (e != d.axis && d.range_lo[e] >= d.range_hi[e]) ok = false;    // beside the system: not claimed
                }
                if (!ok) continue;
                leads.push_back(d); log += nat::str("; lead ", d.sign * (d.axis + 1), " band ", d.t0, "..", d.t1, " box ", d.width[0], ",", d.width[1], ",", d.width[2], " at ", d.center[0], ",", d.center[1], ",", d.center[2]);
            }
            nat::note(l.str(), "; box ", n[0], "x", n[1], "x", n[2], " mask ", b.mask(), log);
            if (leads.empty()) return;
            for (auto& d : leads) {
                int tr = d.axis == 0 ? 1 : 0; auto lc = l; double t0 = d.t0, t1 = d.t1;
                m.attach_lead(d.sign * (d.axis + 1), FreeformShape([=](CartesianArrayConstRef p) { ArrayX<bool> a(p.size()); for (int i = 0; i < a.size(); ++i) { double t = frac(lc, Cartesian(p.x()[i], p.y()[i], p.z()[i]))[tr]; a[i] = t > t0 && t < t1; } return a; }, d.width, d.center));
            }
            // the attachment area, lead by lead
            auto before = b.valid; bool fails = false;
            for (bool again = true; again && !fails;) { auto was = b.valid;
            for (auto& d : leads) {
                auto x = junction(b, d); if (!x.hit || x.sites.empty()) { fails = true; break; }
                bool all = true;
                for (int i : x.sites) {
                    I3 c = b.cell_of(i); int s = i / (n[0] * n[1] * n[2]); bool met = false;
                    for (; c[d.axis] >= 0 && c[d.axis] < n[d.axis] && !met; c[d.axis] -= d.sign) { if (b.valid[b.at(s, c)]) met = true; }
                    all &= met;
                }
                if (!all) { fails = true; break; }
                for (int i : x.sites) {
                    I3 c = b.cell_of(i); int s = i / (n[0] * n[1] * n[2]);
                    for (; !b.valid[b.at(s, c)]; c[d.axis] -= d.sign) { b.valid[b.at(s, c)] = 1; nat::cover("padded"); }
                }
            }
            again = was != b.valid; if (again && was != before) nat::cover("displaced"); }
            if (fails) { NCHECK(nat::throws([&] { m.system(); }), "a lead which misses the system was attached"); nat::cover("misses"); return; }
            std::vector<Cross> cross; for (auto& d : leads) { cross.push_back(junction(b, d)); for (int i : cross.back().sites) NCHECK(b.valid[i], "oracle"); }
            auto ref = gen::make(b); auto st = ref.start();
            auto sys = m.system(); gen::same_sites(*sys, ref); gen::same_bond_sets(*sys, ref);
            std::vector<int> idx(b.size(), -1); { int k = 0; for (int i = 0; i < b.size(); ++i) if (b.valid[i]) idx[i] = k++; }
            NCHECK(m.leads().size() == (int)leads.size(), "number of leads");
            for (auto q = 0u; q < leads.size(); ++q) {
                auto& d = leads[q]; auto& x = cross[q]; auto lead = m.lead(q); auto& s = lead.system();
                NCHECK(lead.spec().axis == d.axis && lead.spec().sign == d.sign, "direction of lead ", q, ": ", lead.spec().axis, " ", lead.spec().sign);
                NCHECK(lead.indices().size() == x.sites.size(), "lead ", q, " has ", lead.indices().size(), " sites, expected ", x.sites.size());
                std::map<int, int> slot; Cartesian shift = d.sign * l.vec[d.axis];
                for (auto i = 0u; i < x.sites.size(); ++i) {
                    NCHECK(lead.indices()[i] == idx[x.sites[i]], "lead ", q, " site ", i, " is attached to ", lead.indices()[i], " expected ", idx[x.sites[i]]);
                    slot[x.sites[i]] = (int)i;
                }
                gen::Sys u; u.onsite = ref.onsite; u.hop = ref.hop; u.site_name = ref.site_name; u.hop_name = ref.hop_name;
                for (int i : x.sites) { u.pos.push_back(Cartesian(b.pos[i] + shift)); u.sub.push_back(l.subs[b.sub_of(i)].alias_of); u.norb.push_back(l.subs[b.sub_of(i)].norb()); }
                auto us = u.start(); MatZ h1 = MatZ::Zero(us.back(), us.back()); std::vector<gen::Bond> fwd, bwd;
                for (int i : x.sites) for (auto& t : l.terms) {
                    I3 c = b.cell_of(i); int a = slot[i];
                    auto look = [&](int to, int sg, int off) { I3 e = c; for (int f = 0; f < 3; ++f) e[f] += sg * t.rel[f]; e[d.axis] += off; if (!b.inside(e)) return -1; auto it = slot.find(b.at(b.slot(to), e)); return it == slot.end() ? -1 : it->second; };
                    if (t.from == b.sub_of(i)) {
                        int j = look(t.to, 1, 0); if (j >= 0) u.bonds.push_back({t.fam, a, j});
                        j = look(t.to, 1, d.sign); if (j >= 0) { fwd.push_back({t.fam, a, j}); auto e = ref.hop[t.fam]; h1.block(us[a], us[j], e.rows(), e.cols()) += e; }
                    }
                    if (t.to == b.sub_of(i)) { int j = look(t.from, -1, d.sign); if (j >= 0) { bwd.push_back({t.fam, j, a}); MatrixXcd e = ref.hop[t.fam].adjoint(); h1.block(us[a], us[j], e.rows(), e.cols()) += e; } }
                }
                gen::same_sites(s, u); gen::same_bonds(s.hopping_blocks, u.bonds, "lead cell bonds");
                NCHECK(s.boundaries.size() == 2, "lead boundaries ", s.boundaries.size());
                NCHECK((s.boundaries[0].shift - shift).norm() < 1e-4f && (s.boundaries[1].shift + shift).norm() < 1e-4f, "lead period");
                gen::same_bonds(s.boundaries[0].hopping_blocks, fwd, "bonds to the previous lead cell");
                gen::same_bonds(s.boundaries[1].hopping_blocks, bwd, "bonds from the previous lead cell");
                auto h0 = gen::dense(lead.h0()); gen::same_matrix(h0, gen::dense(u), 1e-4, "lead unit cell"); gen::same_matrix(h0, h0.adjoint(), 1e-4, "lead cell hermiticity");
                gen::same_matrix(gen::dense(lead.h1()), h1, 1e-4, "lead hopping");
                nat::cover(d.sign > 0 ? "plus" : "minus"); if (!fwd.empty() || !bwd.empty()) nat::cover("connected");
            }
        });
        nat::section("directions", 40, [](nat::Rng& r, long) {
            gen::Opt o; o.max_rel = 1; auto l = gen::lattice(r, o); auto lat = l.build(); Model m(lat);
            int dir = r.range(-5, 5); bool bad = dir == 0 || l.ndim == 1 || std::abs(dir) > l.ndim;
            nat::note("dim ", l.ndim, " direction ", dir);
            NCHECK(nat::throws([&] { m.attach_lead(dir, Line({0, -1, 0}, {0, 1, 0})); }) == bad, "direction ", dir, " of a ", l.ndim, "D lattice");
        });
    });
}
