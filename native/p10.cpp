// P10: chains of structure modifiers against a step-by-step reference.
#include "gen.hpp"
#include "system/Foundation.hpp"
using namespace cpb;
using gen::I3; using gen::Z; using gen::MatZ;

static std::string key(Cartesian p) { return nat::str((long)std::lround(p[0] * 1024), ",", (long)std::lround(p[1] * 1024), ",", (long)std::lround(p[2] * 1024)); }

struct Step { int kind; uint64_t seed; int a, b; double e; std::string name; };  // 0 state 1 position 2 sites 3 bonds

int main(int argc, char** argv) {
    return nat::run(argc, argv, [] {
        nat::section("chain", 2500, [](nat::Rng& r, long) {
            gen::Opt o; o.max_rel = 1; o.max_dim = 2; o.max_sub = 3; o.max_orb = 2; auto l = gen::lattice(r, o); l.min_neighbors = 0;
            auto lat = l.build();
            I3 n{{r.range(1, 4), l.ndim > 1 ? r.range(1, 3) : 1, 1}}, alo{{0, 0, 0}}, ahi{{n[0] - 1, n[1] - 1, 0}}, per{{0, 0, 0}};
            gen::Box b(l, {{-(n[0] / 2), -(n[1] / 2), 0}}, n);
            Model m(lat); m.add(Primitive(n[0], n[1], 1));
            bool sym = r.coin(1, 3); if (sym) { per[0] = n[0]; m.add(TranslationalSymmetry(n[0] * l.vec[0].norm())); }
            std::vector<Step> st; std::string log; bool gen_seen = false; int cnt = 0;
            bool plain = !l.multi() || r.coin(); // generated sites without new orbital counts
            for (int q = r.range(1, 6); q > 0; --q) {
                Step s; s.kind = r.range(0, 3); s.seed = r.u64(); s.a = r.range(0, 3); s.b = 0; s.e = r.range(1, 6) / 4.0;
                if (s.kind == 0) { s.a = r.range(2, 6); s.b = !gen_seen && r.coin(1, 3) ? r.range(1, 3) : 0; log += nat::str(" state(1/", s.a, ",min ", s.b, ")"); }
                if (s.kind == 1) log += nat::str(" position(", s.a, ")");
                if (s.kind == 2) { s.b = plain ? l.subs[r.range(0, (int)l.subs.size() - 1)].norb() : r.range(1, 3); if (plain) { int mx = 0; for (auto& x : l.subs) mx = std::max(mx, x.norb()); s.b = mx; } s.name = nat::str("gen", cnt++); gen_seen = true; log += nat::str(" sites(", s.a, ",norb ", s.b, ")"); }
                if (s.kind == 3) { s.name = nat::str("hop", cnt++); gen_seen = true; log += nat::str(" bonds(", s.a, ")"); }
                st.push_back(s);
            }
            nat::note(l.str(), "; box ", n[0], "x", n[1], sym ? " periodic" : "", " |", log);
            // ---- reference, foundation stage
            auto gpos = [](Cartesian p, int a) { return Cartesian(p[0] + a * .25f, p[1] * 2, p[2] - p[0] * a); };
            std::vector<std::string> shown, expect; // (step, sublattice, site, state) seen by the modifiers
            size_t q = 0;
            for (; q < st.size() && st[q].kind < 2; ++q) {
                auto& s = st[q];
                for (int i = 0; i < b.size(); ++i) {
                    auto const& name = l.subs[b.sub_of(i)].name;
                    expect.push_back(nat::str(q, name, "@", key(b.pos[i]), s.kind ? "" : b.valid[i] ? "+" : "-"));
                    if (s.kind == 0) { if (!gen::mark(b.pos[i], s.seed, s.a - 1, s.a)) b.valid[i] = !b.valid[i] && i % 2 == 0 ? 1 : 0; }
                    else b.pos[i] = gpos(b.pos[i], s.a);
                }
                if (s.kind == 0 && s.b > 0) b.remove_dangling(s.b);
            }
            // a state modifier may also bring a site back: only before neighbours were counted
            auto ref = gen::make(b); if (sym) gen::add_periodic(ref, b, alo, ahi, per);
            auto valid = std::vector<char>(ref.pos.size(), 1);
            auto compact = [&] {
                std::vector<int> idx; int k = 0; gen::Sys t = ref; t.pos.clear(); t.sub.clear(); t.norb.clear(); t.bonds.clear();
                for (auto i = 0u; i < valid.size(); ++i) { idx.push_back(valid[i] ? k++ : -1); if (valid[i]) { t.pos.push_back(ref.pos[i]); t.sub.push_back(ref.sub[i]); t.norb.push_back(ref.norb[i]); } }
                auto go = [&](std::vector<gen::Bond> const& v) { std::vector<gen::Bond> w; for (auto& x : v) if (idx[x.from] >= 0 && idx[x.to] >= 0) w.push_back({x.fam, idx[x.from], idx[x.to]}); return w; };
                t.bonds = go(ref.bonds); for (auto i = 0u; i < ref.per.size(); ++i) t.per[i].bonds = go(ref.per[i].bonds);
                ref = t; valid.assign(k, 1);
            };
            std::vector<gen::Sys> seen_by; bool fails = false, mism = false; std::vector<std::vector<Cartesian>> new_sites; std::vector<std::vector<std::pair<int, int>>> new_bonds; std::vector<MatrixXcd> new_energy;
            auto names = [&](int sub) { return ref.site_name[sub]; };
            // site family ids: aliases leave no gap here (they are defined last)
            for (; q < st.size(); ++q) {
                auto& s = st[q];
                new_sites.resize(q + 1); new_bonds.resize(q + 1); new_energy.resize(q + 1); seen_by.resize(q + 1);
                if (s.kind <= 1) for (auto i = 0u; i < ref.pos.size(); ++i) {
                    expect.push_back(nat::str(q, names(ref.sub[i]), "@", key(ref.pos[i]), s.kind ? "" : valid[i] ? "+" : "-"));
                    if (s.kind == 0) { if (!gen::mark(ref.pos[i], s.seed, s.a - 1, s.a)) valid[i] = 0; } else ref.pos[i] = gpos(ref.pos[i], s.a);
                }
                if (s.kind == 0 && s.b > 0) { fails = true; break; }
                if (s.kind == 2) {
                    compact(); seen_by[q] = ref;
                    MatrixXcd e = MatrixXcd::Zero(s.b, s.b); for (int i = 0; i < s.b; ++i) { e(i, i) = s.e + i; if (i) { e(0, i) = .5; e(i, 0) = .5; } }
                    new_energy[q] = e; int id = (int)ref.onsite.size(); ref.onsite.push_back(e); ref.site_name.push_back(s.name);
                    nat::Rng g(s.seed);
                    for (int k = 0; k < s.a; ++k) { Cartesian p(g.dyadic(-4, 4), g.dyadic(-4, 4), 5.f + k); new_sites[q].push_back(p); ref.pos.push_back(p); ref.sub.push_back(id); ref.norb.push_back(s.b); valid.push_back(1); }
                }
                if (s.kind == 3) {
                    compact(); seen_by[q] = ref; nat::Rng g(s.seed); int id = (int)ref.hop.size();
                    int ns = (int)ref.pos.size(); int rows = 1, cols = 1; std::vector<std::pair<int, int>> v;
                    if (ns > 1) { int a = g.range(0, ns - 2), c = g.range(a + 1, ns - 1); rows = ref.norb[a]; cols = ref.norb[c]; }
                    bool bad = g.coin(1, 8);
                    for (int k = 0; k < 3 * s.a && ns > 1; ++k) { int a = g.range(0, ns - 2), c = g.range(a + 1, ns - 1); bool fit = ref.norb[a] == rows && ref.norb[c] == cols; if (!fit && !bad) continue; mism |= !fit; bool twice = std::find(v.begin(), v.end(), std::make_pair(a, c)) != v.end(); if (twice && g.coin()) continue; v.push_back({a, c}); }
                    MatrixXcd e(rows, cols); bool cplx = g.coin(1, 3); for (int i = 0; i < rows; ++i) for (int j = 0; j < cols; ++j) e(i, j) = Z{s.e + i - .25 * j, cplx ? .5 : 0.};
                    bool flip = rows == 1 && cols == 1 && !cplx && g.coin(); // given from the other end
                    new_energy[q] = e; ref.hop.push_back(e); ref.hop_name.push_back(s.name);
                    auto w = v; for (auto& x : w) if (flip) std::swap(x.first, x.second);
                    new_bonds[q] = w;
                    std::set<std::pair<int, int>> uniq(v.begin(), v.end()); for (auto& x : uniq) ref.bonds.push_back({id, x.first, x.second});
                    std::sort(ref.bonds.begin(), ref.bonds.end());
                }
            }
            if (!fails) { compact(); }
            // ---- the real model
            for (size_t k = 0; k < st.size(); ++k) {
                auto s = st[k];
                auto record = [&shown, k](std::string const& name, float x, float y, float z, char const* state) { shown.push_back(nat::str(k, name, "@", key(Cartesian(x, y, z)), state)); };
                if (s.kind == 0) m.add(SiteStateModifier([=, &b](Eigen::Ref<ArrayX<bool>> v, CartesianArrayConstRef p, string_view name) {
                    NCHECK(v.size() == p.size(), "states and positions differ in length");
                    bool foundation = true; for (size_t j = 0; j < k; ++j) foundation &= st[j].kind < 2;
                    // flat foundation index decides about reviving
                    int u = -1; for (auto i = 0u; i < l.subs.size(); ++i) if (l.subs[i].name == name) u = (int)i;
                    for (int i = 0; i < v.size(); ++i) {
                        record(name, p.x()[i], p.y()[i], p.z()[i], v[i] ? "+" : "-");
                        if (gen::mark(Cartesian(p.x()[i], p.y()[i], p.z()[i]), s.seed, s.a - 1, s.a)) continue;
                        int flat = foundation ? b.slot(u) * (int)v.size() + i : 1;
                        v[i] = foundation && !v[i] && flat % 2 == 0;
                    } }, s.b));
                if (s.kind == 1) m.add(PositionModifier([=](CartesianArrayRef p, string_view name) {
                    for (int i = 0; i < p.size(); ++i) { record(name, p.x()[i], p.y()[i], p.z()[i], ""); auto w = gpos(Cartesian(p.x()[i], p.y()[i], p.z()[i]), s.a); p.x()[i] = w[0]; p.y()[i] = w[1]; p.z()[i] = w[2]; } }));
                if (s.kind == 2) m.add(SiteGenerator(s.name, k < new_energy.size() && new_energy[k].size() ? new_energy[k] : MatrixXcd(MatrixXcd::Identity(s.b, s.b)), [&, k](System const& sys) {
                    gen::same_system(sys, seen_by[k]); auto& v = new_sites[k]; CartesianArray c(v.size()); for (auto i = 0u; i < v.size(); ++i) c[i] = v[i]; return c; }));
                if (s.kind == 3) m.add(HoppingGenerator(s.name, k < new_energy.size() && new_energy[k].size() ? new_energy[k] : MatrixXcd(MatrixXcd::Identity(1, 1)), [&, k](System const& sys) {
                    gen::same_system(sys, seen_by[k]); auto& v = new_bonds[k]; HoppingGenerator::Result w{ArrayXi(v.size()), ArrayXi(v.size())}; for (auto i = 0u; i < v.size(); ++i) { w.from[i] = v[i].first; w.to[i] = v[i].second; } return w; }));
            }
            if (fails) { NCHECK(nat::throws([&] { m.system(); }), "state modifier with min_neighbors after a generator"); nat::cover("rejected-min-neighbors"); return; }
            if (ref.pos.empty()) { NCHECK(nat::throws([&] { m.system(); }), "empty system"); nat::cover("empty"); return; }
            auto const& sys = *m.system();
            std::sort(shown.begin(), shown.end()); std::sort(expect.begin(), expect.end());
            for (auto i = 0u; i < std::min(shown.size(), expect.size()); ++i) NCHECK(shown[i] == expect[i], "modifier was shown ", shown[i], " expected ", expect[i]);
            NCHECK(shown.size() == expect.size(), "modifiers were shown ", shown.size(), " sites, expected ", expect.size());
            // boundaries without bonds may be left after filtering
            auto keep = ref; 
            gen::same_sites(sys, ref); gen::same_bonds(sys.hopping_blocks, ref.bonds, "bonds");
            NCHECK(sys.boundaries.size() == ref.per.size(), "boundaries");
            for (auto& p : ref.per) { bool hit = false; for (auto& g : sys.boundaries) if (!hit && (g.shift - p.shift).norm() < 1e-4f) { hit = true; gen::same_bonds(g.hopping_blocks, p.bonds, "boundary bonds"); NCHECK(g.hopping_blocks.get_num_sites() == sys.num_sites(), "boundary container covers ", g.hopping_blocks.get_num_sites(), " of ", sys.num_sites(), " sites"); } NCHECK(hit, "boundary lost"); }
            NCHECK(sys.is_valid.size() == 0 || sys.is_valid.all(), "invalid sites left");
            for (auto i = 0u; i < ref.site_name.size(); ++i) NCHECK(sys.site_registry.name(SiteID{(idx_t)i}) == ref.site_name[i], "family of sublattice ", i);
            bool runs_ok = true; // every orbital count forms one block
            for (auto i = 1u; i < ref.norb.size(); ++i) if (ref.norb[i] < ref.norb[i - 1]) { runs_ok = false; }
            if (!runs_ok) nat::cover("unsorted-orbitals");
            if (mism) { bool t = nat::throws([&] { m.hamiltonian(); }); nat::cover("mismatched-term"); bool used = false; for (auto& x : ref.bonds) if (ref.hop[x.fam].rows() != ref.norb[x.from] || ref.hop[x.fam].cols() != ref.norb[x.to]) used = true; NCHECK(t == used, "hopping between sites with other orbital counts was ", t ? "rejected" : "accepted"); return; }
            gen::same_matrix(gen::dense(m.hamiltonian()), gen::dense(ref), 1e-4, "hamiltonian");
        });
        nat::section("bad", 400, [](nat::Rng& r, long) {
            gen::Opt o; o.max_rel = 1; o.max_dim = 2; o.max_orb = 1; auto l = gen::lattice(r, o); l.min_neighbors = 0;
            Model m(l.build()); m.add(Primitive(r.range(1, 3), l.ndim > 1 ? 2 : 1, 1));
            int ns = (int)m.system()->num_sites(), kind = r.range(0, 3); int a = r.range(0, ns - 1), c = kind == 0 ? ns + r.range(0, 2) : kind == 1 ? -r.range(1, 3) : r.range(0, ns - 1); int extra = kind == 2 ? 1 : 0; bool sw = r.coin();
            nat::note(l.str(), "; bond ", a, "-", c, " extra ", extra);
            m.add(HoppingGenerator("zz", 1.0, [=](System const&) { HoppingGenerator::Result w{ArrayXi(1 + (sw ? extra : 0)), ArrayXi(1 + (sw ? 0 : extra))}; w.from.setConstant(sw ? c : a); w.to.setConstant(sw ? a : c); return w; }));
            bool t = nat::throws([&] { m.system(); });
            NCHECK(t == (kind != 3), "generated bonds ", t ? "rejected" : "accepted");
            NCHECK(nat::throws([&] { m.add(HoppingGenerator("zz", 1.0, [](System const&) { return HoppingGenerator::Result{}; })); }), "second family with the same name");
            NCHECK(nat::throws([&] { m.add(SiteGenerator(l.subs[0].name, MatrixXcd::Zero(1, 1), [](System const&) { return CartesianArray(0); })); }), "site family with an existing name");
            NCHECK(nat::throws([&] { m.add(SiteGenerator("q", MatrixXcd::Zero(1, 2), [](System const&) { return CartesianArray(0); })); }), "onsite term which is not square");
        });
    });
}
