// P13: a model after any history of changes and queries against a fresh model of its current definition.
#include "gen.hpp"
using namespace cpb;
using gen::I3; using gen::Z; using gen::MatZ;

struct Part { std::function<void(Model&)> add; };
struct Def {
    std::function<void(Model&)> primitive, shape, symmetry, k;
    std::vector<std::function<void(Model&)>> leads, structure, ham;
    void build(Model& m) const {
        if (primitive) primitive(m);
        if (shape) shape(m);
        if (symmetry) symmetry(m);
        for (auto& f : leads) f(m);
        for (auto& f : structure) f(m);
        for (auto& f : ham) f(m);
        if (k) k(m);
    }
};

struct Snap { bool ok; std::string err; };
template<class F> static Snap attempt(F&& f) { try { f(); return {true, ""}; } catch (nat::Failure&) { throw; } catch (std::exception& e) { return {false, e.what()}; } }

static void same_sys(System const& a, System const& b, std::string const& log) {
    NCHECK(a.num_sites() == b.num_sites(), "sites ", a.num_sites(), " expected ", b.num_sites(), log);
    for (idx_t i = 0; i < a.num_sites(); ++i) NCHECK((Cartesian(a.positions[i]) - Cartesian(b.positions[i])).norm() <= 1e-5f, "position ", i, log);
    auto da = a.compressed_sublattices.decompressed(), db = b.compressed_sublattices.decompressed();
    NCHECK(da.size() == db.size() && (da == db).all(), "sublattices", log);
    NCHECK(gen::bonds_of(a.hopping_blocks) == gen::bonds_of(b.hopping_blocks), "bonds", log);
    NCHECK(a.boundaries.size() == b.boundaries.size(), "boundaries ", a.boundaries.size(), " expected ", b.boundaries.size(), log);
    for (auto i = 0u; i < a.boundaries.size(); ++i) {
        NCHECK((a.boundaries[i].shift - b.boundaries[i].shift).norm() < 1e-5f, "shift ", i, log);
        NCHECK(gen::bonds_of(a.boundaries[i].hopping_blocks) == gen::bonds_of(b.boundaries[i].hopping_blocks), "boundary bonds ", i, log);
    }
    NCHECK(a.site_registry.get_names() == b.site_registry.get_names(), "site families", log);
    NCHECK(a.hopping_registry.get_names() == b.hopping_registry.get_names(), "hopping families", log);
}

static void compare(Model const& m, Def const& d, Lattice const& lat, std::string const& log, nat::Rng& r) {
    Model f(lat); d.build(f);
    NCHECK(m.get_lattice().get_offset().isApprox(f.get_lattice().get_offset()) || (m.get_lattice().get_offset() - f.get_lattice().get_offset()).norm() < 1e-6f, "lattice offset", log);
    NCHECK(m.get_site_registry().get_names() == f.get_site_registry().get_names() && m.get_hopping_registry().get_names() == f.get_hopping_registry().get_names(), "registries", log);
    NCHECK(m.is_double() == f.is_double() && m.is_multiorbital() == f.is_multiorbital(), "scalar kind", log);
    int q = r.range(0, 3); // which queries come first
    if (q & 1) attempt([&] { m.hamiltonian(); });
    if (q & 2) attempt([&] { m.leads(); });
    auto a = attempt([&] { m.system(); }), b = attempt([&] { f.system(); });
    NCHECK(a.ok == b.ok && a.err == b.err, "system(): '", a.err, "' expected '", b.err, "'", log);
    if (!a.ok) { nat::cover("system-error"); return; }
    same_sys(*m.system(), *f.system(), log);
    a = attempt([&] { m.hamiltonian(); }); b = attempt([&] { f.hamiltonian(); });
    NCHECK(a.ok == b.ok && a.err == b.err, "hamiltonian(): '", a.err, "' expected '", b.err, "'", log);
    if (!a.ok) { nat::cover("hamiltonian-error"); return; }
    gen::same_matrix(gen::dense(m.hamiltonian()), gen::dense(f.hamiltonian()), 1e-4, "hamiltonian");
    a = attempt([&] { m.leads(); }); b = attempt([&] { f.leads(); });
    NCHECK(a.ok == b.ok && a.err == b.err, "leads(): '", a.err, "' expected '", b.err, "'", log);
    if (!a.ok) { nat::cover("leads-error"); return; }
    NCHECK(m.leads().size() == f.leads().size() && m.leads().size() == (int)d.leads.size(), "number of leads", log);
    for (auto i = 0; i < m.leads().size(); ++i) {
        auto x = m.lead(i), y = f.lead(i); nat::cover("lead");
        NCHECK(x.indices() == y.indices(), "indices of lead ", i, log);
        same_sys(x.system(), y.system(), log);
        gen::same_matrix(gen::dense(x.h0()), gen::dense(y.h0()), 1e-4, "lead h0");
        gen::same_matrix(gen::dense(x.h1()), gen::dense(y.h1()), 1e-4, "lead h1");
    }
}

int main(int argc, char** argv) {
    return nat::run(argc, argv, [] {
        nat::section("history", 3000, [](nat::Rng& r, long) {
            gen::Opt o; o.max_rel = 1; o.max_dim = 2; o.max_sub = 3; o.max_orb = 2; o.complex_terms = r.coin(1, 3); auto l = gen::lattice(r, o); l.min_neighbors = r.range(0, 1); l.offset = {0, 0, 0};
            auto lat = l.build();
            Model m(lat); Def d; std::string log; int gens = 0;
            std::set<std::string> sites, hops; for (auto& s : l.subs) sites.insert(s.name); for (auto& f : l.fams) hops.insert(f.name);
            std::vector<std::string> gsites, ghops;
            std::vector<std::shared_ptr<System const>> held; // systems handed out stay as they were
            std::vector<std::pair<std::shared_ptr<System const>, ArrayXf>> held2;
            for (int step = r.range(2, 12); step > 0; --step) {
                int op = r.coin(1, 8) ? 4 : r.range(0, 15); bool expect_ok = true; std::function<void(Model&)> f; auto nd = d; std::string what;
                if (op == 0) {
                    int a = r.range(1, 4), b = l.ndim > 1 || r.coin(1, 5) ? r.range(1, 3) : 1; expect_ok = l.ndim > 1 || b == 1;
                    what = nat::str("primitive(", a, ",", b, ")"); f = [=](Model& x) { x.add(Primitive(a, b)); }; nd.primitive = f;
                } else if (op == 1 || op == 2) {
                    float w = r.range(2, 7) * .5f, h = r.range(2, 7) * .5f; int kind = l.ndim > 1 ? r.range(0, 1) : 2; uint64_t seed = r.u64(); bool big = r.coin(1, 5);
                    Cartesian off = big ? Cartesian(1.5f * l.vec[0]) : r.coin() ? Cartesian(0, 0, 0) : Cartesian(r.range(-3, 3) / 8.f * l.vec[0]); expect_ok = !big;
                    what = nat::str("shape", kind, "(", w, ",", h, " offset ", off[0], ",", off[1], ")");
                    f = [=](Model& x) {
                        Shape s;
                        if (kind == 0) s = Polygon({{w, h, 0}, {-w, h, 0}, {-w, -h, 0}, {w, -h, 0}});
                        else if (kind == 1) s = FreeformShape([=](CartesianArrayConstRef p) { ArrayX<bool> k(p.size()); for (int i = 0; i < k.size(); ++i) k[i] = std::abs(p.x()[i]) < w && std::abs(p.y()[i]) < h && gen::mark(Cartesian(p.x()[i], p.y()[i], p.z()[i]), seed, 9, 10); return k; }, {2 * w, 2 * h, 2});
                        else s = Line(Cartesian(-w, 0, 0), Cartesian(w, 0, 0));
                        s.lattice_offset = off; x.add(s); };
                    nd.shape = f;
                } else if (op == 3) {
                    float a = r.coin() ? r.range(0, 3) * l.vec[0].norm() : -1.f, b = l.ndim > 1 && r.coin() ? r.range(0, 2) * l.vec[1].norm() : -1.f;
                    what = nat::str("symmetry(", a, ",", b, ")"); f = [=](Model& x) { x.add(TranslationalSymmetry(a, b)); }; nd.symmetry = f;
                } else if (op == 4) {
                    int dir = r.coin(1, 4) ? r.range(-3, 3) : (r.coin() ? 1 : -1) * r.range(1, 2); float w = r.range(1, 5) * .5f; expect_ok = dir != 0 && l.ndim > 1 && std::abs(dir) <= l.ndim;
                    what = nat::str("lead(", dir, ",", w, ")");
                    f = [=](Model& x) { x.attach_lead(dir, std::abs(dir) == 1 ? Line(Cartesian(0, -w, 0), Cartesian(0, w, 0)) : Line(Cartesian(-w, 0, 0), Cartesian(w, 0, 0))); }; nd.leads.push_back(f);
                } else if (op == 5) {
                    uint64_t seed = r.u64(); int mn = r.coin(1, 3) ? 1 : 0; int den = r.range(3, 12); what = nat::str("state(", den, ",min ", mn, ")");
                    f = [=](Model& x) { x.add(SiteStateModifier([=](Eigen::Ref<ArrayX<bool>> s, CartesianArrayConstRef p, string_view) { for (int i = 0; i < s.size(); ++i) if (!gen::mark(Cartesian(p.x()[i], p.y()[i], p.z()[i]), seed, den - 1, den)) s[i] = false; }, mn)); };
                    nd.structure.push_back(f);
                } else if (op == 6) {
                    float a = r.range(-2, 2) / 4.f; what = nat::str("position(", a, ")");
                    f = [=](Model& x) { x.add(PositionModifier([=](CartesianArrayRef p, string_view) { p.x() = p.x() + a * p.y(); p.z() = p.z() * 2 + a; })); }; nd.structure.push_back(f);
                } else if (op == 7 || op == 8) {
                    int kind = r.range(0, 4); double a = r.range(-4, 4) / 2.0; bool dbl = r.coin(1, 4); float lim = r.range(0, 8) * .5f; what = nat::str("onsite", kind, "(", a, ",double ", dbl, ")");
                    f = [=](Model& x) { x.add(OnsiteModifier([=](ComplexArrayRef e, CartesianArrayConstRef p, string_view name) {
                        for (int i = 0; i < p.size(); ++i) if (kind == 4 && std::abs(p.x()[i]) > lim) throw std::runtime_error(nat::str("modifier error ", a));
                        if (kind == 0) num::match<ArrayX>(e, [&](auto v) { v *= (typename decltype(v)::Scalar)(2.f); });
                        else if (kind == 3) num::match<ArrayX>(e, [&](auto v) { for (int i = 0; i < p.size(); ++i) if (std::abs(p.x()[i]) > lim) v[i] *= (typename decltype(v)::Scalar)(std::numeric_limits<float>::quiet_NaN()); });
                        else if (name != "A") num::match<ArrayX>(e, [&](auto v) { v += (typename decltype(v)::Scalar)(a); }); }, false, dbl)); };
                    nd.ham.push_back(f);
                } else if (op == 9) {
                    int kind = r.range(0, 3); bool cplx = r.coin(1, 3); double a = r.range(-4, 4) / 4.0; float lim = r.range(0, 8) * .5f; what = nat::str("hopping", kind, "(", a, ",complex ", cplx, ")");
                    f = [=](Model& x) { x.add(HoppingModifier([=](ComplexArrayRef e, CartesianArrayConstRef p1, CartesianArrayConstRef p2, string_view) {
                        if (kind == 3) for (int i = 0; i < p1.size(); ++i) if (std::abs(p1.x()[i]) > lim) { bool c = false; num::match<ArrayX>(e, [&](auto v) { c = Eigen::NumTraits<typename decltype(v)::Scalar>::IsComplex; }); if (!c) throw ComplexOverride(); break; }
                        if (kind == 2) for (int i = 0; i < p1.size(); ++i) if (std::abs(p1.y()[i] + p2.x()[i]) > lim) throw std::runtime_error(nat::str("hopping error ", a));
                        num::match<ArrayX>(e, [&](auto v) { v *= (typename decltype(v)::Scalar)(1 + a); }); }, cplx)); };
                    nd.ham.push_back(f);
                } else if (op == 10) {
                    std::string n = r.coin(1, 4) ? (r.coin() || gsites.empty() ? l.subs[0].name : gsites[0]) : nat::str("g", gens++); if (r.coin(1, 8)) n = ""; expect_ok = !n.empty() && !sites.count(n);
                    int cnt = r.range(0, 3), norb = r.coin() ? l.subs[0].norb() : r.range(1, 2); MatrixXcd e = MatrixXcd::Zero(norb, norb); e(0, 0) = 1.5; what = nat::str("sites(", n, ",", cnt, ",norb ", norb, ")");
                    f = [=](Model& x) { x.add(SiteGenerator(n, e, [=](System const& s) { CartesianArray c(cnt); for (int i = 0; i < cnt; ++i) c[i] = Cartesian(i + .5f, s.num_sites(), 1); return c; })); };
                    nd.structure.push_back(f); if (expect_ok) { sites.insert(n); gsites.push_back(n); }
                } else if (op == 11) {
                    std::string n = r.coin(1, 4) ? l.fams[0].name : nat::str("h", gens++); expect_ok = !hops.count(n); uint64_t seed = r.u64(); bool bad = r.coin(1, 8); what = nat::str("bonds(", n, bad ? ",bad" : "", ")");
                    f = [=](Model& x) { x.add(HoppingGenerator(n, Z{1.25, 0}, [=](System const& s) {
                        std::vector<int> one; for (auto const& sub : s.compressed_sublattices) if (sub.num_orbitals() == 1 && sub.sys_start() == (idx_t)one.size()) for (int k = 0; k < sub.num_sites(); ++k) one.push_back(sub.sys_start() + k);
                        nat::Rng q(seed); std::vector<std::pair<int, int>> v; if (one.size() > 1) for (int k = 0; k < 2; ++k) { int a = q.range(0, (int)one.size() - 2); v.push_back({one[a], one[q.range(a + 1, (int)one.size() - 1)]}); }
                        if (bad) v.push_back({0, (int)s.num_sites() + 3});
                        HoppingGenerator::Result res{ArrayXi(v.size()), ArrayXi(v.size())}; for (auto i = 0u; i < v.size(); ++i) { res.from[i] = v[i].first; res.to[i] = v[i].second; } return res; })); };
                    nd.structure.push_back(f); if (expect_ok) { hops.insert(n); ghops.push_back(n); }
                } else if (op == 12) {
                    Cartesian k(r.range(-3, 3) * .25f, r.range(-3, 3) * .25f, 0); what = nat::str("k(", k[0], ",", k[1], ")"); f = [=](Model& x) { x.set_wave_vector(k); }; nd.k = f;
                } else if (op == 13) {
                    int w = r.range(0, 2); what = nat::str("clear", w);
                    f = [=](Model& x) { if (w == 0) x.clear_structure_modifiers(); else if (w == 1) x.clear_hamiltonian_modifiers(); else x.clear_all_modifiers(); };
                    if (w != 1) { nd.structure.clear(); for (auto& s : gsites) sites.erase(s); for (auto& s : ghops) hops.erase(s); gsites.clear(); ghops.clear(); }
                    if (w != 0) nd.ham.clear();
                } else if (op == 14) { // queries only
                    int q = r.range(0, 4); what = nat::str("query", q);
                    auto s = attempt([&] { if (q == 0) m.system(); else if (q == 1) m.hamiltonian(); else if (q == 2) m.leads(); else if (q == 3) m.eval(); else m.report(); });
                    log += " " + what + (s.ok ? "" : "!"); nat::note(l.str(), " |", log);
                    if (s.ok) { auto p = m.system(); held2.push_back({p, p->positions.x}); }
                    continue;
                } else { Model c = m; m = c; log += " copy"; continue; }
                log += " " + what; nat::note(l.str(), " |", log);
                auto s = attempt([&] { f(m); });
                if (expect_ok) { NCHECK(s.ok, "rejected: ", s.err, log); d = nd; } else { NCHECK(!s.ok, "accepted an invalid part", log); nat::cover("rejected"); }
                if (r.coin()) compare(m, d, lat, log, r);
            }
            compare(m, d, lat, log, r);
            compare(m, d, lat, log, r); // asking again changes nothing
            for (auto& h : held2) NCHECK(h.first->positions.x.size() == h.second.size() && (h.second.size() == 0 || (h.first->positions.x == h.second).all()), "a system handed out earlier was changed", log);
        });
    });
}
