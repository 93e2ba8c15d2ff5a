// P09: what energy modifiers are shown, and what becomes of their results.
#include "gen.hpp"
#include "system/Foundation.hpp"
using namespace cpb;
using gen::I3; using gen::Z; using gen::MatZ;

struct El { int rows, cols, num; };
static El dims(ComplexArrayRef const& e) {
    if (e.ndim == 1) return {1, 1, (int)e.shape[0]};
    NCHECK(e.ndim == 3, "dimensions ", (int)e.ndim);
    return {(int)e.shape[0], (int)e.shape[1], (int)e.shape[2]};
}
template<class F> static void each(ComplexArrayRef& e, F f) {
    auto d = dims(e);
    auto go = [&](auto* data) { for (int i = 0; i < d.rows; ++i) for (int j = 0; j < d.cols; ++j) for (int k = 0; k < d.num; ++k) f(i, j, k, data[(i * d.cols + j) * d.num + k]); };
    switch (e.tag) { case num::Tag::f32: go((float*)e.data); break; case num::Tag::f64: go((double*)e.data); break; case num::Tag::cf32: go((std::complex<float>*)e.data); break; default: go((std::complex<double>*)e.data); }
}
static std::string key(Cartesian p) { return nat::str((long)std::lround(p[0] * 1024), ",", (long)std::lround(p[1] * 1024), ",", (long)std::lround(p[2] * 1024)); }

int main(int argc, char** argv) {
    return nat::run(argc, argv, [] {
        nat::section("metadata", 2000, [](nat::Rng& r, long) {
            gen::Opt o; o.max_rel = 1; auto l = gen::lattice(r, o); l.min_neighbors = 0;
            auto lat = l.build();
            I3 n{{r.range(1, 5), l.ndim > 1 ? r.range(1, 4) : 1, l.ndim > 2 ? r.range(1, 3) : 1}}, alo{{0, 0, 0}}, ahi{{n[0] - 1, n[1] - 1, n[2] - 1}}, per{{0, 0, 0}};
            gen::Box b(l, {{-(n[0] / 2), -(n[1] / 2), -(n[2] / 2)}}, n);
            Model m(lat); m.add(Primitive(n[0], n[1], n[2]));
            bool sym = r.coin();
            if (sym) { per[0] = n[0]; m.add(TranslationalSymmetry(n[0] * l.vec[0].norm())); }
            auto ref = gen::make(b); if (sym) gen::add_periodic(ref, b, alo, ahi, per);
            nat::note(l.str(), "; box ", n[0], "x", n[1], "x", n[2], sym ? " periodic" : "");
            std::map<std::string, int> sites, bonds; std::vector<int> order; int stage = 0; std::vector<int> stages;
            bool any_onsite = r.coin(3, 4), any_hop = r.coin(3, 4); int nmods = r.range(1, 3);
            // every modifier records what it sees; the value carries the trace of the modifiers before it
            for (int q = 0; q < nmods; ++q) {
                if (any_onsite) m.add(OnsiteModifier([&, q](ComplexArrayRef e, CartesianArrayConstRef p, string_view sub) {
                    auto d = dims(e); NCHECK(d.num == p.size() && d.rows == d.cols, "onsite shape");
                    for (int k = 0; k < d.num; ++k) ++sites[nat::str(q, ":", sub, "@", key(Cartesian(p.x()[k], p.y()[k], p.z()[k])), "#", d.rows)];
                    each(e, [&](int i, int j, int, auto& v) { if (i == j) { using T = std::decay_t<decltype(v)>; v = v * T(2.f) + T(q + 1.f); } });
                }));
                if (any_hop) m.add(HoppingModifier([&, q](ComplexArrayRef e, CartesianArrayConstRef p1, CartesianArrayConstRef p2, string_view fam) {
                    auto d = dims(e); NCHECK(d.num == p1.size() && d.num == p2.size(), "hopping shape");
                    for (int k = 0; k < d.num; ++k) ++bonds[nat::str(q, ":", fam, "@", key(Cartesian(p1.x()[k], p1.y()[k], p1.z()[k])), ">", key(Cartesian(p2.x()[k], p2.y()[k], p2.z()[k])), "#", d.rows, "x", d.cols)];
                    each(e, [&](int, int, int, auto& v) { { using T = std::decay_t<decltype(v)>; v = v * T(2.f) + T(q + 1.f); } });
                }));
            }
            std::map<std::string, int> es, eb;
            for (int q = 0; q < nmods; ++q) {
                if (any_onsite) for (auto i = 0u; i < ref.pos.size(); ++i) ++es[nat::str(q, ":", ref.site_name[ref.sub[i]], "@", key(ref.pos[i]), "#", ref.norb[i])];
                auto bond = [&](gen::Bond const& x, Cartesian sh) { ++eb[nat::str(q, ":", ref.hop_name[x.fam], "@", key(ref.pos[x.from]), ">", key(ref.pos[x.to] - sh), "#", ref.hop[x.fam].rows(), "x", ref.hop[x.fam].cols())]; };
                if (any_hop) { for (auto& x : ref.bonds) bond(x, {0, 0, 0}); for (auto& p : ref.per) for (auto& x : p.bonds) bond(x, p.shift); }
            }
            // the onsite side is shown by sublattice and alias: the registry name is that of the original
            auto const& h = m.hamiltonian();
            NCHECK(sites == es, "sites shown ", sites.size(), " expected ", es.size(), sites.empty() ? "" : " first " + sites.begin()->first, es.empty() ? "" : " expected " + es.begin()->first);
            NCHECK(bonds == eb, "bonds shown ", bonds.size(), " expected ", eb.size(), bonds.empty() ? "" : " first " + bonds.begin()->first, eb.empty() ? "" : " expected " + eb.begin()->first);
            std::vector<gen::On3> on; std::vector<gen::Hop3> hm;
            for (int q = 0; q < nmods; ++q) {
                if (any_onsite) on.push_back([=](MatrixXcd& e, Cartesian, std::string const&) { for (int i = 0; i < e.rows(); ++i) e(i, i) = e(i, i) * 2.0 + (q + 1.0); });
                if (any_hop) hm.push_back([=](MatrixXcd& e, Cartesian, Cartesian, std::string const&) { e = (e * 2.0).array() + (q + 1.0); });
            }
            gen::same_matrix(gen::dense(h), gen::dense(ref, {0, 0, 0}, on, hm), 1e-3, "hamiltonian");
            (void)stage;
        });
        nat::section("chunks", 6, [](nat::Rng& r, long i) {
            // more bonds than the internal buffer holds, with one or several orbitals
            int ra = i % 3 == 0 ? 1 : r.range(1, 3), rb = i % 3 == 0 ? 1 : r.range(1, 3); if (ra > rb) std::swap(ra, rb);
            int buf = 100000 / (ra * rb), cells = buf * r.range(1, 2) + r.range(1, buf - 1); if (r.coin(1, 4)) cells = buf * 2;
            nat::note("chain of ", cells, " cells, hopping ", ra, "x", rb);
            Lattice lat(Cartesian(1, 0, 0));
            lat.add_sublattice("A", Cartesian(0, 0, 0), MatrixXcd(MatrixXcd::Identity(ra, ra)));
            lat.add_sublattice("B", Cartesian(.25f, 0, 0), MatrixXcd(MatrixXcd::Identity(rb, rb)));
            MatrixXcd t(ra, rb); for (int a = 0; a < ra; ++a) for (int b = 0; b < rb; ++b) t(a, b) = 1 + a + 0.5 * b;
            lat.register_hopping_energy("t", t);
            lat.add_hopping(Index3D(0, 0, 0), "A", "B", "t");
            lat.set_min_neighbors(0);
            Model m(lat); m.add(Primitive(cells));
            // positions are cell numbers (exact in float below 2^24)
            std::vector<int> seen(cells, 0), first(cells, 0); int half = cells / 2; bool bad = false; int calls = 0;
            auto hop = [&](std::vector<int>& count, double add) { return [&, add](ComplexArrayRef e, CartesianArrayConstRef p1, CartesianArrayConstRef p2, string_view) {
                ++calls;
                auto d = dims(e); if (d.num != p1.size() || d.num != p2.size() || d.rows != ra || d.cols != rb) bad = true;
                for (int k = 0; k < d.num; ++k) { int c = (int)std::lround(p1.x()[k]) + half; if (c < 0 || c >= cells || std::fabs(p2.x()[k] - p1.x()[k] - .25f) > 1e-3f) { bad = true; continue; } ++count[c]; }
                each(e, [&](int a, int b, int k, auto& v) { v = std::decay_t<decltype(v)>(std::real(v) * 2 + add + (((int)std::lround(p1.x()[k]) + half) % 97) * 8 + a * 3 + b); });
            }; };
            m.add(HoppingModifier(hop(first, 0.0), false, true)); m.add(HoppingModifier(hop(seen, 1.0), false, true));
            auto const& h = m.hamiltonian();
            NCHECK(!bad, "metadata does not fit the bonds"); NCHECK(calls >= 4, "not chunked ", calls);
            for (int c = 0; c < cells; ++c) NCHECK(seen[c] == 1 && first[c] == 1, "bond of cell ", c, " shown ", seen[c], " times");
            auto const& mat = ham::get_reference<double>(h);
            NCHECK(mat.rows() == (long)cells * (ra + rb), "rows");
            auto want = [&](int c, int a, int b) { double v = 1 + a + 0.5 * b; double g = (c % 97) * 8 + a * 3 + b; return (v * 2 + g) * 2 + g + 1; };
            long stored = 0;
            for (int row = 0; row < mat.rows(); ++row) for (SparseMatrixX<double>::InnerIterator it(mat, row); it; ++it) {
                ++stored; long col = it.col(); long na = (long)cells * ra; long x = row, y = col; double w;
                if (x == y) w = 1; else { if (x > y) std::swap(x, y); NCHECK(x < na && y >= na, "element (", row, ",", col, ")"); int c = (int)(x / ra), a = (int)(x % ra); NCHECK((y - na) / rb == c, "element (", row, ",", col, ") joins different cells"); w = want(c, a, (int)((y - na) % rb)); }
                NCHECK(it.value() == w, "element (", row, ",", col, ") = ", it.value(), " expected ", w);
            }
            NCHECK(stored == (long)cells * (ra + rb) + 2L * cells * ra * rb, "stored ", stored);
        });
        nat::section("zeros", 800, [](nat::Rng& r, long) {
            gen::Opt o; o.max_rel = 1; o.complex_terms = false; auto l = gen::lattice(r, o); l.min_neighbors = 0;
            Model m(l.build()); m.add(Primitive(r.range(1, 5), l.ndim > 1 ? r.range(1, 4) : 1));
            int n = (int)m.system()->hamiltonian_size(); uint64_t seed = r.u64();
            nat::note(l.str(), " seed ", seed);
            // results are exactly zero, tiny or ordinary; only exact zeros may vanish
            auto val = [=](int i, int j, Cartesian p, Cartesian q) { nat::Rng g(seed ^ std::hash<std::string>{}(key(p) + key(q) + nat::str(i, j))); int c = g.range(0, 3); return c == 0 ? 0.f : c == 1 ? 1e-30f : c == 2 ? -1e-6f : 2.f; };
            long zero = 0, total = 0;
            m.add(OnsiteModifier([&](ComplexArrayRef e, CartesianArrayConstRef p, string_view) { each(e, [&](int i, int j, int k, auto& v) { Cartesian x(p.x()[k], p.y()[k], p.z()[k]); auto w = val(std::min(i, j), std::max(i, j), x, x); v = w; ++total; zero += w == 0; }); }));
            m.add(HoppingModifier([&](ComplexArrayRef e, CartesianArrayConstRef p1, CartesianArrayConstRef p2, string_view) { each(e, [&](int i, int j, int k, auto& v) { auto w = val(i, j, Cartesian(p1.x()[k], p1.y()[k], p1.z()[k]), Cartesian(p2.x()[k], p2.y()[k], p2.z()[k])); v = w; total += 2; zero += 2 * (w == 0); }); }));
            auto const& h = m.hamiltonian();
            NCHECK(h.rows() == n, "rows"); NCHECK(h.non_zeros() == total - zero, "stored ", h.non_zeros(), " expected ", total - zero, " of ", total);
        });
        nat::section("promote", 600, [](nat::Rng& r, long) {
            gen::Opt o; o.max_rel = 1; o.complex_terms = false; auto l = gen::lattice(r, o); l.min_neighbors = 0;
            I3 n{{r.range(1, 4), l.ndim > 1 ? r.range(1, 3) : 1, 1}}; gen::Box b(l, {{-(n[0] / 2), -(n[1] / 2), 0}}, n); auto ref = gen::make(b);
            Model m(l.build()); m.add(Primitive(n[0], n[1], n[2]));
            bool onsite = r.coin(), hop = !onsite || r.coin(); if (ref.bonds.empty()) { if (!onsite) return; hop = false; }
            bool pre = r.coin(), dbl = r.coin(); nat::note(l.str(), " onsite ", onsite, " hop ", hop, " pre ", pre, " double ", dbl);
            std::vector<gen::On3> on; std::vector<gen::Hop3> hm;
            if (pre) { m.add(OnsiteModifier([](ComplexArrayRef e, CartesianArrayConstRef, string_view) { each(e, [](int i, int j, int, auto& v) { if (i == j) v += 1.f; }); }, false, dbl)); on.push_back([](MatrixXcd& e, Cartesian, std::string const&) { for (int i = 0; i < e.rows(); ++i) e(i, i) += 1.0; }); }
            if (hop) { m.add(HoppingModifier([](ComplexArrayRef e, CartesianArrayConstRef, CartesianArrayConstRef, string_view) {
                if (e.tag == num::Tag::f32 || e.tag == num::Tag::f64) throw ComplexOverride();
                if (e.tag == num::Tag::cf32) each(e, [](int, int, int, auto& v) { v *= std::decay_t<decltype(v)>(2.f); });
                if (e.tag == num::Tag::cf32) { auto d = dims(e); auto p = (std::complex<float>*)e.data; for (int i = 0; i < d.rows * d.cols * d.num; ++i) p[i] *= std::complex<float>(0, .5f); }
                else { auto d = dims(e); auto p = (std::complex<double>*)e.data; for (int i = 0; i < d.rows * d.cols * d.num; ++i) p[i] *= std::complex<double>(0, 1); } }, false, dbl));
                hm.push_back([](MatrixXcd& e, Cartesian, Cartesian, std::string const&) { e *= Z(0, 1); }); }
            if (onsite) { m.add(OnsiteModifier([](ComplexArrayRef e, CartesianArrayConstRef, string_view) { if (e.tag == num::Tag::f32 || e.tag == num::Tag::f64) throw ComplexOverride(); each(e, [](int, int, int, auto& v) { v *= std::decay_t<decltype(v)>(3.f); }); }, false, dbl)); on.push_back([](MatrixXcd& e, Cartesian, std::string const&) { e *= 3.0; }); }
            if (!pre && !hop && !onsite) return;
            auto const& h = m.hamiltonian();
            NCHECK((dbl ? ham::is<std::complex<double>>(h) : ham::is<std::complex<float>>(h)), "scalar type"); NCHECK(m.is_complex(), "is_complex");
            gen::same_matrix(gen::dense(h), gen::dense(ref, {0, 0, 0}, on, hm), 1e-3, "hamiltonian"); nat::cover("promoted");
        });
        nat::section("flags", 500, [](nat::Rng& r, long) {
            HamiltonianModifiers m; bool c = false, d = false; std::string log;
            for (int k = r.range(0, 5); k > 0; --k) { bool mc = r.coin(1, 4), md = r.coin(1, 4); c |= mc; d |= md; log += nat::str(" ", mc, md);
                if (r.coin()) m.onsite.push_back(OnsiteModifier([](ComplexArrayRef, CartesianArrayConstRef, string_view) {}, mc, md)); else { m.hopping.push_back(HoppingModifier([](ComplexArrayRef, CartesianArrayConstRef, CartesianArrayConstRef, string_view) {}, mc, md)); } }
            nat::note("flags", log); NCHECK(m.any_complex() == c, "any_complex"); NCHECK(m.any_double() == d, "any_double");
            m.clear(); NCHECK(m.onsite.empty() && m.hopping.empty() && !m.any_complex() && !m.any_double(), "clear");
        });
    });
}
