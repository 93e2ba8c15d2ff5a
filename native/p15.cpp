// P15: shapes against exact geometry, and the foundation's box against the region.
#include "gen.hpp"
#include "system/Foundation.hpp"
#include "system/Shape.hpp"
using namespace cpb;
using gen::I3;

static CartesianArray pack(std::vector<Cartesian> const& v) { CartesianArray a((idx_t)v.size()); for (auto i = 0u; i < v.size(); ++i) a[i] = v[i]; return a; }
struct P { long x, y; }; // in units of 1/16
/// Winding parity by exact integers; -1: on the outline or level with a vertex by the tolerance
static int inside(std::vector<P> const& v, P p) {
    bool in = false;
    for (auto i = 0u; i < v.size(); ++i) {
        P a = v[i], b = v[(i + 1) % v.size()];
        long cr = (b.x - a.x) * (p.y - a.y) - (b.y - a.y) * (p.x - a.x);
        if (cr == 0 && p.x >= std::min(a.x, b.x) && p.x <= std::max(a.x, b.x) && p.y >= std::min(a.y, b.y) && p.y <= std::max(a.y, b.y)) return -1;
        if ((a.y > p.y) == (b.y > p.y)) continue;
        // the side crosses the level of p at xs = a.x + (p.y - a.y) * (b.x - a.x) / (b.y - a.y): is it left of p?
        long num = (p.y - a.y) * (b.x - a.x) - (p.x - a.x) * (b.y - a.y);
        if ((b.y - a.y > 0 ? num : -num) < 0) in = !in;
    }
    return in;
}

int main(int argc, char** argv) {
    return nat::run(argc, argv, [] {
        nat::section("polygon", 2500, [](nat::Rng& r, long) {
            int n = r.range(3, 9); int off = r.coin(1, 3) ? r.range(-80, 80) : 0;
            std::vector<P> v;
            for (int i = 0; i < n; ++i) v.push_back({r.range(-48, 48) + off, r.range(-48, 48) - off});
            if (r.coin(1, 4)) { long x0 = r.range(-40, 0), y0 = r.range(-40, 0), w = r.range(1, 40), h = r.range(1, 40); v = {{x0, y0}, {x0 + w, y0}, {x0 + w, y0 + h}, {x0, y0 + h}}; }
            std::string s; for (auto& p : v) s += nat::str(" (", p.x / 16.0, ",", p.y / 16.0, ")");
            nat::note("polygon", s);
            auto build = [](std::vector<P> const& w) { Shape::Vertices q; for (auto& p : w) q.push_back({p.x / 16.f, p.y / 16.f, 0.f}); return Polygon(q); };
            std::vector<Cartesian> pts; std::vector<int> ref;
            for (int t = 0; t < 60; ++t) {
                P p{r.range(-60, 60) + off, r.range(-60, 60) - off};
                if (r.coin(1, 4)) p.y = v[r.range(0, (int)v.size() - 1)].y;   // level with a vertex
                int k = inside(v, p);
                if (k < 0) continue;
                pts.push_back({p.x / 16.f, p.y / 16.f, r.coin(1, 3) ? r.range(-4, 4) / 2.f : 0.f}); ref.push_back(k);
            }
            if (pts.empty()) throw nat::Skip();
            auto w = v; if (r.coin()) std::reverse(w.begin(), w.end()); std::rotate(w.begin(), w.begin() + r.range(0, (int)w.size() - 1), w.end());
            Polygon a = build(v), b = build(w);
            NCHECK(a.vertices.size() == v.size(), "vertices");
            for (auto i = 0u; i < v.size(); ++i) NCHECK(a.vertices[i][0] == v[i].x / 16.f && a.vertices[i][1] == v[i].y / 16.f, "vertex ", i);
            auto all = a.contains(pack(pts)), rot = b.contains(pack(pts));
            NCHECK(all.size() == (idx_t)pts.size() && rot.size() == all.size(), "size");
            // a crossing exactly at the point's own position is decided in floating point: ask again only where the sides are well separated
            for (auto i = 0u; i < pts.size(); ++i) {
                bool near = false;
                for (auto k = 0u; k < v.size(); ++k) {
                    auto& p = v[k]; auto& q = v[(k + 1) % v.size()];
                    double py = pts[i][1] * 16, px = pts[i][0] * 16;
                    if (p.y == q.y || (p.y > py) == (q.y > py)) continue;
                    if (std::abs(p.x + (py - p.y) * (q.x - p.x) / double(q.y - p.y) - px) < 1e-2) near = true;
                }
                if (near) continue;
                NCHECK(all[i] == (bool)ref[i], "point (", pts[i][0], ",", pts[i][1], ") kept ", (bool)all[i]);
                NCHECK(rot[i] == (bool)ref[i], "point (", pts[i][0], ",", pts[i][1], ") with reordered vertices kept ", (bool)rot[i]);
                auto one = a.contains(pack({pts[i]}));
                NCHECK(one.size() == 1 && one[0] == all[i], "point (", pts[i][0], ",", pts[i][1], ") alone");
            }
        });
        nat::section("line", 2500, [](nat::Rng& r, long) {
            auto pt = [&](int k) { return Cartesian(r.range(-k, k) / 8.f, r.range(-k, k) / 8.f, r.coin() ? 0.f : r.range(-k, k) / 8.f); };
            Cartesian a = pt(40), b = pt(40);
            if ((a - b).norm() == 0) throw nat::Skip();
            nat::note("line (", a[0], ",", a[1], ",", a[2], ") to (", b[0], ",", b[1], ",", b[2], ")");
            Line l(a, b);
            NCHECK(l.vertices.size() == 2 && l.vertices[0] == a && l.vertices[1] == b, "vertices");
            std::vector<Cartesian> pts; std::vector<bool> ref;
            for (int t = 0; t < 40; ++t) {
                Cartesian p = pt(64); if (t == 0) p = a + b; if (t == 1) p = .5f * (a + b);
                double u = (b - a).cast<double>().dot((p - a).cast<double>()), w = (a - b).cast<double>().dot((p - b).cast<double>());
                if (std::abs(u) < 1e-3 || std::abs(w) < 1e-3) continue;   // on the end planes: left to the contracts
                pts.push_back(p); ref.push_back(u > 0 && w > 0);
            }
            if (pts.empty()) throw nat::Skip();
            auto got = l.contains(pack(pts));
            NCHECK(got.size() == (idx_t)pts.size(), "size");
            for (auto i = 0u; i < pts.size(); ++i) {
                NCHECK(got[i] == ref[i], "point (", pts[i][0], ",", pts[i][1], ",", pts[i][2], ") kept ", (bool)got[i]);
                NCHECK(l.contains(pack({pts[i]}))[0] == got[i], "point alone");
            }
        });
        nat::section("freeform", 800, [](nat::Rng& r, long) {
            Cartesian w(r.range(1, 40) / 8.f, r.range(1, 40) / 8.f, r.range(1, 40) / 8.f), c(r.range(-40, 40) / 8.f, r.range(-40, 40) / 8.f, r.range(-40, 40) / 8.f);
            int kind = r.range(0, 2);
            auto f = [kind](Cartesian p) { return kind == 0 ? p[0] > p[1] : kind == 1 ? p.norm() < 2 : p[0] * p[1] - p[2] > .5f; };
            FreeformShape s([f](CartesianArrayConstRef p) { ArrayX<bool> o(p.size()); for (idx_t i = 0; i < p.size(); ++i) o[i] = f(Cartesian(p.x()[i], p.y()[i], p.z()[i])); return o; }, w, c);
            nat::note("width ", w[0], " ", w[1], " ", w[2], " center ", c[0], " ", c[1], " ", c[2]);
            std::set<std::array<float, 3>> got, ref;
            for (auto& v : s.vertices) got.insert({{v[0], v[1], v[2]}});
            for (int i = 0; i < 8; ++i) ref.insert({{c[0] + (i & 1 ? .5f : -.5f) * w[0], c[1] + (i & 2 ? .5f : -.5f) * w[1], c[2] + (i & 4 ? .5f : -.5f) * w[2]}});
            NCHECK(s.vertices.size() == 8 && got == ref, "corners of the box");
            std::vector<Cartesian> pts; for (int t = 0; t < 20; ++t) pts.push_back({r.range(-64, 64) / 8.f, r.range(-64, 64) / 8.f, r.range(-64, 64) / 8.f});
            auto k = s.contains(pack(pts));
            for (auto i = 0u; i < pts.size(); ++i) NCHECK(k[i] == f(pts[i]), "point ", i);
        });
        nat::section("errors", 60, [](nat::Rng& r, long i) {
            auto thrown = [](std::function<void()> f) { try { f(); } catch (std::logic_error const&) { return true; } return false; };
            int k = (int)i % 3;
            NCHECK(thrown([&] { Polygon(Shape::Vertices((size_t)k, Cartesian(0, 0, 0))); }) == (k < 2), "a shape of ", k, " vertices");
            int a = r.range(-1, 2), b = r.range(-1, 2), c = r.range(-1, 2);
            NCHECK(thrown([&] { Primitive(a, b, c); }) == (a <= 0 || b <= 0 || c <= 0), "primitive ", a, " ", b, " ", c);
        });
        nat::section("region", 600, [](nat::Rng& r, long) {
            gen::Opt o; o.max_dim = 2; o.max_orb = 1; o.max_terms = 3;
            auto l = gen::lattice(r, o); l.min_neighbors = 0;
            for (auto& s : l.subs) s.pos[2] = 0;
            Cartesian c(r.range(-40, 40) / 8.f, r.range(-40, 40) / 8.f, 0);
            // anisotropic boxes, on either side of the origin
            Cartesian w(r.range(1, 60) / 8.f, r.range(1, 60) / 8.f, 8);
            if (l.ndim == 1) { c[1] = l.vec[0][1] / l.vec[0][0] * c[0]; }
            nat::note(l.str(), "; box center ", c[0], ",", c[1], " width ", w[0], ",", w[1]);
            auto keep = [c, w](Cartesian p) { return std::abs(p[0] - c[0]) < w[0] / 2 - 1e-3f && std::abs(p[1] - c[1]) < w[1] / 2 - 1e-3f; };
            FreeformShape s([keep](CartesianArrayConstRef p) { ArrayX<bool> k(p.size()); for (idx_t i = 0; i < p.size(); ++i) k[i] = keep(Cartesian(p.x()[i], p.y()[i], p.z()[i])); return k; }, w, c);
            // sublattices within one cell of their lattice point (in lattice coordinates)
            for (auto& q : l.subs) {
                float a = l.vec[0][0], b = l.ndim > 1 ? l.vec[1][0] : 0.f, c2 = l.vec[0][1], d = l.ndim > 1 ? l.vec[1][1] : 1.f, det = a * d - b * c2;
                float z[2] = {(d * q.pos[0] - b * q.pos[1]) / det, (a * q.pos[1] - c2 * q.pos[0]) / det};
                if (std::abs(z[0]) > 1 || std::abs(z[1]) > 1 || (l.ndim == 1 && q.pos[1] != 0)) { q.pos = Cartesian(0, 0, 0); }
            }
            auto lat = l.build();
            Foundation f(lat, s);
            std::multiset<std::array<long, 3>> got, ref;
            auto key = [](Cartesian p) { return std::array<long, 3>{{std::lround(p[0] * 1024), std::lround(p[1] * 1024), std::lround(p[2] * 1024)}}; };
            for (idx_t i = 0; i < f.size(); ++i) if (f.get_states()[i]) got.insert(key(f.get_positions()[i]));
            for (int a = -90; a <= 90; ++a) for (int b = l.ndim > 1 ? -60 : 0; b <= (l.ndim > 1 ? 60 : 0); ++b) for (auto& q : l.subs) {
                Cartesian p = l.cell(a, b, 0) + q.pos;
                if (keep(p)) ref.insert(key(p));
            }
            NCHECK(got.size() == ref.size(), "sites kept ", got.size(), " sites of the lattice within the region ", ref.size());
            NCHECK(got == ref, "positions of the kept sites");
        });
    });
}
