// P08: Hamiltonian matrices against dense assembly of the reference model.
#include "gen.hpp"
#include "system/Foundation.hpp"
using namespace cpb;
using gen::I3; using gen::Z; using gen::MatZ;

template<class T> struct Narrow { static T f(Z w) { return (T)w.real(); } };
template<class T> struct Narrow<std::complex<T>> { static std::complex<T> f(Z w) { return std::complex<T>(w); } };
template<class T> static T narrow(Z w) { return Narrow<T>::f(w); }
static double tol(Hamiltonian const& h) { return ham::is<double>(h) || ham::is<std::complex<double>>(h) ? 1e-6 : 1e-3; }

static void check(Hamiltonian const& h, MatZ const& ref, bool cplx, bool dbl) {
    bool c = ham::is<std::complex<float>>(h) || ham::is<std::complex<double>>(h), d = ham::is<double>(h) || ham::is<std::complex<double>>(h);
    NCHECK(d == dbl, "precision"); NCHECK(c == cplx, "complex ", c, " expected ", cplx);
    auto got = gen::dense(h);
    NCHECK(h.rows() == ref.rows() && h.cols() == ref.cols(), "shape ", h.rows(), "x", h.cols());
    gen::same_matrix(got, ref, tol(h), "hamiltonian");
    gen::same_matrix(got, got.adjoint(), tol(h), "hermiticity");
    // stored elements: nothing but the elements of the model
    NCHECK(h.non_zeros() <= h.rows() * h.cols(), "non zeros");
    auto r = h.csrref(); NCHECK(r.rows == h.rows() && r.cols == h.cols() && r.nnz == h.non_zeros(), "csrref");
    for (idx_t row = 0; row < r.rows; ++row) {
        NCHECK(r.indptr[row] <= r.indptr[row + 1] && r.indptr[row] >= 0 && r.indptr[row + 1] <= r.nnz, "indptr of row ", row);
        for (auto n = r.indptr[row]; n + 1 < r.indptr[row + 1]; ++n) NCHECK(r.indices[n] < r.indices[n + 1], "columns of row ", row, " not increasing");
    }
}

int main(int argc, char** argv) {
    return nat::run(argc, argv, [] {
        nat::section("model", 2500, [](nat::Rng& r, long) {
            gen::Opt o; o.max_rel = 1; auto l = gen::lattice(r, o); l.min_neighbors = 0;
            auto lat = l.build(); uint64_t seed = r.u64();
            I3 n{{r.range(1, 5), l.ndim > 1 ? r.range(1, 4) : 1, l.ndim > 2 ? r.range(1, 3) : 1}}, alo{{0, 0, 0}}, ahi{{n[0] - 1, n[1] - 1, n[2] - 1}}, per{{0, 0, 0}};
            gen::Box b(l, {{-(n[0] / 2), -(n[1] / 2), -(n[2] / 2)}}, n);
            Model m(lat); m.add(Primitive(n[0], n[1], n[2]));
            float len[3] = {-1, -1, -1}; bool sym = r.coin(2, 3), any = false;
            if (sym) for (int d = 0; d < l.ndim; ++d) if (r.coin(2, 3)) { any = true; per[d] = r.range(1, n[d]); len[d] = per[d] == 1 && r.coin() ? 0.f : per[d] * l.vec[d].norm(); alo[d] = (n[d] - per[d]) / 2; ahi[d] = alo[d] + per[d] - 1; }
            if (any) m.add(TranslationalSymmetry(len[0], len[1], len[2]));
            bool mask = r.coin();
            for (int i = 0; i < b.size(); ++i) { auto c = b.cell_of(i); for (int d = 0; d < 3; ++d) if (c[d] < alo[d] || c[d] > ahi[d]) b.valid[i] = 0; if (mask && !gen::mark(b.pos[i], seed, 5, 6)) b.valid[i] = 0; }
            if (mask) m.add(SiteStateModifier([=](Eigen::Ref<ArrayX<bool>> st, CartesianArrayConstRef p, string_view) { for (int i = 0; i < st.size(); ++i) if (!gen::mark(Cartesian(p.x()[i], p.y()[i], p.z()[i]), seed, 5, 6)) st[i] = false; }));
            auto ref = gen::make(b);
            if (ref.pos.empty()) { NCHECK(nat::throws([&] { m.hamiltonian(); }), "empty system"); return; }
            if (any) gen::add_periodic(ref, b, alo, ahi, per);
            bool cplx = any, dbl = r.coin();
            for (auto& e : ref.onsite) for (int i = 0; i < e.size(); ++i) if (e(i / e.cols(), i % e.cols()).imag() != 0) cplx = true;
            for (auto& e : ref.hop) for (int i = 0; i < e.size(); ++i) if (e(i / e.cols(), i % e.cols()).imag() != 0) cplx = true;
            // modifiers which act on one element at a time
            std::vector<gen::On3> on; std::vector<gen::Hop3> hm;
            struct Spec { bool hop; int kind; double a; };
            std::vector<Spec> sp; std::string log;
            for (int q = r.coin() ? r.range(1, 3) : 0; q > 0; --q) sp.push_back({r.coin(), r.range(0, 3), r.range(-6, 6) / 4.0});
            for (auto s : sp) {
                log += nat::str(" ", s.hop ? "hop" : "onsite", s.kind, "(", s.a, ")");
                bool mc = s.hop && s.kind == 2; cplx |= mc;
                if (s.hop) {
                    auto f = [=](Z v, Cartesian p1, Cartesian p2, std::string const& fam) -> Z {
                        double d = p2[0] - 2 * p2[1] + 3 * p1[0] - p1[2];
                        switch (s.kind) { case 0: return v * s.a; case 1: return v * (1 + 0.25 * d); case 2: return v * std::exp(Z{0, 0.3 * (p2[1] * p1[0] + p1[1])}); default: return fam == "t0" ? v * 2.0 : v; } };
                    hm.push_back([=](MatrixXcd& e, Cartesian p1, Cartesian p2, std::string const& fam) { for (int i = 0; i < e.rows(); ++i) for (int j = 0; j < e.cols(); ++j) e(i, j) = f(e(i, j), p1, p2, fam) + (s.kind == 1 ? 0.5 * i + j : 0); });
                    m.add(HoppingModifier([=](ComplexArrayRef e, CartesianArrayConstRef p1, CartesianArrayConstRef p2, string_view fam) {
                        int rows = e.ndim == 1 ? 1 : (int)e.shape[0], cols = e.ndim == 1 ? 1 : (int)e.shape[1], num = (int)(e.ndim == 1 ? e.shape[0] : e.shape[2]);
                        NCHECK(num == p1.size() && num == p2.size(), "metadata length ", p1.size(), " for ", num);
                        auto go = [&](auto* data) { for (int i = 0; i < rows; ++i) for (int j = 0; j < cols; ++j) for (int k = 0; k < num; ++k) {
                            auto& v = data[(i * cols + j) * num + k]; Z w = f(Z(v), Cartesian(p1.x()[k], p1.y()[k], p1.z()[k]), Cartesian(p2.x()[k], p2.y()[k], p2.z()[k]), fam) + (s.kind == 1 ? 0.5 * i + j : 0);
                            v = narrow<std::remove_reference_t<decltype(v)>>(w); } };
                        switch (e.tag) { case num::Tag::f32: go((float*)e.data); break; case num::Tag::f64: go((double*)e.data); break; case num::Tag::cf32: go((std::complex<float>*)e.data); break; default: go((std::complex<double>*)e.data); }
                    }, mc, dbl));
                } else {
                    auto f = [=](int i, int j, Z v, Cartesian p, std::string const& sub) -> Z {
                        double d = p[0] + 2 * p[1] - p[2];
                        switch (s.kind) { case 0: return i == j ? v + s.a : v; case 1: return i == j ? v + 0.25 * d : v * 0.5; case 2: return i == j ? Z(d, 0) : v; default: return sub == "A" ? v * 2.0 : v * -1.0; } };
                    on.push_back([=](MatrixXcd& e, Cartesian p, std::string const& sub) { for (int i = 0; i < e.rows(); ++i) for (int j = 0; j < e.cols(); ++j) e(i, j) = f(i, j, e(i, j), p, sub); });
                    m.add(OnsiteModifier([=](ComplexArrayRef e, CartesianArrayConstRef p, string_view sub) {
                        int rows = e.ndim == 1 ? 1 : (int)e.shape[0], cols = e.ndim == 1 ? 1 : (int)e.shape[1], num = (int)(e.ndim == 1 ? e.shape[0] : e.shape[2]);
                        NCHECK(num == p.size(), "metadata length ", p.size(), " for ", num);
                        auto go = [&](auto* data) { for (int i = 0; i < rows; ++i) for (int j = 0; j < cols; ++j) for (int k = 0; k < num; ++k) {
                            auto& v = data[(i * cols + j) * num + k]; Z w = f(i, j, Z(v), Cartesian(p.x()[k], p.y()[k], p.z()[k]), sub);
                            v = narrow<std::remove_reference_t<decltype(v)>>(w); } };
                        switch (e.tag) { case num::Tag::f32: go((float*)e.data); break; case num::Tag::f64: go((double*)e.data); break; case num::Tag::cf32: go((std::complex<float>*)e.data); break; default: go((std::complex<double>*)e.data); }
                    }, false, dbl));
                }
            }
            if (sp.empty()) dbl = false;
            nat::note(l.str(), "; box ", n[0], "x", n[1], "x", n[2], " period ", per[0], ",", per[1], ",", per[2], " mask ", b.mask(), " modifiers", log);
            check(m.hamiltonian(), gen::dense(ref, {0, 0, 0}, on, hm), cplx, dbl);
            if (any) for (int q = 0; q < 2; ++q) {
                Cartesian k(r.range(-16, 16) / 4.f, r.range(-16, 16) / 4.f, r.range(-8, 8) / 4.f);
                nat::addnote(" k ", k[0], ",", k[1], ",", k[2]);
                m.set_wave_vector(k);
                check(m.hamiltonian(), gen::dense(ref, k, on, hm), cplx, dbl); nat::cover("bloch");
            }
            if (l.multi()) nat::cover("multi_orbital"); if (cplx) nat::cover("complex");
            if (l.multi() && !hm.empty()) nat::cover("multi_orbital_modified");
        });
        nat::section("generator", 800, [](nat::Rng& r, long) {
            // a hopping generator switches to the triplet path
            gen::Opt o; o.max_rel = 1; auto l = gen::lattice(r, o); l.min_neighbors = 0;
            auto lat = l.build();
            I3 n{{r.range(1, 5), l.ndim > 1 ? r.range(1, 3) : 1, 1}};
            gen::Box b(l, {{-(n[0] / 2), -(n[1] / 2), 0}}, n);
            Model m(lat); m.add(Primitive(n[0], n[1], n[2]));
            auto ref = gen::make(b);
            bool cplx = false;
            for (auto& e : ref.onsite) for (int i = 0; i < e.size(); ++i) if (e(i / e.cols(), i % e.cols()).imag() != 0) cplx = true;
            int gens = r.range(1, 2); std::string log;
            for (int q = 0; q < gens; ++q) {
                int a = r.range(0, (int)ref.pos.size() - 1), rows = ref.norb[a], cols = ref.norb[r.range(0, (int)ref.pos.size() - 1)];
                MatrixXcd e(rows, cols); for (int i = 0; i < rows; ++i) for (int j = 0; j < cols; ++j) e(i, j) = gen::rz(r, r.coin(1, 4));
                std::set<std::pair<int, int>> pairs;
                for (int k = r.range(0, 5); k > 0; --k) { int x = r.range(0, (int)ref.pos.size() - 1), y = r.range(0, (int)ref.pos.size() - 1); if (x >= y || ref.norb[x] != rows || ref.norb[y] != cols) continue; pairs.insert({x, y}); }
                HoppingGenerator::Result res{ArrayXi(pairs.size()), ArrayXi(pairs.size())}; int k = 0;
                for (auto& p : pairs) { res.from[k] = p.first; res.to[k] = p.second; ++k; ref.bonds.push_back({(int)ref.hop.size(), p.first, p.second}); log += nat::str(" ", p.first, "-", p.second); }
                ref.hop.push_back(e); ref.hop_name.push_back("g" + std::to_string(q));
                m.add(HoppingGenerator("g" + std::to_string(q), e, [=](System const&) { return res; }));
            }
            for (auto& e : ref.hop) for (int i = 0; i < e.size(); ++i) if (e(i / e.cols(), i % e.cols()).imag() != 0) cplx = true;
            nat::note(l.str(), "; box ", n[0], "x", n[1], " generated", log);
            check(m.hamiltonian(), gen::dense(ref), cplx, false); nat::cover("generated");
        });
        nat::section("invalid", 200, [](nat::Rng& r, long) {
            auto l = gen::lattice(r); l.min_neighbors = 0; Model m(l.build()); m.add(Primitive(r.range(1, 4)));
            float bad = r.coin() ? std::numeric_limits<float>::infinity() : std::numeric_limits<float>::quiet_NaN(); bool hop = r.coin(1, 3);
            nat::note(l.str(), " ", bad, hop);
            if (m.system()->hopping_blocks.nnz() == 0) hop = false;
            auto set = [=](ComplexArrayRef e) { if (e.tag == num::Tag::f32) ((float*)e.data)[0] = bad; else ((std::complex<float>*)e.data)[0] = bad; };
            if (hop) m.add(HoppingModifier([=](ComplexArrayRef e, CartesianArrayConstRef, CartesianArrayConstRef, string_view) { set(e); }));
            else m.add(OnsiteModifier([=](ComplexArrayRef e, CartesianArrayConstRef, string_view) { set(e); }));
            NCHECK(nat::throws([&] { m.hamiltonian(); }), "a Hamiltonian with ", bad, " must be rejected");
        });
    });
}
