// P11: the lattice builder against a plain record of the accepted definitions.
#include "gen.hpp"
using namespace cpb;
using gen::I3; using gen::Z;

struct Rec {
    struct S { std::string name; Cartesian pos; MatrixXcd e; int alias; };
    struct F { std::string name; MatrixXcd e; };
    struct T { I3 rel; int from, to, fam; };
    int ndim = 0; std::vector<Cartesian> vec; std::vector<S> subs; std::vector<F> fams; std::vector<T> terms; Cartesian offset = {0, 0, 0}; int minn = 1;
    int sub(std::string const& n) const { for (auto i = 0u; i < subs.size(); ++i) if (subs[i].name == n) return (int)i; return -1; }
    int fam(std::string const& n) const { for (auto i = 0u; i < fams.size(); ++i) if (fams[i].name == n) return (int)i; return -1; }
};
static bool same(MatrixXcd const& a, MatrixXcd const& b) { return a.rows() == b.rows() && a.cols() == b.cols() && (a.size() == 0 || a == b); }
static bool zero(MatrixXcd const& m) { for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < m.cols(); ++j) if (m(i, j) != Z{}) return false; return true; }

static MatrixXcd energy(nat::Rng& r, bool& ok, MatrixXcd& canon) {
    int rows = r.coin(1, 12) ? 0 : r.range(1, 3), cols = r.coin(1, 12) ? r.range(0, 3) : rows, mode = r.range(0, 6);
    MatrixXcd m(rows, cols);
    for (int i = 0; i < rows; ++i) for (int j = 0; j < cols; ++j) m(i, j) = mode == 0 ? Z{} : Z{r.range(-4, 4) / 2.0, mode >= 3 ? r.range(-4, 4) / 2.0 : 0.0};
    if (rows == cols && mode != 6) for (int i = 0; i < rows; ++i) for (int j = 0; j <= i; ++j) {
        if (i == j) { if (mode != 5) m(i, i) = m(i, i).real(); } else m(i, j) = mode == 2 || mode == 4 ? Z{} : std::conj(m(j, i));
    }
    ok = rows == cols && rows > 0;
    if (ok) {
        bool up = true, he = true;
        for (int i = 0; i < rows; ++i) { if (m(i, i).imag() != 0) ok = false; for (int j = 0; j < cols; ++j) { if (j < i && m(i, j) != Z{}) up = false; if (m(i, j) != std::conj(m(j, i))) he = false; } }
        if (!up && !he) ok = false;
    }
    canon = m;
    if (ok) for (int i = 0; i < rows; ++i) for (int j = 0; j < i; ++j) canon(i, j) = std::conj(m(j, i));
    return m;
}

static void compare(Lattice const& l, Rec const& ref, std::string const& log) {
    NCHECK(l.ndim() == ref.ndim && l.nsub() == (int)ref.subs.size() && l.nhop() == (int)ref.fams.size(), "counts ", l.ndim(), " ", l.nsub(), " ", l.nhop(), log);
    for (int i = 0; i < ref.ndim; ++i) NCHECK(l.vector(i) == ref.vec[i] && l.get_vectors()[i] == ref.vec[i], "vector ", i);
    NCHECK(l.get_min_neighbors() == ref.minn, "min neighbors");
    NCHECK(l.get_offset() == ref.offset, "offset");
    NCHECK(l.get_sublattices().size() == ref.subs.size(), "sublattices");
    bool diag = false, any = false;
    for (auto i = 0u; i < ref.subs.size(); ++i) {
        auto& s = ref.subs[i]; auto it = l.get_sublattices().find(s.name);
        NCHECK(it != l.get_sublattices().end(), "sublattice ", s.name, " lost");
        NCHECK(it->second.unique_id.value() == (int)i, "unique id of ", s.name, " is ", it->second.unique_id.value());
        NCHECK(it->second.alias_id.value() == s.alias, "alias id of ", s.name, " is ", it->second.alias_id.value());
        NCHECK(it->second.position == s.pos, "position of ", s.name);
        NCHECK(same(it->second.energy, s.e), "energy of ", s.name);
        if (!zero(s.e)) any = true;
        for (int k = 0; k < s.e.rows(); ++k) if (s.e(k, k) != Z{}) diag = true;
    }
    NCHECK(l.has_onsite_energy() == any, "has_onsite_energy"); NCHECK(l.has_diagonal_terms() == diag, "has_diagonal_terms");
    NCHECK(l.get_hoppings().size() == ref.fams.size(), "hopping families");
    for (auto i = 0u; i < ref.fams.size(); ++i) {
        auto it = l.get_hoppings().find(ref.fams[i].name);
        NCHECK(it != l.get_hoppings().end(), "family ", ref.fams[i].name, " lost");
        NCHECK(it->second.family_id.value() == (int)i, "id of ", ref.fams[i].name);
        NCHECK(same(it->second.energy, ref.fams[i].e), "energy of ", ref.fams[i].name);
        std::vector<Rec::T> t; for (auto& x : ref.terms) if (x.fam == (int)i) t.push_back(x);
        NCHECK(it->second.terms.size() == t.size(), "terms of ", ref.fams[i].name, ": ", it->second.terms.size());
        for (auto k = 0u; k < t.size(); ++k) {
            auto& g = it->second.terms[k];
            NCHECK(g.from.value() == t[k].from && g.to.value() == t[k].to && g.relative_index == Index3D(t[k].rel[0], t[k].rel[1], t[k].rel[2]), "term ", k, " of ", ref.fams[i].name);
        }
    }
    int most = 0;
    for (auto i = 0; i < (int)ref.subs.size(); ++i) {
        int n = (int)ref.subs[i].e.cols() - 1;
        for (auto& t : ref.terms) { if (t.from == i) n += (int)ref.fams[t.fam].e.cols(); if (t.to == i) n += (int)ref.fams[t.fam].e.rows(); }
        most = std::max(most, n);
    }
    NCHECK(l.max_hoppings() == most, "max_hoppings ", l.max_hoppings(), " expected ", most);
    // registries
    auto hr = l.hopping_registry();
    NCHECK(hr.size() == (idx_t)ref.fams.size(), "hopping registry");
    for (auto i = 0u; i < ref.fams.size(); ++i) NCHECK(hr.name(HopID{(idx_t)i}) == ref.fams[i].name && same(hr.energy(HopID{(idx_t)i}), ref.fams[i].e), "hopping registry ", i);
    bool mixed = false, seen = false; int uniq = 0;
    for (auto i = 0; i < (int)ref.subs.size(); ++i) { if (ref.subs[i].alias != i) seen = true; else { ++uniq; if (seen) mixed = true; } }
    bool threw = false;
    try {
        auto sr = l.site_registry();
        NCHECK(sr.size() >= uniq, "site registry has ", sr.size(), " entries");
        for (auto i = 0; i < (int)ref.subs.size(); ++i) if (ref.subs[i].alias == i) NCHECK(sr.name(SiteID{(idx_t)i}) == ref.subs[i].name && same(sr.energy(SiteID{(idx_t)i}), ref.subs[i].e), "site registry ", i);
    } catch (std::out_of_range&) { threw = true; }
    if (mixed) NFINDING("registry-alias-order", !threw, "site_registry() fails when an alias is defined before another sublattice;", log);
    else NCHECK(!threw, "site_registry() failed", log);
    // unit cell
    std::vector<int> ord; for (auto i = 0u; i < ref.subs.size(); ++i) ord.push_back((int)i);
    std::sort(ord.begin(), ord.end(), [&](int a, int b) { return std::make_tuple(ref.subs[a].e.rows(), ref.subs[a].alias, a) < std::make_tuple(ref.subs[b].e.rows(), ref.subs[b].alias, b); });
    auto slot = [&](int u) { return (int)(std::find(ord.begin(), ord.end(), u) - ord.begin()); };
    auto uc = l.optimized_unit_cell();
    NCHECK(uc.end() - uc.begin() == (long)ord.size(), "unit cell has ", uc.end() - uc.begin(), " sites");
    for (auto k = 0u; k < ord.size(); ++k) {
        auto& s = uc[k]; auto& e = ref.subs[ord[k]];
        NCHECK(s.unique_id.value() == ord[k] && s.alias_id.value() == e.alias && s.norb == e.e.rows() && s.position == e.pos, "unit cell site ", k, " is ", s.unique_id.value(), " expected ", ord[k], log);
        using H = std::tuple<int, int, int, int, int, bool>;
        std::vector<H> want, got;
        for (auto& t : ref.terms) {
            if (t.from == ord[k]) want.push_back(H{t.rel[0], t.rel[1], t.rel[2], slot(t.to), t.fam, false});
            if (t.to == ord[k]) want.push_back(H{-t.rel[0], -t.rel[1], -t.rel[2], slot(t.from), t.fam, true});
        }
        for (auto& h : s.hoppings) got.push_back(H{h.relative_index[0], h.relative_index[1], h.relative_index[2], h.to_sub_idx, h.family_id.value(), h.is_conjugate});
        std::sort(want.begin(), want.end()); std::sort(got.begin(), got.end());
        NCHECK(want == got, "hoppings of unit cell site ", k, ": ", got.size(), " expected ", want.size(), log);
    }
}

int main(int argc, char** argv) {
    return nat::run(argc, argv, [] {
        nat::section("builder", 2500, [](nat::Rng& r, long) {
            gen::Opt o; o.max_sub = 1; o.max_terms = 1; auto base = gen::lattice(r, o);
            Rec ref; Cartesian v[3] = {{0, 0, 0}, {0, 0, 0}, {0, 0, 0}};
            for (int i = 0; i < base.ndim; ++i) v[i] = base.vec[i];
            if (base.ndim == 2 && r.coin(1, 4)) std::swap(v[1], v[2]);
            Lattice l(v[0], v[1], v[2]); ref.ndim = base.ndim; ref.vec = base.vec;
            std::string log; char const* names[] = {"A", "B", "C", "D", "", "A"}; char const* hops[] = {"t", "t1", "t2", "", "t"};
            for (int k = r.range(2, 14); k > 0; --k) {
                auto before = ref;
                int op = r.range(0, 9); bool ok = true; std::function<void()> call;
                if (op <= 1) {
                    std::string n = names[r.range(0, 5)]; Cartesian p(r.dyadic(-1, 1), r.dyadic(-1, 1), 0); int kind = r.range(0, 2);
                    log += nat::str(" add_sublattice(", n, ",kind ", kind, ")");
                    ok = !n.empty() && ref.sub(n) < 0; MatrixXcd e;
                    if (kind == 0) { double x = r.range(-3, 3); e = MatrixXcd::Constant(1, 1, x); call = [=, &l] { l.add_sublattice(n, p, x); }; }
                    else if (kind == 1) { int m = r.range(0, 3); VectorXd x(m); e = MatrixXcd::Zero(m, m); for (int i = 0; i < m; ++i) { x[i] = r.range(-3, 3); e(i, i) = x[i]; } ok = ok && m > 0; call = [=, &l] { l.add_sublattice(n, p, x); }; }
                    else { bool eok; auto m = energy(r, eok, e); ok = ok && eok; call = [=, &l] { l.add_sublattice(n, p, m); }; log += nat::str("[", m.rows(), "x", m.cols(), "]"); }
                    if (ok) ref.subs.push_back({n, p, e, (int)ref.subs.size()});
                } else if (op == 2) {
                    std::string n = r.coin() ? nat::str("al", ref.subs.size()) : names[r.range(0, 5)], g = names[r.range(0, 4)]; if (!ref.subs.empty() && r.coin(2, 3)) g = ref.subs[r.range(0, (int)ref.subs.size() - 1)].name;
                    Cartesian p(r.dyadic(-1, 1), r.dyadic(-1, 1), 0);
                    log += nat::str(" add_alias(", n, ",", g, ")");
                    int q = ref.sub(g); ok = !n.empty() && ref.sub(n) < 0 && q >= 0;
                    call = [=, &l] { l.add_alias(n, g, p); };
                    if (ok) { nat::cover(ref.subs[q].alias != q ? "alias-of-alias" : "alias"); ref.subs.push_back({n, p, ref.subs[q].e, ref.subs[q].alias}); }
                } else if (op == 3) {
                    std::string n = hops[r.range(0, 4)]; int kind = r.range(0, 1);
                    log += nat::str(" register(", n, ")"); ok = !n.empty() && ref.fam(n) < 0; MatrixXcd e;
                    if (kind == 0) { Z x{(double)r.range(-2, 2), r.coin(1, 3) ? 1. : 0.}; e = MatrixXcd::Constant(1, 1, x); call = [=, &l] { l.register_hopping_energy(n, x); }; }
                    else { int a = r.range(0, 3), b = r.range(0, 3); e = MatrixXcd(a, b); for (int i = 0; i < a; ++i) for (int j = 0; j < b; ++j) e(i, j) = Z{(double)r.range(-2, 2), (double)r.range(-1, 1)}; ok = ok && a > 0 && b > 0; call = [=, &l] { l.register_hopping_energy(n, e); }; }
                    if (ok) ref.fams.push_back({n, e});
                } else if (op <= 7) {
                    auto pick = [&] { return r.coin(1, 12) || ref.subs.empty() ? std::string("zz") : ref.subs[r.range(0, (int)ref.subs.size() - 1)].name; };
                    std::string a = pick(), b = pick(); if (r.coin(1, 4)) b = a; I3 rel{{r.range(-1, 1), r.range(-1, 1), r.coin(1, 5) ? r.range(-1, 1) : 0}};
                    if (r.coin(1, 5) && !ref.terms.empty()) { // again, or from the other end
                        auto t = ref.terms[r.range(0, (int)ref.terms.size() - 1)]; bool rev = r.coin();
                        a = ref.subs[rev ? t.to : t.from].name; b = ref.subs[rev ? t.from : t.to].name; rel = t.rel; if (rev) for (auto& x : rel) x = -x;
                        if (r.coin(1, 4)) rel[0] = -rel[0];
                    }
                    Index3D ri(rel[0], rel[1], rel[2]); int ia = ref.sub(a), ib = ref.sub(b);
                    bool dup = false;
                    for (auto& t : ref.terms) dup |= (t.from == ia && t.to == ib && t.rel == rel) || (t.from == ib && t.to == ia && t.rel == I3{{-rel[0], -rel[1], -rel[2]}});
                    bool good = ia >= 0 && ib >= 0 && !dup && !(a == b && rel == I3{{0, 0, 0}});
                    if (dup) nat::cover("duplicate-bond");
                    log += nat::str(" add_hopping(", rel[0], ",", rel[1], ",", rel[2], " ", a, ">", b);
                    if (op <= 5) {
                        std::string n = ref.fams.empty() || r.coin(1, 10) ? "nope" : ref.fams[r.range(0, (int)ref.fams.size() - 1)].name; int f = ref.fam(n);
                        log += " " + n + ")";
                        ok = good && f >= 0 && ref.fams[f].e.rows() == ref.subs[ia].e.rows() && ref.fams[f].e.cols() == ref.subs[ib].e.cols();
                        call = [=, &l] { l.add_hopping(ri, a, b, n); };
                        if (ok) ref.terms.push_back({rel, ia, ib, f});
                    } else {
                        int x = r.coin(1, 6) ? r.range(0, 3) : ia >= 0 ? (int)ref.subs[ia].e.rows() : 1, y = r.coin(1, 6) ? r.range(0, 3) : ib >= 0 ? (int)ref.subs[ib].e.rows() : 1; bool scalar = x == 1 && y == 1 && r.coin();
                        MatrixXcd e(x, y); for (int i = 0; i < x; ++i) for (int j = 0; j < y; ++j) e(i, j) = Z{(double)r.range(-2, 2), (double)r.range(0, 1)};
                        log += nat::str(" [", x, "x", y, "])");
                        ok = good && x > 0 && y > 0 && x == ref.subs[ia].e.rows() && y == ref.subs[ib].e.cols();
                        if (scalar) call = [=, &l] { l.add_hopping(ri, a, b, e(0, 0)); }; else call = [=, &l] { l.add_hopping(ri, a, b, e); };
                        if (ok) {
                            bool known = false; for (auto& f : ref.fams) known |= same(f.e, e);
                            call(); call = nullptr;
                            // the family which received the term must have this energy
                            int hit = -1;
                            for (auto& p : l.get_hoppings()) { int f = ref.fam(p.first); int n = 0; for (auto& t : ref.terms) n += t.fam == f; if ((int)p.second.terms.size() > (f < 0 ? 0 : n)) { NCHECK(hit == -1, "several families changed", log); hit = p.second.family_id.value(); NCHECK(same(p.second.energy, e), "anonymous hopping stored with another energy", log); if (f < 0) { NCHECK(!known, "energy registered twice", log); ref.fams.push_back({p.first, e}); } } }
                            NCHECK(hit >= 0, "hopping lost", log);
                            ref.terms.push_back({rel, ia, ib, hit});
                        }
                    }
                } else if (op == 8) {
                    Cartesian c(0, 0, 0); float f[3] = {0, 0, 0};
                    for (int i = 0; i < ref.ndim; ++i) { f[i] = r.range(-7, 7) / 8.f; c += f[i] * ref.vec[i]; ok = ok && std::abs(f[i]) < .55f; }
                    log += nat::str(" set_offset(", f[0], ",", f[1], ",", f[2], ")");
                    auto keep = l.get_offset(); bool copy = r.coin();
                    if (copy) { if (ok) { auto n = l.with_offset(c); NCHECK(n.get_offset() == c && l.get_offset() == keep, "with_offset"); } else NCHECK(nat::throws([&] { l.with_offset(c); }), "with_offset beyond half a cell", log); continue; }
                    call = [=, &l] { l.set_offset(c); };
                    if (ok) ref.offset = c;
                } else {
                    int n = r.range(0, 4); log += nat::str(" min_neighbors(", n, ")");
                    if (r.coin()) { auto c = l.with_min_neighbors(n); NCHECK(c.get_min_neighbors() == n && l.get_min_neighbors() == ref.minn, "with_min_neighbors"); continue; }
                    ref.minn = n; l.set_min_neighbors(n); continue;
                }
                if (!ok) ref = before;
                if (call) {
                    bool t = nat::throws(call);
                    if (ok) NCHECK(!t, "valid definition rejected:", log); else { NCHECK(t, "invalid definition accepted:", log); nat::cover("rejected"); }
                }
                nat::note("dim ", ref.ndim, log);
                compare(l, ref, log);
            }
            // positions and lattice coordinates
            for (int q = 0; q < 6; ++q) {
                Index3D i(r.range(-4, 4), r.range(-4, 4), r.range(-4, 4)); Cartesian p = ref.offset;
                for (int d = 0; d < ref.ndim; ++d) p += float(i[d]) * ref.vec[d];
                NCHECK((l.calc_position(i) - p).norm() < 1e-4f, "calc_position of a cell");
                for (auto& s : ref.subs) NCHECK((l.calc_position(i, s.name) - p - s.pos).norm() < 1e-4f, "calc_position of ", s.name);
                NCHECK(nat::throws([&] { l.calc_position(i, "zz"); }), "calc_position of an unknown sublattice");
                auto c = l.translate_coordinates(p - ref.offset);
                for (int d = 0; d < 3; ++d) NCHECK(std::abs(c[d] - (d < ref.ndim ? i[d] : 0)) < 1e-3f, "translate_coordinates");
            }
        });
    });
}
