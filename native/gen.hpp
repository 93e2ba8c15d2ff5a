// Random lattices and an independent reference for systems and Hamiltonians built from them.
#pragma once
#include "nat.hpp"
#include "Model.hpp"
#include <algorithm>
#include <array>
#include <complex>
#include <memory>

namespace gen {
using namespace cpb;
using Z = std::complex<double>;
using MatZ = Eigen::Matrix<Z, Eigen::Dynamic, Eigen::Dynamic>;
using I3 = std::array<int, 3>;

struct Sub { std::string name; Cartesian pos; MatrixXcd energy; int alias_of; int norb() const { return (int)energy.rows(); } };
struct Fam { std::string name; MatrixXcd energy; };
struct Term { I3 rel; int from, to, fam; };

struct Opt {
    int min_dim = 1, max_dim = 3, max_sub = 4, max_orb = 3, max_rel = 2, max_terms = 7;
    bool complex_terms = true, aliases = true, onsite = true;
};

struct Lat {
    int ndim = 2;
    std::vector<Cartesian> vec;
    std::vector<Sub> subs;     // in registration order: index == unique id
    std::vector<Fam> fams;     // index == family id
    std::vector<Term> terms;
    int min_neighbors = 1;
    Cartesian offset = {0, 0, 0};

    /// sublattices in the order of the unit cell: orbitals, then alias, then definition order
    std::vector<int> order() const {
        std::vector<int> o(subs.size());
        for (auto i = 0u; i < o.size(); ++i) o[i] = (int)i;
        std::sort(o.begin(), o.end(), [&](int a, int b) {
            return std::make_tuple(subs[a].norb(), subs[a].alias_of, a) < std::make_tuple(subs[b].norb(), subs[b].alias_of, b);
        });
        return o;
    }
    Lattice build() const {
        Lattice l = ndim == 1 ? Lattice(vec[0]) : ndim == 2 ? Lattice(vec[0], vec[1]) : Lattice(vec[0], vec[1], vec[2]);
        for (auto i = 0u; i < subs.size(); ++i) {
            if (subs[i].alias_of == (int)i) l.add_sublattice(subs[i].name, subs[i].pos, subs[i].energy);
            else l.add_alias(subs[i].name, subs[subs[i].alias_of].name, subs[i].pos);
        }
        for (auto& f : fams) l.register_hopping_energy(f.name, f.energy);
        for (auto& t : terms) l.add_hopping(Index3D(t.rel[0], t.rel[1], t.rel[2]), subs[t.from].name, subs[t.to].name, fams[t.fam].name);
        l.set_min_neighbors(min_neighbors);
        l.set_offset(offset);
        return l;
    }
    std::string str() const {
        std::string s = nat::str("dim ", ndim, " vectors");
        for (auto& v : vec) s += nat::str(" (", v[0], ",", v[1], ",", v[2], ")");
        for (auto& x : subs) s += nat::str("; ", x.name, "(", x.pos[0], ",", x.pos[1], ",", x.pos[2], ") norb ", x.norb(), x.alias_of != (int)(&x - subs.data()) ? " alias of " + subs[x.alias_of].name : "");
        for (auto& t : terms) s += nat::str("; ", fams[t.fam].name, ":", subs[t.from].name, ">", subs[t.to].name, "@", t.rel[0], ",", t.rel[1], ",", t.rel[2]);
        s += nat::str("; min_neighbors ", min_neighbors, " offset ", offset[0], ",", offset[1], ",", offset[2]);
        return s;
    }
    Cartesian cell(int a, int b, int c) const {
        Cartesian p = a * vec[0];
        if (ndim > 1) p += b * vec[1];
        if (ndim > 2) p += c * vec[2];
        return p;
    }
    bool multi() const {
        for (auto& s : subs) if (s.norb() != 1) return true;
        for (auto& f : fams) if (f.energy.size() != 1) return true;
        return false;
    }
};

inline Z rz(nat::Rng& r, bool cplx) {
    Z v{r.range(-8, 8) / 4.0, cplx && r.coin() ? r.range(-8, 8) / 4.0 : 0.0};
    return v == Z{} ? Z{1.5, 0} : v;
}
inline MatrixXcd herm(nat::Rng& r, int n, bool cplx, bool onsite) {
    MatrixXcd m = MatrixXcd::Zero(n, n);
    if (!onsite || r.coin(1, 4)) return m;
    for (int i = 0; i < n; ++i) {
        m(i, i) = r.coin(1, 5) ? 0.0 : r.range(-8, 8) / 4.0;
        for (int j = i + 1; j < n; ++j) if (r.coin(2, 3)) { m(i, j) = rz(r, cplx); m(j, i) = std::conj(m(i, j)); }
    }
    return m;
}

inline Lat lattice(nat::Rng& r, Opt const& o = {}) {
    Lat l;
    l.ndim = r.range(o.min_dim, o.max_dim);
    Cartesian ax[3];
    ax[0] = r.coin() ? Cartesian(1, 0, 0) : Cartesian(1, .25f, 0);
    ax[1] = r.coin() ? Cartesian(0, 1, 0) : r.coin() ? Cartesian(.5f, 1, 0) : Cartesian(-.25f, .75f, 0);
    ax[2] = r.coin() ? Cartesian(0, 0, 1) : Cartesian(.25f, -.5f, 1.25f);
    float sc = r.coin(1, 3) ? 2.f : 1.f;
    for (int i = 0; i < l.ndim; ++i) l.vec.push_back(Cartesian(sc * ax[i]));
    int n = r.range(1, o.max_sub);
    bool cplx = o.complex_terms && r.coin(1, 3);
    int maxorb = r.coin(1, 2) ? 1 : o.max_orb;
    for (int i = 0; i < n; ++i) {
        Sub s; s.name = std::string(1, (char)('A' + i)); s.alias_of = i;
        s.pos = Cartesian(r.range(0, 7) / 8.f, l.ndim > 1 ? r.range(0, 7) / 8.f : 0.f, l.ndim > 2 || r.coin(1, 4) ? r.range(0, 7) / 8.f : 0.f);
        s.energy = herm(r, r.range(1, maxorb), cplx, o.onsite);
        l.subs.push_back(s);
    }
    if (o.aliases) for (int k = r.coin(1, 3) ? r.range(1, 2) : 0; k > 0; --k) {
        Sub s; s.name = "al" + std::to_string(k); s.alias_of = r.range(0, n - 1);
        s.pos = Cartesian(r.range(0, 7) / 8.f, l.ndim > 1 ? r.range(0, 7) / 8.f : 0.f, 0.f);
        s.energy = l.subs[s.alias_of].energy; l.subs.push_back(s);
    }
    int nt = r.range(l.subs.size() > 1 ? 1 : 1, o.max_terms);
    for (int k = 0; k < nt; ++k) {
        Term t; t.from = r.range(0, (int)l.subs.size() - 1); t.to = r.range(0, (int)l.subs.size() - 1);
        int m = r.coin(1, 6) ? o.max_rel : std::min(1, o.max_rel);
        for (int d = 0; d < 3; ++d) t.rel[d] = d < l.ndim ? r.range(-m, m) : 0;
        if (t.from == t.to && t.rel == I3{{0, 0, 0}}) continue;
        bool dup = false;
        for (auto& u : l.terms) {
            if (u.from == t.from && u.to == t.to && u.rel == t.rel) dup = true;
            if (u.from == t.to && u.to == t.from && u.rel == I3{{-t.rel[0], -t.rel[1], -t.rel[2]}}) dup = true;
        }
        if (dup) continue;
        int rows = l.subs[t.from].norb(), cols = l.subs[t.to].norb();
        t.fam = -1;
        if (r.coin()) for (auto f = 0u; f < l.fams.size(); ++f) if (l.fams[f].energy.rows() == rows && l.fams[f].energy.cols() == cols) t.fam = (int)f;
        if (t.fam < 0) {
            Fam f; f.name = "t" + std::to_string(l.fams.size()); f.energy = MatrixXcd::Zero(rows, cols);
            for (int i = 0; i < rows; ++i) for (int j = 0; j < cols; ++j) if (rows * cols == 1 || r.coin(3, 4)) f.energy(i, j) = rz(r, cplx);
            t.fam = (int)l.fams.size(); l.fams.push_back(f);
        }
        l.terms.push_back(t);
    }
    if (l.fams.empty()) { Fam f; f.name = "t0"; f.energy = MatrixXcd::Constant(1, 1, 1.0); l.fams.push_back(f); }
    return l;
}

/// Reference box of candidate sites: flat order = unit-cell order of sublattices, then c, b, a.
struct Box {
    Lat const* l; I3 lo, n; std::vector<int> ord;
    std::vector<char> valid; std::vector<Cartesian> pos;
    Box(Lat const& lat, I3 lo, I3 n) : l(&lat), lo(lo), n(n), ord(lat.order()) {
        valid.assign(size(), 1); pos.resize(size());
        for (int s = 0; s < (int)ord.size(); ++s) for (int c = 0; c < n[2]; ++c) for (int b = 0; b < n[1]; ++b) for (int a = 0; a < n[0]; ++a)
            pos[at(s, {{a, b, c}})] = lat.offset + lat.subs[ord[s]].pos + lat.cell(lo[0] + a, lo[1] + b, lo[2] + c);
    }
    int size() const { return n[0] * n[1] * n[2] * (int)ord.size(); }
    int at(int s, I3 c) const { int k = s; for (int d = 2; d >= 0; --d) k = k * n[d] + c[d]; return k; }
    int slot(int uid) const { for (auto i = 0u; i < ord.size(); ++i) if (ord[i] == uid) return (int)i; return -1; }
    int sub_of(int flat) const { return ord[flat / (n[0] * n[1] * n[2])]; }
    I3 cell_of(int flat) const { int r = flat % (n[0] * n[1] * n[2]); return I3{{r % n[0], r / n[0] % n[1], r / n[0] / n[1]}}; }
    bool inside(I3 c) const { for (int d = 0; d < 3; ++d) if (c[d] < 0 || c[d] >= n[d]) return false; return true; }
    /// flat index of every neighbour inside the box, one entry per hopping and direction
    std::vector<int> neighbors(int flat) const {
        std::vector<int> v; int u = sub_of(flat); I3 c = cell_of(flat);
        for (auto& t : l->terms) {
            if (t.from == u) { I3 q{{c[0] + t.rel[0], c[1] + t.rel[1], c[2] + t.rel[2]}}; if (inside(q)) v.push_back(at(slot(t.to), q)); }
            if (t.to == u) { I3 q{{c[0] - t.rel[0], c[1] - t.rel[1], c[2] - t.rel[2]}}; if (inside(q)) v.push_back(at(slot(t.from), q)); }
        }
        return v;
    }
    /// remove sites that lost neighbours and have too few left, until nothing changes
    void remove_dangling(int min) {
        std::vector<char> initial = valid;
        for (bool again = true; again;) {
            again = false;
            for (int i = 0; i < size(); ++i) if (valid[i]) {
                int k = 0, tot = 0;
                for (int j : neighbors(i)) { ++tot; if (valid[j]) ++k; }
                if (k < tot && k < min) { valid[i] = 0; again = true; }
            }
        }
    }
    std::string mask() const { std::string s; for (char c : valid) s += c ? '1' : '0'; return s; }
};

struct Bond { int fam, from, to; };
inline bool operator<(Bond a, Bond b) { return std::tie(a.fam, a.from, a.to) < std::tie(b.fam, b.from, b.to); }
inline bool operator==(Bond a, Bond b) { return a.fam == b.fam && a.from == b.from && a.to == b.to; }

/// Reference finished system
struct Sys {
    std::vector<Cartesian> pos; std::vector<int> sub;           // sub: alias id (site family)
    std::vector<int> norb; std::vector<Bond> bonds;
    struct Per { I3 dir; Cartesian shift; std::vector<Bond> bonds; };
    std::vector<Per> per;                                        // sorted by dir
    std::vector<MatrixXcd> onsite; std::vector<MatrixXcd> hop;   // by family id
    std::vector<std::string> site_name, hop_name;
    std::vector<int> start() const { std::vector<int> s{0}; for (int n : norb) s.push_back(s.back() + n); return s; }
};

inline Sys make(Box const& b) {
    Sys s; auto& l = *b.l;
    std::vector<int> idx(b.size(), -1);
    for (int i = 0; i < b.size(); ++i) if (b.valid[i]) {
        idx[i] = (int)s.pos.size(); int u = b.sub_of(i);
        s.pos.push_back(b.pos[i]); s.sub.push_back(l.subs[u].alias_of); s.norb.push_back(l.subs[u].norb());
    }
    for (int i = 0; i < b.size(); ++i) if (b.valid[i]) for (auto& t : l.terms) if (t.from == b.sub_of(i)) {
        I3 c = b.cell_of(i), q{{c[0] + t.rel[0], c[1] + t.rel[1], c[2] + t.rel[2]}};
        if (!b.inside(q)) continue;
        int j = b.at(b.slot(t.to), q);
        if (b.valid[j]) s.bonds.push_back({t.fam, idx[i], idx[j]});
    }
    std::sort(s.bonds.begin(), s.bonds.end());
    for (auto i = 0u; i < l.subs.size(); ++i) if (l.subs[i].alias_of == (int)i) { s.onsite.push_back(l.subs[i].energy); s.site_name.push_back(l.subs[i].name); }
    for (auto& f : l.fams) { s.hop.push_back(f.energy); s.hop_name.push_back(f.name); }
    return s;
}

/// Periodic images: area [lo, hi] in box cells; per[d] = period (0: open). Sites outside the area must be invalid already.
inline void add_periodic(Sys& s, Box const& b, I3 lo, I3 hi, I3 period) {
    auto& l = *b.l; std::vector<int> idx(b.size(), -1); int n = 0;
    for (int i = 0; i < b.size(); ++i) if (b.valid[i]) idx[i] = n++;
    std::map<I3, Sys::Per> m;
    for (int i = 0; i < b.size(); ++i) if (b.valid[i]) for (auto& t : l.terms) if (t.from == b.sub_of(i)) {
        I3 c = b.cell_of(i), q{{c[0] + t.rel[0], c[1] + t.rel[1], c[2] + t.rel[2]}}, dir{{0, 0, 0}};
        for (int d = 0; d < 3; ++d) if (period[d]) {
            while (q[d] > hi[d]) { q[d] -= period[d]; dir[d] -= 1; }
            while (q[d] < lo[d]) { q[d] += period[d]; dir[d] += 1; }
        }
        if (dir == I3{{0, 0, 0}} || !b.inside(q)) continue;
        int j = b.at(b.slot(t.to), q);
        if (!b.valid[j]) continue;
        auto& p = m[dir]; p.dir = dir;
        p.shift = l.cell(dir[0] * period[0], dir[1] * period[1], dir[2] * period[2]);
        p.bonds.push_back({t.fam, idx[i], idx[j]});
    }
    for (auto& kv : m) { std::sort(kv.second.bonds.begin(), kv.second.bonds.end()); s.per.push_back(kv.second); }
}

inline std::vector<Bond> bonds_of(HoppingBlocks const& hb) {
    std::vector<Bond> v;
    for (auto const& blk : hb) for (auto const& c : blk.coordinates()) v.push_back({blk.family_id().value(), (int)c.row, (int)c.col});
    std::sort(v.begin(), v.end());
    return v;
}
inline std::string bstr(std::vector<Bond> const& v) { std::string s; for (auto& b : v) s += nat::str(" ", b.fam, ":", b.from, "-", b.to); return s; }

inline void same_bonds(HoppingBlocks const& hb, std::vector<Bond> ref, char const* what) {
    auto got = bonds_of(hb);
    std::sort(ref.begin(), ref.end());
    if (got == ref) { ++nat::st().checks; return; }
    std::vector<Bond> miss, extra;
    std::set_difference(ref.begin(), ref.end(), got.begin(), got.end(), std::back_inserter(miss));
    std::set_difference(got.begin(), got.end(), ref.begin(), ref.end(), std::back_inserter(extra));
    NCHECK(false, what, ": missing", bstr(miss).substr(0, 200), " unexpected", bstr(extra).substr(0, 200));
}

inline void same_sites(System const& s, Sys const& ref) {
    NCHECK(s.num_sites() == (idx_t)ref.pos.size(), "sites ", s.num_sites(), " expected ", ref.pos.size());
    NCHECK(s.positions.y.size() == s.num_sites() && s.positions.z.size() == s.num_sites(), "coordinate arrays differ in length");
    NCHECK(s.hopping_blocks.get_num_sites() == s.num_sites(), "hopping container covers ", s.hopping_blocks.get_num_sites(), " sites");
    NCHECK(s.compressed_sublattices.decompressed_size() == s.num_sites(), "sublattice totals ", s.compressed_sublattices.decompressed_size());
    for (auto i = 0u; i < ref.pos.size(); ++i) {
        Cartesian p = s.positions[i];
        NCHECK((p - ref.pos[i]).norm() <= 1e-4f, "position of site ", i, ": ", p[0], ",", p[1], ",", p[2], " expected ", ref.pos[i][0], ",", ref.pos[i][1], ",", ref.pos[i][2]);
    }
    auto d = s.compressed_sublattices.decompressed();
    for (auto i = 0u; i < ref.sub.size(); ++i) NCHECK(d[i] == ref.sub[i], "sublattice of site ", i, " = ", d[i], " expected ", ref.sub[i]);
    int at = 0;
    for (auto const& run : s.compressed_sublattices) for (int k = 0; k < run.num_sites(); ++k, ++at)
        NCHECK(run.num_orbitals() == ref.norb[at], "orbitals of site ", at);
}

inline void same_bond_sets(System const& s, Sys const& ref) {
    if (s.num_sites() != (idx_t)ref.pos.size()) return; // not a question about bonds
    same_bonds(s.hopping_blocks, ref.bonds, "bonds");
    NCHECK(s.boundaries.size() == ref.per.size(), "boundaries ", s.boundaries.size(), " expected ", ref.per.size());
    std::vector<char> used(s.boundaries.size(), 0);
    for (auto& p : ref.per) {
        bool found = false;
        for (auto i = 0u; i < s.boundaries.size(); ++i) if (!used[i] && (s.boundaries[i].shift - p.shift).norm() < 1e-4f) {
            used[i] = 1; found = true; same_bonds(s.boundaries[i].hopping_blocks, p.bonds, "boundary bonds");
            break;
        }
        NCHECK(found, "no boundary with shift ", p.shift[0], ",", p.shift[1], ",", p.shift[2]);
    }
}

inline void same_system(System const& s, Sys const& ref) { same_sites(s, ref); same_bond_sets(s, ref); }

using Hop3 = std::function<void(MatrixXcd&, Cartesian, Cartesian, std::string const&)>;
using On3 = std::function<void(MatrixXcd&, Cartesian, std::string const&)>;

/// Dense reference Hamiltonian; the modifiers act on one element block at a time.
inline MatZ dense(Sys const& s, Cartesian k = {0, 0, 0}, std::vector<On3> const& on = {}, std::vector<Hop3> const& hm = {}) {
    auto st = s.start(); int n = st.back();
    MatZ h = MatZ::Zero(n, n);
    for (auto i = 0u; i < s.pos.size(); ++i) {
        MatrixXcd e = s.onsite[s.sub[i]];
        for (auto& f : on) f(e, s.pos[i], s.site_name[s.sub[i]]);
        h.block(st[i], st[i], e.rows(), e.cols()) += e;
    }
    for (auto& b : s.bonds) {
        MatrixXcd e = s.hop[b.fam];
        for (auto& f : hm) f(e, s.pos[b.from], s.pos[b.to], s.hop_name[b.fam]);
        h.block(st[b.from], st[b.to], e.rows(), e.cols()) += e;
        h.block(st[b.to], st[b.from], e.cols(), e.rows()) += e.adjoint();
    }
    for (auto& p : s.per) {
        Z ph = std::exp(Z{0, 1} * (double)k.dot(p.shift));
        for (auto& b : p.bonds) {
            MatrixXcd e = s.hop[b.fam];
            for (auto& f : hm) f(e, s.pos[b.from], Cartesian(s.pos[b.to] - p.shift), s.hop_name[b.fam]);
            e *= ph;
            h.block(st[b.from], st[b.to], e.rows(), e.cols()) += e;
            h.block(st[b.to], st[b.from], e.cols(), e.rows()) += e.adjoint();
        }
    }
    return h;
}

/// Any scalar type -> dense complex double
inline MatZ dense(Hamiltonian const& h) {
    MatZ r;
    auto conv = [&](auto const& p) { r = MatZ(Eigen::SparseMatrix<Z, Eigen::RowMajor>(p->template cast<Z>())); };
    if (ham::is<float>(h)) conv(ham::get_shared_ptr<float>(h));
    else if (ham::is<std::complex<float>>(h)) conv(ham::get_shared_ptr<std::complex<float>>(h));
    else if (ham::is<double>(h)) conv(ham::get_shared_ptr<double>(h));
    else conv(ham::get_shared_ptr<std::complex<double>>(h));
    return r;
}
inline void same_matrix(MatZ const& got, MatZ const& ref, double tol, char const* what) {
    NCHECK(got.rows() == ref.rows() && got.cols() == ref.cols(), what, " shape ", got.rows(), "x", got.cols(), " expected ", ref.rows());
    for (int i = 0; i < ref.rows(); ++i) for (int j = 0; j < ref.cols(); ++j)
        if (!(std::abs(got(i, j) - ref(i, j)) <= tol * (1 + std::abs(ref(i, j)))))
            NCHECK(false, what, " element (", i, ",", j, ") = ", got(i, j), " expected ", ref(i, j));
    ++nat::st().checks;
}

/// A shape that keeps exactly the sites with a pseudo-random mark (by position), inside a box of cells.
inline bool mark(Cartesian p, uint64_t seed, int num, int den) {
    auto q = [](float x) { return (uint64_t)(int64_t)std::lround(x * 64); };
    nat::Rng r(seed ^ (q(p[0]) * 1000003 + q(p[1]) * 10007 + q(p[2]) * 101));
    return r.coin(num, den);
}

} // namespace gen
