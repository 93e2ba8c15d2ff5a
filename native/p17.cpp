// P17: the reordered and scaled Hamiltonian against the original matrix, and every KPM algorithm against plain dense Chebyshev iteration.
#include "gen.hpp"
#include "KPM.hpp"
#include "kpm/OptimizedHamiltonian.hpp"
#include "kpm/Moments.hpp"
#include "kpm/Starter.hpp"
#include "kpm/default/Compute.hpp"
using namespace cpb;
using C = std::complex<double>;
using MatC = Eigen::MatrixXcd;
using kpm::Indices;

template<class T> T mk(C z);
template<> float mk(C z) { return (float)z.real(); }
template<> double mk(C z) { return z.real(); }
template<> std::complex<float> mk(C z) { return {(float)z.real(), (float)z.imag()}; }
template<> C mk(C z) { return z; }
template<class T> struct is_c : std::false_type {};
template<class T> struct is_c<std::complex<T>> : std::true_type {};

template<class T> struct Sys { int n; MatC dense; std::vector<std::vector<bool>> stored; std::shared_ptr<SparseMatrixX<T>> h; };

/// Random Hermitian matrix: chains, trees, random graphs, several components, isolated sites
template<class T> Sys<T> make(nat::Rng& r, int max_n) {
    Sys<T> s; int n = s.n = r.range(1, max_n);
    s.dense = MatC::Zero(n, n); s.stored.assign(n, std::vector<bool>(n, false));
    auto val = [&] { return C(r.range(-8, 8) / 8.0, is_c<T>::value ? r.range(-8, 8) / 8.0 : 0); };
    std::vector<int> label(n); for (int i = 0; i < n; ++i) label[i] = i;
    for (int i = n - 1; i > 0; --i) std::swap(label[i], label[r.range(0, i)]);
    auto link = [&](int a, int b) { if (a == b) return; a = label[a]; b = label[b]; auto v = val(); s.dense(a, b) = v; s.dense(b, a) = std::conj(v); s.stored[a][b] = s.stored[b][a] = true; };
    int kind = r.range(0, 3), parts = r.range(0, 2) ? 1 : r.range(1, 4);
    for (int i = 1; i < n; ++i) { if (parts > 1 && r.range(0, n) < parts) continue; if (kind == 0) link(i - 1, i); else if (kind == 1) link(r.range(0, i - 1), i); else link(r.range(std::max(0, i - 3), i - 1), i); }
    if (kind > 1) for (int k = r.range(0, n); k > 0; --k) { int a = r.range(0, n - 1); link(a, std::min(n - 1, a + r.range(1, 4))); }
    int diag = r.range(0, 2);
    for (int i = 0; i < n; ++i) if (diag == 2 || (diag == 1 && r.coin())) { s.dense(i, i) = r.range(-8, 8) / 8.0; s.stored[i][i] = true; }
    s.h = std::make_shared<SparseMatrixX<T>>(n, n);
    for (int i = 0; i < n; ++i) { s.h->startVec(i); for (int j = 0; j < n; ++j) if (s.stored[i][j]) s.h->insertBack(i, j) = mk<T>(s.dense(i, j)); }
    s.h->finalize(); s.h->makeCompressed();
    nat::addnote("n ", n, " kind ", kind, " parts ", parts, " diagonal ", diag, " scalar ", sizeof(T), is_c<T>::value ? "c" : "");
    nat::fingerprint(nat::str(s.dense));
    return s;
}
template<class T> Indices pick(nat::Rng& r, int n, int kind) {
    auto list = [&](int k) { std::vector<idx_t> v; for (int i = 0; i < k; ++i) v.push_back(r.range(0, n - 1)); return v; };
    if (kind == 0) { auto i = r.range(0, n - 1); nat::addnote(" idx ", i); return {i, i}; }
    if (kind == 1) { auto v = list(r.range(1, 4)); nat::addnote(" idx"); for (auto i : v) nat::addnote(" ", i); return {v, v}; }
    auto i = r.range(0, n - 1); auto v = list(r.range(1, 4)); nat::addnote(" idx ", i, " ->"); for (auto k : v) nat::addnote(" ", k);
    return {i, v};
}
static kpm::Scale<> scale_for(nat::Rng& r, MatC const& d) {
    double w = 0; for (int i = 0; i < d.rows(); ++i) w = std::max(w, d.row(i).cwiseAbs().sum());
    w += .25; double shift = r.coin() ? 0 : r.range(-4, 4) / 8.0;
    nat::addnote(" shift ", shift);
    return {-w + shift - std::abs(shift), w + shift + std::abs(shift)};
}
/// The matrix held by the optimised Hamiltonian, as stored elements
struct Flat {
    MatC d; std::vector<std::vector<int>> count;
    template<class T> void operator()(SparseMatrixX<T> const& m) { init(m.rows()); for (int i = 0; i < m.rows(); ++i) for (typename SparseMatrixX<T>::InnerIterator it(m, i); it; ++it) { d(i, it.col()) += C(it.value()); ++count[i][it.col()]; } }
    template<class T> void operator()(num::EllMatrix<T> const& m) { init(m.rows()); for (int j = 0; j < m.nnz_per_row; ++j) for (int i = 0; i < m.rows(); ++i) d(i, m.indices(i, j)) += C(m.data(i, j)); }
    void init(int n) { d = MatC::Zero(n, n); count.assign(n, std::vector<int>(n, 0)); }
};
static std::vector<int> ordering(kpm::OptimizedHamiltonian const& oh, int n) {
    VectorX<double> v(n); for (int i = 0; i < n; ++i) v[i] = i;
    oh.reorder(v);
    std::vector<int> to(n, -1);
    for (int k = 0; k < n; ++k) { int o = (int)v[k]; NCHECK(o >= 0 && o < n && to[o] < 0, "not a permutation: old index ", o, " at ", k); to[o] = k; }
    return to;
}
template<class T> void structure(nat::Rng& r) {
    auto s = make<T>(r, 40); int n = s.n;
    auto ell = r.coin(); bool reorder = r.range(0, 3) != 0; nat::addnote(ell ? " ell" : " csr", reorder ? " reordered" : "");
    auto oh = kpm::OptimizedHamiltonian(Hamiltonian(s.h), ell ? kpm::MatrixFormat::ELL : kpm::MatrixFormat::CSR, reorder);
    auto sc = scale_for(r, s.dense); double tol = std::is_same<num::get_real_t<T>, float>::value ? 2e-5 : 1e-12;
    for (int round = r.range(1, 2); round > 0; --round) {
        auto idx = pick<T>(r, n, r.range(0, 2));
        oh.optimize_for(idx, sc);
        auto to = ordering(oh, n);
        if (!reorder) for (int i = 0; i < n; ++i) NCHECK(to[i] == i, "reordered without need");
        Flat f; var::apply_visitor(f, oh.matrix());
        NCHECK(f.d.rows() == n, "size");
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
            C ref = (s.dense(i, j) - (i == j ? sc.b : 0)) * 2. / sc.a;
            NCHECK(std::abs(f.d(to[i], to[j]) - ref) <= tol, "element ", i, ",", j, " is ", f.d(to[i], to[j]), " instead of ", ref);
            if (!ell) NCHECK(f.count[to[i]][to[j]] <= 1, "element ", i, ",", j, " stored ", f.count[to[i]][to[j]], " times");
        }
        NCHECK(oh.size() == n, "size()");
        auto& o = oh.idx();
        NCHECK(o.src.size() == idx.src.size() && o.dest.size() == idx.dest.size(), "index lists");
        for (int i = 0; i < idx.src.size(); ++i) NCHECK(o.src[i] == to[idx.src[i]], "source ", i);
        for (int i = 0; i < idx.dest.size(); ++i) NCHECK(o.dest[i] == to[idx.dest[i]], "destination ", i);
        NCHECK(o.is_diagonal() == (idx.src.size() == idx.dest.size() && (idx.src == idx.dest).all()), "is_diagonal");
        auto& map = oh.map(); auto last = map.last_index();
        NCHECK(map[last] == n, "the last slice ends at ", map[last]);
        if (!reorder) { NCHECK(last == 0, "one slice"); continue; }
        NCHECK(o.src[0] == 0 && map[0] == 1, "the first source comes first");
        for (int k = 0; k < last; ++k) {
            NCHECK(map[k] < map[k + 1], "borders ", map[k], " ", map[k + 1]);
            for (int i = 0; i < map[k]; ++i) for (int j = 0; j < n; ++j) if (f.d(i, j) != 0.) NCHECK(j < map[k + 1], "row ", i, " of slice ", k, " reaches ", j);
        }
        auto hi = [&](ArrayXi const& a) { return a.maxCoeff(); };
        NCHECK(map[map.get_src_offset()] > hi(o.src) && map[map.get_dest_offset()] > hi(o.dest), "offsets");
        NCHECK(!map.get_src_offset() || map[map.get_src_offset() - 1] <= hi(o.src), "source offset too large");
        NCHECK(!map.get_dest_offset() || map[map.get_dest_offset() - 1] <= hi(o.dest), "destination offset too large");
        auto N = r.range(1, 80);
        for (int k = 0; k < N; ++k) {
            auto need = std::min<idx_t>({last, k + map.get_src_offset(), N - 1 - k + map.get_dest_offset()});
            NCHECK(map.index(k, N) >= need && map.index(k, N) <= last && map.optimal_size(k, N) == map[map.index(k, N)], "moment ", k, " of ", N, ": slice ", map.index(k, N), " but ", need, " is needed");
        }
        if (last > 2) nat::cover("slices");
        // vectors and operators
        VectorXcd v(n); for (int i = 0; i < n; ++i) v[i] = C(r.range(-9, 9), r.range(-9, 9));
        auto w = v; oh.reorder(w); for (int i = 0; i < n; ++i) NCHECK(w[to[i]] == v[i], "reorder vector ", i);
        SparseMatrixXcd op(n, n); MatC od = MatC::Zero(n, n);
        for (int k = r.range(0, 2 * n); k > 0; --k) { int a = r.range(0, n - 1), b = r.range(0, n - 1); if (od(a, b) == 0.) { od(a, b) = C(r.range(1, 9), r.range(-3, 3)); op.insert(a, b) = od(a, b); } }
        op.makeCompressed(); oh.reorder(op); MatC got = MatC(op);
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) NCHECK(got(to[i], to[j]) == od(i, j), "reorder operator ", i, ",", j);
    }
}

/// T_n(H~)|r> by the definition
static std::vector<VectorXcd> chebyshev(MatC const& h, VectorXcd const& r0, int N) {
    std::vector<VectorXcd> v{r0, h * r0};
    for (int n = 2; n < N; ++n) v.push_back(2. * (h * v[n - 1]) - v[n - 2]);
    return v;
}
template<class T> void moments(nat::Rng& r) {
    auto s = make<T>(r, 30); int n = s.n;
    auto ell = r.coin(); kpm::AlgorithmConfig ac = {r.coin(), r.coin()};
    nat::addnote(ell ? " ell" : " csr", ac.optimal_size ? " optimal" : "", ac.interleaved ? " interleaved" : "");
    auto oh = kpm::OptimizedHamiltonian(Hamiltonian(s.h), ell ? kpm::MatrixFormat::ELL : kpm::MatrixFormat::CSR, ac.reorder());
    auto sc = scale_for(r, s.dense);
    MatC h = (s.dense - MatC::Identity(n, n) * sc.b) / sc.a;
    int kind = r.range(0, 4), N = 2 + 4 * r.range(0, 12);
    double tol = (std::is_same<num::get_real_t<T>, float>::value ? 1e-4 : 1e-10) * N;
    auto compute = kpm::DefaultCompute(r.range(1, 3));
    nat::addnote(" moments ", N, " kind ", kind);
    auto same = [&](C got, C ref, char const* what, int i, int k) { NCHECK(std::abs(got - ref) <= tol, what, " ", k, " of vector ", i, " is ", got, " instead of ", ref); };
    auto unit = [&](int i) { VectorXcd v = VectorXcd::Zero(n); v[i] = 1; return v; };
    auto half = [](C z, int k) { return k == 0 ? z * .5 : z; };
    if (kind == 0) {                                            // one diagonal element
        auto idx = pick<T>(r, n, 0); oh.optimize_for(idx, sc);
        kpm::DiagonalMoments m(N); compute.moments(&m, kpm::unit_starter(oh), ac, oh);
        auto& d = m.data.template get<ArrayX<T>>(); auto v = chebyshev(h, unit(idx.src[0]), N);
        NCHECK(d.size() == N, "size"); for (int k = 0; k < N; ++k) same(d[k], half(v[k][idx.src[0]], k), "diagonal moment", 0, k);
    } else if (kind == 1) {                                     // several
        auto idx = pick<T>(r, n, 1); oh.optimize_for(idx, sc); int num = (int)idx.src.size();
        kpm::BatchDiagonalMoments m(N, num, kpm::BatchConcatenator()); compute.moments(&m, kpm::unit_starter(oh), ac, oh);
        auto& d = m.data.template get<ArrayXX<T>>(); NCHECK(d.rows() == N && d.cols() == num, "size");
        for (int i = 0; i < num; ++i) { auto v = chebyshev(h, unit(idx.src[i]), N); for (int k = 0; k < N; ++k) same(d(k, i), half(v[k][idx.src[i]], k), "batch moment", i, k); }
    } else if (kind == 2) {                                     // one row, several columns
        auto idx = pick<T>(r, n, 2); oh.optimize_for(idx, sc);
        kpm::MultiUnitMoments m(N, oh.idx()); compute.moments(&m, kpm::unit_starter(oh), ac, oh);
        auto& d = m.data.template get<std::vector<ArrayX<T>>>(); auto v = chebyshev(h, unit(idx.src[0]), N);
        NCHECK((int)d.size() == (int)idx.dest.size(), "size");
        for (int i = 0; i < idx.dest.size(); ++i) for (int k = 0; k < N; ++k) same(d[i][k], half(v[k][idx.dest[i]], k), "off-diagonal moment", i, k);
    } else {                                                    // whole vectors: no size optimisation
        ac.optimal_size = false;
        oh.optimize_for({0, 0}, sc);
        auto rv = [&] { VectorXcd v(n); for (int i = 0; i < n; ++i) v[i] = C(r.range(-4, 4) / 4., is_c<T>::value ? r.range(-4, 4) / 4. : 0); return v; };
        auto alpha = rv(), beta = r.coin() ? rv() : VectorXcd(); auto v = chebyshev(h, alpha, N); tol *= n;
        if (kind == 3) {
            SparseMatrixXcd op; MatC od = MatC::Identity(n, n);
            if (r.coin()) { op = SparseMatrixXcd(n, n); od = MatC::Zero(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (r.range(0, 3) == 0) { od(i, j) = C(r.range(-3, 3), is_c<T>::value ? r.range(-3, 3) : 0); op.insert(i, j) = od(i, j); } op.makeCompressed(); tol *= 10; }
            kpm::GenericMoments m(N, alpha, beta, op); compute.moments(&m, kpm::constant_starter(oh, alpha), ac, oh);
            auto& d = m.data.template get<ArrayX<T>>(); NCHECK(d.size() == N, "size");
            for (int k = 0; k < N; ++k) same(d[k], half((beta.size() ? beta : alpha).dot(od * v[k]), k), "generic moment", 0, k);
        } else {
            ArrayXf x(n); for (int i = 0; i < n; ++i) x[i] = r.range(-4, 4);
            bool with = r.coin(); MatC op = MatC::Identity(n, n);
            if (with) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) op(i, j) = s.dense(i, j) * double(x[i] - x[j]);
            kpm::DenseMatrixMoments m(N, with ? kpm::velocity(Hamiltonian(s.h), x) : VariantCSR{}); compute.moments(&m, kpm::constant_starter(oh, alpha), ac, oh);
            auto& d = m.data.template get<MatrixX<T>>(); NCHECK(d.rows() == N && d.cols() == n, "size"); tol *= 10;
            auto to = ordering(oh, n);
            for (int k = 0; k < N; ++k) { VectorXcd w = op * v[k]; for (int i = 0; i < n; ++i) same(d(k, to[i]), half(w[i], k), "vector element", i, k); }
        }
    }
    if (ac.optimal_size && oh.map().last_index() > 1) nat::cover("size optimisation");
    if (ac.interleaved) nat::cover("interleaved");
}
#define BY_SCALAR(f) [](nat::Rng& r, long) { switch (r.range(0, 3)) { case 0: f<float>(r); break; case 1: f<double>(r); break; case 2: f<std::complex<float>>(r); break; default: f<C>(r); } }
int main(int argc, char** argv) {
    return nat::run(argc, argv, [] {
        nat::section("structure", 4000, BY_SCALAR(structure));
        nat::section("moments", 6000, BY_SCALAR(moments));
    });
}
