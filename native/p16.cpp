// P16: walking compressed matrices, building them, ELLPACK form and products, against dense arithmetic on small integers.
#include "nat.hpp"
#include "numeric/sparse.hpp"
#include "numeric/ellmatrix.hpp"
#include "compute/kernel_polynomial.hpp"
using namespace cpb;

template<class T> T rnd(nat::Rng& r) { return T(r.range(-4, 4)); }
template<> std::complex<float> rnd(nat::Rng& r) { return {(float)r.range(-4, 4), (float)r.range(-4, 4)}; }
template<> std::complex<double> rnd(nat::Rng& r) { return {(double)r.range(-4, 4), (double)r.range(-4, 4)}; }

template<class T> struct TheRef { int rows, cols; std::vector<std::vector<std::pair<int, T>>> el; };   // rows of (column, value), zeros may be stored

template<class T> TheRef<T> make(nat::Rng& r, bool square) {
    TheRef<T> m; m.rows = r.range(0, 9); m.cols = square ? m.rows : r.range(1, 9); m.el.resize(m.rows);
    int fill = r.range(0, 100), empty = r.range(0, 60);
    for (int i = 0; i < m.rows; ++i) {
        if (r.range(0, 99) < empty) continue;
        for (int j = 0; j < m.cols; ++j) if (r.range(0, 99) < fill) m.el[i].push_back({j, rnd<T>(r)});
    }
    return m;
}
template<class T> SparseMatrixX<T> pack(TheRef<T> const& m) {
    SparseMatrixX<T> s(m.rows, m.cols);
    for (int i = 0; i < m.rows; ++i) { s.startVec(i); for (auto& e : m.el[i]) s.insertBack(i, e.first) = e.second; }
    s.finalize(); s.makeCompressed();
    return s;
}
template<class T> std::string text(TheRef<T> const& m) {
    std::string s = nat::str(m.rows, "x", m.cols);
    for (int i = 0; i < m.rows; ++i) for (auto& e : m.el[i]) s += nat::str(" (", i, ",", e.first, ")=", e.second);
    return s;
}
template<class T> double re(T v) { return std::real(v); }
template<class T> T cj(T v) { return v; }
template<class U> std::complex<U> cj(std::complex<U> v) { return std::conj(v); }

template<class T> void walk(nat::Rng& r) {
    auto m = make<T>(r, false); auto s = pack(m);
    nat::note(text(m)); nat::fingerprint(text(m));
    struct E { int i, j; T v; };
    std::vector<E> all; std::vector<int> first(m.rows + 1, 0);
    for (int i = 0; i < m.rows; ++i) { first[i] = (int)all.size(); for (auto& e : m.el[i]) all.push_back({i, e.first, e.second}); }
    if (m.rows) first[m.rows] = (int)all.size();
    auto loop = sparse::make_loop(s);
    auto check = [&](std::vector<E> const& got, size_t from, size_t to, char const* what) {
        NCHECK(got.size() == to - from, what, ": ", got.size(), " elements instead of ", to - from);
        for (size_t k = 0; k < got.size(); ++k) NCHECK(got[k].i == all[from + k].i && got[k].j == all[from + k].j && got[k].v == all[from + k].v, what, ": element ", k);
    };
    std::vector<E> got;
    loop.for_each([&](idx_t i, idx_t j, T v) { got.push_back({(int)i, (int)j, v}); });
    check(got, 0, all.size(), "for_each");
    for (int i = 0; i < m.rows; ++i) {
        got.clear();
        loop.for_each_in_row(i, [&](idx_t j, T v) { got.push_back({i, (int)j, v}); });
        check(got, first[i], first[i + 1], "for_each_in_row");
        got.clear();
        for (auto it = sparse_row(s, i); it; ++it) got.push_back({(int)it.row(), (int)it.col(), it.value()});
        check(got, first[i], first[i + 1], "sparse_row");
    }
    for (int t = 0; t < 3 && m.rows; ++t) {
        int row = r.range(0, m.rows - 1), idx = r.range(first[row], first[row + 1]), size = r.range(0, (int)all.size() + 2);
        got.clear(); int n = 0; bool order = true;
        loop.slice_for_each(row, idx, size, [&](idx_t i, idx_t j, T v, idx_t k) { order = order && k == n++; got.push_back({(int)i, (int)j, v}); });
        NCHECK(order, "slice_for_each: numbers");
        check(got, idx, std::min<size_t>(all.size(), idx + size), "slice_for_each");
    }
    {   // the buffer holds what was visited since the last time it was processed, and names where that part starts
        int size = r.range(1, 6); got.clear();
        std::vector<E> buffer, done; bool ok = true; int calls = 0;
        auto process = [&](idx_t row, idx_t idx, idx_t n) {
            ++calls;
            ok = ok && n == (idx_t)buffer.size() && n <= size && idx == (idx_t)done.size();
            if (n > 0) ok = ok && first[row] <= idx && idx <= first[row + 1];
            std::vector<E> again;
            if (n > 0) loop.slice_for_each(row, idx, n, [&](idx_t i, idx_t j, T v, idx_t) { again.push_back({(int)i, (int)j, v}); });
            ok = ok && again.size() == buffer.size();
            for (size_t k = 0; ok && k < again.size(); ++k) ok = again[k].i == buffer[k].i && again[k].j == buffer[k].j;
            for (auto& e : buffer) done.push_back(e);
            buffer.clear();
        };
        loop.buffered_for_each(size, [&](idx_t i, idx_t j, T v, idx_t n) { ok = ok && n == (idx_t)buffer.size(); buffer.push_back({(int)i, (int)j, v}); }, process);
        NCHECK(ok, "buffered_for_each: size ", size);
        NCHECK(buffer.empty(), "buffered_for_each: not processed");
        check(done, 0, all.size(), "buffered_for_each");
    }
    size_t most = 0; for (auto& e : m.el) most = std::max(most, e.size());
    NCHECK(sparse::max_nnz_per_row(s) == (idx_t)most, "max_nnz_per_row");
    {
        auto c = csrref(s);
        NCHECK(c.rows == m.rows && c.cols == m.cols && c.nnz == (int)all.size(), "csrref: sizes");
        num::AnyCsrConstRef any = c;
        auto d = any.data_ref(), i = any.indices_ref(), p = any.indptr_ref();
        NCHECK(d.shape[0] == c.nnz && i.shape[0] == c.nnz && p.shape[0] == c.rows + 1, "csrref: arrays");
        for (int k = 0; k < c.nnz; ++k) NCHECK(c.data()[k] == all[k].v && c.indices[k] == all[k].j && ((int const*)i.data)[k] == all[k].j && ((T const*)d.data)[k] == all[k].v, "csrref: element ", k);
        for (int k = 0; m.rows && k <= m.rows; ++k) NCHECK(c.indptr[k] == first[k], "csrref: row ", k);
    }
    {   // insertion in any order within a row, any rows left out
        SparseMatrixX<T> b(m.rows, m.cols);
        b.resizeNonZeros((int)all.size());
        auto in = compressed_inserter(b, (idx_t)all.size());
        bool skip = r.coin();
        for (int i = 0; i < m.rows; ++i) {
            if (skip && m.el[i].empty()) continue;
            if (skip) in.start_row(i); else in.start_row();
            auto e = m.el[i];
            for (int k = (int)e.size() - 1; k > 0; --k) std::swap(e[k], e[r.range(0, k)]);
            for (auto& x : e) in.insert(x.first, x.second);
        }
        in.compress();
        NCHECK(b.nonZeros() == (int)all.size(), "inserter: size");
        got.clear();
        sparse::make_loop(b).for_each([&](idx_t i, idx_t j, T v) { got.push_back({(int)i, (int)j, v}); });
        check(got, 0, all.size(), "inserter");
    }
    {
        auto e = num::csr_to_ell(s);
        NCHECK(e.rows() == m.rows && e.cols() == m.cols && e.nnz_per_row == (idx_t)most, "ell: sizes");
        NCHECK(e.data.rows() >= m.rows && e.indices.rows() >= m.rows && e.data.cols() == e.nnz_per_row && e.indices.cols() == e.nnz_per_row, "ell: arrays");
        for (int i = 0; i < m.rows; ++i) for (int n = 0; n < (int)most; ++n) {
            int j = e.indices(i, n);
            if (n < (int)m.el[i].size()) NCHECK(j == m.el[i][n].first && e.data(i, n) == m.el[i][n].second, "ell: element (", i, ",", n, ")");
            else NCHECK(e.data(i, n) == T(0) && j >= 0 && j < m.cols, "ell: padding (", i, ",", n, ") = ", e.data(i, n), " column ", j);
        }
        Eigen::Matrix<T, -1, -1> dense = Eigen::Matrix<T, -1, -1>::Zero(m.rows, m.cols), ref = dense;
        std::vector<std::pair<int, int>> order;
        e.for_each([&](idx_t i, idx_t j, T v) { dense(i, j) += v; order.push_back({(int)i, (int)j}); });
        NCHECK(order.size() == size_t(m.rows) * most, "ell: for_each");
        for (auto& x : all) ref(x.i, x.j) += x.v;
        NCHECK(m.rows == 0 || dense == ref, "ell: for_each gives another matrix");
        int a = r.range(0, m.rows), b = r.range(a, m.rows);
        Eigen::Matrix<T, -1, -1> part = Eigen::Matrix<T, -1, -1>::Zero(m.rows, m.cols);
        bool in = true;
        e.for_slice(a, b, [&](idx_t i, idx_t j, T v) { in = in && i >= a && i < b; part(i, j) += v; });
        for (int i = 0; i < m.rows; ++i) for (int j = 0; j < m.cols; ++j) in = in && part(i, j) == (i >= a && i < b ? ref(i, j) : T(0));
        NCHECK(in, "ell: for_slice ", a, " ", b);
    }
}

template<class T> void product(nat::Rng& r) {
    auto m = make<T>(r, true); auto s = pack(m); auto e = num::csr_to_ell(s);
    int N = m.rows; if (N == 0) throw nat::Skip(); nat::note(text(m)); nat::fingerprint(text(m));
    int a = r.range(0, N), b = r.range(a, N); if (r.coin()) { a = 0; b = N; }
    nat::addnote(" rows ", a, "..", b);
    auto mul = [&](std::vector<T> const& x, std::vector<T> const& y, int i) { T t = -y[i]; for (auto& el : m.el[i]) t += el.second * x[el.first]; return t; };
    {
        std::vector<T> x(N), y(N); VectorX<T> vx(N), vy(N);
        for (int i = 0; i < N; ++i) { vx[i] = x[i] = rnd<T>(r); vy[i] = y[i] = rnd<T>(r); }
        std::vector<T> ref = y; T m2 = rnd<T>(r), m3 = rnd<T>(r), r2 = m2, r3 = m3;
        for (int i = a; i < b; ++i) { ref[i] = mul(x, y, i); r2 += cj(x[i]) * x[i]; r3 += cj(ref[i]) * x[i]; }
        VectorX<T> y1 = vy, y2 = vy, y3 = vy, y4 = vy; T p2 = m2, p3 = m3, q2 = m2, q3 = m3;
        compute::kpm_spmv(a, b, s, vx, y1);
        compute::kpm_spmv(a, b, e, vx, y2);
        compute::kpm_spmv_diagonal(a, b, s, vx, y3, p2, p3);
        compute::kpm_spmv_diagonal(a, b, e, vx, y4, q2, q3);
        for (int i = 0; i < N; ++i) {
            NCHECK(y1[i] == ref[i], "csr product: row ", i, " is ", y1[i], " instead of ", ref[i]);
            NCHECK(y2[i] == ref[i], "ell product: row ", i, " is ", y2[i], " instead of ", ref[i]);
            NCHECK(y3[i] == ref[i] && y4[i] == ref[i], "fused product: row ", i);
        }
        NCHECK(p2 == r2 && p3 == r3, "csr sums");
        NCHECK(q2 == r2 && q3 == r3, "ell sums");
    }
    {
        int C = (int)simd::traits<T>::size;
        MatrixX<T> X(N, C), Y(N, C), R; simd::array<T> m2, m3, r2, r3;
        for (int i = 0; i < N; ++i) for (int j = 0; j < C; ++j) { X(i, j) = rnd<T>(r); Y(i, j) = rnd<T>(r); }
        for (int j = 0; j < C; ++j) { m2[j] = rnd<T>(r); m3[j] = rnd<T>(r); }
        R = Y; r2 = m2; r3 = m3;
        for (int j = 0; j < C; ++j) {
            for (int i = a; i < b; ++i) { T t = -Y(i, j); for (auto& el : m.el[i]) t += el.second * X(el.first, j); R(i, j) = t; r2[j] += cj(X(i, j)) * X(i, j); r3[j] += cj(t) * X(i, j); }
        }
        MatrixX<T> y1 = Y, y2 = Y, y3 = Y, y4 = Y; auto p2 = m2, p3 = m3, q2 = m2, q3 = m3;
        compute::kpm_spmv(a, b, s, X, y1); compute::kpm_spmv(a, b, e, X, y2);
        compute::kpm_spmv_diagonal(a, b, s, X, y3, p2, p3); compute::kpm_spmv_diagonal(a, b, e, X, y4, q2, q3);
        for (int i = 0; i < N; ++i) for (int j = 0; j < C; ++j) {
            NCHECK(y1(i, j) == R(i, j), "csr batch: (", i, ",", j, ")"); NCHECK(y2(i, j) == R(i, j), "ell batch: (", i, ",", j, ")");
            NCHECK(y3(i, j) == R(i, j) && y4(i, j) == R(i, j), "fused batch: (", i, ",", j, ")");
        }
        NCHECK(p2 == r2 && p3 == r3 && q2 == r2 && q3 == r3, "batch sums");
    }
}

int main(int argc, char** argv) {
    return nat::run(argc, argv, [] {
        nat::section("walk", 6000, [](nat::Rng& r, long) { switch (r.range(0, 3)) { case 0: walk<float>(r); break; case 1: walk<double>(r); break; case 2: walk<std::complex<float>>(r); break; default: walk<std::complex<double>>(r); } });
        nat::section("product", 6000, [](nat::Rng& r, long) { switch (r.range(0, 3)) { case 0: product<float>(r); break; case 1: product<double>(r); break; case 2: product<std::complex<float>>(r); break; default: product<std::complex<double>>(r); } });
        nat::section("complex arithmetic", 500, [](nat::Rng& r, long) {
            auto a = rnd<std::complex<double>>(r), b = rnd<std::complex<double>>(r); double x = r.range(-4, 4), y = r.range(-4, 4);
            nat::note(a, " ", b);
            NCHECK(compute::detail::mul(a, b) == a * b && compute::detail::mul(x, y) == x * y, "mul");
            NCHECK(compute::detail::real_dot(a, b) == (std::conj(a) * b).real() && compute::detail::real_dot(x, y) == x * y, "real_dot");
            NCHECK(compute::detail::square(a) == std::norm(a) && compute::detail::square(x) == x * x, "square");
        });
    });
}
