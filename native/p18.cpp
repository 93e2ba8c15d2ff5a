// P18: energy scaling, kernels, number of moments, and the validation of KPM requests at and around every boundary.
#include "gen.hpp"
#include "KPM.hpp"
#include "kpm/Kernel.hpp"
#include "kpm/Bounds.hpp"
using namespace cpb;
using C = std::complex<double>;

template<class real_t> void scaling(nat::Rng& r) {
    auto span = std::pow(10., r.range(-4, 4));
    double lo = r.real(-1, 1) * span, hi = lo + (r.range(0, 3) ? r.real(1e-3, 2) : r.real(1e-2, 1e-1)) * span;
    switch (r.range(0, 4)) { case 0: lo = -hi; if (lo > hi) std::swap(lo, hi); break; case 1: hi = -lo * (1 + r.real(-3e-4, 3e-4)); if (lo > hi) std::swap(lo, hi); break; default: break; }
    auto a0 = static_cast<real_t>(lo), a1 = static_cast<real_t>(hi);
    if (!(a0 < a1)) throw nat::Skip{};
    nat::note(sizeof(real_t), " bytes, bounds ", a0, " ", a1); nat::fingerprint(nat::str(a0, " ", a1));
    auto s = kpm::Scale<real_t>(a0, a1);
    NCHECK(s.a > 0, "a = ", s.a);
    auto n = r.range(0, 6);
    ArrayX<real_t> v(n + 2); v[0] = a0; v[1] = a1;
    for (int i = 0; i < n; ++i) v[i + 2] = static_cast<real_t>(r.real(a0, a1));
    ArrayX<real_t> w = s(v);
    NCHECK(w.size() == v.size(), "size");
    for (int i = 0; i < n + 2; ++i) {
        NCHECK(w[i] > -1 && w[i] < 1, "energy ", v[i], " is scaled to ", w[i]);
        NCHECK(std::abs(w[i] * s.a + s.b - v[i]) <= 16 * std::numeric_limits<real_t>::epsilon() * (std::abs(a0) + std::abs(a1)), "energy ", v[i], " comes back as ", w[i] * s.a + s.b);
        NCHECK(std::abs((double)w[i] - ((double)v[i] - s.b) / s.a) <= 1e-5, "scaled energy");
    }
    auto f = kpm::Scale<float>(s); NCHECK(f.a == static_cast<float>(s.a) && f.b == static_cast<float>(s.b), "conversion");
    auto b = kpm::Bounds(a0, a1); auto bs = b.scaling_factors(); auto ref = kpm::Scale<>(a0, a1);
    NCHECK(bs.a == ref.a && bs.b == ref.b && b.min_energy() == a0 && b.max_energy() == a1, "user bounds");
    if (s.b == 0 && a0 != -a1) nat::cover("nearly symmetric");
}

void kernels(nat::Rng& r, long i) {
    auto N = i < 300 ? i : r.range(0, 5000);
    auto lambda = r.real(0.1, 6);
    nat::note("N ", N, " lambda ", lambda);
    double const pi = 3.14159265358979323846;
    auto j = kpm::jackson_kernel().damping_coefficients(N), l = kpm::lorentz_kernel(lambda).damping_coefficients(N), d = kpm::dirichlet_kernel().damping_coefficients(N);
    NCHECK(j.size() == N && l.size() == N && d.size() == N, "size");
    double Np = N + 1;
    for (idx_t n = 0; n < N; ++n) {
        auto ref = ((Np - n) * std::cos(pi * n / Np) + std::sin(pi * n / Np) / std::tan(pi / Np)) / Np;
        NCHECK(std::abs(j[n] - ref) < 1e-6, "jackson ", n, " is ", j[n], " instead of ", ref);
        ref = std::sinh(lambda * (1 - double(n) / N)) / std::sinh(lambda);
        NCHECK(std::abs(l[n] - ref) < 1e-6, "lorentz ", n, " is ", l[n], " instead of ", ref);
        NCHECK(d[n] == 1, "dirichlet ", n);
    }
    if (N) { NCHECK(std::abs(j[0] - 1) < 1e-12 && std::abs(l[0] - 1) < 1e-12 && d[0] == 1, "first coefficient ", j[0], " ", l[0], " ", d[0]); }
    auto M = i < 300 ? i - 20 : r.range(-3, 1000000);
    auto m = kpm::round_num_moments(M);
    NCHECK(m >= M && m >= 2 && (m - 2) % 4 == 0 && m < std::max<idx_t>(M, 2) + 4, "round_num_moments(", M, ") = ", m);
    auto broad = std::pow(10., r.real(-4, 1.5));
    auto need = [&](kpm::Kernel const& k, double num, char const* name) {
        auto m = k.required_num_moments(broad);
        NCHECK(m * broad > num * (1 - 1e-6) && (m - 2) % 4 == 0 && m >= 2 && m < std::max(num / broad * (1 + 1e-6) + 1, 2.) + 4, name, ": ", m, " moments for a broadening of ", broad);
    };
    need(kpm::jackson_kernel(), pi, "jackson"); need(kpm::lorentz_kernel(lambda), lambda, "lorentz"); need(kpm::dirichlet_kernel(), pi, "dirichlet");
    auto bad = -r.range(0, 3) * r.real(0, 2);
    NCHECK(nat::throws([&] { kpm::lorentz_kernel(bad); }), "lambda ", bad, " accepted");
}

template<class T> T rnd(nat::Rng& r) { return T(r.range(-9, 9)); }
template<> std::complex<float> rnd(nat::Rng& r) { return {(float)r.range(-9, 9), (float)r.range(-9, 9)}; }
template<> C rnd(nat::Rng& r) { return {(double)r.range(-9, 9), (double)r.range(-9, 9)}; }
template<class T> void damping(nat::Rng& r) {
    using re = num::get_real_t<T>;
    auto kind = r.range(0, 2); auto lambda = r.real(1, 5);
    auto k = kind == 0 ? kpm::jackson_kernel() : kind == 1 ? kpm::lorentz_kernel(lambda) : kpm::dirichlet_kernel();
    int N = r.range(1, 40), M = r.range(0, 4);
    nat::note("kernel ", kind, " N ", N, " columns ", M);
    auto g = k.damping_coefficients(N);
    auto near = [&](T x, T y) { return std::abs(x - y) <= 1e-4; };
    ArrayX<T> a(N); for (int i = 0; i < N; ++i) a[i] = rnd<T>(r);
    auto a0 = a; k(a);
    for (int i = 0; i < N; ++i) NCHECK(near(a[i], a0[i] * (re)g[i]), "array ", i);
    ArrayXX<T> b(N, M); for (int i = 0; i < N; ++i) for (int j = 0; j < M; ++j) b(i, j) = rnd<T>(r);
    auto b0 = b; k(b);
    for (int i = 0; i < N; ++i) for (int j = 0; j < M; ++j) NCHECK(near(b(i, j), b0(i, j) * (re)g[i]), "columns ", i, ",", j);
    MatrixX<T> m(N, N); for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) m(i, j) = rnd<T>(r);
    auto m0 = m; k(m);
    for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) NCHECK(near(m(i, j), m0(i, j) * (re)(g[i] * g[j])), "matrix ", i, ",", j, " is ", m(i, j));
    std::vector<ArrayX<T>> v(M, a0); k(v);
    for (auto& x : v) for (int i = 0; i < N; ++i) NCHECK(near(x[i], a0[i] * (re)g[i]), "list ", i);
}

static Model model(nat::Rng& r, bool cplx, int& size) {
    Lattice lat({1, 0, 0}, {0, 1, 0});
    int orb = r.range(1, 2);
    int subs = r.range(1, 2);
    for (int s = 0; s < subs; ++s) lat.add_sublattice(s ? "B" : "A", Cartesian{s * .5f, 0, 0}, MatrixXcd(MatrixXcd::Identity(orb, orb) * r.real(-.5, .5)));
    MatrixXcd t = MatrixXcd::Zero(orb, orb);
    for (int i = 0; i < orb; ++i) for (int j = 0; j < orb; ++j) t(i, j) = C(r.real(-.4, .4), cplx ? .1 : 0);
    lat.register_hopping_energy("t", t);
    lat.add_hopping({1, 0, 0}, "A", "A", "t"); lat.add_hopping({0, 1, 0}, "A", "A", "t");
    if (subs == 2) lat.add_hopping({0, 0, 0}, "A", "B", "t");
    int n = r.range(1, 3), m = r.range(1, 3);
    size = n * m * subs * orb;
    if (n * m < 2) { cplx = false; }
    nat::addnote("model ", n, "x", m, " subs ", subs, " orb ", orb, cplx ? " complex" : "");
    return Model(lat, Primitive(n, m, 1));
}
static kpm::Config config(nat::Rng& r) {
    kpm::Config c; c.min_energy = -6; c.max_energy = 6;
    c.matrix_format = r.coin() ? kpm::MatrixFormat::CSR : kpm::MatrixFormat::ELL;
    c.algorithm = {r.coin(), r.coin()};
    if (r.coin()) c.kernel = kpm::lorentz_kernel();
    return c;
}
static void indices(nat::Rng& r) {
    int size; bool cplx = r.coin();
    auto m = model(r, cplx, size);
    NCHECK(m.hamiltonian().rows() == size, "model size");
    auto kpm = KPM(m, kpm::DefaultCompute{1}, config(r));
    auto energy = ArrayXd::LinSpaced(3, -1, 1).eval();
    auto pick = [&]() -> idx_t { switch (r.range(0, 6)) { case 0: return -1; case 1: return size; case 2: return size - 1; case 3: return 0; case 4: return r.coin() ? size + r.range(1, 1000) : -r.range(2, 1000); default: return r.range(0, size - 1); } };
    auto good = [&](idx_t i) { return i >= 0 && i < size; };
    for (int k = 0; k < 4; ++k) {
        auto i = pick(), j = pick(); nat::addnote(" greens ", i, ",", j);
        auto t = nat::throws([&] { auto g = kpm.calc_greens(i, j, energy, 2); NCHECK(g.size() == 3, "size"); });
        NCHECK(t == !(good(i) && good(j)), "size ", size, " (", i, ",", j, ") ", t ? "rejected" : "accepted");
        nat::cover(t ? "rejected" : "accepted");
    }
    std::vector<idx_t> cols; int n = r.range(1, 4);
    for (int k = 0; k < n; ++k) cols.push_back(r.range(0, 2) ? r.range(0, size - 1) : pick());
    auto i = r.range(0, 2) ? r.range(0, size - 1) : pick(); nat::addnote(" vector ", i);
    bool ok = good(i); for (auto c : cols) { ok = ok && good(c); nat::addnote(":", c); }
    auto t = nat::throws([&] { auto g = kpm.calc_greens_vector(i, cols, energy, 2); NCHECK((int)g.size() == n, "one result per column: ", g.size()); });
    NCHECK(t == !ok, "columns ", t ? "rejected" : "accepted");
}
static void moments(nat::Rng& r) {
    int size; bool cplx = r.coin();
    auto m = model(r, cplx, size);
    m.eval();
    auto ham_complex = m.is_complex();
    auto kpm = KPM(m, kpm::DefaultCompute{1}, config(r));
    auto dim = [&](int which) { switch (r.range(0, 9)) { case 0: return size + 1; case 1: return size - 1; case 2: return which ? 0 : size + r.range(1, 20); default: return size; } };
    auto vec = [&](int n, bool c) { VectorXcd v(n); for (int i = 0; i < n; ++i) v[i] = r.range(-9, 9); if (n && c) v[r.range(0, n - 1)] += C(0, r.range(1, 9)); return v; };
    int na = dim(0), nb = dim(1); bool ca = r.range(0, 3) == 0 && na, cb = r.range(0, 3) == 0 && nb, co = r.range(0, 3) == 0;
    auto a = vec(na, ca), b = vec(nb, cb);
    int rows = dim(1), cols = r.range(0, 4) ? rows : dim(1);
    if (r.range(0, 2) == 0) rows = cols = 0;
    SparseMatrixXcd op(rows, cols);
    if (rows * cols == 0) co = false;
    for (int i = 0; i < rows && cols; ++i) op.insert(i, r.range(0, cols - 1)) = C(r.range(1, 5), 0);
    if (co) { int k = r.range(0, rows - 1); for (SparseMatrixXcd::InnerIterator it(op, k); it; ++it) it.valueRef() += C(0, 3); }
    op.makeCompressed();
    nat::addnote(" alpha ", na, ca ? "c" : "", " beta ", nb, cb ? "c" : "", " op ", rows, "x", cols, co ? "c" : "", ham_complex ? " complex model" : "");
    bool ok = na == size && (nb == 0 || nb == size) && (rows * cols == 0 || (rows == size && cols == size));
    if (!ham_complex) ok = ok && !ca && !cb && !co;
    int n = r.range(1, 20);
    auto t = nat::throws([&] { auto mu = kpm.moments(n, a, b, op); NCHECK(mu.size() == n, n, " moments wanted, ", mu.size(), " returned"); });
    NCHECK(t == !ok, t ? "rejected" : "accepted");
    nat::cover(t ? "rejected" : "accepted");
}
static void directions(nat::Rng& r, long i) {
    int size; auto m = model(r, r.coin(), size);
    auto kpm = KPM(m, kpm::DefaultCompute{1}, config(r));
    static char const alphabet[] = {'x', 'y', 'z', 'X', 'w', ' ', 'a', '{', '\0'};
    std::string d; bool ok;
    if (i < 81) { d = {alphabet[i / 9], alphabet[i % 9]}; }
    else { int n = r.range(0, 4); for (int k = 0; k < n; ++k) d += alphabet[r.range(0, 3)]; }
    ok = d.size() == 2; for (auto ch : d) ok = ok && (ch == 'x' || ch == 'y' || ch == 'z');
    nat::addnote(" direction '", d, "'");
    auto mu = ArrayXd::LinSpaced(2, -1, 1).eval();
    auto t = nat::throws([&] { auto s = kpm.calc_conductivity(mu, 3, 300, d, 1, 10); NCHECK(s.size() == 2, "size"); });
    NCHECK(t == !ok, t ? "rejected" : "accepted");
    nat::cover(t ? "direction rejected" : "direction accepted");
}
static void ranges(nat::Rng& r) {
    int size; auto m = model(r, false, size);
    kpm::Config c; c.min_energy = (float)r.range(-5, 5); c.max_energy = c.min_energy + (float)r.range(-3, 3) / 2;
    if (c.min_energy == c.max_energy) throw nat::Skip{};
    nat::addnote(" range ", c.min_energy, " ", c.max_energy);
    auto t = nat::throws([&] { KPM(m, kpm::DefaultCompute{1}, c); });
    NCHECK(t == (c.min_energy > c.max_energy), t ? "rejected" : "accepted");
    if (!t) {
        auto kpm = KPM(m, kpm::DefaultCompute{1}, c);
        auto b = kpm::Bounds(c.min_energy, c.max_energy);
        auto e = b.linspaced(5); NCHECK(e.size() == 5 && e[0] == c.min_energy && std::abs(e[4] - c.max_energy) < 1e-6, "linspaced");
    }
}

int main(int argc, char** argv) {
    return nat::run(argc, argv, [] {
        nat::section("scale", 4000, [](nat::Rng& r, long) { if (r.coin()) scaling<double>(r); else scaling<float>(r); });
        nat::section("kernel", 600, kernels);
        nat::section("damping", 400, [](nat::Rng& r, long) { switch (r.range(0, 3)) { case 0: damping<float>(r); break; case 1: damping<double>(r); break; case 2: damping<std::complex<float>>(r); break; default: damping<C>(r); } });
        nat::section("indices", 250, [](nat::Rng& r, long) { indices(r); });
        nat::section("moments", 250, [](nat::Rng& r, long) { moments(r); });
        nat::section("direction", 160, directions);
        nat::section("range", 100, [](nat::Rng& r, long) { ranges(r); });
    });
}
