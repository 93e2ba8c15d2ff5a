// P19: slicing, concatenation, ranges and formatters against plain loops.
#include "nat.hpp"
#include <algorithm>
#include <chrono>
#include <numeric>
#include <list>
#define private public
#include "utils/Chrono.hpp"
#undef private
#include "Model.hpp"
#include "detail/algorithm.hpp"
#include "detail/slice.hpp"
#include "detail/sugar.hpp"
#include "support/format.hpp"
using namespace cpb;

template<class V> static V fill(nat::Rng& r, int n) { V v(n); for (int i = 0; i < n; ++i) v[i] = (typename V::value_type)r.range(-1000, 1000); return v; }
template<class V> static V efill(nat::Rng& r, int n) { V v(n); for (int i = 0; i < n; ++i) v[i] = (typename V::Scalar)r.range(-1000, 1000); return v; }

static Cartesian at(CartesianArray const& a, int i) { return a[i]; }
template<class V> static void cut(V const& v, idx_t step) {
    std::size_t at = 0; idx_t pieces = 0;
    for (auto const& s : sliced(v, step)) {
        NCHECK(s.begin() == v.begin() + at, "slice ", pieces, " starts at ", s.begin() - v.begin(), " expected ", at);
        auto n = s.end() - s.begin();
        NCHECK(n > 0 && n <= step, "slice ", pieces, " has ", n, " elements, step ", step);
        NCHECK(at + n <= v.size(), "slice ", pieces, " runs past the end");
        NCHECK(n == step || at + n == v.size(), "short slice ", pieces, " of ", n, " is not the last");
        at += n; ++pieces;
        NCHECK(pieces <= (idx_t)v.size(), "too many slices");
    }
    NCHECK(at == v.size(), "slices cover ", at, " of ", v.size());
}

int main(int argc, char** argv) {
    return nat::run(argc, argv, [] {
        nat::section("sliced", 4000, [](nat::Rng& r, long i) {
            int n = i < 40 ? (int)i / 4 : r.range(0, 40); idx_t step = i < 40 ? 1 + i % 4 : r.range(1, 45);
            nat::note("n ", n, " step ", step);
            cut(fill<std::vector<int>>(r, n), step); cut(fill<std::vector<double>>(r, n), step);
            std::vector<std::pair<int, int>> p(n); cut(p, step);
        });
        nat::section("dense", 4000, [](nat::Rng& r, long) {
            int n = r.range(0, 30), m = r.range(0, 30); nat::note("n ", n, " m ", m);
            auto a = efill<ArrayXf>(r, n), b = efill<ArrayXf>(r, m);
            auto c = concat(a, b);
            NCHECK(c.size() == n + m, "concat size ", c.size());
            for (int i = 0; i < n + m; ++i) NCHECK(c[i] == (i < n ? a[i] : b[i - n]), "concat element ", i);
            auto d = efill<ArrayXd>(r, n), e = efill<ArrayXd>(r, m); auto f = concat(d, e);
            for (int i = 0; i < n + m; ++i) NCHECK(f[i] == (i < n ? d[i] : e[i - n]), "concat element ", i);
            CartesianArray x(efill<ArrayXf>(r, n), efill<ArrayXf>(r, n), efill<ArrayXf>(r, n)), y(efill<ArrayXf>(r, m), efill<ArrayXf>(r, m), efill<ArrayXf>(r, m));
            auto xy = concat(x, y);
            NCHECK(xy.size() == n + m && xy.y.size() == n + m && xy.z.size() == n + m, "concat size");
            for (int i = 0; i < n + m; ++i) { Cartesian p = xy[i], q = i < n ? at(x, i) : at(y, i - n); NCHECK(p == q, "concat position ", i); }
            ArrayX<bool> keep(n); std::vector<float> ref;
            for (int i = 0; i < n; ++i) { keep[i] = r.coin(2, 3); if (keep[i]) ref.push_back(a[i]); }
            auto s = slice(a, keep);
            NCHECK(s.size() == (idx_t)ref.size(), "slice size ", s.size(), " expected ", ref.size());
            for (auto i = 0u; i < ref.size(); ++i) NCHECK(s[i] == ref[i], "slice element ", i);
            std::vector<bool> vk(n); std::vector<int> iv = fill<std::vector<int>>(r, n), ir;
            for (int i = 0; i < n; ++i) { vk[i] = keep[i]; if (keep[i]) ir.push_back(iv[i]); }
            NCHECK(slice(iv, vk) == ir, "slice of a std::vector");
            auto ii = make_integer_range<double>(n); NCHECK(ii.size() == n, "range size"); for (int i = 0; i < n; ++i) NCHECK(ii[i] == i, "range ", i);
            auto jj = make_integer_range<int>(n); NCHECK(jj.size() == n, "range size"); for (int i = 0; i < n; ++i) NCHECK(jj[i] == i, "range ", i);
            auto t = transform<std::vector>(iv, [](int v) { return 2.5 * v; });
            NCHECK(t.size() == iv.size(), "transform size"); for (int i = 0; i < n; ++i) NCHECK(t[i] == 2.5 * iv[i], "transform ", i);
            if (n) {
                int st = r.range(0, n), len = r.range(0, n - st);
                CartesianArray const& cx = x;
                auto h = cx.head(st); NCHECK(h.size() == st, "head"); for (int i = 0; i < st; ++i) NCHECK(h.x()[i] == x.x[i] && h.y()[i] == x.y[i] && h.z()[i] == x.z[i], "head ", i);
                auto g = cx.segment(st, len); NCHECK(g.size() == len, "segment"); for (int i = 0; i < len; ++i) NCHECK(g.x()[i] == x.x[st + i] && g.y()[i] == x.y[st + i] && g.z()[i] == x.z[st + i], "segment ", i);
                auto w = x; auto mw = w.segment(st, len); for (int i = 0; i < len; ++i) { mw.x()[i] = 1e6f + i; mw.y()[i] = 2e6f + i; mw.z()[i] = 3e6f + i; }
                for (int i = 0; i < n; ++i) { bool in = i >= st && i < st + len; Cartesian p = w[i]; NCHECK(p == (in ? Cartesian(1e6f + i - st, 2e6f + i - st, 3e6f + i - st) : at(x, i)), "write through segment ", i); }
                auto mh = w.head(st); for (int i = 0; i < st; ++i) mh.z()[i] = -5; for (int i = 0; i < st; ++i) NCHECK(w.z[i] == -5, "write through head");
                w = x; int k = r.range(0, n - 1); w[k] = Cartesian(7, 8, 9); for (int i = 0; i < n; ++i) { Cartesian p = w[i]; NCHECK(p == (i == k ? Cartesian(7, 8, 9) : at(x, i)), "element assignment ", i); }
                auto v = x; v.conservativeResize(n + 3); NCHECK(v.size() == n + 3 && v.y.size() == n + 3 && v.z.size() == n + 3, "conservativeResize"); for (int i = 0; i < n; ++i) { Cartesian p = v[i]; NCHECK(p == at(x, i), "kept ", i); }
                v.resize(m); NCHECK(v.x.size() == m && v.y.size() == m && v.z.size() == m, "resize");
            }
            auto rg = make_range(iv.begin(), iv.end()); NCHECK(std::vector<int>(rg.begin(), rg.end()) == iv, "make_range");
            auto ar = arrayref(a); NCHECK(ar.ndim == 1 && ar.size() == n && ar.data == a.data() && ar.tag == num::Tag::f32, "arrayref");
            auto av = arrayref(iv); NCHECK(av.ndim == 1 && av.size() == n && av.data == iv.data() && av.tag == num::Tag::i32, "arrayref of a vector");
            int rows = r.range(1, 4), cols = r.range(1, 4); MatrixX<double> mm = MatrixX<double>::Random(rows, cols); auto am = arrayref(mm);
            NCHECK(am.ndim == 2 && am.size() == rows * cols && am.shape[0] == rows && am.shape[1] == cols && am.is_row_major == (bool)MatrixX<double>::IsRowMajor, "arrayref of a matrix");
            auto ec = eigen_cast<ArrayX>(iv); NCHECK(ec.size() == n, "eigen_cast"); for (int i = 0; i < n; ++i) NCHECK(ec[i] == iv[i], "eigen_cast ", i);
        });
        nat::section("index", 2000, [](nat::Rng& r, long) {
            int a = r.range(-20, 20), b = r.range(-20, 20), k = r.range(-9, 9); nat::note(a, "..", b, " by ", k);
            SliceIndex s(a, b); NCHECK(s.size() == std::max(0, b - a), "size ", s.size());
            SliceIndex one(a); NCHECK(one.start == a && one.end == a + 1 && one.size() == 1, "single index");
            SliceIndex all; NCHECK(all.start == 0 && all.end == -1 && all.size() == 0, "default slice");
            auto t = s; t += k; NCHECK(t.start == a + k && t.end == b + k && t.size() == s.size(), "+=");
            t -= k; NCHECK(t == s && !(t != s), "-=");
            auto u = s; auto v = u++; NCHECK(v == s && u == SliceIndex(a + 1, b + 1), "post ++"); NCHECK(--u == s, "pre --"); v = u--; NCHECK(v == s && u == SliceIndex(a - 1, b - 1), "post --"); NCHECK(++u == s, "pre ++");
            NCHECK((SliceIndex(a, b) == SliceIndex(a, b + 1)) == false && SliceIndex(a, b) != SliceIndex(a + 1, b), "comparison");
            SliceIndex3D d{{a, a + 2}, {b, b + k}, {k, a}}; NCHECK(d.ndims() == 3, "dims");
            NCHECK(d.size() == 2 * std::max(0, k) * std::max(0, a - k), "3D size ", d.size());
            NCHECK(d[0] == SliceIndex(a, a + 2) && d[1] == SliceIndex(b, b + k) && d[2] == SliceIndex(k, a), "3D parts");
        });
        nat::section("format", 4000, [](nat::Rng& r, long i) {
            // the suffix and value printed must represent the number to three digits
            double x = i < 8 ? std::vector<double>{0, 1, 999, 1000, 999999, 1e6, 1e9, 12345678901.}[i] : r.real(0, 1) * std::pow(10., r.range(0, 11));
            auto s = fmt::with_suffix(x); nat::note("x ", x, " -> ", s);
            double scale = 1; std::string t = s;
            if (!t.empty()) switch (t.back()) { case 'k': scale = 1e3; t.pop_back(); break; case 'M': scale = 1e6; t.pop_back(); break; case 'G': scale = 1e9; t.pop_back(); break; }
            char* end; double v = std::strtod(t.c_str(), &end); NCHECK(*end == 0 && !t.empty(), "not a number with a suffix");
            NCHECK(std::fabs(v * scale - x) <= 0.00501 * std::fabs(x) + 1e-300, "value ", v * scale);
            if (x >= 1000) NCHECK(scale > 1, "no suffix"); if (x < 999e0) NCHECK(scale == 1, "suffix of a small number"); if (x >= 1e6) NCHECK(scale >= 1e6, "suffix"); if (x >= 1e9) NCHECK(scale == 1e9, "suffix");
            if (scale < 1e9) NCHECK(v < 1000.5, "value not in range of its suffix");
            auto n = (std::ptrdiff_t)x; NCHECK(fmt::with_suffix(n) == fmt::with_suffix((double)n), "integer overload");
        });
        nat::section("duration", 4000, [](nat::Rng& r, long i) {
            static long const edge[] = {0, 1, 999999, 1000000, 9999999, 10000000, 99999999, 100000000, 9999999999L, 10000000000L, 19999999999L, 20000000000L, 59999999999L, 60000000000L, 3599999999999L, 3600000000000L, 86400000000000L};
            long ns = i < 17 ? edge[i] : (long)(r.real(0, 1) * std::pow(10., r.range(3, 14)));
            Chrono c; c.elapsed = std::chrono::nanoseconds(ns);
            auto s = c.str(); nat::note(ns, "ns -> ", s);
            NCHECK(std::fabs(c.elapsed_seconds() - ns * 1e-9) <= 1e-12 * ns, "elapsed_seconds");
            double sec = ns * 1e-9; double got, unit; char tail[8] = {0};
            if (ns >= 60000000000L) {
                long h = 0, m = 0, ss = 0; int k = (ns >= 3600000000000L) ? std::sscanf(s.c_str(), "%ld:%ld:%ld", &h, &m, &ss) : 1 + std::sscanf(s.c_str(), "%ld:%ld", &m, &ss);
                NCHECK(k == 3, "h:mm:ss"); NCHECK(m >= 0 && m < 60 && ss >= 0 && ss < 60, "fields"); NCHECK(h * 3600 + m * 60 + ss == ns / 1000000000L, "value");
                char buf[64]; if (ns >= 3600000000000L) std::snprintf(buf, 64, "%ld:%02ld:%02ld", h, m, ss); else std::snprintf(buf, 64, "%ld:%02ld", m, ss); NCHECK(s == buf, "padding");
            } else {
                NCHECK(std::sscanf(s.c_str(), "%lf%7s", &got, tail) == 2, "value and unit"); std::string u = tail; NCHECK(u == "ms" || u == "s", "unit"); unit = u == "ms" ? 1e-3 : 1;
                NCHECK((u == "ms") == (ns < 100000000L), "unit of the range");
                double tol = ns < 1000000L ? 0.0051e-3 : ns < 10000000L ? 0.051e-3 : ns < 100000000L ? 1.001e-3 : ns < 10000000000L ? 0.0051 : ns < 20000000000L ? 0.051 : 1.001;
                NCHECK(std::fabs(got * unit - sec) <= tol, "value ", got * unit, " for ", sec);
            }
        });
    });
}
