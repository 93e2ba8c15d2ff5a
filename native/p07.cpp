// P07: HoppingBlocks against a plain multiset of bonds.
#include "nat.hpp"
#include "system/HoppingBlocks.hpp"
#include <algorithm>
using namespace cpb;

struct Bond { int r, c; };
using Bonds = std::vector<std::vector<Bond>>;

static void compare(HoppingBlocks const& hb, Bonds const& ref, int ns, bool unique_all) {
    NCHECK(hb.get_num_sites() == ns, "num_sites ", hb.get_num_sites(), " expected ", ns);
    idx_t total = 0; size_t b = 0; idx_t seen = 0;
    for (auto const& block : hb) {
        NCHECK(b < ref.size(), "too many blocks");
        NCHECK(block.family_id().value() == (int)b, "family of block ", b, " = ", block.family_id().value());
        NCHECK(block.size() == (idx_t)ref[b].size(), "block ", b, " size ", block.size(), " expected ", ref[b].size());
        NCHECK((idx_t)block.coordinates().size() == block.size(), "coordinates");
        for (auto i = 0u; i < ref[b].size(); ++i) {
            auto& c = block.coordinates()[i];
            NCHECK(c.row == ref[b][i].r && c.col == ref[b][i].c, "block ", b, " bond ", i, ": ", c.row, "-", c.col, " expected ", ref[b][i].r, "-", ref[b][i].c);
            NCHECK(c == COO(ref[b][i].r, ref[b][i].c) && !(c < COO(ref[b][i].r, ref[b][i].c)), "comparison");
        }
        total += (idx_t)ref[b].size(); ++b; ++seen;
    }
    NCHECK(b == ref.size(), "too few blocks");
    NCHECK(hb.nnz() == total, "nnz ", hb.nnz(), " expected ", total);
    auto cn = hb.count_neighbors();
    NCHECK(cn.size() == ns, "neighbor array ", cn.size());
    std::vector<int> deg(ns, 0);
    for (auto& v : ref) for (auto& x : v) { deg[x.r]++; deg[x.c]++; }
    for (int i = 0; i < ns; ++i) NCHECK(cn[i] == deg[i], "neighbors of ", i, " = ", cn[i], " expected ", deg[i]);
    auto sb = hb.get_serialized_blocks();
    NCHECK(sb.size() == ref.size(), "serialized blocks");
    for (auto k = 0u; k < ref.size(); ++k) {
        NCHECK(sb[k].first.size() == (idx_t)ref[k].size() && sb[k].second.size() == (idx_t)ref[k].size(), "serialized size ", k);
        for (auto i = 0u; i < ref[k].size(); ++i) NCHECK(sb[k].first[i] == ref[k][i].r && sb[k].second[i] == ref[k][i].c, "serialized bond ", k, ",", i);
    }
    if (unique_all) {
        auto csr = hb.tocsr();
        NCHECK(csr.rows() == ns && csr.cols() == ns, "csr shape ", csr.rows());
        NCHECK(csr.nonZeros() == total, "csr nnz ", csr.nonZeros());
        std::map<std::pair<int, int>, int> m;
        for (int k = 0; k < csr.outerSize(); ++k)
            for (HoppingCSR::InnerIterator it(csr, k); it; ++it) {
                NCHECK(m.emplace(std::make_pair((int)it.row(), (int)it.col()), (int)it.value()).second, "csr duplicate");
            }
        for (auto k = 0u; k < ref.size(); ++k) for (auto& x : ref[k]) {
            auto f = m.find({x.r, x.c});
            NCHECK(f != m.end() && f->second == (int)k, "csr element ", x.r, ",", x.c, " of family ", k);
        }
        nat::cover("tocsr");
    }
}
static bool all_unique(Bonds const& ref) {
    std::set<std::pair<int, int>> s;
    for (auto& v : ref) for (auto& x : v) if (!s.insert({x.r, x.c}).second) return false;
    return true;
}

int main(int argc, char** argv) {
    return nat::run(argc, argv, [] {
        nat::section("history", 5000, [](nat::Rng& r, long) {
            int ns = r.range(1, 9), nf = r.range(1, 4);
            NameMap nm; for (int i = 0; i < nf; ++i) nm["f" + std::to_string(i)] = i;
            HoppingBlocks hb(ns, nm); Bonds ref(nf);
            NCHECK(hb.get_name_map() == nm, "name map");
            std::string log = nat::str("sites ", ns, " families ", nf); nat::note(log);
            bool dup_ok = r.coin(1, 4);
            std::set<std::pair<int, int>> used;
            int steps = r.range(0, 16);
            for (int k = 0; k < steps; ++k) {
                int op = r.range(0, 11);
                if (op < 6 && ns > 0) {
                    int f = r.range(0, nf - 1), a = r.range(0, ns - 1), b = r.range(0, ns - 1);
                    if (!dup_ok && !used.insert({a, b}).second) continue;
                    log += nat::str(" add(", f, ":", a, "-", b, ")"); nat::note(log);
                    hb.add(HopID{f}, a, b); ref[f].push_back({a, b});
                } else if (op < 8 && ns > 0) {
                    int f = r.range(0, nf - 1), n = r.range(0, 5); ArrayXi x(n), y(n);
                    log += nat::str(" append(", f, ":");
                    std::vector<Bond> add;
                    for (int i = 0; i < n; ++i) {
                        x[i] = r.range(0, ns - 1); y[i] = r.range(0, ns - 1);
                        if (!dup_ok) {
                            auto p = std::make_pair(std::min(x[i], y[i]), std::max(x[i], y[i]));
                            bool other = false;
                            for (int g = 0; g < nf; ++g) if (g != f) for (auto& q : ref[g]) if ((q.r == p.first && q.c == p.second)) other = true;
                            if (other) { --i; --n; x.conservativeResize(n); y.conservativeResize(n); if (i + 1 >= n) break; continue; }
                            used.insert(p);
                        }
                        add.push_back({x[i], y[i]}); log += nat::str(" ", x[i], "-", y[i]);
                    }
                    log += ")"; nat::note(log);
                    hb.append(HopID{f}, ArrayXi(x), ArrayXi(y));
                    auto& blk = ref[f];
                    for (auto& q : add) blk.push_back({std::min(q.r, q.c), std::max(q.r, q.c)});
                    std::sort(blk.begin(), blk.end(), [](Bond a, Bond b) { return a.r != b.r ? a.r < b.r : a.c < b.c; });
                    auto before = blk.size();
                    blk.erase(std::unique(blk.begin(), blk.end(), [](Bond a, Bond b) { return a.r == b.r && a.c == b.c; }), blk.end());
                    if (blk.size() != before) nat::cover("append_merges");
                    nat::cover("append");
                } else if (op == 8) {
                    int n = r.range(0, 3); log += nat::str(" add_sites(", n, ")"); nat::note(log);
                    hb.add_sites(n); ns += n;
                } else if (op == 9) {
                    ArrayXi x(2), y(1); x << 0, 0; y << 0;
                    if (r.coin()) std::swap(x, y);
                    log += " append(bad)"; nat::note(log);
                    NCHECK(nat::throws([&] { hb.append(HopID{0}, ArrayXi(x), ArrayXi(y)); }), "unequal index lists must be rejected");
                    nat::cover("append_rejected");
                    ArrayXi u(2), v(2); u << 0, 0; v << 0, 0;
                    int bad = r.coin() ? ns + r.range(0, 2) : -1 - r.range(0, 2);
                    (r.coin() ? u : v)[r.range(0, 1)] = bad;
                    log += nat::str(" append(", u[0], "-", v[0], " ", u[1], "-", v[1], ")"); nat::note(log);
                    NCHECK(nat::throws([&] { hb.append(HopID{0}, ArrayXi(u), ArrayXi(v)); }), "indices outside the system must be rejected");
                    nat::cover("append_out_of_range");
                } else if (op == 10) {
                    ArrayXi c(r.range(0, nf)); for (int i = 0; i < c.size(); ++i) c[i] = r.range(0, 9);
                    hb.reserve(c); log += " reserve"; nat::note(log);
                } else {
                    VectorX<bool> keep(ns); int mode = r.range(0, 5); log += " filter(";
                    for (int i = 0; i < ns; ++i) { keep[i] = mode == 0 ? false : mode == 1 ? true : r.coin(2, 3); log += keep[i] ? '1' : '0'; }
                    log += ")"; nat::note(log);
                    std::vector<int> ni(ns, -1); int n = 0;
                    for (int i = 0; i < ns; ++i) if (keep[i]) ni[i] = n++;
                    for (auto& v : ref) {
                        std::vector<Bond> w;
                        for (auto& x : v) if (keep[x.r] && keep[x.c]) { w.push_back({ni[x.r], ni[x.c]}); if (ni[x.r] != x.r || ni[x.c] != x.c) nat::cover("filter_renumbers"); } else nat::cover("filter_drops");
                        v = w;
                    }
                    hb.filter(keep); ns = n; used.clear();
                    for (auto& v : ref) for (auto& x : v) used.insert({x.r, x.c});
                }
                compare(hb, ref, ns, all_unique(ref));
            }
            // round trip through the serialized form
            HoppingBlocks again(ns, hb.get_serialized_blocks(), nm);
            compare(again, ref, ns, all_unique(ref));
        });
    });
}
