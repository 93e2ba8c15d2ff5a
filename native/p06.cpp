// P06: the layout of sites on Hamiltonian rows.
#include "gen.hpp"
#include "system/System.hpp"
using namespace cpb;

struct Made { System s; gen::Sys ref; };

int main(int argc, char** argv) {
    return nat::run(argc, argv, [] {
        nat::section("layout", 5000, [](nat::Rng& r, long) {
            int nfam = r.range(1, 5), nhop = r.range(1, 4);
            std::vector<MatrixXcd> se, he; std::vector<std::string> sn, hn; std::vector<int> norb;
            int o = 1;
            for (int i = 0; i < nfam; ++i) { o += r.coin(1, 2) ? r.range(0, 2) : 0; norb.push_back(o); se.push_back(MatrixXcd::Identity(o, o)); sn.push_back("s" + std::to_string(i)); }
            for (int i = 0; i < nhop; ++i) { he.push_back(MatrixXcd::Constant(r.range(1, 4), r.range(1, 4), 1.0)); hn.push_back("h" + std::to_string(i)); }
            System s{SiteRegistry(se, sn), HoppingRegistry(he, hn)};
            // runs of families: ids in a random order with non-decreasing orbital counts
            std::vector<int> ids, count, owner; std::string log;
            for (int i = 0; i < nfam; ++i) ids.push_back(i);
            for (int i = 0; i + 1 < nfam; ++i) if (norb[ids[i]] == norb[ids[i + 1]] && r.coin()) std::swap(ids[i], ids[i + 1]);
            std::vector<int> runs;
            for (int id : ids) if (r.coin(4, 5)) { int c = r.coin(1, 8) ? 0 : r.range(1, 5); runs.push_back(id); count.push_back(c); s.compressed_sublattices.add(SiteID{(idx_t)id}, norb[id], c); for (int k = 0; k < c; ++k) owner.push_back(id); log += nat::str(" ", id, "x", c, "(", norb[id], ")"); }
            int n = (int)owner.size();
            s.positions = CartesianArray(n);
            for (int i = 0; i < n; ++i) s.positions[i] = Cartesian(r.range(-16, 16) / 4.f, r.range(-16, 16) / 4.f, r.range(-4, 4) / 4.f);
            s.hopping_blocks = HoppingBlocks(n, s.hopping_registry.name_map());
            nat::note("runs", log);
            std::vector<int> start{0}; for (int id : owner) start.push_back(start.back() + norb[id]);
            NCHECK(s.num_sites() == n, "num_sites");
            NCHECK(s.hamiltonian_size() == start.back(), "hamiltonian_size ", s.hamiltonian_size(), " expected ", start.back());
            for (int i = 0; i < n; ++i) {
                auto ix = s.to_hamiltonian_indices(i);
                NCHECK(ix.size() == norb[owner[i]], "site ", i, " has ", ix.size(), " indices, expected ", norb[owner[i]]);
                for (int k = 0; k < ix.size(); ++k) NCHECK(ix[k] == start[i] + k, "site ", i, " index ", k, " = ", ix[k], " expected ", start[i] + k);
            }
            for (int bad : {-1, n, n + 1}) NCHECK(nat::throws([&] { s.to_hamiltonian_indices(bad); }), "site ", bad, " does not exist");
            auto ep = s.expanded_positions();
            NCHECK(ep.size() == start.back() && ep.y.size() == start.back() && ep.z.size() == start.back(), "expanded size ", ep.size());
            for (int i = 0; i < n; ++i) for (int h = start[i]; h < start[i + 1]; ++h)
                NCHECK(ep.x[h] == s.positions.x[i] && ep.y[h] == s.positions.y[i] && ep.z[h] == s.positions.z[i], "expanded position of row ", h, " is not that of site ", i);
            // nnz
            idx_t nnz = 0; for (int id : owner) nnz += norb[id] * norb[id];
            if (n > 0) for (int k = r.range(0, 8); k > 0; --k) { int f = r.range(0, nhop - 1); s.hopping_blocks.add(HopID{(idx_t)f}, r.range(0, n - 1), r.range(0, n - 1)); nnz += 2 * he[f].size(); }
            NCHECK(s.hamiltonian_nnz() == nnz, "hamiltonian_nnz ", s.hamiltonian_nnz(), " expected ", nnz);
            // ranges and nearest sites
            auto full = s.sublattice_range(""); NCHECK(full.start == 0 && full.end == n, "full range ", full.start, "..", full.end);
            NCHECK(nat::throws([&] { s.sublattice_range("nope"); }), "unknown sublattice");
            int at = 0;
            for (auto q = 0u; q < runs.size(); ++q) {
                auto rg = s.sublattice_range(sn[runs[q]]);
                NCHECK(rg.start == at && rg.end == at + count[q], "range of ", sn[runs[q]], " = ", rg.start, "..", rg.end, " expected ", at, "..", at + count[q]); at += count[q];
            }
            for (int i = 0; i < nfam; ++i) if (std::find(runs.begin(), runs.end(), i) == runs.end()) NCHECK(nat::throws([&] { s.sublattice_range(sn[i]); }), "absent sublattice");
            for (int t = 0; t < 4; ++t) {
                int w = r.range(-1, (int)runs.size() - 1);
                int a = 0, e = n; if (w >= 0) { a = 0; for (int q = 0; q < w; ++q) a += count[q]; e = a + count[w]; }
                std::string nm = w >= 0 ? sn[runs[w]] : "";
                Cartesian p(r.range(-18, 18) / 4.f, r.range(-18, 18) / 4.f, r.range(-4, 4) / 4.f);
                if (a == e) { nat::cover("nearest_empty"); NCHECK(nat::throws([&] { s.find_nearest(p, nm); }), "nearest site of an empty sublattice '", nm, "' must be rejected"); continue; }
                auto k = s.find_nearest(p, nm);
                NCHECK(k >= a && k < e, "nearest site ", k, " is not in ", a, "..", e);
                Cartesian pk = s.positions[k];
                for (int i = a; i < e; ++i) { Cartesian pi = s.positions[i]; NCHECK((pi - p).norm() >= (pk - p).norm() - 1e-5f, "site ", i, " is closer than ", k); }
            }
        });
    });
}
