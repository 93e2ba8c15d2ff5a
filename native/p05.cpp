// P05: CompressedSublattices against the decoded list.
#include "nat.hpp"
#include "system/CompressedSublattices.hpp"
using namespace cpb;

struct Run { int id, norb; long n; };

static std::vector<int> decode(std::vector<Run> const& r) {
    std::vector<int> v;
    for (auto& x : r) for (long i = 0; i < x.n; ++i) v.push_back(x.id);
    return v;
}
static void compare(CompressedSublattices const& cs, std::vector<Run> const& ref) {
    auto a = cs.alias_ids(); auto s = cs.site_counts(); auto o = cs.orbital_counts();
    NCHECK(a.size() == (idx_t)ref.size() && s.size() == a.size() && o.size() == a.size(), "runs ", a.size());
    for (auto i = 0u; i < ref.size(); ++i) {
        NCHECK(a[i] == ref[i].id, "id of run ", i, " = ", a[i]);
        NCHECK(s[i] == ref[i].n, "count of run ", i, " = ", s[i], " expected ", ref[i].n);
        NCHECK(o[i] == ref[i].norb, "orbitals of run ", i, " = ", o[i]);
    }
    auto d = decode(ref);
    NCHECK(cs.decompressed_size() == (idx_t)d.size(), cs.decompressed_size());
    auto dd = cs.decompressed();
    NCHECK(dd.size() == (idx_t)d.size(), dd.size());
    for (auto i = 0u; i < d.size(); ++i) NCHECK(dd[i] == d[i], "site ", i);
    idx_t sys = 0, ham = 0; auto i = 0u;
    for (auto const& it : cs) {
        NCHECK(i < ref.size(), "too many runs");
        NCHECK(it.id().value() == ref[i].id && it.num_sites() == ref[i].n && it.num_orbitals() == ref[i].norb, "run ", i);
        NCHECK(it.sys_start() == sys && it.sys_end() == sys + ref[i].n, "run ", i, " sys ", it.sys_start());
        NCHECK(it.ham_start() == ham && it.ham_size() == ref[i].n * ref[i].norb && it.ham_end() == ham + ref[i].n * ref[i].norb, "run ", i, " ham ", it.ham_start());
        sys += ref[i].n; ham += ref[i].n * ref[i].norb; ++i;
    }
    NCHECK(i == ref.size(), "too few runs");
}

int main(int argc, char** argv) {
    return nat::run(argc, argv, [] {
        nat::section("history", 4000, [](nat::Rng& r, long) {
            CompressedSublattices cs; std::vector<Run> ref;
            int steps = r.range(0, 14); std::string log;
            for (int k = 0; k < steps; ++k) {
                int op = r.range(0, 9);
                if (op < 7) {
                    int id = r.range(0, 4); int norb = 1 + id % 3; long n = r.coin() ? 1 : r.range(0, 6);
                    log += nat::str(" add(", id, ",", norb, ",", n, ")");
                    if (r.coin(1, 4)) { n = 1; cs.add(SiteID{id}, norb); } else cs.add(SiteID{id}, norb, n);
                    if (!ref.empty() && ref.back().id == id) { ref.back().n += n; nat::cover("extend"); } else ref.push_back({id, norb, n});
                } else {
                    auto d = decode(ref); VectorX<bool> keep((idx_t)d.size());
                    int mode = r.range(0, 4); log += " keep(";
                    for (auto i = 0u; i < d.size(); ++i) { keep[i] = mode == 0 ? false : mode == 1 ? true : r.coin(); log += keep[i] ? '1' : '0'; }
                    log += ")";
                    cs.filter(keep);
                    size_t p = 0;
                    for (auto& x : ref) { long m = 0; for (long i = 0; i < x.n; ++i) m += keep[p++] ? 1 : 0; x.n = m; if (m == 0) nat::cover("emptied_run"); }
                    nat::cover("filter");
                }
                nat::note(log);
                compare(cs, ref);
            }
            // lookups
            for (int norb = 0; norb <= 4; ++norb) {
                idx_t pos = 0; bool found = false;
                for (auto& x : ref) { if (x.norb == norb) { found = true; break; } pos += x.n; }
                if (found) { NCHECK(cs.start_index(norb) == pos, "start_index(", norb, ") = ", cs.start_index(norb)); nat::cover("start_index"); }
                else NCHECK(nat::throws([&] { cs.start_index(norb); }), "start_index(", norb, ") must fail");
            }
            // verification
            bool unique = true, sorted = true;
            for (auto i = 0u; i < ref.size(); ++i) for (auto j = 0u; j < i; ++j) { if (ref[i].id == ref[j].id) unique = false; }
            for (auto i = 1u; i < ref.size(); ++i) if (ref[i - 1].norb > ref[i].norb) sorted = false;
            auto total = (idx_t)decode(ref).size();
            for (int dlt = -2; dlt <= 2; ++dlt) {
                bool ok = unique && sorted && dlt == 0;
                NCHECK(nat::throws([&] { cs.verify(total + dlt); }) == !ok, "verify(", total + dlt, ") unique ", unique, " sorted ", sorted);
                if (ok) nat::cover("verify_ok");
            }
            if (!unique) nat::cover("duplicate"); if (!sorted) nat::cover("unsorted");
        });
        nat::section("constructor", 1500, [](nat::Rng& r, long) {
            int n = r.range(0, 6); std::vector<Run> ref; ArrayXi a(n), s(n), o(n); std::string log = "ctor";
            std::vector<int> ids{0, 1, 2, 3, 4, 5, 9}; int norb = 1;
            for (int i = 0; i < n; ++i) {
                int k = r.range(0, (int)ids.size() - 1);
                Run x{ids[k], r.coin(1, 6) ? r.range(1, 4) : norb, (long)r.range(0, 5)};
                if (!r.coin(1, 8)) ids.erase(ids.begin() + k);
                if (r.coin()) ++norb;
                ref.push_back(x); a[i] = x.id; s[i] = (int)x.n; o[i] = x.norb;
                log += nat::str(" (", x.id, ",", x.n, ",", x.norb, ")");
            }
            nat::note(log);
            CompressedSublattices cs(a, s, o);
            compare(cs, ref);
            bool unique = true, sorted = true;
            for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) if (ref[i].id == ref[j].id) unique = false;
            for (int i = 1; i < n; ++i) if (ref[i - 1].norb > ref[i].norb) sorted = false;
            auto total = (idx_t)decode(ref).size();
            for (int dlt = -2; dlt <= 2; ++dlt) {
                bool ok = unique && sorted && dlt == 0;
                NCHECK(nat::throws([&] { cs.verify(total + dlt); }) == !ok, "verify(", total + dlt, ") unique ", unique, " sorted ", sorted);
                if (ok) nat::cover("verify_ok_ctor");
            }
            if (!unique) nat::cover("duplicate_ctor"); if (!sorted) nat::cover("unsorted_ctor");
            for (int q = 0; q <= 5; ++q) {
                idx_t pos = 0; bool found = false;
                for (auto& x : ref) { if (x.norb == q) { found = true; break; } pos += x.n; }
                if (found) NCHECK(cs.start_index(q) == pos, "start_index(", q, ") = ", cs.start_index(q));
                else NCHECK(nat::throws([&] { cs.start_index(q); }), "start_index(", q, ") must fail");
            }
        });
    });
}
