// P12: name registries against a plain list of (name, energy).
#include "gen.hpp"
using namespace cpb;

template<class ID> struct Kind;
template<> struct Kind<SiteID> { static constexpr bool site = true; };
template<> struct Kind<HopID> { static constexpr bool site = false; };

static MatrixXcd energy(nat::Rng& r, bool& site_ok, bool& hop_ok) {
    int rows = r.coin(1, 10) ? 0 : r.range(1, 3), cols = r.coin(1, 6) ? r.range(0, 3) : rows;
    MatrixXcd m(rows, cols);
    int mode = r.range(0, 5); // 0 zero, 1 real hermitian, 2 complex hermitian, 3 upper triangular, 4 arbitrary, 5 complex diagonal
    for (int i = 0; i < rows; ++i) for (int j = 0; j < cols; ++j) {
        gen::Z v{r.range(-4, 4) / 2.0, mode >= 2 ? r.range(-4, 4) / 2.0 : 0.0};
        m(i, j) = mode == 0 ? gen::Z{} : v;
    }
    if (rows == cols && mode != 4) for (int i = 0; i < rows; ++i) for (int j = 0; j <= i; ++j) {
        if (i == j) { if (mode != 5) m(i, i) = m(i, i).real(); }
        else m(i, j) = mode == 3 ? gen::Z{} : std::conj(m(j, i));
    }
    hop_ok = rows > 0 && cols > 0;
    site_ok = rows == cols && rows > 0;
    if (site_ok) {
        bool up = true, he = true;
        for (int i = 0; i < rows; ++i) { if (m(i, i).imag() != 0) site_ok = false; for (int j = 0; j < cols; ++j) { if (j < i && m(i, j) != gen::Z{}) up = false; if (m(i, j) != std::conj(m(j, i))) he = false; } }
        if (!up && !he) site_ok = false;
    }
    return m;
}

struct Tab { std::vector<std::string> names; std::vector<MatrixXcd> e; };

template<class ID>
static void compare(Registry<ID> const& g, Tab const& ref) {
    int n = (int)ref.names.size();
    NCHECK(g.size() == n, "size ", g.size(), " expected ", n);
    NCHECK((int)g.get_names().size() == n && (int)g.get_energies().size() == n, "tables of different length");
    bool nonzero = false, cplx = false, multi = false;
    for (int i = 0; i < n; ++i) {
        NCHECK(g.name(ID{(idx_t)i}) == ref.names[i], "name of ", i, " is ", g.name(ID{(idx_t)i}));
        auto const& e = g.energy(ID{(idx_t)i});
        NCHECK(e.rows() == ref.e[i].rows() && e.cols() == ref.e[i].cols() && e == ref.e[i], "energy of ", i);
        NCHECK(g.id(ref.names[i]).value() == i, "id of ", ref.names[i], " is ", g.id(ref.names[i]).value());
        NCHECK(g.get_names()[i] == ref.names[i] && g.get_energies()[i] == ref.e[i], "tables at ", i);
        for (int k = 0; k < e.size(); ++k) { gen::Z v = *(ref.e[i].data() + k); nonzero |= v != gen::Z{}; cplx |= v.imag() != 0; }
        multi |= e.size() != 1;
    }
    for (long bad : {-1L, -2L, (long)n, (long)n + 3}) {
        NCHECK(nat::throws([&] { g.name(ID{(idx_t)bad}); }), "name of ", bad, " must be rejected");
        NCHECK(nat::throws([&] { g.energy(ID{(idx_t)bad}); }), "energy of ", bad, " must be rejected");
    }
    for (auto s : {"", "nope", "s", "s00"}) if (std::find(ref.names.begin(), ref.names.end(), s) == ref.names.end())
        NCHECK(nat::throws([&] { g.id(s); }), "id of '", s, "' must be rejected");
    auto m = g.name_map();
    NCHECK((int)m.size() == n, "name map has ", m.size(), " entries");
    for (int i = 0; i < n; ++i) NCHECK(m.count(ref.names[i]) && m[ref.names[i]] == i, "name map of ", ref.names[i]);
    NCHECK(g.has_nonzero_energy() == nonzero, "has_nonzero_energy");
    NCHECK(g.any_complex_terms() == cplx, "any_complex_terms");
    NCHECK(g.has_multiple_orbitals() == multi, "has_multiple_orbitals");
}

template<class ID>
static void history(nat::Rng& r) {
    Tab ref; std::string log = Kind<ID>::site ? "site" : "hop";
    int init = r.range(0, 3);
    for (int i = 0; i < init; ++i) { bool s, h; MatrixXcd e; do { e = energy(r, s, h); } while (!(Kind<ID>::site ? s : h)); ref.names.push_back("s" + std::to_string(i)); ref.e.push_back(e); }
    Registry<ID> g(ref.e, ref.names);
    compare(g, ref);
    for (int k = r.range(1, 8); k > 0; --k) {
        bool s, h; auto e = energy(r, s, h);
        std::string name = r.coin(1, 10) ? "" : "s" + std::to_string(r.range(0, 6)) + (r.coin(1, 8) ? " " : "");
        bool ok = !name.empty() && std::find(ref.names.begin(), ref.names.end(), name) == ref.names.end() && (Kind<ID>::site ? s : h);
        log += nat::str("; ", name, " ", e.rows(), "x", e.cols(), ok ? "" : "!"); nat::note(log);
        bool thrown = nat::throws([&] { g.register_family(name, e); });
        NCHECK(thrown == !ok, "register '", name, "' ", thrown ? "rejected" : "accepted");
        if (ok) { ref.names.push_back(name); ref.e.push_back(e); } else nat::cover("rejected");
        compare(g, ref);
    }
}

int main(int argc, char** argv) {
    return nat::run(argc, argv, [] {
        nat::section("site", 2500, [](nat::Rng& r, long) { history<SiteID>(r); });
        nat::section("hop", 2500, [](nat::Rng& r, long) { history<HopID>(r); });
        nat::section("lattice", 2500, [](nat::Rng& r, long) {
            auto lat = gen::lattice(r); nat::note(lat.str());
            auto l = lat.build();
            Tab s, h;
            for (auto i = 0u; i < lat.subs.size(); ++i) if (lat.subs[i].alias_of == (int)i) { s.names.push_back(lat.subs[i].name); s.e.push_back(lat.subs[i].energy); }
            for (auto& f : lat.fams) { h.names.push_back(f.name); h.e.push_back(f.energy); }
            compare(l.site_registry(), s);
            compare(l.hopping_registry(), h);
        });
        nat::section("model", 300, [](nat::Rng& r, long) {
            auto lat = gen::lattice(r); nat::note(lat.str());
            Model m(lat.build());
            Tab s, h;
            for (auto i = 0u; i < lat.subs.size(); ++i) if (lat.subs[i].alias_of == (int)i) { s.names.push_back(lat.subs[i].name); s.e.push_back(lat.subs[i].energy); }
            for (auto& f : lat.fams) { h.names.push_back(f.name); h.e.push_back(f.energy); }
            compare(m.get_site_registry(), s); compare(m.get_hopping_registry(), h);
            for (int k = r.range(1, 3); k > 0; --k) {
                bool so, ho; auto e = energy(r, so, ho); bool site = r.coin();
                auto& ref = site ? s : h;
                std::string name = r.coin(1, 4) && !ref.names.empty() ? ref.names[r.range(0, (int)ref.names.size() - 1)] : "g" + std::to_string(k);
                bool ok = std::find(ref.names.begin(), ref.names.end(), name) == ref.names.end() && (site ? so : ho);
                bool thrown = nat::throws([&] {
                    if (site) m.add(SiteGenerator(name, e, [](System const&) { return CartesianArray(0); }));
                    else m.add(HoppingGenerator(name, e, [](System const&) { return HoppingGenerator::Result{}; }));
                });
                NCHECK(thrown == !ok, "generator '", name, "' ", thrown ? "rejected" : "accepted");
                if (ok) { ref.names.push_back(name); ref.e.push_back(e); }
                compare(m.get_site_registry(), s); compare(m.get_hopping_registry(), h);
            }
        });
    });
}
