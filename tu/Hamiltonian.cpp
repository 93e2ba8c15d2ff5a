// The Hamiltonian builder, instantiated for the scalar types of the library.
#include "hamiltonian/Hamiltonian.hpp"

namespace cpb {
template struct HoppingBuffer<double>;
template struct HoppingBuffer<std::complex<double>>;
namespace ham {
template Hamiltonian make<double>(System const&, Lattice const&, HamiltonianModifiers const&, Cartesian, bool);
template Hamiltonian make<std::complex<double>>(System const&, Lattice const&, HamiltonianModifiers const&, Cartesian, bool);
}
}

namespace cpb {
/// Stands for an arbitrary callback
template<class scalar_t> struct Sink { void operator()(idx_t row, idx_t col, scalar_t value) const; };

template<class scalar_t>
void instantiate_sinks(HamiltonianModifiers const& m, System const& s) {
    m.apply_to_onsite<scalar_t>(s, Sink<scalar_t>());
    m.apply_to_hoppings<scalar_t>(s, Sink<scalar_t>());
    m.apply_to_hoppings<scalar_t>(s, 0, Sink<scalar_t>());
}
template void instantiate_sinks<double>(HamiltonianModifiers const&, System const&);
template void instantiate_sinks<std::complex<double>>(HamiltonianModifiers const&, System const&);
}
