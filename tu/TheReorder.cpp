// KPM: reordering of the Hamiltonian and its slices.
#include "kpm/OptimizedHamiltonian.cpp"

namespace cpb { namespace kpm {
template void OptimizedHamiltonian::reorder<VectorX<double>>(VectorX<double>&) const;
template void OptimizedHamiltonian::reorder<VectorX<std::complex<double>>>(VectorX<std::complex<double>>&) const;
template void OptimizedHamiltonian::create_reordered<double>(Indices const&, Scale<>);
template void OptimizedHamiltonian::create_reordered<std::complex<double>>(Indices const&, Scale<>);
template void OptimizedHamiltonian::create_scaled<double>(Indices const&, Scale<>);
template void OptimizedHamiltonian::create_scaled<std::complex<double>>(Indices const&, Scale<>);
template void OptimizedHamiltonian::reorder<double>(SparseMatrixX<double>&) const;
template void OptimizedHamiltonian::reorder<std::complex<double>>(SparseMatrixX<std::complex<double>>&) const;
}}
