// KPM: scaling, kernels, request validation.
#include "kpm/Kernel.cpp"
#include "kpm/Bounds.hpp"
#include "KPM.cpp"

namespace cpb { namespace kpm {
template struct Scale<double>;
template struct Scale<float>;
template void Kernel::operator()<double>(ArrayX<double>&) const;
template void Kernel::operator()<float>(ArrayX<float>&) const;
}}

namespace cpb {
/// Clients: what the kernels return
inline ArrayXd jackson_coefficients(idx_t n) { return kpm::jackson_kernel().damping_coefficients(n); }
inline ArrayXd lorentz_coefficients(double lambda, idx_t n) { return kpm::lorentz_kernel(lambda).damping_coefficients(n); }
inline ArrayXd dirichlet_coefficients(idx_t n) { return kpm::dirichlet_kernel().damping_coefficients(n); }
inline idx_t jackson_moments(double broadening) { return kpm::jackson_kernel().required_num_moments(broadening); }
inline idx_t lorentz_moments(double lambda, double broadening) { return kpm::lorentz_kernel(lambda).required_num_moments(broadening); }
inline idx_t dirichlet_moments(double broadening) { return kpm::dirichlet_kernel().required_num_moments(broadening); }
}
