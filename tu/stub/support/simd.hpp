// Stands in for support/simd.hpp: libsimdpp is not installed here.  It selects the generic code paths
// (the ones libsimdpp itself selects on a machine without vector instructions).
#pragma once
#define SIMDPP_USE_NULL 1
#include "detail/config.hpp"
#include "detail/macros.hpp"
#include "support/cppfuture.hpp"
#include <array>
#include <complex>

namespace cpb { namespace simd {
struct basic_traits {
    static constexpr auto align_bytes = 32;
    static constexpr auto register_size_bytes = 32;
};
template<class T>
struct traits : basic_traits {
    static constexpr auto size = register_size_bytes / sizeof(T);
};
template<class scalar_t>
using array = std::array<scalar_t, traits<scalar_t>::size>;
struct scope_disable_denormals { scope_disable_denormals() {} ~scope_disable_denormals() {} };
}} // namespace cpb::simd
