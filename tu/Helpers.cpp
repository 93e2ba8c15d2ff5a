// Header-only helpers, instantiated at the types the library uses them with.
#include "hamiltonian/HamiltonianModifiers.hpp"
#include "detail/algorithm.hpp"
#include "detail/slice.hpp"
#include "detail/sugar.hpp"
#include "support/format.hpp"

namespace cpb {
template ArrayX<float> slice<ArrayX<float>, ArrayX<bool>>(ArrayX<float> const&, ArrayX<bool> const&);
template ArrayX<float> concat<ArrayX<float>>(Ref<ArrayX<float> const>, Ref<ArrayX<float> const>);
template ArrayX<double> make_integer_range<double>(idx_t);
template ArrayX<int> make_integer_range<int>(idx_t);
template class Sliced<std::vector<int>>;
template class SliceIndexND<3>;
template Sliced<std::vector<int>> sliced<std::vector<int>>(std::vector<int> const&, idx_t);

/// Client lemma for `sliced`: what iteration over the slices visits
void visit_slices(std::vector<int> const& v, idx_t step, std::vector<int>& elements, std::vector<idx_t>& sizes) {
    for (auto const& s : sliced(v, step)) {
        sizes.push_back(s.end() - s.begin());
        for (auto it = s.begin(); it != s.end(); ++it) { elements.push_back(*it); }
    }
}

void instantiate_helpers(std::vector<int>& v, std::vector<int> const& c) { arrayref(v); arrayref(c); }
}
