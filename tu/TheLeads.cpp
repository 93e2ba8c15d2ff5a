// Leads: specification, junction and structure.
#include "leads/Spec.cpp"
#include "leads/Structure.cpp"

namespace cpb {
template class SpatialSliceIterator<true>;
template class SpatialSliceIterator<false>;
template class Foundation::SpatialSlice<true>;
template class Foundation::SpatialSlice<false>;
}
