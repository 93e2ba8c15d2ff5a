// The foundation: sites, positions, iteration, slices, dangling bonds, finalized indices.
#include "system/Foundation.cpp"

namespace cpb {
template class Foundation::Iterator<true>;
template class Foundation::Iterator<false>;
template class SpatialSliceIterator<true>;
template class SpatialSliceIterator<false>;
template class Foundation::SpatialSlice<true>;
template class Foundation::SpatialSlice<false>;
template class Foundation::SublatticeSlice<true>;
template class Foundation::SublatticeSlice<false>;
}
