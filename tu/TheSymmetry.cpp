// Translational symmetry and the transfer of the foundation into the final system.
#include "system/Symmetry.cpp"
#include "system/System.cpp"

namespace cpb {
template class Foundation::Iterator<true>;
template class Foundation::Iterator<false>;
template class SpatialSliceIterator<true>;
template class Foundation::SpatialSlice<true>;
}
