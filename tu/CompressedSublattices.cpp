#include "system/CompressedSublattices.cpp"
