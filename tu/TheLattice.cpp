// The lattice builder, its queries and the optimised unit cell.
#include "Lattice.cpp"
#include "system/Registry.cpp"
