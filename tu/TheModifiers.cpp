// Structure modifiers: states, positions, generated sites and bonds.
#include "system/System.cpp"
#include "system/StructureModifiers.cpp"
