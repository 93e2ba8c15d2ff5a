#include "Model.cpp"
#include "leads/Leads.cpp"
#include "hamiltonian/HamiltonianModifiers.cpp"
#include "hamiltonian/Hamiltonian.cpp"
#include "leads/Spec.cpp"
#include "system/Shape.cpp"
#include "system/Symmetry.cpp"
