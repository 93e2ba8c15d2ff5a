#include "system/Registry.cpp"
