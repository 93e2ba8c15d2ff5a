#include "system/HoppingBlocks.cpp"
