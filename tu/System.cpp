#include "system/System.cpp"
