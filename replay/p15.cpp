#include "p14.cpp"
