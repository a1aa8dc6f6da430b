// C03: the geometry part of the brick driver
#define C03_GEOMETRY
#include "c01.cc"
