#include "dut.hh"
#include "complex.hh"
#include "C04_polar.hh"
PROP(polar_float, 700000, 10000000) { angles<float>(s); }
PROP(polar_double, 700000, 10000000) { angles<double>(s); }
