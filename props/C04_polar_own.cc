#include "dut.hh"
#include "atan2.hh"
#include "complex.hh"
#include "C04_polar.hh"
PROP(polar_own_float, 700000, 10000000) { angles<float>(s); }
PROP(polar_own_double, 700000, 10000000) { angles<double>(s); }
