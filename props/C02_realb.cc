#include "C02_real.hh"
typedef Sizes<42, 44, 46, 48, 50, 52, 54, 56, 58, 60, 62, 64, 66, 68, 70, 72, 76, 78, 80, 88, 96, 100, 104, 110, 120> Realb;
PROP(realb, 125000, 1875000) { Realb::any(s, [&](auto n) { transform<float, n()>(s); }); }
