#include "C01_fft.hh"
typedef Sizes<42, 50, 54, 63, 66, 70, 78, 81, 84, 98> Resta;
PROP(resta, 10000, 150000) { Resta::any(s, [&](auto n) { transform<float, n()>(s); }); }
