// TIER: thorough
#include "C01_fft.hh"
typedef Sizes<195, 363, 1083, 1922, 2431, 2883> Cubesb;
PROP(cubesb, 240, 3600) { Cubesb::any(s, [&](auto n) { transform<float, n()>(s); }); }
