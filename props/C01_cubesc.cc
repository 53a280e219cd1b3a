// TIER: thorough
#include "C01_fft.hh"
typedef Sizes<231, 507, 1331, 2197, 4913, 7429> Cubesc;
PROP(cubesc, 240, 3600) { Cubesc::any(s, [&](auto n) { transform<float, n()>(s); }); }
