// TIER: thorough
#include "C01_fft.hh"
typedef Sizes<165, 273, 867, 1587, 2523, 6859> Cubesa;
PROP(cubesa, 240, 3600) { Cubesa::any(s, [&](auto n) { transform<float, n()>(s); }); }
