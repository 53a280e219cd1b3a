// TIER: thorough
#include "C01_fft.hh"
typedef Sizes<46, 54, 62, 69, 78, 90, 98, 108, 117, 126, 145, 169, 200, 221, 248, 289, 323, 375, 420, 496, 600, 729, 1000> Doubled;
PROP(doubled, 4600, 69000) { Doubled::any(s, [&](auto n) { transform<double, n()>(s); }); }
