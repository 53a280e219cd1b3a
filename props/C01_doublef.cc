// TIER: thorough
#include "C01_fft.hh"
typedef Sizes<49, 56, 64, 72, 84, 92, 100, 112, 120, 133, 152, 180, 208, 232, 253, 300, 343, 384, 450, 527, 640, 841> Doublef;
PROP(doublef, 4400, 66000) { Doublef::any(s, [&](auto n) { transform<double, n()>(s); }); }
