// TIER: thorough
#include "C01_fft.hh"
typedef Sizes<140, 162, 174, 190, 207, 230, 245> Restc;
PROP(restc, 3200, 48000) { Restc::any(s, [&](auto n) { transform<float, n()>(s); }); }
