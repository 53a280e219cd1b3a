// TIER: thorough
#include "C01_fft.hh"
typedef Sizes<130, 147, 165, 175, 195, 216, 231, 252> Restd;
PROP(restd, 3200, 48000) { Restd::any(s, [&](auto n) { transform<float, n()>(s); }); }
