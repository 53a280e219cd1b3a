// TIER: thorough
#include "C01_fft.hh"
typedef Sizes<132, 153, 168, 182, 196, 220, 234, 255> Reste;
PROP(reste, 3200, 48000) { Reste::any(s, [&](auto n) { transform<float, n()>(s); }); }
