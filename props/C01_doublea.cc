// TIER: thorough
#include "C01_fft.hh"
typedef Sizes<42, 50, 57, 65, 75, 85, 93, 102, 114, 121, 136, 155, 184, 209, 240, 256, 304, 360, 391, 464, 529, 667, 899> Doublea;
PROP(doublea, 4600, 69000) { Doublea::any(s, [&](auto n) { transform<double, n()>(s); }); }
