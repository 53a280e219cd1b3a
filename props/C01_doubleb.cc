// TIER: thorough
#include "C01_fft.hh"
typedef Sizes<44, 51, 58, 66, 76, 87, 95, 104, 115, 124, 143, 160, 187, 210, 243, 272, 319, 361, 400, 480, 551, 713, 960> Doubleb;
PROP(doubleb, 4600, 69000) { Doubleb::any(s, [&](auto n) { transform<double, n()>(s); }); }
