// TIER: thorough
#include "C01_fft.hh"
typedef Sizes<45, 52, 60, 68, 77, 88, 96, 105, 116, 125, 144, 161, 192, 217, 247, 288, 320, 368, 403, 493, 589, 720, 961> Doublec;
PROP(doublec, 4600, 69000) { Doublec::any(s, [&](auto n) { transform<double, n()>(s); }); }
