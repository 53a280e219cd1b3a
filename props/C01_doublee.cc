// TIER: thorough
#include "C01_fft.hh"
typedef Sizes<48, 55, 63, 70, 80, 91, 99, 110, 119, 128, 150, 176, 203, 225, 250, 299, 341, 377, 437, 512, 625, 768, 1024> Doublee;
PROP(doublee, 4600, 69000) { Doublee::any(s, [&](auto n) { transform<double, n()>(s); }); }
