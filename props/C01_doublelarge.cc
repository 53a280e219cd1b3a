#include "C01_fft.hh"
typedef Sizes<64, 81, 128, 55, 91, 187, 323, 437, 667, 899, 961, 33, 49, 121, 169, 289, 529, 841, 1024, 1000> Doublelarge;
PROP(doublelarge, 6000, 90000) { Doublelarge::any(s, [&](auto n) { transform<double, n()>(s); }); }
