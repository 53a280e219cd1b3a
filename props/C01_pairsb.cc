#include "C01_fft.hh"
typedef Sizes<51, 85, 119, 161, 221, 323, 437, 667> Pairsb;
PROP(pairsb, 4000, 60000) { Pairsb::any(s, [&](auto n) { transform<float, n()>(s); }); }
