#include "C01_fft.hh"
typedef Sizes<49, 77, 115, 155, 217, 319, 403, 589> Pairsa;
PROP(pairsa, 4000, 60000) { Pairsa::any(s, [&](auto n) { transform<float, n()>(s); }); }
