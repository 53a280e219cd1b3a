// TIER: thorough
#include "C01_fft.hh"
typedef Sizes<138, 156, 171, 189, 204, 228, 242> Restg;
PROP(restg, 2800, 42000) { Restg::any(s, [&](auto n) { transform<float, n()>(s); }); }
