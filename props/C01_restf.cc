// TIER: thorough
#include "C01_fft.hh"
typedef Sizes<135, 154, 170, 186, 198, 224, 238> Restf;
PROP(restf, 2800, 42000) { Restf::any(s, [&](auto n) { transform<float, n()>(s); }); }
