#include "C01_fft.hh"
typedef Sizes<57, 91, 133, 187, 253, 361, 527, 841> Pairsd;
PROP(pairsd, 4000, 60000) { Pairsd::any(s, [&](auto n) { transform<float, n()>(s); }); }
