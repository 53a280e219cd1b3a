#include "C01_fft.hh"
typedef Sizes<46, 56, 68, 88, 112, 136, 184, 248, 368> Evenb;
PROP(evenb, 9000, 135000) { Evenb::any(s, [&](auto n) { transform<float, n()>(s); }); }
