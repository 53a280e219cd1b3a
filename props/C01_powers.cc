#include "C01_fft.hh"
typedef Sizes<64, 128, 256, 512, 1024, 2048, 4096> Powers;
PROP(powers, 1400, 21000) { Powers::any(s, [&](auto n) { transform<float, n()>(s); }); }
