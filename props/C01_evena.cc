#include "C01_fft.hh"
typedef Sizes<44, 52, 62, 80, 104, 124, 176, 232, 304, 496> Evena;
PROP(evena, 10000, 150000) { Evena::any(s, [&](auto n) { transform<float, n()>(s); }); }
