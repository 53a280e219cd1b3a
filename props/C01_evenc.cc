#include "C01_fft.hh"
typedef Sizes<48, 58, 76, 92, 116, 152, 208, 272, 464> Evenc;
PROP(evenc, 9000, 135000) { Evenc::any(s, [&](auto n) { transform<float, n()>(s); }); }
