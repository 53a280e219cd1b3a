#include "C01_fft.hh"
typedef Sizes<65, 93, 143, 203, 289, 377, 529, 899> Pairse;
PROP(pairse, 4000, 60000) { Pairse::any(s, [&](auto n) { transform<float, n()>(s); }); }
