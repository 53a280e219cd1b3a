#include "C01_fft.hh"
typedef Sizes<55, 87, 121, 169, 247, 341, 493, 713> Pairsc;
PROP(pairsc, 4000, 60000) { Pairsc::any(s, [&](auto n) { transform<float, n()>(s); }); }
