#include "C01_fft.hh"
typedef Sizes<69, 95, 145, 209, 299, 391, 551, 961> Pairsf;
PROP(pairsf, 4000, 60000) { Pairsf::any(s, [&](auto n) { transform<float, n()>(s); }); }
