#include "C02_real.hh"
typedef Sizes<4, 8, 12, 16, 20, 24, 28, 32, 36, 40, 46, 50, 58, 62, 64, 90, 128, 512, 1000, 1024, 4096> Doubleb;
PROP(doubleb, 6000, 90000) { Doubleb::any(s, [&](auto n) { transform<double, n()>(s); }); }
