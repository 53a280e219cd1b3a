#include "C02_real.hh"
typedef Sizes<2, 6, 10, 14, 18, 22, 26, 30, 34, 38, 42, 48, 54, 60, 66, 72, 80, 100, 120, 256> Doublea;
PROP(doublea, 120000, 1800000) { Doublea::any(s, [&](auto n) { transform<double, n()>(s); }); }
