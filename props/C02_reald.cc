#include "C02_real.hh"
typedef Sizes<84, 90, 92, 98, 102, 108, 112, 114, 116, 124, 126, 130, 132, 138, 140, 150, 154, 156> Reald;
PROP(reald, 18000, 270000) { Reald::any(s, [&](auto n) { transform<float, n()>(s); }); }
