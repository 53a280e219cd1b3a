#include "C02_real.hh"
typedef Sizes<162, 168, 174, 180, 182, 186, 192, 196, 198, 204, 210, 216, 220, 224, 228, 234, 238, 242, 250, 252> Reale;
PROP(reale, 20000, 300000) { Reale::any(s, [&](auto n) { transform<float, n()>(s); }); }
