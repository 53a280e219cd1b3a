#include "C02_real.hh"
typedef Sizes<128, 136, 144, 152, 160, 170, 176, 184, 190, 200, 208, 230, 232, 240, 248, 256, 290, 310, 320, 360, 384, 400, 450, 480, 500, 512> Realc;
PROP(realc, 26000, 390000) { Realc::any(s, [&](auto n) { transform<float, n()>(s); }); }
