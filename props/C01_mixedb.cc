#include "C01_fft.hh"
typedef Sizes<60, 75, 96, 120, 144, 160, 192, 210, 240, 250, 300, 343, 375, 400, 450, 600, 640, 729, 960, 1152, 1536, 2310> Mixedb;
PROP(mixedb, 8800, 132000) { Mixedb::any(s, [&](auto n) { transform<float, n()>(s); }); }
