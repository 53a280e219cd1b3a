#include "C02_real.hh"
typedef Sizes<600, 720, 1000, 1024, 1922, 2048, 4096, 16384, 65536, 131072> Large;
PROP(large, 320, 4800) { Large::any(s, [&](auto n) { transform<float, n()>(s); }); }
