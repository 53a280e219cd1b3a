#include "C01_fft.hh"
typedef Sizes<45, 72, 90, 100, 125, 150, 180, 200, 225, 243, 288, 320, 360, 384, 420, 480, 625, 720, 768, 1000, 1280, 1920> Mixeda;
PROP(mixeda, 8800, 132000) { Mixeda::any(s, [&](auto n) { transform<float, n()>(s); }); }
