#include "C01_fft.hh"
typedef Sizes<99, 102, 105, 108, 110, 114, 117, 126> Restb;
PROP(restb, 8000, 120000) { Restb::any(s, [&](auto n) { transform<float, n()>(s); }); }
