#include "C01_fft.hh"
typedef Sizes<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 38, 39, 40> Small;
PROP(small, 78000, 1170000) { Small::any(s, [&](auto n) { transform<float, n()>(s); }); }
