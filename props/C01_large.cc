// RULE: a case is non-trivial when the length is more than one and the input is not zero
// ASSUME: lengths are the listed 31-smooth numbers (all up to 128, in thorough all up to 256 and products of three equal or different odd radices, all products of two radices, powers of two up to 131072, mixed ones up to 9690); tolerance eps (2 + log2 N) sqrt(N) times the norm of the input
// TECH: property-based testing against the DFT in extended precision, energy and round trip
#include "C01_fft.hh"
typedef Sizes<4800, 8192, 9690, 16384, 32768, 65536, 131072> Large;
PROP(large, 120, 2000) { Large::any(s, [&](auto n) { transform<float, n()>(s); }); }
