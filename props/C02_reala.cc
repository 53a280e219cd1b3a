// RULE: a case is non-trivial when the length is more than two and the input is not zero
// ASSUME: lengths are all even numbers up to 256 whose half is supported, and others up to 131072; tolerance eps (4 + log2 N) sqrt(N) times the norm of the input
// TECH: property-based testing against the DFT in extended precision, guard values, synthesis
#include "C02_real.hh"
typedef Sizes<2, 4, 6, 8, 10, 12, 14, 16, 18, 20, 22, 24, 26, 28, 30, 32, 34, 36, 38, 40> Reala;
PROP(reala, 320000, 4800000) { Reala::any(s, [&](auto n) { transform<float, n()>(s); }); }
