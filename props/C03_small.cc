// RULE: a case is non-trivial when the input has more than one value and is not zero
// ASSUME: length pairs are the listed ones up to 256 and a few up to 2048; tolerance 2 eps (4 + log2 of both lengths) times the norm of the input
// TECH: property-based testing against direct trigonometric interpolation, repeated calls
#include "C03_fdzp.hh"
typedef Types<Pair<2, 1>, Pair<3, 2>, Pair<4, 2>, Pair<5, 1>, Pair<5, 3>, Pair<6, 3>, Pair<6, 5>, Pair<7, 3>, Pair<7, 6>, Pair<8, 4>, Pair<8, 7>, Pair<9, 5>, Pair<9, 8>, Pair<10, 6>, Pair<11, 7>, Pair<12, 5>, Pair<12, 9>, Pair<13, 8>, Pair<14, 9>, Pair<15, 7>, Pair<15, 14>, Pair<16, 8>, Pair<16, 15>> Small;
PROP(small, 138000, 2070000) { Small::any(s, [&](auto p) { interpolate<float, decltype(p)::out, decltype(p)::in>(s); }); }
