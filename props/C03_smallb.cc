#include "C03_fdzp.hh"
typedef Types<Pair<3, 1>, Pair<4, 1>, Pair<4, 3>, Pair<5, 2>, Pair<5, 4>, Pair<6, 4>, Pair<7, 2>, Pair<7, 5>, Pair<8, 3>, Pair<8, 5>, Pair<9, 4>, Pair<9, 7>, Pair<10, 3>, Pair<10, 9>, Pair<11, 10>, Pair<12, 8>, Pair<12, 11>, Pair<13, 12>, Pair<14, 11>, Pair<15, 10>, Pair<16, 4>, Pair<16, 12>> Smallb;
PROP(smallb, 132000, 1980000) { Smallb::any(s, [&](auto p) { interpolate<float, decltype(p)::out, decltype(p)::in>(s); }); }
