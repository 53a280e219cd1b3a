#include "C03_fdzp.hh"
typedef Types<Pair<2, 1>, Pair<4, 1>, Pair<5, 1>, Pair<5, 4>, Pair<6, 5>, Pair<7, 5>, Pair<8, 4>, Pair<9, 4>, Pair<9, 8>, Pair<10, 9>, Pair<12, 5>, Pair<12, 11>, Pair<14, 9>, Pair<15, 10>, Pair<16, 8>, Pair<18, 13>, Pair<24, 16>, Pair<29, 2>, Pair<32, 4>, Pair<45, 44>> Doubles;
PROP(doubles, 40000, 600000) { Doubles::any(s, [&](auto p) { interpolate<double, decltype(p)::out, decltype(p)::in>(s); }); }
