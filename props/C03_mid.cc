#include "C03_fdzp.hh"
typedef Types<Pair<18, 13>, Pair<20, 17>, Pair<21, 20>, Pair<24, 16>, Pair<24, 23>, Pair<27, 26>, Pair<29, 2>, Pair<31, 30>, Pair<32, 31>, Pair<32, 4>, Pair<33, 22>, Pair<40, 10>, Pair<45, 44>, Pair<48, 30>> Mid;
PROP(mid, 21000, 315000) { Mid::any(s, [&](auto p) { interpolate<float, decltype(p)::out, decltype(p)::in>(s); }); }
