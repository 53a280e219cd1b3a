#include "C03_fdzp.hh"
typedef Types<Pair<60, 48>, Pair<64, 63>, Pair<64, 27>, Pair<90, 31>, Pair<100, 33>, Pair<128, 64>, Pair<128, 100>, Pair<160, 128>, Pair<256, 255>, Pair<240, 80>> Large;
PROP(large, 1000, 15000) { Large::any(s, [&](auto p) { interpolate<float, decltype(p)::out, decltype(p)::in>(s); }); }
typedef Types<Pair<1024, 512>, Pair<1000, 300>, Pair<720, 625>, Pair<2048, 75>, Pair<2048, 1024>, Pair<1500, 1200>, Pair<1200, 1125>> Larger;
PROP(larger, 80, 800) { Larger::any(s, [&](auto p) { interpolate<float, decltype(p)::out, decltype(p)::in>(s); }); }
