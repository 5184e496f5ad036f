// Models with repeated equations (related dependents), for loop detection.
#pragma once
#include "hprogs.hpp"
namespace vt {
struct L {
#define F(nm, ...) struct nm { template<class V> void operator()(const V& x, V& y) const { typedef typename V::value_type T; (void)sizeof(T); __VA_ARGS__ } }
    F(a0, for (int i = 0; i < 3; ++i) { y[2 * i] = cos(x[2 * i]); y[2 * i + 1] = x[2 * i + 1] * x[2 * i]; });
    F(a1, T t = x[0] * x[0] + x[1]; for (int i = 0; i < 3; ++i) y[i] = t * x[2 + i] + x[2 + i] * x[2 + i]; );
    F(a2, for (int i = 0; i < 3; ++i) y[i] = x[0] * x[i + 1] - x[1]; );
    F(a3, for (int i = 0; i < 4; ++i) y[i] = x[i] * x[i + 1] * x[i + 1]; );
    F(a4, for (int i = 0; i < 3; ++i) y[i] = x[2 - i] * x[i + 1] / x[4]; );
    F(a5, for (int i = 0; i < 3; ++i) y[i] = (i + 1.5) * x[i] * x[0]; );
    F(a6, for (int i = 0; i < 3; ++i) { T t = x[i] * x[3]; y[2 * i] = t + x[i]; y[2 * i + 1] = i == 1 ? T(x[3] * 2.0) : T(t * x[i]); });
    F(a7, for (int i = 0; i < 3; ++i) { T t = x[i] * x[0]; y[2 * i] = t + 1.0; y[2 * i + 1] = t * x[i]; });
    F(a8, int p[4] = {3, 0, 2, 1}; for (int i = 0; i < 4; ++i) y[i] = x[p[i]] * x[i] + exp(x[0]); );
    F(a9, for (int i = 0; i < 3; ++i) y[i] = x[i] * x[i] * x[3]; y[3] = x[0] + x[1] * x[3]; y[4] = y[0] * y[1]; );
    F(a10, for (int i = 0; i < 3; ++i) y[i] = CondExpLt(x[i], x[i + 1], x[i] * x[0], T(1.0)); );
    F(a11, for (int i = 0; i < 3; ++i) y[i] = x[i] * x[3]; y[3] = x[0] + x[3]; y[4] = x[1] * x[1] * x[1]; );
    F(a12, for (int i = 0; i < 2; ++i) y[i] = x[i] * x[2]; for (int i = 2; i < 4; ++i) y[i] = x[i] * x[3]; );
    F(a13, for (int i = 0; i < 3; ++i) y[i] = x[i]; y[3] = 2.0; y[4] = 2.0; );
    F(a14, T t = exp(x[3]); T s = t * x[4]; for (int i = 0; i < 3; ++i) { y[i] = s * x[i] + t; } y[3] = s - x[0]; y[4] = t * t; );
    F(a15, y[0] = x[0] * x[1]; y[1] = x[2] * x[3]; y[2] = x[1] * x[3]; y[3] = x[0] * x[3]; );
    F(a16, for (int i = 0; i < 3; ++i) { y[i] = x[0] * x[0]; y[3 + i] = x[i + 1] * y[i]; } );
    // mass balance over a cascade: neighbours, one equation per state and per cell
    F(a17, for (int i = 0; i < 3; ++i) { T in = i == 0 ? x[6] : x[2 * i - 2]; y[2 * i] = in - x[2 * i]; y[2 * i + 1] = in * x[2 * i + 1] - x[7] * x[2 * i]; });
    F(a18, T t = x[0] * x[1]; for (int i = 0; i < 3; ++i) y[i] = t * t * x[2 + i]; );
    F(a19, T t = x[0] * x[1]; T s = x[0] + x[2] * x[2]; for (int i = 0; i < 3; ++i) y[i] = t * s * x[i + 1]; );
    F(a20, for (int i = 0; i < 3; ++i) y[i] = x[0] * x[1] * x[1] * x[i]; );
    F(a21, T t = x[0] * x[3]; for (int i = 0; i < 3; ++i) { T r = x[i] * x[i] * t; y[2 * i] = r + x[i]; y[2 * i + 1] = i == 1 ? T(x[3] * x[2]) : T(r * x[i]); });
    F(a22, T t = exp(x[0]); for (int i = 0; i < 3; ++i) y[i] = t * x[i] * x[3]; y[3] = t * x[1]; y[4] = t * t; );
    F(a23, for (int i = 0; i < 3; ++i) y[i] = x[i] * x[i + 1]; for (int i = 0; i < 2; ++i) y[3 + i] = x[i] * x[3] * x[3]; );
    F(a24, for (int i = 0; i < 3; ++i) { T t = x[i] * x[i + 1]; y[i] = t * x[0]; y[5 - i] = t + x[3]; });
    F(a25, T t = x[0] * x[1]; for (int i = 0; i < 3; ++i) y[i] = x[p(i)] * x[i] * t + t; } static int p(int i) { return (i * 2 + 1) % 4; );
    F(a26, for (int i = 0; i < 2; ++i) { y[2 * i] = x[0] / x[i + 1]; y[2 * i + 1] = (x[i + 1] - x[0]) * x[3] * x[3]; });
#undef F
};
template<class F> Prog loopProg(const char* nm, size_t n, size_t m, std::vector<std::set<size_t>> rel) {
    F f;
    Prog p = VT_PROG(nm, n, m, f);
    p.related = rel;
    return p;
}
inline std::vector<Prog> loopProgs() {
    return {
        loopProg<L::a0>("loop detached", 6, 6, {{0, 2, 4}, {1, 3, 5}}),
        loopProg<L::a1>("loop common temporary", 5, 3, {{0, 1, 2}}),
        loopProg<L::a2>("loop constant index", 4, 3, {{0, 1, 2}}),
        loopProg<L::a3>("loop overlap", 5, 4, {{0, 1, 2, 3}}),
        loopProg<L::a4>("loop reversed", 5, 3, {{0, 1, 2}}),
        loopProg<L::a5>("loop different constants", 3, 3, {{0, 1, 2}}),
        loopProg<L::a6>("loop missing equation", 4, 6, {{0, 2, 4}, {1, 5}}),
        loopProg<L::a7>("loop shared temporary", 3, 6, {{0, 2, 4}, {1, 3, 5}}),
        loopProg<L::a8>("loop random index", 4, 4, {{0, 1, 2, 3}}),
        loopProg<L::a9>("loop and other equations", 4, 5, {{0, 1, 2}}),
        loopProg<L::a10>("loop cond", 4, 3, {{0, 1, 2}}),
        loopProg<L::a11>("loop wrong candidates", 4, 5, {{0, 1, 2, 3, 4}}),
        loopProg<L::a12>("loop two patterns", 4, 4, {{0, 1, 2, 3}}),
        loopProg<L::a13>("loop copies", 3, 5, {{0, 1, 2}, {3, 4}}),
        loopProg<L::a14>("loop temporaries outside", 5, 5, {{0, 1, 2}}),
        loopProg<L::a15>("loop irregular", 4, 4, {{0, 1, 2, 3}}),
        loopProg<L::a16>("loop without index", 4, 6, {{0, 1, 2}, {3, 4, 5}}),
        loopProg<L::a18>("loop squared temporary", 5, 3, {{0, 1, 2}}),
        loopProg<L::a19>("loop two temporaries", 4, 3, {{0, 1, 2}}),
        loopProg<L::a20>("loop not indexed twice", 3, 3, {{0, 1, 2}}),
        loopProg<L::a21>("loop missing equation 2", 4, 6, {{0, 2, 4}, {1, 5}}),
        loopProg<L::a22>("loop shared with others", 4, 5, {{0, 1, 2}}),
        loopProg<L::a23>("loop different counts", 4, 5, {{0, 1, 2}, {3, 4}}),
        loopProg<L::a24>("loop opposite orders", 4, 6, {{0, 1, 2}, {3, 4, 5}}),
        loopProg<L::a25>("loop random index 2", 4, 3, {{0, 1, 2}}),
        loopProg<L::a26>("loop two equations", 4, 4, {{0, 2}, {1, 3}}),
        loopProg<L::a17>("loop cascade", 8, 6, {{0, 2, 4}, {1, 3, 5}}),
    };
}
}
