// Values streamed after the text of a statement (style >= 100): decided by the style number alone.
#pragma once
struct SVal { int k; unsigned long long x; };
enum { SV_LL, SV_ULL, SV_INT, SV_SHORT, SV_UCHAR, SV_BOOL, SV_CHAR, SV_DBL, SV_FLT, SV_PTR, SV_STR, SV_VEC, SV_MAP, SV_PAIR, SV_PCT, SV_TIME, SV_NULLSTR, SV_NULLPTR, SV_SPECIAL, SV_ALIGN, SV_LIST, SV_BIN, SV_N };
enum { SV_COUNT = 10 };
inline unsigned long long sv_mix(unsigned long long z) { z += 0x9E3779B97F4A7C15ull; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
inline int stream_vals(long style, SVal* v, int max)
{
    unsigned long long s = (unsigned long long)style * 1000; int n = 1 + (int)(sv_mix(s++) % (unsigned long long)max);
    for (int i = 0; i < n; i++)
    {
        v[i].k = (int)(sv_mix(s++) % SV_N);
        unsigned long long x = sv_mix(s++), w = sv_mix(s++);
        v[i].x = w % 3 == 0 ? x : x >> (w / 3 % 60);
    }
    return n;
}
inline double special_value(unsigned long long x)
{
    switch (x % 7)
    {
    case 0: return 0.0;
    case 1: return __builtin_inf();
    case 2: return __builtin_nan("");
    case 3: return 1e300;
    case 4: return -1e300;
    case 5: return 0.00005;
    default: return -0.00005;
    }
}
// bytes of a binary dump
inline int binary_value(unsigned long long x, char* b)
{
    int n = (int)(x % 50); static const char W[] = { 0, 'a', (char)0xff, '\n', 'Z', 0, 1, '7' };
    for (int i = 0; i < n; i++) b[i] = W[sv_mix(x + (unsigned long long)i) % 8];
    return n;
}
