// Contracts of the SSE helpers (modules/utils/include/litiv/utils/simd.hpp) against their scalar meaning.
#include "vc.h"
#include "litiv/utils/simd.hpp"
template<class T> static __m128i load(T (&a)[16 / sizeof(T)], const char* const* nm) {
    for(size_t i = 0; i < 16 / sizeof(T); ++i) a[i] = vc_any<T>(nm[i]);
    __m128i r; memcpy(&r, a, 16); return r;
}
static const char* NA[] = {"a0","a1","a2","a3","a4","a5","a6","a7","a8","a9","a10","a11","a12","a13","a14","a15"};
static const char* NB[] = {"b0","b1","b2","b3","b4","b5","b6","b7","b8","b9","b10","b11","b12","b13","b14","b15"};
VC_CONTRACT(cmp_zero) {
    uint8_t a[16]; __m128i x = load(a, NA); bool z = true; for(int i = 0; i < 16; ++i) z &= a[i] == 0;
    vc_assert(lv::cmp_zero_128i(x) == z, "zero test is true exactly when all bits are zero");
}
VC_CONTRACT(cmp_eq) {
    uint8_t a[16], b[16]; __m128i x = load(a, NA), y = load(b, NB); bool e = true; for(int i = 0; i < 16; ++i) e &= a[i] == b[i];
    vc_assert(lv::cmp_eq_128i(x, y) == e, "equality test is true exactly when all bytes agree");
}
VC_CONTRACT(hsum_8ui) {
    uint8_t a[16]; __m128i x = load(a, NA); unsigned long s = 0; for(int i = 0; i < 16; ++i) s += a[i];
    vc_assert(lv::hsum_8ui(x) == s, "horizontal byte sum");
}
VC_CONTRACT(hsum_32i) {
    int32_t a[4]; __m128i x = load(a, NA); uint32_t s = 0; for(int i = 0; i < 4; ++i) s += (uint32_t)a[i];
    vc_assert((uint32_t)lv::hsum_32i(x) == s, "horizontal 32-bit sum (modulo 2^32)");
}
VC_CONTRACT(hmin_8ui) {
    uint8_t a[16]; __m128i x = load(a, NA); uint8_t m = 255; for(int i = 0; i < 16; ++i) if(a[i] < m) m = a[i];
    vc_assert(lv::hmin_8ui(x) == m, "horizontal minimum");
}
VC_CONTRACT(hmax_8ui) {
    uint8_t a[16]; __m128i x = load(a, NA); uint8_t m = 0; for(int i = 0; i < 16; ++i) if(a[i] > m) m = a[i];
    vc_assert(lv::hmax_8ui(x) == m, "horizontal maximum");
}
VC_CONTRACT(hmax_32si) {
    int32_t a[4]; __m128i x = load(a, NA); int32_t m = a[0]; for(int i = 1; i < 4; ++i) if(a[i] > m) m = a[i];
    vc_assert(lv::hmax_32si(x) == m, "horizontal signed maximum");
}
VC_CONTRACT(unpack) {
    uint8_t a[16]; __m128i x = load(a, NA); uint16_t l[8], h[8];
    __m128i r = lv::unpack_8ui_to_16ui<true>(x), q = lv::unpack_8ui_to_16ui<false>(x); memcpy(l, &r, 16); memcpy(h, &q, 16);
    for(int i = 0; i < 8; ++i) { vc_assert(l[i] == a[i], "low half is widened in order"); vc_assert(h[i] == a[8 + i], "high half is widened in order"); }
}
VC_CONTRACT(mult_8i) {
    uint8_t a[16], b[16], r[16]; __m128i x = load(a, NA), y = load(b, NB); __m128i z = lv::mult_8i(x, y); memcpy(r, &z, 16);
    for(int i = 0; i < 16; ++i) vc_assert(r[i] == (uint8_t)(a[i] * b[i]), "lane-wise byte product modulo 256");
}
VC_CONTRACT(mult_32si) {
    int32_t a[4], b[4], r[4]; __m128i x = load(a, NA), y = load(b, NB); __m128i z = lv::mult_32si(x, y); memcpy(r, &z, 16);
    for(int i = 0; i < 4; ++i) vc_assert((uint32_t)r[i] == (uint32_t)a[i] * (uint32_t)b[i], "lane-wise 32-bit product modulo 2^32");
}
VC_CONTRACT(extract) {
    int32_t a[4]; __m128i x = load(a, NA);
    vc_assert(lv::extract_32si<0>(x) == a[0] && lv::extract_32si<1>(x) == a[1] && lv::extract_32si<2>(x) == a[2] && lv::extract_32si<3>(x) == a[3], "lane extraction");
}
VC_CONTRACT(store1) {
    alignas(16) uint8_t r[16]; uint8_t v = vc_any<uint8_t>("v"); lv::store1_8ui((__m128i*)r, v);
    for(int i = 0; i < 16; ++i) vc_assert(r[i] == v, "all bytes are set");
}
struct SC { const uint8_t* p; long k; uint8_t v, old; };
static bool inv_store(void* c, long i) { SC& x = *(SC*)c; return x.p[x.k] == (x.k < i * 16 ? x.v : x.old); }
VC_CONTRACT(store) {
    long n = vc_range<long>("n", 0, 1l << 20), extra = vc_range<long>("extra", 0, 64), k = vc_range<long>("k", 0, 1l << 25);
    vc_assume(k < n * 16 + extra);
    uint8_t* p = vc_arr<uint8_t>("buf", n * 16 + extra); uint8_t v = vc_any<uint8_t>("v"), old = p[k];
    SC c{p, k, v, old}; vc_candidate((void*)inv_store, &c, "p");
    lv::store_8ui((__m128i*)p, (size_t)n, v);
    vc_assert(p[k] == (k < n * 16 ? v : old), "exactly the requested 16-byte blocks are set");
}
