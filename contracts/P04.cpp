// Contracts of the power-of-two, bit-field and pseudo-random helpers (modules/utils/include/litiv/utils/math.hpp).
#include "vc.h"
#include "litiv/utils/math.hpp"
// power of two: exactly one bit set (the code's convention: zero also counts as one)
template<class T> static void c_ispow2() {
    T v = vc_any<T>("v"); vc_assume(v > 0);
    typedef typename std::make_unsigned<T>::type U;
    unsigned n = 0; for(unsigned i = 0; i < sizeof(T) * 8; ++i) n += (unsigned)(((U)v >> i) & 1);
    vc_assert(lv::ispow2(v) == (n == 1), "a positive value is a power of two exactly when one bit is set");
}
VC_CONTRACT(ispow2_i32) { c_ispow2<int32_t>(); }
VC_CONTRACT(ispow2_u32) { c_ispow2<uint32_t>(); }
VC_CONTRACT(ispow2_u64) { c_ispow2<uint64_t>(); }
VC_CONTRACT(ispow2_u8) { c_ispow2<uint8_t>(); }
VC_CONTRACT(next_pow2) {
    uint32_t v = vc_any<uint32_t>("v");
    uint32_t r = lv::get_next_pow2(v);
    if(v == 0) vc_assert(r == 0, "the next power of two of zero is zero");
    else if(v <= 0x80000000u) {
        vc_assert(r != 0 && (r & (r - 1)) == 0, "the result is a power of two");
        vc_assert(r >= v, "the result is not below the input");
        vc_assert(r / 2 < v, "no smaller power of two reaches the input");
    }
    vc_assert(lv::ispow2(r), "the result passes the power-of-two test");
}
template<class T, int O, int E> static void c_extend1() {
    T v = vc_any<T>("v"); vc_assume(v < (T(1) << O));
    T r = lv::extend_bits(v, O, E);
    static_assert(O <= E && E <= 2 * O, "");
    vc_assert(r < (T(1) << (E - 1)) * 2, "the result fits the extended width");
    vc_assert((r >> (E - O)) == v, "the upper bits of the result are the input");
    vc_assert(v != 0 || r == 0, "zero maps to zero");
    vc_assert(v != (T(1) << O) - 1 || r == (T(1) << E) - 1, "the maximum maps to the maximum");
    long d = (long)r * ((1l << O) - 1) - (long)v * ((1l << E) - 1);
    vc_assert((d < 0 ? -d : d) < (1l << O), "the result is within one unit of linear scaling");
    T w = vc_any<T>("w"); vc_assume(w < v);
    vc_assert(lv::extend_bits(w, O, E) < r, "the mapping is strictly increasing");
}
VC_CONTRACT(extend_5_8) { c_extend1<uint32_t, 5, 8>(); }
VC_CONTRACT(extend_6_8) { c_extend1<uint32_t, 6, 8>(); }
VC_CONTRACT(extend_4_8) { c_extend1<uint32_t, 4, 8>(); }
VC_CONTRACT(extend_3_3) { c_extend1<uint32_t, 3, 3>(); }
VC_CONTRACT(extend_10_16) { c_extend1<uint64_t, 10, 16>(); }
VC_CONTRACT(extend_any) {
    uint32_t v = vc_any<uint32_t>("v"); int o = vc_range<int>("o", 1, 15), e = vc_range<int>("e", 1, 30);
    vc_assume(o <= e && e <= 2 * o && v < (1u << o));
    uint32_t r = lv::extend_bits(v, o, e);
    vc_assert(r < (1u << e), "the result fits the extended width");
    vc_assert((r >> (e - o)) == v, "the upper bits of the result are the input");
    vc_assert(v != (1u << o) - 1 || r == (1u << e) - 1, "the maximum maps to the maximum");
}
template<size_t W, class T> static void c_expand() {
    T v = vc_any<T>("v");
    T r = lv::expand_bits<W>(v);
    typedef typename std::make_unsigned<T>::type U;
    for(size_t i = 0; i < sizeof(T) * 8; ++i) {
        bool e = (i % W == 0 && i / W < sizeof(T) * 8 / W) ? (((U)v >> (i / W)) & 1) != 0 : false;
        vc_assert(((((U)r) >> i) & 1) == (e ? 1u : 0u), "bit i of the input lands on bit i*W, every other bit is zero");
    }
}
VC_CONTRACT(expand_4_i32) { c_expand<4, int32_t>(); }
VC_CONTRACT(expand_4_u32) { c_expand<4, uint32_t>(); }
VC_CONTRACT(expand_2_u32) { c_expand<2, uint32_t>(); }
VC_CONTRACT(expand_3_u32) { c_expand<3, uint32_t>(); }
VC_CONTRACT(expand_8_u32) { c_expand<8, uint32_t>(); }
VC_CONTRACT(expand_4_u64) { c_expand<4, uint64_t>(); }
VC_CONTRACT(expand_2_u64) { c_expand<2, uint64_t>(); }
VC_CONTRACT(expand_2_u16) { c_expand<2, uint16_t>(); }
VC_CONTRACT(expand_1_u32) { uint32_t v = vc_any<uint32_t>("v"); vc_assert(lv::expand_bits<1>(v) == v, "unit words leave the value unchanged"); }
VC_CONTRACT(fastrand) {
    int s = vc_any<int>("s"), s0 = s;
    int r = lv::fastrand(s);
    vc_assert(r >= 0 && r <= 32767, "the random value is in [0,32767]");
    vc_assert((uint32_t)s == 214013u * (uint32_t)s0 + 2531011u, "the seed advances by the linear congruential step");
    vc_assert(r == (int)(((uint32_t)s >> 16) & 0x7FFF), "the value is bits 16 to 30 of the new seed");
}
template<bool STD> static void c_fastrand_vec() {
    static const uint32_t mult[4] = {214013, 17405, 214013, 69069}, gadd[4] = {2531011, 10395331, 13737667, 1};
    static const char* nm[] = {"s0", "s1", "s2", "s3"};
    alignas(16) uint32_t s[4]; for(int i = 0; i < 4; ++i) s[i] = vc_any<uint32_t>(nm[i]);
    alignas(16) __m128i g; memcpy(&g, s, 16);
    alignas(16) std::array<uint32_t, 4> r;
    lv::fastrand_vec<false, STD>(r, g);
    alignas(16) uint32_t n[4]; memcpy(n, &g, 16);
    for(int i = 0; i < 4; ++i) {
        uint32_t e = s[i] * mult[i] + gadd[i];
        vc_assert(n[i] == e, "each lane advances by its own linear congruential step");
        vc_assert(r[i] == (STD ? ((uint32_t)((int32_t)e >> 16) & 0x7FFF) : e), "the outputs are the lanes (or their bits 16 to 30)");
    }
}
VC_CONTRACT(fastrand_vec) { c_fastrand_vec<false>(); }
VC_CONTRACT(fastrand_vec_std) { c_fastrand_vec<true>(); }
VC_CONTRACT(sfastrand_vec) {
    uint32_t s = vc_any<uint32_t>("s"); alignas(16) __m128i g; lv::sfastrand_vec(s, g);
    alignas(16) uint32_t n[4]; memcpy(n, &g, 16);
    vc_assert(n[0] == s + 1 && n[1] == s && n[2] == s + 1 && n[3] == s, "seeding fills the lanes with seed+1, seed, seed+1, seed");
}
