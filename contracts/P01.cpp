// Contracts of the scalar and fixed-size distance functions (modules/utils/include/litiv/utils/math.hpp).
#include "vc.h"
#include "litiv/utils/math.hpp"

// ---- |a-b|, computed in 128-bit mathematical integers
template<class T> static unsigned long spec_absdiff(T a, T b) { __int128 d = (__int128)a - (__int128)b; return (unsigned long)(d < 0 ? -d : d); }
template<class T> static unsigned spec_popcount(T x) { unsigned n = 0; for(unsigned i = 0; i < sizeof(T) * 8; ++i) n += (unsigned)(((typename std::make_unsigned<T>::type)x >> i) & 1); return n; }

template<class T> static void c_L1() {
    T a = vc_any<T>("a"), b = vc_any<T>("b");
    auto r = lv::L1dist(a, b);
    static_assert(std::is_unsigned<decltype(r)>::value && sizeof(r) == sizeof(T), "L1dist result type");
    vc_assert((unsigned long)r == spec_absdiff(a, b), "L1dist(a,b) == |a-b|");
    vc_assert(lv::L1dist(b, a) == r, "L1dist is symmetric");
    vc_assert((r == 0) == (a == b), "L1dist is zero exactly for equal values");
}
VC_CONTRACT(L1_u8) { c_L1<uint8_t>(); }
VC_CONTRACT(L1_i8) { c_L1<int8_t>(); }
VC_CONTRACT(L1_u16) { c_L1<uint16_t>(); }
VC_CONTRACT(L1_i16) { c_L1<int16_t>(); }
VC_CONTRACT(L1_u32) { c_L1<uint32_t>(); }
VC_CONTRACT(L1_i32) { c_L1<int32_t>(); }

// the squared distance is specified through its defining identity over wide integers
template<class T> static void c_L2sqr() {
    T a = vc_any<T>("a"), b = vc_any<T>("b");
    auto r = lv::L2sqrdist(a, b);
    static_assert(std::is_unsigned<decltype(r)>::value && sizeof(r) == 2 * sizeof(T), "L2sqrdist result type");
    unsigned long d = spec_absdiff(a, b);
    vc_assert((unsigned long)r == d * d, "L2sqrdist(a,b) == |a-b|^2");
}
VC_CONTRACT(L2sqr_u8) { c_L2sqr<uint8_t>(); }
VC_CONTRACT(L2sqr_i8) { c_L2sqr<int8_t>(); }
VC_CONTRACT(L2sqr_u16) { c_L2sqr<uint16_t>(); }
VC_CONTRACT(L2sqr_i16) { c_L2sqr<int16_t>(); }

template<class T> static void c_fp() {
    T a = vc_any<T>("a"), b = vc_any<T>("b");
    typedef typename std::conditional<sizeof(T) == 4, uint32_t, uint64_t>::type U;
    T x = a; T r = lv::abs_fast(x);
    U ub, rb; memcpy(&ub, &a, sizeof(T)); memcpy(&rb, &r, sizeof(T));
    vc_assert(rb == (ub & (U(~U(0)) >> 1)), "abs_fast clears the sign bit and nothing else");
    T diff = a - b;
    T d1 = lv::L1dist(a, b), d2 = diff < 0 ? -diff : (diff == 0 ? T(0) : diff);
    vc_assert(vc_same(d1, d2) || a != a || b != b || diff != diff, "L1dist(a,b) == |a-b| for floating point values");
    vc_assert(vc_same(lv::_L1dist_cheat(a, b), lv::_L1dist_nocheat(a, b)), "both floating point L1 implementations agree");
    T q = lv::L2sqrdist(a, b), e = diff * diff;
    vc_assert(vc_same(q, e), "L2sqrdist(a,b) == (a-b)^2 for floating point values");
}
VC_CONTRACT(fp_f32) { vc_fp_ieee(1); c_fp<float>(); }
VC_CONTRACT(fp_f64) { vc_fp_ieee(1); c_fp<double>(); }

template<class T> static void c_bits() {
    T a = vc_any<T>("a"), b = vc_any<T>("b");
    vc_assert(lv::popcount(a) == spec_popcount(a), "popcount(a) counts the set bits of a");
    vc_assert(lv::hdist(a, b) == spec_popcount((T)(a ^ b)), "hdist(a,b) counts the differing bits");
    unsigned pa = lv::popcount(a), pb = lv::popcount(b); // the bit counts, by the first clause
    vc_assert(lv::gdist(a, b) == (pa > pb ? pa - pb : pb - pa), "gdist(a,b) is the difference of the bit counts");
}
VC_CONTRACT(bits_u8) { c_bits<uint8_t>(); }
VC_CONTRACT(bits_i8) { c_bits<int8_t>(); }
VC_CONTRACT(bits_u16) { c_bits<uint16_t>(); }
VC_CONTRACT(bits_i16) { c_bits<int16_t>(); }
VC_CONTRACT(bits_u32) { c_bits<uint32_t>(); }
VC_CONTRACT(bits_i32) { c_bits<int32_t>(); }
VC_CONTRACT(bits_u64) { c_bits<uint64_t>(); }

// ---- fixed-size vectors
template<class T, size_t N, class TOut> static void c_L1n() {
    std::array<T, N> a, b; unsigned long s = 0;
    static const char* na[] = {"a0","a1","a2","a3"}; static const char* nb[] = {"b0","b1","b2","b3"};
    for(size_t i = 0; i < N; ++i) { a[i] = vc_any<T>(na[i]); b[i] = vc_any<T>(nb[i]); s += spec_absdiff(a[i], b[i]); }
    vc_assert((TOut)s == (lv::L1dist<N, T, TOut>(a.data(), b.data())), "vector L1 == sum of channel distances");
    vc_assert((TOut)s == (lv::L1dist<N, T, TOut>(a, b)), "array L1 == sum of channel distances");
    vc_assert((TOut)s == (lv::L1dist<N, T, TOut>(a, b.data())), "array/pointer L1 == sum of channel distances");
    vc_assert((TOut)s == (lv::L1dist<N, T, TOut>(a.data(), b)), "pointer/array L1 == sum of channel distances");
    cv::Vec<T, (int)N> va, vb; for(size_t i = 0; i < N; ++i) { va[i] = a[i]; vb[i] = b[i]; }
    vc_assert((TOut)s == (lv::L1dist<(int)N, T, TOut>(va, vb)), "cv::Vec L1 == sum of channel distances");
}
VC_CONTRACT(L1n_u8_1) { c_L1n<uint8_t, 1, size_t>(); }
VC_CONTRACT(L1n_u8_3) { c_L1n<uint8_t, 3, size_t>(); }
VC_CONTRACT(L1n_u8_4) { c_L1n<uint8_t, 4, size_t>(); }
VC_CONTRACT(L1n_u16_2) { c_L1n<uint16_t, 2, size_t>(); }
VC_CONTRACT(L1n_i32_3) { c_L1n<int32_t, 3, size_t>(); }

template<class T, size_t N, class TOut> static void c_L2n() {
    std::array<T, N> a, b; unsigned long s = 0;
    static const char* na[] = {"a0","a1","a2","a3"}; static const char* nb[] = {"b0","b1","b2","b3"};
    for(size_t i = 0; i < N; ++i) { a[i] = vc_any<T>(na[i]); b[i] = vc_any<T>(nb[i]); unsigned long d = spec_absdiff(a[i], b[i]); s += d * d; }
    vc_assert((TOut)s == (lv::L2sqrdist<N, T, TOut>(a.data(), b.data())), "vector squared L2 == sum of squared channel distances");
    vc_assert((TOut)s == (lv::L2sqrdist<N, T, TOut>(a, b)), "array squared L2 == sum of squared channel distances");
    vc_assert((TOut)s == (lv::L2sqrdist<N, T, TOut>(a, b.data())), "array/pointer squared L2");
    vc_assert((TOut)s == (lv::L2sqrdist<N, T, TOut>(a.data(), b)), "pointer/array squared L2");
    cv::Vec<T, (int)N> va, vb; for(size_t i = 0; i < N; ++i) { va[i] = a[i]; vb[i] = b[i]; }
    vc_assert((TOut)s == (lv::L2sqrdist<(int)N, T, TOut>(va, vb)), "cv::Vec squared L2");
}
VC_CONTRACT(L2n_u8_1) { c_L2n<uint8_t, 1, size_t>(); }
VC_CONTRACT(L2n_u8_3) { c_L2n<uint8_t, 3, size_t>(); }
VC_CONTRACT(L2n_i8_3) { c_L2n<int8_t, 3, size_t>(); }
VC_CONTRACT(L2n_i16_3) { c_L2n<int16_t, 3, size_t>(); }

template<class T, size_t N> static void c_L2dist() {
    std::array<T, N> a, b; unsigned long s = 0;
    static const char* na[] = {"a0","a1","a2","a3"}; static const char* nb[] = {"b0","b1","b2","b3"};
    for(size_t i = 0; i < N; ++i) { a[i] = vc_any<T>(na[i]); b[i] = vc_any<T>(nb[i]); unsigned long d = spec_absdiff(a[i], b[i]); s += d * d; }
    float e = (float)std::sqrt((double)s);
    vc_assert(vc_same(e, (float)lv::L2dist<N>(a.data(), b.data())), "L2dist == sqrt(sum of squared channel distances)");
    vc_assert(vc_same(e, (float)lv::L2dist<N>(a, b)), "array L2dist == sqrt(sum of squared channel distances)");
    vc_assert(vc_same(e, (float)lv::L2dist<N>(a, b.data())) && vc_same(e, (float)lv::L2dist<N>(a.data(), b)), "mixed L2dist == sqrt(sum of squared channel distances)");
    cv::Vec<T, (int)N> va, vb; for(size_t i = 0; i < N; ++i) { va[i] = a[i]; vb[i] = b[i]; }
    vc_assert(vc_same(e, (float)lv::L2dist<(int)N>(va, vb)), "cv::Vec L2dist == sqrt(sum of squared channel distances)");
}
VC_CONTRACT(L2dist_u8_1) { c_L2dist<uint8_t, 1>(); }
VC_CONTRACT(L2dist_u8_3) { c_L2dist<uint8_t, 3>(); }
VC_CONTRACT(L2dist_u8_4) { c_L2dist<uint8_t, 4>(); }
VC_CONTRACT(L2dist_i16_2) { c_L2dist<int16_t, 2>(); }

// ---- floating point vectors: the channel distances added from the first to the last channel
template<class T, size_t N> static void c_fpn() {
    std::array<T, N> a, b; T s1 = 0, s2 = 0;
    static const char* na[] = {"a0","a1","a2","a3"}; static const char* nb[] = {"b0","b1","b2","b3"};
    for(size_t i = 0; i < N; ++i) { a[i] = vc_any<T>(na[i]); b[i] = vc_any<T>(nb[i]); s1 += lv::L1dist(a[i], b[i]); s2 += lv::L2sqrdist(a[i], b[i]); } // scalar: contracts fp_*
    cv::Vec<T, (int)N> va, vb; for(size_t i = 0; i < N; ++i) { va[i] = a[i]; vb[i] = b[i]; }
    vc_assert(vc_same(s1, lv::L1dist<N>(a.data(), b.data())) && vc_same(s1, lv::L1dist<N>(a, b)) && vc_same(s1, lv::L1dist<N>(a.data(), b)) && vc_same(s1, lv::L1dist<N>(a, b.data())) && vc_same(s1, lv::L1dist<(int)N>(va, vb)), "floating point vector L1 == sum of channel distances");
    vc_assert(vc_same(s2, lv::L2sqrdist<N>(a.data(), b.data())) && vc_same(s2, lv::L2sqrdist<N>(a, b)) && vc_same(s2, lv::L2sqrdist<N>(a.data(), b)) && vc_same(s2, lv::L2sqrdist<N>(a, b.data())) && vc_same(s2, lv::L2sqrdist<(int)N>(va, vb)), "floating point vector squared L2 == sum of channel distances");
    T e = std::sqrt(s2);
    vc_assert(vc_same(e, lv::L2dist<N>(a.data(), b.data())) && vc_same(e, lv::L2dist<N>(a, b)) && vc_same(e, lv::L2dist<N>(a.data(), b)) && vc_same(e, lv::L2dist<N>(a, b.data())) && vc_same(e, lv::L2dist<(int)N>(va, vb)), "floating point vector L2 == root of the squared L2");
}
VC_CONTRACT(fpn_f32_1) { c_fpn<float, 1>(); }
VC_CONTRACT(fpn_f32_3) { c_fpn<float, 3>(); }
VC_CONTRACT(fpn_f32_4) { c_fpn<float, 4>(); }
VC_CONTRACT(fpn_f64_3) { c_fpn<double, 3>(); }

template<class T, size_t N> static void c_bitsn() {
    std::array<T, N> a, b; unsigned s = 0, pa = 0, pb = 0;
    static const char* na[] = {"a0","a1","a2","a3"}; static const char* nb[] = {"b0","b1","b2","b3"};
    for(size_t i = 0; i < N; ++i) { a[i] = vc_any<T>(na[i]); b[i] = vc_any<T>(nb[i]); s += lv::popcount((T)(a[i] ^ b[i])); pa += lv::popcount(a[i]); pb += lv::popcount(b[i]); } // scalar popcount: contracts bits_*
    vc_assert(lv::hdist<N>(a.data(), b.data()) == s, "vector hdist == number of differing bits");
    vc_assert(lv::hdist<N>(a, b) == s, "array hdist == number of differing bits");
    vc_assert(lv::hdist<N>(a, b.data()) == s && lv::hdist<N>(a.data(), b) == s, "mixed hdist == number of differing bits");
    vc_assert(lv::popcount<N>(a.data()) == pa && lv::popcount<N>(a) == pa, "vector popcount == number of set bits");
    vc_assert(lv::gdist<N>(a.data(), b.data()) == (pa > pb ? pa - pb : pb - pa), "vector gdist == difference of bit counts");
    vc_assert(lv::gdist<N>(a, b) == (pa > pb ? pa - pb : pb - pa), "array gdist == difference of bit counts");
    vc_assert(lv::gdist<N>(a, b.data()) == (pa > pb ? pa - pb : pb - pa) && lv::gdist<N>(a.data(), b) == (pa > pb ? pa - pb : pb - pa), "mixed gdist == difference of bit counts");
}
VC_CONTRACT(bitsn_u16_1) { c_bitsn<uint16_t, 1>(); }
VC_CONTRACT(bitsn_u16_3) { c_bitsn<uint16_t, 3>(); }
VC_CONTRACT(bitsn_u8_3) { c_bitsn<uint8_t, 3>(); }
VC_CONTRACT(bitsn_u32_2) { c_bitsn<uint32_t, 2>(); }

// ---- colour distortion: sqrt(|x|^2 - (x.y)^2/|y|^2), zero for grey pairs and equal colours
template<size_t N> static void c_cdist() {
    uint8_t a[N], b[N]; uint64_t xx = 0, yy = 0, xy = 0; bool grey = true, eq = true;
    static const char* na[] = {"a0","a1","a2","a3"}; static const char* nb[] = {"b0","b1","b2","b3"};
    for(size_t i = 0; i < N; ++i) {
        a[i] = vc_any<uint8_t>(na[i]); b[i] = vc_any<uint8_t>(nb[i]);
        xx += (uint64_t)a[i] * a[i]; yy += (uint64_t)b[i] * b[i]; xy += (uint64_t)a[i] * b[i];
        if(a[i] != b[i]) eq = false;
        if(i && (a[i] != a[i - 1] || b[i] != b[i - 1])) grey = false;
    }
    size_t r = lv::cdist<N>(a, b);
    if(eq || grey) vc_assert(r == 0, "cdist is zero for equal colours and for grey pairs");
    else {
        size_t e = (size_t)std::sqrt((float)(xx - (xy * xy) / (yy ? yy : 1)));
        vc_assert(r == e, "cdist(x,y) == sqrt(|x|^2 - (x.y)^2/|y|^2)");
    }
    size_t l1 = 0; for(size_t i = 0; i < N; ++i) l1 += a[i] > b[i] ? a[i] - b[i] : b[i] - a[i];
    vc_assert(lv::cmixdist(l1, r) == l1 / 2 + r * 4, "cmixdist mixes the two distances with fixed weights");
    std::array<uint8_t, N> aa, bb; for(size_t i = 0; i < N; ++i) { aa[i] = a[i]; bb[i] = b[i]; }
    vc_assert(lv::cdist<N>(aa, bb) == r && lv::cdist<N>(aa, b) == r && lv::cdist<N>(a, bb) == r, "cdist overloads agree");
    cv::Vec<uint8_t, (int)N> va, vb; for(size_t i = 0; i < N; ++i) { va[i] = a[i]; vb[i] = b[i]; }
    vc_assert(lv::cdist<(int)N>(va, vb) == r, "cdist of cv::Vec agrees");
    l1 = lv::L1dist<N>(a, b); // 8-bit result
    vc_assert((size_t)lv::cmixdist<N>(a, b) == l1 / 2 + r * 4 && (size_t)lv::cmixdist<N>(aa, bb) == l1 / 2 + r * 4 && (size_t)lv::cmixdist<N>(aa, b) == l1 / 2 + r * 4 && (size_t)lv::cmixdist<N>(a, bb) == l1 / 2 + r * 4, "cmixdist of colours mixes their L1 and colour distances");
}
VC_CONTRACT(cdist_u8_3) { c_cdist<3>(); }
VC_CONTRACT(cdist_u8_2) { c_cdist<2>(); }
VC_CONTRACT(cdist_u8_4) { c_cdist<4>(); }

// floating point colours: sqrt(|x|^2 - (x.y)^2/(|y|^2+eps)), zero where that is negative, for equal colours and for grey pairs
template<class T, size_t N> static void c_cdist_fp() {
    std::array<T, N> a, b; T xx = 0, yy = 0, xy = 0; bool grey = true, eq = true;
    static const char* na[] = {"a0","a1","a2","a3"}; static const char* nb[] = {"b0","b1","b2","b3"};
    for(size_t i = 0; i < N; ++i) {
        a[i] = vc_any<T>(na[i]); b[i] = vc_any<T>(nb[i]); vc_assume(a[i] >= 0 && b[i] >= 0);
        xx += a[i] * a[i]; yy += b[i] * b[i]; xy += a[i] * b[i];
        if(a[i] != b[i]) eq = false;
        if(i && (a[i] != a[i - 1] || b[i] != b[i - 1])) grey = false;
    }
    yy += std::numeric_limits<T>::epsilon();
    T e = eq || grey || xx <= xy * xy / yy ? T(0) : (T)std::sqrt((float)(xx - xy * xy / yy));
    cv::Vec<T, (int)N> va, vb; for(size_t i = 0; i < N; ++i) { va[i] = a[i]; vb[i] = b[i]; }
    vc_assert(vc_same(e, lv::cdist<N>(a.data(), b.data())) && vc_same(e, lv::cdist<N>(a, b)) && vc_same(e, lv::cdist<N>(a, b.data())) && vc_same(e, lv::cdist<N>(a.data(), b)) && vc_same(e, lv::cdist<(int)N>(va, vb)), "cdist(x,y) == sqrt(|x|^2 - (x.y)^2/|y|^2) for floating point colours");
}
VC_CONTRACT(cdist_f32_3) { c_cdist_fp<float, 3>(); }
VC_CONTRACT(cdist_f64_3) { c_cdist_fp<double, 3>(); }
