// Contracts of the (masked) array distances (modules/utils/include/litiv/utils/math.hpp).
#include "vc.h"
#include "litiv/utils/math.hpp"
// vc:assume arrays hold at most 2^24 elements
template<class T, size_t C> struct Ctx { const T* a; const T* b; const uint8_t* m; };
// the per-element distance is the fixed-size one, specified by P01; the array distance is its sum over the unmasked elements
enum { L1, SQ, CD };
template<int K, class T, size_t C, class TOut, class = void> struct Elem { static TOut f(const T* a, const T* b) { return K == L1 ? (TOut)lv::L1dist<C, T, TOut>(a, b) : (TOut)lv::L2sqrdist<C, T, TOut>(a, b); } };
template<class T, size_t C, class TOut> struct Elem<CD, T, C, TOut> { static TOut f(const T* a, const T* b) { return (TOut)lv::cdist<C>(a, b); } };
template<class TOut> static unsigned long bits(TOut v) { unsigned long r = 0; memcpy(&r, &v, sizeof(TOut)); return r; }
template<class TOut> static TOut unbits(unsigned long v) { TOut r; memcpy(&r, &v, sizeof(TOut)); return r; }
template<int K, class T, size_t C, class TOut> static unsigned long step_(void* c, unsigned long acc, long, long i) {
    Ctx<T, C>& x = *(Ctx<T, C>*)c;
    if(x.m && !x.m[i]) return acc;
    return bits<TOut>((TOut)(unbits<TOut>(acc) + Elem<K, T, C, TOut>::f(x.a + i * C, x.b + i * C)));
}
static bool inv_abs(void*, long v, long i) { return (uint64_t)v == vc_fold(0, 0, i); }
static bool inv_f(void*, long v, long i) { return (uint64_t)(uint32_t)v == vc_fold(0, 0, i); }
#define LABEL "the array distance is the sum of the distances of the unmasked elements"
// FN: 0 templated on the channel count, 1 run-time channel count, 2/3: square root of the squared distance (L2), likewise
template<int K, class T, size_t C, class TOut, bool MASK> static void start(Ctx<T, C>& x, long& n) {
    n = vc_range<long>("n", 0, 1l << 24);
    x.a = vc_arr<T>("a", n * (long)C); x.b = vc_arr<T>("b", n * (long)C); x.m = MASK ? vc_arr<uint8_t>("m", n) : nullptr;
    vc_fold_def(0, step_<K, T, C, TOut>, &x, 0, 1, n);
    vc_candidate((void*)(std::is_floating_point<TOut>::value && sizeof(TOut) == 4 ? inv_f : inv_abs), nullptr, "vp");
}
template<class T, size_t C, class TOut, bool MASK> static void c_L1() {
    Ctx<T, C> x; long n; start<L1, T, C, TOut, MASK>(x, n);
    vc_assert(bits<TOut>(lv::L1dist<C, T, TOut>(x.a, x.b, (size_t)n, x.m)) == vc_fold(0, 0, n), LABEL);
    vc_assert(bits<TOut>(lv::L1dist<T, TOut>(x.a, x.b, (size_t)n, C, x.m)) == vc_fold(0, 0, n), LABEL);
}
template<class T, size_t C, class TOut, bool MASK> static void c_SQ() {
    Ctx<T, C> x; long n; start<SQ, T, C, TOut, MASK>(x, n);
    vc_assert(bits<TOut>(lv::L2sqrdist<C, T, TOut>(x.a, x.b, (size_t)n, x.m)) == vc_fold(0, 0, n), LABEL);
    vc_assert(bits<TOut>(lv::L2sqrdist<T, TOut>(x.a, x.b, (size_t)n, C, x.m)) == vc_fold(0, 0, n), LABEL);
}
template<class T, size_t C, class TOut, bool MASK> static void c_L2() { // TOut: type of the squared sum
    Ctx<T, C> x; long n; start<SQ, T, C, TOut, MASK>(x, n);
    float s = (float)std::sqrt(unbits<TOut>(vc_fold(0, 0, n)));
    vc_assert(vc_same(lv::L2dist<C, T, float>(x.a, x.b, (size_t)n, x.m), s), "the array L2 distance is the root of the summed squared distances");
    vc_assert(vc_same(lv::L2dist<T, float>(x.a, x.b, (size_t)n, C, x.m), s), "the array L2 distance is the root of the summed squared distances");
}
template<class T, size_t C, class TOut, bool MASK> static void c_CD() {
    Ctx<T, C> x; long n; start<CD, T, C, TOut, MASK>(x, n);
    vc_assert(bits<TOut>(lv::cdist<C, T, TOut>(x.a, x.b, (size_t)n, x.m)) == vc_fold(0, 0, n), LABEL);
    vc_assert(bits<TOut>(lv::cdist<T, TOut>(x.a, x.b, (size_t)n, C, x.m)) == vc_fold(0, 0, n), LABEL);
}
#define BOTH(name, ...) VC_CONTRACT(name) { __VA_ARGS__, false>(); } VC_CONTRACT(name##_masked) { __VA_ARGS__, true>(); }
BOTH(L1_u8_1, c_L1<uint8_t, 1, size_t)
BOTH(L1_u8_2, c_L1<uint8_t, 2, size_t)
BOTH(L1_u8_3, c_L1<uint8_t, 3, size_t)
BOTH(L1_u8_4, c_L1<uint8_t, 4, size_t)
BOTH(L1_u16_3, c_L1<uint16_t, 3, size_t)
BOTH(L1_i32_1, c_L1<int32_t, 1, size_t)
BOTH(L1_f32_1, c_L1<float, 1, float)
BOTH(L1_f32_3, c_L1<float, 3, float)
BOTH(SQ_u8_1, c_SQ<uint8_t, 1, size_t)
BOTH(SQ_u8_2, c_SQ<uint8_t, 2, size_t)
BOTH(SQ_u8_3, c_SQ<uint8_t, 3, size_t)
BOTH(SQ_u8_4, c_SQ<uint8_t, 4, size_t)
BOTH(SQ_i16_1, c_SQ<int16_t, 1, size_t)
BOTH(SQ_f32_1, c_SQ<float, 1, float)
BOTH(SQ_f32_3, c_SQ<float, 3, float)
BOTH(L2_u8_1, c_L2<uint8_t, 1, size_t)
BOTH(L2_u8_3, c_L2<uint8_t, 3, size_t)
BOTH(L2_f32_1, c_L2<float, 1, float)
BOTH(L2_f32_3, c_L2<float, 3, float)
BOTH(CD_u8_2, c_CD<uint8_t, 2, size_t)
BOTH(CD_u8_3, c_CD<uint8_t, 3, size_t)
BOTH(CD_u8_4, c_CD<uint8_t, 4, size_t)
BOTH(CD_f32_3, c_CD<float, 3, float)
