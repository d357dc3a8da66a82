// Contracts of the histogram and median helpers (modules/imgproc/src/imgproc.cpp).
#include "vccv.h"
#include "modules/imgproc/src/imgproc.cpp"
// vc:assume images of fewer than 2^31 pixels (larger ones are rejected by the code)
struct Im { const void* px; const uint8_t* mask; bool masked; int es; long bin; };
static unsigned long pix(Im& m, long i) { return m.es == 1 ? ((const uint8_t*)m.px)[i] : ((const uint16_t*)m.px)[i]; }
static unsigned long cnt_step(void* p, unsigned long acc, long, long i) { Im& m = *(Im*)p; return acc + ((!m.masked || m.mask[i]) && pix(m, i) == (unsigned long)m.bin ? 1 : 0); }
static unsigned long tot_step(void* p, unsigned long acc, long, long i) { Im& m = *(Im*)p; return acc + (!m.masked || m.mask[i] ? 1 : 0); }
static bool inv_tot(void*, long v, long i) { return (unsigned long)v == vc_fold(1, 0, i); }
static bool inv_bin(void* p, long i) { Im& m = *(Im*)p; return (unsigned long)((const int*)vc_heap_of(m.es == 1 ? 1024 : 262144))[m.bin] == vc_fold(0, 0, i); }
static bool inv_zero(void* p, long i) { Im& m = *(Im*)p; return i <= m.bin || ((const int*)vc_heap_of(m.es == 1 ? 1024 : 262144))[m.bin] == 0; }
static bool every_bin(void*, unsigned long v, long, long, long i) { return (long)(int)v >= 0 && (long)(int)v <= i; }
static bool every_zero(void*, unsigned long v, long, long c, long i) { return c >= i || v == 0; }
static bool inv_nonneg(void* p, long i) { return vc_fold(0, 0, i) <= (unsigned long)i && vc_fold(1, 0, i) <= (unsigned long)i; }
static bool inv_all(void* p, long i) { return ((Im*)p)->masked || vc_fold(1, 0, i) == (unsigned long)i; }
// an image whose elements are stored one after the other
template<class T> static cv::Mat flat(const char* name, long rows, long cols) {
    return cv::Mat((int)rows, (int)cols, cv::DataType<T>::type, vc_arr<T>(name, rows * cols));
}
template<class T> static void c_hist(bool masked) {
    long rows = vc_range<long>("rows", 1, 40000), cols = vc_range<long>("cols", 1, 40000);
    cv::Mat in = flat<T>("in", rows, cols); cv::Mat_<uchar> mask; if(masked) mask = flat<uint8_t>("mask", rows, cols);
    Im m{in.data, mask.data, masked, sizeof(T), vc_range<long>("bin", 0, sizeof(T) == 1 ? 255 : 65535)};
    vc_fold_def(0, cnt_step, &m, 0, 1, rows * cols); vc_fold_def(1, tot_step, &m, 0, 1, rows * cols);
    vc_candidate((void*)inv_all, &m, "p"); vc_candidate((void*)inv_tot, &m, "vp"); vc_candidate((void*)inv_bin, &m, "p"); vc_candidate((void*)inv_zero, &m, "p"); vc_candidate((void*)inv_nonneg, &m, "p"); vc_candidate((void*)every_bin, &m, "ep"); vc_candidate((void*)every_zero, &m, "ep");
    int tot = 0;
    std::vector<int> h = lv::calcHistCounts(in, mask, &tot);
    vc_assert(h.size() == (sizeof(T) == 1 ? 256u : 65536u), "the histogram has one bin per possible value");
    vc_assert((unsigned long)h[(size_t)m.bin] == vc_fold(0, 0, rows * cols), "each bin counts the unmasked pixels of its value");
    vc_assert((unsigned long)tot == vc_fold(1, 0, rows * cols), "the total counts the unmasked pixels");
}
VC_CONTRACT(hist_8u) { c_hist<uint8_t>(false); }
VC_CONTRACT(hist_8u_mask) { c_hist<uint8_t>(true); }
VC_CONTRACT(hist_16u) { c_hist<uint16_t>(false); }
VC_CONTRACT(hist_16u_mask) { c_hist<uint16_t>(true); }

// cumulative counts: the number of pixels of value at most b is the number of pixels below b plus those of value b (ghost loop: the lemma behind the median contract)
static unsigned long le_step(void* p, unsigned long acc, long, long i) { Im& m = *(Im*)p; return acc + ((!m.masked || m.mask[i]) && pix(m, i) <= (unsigned long)m.bin ? 1 : 0); }
static unsigned long lt_step(void* p, unsigned long acc, long, long i) { Im& m = *(Im*)p; return acc + ((!m.masked || m.mask[i]) && pix(m, i) < (unsigned long)m.bin ? 1 : 0); }
static bool inv_sum(void*, long i) { return vc_fold(2, 0, i) == vc_fold(3, 0, i) + vc_fold(0, 0, i) && vc_fold(2, 0, i) <= vc_fold(1, 0, i); }
static bool inv_last(void* p, long i) { Im& m = *(Im*)p; return m.bin < (m.es == 1 ? 255 : 65535) || vc_fold(2, 0, i) == vc_fold(1, 0, i); }
static bool inv_first(void* p, long i) { Im& m = *(Im*)p; return m.bin > 0 || vc_fold(3, 0, i) == 0; }
template<class T> static void c_cumul() {
    long n = vc_range<long>("n", 1, 1l << 31); bool masked = vc_any<bool>("masked");
    Im m{vc_arr<T>("in", n), vc_arr<uint8_t>("mask", n), masked, sizeof(T), vc_range<long>("bin", 0, sizeof(T) == 1 ? 255 : 65535)};
    vc_fold_def(0, cnt_step, &m, 0, 1, n); vc_fold_def(1, tot_step, &m, 0, 1, n); vc_fold_def(2, le_step, &m, 0, 1, n); vc_fold_def(3, lt_step, &m, 0, 1, n);
    vc_candidate((void*)inv_sum, &m, "p"); vc_candidate((void*)inv_last, &m, "p"); vc_candidate((void*)inv_first, &m, "p"); vc_candidate((void*)inv_nonneg, &m, "p");
    for(long i = 0; i < n; ++i) vc_cover("step");
    vc_assert(vc_fold(2, 0, n) == vc_fold(3, 0, n) + vc_fold(0, 0, n), "lemma: pixels up to a value = pixels below it + pixels of it");
    vc_assert(m.bin < (m.es == 1 ? 255 : 65535) || vc_fold(2, 0, n) == vc_fold(1, 0, n), "lemma: all pixels are at most the largest value");
    vc_assert(m.bin > 0 || vc_fold(3, 0, n) == 0, "lemma: no pixel is below zero");
    vc_assert(vc_fold(2, 0, n) <= vc_fold(1, 0, n) && vc_fold(1, 0, n) <= (unsigned long)n, "lemma: counts do not exceed the number of pixels");
}
VC_CONTRACT(cumulative_8u) { c_cumul<uint8_t>(); }
VC_CONTRACT(cumulative_16u) { c_cumul<uint16_t>(); }
// median: C(b) = number of unmasked pixels of value at most b
// vc:assume calcMedianValue sees calcHistCounts through its contract (proved: hist_*, cumulative_*): bin b holds C(b)-C(b-1), C is non-decreasing, C(last) is the total
static int g_es; static long g_tot;
#ifdef VC_VERIFY
static unsigned long C(long b) { return b < 0 ? 0 : vc_uf1("cumul", (unsigned long)b); }
static bool bin_pred(void*, unsigned long v, long, long b) { return C(b) >= C(b - 1) && C(b) <= (unsigned long)g_tot && v == C(b) - C(b - 1) && C((g_es == 1 ? 256 : 65536) - 1) == (unsigned long)g_tot; }
static std::vector<int> hist_contract(const cv::Mat& in, const cv::Mat_<uchar>& mask, int* tot) {
    std::vector<int>& h = vc_vector<int>("h", g_es == 1 ? 256 : 65536, bin_pred);
    if(tot) *tot = (int)g_tot;
    vc_assert(in.type() == (g_es == 1 ? CV_8UC1 : CV_16UC1), "the histogram is taken of the input");
    std::vector<int> r(g_es == 1 ? 256 : 65536); vc_copy_obj(r.data(), h.data()); return r;
}
#else
static Im g_im; static long g_n;
static unsigned long C(long b) { unsigned long c = 0; for(long i = 0; i < g_n; ++i) if((!g_im.masked || g_im.mask[i]) && (long)pix(g_im, i) <= b) ++c; return c; }
#endif
static bool inv_cum(void*, long v, long i) { return (unsigned long)v == C(i) && i < (g_es == 1 ? 256 : 65536); }
static bool inv_cum0(void*, long v, long i) { return (unsigned long)v == C(i - 1) && i <= (g_es == 1 ? 256 : 65536); }
static bool inv_below(void*, long i) { return i <= 0 || C(i - 1) <= (unsigned long)(g_tot / 2); }
template<class T> static void c_median(bool reject) {
    long n = vc_range<long>("n", 1, 1l << 30); bool masked = vc_any<bool>("masked"); if(reject) { masked = true; vc_allow_throw(1); vc_option("rejects", 1); }
    g_es = sizeof(T);
    cv::Mat in(1, (int)n, cv::DataType<T>::type, vc_arr<T>("in", n)); cv::Mat_<uchar> mask; if(masked) mask = cv::Mat(1, (int)n, CV_8UC1, vc_arr<uint8_t>("mask", n));
#ifdef VC_VERIFY
    g_tot = vc_range<long>("tot", 0, 1l << 30); vc_assume(g_tot <= n);
    vc_replace("^lv::calcHistCounts\\(", (void*)hist_contract);
#else
    g_im = Im{in.data, mask.data, masked, sizeof(T), 0}; g_n = n; g_tot = C(65535);
#endif
    if(reject) vc_assume(g_tot == 0); else vc_assume(g_tot > 0);
    vc_candidate((void*)inv_cum, nullptr, "vp"); vc_candidate((void*)inv_cum0, nullptr, "vp"); vc_candidate((void*)inv_below, nullptr, "p");
    long r = lv::calcMedianValue(in, mask);
    if(reject) { vc_assert(false, "a median of no pixels is rejected"); return; }
    vc_assert(r >= 0 && r < (g_es == 1 ? 256 : 65536), "the median is a possible value");
    vc_assert((long)C(r) > g_tot / 2 && (r == 0 || (long)C(r - 1) <= g_tot / 2), "at most half of the pixels are below the median, more than half are not above it");
}
VC_CONTRACT(median_8u) { c_median<uint8_t>(false); }
VC_CONTRACT(median_16u) { c_median<uint16_t>(false); }
VC_CONTRACT(median_none) { c_median<uint8_t>(true); }
