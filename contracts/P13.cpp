// Contracts of the binary window filters (modules/imgproc/src/imgproc.cpp).
#include "vcexpr.h"
#include <opencv2/imgproc.hpp>
// vc:assume cv::integral returns the integral image (sums of all pixels above and to the left); the window sum is its four-corner difference
#ifdef VC_VERIFY
static const uint8_t* g_in; static long g_in_step; static const int* g_integral;
void cv::integral(InputArray a, OutputArray b, int depth) {
    Mat s = a.getMat(); Mat& d = *(Mat*)b.getObj();
    if(s.type() != CV_8UC1 || depth != CV_32S) vc_unsupported_opencv("integral type");
    long r = vc_fresh(0, s.rows - 1), c = vc_fresh(0, s.cols - 1); // any pixel
    vc_assert(s.data[r * (long)s.step.p[0] + c] == (g_in[r * g_in_step + c] != 0), "the integral image is taken over the binarized input");
    d = vc_mat<int>("integral", s.rows + 1, s.cols + 1); vc_elem_range(d.data, 0, 1l << 28);
    g_integral = (const int*)d.data;
}
#endif
#include "modules/imgproc/src/imgproc.cpp"
// vc:assume images of at most 32768 rows and 32768 columns
struct W { const uint8_t *in, *mask; long rows, cols, off, y0, x0, r0, c0, wr, wc, step; bool conv; const uint8_t* out; long def; };
static long lmax(long a, long b) { return a > b ? a : b; }
static long lmin(long a, long b) { return a < b ? a : b; }
// fold 0: unmasked pixels of the window of (y0,x0); fold 1: those which are set
static unsigned long hit_step(void* p, unsigned long acc, long i, long j) { W& w = *(W*)p; return acc + (w.mask[(w.r0 + i) * w.step + w.c0 + j] != 0); }
static unsigned long pos_step(void* p, unsigned long acc, long i, long j) { W& w = *(W*)p; return acc + (w.mask[(w.r0 + i) * w.step + w.c0 + j] != 0 && w.in[(w.r0 + i) * w.step + w.c0 + j] != 0); }
static bool inv_hits(void* p, long v, long a, long b, long c, long d) { W& w = *(W*)p; return a != w.y0 || b != w.x0 || ((unsigned long)v == vc_fold(0, c, d) && vc_fold(0, c, d) <= 32768ul * c + d); }
static bool inv_pos(void* p, long v, long a, long b, long c, long d) { W& w = *(W*)p; return a != w.y0 || b != w.x0 || ((unsigned long)v == vc_fold(1, c, d) && vc_fold(1, c, d) <= 32768ul * c + d); }
static long expect_masked(W& w) { unsigned long h = vc_fold(0, w.wr, 0), s = vc_fold(1, w.wr, 0); return h == 0 ? w.def : s > h / 2 ? 255 : 0; }
static bool out_masked(void* p, long a, long b) { W& w = *(W*)p; return a < w.y0 || (a == w.y0 && b <= w.x0) || (long)w.out[w.y0 * w.step + w.x0] == expect_masked(w); }
static W window(cv::Mat& in, long rows, long cols) {
    long k = vc_range<long>("kernel", 3, 32767); vc_assume(k % 2 == 1);
    W w{}; w.in = in.data; w.rows = rows; w.cols = cols; w.off = k / 2; w.step = cols;
    w.y0 = vc_range<long>("y0", 0, 32767); w.x0 = vc_range<long>("x0", 0, 32767); vc_assume(w.y0 < rows && w.x0 < cols);
    w.r0 = lmax(w.y0 - w.off, 0); w.c0 = lmax(w.x0 - w.off, 0);
    w.wr = lmin(w.y0 + w.off, rows - 1) + 1 - w.r0; w.wc = lmin(w.x0 + w.off, cols - 1) + 1 - w.c0;
    return w;
}
VC_CONTRACT(binary_median_masked) {
    long rows = vc_range<long>("rows", 1, 32768), cols = vc_range<long>("cols", 1, 32768);
    cv::Mat in = vc_mat<uint8_t>("in", rows, cols); cv::Mat_<uchar> mask = vc_mat<uint8_t>("mask", rows, cols); cv::Mat out = vc_mat<uint8_t>("out", rows, cols);
    W w = window(in, rows, cols); w.mask = mask.data; w.out = out.data; w.def = vc_any<uint8_t>("def");
    vc_fold_def(0, hit_step, &w, 0, w.wr, w.wc); vc_fold_def(1, pos_step, &w, 0, w.wr, w.wc);
    vc_candidate((void*)inv_hits, &w, "vkkkk"); vc_candidate((void*)inv_pos, &w, "vkkkk"); vc_candidate((void*)out_masked, &w, "kk");
    lv::binaryMedianBlur(in, out, mask, (int)(2 * w.off + 1), vc_any<bool>("conv"), (uchar)w.def);
    vc_assert((long)out.data[w.y0 * w.step + w.x0] == expect_masked(w), "each output pixel is the majority of the unmasked window pixels");
}

// the number of set pixels in the window, as the four-corner difference of the integral image of the binarized input
#ifdef VC_VERIFY
static long corner(const int* I, long cols, long y, long x) { return I[y * vc_symbol(cols + 1) + x]; }
#endif
static long window_sum(W& w) {
#ifdef VC_VERIFY
    const int* I = g_integral; long y1 = w.r0 + w.wr, x1 = w.c0 + w.wc;
    return (long)(int)(corner(I, w.cols, y1, x1) - corner(I, w.cols, y1, w.c0) - corner(I, w.cols, w.r0, x1) + corner(I, w.cols, w.r0, w.c0));
#else
    long n = 0; for(long i = 0; i < w.wr; ++i) for(long j = 0; j < w.wc; ++j) n += w.in[(w.r0 + i) * w.step + w.c0 + j] != 0;
    return n;
#endif
}
static bool out_median(void* p, long a, long b) { W& w = *(W*)p; return a < w.y0 || (a == w.y0 && b <= w.x0) || (long)w.out[w.y0 * w.step + w.x0] == (window_sum(w) > (int)w.wc * (int)w.wr / 2 ? 255 : 0); }
// vc:assume unmasked filters and consensus: images of at most 16384 x 16384 pixels; without conversion the input holds only 0 and 1
static W binary_input(cv::Mat& in, long rows, long cols, bool conv) {
    in = vc_mat<uint8_t>("in", rows, cols);
    if(!conv) vc_elem_range(in.data, 0, 1);
    W w = window(in, rows, cols); w.conv = conv;
#ifdef VC_VERIFY
    g_in = w.in; g_in_step = w.step;
#endif
    return w;
}
template<bool CONV> static void c_binary_median() {
    long rows = vc_range<long>("rows", 1, 16384), cols = vc_range<long>("cols", 1, 16384);
    cv::Mat in; W w = binary_input(in, rows, cols, CONV); cv::Mat out = vc_mat<uint8_t>("out", rows, cols); w.out = out.data;
    vc_candidate((void*)out_median, &w, "kk");
    lv::binaryMedianBlur(in, out, cv::Mat(), (int)(2 * w.off + 1), w.conv, 7);
    vc_assert((long)out.data[w.y0 * w.step + w.x0] == (window_sum(w) > (int)w.wc * (int)w.wr / 2 ? 255 : 0), "each output pixel is set exactly when more than half of its window is");
}

static const int* g_minc;
static bool out_cons(void* p, long a, long b) { W& w = *(W*)p; return a < w.y0 || (a == w.y0 && b <= w.x0) || (long)w.out[w.y0 * w.step + w.x0] == (window_sum(w) >= g_minc[w.y0 * w.step + w.x0] ? 255 : 0); }
template<bool CONV> static void c_binary_consensus() {
    long rows = vc_range<long>("rows", 1, 16384), cols = vc_range<long>("cols", 1, 16384);
    cv::Mat in; W w = binary_input(in, rows, cols, CONV); cv::Mat out = vc_mat<uint8_t>("out", rows, cols); w.out = out.data;
    cv::Mat_<int> minc = vc_mat<int>("minc", rows, cols); g_minc = (const int*)minc.data;
    vc_candidate((void*)out_cons, &w, "kk");
    lv::binaryConsensus(in, out, minc, (int)(2 * w.off + 1), w.conv);
    vc_assert((long)out.data[w.y0 * w.step + w.x0] == (window_sum(w) >= g_minc[w.y0 * w.step + w.x0] ? 255 : 0), "each output pixel is set exactly when its window holds at least the required count");
}
// without a map of counts: the caller relies on the contract of binaryMedianBlur (proved above)
static int g_calls; static const uint8_t *g_cin, *g_cout; static int g_k; static bool g_conv;
static void median_contract(const cv::Mat& in, cv::Mat& out, const cv::Mat_<uchar>& mask, int k, bool conv, uchar) {
    ++g_calls;
    vc_assert(in.data == g_cin && out.data == g_cout && mask.empty() && k == g_k && conv == g_conv, "without counts, consensus is the majority filter with the same input, output, kernel and conversion");
}
VC_CONTRACT(binary_consensus_default) {
    long rows = vc_range<long>("rows", 1, 16384), cols = vc_range<long>("cols", 1, 16384); bool conv = vc_any<bool>("conv");
    cv::Mat in; W w = binary_input(in, rows, cols, conv); cv::Mat out = vc_mat<uint8_t>("out", rows, cols); w.out = out.data;
    g_calls = 0; g_cin = in.data; g_cout = out.data; g_k = (int)(2 * w.off + 1); g_conv = conv;
    vc_replace("^lv::binaryMedianBlur\\(", (void*)median_contract);
    lv::binaryConsensus(in, out, cv::Mat_<int>(), g_k, conv);
#ifdef VC_VERIFY
    vc_assert(g_calls == 1, "without counts, consensus is the majority filter");
#else
    if(!conv) return;
    vc_assert((long)out.data[w.y0 * w.step + w.x0] == (window_sum(w) > (int)w.wc * (int)w.wr / 2 ? 255 : 0), "without counts, consensus is the majority of the window");
#endif
}
VC_CONTRACT(binary_median_conv) { c_binary_median<true>(); }
VC_CONTRACT(binary_median_01) { c_binary_median<false>(); }
VC_CONTRACT(binary_consensus_conv) { c_binary_consensus<true>(); }
VC_CONTRACT(binary_consensus_01) { c_binary_consensus<false>(); }
