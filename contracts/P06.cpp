// Contracts of the LBSP descriptor extractor (modules/features2d).
#include "vccv.h"
#include <opencv2/features2d.hpp>
#ifdef VC_VERIFY
cv::Algorithm::Algorithm() {}
cv::Algorithm::~Algorithm() {}
// assumed: keypoints closer to the border than asked are removed; the contracts below only pass keypoints that stay
void cv::KeyPointsFilter::runByImageBorder(std::vector<KeyPoint>&, Size, int) {}
#endif
#define protected public
#include "modules/features2d/src/LBSP.cpp"
#undef protected
// vc:assume cv::KeyPointsFilter::runByImageBorder keeps keypoints that lie inside the border
// vc:assume image sides at most 46340 x 46340 pixels, absolute thresholds at most 2^31-1
static const int DX[16] = {-2, 2, 0, 0, -2, 2, 2, -2, 0, -1, 0, 1, -1, 1, 1, -1}, DY[16] = {0, 0, -2, 2, 2, -2, 2, -2, 1, 0, -1, 0, -1, 1, -1, 1};
static const char* NV[] = {"v0","v1","v2","v3","v4","v5","v6","v7","v8","v9","v10","v11","v12","v13","v14","v15"};
static bool over(uint8_t v, uint8_t r, uint8_t t) { int d = (int)v - (int)r; return (d < 0 ? -d : d) > (int)t; }
VC_CONTRACT(threshold) {
    alignas(16) std::array<uchar, 16> v; for(int i = 0; i < 16; ++i) v[i] = vc_any<uint8_t>(NV[i]);
    uint8_t r = vc_any<uint8_t>("ref"), t = vc_any<uint8_t>("thr");
    LBSP::desc_t d = LBSP::computeDescriptor_threshold(v, r, t);
    for(int i = 0; i < 16; ++i) vc_assert(((d >> i) & 1) == over(v[i], r, t), "bit n is set exactly when neighbour n differs from the reference by more than the threshold");
}
// the descriptor of one pixel, specified by the single_* contracts
template<int CH> static uint16_t spec_desc(const cv::Mat& m, long y, long x, int c, uint8_t ref, uint8_t thr) {
    LBSP::desc_t d; LBSP::computeDescriptor<CH>(m, ref, (int)x, (int)y, (size_t)c, thr, d); return d;
}
template<int CH> static void c_single() {
    long rows = vc_range<long>("rows", 5, 46340), cols = vc_range<long>("cols", 5, 46340);
    int x = vc_range<int>("x", 2, 46340), y = vc_range<int>("y", 2, 46340);
    vc_assume(x < cols - 2 && y < rows - 2);
    cv::Mat m = vc_mat<uint8_t>("img", rows, cols, CH);
    alignas(16) std::array<std::array<uchar, 16>, CH> v; LBSP::computeDescriptor_lookup<CH>(m, x, y, v);
    for(int c = 0; c < CH; ++c) {
        alignas(16) std::array<uchar, 16> w; LBSP::computeDescriptor_lookup<CH>(m, x, y, (size_t)c, w);
        for(int n = 0; n < 16; ++n) {
            uint8_t e = m.data[(y + DY[n]) * cols * CH + (x + DX[n]) * CH + c];
            vc_assert(v[c][n] == e && w[n] == e, "neighbour n is read at its place in the double-cross pattern");
        }
    }
    std::array<uchar, CH> ref, thr; std::array<LBSP::desc_t, CH> d;
    for(int c = 0; c < CH; ++c) { ref[c] = vc_any<uint8_t>(NV[c]); thr[c] = vc_any<uint8_t>(NV[4 + c]); }
    LBSP::computeDescriptor<CH>(m, ref, x, y, thr, d);
    for(int c = 0; c < CH; ++c) {
        LBSP::desc_t s; LBSP::computeDescriptor<CH>(m, ref[c], x, y, (size_t)c, thr[c], s);
        for(int n = 0; n < 16; ++n) {
            bool e = over(m.data[(y + DY[n]) * cols * CH + (x + DX[n]) * CH + c], ref[c], thr[c]);
            vc_assert(((d[c] >> n) & 1) == e && ((s >> n) & 1) == e, "the descriptor of a pixel is the thresholded pattern, in every channel and through every entry point");
        }
    }
}
VC_CONTRACT(single_1) { c_single<1>(); }
VC_CONTRACT(single_3) { c_single<3>(); }
VC_CONTRACT(single_4) { c_single<4>(); }
template<int CH> static void c_grad() {
    alignas(16) uint8_t v[CH * 16]; uint8_t ref[CH]; static char nm[CH * 16 + CH][6];
    for(int i = 0; i < CH * 16 + CH; ++i) { nm[i][0] = 'g'; nm[i][1] = (char)('0' + i / 10); nm[i][2] = (char)('0' + i % 10); nm[i][3] = 0; }
    for(int i = 0; i < CH * 16; ++i) v[i] = vc_any<uint8_t>(nm[i]);
    for(int c = 0; c < CH; ++c) ref[c] = vc_any<uint8_t>(nm[CH * 16 + c]);
    int gx, gy; unsigned mag;
    LBSP::computeDescriptor_gradient<CH, 20, 2, int, unsigned>(v, ref, gx, gy, mag);
    // some channel with the largest number of differing neighbours gives the gradient (differing neighbours of a channel: contract threshold)
    unsigned cnt[CH]; int sx[CH], sy[CH]; unsigned best = 0;
    unsigned left = 0, right = 0, up = 0, down = 0;
    for(int n = 0; n < 16; ++n) { left |= (unsigned)(DX[n] < 0) << n; right |= (unsigned)(DX[n] > 0) << n; up |= (unsigned)(DY[n] < 0) << n; down |= (unsigned)(DY[n] > 0) << n; }
    for(int c = 0; c < CH; ++c) {
        unsigned d = LBSP::computeDescriptor_threshold(v + c * 16, ref[c], (uint8_t)(((ref[c] >> 2) + 20) / 2));
        cnt[c] = __builtin_popcount(d); sx[c] = __builtin_popcount(d & left) - __builtin_popcount(d & right); sy[c] = __builtin_popcount(d & down) - __builtin_popcount(d & up);
        if(cnt[c] > best) best = cnt[c];
    }
    bool ok = false; for(int c = 0; c < CH; ++c) ok |= cnt[c] == best && gx == sx[c] && gy == sy[c];
    vc_assert(mag == best && mag <= LBSP::MAX_GRAD_MAG, "the gradient magnitude is the largest number of differing neighbours over the channels");
    vc_assert(ok, "the gradient direction is that of a channel with the largest magnitude");
}
VC_CONTRACT(gradient_1) { c_grad<1>(); }
VC_CONTRACT(gradient_3) { c_grad<3>(); }

// dense description: Skolem pixel (y,x,c)
struct Px { long y, x, cols; int ch, c; uint16_t spec; };
static bool inv_px(void* p, long i, long j) { // i, j: loop counters starting at the border
    Px& x = *(Px*)p; const uint16_t* d = (const uint16_t*)vc_alloc_data[0];
    if(!d) return true;
    return !(x.y < i || (x.y == i && x.x < j)) || d[(x.y * x.cols + x.x) * x.ch + x.c] == x.spec;
}
static uint8_t rel_thr(uint8_t ref, float f, size_t off) { return cv::saturate_cast<uchar>(ref * f + off); }
static bool inv_pxT(void* p, long i, long j) { // column by column
    Px& x = *(Px*)p; const uint16_t* d = (const uint16_t*)vc_alloc_data[0];
    if(!d) return true;
    return !(x.x < i || (x.x == i && x.y < j)) || d[(x.y * x.cols + x.x) * x.ch + x.c] == x.spec;
}
template<int CH, int C> static void c_dense(bool rel, bool hasref) {
    long rows = vc_range<long>("rows", 5, 46340), cols = vc_range<long>("cols", 5, 46340);
    cv::Mat m = vc_mat<uint8_t>("img", rows, cols, CH), ref;
    if(hasref) ref = vc_mat<uint8_t>("ref", rows, cols, CH);
    Px p{vc_range<long>("y", 2, 46340), vc_range<long>("x", 2, 46340), cols, CH, C, 0};
    vc_assume(p.x < cols - 2 && p.y < rows - 2);
    size_t thr = vc_range<size_t>("thr", 0, INT32_MAX); float f = vc_any<float>("f"); vc_assume(f >= 0 && f <= 1e6f);
    uint8_t r = (hasref ? ref : m).data[(p.y * cols + p.x) * CH + p.c];
    p.spec = spec_desc<CH>(m, p.y, p.x, p.c, r, rel ? rel_thr(r, f, thr) : thr > 255 ? 255 : (uint8_t)thr);
    LBSP* e = rel ? new LBSP(f, thr) : new LBSP(thr);
    if(hasref) e->setReference(ref);
    vc_candidate((void*)inv_px, &p, "pp"); vc_candidate_alt((void*)inv_pxT, &p, "pp");
    cv::Mat o; e->compute2(m, o);
    vc_assert(o.rows == rows && o.cols == cols && o.type() == CV_16UC(CH), "the descriptor map has the size of the image");
    vc_assert(((const uint16_t*)o.data)[(p.y * cols + p.x) * CH + p.c] == p.spec, "every pixel inside the border gets the descriptor of its neighbourhood");
}
#define DENSE(name, rel, ref) VC_CONTRACT(name##_1) { c_dense<1, 0>(rel, ref); } VC_CONTRACT(name##_3_0) { c_dense<3, 0>(rel, ref); } VC_CONTRACT(name##_3_1) { c_dense<3, 1>(rel, ref); } VC_CONTRACT(name##_3_2) { c_dense<3, 2>(rel, ref); }
DENSE(dense_abs, false, false)
DENSE(dense_abs_ref, false, true)
DENSE(dense_rel, true, false)
DENSE(dense_rel_ref, true, true)
// description of keypoints: Skolem keypoint k
struct Kp { const float* kp; long rows, cols, n, k; int ch, c; bool single; uint16_t spec; };
static bool kp_inside(void* p, unsigned long v, long, long field) {
    Kp& x = *(Kp*)p; if(field > 1) return true;
    unsigned u = (unsigned)v; float f; memcpy(&f, &u, 4);
    return f >= 2.f && f < (float)((field == 0 ? x.cols : x.rows) - 2) && (int)f >= 2 && (int)f < (field == 0 ? x.cols : x.rows) - 2;
}
static bool inv_kp(void* p, long i) {
    Kp& x = *(Kp*)p; const uint16_t* d = (const uint16_t*)vc_alloc_data[0];
    if(!d || x.k >= i) return true;
    return d[x.single ? x.k * x.ch + x.c : ((int)x.kp[x.k * 7 + 1] * x.cols + (int)x.kp[x.k * 7]) * x.ch + x.c] == x.spec;
}
template<int CH, int C> static void c_keypoints(bool rel, bool hasref, bool single) {
    long rows = vc_range<long>("rows", 5, 46340), cols = vc_range<long>("cols", 5, 46340), n = vc_range<long>("n", 1, 1 << 20);
    cv::Mat m = vc_mat<uint8_t>("img", rows, cols, CH), ref;
    if(hasref) ref = vc_mat<uint8_t>("ref", rows, cols, CH);
    Kp p{nullptr, rows, cols, n, vc_range<long>("k", 0, 1 << 20), CH, C, single, 0}; vc_assume(p.k < n);
    std::vector<cv::KeyPoint>& kp = vc_vector<cv::KeyPoint, float>("kp", n, kp_inside, &p);
    p.kp = (const float*)kp.data();
    int x = (int)kp[p.k].pt.x, y = (int)kp[p.k].pt.y;
    size_t thr = vc_range<size_t>("thr", 0, INT32_MAX); float f = vc_any<float>("f"); vc_assume(f >= 0 && f <= 1e6f);
    uint8_t r = (hasref ? ref : m).data[(y * cols + x) * CH + C];
    p.spec = spec_desc<CH>(m, y, x, C, r, rel ? rel_thr(r, f, thr) : thr > 255 ? 255 : (uint8_t)thr);
    LBSP* e = rel ? new LBSP(f, thr) : new LBSP(thr);
    if(hasref) e->setReference(ref);
    vc_candidate((void*)inv_kp, &p, "p");
    cv::Mat o;
    if(single) e->detectAndCompute(m, cv::Mat(), kp, o, true); else e->compute2(m, kp, o);
    vc_assert((long)kp.size() == n, "keypoints inside the border are kept");
    vc_assert(o.rows == (single ? n : rows) && o.cols == (single ? 1 : cols) && o.type() == CV_16UC(CH), "one descriptor per keypoint, or a map of the size of the image");
    vc_assert(((const uint16_t*)o.data)[single ? p.k * CH + C : (y * cols + x) * CH + C] == p.spec, "every keypoint gets the descriptor of the pixel that contains it");
}
#define KP(name, rel, ref, single) VC_CONTRACT(name##_1) { c_keypoints<1, 0>(rel, ref, single); } VC_CONTRACT(name##_3_0) { c_keypoints<3, 0>(rel, ref, single); } VC_CONTRACT(name##_3_1) { c_keypoints<3, 1>(rel, ref, single); } VC_CONTRACT(name##_3_2) { c_keypoints<3, 2>(rel, ref, single); }
KP(kp_abs, false, true, true)
KP(kp_rel, true, false, true)
KP(kpmap_abs, false, true, false)
KP(kpmap_rel, true, false, false)
// descriptors back to an image: the last keypoint in a pixel wins, other pixels are zero
struct Rs { const float* kp; const uint16_t* desc; long y, x, cols; int ch, c; };
static unsigned long rs_step(void* p, unsigned long acc, long, long i) {
    Rs& r = *(Rs*)p; return (int)r.kp[i * 7] == r.x && (int)r.kp[i * 7 + 1] == r.y ? r.desc[i * r.ch + r.c] : acc;
}
static bool inv_rs(void* p, long i) {
    Rs& r = *(Rs*)p; const uint16_t* d = (const uint16_t*)vc_alloc_data[0];
    return !d || d[(r.y * r.cols + r.x) * r.ch + r.c] == vc_fold(0, 0, i);
}
template<int CH, int C> static void c_reshape() {
    long rows = vc_range<long>("rows", 5, 46340), cols = vc_range<long>("cols", 5, 46340), n = vc_range<long>("n", 1, 1 << 20);
    Kp p{nullptr, rows, cols, n, 0, CH, C, false, 0};
    std::vector<cv::KeyPoint>& kp = vc_vector<cv::KeyPoint, float>("kp", n, kp_inside, &p);
    cv::Mat d = vc_mat<uint16_t>("desc", n, 1, CH);
    Rs r{(const float*)kp.data(), (const uint16_t*)d.data, vc_range<long>("y", 0, 46340), vc_range<long>("x", 0, 46340), cols, CH, C}; vc_assume(r.y < rows && r.x < cols);
    vc_fold_def(0, rs_step, &r, 0, 1, n);
    vc_candidate((void*)inv_rs, &r, "p");
    cv::Mat o; LBSP::reshapeDesc(cv::Size((int)cols, (int)rows), kp, d, o);
    vc_assert(o.rows == rows && o.cols == cols && o.type() == CV_16UC(CH), "the reshaped map has the requested size");
    vc_assert(((const uint16_t*)o.data)[(r.y * cols + r.x) * CH + C] == vc_fold(0, 0, n), "each pixel holds the descriptor of the (last) keypoint inside it, and zero where there is none");
}
VC_CONTRACT(reshape_1) { c_reshape<1, 0>(); }
VC_CONTRACT(reshape_3_0) { c_reshape<3, 0>(); }
VC_CONTRACT(reshape_3_1) { c_reshape<3, 1>(); }
VC_CONTRACT(reshape_3_2) { c_reshape<3, 2>(); }
static unsigned ham(uint16_t a, uint16_t b) { unsigned n = 0; for(int i = 0; i < 16; ++i) n += ((a ^ b) >> i) & 1; return n; }
struct Dd { long y, x, cols; int ch, c; uint8_t spec; };
static bool inv_d(void* p, long i, long j) {
    Dd& x = *(Dd*)p; const uint8_t* d = (const uint8_t*)vc_alloc_data[0];
    if(!d) return true;
    return !(x.y < i || (x.y == i && x.x < j)) || d[(x.y * x.cols + x.x) * x.ch + x.c] == x.spec;
}
static bool inv_d0(void* p, long i, long j) { // pixels not yet reached are zero
    Dd& x = *(Dd*)p; const uint8_t* d = (const uint8_t*)vc_alloc_data[0];
    if(!d) return true;
    return x.y < i || (x.y == i && x.x < j) || d[(x.y * x.cols + x.x) * x.ch + x.c] == 0;
}
template<int CH> static void c_distances() {
    long rows = vc_range<long>("rows", 1, 46340), cols = vc_range<long>("cols", 1, 46340);
    cv::Mat a = vc_mat<uint16_t>("a", rows, cols, CH), b = vc_mat<uint16_t>("b", rows, cols, CH);
    Dd x{vc_range<long>("y", 0, 46339), vc_range<long>("x", 0, 46339), cols, 1, 0, 0}; vc_assume(x.y < rows && x.x < cols);
    unsigned h = 0; for(int c = 0; c < CH; ++c) h += lv::hdist<ushort, uchar>(((const uint16_t*)a.data)[(x.y * cols + x.x) * CH + c], ((const uint16_t*)b.data)[(x.y * cols + x.x) * CH + c]);
    x.spec = (uint8_t)h;
    vc_candidate((void*)inv_d, &x, "pp");
    cv::Mat_<uchar> o; LBSP::calcDistances(a, b, o);
    vc_assert(o.rows == rows && o.cols == cols && o.data[x.y * cols + x.x] == x.spec, "each distance is the number of differing descriptor bits over all channels");
}
VC_CONTRACT(distances_1) { c_distances<1>(); }
VC_CONTRACT(distances_2) { c_distances<2>(); }
VC_CONTRACT(distances_3) { c_distances<3>(); }
VC_CONTRACT(distances_4) { c_distances<4>(); }
VC_CONTRACT(hamming) {
    uint16_t a = vc_any<uint16_t>("a"), b = vc_any<uint16_t>("b");
    vc_assert(lv::hdist<ushort, uchar>(a, b) == ham(a, b), "the distance of two descriptors is the number of differing bits");
}
template<int CH, int C> static void c_diff(bool merge) {
    long rows = vc_range<long>("rows", 1, 46340), cols = vc_range<long>("cols", 1, 46340);
    cv::Mat a = vc_mat<uint16_t>("a", rows, cols, CH), b = vc_mat<uint16_t>("b", rows, cols, CH);
    int och = merge ? 1 : CH;
    Dd x{vc_range<long>("y", 0, 46339), vc_range<long>("x", 0, 46339), cols, och, C, 0}; vc_assume(x.y < rows && x.x < cols);
    const float sc = 255.f / 16;
    const uint16_t *pa = (const uint16_t*)a.data + (x.y * cols + x.x) * CH, *pb = (const uint16_t*)b.data + (x.y * cols + x.x) * CH;
    if(!merge) x.spec = (uchar)(sc * lv::hdist(pa[C], pb[C]));
    else for(int c = 0; c < CH; ++c) x.spec = (uchar)(x.spec + (uchar)((sc * lv::hdist(pa[c], pb[c])) / 3));
    vc_candidate((void*)inv_d, &x, "pp"); vc_candidate((void*)inv_d0, &x, "pp");
    cv::Mat o; LBSP::calcDescImgDiff(a, b, o, merge);
    vc_assert(o.rows == rows && o.cols == cols && o.type() == CV_8UC(och), "the difference image has the size of the descriptor maps");
    vc_assert(o.data[(x.y * cols + x.x) * och + C] == x.spec, "each difference is the Hamming distance scaled to 8 bits");
}
VC_CONTRACT(diff_1) { c_diff<1, 0>(false); }
VC_CONTRACT(diff_3_0) { c_diff<3, 0>(false); }
VC_CONTRACT(diff_3_1) { c_diff<3, 1>(false); }
VC_CONTRACT(diff_3_2) { c_diff<3, 2>(false); }
VC_CONTRACT(diff_merged) { c_diff<3, 0>(true); }
VC_CONTRACT(roi) {
    long rows = vc_range<long>("rows", 5, 46340), cols = vc_range<long>("cols", 5, 46340), y = vc_range<long>("y", 0, 46339), x = vc_range<long>("x", 0, 46339);
    vc_assume(y < rows && x < cols);
    cv::Mat r = vc_mat<uint8_t>("roi", rows, cols), o = r; uint8_t was = r.data[y * cols + x];
    LBSP::validateROI(o);
    vc_assert(o.rows == rows && o.cols == cols && o.type() == CV_8UC1, "the region of interest keeps its size");
    vc_assert(o.data[y * cols + x] == (y < 2 || x < 2 || y >= rows - 2 || x >= cols - 2 ? 0 : was), "the region of interest loses exactly the border");
    vc_assert(r.data[y * cols + x] == was, "the caller's other headers of the region keep their contents");
}
