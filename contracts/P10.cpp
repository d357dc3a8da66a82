// Contracts of the binary classification counters (modules/datasets/src/metrics.cpp).
#include "vccv.h"
#ifdef VC_VERIFY
struct Gray { const uint8_t* src; long cols; };
static Gray g_gray;
static unsigned long gray2bgr3(void*, long r, long c) { return g_gray.src[r * g_gray.cols + c / 3]; }
void cv::cvtColor(InputArray a, OutputArray b, int code, int) {
    if(code != cv::COLOR_GRAY2BGR) vc_unsupported_opencv("cvtColor code");
    Mat s = a.getMat(); Mat& d = *(Mat*)b.getObj();
    d.create(s.rows, s.cols, CV_8UC3);
    g_gray.src = s.data; g_gray.cols = s.cols;
    vc_lazy_obj(d.data, gray2bgr3, nullptr, 1);
}
#endif
#include "modules/datasets/src/metrics.cpp"
// vc:assume image sides at most 46340 x 46340 pixels (cv::Size::area() is computed in int)
// vc:assume cv::cvtColor(GRAY2BGR) copies the grey value into the three channels
enum { TP, TN, FP, FN, SE, DC };
struct Img { const uint8_t* in; const uint8_t* gt; const uint8_t* roi; long cols, rstep; bool hasroi; };
static bool spec_dc(Img& m, long i, long j) {
    uint8_t gt = m.gt[i * m.cols + j];
    return gt == 85 || gt == 170 || (m.hasroi && m.roi[i * m.rstep + j] == 0);
}
// per-pixel definition of the counters
static unsigned spec_class(uint8_t in, uint8_t gt, bool dc, int which) {
    bool pos = in == 255, gpos = gt == 255;
    switch(which) {
        case DC: return dc;
        case TP: return !dc && pos && gpos;
        case FP: return !dc && pos && !gpos;
        case FN: return !dc && !pos && gpos;
        case TN: return !dc && !pos && !gpos;
        default: return !dc && pos && gt == 50;
    }
}
template<int W> static unsigned long step_(void* c, unsigned long acc, long i, long j) {
    Img& m = *(Img*)c;
    return acc + spec_class(m.in[i * m.cols + j], m.gt[i * m.cols + j], spec_dc(m, i, j), W);
}
// candidate invariants: a counter (or a local copy of one) equals the specified count up to the current pixel
struct Cand { int id; uint64_t init; };
static bool inv_abs(void* c, long v, long i, long j) { return (uint64_t)v == vc_fold(((Cand*)c)->id, i, j); }
static bool inv_rel(void* c, long v, long i, long j) { return (uint64_t)v + ((Cand*)c)->init == vc_fold(((Cand*)c)->id, i, j); }
static uint64_t& counter(lv::BinClassif& c, int w) { return w == TP ? c.nTP : w == TN ? c.nTN : w == FP ? c.nFP : w == FN ? c.nFN : w == SE ? c.nSE : c.nDC; }
static void start(lv::BinClassif& c) {
    c.nTP = vc_range<uint64_t>("tp", 0, 1l << 60); c.nTN = vc_range<uint64_t>("tn", 0, 1l << 60); c.nFP = vc_range<uint64_t>("fp", 0, 1l << 60);
    c.nFN = vc_range<uint64_t>("fn", 0, 1l << 60); c.nSE = vc_range<uint64_t>("se", 0, 1l << 60); c.nDC = vc_range<uint64_t>("dc", 0, 1l << 60);
}
template<int W> static void c_accumulate(int roi, const char* label) {
    long rows = vc_range<long>("rows", 1, 46340), cols = vc_range<long>("cols", 1, 46340);
    cv::Mat in = vc_mat<uint8_t>("in", rows, cols), gt = vc_mat<uint8_t>("gt", rows, cols), r;
    long rstep = cols;
    if(roi == 1) r = vc_mat<uint8_t>("roi", rows, cols);
    if(roi == 2) { // rows of the ROI lie further apart than those of the other images: rejected, or counted correctly
        vc_option("rejects", 1); vc_allow_throw(1);
        rstep = vc_range<long>("rstep", 1, 100000); vc_assume(rstep > cols && rows > 1);
        r = vc_mat<uint8_t>("roi", rows, cols, 1, rstep);
    }
    lv::BinClassif c;
    start(c);
    uint64_t init = counter(c, W);
    Img m{in.data, gt.data, r.data, cols, rstep, roi != 0};
    vc_fold_def(W, step_<W>, &m, init, rows, cols);
    Cand cd = {W, init};
    vc_candidate((void*)inv_abs, &cd, "vpp"); vc_candidate((void*)inv_rel, &cd, "vpp");
    c.accumulate(in, gt, r);
    vc_assert(counter(c, W) == vc_fold(W, rows, 0), label);
}
VC_CONTRACT(tp) { c_accumulate<TP>(0, "true positives are counted over exactly the in-scope pixels"); }
VC_CONTRACT(tn) { c_accumulate<TN>(0, "true negatives are counted over exactly the in-scope pixels"); }
VC_CONTRACT(fp) { c_accumulate<FP>(0, "false positives are counted over exactly the in-scope pixels"); }
VC_CONTRACT(fn) { c_accumulate<FN>(0, "false negatives are counted over exactly the in-scope pixels"); }
VC_CONTRACT(se) { c_accumulate<SE>(0, "shadow errors are the false positives on shadow pixels"); }
VC_CONTRACT(dc) { c_accumulate<DC>(0, "every out-of-scope pixel is counted as don't-care"); }
VC_CONTRACT(tp_roi) { c_accumulate<TP>(1, "true positives are counted over exactly the in-scope pixels"); }
VC_CONTRACT(tn_roi) { c_accumulate<TN>(1, "true negatives are counted over exactly the in-scope pixels"); }
VC_CONTRACT(fp_roi) { c_accumulate<FP>(1, "false positives are counted over exactly the in-scope pixels"); }
VC_CONTRACT(fn_roi) { c_accumulate<FN>(1, "false negatives are counted over exactly the in-scope pixels"); }
VC_CONTRACT(se_roi) { c_accumulate<SE>(1, "shadow errors are the false positives on shadow pixels"); }
VC_CONTRACT(dc_roi) { c_accumulate<DC>(1, "every out-of-scope pixel is counted as don't-care"); }
VC_CONTRACT(strided_roi_tp) { c_accumulate<TP>(2, "a region of interest with padded rows is rejected or counted correctly"); }
VC_CONTRACT(strided_roi_dc) { c_accumulate<DC>(2, "a region of interest with padded rows is rejected or counted correctly"); }

VC_CONTRACT(no_groundtruth) {
    long rows = vc_range<long>("rows", 1, 46340), cols = vc_range<long>("cols", 1, 46340);
    cv::Mat in = vc_mat<uint8_t>("in", rows, cols), r;
    if(vc_range<int>("hasroi", 0, 1)) r = vc_mat<uint8_t>("roi", rows, cols);
    lv::BinClassif c; start(c); lv::BinClassif o = c;
    c.accumulate(in, cv::Mat(), r);
    vc_assert(c.nDC == o.nDC + (uint64_t)(rows * cols), "without groundtruth every pixel is a don't-care");
    vc_assert(c.nTP == o.nTP && c.nTN == o.nTN && c.nFP == o.nFP && c.nFN == o.nFN && c.nSE == o.nSE, "without groundtruth no other counter moves");
}
// images of different sizes are rejected, whatever their sizes
VC_CONTRACT(size_mismatch) {
    vc_option("rejects", 1); vc_allow_throw(1);
    long rows = vc_range<long>("rows", 1, 46340), cols = vc_range<long>("cols", 1, 46340), grows = vc_range<long>("grows", 1, 46340), gcols = vc_range<long>("gcols", 1, 46340), rrows = vc_range<long>("rrows", 1, 46340), rcols = vc_range<long>("rcols", 1, 46340);
    vc_assume(rows != grows || cols != gcols || rows != rrows || cols != rcols);
    cv::Mat in = vc_mat<uint8_t>("in", rows, cols), gt = vc_mat<uint8_t>("gt", grows, gcols), r = vc_mat<uint8_t>("roi", rrows, rcols);
    lv::BinClassif c;
    c.accumulate(in, gt, r);
    vc_assert(false, "images of different sizes are rejected");
}
VC_CONTRACT(merge) {
    lv::BinClassif a, b, z; start(a);
    b.nTP = vc_range<uint64_t>("btp", 0, 1l << 60); b.nTN = vc_range<uint64_t>("btn", 0, 1l << 60); b.nFP = vc_range<uint64_t>("bfp", 0, 1l << 60);
    b.nFN = vc_range<uint64_t>("bfn", 0, 1l << 60); b.nSE = vc_range<uint64_t>("bse", 0, 1l << 60); b.nDC = vc_range<uint64_t>("bdc", 0, 1l << 60);
    vc_assert(!z.nTP && !z.nTN && !z.nFP && !z.nFN && !z.nSE && !z.nDC, "new counters are zero");
    bool same = a.nTP == b.nTP && a.nTN == b.nTN && a.nFP == b.nFP && a.nFN == b.nFN && a.nSE == b.nSE && a.nDC == b.nDC;
    vc_assert(a.isEqual(b) == same, "counters are equal exactly when every count is");
    vc_assert(a.total() == a.nTP + a.nTN + a.nFP + a.nFN && a.total(true) == a.total() + a.nDC, "total is the sum of the classified pixels, plus the don't-cares if asked");
    lv::BinClassif o = a;
    a.accumulate(b);
    vc_assert(a.nTP == o.nTP + b.nTP && a.nTN == o.nTN + b.nTN && a.nFP == o.nFP + b.nFP && a.nFN == o.nFN + b.nFN && a.nSE == o.nSE + b.nSE && a.nDC == o.nDC + b.nDC, "merging adds every counter");
}

// ---- colour mask
struct MCtx { Img m; long r, c; int ch; uint8_t spec; };
static uint8_t spec_color(Img& m, long i, long j, int ch) {
    uint8_t in = m.in[i * m.cols + j], gt = m.gt[i * m.cols + j];
    bool out = m.hasroi && m.roi[i * m.cols + j] == 0;
    if(out) return 127;
    if(gt == 85 || gt == 170) return in;
    if(in == 255) {
        if(gt == 255) return ch == 1 ? 255 : 0;
        if(gt == 0) return ch == 2 ? 255 : 0;
        if(gt == 50) return ch == 0 ? 0 : ch == 1 ? 127 : 255;
        return 85;
    }
    if(gt == 255) return ch == 0 ? 127 : ch == 1 ? 0 : 255;
    return 0;
}
static bool inv_mask(void* p, long i, long j) {
    MCtx& x = *(MCtx*)p;
    const uint8_t* d = (const uint8_t*)vc_alloc_data[0];
    if(!d) return true;
    uint8_t v = d[(x.r * x.m.cols + x.c) * 3 + x.ch];
    return (x.r < i || (x.r == i && x.c < j)) ? v == x.spec : v == 0;
}
static bool inv_mask1(void* p, long i, long j) {
    MCtx& x = *(MCtx*)p;
    const uint8_t* d = (const uint8_t*)vc_alloc_data[0];
    if(!d) return true;
    return !(x.r < i || (x.r == i && x.c < j)) || d[(x.r * x.m.cols + x.c) * 3 + x.ch] == x.spec;
}
static void c_mask(bool roi, int ch) {
    long rows = vc_range<long>("rows", 1, 46340), cols = vc_range<long>("cols", 1, 46340);
    cv::Mat in = vc_mat<uint8_t>("in", rows, cols), gt = vc_mat<uint8_t>("gt", rows, cols), r;
    if(roi) r = vc_mat<uint8_t>("roi", rows, cols);
    MCtx x{{in.data, gt.data, r.data, cols, cols, roi}, vc_range<long>("r", 0, 46339), vc_range<long>("c", 0, 46339), ch, 0};
    vc_assume(x.r < rows && x.c < cols);
    x.spec = spec_color(x.m, x.r, x.c, x.ch);
    vc_candidate((void*)inv_mask, &x, "pp"); vc_candidate((void*)inv_mask1, &x, "pp");
    cv::Mat o = lv::BinClassif::getColoredMask(in, gt, r);
    vc_assert(o.rows == rows && o.cols == cols && o.type() == CV_8UC3, "the colour mask has the size of the classification");
    vc_assert(o.data[(x.r * cols + x.c) * 3 + x.ch] == x.spec, "every pixel of the colour mask has the colour of its classification");
}
VC_CONTRACT(mask_b) { c_mask(false, 0); }
VC_CONTRACT(mask_g) { c_mask(false, 1); }
VC_CONTRACT(mask_r) { c_mask(false, 2); }
VC_CONTRACT(mask_b_roi) { c_mask(true, 0); }
VC_CONTRACT(mask_g_roi) { c_mask(true, 1); }
VC_CONTRACT(mask_r_roi) { c_mask(true, 2); }
VC_CONTRACT(mask_nogt) {
    long rows = vc_range<long>("rows", 1, 46340), cols = vc_range<long>("cols", 1, 46340), r = vc_range<long>("r", 0, 46339), c = vc_range<long>("c", 0, 46339);
    int ch = vc_range<int>("ch", 0, 2);
    vc_assume(r < rows && c < cols);
    cv::Mat in = vc_mat<uint8_t>("in", rows, cols);
    cv::Mat o = lv::BinClassif::getColoredMask(in, cv::Mat());
    vc_assert(o.rows == rows && o.cols == cols && o.type() == CV_8UC3, "the colour mask has the size of the classification");
    vc_assert(o.data[(r * cols + c) * 3 + ch] == in.data[r * cols + c], "without groundtruth the mask shows the classification itself");
}
