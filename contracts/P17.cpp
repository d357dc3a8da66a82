// Contracts of the ViBe background subtractors (modules/video/src/BackgroundSubtractorViBe.cpp).
#include "vccv.h"
#ifdef VC_VERIFY
struct Gray { const uint8_t* src; long cols; };
static Gray g_gray;
static unsigned long gray2bgr3(void*, long r, long c) { return g_gray.src[r * g_gray.cols + c / 3]; }
void cv::cvtColor(InputArray a, OutputArray b, int code, int) {
    if(code != cv::COLOR_GRAY2BGR) vc_unsupported_opencv("cvtColor code");
    Mat s = a.getMat(); Mat& d = *(Mat*)b.getObj();
    d.create(s.rows, s.cols, CV_8UC3);
    g_gray.src = s.data; g_gray.cols = s.cols;
    vc_lazy_obj(d.data, gray2bgr3, nullptr, 1);
}
#endif
#include "modules/video/src/BackgroundSubtractorViBe.cpp"
// vc:assume images of at most 32768 x 32768 pixels; default learning rate (16) in apply
// vc:assume rand() returns any value between 0 and RAND_MAX
struct V1 : BackgroundSubtractorViBe_1ch { using BackgroundSubtractorViBe_1ch::BackgroundSubtractorViBe_1ch; };
struct V3 : BackgroundSubtractorViBe_3ch { using BackgroundSubtractorViBe_3ch::BackgroundSubtractorViBe_3ch; };
// an initialized subtractor with n samples per pixel
struct Acc : BackgroundSubtractorViBe {
    static void set(BackgroundSubtractorViBe* b, size_t thr, size_t n, size_t req, std::vector<cv::Mat>& v, int rows, int cols, bool init) {
        Acc* a = (Acc*)b;
        *(size_t*)&a->m_nBGSamples = n; *(size_t*)&a->m_nRequiredBGSamples = req; *(size_t*)&a->m_nColorDistThreshold = thr;
#ifdef VC_VERIFY
        struct Raw { cv::Mat *b, *e, *c; }; *(Raw*)&a->m_voBGImg = *(Raw*)&v;
#else
        a->m_voBGImg = v;
#endif
        a->m_oImgSize = cv::Size(cols, rows); a->m_bInitialized = init;
    }
    static bool initialized(BackgroundSubtractorViBe* b) { return ((Acc*)b)->m_bInitialized; }
};
template<class V> static V* subtractor(size_t thr, size_t n, size_t req, std::vector<cv::Mat>& v, long rows, long cols, bool init) {
#ifdef VC_VERIFY
    V* p = (V*)new char[sizeof(V)];
#else
    V* p = new V(thr, n, req);
#endif
    Acc::set(p, thr, n, req, v, (int)rows, (int)cols, init);
    return p;
}
static bool g_noupdate;
static int any_rand() { long r = vc_fresh(0, 2147483647); if(g_noupdate) vc_assume(r % 16 != 0); return (int)r; }
#ifndef VC_VERIFY
static unsigned g_seed;
extern "C" int rand() noexcept { g_seed = g_seed * 1103515245u + 12345u; int r = (int)((g_seed >> 1) & 0x7fffffff); if(g_noupdate && r % 16 == 0) ++r; return r; }
#endif
struct M { long n, rows, cols, ch, ich, y0, x0, plane; size_t thr, req; const uint8_t *in, *init, *data, *mask; };
static bool close_to(M& m, long k) { // is sample k close to the input at (y0,x0)?
    const uint8_t* a = m.in + m.y0 * m.cols * m.ich + m.x0 * m.ich; long i1 = m.ich > 1, i2 = m.ich > 1 ? 2 : 0; const uint8_t* b = m.init + k * m.plane + m.y0 * m.cols * m.ch + m.x0 * m.ch;
    if(m.ch == 1) return (size_t)(*a > *b ? *a - *b : *b - *a) < m.thr;
    return lv::L2dist(cv::Vec3b(a[0], a[i1], a[i2]), cv::Vec3b(b[0], b[1], b[2])) < m.thr * 3;
}
static unsigned long close_step(void* p, unsigned long acc, long, long k) { return acc + close_to(*(M*)p, k); }
static unsigned long count(long k) { return vc_fold(0, 0, k); }
// lemma (proved: close_monotone): the count of close samples does not decrease with more samples
static bool inv_good(void* p, long v, long a, long b, long c) {
    M& m = *(M*)p; vc_lemma(c < 0 || c > m.n || count(c) <= count(m.n));
    return a != m.y0 || b != m.x0 || ((unsigned long)v == count(c) && c <= m.n);
}
static bool same_model(void* p, long v, long k, long y, long x) { M& m = *(M*)p; return v == m.init[k * m.plane + y * m.cols * m.ch + x]; }
static bool mask_ok(void* p, long a, long b) { M& m = *(M*)p; return a < m.y0 || (a == m.y0 && b <= m.x0) || m.mask[m.y0 * m.cols + m.x0] == (count(m.n) < m.req ? 255 : 0); }
static bool mask_zero(void* p, long a, long b) { M& m = *(M*)p; return a > m.y0 || (a == m.y0 && b > m.x0) || m.mask[m.y0 * m.cols + m.x0] == 0; }
template<class V, int CH, int IN = CH> static void c_classify() {
    M m{}; m.rows = vc_range<long>("rows", 1, 32768); m.cols = vc_range<long>("cols", 1, 32768); m.ch = CH; m.ich = IN; m.n = vc_range<long>("n", 1, 1000);
    m.thr = vc_range<long>("thr", 0, 1000); m.req = vc_range<long>("req", 0, 1000); vc_assume((long)m.req <= m.n);
    m.y0 = vc_range<long>("y0", 0, 32767); m.x0 = vc_range<long>("x0", 0, 32767); vc_assume(m.y0 < m.rows && m.x0 < m.cols);
    cv::Mat in = vc_mat<uint8_t>("in", m.rows, m.cols, IN), out = vc_mat<uint8_t>("out", m.rows, m.cols);
    vc_stack_t<uint8_t> s = vc_stack<uint8_t>("model", m.n, m.rows, m.cols, CH);
    m.in = in.data; m.init = s.init; m.data = s.data; m.plane = s.plane; m.mask = out.data;
    V* v = subtractor<V>(m.thr, m.n, m.req, *s.v, m.rows, m.cols, true);
    vc_fold_def(0, close_step, &m, 0, 1, m.n);
    g_noupdate = true; vc_replace("^rand$", (void*)any_rand);
    vc_candidate((void*)inv_good, &m, "vkkk"); vc_candidate((void*)same_model, &m, "e"); vc_candidate((void*)mask_ok, &m, "kk"); vc_candidate((void*)mask_zero, &m, "kk");
    v->V::apply(in, out);
    vc_assert(out.data[m.y0 * m.cols + m.x0] == (count(m.n) < m.req ? 255 : 0), "a pixel is foreground exactly when fewer samples than required are close to it");
    long k = vc_range<long>("k", 0, 1000), c = vc_range<long>("c", 0, 2); vc_assume(k < m.n && c < CH);
    vc_assert(m.data[k * m.plane + m.y0 * m.cols * CH + m.x0 * CH + c] == m.init[k * m.plane + m.y0 * m.cols * CH + m.x0 * CH + c], "without update draws the model is unchanged");
}
VC_CONTRACT(vibe1_classify) { c_classify<V1, 1>(); }
VC_CONTRACT(vibe3_classify) { c_classify<V3, 3>(); }
static bool inv_mono(void* p, long i) { unsigned long ck = *(unsigned long*)p; return i <= 1000 && count(i) >= ck && count(i) <= ck + i; }
static unsigned long any_step(void*, unsigned long acc, long, long k) { return acc + (vc_uf1("close", (unsigned long)k) & 1); }
VC_CONTRACT(close_monotone) { // for every k: the count over samples k, k+1, ... never falls below the count at k
#ifdef VC_VERIFY
    long n = vc_range<long>("n", 1, 1000), k = vc_range<long>("k", 0, 1000); vc_assume(k <= n);
    unsigned long ck = vc_range<long>("ck", 0, 1000);
    vc_fold_def(0, any_step, nullptr, ck, 1, n);
    vc_candidate((void*)inv_mono, &ck, "p");
    for(long i = 0; i < n - k; ++i) vc_cover("step");
    vc_assert(vc_fold(0, 0, n - k) >= ck, "lemma: the count of close samples does not decrease with more samples");
#endif
}
// ---- update: Q stands for any set of values, B for any set of pixels. If Q holds of the old sample and of all pixels of B near it, then
// Q holds of the new sample, or some pixel near it outside B is classified as background. (With B the background pixels of the output mask: the
// new sample is the old one or the value of a neighbouring background pixel of the current frame.)
#ifdef VC_VERIFY
static bool Q(unsigned long v) { return vc_uf1("Q", v) & 1; }
static bool B(long y, long x) { return vc_uf2("B", (unsigned long)y, (unsigned long)x) & 1; }
#endif
struct Up { M m; long k0, c0; bool init; };
static bool near(Up& u, long y, long x, long r) { return y >= u.m.y0 - r && y <= u.m.y0 + r && x >= u.m.x0 - r && x <= u.m.x0 + r; }
static const uint8_t& cell(Up& u, const uint8_t* d) { return d[u.k0 * u.m.plane + u.m.y0 * u.m.cols * u.m.ch + u.m.x0 * u.m.ch + u.c0]; }
#ifdef VC_VERIFY
static bool in_pred(void* p, unsigned long v, long y, long x) {
    Up& u = *(Up*)p; long ch = u.m.ich;
    if(ch == 1) return !near(u, y, x, u.init ? 3 : 1) || (!u.init && !B(y, x)) || Q(v);
    for(long d = u.init ? -3 : -1; d <= (u.init ? 3 : 1); ++d) if(x == (u.m.x0 + d) * 3 + u.c0) return !near(u, y, u.m.x0 + d, 3) || y < u.m.y0 - (u.init ? 3 : 1) || y > u.m.y0 + (u.init ? 3 : 1) || (!u.init && !B(y, u.m.x0 + d)) || Q(v);
    return true;
}
static bool escaped(Up& u, long a, long b) { // a neighbour outside B, already visited, is background
    bool r = false;
    for(long dy = -1; dy <= 1; ++dy) for(long dx = -1; dx <= 1; ++dx) {
        long y = u.m.y0 + dy, x = u.m.x0 + dx;
        if(y >= 0 && x >= 0 && y < u.m.rows && x < u.m.cols && (y < a || (y == a && x < b)) && !B(y, x) && u.m.mask[y * u.m.cols + x] == 0) r = true;
    }
    return r;
}
static bool inv_cell(void* p, long a, long b) { Up& u = *(Up*)p; return Q(cell(u, u.m.data)) || escaped(u, a, b); }
static bool mask_zero9(void* p, long a, long b) {
    Up& u = *(Up*)p; bool r = true;
    for(long dy = -1; dy <= 1; ++dy) for(long dx = -1; dx <= 1; ++dx) {
        long y = u.m.y0 + dy, x = u.m.x0 + dx;
        if(y >= 0 && x >= 0 && y < u.m.rows && x < u.m.cols && (a < y || (y == a && b <= x)) && u.m.mask[y * u.m.cols + x] != 0) r = false;
    }
    return r;
}
#endif
template<class V, int CH, int IN = CH> static void c_update() {
    Up u{}; M& m = u.m; m.rows = vc_range<long>("rows", 1, 32768); m.cols = vc_range<long>("cols", 1, 32768); m.ch = CH; m.ich = IN; m.n = vc_range<long>("n", 1, 1000);
    m.thr = vc_range<long>("thr", 0, 1000); m.req = vc_range<long>("req", 0, 1000); vc_assume((long)m.req <= m.n);
    m.y0 = vc_range<long>("y0", 0, 32767); m.x0 = vc_range<long>("x0", 0, 32767); vc_assume(m.y0 < m.rows && m.x0 < m.cols);
    u.k0 = vc_range<long>("k", 0, 999); vc_assume(u.k0 < m.n); u.c0 = CH == 1 ? 0 : vc_range<long>("c", 0, CH - 1);
    cv::Mat in = vc_mat<uint8_t>("in", m.rows, m.cols, IN), out = vc_mat<uint8_t>("out", m.rows, m.cols);
    vc_stack_t<uint8_t> s = vc_stack<uint8_t>("model", m.n, m.rows, m.cols, CH);
    m.in = in.data; m.init = s.init; m.data = s.data; m.plane = s.plane; m.mask = out.data;
    V* v = subtractor<V>(m.thr, m.n, m.req, *s.v, m.rows, m.cols, true);
    g_noupdate = false; vc_replace("^rand$", (void*)any_rand);
#ifdef VC_VERIFY
    vc_elem_pred(in.data, in_pred, &u, 1);
    vc_assume(Q(cell(u, m.init)));
    vc_candidate((void*)inv_cell, &u, "kk"); vc_candidate((void*)mask_zero9, &u, "kk");
#else
    g_seed = vc_any<uint32_t>("seed");
#endif
    v->V::apply(in, out);
#ifdef VC_VERIFY
    vc_assert(Q(cell(u, m.data)) || escaped(u, m.rows, 0), "a model sample is only replaced by the value of a neighbouring background pixel of the current frame");
#else
    bool all = true; // the concrete run looks at every sample of every pixel
    for(u.k0 = 0; u.k0 < m.n; ++u.k0) for(m.y0 = 0; m.y0 < m.rows; ++m.y0) for(m.x0 = 0; m.x0 < m.cols; ++m.x0) for(u.c0 = 0; u.c0 < CH; ++u.c0) {
        bool ok = cell(u, m.data) == cell(u, m.init);
        for(long y = m.y0 - 1; y <= m.y0 + 1; ++y) for(long x = m.x0 - 1; x <= m.x0 + 1; ++x)
            if(y >= 0 && x >= 0 && y < m.rows && x < m.cols && m.mask[y * m.cols + x] == 0 && cell(u, m.data) == m.in[(y * m.cols + x) * IN + (IN > 1 ? u.c0 : 0)]) ok = true;
        all = all && ok;
    }
    vc_assert(all, "a model sample is only replaced by the value of a neighbouring background pixel of the current frame");
#endif
}
VC_CONTRACT(vibe1_update) { c_update<V1, 1>(); }
VC_CONTRACT(vibe3_update) { c_update<V3, 3>(); }
// ---- initialization
// vc:assume initialize sees getSamplePosition_7x7_std2 through its contract (proved in P05): a position inside the image, at most 3 pixels away
static void sample_contract(int, int& xs, int& ys, const int xo, const int yo, const int border, const cv::Size& sz) {
    vc_assert(border == 0, "no border is excluded");
    xs = (int)vc_fresh(0, 32767); ys = (int)vc_fresh(0, 32767);
    vc_assume(xs >= xo - 3 && xs <= xo + 3 && xs < sz.width && ys >= yo - 3 && ys <= yo + 3 && ys < sz.height);
}
#ifdef VC_VERIFY
static bool inv_init(void* p, long a, long b, long c) {
    Up& u = *(Up*)p;
    return !(u.k0 < a || (u.k0 == a && (u.m.y0 < b || (u.m.y0 == b && u.m.x0 < c)))) || Q(cell(u, u.m.data));
}
#endif
template<class V, int CH, int IN = CH> static void c_init() {
    Up u{}; M& m = u.m; u.init = true; m.rows = vc_range<long>("rows", 1, 32768); m.cols = vc_range<long>("cols", 1, 32768); m.ch = CH; m.ich = IN; m.n = vc_range<long>("n", 1, 1000);
    m.y0 = vc_range<long>("y0", 0, 32767); m.x0 = vc_range<long>("x0", 0, 32767); vc_assume(m.y0 < m.rows && m.x0 < m.cols);
    u.k0 = vc_range<long>("k", 0, 999); vc_assume(u.k0 < m.n); u.c0 = CH == 1 ? 0 : vc_range<long>("c", 0, CH - 1);
    cv::Mat in = vc_mat<uint8_t>("in", m.rows, m.cols, IN);
    vc_stack_t<uint8_t> s = vc_stack<uint8_t>("model", m.n, m.rows, m.cols, CH);
    m.in = in.data; m.init = s.init; m.data = s.data; m.plane = s.plane;
    V* v = subtractor<V>(20, m.n, 1, *s.v, m.rows, m.cols, false);
    g_noupdate = false; vc_replace("^rand$", (void*)any_rand); vc_replace("^lv::getSamplePosition_7x7_std2\\(", (void*)sample_contract);
#ifdef VC_VERIFY
    vc_elem_pred(in.data, in_pred, &u, 1);
    vc_candidate((void*)inv_init, &u, "kkk");
#else
    g_seed = vc_any<uint32_t>("seed");
#endif
    v->V::initialize(in);
    vc_assert(Acc::initialized(v), "the subtractor is initialized");
#ifdef VC_VERIFY
    vc_assert(Q(cell(u, m.data)), "every initial sample is the value of a pixel of the first frame at most 3 pixels away");
#else
    bool all = true; // the concrete run looks at every sample of every pixel
    for(u.k0 = 0; u.k0 < m.n; ++u.k0) for(m.y0 = 0; m.y0 < m.rows; ++m.y0) for(m.x0 = 0; m.x0 < m.cols; ++m.x0) for(u.c0 = 0; u.c0 < CH; ++u.c0) {
        bool ok = false;
        for(long y = m.y0 - 3; y <= m.y0 + 3; ++y) for(long x = m.x0 - 3; x <= m.x0 + 3; ++x)
            if(y >= 0 && x >= 0 && y < m.rows && x < m.cols && cell(u, m.data) == m.in[(y * m.cols + x) * IN + (IN > 1 ? u.c0 : 0)]) ok = true;
        all = all && ok;
    }
    vc_assert(all, "every initial sample is the value of a pixel of the first frame at most 3 pixels away");
#endif
}
VC_CONTRACT(vibe1_init) { c_init<V1, 1>(); }
VC_CONTRACT(vibe3_init) { c_init<V3, 3>(); }
