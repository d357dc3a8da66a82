// Contracts of the metrics derived from the evaluation counters (modules/datasets: metrics.hpp, metrics.cpp).
#include "vccv.h"
#define protected public
#include "modules/datasets/src/metrics.cpp"
#undef protected
// vc:assume counters at most 2^60 (their sums do not wrap)
// vc:assume floating-point operations are uninterpreted functions: results are equal because the same operations are applied to the same operands
static void start(lv::BinClassif& c, long max) {
    c.nTP = vc_range<uint64_t>("tp", 0, max); c.nTN = vc_range<uint64_t>("tn", 0, max); c.nFP = vc_range<uint64_t>("fp", 0, max);
    c.nFN = vc_range<uint64_t>("fn", 0, max); c.nSE = vc_range<uint64_t>("se", 0, max); c.nDC = vc_range<uint64_t>("dc", 0, max);
}
static double ratio(uint64_t a, uint64_t b) { return b > 0 ? (double)a / (double)b : 0.0; }
VC_CONTRACT(ratios) {
    lv::BinClassif c; start(c, 1l << 60);
    lv::BinClassifMetrics m(c);
    vc_assert(vc_same(m.dRecall, ratio(c.nTP, c.nTP + c.nFN)), "recall is TP/(TP+FN), 0 if undefined");
    vc_assert(vc_same(m.dSpecificity, ratio(c.nTN, c.nTN + c.nFP)), "specificity is TN/(TN+FP), 0 if undefined");
    vc_assert(vc_same(m.dFPR, ratio(c.nFP, c.nTN + c.nFP)), "false positive rate is FP/(FP+TN), 0 if undefined");
    vc_assert(vc_same(m.dFNR, ratio(c.nFN, c.nTP + c.nFN)), "false negative rate is FN/(FN+TP), 0 if undefined");
    vc_assert(vc_same(m.dPrecision, ratio(c.nTP, c.nTP + c.nFP)), "precision is TP/(TP+FP), 0 if undefined");
    uint64_t tot = c.nTP + c.nTN + c.nFP + c.nFN;
    vc_assert(vc_same(m.dPBC, tot > 0 ? 100.0 * (double)(c.nFN + c.nFP) / (double)tot : 0.0), "percentage of bad classifications is 100(FN+FP)/(all)");
    double r = ratio(c.nTP, c.nTP + c.nFN), p = ratio(c.nTP, c.nTP + c.nFP);
    vc_assert(vc_same(m.dFMeasure, (r + p) > 0 ? 2.0 * (r * p) / (r + p) : 0.0), "F-measure is the harmonic mean of recall and precision, 0 if undefined");
    vc_assert(c.total() == tot && c.total(true) == tot + c.nDC, "totals are the sums of the counters");
}
VC_CONTRACT(direct) {
    uint64_t a = vc_range<uint64_t>("a", 0, 1l << 60), b = vc_range<uint64_t>("b", 0, 1l << 60);
    vc_assert(vc_same(lv::BinClassifMetrics::CalcRecall(a, b), ratio(a, b)) && vc_same(lv::BinClassifMetrics::CalcPrecision(a, b), ratio(a, b)), "direct recall and precision are the quotients");
    double r = vc_any<double>("r"), p = vc_any<double>("p");
    vc_assert(vc_same(lv::BinClassifMetrics::CalcFMeasure(r, p), (r + p) > 0 ? 2.0 * (r * p) / (r + p) : 0.0), "direct F-measure");
}
VC_CONTRACT(mcc) {
    lv::BinClassif c; start(c, 1l << 60);
    uint64_t pp = c.nTP + c.nFP, ap = c.nTP + c.nFN, an = c.nTN + c.nFP, pn = c.nTN + c.nFN;
    double num = (double)c.nTP * (double)c.nTN - (double)c.nFP * (double)c.nFN;
    double den = sqrt(((double)c.nTP + (double)c.nFP) * (double)ap * (double)an * (double)pn);
    vc_assert(vc_same(lv::BinClassifMetrics(c).dMCC, pp > 0 && ap > 0 && an > 0 && pn > 0 ? num / den : 0.0), "Matthews correlation coefficient is (TP*TN-FP*FN)/sqrt((TP+FP)(TP+FN)(TN+FP)(TN+FN)), 0 if undefined");
}
static double avg(double a, size_t wa, double b, size_t wb) { return (b * (double)wb + a * (double)wa) / (double)(wa + wb); }
typedef lv::BinClassifMetrics BM;
static double BM::* const F[8] = {&BM::dRecall, &BM::dSpecificity, &BM::dFPR, &BM::dFNR, &BM::dPBC, &BM::dPrecision, &BM::dFMeasure, &BM::dMCC};
static const char* N1[8] = {"a0", "a1", "a2", "a3", "a4", "a5", "a6", "a7"};
static const char* N2[8] = {"b0", "b1", "b2", "b3", "b4", "b5", "b6", "b7"};
VC_CONTRACT(average) {
    BM a{lv::BinClassif()}, b{lv::BinClassif()};
    for(int i = 0; i < 8; ++i) { a.*F[i] = vc_any<double>(N1[i]); b.*F[i] = vc_any<double>(N2[i]); }
    auto ca = lv::IIMetricsCalculator::create<lv::BinClassifMetricsCalculator>(a), cb = lv::IIMetricsCalculator::create<lv::BinClassifMetricsCalculator>(b);
    vc_assert(ca->nWeight == 1, "a calculator starts with weight one");
    ca->nWeight = vc_range<size_t>("wa", 1, 1l << 40); cb->nWeight = vc_range<size_t>("wb", 1, 1l << 40);
    size_t wa = ca->nWeight, wb = cb->nWeight;
    ca->accumulate(cb);
    for(int i = 0; i < 8; ++i) vc_assert(vc_same(ca->m_oMetrics.*F[i], avg(a.*F[i], wa, b.*F[i], wb)), "accumulating calculators gives the weighted average of each metric");
    vc_assert(ca->nWeight == wa + wb, "the weights add up");
}
VC_CONTRACT(counters) {
    auto a = lv::IIMetricsAccumulator::create<lv::BinClassifMetricsAccumulator>(), b = lv::IIMetricsAccumulator::create<lv::BinClassifMetricsAccumulator>();
    vc_assert(a->m_oCounters.total(true) == 0 && a->m_oCounters.nSE == 0, "an accumulator starts at zero");
    static const char* n[12] = {"a0", "a1", "a2", "a3", "a4", "a5", "b0", "b1", "b2", "b3", "b4", "b5"};
    uint64_t v[12]; for(int i = 0; i < 12; ++i) v[i] = vc_range<uint64_t>(n[i], 0, 1l << 60);
    auto set = [](lv::BinClassif& c, const uint64_t* v) { c.nTP = v[0]; c.nTN = v[1]; c.nFP = v[2]; c.nFN = v[3]; c.nSE = v[4]; c.nDC = v[5]; };
    set(a->m_oCounters, v); set(b->m_oCounters, v + 6);
    bool same = true; for(int i = 0; i < 6; ++i) same = same & (v[i] == v[6 + i]);
    vc_assert(a->isEqual(b) == same, "accumulators are equal exactly when all their counters are");
    a->accumulate(b);
    const lv::BinClassif& c = a->m_oCounters;
    vc_assert(c.nTP == v[0] + v[6] && c.nTN == v[1] + v[7] && c.nFP == v[2] + v[8] && c.nFN == v[3] + v[9] && c.nSE == v[4] + v[10] && c.nDC == v[5] + v[11], "accumulating adds each counter");
    auto k = lv::IIMetricsCalculator::create<lv::BinClassifMetricsCalculator>(lv::IIMetricsAccumulatorConstPtr(a));
    BM m(c); for(int i = 0; i < 8; ++i) vc_assert(vc_same(k->m_oMetrics.*F[i], m.*F[i]), "the calculator of an accumulator holds the metrics of its counters");
}
// arrays of streams (any number): Skolem stream s, field f
struct Arr { long s, f; const uint64_t* now; int nf; uint64_t was, to; };
static bool inv_arr(void* p, long i) { Arr& a = *(Arr*)p; return a.now[a.s * a.nf + a.f] == (i > a.s ? a.to : a.was); }
template<class C, class T> static std::shared_ptr<C> array_calc(std::vector<T>& v) {
    auto p = lv::IIMetricsCalculator::create<C>(std::vector<T>(), std::vector<std::string>());
    memcpy((void*)&p->m_vMetrics, (void*)&v, sizeof(v)); new std::shared_ptr<C>(p); // never destroyed
    return p;
}
template<class C, class T> static void c_array_average() {
    long n = vc_range<long>("n", 1, 1 << 20); const int nf = sizeof(T) / 8;
    std::vector<T>& a = vc_vector<T, uint64_t>("a", n), &b = vc_vector<T, uint64_t>("b", n);
    Arr x{vc_range<long>("s", 0, 1 << 20), vc_range<long>("f", 0, nf - 1), (const uint64_t*)a.data(), nf, 0, 0}; vc_assume(x.s < n);
    auto ca = array_calc<C, T>(a), cb = array_calc<C, T>(b);
    ca->nWeight = vc_range<size_t>("wa", 1, 1l << 40); cb->nWeight = vc_range<size_t>("wb", 1, 1l << 40);
    size_t wa = ca->nWeight, wb = cb->nWeight;
    double va = ((const double*)a.data())[x.s * nf + x.f], vb = ((const double*)b.data())[x.s * nf + x.f];
    double to = avg(va, wa, vb, wb); memcpy(&x.was, &va, 8); memcpy(&x.to, &to, 8);
    vc_candidate((void*)inv_arr, &x, "p");
    ca->accumulate(cb);
    vc_assert(vc_same(((const double*)ca->m_vMetrics.data())[x.s * nf + x.f], to), "accumulating array calculators gives the weighted average of each metric of each stream");
    vc_assert(ca->nWeight == wa + wb && (long)ca->m_vMetrics.size() == n, "the weights add up");
}
VC_CONTRACT(array_average) { c_array_average<lv::BinClassifMetricsArrayCalculator, BM>(); }
VC_CONTRACT(stereo_average) { c_array_average<lv::StereoDispMetricsCalculator, lv::StereoDispErrorMetrics>(); }

// reduction of an array to its mean: left-to-right sum over the streams, divided by their number
struct Red { const double* v; int nf, f; };
static unsigned long red_step(void* p, unsigned long acc, long, long s) {
    Red& r = *(Red*)p; double x; memcpy(&x, &acc, 8); x += r.v[(s + 1) * r.nf + r.f]; memcpy(&acc, &x, 8); return acc;
}
static bool inv_red(void*, long v, long i) { return (unsigned long)v == vc_fold(0, 0, i); }
static bool inv_red1(void*, long v, long i) { return i < 1 || (unsigned long)v == vc_fold(0, 0, i - 1); }
template<class C, class T, class R> static void c_reduce(int f, R get) {
    long n = vc_range<long>("n", 1, 1 << 20); const int nf = sizeof(T) / 8;
    std::vector<T>& a = vc_vector<T, uint64_t>("a", n);
    Red r{(const double*)a.data(), nf, f};
    unsigned long init; memcpy(&init, &r.v[f], 8);
    vc_fold_def(0, red_step, &r, init, 1, n);
    vc_candidate((void*)inv_red, &r, "vp"); vc_candidate((void*)inv_red1, &r, "vp");
    auto c = array_calc<C, T>(a);
    double got = get(c), sum; unsigned long fs = vc_fold(0, 0, n - 1); memcpy(&sum, &fs, 8);
    vc_assert(vc_same(got, sum / (double)n), "reducing an array gives the mean of each metric over the streams");
}
static double StereoF(const lv::StereoDispErrorMetrics& m, int f) { return ((const double*)&m)[f]; }
#define RED(f) VC_CONTRACT(reduce_##f) { c_reduce<lv::BinClassifMetricsArrayCalculator, BM>(f, [](std::shared_ptr<lv::BinClassifMetricsArrayCalculator>& c) { return c->reduce()->m_oMetrics.*F[f]; }); }
RED(0) RED(1) RED(2) RED(3) RED(4) RED(5) RED(6) RED(7)
#define SRED(f) VC_CONTRACT(stereo_reduce_##f) { c_reduce<lv::StereoDispMetricsCalculator, lv::StereoDispErrorMetrics>(f, [](std::shared_ptr<lv::StereoDispMetricsCalculator>& c) { return StereoF(c->reduce(), f); }); }
SRED(0) SRED(1) SRED(2) SRED(3) SRED(4) SRED(5)
// disparity error lists
struct Er { const float* v; float margin; };
static unsigned long bad_step(void* p, unsigned long acc, long, long i) { Er& e = *(Er*)p; return acc + (e.v[i] > e.margin ? 1 : 0); }
static unsigned long sum_step(void* p, unsigned long acc, long, long i) { Er& e = *(Er*)p; double x; memcpy(&x, &acc, 8); x += e.v[i]; memcpy(&acc, &x, 8); return acc; }
static unsigned long sqr_step(void* p, unsigned long acc, long, long i) { Er& e = *(Er*)p; double x; memcpy(&x, &acc, 8); x += e.v[i] * e.v[i]; memcpy(&acc, &x, 8); return acc; }
static double dfold(long n) { unsigned long s = vc_fold(0, 0, n); double d; memcpy(&d, &s, 8); return d; }
template<int W> static void c_errors() {
    long n = vc_range<long>("n", 0, 1 << 28);
    std::vector<float>& v = vc_vector<float>("v", n);
    Er e{v.data(), vc_any<float>("margin")};
    vc_fold_def(0, W == 0 ? bad_step : W == 1 ? sum_step : sqr_step, &e, 0, 1, n);
    vc_candidate((void*)inv_red, &e, "vp");
    if(W == 0) vc_assert(vc_same(lv::StereoDispErrorMetrics::CalcPercentBad(v, e.margin), n == 0 ? 0.0 : (double)(((float)(size_t)vc_fold(0, 0, n) / (float)(size_t)n) * 100)), "the bad percentage is the share of errors above the margin");
    if(W == 1) vc_assert(vc_same(lv::StereoDispErrorMetrics::CalcAverage(v), n == 0 ? 0.0 : dfold(n) / (double)(size_t)n), "the average error is the sum over the number");
    if(W == 2) vc_assert(vc_same(lv::StereoDispErrorMetrics::CalcRMS(v), n == 0 ? 0.0 : std::sqrt(dfold(n) / (double)(size_t)n)), "the RMS error is the root of the mean square");
}
VC_CONTRACT(percent_bad) { c_errors<0>(); }
VC_CONTRACT(average_error) { c_errors<1>(); }
VC_CONTRACT(rms_error) { c_errors<2>(); }
// arrays of counters
template<class C, class T> static std::shared_ptr<C> array_acc(std::vector<T>& v, std::vector<std::string>& names) {
    auto p = lv::IIMetricsAccumulator::create<C>();
    memcpy((void*)&p->m_vCounters, (void*)&v, sizeof(v)); memcpy((void*)&p->m_vsStreamNames, (void*)&names, sizeof(names)); new std::shared_ptr<C>(p); // never destroyed
    return p;
}
static bool named(void*, unsigned long v, long, long field) { return field != 1 || (v > 0 && v < 1000); }
typedef lv::BinClassifMetricsArrayAccumulator AA;
static std::vector<std::string>& names(const char* nm, long n) { // n non-empty names
#ifdef VC_VERIFY
    return vc_vector<std::string, uint64_t>(nm, n, named);
#else
    (void)nm; return *new std::vector<std::string>(n, "s");
#endif
}
static void no_assign(std::string*, const std::string*) { vc_unsupported("assignment to a named stream"); }
VC_CONTRACT(array_counters) {
    long n = vc_range<long>("n", 1, 1 << 20);
    std::vector<lv::BinClassif>& a = vc_vector<lv::BinClassif, uint64_t>("a", n), &b = vc_vector<lv::BinClassif, uint64_t>("b", n);
    std::vector<std::string>& na = names("na", n), &nb = names("nb", n);
    vc_replace("basic_string.*::_M_assign", (void*)no_assign);
    Arr x{vc_range<long>("s", 0, 1 << 20), vc_range<long>("f", 0, 5), (const uint64_t*)a.data(), 6, 0, 0}; vc_assume(x.s < n);
    x.was = ((const uint64_t*)a.data())[x.s * 6 + x.f]; x.to = x.was + ((const uint64_t*)b.data())[x.s * 6 + x.f];
    auto pa = array_acc<AA>(a, na), pb = array_acc<AA>(b, nb);
    vc_candidate((void*)inv_arr, &x, "p");
    pa->accumulate(pb);
    vc_assert((long)pa->m_vCounters.size() == n && ((const uint64_t*)pa->m_vCounters.data())[x.s * 6 + x.f] == x.to, "accumulating arrays of counters adds each counter of each stream");
}
struct Rc { const uint64_t* v; int f; };
static unsigned long rc_step(void* p, unsigned long acc, long, long s) { Rc& r = *(Rc*)p; return acc + r.v[s * 6 + r.f]; }
template<int f> static void c_reduce_counters() {
    long n = vc_range<long>("n", 0, 1 << 20);
    std::vector<lv::BinClassif>& a = vc_vector<lv::BinClassif, uint64_t>("a", n);
    std::vector<std::string>& na = names("na", n);
    Rc r{(const uint64_t*)a.data(), f};
    vc_fold_def(0, rc_step, &r, 0, 1, n);
    vc_candidate((void*)inv_red, &r, "vp");
    auto p = array_acc<AA>(a, na);
    auto q = p->reduce();
    vc_assert(((const uint64_t*)&q->m_oCounters)[f] == vc_fold(0, 0, n), "reducing an array of counters adds each counter over the streams");
}
VC_CONTRACT(reduce_counters_0) { c_reduce_counters<0>(); }
VC_CONTRACT(reduce_counters_1) { c_reduce_counters<1>(); }
VC_CONTRACT(reduce_counters_2) { c_reduce_counters<2>(); }
VC_CONTRACT(reduce_counters_3) { c_reduce_counters<3>(); }
VC_CONTRACT(reduce_counters_4) { c_reduce_counters<4>(); }
VC_CONTRACT(reduce_counters_5) { c_reduce_counters<5>(); }
