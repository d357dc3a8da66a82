// OpenCV seen through contracts.  In VC mode the out-of-line members of cv::Mat and of
// the input/output array proxies used by the code under contract get the bodies below:
// these are ASSUMED contracts of OpenCV 4.6 (listed in the evidence).  In replay mode
// the real OpenCV library is linked instead, so a wrong assumption shows up there.
#pragma once
#include "vc.h"
#include <opencv2/core.hpp>
#include <opencv2/imgproc.hpp>
// vc:assume OpenCV 4.6 cv::Mat/_InputArray/_OutputArray out-of-line members (construction, create, copy, clone, setTo, release): bodies assumed in contracts/vccv.h for 2-D matrices
extern "C" void vc_unsupported_opencv(const char*); // no body: reaching it makes the proof fail
// data pointers of the matrices allocated by the code under contract, in order of allocation (for candidate invariants)
static const void* vc_alloc_data[8]; static int vc_nalloc;
#ifdef VC_VERIFY
namespace cv {
static inline int vc_es1(int type) { return CV_ELEM_SIZE1(type); }
static inline void vc_mat_init(Mat& m, int rows, int cols, int type, uchar* data, size_t step) {
    m.flags = Mat::MAGIC_VAL | (type & Mat::TYPE_MASK);
    m.dims = 2; m.rows = rows; m.cols = cols;
    m.data = data; m.datastart = data; m.dataend = 0; m.datalimit = 0;
    m.allocator = (MatAllocator*)(size_t)CV_ELEM_SIZE1(type); m.u = nullptr;
    m.size.p = &m.rows;
    m.step.p = m.step.buf;
    m.step.buf[0] = step; m.step.buf[1] = (size_t)CV_ELEM_SIZE(type);
    if(step == (size_t)cols * CV_ELEM_SIZE(type) || rows == 1) m.flags |= Mat::CONTINUOUS_FLAG;
}
static inline void vc_mat_header(Mat& m, const Mat& o) {
    m.flags = o.flags; m.dims = o.dims; m.rows = o.rows; m.cols = o.cols; m.data = o.data;
    m.datastart = o.datastart; m.dataend = o.dataend; m.datalimit = o.datalimit; m.allocator = o.allocator; m.u = o.u;
    m.size.p = &m.rows; m.step.p = m.step.buf; m.step.buf[0] = o.step.p[0]; m.step.buf[1] = o.step.p[1];
}
static inline void vc_mat_null(Mat& m) {
    m.dims = 0; m.rows = m.cols = 0; m.data = 0; m.datastart = m.dataend = m.datalimit = 0; m.allocator = 0; m.u = 0;
    m.size.p = &m.rows; m.step.p = m.step.buf; m.step.buf[0] = m.step.buf[1] = 0;
}
static inline void vc_mat_alloc(Mat& m, int rows, int cols, int type) {
    type &= Mat::TYPE_MASK;
    int ch = CV_MAT_CN(type), es = CV_ELEM_SIZE1(type);
    long rl = vc_symbol(cols) * ch;
    vc_mat_init(m, rows, cols, type, (uchar*)vc_new2d(es, rows, rl, rl * es), (size_t)(rl * es));
    m.flags |= Mat::CONTINUOUS_FLAG;
    if(vc_nalloc < 8) vc_alloc_data[vc_nalloc++] = m.data;
}
static inline void vc_mat_fill(Mat& m, const Scalar& s) {
    int ch = CV_MAT_CN(m.flags);
    if(m.empty()) return;
    if(m.u == (UMatData*)2) { // one plane of a stack of matrices
        if(CV_MAT_DEPTH(m.flags) != CV_8U) vc_unsupported_opencv("setTo of a stacked matrix");
        for(int c = 1; c < ch; ++c) if(s[c] != s[0]) vc_unsupported_opencv("setTo with different channel values");
        vc_fill_plane(m.data, saturate_cast<uchar>(s[0]), 1); return;
    }
    if(m.u) vc_unsupported_opencv("setTo of a submatrix");
    for(int c = 1; c < ch; ++c) if(s[c] != s[0]) vc_unsupported_opencv("setTo with different channel values");
    switch(CV_MAT_DEPTH(m.flags)) {
        case CV_8U: vc_fill_obj(m.data, saturate_cast<uchar>(s[0]), 1); break;
        case CV_8S: vc_fill_obj(m.data, (uchar)saturate_cast<schar>(s[0]), 1); break;
        case CV_16U: vc_fill_obj(m.data, saturate_cast<ushort>(s[0]), 2); break;
        case CV_16S: vc_fill_obj(m.data, (ushort)saturate_cast<short>(s[0]), 2); break;
        case CV_32S: vc_fill_obj(m.data, (unsigned)saturate_cast<int>(s[0]), 4); break;
        case CV_32F: { float f = (float)s[0]; unsigned u; memcpy(&u, &f, 4); vc_fill_obj(m.data, u, 4); break; }
        case CV_64F: { double f = s[0]; unsigned long u; memcpy(&u, &f, 8); vc_fill_obj(m.data, u, 8); break; }
        default: vc_unsupported_opencv("depth");
    }
}
Mat::Mat() CV_NOEXCEPT : flags(MAGIC_VAL), dims(0), rows(0), cols(0), data(0), datastart(0), dataend(0), datalimit(0), allocator(0), u(0), size(&rows), step(0) {}
Mat::~Mat() {}
Mat::Mat(const Mat& m) : Mat() { vc_mat_header(*this, m); }
Mat::Mat(Mat&& m) : Mat() { vc_mat_header(*this, m); m.flags = MAGIC_VAL; vc_mat_null(m); }
Mat& Mat::operator=(const Mat& m) { if(this != &m) vc_mat_header(*this, m); return *this; }
Mat& Mat::operator=(Mat&& m) { if(this != &m) { vc_mat_header(*this, m); m.flags = MAGIC_VAL; vc_mat_null(m); } return *this; }
Mat::Mat(int r, int c, int t) : Mat() { vc_mat_alloc(*this, r, c, t); }
Mat::Mat(Size s, int t) : Mat() { vc_mat_alloc(*this, s.height, s.width, t); }
Mat::Mat(int r, int c, int t, const Scalar& s) : Mat() { vc_mat_alloc(*this, r, c, t); vc_mat_fill(*this, s); }
Mat::Mat(Size sz, int t, const Scalar& s) : Mat() { vc_mat_alloc(*this, sz.height, sz.width, t); vc_mat_fill(*this, s); }
Mat::Mat(int r, int c, int t, void* d, size_t st) : Mat() { vc_mat_init(*this, r, c, t, (uchar*)d, st == AUTO_STEP ? (size_t)c * CV_ELEM_SIZE(t) : st); }
Mat::Mat(Size s, int t, void* d, size_t st) : Mat() { vc_mat_init(*this, s.height, s.width, t, (uchar*)d, st == AUTO_STEP ? (size_t)s.width * CV_ELEM_SIZE(t) : st); }
// submatrices: dataend/datalimit hold the row and the column (in channel cells) of the submatrix in its allocation
Mat::Mat(const Mat& m, const Rect& r) : Mat() {
    if(r.x < 0 || r.y < 0 || r.width < 0 || r.height < 0 || r.x > m.cols - r.width || r.y > m.rows - r.height) vc_throw();
    vc_mat_header(*this, m);
    long c0 = (long)r.x * CV_MAT_CN(m.flags);
    data = m.data + (long)r.y * (long)m.step.p[0] + c0 * CV_ELEM_SIZE1(m.flags);
    rows = r.height; cols = r.width; flags &= ~CONTINUOUS_FLAG;
    if(rows == 1 || cols == m.cols) flags |= m.flags & CONTINUOUS_FLAG;
    dataend = (uchar*)((size_t)m.dataend + (size_t)r.y); datalimit = (uchar*)((size_t)m.datalimit + (size_t)c0); u = (UMatData*)1;
}
struct vc_rectcopy_t { const uchar *dst, *src; long dr, dc, sr, sc, rows, cells, dstep, sstep; };
static vc_rectcopy_t vc_rectcopy;
template<class T> static unsigned long vc_rectcell(void*, long r, long c) {
    const vc_rectcopy_t& x = vc_rectcopy;
    if(r >= x.dr && r < x.dr + x.rows && c >= x.dc && c < x.dc + x.cells) return *(const T*)(x.src + (r - x.dr + x.sr) * x.sstep + (c - x.dc + x.sc) * (long)sizeof(T));
    return *(const T*)(x.dst + r * x.dstep + c * (long)sizeof(T));
}
static inline void vc_copy_rect(Mat& d, const Mat& s) {
    vc_rectcopy = vc_rectcopy_t{d.datastart, s.datastart, d.u ? (long)d.dataend : 0, d.u ? (long)d.datalimit : 0, s.u ? (long)s.dataend : 0, s.u ? (long)s.datalimit : 0, s.rows, (long)s.cols * CV_MAT_CN(s.flags), (long)d.step.p[0], (long)s.step.p[0]};
    switch((size_t)s.allocator) { // the cell size, kept there by vc_mat_init
        case 1: vc_lazy_obj((void*)d.datastart, vc_rectcell<uint8_t>, nullptr, 1); break;
        case 2: vc_lazy_obj((void*)d.datastart, vc_rectcell<uint16_t>, nullptr, 2); break;
        case 4: vc_lazy_obj((void*)d.datastart, vc_rectcell<uint32_t>, nullptr, 4); break;
        default: vc_unsupported_opencv("submatrix copy of this depth");
    }
}
void Mat::create(int r, int c, int t) {
    t &= TYPE_MASK;
    if(data && dims == 2 && rows == r && cols == c && (flags & TYPE_MASK) == t) return;
    vc_mat_alloc(*this, r, c, t);
}
void Mat::create(Size s, int t) { create(s.height, s.width, t); }
void Mat::release() { flags = MAGIC_VAL | (flags & TYPE_MASK); vc_mat_null(*this); }
bool Mat::empty() const { return data == 0 || rows == 0 || cols == 0 || dims == 0; }
size_t Mat::total() const { return dims == 0 ? 0 : (size_t)rows * (size_t)cols; }
Mat Mat::clone() const { Mat r; if(!empty()) { vc_mat_alloc(r, rows, cols, type()); if(u) vc_copy_rect(r, *this); else vc_copy_obj(r.data, data); } return r; }
Mat& Mat::operator=(const Scalar& s) { vc_mat_fill(*this, s); return *this; }
_InputArray::KindFlag _InputArray::kind() const { return (KindFlag)(flags & KIND_MASK); }
static inline const Mat& vc_inmat(const _InputArray& a) { if(a.kind() != _InputArray::MAT) vc_unsupported_opencv("array kind"); return *(const Mat*)a.getObj(); }
Mat _InputArray::getMat_(int) const { if((flags & KIND_MASK) == NONE) return Mat(); return vc_inmat(*this); }
int _InputArray::type(int) const { return vc_inmat(*this).type(); }
int _InputArray::depth(int) const { return vc_inmat(*this).depth(); }
int _InputArray::channels(int) const { return vc_inmat(*this).channels(); }
int _InputArray::rows(int) const { return vc_inmat(*this).rows; }
int _InputArray::cols(int) const { return vc_inmat(*this).cols; }
int _InputArray::dims(int) const { return vc_inmat(*this).dims; }
Size _InputArray::size(int) const { const Mat& m = vc_inmat(*this); return Size(m.cols, m.rows); }
size_t _InputArray::total(int) const { return vc_inmat(*this).total(); }
bool _InputArray::isContinuous(int) const { return vc_inmat(*this).isContinuous(); }
bool _InputArray::empty() const { if((flags & KIND_MASK) == NONE) return true; return vc_inmat(*this).empty(); }
void _OutputArray::create(Size s, int t, int, bool, DepthMask) const { if((flags & KIND_MASK) != MAT) vc_unsupported_opencv("array kind"); ((Mat*)obj)->create(s, t); }
void _OutputArray::create(int r, int c, int t, int, bool, DepthMask) const { if((flags & KIND_MASK) != MAT) vc_unsupported_opencv("array kind"); ((Mat*)obj)->create(r, c, t); }
bool _OutputArray::needed() const { return (flags & KIND_MASK) != NONE; }
Mat& _OutputArray::getMatRef(int) const { return *(Mat*)obj; }
bool _OutputArray::fixedType() const { return (flags & FIXED_TYPE) == FIXED_TYPE; }
void _OutputArray::release() const { ((Mat*)obj)->release(); }
void Mat::copyTo(OutputArray o) const {
    Mat& d = *(Mat*)o.getObj();
    if(empty()) { d.release(); return; }
    if(&d == this || (d.data == data && d.rows == rows && d.cols == cols)) return;
    d.create(rows, cols, type());
    if(u || d.u) vc_copy_rect(d, *this); else vc_copy_obj(d.data, data);
}
bool MatSize::operator==(const MatSize& o) const CV_NOEXCEPT { return dims() == o.dims() && p[0] == o.p[0] && p[1] == o.p[1]; }
static _InputOutputArray vc_noarray_;
InputOutputArray noArray() { return vc_noarray_; }
}
#endif
// symbolic matrix: rows x cols, ch channels of T, rows stored `step` bytes apart (0: continuous, row-indexed)
template<class T> static inline cv::Mat vc_mat(const char* name, long rows, long cols, int ch = 1, long step = 0) {
#ifdef VC_VERIFY
    long rl = vc_symbol(cols) * ch;
#else
    long rl = cols * ch;
#endif
    long st = step ? step : rl * (long)sizeof(T);
    void* p = vc_array2d(name, sizeof(T), rows, rl, st);
    return cv::Mat((int)rows, (int)cols, CV_MAKETYPE(cv::DataType<T>::depth, ch), p, (size_t)st);
}
// a std::vector of n elements with universally quantified contents (cells of type F, sizeof(T)/sizeof(F) per element); never destroyed
#include <vector>
template<class T, class F = T> static inline std::vector<T>& vc_vector(const char* name, long n, bool (*pred)(void*, unsigned long, long, long) = nullptr, void* ctx = nullptr) {
    F* p = vc_arr<F>(name, n * (long)(sizeof(T) / sizeof(F)));
    if(pred) vc_elem_pred(p, pred, ctx, (int)(sizeof(T) / sizeof(F)));
#ifdef VC_VERIFY
    struct Raw { T* b; T* e; T* c; };
    static_assert(sizeof(Raw) == sizeof(std::vector<T>), "libstdc++ layout");
    Raw* r = (Raw*)new char[sizeof(Raw)];
    r->b = (T*)p; r->e = (T*)p + n; r->c = r->e;
    return *(std::vector<T>*)r;
#else
    return *new std::vector<T>((T*)p, (T*)p + n);
#endif
}
// a std::vector of n matrices of the same size and type, contents over one stack of planes (vc_array3d); headers are read-only
template<class T> struct vc_stack_t { std::vector<cv::Mat>* v; T *data, *init; long plane; }; // init: unmodified copy of the initial contents
template<class T> static inline vc_stack_t<T> vc_stack(const char* name, long n, long rows, long cols, int ch = 1) {
    vc_stack_t<T> r;
#ifdef VC_VERIFY
    long rl = cols * ch, st = rl * (long)sizeof(T), pl = vc_fresh(1, 1l << 48);
    r.init = (T*)vc_array3d(name, sizeof(T), n, rows, rl, st, pl);
    r.data = (T*)vc_array3d(nullptr, sizeof(T), n, rows, rl, st, pl);
    r.plane = pl / (long)sizeof(T);
    static_assert(sizeof(T) == 1, "planes of bytes");
    vc_copy_obj(r.data, r.init);
    void* h = vc_records(sizeof(cv::Mat), n);
    static_assert(sizeof(cv::Mat) == 96, "cv::Mat layout");
    vc_record_val(h, 0, cv::Mat::MAGIC_VAL | cv::Mat::CONTINUOUS_FLAG | CV_MAKETYPE(cv::DataType<T>::depth, ch), 4); vc_record_val(h, 4, 2, 4);
    vc_record_val(h, 8, rows, 4); vc_record_val(h, 12, cols, 4);
    vc_record_ptr(h, 16, r.data, pl); vc_record_ptr(h, 24, r.data, pl); vc_record_val(h, 32, 0, 8); vc_record_val(h, 40, 0, 8);
    vc_record_val(h, 48, 0, 8); vc_record_val(h, 56, 2, 8);
    vc_record_self(h, 64, 8); vc_record_self(h, 72, 80); vc_record_val(h, 80, st, 8); vc_record_val(h, 88, ch * (long)sizeof(T), 8);
    struct Raw { cv::Mat *b, *e, *c; };
    Raw* raw = (Raw*)new char[sizeof(Raw)];
    raw->b = (cv::Mat*)h; raw->e = (cv::Mat*)((char*)h + n * (long)sizeof(cv::Mat)); raw->c = raw->e;
    r.v = (std::vector<cv::Mat>*)raw;
#else
    r.plane = rows * cols * ch;
    r.init = (T*)vc_array3d(name, sizeof(T), n, rows, cols * ch, 0, 0);
    r.data = (T*)vc_array3d(nullptr, sizeof(T), n, rows, cols * ch, 0, 0);
    for(long i = 0; i < n * r.plane; ++i) r.data[i] = r.init[i];
    r.v = new std::vector<cv::Mat>();
    for(long i = 0; i < n; ++i) r.v->push_back(cv::Mat((int)rows, (int)cols, CV_MAKETYPE(cv::DataType<T>::depth, ch), r.data + i * r.plane));
#endif
    return r;
}
