// Assumed contracts of the OpenCV matrix expressions and element-wise operations used by the code under contract
// (comparison with a scalar, and/or/not of 8-bit matrices, masked setTo, integral images), single channel, 2-D.
#pragma once
#include "vccv.h"
// vc:assume cv::MatExpr comparisons and bit operations, cv::bitwise_and/or/not, masked cv::Mat::setTo: element-wise meaning assumed (contracts/vcexpr.h)
#ifdef VC_VERIFY
namespace cv {
enum { VC_NOT = 100, VC_AND, VC_OR };
struct vc_ew_t { const uchar *a, *b; long as, bs; double s; int code; };
static vc_ew_t vc_ew;
template<class T> static unsigned long vc_cmpcell(void*, long r, long c) {
    T v = *(const T*)(vc_ew.a + r * vc_ew.as + c * (long)sizeof(T));
    bool x = false;
    if(std::is_floating_point<T>::value) { T s = (T)vc_ew.s; x = vc_ew.code == CMP_EQ ? v == s : vc_ew.code == CMP_NE ? !(v == s) : vc_ew.code == CMP_GE ? v >= s : vc_ew.code == CMP_GT ? v > s : vc_ew.code == CMP_LE ? v <= s : v < s; }
    else { long s = (long)vc_ew.s, w = (long)v; x = vc_ew.code == CMP_EQ ? w == s : vc_ew.code == CMP_NE ? w != s : vc_ew.code == CMP_GE ? w >= s : vc_ew.code == CMP_GT ? w > s : vc_ew.code == CMP_LE ? w <= s : w < s; }
    return x ? 255 : 0;
}
static unsigned long vc_bitcell(void*, long r, long c) {
    uchar v = vc_ew.a[r * vc_ew.as + c];
    if(vc_ew.code == VC_NOT) return (uchar)~v;
    uchar w = vc_ew.b[r * vc_ew.bs + c];
    return vc_ew.code == VC_AND ? v & w : v | w;
}
template<class T> static unsigned long vc_setcell(void*, long r, long c) { // a: matrix, b: mask
    T v = *(const T*)(vc_ew.a + r * vc_ew.as + c * (long)sizeof(T));
    return vc_ew.b[r * vc_ew.bs + c] ? (unsigned long)(T)(long)vc_ew.s : (unsigned long)(typename std::make_unsigned<T>::type)v;
}
static inline void vc_chk(const Mat& m) { if(m.u || m.channels() != 1 || m.dims != 2) vc_unsupported_opencv("element-wise operation on this kind of matrix"); }
static inline void vc_compare(const Mat& a, double s, int code, Mat& out) {
    vc_chk(a); Mat m; m.create(a.rows, a.cols, CV_8UC1);
    vc_ew = vc_ew_t{a.data, nullptr, (long)a.step.p[0], 0, s, code};
    switch(a.depth()) {
        case CV_8U: vc_lazy_obj(m.data, vc_cmpcell<uint8_t>, nullptr, 1); break;
        case CV_8S: vc_lazy_obj(m.data, vc_cmpcell<int8_t>, nullptr, 1); break;
        case CV_16U: vc_lazy_obj(m.data, vc_cmpcell<uint16_t>, nullptr, 1); break;
        case CV_16S: vc_lazy_obj(m.data, vc_cmpcell<int16_t>, nullptr, 1); break;
        case CV_32S: vc_lazy_obj(m.data, vc_cmpcell<int32_t>, nullptr, 1); break;
        case CV_32F: vc_lazy_obj(m.data, vc_cmpcell<float>, nullptr, 1); break;
        default: vc_unsupported_opencv("comparison depth");
    }
    out = m;
}
static inline void vc_bitop(const Mat& a, const Mat& b, int code, Mat& out) {
    vc_chk(a); if(a.type() != CV_8UC1) vc_unsupported_opencv("bit operation depth");
    if(code != VC_NOT) { vc_chk(b); if(b.type() != a.type() || b.rows != a.rows || b.cols != a.cols) vc_throw(); }
    out.create(a.rows, a.cols, CV_8UC1);
    vc_ew = vc_ew_t{a.data, b.data, (long)a.step.p[0], (long)b.step.p[0], 0, code};
    vc_lazy_obj(out.data, vc_bitcell, nullptr, 1);
}
struct vc_matop : MatOp {
    void assign(const MatExpr& e, Mat& m, int type) const override {
        if(type != -1 && type != CV_8UC1) vc_unsupported_opencv("expression type");
        if(e.flags >= VC_NOT) { Mat t; vc_bitop(e.a, e.b, e.flags, t); m = t; }
        else vc_compare(e.a, e.alpha, e.flags, m);
    }
};
MatOp::MatOp() {}
MatOp::~MatOp() {}
static vc_matop* vc_newop() { return new vc_matop; }
MatExpr operator==(const Mat& a, double s) { return MatExpr(vc_newop(), CMP_EQ, a, Mat(), Mat(), s); }
MatExpr operator!=(const Mat& a, double s) { return MatExpr(vc_newop(), CMP_NE, a, Mat(), Mat(), s); }
MatExpr operator>=(const Mat& a, double s) { return MatExpr(vc_newop(), CMP_GE, a, Mat(), Mat(), s); }
MatExpr operator<=(const Mat& a, double s) { return MatExpr(vc_newop(), CMP_LE, a, Mat(), Mat(), s); }
MatExpr operator>(const Mat& a, double s) { return MatExpr(vc_newop(), CMP_GT, a, Mat(), Mat(), s); }
MatExpr operator<(const Mat& a, double s) { return MatExpr(vc_newop(), CMP_LT, a, Mat(), Mat(), s); }
MatExpr operator&(const Mat& a, const Mat& b) { return MatExpr(vc_newop(), VC_AND, a, b); }
MatExpr operator|(const Mat& a, const Mat& b) { return MatExpr(vc_newop(), VC_OR, a, b); }
MatExpr operator~(const Mat& a) { return MatExpr(vc_newop(), VC_NOT, a); }
_InputArray::_InputArray(const MatExpr& e) { flags = FIXED_TYPE + FIXED_SIZE + MAT + ACCESS_READ; obj = new Mat(e); } // (OpenCV keeps the matrix alive for the call)
void bitwise_and(InputArray a, InputArray b, OutputArray o, InputArray) { vc_bitop(a.getMat(), b.getMat(), VC_AND, *(Mat*)o.getObj()); }
void bitwise_or(InputArray a, InputArray b, OutputArray o, InputArray) { vc_bitop(a.getMat(), b.getMat(), VC_OR, *(Mat*)o.getObj()); }
void bitwise_not(InputArray a, OutputArray o, InputArray) { vc_bitop(a.getMat(), Mat(), VC_NOT, *(Mat*)o.getObj()); }
Mat& Mat::setTo(InputArray v, InputArray mk) {
    double s;
    if((v.getFlags() & _InputArray::KIND_MASK) == _InputArray::MATX && v.getSz().height >= 1) s = *(const double*)v.getObj(); // double or Scalar
    else { vc_unsupported_opencv("setTo value"); s = 0; }
    if(mk.empty()) { vc_mat_fill(*this, Scalar::all(s)); return *this; }
    Mat m = mk.getMat(); vc_chk(*this); vc_chk(m);
    if(m.type() != CV_8UC1 || m.rows != rows || m.cols != cols) vc_throw();
    vc_ew = vc_ew_t{data, m.data, (long)step.p[0], (long)m.step.p[0], s, 0};
    switch(depth()) {
        case CV_8U: vc_lazy_obj(data, vc_setcell<uint8_t>, nullptr, 1); break;
        case CV_16U: vc_lazy_obj(data, vc_setcell<uint16_t>, nullptr, 2); break;
        case CV_32S: vc_lazy_obj(data, vc_setcell<int32_t>, nullptr, 4); break;
        default: vc_unsupported_opencv("masked setTo depth");
    }
    return *this;
}
}
#endif
