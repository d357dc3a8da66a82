// Contract language of the verifier (see DESIGN.md).  Each VC_CONTRACT function is a
// contract of the real code it calls: vc_any/vc_range = universally quantified inputs,
// vc_assume = requires, vc_assert = ensures.  VC mode: the vc_* primitives stay
// undefined and are interpreted by the VC generator.  Replay mode (VC_REPLAY): they
// are defined by runtime.cpp, which feeds concrete values.
#pragma once
#include <cstdint>
#include <cstring>
#include <cstddef>
#include <type_traits>
extern "C" {
long vc_int(const char* name, int bits, long lo, long hi);
unsigned long vc_bits(const char* name, int bits);
void vc_assume(int c);
void vc_assert(int c, const char* label);
void vc_cover(const char* label);
void vc_lemma(int c); // inside specification functions: a fact proved by another contract
void vc_option(const char* name, int v);
void vc_allow_throw(int v);
void vc_fp_ieee(int v);
void* vc_array(const char* name, int es, long n);
void* vc_array2d(const char* name, int es, long rows, long rowelems, long step);
void* vc_new2d(int es, long rows, long rowelems, long step);
void* vc_array3d(const char* name, int es, long planes, long rows, long rowelems, long step, long plane); // name == nullptr: uninitialised
void vc_fill_plane(void* p, unsigned long v, int es);
void* vc_records(int size, long n);
void vc_record_val(void* p, int off, long v, int bytes);
void vc_record_ptr(void* p, int off, void* target, long bytes_per_record);
void vc_record_self(void* p, int off, long delta);
void vc_elem_range(void* p, long lo, long hi);
void vc_elem_pred(void* p, bool (*f)(void*, unsigned long v, long row, long col), void* ctx, int fields); // fields > 1: array of records, row = record, col = field
long vc_fresh(long lo, long hi);
long vc_symbol(long v);
unsigned long vc_fresh_bits(int bits);
void vc_havoc_obj(void* p);
void vc_copy_obj(void* d, const void* s);
void vc_fill_obj(void* d, unsigned long v, int es);
void vc_lazy_obj(void* d, unsigned long (*f)(void*, long, long), void* ctx, int es);
void vc_candidate_alt(void* fn, void* ctx, const char* sig); // used only when the contract is not proved without (other iteration orders)
void vc_candidate(void* fn, void* ctx, const char* sig); // v: scalar loop value, p: counter of this or an enclosing loop, k: one counter per loop level (outer first), e: cell of a modified array
void vc_clear_candidates();
void vc_replace(const char* rx, void* fn);
void vc_fold_def(int id, unsigned long (*step)(void*, unsigned long, long, long), void* ctx, unsigned long init, long rows, long cols);
unsigned long vc_fold(int id, long i, long j);
void vc_throw();
void* vc_heap_of(long bytes); // candidates only: the latest live heap block of that (constant) size
unsigned long vc_uf1(const char* name, unsigned long a); // verification mode only: uninterpreted function
unsigned long vc_uf2(const char* name, unsigned long a, unsigned long b);
int vc_live_heap();
int vc_isalive(const void* p);
int vc_extent_ok(const void* p, long n);
}
#ifdef VC_REPLAY
void vc_register(const char* name, void (*f)());
struct vc_reg_ { vc_reg_(const char* n, void (*f)()) { vc_register(n, f); } };
#define VC_CONTRACT(name) static void vc_contract_##name(); static vc_reg_ vc_reg_##name(#name, &vc_contract_##name); static void vc_contract_##name()
#else
#define VC_CONTRACT(name) extern "C" __attribute__((noinline, used)) void vc_contract_##name()
#endif
template<class T> static inline T vc_any(const char* n) {
    if(std::is_same<T, bool>::value) { unsigned long b = vc_bits(n, 8); vc_assume(b <= 1); return T(b & 1); }
    unsigned long b = vc_bits(n, int(sizeof(T) * 8));
    T r; std::memcpy(&r, &b, sizeof(T)); return r;
}
template<class T> static inline T vc_range(const char* n, long lo, long hi) { return (T)vc_int(n, int(sizeof(T) * 8), lo, hi); }
template<class T> static inline T* vc_arr(const char* n, long count) { return (T*)vc_array(n, int(sizeof(T)), count); }
// bitwise equality, so NaNs compare equal to themselves
template<class T> static inline bool vc_same(T a, T b) { return std::memcmp(&a, &b, sizeof(T)) == 0; }
// reached only if the assumed contract does not cover the case: the proof fails
static inline void vc_unsupported(const char* what) { vc_assert(0, what); }
