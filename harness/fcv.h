// Contract harness vocabulary.  The same text is (a) executed symbolically by the verifier (FCV_SYM)
// and (b) compiled natively together with the real sources for counterexample replay and search.
#ifndef FCV_H
#define FCV_H
#include <stdint.h>
#include <stddef.h>
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64; typedef int32_t i32; typedef int64_t i64;
extern "C" {
u8 fcv_u8(const char*); u16 fcv_u16(const char*); u32 fcv_u32(const char*); u64 fcv_u64(const char*);
i32 fcv_i32(const char*); i64 fcv_i64(const char*); bool fcv_bool(const char*);
float fcv_float(const char*); double fcv_double(const char*); float fcv_angle(const char*);
u64 fcv_len(const char*, u64 max);           // arbitrary length (unbounded for the verifier; up to max when searching natively)
u32 fcv_small(const char*, u32 lo, u32 hi);  // small selector, always enumerated completely
void* fcv_arr(const char*, u64 n, u32 esz, u32 kind);
void fcv_assume(bool); void fcv_check(bool, const char*); void fcv_cover(const char*);
void fcv_axiom(bool, const char*);           // a fact of mathematics the verifier may use (reported as an assumption); no effect natively
u64 fcv_sk(u64 lo, u64 hi);
void fcv_assume_all(u64 lo, u64 hi, bool (*fn)(const void*, u64), const void* ctx);
u8 fcv_fold_u8(u8 (*)(u8,const void*,u64), u8, const void*, u64);
u32 fcv_fold_u32(u32 (*)(u32,const void*,u64), u32, const void*, u64);
u64 fcv_fold_u64(u64 (*)(u64,const void*,u64), u64, const void*, u64);
i32 fcv_fold_i32(i32 (*)(i32,const void*,u64), i32, const void*, u64);
float fcv_fold_float(float (*)(float,const void*,u64), float, const void*, u64);
double fcv_fold_double(double (*)(double,const void*,u64), double, const void*, u64);
u64 fcv_live(); u64 fcv_objsize(const void*); bool fcv_valid(const void*);
}
static inline char* fcv_text(const char* name, u64 n) { return (char*) fcv_arr(name, n, 1, 2); }
static inline u8* fcv_bytes(const char* name, u64 n) { return (u8*) fcv_arr(name, n, 1, 0); }
static inline u32* fcv_u32s(const char* name, u64 n) { return (u32*) fcv_arr(name, n, 4, 0); }
static inline float* fcv_floats(const char* name, u64 n) { return (float*) fcv_arr(name, n, 4, 1); }
#ifdef FCV_SYM
template <class F> static inline void fcv_forall(u64 lo, u64 hi, F f) { if (lo < hi) f(fcv_sk(lo, hi)); }
#define FCV_NATIVE 0
#define FCV_UNIT(name, opts) extern "C" void fcv_unit_##name()
#else
template <class F> static inline void fcv_forall(u64 lo, u64 hi, F f) { for (u64 k = lo; k < hi; ++k) f(k); }
#define FCV_NATIVE 1
struct FcvReg { FcvReg(const char*, void (*)()); };
#define FCV_UNIT(name, opts) extern "C" void fcv_unit_##name(); static FcvReg fcv_reg_##name(#name, &fcv_unit_##name); extern "C" void fcv_unit_##name()
#endif
// real-number comparison: exact for the verifier, tolerant natively
#ifdef FCV_SYM
static inline bool fcv_same(double a, double b, double) { return a == b; }
#else
bool fcv_same(double a, double b, double scale);
#endif
#endif
