#include "common.h"
#include "templates/atomic.h"
#define EACH(T, N, D) \
T a_load_##N(const Atomic<T> & a) { return a.load(); } \
T a_loadOrd_##N(const Atomic<T> & a, PlatformAtomics::AtomicOrder o) { return a.load(o); } \
T a_conv_##N(const Atomic<T> & a) { T v = a; return v; } \
void a_store_##N(Atomic<T> & a, T v) { a.store(v); } \
void a_storeOrd_##N(Atomic<T> & a, T v, PlatformAtomics::AtomicOrder o) { a.store(v, o); } \
T a_assign_##N(Atomic<T> & a, T v) { return a = v; } \
T a_preInc_##N(Atomic<T> & a) { return ++a; } \
T a_postInc_##N(Atomic<T> & a) { return a++; } \
T a_preDec_##N(Atomic<T> & a) { return --a; } \
T a_postDec_##N(Atomic<T> & a) { return a--; } \
T a_add_##N(Atomic<T> & a, D v) { return a += v; } \
T a_sub_##N(Atomic<T> & a, D v) { return a -= v; } \
void a_ctor_##N(void * p, T v) { new (p) Atomic<T>{v}; } \
T p_read_##N(T volatile * a) { return PlatformAtomics::read(a); } \
T p_readRlx_##N(T volatile * a) { return PlatformAtomics::read<PlatformAtomics::Relaxed>(a); } \
void p_store_##N(T volatile * a, T v) { PlatformAtomics::store(a, v); } \
void p_storeRlx_##N(T volatile * a, T v) { PlatformAtomics::store<PlatformAtomics::Relaxed>(a, v); } \
T p_add_##N(T volatile * a, D v) { return PlatformAtomics::add(a, v); } \
T p_sub_##N(T volatile * a, D v) { return PlatformAtomics::sub(a, v); } \
T p_exchange_##N(T volatile * a, T v) { return PlatformAtomics::exchange(a, v); } \
K(at_##N, sizeof(Atomic<T>));
struct Wide { uint64 w[3]; };
extern "C" {
EACH(uint64, u64, uint64)
EACH(int64, i64, int64)
EACH(uint32, u32, uint32)
EACH(int32, i32, int32)
EACH(uint16, u16, uint16)
EACH(ubyte, u8, ubyte)
EACH(uint64 *, p8, intp)
EACH(ubyte *, p1, intp)
EACH(Wide *, p24, intp)
EACH(const uint32 *, pc4, intp)
K(seq, PlatformAtomics::Sequential); K(rlx, PlatformAtomics::Relaxed);
}
