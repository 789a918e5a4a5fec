#include "common.h"
#include "hal/malloc_ansi.h"
#include "hal/malloc_pool.h"
#include "hal/malloc_binned.h"
extern "C" void k_val(uint64 tag, uint64 v);
/// a block the caller may now use: all of its bytes are overwritten with unknown values
extern "C" void k_blk(void * p, uint64 size, uint64 align);
/// the caller gives up the block
extern "C" void k_end(void * p);
/// null or a valid block
extern "C" void k_try(void * p, uint64 size, uint64 align);
/// number of blocks the system was asked for
extern "C" uint64 k_sys();
/// any of 0 .. n - 1
extern "C" uint64 k_choose(uint64 n);
#define SCN(name) extern "C" void s_##name
#define NUL(tag, p) k_val(tag, (p) == nullptr)

/// MemoryPool
template<uint32 N, uint32 S, uint32 A> static inline void drain(MemoryPool & p)
{
	void * b[N];
	k_val(1, p.getNumFreeBlocks());
	for (uint32 i = 0; i < N; ++i) { k_val(2, p.isExhausted()); b[i] = p.acquireBlock(); k_blk(b[i], S, A); k_val(3, p.getNumFreeBlocks()); k_val(4, p.hasBlock(b[i])); }
	k_val(5, p.isExhausted());
	NUL(6, p.acquireBlock());
	k_val(7, p.getNumFreeBlocks());
	uint32 r = k_choose(N);
	for (uint32 i = 0; i < N; ++i) { uint32 j = (i + r) % N; k_end(b[j]); p.releaseBlock(b[j]); k_val(8, p.getNumFreeBlocks()); k_val(9, p.isExhausted()); }
	for (uint32 i = 0; i < N; ++i) { b[i] = p.acquireBlock(); k_blk(b[i], S, A); }
	k_val(10, p.isExhausted());
	NUL(11, p.acquireBlock());
	uint32 c = k_choose(N);
	k_end(b[c]); p.releaseBlock(b[c]);
	b[c] = p.acquireBlock(); k_blk(b[c], S, A);
	NUL(12, p.acquireBlock());
}
#define POOL(N, S, A)\
	SCN(pool_##N##_##S##_##A)() { MemoryPool p{N, S, A}; drain<N, S, A>(p); }\
	SCN(poolbuf_##N##_##S##_##A)(void * buf) { MemoryPool p{N, S, A, buf}; drain<N, S, A>(p); }
POOL(1, 8, 8) POOL(1, 1, 1) POOL(2, 5, 1) POOL(2, 24, 8) POOL(3, 12, 4) POOL(3, 16, 16) POOL(3, 8, 64) POOL(4, 40, 32) POOL(2, 64, 64) POOL(3, 100, 8) POOL(2, 7, 2)
SCN(pooldef)() { MemoryPool p{2, 24}; drain<2, 24, 8>(p); }
SCN(pool0)() { MemoryPool p{0, 8, 8}; k_val(1, p.getNumFreeBlocks()); k_val(2, p.isExhausted()); NUL(3, p.acquireBlock()); }
SCN(poolfail)() { MemoryPool p{2, 8, 8}; k_val(1, p.getNumFreeBlocks()); k_val(2, p.isExhausted()); NUL(3, p.acquireBlock()); }
SCN(poolforeign)(void * other) { MemoryPool p{2, 8, 8}, q{2, 8, 8}; void * b = p.acquireBlock(); k_val(1, p.hasBlock(b)); k_val(2, q.hasBlock(b)); k_val(3, p.hasBlock(other)); }

/// MallocPool
template<uint32 S, uint32 A> static inline void three(MallocBase & m)
{
	void * a = m.alloc(S, A); k_blk(a, S, A);
	void * b = m.alloc(1, 1); k_blk(b, S, A);
	NUL(1, m.alloc(S + 1, A)); for (uint32 al = A < 8 ? 16 : 2 * A; al <= 1024; al *= 2) { NUL(2, m.alloc(1, al)); NUL(9, m.realloc(a, S, al)); } NUL(3, m.alloc(S + 1000, 256));
	void * c = m.alloc(S, A); k_blk(c, S, A);
	NUL(4, m.alloc(S, A)); NUL(5, m.alloc(1, 1));
	k_val(6, m.realloc(a, S, A) == a); k_val(7, m.realloc(b, 1, 1) == b);
	NUL(8, m.realloc(a, S + 1, A)); NUL(9, m.realloc(b, S, 128));
	NUL(10, m.alloc(S, A));
	void * v[] = {a, b, c};
	uint64 i = k_choose(3), j = k_choose(2);
	k_end(v[i]); m.free(v[i]);
	j = (i + 1 + j) % 3;
	k_end(v[j]); m.free(v[j]);
	v[i] = m.alloc(S, A); k_blk(v[i], S, A);
	v[j] = m.alloc(S, A); k_blk(v[j], S, A);
	NUL(11, m.alloc(S, A));
	for (i = 0; i < 3; ++i) { k_end(v[i]); m.free(v[i]); }
}
SCN(mpool_16_8)() { MallocPool m{3, 16, 8}; three<16, 8>(m); }
SCN(mpool_24_64)() { MallocPool m{3, 24, 64}; three<24, 64>(m); }
SCN(mpool_5_1)() { MallocPool m{3, 5, 1}; three<5, 1>(m); }
SCN(mpool_def)() { MallocPool m{3, 32}; three<32, 8>(m); }
SCN(mpool_buf)(void * buf) { MallocPool m{3, 16, 8, buf}; three<16, 8>(m); }
SCN(minline)() { MallocPoolInline<3, 16, 32> m; three<16, 32>(m); }
SCN(minline_buf)(void * buf) { MallocPoolInline<3, 16, 32> m{buf}; three<16, 32>(m); }
SCN(mpool_fail)() { MallocPool m{3, 16, 8}; NUL(1, m.alloc(16, 8)); }
SCN(mpool_foreign)() { MallocPool m{1, 16, 8}, n{1, 16, 8}; void * a = m.alloc(16, 8), * b = n.alloc(16, 8); n.free(a); NUL(1, n.alloc(16, 8)); k_val(2, n.realloc(b, 8, 8) == b); n.free(nullptr); NUL(3, n.alloc(16, 8)); }

/// MallocPooled
template<uint32 N, uint32 S, uint32 A, uint32 I> static inline void pooled(uint32 rounds)
{
	MallocPooled m{N, S, A, I};
	void * b[8];
	k_val(1, m.getNumPools());
	const uint32 n = N * rounds;
	for (uint32 i = 0; i < n; ++i) { b[i] = m.alloc(S, A); k_blk(b[i], S, A); k_val(2, m.hasBlock(b[i])); }
	k_val(3, m.getNumPools());
	uint32 c = k_choose(n);
	k_end(b[c]); m.free(b[c]);
	b[c] = m.alloc(1, 1); k_blk(b[c], S, A);
	k_val(4, m.getNumPools());
	c = k_choose(n);
	uint32 d = (c + 1) % n;
	k_end(b[c]); m.free(b[c]); k_end(b[d]); m.free(b[d]);
	b[c] = m.alloc(S, A); k_blk(b[c], S, A);
	b[d] = m.alloc(S, A); k_blk(b[d], S, A);
	k_val(5, m.getNumPools());
}
#define POOLED(N, S, A, I, R) SCN(pooled_##N##_##S##_##A##_##I)() { pooled<N, S, A, I>(R); }
POOLED(1, 8, 8, 1, 2) POOLED(1, 8, 8, 0, 3) POOLED(2, 5, 1, 1, 2) POOLED(2, 24, 16, 1, 2) POOLED(1, 16, 64, 2, 2) POOLED(3, 12, 4, 0, 1) POOLED(2, 32, 8, 2, 1) 
template<uint32 K> static inline void deep()
{
	MallocPooled m{1, 8, 8, 1};
	void * b[K];
	for (uint32 i = 0; i < K; ++i) { b[i] = m.alloc(8, 8); k_blk(b[i], 8, 8); }
	k_val(1, m.getNumPools());
	uint32 c = k_choose(K);
	k_val(2, m.hasBlock(b[c]));
	k_end(b[c]); m.free(b[c]);
	b[c] = m.alloc(8, 8); k_blk(b[c], 8, 8);
	k_val(3, m.getNumPools());
}
SCN(pooled_deep4)() { deep<4>(); }
SCN(pooled_limits)(void * other)
{
	MallocPooled m{2, 16, 8, 1};
	NUL(1, m.alloc(17, 8)); NUL(2, m.alloc(8, 64)); k_val(3, m.getNumPools());
	void * a = m.alloc(16, 8); k_blk(a, 16, 8);
	k_val(4, m.realloc(a, 16, 8) == a); k_val(5, m.realloc(a, 1, 1) == a); NUL(6, m.realloc(a, 17, 8)); NUL(7, m.realloc(a, 8, 64));
	void * b = m.alloc(16, 8); k_blk(b, 16, 8);
	k_val(8, m.getNumPools()); k_val(9, m.hasBlock(other));
	m.free(other); NUL(10, nullptr);
	void * c = m.alloc(16, 8); k_blk(c, 16, 8); k_val(11, m.getNumPools()); k_val(12, m.hasBlock(other));
}
SCN(pooled_default)() { MallocPooled m; k_val(1, m.getNumPools()); NUL(2, m.alloc(513)); NUL(3, m.alloc(8, 32)); }
SCN(pooled_growfail)() { MallocPooled m{1, 8, 8, 1}; void * a = m.alloc(8, 8); k_blk(a, 8, 8); NUL(1, m.alloc(8, 8)); k_val(2, m.getNumPools()); k_end(a); m.free(a); a = m.alloc(8, 8); k_blk(a, 8, 8); void * b = m.alloc(8, 8); k_blk(b, 8, 8); k_val(3, m.getNumPools()); }
SCN(pooled_nomem)() { MallocPooled m{1, 8, 8, 1}; k_val(1, m.getNumPools()); NUL(2, m.alloc(8, 8)); void * b = m.alloc(8, 8); k_blk(b, 8, 8); k_val(3, m.getNumPools()); }
SCN(pooled_zero)() { MallocPooled m{2, 8, 8, 0}; k_val(1, m.getNumPools()); }

/// MallocBinned
static inline const MallocBinned::BucketInfo info2() { return MallocBinned::BucketInfo{64, 8, 64, 2}; }
SCN(binned_sizes)()
{
	MallocBinned m{info2()};
	for (uint32 s = 1; s <= 32; ++s) { void * p = m.alloc(s); k_blk(p, s, 8); k_end(p); m.free(p); }
	NUL(1, m.alloc(65)); NUL(2, m.alloc(1000)); NUL(3, m.alloc(8, 64));
}
SCN(binned_edge33)() { MallocBinned m{info2()}; void * p = m.alloc(33); k_try(p, 33, 8); }
SCN(binned_edge64)() { MallocBinned m{info2()}; void * p = m.alloc(64); k_try(p, 64, 8); }
SCN(binned_reuse)()
{
	MallocBinned m{info2()};
	void * b[4];
	for (uint32 i = 0; i < 4; ++i) { b[i] = m.alloc(16); k_blk(b[i], 16, 8); }
	uint64 n = k_sys(), c = k_choose(4);
	k_end(b[c]); m.free(b[c]);
	b[c] = m.alloc(13); k_blk(b[c], 16, 8);
	k_val(1, k_sys() - n);
	k_end(b[c]); m.free(b[c]); k_end(b[0]);
	void * q = m.realloc(c ? b[0] : b[1], 32); k_blk(q, 32, 8);
	b[0] = m.alloc(16); b[1] = m.alloc(16); k_val(2, b[0] == nullptr); k_val(3, k_sys() - n);
}
SCN(binned_align)() { MallocBinned m{info2(), 32}; void * p = m.alloc(8, 32); k_blk(p, 8, 32); void * q = m.alloc(17, 32); k_blk(q, 17, 32); NUL(1, m.alloc(8, 64)); }
SCN(binned_sizes4)() { MallocBinned m{MallocBinned::BucketInfo{256, 4, 256, 4}, 16}; const uint32 sz[] = {1, 2, 3, 4, 5, 8, 15, 16, 17, 31, 33, 63, 64}; for (uint32 s : sz) { void * p = m.alloc(s, 16); k_blk(p, s, 16); k_end(p); m.free(p); } NUL(1, m.alloc(257)); }
SCN(binned_sizes16)() { MallocBinned m{MallocBinned::BucketInfo{64, 16, 64, 2}}; for (uint32 s = 1; s <= 32; ++s) { void * p = m.alloc(s); k_blk(p, s, 8); k_end(p); m.free(p); } }
SCN(binned_live)() { MallocBinned m{info2()}; void * a = m.alloc(8); k_blk(a, 8, 8); void * b = m.alloc(9); k_blk(b, 9, 8); void * c = m.alloc(32); k_blk(c, 32, 8); void * d = m.alloc(20); k_blk(d, 20, 8); void * e = m.alloc(30); k_blk(e, 30, 8); k_end(c); m.free(c); void * f = m.alloc(32); k_blk(f, 32, 8); }
template<uint32 S, uint32 T> static inline void regrow(uint64 x, uint64 y)
{
	MallocBinned m{info2()};
	uint64 * p = (uint64*)m.alloc(S); k_blk(p, S, 8);
	p[0] = x; if (S >= 16) p[1] = y;
	k_end(p);
	uint64 * q = (uint64*)m.realloc(p, T);
	k_val(1, q[0]); if (S >= 16 && T >= 16) k_val(2, q[1]);
	k_blk(q, T, 8);
	void * r = m.alloc(S); k_blk(r, S, 8);
}
SCN(binned_grow_8_16)(uint64 x, uint64 y) { regrow<8, 16>(x, y); }
SCN(binned_grow_8_32)(uint64 x, uint64 y) { regrow<8, 32>(x, y); }
SCN(binned_grow_16_32)(uint64 x, uint64 y) { regrow<16, 32>(x, y); }
SCN(binned_grow_16_20)(uint64 x, uint64 y) { regrow<16, 20>(x, y); }
SCN(binned_same_20_32)(uint64 x, uint64 y) { regrow<20, 32>(x, y); }
SCN(binned_shrink_32_16)(uint64 x, uint64 y) { regrow<32, 16>(x, y); }
SCN(binned_shrink_32_8)(uint64 x, uint64 y) { regrow<32, 8>(x, y); }
SCN(binned_renull)() { MallocBinned m{info2()}; void * p = m.realloc(nullptr, 16); k_blk(p, 16, 8); NUL(1, m.realloc(p, 65)); void * q = m.alloc(16); k_blk(q, 16, 8); }
SCN(binned_drop)() { MallocBase * m = new MallocBinned{info2()}; void * p = m->alloc(16); k_blk(p, 16, 8); delete m; }
SCN(pooled_drop)() { MallocBase * m = new MallocPooled{2, 8, 8, 1}; void * p = m->alloc(8); k_blk(p, 8, 8); delete m; }
SCN(mpool_drop)() { MallocBase * m = new MallocPool{2, 8, 8}; void * p = m->alloc(8); k_blk(p, 8, 8); delete m; }

/// MallocAnsi, MallocObject
extern "C" void * a_alloc(uint64 size, uint64 align) { MallocAnsi m; return m.alloc(size, align); }
extern "C" void * a_galloc(uint64 size) { return gMalloc->alloc(size); }
extern "C" void * a_realloc(void * orig, uint64 size, uint64 align) { MallocAnsi m; return m.realloc(orig, size, align); }
extern "C" void a_free(void * orig) { MallocAnsi m; m.free(orig); }
struct Big { uint64 x[3]; };
struct alignas(32) Wide { uint64 x[4]; };
extern "C" void * o_alloc(MallocBase * b, uint64 n) { MallocObject<Big> m{b}; return m.alloc(n); }
extern "C" void * o_alloc1(MallocBase * b) { MallocObject<Big> m{b}; return m.alloc(); }
extern "C" void * o_allocw(MallocBase * b, uint64 n) { MallocObject<Wide> m{b}; return m.alloc(n); }
extern "C" void * o_realloc(MallocBase * b, Big * p, uint64 n) { MallocObject<Big> m{b}; return m.realloc(p, n); }
extern "C" void * o_reallocw(MallocBase * b, Wide * p, uint64 n) { MallocObject<Wide> m{b}; return m.realloc(p, n); }
extern "C" void o_free(MallocBase * b, Big * p) { MallocObject<Big> m{b}; m.free(p); }
extern "C" void * o_move(MallocBase * b, uint64 n) { MallocObject<Big> m{b}, k{move(m)}; return k.alloc(n); }
extern "C" void * o_massign(MallocBase * b, MallocBase * c, uint64 n) { MallocObject<Big> m{b}, k{c}; k = move(m); return k.alloc(n); }
struct Priv : public MallocBase
{
	MallocBase * to;
	Priv(MallocBase * t) : to{t} {}
	virtual void * alloc(sizet size, sizet alignment) override { return k_alloc(to, size, alignment); }
	virtual void * realloc(void * orig, sizet size, sizet alignment) override { return k_realloc(to, orig, size, alignment); }
	virtual void free(void * orig) override { k_free(to, orig); }
};
extern "C" void * o_own(MallocBase * b, uint64 n) { MallocObject<Big, Priv> m{b}; return m.alloc(n); }
extern "C" void o_ownfree(MallocBase * b, Big * p) { MallocObject<Big, Priv> m{b}; m.free(p); }
extern "C" void * o_default(uint64 n) { MallocObject<Wide> m; return m.alloc(n); }
