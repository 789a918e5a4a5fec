PRE = r"""
#include "hal/malloc_ansi.h"
#include "hal/malloc_pool.h"
#include "hal/malloc_binned.h"
#include "hal/malloc_object.h"
#include <cstdio>
#include <cstring>
#include <set>
"""
P = "src/korin/core/private/hal/malloc_pool.cpp"
H = "hal/malloc_pool.h"
B = "src/korin/core/private/hal/malloc_binned.cpp"
A = "src/korin/core/private/hal/malloc_ansi.cpp"
O = "hal/malloc_object.h"
SEEDS = [
 dict(id="P01-a", property="P01", pre=PRE, needs="releasing a block to a pool that had run out, after the block was overwritten, while other blocks are held",
      breaks="what the owner wrote into the block is taken for a link to a free block",
      edits=[(P, "		*getBlockLink(head = block) = nullptr;", "		head = block;")],
      demo="	MemoryPool p{2, 24, 8}; void * a = p.acquireBlock(), * b = p.acquireBlock(); memset(a, 0x5a, 24); memset((char*)a, 0x5a, 24 + 8); p.releaseBlock(a); p.acquireBlock(); return p.acquireBlock() != nullptr;".replace("memset((char*)a, 0x5a, 24 + 8); ", "")
      ),
 dict(id="P01-b", property="P01", pre=PRE, needs="asking a pool about the address right behind its buffer, such as the first block of the next pool in one arena",
      breaks="a pool takes a foreign block for its own",
      edits=[(H, "(uintp)block < (uintp)buffer + bufferSize;", "(uintp)block <= (uintp)buffer + bufferSize;")],
      demo="	alignas(64) static char arena[128]; MallocPool p{2, 24, 8, arena}, q{2, 24, 8, arena + 64}; void * a = p.alloc(24, 8), * b = p.alloc(24, 8), * c = q.alloc(24, 8); p.free(c); return p.alloc(24, 8) != nullptr;"),
 dict(id="P01-c", property="P01", pre=PRE, needs="a block size for which block and link just fill a multiple of the alignment minus the alignment of the link",
      breaks="the second block does not have the requested alignment",
      edits=[(P, "logicalBlockSize{PlatformMath::align2Up(blockLinkSize + blockSize - 1, blockAlignment)}", "logicalBlockSize{PlatformMath::align2Up(blockLinkSize + blockSize - 1, blockSize % 16 ? MIN_ALIGNMENT : blockAlignment)}")],
      demo="	for (sizet s = 1; s < 100; ++s) for (sizet al = 8; al <= 64; al *= 2) { MemoryPool p{3, s, al}; for (int i = 0; i < 3; ++i) if ((uintp)p.acquireBlock() % al) return 1; }"),
 dict(id="P01-d", property="P01", pre=PRE, needs="a request with an alignment above that of the pool",
      breaks="the caller gets a block that is not aligned as requested",
      edits=[(P, "size <= pool.blockSize && alignment <= pool.blockAlignment))", "size <= pool.blockSize && alignment <= PlatformMath::max(pool.blockAlignment, pool.logicalBlockSize)))")],
      demo="	alignas(128) static char buf[512]; MallocPool p{3, 56, 8, buf + 8}; void * a = p.alloc(32, 64); return a && (uintp)a % 64;"),
 dict(id="P01-e", property="P01", pre=PRE, needs="a pool whose last block is acquired and released in between", breaks="the number of free blocks no longer says how many blocks are free",
      edits=[(P, "	head = getNextBlock(head);\n\n	--numFreeBlocks;", "	head = getNextBlock(head);\n\n	if (head || numBlocks == 1) --numFreeBlocks;")],
      demo="	MemoryPool p{3, 8, 8}; for (int i = 0; i < 3; ++i) p.acquireBlock(); return p.getNumFreeBlocks() != 0;"),
 dict(id="P02-a", property="P02", pre=PRE, flags="-fsanitize=address", needs="any growing pool; noticed by whoever owns the memory behind its buffers",
      breaks="the last record of a pool lies outside the buffer",
      edits=[(P, "	poolAllocSize += sizeof(Link);\n", "	if (poolInfo.blockAlignment < 64) poolAllocSize += sizeof(Link);\n")],
      demo="	for (sizet al = 8; al < 128; al *= 2) { MallocPooled p{2, 16, al}; p.free(p.alloc(16, 8)); }"),
 dict(id="P02-b", property="P02", pre=PRE, needs="several pools, a block freed in two of them, then as many allocations",
      breaks="the pool creates a buffer although blocks are free",
      edits=[(P, "			head = head->next;\n		}\n	}\n	else\n		; // TODO: backup allocator", "			head = head->prev;\n		}\n	}\n	else\n		; // TODO: backup allocator")],
      demo="	MallocPooled p{1, 16, 8, 1}; void * b[4]; for (auto & x : b) x = p.alloc(16, 8); for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) if (i != j) { p.free(b[i]); p.free(b[j]); b[i] = p.alloc(16, 8); b[j] = p.alloc(16, 8); } return p.getNumPools() != 4;"),
 dict(id="P02-c", property="P02", pre=PRE, needs="a binned pool asked for a larger alignment than that of its pools",
      breaks="the requested alignment is ignored",
      edits=[(B, "		return bucket->alloc(size, alignment);", "		return bucket->alloc(size);")],
      demo="	MallocBinned m{{1 << 12, 8, 128, 2}, 8}; for (int i = 0; i < 16; ++i) { void * p = m.alloc(8, 64); if (p && (uintp)p % 64) return 1; }"),
 dict(id="P02-d", property="P02", pre=PRE, needs="buffers the system places at descending addresses, and a free of a block in the lower buffer",
      breaks="the pool of the block is not found, so the block is lost",
      edits=[(P, "			break;\n		else if (orig < it->data->buffer)\n			it = it->left;", "			break;\n		else if (orig < it->data->buffer && it->left && it->left->data->hasBlock(orig))\n			it = it->left;")],
      demo="	MallocPooled p{1, 16, 8, 1}; void * b[32]; for (auto & x : b) x = p.alloc(16, 8); for (auto x : b) p.free(x); for (auto & x : b) x = p.alloc(16, 8); return p.getNumPools() != 32;"),
 dict(id="P02-e", property="P02", pre=PRE + "#include <malloc.h>\n", needs="destruction of a growing pool that created another pool after its first ones",
      breaks="the buffer of the last pool is never released",
      edits=[(H, "		::free(buffer);\n	}\n\npublic:\n	/**\n	 * Pool constructor\n	 * \n	 * @see MemoryPool::MemoryPool\n	 */\n	MallocPooled", "		if (root || pool->hasBlock(head)) ::free(buffer);\n	}\n\npublic:\n	/**\n	 * Pool constructor\n	 * \n	 * @see MemoryPool::MemoryPool\n	 */\n	MallocPooled")],
      demo="	auto a = mallinfo2().hblks; { MallocPooled p{256, 4096, 16, 3}; } return mallinfo2().hblks != a;"),
 dict(id="P03-a", property="P03", pre=PRE, flags="-fsanitize=address", needs="a reallocation to a larger size than the original block",
      breaks="bytes behind the original block are read",
      edits=[(A, "PlatformMath::min(size, usableSize)", "PlatformMath::max(size, usableSize) - (size < usableSize ? usableSize - size : 0)")],
      demo="	MallocAnsi m; void * p = m.alloc(16); p = m.realloc(p, 4096); m.free(p);"),
 dict(id="P03-b", property="P03", pre=PRE, needs="an object type that wants more than the default alignment",
      breaks="objects are placed at an address their type does not accept",
      edits=[(O, "	static constexpr const sizet allocUnitAlign = alignof(T);", "	static constexpr const sizet allocUnitAlign = alignof(T) < DEFAULT_ALIGNMENT ? alignof(T) : DEFAULT_ALIGNMENT;")],
      demo="	struct alignas(64) W { char c; }; MallocAnsi a; MallocObject<W> m{&a}; for (int i = 0; i < 32; ++i) if ((uintp)m.alloc() % 64) return 1;"),
 dict(id="P03-c", property="P03", pre=PRE, needs="a reallocation of objects that want more than the default alignment",
      breaks="after a reallocation the objects are no longer aligned",
      edits=[(O, "realloc((void*)orig, n * allocUnitSize, allocUnitAlign)", "realloc((void*)orig, n * allocUnitSize)")],
      demo="	struct alignas(64) W { char c; }; MallocAnsi a; MallocObject<W> m{&a}; for (int i = 0; i < 32; ++i) { W * w = m.alloc(); if ((uintp)m.realloc(w, 3 + i) % 64) return 1; }"),
 dict(id="P03-d", property="P03", pre=PRE, needs="a reallocation for which the system has no memory",
      breaks="the original block is freed although the reallocation failed",
      edits=[(A, "		if (UNLIKELY(::posix_memalign(&out, alignment, size) != 0))\n			return nullptr;\n		\n		if (LIKELY(usableSize))\n			Memory::memcpy(out, orig, PlatformMath::min(size, usableSize));\n		\n		// Free original block\n		::free(orig);",
              "		const bool failed = ::posix_memalign(&out, alignment, size) != 0;\n		\n		if (LIKELY(!failed && usableSize))\n			Memory::memcpy(out, orig, PlatformMath::min(size, usableSize));\n		\n		// Free original block\n		::free(orig);\n		if (UNLIKELY(failed)) return nullptr;")],
      demo="	MallocAnsi m; char * p = (char*)m.alloc(64); memset(p, 7, 64); if (m.realloc(p, ~0ull / 4)) return 0; for (int i = 0; i < 64; ++i) if (p[i] != 7) return 1; void * q = m.alloc(64); return q == p;"),
]
