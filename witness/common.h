// Shared vocabulary of the witness translation units.  A witness only names the API that is analysed;
// nothing in it is ever executed.
#pragma once
#include "core_types.h"
#include "hal/platform_memory.h"
#include "hal/malloc_object.h"

/// Element type with opaque special members: every construction, assignment and destruction stays visible.
struct Opq
{
	uint64 tag;
	Opq();
	Opq(const Opq &);
	Opq(Opq &&);
	Opq & operator=(const Opq &);
	Opq & operator=(Opq &&);
	~Opq();
};
bool operator==(const Opq &, const Opq &);
bool operator<(const Opq &, const Opq &);
bool operator>(const Opq &, const Opq &);
inline bool operator!=(const Opq & a, const Opq & b) { return !(a == b); }
inline bool operator<=(const Opq & a, const Opq & b) { return !(a > b); }
inline bool operator>=(const Opq & a, const Opq & b) { return !(a < b); }

/// Allocator whose three operations are opaque.
extern "C" void * k_alloc(MallocBase *, sizet, sizet);
extern "C" void * k_realloc(MallocBase *, void *, sizet, sizet);
extern "C" void k_free(MallocBase *, void *);
struct OpqMalloc : public MallocBase
{
	virtual void * alloc(sizet size, sizet alignment) override;
	virtual void * realloc(void * orig, sizet size, sizet alignment) override;
	virtual void free(void * orig) override;
	virtual ~OpqMalloc();
};
#ifdef WITNESS_MAIN
void * OpqMalloc::alloc(sizet size, sizet alignment) { return k_alloc(this, size, alignment); }
void * OpqMalloc::realloc(void * orig, sizet size, sizet alignment) { return k_realloc(this, orig, size, alignment); }
void OpqMalloc::free(void * orig) { k_free(this, orig); }
#endif

#define K(name, value) extern "C" const unsigned long K_##name = (value)
#define OFF(name, T, field) K(name, __builtin_offsetof(T, field))
