#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#undef memset
#undef memcpy
#undef memmove
#include "ledger.h"
TL unsigned long vf_touched; /* bytes cleared or copied for the library */
#include <sys/mman.h>
void* vf_memset(void* p, int c, size_t n)
{
	vf_touched += n;
	if (vf_lazy && c == 0 && n >= ((size_t)1 << 24)) {
		/* whole pages are cleared without touching them */
		char* b = (char*)(((uintptr_t)p + 4095) & ~(uintptr_t)4095);
		char* e = (char*)(((uintptr_t)p + n) & ~(uintptr_t)4095);
		if (madvise(b, e - b, MADV_DONTNEED) == 0) {
			memset(p, 0, b - (char*)p);
			memset(e, 0, (char*)p + n - e);
			return p;
		}
	}
	return memset(p, c, n);
}
void* vf_memcpy(void* p, const void* q, size_t n) { vf_touched += n; return memcpy(p, q, n); }
void* vf_memmove(void* p, const void* q, size_t n) { vf_touched += n; return memmove(p, q, n); }
void* vf_malloc(size_t size);
#if defined(__SANITIZE_ADDRESS__)
#define VF_ASAN 1
#include <sanitizer/asan_interface.h>
#define REDZONE 0
#else
#define VF_ASAN 0
#define REDZONE 64
#endif
#ifdef VF_ARENA
/* blocks given to the library are in an arena that can be made read only; they
 * are never given again before vf_forget_all() */
#include <sys/mman.h>
#define ARENA (256u << 20)
static char* arena;
static size_t used;
static void* block_malloc(size_t n)
{
	char* p;
	if (!arena) {
		arena = mmap(0, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (arena == MAP_FAILED) abort();
	}
	n = (n + 15) & ~(size_t)15;
	if (n > ARENA - used) abort();
	p = arena + used;
	used += n;
	return p;
}
static void block_free(void* p) { (void)p; }
void vf_arena_protect(int prot) { if (used && mprotect(arena, (used + 4095) & ~(size_t)4095, prot)) abort(); }
int vf_arena_has(const void* p) { return (const char*)p >= arena && (const char*)p < arena + used; }
#else
#define block_malloc malloc
#define block_free free
#endif
#ifdef VF_THREADS
#define NB 1024
#else
#define NB 65536
#endif
static TL vf_block* tab[NB];
static TL vf_block* all; /* every live block, doubly linked */
#define EACH(b) for (b = all; b; b = b->lnext)
TL size_t vf_live_bytes, vf_live_blocks;
TL unsigned vf_allocs, vf_frees, vf_badfrees;
TL int vf_owner, vf_foreign;
TL size_t vf_mis_mod, vf_mis;
TL unsigned vf_next_id;
TL int vf_lazy;
TL vf_log_entry vf_log[4096];
TL unsigned vf_log_n;

static unsigned hp(const void* p) { uintptr_t x = (uintptr_t)p; return (unsigned)((x >> 4) * 2654435761u) >> 16 & (NB - 1); }
static void logit(char k, unsigned id, size_t size, int owner)
{
	if (vf_log_n < 4096) {
		vf_log[vf_log_n].kind = k; vf_log[vf_log_n].id = id; vf_log[vf_log_n].size = size; vf_log[vf_log_n].owner = owner;
		++vf_log_n;
	}
}
void vf_op_reset(void) { vf_allocs = vf_frees = vf_badfrees = 0; vf_foreign = 0; vf_log_n = 0; }

void* vf_malloc(size_t size)
{
	vf_block* b = malloc(sizeof(vf_block));
	unsigned h;
	size_t pad = 0;
	if (!b) abort();
	b->mapped = 0;
	if (vf_lazy && size >= ((size_t)1 << 24)) {
		/* more than the memory of the machine can be asked, if not touched */
		void* m = mmap(0, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (m == MAP_FAILED) { fprintf(stderr, "no address space\n"); exit(75); }
		b->base = b->ptr = m;
		b->mapped = 1;
	} else if (vf_lazy) {
		b->base = b->ptr = calloc(1, size);
		if (!b->base) abort();
	} else if (vf_mis_mod) {
		unsigned char* raw = malloc(size + 2 * vf_mis_mod + 2 * REDZONE);
		uintptr_t a;
		if (!raw) abort();
		a = (uintptr_t)raw + REDZONE;
		pad = (vf_mis + vf_mis_mod - a % vf_mis_mod) % vf_mis_mod;
		b->base = raw;
		b->ptr = raw + REDZONE + pad;
#if VF_ASAN
		__asan_poison_memory_region(raw, size + 2 * vf_mis_mod);
		__asan_unpoison_memory_region(b->ptr, size);
#endif
	} else {
		b->base = block_malloc(size + 2 * REDZONE);
		if (!b->base) abort();
		b->ptr = b->base + REDZONE;
	}
	b->size = size;
	b->id = ++vf_next_id;
	b->owner = vf_owner;
	if (!vf_lazy) { memset(b->ptr, 0xA5, size); vf_undef(b->ptr, size); } /* uninitialized memory is never zero */
#if REDZONE
	if (!vf_lazy) memset(b->ptr - REDZONE, 0xB7, REDZONE);
 	if (!vf_lazy) memset(b->ptr + size, 0xB7, REDZONE);
#endif
	h = hp(b->ptr);
	b->next = tab[h];
	tab[h] = b;
	b->lprev = 0; b->lnext = all; if (all) all->lprev = b; all = b;
	vf_live_bytes += size;
	++vf_live_blocks;
	++vf_allocs;
	logit('m', b->id, size, vf_owner);
	return b->ptr;
}
void* vf_calloc(size_t n, size_t size)
{
	void* p = vf_malloc(n * size);
	vf_touched += n * size;
	if (!vf_lazy) memset(p, 0, n * size);
	return p;
}
static int guard_ok(vf_block* b)
{
#if REDZONE
	int i;
	if (vf_lazy) return 1;
	for (i = 1; i <= REDZONE; ++i)
		if (b->ptr[-i] != 0xB7 || b->ptr[b->size + i - 1] != 0xB7)
			return 0;
#else
	(void)b;
#endif
	return 1;
}
static void release(vf_block* b)
{
	if (b->lprev) b->lprev->lnext = b->lnext; else all = b->lnext;
	if (b->lnext) b->lnext->lprev = b->lprev;
#if VF_ASAN
	if (b->ptr != b->base)
		__asan_unpoison_memory_region(b->base, b->ptr - b->base);
	/* the tail was poisoned too: the real free() wants to own all the chunk */
	if (vf_mis_mod || b->ptr != b->base)
		__asan_unpoison_memory_region(b->base, (b->ptr - b->base) + b->size);
#endif
	if (!vf_lazy) memset(b->ptr, 0x5A, b->size);
	if (b->mapped) munmap(b->base, b->size);
	else block_free(b->base);
	free(b);
}
void vf_free(void* ptr)
{
	vf_block** p;
	if (!ptr) { ++vf_frees; logit('f', 0, 0, vf_owner); return; } /* allowed by free() */
	for (p = &tab[hp(ptr)]; *p; p = &(*p)->next)
		if ((*p)->ptr == ptr) {
			vf_block* b = *p;
			if (!guard_ok(b)) ++vf_badfrees;
			*p = b->next;
			vf_live_bytes -= b->size;
			--vf_live_blocks;
			++vf_frees;
			if (b->owner != vf_owner) ++vf_foreign;
			logit('f', b->id, b->size, b->owner);
			release(b);
			return;
		}
	++vf_badfrees;
	logit('b', 0, 0, vf_owner);
}
void* vf_realloc(void* ptr, size_t size)
{
	vf_block* b = 0;
	void* n;
	if (ptr) {
		for (b = tab[hp(ptr)]; b && b->ptr != ptr; b = b->next);
		if (!b) { ++vf_badfrees; return vf_malloc(size); }
	}
	n = vf_malloc(size);
	if (b) {
		vf_memcpy(n, ptr, b->size < size ? b->size : size);
		vf_free(ptr);
	}
	return n;
}
vf_block* vf_find(const void* ptr, size_t len)
{
	vf_block* b;
	const unsigned char* c = ptr;
	EACH(b)
		if (c >= b->ptr && c + len <= b->ptr + b->size)
			return b;
	return 0;
}
size_t vf_owned_bytes(int owner)
{
	vf_block* b; size_t s = 0;
	EACH(b) if (b->owner == owner) s += b->size;
	return s;
}
size_t vf_owned_blocks(int owner)
{
	vf_block* b; size_t s = 0;
	EACH(b) if (b->owner == owner) ++s;
	return s;
}
int vf_guards_ok(void)
{
	vf_block* b;
	if (!REDZONE) return 1;
	EACH(b) if (!guard_ok(b)) return 0;
	return 1;
}
void vf_forget_all(void)
{
	memset(tab, 0, sizeof(tab));
	while (all) release(all);
	vf_live_bytes = vf_live_blocks = 0;
#ifdef VF_ARENA
	used = 0;
#endif
}
