/* The accounting heap, as seen by the drivers. */
#ifndef VF_LEDGER_H
#define VF_LEDGER_H
#include <stdint.h>
#include <stddef.h>
#ifdef VF_THREADS
#define TL __thread /* each thread has its own */
#else
#define TL
#endif
/* marks memory as not initialized, for the sanitizer that looks for it */
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define vf_undef(p, n) __msan_poison(p, n)
#endif
#endif
#ifndef vf_undef
#define vf_undef(p, n) ((void)0)
#endif
typedef struct vf_block {
	struct vf_block* next; /* hash chain */
	struct vf_block* lprev; /* list of the live blocks */
	struct vf_block* lnext;
	unsigned char* base; /* what the real heap gave */
	unsigned char* ptr; /* what tommyds got */
	size_t size;
	unsigned id; /* progressive from 1 */
	int owner; /* value of vf_owner when allocated */
	int mapped; /* got from mmap() */
} vf_block;
extern TL size_t vf_live_bytes, vf_live_blocks; /* now */
extern TL unsigned vf_allocs, vf_frees, vf_badfrees; /* since vf_op_reset() */
extern TL int vf_owner; /* instance whose operation is running */
extern TL int vf_foreign; /* frees of blocks of another owner since vf_op_reset() */
extern TL size_t vf_mis_mod, vf_mis; /* if vf_mis_mod, returned addresses are vf_mis modulus vf_mis_mod */
extern TL unsigned vf_next_id;
extern TL int vf_lazy; /* memory is not touched when allocated, and without redzones */
extern TL unsigned long vf_touched;
void vf_op_reset(void);
vf_block* vf_find(const void* ptr, size_t len); /* live block containing [ptr, ptr+len) */
size_t vf_owned_bytes(int owner);
size_t vf_owned_blocks(int owner);
int vf_guards_ok(void); /* redzones of all the live blocks */
void vf_forget_all(void); /* drop everything still allocated */
#ifdef VF_ARENA
void vf_arena_protect(int prot); /* of all the blocks allocated */
int vf_arena_has(const void* p);
#endif
/* optional log of the calls: kind 'm'/'f'/'b'(bad free) */
typedef struct { char kind; unsigned id; size_t size; int owner; } vf_log_entry;
extern TL vf_log_entry vf_log[4096];
extern TL unsigned vf_log_n;
#endif
