/* Driver of many containers holding the same objects. "graph": transitions of
 * MultiIndex.tla; default: script, recorded for TraceMulti.tla.
 * VF_THREADS: scripts in different threads, each one with its containers.
 * VF_READERS: threads reading the same containers (command P of the script).
 * VF_ARENA: memory can't be written during operations that only read. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <pthread.h>
#include <sys/mman.h>
#include "tommyds/tommy.h"
#include "ledger.h"
#include "graph.h"
#define IMAX 20
#define OMAX 300
#define KMAX 64
enum { LIST, TREE, TABLE, DYN, LIN, TRIE, TRIE2, INP, ARRAY, ARRAYOF, BLK, BLKOF, ALLOC, KINDS };
static const char* const NAME[KINDS] = { "list", "tree", "hashtable", "hashdyn", "hashlin", "trie", "trie2", "trieinp", "array", "arrayof", "arrayblk", "arrayblkof", "alloc" };
/* what each reader has for itself */
#if defined(VF_THREADS) || defined(VF_READERS)
#define SC __thread
#else
#define SC
#endif
typedef struct { int id, key; tommy_node list; tommy_node n[IMAX]; tommy_trie_inplace_node t[IMAX]; void* block[IMAX]; } object;
static TL int ni, no, nk;
static TL tommy_size_t hash[KMAX + 1];
typedef union { tommy_list list; tommy_tree tree; tommy_hashtable tbl; tommy_hashdyn dyn; tommy_hashlin lin; tommy_trie trie; tommy_trie_inplace inp; tommy_array a; tommy_arrayof ao; tommy_arrayblk b; tommy_arrayblkof bo; } container;
/* all that the library works on, and that is not in the heap */
typedef struct { object o[OMAX + 1]; container c[IMAX + 1]; tommy_allocator a, b; } world;
#ifdef VF_THREADS
static TL world W;
#else
#define PAGE 4096
#define WSIZE ((sizeof(world) + PAGE - 1) / PAGE * PAGE)
static union { world w; char pad[WSIZE]; } W_ __attribute__((aligned(PAGE)));
#define W W_.w
#endif
#define O W.o
#define A W.a
#define B W.b
static TL struct inst { int kind; int seq[OMAX * 4]; int n; } I[IMAX + 1];
#ifdef VF_ARENA
static int locked, writes;
static void lock(void) { if (!locked) { vf_arena_protect(PROT_READ); if (mprotect(&W_, WSIZE, PROT_READ)) exit(2); locked = 1; } }
static void unlock(void) { if (locked) { vf_arena_protect(PROT_READ | PROT_WRITE); if (mprotect(&W_, WSIZE, PROT_READ | PROT_WRITE)) exit(2); locked = 0; } }
static void fault(int sig, siginfo_t* info, void* ctx)
{
	char* p = info->si_addr;
	(void)ctx;
	if (!locked || !((p >= (char*)&W_ && p < (char*)&W_ + WSIZE) || vf_arena_has(p))) { signal(sig, SIG_DFL); return; }
	++writes;
	unlock(); /* and do it */
}
static void trap(void) { struct sigaction sa; memset(&sa, 0, sizeof(sa)); sa.sa_sigaction = fault; sa.sa_flags = SA_SIGINFO | SA_NODEFER; sigaction(SIGSEGV, &sa, 0); sigaction(SIGBUS, &sa, 0); }
static int islocked(void) { return locked; }
#else
enum { writes };
static void lock(void) { }
static void unlock(void) { }
static int islocked(void) { return 0; }
#endif
#define OWN_A 101
#define OWN_B 102
static SC int bad;
static int owner(int i) { return I[i].kind == TRIE || I[i].kind == ALLOC ? OWN_A : I[i].kind == TRIE2 ? OWN_B : i; }
/* operation to do inside a callback */
static SC struct { int armed, at; int op[3]; int r; int *it; int itn; } nest;
static void callback(void);
static int cmp_tree(const void* a, const void* b) { const object* x = a; const object* y = b; callback(); return x->key - y->key; }
static int cmp_key(const void* arg, const void* obj) { callback(); return *(const int*)arg != ((const object*)obj)->key; }
static int ident(void* p) { object* o = p; if (!p) return 0; if (o < &O[1] || o > &O[no] || ((char*)o - (char*)O) % sizeof(object)) { bad = 1; return -1; } return o->id; }

static void c_init(int i)
{
	container* c = &W.c[i];
	int k = I[i].kind;
	memset(c, 0xA5, sizeof(*c)); vf_undef(c, sizeof(*c));
	I[i].n = 0;
	vf_owner = owner(i);
	switch (k) {
	case LIST : tommy_list_init(&c->list); break;
	case TREE : tommy_tree_init(&c->tree, cmp_tree); break;
	case TABLE : tommy_hashtable_init(&c->tbl, 0); break;
	case DYN : tommy_hashdyn_init(&c->dyn); break;
	case LIN : tommy_hashlin_init(&c->lin); break;
	case TRIE : tommy_trie_init(&c->trie, &A); break;
	case TRIE2 : tommy_trie_init(&c->trie, &B); break;
	case INP : tommy_trie_inplace_init(&c->inp); break;
	case ARRAY : tommy_array_init(&c->a); break;
	case ARRAYOF : tommy_arrayof_init(&c->ao, sizeof(object*)); break;
	case BLK : tommy_arrayblk_init(&c->b); break;
	case BLKOF : tommy_arrayblkof_init(&c->bo, sizeof(object*)); break;
	}
}
static void c_done(int i)
{
	container* c = &W.c[i];
	vf_owner = owner(i);
	switch (I[i].kind) {
	case TABLE : tommy_hashtable_done(&c->tbl); break;
	case DYN : tommy_hashdyn_done(&c->dyn); break;
	case LIN : tommy_hashlin_done(&c->lin); break;
	case ARRAY : tommy_array_done(&c->a); break;
	case ARRAYOF : tommy_arrayof_done(&c->ao); break;
	case BLK : tommy_arrayblk_done(&c->b); break;
	case BLKOF : tommy_arrayblkof_done(&c->bo); break;
	}
}
static object** slot(int i, int p)
{
	static SC object* tmp;
	container* c = &W.c[i];
	switch (I[i].kind) {
	case ARRAY : return (object**)tommy_array_ref(&c->a, p);
	case ARRAYOF : return (object**)tommy_arrayof_ref(&c->ao, p);
	case BLK : return (object**)tommy_arrayblk_ref(&c->b, p);
	case BLKOF : return (object**)tommy_arrayblkof_ref(&c->bo, p);
	}
	return &tmp;
}
static tommy_size_t asize(int i)
{
	container* c = &W.c[i];
	switch (I[i].kind) {
	case ARRAY : return tommy_array_size(&c->a);
	case ARRAYOF : return tommy_arrayof_size(&c->ao);
	case BLK : return tommy_arrayblk_size(&c->b);
	}
	return tommy_arrayblkof_size(&c->bo);
}
static void* bucket(int i, int k)
{
	container* c = &W.c[i];
	switch (I[i].kind) {
	case TABLE : return tommy_hashtable_bucket(&c->tbl, hash[k]);
	case DYN : return tommy_hashdyn_bucket(&c->dyn, hash[k]);
	case LIN : return tommy_hashlin_bucket(&c->lin, hash[k]);
	case TRIE : case TRIE2 : return tommy_trie_bucket(&c->trie, hash[k]);
	}
	return tommy_trie_inplace_bucket(&c->inp, hash[k]);
}
static void* search(int i, int k)
{
	container* c = &W.c[i];
	switch (I[i].kind) {
	case TABLE : return tommy_hashtable_search(&c->tbl, cmp_key, &k, hash[k]);
	case DYN : return tommy_hashdyn_search(&c->dyn, cmp_key, &k, hash[k]);
	case LIN : return tommy_hashlin_search(&c->lin, cmp_key, &k, hash[k]);
	case TRIE : case TRIE2 : return tommy_trie_search(&c->trie, hash[k]);
	case INP : return tommy_trie_inplace_search(&c->inp, hash[k]);
	}
	{ static SC int turn; object probe; probe.key = k; return ++turn & 1 ? tommy_tree_search(&c->tree, &probe) : tommy_tree_search_compare(&c->tree, cmp_tree, &probe); }
}
static SC int fe_buf[2][OMAX * 4], fe_num[2], fe_lev;
#define fe_seq fe_buf[fe_lev]
#define fe_n fe_num[fe_lev]
static void fe(void* obj) { if (fe_n < OMAX * 4) fe_seq[fe_n++] = ident(obj); callback(); }
static void fa(void* arg, void* obj) { if (arg != &fe_n) bad = 1; fe(obj); }
static void iterate(int i)
{
	container* c = &W.c[i];
	static SC int turn;
	fe_n = 0;
	++turn;
	switch (I[i].kind) {
	case LIST : if (turn & 1) tommy_list_foreach(&c->list, fe); else tommy_list_foreach_arg(&c->list, fa, &fe_n); break;
	case TREE : if (turn & 1) tommy_tree_foreach(&c->tree, fe); else tommy_tree_foreach_arg(&c->tree, fa, &fe_n); break;
	case TABLE : if (turn & 1) tommy_hashtable_foreach(&c->tbl, fe); else tommy_hashtable_foreach_arg(&c->tbl, fa, &fe_n); break;
	case DYN : if (turn & 1) tommy_hashdyn_foreach(&c->dyn, fe); else tommy_hashdyn_foreach_arg(&c->dyn, fa, &fe_n); break;
	case LIN : if (turn & 1) tommy_hashlin_foreach(&c->lin, fe); else tommy_hashlin_foreach_arg(&c->lin, fa, &fe_n); break;
	}
}
static int cmpint(const void* a, const void* b) { return *(const int*)a - *(const int*)b; }
static tommy_size_t count(int i)
{
	container* c = &W.c[i];
	switch (I[i].kind) {
	case LIST : return tommy_list_count(&c->list);
	case TREE : return tommy_tree_count(&c->tree);
	case TABLE : return tommy_hashtable_count(&c->tbl);
	case DYN : return tommy_hashdyn_count(&c->dyn);
	case LIN : return tommy_hashlin_count(&c->lin);
	case TRIE : case TRIE2 : return tommy_trie_count(&c->trie);
	case INP : return tommy_trie_inplace_count(&c->inp);
	case ALLOC : return I[i].n;
	}
	return asize(i);
}
static tommy_size_t usage(int i)
{
	container* c = &W.c[i];
	switch (I[i].kind) {
	case LIST : return 0;
	case TREE : return tommy_tree_memory_usage(&c->tree);
	case TABLE : return tommy_hashtable_memory_usage(&c->tbl);
	case DYN : return tommy_hashdyn_memory_usage(&c->dyn);
	case LIN : return tommy_hashlin_memory_usage(&c->lin);
	case TRIE : case TRIE2 : return tommy_trie_memory_usage(&c->trie);
	case INP : return tommy_trie_inplace_memory_usage(&c->inp);
	case ARRAY : return tommy_array_memory_usage(&c->a);
	case ARRAYOF : return tommy_arrayof_memory_usage(&c->ao);
	case BLK : return tommy_arrayblk_memory_usage(&c->b);
	case BLKOF : return tommy_arrayblkof_memory_usage(&c->bo);
	}
	return 0;
}
/* the block of the user, filled with the identity of the object and of the instance */
static void fill(unsigned char* p, int i, int o) { size_t j; for (j = 0; j < TOMMY_TRIE_BLOCK_SIZE; ++j) p[j] = (unsigned char)(o * 7 + i * 31 + j); }
static int filled(unsigned char* p, int i, int o) { size_t j; for (j = 0; j < TOMMY_TRIE_BLOCK_SIZE; ++j) if (p[j] != (unsigned char)(o * 7 + i * 31 + j)) return 0; return 1; }

/* content, as it's seen */
static int seen(int i, int* q)
{
	container* c = &W.c[i];
	int n = 0, k, j;
	tommy_size_t limit = count(i);
	switch (I[i].kind) {
	case LIST : {
		tommy_node* p = tommy_list_head(&c->list);
		tommy_node* prev = 0;
		for (; p && n < OMAX; prev = p, p = p->next) {
			q[n] = ident(p->data);
			if (p->data && q[n] > 0 && p != &O[q[n]].list) bad = 1;
			if (prev && p->prev != prev) bad = 1;
			++n;
		}
		if (tommy_list_tail(&c->list) != prev) bad = 1;
		if (!tommy_list_empty(&c->list) != !!n) bad = 1;
		return n;
		}
	case TREE :
		iterate(i);
		memcpy(q, fe_seq, fe_n * sizeof(int));
		for (k = 1; k <= nk + 1; ++k) {
			int s = ident(search(i, k)), f = 0;
			for (j = 0; j < fe_n; ++j) if (fe_seq[j] > 0 && O[fe_seq[j]].key == k) f = fe_seq[j];
			if (s != f) bad = 1;
		}
		return fe_n;
	case TABLE : case DYN : case LIN : case TRIE : case TRIE2 : case INP :
		for (k = 1; k <= nk + 1; ++k) {
			void* p = bucket(i, k);
			tommy_size_t steps = 0;
			int first = 0;
			while (p && steps++ < limit + 1) {
				void* data = I[i].kind == INP ? ((tommy_trie_inplace_node*)p)->data : ((tommy_node*)p)->data;
				int o = ident(data);
				if (o > 0 && (I[i].kind == INP ? (void*)&O[o].t[i] != p : (void*)&O[o].n[i] != p)) bad = 1;
				if (o > 0 && O[o].key == k) { if (!first) first = o; if (n < OMAX * 4) q[n++] = o; }
				p = I[i].kind == INP ? (void*)((tommy_trie_inplace_node*)p)->next : (void*)((tommy_node*)p)->next;
			}
			if (steps > limit) bad = 1;
			if (ident(search(i, k)) != first) bad = 1;
		}
		if (I[i].kind <= LIN) {
			static SC int s[OMAX * 4];
			iterate(i);
			memcpy(s, q, n * sizeof(int));
			qsort(s, n, sizeof(int), cmpint);
			qsort(fe_seq, fe_n, sizeof(int), cmpint);
			if (n != fe_n || memcmp(s, fe_seq, n * sizeof(int))) bad = 1;
		}
		return n;
	case ALLOC :
		for (j = 0; j < I[i].n; ++j) { q[j] = I[i].seq[j]; if (!filled(O[q[j]].block[i], i, q[j])) bad = 1; }
		return I[i].n;
	}
	for (j = 0; j < (int)limit && j < OMAX * 4; ++j) {
		q[j] = ident(*slot(i, j));
		if (I[i].kind == ARRAY && tommy_array_get(&c->a, j) != *slot(i, j)) bad = 1;
		if (I[i].kind == BLK && tommy_arrayblk_get(&c->b, j) != *slot(i, j)) bad = 1;
	}
	return j;
}
static void reset(void)
{
	int i;
	vf_forget_all();
	vf_next_id = 0;
	bad = 0;
	vf_owner = OWN_A; tommy_allocator_init(&A, TOMMY_TRIE_BLOCK_SIZE, TOMMY_TRIE_BLOCK_SIZE);
	vf_owner = OWN_B; tommy_allocator_init(&B, TOMMY_TRIE_BLOCK_SIZE, TOMMY_TRIE_BLOCK_SIZE);
	memset(O, 0xCD, sizeof(O)); vf_undef(O, sizeof(O));
	for (i = 1; i <= ni; ++i) c_init(i);
}
static TL int keys[OMAX + 1];
static void objects(void) { int o; for (o = 1; o <= no; ++o) { O[o].id = o; O[o].key = keys[o]; } }
static int apply1(const int* op)
{
	int i = op[1], x = op[2], k;
	container* c = &W.c[i];
	vf_owner = owner(i);
	switch (op[0]) {
	case 1 :
		switch (I[i].kind) {
		case LIST : tommy_list_insert_tail(&c->list, &O[x].list, &O[x]); return x;
		case TREE : return ident(tommy_tree_insert(&c->tree, &O[x].n[i], &O[x]));
		case TABLE : tommy_hashtable_insert(&c->tbl, &O[x].n[i], &O[x], hash[keys[x]]); return x;
		case DYN : tommy_hashdyn_insert(&c->dyn, &O[x].n[i], &O[x], hash[keys[x]]); return x;
		case LIN : tommy_hashlin_insert(&c->lin, &O[x].n[i], &O[x], hash[keys[x]]); return x;
		case TRIE : case TRIE2 : tommy_trie_insert(&c->trie, &O[x].n[i], &O[x], hash[keys[x]]); return x;
		case INP : tommy_trie_inplace_insert(&c->inp, &O[x].t[i], &O[x], hash[keys[x]]); return x;
		case ALLOC : O[x].block[i] = tommy_allocator_alloc(&A); fill(O[x].block[i], i, x); I[i].seq[I[i].n++] = x; return x;
		case ARRAY : tommy_array_insert(&c->a, &O[x]); return x;
		case ARRAYOF : tommy_arrayof_grow(&c->ao, asize(i) + 1); *slot(i, (int)asize(i) - 1) = &O[x]; return x;
		case BLK : tommy_arrayblk_insert(&c->b, &O[x]); return x;
		case BLKOF : tommy_arrayblkof_grow(&c->bo, asize(i) + 1); *slot(i, (int)asize(i) - 1) = &O[x]; return x;
		}
		break;
	case 2 :
		switch (I[i].kind) {
		case LIST : return ident(tommy_list_remove_existing(&c->list, &O[x].list));
		case TREE : return ident(tommy_tree_remove_existing(&c->tree, &O[x].n[i]));
		case TABLE : return ident(tommy_hashtable_remove_existing(&c->tbl, &O[x].n[i]));
		case DYN : return ident(tommy_hashdyn_remove_existing(&c->dyn, &O[x].n[i]));
		case LIN : return ident(tommy_hashlin_remove_existing(&c->lin, &O[x].n[i]));
		case TRIE : case TRIE2 : return ident(tommy_trie_remove_existing(&c->trie, &O[x].n[i]));
		case INP : return ident(tommy_trie_inplace_remove_existing(&c->inp, &O[x].t[i]));
		case ALLOC :
			for (k = 0; I[i].seq[k] != x; ++k) ;
			memmove(&I[i].seq[k], &I[i].seq[k + 1], (I[i].n - k - 1) * sizeof(int));
			--I[i].n;
			memset(O[x].block[i], 0xEE, TOMMY_TRIE_BLOCK_SIZE);
			tommy_allocator_free(&A, O[x].block[i]);
			return x;
		}
		break;
	case 3 :
		switch (I[i].kind) {
		case TREE : { object probe; probe.key = x; return ident(tommy_tree_remove(&c->tree, &probe)); }
		case TABLE : return ident(tommy_hashtable_remove(&c->tbl, cmp_key, &x, hash[x]));
		case DYN : return ident(tommy_hashdyn_remove(&c->dyn, cmp_key, &x, hash[x]));
		case LIN : return ident(tommy_hashlin_remove(&c->lin, cmp_key, &x, hash[x]));
		case TRIE : case TRIE2 : return ident(tommy_trie_remove(&c->trie, hash[x]));
		case INP : return ident(tommy_trie_inplace_remove(&c->inp, hash[x]));
		}
		break;
	case 4 : return ident(search(i, x));
	case 5 : tommy_list_insert_head(&c->list, &O[x].list, &O[x]); return 0;
	case 6 : tommy_list_concat(&c->list, &W.c[x].list); tommy_list_init(&W.c[x].list); return 0;
	case 7 : tommy_list_sort(&c->list, cmp_tree); return 0;
	case 8 : iterate(i); return 0;
	case 9 : c_done(i); c_init(i); return 0;
	case 10 : *slot(i, 0) = &O[x]; return 0;
	case 11 :
		vf_owner = OWN_B; tommy_allocator_done(&B); tommy_allocator_init(&B, TOMMY_TRIE_BLOCK_SIZE, TOMMY_TRIE_BLOCK_SIZE);
		for (k = 1; k <= ni; ++k) if (I[k].kind == TRIE2) c_init(k);
		vf_owner = OWN_B;
		return 0;
	}
	exit(2);
}
/* searches and iterations can't write */
static int apply(const int* op)
{
	int r;
	if (op[0] != 4 && op[0] != 8) return apply1(op);
	lock();
	r = apply1(op);
	unlock();
	return r;
}
static void nested(void)
{
	int o = vf_owner, l = islocked();
	nest.armed = 0;
	++fe_lev;
	fe_n = 0;
	unlock();
	nest.r = apply(nest.op);
	if (l) lock();
	--fe_lev;
	vf_owner = o;
}
static void callback(void) { if (nest.armed && --nest.at < 0) nested(); }
static const char* done_all(void)
{
	int i;
	for (i = 1; i <= ni; ++i) c_done(i);
	for (i = 1; i <= ni; ++i) if (vf_owned_blocks(i)) return "memory left by an instance";
	vf_owner = OWN_A; tommy_allocator_done(&A);
	vf_owner = OWN_B; tommy_allocator_done(&B);
	if (vf_live_blocks) return "memory left by the allocators";
	if (vf_badfrees || vf_foreign) { vf_foreign = 0; return vf_badfrees ? "bad free" : 0; }
	return 0;
}
/* ---- graph */
void g_begin(void) { reset(); objects(); }
static TL unsigned g_bf;
int g_apply(const int* op, int nop) { int r; (void)nop; vf_op_reset(); r = apply(op); if (op[0] > 4 || op[0] < 1) r = 0; g_bf = vf_badfrees + vf_foreign; return r; }
int g_observe(int* out)
{
	int n = 0, i;
	for (i = 1; i <= ni; ++i) { int m; lock(); m = seen(i, &out[n + 1]); out[n] = m; if ((int)count(i) != m) bad = 1; usage(i); n += m + 1; }
	unlock();
	return n;
}
const char* g_check(void) { return bad ? "observation not consistent" : writes ? "written by an operation that only reads" : g_bf || !vf_guards_ok() ? "heap" : 0; }
const char* g_end(unsigned n) { const char* e; (void)n; vf_op_reset(); e = done_all(); vf_forget_all(); return e; }
/* ---- script */
static int header(FILE* in)
{
	int i, k;
	char name[32];
	if (fscanf(in, "%d", &ni) != 1 || ni > IMAX - 1) return 2;
	for (i = 1; i <= ni; ++i) {
		if (fscanf(in, "%31s", name) != 1) return 2;
		for (k = 0; k < KINDS && strcmp(name, NAME[k]); ++k) ;
		if (k == KINDS) return 2;
		I[i].kind = k;
	}
	if (fscanf(in, "%d", &no) != 1 || no > OMAX) return 2;
	for (i = 1; i <= no; ++i) if (fscanf(in, "%d", &keys[i]) != 1) return 2;
	if (fscanf(in, "%d", &nk) != 1 || nk + 1 > KMAX) return 2;
	/* the last is a key that no object has */
	for (i = 1; i <= nk + 1; ++i) { unsigned long long h; if (fscanf(in, "%llx", &h) != 1) return 2; hash[i] = (tommy_size_t)h; }
	return 0;
}
/* ---- threads reading the same containers; after the first time all the others have to be the same */
#ifdef VF_READERS
#define PMAX 16
typedef struct { int q[IMAX + 1][OMAX * 4 + 8], nq[IMAX + 1]; unsigned long n[IMAX + 1], mu[IMAX + 1], ua, ub, fn; } view;
typedef struct { view v; int bad, diff, times, seed; } reader;
static reader* R[PMAX];
static unsigned long functions(int k)
{
	unsigned char buf[64];
	unsigned long r;
	tommy_uint64_t h = tommy_hash_u64(k, &hash[k % nk + 1], sizeof(hash[k]));
	memset(buf, 'a' + k % 16, sizeof(buf));
	buf[k % 64] = 0;
	h ^= tommy_hash_u32(0, buf, k % 64) + tommy_hash_u64(k, buf, k % 64) + tommy_strhash_u32(k, buf) + tommy_inthash_u32(k) + tommy_inthash_u64(k);
#if UINTPTR_MAX > 0xffffffff
	h += tommy_ilog2_u64(h | 1) + tommy_ctz_u64(h | 1);
#endif
	h += tommy_ilog2_u32(k) + tommy_ctz_u32(k) + tommy_roundup_pow2_u32(k) + tommy_roundup_pow2_u64(k) + tommy_haszero_u32(k);
	r = (unsigned long)(h ^ h >> 32);
	return r & 0xffff;
}
static void look(view* v, int from, int back)
{
	int j;
	unsigned long fn = 0;
	for (j = 1; j <= ni; ++j) {
		int i = (back ? ni - j : j - 1) + from;
		i = i % ni + 1;
		v->nq[i] = seen(i, v->q[i]);
		v->n[i] = (unsigned long)count(i);
		v->mu[i] = (unsigned long)usage(i);
	}
	v->ua = (unsigned long)tommy_allocator_memory_usage(&A);
	v->ub = (unsigned long)tommy_allocator_memory_usage(&B);
	for (j = 1; j <= 70; ++j) fn += functions(j);
	v->fn = fn;
}
static pthread_barrier_t go;
static void* read_all(void* arg)
{
	static SC view w;
	reader* r = arg;
	int k, i;
	unsigned s = r->seed;
	bad = 0;
	memset(&w, 0, sizeof(w));
	pthread_barrier_wait(&go);
	look(&r->v, s % ni, s >> 4 & 1);
	for (k = 1; k < r->times; ++k) {
		s = s * 1103515245 + 12345;
		look(&w, (s >> 8) % ni, s >> 16 & 1);
		for (i = 1; i <= ni; ++i)
			if (w.nq[i] != r->v.nq[i] || memcmp(w.q[i], r->v.q[i], w.nq[i] * sizeof(int)) || w.n[i] != r->v.n[i] || w.mu[i] != r->v.mu[i]) r->diff = 1;
		if (w.ua != r->v.ua || w.ub != r->v.ub || w.fn != r->v.fn) r->diff = 1;
	}
	r->bad = bad;
	return 0;
}
static int par(int n, int times, int seed)
{
	pthread_t t[PMAX];
	int i;
	if (n > PMAX) exit(2);
	pthread_barrier_init(&go, 0, n);
	for (i = 0; i < n; ++i) {
		free(R[i]);
		R[i] = calloc(1, sizeof(reader));
		R[i]->times = times; R[i]->seed = (seed + i * 7919) & 0xffffff;
		if (pthread_create(&t[i], 0, read_all, R[i])) exit(2);
	}
	for (i = 0; i < n; ++i) pthread_join(t[i], 0);
	pthread_barrier_destroy(&go);
	return n;
}
static void ints(FILE* f, const char* name, unsigned long* v) { int i; fprintf(f, ",\"%s\":[", name); for (i = 1; i <= ni; ++i) fprintf(f, "%s%lu", i > 1 ? "," : "", v[i]); fprintf(f, "]"); }
static void par_print(FILE* f, int n)
{
	int t, i, j;
	unsigned long fn = 0;
	if (!n) return;
	for (j = 1; j <= 70; ++j) fn += functions(j);
	fprintf(f, ",\"fn\":%lu,\"p\":[", fn);
	for (t = 0; t < n; ++t) {
		view* v = &R[t]->v;
		fprintf(f, "%s{\"q\":[", t ? "," : "");
		for (i = 1; i <= ni; ++i) {
			fprintf(f, "%s[", i > 1 ? "," : "");
			for (j = 0; j < v->nq[i]; ++j) fprintf(f, "%s%d", j ? "," : "", v->q[i][j]);
			fprintf(f, "]");
		}
		fprintf(f, "]");
		ints(f, "n", v->n); ints(f, "mu", v->mu);
		fprintf(f, ",\"ua\":%lu,\"ub\":%lu,\"fn\":%lu,\"bad\":%d}", v->ua, v->ub, v->fn, R[t]->bad + R[t]->diff);
	}
	fprintf(f, "]");
}
#else
static int par(int n, int times, int seed) { (void)n; (void)times; (void)seed; exit(2); }
static void par_print(FILE* f, int n) { (void)f; (void)n; }
#endif
static void event(FILE* f, const char* e, int np, int nop, const int (*op)[3], const int* r, int* const* it, const int* itn)
{
	static TL int q[OMAX * 4 + 8];
	int i, j;
	unsigned al = vf_allocs, fr = vf_frees, bf = vf_badfrees, fo = vf_foreign;
	bf += bad;
	bad = 0;
	lock();
	fprintf(f, "{\"e\":\"%s\",\"al\":%u,\"fr\":%u,\"ua\":%lu,\"ub\":%lu", e, al, fr, (unsigned long)tommy_allocator_memory_usage(&A), (unsigned long)tommy_allocator_memory_usage(&B));
	if (e[0] != 'i') {
		fprintf(f, ",\"o\":[");
		for (i = 0; i < nop; ++i) fprintf(f, "%s[%d,%d,%d]", i ? "," : "", op[i][0], op[i][1], op[i][2]);
		fprintf(f, "],\"r\":[");
		for (i = 0; i < nop; ++i) fprintf(f, "%s%d", i ? "," : "", r[i]);
		fprintf(f, "],\"it\":[");
		for (i = 0; i < nop; ++i) {
			fprintf(f, "%s[", i ? "," : "");
			if (op[i][0] == 8) for (j = 0; j < itn[i]; ++j) fprintf(f, "%s%d", j ? "," : "", it[i][j]);
			fprintf(f, "]");
		}
		fprintf(f, "]");
	} else {
		fprintf(f, ",\"kinds\":[");
		for (i = 1; i <= ni; ++i) fprintf(f, "%s\"%s\"", i > 1 ? "," : "", NAME[I[i].kind]);
		fprintf(f, "],\"key\":[");
		for (i = 1; i <= no; ++i) fprintf(f, "%s%d", i > 1 ? "," : "", keys[i]);
		fprintf(f, "],\"nk\":%d,\"ns\":%d,\"bs\":%d", nk, (int)sizeof(tommy_node), (int)TOMMY_TRIE_BLOCK_SIZE);
	}
	fprintf(f, ",\"q\":[");
	for (i = 1; i <= ni; ++i) {
		int n = seen(i, q);
		lock(); /* after a write of another instance */
		fprintf(f, "%s[", i > 1 ? "," : "");
		for (j = 0; j < n; ++j) fprintf(f, "%s%d", j ? "," : "", q[j]);
		fprintf(f, "]");
	}
	fprintf(f, "],\"n\":[");
	for (i = 1; i <= ni; ++i) fprintf(f, "%s%lu", i > 1 ? "," : "", (unsigned long)count(i));
	fprintf(f, "],\"mu\":[");
	for (i = 1; i <= ni; ++i) fprintf(f, "%s%lu", i > 1 ? "," : "", (unsigned long)usage(i));
	fprintf(f, "],\"own\":[");
	for (i = 1; i <= ni; ++i) fprintf(f, "%s%lu", i > 1 ? "," : "", owner(i) == i ? (unsigned long)vf_owned_bytes(i) : 0UL);
	fprintf(f, ",%lu,%lu],\"bf\":%u,\"fo\":%u,\"wr\":%d", (unsigned long)vf_owned_bytes(OWN_A), (unsigned long)vf_owned_bytes(OWN_B), bf + bad + !vf_guards_ok(), fo, writes);
#ifdef VF_ARENA
	writes = 0;
#endif
	par_print(f, np);
	fprintf(f, "}\n");
	fflush(f);
	unlock();
}
static int sorted(int i, int* q, int n) { if (I[i].kind >= TABLE && I[i].kind <= LIN) qsort(q, n, sizeof(int), cmpint); return n; }
static int play(FILE* in, FILE* f)
{
	char cmd[8];
	static TL int it0[OMAX * 4], it1[OMAX * 4];
	int* it[2] = { it0, it1 };
	while (fscanf(in, "%7s", cmd) == 1) {
		int op[2][3], r[2], nop = 1, itn[2] = { 0, 0 };
		if (cmd[0] == 'T') {
			if (header(in)) return 2;
			reset(); objects(); vf_op_reset();
			event(f, "init", 0, 0, 0, 0, 0, 0);
		} else if (cmd[0] == 'o' || cmd[0] == 'n') {
			/* n <operation> <callbacks before> <nested operation> */
			if (fscanf(in, "%d %d %d", &op[0][0], &op[0][1], &op[0][2]) != 3) return 2;
			if (cmd[0] == 'n') {
				if (fscanf(in, "%d %d %d %d", &nest.at, &op[1][0], &op[1][1], &op[1][2]) != 4) return 2;
				memcpy(nest.op, op[1], sizeof(nest.op));
				nest.armed = 1; nop = 2;
			}
			vf_op_reset();
			r[0] = apply(op[0]);
			if (nest.armed) nested(); /* not enough callbacks */
			if (op[0][0] == 8) { itn[0] = fe_num[0]; memcpy(it0, fe_buf[0], sizeof(it0)); sorted(op[0][1], it0, itn[0]); }
			if (nop == 2) {
				r[1] = nest.r;
				if (op[1][0] == 8) { itn[1] = fe_num[1]; memcpy(it1, fe_buf[1], sizeof(it1)); sorted(op[1][1], it1, itn[1]); }
			}
			event(f, "op", 0, nop, (const int (*)[3])op, r, it, itn);
		} else if (cmd[0] == 'P') {
			/* P <readers> <times> <seed> */
			int n, times, seed;
			if (fscanf(in, "%d %d %d", &n, &times, &seed) != 3) return 2;
			vf_op_reset();
			n = par(n, times, seed);
			event(f, "par", n, 0, 0, 0, 0, 0);
		} else if (cmd[0] == 'D') {
			const char* e;
			vf_op_reset();
			e = done_all();
			if (e) { fprintf(stderr, "%s\n", e); return 3; }
			reset(); objects();
		} else
			return 2;
	}
	return 0;
}
#ifdef VF_THREADS
/* the scripts in the files of the arguments, each one in a different thread, recorded in files with the same name and suffix .out */
static pthread_barrier_t start;
static void* run(void* arg)
{
	char out[4096];
	FILE* in = fopen(arg, "r");
	FILE* f;
	long r;
	snprintf(out, sizeof(out), "%s.out", (char*)arg);
	f = fopen(out, "w");
	if (!in || !f) exit(2);
	pthread_barrier_wait(&start);
	r = play(in, f);
	fclose(in); fclose(f);
	return (void*)r;
}
int main(int argc, char** argv)
{
	pthread_t t[64];
	int i, rc = 0;
	pthread_attr_t at;
	if (argc < 2 || argc > 64) return 2;
	pthread_attr_init(&at);
	pthread_attr_setstacksize(&at, 16 << 20);
	pthread_barrier_init(&start, 0, argc - 1);
	for (i = 1; i < argc; ++i) if (pthread_create(&t[i], &at, run, argv[i])) return 2;
	for (i = 1; i < argc; ++i) { void* r; pthread_join(t[i], &r); if ((long)r) rc = (int)(long)r; }
	return rc;
}
#else
int main(int argc, char** argv)
{
#ifdef VF_ARENA
	trap();
#endif
	if (argc > 1 && strcmp(argv[1], "graph") == 0) { if (header(stdin)) return 2; return g_main(); }
	return play(stdin, stdout);
}
#endif
