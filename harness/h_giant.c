/* Driver of what can be seen only with sizes over 4 GB; script, recorded for TraceGiant.tla.
 * Memory is not touched by the heap; if the library touches it, the biggest sizes are skipped. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include "tommyds/tommy.h"
#include "ledger.h"
#undef memset
#undef memcpy
typedef unsigned long long u64;
enum { ALLOC = 7, POOL = 8, NKIND };
static int kind, live; /* 0 hashtable, 1 hashdyn, 2 hashlin, 3 trie, 4 trie_inplace, 5 tree, 6 list, 7 allocator, 8 allocator of many blocks */
static const char* NAME[] = { "hashtable", "hashdyn", "hashlin", "trie", "trie_inplace", "tree", "list", "alloc", "pool" };
static union { tommy_hashtable t; tommy_hashdyn d; tommy_hashlin l; tommy_trie r; tommy_trie_inplace i; tommy_tree e; tommy_list s; tommy_allocator a; } c;
static tommy_allocator ta;
static u64 want, base, stride, cap, lo, hi, top;
static size_t nsize;
static char* nodes; static size_t nlen;
static unsigned char* mark; static size_t mlen;
static long bad; static u64 visited, prev;
static void pair(u64 x) { printf("[%u,%u]", (unsigned)(x >> 20), (unsigned)(x & 0xfffff)); }
/* the data of an element is its index, plus one */
static void* data_of(u64 i) { return (void*)(uintptr_t)(i + 1); }
static u64 hash_of(u64 i) { return (base + i * stride) & (tommy_hash_t)~(tommy_hash_t)0; }
static void* node_of(u64 i) { return nodes + (i % cap) * nsize; }
static int compare(const void* a, const void* b) { return a < b ? -1 : a > b; }
static int match(const void* arg, const void* data) { return arg != data; }
static void* region(size_t n)
{
	void* p = mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (p == MAP_FAILED) { fprintf(stderr, "no address space\n"); exit(75); }
	return p;
}
static long resident(void)
{
	long a, b = 0; FILE* f = fopen("/proc/self/statm", "r");
	if (f) { if (fscanf(f, "%ld %ld", &a, &b) != 2) b = 0; fclose(f); }
	return b >> 8; /* MiB */
}
static void c_init(void)
{
	memset(&c, 0xA5, sizeof(c));
	switch (kind) {
	case 0 : tommy_hashtable_init(&c.t, want); nsize = sizeof(tommy_hashtable_node); break;
	case 1 : tommy_hashdyn_init(&c.d); nsize = sizeof(tommy_hashdyn_node); break;
	case 2 : tommy_hashlin_init(&c.l); nsize = sizeof(tommy_hashlin_node); break;
	case 3 : tommy_allocator_init(&ta, TOMMY_TRIE_BLOCK_SIZE, TOMMY_TRIE_BLOCK_SIZE); tommy_trie_init(&c.r, &ta); nsize = sizeof(tommy_trie_node); break;
	case 4 : tommy_trie_inplace_init(&c.i); nsize = sizeof(tommy_trie_inplace_node); break;
	case 5 : tommy_tree_init(&c.e, compare); nsize = sizeof(tommy_tree_node); break;
	case 6 : tommy_list_init(&c.s); nsize = sizeof(tommy_node); break;
	case POOL : tommy_allocator_init(&c.a, want, base); nsize = sizeof(void*); break; /* an array of pointers to the blocks */
	}
}
static void c_done(void)
{
	switch (kind) {
	case 0 : tommy_hashtable_done(&c.t); break;
	case 1 : tommy_hashdyn_done(&c.d); break;
	case 2 : tommy_hashlin_done(&c.l); break;
	case 3 : tommy_allocator_done(&ta); break;
	case POOL : case ALLOC : tommy_allocator_done(&c.a); break;
	}
}
static u64 c_count(void)
{
	switch (kind) {
	case 0 : return tommy_hashtable_count(&c.t);
	case 1 : return tommy_hashdyn_count(&c.d);
	case 2 : return tommy_hashlin_count(&c.l);
	case 3 : return tommy_trie_count(&c.r);
	case 4 : return tommy_trie_inplace_count(&c.i);
	case 5 : return tommy_tree_count(&c.e);
	case 6 : return tommy_list_count(&c.s);
	case POOL : return hi - lo; /* not told */
	}
	return 0;
}
static u64 c_usage(void)
{
	switch (kind) {
	case 0 : return tommy_hashtable_memory_usage(&c.t);
	case 1 : return tommy_hashdyn_memory_usage(&c.d);
	case 2 : return tommy_hashlin_memory_usage(&c.l);
	case 3 : return tommy_trie_memory_usage(&c.r);
	case 4 : return tommy_trie_inplace_memory_usage(&c.i);
	case 5 : return tommy_tree_memory_usage(&c.e);
	case 6 : return 0;
	}
	return tommy_allocator_memory_usage(&c.a);
}
static void c_insert(u64 i)
{
	void* n = node_of(i); void* d = data_of(i);
	switch (kind) {
	case 0 : tommy_hashtable_insert(&c.t, n, d, hash_of(i)); break;
	case 1 : tommy_hashdyn_insert(&c.d, n, d, hash_of(i)); break;
	case 2 : tommy_hashlin_insert(&c.l, n, d, hash_of(i)); break;
	case 3 : tommy_trie_insert(&c.r, n, d, hash_of(i)); break;
	case 4 : tommy_trie_inplace_insert(&c.i, n, d, hash_of(i)); break;
	case 5 : if (tommy_tree_insert(&c.e, n, d) != d) ++bad; break;
	case POOL : {
		char* p = tommy_allocator_alloc(&c.a);
		*(char**)n = p;
		if ((uintptr_t)p % (base ? base : 1)) ++bad;
		/* what's written there is kept */
		memcpy(p, &d, sizeof(d));
		memcpy(p + want - sizeof(d), &d, sizeof(d));
		break; }
	case 6 : tommy_list_insert_tail(&c.s, n, d); if (tommy_list_tail(&c.s) != n) ++bad; break;
	}
}
static void c_remove(u64 i, int back)
{
	void* n = node_of(i); void* d = data_of(i); void* g = 0;
	int known = (i & 1) || (back && stride == 0); /* equal elements are removed from the first */
	switch (kind) {
	case 0 : g = known ? tommy_hashtable_remove_existing(&c.t, n) : tommy_hashtable_remove(&c.t, match, d, hash_of(i)); break;
	case 1 : g = known ? tommy_hashdyn_remove_existing(&c.d, n) : tommy_hashdyn_remove(&c.d, match, d, hash_of(i)); break;
	case 2 : g = known ? tommy_hashlin_remove_existing(&c.l, n) : tommy_hashlin_remove(&c.l, match, d, hash_of(i)); break;
	case 3 : g = known ? tommy_trie_remove_existing(&c.r, n) : tommy_trie_remove(&c.r, hash_of(i)); break;
	case 4 : g = known ? tommy_trie_inplace_remove_existing(&c.i, n) : tommy_trie_inplace_remove(&c.i, hash_of(i)); break;
	case 5 : g = known ? tommy_tree_remove_existing(&c.e, n) : tommy_tree_remove(&c.e, d); break;
	case POOL : {
		char* p = *(char**)n; void* e;
		memcpy(&g, p, sizeof(d));
		memcpy(&e, p + want - sizeof(d), sizeof(d));
		if (e != d) ++bad;
		tommy_allocator_free(&c.a, p);
		break; }
	case 6 : if ((known ? tommy_list_head(&c.s) : tommy_list_tail(&c.s)) != n && (known ? tommy_list_tail(&c.s) : tommy_list_head(&c.s)) != n) ++bad; g = tommy_list_remove_existing(&c.s, n); break;
	}
	if (g != d) ++bad;
}
static int c_search(u64 i, int* chain)
{
	void* d = data_of(i); void* g = 0; tommy_node* b = 0;
	*chain = 0;
	switch (kind) {
	case 0 : g = tommy_hashtable_search(&c.t, match, d, hash_of(i)); b = tommy_hashtable_bucket(&c.t, hash_of(i)); break;
	case 1 : g = tommy_hashdyn_search(&c.d, match, d, hash_of(i)); b = tommy_hashdyn_bucket(&c.d, hash_of(i)); break;
	case 2 : g = tommy_hashlin_search(&c.l, match, d, hash_of(i)); b = tommy_hashlin_bucket(&c.l, hash_of(i)); break;
	case 3 : g = tommy_trie_search(&c.r, hash_of(i)); b = (tommy_node*)tommy_trie_bucket(&c.r, hash_of(i)); *chain = (b != 0) - 1; break;
	case 4 : g = tommy_trie_inplace_search(&c.i, hash_of(i)); break;
	case 5 : g = tommy_tree_search(&c.e, d); break;
	}
	if (kind < 3) for (; b && *chain < 1000; b = b->next) ++*chain;
	else *chain = 0;
	if (stride == 0 && (kind == 3 || kind == 4)) {
		/* all with the same key: the first is found, and the others follow */
		if (g != (hi > lo ? data_of(lo) : 0)) ++bad;
		if (kind == 4) b = (tommy_node*)tommy_trie_inplace_bucket(&c.i, hash_of(i));
		else b = (tommy_node*)tommy_trie_bucket(&c.r, hash_of(i));
		if (kind == 4) { tommy_trie_inplace_node* x = (tommy_trie_inplace_node*)b; while (x && x->data != d) x = x->next; g = x ? d : 0; }
		else { tommy_trie_node* x = (tommy_trie_node*)b; while (x && x->data != d) x = x->next; g = x ? d : 0; }
		return g != 0;
	}
	if (g && g != d) ++bad;
	return g != 0;
}
static void visit(void* d)
{
	u64 i = (u64)(uintptr_t)d - 1;
	++visited;
	if (mark[i % cap]) ++bad; else mark[i % cap] = 1;
	/* in order */
	if (kind >= 5) { if (visited > 1 && i != prev + 1) ++bad; prev = i; }
}
static void event(const char* e, u64 m, int np, const u64* p, int each)
{
	int i, mx = 0;
	unsigned al = vf_allocs, fr = vf_frees, bf = vf_badfrees;
	printf("{\"e\":\"%s\",\"m\":", e); pair(m);
	printf(",\"n\":"); pair(live ? c_count() : 0);
	printf(",\"mu\":"); pair(live ? c_usage() : 0);
	printf(",\"au\":"); pair(live && kind == 3 ? tommy_allocator_memory_usage(&ta) : 0);
	printf(",\"ob\":"); pair(vf_live_bytes);
	printf(",\"al\":%u,\"fr\":%u,\"bf\":%u,\"pq\":[", al, fr, bf);
	if (kind >= 6) np = 0; /* nothing to search */
	for (i = 0; i < np; ++i) { if (i) printf(","); pair(p[i]); }
	printf("],\"pf\":[");
	for (i = 0; i < np; ++i) { int len; printf("%s%d", i ? "," : "", c_search(p[i], &len)); if (len > mx) mx = len; }
	printf("],\"mx\":%d,\"fe\":", mx);
	if (each) {
		visited = 0;
		mark = region(mlen = cap);
		if (kind == 0) tommy_hashtable_foreach(&c.t, visit);
		if (kind == 1) tommy_hashdyn_foreach(&c.d, visit);
		if (kind == 2) tommy_hashlin_foreach(&c.l, visit);
		if (kind == 5) tommy_tree_foreach(&c.e, visit);
		if (kind == 6) tommy_list_foreach(&c.s, visit);
		munmap(mark, mlen);
		pair(visited);
	} else printf("[0,0]");
	printf(",\"fo\":%d,\"bad\":%ld", each, bad);
	if (e[0] == 'i' && e[2] == 'i') {
		printf(",\"c\":\"%s\",\"ptr\":%d,\"node\":%d,\"stride\":%llu,\"want\":", NAME[kind], (int)sizeof(void*), (int)nsize, stride); pair(want);
		printf(",\"block\":"); pair(want); printf(",\"align\":"); pair(base); printf(",\"k\":%llu", want / (base > sizeof(void*) ? base : sizeof(void*)) + (want % (base > sizeof(void*) ? base : sizeof(void*)) != 0));
	}
	printf("}\n");
	fflush(stdout);
}
/* ---- allocator */
#define SMAX 512
static unsigned char* slot[SMAX]; static u64 blk, ali, mult; static u64 sid[SMAX];
static u64 freed; static int ra;
#define EDGE 64
static unsigned char pat(int s, u64 i) { return (unsigned char)(1 + (s * 31 + i * 7) % 255); }
static void fill(int s) { u64 i; for (i = 0; i < blk; ++i) { if (i == EDGE && blk > 2 * EDGE) i = blk - EDGE; slot[s][i] = pat(s, i); } }
static int kept(int s) { u64 i; for (i = 0; i < blk; ++i) { if (i == EDGE && blk > 2 * EDGE) i = blk - EDGE; if (slot[s][i] != pat(s, i)) return 0; } return 1; }
static void aevent(const char* e, int n, const int* s, int full)
{
	int i;
	unsigned al = vf_allocs, fr = vf_frees, bf = vf_badfrees;
	for (i = 0; live && i < SMAX; ++i) if (slot[i] && vf_find(slot[i], blk) && !kept(i)) ++bad;
	printf("{\"e\":\"%s\",\"s\":[", e);
	for (i = 0; i < n; ++i) printf("%s%d", i ? "," : "", s[i] + 1);
	printf("],\"mu\":"); pair(live ? c_usage() : 0);
	printf(",\"ob\":"); pair(vf_live_bytes);
	printf(",\"oc\":%u,\"al\":%u,\"fr\":%u,\"bf\":%u,\"ra\":%d,\"bad\":%ld,\"b\":[", (unsigned)vf_live_blocks, al, fr, bf, ra, bad);
	for (i = 0; full && i < n; ++i) {
		vf_block* h = vf_find(slot[s[i]], blk);
		printf("%s[%u,", i ? "," : "", h ? h->id : 0); pair(h ? slot[s[i]] - h->ptr : 0);
		printf(","); pair(h ? h->size : 0); printf(",%d]", (uintptr_t)slot[s[i]] % (ali ? ali : 1) != 0);
	}
	printf("]");
	if (e[0] == 'i') {
		printf(",\"c\":\"alloc\",\"ptr\":%d,\"k\":%llu,\"block\":", (int)sizeof(void*), mult); pair(blk);
		printf(",\"align\":"); pair(ali);
	}
	printf("}\n");
	fflush(stdout);
}
static void drop(void) { if (live) { c_done(); vf_forget_all(); live = 0; } if (nodes) munmap(nodes, nlen); nodes = 0; }
int main(void)
{
	char op[8], name[32];
	int skip = 0, i;
	u64 limit = ~(u64)0, m;
	vf_lazy = 1;
	/* is the memory of a new table touched? */
	kind = 0; want = (u64)1 << 25;
	{
		long b = resident();
		c_init(); live = 1;
		if (resident() - b > 32) limit = (u64)1 << 28;
		drop();
	}
	while (scanf("%7s", op) == 1) {
		vf_op_reset();
		switch (op[0]) {
		case 'T' : /* T kind want base stride cap */
			drop();
			if (scanf("%31s %llu %llu %llu %llu", name, &want, &base, &stride, &cap) != 5) return 2;
			for (kind = 0; kind < NKIND && strcmp(NAME[kind], name); ++kind);
			skip = want > limit;
			if (skip) break;
			bad = 0; lo = hi = 0;
			c_init();
			nodes = region(nlen = cap * nsize);
			live = 1;
			event("init", 0, 0, 0, 0);
			break;
		case 'i' : if (scanf("%llu", &m) != 1) return 2; if (skip) break; top = hi + m; for (; hi < top; ++hi) c_insert(hi); event("ins", m, 0, 0, 0); break;
		case 'f' : if (scanf("%llu", &m) != 1) return 2; if (skip) break; top = lo + m; for (; lo < top; ++lo) c_remove(lo, 0); event("out", m, 0, 0, 0); break;
		case 'p' : if (scanf("%llu", &m) != 1) return 2; if (skip) break; top = hi - m; while (hi > top) c_remove(--hi, 1); event("pop", m, 0, 0, 0); break;
		case 'o' : case 'e' : { /* o n indexes */
			u64 p[64]; int n;
			if (scanf("%d", &n) != 1 || n > 64) return 2;
			for (i = 0; i < n; ++i) if (scanf("%llu", &p[i]) != 1) return 2;
			if (!skip) event("obs", 0, n, p, op[0] == 'e');
			break; }
		case 'D' : if (skip) break; while (kind >= 3 && kind < 5 && hi > lo) c_remove(--hi, 1); c_done(); live = 0; event("don", 0, 0, 0, 0); vf_forget_all(); drop(); break;
		/* allocator: A block align multiple; a n slots; x n slots; E */
		case 'A' :
			drop();
			if (scanf("%llu %llu %llu", &blk, &ali, &mult) != 3) return 2;
			kind = ALLOC; skip = 0; bad = 0; freed = 0; ra = 0;
			for (i = 0; i < SMAX; ++i) slot[i] = 0;
			memset(&c, 0xA5, sizeof(c));
			tommy_allocator_init(&c.a, blk, ali);
			live = 1;
			aevent("init", 0, 0, 0);
			break;
		case 'a' : case 'x' : {
			int s[SMAX], n;
			if (scanf("%d", &n) != 1 || n > SMAX) return 2;
			for (i = 0; i < n; ++i) if (scanf("%d", &s[i]) != 1 || s[i] < 0 || s[i] >= SMAX) return 2;
			ra = 0;
			for (i = 0; i < n; ++i)
				if (op[0] == 'a') {
					unsigned before = vf_allocs;
					slot[s[i]] = tommy_allocator_alloc(&c.a);
					if (freed) { --freed; if (vf_allocs != before) ra = 1; }
					if (vf_find(slot[s[i]], blk)) fill(s[i]);
				} else {
					if (!kept(s[i])) ++bad;
					tommy_allocator_free(&c.a, slot[s[i]]);
					slot[s[i]] = 0; ++freed;
				}
			aevent(op[0] == 'a' ? "all" : "fre", n, s, op[0] == 'a');
			break; }
		case 'E' : c_done(); live = 0; aevent("don", 0, 0, 0); vf_forget_all(); break;
		default : return 2;
		}
	}
	return 0;
}
