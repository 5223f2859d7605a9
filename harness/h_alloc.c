/* Driver of the allocator. "graph": transitions of BlockAlloc.tla; default: script, recorded for TraceAlloc.tla. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "tommyds/tommy.h"
#include "ledger.h"
#include "graph.h"
#define SMAX 8192
static tommy_allocator* al;
static unsigned blk, ali;
static struct { unsigned char* p; unsigned seed; } slot[SMAX];
static unsigned seedn;
static long freed, used;
static int data_ok, reuse_bad;
static unsigned char pat(unsigned seed, unsigned i) { return (unsigned char)(1 + (seed * 31 + i * 7 + (i >> 5) * 3) % 255); }
static int check_data(int s)
{
	unsigned i;
	/* the ends only, if big */
	for (i = 0; i < blk; ++i) { if (i == 128 && blk > 256) i = blk - 128; if (slot[s].p[i] != pat(slot[s].seed, i)) return 0; }
	return 1;
}
static void init(unsigned b, unsigned a)
{
	int i;
	if (al) free(al);
	al = malloc(sizeof(*al));
	memset(al, 0xA5, sizeof(*al)); vf_undef(al, sizeof(*al));
	blk = b; ali = a;
	for (i = 0; i < SMAX; ++i) slot[i].p = 0;
	freed = used = 0; data_ok = 1; reuse_bad = 0;
	tommy_allocator_init(al, b, a);
}
static void do_alloc(int s)
{
	unsigned before = vf_allocs, i;
	slot[s].p = tommy_allocator_alloc(al);
	if (freed > 0) { --freed; if (vf_allocs != before) reuse_bad = 1; }
	++used;
	slot[s].seed = ++seedn;
	if (vf_find(slot[s].p, blk)) for (i = 0; i < blk; ++i) slot[s].p[i] = pat(seedn, i);
}
static void do_free(int s)
{
	if (!check_data(s)) data_ok = 0;
	tommy_allocator_free(al, slot[s].p);
	slot[s].p = 0;
	++freed; --used;
}
static void check_all(void) { int i; for (i = 0; i < SMAX; ++i) if (slot[i].p && vf_find(slot[i].p, blk) && !check_data(i)) data_ok = 0; }
/* ---- graph */
static unsigned gb, ga; static int mode; static const char* fault; static int gmax;
static unsigned rounded(void) { unsigned a = ga < sizeof(void*) ? sizeof(void*) : ga; return (gb + a - 1) / a * a; }
void g_begin(void) { init(gb, ga); fault = 0; vf_op_reset(); }
int g_apply(const int* op, int nop)
{
	int s = op[1] - 1, i;
	(void)nop;
	if (op[0] == 1) {
		do_alloc(s);
		if (mode == 0) {
			if (!vf_find(slot[s].p, blk)) fault = "block not in the memory obtained";
			else if ((uintptr_t)slot[s].p % (ga ? ga : 1) != 0) fault = "block not aligned";
			for (i = 0; i < SMAX && i < gmax; ++i) if (i != s && slot[i].p && slot[i].p < slot[s].p + blk && slot[s].p < slot[i].p + blk) fault = "blocks overlap";
		}
	} else do_free(s);
	for (i = 0; i < gmax; ++i) if (slot[i].p && !check_data(i)) data_ok = 0;
	return 0;
}
int g_observe(int* out) { int i; for (i = 0; i < gmax; ++i) out[i] = slot[i].p != 0; return gmax; }
const char* g_check(void)
{
	if (mode == 0) {
		if (fault) return fault;
		if (!data_ok) return "data of a block in use changed";
		if (reuse_bad) return "memory asked with blocks deallocated available";
	}
	if (mode != 2 && tommy_allocator_memory_usage(al) != (tommy_size_t)used * rounded()) return "usage";
	if (mode != 1 && (vf_frees || vf_badfrees || !vf_guards_ok())) return "memory released, or written outside";
	return 0;
}
const char* g_end(unsigned n)
{
	(void)n;
	tommy_allocator_done(al);
	if (mode != 1 && (vf_live_blocks || vf_badfrees)) return "memory not released once by the deinitialization";
	vf_forget_all();
	return 0;
}
/* ---- script */
static int list[SMAX], listn;
static void event(const char* e)
{
	int i;
	unsigned a = vf_allocs, f = vf_frees, b = vf_badfrees + !vf_guards_ok();
	printf("{\"e\":\"%s\",\"block\":%u,\"align\":%u,\"ptr\":%d,\"mu\":%lu,\"ob\":%lu,\"oc\":%lu,\"al\":%u,\"fr\":%u,\"bf\":%u,\"data\":%d,\"ra\":%d,\"s\":[", e, blk, ali, (int)sizeof(void*),
		(unsigned long)tommy_allocator_memory_usage(al), (unsigned long)vf_live_bytes, (unsigned long)vf_live_blocks, a, f, b, data_ok, reuse_bad);
	for (i = 0; i < listn; ++i) printf("%s%d", i ? "," : "", list[i]);
	printf("],\"b\":[");
	if (e[0] == 'a') for (i = 0; i < listn; ++i) {
		unsigned char* p = slot[list[i]].p;
		vf_block* h = vf_find(p, 1);
		printf("%s[%u,%ld,%lu,%u]", i ? "," : "", h ? h->id : 0, h ? (long)(p - h->ptr) : 0L, h ? (unsigned long)h->size : 0UL, (unsigned)((uintptr_t)p % (ali ? ali : 1)));
	}
	printf("]}\n");
	fflush(stdout);
}
static int script(void)
{
	char op[8];
	while (scanf("%7s", op) == 1) {
		int n, i;
		unsigned b, a, m, o;
		vf_op_reset();
		listn = 0; reuse_bad = 0;
		switch (op[0]) {
		case 'T' : /* T block align modulus offset */
			if (scanf("%u %u %u %u", &b, &a, &m, &o) != 4) return 2;
			if (al) vf_forget_all();
			vf_mis_mod = m; vf_mis = o;
			init(b, a);
			event("init");
			break;
		case 'I' : init(blk, ali); event("ini"); break;
		case 'a' : /* allocates n slots */
			if (scanf("%d", &n) != 1) return 2;
			for (i = 0; i < SMAX && listn < n; ++i) if (!slot[i].p) { do_alloc(i); list[listn++] = i; }
			check_all();
			event("all");
			break;
		case 'f' : /* n, slots */
			if (scanf("%d", &n) != 1) return 2;
			while (n-- > 0) { if (scanf("%d", &i) != 1 || !slot[i].p) return 2; do_free(i); list[listn++] = i; }
			check_all();
			event("fre");
			break;
		case 'D' : tommy_allocator_done(al); event("don"); break;
		default : return 2;
		}
	}
	return 0;
}
int main(int argc, char** argv)
{
	if (argc > 6 && strcmp(argv[1], "graph") == 0) {
		mode = atoi(argv[2]);
		gb = atoi(argv[3]);
		ga = atoi(argv[4]);
		vf_mis_mod = atoi(argv[5]); vf_mis = atoi(argv[6]);
		if (scanf("%d", &gmax) != 1) return 2;
		return g_main();
	}
	return script();
}
