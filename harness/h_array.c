/* Driver of the arrays. "graph": transitions of Arrays.tla; default: script, recorded for TraceArray.tla. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "tommyds/tommy.h"
#include "ledger.h"
#include "graph.h"

typedef unsigned long long u64;
static int kind, es; /* 0 array, 1 arrayof, 2 arrayblk, 3 arrayblkof */
static union { tommy_array a; tommy_arrayof o; tommy_arrayblk b; tommy_arrayblkof f; }* arr;
#define KMAX 512
static int nk; static u64 lo[KMAX], hi[KMAX];

static void a_init(void)
{
	arr = malloc(sizeof(*arr));
	memset(arr, 0xA5, sizeof(*arr)); vf_undef(arr, sizeof(*arr));
	switch (kind) {
	case 0 : tommy_array_init(&arr->a); break;
	case 1 : tommy_arrayof_init(&arr->o, es); break;
	case 2 : tommy_arrayblk_init(&arr->b); break;
	case 3 : tommy_arrayblkof_init(&arr->f, es); break;
	}
}
static void a_done(void)
{
	switch (kind) {
	case 0 : tommy_array_done(&arr->a); break;
	case 1 : tommy_arrayof_done(&arr->o); break;
	case 2 : tommy_arrayblk_done(&arr->b); break;
	case 3 : tommy_arrayblkof_done(&arr->f); break;
	}
	free(arr);
	arr = 0;
}
static u64 a_size(void)
{
	switch (kind) {
	case 0 : return tommy_array_size(&arr->a);
	case 1 : return tommy_arrayof_size(&arr->o);
	case 2 : return tommy_arrayblk_size(&arr->b);
	}
	return tommy_arrayblkof_size(&arr->f);
}
static u64 a_usage(void)
{
	switch (kind) {
	case 0 : return tommy_array_memory_usage(&arr->a);
	case 1 : return tommy_arrayof_memory_usage(&arr->o);
	case 2 : return tommy_arrayblk_memory_usage(&arr->b);
	}
	return tommy_arrayblkof_memory_usage(&arr->f);
}
static void a_grow(u64 n)
{
	switch (kind) {
	case 0 : tommy_array_grow(&arr->a, n); break;
	case 1 : tommy_arrayof_grow(&arr->o, n); break;
	case 2 : tommy_arrayblk_grow(&arr->b, n); break;
	case 3 : tommy_arrayblkof_grow(&arr->f, n); break;
	}
}
static unsigned char* a_ref(u64 p)
{
	switch (kind) {
	case 0 : return (unsigned char*)tommy_array_ref(&arr->a, p);
	case 1 : return (unsigned char*)tommy_arrayof_ref(&arr->o, p);
	case 2 : return (unsigned char*)tommy_arrayblk_ref(&arr->b, p);
	}
	return (unsigned char*)tommy_arrayblkof_ref(&arr->f, p);
}
static u64 mix(u64 v, u64 p)
{
	u64 x = (p + 1) * 0x9E3779B97F4A7C15ULL + v * 0xD1B54A32D192ED03ULL;
	x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ULL; x ^= x >> 32;
	return x;
}
/* any value can be stored: null, all the bits, odd and even ones */
static void* ptr_of(int v, u64 p) { return (void*)(v == 0 ? (uintptr_t)0 : v == 6 ? ~(uintptr_t)0 : v == 2 ? (uintptr_t)(mix(v, p) | 8) & ~(uintptr_t)7 : (uintptr_t)(mix(v, p) | 1)); }
static unsigned char byte_of(u64 m, int j, int v) { if (j == 0) return (unsigned char)(v | (m >> 40 & 31) << 3); return (unsigned char)(1 + (m >> (j % 7 * 8) & 0xff) % 255 % (255 - j / 7 % 200)); }
/* the bytes written and read, in the elements that are very big */
static int next_byte(int j) { if (es <= 4096 || j < 64 || j >= es - 64) return j + 1; j += 4093 - j % 7; return j < es - 64 ? j : es - 64; }
static void a_set(u64 p, int v)
{
	if (kind == 0) tommy_array_set(&arr->a, p, ptr_of(v, p));
	else if (kind == 2) tommy_arrayblk_set(&arr->b, p, ptr_of(v, p));
	else {
		unsigned char* x = a_ref(p);
		u64 m = mix(v, p);
		int j;
		for (j = 0; j < es; j = next_byte(j)) x[j] = v ? byte_of(m, j, v) : 0;
	}
}
static void a_insert(int v)
{
	u64 p = a_size();
	if (kind == 0) tommy_array_insert(&arr->a, ptr_of(v, p));
	else if (kind == 2) tommy_arrayblk_insert(&arr->b, ptr_of(v, p));
	else { a_grow(p + 1); a_set(p, v); }
}
static int holds(u64 p, int v)
{
	if (kind == 0 || kind == 2) {
		void* x = kind == 0 ? tommy_array_get(&arr->a, p) : tommy_arrayblk_get(&arr->b, p);
		return x == ptr_of(v, p) && memcmp(a_ref(p), &x, sizeof(x)) == 0;
	} else {
		unsigned char* x = a_ref(p);
		u64 m = mix(v, p);
		int j;
		for (j = 0; j < es; j = next_byte(j)) if (x[j] != (v ? byte_of(m, j, v) : 0)) return 0;
		return 1;
	}
}
static int value_at(u64 p) { int v; for (v = 0; v < 8; ++v) if (holds(p, v)) return v; return -1; }
static int value_of(int k)
{
	u64 n = a_size(), p;
	int v = 0;
	for (p = lo[k]; p < hi[k] && p < n; ++p) {
		if (p == lo[k]) { v = value_at(p); if (v < 0) return -1; }
		else if (!holds(p, v)) return -1;
	}
	return v;
}
/* runs of addresses */
typedef struct { u64 p, c; vf_block* h; unsigned char* a; } run;
static run* runs; static int rn, rmax;
static void walk(void)
{
	u64 n = a_size(), p;
	int k;
	vf_block* h = 0;
	rn = 0;
	for (k = 0; k < nk; ++k) for (p = lo[k]; p < hi[k] && p < n; ++p) {
		unsigned char* a = a_ref(p);
		run* r = rn ? &runs[rn - 1] : 0;
		if (!h || a < h->ptr || a + es > h->ptr + h->size) h = vf_find(a, es);
		if (r && r->h == h && r->p + r->c == p && r->a + r->c * es == a) { ++r->c; continue; }
		if (rn == rmax) { rmax = rmax ? rmax * 2 : 64; runs = realloc(runs, rmax * sizeof(run)); }
		r = &runs[rn++];
		r->p = p; r->c = 1; r->h = h; r->a = a;
	}
}
static void pair(u64 x) { printf("[%u,%u]", (unsigned)(x >> 20), (unsigned)(x & 0xfffff)); }

/* ---- graph */
static int addresses;
static unsigned char* addr[64]; static u64 addrn;
void g_begin(void) { vf_op_reset(); a_init(); addrn = 0; }
static const char* fault;
int g_apply(const int* op, int nop)
{
	u64 i, j, n;
	(void)nop;
	switch (op[0]) {
	case 1 : a_grow(op[1]); break;
	case 2 : a_set(op[1], op[2]); break;
	default : a_insert(op[2]); break;
	}
	fault = 0;
	if (addresses == 1) {
		n = a_size();
		for (i = 0; i < n && i < 64; ++i) {
			unsigned char* a = a_ref(i);
			if (i < addrn && a != addr[i]) fault = "address changed";
			if (!vf_find(a, es)) fault = "address not in the memory of the array";
			if (es <= (int)sizeof(void*) && (es & (es - 1)) == 0 && (uintptr_t)a % es != 0) fault = "address not aligned";
			addr[i] = a;
		}
		addrn = n;
		for (i = 0; i < n; ++i) for (j = 0; j < i; ++j)
			if (addr[i] < addr[j] + es && addr[j] < addr[i] + es) fault = "addresses overlap";
	}
	return 0;
}
int g_observe(int* out) { u64 n = a_size(), i; for (i = 0; i < n && i < G_OBS; ++i) out[i] = value_at(i); return (int)i; }
/* bound of the bytes that can be owned */
static u64 seg_max(u64 n, int bit) { return n <= (u64)1 << bit ? (u64)1 << bit : 2 * n - 1; }
static u64 bytes_max(void)
{
#if defined(TOMMY_ARRAY_BIT) && defined(TOMMY_ARRAYOF_BIT) && defined(TOMMY_ARRAYBLK_SIZE) && defined(TOMMY_ARRAYBLKOF_SIZE)
	u64 n = a_size();
	u64 b = kind == 2 ? TOMMY_ARRAYBLK_SIZE : TOMMY_ARRAYBLKOF_SIZE, nb = (n + b - 1) / b;
	if (kind < 2) return seg_max(n, kind ? TOMMY_ARRAYOF_BIT : TOMMY_ARRAY_BIT) * es;
	return nb * b * es + seg_max(nb, TOMMY_ARRAY_BIT) * sizeof(void*);
#else
	return ~(u64)0;
#endif
}
const char* g_check(void) { if (addresses == 4) return vf_live_bytes > bytes_max() ? "more memory than needed" : 0; return addresses == 3 && a_usage() != vf_live_bytes ? "usage isn't the heap owned" : fault; }
const char* g_end(unsigned n)
{
	(void)n;
	if (addresses == 2 && (vf_frees || vf_badfrees)) return "memory released by an operation";
	a_done();
	if (addresses == 2 && (vf_live_blocks || vf_badfrees)) return "memory not released once by the deinitialization";
	vf_forget_all();
	return 0;
}

/* ---- script */
static void event(const char* e, int k, int v, u64 p, int oq, int ox)
{
	int i;
	unsigned al = vf_allocs, fr = vf_frees, bf = vf_badfrees + !vf_guards_ok();
	if (ox) walk();
	printf("{\"e\":\"%s\",\"k\":%d,\"v\":%d,\"p\":", e, k, v);
	pair(p);
	printf(",\"n\":"); pair(arr ? a_size() : 0);
	printf(",\"mu\":"); pair(arr ? a_usage() : 0);
	printf(",\"ob\":"); pair(vf_live_bytes);
	printf(",\"oc\":%u,\"al\":%u,\"fr\":%u,\"bf\":%u,\"oq\":%d,\"ox\":%d,\"q\":[", (unsigned)vf_live_blocks, al, fr, bf, oq, ox);
	if (oq) for (i = 0; i < nk; ++i) printf("%s%d", i ? "," : "", value_of(i));
	printf("],\"runs\":[");
	if (ox) for (i = 0; i < rn; ++i) {
		run* r = &runs[i];
		printf("%s{\"p\":", i ? "," : ""); pair(r->p);
		printf(",\"c\":"); pair(r->c);
		printf(",\"id\":%u,\"o\":", r->h ? r->h->id : 0); pair(r->h ? r->a - r->h->ptr : 0);
		printf(",\"am\":%u,\"hs\":", (unsigned)((uintptr_t)r->a % 64)); pair(r->h ? r->h->size : 0);
		printf("}");
	}
	printf("]");
	if (e[0] == 'i' && e[2] == 'i') {
		printf(",\"kind\":%d,\"es\":%d,\"ptr\":%d,\"lo\":[", kind, es, (int)sizeof(void*));
		for (i = 0; i < nk; ++i) { if (i) printf(","); pair(lo[i]); }
		printf("],\"hi\":[");
		for (i = 0; i < nk; ++i) { if (i) printf(","); pair(hi[i]); }
		printf("]");
	}
	printf("}\n");
	fflush(stdout);
}
static int script(void)
{
	char op[8];
	int obs = 3;
	while (scanf("%7s", op) == 1) {
		int k = 0, v = 0, i;
		u64 p = 0;
		vf_op_reset();
		switch (op[0]) {
		case 'T' : /* T kind es obs nk (lo hi)* */
			if (arr) { a_done(); vf_forget_all(); vf_op_reset(); }
			if (scanf("%d %d %d %d", &kind, &es, &obs, &nk) != 4 || nk > KMAX) return 2;
			if (kind == 0 || kind == 2) es = sizeof(void*);
			for (i = 0; i < nk; ++i) if (scanf("%llu %llu", &lo[i], &hi[i]) != 2) return 2;
			a_init();
			event("init", 0, 0, 0, 0, 1);
			break;
		case 'g' : if (scanf("%llu", &p) != 1) return 2; a_grow(p); event("grow", 0, 0, p, obs & 1, obs >> 1 & 1); break;
		case 'i' : if (scanf("%d %d", &k, &v) != 2) return 2; for (p = lo[k - 1]; p < hi[k - 1]; ++p) a_insert(v); event("ins", k, v, 0, obs & 1, obs >> 1 & 1); break;
		case 'w' : if (scanf("%d %d", &k, &v) != 2) return 2; for (p = lo[k - 1]; p < hi[k - 1] && p < a_size(); ++p) a_set(p, v); event("set", k, v, 0, obs & 1, obs >> 1 & 1); break;
		case 'o' : event("obs", 0, 0, 0, 1, 1); break;
		case 'D' : a_done(); event("done", 0, 0, 0, 0, 0); vf_forget_all(); break;
		default : return 2;
		}
	}
	return 0;
}
int main(int argc, char** argv)
{
	if (argc > 4 && strcmp(argv[1], "graph") == 0) {
		addresses = atoi(argv[2]);
		kind = atoi(argv[3]);
		es = kind == 0 || kind == 2 ? (int)sizeof(void*) : atoi(argv[4]);
		return g_main();
	}
	vf_lazy = argc > 1 && strcmp(argv[1], "lazy") == 0;
	return script();
}
