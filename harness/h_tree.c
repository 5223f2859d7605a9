/* Driver of the tree. "graph": transitions of Tree.tla; default: script, recorded for TraceTree.tla. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <limits.h>
#include "tommyds/tommy.h"
#include "ledger.h"
#include "graph.h"

#define MAGIC 0x600df00d
#define BMAX 256
#define CMAX 4
typedef struct { unsigned magic; int blk, copy; unsigned idx; int key; int in, visits; tommy_node node; unsigned tail; } object;
static int nblk, group_size = 4;
static unsigned bsize[BMAX];
static int bbase[BMAX], bmul[BMAX];
static object** reg[BMAX][CMAX]; /* in the tree */
static tommy_tree* tree;
static long total; /* elements in the tree, in the opinion of the driver */

/* the data given to the library is opaque: it can be any value, not only the address of something */
static uintptr_t veil; static unsigned veil_no;
static const uintptr_t veils[] = { 0, ~(uintptr_t)0, 1, ~(uintptr_t)0 >> 1, 2 };
static void* hide(const void* o) { return (void*)((uintptr_t)o ^ veil); }
static void* show(const void* d) { return d ? (void*)((uintptr_t)d ^ veil) : 0; }

static unsigned long cmps; static int bad, rot;
static object* probe; /* the only one out of the tree that can be compared */
static const int pos_v[] = { 1, INT_MAX, 2, 0x10000, 256, 0x40000000 };
static const int neg_v[] = { -1, INT_MIN, -2, -0x10000, -256, -0x40000000 };
static int sign(long long d) { rot = (rot + 1) % 6; return d < 0 ? neg_v[rot] : d > 0 ? pos_v[rot] : 0; }
static int valid(const object* o) { return o && o->magic == MAGIC && o->tail == MAGIC; }
static int cmp(const void* a, const void* b)
{
	const object* x = show(a);
	const object* y = show(b);
	++cmps;
	if (!valid(x) || !valid(y) || (x != probe && !x->in) || (y != probe && !y->in)) { bad = 1; return 0; }
	return sign((long long)x->key - y->key);
}
static struct { unsigned magic; int group; } grp; static const void* grp_arg; static unsigned grp_no;
static int group_of(int key) { long long k = key; return (int)(k >= 0 ? k / group_size : -((group_size - 1 - k) / group_size)); }
static int cmp_group(const void* a, const void* b)
{
	const object* y = show(b);
	++cmps;
	if (a != grp_arg || !valid(y) || !y->in) { bad = 1; return 0; }
	return sign((long long)grp.group - group_of(y->key));
}
static int key_of(int b, unsigned i) { return bbase[b] + (int)i * bmul[b]; }
static object* mk(int b, int c, unsigned i)
{
	object* o = malloc(sizeof(object));
	memset(o, 0xCD, sizeof(*o)); vf_undef(o, sizeof(*o));
	o->magic = o->tail = MAGIC; o->blk = b; o->copy = c; o->idx = i; o->key = key_of(b, i); o->in = 0; o->visits = 0;
	return o;
}
static void del(object* o) { memset(o, 0xDD, sizeof(*o)); free(o); }
/* the object, if it's one of ours and in the tree */
static object* as_obj(void* p, int b, unsigned i)
{
	int c;
	for (c = 1; c < CMAX; ++c) if (reg[b][c] && reg[b][c][i] == p) return p;
	return 0;
}
/* most expensive operations: comparisons, elements */
static long mc[64][2]; static int mcn; static unsigned long worst;
static void cost(unsigned long c, long n)
{
	if (c > worst && mcn < 64) { mc[mcn][0] = c; mc[mcn][1] = n; ++mcn; worst = c; }
}
static void reset(void)
{
	int b, c;
	unsigned i;
	for (b = 0; b < nblk; ++b) for (c = 1; c < CMAX; ++c) if (reg[b][c]) {
		for (i = 0; i < bsize[b]; ++i) if (reg[b][c][i]) del(reg[b][c][i]);
		free(reg[b][c]); reg[b][c] = 0;
	}
	if (tree) free(tree);
	tree = malloc(sizeof(*tree));
	memset(tree, 0xA5, sizeof(*tree)); vf_undef(tree, sizeof(*tree));
	tommy_tree_init(tree, cmp);
	total = 0; bad = 0;
	veil = veils[veil_no++ % 5];
}
/* order of the operations of a block */
static unsigned nth(unsigned n, unsigned i, int ord)
{
	return ord == 0 ? i : ord == 1 ? n - 1 - i : (unsigned)((unsigned long long)i * ord % n);
}
static int do_insert(int b, int c, int ord)
{
	unsigned j;
	int r = 0;
	if (!reg[b][c]) reg[b][c] = calloc(bsize[b], sizeof(object*));
	for (j = 0; j < bsize[b]; ++j) {
		unsigned i = nth(bsize[b], j, ord);
		object* o = mk(b, c, i);
		object* p;
		int x;
		if (reg[b][c][i]) { del(o); return -20; }
		probe = o;
		cmps = 0;
		p = show(tommy_tree_insert(tree, &o->node, hide(o)));
		cost(cmps, total);
		probe = 0;
		if (p == o) { o->in = 1; reg[b][c][i] = o; ++total; x = c; }
		else { x = as_obj(p, b, i) ? p->copy : -22; del(o); }
		if (j == 0) r = x; else if (r != x) r = -1;
		if (x < 0) return x;
	}
	return r;
}
static int removed(void* p, int b, unsigned i)
{
	object* o = p;
	int c;
	if (!p) return 0;
	if (!as_obj(p, b, i)) return -22;
	c = o->copy;
	reg[b][c][i] = 0;
	del(o);
	--total;
	return c;
}
static int do_remove(int b, int ord)
{
	unsigned j;
	int r = 0;
	for (j = 0; j < bsize[b]; ++j) {
		unsigned i = nth(bsize[b], j, ord);
		object* o = mk(b, 0, i);
		long n = total;
		int x;
		probe = o;
		cmps = 0;
		x = removed(show(tommy_tree_remove(tree, hide(o))), b, i);
		cost(cmps, n);
		probe = 0;
		del(o);
		if (j == 0) r = x; else if (r != x) r = -1;
		if (x < 0) return x;
	}
	return r;
}
static int do_remove_existing(int b, int c, int ord)
{
	unsigned j;
	for (j = 0; j < bsize[b]; ++j) {
		unsigned i = nth(bsize[b], j, ord);
		object* o = reg[b][c] ? reg[b][c][i] : 0;
		long n = total;
		int x;
		if (!o) return -20;
		cmps = 0;
		x = removed(show(tommy_tree_remove_existing(tree, &o->node)), b, i);
		cost(cmps, n);
		if (x != c) return x < 0 ? x : -23;
	}
	return c;
}
static int do_search(int b, int with_cost)
{
	unsigned i;
	int r = 0;
	for (i = 0; i < bsize[b]; ++i) {
		object* o = mk(b, 0, i);
		object* p;
		int x;
		probe = o;
		cmps = 0;
		p = show(tommy_tree_search(tree, hide(o)));
		if (with_cost) cost(cmps, total);
		probe = 0;
		del(o);
		x = !p ? 0 : as_obj(p, b, i) ? p->copy : -22;
		if (i == 0) r = x; else if (r != x) r = -1;
		if (x < 0) return x;
	}
	return r;
}
static int do_search_compare(int b)
{
	object* p;
	int j;
	grp.group = group_of(bbase[b]);
	grp_arg = (++grp_no & 1) ? &grp : 0; /* the argument may be anything */
	cmps = 0;
	p = show(tommy_tree_search_compare(tree, cmp_group, (void*)grp_arg));
	cost(cmps, total);
	if (!p) return 0;
	for (j = 0; j < nblk; ++j) if (as_obj(p, j, 0)) return p->copy * 1000 + j + 1;
	return -22;
}

/* iteration */
static void* it_arg; static unsigned it_no; static int it_here; /* the argument can be anything */
static int it_free, inc, ordn, ord[BMAX + 1]; static long long last_key; static long visits; static int q[BMAX];
static unsigned seen[BMAX][CMAX];
static void fe(void* p)
{
	object* o = show(p);
	if (!valid(o) || !o->in || ++visits > total) { bad = 1; return; }
	if (last_key != LLONG_MIN && o->key <= last_key) inc = 0;
	last_key = o->key;
	if (++o->visits != 1) { bad = 1; return; }
	++seen[o->blk][o->copy];
	if (ordn < BMAX) ord[ordn++] = o->blk + 1;
	if (it_free) { reg[o->blk][o->copy][o->idx] = 0; del(o); }
}
static void fa(void* arg, void* p) { if (arg != it_arg) { bad = 1; return; } fe(p); }
static void iterate(int with_arg, int and_free)
{
	int b, c;
	unsigned i;
	for (b = 0; b < nblk; ++b) for (c = 1; c < CMAX; ++c) { seen[b][c] = 0; if (reg[b][c]) for (i = 0; i < bsize[b]; ++i) if (reg[b][c][i]) reg[b][c][i]->visits = 0; }
	it_free = and_free; inc = 1; ordn = 0; last_key = LLONG_MIN; visits = 0;
	++it_no;
	it_arg = it_no % 3 == 0 ? 0 : it_no % 3 == 1 ? (void*)&it_here : (void*)(uintptr_t)-1;
	if (with_arg) tommy_tree_foreach_arg(tree, fa, it_arg); else tommy_tree_foreach(tree, fe);
	for (b = 0; b < nblk; ++b) {
		q[b] = 0;
		for (c = 1; c < CMAX; ++c) if (seen[b][c]) q[b] = q[b] == 0 && seen[b][c] == bsize[b] ? c : -1;
	}
	if (and_free) { tommy_tree_init(tree, cmp); total = 0; }
}
static int dep[4096], depn;
static int by_key(const void* a, const void* b) { const int* x = a; const int* y = b; return x[0] < y[0] ? -1 : x[0] > y[0]; }
static int depths(void)
{
	static int kd[4096][2];
	int b, c;
	unsigned i;
	depn = 0;
	if (total > 4096) return 0;
	for (b = 0; b < nblk; ++b) for (c = 1; c < CMAX; ++c) if (reg[b][c]) for (i = 0; i < bsize[b]; ++i) if (reg[b][c][i]) {
		cmps = 0;
		if (depn == 4096) return 0;
		kd[depn][0] = reg[b][c][i]->key;
		if (show(tommy_tree_search(tree, hide(reg[b][c][i]))) != reg[b][c][i]) bad = 1;
		kd[depn][1] = (int)cmps;
		++depn;
	}
	qsort(kd, depn, sizeof(kd[0]), by_key);
	for (i = 0; i < (unsigned)depn; ++i) dep[i] = kd[i][1];
	return 1;
}

/* biggest difference of height of the two sides of an element, -1 if the depths aren't the ones of a tree */
static int* all_dep; static long all_n, all_i;
static void all_fe(void* p)
{
	object* o = show(p);
	if (all_n >= total || !valid(o) || !o->in) { bad = 1; return; }
	cmps = 0;
	if (show(tommy_tree_search(tree, hide(o))) != o) bad = 1;
	all_dep[all_n++] = (int)cmps;
}
static int worst_diff;
/* height of the subtree with root at depth d, the elements are consumed in order */
static int all_height(int d)
{
	int h = 0;
	/* the first ones deeper are at its left */
	if (all_i >= all_n || all_dep[all_i] < d || d > 10000) return 0;
	if (all_dep[all_i] > d) h = all_height(d + 1);
	if (all_i < all_n && all_dep[all_i] == d) {
		int r;
		++all_i;
		r = all_height(d + 1);
		if (abs(h - r) > worst_diff) worst_diff = abs(h - r);
		return 1 + (h > r ? h : r);
	}
	worst_diff = 10000; /* a level without its root */
	return h;
}
static int imbalance(void)
{
	int h;
	all_dep = malloc((total + 1) * sizeof(int));
	all_n = all_i = 0; worst_diff = 0;
	tommy_tree_foreach(tree, all_fe);
	h = all_height(1);
	if (all_n != total || all_i != all_n) worst_diff = 10000;
	free(all_dep);
	(void)h;
	return worst_diff;
}

/* ---- graph */
static int iter_mode;
static int height(int lo, int hi, int d)
{
	int m = -1, i, a, b;
	if (lo > hi) return 0;
	for (i = lo; i <= hi; ++i) if (dep[i] <= d) { if (m >= 0) return -1; m = i; }
	if (m < 0) return -1;
	a = height(lo, m - 1, d + 1);
	b = height(m + 1, hi, d + 1);
	if (a < 0 || b < 0 || a - b > 1 || b - a > 1) return -1;
	return 1 + (a > b ? a : b);
}
void g_begin(void) { reset(); }
int g_apply(const int* op, int nop)
{
	(void)nop;
	switch (op[0]) {
	case 1 : return do_insert(op[1] - 1, op[2], 0);
	case 2 : return do_remove(op[1] - 1, 0);
	default : return do_remove_existing(op[1] - 1, op[2], 0);
	}
}
int g_observe(int* out) { int b; for (b = 0; b < nblk; ++b) out[b] = do_search(b, 0); return nblk; }
const char* g_check(void)
{
	int b;
	if (iter_mode == 3) return vf_allocs || vf_frees || vf_badfrees ? "heap used" : 0;
	if (iter_mode == 4) return tommy_tree_memory_usage(tree) != total * sizeof(tommy_tree_node) ? "memory usage" : 0;
	if (bad) return "comparison called with something else";
	if ((long)tommy_tree_count(tree) != total) return "count";
	if (iter_mode != 2) {
		iterate(0, 0);
		if (bad || visits != total || !inc) return "visit in order";
		for (b = 0; b < nblk; ++b) if (q[b] != do_search(b, 0)) return "elements visited";
	} else {
		depths();
		if (bad || height(0, depn - 1, 1) < 0) return "balance of the depths of the searches";
	}
	return 0;
}
const char* g_end(unsigned n)
{
	if (iter_mode == 1) {
		long t = total;
		iterate(n & 1, 1);
		if (bad || visits != t || !inc) return "visit freeing the elements";
	}
	return 0;
}

/* ---- script */
static int im;
static void event(const char* e, int b, int c, int r, int oq, int dp, int iterated)
{
	int i, all1 = 1;
	unsigned al = vf_allocs, fr = vf_frees, bf = vf_badfrees;
	long n = (long)tommy_tree_count(tree), mu = (long)tommy_tree_memory_usage(tree);
	for (i = 0; i < nblk; ++i) if (bsize[i] != 1) all1 = 0;
	if (!iterated) {
		if (oq) {
			iterate(0, 0);
			for (i = 0; i < nblk; ++i) { int s = do_search(i, 1); if (s != q[i]) q[i] = s < 0 ? s : -3; }
		} else { inc = 1; ordn = 0; }
	}
	if (dp) dp = depths();
	printf("{\"e\":\"%s\",\"k\":%d,\"c\":%d,\"r\":%d,\"n\":%ld,\"mu\":%ld,\"al\":%u,\"fr\":%u,\"bf\":%u,\"bad\":%d,\"oq\":%d,\"inc\":%d,\"og\":%d,\"dp\":%d,\"im\":%d,\"q\":[", e, b, c, r, n, mu, al, fr, bf, bad, oq, inc, (oq || iterated) && all1, dp, im);
	if (oq || iterated) for (i = 0; i < nblk; ++i) printf("%s%d", i ? "," : "", q[i]);
	printf("],\"ord\":[");
	if ((oq || iterated) && all1) for (i = 0; i < ordn; ++i) printf("%s%d", i ? "," : "", ord[i]);
	printf("],\"dep\":[");
	if (dp) for (i = 0; i < depn; ++i) printf("%s%d", i ? "," : "", dep[i]);
	printf("],\"mc\":[");
	for (i = 0; i < mcn; ++i) printf("%s[%ld,%ld]", i ? "," : "", mc[i][0], mc[i][1]);
	printf("]}\n");
	fflush(stdout);
}
static int script(void)
{
	char op[8];
	int obs = 1, shp = 1;
	while (scanf("%7s", op) == 1) {
		int b = 0, c = 0, o = 0, r = 0, i, d;
		vf_op_reset();
		mcn = 0; worst = 0; im = 0;
		d = shp && total <= 40;
		switch (op[0]) {
		case 'T' : /* T obs shape group nblk (size base mul)* */
			if (tree) reset();
			nblk = 0;
			if (scanf("%d %d %d %d", &obs, &shp, &group_size, &b) != 4 || b > BMAX) return 2;
			for (i = 0; i < b; ++i) if (scanf("%u %d %d", &bsize[i], &bbase[i], &bmul[i]) != 3) return 2;
			nblk = b;
			reset();
			printf("{\"e\":\"init\",\"sz\":["); for (i = 0; i < nblk; ++i) printf("%s%u", i ? "," : "", bsize[i]);
			printf("],\"base\":["); for (i = 0; i < nblk; ++i) printf("%s%d", i ? "," : "", bbase[i]);
			printf("],\"group\":%d,\"ns\":%d,\"r\":0,\"k\":0,\"c\":0,\"n\":%ld,\"mu\":%ld,\"al\":0,\"fr\":0,\"bf\":0,\"bad\":0,\"oq\":0,\"inc\":1,\"og\":0,\"dp\":0,\"im\":0,\"q\":[],\"ord\":[],\"dep\":[],\"mc\":[]}\n",
				group_size, (int)sizeof(tommy_tree_node), (long)tommy_tree_count(tree), (long)tommy_tree_memory_usage(tree));
			break;
		case 'i' : if (scanf("%d %d %d", &b, &c, &o) != 3) return 2; r = do_insert(b - 1, c, o); event("ins", b, c, r, obs, d, 0); break;
		case 'r' : if (scanf("%d %d", &b, &o) != 2) return 2; r = do_remove(b - 1, o); event("rem", b, 0, r, obs, d, 0); break;
		case 'x' : if (scanf("%d %d %d", &b, &c, &o) != 3) return 2; r = do_remove_existing(b - 1, c, o); event("rme", b, c, r, obs, d, 0); break;
		case 's' : if (scanf("%d", &b) != 1) return 2; r = do_search(b - 1, 1); event("sea", b, 0, r, obs, 0, 0); break;
		case 'c' : if (scanf("%d", &b) != 1) return 2; r = do_search_compare(b - 1); event("sec", b, 0, r, obs, 0, 0); break;
		case 'o' : event("obs", 0, 0, 0, 1, 0, 0); break;
		case 'b' : im = imbalance(); event("obs", 0, 0, 0, 0, 0, 0); break;
		case 'p' : event("shp", 0, 0, 0, 0, 1, 0); break;
		case 'f' : iterate(0, 0); event("for", 0, 0, 0, 0, 0, 1); break;
		case 'a' : iterate(1, 0); event("for", 0, 0, 0, 0, 0, 1); break;
		case 'F' : iterate(0, 1); event("ffr", 0, 0, 0, 0, 0, 1); break;
		case 'A' : iterate(1, 1); event("ffr", 0, 0, 0, 0, 0, 1); break;
		default : return 2;
		}
		if (r <= -20) { int ch; while ((ch = getchar()) != EOF && ch != 'T'); if (ch == EOF) break; ungetc(ch, stdin); }
	}
	return 0;
}
int main(int argc, char** argv)
{
	int i;
	if (argc > 2 && strcmp(argv[1], "graph") == 0) {
		int n;
		iter_mode = atoi(argv[2]);
		if (scanf("%d", &n) != 1) return 2;
		for (i = 0; i < n; ++i) { bsize[i] = 1; if (scanf("%d", &bbase[i]) != 1) return 2; }
		nblk = n;
		return g_main();
	}
	return script();
}
