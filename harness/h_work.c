/* Driver measuring the work done by the operations of the library, at any
 * size. Runs a script; the events are those of TraceCost.tla.
 *   T <kind> <mode of the keys> <parameter>   a new container
 *   i <n> <how>     n insertions (list: 0 tail, 1 head, 2 alternate)
 *   r <n> <how>     n removals: 0 oldest, 1 newest, 2 random, 3 by key, 4 by key of a random one
 *   z <n> <how>     n operations changing direction each time the heap is used
 *   y <n> <how> <p> n operations changing direction each p operations
 *   s <n>           n searches of random elements, and of absent keys
 *   u <n>           n calls of the functions reporting count and usage
 *   x <n>           n random accesses of an array
 *   c <n>           n times: moves an element in another list, and concatenates it back
 *   f S C           iterates, sorts (list), counts (list)
 *   S <how>         list: rearranges the values before sorting it
 *   g <n> <p>       array: n grows of p elements
 *   G <p>           array: grows to p elements
 *   D               deinitializes
 */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include "tommyds/tommy.h"
#include "w.h"
#include "ledger.h"
enum { LIST, TREE, TABLE, DYN, LIN, TRIE, INP, ARRAY, ARRAYOF, BLK, BLKOF, ALLOC, KINDS };
static const char* const NAME[KINDS] = { "list", "tree", "hashtable", "hashdyn", "hashlin", "trie", "trieinp", "array", "arrayof", "arrayblk", "arrayblkof", "alloc" };
typedef struct { int val; unsigned idx, at; union { tommy_node n; tommy_trie_inplace_node t; } u; void* block; } elem;
static elem* E; /* pool */
static unsigned pool; /* elements in the pool */
static elem** Q; /* the elements contained, from the oldest, circular (positions are modulus pool) */
static unsigned qh, qt;
static elem** F; /* the others */
static unsigned nf;
static int kind, mode;
static unsigned long long param, serial;
static union { tommy_list list; tommy_tree tree; tommy_hashtable tbl; tommy_hashdyn dyn; tommy_hashlin lin; tommy_trie trie; tommy_trie_inplace inp; tommy_array a; tommy_arrayof ao; tommy_arrayblk b; tommy_arrayblkof bo; tommy_allocator al; } *C, *C2;
static tommy_allocator trie_alloc;

/* ---- work */
#define LIMIT 300000000UL
#define PHASE 600000000UL
static unsigned long vf_work;
static int running;
static void stopped(void);
__attribute__((no_sanitize_coverage)) void __sanitizer_cov_trace_pc(void) { if (++vf_work == LIMIT && running) stopped(); }
static struct { const char* op; unsigned long k, w, tw, n0, n1, h0, hb; } ph;
static unsigned long n(void) { return qt - qh; }
static unsigned lg(unsigned long x) { unsigned r = 0; while (x) { ++r; x >>= 1; } return r; }
static void emit(void)
{
	printf("{\"e\":\"ph\",\"op\":\"%s\",\"k\":%lu,\"w\":%lu,\"tw\":%lu,\"n0\":%lu,\"n1\":%lu,\"h0\":%lu,\"hb\":%lu,\"lg\":%u}\n", ph.op, ph.k, ph.w, ph.tw, ph.n0, ph.n1, ph.h0, ph.hb, lg(ph.n1 + 1));
	fflush(stdout);
}
static void done_op(unsigned long w)
{
	unsigned long h = vf_live_bytes / 8;
	++ph.k; ph.tw += w;
	if (w > ph.w) ph.w = w;
	if (n() > ph.n1) ph.n1 = n();
	if (h > ph.hb) ph.hb = h;
}
static void stopped(void) { done_op(LIMIT); emit(); _exit(0); }
static void begin(const char* op) { memset(&ph, 0, sizeof(ph)); ph.op = op; ph.n0 = ph.n1 = n(); ph.h0 = ph.hb = vf_live_bytes / 8; }
#define OP(X) do { vf_op_reset(); vf_touched = 0; vf_work = 0; running = 1; X; running = 0; done_op(vf_work + vf_touched / 16); } while (0)
#define FULL (ph.tw > PHASE)

/* ---- */
static unsigned long long mix(unsigned long long x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdULL; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ULL; x ^= x >> 33; return x; }
static unsigned rev(unsigned x) { unsigned r = 0; int i; for (i = 0; i < 32; ++i) r |= (x >> i & 1) << (31 - i); return r; }
static unsigned long long rs = 88172645463325252ULL;
static unsigned rnd(unsigned m) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return (unsigned)(rs >> 20) % m; }
static unsigned long long key_of(unsigned i)
{
	switch (mode) {
	case 0 : return mix(i + 1) & 0xffffffff;
	case 1 : return 0x12345;
	case 2 : return i;
	case 3 : return 0xffffffff - i;
	case 4 : return rev(i);
	case 5 : return i % 7 * 5 + 1;
	case 6 : return (unsigned long long)i * 0x9e3779b1 & 0xffffffff; /* all different */
	case 7 : return (unsigned long long)i << 12 & 0xffffffff;
	}
	exit(2);
}
static int cmp_val(const void* a, const void* b) { const elem* x = a; const elem* y = b; return x->val < y->val ? -1 : x->val > y->val; }
static int cmp_key(const void* a, const void* b) { return *(const unsigned long long*)a != key_of(((const elem*)b)->idx); }
static unsigned long visits;
static void fe(void* o) { (void)o; ++visits; }
static void fa(void* a, void* o) { (void)a; (void)o; ++visits; }

static elem* take(void)
{
	elem* e;
	if (!nf) return 0;
	e = F[--nf];
	/* a new identity */
	e->idx = (unsigned)serial++;
	if (kind == TREE) e->val = mode == 2 ? (int)(e->idx & 0x7fffffff) : mode == 3 ? -(int)(e->idx & 0x7fffffff) : mode == 4 ? (int)(rev(e->idx) ^ 0x80000000) : (int)(e->idx * 0x9e3779b1u);
	else e->val = (int)mix(e->idx);
	return e;
}
static void ins(elem* e, int how)
{
	unsigned long long k = key_of(e->idx);
	e->at = qt;
	Q[qt++ % pool] = e;
	switch (kind) {
	case LIST : if (how == 1 || (how == 2 && e->idx & 1)) OP(w_list_head_insert(&C->list, &e->u.n, e)); else OP(w_list_tail_insert(&C->list, &e->u.n, e)); break;
	case TREE : OP(tommy_tree_insert(&C->tree, &e->u.n, e)); break;
	case TABLE : OP(tommy_hashtable_insert(&C->tbl, &e->u.n, e, (tommy_hash_t)k)); break;
	case DYN : OP(tommy_hashdyn_insert(&C->dyn, &e->u.n, e, (tommy_hash_t)k)); break;
	case LIN : OP(tommy_hashlin_insert(&C->lin, &e->u.n, e, (tommy_hash_t)k)); break;
	case TRIE : OP(tommy_trie_insert(&C->trie, &e->u.n, e, (tommy_key_t)k)); break;
	case INP : OP(tommy_trie_inplace_insert(&C->inp, &e->u.t, e, (tommy_key_t)k)); break;
	case ARRAY : OP(w_array_insert(&C->a, e)); break;
	case ARRAYOF : OP(tommy_arrayof_grow(&C->ao, w_arrayof_size(&C->ao) + 1)); break;
	case BLK : OP(w_arrayblk_insert(&C->b, e)); break;
	case BLKOF : OP(tommy_arrayblkof_grow(&C->bo, w_arrayblkof_size(&C->bo) + 1)); break;
	case ALLOC : OP(e->block = tommy_allocator_alloc(&C->al)); break;
	}
}
/* forgets an element: the oldest one takes its place */
static void gone(unsigned at) { F[nf++] = Q[at % pool]; Q[at % pool] = Q[qh % pool]; Q[at % pool]->at = at; ++qh; }
static int lost;
static int rem(int how)
{
	unsigned at = how == 1 ? qt - 1 : how == 2 || how == 4 ? qh + rnd(qt - qh) : qh;
	elem* e = Q[at % pool];
	elem* g = e;
	unsigned long long k = key_of(e->idx);
	int bykey = how >= 3 && kind != LIST && kind != ALLOC;
	switch (kind) {
	case LIST : OP(w_list_remove(&C->list, &e->u.n)); break;
	case TREE : if (bykey) OP(g = tommy_tree_remove(&C->tree, e)); else OP(tommy_tree_remove_existing(&C->tree, &e->u.n)); break;
	case TABLE : if (bykey) OP(g = tommy_hashtable_remove(&C->tbl, cmp_key, &k, (tommy_hash_t)k)); else OP(tommy_hashtable_remove_existing(&C->tbl, &e->u.n)); break;
	case DYN : if (bykey) OP(g = tommy_hashdyn_remove(&C->dyn, cmp_key, &k, (tommy_hash_t)k)); else OP(tommy_hashdyn_remove_existing(&C->dyn, &e->u.n)); break;
	case LIN : if (bykey) OP(g = tommy_hashlin_remove(&C->lin, cmp_key, &k, (tommy_hash_t)k)); else OP(tommy_hashlin_remove_existing(&C->lin, &e->u.n)); break;
	case TRIE : if (bykey) OP(g = tommy_trie_remove(&C->trie, (tommy_key_t)k)); else OP(tommy_trie_remove_existing(&C->trie, &e->u.n)); break;
	case INP : if (bykey) OP(g = tommy_trie_inplace_remove(&C->inp, (tommy_key_t)k)); else OP(tommy_trie_inplace_remove_existing(&C->inp, &e->u.t)); break;
	case ALLOC : OP(tommy_allocator_free(&C->al, e->block)); break;
	default : exit(2);
	}
	if (g != e) {
		/* with equal keys it's another one: exchange them */
		if (!g || key_of(g->idx) != k) { lost = 1; return 0; }
		at = g->at;
	}
	gone(at);
	return 1;
}
static void search(void)
{
	int absent = rnd(4) == 0 || qh == qt;
	elem probe;
	elem* e = absent ? &probe : Q[(qh + rnd(qt - qh)) % pool];
	unsigned long long k;
	if (absent) { probe.idx = (unsigned)serial + 1000 + rnd(100000); probe.val = (int)mix(probe.idx); }
	k = key_of(e->idx);
	switch (kind) {
	case TREE : OP(tommy_tree_search(&C->tree, e)); OP(tommy_tree_search_compare(&C->tree, cmp_val, e)); break;
	case TABLE : OP(w_hashtable_search(&C->tbl, cmp_key, &k, (tommy_hash_t)k)); OP(w_hashtable_bucket(&C->tbl, (tommy_hash_t)k)); break;
	case DYN : OP(w_hashdyn_search(&C->dyn, cmp_key, &k, (tommy_hash_t)k)); OP(w_hashdyn_bucket(&C->dyn, (tommy_hash_t)k)); break;
	case LIN : OP(w_hashlin_search(&C->lin, cmp_key, &k, (tommy_hash_t)k)); OP(w_hashlin_bucket(&C->lin, (tommy_hash_t)k)); break;
	case TRIE : OP(w_trie_search(&C->trie, (tommy_key_t)k)); OP(tommy_trie_bucket(&C->trie, (tommy_key_t)k)); break;
	case INP : OP(w_trie_inplace_search(&C->inp, (tommy_key_t)k)); OP(tommy_trie_inplace_bucket(&C->inp, (tommy_key_t)k)); break;
	default : exit(2);
	}
}
static void usage(void)
{
	switch (kind) {
	case LIST : OP(w_list_ends(&C->list)); break;
	case TREE : OP(w_tree_count(&C->tree)); OP(tommy_tree_memory_usage(&C->tree)); break;
	case TABLE : OP(w_hashtable_count(&C->tbl)); OP(tommy_hashtable_memory_usage(&C->tbl)); break;
	case DYN : OP(w_hashdyn_count(&C->dyn)); OP(tommy_hashdyn_memory_usage(&C->dyn)); break;
	case LIN : OP(w_hashlin_count(&C->lin)); OP(tommy_hashlin_memory_usage(&C->lin)); break;
	case TRIE : OP(w_trie_count(&C->trie)); OP(tommy_trie_memory_usage(&C->trie)); break;
	case INP : OP(w_trie_inplace_count(&C->inp)); OP(tommy_trie_inplace_memory_usage(&C->inp)); break;
	case ARRAY : OP(tommy_array_memory_usage(&C->a)); break;
	case ARRAYOF : OP(w_arrayof_size(&C->ao)); OP(tommy_arrayof_memory_usage(&C->ao)); break;
	case BLK : OP(tommy_arrayblk_memory_usage(&C->b)); break;
	case BLKOF : OP(w_arrayblkof_size(&C->bo)); OP(tommy_arrayblkof_memory_usage(&C->bo)); break;
	case ALLOC : OP(tommy_allocator_memory_usage(&C->al)); break;
	}
}
static void access1(void)
{
	unsigned p = rnd(qt - qh);
	switch (kind) {
	case ARRAY : OP(w_array(&C->a, p, &p)); break;
	case ARRAYOF : OP(w_arrayof(&C->ao, p)); break;
	case BLK : OP(w_arrayblk(&C->b, p, &p)); break;
	case BLKOF : OP(w_arrayblkof(&C->bo, p)); break;
	default : exit(2);
	}
}
static void iterate(int arg)
{
	switch (kind) {
	case LIST : if (arg) OP(w_list_foreach_arg(&C->list, fa, 0)); else OP(w_list_foreach(&C->list, fe)); break;
	case TREE : if (arg) OP(tommy_tree_foreach_arg(&C->tree, fa, 0)); else OP(tommy_tree_foreach(&C->tree, fe)); break;
	case TABLE : if (arg) OP(tommy_hashtable_foreach_arg(&C->tbl, fa, 0)); else OP(tommy_hashtable_foreach(&C->tbl, fe)); break;
	case DYN : if (arg) OP(tommy_hashdyn_foreach_arg(&C->dyn, fa, 0)); else OP(tommy_hashdyn_foreach(&C->dyn, fe)); break;
	case LIN : if (arg) OP(tommy_hashlin_foreach_arg(&C->lin, fa, 0)); else OP(tommy_hashlin_foreach(&C->lin, fe)); break;
	default : exit(2);
	}
}
static void done(void)
{
	switch (kind) {
	case TABLE : OP(tommy_hashtable_done(&C->tbl)); break;
	case DYN : OP(tommy_hashdyn_done(&C->dyn)); break;
	case LIN : OP(tommy_hashlin_done(&C->lin)); break;
	case TRIE : OP(tommy_allocator_done(&trie_alloc)); break;
	case ARRAY : OP(tommy_array_done(&C->a)); break;
	case ARRAYOF : OP(tommy_arrayof_done(&C->ao)); break;
	case BLK : OP(tommy_arrayblk_done(&C->b)); break;
	case BLKOF : OP(tommy_arrayblkof_done(&C->bo)); break;
	case ALLOC : OP(tommy_allocator_done(&C->al)); break;
	}
}
static void init(void)
{
	begin("init");
	switch (kind) {
	case LIST : tommy_list_init(&C->list); tommy_list_init(&C2->list); break;
	case TREE : OP(tommy_tree_init(&C->tree, cmp_val)); break;
	case TABLE : OP(tommy_hashtable_init(&C->tbl, (tommy_size_t)param)); break;
	case DYN : OP(tommy_hashdyn_init(&C->dyn)); break;
	case LIN : OP(tommy_hashlin_init(&C->lin)); break;
	case TRIE : tommy_allocator_init(&trie_alloc, TOMMY_TRIE_BLOCK_SIZE, TOMMY_TRIE_BLOCK_SIZE); OP(tommy_trie_init(&C->trie, &trie_alloc)); break;
	case INP : OP(tommy_trie_inplace_init(&C->inp)); break;
	case ARRAY : OP(tommy_array_init(&C->a)); break;
	case ARRAYOF : OP(tommy_arrayof_init(&C->ao, (tommy_size_t)param)); break;
	case BLK : OP(tommy_arrayblk_init(&C->b)); break;
	case BLKOF : OP(tommy_arrayblkof_init(&C->bo, (tommy_size_t)param)); break;
	case ALLOC : OP(tommy_allocator_init(&C->al, (tommy_size_t)(param >> 16), (tommy_size_t)(param & 0xffff))); break;
	}
	emit();
}
/* changes the values of the elements of the list, from the head */
static void values(int how)
{
	tommy_node* p = tommy_list_head(&C->list);
	unsigned i = 0, m = (unsigned)n();
	for (; p && i < m; p = p->next, ++i) {
		elem* e = p->data;
		switch (how) {
		case 0 : e->val = (int)i; break;
		case 1 : e->val = -(int)i; break;
		case 2 : e->val = (int)rnd(1u << 30); break;
		case 3 : e->val = 7; break;
		case 4 : e->val = i & 1 ? (int)i : -(int)i; break; /* organ pipe */
		case 5 : e->val = (int)rev(i); break;
		case 6 : e->val = (int)(i % 1000); break; /* saw */
		case 7 : e->val = i + 1 == m ? -1 : (int)i; break; /* last out of place */
		}
	}
}
int main(void)
{
	char cmd[8];
	unsigned i;
	C = malloc(sizeof(*C)); C2 = malloc(sizeof(*C2));
	pool = 1u << 22;
	E = calloc(pool, sizeof(elem)); Q = calloc(pool, sizeof(elem*)); F = calloc(pool, sizeof(elem*));
	if (!C || !C2 || !E || !Q || !F) return 2;
	vf_lazy = 1;
	while (scanf("%7s", cmd) == 1) {
		unsigned m = 0, how = 0, p = 0, j;
		switch (cmd[0]) {
		case 'T' : {
			char name[32];
			if (scanf("%31s %d %llu", name, &mode, &param) != 3) return 2;
			for (kind = 0; kind < KINDS && strcmp(name, NAME[kind]); ++kind) ;
			if (kind == KINDS) return 2;
			vf_forget_all();
			memset(C, 0xA5, sizeof(*C));
			qh = qt = 0; serial = 0; nf = pool; lost = 0;
			for (i = 0; i < pool; ++i) F[i] = &E[pool - 1 - i];
			printf("{\"e\":\"init\",\"c\":\"%s\",\"mode\":%d,\"p\":%lu,\"seg\":%lu}\n", name, mode, (unsigned long)(param & 0x3fffffff), kind == ALLOC ? (unsigned long)(param >> 16) : 0UL);
			init();
			break;
			}
		case 'i' :
			if (scanf("%u %u", &m, &how) != 2) return 2;
			begin("ins");
			for (j = 0; j < m && nf && !FULL; ++j) ins(take(), how);
			emit();
			break;
		case 'r' :
			if (scanf("%u %u", &m, &how) != 2) return 2;
			begin(how >= 3 ? "rem" : "rmx");
			for (j = 0; j < m && qh != qt && !FULL && !lost; ++j) rem(how);
			emit();
			break;
		case 'z' : case 'y' : {
			int dir = 0;
			unsigned run = 0;
			if (scanf("%u %u", &m, &how) != 2) return 2;
			if (cmd[0] == 'y' && scanf("%u", &p) != 1) return 2;
			begin("mix");
			for (j = 0; j < m && !FULL && !lost; ++j) {
				if (dir == 0 && !nf) dir = 1;
				if (dir == 1 && qh == qt) dir = 0;
				if (dir) rem(how); else ins(take(), 0);
				++run;
				if (cmd[0] == 'y' ? run == p : vf_allocs + vf_frees != 0) { dir = !dir; run = 0; }
			}
			emit();
			break;
			}
		case 's' : if (scanf("%u", &m) != 1) return 2; begin("sea"); for (j = 0; j < m && !FULL; ++j) search(); emit(); break;
		case 'u' : if (scanf("%u", &m) != 1) return 2; begin("use"); for (j = 0; j < m && !FULL; ++j) usage(); emit(); break;
		case 'x' : if (scanf("%u", &m) != 1) return 2; begin("acc"); for (j = 0; j < m && !FULL; ++j) access1(); emit(); break;
		case 'c' :
			if (scanf("%u", &m) != 1) return 2;
			begin("cat");
			for (j = 0; j < m && qh != qt && !FULL; ++j) {
				elem* e = tommy_list_head(&C->list)->data;
				w_list_remove(&C->list, &e->u.n);
				w_list_tail_insert(&C2->list, &e->u.n, e);
				if (j & 1) { /* long with short */
					OP(w_list_concat(&C->list, &C2->list));
				} else { /* short with long */
					OP(w_list_concat(&C2->list, &C->list));
					C->list = C2->list;
				}
				tommy_list_init(&C2->list);
			}
			emit();
			break;
		case 'f' : begin("for"); iterate(0); iterate(1); emit(); break;
		case 'C' : begin("cnt"); OP(w_list_count(&C->list)); emit(); break;
		case 'S' : if (scanf("%u", &how) != 1) return 2; values(how); begin(how == 0 || how == 1 || how == 3 ? "sro" : "srt"); OP(tommy_list_sort(&C->list, cmp_val)); emit(); break;
		case 'g' : case 'G' :
			if (cmd[0] == 'G') {
				if (scanf("%u", &p) != 1) return 2;
				m = 1;
				p = p > n() ? p - (unsigned)n() : 0;
			} else if (scanf("%u %u", &m, &p) != 2)
				return 2;
			begin("gro");
			for (j = 0; j < m && !FULL; ++j) {
				unsigned long t = n() + p;
				if (t > 1UL << 25) break;
				qt += p;
				switch (kind) {
				case ARRAY : OP(tommy_array_grow(&C->a, t)); break;
				case ARRAYOF : OP(tommy_arrayof_grow(&C->ao, t)); break;
				case BLK : OP(tommy_arrayblk_grow(&C->b, t)); break;
				case BLKOF : OP(tommy_arrayblkof_grow(&C->bo, t)); break;
				default : return 2;
				}
			}
			emit();
			break;
		case 'D' : begin("don"); done(); emit(); vf_forget_all(); qh = qt = 0; break;
		default : return 2;
		}
		if (lost) return 0; /* not what is measured here */
	}
	return 0;
}
