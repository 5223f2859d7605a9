/* Driver of the lists. "graph": transitions of List.tla; default: script, recorded
 * for TraceList.tla; "sort": sorts recorded for TraceSort.tla. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <limits.h>
#include "tommyds/tommy.h"
#include "ledger.h"
#include "graph.h"

#define MAGIC 0x600df00d
#define MAXL 64
#define MAXN 4096
typedef struct { unsigned magic; int id, key; tommy_node node; unsigned tail; int in; } object;
static object* obj[MAXN + 1];
static int key_of[MAXN + 1];
static tommy_list lists[MAXL + 1];
static int nl, nn;

/* the data given to the library is opaque: it can be any value, also null, for the first object */
static uintptr_t veil; static unsigned veil_no;
static const uintptr_t veils[] = { 0, ~(uintptr_t)0, 1, ~(uintptr_t)0 >> 1, 2 };
static void* hide(object* o) { return o == obj[1] && veil ? 0 : (void*)((uintptr_t)o ^ veil); }
static object* show(const void* d) { return d || !veil ? (object*)((uintptr_t)d ^ veil) : obj[1]; }

static unsigned long cmps; static int cmp_bad; static int rot;
static const int pos_v[] = { 1, INT_MAX, 2, 0x10000, 256, 0x40000000 };
static const int neg_v[] = { -1, INT_MIN, -2, -0x10000, -256, -0x40000000 };
static int cmp(const void* a, const void* b)
{
	const object* x = show(a);
	const object* y = show(b);
	++cmps;
	if (!x || !y || x->magic != MAGIC || y->magic != MAGIC || x->tail != MAGIC || y->tail != MAGIC || !x->in || x->in != y->in) {
		cmp_bad = 1;
		return 0;
	}
	rot = (rot + 1) % 6;
	return x->key < y->key ? neg_v[rot] : x->key > y->key ? pos_v[rot] : 0;
}

static int fw[MAXL + 1][MAXN + 2], bw[MAXL + 1][MAXN + 2], fwn[MAXL + 1], bwn[MAXL + 1];
static int id_of(tommy_node* n)
{
	int i;
	/* only nodes that are ours */
	for (i = 1; i <= nn; ++i) if (obj[i] && &obj[i]->node == n) return n->data == hide(obj[i]) ? i : -i;
	return -1000;
}
static void walk_all(void)
{
	int l;
	for (l = 1; l <= nl; ++l) {
		tommy_node* n;
		fwn[l] = bwn[l] = 0;
		for (n = tommy_list_head(&lists[l]); n; n = n->next) {
			int i = id_of(n);
			fw[l][fwn[l]++] = i;
			if (i <= -1000 || fwn[l] > nn) break;
		}
		n = tommy_list_tail(&lists[l]);
		while (n) {
			int i = id_of(n);
			bw[l][bwn[l]++] = i;
			if (i <= -1000 || bwn[l] > nn) break;
			if (n == tommy_list_head(&lists[l])) break;
			n = n->prev;
		}
	}
}
static void new_instance(void)
{
	int i;
	for (i = 1; i <= nn; ++i) { if (obj[i]) free(obj[i]); obj[i] = 0; }
	for (i = 1; i <= nl; ++i) { lists[i] = (void*)0x5A5A; tommy_list_init(&lists[i]); }
	cmp_bad = 0;
	veil = veils[veil_no++ % 5];
}
static object* mk(int l, int n)
{
	object* o = malloc(sizeof(object));
	memset(o, 0xCD, sizeof(*o)); vf_undef(o, sizeof(*o));
	o->magic = o->tail = MAGIC; o->id = n; o->key = key_of[n]; o->in = l;
	obj[n] = o;
	return o;
}
static int data_id(void* d) { int i; for (i = 1; i <= nn; ++i) if (obj[i] && hide(obj[i]) == d) return i; return -1; }
static int kept = 1, kept_next; /* of the node removed */
static int apply(int op, int a, int b)
{
	tommy_node* n;
	int r = 0;
	switch (op) {
	case 1 : { object* o = mk(a, b); tommy_list_insert_head(&lists[a], &o->node, hide(o)); return 0; }
	case 2 : { object* o = mk(a, b); tommy_list_insert_tail(&lists[a], &o->node, hide(o)); return 0; }
	case 3 : {
		if (!obj[b]) return -9;
		{
			/* documented: the node is left unchanged */
			tommy_node was = obj[b]->node;
			tommy_node* n = &obj[b]->node;
			r = data_id(tommy_list_remove_existing(&lists[a], n));
			kept = n->next == was.next && n->prev == was.prev && n->data == was.data;
			kept_next = n->next ? id_of(n->next) : 0;
			if (!kept) r = -7;
		}
		memset(obj[b], 0xDD, sizeof(object));
		free(obj[b]);
		obj[b] = 0;
		return r;
	}
	case 4 :
		for (r = 1; r <= nn; ++r) if (obj[r] && obj[r]->in == b) obj[r]->in = a;
		tommy_list_concat(&lists[a], &lists[b]); tommy_list_init(&lists[b]); return 0;
	case 5 : tommy_list_sort(&lists[a], cmp); return 0;
	}
	(void)n;
	return -9;
}

/* iteration */
static int it[MAXL + 1][MAXN + 2], itn[MAXL + 1], it_l, it_free, it_here; static void* it_arg; static unsigned it_no; /* the argument can be anything */
static void fe(void* p)
{
	object* o = show(p);
	int i = data_id(p);
	if (itn[it_l] <= nn) it[it_l][itn[it_l]++] = i;
	if (i > 0 && it_free) { obj[i] = 0; memset(o, 0xDD, sizeof(*o)); free(o); }
}
static void fa(void* arg, void* p) { if (arg != it_arg) { it[it_l][itn[it_l]++] = -5; return; } fe(p); }
static void iterate(int with_arg, int and_free)
{
	it_free = and_free;
	++it_no;
	it_arg = it_no % 3 == 0 ? 0 : it_no % 3 == 1 ? (void*)&it_here : (void*)(uintptr_t)-1;
	for (it_l = 1; it_l <= nl; ++it_l) {
		itn[it_l] = 0;
		if (with_arg) tommy_list_foreach_arg(&lists[it_l], fa, it_arg); else tommy_list_foreach(&lists[it_l], fe);
		if (and_free) tommy_list_init(&lists[it_l]);
	}
}

/* ---- graph */
static int iter_mode;
void g_begin(void) { new_instance(); }
int g_apply(const int* op, int nop) { return apply(op[0], op[1], nop > 2 ? op[2] : 0); }
int g_observe(int* out)
{
	int l, i, n = 0;
	walk_all();
	for (l = 1; l <= nl; ++l) { out[n++] = fwn[l]; for (i = 0; i < fwn[l]; ++i) out[n++] = fw[l][i]; }
	return n;
}
const char* g_check(void)
{
	int l, i;
	if (iter_mode == 2) return vf_allocs || vf_frees || vf_badfrees ? "heap used" : 0;
	if (cmp_bad) return "comparison called with something else";
	for (l = 1; l <= nl; ++l) {
		tommy_node* h = tommy_list_head(&lists[l]);
		tommy_node* t = tommy_list_tail(&lists[l]);
		if (fwn[l] != bwn[l]) return "backward length";
		for (i = 0; i < fwn[l]; ++i) if (fw[l][i] != bw[l][fwn[l] - 1 - i]) return "backward";
		if ((int)tommy_list_count(&lists[l]) != fwn[l]) return "count";
		if (!tommy_list_empty(&lists[l]) != (fwn[l] != 0)) return "empty";
		if ((h ? id_of(h) : 0) != (fwn[l] ? fw[l][0] : 0)) return "head";
		if ((t ? id_of(t) : 0) != (fwn[l] ? fw[l][fwn[l] - 1] : 0)) return "tail";
	}
	return 0;
}
const char* g_end(unsigned n)
{
	int l, i;
	if (iter_mode == 1) {
		iterate(n & 1, (n >> 1) & 1);
		for (l = 1; l <= nl; ++l) {
			if (itn[l] != fwn[l]) return "number of elements iterated";
			for (i = 0; i < fwn[l]; ++i) if (it[l][i] != fw[l][i]) return "order of the iteration";
		}
	}
	return 0;
}

/* ---- script */
static void put(const char* name, int v[][MAXN + 2], int* n)
{
	int l, i;
	printf(",\"%s\":[", name);
	for (l = 1; l <= nl; ++l) {
		printf("%s[", l > 1 ? "," : "");
		if (n) for (i = 0; i < n[l]; ++i) printf("%s%d", i ? "," : "", v[l][i]);
		printf("]");
	}
	printf("]");
}
static void event(const char* e, int a, int b, int r)
{
	int l;
	unsigned al = vf_allocs, fr = vf_frees, bf = vf_badfrees;
	walk_all();
	printf("{\"e\":\"%s\",\"a\":%d,\"b\":%d,\"r\":%d,\"al\":%u,\"fr\":%u,\"bf\":%u,\"bad\":%d,\"kp\":%d,\"kn\":%d", e, a, b, r, al, fr, bf, cmp_bad, kept, kept_next);
	put("fw", fw, fwn);
	put("bw", bw, bwn);
	put("it", it, itn);
	printf(",\"hd\":[");
	for (l = 1; l <= nl; ++l) { tommy_node* n = tommy_list_head(&lists[l]); printf("%s%d", l > 1 ? "," : "", n ? id_of(n) : 0); }
	printf("],\"tl\":[");
	for (l = 1; l <= nl; ++l) { tommy_node* n = tommy_list_tail(&lists[l]); printf("%s%d", l > 1 ? "," : "", n ? id_of(n) : 0); }
	printf("],\"emp\":[");
	for (l = 1; l <= nl; ++l) printf("%s%d", l > 1 ? "," : "", tommy_list_empty(&lists[l]) ? 1 : 0);
	printf("],\"cnt\":[");
	/* a broken list could be circular: count only if the walk ends */
	for (l = 1; l <= nl; ++l) printf("%s%d", l > 1 ? "," : "", fwn[l] > nn || (fwn[l] && fw[l][fwn[l] - 1] <= -1000) ? -1 : (int)tommy_list_count(&lists[l]));
	printf("]}\n");
	fflush(stdout);
	for (l = 1; l <= nl; ++l) itn[l] = 0;
}
static int script(void)
{
	char c[8];
	while (scanf("%7s", c) == 1) {
		int a = 0, b = 0, i, r;
		vf_op_reset();
		switch (c[0]) {
		case 'T' :
			new_instance();
			if (scanf("%d %d", &nl, &nn) != 2 || nl > MAXL || nn > MAXN) return 2;
			for (i = 1; i <= nn; ++i) if (scanf("%d", &key_of[i]) != 1) return 2;
			new_instance();
			for (i = 1; i <= nl; ++i) itn[i] = 0;
			printf("{\"e\":\"init\",\"a\":0,\"b\":0,\"r\":0,\"al\":0,\"fr\":0,\"bf\":0,\"bad\":0,\"lists\":%d,\"keys\":[", nl);
			for (i = 1; i <= nn; ++i) printf("%s%d", i > 1 ? "," : "", key_of[i]);
			printf("]");
			put("fw", fw, 0); put("bw", bw, 0); put("it", it, 0);
			printf(",\"hd\":["); for (i = 1; i <= nl; ++i) printf("%s%d", i > 1 ? "," : "", tommy_list_head(&lists[i]) ? -1 : 0);
			printf("],\"tl\":["); for (i = 1; i <= nl; ++i) printf("%s%d", i > 1 ? "," : "", tommy_list_tail(&lists[i]) ? -1 : 0);
			printf("],\"emp\":["); for (i = 1; i <= nl; ++i) printf("%s%d", i > 1 ? "," : "", tommy_list_empty(&lists[i]) ? 1 : 0);
			printf("],\"cnt\":["); for (i = 1; i <= nl; ++i) printf("%s%d", i > 1 ? "," : "", (int)tommy_list_count(&lists[i]));
			printf("]}\n");
			break;
		case 'h' : if (scanf("%d %d", &a, &b) != 2) return 2; r = apply(1, a, b); event("head", a, b, r); break;
		case 't' : if (scanf("%d %d", &a, &b) != 2) return 2; r = apply(2, a, b); event("tail", a, b, r); break;
		case 'r' : if (scanf("%d %d", &a, &b) != 2) return 2; r = apply(3, a, b); event("rem", a, b, r); break;
		case 'c' : if (scanf("%d %d", &a, &b) != 2) return 2; r = apply(4, a, b); event("cat", a, b, r); break;
		case 's' : if (scanf("%d", &a) != 1) return 2; r = apply(5, a, 0); event("sort", a, 0, r); break;
		case 'f' : iterate(0, 0); event("for", 0, 0, 0); break;
		case 'a' : iterate(1, 0); event("for", 0, 0, 0); break;
		case 'F' : iterate(0, 1); event("ffr", 0, 0, 0); break;
		case 'A' : iterate(1, 1); event("ffr", 0, 0, 0); break;
		default : return 2;
		}
	}
	return 0;
}

/* ---- huge sorts: "-n pattern", the keys are made here and the result is only summarized */
static int huge_key(int i, int n, int how)
{
	switch (how) {
	case 0 : return (int)(((unsigned)i * 2654435761u) ^ ((unsigned)i >> 3));
	case 1 : return i;
	case 2 : return n - i;
	case 3 : return (int)((((unsigned)i * 2654435761u) >> 20) % 3);
	case 4 : return i / 2 % 1000;
	default : return i < n / 2 ? i : n - i;
	}
}
static void huge(int n, int how)
{
	object* o = calloc(n, sizeof(object));
	tommy_list list;
	tommy_node* p;
	tommy_node* last = 0;
	int i, cnt = 0, bwok = 1, perm = 1, sorted = 1, stable = 1;
	tommy_list_init(&list);
	for (i = 0; i < n; ++i) {
		o[i].key = huge_key(i, n, how);
		o[i].magic = o[i].tail = MAGIC; o[i].id = i + 1; o[i].in = 1;
		tommy_list_insert_tail(&list, &o[i].node, &o[i]);
	}
	cmps = 0; cmp_bad = 0;
	vf_op_reset();
	tommy_list_sort(&list, cmp);
	if (vf_allocs + vf_frees + vf_badfrees) cmp_bad = 1;
	for (p = tommy_list_head(&list); p; p = p->next) {
		object* x = (object*)((char*)p - offsetof(object, node));
		object* y = last ? (object*)((char*)last - offsetof(object, node)) : 0;
		if (x < o || x >= o + n || ((char*)x - (char*)o) % sizeof(object) != 0 || p->data != x || x->in != 1) { perm = 0; break; }
		if (last && p->prev != last) bwok = 0;
		if (y && y->key > x->key) sorted = 0;
		if (y && y->key == x->key && y->id > x->id) stable = 0;
		x->in = 2;
		last = p;
		++cnt;
	}
	if (cnt != n || tommy_list_count(&list) != (tommy_size_t)n) perm = 0;
	if (tommy_list_tail(&list) != last) bwok = 0;
	printf("{\"e\":\"init\",\"keys\":[],\"out\":[],\"cmps\":%lu,\"bad\":%d,\"bwok\":%d,\"big\":[%d,%d,%d,%d,%d]}\n", cmps, cmp_bad, bwok, n, perm, sorted, stable, how == 1 || how == 2);
	fflush(stdout);
	free(o);
}

/* ---- big sorts: "n key..." */
static int sorts(void)
{
	int n, i;
	while (scanf("%d", &n) == 1) {
		if (n < 0) {
			if (scanf("%d", &i) != 1) return 2;
			huge(-n, i);
			continue;
		}
		object* o = calloc(n, sizeof(object));
		tommy_list list;
		tommy_node* p;
		tommy_node* last;
		int cnt, bwok = 1;
		tommy_list_init(&list);
		for (i = 0; i < n; ++i) {
			if (scanf("%d", &o[i].key) != 1) return 2;
			o[i].magic = o[i].tail = MAGIC; o[i].id = i + 1; o[i].in = 1;
			tommy_list_insert_tail(&list, &o[i].node, &o[i]);
		}
		cmps = 0; cmp_bad = 0;
		vf_op_reset();
		tommy_list_sort(&list, cmp);
		if (vf_allocs + vf_frees + vf_badfrees) cmp_bad = 1;
		printf("{\"e\":\"init\",\"keys\":[");
		for (i = 0; i < n; ++i) printf("%s%d", i ? "," : "", o[i].key);
		printf("],\"out\":[");
		last = 0; cnt = 0;
		for (p = tommy_list_head(&list); p; p = p->next) {
			object* x = (object*)((char*)p - offsetof(object, node));
			if (x < o || x >= o + n || ((char*)x - (char*)o) % sizeof(object) != 0 || p->data != x) { printf("%s-1", cnt ? "," : ""); bwok = 0; break; }
			if (last && p->prev != last) bwok = 0;
			last = p;
			printf("%s%d", cnt ? "," : "", x->id);
			if (++cnt > n) break;
		}
		if (tommy_list_tail(&list) != last) bwok = 0;
		printf("],\"cmps\":%lu,\"bad\":%d,\"bwok\":%d,\"big\":[]}\n", cmps, cmp_bad, bwok);
		fflush(stdout);
		free(o);
	}
	return 0;
}

int main(int argc, char** argv)
{
	int i;
	if (argc > 2 && strcmp(argv[1], "graph") == 0) {
		iter_mode = atoi(argv[2]);
		if (scanf("%d %d", &nl, &nn) != 2) return 2;
		for (i = 1; i <= nn; ++i) if (scanf("%d", &key_of[i]) != 1) return 2;
		return g_main();
	}
	if (argc > 1 && strcmp(argv[1], "sort") == 0)
		return sorts();
	return script();
}
