/* Driver of the five multimap containers: hashtable, hashdyn, hashlin, trie
 * and trie_inplace.
 *
 * Script mode (default): executes on the real code the operations read from
 * stdin and records on stdout, as ndjson, one event for each of them, to be
 * validated against specs/TraceMap.tla.
 *
 * Graph mode (argument "graph"): reads a state graph computed by TLC from one
 * of the specifications and takes every transition of it on the real code,
 * comparing results and observation with those of the specification.
 *
 * A key of the specification is a "block" of 1 or more real keys, and an
 * object of the specification is a "layer" of objects, one for each real key
 * of the block. An operation on a block is done on all its real keys, in order.
 * The observation of a block is the one common to all its real keys; if they
 * differ, or something else is wrong, it's a negative code that no state of the
 * specification has.
 */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <limits.h>
#include "tommyds/tommy.h"
#include "ledger.h"

#ifndef TOMMY_HASHLIN_BIT
#define TOMMY_HASHLIN_BIT 6
#endif
#ifndef TOMMY_HASHDYN_BIT
#define TOMMY_HASHDYN_BIT 4
#endif
#define MAGIC 0x600df00d
#define LMAX 256 /* layers */
#define BMAX 256 /* blocks */

enum { HASHTABLE, HASHDYN, HASHLIN, TRIE, TRIEINP, KINDS };
static const char* kind_name[KINDS] = { "hashtable", "hashdyn", "hashlin", "trie", "trie_inplace" };

typedef struct {
	unsigned magic;
	int in, blk, layer;
	unsigned idx, visits;
	union { tommy_node n; tommy_trie_inplace_node t; } node;
	unsigned tail_magic;
} object;

static int kind;
static int nblk;
static unsigned bsize[BMAX];
static unsigned long long bbase[BMAX], bmul[BMAX];
static object** reg[BMAX][LMAX];
static int ltop = 8; /* over the layers used */
static unsigned long long param; /* size of hashtable */

static union { tommy_hashtable tbl; tommy_hashdyn dyn; tommy_hashlin lin; tommy_trie trie; tommy_trie_inplace inp; } *C;
static tommy_allocator trie_alloc;
static int alive;

/* work done by the library, in basic blocks, if it's built with -fsanitize-coverage=trace-pc */
unsigned long vf_work;
__attribute__((no_sanitize_coverage)) void __sanitizer_cov_trace_pc(void) { ++vf_work; }

/* the data given to the library is opaque: it can be any value, not only the address of something */
static uintptr_t veil; static unsigned veil_no;
static const uintptr_t veils[] = { 0, ~(uintptr_t)0, 1, ~(uintptr_t)0 >> 1, 2 };
static void* hide(const void* o) { return (void*)((uintptr_t)o ^ veil); }
static void* show(const void* d) { return d ? (void*)((uintptr_t)d ^ veil) : 0; }

static unsigned long long hash_of(int b, unsigned i) { return bbase[b] + i * bmul[b]; }

/* ------------------------------------------------------------------ */
static struct key { int blk; unsigned idx; } the_key;
static const void* key_arg; /* the argument of the comparison, it may be anything */
static int coarse; /* the comparison tells apart only the keys with the same hash */
static unsigned ranks[BMAX], key_no;
static void set_ranks(void)
{
	int a, b;
	for (b = 0; b < nblk; ++b) for (ranks[b] = 0, a = 0; a < b; ++a) if ((tommy_hash_t)bbase[a] == (tommy_hash_t)bbase[b]) ++ranks[b];
}
static int cmp_bad;
static int cmp_rot;
static const int cmp_ne[] = { 1, -1, 256, 65536, INT_MIN, 0x40000000, INT_MAX, -256, 2 };

static int cmp(const void* arg, const void* obj)
{
	const struct key* k = &the_key;
	const object* o = show(obj);
	if (arg != key_arg || o->magic != MAGIC || o->tail_magic != MAGIC || !o->in) {
		cmp_bad = 1;
		return 1;
	}
	if (k->blk == o->blk && k->idx == o->idx)
		return 0;
	if (coarse && bsize[k->blk] == 1 && bsize[o->blk] == 1 && ranks[k->blk] == ranks[o->blk] && (tommy_hash_t)bbase[k->blk] != (tommy_hash_t)bbase[o->blk])
		return 0;
	cmp_rot = (cmp_rot + 1) % (int)(sizeof(cmp_ne) / sizeof(cmp_ne[0]));
	return cmp_ne[cmp_rot];
}
/* compares the identity of the objects: finer than the keys */
static object* the_target;
static int cmp_id(const void* arg, const void* obj)
{
	const object* o = show(obj);
	if (arg != key_arg || o->magic != MAGIC || o->tail_magic != MAGIC || !o->in) {
		cmp_bad = 1;
		return 1;
	}
	if (o == the_target)
		return 0;
	cmp_rot = (cmp_rot + 1) % (int)(sizeof(cmp_ne) / sizeof(cmp_ne[0]));
	return cmp_ne[cmp_rot];
}
static void setarg(const void* p) { ++key_no; key_arg = (key_no & 2) ? 0 : p; coarse = key_no & 1; }
static void setkey(int b, unsigned i) { the_key.blk = b; the_key.idx = i; setarg(&the_key); }

/* ------------------------------------------------------------------ */
/* vtable by switch */
static void c_init(void)
{
	C = malloc(sizeof(*C));
	veil = veils[veil_no++ % 5];
	memset(C, 0xA5, sizeof(*C)); vf_undef(C, sizeof(*C));
	vf_owner = 1;
	switch (kind) {
	case HASHTABLE : tommy_hashtable_init(&C->tbl, param); break;
	case HASHDYN : tommy_hashdyn_init(&C->dyn); break;
	case HASHLIN : tommy_hashlin_init(&C->lin); break;
	case TRIE : tommy_allocator_init(&trie_alloc, TOMMY_TRIE_BLOCK_SIZE, TOMMY_TRIE_BLOCK_SIZE); tommy_trie_init(&C->trie, &trie_alloc); break;
	case TRIEINP : tommy_trie_inplace_init(&C->inp); break;
	}
	alive = 1;
}
static void c_done(void)
{
	switch (kind) {
	case HASHTABLE : tommy_hashtable_done(&C->tbl); break;
	case HASHDYN : tommy_hashdyn_done(&C->dyn); break;
	case HASHLIN : tommy_hashlin_done(&C->lin); break;
	case TRIE : tommy_allocator_done(&trie_alloc); break;
	}
	memset(C, 0x5A, sizeof(*C));
	free(C);
	C = 0;
	alive = 0;
}
static void c_insert(object* o, unsigned long long h)
{
	switch (kind) {
	case HASHTABLE : tommy_hashtable_insert(&C->tbl, &o->node.n, hide(o), h); break;
	case HASHDYN : tommy_hashdyn_insert(&C->dyn, &o->node.n, hide(o), h); break;
	case HASHLIN : tommy_hashlin_insert(&C->lin, &o->node.n, hide(o), h); break;
	case TRIE : tommy_trie_insert(&C->trie, &o->node.n, hide(o), h); break;
	case TRIEINP : tommy_trie_inplace_insert(&C->inp, &o->node.t, hide(o), h); break;
	}
}
static void* raw_remove(int b, unsigned i)
{
	unsigned long long h = hash_of(b, i);
	setkey(b, i);
	switch (kind) {
	case HASHTABLE : return tommy_hashtable_remove(&C->tbl, cmp, key_arg, h);
	case HASHDYN : return tommy_hashdyn_remove(&C->dyn, cmp, key_arg, h);
	case HASHLIN : return tommy_hashlin_remove(&C->lin, cmp, key_arg, h);
	case TRIE : return tommy_trie_remove(&C->trie, h);
	default : return tommy_trie_inplace_remove(&C->inp, h);
	}
}
static void* c_remove(int b, unsigned i) { return show(raw_remove(b, i)); }
static void* raw_remove_existing(object* o)
{
	switch (kind) {
	case HASHTABLE : return tommy_hashtable_remove_existing(&C->tbl, &o->node.n);
	case HASHDYN : return tommy_hashdyn_remove_existing(&C->dyn, &o->node.n);
	case HASHLIN : return tommy_hashlin_remove_existing(&C->lin, &o->node.n);
	case TRIE : return tommy_trie_remove_existing(&C->trie, &o->node.n);
	default : return tommy_trie_inplace_remove_existing(&C->inp, &o->node.t);
	}
}
static void* c_remove_existing(object* o) { return show(raw_remove_existing(o)); }
static void* raw_search(int b, unsigned i)
{
	unsigned long long h = hash_of(b, i);
	setkey(b, i);
	switch (kind) {
	case HASHTABLE : return tommy_hashtable_search(&C->tbl, cmp, key_arg, h);
	case HASHDYN : return tommy_hashdyn_search(&C->dyn, cmp, key_arg, h);
	case HASHLIN : return tommy_hashlin_search(&C->lin, cmp, key_arg, h);
	case TRIE : return tommy_trie_search(&C->trie, h);
	default : return tommy_trie_inplace_search(&C->inp, h);
	}
}
static void* c_search(int b, unsigned i) { return show(raw_search(b, i)); }
static void* raw_find_id(object* o, int b, unsigned i, int and_remove)
{
	unsigned long long h = hash_of(b, i);
	the_target = o; setarg(&the_target);
	switch (kind) {
	case HASHTABLE : return and_remove ? tommy_hashtable_remove(&C->tbl, cmp_id, key_arg, h) : tommy_hashtable_search(&C->tbl, cmp_id, key_arg, h);
	case HASHDYN : return and_remove ? tommy_hashdyn_remove(&C->dyn, cmp_id, key_arg, h) : tommy_hashdyn_search(&C->dyn, cmp_id, key_arg, h);
	case HASHLIN : return and_remove ? tommy_hashlin_remove(&C->lin, cmp_id, key_arg, h) : tommy_hashlin_search(&C->lin, cmp_id, key_arg, h);
	}
	return 0;
}
static void* c_find_id(object* o, int b, unsigned i, int and_remove) { return show(raw_find_id(o, b, i, and_remove)); }
/* first element of the bucket, and the one after */
static void* c_bucket(int b, unsigned i)
{
	unsigned long long h = hash_of(b, i);
	switch (kind) {
	case HASHTABLE : return tommy_hashtable_bucket(&C->tbl, h);
	case HASHDYN : return tommy_hashdyn_bucket(&C->dyn, h);
	case HASHLIN : return tommy_hashlin_bucket(&C->lin, h);
	case TRIE : return tommy_trie_bucket(&C->trie, h);
	default : return tommy_trie_inplace_bucket(&C->inp, h);
	}
}
static void* n_next(void* n) { return kind == TRIEINP ? (void*)((tommy_trie_inplace_node*)n)->next : (void*)((tommy_node*)n)->next; }
static void* n_data(void* n) { return show(kind == TRIEINP ? ((tommy_trie_inplace_node*)n)->data : ((tommy_node*)n)->data); }
static tommy_size_t c_count(void)
{
	switch (kind) {
	case HASHTABLE : return tommy_hashtable_count(&C->tbl);
	case HASHDYN : return tommy_hashdyn_count(&C->dyn);
	case HASHLIN : return tommy_hashlin_count(&C->lin);
	case TRIE : return tommy_trie_count(&C->trie);
	default : return tommy_trie_inplace_count(&C->inp);
	}
}
static tommy_size_t c_usage(void)
{
	switch (kind) {
	case HASHTABLE : return tommy_hashtable_memory_usage(&C->tbl);
	case HASHDYN : return tommy_hashdyn_memory_usage(&C->dyn);
	case HASHLIN : return tommy_hashlin_memory_usage(&C->lin);
	case TRIE : return tommy_trie_memory_usage(&C->trie);
	default : return tommy_trie_inplace_memory_usage(&C->inp);
	}
}
static void c_foreach(tommy_foreach_func* f)
{
	switch (kind) {
	case HASHTABLE : tommy_hashtable_foreach(&C->tbl, f); break;
	case HASHDYN : tommy_hashdyn_foreach(&C->dyn, f); break;
	case HASHLIN : tommy_hashlin_foreach(&C->lin, f); break;
	}
}
static void c_foreach_arg(tommy_foreach_arg_func* f, void* arg)
{
	switch (kind) {
	case HASHTABLE : tommy_hashtable_foreach_arg(&C->tbl, f, arg); break;
	case HASHDYN : tommy_hashdyn_foreach_arg(&C->dyn, f, arg); break;
	case HASHLIN : tommy_hashlin_foreach_arg(&C->lin, f, arg); break;
	}
}
static int has_foreach(void) { return kind <= HASHLIN; }
static size_t node_size(void) { return kind == TRIEINP ? sizeof(tommy_trie_inplace_node) : sizeof(tommy_node); }
/* memory owned for the structure: heap, or blocks of the allocator for the trie */
static size_t c_own(void) { return kind == TRIE ? tommy_allocator_memory_usage(&trie_alloc) : vf_live_bytes; }

/* ------------------------------------------------------------------ */
static object* obj_new(int b, int l, unsigned i)
{
	object* o = malloc(sizeof(object));
	memset(o, 0xCD, sizeof(object)); vf_undef(o, sizeof(object));
	o->magic = o->tail_magic = MAGIC;
	o->in = 1;
	o->blk = b; o->layer = l; o->idx = i; o->visits = 0;
	reg[b][l][i] = o;
	return o;
}
static void obj_del(object* o)
{
	reg[o->blk][o->layer][o->idx] = 0;
	memset(o, 0xDD, sizeof(object));
	free(o);
}
static object* as_obj(void* data, int b, unsigned i)
{
	object* o = data;
	int l;
	/* never dereference what is not one of ours: look for it in the registry first */
	for (l = 1; l < ltop; ++l)
		if (reg[b][l] && reg[b][l][i] == o)
			return o;
	return 0;
}

/* maxima in the operations of the event */
static unsigned m_al, m_fr, m_bf; static unsigned long m_w; static int m_cnt;
static unsigned chg_n; static long chg[128][2];
static long last_buckets;
static void op_begin(void) { vf_op_reset(); vf_work = 0; vf_touched = 0; }
static long buckets(void) { return kind > HASHLIN ? 0 : (long)((c_usage() - c_count() * node_size()) / sizeof(void*)); }
static void op_end(tommy_size_t before, int delta)
{
	unsigned long w = vf_work ? vf_work + vf_touched / 16 : 0;
	long b;
	if (vf_allocs > m_al) m_al = vf_allocs;
	if (vf_frees > m_fr) m_fr = vf_frees;
	m_bf += vf_badfrees + vf_foreign;
	if (w > m_w) m_w = w;
	if (c_count() != before + delta) m_cnt = 0;
	b = buckets();
	if (b != last_buckets && chg_n < 128) {
		chg[chg_n][0] = (long)c_count(); chg[chg_n][1] = b; ++chg_n;
	}
	last_buckets = b;
}

/* observation of a block, -code if wrong */
static int q[BMAX][LMAX + 1]; static int qn[BMAX];
static tommy_size_t longest; /* the longest bucket seen */
static void observe_key(int b, unsigned i, int* seq, int* n)
{
	void* node = c_bucket(b, i);
	tommy_size_t steps = 0, limit = c_count();
	void* first;
	*n = 0;
	while (node) {
		void* data;
		object* o;
		if (++steps > limit) { *n = 1; seq[0] = -4; return; } /* more elements than the total */
		data = n_data(node);
		o = data; /* chains hold only elements of the container */
		if (o->magic != MAGIC || o->tail_magic != MAGIC || !o->in) { *n = 1; seq[0] = -5; return; }
		if (o->blk == b && o->idx == i) {
			if (*n >= LMAX) { *n = 1; seq[0] = -6; return; }
			seq[(*n)++] = o->layer;
		} else if (kind == TRIE || kind == TRIEINP) {
			*n = 1; seq[0] = -3; return; /* ONLY the elements of the key */
		}
		node = n_next(node);
	}
	if (steps > longest) longest = steps;
	first = c_search(b, i);
	if (first ? (!as_obj(first, b, i) || *n == 0 || ((object*)first)->layer != seq[0]) : *n != 0) { *n = 1; seq[0] = -2; }
}
static void observe(void)
{
	int b;
	unsigned i;
	int seq[LMAX + 1], n;
	longest = 0;
	for (b = 0; b < nblk; ++b) {
		observe_key(b, 0, q[b], &qn[b]);
		for (i = 1; i < bsize[b]; ++i) {
			observe_key(b, i, seq, &n);
			if (n != qn[b] || memcmp(seq, q[b], n * sizeof(int)) != 0) {
				/* keep the error, if there is one, otherwise not uniform */
				if (!(qn[b] == 1 && q[b][0] < 0)) {
					q[b][0] = n == 1 && seq[0] < 0 ? seq[0] : -1;
					qn[b] = 1;
				}
				break;
			}
		}
	}
	if (cmp_bad && nblk) { qn[0] = 1; q[0][0] = -7; }
}

/* iteration */
static int fe_bad; static int fe_here; static void* fe_arg; static unsigned fe_no; /* the argument can be anything */ static int fe_free; static tommy_size_t fe_calls;
static void fe(void* obj)
{
	object* o = show(obj);
	++fe_calls;
	if (o->magic != MAGIC || o->tail_magic != MAGIC || !o->in) { fe_bad = -5; return; }
	++o->visits;
	if (fe_free) {
		/* overwrite it all, but remember the visit in the registry, as an odd pointer */
		object** r = &reg[o->blk][o->layer][o->idx];
		unsigned v = o->visits;
		memset(o, 0xDD, sizeof(object));
		free(o);
		*r = (object*)(uintptr_t)(v * 2 + 1);
	}
}
static void fa(void* arg, void* obj)
{
	if (arg != fe_arg) { fe_bad = -8; return; }
	fe(obj);
}
static void iterate(int with_arg, int and_free)
{
	int b, l;
	unsigned i;
	for (b = 0; b < nblk; ++b) for (l = 1; l < ltop; ++l) if (reg[b][l]) for (i = 0; i < bsize[b]; ++i) if (reg[b][l][i]) reg[b][l][i]->visits = 0;
	fe_bad = 0; fe_free = and_free; fe_calls = 0;
	op_begin();
	++fe_no;
	fe_arg = fe_no % 3 == 0 ? 0 : fe_no % 3 == 1 ? (void*)&fe_here : (void*)(uintptr_t)-1;
	if (with_arg) c_foreach_arg(fa, fe_arg); else c_foreach(fe);
	if (vf_allocs + vf_frees + vf_badfrees) fe_bad = -9;
	for (b = 0; b < nblk; ++b) {
		qn[b] = 0;
		for (l = 1; l < ltop; ++l) {
			unsigned ones = 0, zeros = 0, more = 0;
			if (!reg[b][l]) continue;
			for (i = 0; i < bsize[b]; ++i) {
				object* o = reg[b][l][i];
				unsigned v = !o ? 0 : ((uintptr_t)o & 1) ? (unsigned)((uintptr_t)o >> 1) : o->visits;
				if (v == 0) ++zeros; else if (v == 1) ++ones; else ++more;
			}
			if (more) { qn[b] = 1; q[b][0] = -10; break; }
			if (ones && zeros) { qn[b] = 1; q[b][0] = -1; break; }
			if (ones) q[b][qn[b]++] = l;
		}
	}
	if (fe_bad && nblk) { qn[0] = 1; q[0][0] = fe_bad; }
	if (and_free)
		for (b = 0; b < nblk; ++b) for (l = 1; l < ltop; ++l) if (reg[b][l]) for (i = 0; i < bsize[b]; ++i)
			if ((uintptr_t)reg[b][l][i] & 1) reg[b][l][i] = 0;
}

static void reset(void)
{
	int b, l;
	unsigned i;
	if (alive) c_done();
	for (b = 0; b < nblk; ++b)
		for (l = 1; l < ltop; ++l)
			if (reg[b][l]) {
				for (i = 0; i < bsize[b]; ++i) if (reg[b][l][i]) obj_del(reg[b][l][i]);
				free(reg[b][l]);
				reg[b][l] = 0;
			}
	vf_forget_all();
	vf_next_id = 0;
	cmp_bad = 0;
}

/* ------------------------------------------------------------------ */
/* operations on a block; the result is a layer, 0 for nothing, negative if something is wrong */
static int do_insert(int b, int l)
{
	unsigned i;
	if (l >= LMAX) return -20;
	if (l >= ltop) ltop = l + 1;
	if (!reg[b][l]) reg[b][l] = calloc(bsize[b], sizeof(object*));
	for (i = 0; i < bsize[b]; ++i) {
		object* o;
		tommy_size_t before = c_count();
		if (reg[b][l][i]) return -20; /* the driver believes it is out, it is not */
		o = obj_new(b, l, i);
		op_begin();
		c_insert(o, hash_of(b, i));
		op_end(before, 1);
		if (n_data(kind == TRIEINP ? (void*)&o->node.t : (void*)&o->node.n) != o) return -21;
	}
	return l;
}
static int do_remove(int b)
{
	unsigned i;
	int r = 0;
	for (i = 0; i < bsize[b]; ++i) {
		tommy_size_t before = c_count();
		void* data;
		object* o;
		int x;
		op_begin();
		data = c_remove(b, i);
		op_end(before, data ? -1 : 0);
		o = data ? as_obj(data, b, i) : 0;
		if (data && !o) return -22; /* not an element of this key */
		x = o ? o->layer : 0;
		if (o) obj_del(o);
		if (i == 0) r = x; else if (r != x) r = -1;
	}
	return r;
}
static int do_remove_existing(int b, int l)
{
	unsigned i;
	for (i = 0; i < bsize[b]; ++i) {
		tommy_size_t before = c_count();
		object* o = reg[b][l] ? reg[b][l][i] : 0;
		void* data;
		if (!o) return -20;
		op_begin();
		data = c_remove_existing(o);
		op_end(before, -1);
		if (data != o) return -23;
		obj_del(o);
	}
	return l;
}
static int do_search(int b)
{
	unsigned i;
	int r = 0;
	for (i = 0; i < bsize[b]; ++i) {
		tommy_size_t before = c_count();
		void* data;
		int x;
		op_begin();
		data = c_search(b, i);
		op_end(before, 0);
		if (data && !as_obj(data, b, i)) return -22;
		x = data ? ((object*)data)->layer : 0;
		if (i == 0) r = x; else if (r != x) r = -1;
	}
	return r;
}

/* search, or remove, with a comparison by identity; only for the hash tables */
static int do_find_id(int b, int l, int and_remove)
{
	unsigned i;
	int r = 0;
	for (i = 0; i < bsize[b]; ++i) {
		tommy_size_t before = c_count();
		object* o = reg[b][l] ? reg[b][l][i] : 0;
		void* data;
		int x;
		op_begin();
		data = c_find_id(o, b, i, and_remove);
		op_end(before, and_remove && data ? -1 : 0);
		if (data && data != o) return -24;
		x = data ? l : 0;
		if (data && and_remove) obj_del(o);
		if (i == 0) r = x; else if (r != x) r = -1;
	}
	return r;
}

/* memory of a trie made from scratch, in another order, with the same content; 1 more, 0 if not known */
static int obs_fresh;
static size_t fresh_usage(void)
{
	static tommy_allocator fa;
	static tommy_trie ft;
	size_t n = 0, m, res;
	tommy_node* nodes;
	int b, l;
	unsigned i;
	if (!obs_fresh || kind != TRIE || !C) return 0;
	nodes = malloc((c_count() + 1) * sizeof(tommy_node));
	m = c_count();
	tommy_allocator_init(&fa, TOMMY_TRIE_BLOCK_SIZE, TOMMY_TRIE_BLOCK_SIZE);
	tommy_trie_init(&ft, &fa);
	for (b = nblk - 1; b >= 0; --b)
		for (l = 1; l < ltop; ++l)
			if (reg[b][l])
				for (i = bsize[b]; i-- > 0; )
					if (reg[b][l][i] && n < m) {
						tommy_trie_insert(&ft, &nodes[n], &nodes[n], hash_of(b, i));
						++n;
					}
	res = tommy_allocator_memory_usage(&fa) + 1;
	tommy_allocator_done(&fa);
	free(nodes);
	return res;
}
/* digits of the keys, one for each level of the trie; the first level after the bucket takes again the last bits of the bucket */
static void put_digits(void)
{
#if defined(TOMMY_TRIE_BIT) && defined(TOMMY_TRIE_BUCKET_BIT) && defined(TOMMY_TRIE_TREE_BIT)
	int b, s, single = kind == TRIE;
	for (b = 0; b < nblk; ++b) if (bsize[b] != 1) single = 0;
	if (single) {
		printf(",\"bs\":%d,\"dig\":[", (int)(TOMMY_TRIE_BLOCK_SIZE));
		for (b = 0; b < nblk; ++b) {
			unsigned long long h = hash_of(b, 0);
			s = TOMMY_TRIE_BIT - TOMMY_TRIE_BUCKET_BIT;
			printf("%s[%llu", b ? "," : "", h >> s);
			for (; s >= 0; s -= TOMMY_TRIE_TREE_BIT)
				printf(",%llu", (h >> s) & ((1ULL << TOMMY_TRIE_TREE_BIT) - 1));
			printf("]");
		}
		printf("],\"ord\":[");
		for (s = 0; s < nblk; ++s) {
			/* the one with s keys before it */
			int i, n;
			for (b = 0; b < nblk; ++b) {
				for (n = 0, i = 0; i < nblk; ++i) if (hash_of(i, 0) < hash_of(b, 0) || (hash_of(i, 0) == hash_of(b, 0) && i < b)) ++n;
				if (n == s) printf("%s%d", s ? "," : "", b + 1);
			}
		}
		printf("]");
		return;
	}
#endif
	printf(",\"bs\":0,\"dig\":[],\"ord\":[]");
}

/* ------------------------------------------------------------------ */
static void ev_begin(void) { m_al = m_fr = m_bf = 0; m_w = 0; m_cnt = 1; chg_n = 0; }
static void put_q(void)
{
	int b, j;
	putchar('[');
	for (b = 0; b < nblk; ++b) {
		if (b) putchar(',');
		putchar('[');
		for (j = 0; j < qn[b]; ++j) printf("%s%d", j ? "," : "", q[b][j]);
		putchar(']');
	}
	putchar(']');
}
static void ev_end(const char* e, int b, int l, int r, int oq)
{
	unsigned i;
	printf("{\"e\":\"%s\",\"k\":%d,\"o\":%d,\"r\":%d", e, b + 1, l, r);
	if (C) printf(",\"n\":%ld,\"mu\":%ld,\"own\":%ld", (long)c_count(), (long)c_usage(), (long)c_own());
	else printf(",\"n\":0,\"mu\":0,\"own\":%ld", (long)vf_live_bytes);
	printf(",\"hn\":%ld,\"al\":%u,\"fr\":%u,\"bf\":%u,\"gd\":%d,\"w\":%lu,\"cm\":%d,\"oq\":%d,\"q\":", (long)vf_live_blocks, m_al, m_fr, m_bf, vf_guards_ok(), m_w, m_cnt, oq);
	if (oq) put_q(); else printf("[]");
	printf(",\"fm\":%ld,\"mx\":%ld", (long)fresh_usage(), oq ? (long)longest : 0L);
	printf(",\"ch\":[");
	for (i = 0; i < chg_n; ++i) printf("%s[%ld,%ld]", i ? "," : "", chg[i][0], chg[i][1]);
	printf("]}\n");
	fflush(stdout);
}

static int script(void)
{
	char op[8];
	int obs = 1;
	while (scanf("%7s", op) == 1) {
		int b = 0, l = 0, r = 0;
		ev_begin();
		switch (op[0]) {
		case 'T' : { /* T kind obs param nblk (size base mul)* */
			char k[32];
			int i;
			reset();
			if (scanf("%31s %d %llu %d", k, &obs, &param, &nblk) != 4) return 2;
			for (i = 0; i < KINDS && strcmp(k, kind_name[i]) != 0; ++i);
			if (i == KINDS || nblk > BMAX) return 2;
			kind = i;
			for (i = 0; i < nblk; ++i)
				if (scanf("%u %llx %llx", &bsize[i], &bbase[i], &bmul[i]) != 3) return 2;
			set_ranks();
			op_begin();
			c_init();
			m_al = vf_allocs; m_bf = vf_badfrees;
			last_buckets = buckets();
			printf("{\"e\":\"init\",\"c\":\"%s\",\"sz\":[", kind_name[kind]);
			for (i = 0; i < nblk; ++i) printf("%s%u", i ? "," : "", bsize[i]);
			printf("],\"sq\":["); for (i = 0; i < nblk; ++i) printf("%s%d", i ? "," : "", bmul[i] == 1);
			printf("],\"ns\":%d,\"ps\":%d,\"p\":%ld,\"hb\":%d,\"db\":%d,\"n\":%ld,\"mu\":%ld,\"own\":%ld,\"hn\":%ld,\"al\":%u,\"fr\":%u,\"bf\":%u,\"gd\":1,\"w\":0,\"cm\":1,\"oq\":1,\"q\":",
				(int)node_size(), (int)sizeof(void*), (long)param, TOMMY_HASHLIN_BIT, TOMMY_HASHDYN_BIT, (long)c_count(), (long)c_usage(), (long)c_own(), (long)vf_live_blocks, m_al, vf_frees, m_bf);
			observe();
			put_q();
			put_digits();
			printf(",\"r\":0,\"k\":0,\"o\":0,\"fm\":%ld,\"mx\":0,\"ch\":[]}\n", (long)fresh_usage());
			fflush(stdout);
			continue;
		}
		case 'i' : if (scanf("%d %d", &b, &l) != 2) return 2; --b; r = do_insert(b, l); if (obs) observe(); ev_end("ins", b, l, r, obs); break;
		case 'r' : if (scanf("%d", &b) != 1) return 2; --b; r = do_remove(b); if (obs) observe(); ev_end("rem", b, 0, r, obs); break;
		case 'x' : if (scanf("%d %d", &b, &l) != 2) return 2; --b; r = do_remove_existing(b, l); if (obs) observe(); ev_end("rmx", b, l, r, obs); break;
		case 's' : if (scanf("%d", &b) != 1) return 2; --b; r = do_search(b); if (obs) observe(); ev_end("sea", b, 0, r, obs); break;
		case 'S' : if (scanf("%d %d", &b, &l) != 2 || kind > HASHLIN) return 2; --b; r = do_find_id(b, l, 0); if (obs) observe(); ev_end("sid", b, l, r, obs); break;
		case 'R' : if (scanf("%d %d", &b, &l) != 2 || kind > HASHLIN) return 2; --b; r = do_find_id(b, l, 1); if (obs) observe(); ev_end("rid", b, l, r, obs); break;
		case 'o' : op_begin(); observe(); m_al = vf_allocs; m_fr = vf_frees; m_bf = vf_badfrees; ev_end("obs", -1, 0, 0, 1); break;
		case 'f' : iterate(0, 0); ev_end("for", -1, 0, 0, 1); break;
		case 'a' : iterate(1, 0); ev_end("for", -1, 0, 0, 1); break;
		case 'F' : iterate(0, 1); ev_begin(); op_begin(); c_done(); m_fr = vf_frees; m_bf = vf_badfrees + vf_foreign; ev_end("ffr", -1, 0, 0, 1); break;
		case 'A' : iterate(1, 1); ev_begin(); op_begin(); c_done(); m_fr = vf_frees; m_bf = vf_badfrees + vf_foreign; ev_end("ffr", -1, 0, 0, 1); break;
		case 'D' : op_begin(); c_done(); m_fr = vf_frees; m_bf = vf_badfrees + vf_foreign; ev_end("don", -1, 0, 0, 0); break;
		default : return 2;
		}
		if (r <= -20) {
			/* the driver and the code have not the same elements any more: drop the rest of the trace */
			int c;
			while ((c = getchar()) != EOF && c != 'T');
			if (c == EOF) break;
			ungetc(c, stdin);
		}
	}
	reset();
	return 0;
}

/* ------------------------------------------------------------------ */
/* Graph mode.
 * Input: "kind param nblk (base)*", "ns" states, each "parent op b l nq q...", where q is a list of lengths
 * and layers for each block; then "ne" edges, each "from op b l res to". op: 1 insert, 2 remove, 3 remove existing. */
typedef struct { int parent, op, b, l; int* q; int nq; } gstate;
static gstate* gs;
static int gpath[4096][3], gpath_n;
static void mismatch(const char* what, int to, int from, int op, int b, int l, int expected, int got)
{
	int i, j;
	printf("MISMATCH %s: container=%s path=[", what, kind_name[kind]);
	(void)from;
	for (i = 0; i < gpath_n; ++i) printf("%s(%d) ", gpath[i][0] == 1 ? "insert" : gpath[i][0] == 2 ? "remove" : "remove_existing", gpath[i][0] == 2 ? gpath[i][1] : gpath[i][1] * 100 + gpath[i][2]);
	printf("] then op=%d key=%d obj=%d expected=%d got=%d; specification bucket lists: ", op, b, l, expected, got);
	if (to >= 0) for (i = 0; i < gs[to].nq; ++i) printf("%d ", gs[to].q[i]);
	printf("; observed lists: ");
	for (i = 0; i < nblk; ++i) { printf("%d:", qn[i]); for (j = 0; j < qn[i]; ++j) printf(" %d", q[i][j]); printf("; "); }
	printf("keys(hash): ");
	for (i = 0; i < nblk; ++i) printf("%d=0x%llx ", i + 1, bbase[i]);
	printf("\n");
	fflush(stdout);
	exit(1);
}
static int gop(int op, int b, int l)
{
	switch (op) {
	case 1 : return do_insert(b - 1, l);
	case 2 : return do_remove(b - 1);
	case 4 : return do_find_id(b - 1, l, 1);
	default : return do_remove_existing(b - 1, l);
	}
}
static int q_matches(int s, int sorted)
{
	int b, j, p = 0;
	for (b = 0; b < nblk; ++b) {
		int n = gs[s].q[p++];
		if (n != qn[b]) return 0;
		if (!sorted) {
			for (j = 0; j < n; ++j) if (gs[s].q[p + j] != q[b][j]) return 0;
		} else {
			for (j = 0; j < n; ++j) { int k, f = 0; for (k = 0; k < n; ++k) if (gs[s].q[p + k] == q[b][j]) ++f; if (f != 1) return 0; }
		}
		p += n;
	}
	return 1;
}
static int over_budget(int op)
{
	switch (kind) {
	case HASHTABLE : case TRIEINP : return m_al || m_fr;
	case HASHLIN : return op == 1 ? m_al > 1 || m_fr : m_al || m_fr > 1;
	}
	return 0;
}
/* mode: 1 iteration, 2 memory usage, 4 heap, 8 inner nodes of the trie (the specification has their number after the lists) */
static int graph(int mode)
{
	char k[32];
	int ns, ne, i, j, total;
	long done = 0;
	if (scanf("%31s %llu %d", k, &param, &nblk) != 3) return 2;
	for (i = 0; i < KINDS && strcmp(k, kind_name[i]) != 0; ++i);
	if (i == KINDS) return 2;
	kind = i;
	for (i = 0; i < nblk; ++i) { bsize[i] = 1; bmul[i] = 0; if (scanf("%llx", &bbase[i]) != 1) return 2; }
	set_ranks();
	if (scanf("%d", &ns) != 1) return 2;
	gs = calloc(ns, sizeof(gstate));
	for (i = 0; i < ns; ++i) {
		if (scanf("%d %d %d %d %d", &gs[i].parent, &gs[i].op, &gs[i].b, &gs[i].l, &gs[i].nq) != 5) return 2;
		gs[i].q = malloc(gs[i].nq * sizeof(int));
		for (j = 0; j < gs[i].nq; ++j) if (scanf("%d", &gs[i].q[j]) != 1) return 2;
	}
	if (scanf("%d", &ne) != 1) return 2;
	for (i = 0; i < ne; ++i) {
		int from, op, b, l, res, to, s, r;
		if (scanf("%d %d %d %d %d %d", &from, &op, &b, &l, &res, &to) != 6) return 2;
		reset();
		gpath_n = 0;
		for (s = from; gs[s].parent >= 0; s = gs[s].parent) { gpath[gpath_n][0] = gs[s].op; gpath[gpath_n][1] = gs[s].b; gpath[gpath_n][2] = gs[s].l; ++gpath_n; }
		for (j = 0; j < gpath_n / 2; ++j) { int t; for (t = 0; t < 3; ++t) { int z = gpath[j][t]; gpath[j][t] = gpath[gpath_n - 1 - j][t]; gpath[gpath_n - 1 - j][t] = z; } }
		ev_begin();
		c_init();
		last_buckets = buckets();
		for (j = 0; j < gpath_n; ++j) { r = gop(gpath[j][0], gpath[j][1], gpath[j][2]); if (r < 0) mismatch("result on the path", -1, from, gpath[j][0], gpath[j][1], gpath[j][2], 0, r); }
		ev_begin();
		r = gop(op == 3 && kind <= HASHLIN && (i & 1) ? 4 : op, b, l); /* also by a search of the very object */
		if (r != res) mismatch("result", to, from, op, b, l, res, r);
		observe();
		if (!q_matches(to, 0)) mismatch("content", to, from, op, b, l, 0, 0);
		for (total = 0, j = 0; j < nblk; ++j) total += qn[j];
		if ((int)c_count() != total) mismatch("count", to, from, op, b, l, total, (int)c_count());
		if (kind <= HASHLIN) {
			/* a search changes nothing, whatever it compares */
			int p, n, w;
			for (p = 0, j = 0; j < nblk; ++j) {
				n = gs[to].q[p++];
				for (s = 0; s < n; ++s) {
					w = (i & 2) ? n - 1 - s : s;
					if (do_find_id(j, gs[to].q[p + w], 0) != gs[to].q[p + w]) mismatch("search of the object", to, from, op, b, l, gs[to].q[p + w], 0);
				}
				p += n;
			}
			for (j = 0; j < nblk; ++j) for (s = 1; s < ltop; ++s) if (!(reg[j][s] && reg[j][s][0]) && do_find_id(j, s, 0) != 0) mismatch("search of an object not contained", to, from, op, b, l, 0, s);
			observe();
			if (!q_matches(to, 0)) mismatch("content changed by searches", to, from, op, b, l, 0, 0);
		}
		if ((mode & 2) && c_usage() != c_count() * node_size() + c_own()) mismatch("memory usage", to, from, op, b, l, (int)(c_count() * node_size() + c_own()), (int)c_usage());
		if ((mode & 8) && kind == TRIE && c_own() != gs[to].q[gs[to].nq - 1] * (size_t)TOMMY_TRIE_BLOCK_SIZE)
			mismatch("inner nodes (memory)", to, from, op, b, l, gs[to].q[gs[to].nq - 1] * (int)TOMMY_TRIE_BLOCK_SIZE, (int)c_own());
		if ((mode & 4) && over_budget(op)) mismatch("heap: calls not expected of the operation", to, from, op, b, l, 0, m_al * 10 + m_fr);
		if ((mode & 4) && m_bf) mismatch("heap: bad free", to, from, op, b, l, 0, m_bf);
		if ((mode & 4) && !vf_guards_ok()) mismatch("heap: write out of bounds", to, from, op, b, l, 0, 0);
		if ((mode & 1) && has_foreach()) {
			iterate(i & 1, (i >> 1) & 1);
			if (!q_matches(to, 1)) mismatch("iteration", to, from, op, b, l, 0, 0);
		}
		vf_op_reset();
		c_done();
		if ((mode & 4) && (vf_live_blocks || vf_badfrees)) mismatch("heap: blocks left or bad free at the end", to, from, op, b, l, 0, (int)vf_live_blocks);
		++done;
	}
	printf("DONE %ld\n", done);
	reset();
	return 0;
}

int main(int argc, char** argv)
{
	if (argc > 1 && strcmp(argv[1], "graph") == 0)
		return graph(argc > 2 ? atoi(argv[2]) : 7);
	obs_fresh = argc > 1 && strcmp(argv[1], "fresh") == 0;
	return script();
}
