/* Driver of the bit functions. Commands, one event each:
 *   s <fn> <hex>             a single value
 *   e <fn> <shift> <base>    every value base + (i << shift), with i in 1..2^32-1, summarized by result
 *   z                        every word for the zero byte test
 *   c                        the constants TOMMY_ILOG2()
 *   b <seed> <n>             random values, compared with the plain loops in this file
 * fn: hi32 hi64 hi lo32 lo64 lo up32 up64 up zero
 */
#include <pthread.h>
#include "config.h"
#include "tommyds/tommytypes.h"
#include "words.h"
#define NT 8
enum { HI32, HI64, HI, LO32, LO64, LO, UP32, UP64, UP, ZERO, NFN };
static const char* const NAME[NFN] = { "hi32", "hi64", "hi", "lo32", "lo64", "lo", "up32", "up64", "up", "zero" };
static const int WIDTH[NFN] = { 32, 64, TOMMY_SIZE_BIT, 32, 64, TOMMY_SIZE_BIT, 32, 64, TOMMY_SIZE_BIT, 32 };
static inline uint64_t call(int fn, uint64_t v)
{
	switch (fn) {
	case HI32 : return tommy_ilog2_u32((tommy_uint32_t)v);
	case HI : return tommy_ilog2((tommy_size_t)v);
	case LO32 : return tommy_ctz_u32((tommy_uint32_t)v);
	case LO : return tommy_ctz((tommy_size_t)v);
	case UP32 : return tommy_roundup_pow2_u32((tommy_uint32_t)v);
	case UP64 : return tommy_roundup_pow2_u64(v);
	case UP : return tommy_roundup_pow2((tommy_size_t)v);
	case ZERO : return (uint64_t)(int64_t)tommy_haszero_u32((tommy_uint32_t)v);
#if TOMMY_SIZE_BIT == 64
	case HI64 : return tommy_ilog2_u64(v);
	case LO64 : return tommy_ctz_u64(v);
#endif
	}
	exit(2);
}
static uint64_t ref(int fn, uint64_t v)
{
	int k = 0, i;
	if (WIDTH[fn] == 32) v &= 0xffffffff;
	switch (fn) {
	case HI32 : case HI64 : case HI : for (i = 0; i < 64; ++i) if ((v >> i) & 1) k = i; return k;
	case LO32 : case LO64 : case LO : while (!((v >> k) & 1)) ++k; return k;
	case UP32 : case UP64 : case UP : while (((uint64_t)1 << k) < v) ++k; return (uint64_t)1 << k;
	}
	for (i = 0; i < 4; ++i) if (((v >> 8 * i) & 0xff) == 0) k = 1;
	return k;
}
struct cls { uint64_t cnt; uint32_t min, max, and, or; };
struct job { int fn, shift; uint64_t base, from, to; struct cls c[66]; };
static inline void put(struct cls* c, uint32_t i)
{
	++c->cnt;
	if (i < c->min) c->min = i;
	if (i > c->max) c->max = i;
	c->and &= i;
	c->or |= i;
}
static inline int lg(uint64_t r)
{
	int k;
	if (!r || (r & (r - 1))) return 65;
	for (k = 0; r >> k != 1; ++k) ;
	return k;
}
static inline __attribute__((always_inline)) void loop(struct job* j, int fn)
{
	uint64_t i;
	uint64_t last = 0;
	int k = 65;
	for (i = j->from; i < j->to; ++i) {
		uint64_t r = call(fn, j->base + (i << j->shift));
		if (fn == UP32 || fn == UP64 || fn == UP) {
			if (r != last || i == j->from) { k = lg(r); last = r; }
		} else
			k = r < 64 ? (int)r : 65;
		put(&j->c[k], (uint32_t)i);
	}
}
static void* work(void* arg)
{
	struct job* j = arg;
	int k;
	for (k = 0; k < 66; ++k) { memset(&j->c[k], 0, sizeof(struct cls)); j->c[k].min = j->c[k].and = 0xffffffff; }
	switch (j->fn) {
	case HI32 : loop(j, HI32); break;
	case LO32 : loop(j, LO32); break;
	case UP32 : loop(j, UP32); break;
	case UP64 : loop(j, UP64); break;
#if TOMMY_SIZE_BIT == 64
	case HI64 : loop(j, HI64); break;
	case LO64 : loop(j, LO64); break;
#endif
	default : exit(2);
	}
	return 0;
}
static void enumerate(int fn, int shift, uint64_t base)
{
	static struct job j[NT];
	pthread_t th[NT];
	uint64_t end = (uint64_t)1 << 32;
	int t, k, first = 1;
	/* only the values that have a result */
	if ((fn == UP32 && shift == 0) || (fn == UP64 && shift == 32)) end = ((uint64_t)1 << 31) + (base == 0);
	for (t = 0; t < NT; ++t) {
		j[t].fn = fn; j[t].shift = shift; j[t].base = base;
		j[t].from = t ? end / NT * t : 1;
		j[t].to = t == NT - 1 ? end : end / NT * (t + 1);
		if (pthread_create(&th[t], 0, work, &j[t])) exit(2);
	}
	for (t = 0; t < NT; ++t) pthread_join(th[t], 0);
	printf("{\"e\":\"enum\",\"fn\":\"%s\",\"s\":%d,\"b\":", NAME[fn], shift);
	put64(stdout, base);
	printf(",\"c\":[");
	for (k = 0; k < 66; ++k) {
		struct cls* c = &j[0].c[k];
		for (t = 1; t < NT; ++t) {
			struct cls* d = &j[t].c[k];
			c->cnt += d->cnt;
			if (d->min < c->min) c->min = d->min;
			if (d->max > c->max) c->max = d->max;
			c->and &= d->and;
			c->or |= d->or;
		}
		if (!c->cnt) continue;
		printf("%s{\"k\":%d,\"n\":", first ? "" : ",", k); first = 0;
		put64(stdout, c->cnt); printf(",\"min\":"); put64(stdout, c->min); printf(",\"max\":"); put64(stdout, c->max);
		printf(",\"and\":"); put64(stdout, c->and); printf(",\"or\":"); put64(stdout, c->or); printf("}");
	}
	printf("]}\n");
}
struct zjob { uint64_t from, to; uint64_t n[16][3]; };
static void* zwork(void* arg)
{
	struct zjob* j = arg;
	uint64_t i;
	for (i = j->from; i < j->to; ++i) {
		uint32_t v = (uint32_t)i;
		int p = !(v & 0xff) | !(v & 0xff00) << 1 | !(v & 0xff0000) << 2 | !(v & 0xff000000) << 3;
		int r = tommy_haszero_u32(v);
		++j->n[p][r == 0 ? 0 : r == 1 ? 1 : 2];
	}
	return 0;
}
static void zero(void)
{
	static struct zjob j[NT];
	pthread_t th[NT];
	int t, p, r;
	memset(j, 0, sizeof(j));
	for (t = 0; t < NT; ++t) {
		j[t].from = ((uint64_t)1 << 32) / NT * t;
		j[t].to = ((uint64_t)1 << 32) / NT * (t + 1);
		if (pthread_create(&th[t], 0, zwork, &j[t])) exit(2);
	}
	for (t = 0; t < NT; ++t) pthread_join(th[t], 0);
	printf("{\"e\":\"zero\",\"p\":[");
	for (p = 0; p < 16; ++p) {
		printf("%s{\"z\":%d,\"n\":[", p ? "," : "", __builtin_popcount(p));
		for (r = 0; r < 3; ++r) {
			uint64_t n = 0;
			for (t = 0; t < NT; ++t) n += j[t].n[p][r];
			if (r) printf(",");
			put64(stdout, n);
		}
		printf("]}");
	}
	printf("]}\n");
}
static int ok(int fn, uint64_t v)
{
	if (TOMMY_SIZE_BIT == 32 && (fn == HI64 || fn == LO64)) return 0;
	if (WIDTH[fn] == 32) v &= 0xffffffff;
	if (fn == ZERO) return 1;
	if (fn == UP32 || fn == UP64 || fn == UP) return v && v <= (uint64_t)1 << (WIDTH[fn] - 1);
	return v != 0;
}
int main(void)
{
	static char line[256];
	while (fgets(line, sizeof(line), stdin)) {
		char name[16];
		unsigned long long x, y;
		int shift, fn;
		if (line[0] == 's' && sscanf(line, "s %15s %llx", name, &x) == 2) {
			for (fn = 0; fn < NFN && strcmp(NAME[fn], name); ++fn) ;
			if (fn == NFN) return 2;
			if (!ok(fn, x)) { printf("{\"e\":\"skip\"}\n"); continue; }
			printf("{\"e\":\"one\",\"fn\":\"%s\",\"w\":%d,\"x\":", NAME[fn], WIDTH[fn]);
			if (WIDTH[fn] == 32) put32(stdout, (uint32_t)x); else put64(stdout, x);
			printf(",\"y\":"); put64(stdout, call(fn, x));
			printf(",\"f\":"); put64(stdout, ref(fn, x));
			printf("}\n");
		} else if (line[0] == 'e' && sscanf(line, "e %15s %d %llx", name, &shift, &x) == 3) {
			for (fn = 0; fn < NFN && strcmp(NAME[fn], name); ++fn) ;
			if (fn == NFN) return 2;
			if (TOMMY_SIZE_BIT == 32 && (fn == HI64 || fn == LO64)) { printf("{\"e\":\"skip\"}\n"); continue; }
			enumerate(fn, shift, x);
		} else if (line[0] == 'z') {
			zero();
		} else if (line[0] == 'c') {
			static const int k[9] = { TOMMY_ILOG2(1), TOMMY_ILOG2(2), TOMMY_ILOG2(4), TOMMY_ILOG2(8), TOMMY_ILOG2(16), TOMMY_ILOG2(32), TOMMY_ILOG2(64), TOMMY_ILOG2(128), TOMMY_ILOG2(256) };
			printf("{\"e\":\"const\",\"k\":[%d,%d,%d,%d,%d,%d,%d,%d,%d]}\n", k[0], k[1], k[2], k[3], k[4], k[5], k[6], k[7], k[8]);
		} else if (line[0] == 'b' && sscanf(line, "b %llx %llu", &x, &y) == 2) {
			uint64_t i, bad = 0, at = 0;
			int atfn = 0;
			vf_seed = x;
			for (i = 0; i < y; ++i) {
				uint64_t v = rnd();
				unsigned k = (unsigned)rnd();
				switch (k & 7) {
				case 0 : v >>= k >> 3 & 63; break;
				case 1 : v <<= k >> 3 & 63; break;
				case 2 : v = ((uint64_t)1 << (v & 63)) + ((uint64_t)1 << (v >> 6 & 63)) - ((uint64_t)1 << (v >> 12 & 63)); break;
				case 3 : v = (v >> (k >> 3 & 63)) << (k >> 9 & 63); break;
				case 4 : v &= rnd() & rnd() & rnd() & rnd(); break;
				}
				for (fn = 0; fn < NFN; ++fn)
					if (ok(fn, v) && call(fn, v) != ref(fn, v)) { if (!bad) { at = v; atfn = fn; } ++bad; }
			}
			printf("{\"e\":\"bulk\",\"n\":%llu,\"bad\":%llu,\"fn\":\"%s\",\"x\":", y, (unsigned long long)(bad > 1000000 ? 1000000 : bad), NAME[atfn]);
			put64(stdout, at);
			printf("}\n");
		} else
			return 2;
		fflush(stdout);
	}
	return 0;
}
