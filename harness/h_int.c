/* Driver of the integer hashes. Commands, one event each:
 *   s <32|64> <hex>          a single value
 *   a                        all the words of 32 bits
 *   f <mul> <add> <shift> <n> <p>  the words of 64 bits (i * mul + add) << shift, with i in 0..n-1
 *   b <seed> <n>             random words of 64 bits
 *   w <k> <p>                all the words of 64 bits with at most k bits at 1, and their complements
 * With p the words are the intermediate values before the step p of the hash (p = 7 the results): the values
 * hashed are obtained from them with the inverse of the steps, which reaches what no simple input reaches.
 */
#include <pthread.h>
#include "config.h"
#include "tommyds/tommyhash.h"
#include "words.h"
#define NT 8
static uint32_t ref32(uint32_t k)
{
	k -= k << 6; k ^= k >> 17; k -= k << 9; k ^= k << 4; k -= k << 3; k ^= k << 10; k ^= k >> 15;
	return k;
}
static uint64_t ref64(uint64_t k)
{
	/* with the shifts as products */
	k = k * 0x1fffffULL - 1; k ^= k >> 24; k *= 265; k ^= k >> 14; k *= 21; k ^= k >> 28; k *= 0x80000001ULL;
	return k;
}
static uint64_t inv(uint64_t a) { uint64_t x = a; int i; for (i = 0; i < 6; ++i) x *= 2 - a * x; return x; }
static uint64_t unshr(uint64_t y, int s) { uint64_t x = y; int i; for (i = s; i < 64; i += s) x = y ^ (x >> s); return x; }
static uint64_t I21, I265, I31, IF;
static uint64_t unhash64(uint64_t y)
{
	y *= I31; y = unshr(y, 28); y *= I21; y = unshr(y, 14); y *= I265; y = unshr(y, 24);
	return (y + 1) * IF;
}
/* input whose value before the step p is v */
static inline uint64_t back(int p, uint64_t v)
{
	if (p > 6) v *= I31;
	if (p > 5) v = unshr(v, 28);
	if (p > 4) v *= I21;
	if (p > 3) v = unshr(v, 14);
	if (p > 2) v *= I265;
	if (p > 1) v = unshr(v, 24);
	if (p > 0) v = (v + 1) * IF;
	return v;
}
struct job { int kind, p; uint64_t from, to, mul, add, seed; int shift; uint64_t bad, rev, at; };
static unsigned char* map;
static inline void try64(struct job* j, uint64_t v)
{
	uint64_t r = tommy_inthash_u64(v);
	if (r != ref64(v)) { if (!j->bad) j->at = v; ++j->bad; }
	if (unhash64(r) != v) { if (!j->bad && !j->rev) j->at = v; ++j->rev; }
}
static void* work(void* arg)
{
	struct job* j = arg;
	uint64_t i;
	if (j->kind == 'a') {
		for (i = j->from; i < j->to; ++i) {
			uint32_t r = tommy_inthash_u32((uint32_t)i);
			if (r != ref32((uint32_t)i)) { if (!j->bad) j->at = i; ++j->bad; }
			__atomic_fetch_or(&map[r >> 3], 1 << (r & 7), __ATOMIC_RELAXED);
		}
	} else if (j->kind == 'f') {
		for (i = j->from; i < j->to; ++i) try64(j, back(j->p, (i * j->mul + j->add) << j->shift));
	} else {
		uint64_t s = j->seed;
		for (i = j->from; i < j->to; ++i) {
			uint64_t z = (s + i * 0x9e3779b97f4a7c15ULL);
			z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
			z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
			z ^= z >> 31;
			if (i & 1) { int k = z & 63; z = (i & 2) ? z >> k : (z >> k) << k; }
			try64(j, z);
		}
	}
	return 0;
}
static void bulk(int kind, uint64_t n, uint64_t mul, uint64_t add, int shift, uint64_t seed, int p)
{
	static struct job j[NT];
	pthread_t th[NT];
	uint64_t bad = 0, rev = 0, at = 0, i;
	int t;
	if (kind == 'a') { map = calloc(1, (size_t)1 << 29); if (!map) exit(2); }
	for (t = 0; t < NT; ++t) {
		memset(&j[t], 0, sizeof(j[t]));
		j[t].kind = kind; j[t].p = p; j[t].mul = mul; j[t].add = add; j[t].shift = shift; j[t].seed = seed;
		j[t].from = n / NT * t;
		j[t].to = t == NT - 1 ? n : n / NT * (t + 1);
		if (pthread_create(&th[t], 0, work, &j[t])) exit(2);
	}
	for (t = 0; t < NT; ++t) {
		pthread_join(th[t], 0);
		if ((j[t].bad || j[t].rev) && !bad && !rev) at = j[t].at;
		bad += j[t].bad; rev += j[t].rev;
	}
	printf("{\"e\":\"%s\",\"n\":", kind == 'a' ? "all" : "bulk"); put64(stdout, n);
	printf(",\"bad\":%u,\"rev\":%u,\"at\":", (unsigned)(bad > 1000000 ? 1000000 : bad), (unsigned)(rev > 1000000 ? 1000000 : rev)); put64(stdout, at);
	if (kind == 'a') {
		uint64_t d = 0;
		const uint64_t* m = (const uint64_t*)map;
		for (i = 0; i < (1 << 26); ++i) d += __builtin_popcountll(m[i]);
		printf(",\"d\":"); put64(stdout, d);
		free(map);
	}
	printf("}\n");
}
static uint64_t wn;
static void sparse(struct job* j, uint64_t v, int from, int k)
{
	int i;
	try64(j, back(j->p, v)); try64(j, back(j->p, ~v)); wn += 2;
	if (k) for (i = from; i < 64; ++i) sparse(j, v | (uint64_t)1 << i, i + 1, k - 1);
}
int main(void)
{
	static char line[256];
	I21 = inv(21); I265 = inv(265); I31 = inv(0x80000001ULL); IF = inv(0x1fffffULL);
	while (fgets(line, sizeof(line), stdin)) {
		unsigned long long x, y, n;
		int w, s;
		if (line[0] == 's' && sscanf(line, "s %d %llx", &w, &x) == 2) {
			printf("{\"e\":\"one\",\"x\":");
			if (w == 32) {
				put32(stdout, x); printf(",\"y\":"); put32(stdout, tommy_inthash_u32(x)); printf(",\"f\":"); put32(stdout, ref32(x));
			} else {
				put64(stdout, x); printf(",\"y\":"); put64(stdout, tommy_inthash_u64(x)); printf(",\"f\":"); put64(stdout, ref64(x));
			}
			printf("}\n");
		} else if (line[0] == 'a') {
			bulk('a', (uint64_t)1 << 32, 0, 0, 0, 0, 0);
		} else if (line[0] == 'f' && sscanf(line, "f %llx %llx %d %llu %d", &x, &y, &s, &n, &w) == 5) {
			bulk('f', n, x, y, s, 0, w);
		} else if (line[0] == 'b' && sscanf(line, "b %llx %llu", &x, &n) == 2) {
			bulk('b', n, 0, 0, 0, x, 0);
		} else if (line[0] == 'w' && sscanf(line, "w %d %d", &w, &s) == 2) {
			static struct job j;
			memset(&j, 0, sizeof(j));
			wn = 0;
			j.p = s;
			sparse(&j, 0, 0, w);
			printf("{\"e\":\"bulk\",\"n\":"); put64(stdout, wn);
			printf(",\"bad\":%u,\"rev\":%u,\"at\":", (unsigned)(j.bad > 1000000 ? 1000000 : j.bad), (unsigned)(j.rev > 1000000 ? 1000000 : j.rev)); put64(stdout, j.at); printf("}\n");
		} else
			return 2;
		fflush(stdout);
	}
	return 0;
}
