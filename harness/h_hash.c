/* Driver of the hashes of bytes and strings. Commands, one event each:
 *   s <u32|u64|str> <init hex> <data hex or ->   a single content, in many places
 *   b <kind> <seed> <n> <max>   random contents, lengths up to max
 *   x <kind> <seed> <max>       for all the lengths up to max, all the values of each byte
 *   t <kind> <seed> <n>         contents chosen to have extreme values in the internal state
 *   h <kind> <seed> <len>       a huge content, with a period of 64 MB
 * The library is a different translation unit.
 */
#define _GNU_SOURCE
#include <sys/mman.h>
#include <unistd.h>
#include "config.h"
#include "tommyds/tommyhash.h"
#include "words.h"
#define PAGE 4096
#define NP 4 /* accessible pages, between two that are not */
static unsigned char* area;
#define BEGIN (area + PAGE)
#define END (area + PAGE + NP * PAGE)
enum { U32, U64, STR };
static const char* const NAME[3] = { "u32", "u64", "str" };

static uint64_t call(int k, uint64_t init, const void* p, size_t n)
{
	switch (k) {
	case U32 : return tommy_hash_u32((tommy_uint32_t)init, p, n);
	case U64 : return tommy_hash_u64(init, p, n);
	}
	return tommy_strhash_u32(init, p);
}
/* independent reference: byte by byte, as it's published (string: as documented in specs/Lookup3.tla) */
static uint32_t rot(uint32_t x, int k) { return x << k | x >> (32 - k); }
static uint64_t ref(int k, uint64_t init, const unsigned char* p, size_t n)
{
	static const int M[6] = { 4, 6, 8, 16, 19, 4 }, F[7] = { 14, 11, 25, 16, 4, 14, 24 };
	uint32_t s[3], base = 0xdeadbeefU + (k == STR ? 0 : (uint32_t)n) + (uint32_t)init;
	size_t i = 0;
	int t;
	s[0] = s[1] = s[2] = base;
	if (k == U64) s[2] += (uint32_t)(init >> 32);
	for (;;) {
		size_t left = n - i;
		int last = k == STR ? left < 12 : left <= 12;
		if (k != STR && n == 0) break;
		for (t = 0; t < 12 && i < n; ++t, ++i) s[t / 4] += (uint32_t)p[i] << (t % 4) * 8;
		if (last) {
			for (t = 0; t < 7; ++t) { /* c b, a c, b a, ... */
				uint32_t* x = &s[(2 + t) % 3];
				uint32_t* y = &s[(1 + t) % 3];
				*x ^= *y;
				*x -= rot(*y, F[t]);
			}
			break;
		}
		for (t = 0; t < 6; ++t) { /* a c b, b a c, c b a, ... */
			uint32_t* x = &s[t % 3];
			uint32_t* y = &s[(t + 2) % 3];
			uint32_t* z = &s[(t + 1) % 3];
			*x -= *y; *x ^= rot(*y, M[t]); *y += *z;
		}
	}
	return k == U64 ? s[2] | (uint64_t)s[1] << 32 : s[2];
}
static uint64_t res[256];
static int nres;
static void add(uint64_t r)
{
	int i;
	for (i = 0; i < nres; ++i) if (res[i] == r) return;
	if (nres < 256) res[nres++] = r;
}
static void one(int k, uint64_t init, const unsigned char* d, size_t n)
{
	static const int FILL[5] = { 0x00, 0xff, 0x80, 0x01, 0x41 };
	size_t m = n + (k == STR); /* with the terminator */
	size_t i;
	int f, a;
	unsigned char* p;
	nres = 0;
	if (k == STR) for (i = 0; i < n; ++i) if (!d[i]) exit(2);
	/* at the end and at the begin of the accessible memory, that cannot be written */
	for (f = 0; f < 5; ++f) {
		if (f == 4) for (i = 0; i < NP * PAGE; ++i) BEGIN[i] = (unsigned char)rnd(); else memset(BEGIN, FILL[f], NP * PAGE);
		p = END - m;
		memcpy(p, d, n);
		if (k == STR) p[n] = 0;
		mprotect(BEGIN, NP * PAGE, PROT_READ);
		add(call(k, init, p, n));
		mprotect(BEGIN, NP * PAGE, PROT_READ | PROT_WRITE);
		if (f == 4) for (i = 0; i < NP * PAGE; ++i) BEGIN[i] = (unsigned char)rnd(); else memset(BEGIN, FILL[f], NP * PAGE);
		memcpy(BEGIN, d, n);
		if (k == STR) BEGIN[n] = 0;
		mprotect(BEGIN, NP * PAGE, PROT_READ);
		add(call(k, init, BEGIN, n));
		mprotect(BEGIN, NP * PAGE, PROT_READ | PROT_WRITE);
		/* at all the alignments */
		for (a = 0; a < 64; ++a) {
			p = BEGIN + 1024 + a;
			memset(p - 64, f == 4 ? (int)rnd() & 0xff : FILL[f], m + 128);
			memcpy(p, d, n);
			if (k == STR) p[n] = 0;
			add(call(k, init, p, n));
			if (memcmp(p, d, n)) exit(3);
		}
	}
	/* exactly in a heap block, at the first alignments */
	for (a = 0; a < 8; ++a) {
		p = malloc(a + m + (a + m == 0));
		memcpy(p + a, d, n);
		if (k == STR) p[a + n] = 0;
		add(call(k, init, p + a, n));
		free(p);
	}
	if (n == 0 && k != STR) add(call(k, init, 0, 0));
	printf("{\"e\":\"one\",\"k\":\"%s\",\"i\":", NAME[k]); put64(stdout, init);
	printf(",\"d\":[");
	for (i = 0; i < n; ++i) printf("%s%u", i ? "," : "", d[i]);
	printf("],\"r\":[");
	for (f = 0; f < nres; ++f) { if (f) printf(","); if (k == U64) put64(stdout, res[f]); else put32(stdout, res[f]); }
	printf("],\"f\":");
	if (k == U64) put64(stdout, ref(k, init, d, n)); else put32(stdout, ref(k, init, d, n));
	printf("}\n");
}
static uint64_t total, bad, badinit;
static size_t badlen;
static void cmp(int k, uint64_t init, const unsigned char* p, size_t n)
{
	++total;
	if (call(k, init, p, n) != ref(k, init, p, n)) { if (!bad) { badinit = init; badlen = n; } ++bad; }
}
static void report(int k)
{
	printf("{\"e\":\"bulk\",\"k\":\"%s\",\"n\":", NAME[k]); put64(stdout, total);
	printf(",\"bad\":%u,\"i\":", (unsigned)(bad > 1000000 ? 1000000 : bad)); put64(stdout, badinit); printf(",\"len\":"); put64(stdout, badlen); printf("}\n");
	total = bad = 0;
}
static unsigned char rndbyte(int style)
{
	uint64_t x = rnd();
	switch (style) {
	case 0 : return x;
	case 1 : return (x & 3) == 0 ? 0x80 : (x & 3) == 1 ? 0x01 : (x & 3) == 2 ? 0xff : 0x7f;
	case 2 : return (x & 1) ? 0x80 : 0;
	}
	return ' ' + x % 95;
}
static uint32_t extreme(void)
{
	uint64_t x = rnd();
	int k = x >> 8 & 31;
	switch (x & 7) {
	case 0 : return 0;
	case 1 : return 0xffffffffU;
	case 2 : return (uint32_t)1 << k;
	case 3 : return ~((uint32_t)1 << k);
	case 4 : return ((uint32_t)1 << k) - 1;
	case 5 : return ~(uint32_t)0 << k;
	}
	return (uint32_t)(x >> 32);
}
/* a content of n bytes, and its init value, with extreme values in the state after many of the additions */
static uint64_t target(int k, unsigned char* p, size_t n)
{
	static const int M[6] = { 4, 6, 8, 16, 19, 4 };
	uint32_t s[3], base = extreme();
	uint64_t init = (uint32_t)(base - 0xdeadbeefU - (k == STR ? 0 : (uint32_t)n));
	size_t i = 0;
	int t;
	s[0] = s[1] = s[2] = base;
	if (k == U64) { uint32_t h = extreme() - base; init |= (uint64_t)h << 32; s[2] += h; }
	else if (rnd() & 1) init |= rnd() << 32;
	while (i < n) {
		uint32_t w[3];
		for (t = 0; t < 3; ++t) w[t] = extreme() - s[t];
		for (t = 0; t < 12 && i < n; ++t, ++i) {
			p[i] = w[t / 4] >> (t % 4) * 8;
			if (k == STR && !p[i]) p[i] = 1;
			s[t / 4] += (uint32_t)p[i] << (t % 4) * 8;
		}
		for (t = 0; t < 6; ++t) {
			uint32_t* x = &s[t % 3];
			uint32_t* y = &s[(t + 2) % 3];
			uint32_t* z = &s[(t + 1) % 3];
			*x -= *y; *x ^= rot(*y, M[t]); *y += *z;
		}
	}
	return init;
}
int main(void)
{
	static char line[1 << 16];
	static unsigned char d[1 << 15];
	unsigned long long x, y, z;
	area = mmap(0, (NP + 2) * PAGE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	if (area == MAP_FAILED || mprotect(area, PAGE, PROT_NONE) || mprotect(END, PAGE, PROT_NONE)) return 2;
	while (fgets(line, sizeof(line), stdin)) {
		char name[8], cmdc;
		int k, at = 0;
		size_t n = 0;
		if (sscanf(line, "%c %7s%n", &cmdc, name, &at) != 2) return 2;
		for (k = 0; k < 3 && strcmp(NAME[k], name); ++k) ;
		if (k == 3) return 2;
		if (cmdc == 's') {
			int b = 0;
			unsigned v;
			if (sscanf(line + at, "%llx%n", &x, &b) != 1) return 2;
			at += b + 1;
			while (line[at] != '-' && sscanf(line + at, "%2x", &v) == 1) { d[n++] = v; at += 2; }
			vf_seed = x + n;
			one(k, x, d, n);
		} else if (cmdc == 'b' && sscanf(line + at, "%llx %llu %llu", &x, &y, &z) == 3) {
			vf_seed = x;
			while (y--) {
				uint64_t init = rnd();
				int style = rnd() & 3, place = rnd() & 3;
				size_t i, m;
				unsigned char* p;
				switch (rnd() % 6) { case 0 : init = 0; break; case 1 : init &= 0xffffffff; break; case 2 : init <<= 32; break; case 3 : init = (uint64_t)0 - (init & 63); break; }
				n = rnd() % ((rnd() & 7) ? 40 : z + 1);
				m = n + (k == STR);
				p = place == 0 ? END - m : place == 1 ? BEGIN : BEGIN + 64 + rnd() % 64;
				if (place > 1) memset(p - 16, (int)rnd(), m + 32);
				for (i = 0; i < n; ++i) do p[i] = rndbyte(style); while (k == STR && !p[i]);
				if (k == STR) p[n] = 0;
				cmp(k, init, p, n);
			}
			report(k);
		} else if (cmdc == 't' && sscanf(line + at, "%llx %llu", &x, &y) == 2) {
			vf_seed = x;
			while (y--) {
				unsigned char* p;
				uint64_t init;
				n = rnd() % 38;
				p = END - n - (k == STR);
				init = target(k, p, n);
				if (k == STR) p[n] = 0;
				cmp(k, init, p, n);
			}
			report(k);
		} else if (cmdc == 'x' && sscanf(line + at, "%llx %llu", &x, &y) == 2) {
			size_t i;
			unsigned v;
			vf_seed = x;
			for (n = 0; n <= y; ++n) {
				uint64_t init = rnd();
				unsigned char* p = END - n - (k == STR);
				for (i = 0; i < n; ++i) p[i] = (unsigned char)rnd() | 1;
				if (k == STR) p[n] = 0;
				cmp(k, init, p, n);
				for (i = 0; i < n; ++i) {
					unsigned char o = p[i];
					for (v = k == STR; v < 256; ++v) { p[i] = v; cmp(k, init, p, n); }
					p[i] = o;
				}
			}
			report(k);
		} else if (cmdc == 'h' && sscanf(line + at, "%llx %llu", &x, &y) == 2) {
			size_t per = (size_t)64 << 20, tot = ((size_t)y + 1 + per) / per * per + per, i;
			int fd = memfd_create("vf", 0);
			unsigned char* p;
			if (fd < 0 || ftruncate(fd, per)) return 2;
			p = mmap(0, tot + PAGE, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
			if (p == MAP_FAILED) return 2;
			for (i = 0; i < tot; i += per)
				if (mmap(p + i, per, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) return 2;
			vf_seed = x;
			for (i = 0; i < per; i += 8) { uint64_t v = rnd() | 0x0101010101010101ULL; memcpy(p + i, &v, 8); }
			/* a last piece of its own, to have the terminator at the end of the accessible memory */
			if (mmap(p + tot - per, per, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0) == MAP_FAILED) return 2;
			memcpy(p + tot - per, p, per);
			if (k == STR) p[tot - 1] = 0;
			cmp(k, rnd(), p + tot - (k == STR) - (size_t)y, (size_t)y);
			munmap(p, tot + PAGE);
			close(fd);
			report(k);
		} else
			return 2;
		fflush(stdout);
	}
	return 0;
}
