/* Printing of words as the limbs of specs/Words.tla. */
#ifndef VF_WORDS_H
#define VF_WORDS_H
static void put32(FILE* f, uint32_t x) { fprintf(f, "[%u,%u]", x & 0xffff, x >> 16); }
static void put64(FILE* f, uint64_t x) { fprintf(f, "[%u,%u,%u,%u]", (unsigned)(x & 0xffff), (unsigned)(x >> 16 & 0xffff), (unsigned)(x >> 32 & 0xffff), (unsigned)(x >> 48)); }
static uint64_t vf_seed;
static uint64_t rnd(void) /* splitmix64 */
{
	uint64_t z = (vf_seed += 0x9e3779b97f4a7c15ULL);
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
	return z ^ (z >> 31);
}
#endif
