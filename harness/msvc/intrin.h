/* Stand-in of the Microsoft header, for the emulation of that path. */
static inline unsigned char _BitScanReverse(unsigned long* index, unsigned long mask)
{
	int i;
	if (!(mask & 0xffffffffUL)) return 0;
	for (i = 31; !((mask >> i) & 1); --i) ;
	*index = i;
	return 1;
}
static inline unsigned char _BitScanForward(unsigned long* index, unsigned long mask)
{
	int i;
	if (!(mask & 0xffffffffUL)) return 0;
	for (i = 0; !((mask >> i) & 1); ++i) ;
	*index = i;
	return 1;
}
static inline unsigned char _BitScanReverse64(unsigned long* index, unsigned long long mask)
{
	int i;
	if (!mask) return 0;
	for (i = 63; !((mask >> i) & 1); --i) ;
	*index = i;
	return 1;
}
static inline unsigned char _BitScanForward64(unsigned long* index, unsigned long long mask)
{
	int i;
	if (!mask) return 0;
	for (i = 0; !((mask >> i) & 1); ++i) ;
	*index = i;
	return 1;
}
