/*
 * The intrinsics of the Microsoft compiler used by the library, for the builds that take its code.
 * As specified there: the index is not written, or written with anything, if no bit is set; the masks
 * have 32 bits, as an unsigned long of that compiler.
 */
#ifndef VF_INTRIN_H
#define VF_INTRIN_H
static inline unsigned char _BitScanReverse(unsigned long* index, unsigned long mask)
{
	unsigned m = (unsigned)mask;
	*index = 0xdead;
	if (!m) return 0;
	*index = 31ul - (unsigned long)__builtin_clz(m);
	return 1;
}
static inline unsigned char _BitScanForward(unsigned long* index, unsigned long mask)
{
	unsigned m = (unsigned)mask;
	*index = 0xdead;
	if (!m) return 0;
	*index = (unsigned long)__builtin_ctz(m);
	return 1;
}
#ifdef _WIN64
static inline unsigned char _BitScanReverse64(unsigned long* index, unsigned long long mask)
{
	*index = 0xdead;
	if (!mask) return 0;
	*index = 63ul - (unsigned long)__builtin_clzll(mask);
	return 1;
}
static inline unsigned char _BitScanForward64(unsigned long* index, unsigned long long mask)
{
	*index = 0xdead;
	if (!mask) return 0;
	*index = (unsigned long)__builtin_ctzll(mask);
	return 1;
}
#endif
#endif
