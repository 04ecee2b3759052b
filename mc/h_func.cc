/* Hash functions and bit primitives: C22 C23 C24 C25, over whole domains where that is possible */
#include "vf.h"
#include <cstring>
#include <sys/mman.h>

namespace {

enum { KEY = 1 };

/* ------------------------------------------------------------------ */
/* lookup3, from its published description: twelve bytes at a time, byte by byte */

u32 rot(u32 x, int k) { return x << k | x >> (32 - k); }
struct L3 { u32 a, b, c; };
void l3_mix(L3& s)
{
	u32 a = s.a, b = s.b, c = s.c;
	static const int R[6] = { 4, 6, 8, 16, 19, 4 };
	for (int i = 0; i < 6; ++i) {
		/* a -= c; a ^= rot(c, k); c += b; then the three rotate roles */
		a -= c; a ^= rot(c, R[i]); c += b;
		u32 t = a; a = b; b = c; c = t;
	}
	s.a = a; s.b = b; s.c = c;
}
void l3_final(L3& s)
{
	static const int R[7] = { 14, 11, 25, 16, 4, 14, 24 };
	u32* v[3] = { &s.c, &s.a, &s.b }; /* c^=b, a^=c, b^=a, ... */
	for (int i = 0; i < 7; ++i) {
		u32& x = *v[i % 3];
		u32& y = *v[(i + 2) % 3];
		x ^= y;
		x -= rot(y, R[i]);
	}
}
L3 l3(u32 init, u32 init2, const u8* k, size_t len)
{
	L3 s;
	s.a = s.b = s.c = 0xdeadbeefu + (u32)len + init;
	s.c += init2;
	if (!len) return s;
	while (len > 12) {
		u32 w[3] = { 0, 0, 0 };
		for (int i = 0; i < 12; ++i) w[i / 4] |= (u32)k[i] << (8 * (i % 4));
		s.a += w[0]; s.b += w[1]; s.c += w[2];
		l3_mix(s);
		k += 12;
		len -= 12;
	}
	u32 w[3] = { 0, 0, 0 };
	for (size_t i = 0; i < len; ++i) w[i / 4] |= (u32)k[i] << (8 * (i % 4));
	s.a += w[0]; s.b += w[1]; s.c += w[2];
	l3_final(s);
	return s;
}
u32 ref32(u32 init, const u8* k, size_t len) { return l3(init, 0, k, len).c; }
u64 ref64(u64 init, const u8* k, size_t len) { L3 s = l3((u32)init, (u32)(init >> 32), k, len); return s.c + ((u64)s.b << 32); }

/* the variation for strings: no length, and a mix after each complete group of twelve */
u32 refstr(u64 init, const u8* k)
{
	L3 s;
	s.a = s.b = s.c = 0xdeadbeefu + (u32)init;
	size_t len = 0;
	while (k[len]) ++len;
	while (len >= 12) {
		u32 w[3] = { 0, 0, 0 };
		for (int i = 0; i < 12; ++i) w[i / 4] |= (u32)k[i] << (8 * (i % 4));
		s.a += w[0]; s.b += w[1]; s.c += w[2];
		l3_mix(s);
		k += 12;
		len -= 12;
	}
	u32 w[3] = { 0, 0, 0 };
	for (size_t i = 0; i < len; ++i) w[i / 4] |= (u32)k[i] << (8 * (i % 4));
	s.a += w[0]; s.b += w[1]; s.c += w[2];
	l3_final(s);
	return s.c;
}

/* the state before the first `n` half steps of final, and before the first `n` steps of mix, that lead to `s` */
L3 unfinal(L3 s, int n)
{
	static const int R[7] = { 14, 11, 25, 16, 4, 14, 24 };
	u32* v[3] = { &s.c, &s.a, &s.b };
	while (n-- > 0) {
		u32& x = *v[(n / 2) % 3];
		u32& y = *v[(n / 2 + 2) % 3];
		if (n & 1) x += rot(y, R[n / 2]);
		else x ^= y;
	}
	return s;
}
L3 unmix(L3 s, int n)
{
	static const int R[6] = { 4, 6, 8, 16, 19, 4 };
	u32* v[3] = { &s.a, &s.b, &s.c };
	while (n-- > 0) {
		u32& x = *v[(n / 3) % 3];
		u32& y = *v[(n / 3 + 1) % 3];
		u32& z = *v[(n / 3 + 2) % 3];
		switch (n % 3) {
		case 0: x += z; break;
		case 1: x ^= rot(z, R[n / 3]); break;
		case 2: z -= y; break;
		}
	}
	return s;
}
enum { FINAL_STEPS = 14, MIX_STEPS = 18 };
const u32 SPECIAL[] = { 0, 1, 0x7fffffffu, 0x80000000u, 0xffffffffu };
enum { NSPECIAL = 125 };
L3 special(int t) { return { SPECIAL[t % 5], SPECIAL[t / 5 % 5], SPECIAL[t / 25] }; }
void put_words(std::vector<u8>& k, size_t at, const L3& from, const L3& to)
{
	u32 w[3] = { to.a - from.a, to.b - from.b, to.c - from.c };
	for (size_t i = 0; i < 12 && at + i < k.size(); ++i) k[at + i] = (u8)(w[i / 4] >> (8 * (i % 4)));
}

/* values published with lookup3 */
void self_test()
{
	const u8* f = (const u8*)"Four score and seven years ago";
	bool ok = ref32(0, f, 0) == 0xdeadbeef && ref32(0, f, 30) == 0x17770551 && ref32(1, f, 30) == 0xcd628161
		&& ref64(0, f, 30) == 0xce7226e617770551ull && ref64(1ull << 32, f, 30) == 0xbd371de4e3607caeull && ref64(1, f, 30) == 0x6cbea4b3cd628161ull
		&& ref64(0xdeadbeefull << 32, f, 0) == 0xdeadbeefbd5b7ddeull;
	for (int t = 0; t < NSPECIAL; ++t) {
		L3 x = special(t), y = unfinal(x, FINAL_STEPS), z = unmix(x, MIX_STEPS);
		l3_final(y);
		l3_mix(z);
		ok = ok && !memcmp(&x, &y, sizeof x) && !memcmp(&x, &z, sizeof x);
	}
	if (!ok) { fprintf(stderr, "the reference of lookup3 is wrong\n"); exit(3); }
}

/* the key lies between inaccessible bytes; readable only */
u8* area;
u8* place_key(const u8* k, size_t len, size_t align, u8 around)
{
	if (!area) { area = sec_heap_raw(); }
	u8* p = area + 4096 + align;
	perm(area, 4096 + 64 + len + 4096, 0);
	mfill(area + 4096 - 64, around, 64 + align);
	mcopy(p, k, len);
	mfill(p + len, around, 64);
	if (len) perm_ro(p, len, KEY);
	return p;
}

u32 call32(u32 init, const u8* p, size_t len)
{
	g_ro_mask = C22;
	u32 r;
	{ Op o(OWN(KEY), 0, RO, true); r = vs_hash_u32(init, p, len); }
	obs(r);
	g_ro_mask = 0;
	return r;
}
u64 call64(u64 init, const u8* p, size_t len)
{
	g_ro_mask = C22;
	u64 r;
	{ Op o(OWN(KEY), 0, RO, true); r = vs_hash_u64(init, p, len); }
	obs(r);
	g_ro_mask = 0;
	return r;
}
const u64 INITS[] = { 0, 1, 0xffffffffull, 0x100000000ull, 0x8000000000000000ull, ~0ull, 0x123456789abcdef0ull, 0xdeadbeefull << 32 };

void check_key(const std::vector<u8>& k, size_t align, u8 around, bool inits)
{
	u8* p = place_key(k.data(), k.size(), align, around);
	for (u64 in : INITS) {
		u32 h = call32((u32)in, p, k.size());
		CHECK(C22, h == ref32((u32)in, k.data(), k.size()), "hash_u32 of %zu bytes at alignment %zu, initial value %x, is %x and not %x", k.size(), align, (u32)in, h, ref32((u32)in, k.data(), k.size()));
		u64 g = call64(in, p, k.size());
		CHECK(C22, g == ref64(in, k.data(), k.size()), "hash_u64 of %zu bytes at alignment %zu, initial value %llx, is %llx and not %llx", k.size(), align, (unsigned long long)in, (unsigned long long)g, (unsigned long long)ref64(in, k.data(), k.size()));
		if (!inits) break;
	}
	st.maxi("longest_key", k.size());
}

JOB(func_mem, "func.mem")
{
	self_test();
	size_t maxlen = (size_t)p.i("len", 64);
	long long part = p.i("part", 0), parts = p.i("parts", 1);
	u64 c = 0;
	/* every length, alignment, surrounding */
	for (size_t len = 0; len <= maxlen; ++len)
		for (size_t align = 0; align < 16; ++align)
			for (int around : { 0, 0xff, 0x5a })
				for (int fill = 0; fill < 4; ++fill) {
					if ((long long)(c++ % (u64)parts) != part) continue;
					if (out_of_time()) return;
					if (!vf_case({ 0, (long long)len, (long long)align, around, fill })) continue;
					std::vector<u8> k(len);
					for (size_t i = 0; i < len; ++i) k[i] = fill == 0 ? 0 : fill == 1 ? 0xff : fill == 2 ? (u8)(i * 7 + 1) : (u8)(0x80 + i);
					check_key(k, align, (u8)around, true);
				}
	/* every position in a page */
	if (maxlen >= 64)
		for (size_t align = 0; align < 4096; ++align)
			for (size_t len : { (size_t)13, (size_t)40, (size_t)61, (size_t)100, (size_t)300 }) {
				if ((long long)(c++ % (u64)parts) != part) continue;
				if (out_of_time()) return;
				if (!vf_case({ 7, (long long)len, (long long)align })) continue;
				std::vector<u8> k(len);
				for (size_t i = 0; i < len; ++i) k[i] = (u8)(i * 29 + align);
				check_key(k, align, 0x5a, false);
			}
	/* every value of every byte of a key, on two backgrounds */
	for (size_t len = 1; len <= std::min(maxlen, (size_t)40); ++len)
		for (size_t i = 0; i < len; ++i)
			for (int v = 0; v < 256; ++v)
				for (int bg : { 0, 0xff }) {
					if ((long long)(c++ % (u64)parts) != part) continue;
					if (out_of_time()) return;
					if (!vf_case({ 1, (long long)len, (long long)i, v, bg })) continue;
					std::vector<u8> k(len, (u8)bg);
					k[i] = (u8)v;
					check_key(k, (i + len) & 3, 0x5a, false);
				}
	/* all the keys of one and two bytes */
	for (int v = 0; v < 65536; ++v) {
		if ((long long)(c++ % (u64)parts) != part) continue;
		if (!vf_case({ 2, v })) continue;
		std::vector<u8> k = { (u8)v, (u8)(v >> 8) };
		check_key(k, 1, 0xff, false);
		if (v < 256) { k.pop_back(); check_key(k, 1, 0xff, true); }
	}
	/* bits of the initial value */
	for (int b = 0; b < 64; ++b)
		for (int b2 = 0; b2 <= b; ++b2)
			for (size_t len : { (size_t)0, (size_t)1, (size_t)5, (size_t)12, (size_t)13, (size_t)25 }) {
				if (!vf_case({ 3, b, b2, (long long)len })) continue;
				std::vector<u8> k(len, 0x31);
				u8* q = place_key(k.data(), len, 0, 0);
				u64 in = 1ull << b | 1ull << b2;
				CHECK(C22, call64(in, q, len) == ref64(in, k.data(), len), "hash_u64 of %zu bytes with initial value %llx is wrong", len, (unsigned long long)in);
				CHECK(C22, call32((u32)in, q, len) == ref32((u32)in, k.data(), len), "hash_u32 of %zu bytes with initial value %x is wrong", len, (u32)in);
			}
	/* keys whose state is special at any step of the computation, and at its end */
	for (size_t len : { (size_t)12, (size_t)24, (size_t)36, (size_t)13, (size_t)20, (size_t)29 })
		for (int step = 0; step <= MIX_STEPS; ++step)
			for (int t = 0; t < NSPECIAL; ++t)
				for (u64 in : { (u64)0, ~(u64)0, (u64)0x123456789abcdef0ull }) {
					bool fin = len % 12 == 0; /* the last twelve bytes lead there in final, or the first twelve in mix */
					if (fin && step > FINAL_STEPS) continue;
					if ((long long)(c++ % (u64)parts) != part) continue;
					if (out_of_time()) return;
					if (!vf_case({ 5, (long long)len, step, t, (long long)in })) continue;
					L3 x = fin ? unfinal(special(t), step) : unmix(special(t), step);
					std::vector<u8> k(len, 0x37);
					for (int hi = 0; hi < 2; ++hi) { /* hash_u32 and hash_u64 start from different states */
						L3 s;
						s.a = s.b = s.c = 0xdeadbeefu + (u32)len + (u32)in;
						if (hi) s.c += (u32)(in >> 32);
						size_t at = 0;
						if (fin)
							for (; at + 12 < len; at += 12) {
								L3 w = { 0x37373737u, 0x37373737u, 0x37373737u };
								s.a += w.a; s.b += w.b; s.c += w.c;
								l3_mix(s);
							}
						put_words(k, at, s, x);
						u8* q = place_key(k.data(), len, (size_t)t & 3, 0x5a);
						if (hi) CHECK(C22, call64(in, q, len) == ref64(in, k.data(), len), "hash_u64 of %zu bytes is wrong: state %08x %08x %08x at step %d", len, special(t).a, special(t).b, special(t).c, step);
						else CHECK(C22, call32((u32)in, q, len) == ref32((u32)in, k.data(), len), "hash_u32 of %zu bytes is wrong: state %08x %08x %08x at step %d", len, special(t).a, special(t).b, special(t).c, step);
					}
				}
	/* lengths around the powers of two */
	for (int b = 6; b <= (int)p.i("pow", 20); ++b)
		for (int d = -13; d <= 13; ++d) {
			if ((long long)(c++ % (u64)parts) != part) continue;
			if (out_of_time()) return;
			if (!vf_case({ 6, b, d })) continue;
			std::vector<u8> k(((size_t)1 << b) + (size_t)d);
			for (size_t i = 0; i < k.size(); ++i) k[i] = (u8)(i * 131 + (i >> 8) * 7 + 3);
			check_key(k, (size_t)(d & 3), 0x5a, false);
		}
	/* long keys */
	for (long long len : p.list("long", "127,128,129,255,256,257,511,512,1000,4095,4096,4097,65535,65536,65537,1000003"))
		for (size_t align = 0; align < 4; ++align) {
			if ((long long)(c++ % (u64)parts) != part) continue;
			if (out_of_time()) return;
			if (!vf_case({ 4, len, (long long)align })) continue;
			std::vector<u8> k((size_t)len);
			for (size_t i = 0; i < k.size(); ++i) k[i] = (u8)(i * 131 + (i >> 8) * 7 + 3);
			check_key(k, align, 0x5a, true);
		}
	st.sample("every length and alignment, every value of every byte, all keys of one and two bytes, every pair of bits of the initial value");
	st.states = st.cases;
}

/* keys over 4 GB: the length wraps at 32 bits in the definition, the reading must not */
JOB(func_mem_huge, "func.memhuge")
{
	if (sizeof(void*) == 4) return;
	size_t base = (size_t)1 << 32;
	u8* m = (u8*)mmap(0, base + 4096, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (m == MAP_FAILED) { st.notes.push_back("not enough virtual memory: skipped"); st.exhaustive = false; return; }
	for (long long d : p.list("d", "-5,0,7")) {
		if (out_of_time()) return;
		if (!vf_case({ d })) continue;
		size_t len = base + (size_t)d;
		++st.transitions;
		u32 h = vs_hash_u32(7, m, len);
		CHECK(C22, h == ref32(7, m, len), "hash_u32 of %zu bytes is wrong", len);
		u64 g = vs_hash_u64(7, m, len);
		CHECK(C22, g == ref64(7, m, len), "hash_u64 of %zu bytes is wrong", len);
	}
	munmap(m, base + 4096);
	st.states = st.cases;
}

/* ------------------------------------------------------------------ */

void check_str(const std::vector<u8>& s, size_t align, u8 after, u64 in)
{
	std::vector<u8> k = s;
	k.push_back(0);
	u8* p = place_key(k.data(), k.size(), align, after);
	g_ro_mask = C23;
	u32 h;
	{ Op o(OWN(KEY), 0, RO, true); h = vs_strhash_u32(in, p); }
	obs(h);
	g_ro_mask = 0;
	CHECK(C23, h == refstr(in, k.data()), "strhash_u32 of %zu characters at alignment %zu, followed by %02x, is %x and not %x", s.size(), align, after, h, refstr(in, k.data()));
	st.maxi("longest_string", s.size());
}

JOB(func_str, "func.str")
{
	size_t maxlen = (size_t)p.i("len", 64);
	int alen = (int)p.i("alen", 8);
	long long part = p.i("part", 0), parts = p.i("parts", 1);
	u64 c = 0;
	for (size_t len = 0; len <= maxlen; ++len)
		for (size_t align = 0; align < 16; ++align)
			for (int after : { 0, 1, 0x5a, 0x80, 0xff })
				for (int fill = 0; fill < 4; ++fill) {
					if ((long long)(c++ % (u64)parts) != part) continue;
					if (out_of_time()) return;
					if (!vf_case({ 0, (long long)len, (long long)align, after, fill })) continue;
					std::vector<u8> k(len);
					for (size_t i = 0; i < len; ++i) k[i] = fill == 0 ? 1 : fill == 1 ? 0xff : fill == 2 ? (u8)('a' + i % 26) : (u8)(0x80 + i % 100);
					for (u64 in : INITS) check_str(k, align, (u8)after, in);
				}
	/* every position in a page */
	if (maxlen >= 64)
		for (size_t align = 0; align < 4096; ++align)
			for (size_t len : { (size_t)1, (size_t)4, (size_t)11, (size_t)12, (size_t)40, (size_t)61, (size_t)100 }) {
				if ((long long)(c++ % (u64)parts) != part) continue;
				if (out_of_time()) return;
				if (!vf_case({ 7, (long long)len, (long long)align })) continue;
				std::vector<u8> k(len);
				for (size_t i = 0; i < len; ++i) k[i] = (u8)(i * 29 + align) | 1;
				check_str(k, align, (u8)(0x80 + len), 7);
			}
	/* every character in every position */
	for (size_t len = 1; len <= std::min(maxlen, (size_t)40); ++len)
		for (size_t i = 0; i < len; ++i)
			for (int v = 1; v < 256; ++v) {
				if ((long long)(c++ % (u64)parts) != part) continue;
				if (out_of_time()) return;
				if (!vf_case({ 1, (long long)len, (long long)i, v })) continue;
				std::vector<u8> k(len, 'x');
				k[i] = (u8)v;
				check_str(k, (i + len) & 3, (u8)v, 0);
			}
	/* all the strings of two characters, and all the strings over a few special ones */
	for (int v = 0; v < 65536; ++v) {
		if ((long long)(c++ % (u64)parts) != part) continue;
		if (!(v & 255) || !(v >> 8)) continue;
		if (!vf_case({ 2, v })) continue;
		check_str({ (u8)v, (u8)(v >> 8) }, 1, 0xff, 1);
	}
	static const u8 AL[4] = { 1, 0x80, 0xff, 'a' };
	for (int len = 0; len <= alen; ++len)
		for (long long v = 0; v < 1ll << (2 * len); ++v) {
			if ((long long)(c++ % (u64)parts) != part) continue;
			if (out_of_time()) return;
			if (!vf_case({ 3, len, v })) continue;
			std::vector<u8> k;
			for (int i = 0; i < len; ++i) k.push_back(AL[v >> (2 * i) & 3]);
			check_str(k, (size_t)(v & 3), 0x80, 0x123456789ull);
		}
	/* strings whose state is special at any step of the last mix and of final, and at the end */
	for (size_t len : { (size_t)12, (size_t)24, (size_t)19 })
		for (int step = 0; step <= MIX_STEPS + FINAL_STEPS; ++step)
			for (int t = 0; t < NSPECIAL; ++t)
				for (u64 in : { (u64)0, ~(u64)0 }) {
					if (len % 12 && step > MIX_STEPS) continue;
					if ((long long)(c++ % (u64)parts) != part) continue;
					if (out_of_time()) return;
					L3 x = step <= MIX_STEPS ? unmix(special(t), step) : unmix(unfinal(special(t), step - MIX_STEPS), MIX_STEPS);
					L3 s;
					s.a = s.b = s.c = 0xdeadbeefu + (u32)in;
					std::vector<u8> k(len, 'w');
					size_t at = 0;
					if (len == 24) { at = 12; s.a += 0x77777777u; s.b += 0x77777777u; s.c += 0x77777777u; l3_mix(s); }
					put_words(k, at, s, x);
					if (memchr(k.data(), 0, len)) continue; /* not a string */
					if (!vf_case({ 5, (long long)len, step, t, (long long)in })) continue;
					check_str(k, (size_t)t & 3, 0x5a, in);
				}
	for (long long len : p.list("long", "127,128,129,1000,4095,4096,65535"))
		for (size_t align = 0; align < 4; ++align) {
			if ((long long)(c++ % (u64)parts) != part) continue;
			if (!vf_case({ 4, len, (long long)align })) continue;
			std::vector<u8> k((size_t)len);
			for (size_t i = 0; i < k.size(); ++i) k[i] = (u8)(i * 131 % 255 + 1);
			check_str(k, align, 0x5a, 99);
		}
	st.sample("every length, alignment and following byte; every character in every position; all the strings over 4 special characters");
	st.states = st.cases;
}

/* ------------------------------------------------------------------ */
/* integer hashes */

u32 ref_int32(u32 k)
{
	k -= k << 6; k ^= k >> 17; k -= k << 9; k ^= k << 4; k -= k << 3; k ^= k << 10; k ^= k >> 15;
	return k;
}
u32 mulinv32(u32 x) { u32 r = x; for (int i = 0; i < 6; ++i) r *= 2 - x * r; return r; }
u64 mulinv64(u64 x) { u64 r = x; for (int i = 0; i < 7; ++i) r *= 2 - x * r; return r; }
template<class N> N unxr(N y, int s) { N x = y; for (int i = s; i < (int)sizeof(N) * 8; i += s) x = y ^ (x >> s); return x; }
template<class N> N unxl(N y, int s) { N x = y; for (int i = s; i < (int)sizeof(N) * 8; i += s) x = y ^ (x << s); return x; }
u32 inv_int32(u32 k)
{
	static const u32 m6 = mulinv32(1 - (1u << 6)), m9 = mulinv32(1 - (1u << 9)), m3 = mulinv32(1 - (1u << 3));
	k = unxr(k, 15); k = unxl(k, 10); k *= m3; k = unxl(k, 4); k *= m9; k = unxr(k, 17); k *= m6;
	return k;
}
u64 ref_int64(u64 k)
{
	k = ~k + (k << 21); k ^= k >> 24; k = k * 265; k ^= k >> 14; k = k * 21; k ^= k >> 28; k += k << 31;
	return k;
}
u64 inv_int64(u64 k)
{
	static const u64 m31 = mulinv64((1ull << 31) + 1), m21 = mulinv64(21), m265 = mulinv64(265), mm = mulinv64((1ull << 21) - 1);
	k *= m31; k = unxr(k, 28); k *= m21; k = unxr(k, 14); k *= m265; k = unxr(k, 24);
	/* ~x + (x << 21) = x * (2^21 - 1) - 1 */
	k = (k + 1) * mm;
	return k;
}

JOB(func_int32, "func.int32")
{
	long long part = p.i("part", 0), parts = p.i("parts", 8);
	u64 total = 1ull << 32, from = total / (u64)parts * (u64)part, to = total / (u64)parts * (u64)(part + 1);
	if (g_replaying && !g_replay.empty()) { from = (u64)g_replay[0]; to = from + 1; }
	for (u64 i = from; i < to; ++i) {
		u32 h = vs_inthash_u32((u32)i);
	obs(h);
		if (__builtin_expect(h != ref_int32((u32)i) || inv_int32(h) != (u32)i, 0)) {
			if (!vf_case({ (long long)i })) continue;
			vf_fail(C24, "inthash_u32(%x) is %x and not %x, or it is not reversible", (u32)i, h, ref_int32((u32)i));
		}
		++g_progress;
		if ((i & 0xffffff) == 0 && out_of_time()) return;
	}
	st.cases += to - from;
	st.transitions += to - from;
	st.sample(sfmt("all the keys from %llx to %llx, each hash mapped back to its key", (unsigned long long)from, (unsigned long long)to - 1));
}

/* only the hashes, marked in a map: no two keys share one */
JOB(func_int32_map, "func.int32map")
{
	if (sizeof(void*) == 4) return;
	u64* map = (u64*)mmap(0, (size_t)1 << 29, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	u64 dup = vs_inthash_u32_range(0, 1ull << 32, map);
	if (vf_case({ 0 })) CHECK(C24, !dup, "%llu keys share their inthash_u32 with another one", (unsigned long long)dup);
	st.cases = st.transitions = 1ull << 32;
}

void int64_at(u64 k)
{
	u64 h = vs_inthash_u64(k);
	obs(h);
	if (__builtin_expect(h != ref_int64(k) || inv_int64(h) != k, 0)) {
		if (!vf_case({ (long long)k })) return;
		vf_fail(C24, "inthash_u64(%llx) is %llx and not %llx, or it is not reversible", (unsigned long long)k, (unsigned long long)h, (unsigned long long)ref_int64(k));
	}
	++st.cases;
}
JOB(func_int64, "func.int64")
{
	int w = (int)p.i("w", 16);
	long long part = p.i("part", 0), parts = p.i("parts", 1);
	if (g_replaying && !g_replay.empty()) { int64_at((u64)g_replay[0]); return; }
	/* all the keys differing from a background in a window of w bits */
	for (int s = 0; s + w <= 64; ++s) {
		if (s % parts != part) continue;
		if (out_of_time()) return;
		for (u64 bg : { 0ull, ~0ull, 0x5555555555555555ull, 0x0123456789abcdefull })
			for (u64 v = 0; v < 1ull << w; ++v) { int64_at((bg & ~(((1ull << w) - 1) << s)) | v << s); }
		++g_progress;
	}
	/* all the keys with at most four bits set, or clear */
	if (part == 0)
		for (int a = 0; a < 64; ++a) for (int b = a; b < 64; ++b) for (int c = b; c < 64; ++c) for (int d = c; d < 64; ++d) {
			u64 k = 1ull << a | 1ull << b | 1ull << c | 1ull << d;
			int64_at(k);
			int64_at(~k);
		}
	st.transitions = st.cases;
	st.sample(sfmt("all the keys in windows of %d bits over 4 backgrounds, all with at most 4 bits set or clear", w));
}

/* ------------------------------------------------------------------ */
/* bit primitives */

JOB(func_bits32, "func.bits32")
{
	long long part = p.i("part", 0), parts = p.i("parts", 8);
	u64 total = 1ull << 32, from = total / (u64)parts * (u64)part, to = total / (u64)parts * (u64)(part + 1), bad = 0;
	if (g_replaying && !g_replay.empty()) { from = (u64)g_replay[0]; to = from + 1; }
	for (u64 i = from; i < to; i += 1u << 24) {
		if (out_of_time()) return;
		int r = vs_bits_range(i, std::min(to, i + (1u << 24)), &bad);
		if (r) {
			static const char* what[5] = { "", "the zero byte test", "ilog2_u32", "ctz_u32", "roundup_pow2_u32" };
			vf_case({ (long long)bad });
			vf_fail(C25, "%s is wrong for %llx", what[r], (unsigned long long)bad);
		}
		++g_progress;
	}
	st.cases += to - from;
	st.transitions += (to - from) * 4;
	st.sample(sfmt("all the values from %llx to %llx", (unsigned long long)from, (unsigned long long)to - 1));
}

void bits_at(u64 v)
{
	const int SB = sizeof(size_t) * 8;
	++st.cases;
	unsigned hi = 63, lo = 0;
	if (!v) return;
	while (!(v >> hi & 1)) --hi;
	while (!(v >> lo & 1)) ++lo;
	const char* bad = 0;
	if (SB == 64) {
		if (vs_ilog2_u64(v) != hi) bad = "ilog2_u64";
		if (vs_ctz_u64(v) != lo) bad = "ctz_u64";
	}
	if (SB == 64 || v <= 0xffffffffu) {
		if (vs_ilog2((size_t)v) != hi) bad = "ilog2";
		if (vs_ctz((size_t)v) != lo) bad = "ctz";
	}
	u64 r = 1ull << hi;
	bool rep = v == r || hi < 63;
	if (v != r) r <<= 1;
	if (rep && vs_roundup_u64(v) != r) bad = "roundup_pow2_u64";
	if (rep && (SB == 64 || r <= 0x80000000u) && vs_roundup((size_t)v) != (size_t)r) bad = "roundup_pow2";
	if (bad) {
		if (!vf_case({ (long long)v })) return;
		vf_fail(C25, "%s is wrong for %llx", bad, (unsigned long long)v);
	}
}
JOB(func_bits64, "func.bits64")
{
	int w = (int)p.i("w", 16);
	if (g_replaying && !g_replay.empty()) { bits_at((u64)g_replay[0]); return; }
	for (int s = 0; s + w <= 64; ++s) {
		if (out_of_time()) return;
		for (u64 v = 0; v < 1ull << w; ++v) {
			u64 x = v << s;
			bits_at(x);
			bits_at(~x);
			bits_at(x | (s ? (1ull << s) - 1 : 0)); /* ones below */
		}
		++g_progress;
	}
	for (int a = 0; a < 64; ++a) for (int b = a; b < 64; ++b) for (int c = b; c < 64; ++c) for (int d = c; d < 64; ++d) {
		u64 k = 1ull << a | 1ull << b | 1ull << c | 1ull << d;
		for (u64 x : { k, ~k, k - 1, k + 1, (u64)((1ull << a) - (1ull << b)), (u64)((1ull << d) - (1ull << a)) }) bits_at(x);
	}
	st.transitions = st.cases * 5;
	st.sample(sfmt("all the values within a window of %d bits, over zeros and ones, and all with at most 4 bits set or clear", w));
}

/* ------------------------------------------------------------------ */
/* the history does not matter: every sequence of three calls, and very many calls */

JOB(func_again, "func.again")
{
	u64 n = (u64)p.i("n", 4000000);
	u8* key = sec_struct();
	used_struct = 4096;
	used_model = 0;
	arena_reset();
	struct In { int f; const u8* p; size_t len; u64 init; };
	std::vector<In> in;
	for (size_t i = 0; i < 2048; ++i) key[i] = (u8)(1 + i * 7 % 251);
	const size_t lens[] = { 0, 1, 3, 4, 8, 11, 12, 13, 24, 25, 40 };
	for (int f = 0; f < 2; ++f) for (auto l : lens) in.push_back({ f, key + l * 13, l, l * 3 });
	in.push_back({ 0, key, 12, 0 }); in.push_back({ 0, key, 11, 0 }); in.push_back({ 0, key + 1, 11, 0 }); in.push_back({ 0, key, 12, 1 });
	in.push_back({ 1, key, 12, 0 }); in.push_back({ 1, key, 11, 0 }); in.push_back({ 1, key + 1, 11, 0 }); in.push_back({ 1, key, 12, 1ull << 32 });
	size_t off = 2048;
	for (auto l : lens) { for (size_t i = 0; i < l; ++i) key[off + i] = (u8)(33 + i + l); key[off + l] = 0; in.push_back({ 2, key + off, l, l }); off += l + 1; }
	for (u64 v : { 0ull, 1ull, 2ull, 0x12345678ull, 0xffffffffull }) { in.push_back({ 3, 0, 0, v }); in.push_back({ 4, 0, 0, v * 0x100000001ull }); in.push_back({ 5, 0, 0, v | 1 }); }
	perm(key, 4096, KEY);
	auto call = [](const In& x) -> u64 {
		switch (x.f) {
		case 0: return vs_hash_u32((u32)x.init, x.p, x.len);
		case 1: return vs_hash_u64(x.init, x.p, x.len);
		case 2: return vs_strhash_u32(x.init, x.p);
		case 3: return vs_inthash_u32((u32)x.init);
		case 4: return vs_inthash_u64(x.init);
		default: return vs_ilog2_u32((u32)x.init) + 64 * vs_ctz_u32((u32)x.init) + 4096 * (u64)vs_roundup_u32((u32)x.init & 0x7fffffff);
		}
	};
	const u64 mask[6] = { C22, C22, C23, C24, C24, C25 };
	/* a copy of every key, to be changed in place */
	std::vector<u64> want;
	{ Op o(OWN(KEY), 0, RO); for (auto& x : in) want.push_back(call(x)); }
	for (size_t i = 0; i < in.size(); ++i) if (in[i].f < 2) CHECK(C22, want[i] == (in[i].f ? ref64(in[i].init, in[i].p, in[i].len) : ref32((u32)in[i].init, in[i].p, in[i].len)), "the hash of a key of %zu bytes is not lookup3", in[i].len);
	size_t m = in.size();
	auto one = [&](size_t i) { u64 v; { Op o(OWN(KEY), 0, RO); v = call(in[i]); } return v == want[i]; };
	for (size_t a = 0; a < m; ++a) for (size_t b = 0; b < m; ++b) {
		if (!vf_case({ (long long)a, (long long)b })) continue;
		for (size_t c = 0; c < m; ++c) {
			bool ok = one(a);
			ok = one(b) && ok;
			ok = one(c) && ok;
			if (!ok) { vf_fail(mask[in[a].f] | mask[in[b].f] | mask[in[c].f], "the value of a function depends on the calls made before"); return; }
		}
		++g_progress;
	}
	/* the same key in the same place with another content: the value is that of the content */
	for (size_t i = 0; i < m; ++i) {
		if (in[i].f >= 3 || !in[i].len) continue;
		if (!vf_case({ 1000, (long long)i })) continue;
		u8* q = (u8*)(uintptr_t)in[i].p;
		for (size_t k = 0; k < in[i].len; ++k) for (int d = 1; d < 256; d += d) {
			u64 w0;
			perm(key, 4096, KEY);
			q[k] ^= (u8)d;
			if (!q[k]) { q[k] ^= (u8)d; continue; }
			{ Op o(OWN(KEY), 0, RO); w0 = call(in[i]); }
			if (in[i].f == 0) CHECK(C22, w0 == ref32((u32)in[i].init, q, in[i].len), "the hash of a key changed in place is not lookup3");
			if (in[i].f == 1) CHECK(C22, w0 == ref64(in[i].init, q, in[i].len), "the hash of a key changed in place is not lookup3");
			/* elsewhere */
			u8* z = key + 3500;
			for (size_t j = 0; j <= in[i].len; ++j) z[j] = q[j];
			In e = in[i];
			e.p = z;
			u64 w1;
			{ Op o(OWN(KEY), 0, RO); w1 = call(e); }
			CHECK(mask[in[i].f], w0 == w1, "a key changed in place and its copy have different hashes");
			q[k] ^= (u8)d;
			CHECK(mask[in[i].f], one(i), "the value of a function depends on the calls made before");
		}
		++g_progress;
	}
	if (vf_case({ 2000 }))
		for (u64 r = 0; r < n && !out_of_time(); ) {
			for (size_t i = 0; i < m; ++i) if (!one(i)) { vf_fail(mask[in[i].f], "the value of a function changes after about %llu calls", (unsigned long long)r); return; }
			r += m;
			if (!(r & 0xff)) ++g_progress;
		}
	st.sample(sfmt("every sequence of three calls out of %zu, and %llu calls", m, (unsigned long long)n));
	st.states = st.cases;
}

}
