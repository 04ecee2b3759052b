/*
 * Containers of millions of elements: the histories that go up to a size and down again, at sizes where
 * the tables, the positions and the numbers of merges are past 20 bits. The elements are in mappings of
 * their own and the reference model is arithmetic, so that they fit in memory.
 */
#include "vf.h"
#include <sys/mman.h>
#include <unistd.h>
#include <cmath>

namespace {

const unsigned OWNER = 1, AL = 2;

u8* bnodes;
u32* bobjs; /* object i is the address of bobjs[i], its key */
size_t bstep, bcount, bmapped_n, bmapped_o;

void memory(size_t n, size_t step)
{
	if (bnodes) { munmap(bnodes, bmapped_n); munmap(bobjs, bmapped_o); }
	bstep = (step + 15) & ~(size_t)15;
	bcount = n;
	bmapped_n = n * bstep + 4096;
	bmapped_o = n * sizeof(u32) + 4096;
	bnodes = (u8*)mmap(0, bmapped_n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	bobjs = (u32*)mmap(0, bmapped_o, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (bnodes == MAP_FAILED || bobjs == MAP_FAILED) { fprintf(stderr, "no memory for %zu elements\n", n); _exit(3); }
	mfill(bnodes, 0xA5, n * bstep);
	arena_reset();
}
u8* nd(size_t i) { return bnodes + i * bstep; }
void* ob(size_t i) { return bobjs + i; }
long oi(const void* p)
{
	if ((const u8*)p < (const u8*)bobjs || (const u8*)p >= (const u8*)(bobjs + bcount) || ((uintptr_t)p & 3)) return -1;
	return (long)((const u32*)p - bobjs);
}
long ni(const void* p)
{
	if ((const u8*)p < bnodes || (const u8*)p >= bnodes + bcount * bstep || (size_t)((const u8*)p - bnodes) % bstep) return -1;
	return (long)((size_t)((const u8*)p - bnodes) / bstep);
}
bool mile(size_t n) { return n <= 2 || !(n & (n - 1)) || !((n - 1) & (n - 2)); }
/* a fixed permutation of 0..n-1 */
struct Perm {
	size_t n; int o; size_t k;
	Perm(size_t an, int ao) : n(an), o(ao), k(0x9E3779B1u % (an ? an : 1))
	{
		auto gcd = [](size_t a, size_t b) { while (b) { size_t t = a % b; a = b; b = t; } return a; };
		if (!k) k = 1;
		while (n && gcd(k, n) != 1) ++k;
	}
	size_t operator()(size_t i) const
	{
		switch (o) {
		default:
		case 0: return i;
		case 1: return n - 1 - i;
		case 2: return (size_t)((u64)i * k % n);
		case 3: return i & 1 ? n - 1 - i / 2 : i / 2;
		}
	}
};
const char* const ORDERS[] = { "ascending", "descending", "scattered", "from both ends" };

/* ------------------------------------------------------------------ */
/* lists */

u64 ncmp;
u64 cmp_mask;
int list_cmp(const void* a, const void* b)
{
	if ((++ncmp & 0xffff) == 0) ++g_progress;
	if (oi(a) < 0 || oi(b) < 0) { vf_fail(cmp_mask | C28, "the comparison gets something that is not an object"); return 0; }
	u32 x = *(const u32*)a, y = *(const u32*)b;
	return x < y ? -1 : x > y;
}
size_t walk_pos, walk_n;
bool walk_same;
const std::vector<u32>* walk_seq;
void walk_cb(void* obj)
{
	if ((++walk_pos & 0xffff) == 0) ++g_progress;
	if (walk_pos > walk_n) { walk_same = false; return; }
	if (oi(obj) != (long)(*walk_seq)[walk_pos - 1]) walk_same = false;
}
void walk_arg_cb(void* arg, void* obj) { if (arg != (void*)(uintptr_t)0x77) walk_same = false; walk_cb(obj); }

void list_check(void* l, const std::vector<u32>& seq, u64 m)
{
	size_t n = seq.size(), c;
	void *h, *t;
	{
		Op o(OWN(OWNER), 0, RO, true);
		c = vs_list.count(l);
		h = vs_list.head(l);
		t = vs_list.tail(l);
	}
	CHECK(m, c == n, "count() is %zu and not %zu", c, n);
	CHECK(m, h == (n ? nd(seq[0]) : 0) && t == (n ? nd(seq[n - 1]) : 0), "head or tail is another node in a list of %zu", n);
	for (size_t i = 0; i < n && !g_pruned; ++i) {
		const u8* q = nd(seq[i]);
		CHECK(m, ptr_at(q, vs.node_next) == (i + 1 < n ? (void*)nd(seq[i + 1]) : 0), "next of element %zu of %zu is another node", i, n);
		CHECK(m, ptr_at(q, vs.node_prev) == nd(seq[i ? i - 1 : n - 1]), "prev of element %zu of %zu is another node", i, n);
		CHECK(m, ptr_at(q, vs.node_data) == ob(seq[i]), "data of element %zu of %zu is another object", i, n);
	}
	if (g_pruned) return;
	walk_seq = &seq;
	walk_n = n;
	for (int how = 0; how < 2; ++how) {
		walk_pos = 0;
		walk_same = true;
		{
			Op o(OWN(OWNER), 0, RO, true);
			if (how) vs_list.foreach_arg(l, walk_arg_cb, (void*)(uintptr_t)0x77);
			else vs_list.foreach(l, walk_cb);
		}
		CHECK(m | C21, walk_same && walk_pos == n, "foreach visits %zu elements of %zu, or in another order", walk_pos, n);
	}
}

const int NBIG = 14;
u32 big_key(int s, size_t i, size_t n)
{
	u64 r = i * 0x9E3779B97F4A7C15ull + 12345;
	switch (s) {
	default:
	case 0: return (u32)i;
	case 1: return (u32)(n - i);
	case 2: return 7;
	case 3: return (u32)(i * 2 < n ? i : n - i);
	case 4: return (u32)splitmix(r);
	case 5: return (u32)(splitmix(r) % 3);
	case 6: return (u32)(i % 2);
	case 7: return (u32)((i + 1) % n); /* the smallest last */
	case 8: return (u32)(i ? i : n); /* the biggest first */
	case 9: return (u32)(i % 2 ? i : n - i);
	case 10: return __builtin_bswap32((u32)(((i & 0x0f0f0f0f) << 4) | (i >> 4 & 0x0f0f0f0f))); /* far merges */
	case 11: return (u32)(i < (1u << 20) ? i + 5 : i - (1u << 20)); /* two ordered runs, the second from 2^20 on */
	case 12: return (u32)(i / 3 ^ 1);
	case 13: return (u32)(i < n / 2 ? 2 * i + 1 : 2 * (i - n / 2)); /* two runs to be interleaved */
	}
}

JOB(big_sort, "big.sort")
{
	cmp_mask = C02;
	Ints shapes = p.list("s", "0-13");
	for (auto N : p.list("n", "1048577")) for (auto s : shapes) {
		size_t n = (size_t)N;
		if (out_of_time()) return;
		if (!vf_case({ N, s })) continue;
		vf_case_text(sfmt("sort of %zu elements, shape %d", n, (int)s));
		memory(n, vs.node);
		void* l = sec_struct();
		{ Op o(OWN(OWNER), 0, false, true); vs_list.init(l); }
		bool up = true, down = true;
		for (size_t i = 0; i < n; ++i) {
			bobjs[i] = big_key((int)s, i, n);
			if (i && bobjs[i] < bobjs[i - 1]) up = false;
			if (i && bobjs[i] >= bobjs[i - 1]) down = false;
			Op o(OWN(OWNER), 0, false, true);
			vs_list.insert_tail(l, nd(i), ob(i));
		}
		ncmp = 0;
		{ Op o(OWN(OWNER), 0, false, true); vs_list.sort(l, list_cmp); }
		u64 max = (u64)n * ilog2c(n) + 3 * (u64)n + 4;
		CHECK(C03, ncmp <= max, "sorting %zu elements takes %llu comparisons, over %llu", n, (unsigned long long)ncmp, (unsigned long long)max);
		if (up || down) CHECK(C03, ncmp <= 3 * (u64)n + 2, "sorting %zu elements already in order, equal or reversed takes %llu comparisons", n, (unsigned long long)ncmp);
		st.maxi("max_comparisons_permille_of_bound", ncmp * 1000 / max);
		std::vector<u32> want(n);
		for (size_t i = 0; i < n; ++i) want[i] = (u32)i;
		if (!up) std::stable_sort(want.begin(), want.end(), [](u32 a, u32 b) { return bobjs[a] < bobjs[b]; });
		list_check(l, want, C01 | C02);
		++st.traces;
		st.sample(sfmt("sort of %zu elements, shape %d: %llu comparisons", n, (int)s, (unsigned long long)ncmp));
	}
	st.states = st.cases;
}

JOB(big_list, "big.list")
{
	for (auto N : p.list("n", "1048577")) for (int a = 0; a < 3; ++a) {
		size_t n = (size_t)N;
		if (out_of_time()) return;
		if (!vf_case({ N, a })) continue;
		vf_case_text(sfmt("a list of %zu elements, from insertions %s", n, a == 0 ? "at the tail" : a == 1 ? "at the head" : "in two lists, concatenated"));
		memory(n, vs.node);
		void *l = sec_struct(), *m = sec_struct() + 64;
		{ Op o(OWN(OWNER), 0, false, true); vs_list.init(l); vs_list.init(m); }
		for (size_t i = 0; i < n; ++i) {
			if ((i & 0xffff) == 0) ++g_progress;
			Op o(OWN(OWNER), 0, false, true);
			if (a == 0) vs_list.insert_tail(l, nd(i), ob(i));
			else if (a == 1) vs_list.insert_head(l, nd(n - 1 - i), ob(n - 1 - i));
			else vs_list.insert_tail(i < n / 3 ? l : m, nd(i), ob(i));
		}
		if (a == 2) { Op o(OWN(OWNER), 0, false, true); vs_list.concat(l, m); }
		std::vector<u32> seq(n), left;
		for (size_t i = 0; i < n; ++i) seq[i] = (u32)i;
		list_check(l, seq, C01);
		/* two thirds away, in another order, and then the others */
		Perm pm(n, 2);
		for (int round = 0; round < 2 && !g_pruned; ++round) {
			for (size_t k = 0; k < n && !g_pruned; ++k) {
				size_t i = a == 1 ? n - 1 - k : pm(k);
				if ((round == 0) == (i % 3 == 0)) continue;
				void* r;
				{ Op o(OWN(OWNER), 0, false, true); r = vs_list.remove_existing(l, nd(i)); }
				CHECK(C01, r == ob(i), "remove_existing() returns another pointer");
				mfill(nd(i), 0xDD, bstep);
			}
			left.clear();
			if (round == 0) for (size_t i = 0; i < n; i += 3) left.push_back((u32)i);
			list_check(l, left, C01);
		}
		++st.traces;
		st.sample(sfmt("list of %zu elements", n));
	}
	st.states = st.cases;
}

/* ------------------------------------------------------------------ */
/* multimaps: groups of elements of the same key; element g * size + r is the r-th of the group g */

struct Map {
	u64 FUN, ORD;
	virtual ~Map() {}
	virtual void init(size_t n) = 0;
	virtual size_t key(size_t g) = 0; /* different for each g, also past the last group */
	virtual void insert(size_t i, size_t g) = 0;
	virtual void* search(size_t g) = 0;
	virtual void* bucket(size_t g) = 0;
	virtual void* remove(size_t g) = 0;
	virtual void* remove_existing(size_t i) = 0;
	virtual size_t count() = 0, usage() = 0;
	virtual void size_check(size_t n) = 0; /* after each operation */
	virtual bool foreach(int how) { (void)how; return false; }
	virtual bool mixed() { return false; } /* elements of other keys may be in the bucket */
	virtual size_t o_next() { return vs.node_next; }
	virtual size_t o_prev() { return vs.node_prev; }
	virtual size_t o_data() { return vs.node_data; }
	virtual size_t node_size() { return vs.node; }
	virtual bool alone() { return false; } /* evenly spread: until the first removal each element is alone in its bucket */
	virtual void full(bool) {} /* with all the elements; again: after some of them have been removed and put back */
	virtual void done() = 0;
};

size_t q_key; /* the comparison of the hashtables */
int map_cmp(const void* arg, const void* obj)
{
	if (arg != &q_key) { vf_fail(C28, "the comparison gets another argument"); return 1; }
	if (oi(obj) < 0) { vf_fail(cmp_mask | C28, "the comparison gets something that is not an object"); return 1; }
	return *(const u32*)obj != (u32)*(const size_t*)arg;
}
std::vector<u8> seen, alive;
u64 visits;
bool visit_bad;
void visit_cb(void* obj)
{
	if ((++visits & 0xffff) == 0) ++g_progress;
	long i = oi(obj);
	if (i < 0 || !alive[(size_t)i] || seen[(size_t)i]) { visit_bad = true; if (visits > 2 * (u64)bcount) vf_fail(cmp_mask | C21, "foreach does not end"); return; }
	seen[(size_t)i] = 1;
}
void visit_arg_cb(void* arg, void* obj) { if (arg != (void*)(uintptr_t)0x99) visit_bad = true; visit_cb(obj); }

size_t spread(int l, size_t i)
{
	switch (l) {
	default:
	case 0: return i;
	case 1: return (size_t)((u64)i * 0x9E3779B97F4A7C15ull); /* odd: all different, also in the low bits */
	case 2: return ~i;
	case 3: return i | (size_t)(i & 0xff) << (sizeof(size_t) * 8 - 8); /* the low bits of 0, and high ones */
	}
}

struct HashMap : Map {
	const vs_hash_ops* T;
	int l;
	size_t size, base;
	void* h() { return sec_struct(); }
	void init(size_t) override
	{
		{ Op o(OWN(OWNER), OWNER); T->init(h(), size); }
		base = heap_live();
	}
	size_t key(size_t g) override { return spread(l, g); }
	void insert(size_t i, size_t g) override { bobjs[i] = (u32)g; Op o(OWN(OWNER), OWNER); T->insert(h(), nd(i), ob(i), key(g)); }
	void* search(size_t g) override { q_key = g; Op o(OWN(OWNER), 0, RO); return T->search(h(), map_cmp, &q_key, key(g)); }
	void* bucket(size_t g) override { Op o(OWN(OWNER), 0, RO); return T->bucket(h(), key(g)); }
	void* remove(size_t g) override { q_key = g; Op o(OWN(OWNER), OWNER); return T->remove(h(), map_cmp, &q_key, key(g)); }
	void* remove_existing(size_t i) override { Op o(OWN(OWNER), OWNER); return T->remove_existing(h(), nd(i)); }
	size_t count() override { Op o(OWN(OWNER), 0, RO); return T->count(h()); }
	size_t usage() override { Op o(OWN(OWNER), 0, RO); return T->memory_usage(h()); }
	bool mixed() override { return true; }
	bool foreach(int how) override
	{
		Op o(OWN(OWNER), 0, RO);
		if (how) T->foreach_arg(h(), visit_arg_cb, (void*)(uintptr_t)0x99); else T->foreach(h(), visit_cb);
		return true;
	}
	void size_check(size_t n) override
	{
		size_t live = heap_live();
		if (T == &vs_hash[0]) { CHECK(FUN | C20, live == base, "the memory of a fixed size table changes"); return; }
		size_t b = live / sizeof(void*), ini = base / sizeof(void*);
		CHECK(C07, b >= ini && b >= 2 * n, "%zu elements in a table of only %zu buckets", n, b);
		CHECK(C07, b <= std::max(ini, 16 * n + 16), "a table of %zu buckets remains for %zu elements", b, n);
		if (!n) CHECK(C07, b == ini, "the table of no elements has %zu buckets and not the initial %zu", b, ini);
	}
	bool alone() override { return T != &vs_hash[0]; }
	void done() override
	{
		{ Op o(OWN(OWNER), OWNER); T->done(h()); }
		CHECK(C19, heap_live() == 0, "%zu bytes of memory are held after done()", heap_live());
	}
};

struct TrieMap : Map {
	const vs_trie_ops* T;
	int l;
	bool inplace;
	size_t fresh = 0;
	void* t() { return sec_struct(); }
	void* al() { return sec_struct() + 8192; }
	size_t node_size() override { return T->node_size; }
	size_t o_next() override { return T->next; }
	size_t o_prev() override { return T->prev; }
	size_t o_data() override { return T->data; }
	void init(size_t) override
	{
		if (!inplace) { Op o(OWN(AL), AL); vs_alloc.init(al(), vs.trie_block, vs.trie_block); }
		Op o(OWN(OWNER) | OWN(AL), AL, false, true);
		T->init(t(), inplace ? 0 : al());
	}
	size_t key(size_t g) override
	{
		u32 k = (u32)g;
		switch (l) {
		default:
		case 0: break;
		case 1: k = k * 0x9E3779B1u; break;
		case 2: k = ~k; break;
		case 3: k = k << 9 | k >> 23; break;
		case 4: { u32 r = 0; for (int b = 0; b < 32; ++b) if (k >> b & 1) r |= 1u << (31 - b); k = r; break; }
		}
		return k;
	}
	void insert(size_t i, size_t g) override { bobjs[i] = (u32)g; Op o(OWN(OWNER) | OWN(AL), AL); T->insert(t(), nd(i), ob(i), key(g)); }
	void* search(size_t g) override { Op o(OWN(OWNER) | OWN(AL), 0, RO, true); return T->search(t(), key(g)); }
	void* bucket(size_t g) override { Op o(OWN(OWNER) | OWN(AL), 0, RO, true); return T->bucket(t(), key(g)); }
	void* remove(size_t g) override { Op o(OWN(OWNER) | OWN(AL), AL); return T->remove(t(), key(g)); }
	void* remove_existing(size_t i) override { Op o(OWN(OWNER) | OWN(AL), AL); return T->remove_existing(t(), nd(i)); }
	size_t count() override { Op o(OWN(OWNER) | OWN(AL), 0, RO, true); return T->count(t()); }
	size_t usage() override { Op o(OWN(OWNER) | OWN(AL), 0, RO, true); return T->memory_usage(t()); }
	void size_check(size_t) override { if (inplace) CHECK(C13, heap_live() == 0, "an inplace trie holds heap memory"); }
	size_t inner(size_t n)
	{
		size_t mu = usage(), own = n * T->node_size;
		CHECK(C20, mu >= own && (inplace ? mu == own : (mu - own) % vs.trie_block == 0), "memory_usage() is %zu with %zu elements", mu, n);
		if (inplace || mu < own) return 0;
		size_t w;
		{ Op o(OWN(AL), 0, RO, true); w = vs_alloc.memory_usage(al()); }
		CHECK(C13 | C20, mu - own == w, "the trie accounts %zu bytes of inner nodes, the allocator %zu", mu - own, w);
		return mu - own;
	}
	void full(bool again) override
	{
		size_t n = count(), x = inner(n);
		if (!again) fresh = x;
		else CHECK(C13, x == fresh, "%zu bytes of inner nodes and not %zu as the first time with the same keys", x, fresh);
	}
	void done() override
	{
		CHECK(C13, inner(0) == 0, "an emptied trie holds inner nodes");
		if (!inplace) {
			{ Op o(OWN(AL), AL); vs_alloc.done(al()); }
			CHECK(C19, heap_live() == 0, "%zu bytes of memory are held after done()", heap_live());
		}
	}
};

void run_map(Map& M, size_t n, size_t G, int order)
{
	cmp_mask = M.FUN;
	size_t ng = (n + G - 1) / G;
	n = ng * G;
	memory(n, M.node_size());
	alive.assign(n, 0);
	seen.assign(n, 0);
	size_t cnt = 0;
	M.init(n);
	size_t ini = heap_live();
	bool is_trie = !M.mixed();
	auto counts = [&]() {
		size_t c = M.count(), mu = M.usage();
		CHECK(M.FUN, c == cnt, "count() is %zu and not %zu", c, cnt);
		obs(mu);
		if (!is_trie) CHECK(C20, mu == heap_live() + cnt * vs.node, "memory_usage() is %zu and not %zu + %zu nodes", mu, heap_live(), cnt);
	};
	/* the r-th elements of the groups in g are stored if alive; oldest first by construction */
	auto oldest = [&](size_t g) -> long { for (size_t i = g * G; i < g * G + G; ++i) if (alive[i]) return (long)i; return -1; };
	auto group = [&](size_t g) {
		long w = oldest(g);
		void* r = M.search(g);
		CHECK(M.FUN, (r != 0) == (w >= 0), "search() with %zu elements %s", cnt, r ? "finds a removed element" : "does not find a stored element");
		if (r && w >= 0) {
			long x = oi(r);
			CHECK(M.FUN, x >= 0 && (size_t)x / G == g && alive[(size_t)x], "search() returns object %ld of another key", x);
			CHECK(C14, x == w, "search() does not return the oldest element");
		}
		/* its elements in the bucket, in the order of insertion; links both ways */
		void* b = M.bucket(g);
		size_t steps = 0;
		size_t at = g * G, end = at + G;
		for (u8 *q = (u8*)b, *last = 0; q && !g_pruned; last = q, q = (u8*)ptr_at(q, M.o_next())) {
			long x = ni(q);
			if (x < 0 || !alive[(size_t)x] || ++steps > n) { vf_fail(M.FUN, "the bucket leads to something that is not a stored element"); return; }
			if (last) CHECK(M.FUN, ptr_at(q, M.o_prev()) == last, "the bucket is not linked backward");
			CHECK(M.FUN | C28, ptr_at(q, M.o_data()) == ob((size_t)x), "the data of an element is another object");
			if ((size_t)x / G != g) { CHECK(M.FUN, M.mixed(), "the bucket has an element of another key"); continue; }
			while (at < end && !alive[at]) ++at;
			CHECK(C14 | M.FUN, at < end && at == (size_t)x, "the bucket lists an element out of the order of insertion");
			++at;
		}
		while (at < end && !alive[at]) ++at;
		CHECK(M.FUN, at >= end || g_pruned, "the bucket lacks a stored element");
	};
	bool chains1 = M.alone() && G == 1;
	auto verify = [&]() {
		counts();
		for (size_t g = 0; g < ng && chains1; ++g) {
			const u8* q = (const u8*)M.bucket(g);
			if (q && ptr_at(q, M.o_next())) { vf_fail(C07, "with %zu elements of evenly spread hashes a bucket has more than one", cnt); break; }
		}
		chains1 = false;
		for (size_t g = 0; g < ng && !g_pruned; ++g) { if ((g & 0x3fff) == 0) ++g_progress; group(g); }
		for (size_t g = ng; g < ng + 1000 && !g_pruned; ++g) { void* r = M.search(g); CHECK(M.FUN, !r, "search() finds an element never inserted"); }
		for (int how = 0; how < 2 && !g_pruned; ++how) {
			visits = 0;
			visit_bad = false;
			mfill(seen.data(), 0, seen.size());
			if (!M.foreach(how)) break;
			CHECK(C21 | M.FUN, !visit_bad && visits == cnt, "foreach visits %llu elements of %zu, or some of them twice", (unsigned long long)visits, cnt);
		}
	};
	Perm pm(ng, order), qm(ng, order == 2 ? 3 : 2);
	auto insert = [&](size_t i) {
		M.insert(i, i / G);
		alive[i] = 1;
		++cnt;
		if ((cnt & 0xfff) == 0) ++g_progress;
		M.size_check(cnt);
		if (mile(cnt)) counts();
	};
	auto away = [&](size_t i, bool existing) {
		void* r;
		size_t g = i / G;
		long w = (long)i;
		if (existing) {
			r = M.remove_existing(i);
			CHECK(M.FUN, r == ob(i), "remove_existing() returns another pointer");
		} else {
			w = oldest(g);
			r = M.remove(g);
			long x = r ? oi(r) : -1;
			CHECK(M.FUN, r && x >= 0 && (size_t)x / G == g && alive[(size_t)x], "remove() with %zu elements does not remove a stored one", cnt);
			CHECK(C14, x == w, "remove() does not take the oldest element");
			if (x < 0 || (size_t)x >= n) { vf_fail(M.FUN, "remove() returns something else"); return; }
			w = x;
		}
		alive[(size_t)w] = 0;
		mfill(nd((size_t)w), 0xDD, bstep);
		--cnt;
		if ((cnt & 0xfff) == 0) ++g_progress;
		M.size_check(cnt);
		if (mile(cnt)) counts();
	};
	for (size_t r = 0; r < G; ++r)
		for (size_t k = 0; k < ng && !g_pruned; ++k) insert(pm(k) * G + r);
	if (g_pruned) return;
	verify();
	if (g_pruned) return;
	M.full(false);
	/* a half away and back, then all away: the youngest of the group by its node, the oldest by the key */
	for (size_t k = 0; k < ng && !g_pruned; ++k) if (k & 1) away(qm(k) * G + G - 1, true);
	if (!g_pruned) verify();
	for (size_t k = 0; k < ng && !g_pruned; ++k) if (k & 1) insert(qm(k) * G + G - 1);
	if (g_pruned) return;
	counts();
	M.full(true);
	for (size_t k = 0; k < ng && !g_pruned; ++k) if (!M.remove(ng + k % 1000 + (k << 8))) { if (k >= 1000) break; } else { vf_fail(M.FUN, "remove() of a key never inserted returns something"); }
	for (size_t r = 0; r < G && !g_pruned; ++r) {
		for (size_t k = 0; k < ng && !g_pruned; ++k) {
			size_t g = qm(k);
			bool ex = ((k >> 1) & 1) != 0;
			if (ex) { size_t i = g * G + G - 1; while (!alive[i]) --i; away(i, true); }
			else away(g * G, false);
			if (r == G - 1 && !(cnt & (cnt - 1)) && cnt >= ng / 4) verify();
		}
		if (!g_pruned && (r + 1 < G || cnt == 0)) verify();
	}
	if (g_pruned) return;
	CHECK(M.FUN, cnt == 0, "elements remain");
	(void)ini;
	M.done();
	++st.traces;
}

JOB(big_hash, "big.hash")
{
	HashMap M;
	std::string s = p.s("t", "hashdyn");
	M.T = 0;
	for (int i = 0; i < 3; ++i) if (s == vs_hash[i].name) { M.T = &vs_hash[i]; M.FUN = i == 0 ? C04 : i == 1 ? C05 : C06; }
	if (!M.T) { fprintf(stderr, "unknown table\n"); exit(3); }
	size_t G = (size_t)p.i("g", 1);
	Ints ls = p.list("l", "0"), os = p.list("o", "0");
	M.size = (size_t)p.i("size", 0);
	for (auto N : p.list("n", "1048577")) for (auto l : ls) for (auto o : os) {
		if (out_of_time()) return;
		if (!vf_case({ N, l, o })) continue;
		vf_case_text(sfmt("%s up to %lld elements, %zu of each hash, layout %d, %s", s.c_str(), N, G, (int)l, ORDERS[o & 3]));
		M.l = (int)l;
		run_map(M, (size_t)N, G, (int)o);
		st.sample(sfmt("%s up to %lld elements and down", s.c_str(), N));
	}
	st.states = st.cases;
}

JOB(big_trie, "big.trie")
{
	TrieMap M;
	std::string s = p.s("t", "trie");
	M.inplace = s == "trie_inplace";
	M.T = &vs_trie[M.inplace];
	M.FUN = M.inplace ? C12 : C11;
	size_t G = (size_t)p.i("g", 1);
	Ints ls = p.list("l", "0"), os = p.list("o", "0");
	for (auto N : p.list("n", "1048577")) for (auto l : ls) for (auto o : os) {
		if (out_of_time()) return;
		if (!vf_case({ N, l, o })) continue;
		vf_case_text(sfmt("%s up to %lld elements, %zu of each key, layout %d, %s", s.c_str(), N, G, (int)l, ORDERS[o & 3]));
		M.l = (int)l;
		run_map(M, (size_t)N, G, (int)o);
		st.sample(sfmt("%s up to %lld elements and down", s.c_str(), N));
	}
	st.states = st.cases;
}

/* ------------------------------------------------------------------ */
/* tree */

u64 tcmp;
int tree_cb(const void* a, const void* b)
{
	++tcmp;
	if (oi(a) < 0 || oi(b) < 0) { vf_fail(C09 | C28, "the comparison gets something that is not an object"); return 0; }
	u32 x = *(const u32*)a, y = *(const u32*)b;
	return x < y ? -1 : x > y;
}
long t_last;
size_t t_visits;
bool t_bad;
void tree_each(void* obj)
{
	if ((++t_visits & 0xffff) == 0) ++g_progress;
	long i = oi(obj);
	if (i < 0 || !alive[(size_t)i] || i <= t_last) t_bad = true;
	t_last = i;
}
void tree_each_arg(void* arg, void* obj) { if (arg != (void*)(uintptr_t)0x55) t_bad = true; tree_each(obj); }

JOB(big_tree, "big.tree")
{
	Ints os = p.list("o", "0-3");
	void* t = sec_struct();
	for (auto N : p.list("n", "1048577")) for (auto o1 : os) {
		size_t n = (size_t)N;
		if (out_of_time()) return;
		if (!vf_case({ N, o1 })) continue;
		vf_case_text(sfmt("a tree of up to %zu elements, %s", n, ORDERS[o1 & 3]));
		memory(n + 1, vs.node);
		alive.assign(n + 1, 0);
		for (size_t i = 0; i <= n; ++i) bobjs[i] = (u32)i;
		{ Op o(OWN(OWNER), OWNER, false, true); vs_tree.init(t, tree_cb); }
		size_t cnt = 0;
		auto cost = [&](const char* what) {
			u64 max = (u64)(1.45 * log2((double)cnt + 2)) + 1;
			CHECK(C10, tcmp <= max, "%s in a tree of %zu elements compares with %llu of them", what, cnt, (unsigned long long)tcmp);
			st.maxi("max_comparisons", tcmp);
		};
		auto verify = [&]() {
			size_t c, mu;
			{ Op o(OWN(OWNER), 0, RO, true); c = vs_tree.count(t); mu = vs_tree.memory_usage(t); }
			CHECK(C09, c == cnt, "count() is %zu and not %zu", c, cnt);
			CHECK(C20, mu == cnt * vs.node, "memory_usage() is %zu and not %zu nodes", mu, cnt);
			for (int how = 0; how < 2; ++how) {
				t_last = -1; t_visits = 0; t_bad = false;
				{
					Op o(OWN(OWNER), 0, RO, true);
					if (how) vs_tree.foreach_arg(t, tree_each_arg, (void*)(uintptr_t)0x55); else vs_tree.foreach(t, tree_each);
				}
				CHECK(C09 | C21, !t_bad && t_visits == cnt, "foreach visits %zu elements of %zu, or not in increasing order", t_visits, cnt);
			}
			for (size_t i = 0; i <= n && !g_pruned; ++i) {
				void* r;
				tcmp = 0;
				{ Op o(OWN(OWNER), 0, RO, true); r = vs_tree.search(t, ob(i)); }
				cost("search()");
				CHECK(C09, r == (alive[i] ? ob(i) : 0), "search() in a tree of %zu elements returns %s", cnt, r ? "another object" : "nothing for a stored one");
				if ((i & 0xffff) == 0) ++g_progress;
			}
		};
		auto insert = [&](size_t i) {
			void* r;
			tcmp = 0;
			{ Op o(OWN(OWNER), OWNER, false, true); r = vs_tree.insert(t, nd(i), ob(i)); }
			cost("insert()");
			CHECK(C09, r == ob(i), "insert() of a new element returns another object");
			alive[i] = 1;
			++cnt;
			if ((cnt & 0xfff) == 0) ++g_progress;
		};
		auto away = [&](size_t i, bool ex) {
			void* r;
			tcmp = 0;
			{ Op o(OWN(OWNER), OWNER, false, true); r = ex ? vs_tree.remove_existing(t, nd(i)) : vs_tree.remove(t, ob(i)); }
			cost("removal");
			CHECK(C09, r == ob(i), "a removal returns another object");
			alive[i] = 0;
			mfill(nd(i), 0xDD, bstep);
			--cnt;
			if ((cnt & 0xfff) == 0) ++g_progress;
		};
		Perm pm(n, (int)o1), qm(n, o1 == 2 ? 0 : 2);
		for (size_t k = 0; k < n && !g_pruned; ++k) insert(pm(k));
		if (g_pruned) continue;
		verify();
		{
			/* an element already there */
			void* r;
			{ Op o(OWN(OWNER), OWNER, false, true); r = vs_tree.insert(t, nd(n), ob(n / 2)); }
			CHECK(C09, r == ob(n / 2), "insert() of an element already there returns another object");
		}
		for (size_t k = 0; k < n && !g_pruned; k += 2) away(qm(k), (k & 2) != 0);
		if (!g_pruned) verify();
		for (size_t k = 0; k < n && !g_pruned; k += 2) insert(qm(k));
		if (!g_pruned) verify();
		for (size_t k = 0; k < n && !g_pruned; ++k) {
			away(pm(n - 1 - k), (k & 1) != 0);
			if (cnt >= n / 8 && !(cnt & (cnt - 1))) verify();
		}
		if (!g_pruned) verify();
		++st.traces;
		st.sample(sfmt("tree of %zu elements and down", n));
	}
	st.states = st.cases;
}

}
