/* Tries: C11 C12 (multimap), C13 (inner nodes), C14 (order), C30 (bounded work) and the cross-cutting ones */
#include "vf.h"

namespace {

enum { TRIE0 = 1, ALLOC = 2, TRIE1 = 3 };
const vs_trie_ops* T;
u64 FUN;
bool inplace;
int ntries = 1;
size_t tstride = 8192;
u8* tp(int t) { return sec_struct() + (size_t)t * tstride; }
u8* ap() { return sec_struct() + 2 * tstride; }
unsigned towner(int t) { return t ? TRIE1 : TRIE0; }

std::vector<size_t> keyv; /* key of every object */
u64 acc_limit;
const u64 ACC_LIMIT = 1500;

void setup(const Params& p)
{
	T = p.s("t", "trie") == "trie" ? &vs_trie[0] : &vs_trie[1];
	inplace = T == &vs_trie[1];
	FUN = inplace ? C12 : C11;
	ntries = (int)p.i("tries", 1);
	acc_limit = vs.is_monitored ? ACC_LIMIT : 0;
	tstride = (T->size + 8191) / 8192 * 8192;
	if (tstride > 16 * 8192) { fprintf(stderr, "trie structure too big\n"); exit(3); }
}
size_t key_max() { size_t b = inplace ? vs.trie_inplace_bit : vs.trie_bit; return b >= sizeof(size_t) * 8 ? (size_t)-1 : ((size_t)1 << b) - 1; }

void op_init()
{
	if (!inplace) {
		perm(ap(), vs_alloc.size, ALLOC);
		perm(tp(0), T->size, towner(0));
		life_trie(*T, tp(0), ap(), towner(0), ALLOC);
		Op o(OWN(ALLOC), ALLOC);
		vs_alloc.init(ap(), vs.trie_block, vs.trie_block);
	}
	for (int t = 0; t < ntries; ++t) {
		perm(tp(t), T->size, towner(t));
		if (inplace) life_trie(*T, tp(t), 0, towner(t), 0);
		Op o(OWN(towner(t)), 0, false, true);
		T->init(tp(t), ap());
	}
}
u64 own(int t) { return OWN(towner(t)) | (inplace ? 0 : OWN(ALLOC)); }
void bounded(const char* what)
{
	if (!acc_limit) return;
	CHECK(C30, g_last_acc <= acc_limit, "%s makes %llu memory accesses, over %llu", what, (unsigned long long)g_last_acc, (unsigned long long)acc_limit);
	st.maxi("max_accesses", g_last_acc);
}
void op_insert(int t, size_t i)
{
	node_prepare(i, towner(t));
	{ Op o(own(t), ALLOC, false, inplace); T->insert(tp(t), nodep(i), objp(i), keyv[i]); }
	bounded("insert()");
}
void* op_remove(int t, size_t key)
{
	void* r;
	{ Op o(own(t), ALLOC, false, true); r = T->remove(tp(t), key); }
	bounded("remove()");
	return r;
}
void* op_remove_existing(int t, size_t i)
{
	void* r;
	{ Op o(own(t), ALLOC, false, true); r = T->remove_existing(tp(t), nodep(i)); }
	bounded("remove_existing()");
	return r;
}
void* op_search(int t, size_t key)
{
	void* r;
	{ Op o(own(t), 0, RO, true); r = T->search(tp(t), key); }
	bounded("search()");
	return r;
}

/* the bucket of a key must be exactly ids[0..n-1] in this order */
void verify_bucket(int t, size_t key, const u32* ids, size_t n)
{
	void* b;
	{ Op o(own(t), 0, RO, true); b = T->bucket(tp(t), key); }
	bounded("bucket()");
	void* q = b;
	bool order = true;
	size_t k = 0;
	/* matched as a set when the order differs */
	std::vector<u32> got;
	void* last = 0;
	for (; q; q = ptr_at(q, T->next)) {
		long i = nodeid(q);
		if (k >= n) { vf_fail(FUN, "the bucket of key %zx holds more than the %zu elements with this key", key, n); return; }
		if (i < 0 || (size_t)i >= keyv.size()) { vf_fail(FUN, "the bucket of key %zx holds something that is not an element", key); return; }
		CHECK(FUN, ptr_at(q, T->data) == objp((size_t)i), "the data pointer of element %ld is not its object", i);
		if (k) CHECK(FUN, ptr_at(q, T->prev) == last, "the bucket of key %zx is not linked backward", key);
		if (g_pruned) return;
		if (ids[k] != (u32)i) order = false;
		if (!order || n < 64) got.push_back((u32)i);
		last = q;
		++k;
	}
	if (b) CHECK(FUN, ptr_at(b, T->prev) == last, "the first element of the bucket of key %zx is not linked to the last", key);
	if (k != n) { vf_fail(FUN, "the bucket of key %zx holds %zu elements and not %zu", key, k, n); return; }
	if (!order) {
		std::vector<u32> w(ids + (n - got.size()), ids + n);
		if (n < 64) w.assign(ids, ids + n);
		std::sort(w.begin(), w.end());
		std::sort(got.begin(), got.end());
		if (w != got) { vf_fail(FUN, "the bucket of key %zx holds other elements", key); return; }
		vf_fail(C14, "the elements with key %zx are not in insertion order", key);
	}
	void* r = op_search(t, key);
	if (!n) { CHECK(FUN, !r, "search() of an absent key %zx returns object %ld", key, r ? objid(r) : -1); return; }
	CHECK(FUN, b && r == ptr_at(b, T->data), "search() of key %zx does not return the first element of its bucket", key);
	CHECK(C14, r == objp(ids[0]), "search() of key %zx does not return the oldest element", key);
}
size_t inner[2];
void verify_counts(int t, size_t n)
{
	size_t c, mu;
	{ Op o(own(t), 0, RO, true); c = T->count(tp(t)); }
	CHECK(FUN, c == n, "count() is %zu and not %zu", c, n);
	{ Op o(own(t), 0, RO, true); mu = T->memory_usage(tp(t)); }
	obs(mu);
	inner[t] = mu - n * T->node_size;
	if (inplace) {
		CHECK(C20 | C13, inner[t] == 0, "memory_usage() is %zu with %zu elements", mu, n);
		CHECK(C19 | C13, heap_blocks() == 0, "an inplace trie holds heap memory");
	} else {
		CHECK(C20, mu >= n * T->node_size && inner[t] % vs.trie_block == 0, "memory_usage() is %zu with %zu elements", mu, n);
		CHECK(C13, n > 1 || inner[t] == 0, "a trie with %zu elements holds %zd bytes of inner nodes", n, (ssize_t)inner[t]);
	}
}
void verify_alloc()
{
	if (inplace) return;
	size_t mu;
	{ Op o(OWN(ALLOC), 0, RO, true); mu = vs_alloc.memory_usage(ap()); }
	size_t w = inner[0] + (ntries > 1 ? inner[1] : 0);
	CHECK(C13 | C20, mu == w, "the tries account %zu bytes of inner nodes, the allocator %zu", w, mu);
}
void op_alloc_done()
{
	if (inplace) return;
	{ Op o(OWN(ALLOC), 0); vs_alloc.done(ap()); }
	CHECK(C18, heap_blocks() == 0, "deinitializing the allocator leaves %zu heap blocks", heap_blocks());
	perm(ap(), vs_alloc.size, 0);
}

/* the most inner nodes that the keys may want: one for every run of digits shared by two of them */
size_t max_inner(const std::vector<u32>& ids)
{
	unsigned d = ilog2c(vs.trie_block / sizeof(void*));
	std::vector<size_t> k;
	for (auto i : ids) k.push_back(keyv[i]);
	std::sort(k.begin(), k.end());
	size_t r = 0;
	auto level = [&](unsigned s) {
		for (size_t i = 0; i + 1 < k.size(); ++i)
			if (k[i] >> s == k[i + 1] >> s && (!i || k[i - 1] >> s != k[i] >> s)) ++r;
	};
	for (unsigned s = d; s < vs.trie_bit; s += d) level(s);
	if (vs.trie_bit >= 2 * d) level(((unsigned)vs.trie_bit / d - 1) * d); /* the digit of the bucket is used again in the first node */
	return r * vs.trie_block;
}

/* inner memory of a trie built from nothing with the given objects, one per key */
size_t fresh_inner(const std::vector<u32>& ids)
{
	arena_reset();
	int k = ntries;
	ntries = 1;
	op_init();
	for (auto i : ids) op_insert(0, i);
	verify_counts(0, ids.size());
	size_t mx = max_inner(ids);
	CHECK(C36, inner[0] <= mx, "%zu bytes of inner nodes for %zu different keys, over %zu", inner[0], ids.size(), mx);
	st.maxi("max_inner_nodes", inner[0] / vs.trie_block);
	ntries = k;
	return inner[0];
}

/* ------------------------------------------------------------------ */
/* closure: every history of n elements over an alphabet of keys */

struct M { u8 n[2]; u8 seq[2][14]; };

struct TrieSys : Sys {
	int n;
	std::vector<size_t> keys; /* distinct */
	std::vector<size_t> absent;
	std::vector<u32> rep; /* an object for each key */
	std::vector<size_t> base; /* inner memory of each set of keys */
	bool canon_model; /* only the memory of the tries and the model: the free list is left out */
	M& m() { return *(M*)sec_model(); }
	void prepare()
	{
		keys.clear();
		rep.clear();
		for (int i = 0; i < n; ++i)
			if (std::find(keys.begin(), keys.end(), keyv[(size_t)i]) == keys.end()) { keys.push_back(keyv[(size_t)i]); rep.push_back((u32)i); }
		base.assign((size_t)1 << keys.size(), 0);
		if (!inplace && (g_prop & (C13 | C20 | C36)))
			for (size_t s = 0; s < base.size(); ++s) {
				std::vector<u32> ids;
				for (size_t k = 0; k < keys.size(); ++k) if (s >> k & 1) ids.push_back(rep[k]);
				base[s] = fresh_inner(ids);
			}
	}
	void init() override { op_init(); }
	int has(int i)
	{
		for (int t = 0; t < ntries; ++t) for (int j = 0; j < m().n[t]; ++j) if (m().seq[t][j] == i) return t;
		return -1;
	}
	void del(int t, int i)
	{
		int j = 0;
		while (m().seq[t][j] != i) ++j;
		for (; j + 1 < m().n[t]; ++j) m().seq[t][j] = m().seq[t][j + 1];
		m().seq[t][--m().n[t]] = 0;
	}
	void ops(std::vector<int>& out) override
	{
		for (int i = 0; i < n; ++i) {
			int t = has(i);
			if (t < 0) for (int u = 0; u < ntries; ++u) out.push_back(u << 12 | i);
			else out.push_back(t << 12 | 0x100 | i);
		}
		for (int u = 0; u < ntries; ++u) {
			for (size_t k = 0; k < keys.size(); ++k) out.push_back(u << 12 | 0x200 | (int)k);
			for (size_t k = 0; k < absent.size(); ++k) out.push_back(u << 12 | 0x300 | (int)k);
		}
	}
	std::string opname(int op) override
	{
		int k = op & 255, t = op >> 12;
		std::string s = ntries > 1 ? sfmt("trie %d: ", t) : "";
		switch (op >> 8 & 15) {
		case 0: return s + sfmt("insert(%d key=%zx)", k, keyv[(size_t)k]);
		case 1: return s + sfmt("remove_existing(%d)", k);
		case 2: return s + sfmt("remove(key=%zx)", keys[(size_t)k]);
		default: return s + sfmt("remove(absent key=%zx)", absent[(size_t)k]);
		}
	}
	std::vector<u32> with(int t, size_t key)
	{
		std::vector<u32> r;
		for (int j = 0; j < m().n[t]; ++j) if (keyv[m().seq[t][j]] == key) r.push_back(m().seq[t][j]);
		return r;
	}
	void remove_key(int t, size_t key)
	{
		std::vector<u32> w = with(t, key);
		Hash h0, h1;
		if (w.empty() && (g_prop & C27)) canon(h0);
		void* r = op_remove(t, key);
		if (w.empty()) {
			CHECK(FUN, !r, "remove() of an absent key returns object %ld", r ? objid(r) : -1);
			if (g_prop & C27) { canon(h1); CHECK(C27, h0 == h1, "remove() of an absent key changes the trie"); }
			return;
		}
		long g = r ? objid(r) : -1;
		if (g < 0 || std::find(w.begin(), w.end(), (u32)g) == w.end()) { vf_fail(FUN, "remove() of key %zx returns object %ld", key, g); return; }
		CHECK(C14, (u32)g == w[0], "remove() of key %zx takes element %ld and not the oldest, %u", key, g, w[0]);
		node_release((size_t)g);
		del(t, (int)g);
	}
	void apply(int op) override
	{
		int k = op & 255, t = op >> 12;
		switch (op >> 8 & 15) {
		case 0:
			op_insert(t, (size_t)k);
			m().seq[t][m().n[t]++] = (u8)k;
			break;
		case 1: {
			void* r = op_remove_existing(t, (size_t)k);
			CHECK(FUN, r == objp((size_t)k), "remove_existing() returns object %ld and not %d", r ? objid(r) : -1, k);
			node_release((size_t)k);
			del(t, k);
			break;
		}
		case 2: remove_key(t, keys[(size_t)k]); break;
		case 3: remove_key(t, absent[(size_t)k]); break;
		}
	}
	void check() override
	{
		for (int t = 0; t < ntries && !g_pruned; ++t) {
			verify_counts(t, m().n[t]);
			size_t set = 0;
			for (size_t k = 0; k < keys.size() && !g_pruned; ++k) {
				std::vector<u32> w = with(t, keys[k]);
				if (!w.empty()) set |= (size_t)1 << k;
				verify_bucket(t, keys[k], w.data(), w.size());
			}
			for (auto a : absent) if (!g_pruned) verify_bucket(t, a, 0, 0);
			if (!inplace && !g_pruned && (g_prop & (C13 | C20 | C36))) CHECK(C13 | (inner[t] > base[set] ? C36 : 0), inner[t] == base[set], "%zu bytes of inner nodes and not %zu as in a new trie with the same keys", inner[t], base[set]);
		}
		verify_alloc();
	}
	bool want_fini() override { return (g_prop & (C18 | C19 | C29)) != 0; }
	void fini(int) override
	{
		/* the elements first, then the allocator */
		for (int t = 0; t < ntries; ++t) {
			for (int j = 0; j < m().n[t]; ++j) node_release(m().seq[t][j]);
			perm(tp(t), T->size, 0);
		}
		op_alloc_done();
	}
	void reperm() override
	{
		if (!inplace) perm(ap(), vs_alloc.size, ALLOC);
		for (int t = 0; t < ntries; ++t) {
			perm(tp(t), T->size, towner(t));
			for (int j = 0; j < m().n[t]; ++j) perm(nodep(m().seq[t][j]), node_size, towner(t));
		}
	}
	void canon(Hash& h) override
	{
		for (int t = 0; t < ntries; ++t) h.bytes(tp(t), T->size);
		h.bytes(ap(), vs_alloc.size);
		h.bytes(sec_model(), used_model);
		hash_nodes(h);
		hash_heap(h);
		hash_lib(h);
	}
};

/* keys of the n objects, by alphabet; absent keys near them */
void alphabet(int a, int n, std::vector<size_t>& absent)
{
	const size_t MX = key_max();
	absent.clear();
	for (int i = 0; i < n; ++i) {
		size_t k = 0;
		switch (a) {
		case 0: { const size_t q[8] = { 0x5a5a5a5a, 0x5a5a5a5a, 0x5a5a5a5b, 0x5a5a5a5a, 0x5a5a5a52, 0x1a5a5a5a, 0x5a5a5a5b, 0x5a5a4a5a }; k = q[i & 7]; break; }
		case 1: { const size_t q[8] = { 0, 1, 8, 64, 4, 16, 2, 512 }; k = q[i & 7]; break; }
		case 2: { const size_t q[8] = { 0, MX, MX - 1, MX >> 1, (MX >> 1) + 1, 1, MX, 0 }; k = q[i & 7]; break; }
		case 3: k = 0x123450 + (size_t)i; break; /* siblings */
		case 4: { const size_t q[8] = { 0x700, 0x700, 0x701, 0x701, 0x740, 0x710, 0x700, 0x7000 }; k = q[i & 7]; break; }
		case 5: k = 77; break; /* all equal */
		case 6: { const size_t q[8] = { 0x10000000, 0x10000000, 0x10000001, 0x10000004, 0x10000005, 0x10000010, 0x10000015, 0x10000100 }; k = q[i & 7]; break; }
		case 7: { const size_t q[8] = { 0, (size_t)1 << 26, (size_t)1 << 23, (size_t)1 << 20, (size_t)1 << 25, (size_t)1 << 24, (size_t)1 << 17, (size_t)1 << 31 }; k = q[i & 7]; break; }
		case 8: { const size_t q[8] = { 0x3ff, 0x3fe, 0x3fb, 0x3ef, 0x3bf, 0x3ff, 0x3ff, 0x2ff }; k = q[i & 7]; break; }
		}
		keyv[(size_t)i] = k;
	}
	auto add = [&](size_t k) {
		if (k > MX) return;
		for (int i = 0; i < n; ++i) if (keyv[(size_t)i] == k) return;
		if (std::find(absent.begin(), absent.end(), k) == absent.end()) absent.push_back(k);
	};
	for (size_t b : { (size_t)1, (size_t)8, (size_t)1 << 12, (size_t)1 << 30 }) add(keyv[0] ^ b);
	add(keyv[(size_t)n - 1] ^ 2);
}

JOB(trie_closure, "trie.closure")
{
	setup(p);
	int n = (int)p.i("n", 6);
	for (auto a : p.list("a", "0-8")) {
		if (out_of_time()) return;
		if (g_replaying && (g_replay.empty() || g_replay[0] != a)) continue;
		TrieSys s;
		s.n = n;
		keyv.assign((size_t)n, 0);
		alphabet((int)a, n, s.absent);
		use_nodes(T->node_size, (size_t)n);
		used_struct = 2 * tstride + 256;
		used_model = sizeof(M);
		s.prepare();
		/* only what is used of the structures */
		Ints saved = g_replay;
		if (g_replaying) g_replay.erase(g_replay.begin());
		g_trace_prefix = { a };
		bfs(s);
		g_trace_prefix.clear();
		g_replay = saved;
	}
}

/* ------------------------------------------------------------------ */
/* pairs and triples of keys of all the bit patterns, all the orders */

std::vector<size_t> pattern_keys(bool all)
{
	std::vector<size_t> v;
	const size_t MX = key_max();
	auto add = [&](size_t k) { if (k <= MX && std::find(v.begin(), v.end(), k) == v.end()) v.push_back(k); };
	add(0);
	add(MX);
	unsigned bits = (unsigned)(inplace ? vs.trie_inplace_bit : vs.trie_bit);
	for (unsigned b = 0; b < bits; ++b) {
		if (!all && b > 6 && b < bits - 9 && b % 5) continue;
		add((size_t)1 << b);
		add(((size_t)1 << b) - 1);
		add(MX ^ ((size_t)1 << b));
		if (all) add(MX ^ (((size_t)1 << b) - 1));
	}
	return v;
}

JOB(trie_combos, "trie.combos")
{
	setup(p);
	bool all = p.i("all", 0) != 0;
	int k = (int)p.i("k", 2); /* different keys */
	int dup = (int)p.i("dup", 1); /* equal elements of the first key */
	long long part = p.i("part", 0), parts = p.i("parts", 1);
	std::vector<size_t> K = pattern_keys(all);
	size_t n = (size_t)(k + dup);
	keyv.assign(n, 0);
	use_nodes(T->node_size, n);
	used_struct = 2 * tstride + 256;
	used_model = 0;
	std::vector<int> ord(n), del(n);
	std::vector<size_t> idx((size_t)k, 0);
	u64 c = 0;
	/* ordered choices: the first one is the one with duplicates */
	std::function<void(int)> rec = [&](int d) {
		if (d < k) {
			for (size_t i = 0; i < K.size(); ++i) {
				bool used = false;
				for (int e = 0; e < d; ++e) used = used || idx[(size_t)e] == i;
				if (used || (d >= 2 && idx[(size_t)d - 1] > i)) continue; /* the others unordered */
				idx[(size_t)d] = i;
				rec(d + 1);
			}
			return;
		}
		if ((long long)(c++ % (u64)parts) != part || out_of_time()) return;
		for (size_t i = 0; i < n; ++i) keyv[i] = K[i < (size_t)k ? idx[i] : idx[0]];
		/* the inner memory of each set of keys */
		std::vector<size_t> base((size_t)1 << k, 0);
		bool have_base = false;
		for (size_t i = 0; i < n; ++i) ord[i] = (int)i;
		do {
			for (size_t i = 0; i < n; ++i) del[i] = (int)i;
			do {
				for (int how = 0; how < 2; ++how) {
					Ints cs;
					for (int e = 0; e < k; ++e) cs.push_back((long long)idx[(size_t)e]);
					long long o1 = 0, o2 = 0;
					for (size_t i = 0; i < n; ++i) { o1 = o1 * 10 + ord[i]; o2 = o2 * 10 + del[i]; }
					cs.push_back(o1);
					cs.push_back(o2);
					cs.push_back(how);
					if (g_replaying && cs != g_replay) continue;
					if (!have_base && !inplace && (g_prop & (C13 | C36))) {
						have_base = true;
						for (size_t s = 1; s < base.size(); ++s) {
							std::vector<u32> ids;
							for (int e = 0; e < k; ++e) if (s >> e & 1) ids.push_back((u32)e);
							base[s] = fresh_inner(ids);
						}
					}
					vf_case(cs);
					arena_reset();
					op_init();
					std::vector<u32> seq;
					auto verify = [&]() {
						verify_counts(0, seq.size());
						size_t set = 0;
						for (int e = 0; e < k && !g_pruned; ++e) {
							std::vector<u32> w;
							for (auto x : seq) if (keyv[x] == keyv[(size_t)e]) w.push_back(x);
							if (!w.empty()) set |= (size_t)1 << e;
							verify_bucket(0, keyv[(size_t)e], w.data(), w.size());
						}
						verify_alloc();
						if (!inplace && (g_prop & (C13 | C36)) && !g_pruned) CHECK(C13 | (inner[0] > base[set] ? C36 : 0), inner[0] == base[set], "%zu bytes of inner nodes and not %zu as in a new trie with the same keys", inner[0], base[set]);
					};
					for (size_t i = 0; i < n && !g_pruned; ++i) {
						op_insert(0, (size_t)ord[i]);
						seq.push_back((u32)ord[i]);
						verify();
					}
					for (size_t i = 0; i < n && !g_pruned; ++i) {
						u32 x = (u32)del[i];
						void* r;
						if (how) {
							r = op_remove(0, keyv[x]);
							long g = r ? objid(r) : -1;
							auto it = std::find_if(seq.begin(), seq.end(), [&](u32 y) { return keyv[y] == keyv[x]; });
							if (it == seq.end()) { CHECK(FUN, !r, "remove() of an absent key returns something"); continue; }
							if (g < 0 || (size_t)g >= n || keyv[(size_t)g] != keyv[x]) { vf_fail(FUN, "remove() returns object %ld", g); break; }
							CHECK(C14, *it == (u32)g, "remove() does not take the oldest element");
							x = (u32)g;
						} else {
							r = op_remove_existing(0, x);
							CHECK(FUN, r == objp(x), "remove_existing() returns another object");
						}
						node_release(x);
						seq.erase(std::find(seq.begin(), seq.end(), x));
						verify();
					}
					if (!g_pruned) op_alloc_done();
					++st.traces;
				}
			} while (std::next_permutation(del.begin(), del.end()));
		} while (std::next_permutation(ord.begin(), ord.end()));
	};
	rec(0);
	st.sample(sfmt("%zu keys, all the choices of %d and %d duplicates, all the orders of insertion and removal", K.size(), k, dup));
	st.states = st.cases;
}

/* ------------------------------------------------------------------ */
/* many elements */

size_t layout_key(int l, size_t i, size_t n)
{
	const size_t MX = key_max();
	switch (l) {
	default:
	case 0: return i;
	case 1: return MX - i;
	case 2: return (i * 0x9E3779B1u) & MX; /* spread, all different */
	case 3: return (i << 12 | i) & MX;
	case 4: { size_t r = 0; for (int b = 0; b < 20; ++b) if (i >> b & 1) r |= (size_t)1 << (31 - b); return r & MX; }
	case 5: return i / 3; /* triples */
	case 6: return 0xABCDEF12 & MX; /* all equal */
	case 7: return (i & 1) ? i : 0x80000000u & MX; /* half of them equal */
	case 8: return ((i % 64) << 26 | (i / 64)) & MX; /* round robin on the first digits */
	case 9: return (i & 1 ? MX - i / 2 : i / 2);
	case 10: (void)n; return (i % 17) * 0x01010101u & MX; /* few keys, many elements */
	}
}

JOB(trie_many, "trie.many")
{
	setup(p);
	Ints sizes = p.list("n", "1000");
	Ints layouts = p.list("l", "0-10");
	for (auto N : sizes)
		for (auto l : layouts)
			for (auto order : p.list("o", "0-5")) {
				size_t n = (size_t)N;
				if (out_of_time()) return;
				if (!vf_case({ N, l, order })) continue;
				keyv.assign(n, 0);
				for (size_t i = 0; i < n; ++i) keyv[i] = layout_key((int)l, i, n);
				use_nodes(T->node_size, n);
				used_struct = 2 * tstride + 256;
				used_model = 0;
				std::unordered_map<size_t, std::vector<u32>> by; /* stored, by key, in insertion order */
				std::vector<u32> first; /* an element of each key */
				for (size_t i = 0; i < n; ++i) if (by[keyv[i]].empty()) { by[keyv[i]].push_back(1); first.push_back((u32)i); }
				by.clear();
				size_t base_half = 0, base_full = 0;
				if (!inplace && (g_prop & (C13 | C36))) {
					std::vector<u32> half;
					std::map<size_t, u32> hk;
					for (size_t i = 0; i < n; i += 2) hk.emplace(keyv[i], (u32)i);
					for (auto& x : hk) half.push_back(x.second);
					base_half = fresh_inner(half);
					base_full = fresh_inner(first);
				}
				arena_reset();
				op_init();
				size_t cnt = 0;
				auto ins = [&](size_t i) { op_insert(0, i); by[keyv[i]].push_back((u32)i); ++cnt; };
				auto del = [&](size_t i, bool how) {
					auto& v = by[keyv[i]];
					void* r;
					u32 w;
					if (how) {
						r = op_remove(0, keyv[i]);
						w = v[0];
						long g = r ? objid(r) : -1;
						if (g < 0 || (size_t)g >= n || keyv[(size_t)g] != keyv[i]) { vf_fail(FUN, "remove() returns object %ld", g); return; }
						CHECK(C14, (u32)g == w, "remove() does not take the oldest element");
						w = (u32)g;
					} else {
						w = (u32)i;
						r = op_remove_existing(0, i);
						CHECK(FUN, r == objp(i), "remove_existing() returns another object");
					}
					node_release(w);
					if (v[0] == w) v.erase(v.begin());
					else if (v.back() == w) v.pop_back();
					else v.erase(std::find(v.begin(), v.end(), w));
					--cnt;
				};
				auto verify = [&]() {
					if (g_pruned) return;
					verify_counts(0, cnt);
					verify_alloc();
					for (auto f : first) {
						auto& v = by[keyv[f]];
						verify_bucket(0, keyv[f], v.data(), v.size());
						if (g_pruned) return;
					}
					for (size_t k : { (size_t)0, key_max(), keyv[n / 2] ^ 0x40, keyv[n - 1] ^ 0x100000 })
						if (k <= key_max() && by.find(k) == by.end()) verify_bucket(0, k, 0, 0);
				};
				for (size_t i = 0; i < n && !g_pruned; ++i) { ins(order & 1 ? n - 1 - i : i); if (i < 4 || !(i & (i + 1))) verify(); }
				verify();
				if (!inplace && (g_prop & (C13 | C36))) CHECK(C13 | (inner[0] > base_full ? C36 : 0), inner[0] == base_full, "%zu bytes of inner nodes and not %zu as in a new trie with the same keys", inner[0], base_full);
				/* half of them away and back, and all away */
				if (order >= 2) {
					for (size_t i = 1; i < n && !g_pruned; i += 2) del(order & 2 ? i : (n & ~(size_t)1) - i, false);
					verify();
					if (!inplace && (g_prop & (C13 | C36)) && !g_pruned) CHECK(C13 | (inner[0] > base_half ? C36 : 0), inner[0] == base_half, "%zu bytes of inner nodes and not %zu as in a new trie with the same keys", inner[0], base_half);
					for (size_t i = 1; i < n && !g_pruned; i += 2) ins(i);
					verify();
					if (!inplace && (g_prop & (C13 | C36)) && !g_pruned) CHECK(C13 | (inner[0] > base_full ? C36 : 0), inner[0] == base_full, "%zu bytes of inner nodes and not %zu as in a new trie with the same keys", inner[0], base_full);
				}
				for (size_t i = 0; i < n && !g_pruned; ++i) {
					size_t x = order == 0 ? i : order == 1 ? n - 1 - i : order < 4 ? (i & 1 ? n - 1 - i / 2 : i / 2) : i;
					bool how = order >= 4 || (l == 2 && (i & 1));
					if (how && by[keyv[x]].empty()) { continue; }
					del(x, how);
					if (cnt < 4 || !(cnt & (cnt - 1))) verify();
				}
				if (!g_pruned) {
					verify_counts(0, cnt);
					CHECK(C13, !inner[0], "an emptied trie holds %zu bytes of inner nodes", inner[0]);
					verify();
					op_alloc_done();
				}
				++st.traces;
			}
	st.sample(sfmt("%zu sizes x %zu key layouts x 6 orders", sizes.size(), layouts.size()));
	st.states = st.cases;
}

/* ------------------------------------------------------------------ */
/* absent keys one and two bits away from stored ones */

JOB(trie_near, "trie.near")
{
	setup(p);
	std::vector<size_t> K = pattern_keys(true);
	if (p.i("some", 0)) { std::vector<size_t> k; for (size_t i = 0; i < K.size(); i += 7) k.push_back(K[i]); K = k; }
	unsigned bits = (unsigned)(inplace ? vs.trie_inplace_bit : vs.trie_bit);
	keyv.assign(3, 0);
	use_nodes(T->node_size, 3);
	used_struct = 2 * tstride + 256;
	used_model = 0;
	for (auto key : K)
		for (int sc = 0; sc < 2 + (int)bits * 2; ++sc) {
			/* 0: alone, 1: twice, then with a second key one bit away, before and after it */
			if (out_of_time()) return;
			if (!vf_case({ (long long)key, sc })) continue;
			size_t n = sc == 0 ? 1 : sc == 1 ? 2 : 3;
			size_t other = sc < 2 ? key : key ^ ((size_t)1 << ((sc - 2) / 2));
			/* two of the first key, one of the other */
			keyv[0] = keyv[1] = key;
			keyv[2] = other;
			arena_reset();
			op_init();
			if (sc >= 2 && (sc & 1)) op_insert(0, 2);
			op_insert(0, 0);
			if (n > 1) op_insert(0, 1);
			if (sc >= 2 && !(sc & 1)) op_insert(0, 2);
			const u32 mine[2] = { 0, 1 }, its[1] = { 2 };
			auto absent = [&](size_t k) {
				if (k == key || k == other || g_pruned) return;
				verify_bucket(0, k, 0, 0);
				Hash h0, h1;
				auto img = [&](Hash& h) { h.bytes(tp(0), T->size); h.bytes(ap(), vs_alloc.size); hash_nodes(h); };
				if (g_prop & C27) img(h0);
				void* r = op_remove(0, k);
				CHECK(FUN, !r, "remove() of the absent key %zx returns object %ld", k, r ? objid(r) : -1);
				if (g_prop & C27) { img(h1); CHECK(C27, h0 == h1, "remove() of the absent key %zx changes the trie", k); }
			};
			auto verify = [&]() {
				if (g_pruned) return;
				verify_counts(0, n);
				verify_bucket(0, key, mine, n == 1 ? 1 : 2);
				if (n == 3 && !g_pruned) verify_bucket(0, other, its, 1);
			};
			verify();
			for (unsigned b = 0; b < bits && !g_pruned; ++b) {
				absent(key ^ ((size_t)1 << b));
				if (n == 3) absent(other ^ ((size_t)1 << b));
				if (n == 1) for (unsigned b2 = 0; b2 < b; ++b2) absent(key ^ ((size_t)1 << b) ^ ((size_t)1 << b2));
				if (n == 1) absent(key ^ (((size_t)2 << b) - 1));
				if (n == 1) absent(key_max() & (key ^ ~(((size_t)1 << b) - 1)));
			}
			verify();
			if (!g_pruned) {
				void* r = op_remove(0, key);
				CHECK(FUN, r == objp(0) || (n > 1 && r == objp(1)), "remove() of key %zx returns object %ld", key, r ? objid(r) : -1);
				CHECK(C14, r == objp(0), "remove() does not take the oldest element");
			}
			++st.traces;
		}
	st.sample(sfmt("%zu keys alone, twice and with every key one bit away; every key one and two bits away searched and removed", K.size()));
	st.states = st.cases;
}

/* ------------------------------------------------------------------ */
/* the deepest paths: a key with a companion diverging at every bit, and equal keys at the bottom and along it */

JOB(trie_deep, "trie.deep")
{
	setup(p);
	const size_t MX = key_max();
	unsigned bits = (unsigned)(inplace ? vs.trie_inplace_bit : vs.trie_bit);
	long long part = p.i("part", 0), parts = p.i("parts", 1);
	Ints dups = p.list("dups", "1,2,5");
	Ints orders = p.list("o", "0-4");
	bool pairs = p.i("pairs", 1) != 0;
	size_t few = (size_t)p.i("few", 0); /* first removals: only one in so many */
	Ints los = p.list("lo", "0"); /* the companions diverge at this bit or over */
	const size_t PATH[] = { 0, MX, 0x5a5a5a5a & MX, 0xcccccccc & MX, 0x0f1e2d3c & MX, 1, MX - 1, 0x80000000u & MX };
	u64 c = 0;
	for (size_t pl = 0; pl < sizeof PATH / sizeof PATH[0] * los.size(); ++pl)
		for (auto D : dups)
			for (auto order : orders)
				for (int cd = 0; cd < 2; ++cd) { /* companions with a duplicate too */
					size_t pi = pl % (sizeof PATH / sizeof PATH[0]);
					long long lo = los[pl / (sizeof PATH / sizeof PATH[0])];
					if ((long long)(c++ % (u64)parts) != part) continue;
					std::vector<size_t> comp;
					for (unsigned b = bits; b-- > (unsigned)lo;) comp.push_back(PATH[pi] ^ ((size_t)1 << b));
					std::vector<size_t> seq;
					auto me = [&](long long k) { while (k-- > 0) seq.push_back(PATH[pi]); };
					auto co = [&](bool rev) { for (size_t i = 0; i < comp.size(); ++i) { size_t k = comp[rev ? comp.size() - 1 - i : i]; seq.push_back(k); } };
					switch (order) {
					default:
					case 0: co(false); me(D); break; /* the path last: deepest */
					case 1: me(D); co(false); break;
					case 2: me(1); co(true); me(D - 1); break;
					case 3: co(true); me(D); break;
					case 4: for (size_t i = 0; i < comp.size(); ++i) { if (i == comp.size() / 2) me(D); seq.push_back(comp[i]); } break;
					}
					if (cd) co(order & 1);
					size_t n = seq.size();
					keyv = seq;
					use_nodes(T->node_size, n);
					used_struct = 2 * tstride + 256;
					used_model = 0;
					std::vector<size_t> keys = seq;
					std::sort(keys.begin(), keys.end());
					keys.erase(std::unique(keys.begin(), keys.end()), keys.end());
					size_t base = 0;
					if (!inplace && (g_prop & (C13 | C36))) {
						std::vector<u32> ids;
						for (auto k : keys) ids.push_back((u32)(std::find(seq.begin(), seq.end(), k) - seq.begin()));
						base = fresh_inner(ids);
					}
					/* first and second removal: an element (2i) or its key (2i+1) */
					for (size_t x = 0; x < 2 * n; ++x)
						for (size_t y = pairs ? 0 : 2 * n; y <= 2 * n; ++y) {
							if (out_of_time()) return;
							if (y < 2 * n && (y & 1) != (x & 1)) continue;
							if (few && x % few && x + 2 < 2 * n) continue;
							if (!vf_case({ lo, (long long)pi, D, order, cd, (long long)x, (long long)y })) continue;
							arena_reset();
							op_init();
							std::map<size_t, std::vector<u32>> by;
							size_t cnt = 0;
							auto ins = [&](size_t i) { op_insert(0, i); by[keyv[i]].push_back((u32)i); ++cnt; };
							auto ver = [&](size_t k) { auto& v = by[k]; verify_bucket(0, k, v.data(), v.size()); };
							auto del = [&](size_t what) {
								size_t i = what / 2;
								auto& v = by[keyv[i]];
								void* r;
								u32 w;
								if (what & 1) {
									r = op_remove(0, keyv[i]);
									if (v.empty()) { CHECK(FUN, !r, "remove() of an absent key returns something"); return; }
									long g = r ? objid(r) : -1;
									if (g < 0 || (size_t)g >= n || std::find(v.begin(), v.end(), (u32)g) == v.end()) { vf_fail(FUN, "remove() returns object %ld", g); return; }
									CHECK(C14, (u32)g == v[0], "remove() does not take the oldest element");
									w = (u32)g;
								} else {
									w = (u32)i;
									if (std::find(v.begin(), v.end(), w) == v.end()) return;
									r = op_remove_existing(0, i);
									CHECK(FUN, r == objp(i), "remove_existing() returns another object");
								}
								node_release(w);
								v.erase(std::find(v.begin(), v.end(), w));
								--cnt;
							};
							auto verify = [&]() {
								if (g_pruned) return;
								verify_counts(0, cnt);
								verify_alloc();
								for (auto k : keys) { if (g_pruned) return; ver(k); }
							};
							bool first = x == 0 && y == 2 * n;
							for (size_t i = 0; i < n && !g_pruned; ++i) { ins(i); if (first && !few) verify(); }
							if (!g_pruned) verify_counts(0, cnt);
							if (!inplace && (g_prop & (C13 | C36)) && !g_pruned) CHECK(C13, inner[0] == base, "%zu bytes of inner nodes and not %zu as in a new trie with the same keys", inner[0], base);
							del(x);
							if (y == 2 * n) verify();
							if (y < 2 * n && !g_pruned) { del(y); verify(); }
							/* all the others away, in the three orders in turn */
							for (size_t i = 0; i < n && !g_pruned; ++i) {
								size_t j = (x + y) % 3 == 0 ? i : (x + y) % 3 == 1 ? n - 1 - i : (i * 7 + x) % n;
								del(2 * j);
								if (y == 2 * n && !few) verify();
							}
							for (size_t i = 0; i < n && !g_pruned; ++i) del(2 * i);
							if (!g_pruned) {
								verify();
								CHECK(C13, !inner[0], "an emptied trie holds %zu bytes of inner nodes", inner[0]);
								op_alloc_done();
							}
							++st.traces;
						}
				}
	st.sample(sfmt("%zu paths with a companion at each of the %u bits, all the first and second removals", sizeof PATH / sizeof PATH[0], bits));
	st.states = st.cases;
}

}
