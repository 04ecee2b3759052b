/* Tree: C09 (ordered set), C10 (balance) and the cross-cutting ones */
#include "vf.h"
#include <cmath>
#include <climits>

namespace {

enum { OWNER = 1 };
u8* tp() { return sec_struct(); }

/* key of every object: stored ones have odd keys, the gaps between them even ones */
std::vector<long> keyv;
std::vector<u8> member; /* stored objects */
int mag; /* magnitude of the comparison results */

int shape_result(long d, long a, long b)
{
	if (!d) return 0;
	bool neg = d < 0;
	switch (mag) {
	default:
	case 0: return neg ? -1 : 1;
	case 1: return (int)d;
	case 2: return neg ? INT_MIN : INT_MAX;
	case 3: return neg ? -256 : 256;
	case 4: return neg ? -65536 : 65536;
	case 5: return neg ? -(1 << 24) : 1 << 24;
	case 6: return neg ? INT_MIN : 1;
	case 7: return neg ? -1 : INT_MAX;
	case 8: { unsigned k = (unsigned)((a * 7 + b * 13) & 31); int v = k == 31 ? INT_MAX : 1 << k; return neg ? -v : v; }
	}
}

/* ---- comparisons ---- */
const void* cb_first; /* object the operation is about */
u64 cmp_calls, coarse_calls;
std::vector<long>* cb_path; /* objects compared with */
bool in_coarse;

int tree_cb(const void* a, const void* b)
{
	++cmp_calls;
	++g_progress;
	CHECK(C28, !in_coarse, "search_compare() calls the comparison function of the tree");
	CHECK(C28, a == cb_first, "the comparison gets as first argument something else than the object of the call");
	long i = objid(a), j = objid(b);
	if (i < 0 || (size_t)i >= keyv.size()) { vf_fail(C28 | C09, "the comparison gets an unknown first object"); return 1; }
	if (j < 0 || (size_t)j >= keyv.size() || !member[(size_t)j]) { vf_fail(C28 | C09, "the comparison gets as second argument something that is not a stored object"); return 1; }
	if (cb_path) cb_path->push_back(j);
	return shape_result(keyv[(size_t)i] - keyv[(size_t)j], i, j);
}

struct Coarse { long lo, hi; } coarse_q;
const void* coarse_arg;
/* all the keys in lo..hi are equal */
int coarse_cb(const void* a, const void* b)
{
	++coarse_calls;
	++g_progress;
	CHECK(C28, a == coarse_arg, "search_compare() does not pass the argument as given");
	long j = objid(b);
	if (j < 0 || (size_t)j >= keyv.size() || !member[(size_t)j]) { vf_fail(C28 | C09, "search_compare() passes something that is not a stored object"); return 1; }
	long k = keyv[(size_t)j];
	return k < coarse_q.lo ? shape_result(1, 0, k) : k > coarse_q.hi ? shape_result(-1, 0, k) : 0;
}

u64 cmp_bound(size_t n) { return (u64)(1.45 * log2((double)n + 2)) + 1; }

/* ---- operations ---- */
void op_init()
{
	perm(tp(), vs_tree.size, OWNER);
	life_tree(tp(), OWNER);
	Op o(OWN(OWNER), OWNER, false, true);
	vs_tree.init(tp(), tree_cb);
}
void begin(size_t obj, std::vector<long>* path = 0)
{
	cb_first = objp(obj);
	cmp_calls = 0;
	cb_path = path;
	if (path) path->clear();
}
void ended(const char* what, size_t n)
{
	if (vs.is_monitored) {
		u64 max = 240 + 240 * cmp_bound(n);
		CHECK(C39, g_last_acc <= max, "%s in a tree of %zu elements makes %llu memory accesses, over %llu", what, n, (unsigned long long)g_last_acc, (unsigned long long)max);
		st.maxi("max_accesses_permille_tree", g_last_acc * 1000 / max);
	}
	CHECK(C10, cmp_calls <= cmp_bound(n), "%s in a tree of %zu elements compares with %llu of them", what, n, (unsigned long long)cmp_calls);
	cb_path = 0;
}
/* inserts an object with a node: of the same number, or not, if already there */
void* op_insert_as(size_t i, size_t obj, size_t n)
{
	node_prepare(i, OWNER);
	begin(obj);
	void* r;
	{ Op o(OWN(OWNER), OWNER, false, true); r = vs_tree.insert(tp(), nodep(i), objp(obj)); }
	ended("insert()", n);
	return r;
}
void* op_insert(size_t i, size_t n) { return op_insert_as(i, i, n); }
void* op_remove(size_t i, size_t n)
{
	begin(i);
	void* r;
	{ Op o(OWN(OWNER), OWNER, false, true); r = vs_tree.remove(tp(), objp(i)); }
	ended("remove()", n);
	return r;
}
void* op_remove_existing(size_t i, size_t n)
{
	begin(i);
	void* r;
	{ Op o(OWN(OWNER), OWNER, false, true); r = vs_tree.remove_existing(tp(), nodep(i)); }
	ended("remove_existing()", n);
	return r;
}
void* op_search(size_t i, size_t n, std::vector<long>* path = 0)
{
	begin(i, path);
	void* r;
	{ Op o(OWN(OWNER), 0, RO, true); r = vs_tree.search(tp(), objp(i)); }
	ended("search()", n);
	return r;
}
/* obj: the argument is that object, as when an object is searched in its own tree; -1: it is not an object */
void* op_coarse(long lo, long hi, size_t n, long obj = -1)
{
	static u8 args[64];
	coarse_q = Coarse{ lo, hi };
	coarse_arg = obj < 0 ? &args[(lo * 7 + hi) & 63] : objp((size_t)obj);
	coarse_calls = 0;
	in_coarse = true;
	void* r;
	{ Op o(OWN(OWNER), 0, RO, true); r = vs_tree.search_compare(tp(), coarse_cb, (void*)coarse_arg); }
	in_coarse = false;
	CHECK(C10, coarse_calls <= cmp_bound(n), "search_compare() in a tree of %zu elements compares with %llu of them", n, (unsigned long long)coarse_calls);
	return r;
}

/* ---- foreach ---- */
std::vector<long> seen;
size_t each_max;
void* each_want;
void each_cb(void* obj) { ++g_progress; if (seen.size() <= each_max) seen.push_back(objid(obj)); else vf_fail(C21 | C09, "foreach visits too many elements"); }
void each_arg_cb(void* arg, void* obj) { CHECK(C21 | C28, arg == each_want, "foreach_arg passes another argument"); each_cb(obj); }
void free_cb(void* obj) { each_cb(obj); long i = objid(obj); if (i >= 0 && (size_t)i < member.size() && member[(size_t)i]) node_release((size_t)i); }
void free_arg_cb(void* arg, void* obj) { CHECK(C21 | C28, arg == each_want, "foreach_arg passes another argument"); free_cb(obj); }
void run_foreach(int how, const long* want, size_t n)
{
	seen.clear();
	each_max = n;
	each_want = (void*)(uintptr_t)(0x1000 + how);
	{
		Op o(OWN(OWNER), 0, RO, true);
		switch (how) {
		case 0: vs_tree.foreach(tp(), each_cb); break;
		case 1: vs_tree.foreach_arg(tp(), each_arg_cb, each_want); break;
		case 2: vs_tree.foreach(tp(), free_cb); break;
		case 3: vs_tree.foreach_arg(tp(), free_arg_cb, each_want); break;
		}
	}
	linear_check("foreach()", n, 0);
	bool ok = seen.size() == n;
	for (size_t i = 0; ok && i < n; ++i) ok = seen[i] == want[i];
	CHECK(C09 | C21, ok, "foreach visits %zu elements of %zu, or not in increasing order", seen.size(), n);
}
void verify_counts(size_t n)
{
	size_t c, mu;
	{ Op o(OWN(OWNER), 0, RO, true); c = vs_tree.count(tp()); }
	linear_check("count()", 0, 0);
	CHECK(C09, c == n, "count() is %zu and not %zu", c, n);
	{ Op o(OWN(OWNER), 0, RO, true); mu = vs_tree.memory_usage(tp()); }
	linear_check("memory_usage()", 0, 0);
	obs(mu);
	CHECK(C20, mu == n * vs.node, "memory_usage() is %zu and not %zu nodes", mu, n);
	CHECK(C19, heap_blocks() == 0, "a tree holds heap memory");
}

/* the shape, from the elements each search meets; heights; balance.
 * order: objects in increasing order */
std::vector<long> sh_parent, sh_depth;
std::vector<int> sh_h[2];
void verify_shape(const long* order, size_t n, std::function<size_t(size_t)> probe)
{
	if (!(g_prop & (C09 | C10 | C28 | C31)) && n > 64) return;
	std::vector<long> path;
	sh_depth.assign(keyv.size(), 0);
	sh_parent.assign(keyv.size(), -1);
	u64 maxd = 0;
	for (size_t r = 0; r < n; ++r) {
		size_t i = (size_t)order[r];
		void* f = op_search(probe(r), n, &path);
		CHECK(C09, f == objp(i), "search() of a stored element returns object %ld and not %zu", f ? objid(f) : -1, i);
		if (g_pruned) return;
		if (path.empty() || path.back() != (long)i) { vf_fail(C10, "a search ends on another element"); return; }
		sh_depth[i] = (long)path.size();
		sh_parent[i] = path.size() > 1 ? path[path.size() - 2] : -1;
		maxd = std::max(maxd, (u64)path.size());
	}
	if (g_pruned) return;
	/* heights, deepest first */
	std::vector<size_t> byd(n);
	for (size_t r = 0; r < n; ++r) byd[r] = (size_t)order[r];
	std::sort(byd.begin(), byd.end(), [](size_t a, size_t b) { return sh_depth[a] > sh_depth[b]; });
	for (auto& h : sh_h) h.assign(keyv.size(), 0);
	for (size_t i : byd) {
		int l = sh_h[0][i], r = sh_h[1][i];
		CHECK(C10, l - r <= 1 && r - l <= 1, "an element has subtrees of heights %d and %d in a tree of %zu elements", l, r, n);
		long p = sh_parent[i];
		if (p >= 0) {
			int& h = sh_h[keyv[i] > keyv[(size_t)p]][p];
			h = std::max(h, std::max(l, r) + 1);
		}
	}
	st.maxi("max_height", maxd);
}

/* ------------------------------------------------------------------ */
/* closure: every tree reachable by inserting in any gap and removing any
 * rank, with up to N elements, up to the identity of the nodes */

struct TM { u8 n; u8 ord[40]; };

struct TreeSys : Sys {
	int N;
	bool ids; /* all the choices of nodes, no renaming */
	bool lite;
	TM& m() { return *(TM*)sec_model(); }
	size_t probe_id() { return (size_t)N; } /* an object never stored */
	void init() override { op_init(); }
	void sync()
	{
		std::fill(member.begin(), member.end(), 0);
		for (int r = 0; r < m().n; ++r) { keyv[m().ord[r]] = 2 * r + 1; member[m().ord[r]] = 1; }
	}
	int free_id()
	{
		for (int i = 0; i < N; ++i) if (!stored(i)) return i;
		return -1;
	}
	bool stored(int i) { for (int r = 0; r < m().n; ++r) if (m().ord[r] == i) return true; return false; }
	void ops(std::vector<int>& out) override
	{
		int n = m().n;
		if (n < N) {
			for (int g = 0; g <= n; ++g) {
				if (!ids) out.push_back(g);
				else for (int i = 0; i < N; ++i) if (!stored(i)) out.push_back((i + 1) << 16 | g);
			}
			for (int r = 0; r < n; ++r) out.push_back(0x300 + r);
		}
		for (int r = 0; r < n; ++r) { out.push_back(0x100 + r); out.push_back(0x200 + r); }
		for (int g = 0; g <= n; ++g) out.push_back(0x400 + g);
	}
	std::string opname(int op) override
	{
		int k = op & 255;
		switch (op >> 8 & 255) {
		case 0: return sfmt("insert(gap %d)", k);
		case 1: return sfmt("remove(rank %d)", k);
		case 2: return sfmt("remove_existing(rank %d)", k);
		case 3: return sfmt("insert(equal to rank %d)", k);
		default: return sfmt("remove(absent in gap %d)", k);
		}
	}
	void apply(int op) override
	{
		int k = op & 255;
		size_t n = m().n;
		sync();
		switch (op >> 8 & 255) {
		case 0: {
			int i = op >> 16 ? (op >> 16) - 1 : free_id();
			keyv[(size_t)i] = 2 * k;
			void* r = op_insert((size_t)i, n);
			CHECK(C09, r == objp((size_t)i), "insert() of a new element returns object %ld", r ? objid(r) : -1);
			for (int j = (int)n; j > k; --j) m().ord[j] = m().ord[j - 1];
			m().ord[k] = (u8)i;
			++m().n;
			break;
		}
		case 1: case 2: {
			size_t i = m().ord[k];
			void* r;
			if (op >> 8 == 1) {
				keyv[probe_id()] = keyv[i];
				r = op_remove(probe_id(), n);
			} else
				r = op_remove_existing(i, n);
			CHECK(C09, r == objp(i), "removal returns object %ld and not %zu", r ? objid(r) : -1, i);
			node_release(i);
			for (int j = k; j + 1 < (int)n; ++j) m().ord[j] = m().ord[j + 1];
			m().ord[n - 1] = 0;
			--m().n;
			break;
		}
		case 3: {
			int i = free_id();
			keyv[(size_t)i] = 2 * k + 1;
			Hash h0, h1;
			canon(h0);
			std::vector<u8> rest(node_size);
			mcopy(rest.data(), nodep((size_t)i), node_size);
			void* r = op_insert((size_t)i, n);
			node_release((size_t)i);
			mcopy(nodep((size_t)i), rest.data(), node_size); /* the node not inserted may have changed */
			CHECK(C09, r == objp(m().ord[k]), "insert() of an equal element returns object %ld and not the one stored, %d", r ? objid(r) : -1, m().ord[k]);
			canon(h1);
			CHECK(C09 | C27, h0 == h1, "insert() of an equal element changes the tree");
			if (g_pruned) break;
			/* the same object again, with another node */
			r = op_insert_as((size_t)i, m().ord[k], n);
			node_release((size_t)i);
			mcopy(nodep((size_t)i), rest.data(), node_size);
			CHECK(C09, r == objp(m().ord[k]), "insert() of an object already stored returns object %ld and not it, %d", r ? objid(r) : -1, m().ord[k]);
			Hash h2;
			canon(h2);
			CHECK(C09 | C27, h0 == h2, "insert() of an object already stored changes the tree");
			break;
		}
		case 4: {
			keyv[probe_id()] = 2 * k;
			Hash h0, h1;
			canon(h0);
			void* r = op_remove(probe_id(), n);
			CHECK(C09, !r, "remove() of an absent element returns object %ld", r ? objid(r) : -1);
			canon(h1);
			CHECK(C27, h0 == h1, "remove() of an absent element changes the tree");
			break;
		}
		}
	}
	void check() override
	{
		sync();
		int n = m().n;
		verify_counts((size_t)n);
		long ord[40];
		for (int r = 0; r < n; ++r) ord[r] = m().ord[r];
		run_foreach(0, ord, (size_t)n);
		run_foreach(1, ord, (size_t)n);
		if (g_pruned) return;
		verify_shape(ord, (size_t)n, [&](size_t r) { keyv[probe_id()] = 2 * (long)r + 1; return probe_id(); });
		for (int g = 0; g <= n && !g_pruned; ++g) {
			keyv[probe_id()] = 2 * g;
			void* r = op_search(probe_id(), (size_t)n);
			CHECK(C09, !r, "search() finds an absent element");
		}
		if (g_pruned || lite) return;
		for (int a = 0; a <= n && !g_pruned; ++a) {
			/* ranks a..b-1 are equal */
			for (int b = a; b <= n; ++b) {
				if (b - a > 3 && b != n) continue;
				/* whatever the argument is: also one of the stored objects, met on the way without matching */
				for (long obj : { -1L, a ? ord[a - 1] : -2L, b < n ? ord[b] : -2L }) {
					if (obj == -2) continue;
					void* r = op_coarse(2 * a, 2 * b, (size_t)n, obj);
					long i = r ? objid(r) : -1;
					if (a == b) CHECK(C09 | (obj < 0 ? 0 : C28), !r, "search_compare() finds something when nothing matches");
					else CHECK(C09 | (obj < 0 ? 0 : C28), i >= 0 && i < N && member[(size_t)i] && keyv[(size_t)i] > 2 * a && keyv[(size_t)i] < 2 * b, "search_compare() does not return a matching element");
				}
			}
		}
	}
	bool want_fini() override { return (g_prop & (C18 | C19 | C21 | C29)) != 0; }
	int finis() override { return 2; }
	void fini(int way) override
	{
		sync();
		long ord[40];
		for (int r = 0; r < m().n; ++r) ord[r] = m().ord[r];
		run_foreach(2 + way, ord, m().n);
	}
	void reperm() override
	{
		perm(tp(), vs_tree.size, OWNER);
		for (int r = 0; r < m().n; ++r) perm(nodep(m().ord[r]), node_size, OWNER);
	}
	/* words of the memory of the tree, pointers to nodes and objects renamed to ranks */
	void words(Hash& h, const u8* p, size_t n, const u8* rank)
	{
		for (size_t o = 0; o + sizeof(void*) <= n; o += sizeof(void*)) {
			uintptr_t w;
			mcopy(&w, p + o, sizeof w);
			long i = nodeid((void*)w);
			if (i >= 0 && i < N) { h.word(0x100000000ull + rank[i]); continue; }
			if (w >= (uintptr_t)sec_data() && (i = objid((void*)w)) >= 0 && i < N) { h.word(0x200000000ull + rank[i]); continue; }
			h.word(w);
		}
	}
	void canon(Hash& h) override
	{
		if (ids) { Sys::canon(h); return; }
		u8 rank[64];
		mfill(rank, 0xff, sizeof rank);
		h.word(m().n);
		for (int r = 0; r < m().n; ++r) rank[m().ord[r]] = (u8)r;
		words(h, tp(), vs_tree.size, rank);
		for (int r = 0; r < m().n; ++r) words(h, nodep(m().ord[r]), node_size, rank);
		hash_lib(h);
	}
};

JOB(tree_closure, "tree.closure")
{
	TreeSys s;
	s.N = (int)p.i("n", 12);
	s.ids = p.i("ids", 0) != 0;
	s.lite = p.i("lite", 0) != 0;
	mag = (int)p.i("mag", 0);
	keyv.assign((size_t)s.N + 1, 0);
	member.assign((size_t)s.N + 1, 0);
	use_nodes(vs.node, (size_t)s.N + 1);
	used_struct = (vs_tree.size + 63) & ~(size_t)63;
	used_model = sizeof(TM);
	bfs(s);
}

/* ------------------------------------------------------------------ */
/* runs over many elements: a build order, then a removal order; everything
 * is verified when the size is near a power of two and at the end */

size_t order_at(int o, size_t i, size_t n)
{
	switch (o) {
	default:
	case 0: return i;
	case 1: return n - 1 - i;
	case 2: return i & 1 ? n - 1 - i / 2 : i / 2; /* from both ends */
	case 3: { /* middle first: bit reversed, skipping what is over */
		return i; /* handled by the table */
	}
	}
}
void make_order(int o, size_t n, std::vector<u32>& v)
{
	v.clear();
	if (o < 3) { for (size_t i = 0; i < n; ++i) v.push_back((u32)order_at(o, i, n)); return; }
	if (o == 3) {
		unsigned b = ilog2c(n);
		for (size_t i = 0; v.size() < n; ++i) {
			size_t r = 0;
			for (unsigned k = 0; k < b; ++k) if (i >> k & 1) r |= (size_t)1 << (b - 1 - k);
			if (r < n) v.push_back((u32)r);
		}
		return;
	}
	if (o == 4) { /* sawtooth: runs of 7 descending */
		for (size_t i = 0; i < n; i += 7) for (size_t j = std::min(n, i + 7); j-- > i; ) v.push_back((u32)j);
		return;
	}
	if (o == 5) { /* from the middle outwards */
		size_t a = n / 2, b = n / 2;
		while (v.size() < n) { if (b < n) v.push_back((u32)b++); if (a > 0) v.push_back((u32)--a); }
		return;
	}
	/* pseudo random permutations, enumerated by o */
	for (size_t i = 0; i < n; ++i) v.push_back((u32)i);
	u64 x = (u64)o * 77777;
	for (size_t i = n; i > 1; --i) std::swap(v[i - 1], v[splitmix(x) % i]);
}

struct Big {
	std::vector<long> ord; /* stored, increasing */
	size_t N;
	void reset(size_t n)
	{
		N = n;
		arena_reset();
		ord.clear();
		std::fill(member.begin(), member.end(), 0);
		for (size_t i = 0; i < N; ++i) keyv[i] = 2 * (long)i + 1;
		op_init();
	}
	size_t probe(long key) { keyv[N] = key; return N; }
	size_t cnt = 0;
	void insert(size_t i)
	{
		void* r = op_insert(i, cnt);
		CHECK(C09, r == objp(i), "insert() of a new element returns object %ld", r ? objid(r) : -1);
		member[i] = 1;
		++cnt;
	}
	void insert_dup(size_t i)
	{
		keyv[N + 1] = keyv[i];
		void* r = op_insert(N + 1, cnt);
		node_release(N + 1);
		CHECK(C09, r == objp(i), "insert() of an equal element returns object %ld and not the one stored", r ? objid(r) : -1);
		r = op_insert_as(N + 1, i, cnt);
		node_release(N + 1);
		CHECK(C09, r == objp(i), "insert() of an object already stored returns object %ld and not it", r ? objid(r) : -1);
	}
	void remove(size_t i, int how)
	{
		void* r;
		if (how) r = op_remove(probe(keyv[i]), cnt);
		else r = op_remove_existing(i, cnt);
		CHECK(C09, r == objp(i), "removal returns object %ld and not %zu", r ? objid(r) : -1, i);
		member[i] = 0;
		node_release(i);
		--cnt;
	}
	void remove_absent(size_t i)
	{
		void* r = op_remove(probe(keyv[i]), cnt);
		CHECK(C09, !r, "remove() of an absent element returns object %ld", r ? objid(r) : -1);
	}
	void verify(bool gaps)
	{
		if (g_pruned) return;
		ord.clear();
		for (size_t i = 0; i < N; ++i) if (member[i]) ord.push_back((long)i);
		verify_counts(cnt);
		run_foreach(0, ord.data(), cnt);
		run_foreach(1, ord.data(), cnt);
		if (g_pruned) return;
		verify_shape(ord.data(), cnt, [&](size_t r) { return probe(keyv[(size_t)ord[r]]); });
		if (!gaps) return;
		for (size_t i = 0; i < N && !g_pruned; ++i) {
			if (!member[i]) { void* r = op_search(probe(keyv[i]), cnt); CHECK(C09, !r, "search() finds an absent element"); }
			void* r = op_search(probe(keyv[i] - 1), cnt);
			CHECK(C09, !r, "search() finds an absent element");
		}
		for (size_t w : { (size_t)1, (size_t)5, (size_t)64 })
			for (size_t i = 0; i < N && !g_pruned; i += w) {
				void* r = op_coarse(2 * (long)i, 2 * (long)(i + w), cnt, i ? (long)i - 1 : -1);
				long g = r ? objid(r) : -1;
				bool any = false;
				for (size_t j = i; j < i + w && j < N; ++j) any = any || member[j];
				CHECK(C09, any ? g >= (long)i && g < (long)(i + w) && member[(size_t)g] : !r, "search_compare() of %zu equal keys is wrong", w);
			}
	}
};

void big_setup(size_t n)
{
	keyv.assign(n + 2, 0);
	member.assign(n + 2, 0);
	use_nodes(vs.node, n + 2);
	used_struct = (vs_tree.size + 63) & ~(size_t)63;
	used_model = 0;
}

JOB(tree_runs, "tree.runs")
{
	Ints sizes = p.list("n", "0-130,255,256,257");
	Ints mags = p.list("mags", "0");
	int orders = (int)p.i("orders", 8);
	long long part = p.i("part", 0), parts = p.i("parts", 1);
	size_t mx = 0;
	for (auto s : sizes) mx = std::max(mx, (size_t)s);
	big_setup(mx);
	std::vector<u32> ins, del;
	u64 c = 0;
	for (auto mg : mags) for (auto n : sizes)
		for (int a = 0; a < orders; ++a)
			for (int b = 0; b < orders; ++b) {
				if ((long long)(c++ % (u64)parts) != part) continue;
				if (out_of_time()) return;
				if (!vf_case({ mg, n, a, b })) continue;
				mag = (int)mg;
				Big g;
				g.reset((size_t)n);
				make_order(a, (size_t)n, ins);
				make_order(b, (size_t)n, del);
				auto mile = [](size_t k) { return k <= 3 || !(k & (k - 1)); };
				for (size_t i = 0; i < ins.size() && !g_pruned; ++i) {
					g.insert(ins[i]);
					if (!(i & 7)) g.insert_dup(ins[i / 2]);
					if (b == 0 && mile(g.cnt)) g.verify(false);
				}
				if (g_pruned) continue;
				g.verify(b == 0);
				for (size_t i = 0; i < del.size() && !g_pruned; ++i) {
					g.remove(del[i], (int)(i & 1));
					if (!(i & 7)) g.remove_absent(del[i]);
					if (mile(g.cnt) || (g.cnt > 64 && !(g.cnt & (g.cnt - 1) & 0x3ff & ~15u) && (g.cnt & 15) == 0)) g.verify(false);
				}
				++st.traces;
			}
	st.sample(sfmt("%zu sizes, %d insertion orders x %d removal orders", sizes.size(), orders, orders));
	st.states = st.cases;
}

/* sparsest balanced trees: the removals that rebalance at every level.
 * kind 0: the left side is the shorter, 1: the right, 2: alternating */
void fib(int h, int kind, long base, std::vector<std::pair<int, long>>& out, int depth, size_t& size)
{
	/* returns nodes with their rank and depth; size of the tree in "size" */
	if (h <= 0) { size = 0; return; }
	int hl = h - 1, hr = h - 2;
	if (kind == 0 || (kind == 2 && (depth & 1))) std::swap(hl, hr);
	size_t sl, sr;
	fib(hl, kind, base, out, depth + 1, sl);
	out.push_back({ depth, base + (long)sl });
	fib(hr, kind, base + (long)sl + 1, out, depth + 1, sr);
	size = sl + sr + 1;
}

JOB(tree_sparse, "tree.sparse")
{
	int hmax = (int)p.i("h", 12);
	int hmin = (int)p.i("from", 1);
	long long part = p.i("part", 0), parts = p.i("parts", 1);
	size_t step = (size_t)p.i("step", 1); /* of the elements, besides the first, the last and the middle ones */
	mag = (int)p.i("mag", 0);
	std::vector<std::pair<int, long>> nd;
	size_t mx = 0;
	fib(hmax, 0, 0, nd, 0, mx);
	big_setup(mx + 1);
	for (int kind = 0; kind < 3; ++kind)
		for (int h = hmin; h <= hmax; ++h) {
			nd.clear();
			size_t sz;
			fib(h, kind, 0, nd, 0, sz);
			std::stable_sort(nd.begin(), nd.end(), [](const std::pair<int, long>& x, const std::pair<int, long>& y) { return x.first < y.first; });
			/* remove each one of them, then a second one next to it; or insert in each gap */
			for (size_t v = 0; v < sz; ++v)
				for (int op = 0; op < 3; ++op) {
					if ((long long)(v % (u64)parts) != part) continue;
					if (v % step && v > 2 && v + 3 < sz && v != sz / 2) continue;
					if (out_of_time()) return;
					if (!vf_case({ kind, h, (long long)v, op })) continue;
					Big g;
					g.reset(sz + 1);
					for (auto& x : nd) g.insert((size_t)x.second); /* level by level: no rotation */
					if (g_pruned) continue;
					if (v == 0) g.verify(false);
					if (op < 2) {
						g.remove(v, op);
						g.verify(false);
						if (op && sz > 1) { g.remove(v + 1 < sz ? v + 1 : 0, 0); g.verify(false); }
					} else {
						/* a new element just before v */
						keyv[sz] = keyv[v] - 1;
						void* r = op_insert(sz, g.cnt);
						CHECK(C09, r == objp(sz), "insert() returns another object");
						member[sz] = 1;
						++g.cnt;
						if (!g_pruned) {
							verify_counts(g.cnt);
							std::vector<long> o;
							for (size_t i = 0; i < sz; ++i) { if (i == v) o.push_back((long)sz); o.push_back((long)i); }
							run_foreach(0, o.data(), g.cnt);
							if (!g_pruned) {
								std::vector<long> keys;
								for (auto x : o) keys.push_back(keyv[(size_t)x]);
								verify_shape(o.data(), g.cnt, [&](size_t r2) { keyv[sz + 1] = keys[r2]; return sz + 1; });
							}
						}
					}
					++st.traces;
				}
		}
	st.sample(sfmt("sparsest trees of height %d to %d: every removal and insertion", hmin, hmax));
	st.states = st.cases;
}

}
