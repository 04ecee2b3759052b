/* Lists: C01 C02 C03 and the cross-cutting C18 C19 C21 C26..C31 on lists */
#include "vf.h"
#include <climits>

namespace {

enum { MAXL = 4 };

/* the comparison functions, over the identity of the objects */
enum CmpKind { CK_ID, CK_MOD2, CK_DESC, CK_MOD3, CK_EQ, CK_KEY };
CmpKind ck;
int mag; /* magnitude mode of the results */
u64 ncmp;
const std::vector<u32>* keyv; /* CK_KEY */
std::vector<u8> in_list; /* membership, for the arguments check */
bool strict_args;

int scale(int c)
{
	if (!c) return 0;
	switch (mag) {
	default: return c;
	case 1: return c < 0 ? INT_MIN : INT_MAX;
	case 2: return c * 256;
	case 3: return c * 65536;
	case 4: return c * 0x01000000;
	case 5: return c < 0 ? INT_MIN : 1;
	case 6: return c < 0 ? -1 : INT_MAX;
	case 7: return c * 0x40000000;
	}
}

long keyof(long i)
{
	switch (ck) {
	case CK_ID: return i;
	case CK_MOD2: return i % 2;
	case CK_DESC: return -i;
	case CK_MOD3: return i % 3;
	case CK_EQ: return 0;
	case CK_KEY: return (long)(*keyv)[(size_t)i];
	}
	return 0;
}

int cmp_cb(const void* a, const void* b)
{
	++ncmp;
	++g_progress;
	long x = objid(a), y = objid(b);
	if (strict_args) {
		bool ok = x >= 0 && y >= 0 && (size_t)x < in_list.size() && (size_t)y < in_list.size() && in_list[(size_t)x] && in_list[(size_t)y];
		if (!ok) {
			vf_fail(C28 | C02, "sort compares something that is not an object of the list");
			return 0;
		}
	}
	long p = keyof(x), q = keyof(y);
	return scale(p < q ? -1 : p > q ? 1 : 0);
}

std::vector<long> visited;
void* each_arg_want;
void each_cb(void* obj) { visited.push_back(objid(obj)); }
void each_arg_cb(void* arg, void* obj)
{
	if (arg != each_arg_want) vf_fail(C21 | C28, "foreach_arg passes another argument");
	visited.push_back(objid(obj));
}

u8* lp(int l) { return sec_struct() + l * 64; }
enum { OWNER = 1 };

/* compares the real list with the expected sequence, by all the means of the interface */
template<class V> void list_verify(void* l, const V& seq, size_t n, u64 m)
{
	{
		Op o(OWN(OWNER), 0, RO);
		bool e = vs_list.empty(l) != 0;
		CHECK(m, e == (n == 0), "empty() is %d with %zu elements", e, n);
		size_t c;
		{ Op o2(OWN(OWNER), 0, RO); c = vs_list.count(l); }
		linear_check("count()", n, 0);
		CHECK(m, c == n, "count() is %zu and not %zu", c, n);
		void* h = vs_list.head(l);
		void* t = vs_list.tail(l);
		if (!n) {
			CHECK(m, !h && !t, "head or tail of an empty list is not null");
		} else {
			CHECK(m, h == nodep((size_t)seq[0]), "head is node %ld and not %ld", nodeid(h), (long)seq[0]);
			CHECK(m, t == nodep((size_t)seq[n - 1]), "tail is node %ld and not %ld", nodeid(t), (long)seq[n - 1]);
		}
	}
	if (g_pruned) return;
	/* forward and backward, by the documented fields of the node */
	for (size_t i = 0; i < n; ++i) {
		u8* q = nodep((size_t)seq[i]);
		void* nx = ptr_at(q, vs.node_next);
		void* pv = ptr_at(q, vs.node_prev);
		void* da = ptr_at(q, vs.node_data);
		CHECK(m, nx == (i + 1 < n ? (void*)nodep((size_t)seq[i + 1]) : 0), "next of element %zu of %zu leads to node %ld", i, n, nodeid(nx));
		CHECK(m, pv == nodep((size_t)seq[i ? i - 1 : n - 1]), "prev of element %zu of %zu leads to node %ld", i, n, nodeid(pv));
		CHECK(m, da == objp((size_t)seq[i]), "data of element %zu is not its object", i);
		if (g_pruned) return;
	}
	visited.clear();
	{ Op o(OWN(OWNER), 0, RO); vs_list.foreach(l, each_cb); }
	linear_check("foreach()", n, 0);
	bool same = visited.size() == n;
	for (size_t i = 0; same && i < n; ++i) same = visited[i] == (long)seq[i];
	CHECK(m | C21, same, "foreach visits %zu elements, or in another order, of %zu", visited.size(), n);
	visited.clear();
	each_arg_want = (void*)(uintptr_t)0x1235;
	{ Op o(OWN(OWNER), 0, RO); vs_list.foreach_arg(l, each_arg_cb, each_arg_want); }
	linear_check("foreach_arg()", n, 0);
	same = visited.size() == n;
	for (size_t i = 0; same && i < n; ++i) same = visited[i] == (long)seq[i];
	CHECK(m | C21, same, "foreach_arg visits %zu elements, or in another order, of %zu", visited.size(), n);
}

void free_cb(void* obj)
{
	long i = objid(obj);
	if (i < 0) { vf_fail(C21, "foreach passes something that is not an object"); return; }
	visited.push_back(i);
	node_release((size_t)i);
}
void free_arg_cb(void* arg, void* obj)
{
	if (arg != each_arg_want) vf_fail(C21 | C28, "foreach_arg passes another argument");
	free_cb(obj);
}

/* ------------------------------------------------------------------ */
/* all the arrangements of n objects in k lists, closed under every operation */

struct M { u8 len[MAXL]; u8 seq[MAXL][16]; };

struct ListSys : Sys {
	int n, k;
	bool sorts;
	M& m() { return *(M*)sec_model(); }

	void init() override
	{
		for (int l = 0; l < k; ++l) {
			perm(lp(l), vs_list.size, OWNER);
			life_list(lp(l), OWNER);
			Op o(OWN(OWNER), 0, false, true);
			vs_list.init(lp(l));
		}
	}
	int where(int i) { for (int l = 0; l < k; ++l) for (int j = 0; j < m().len[l]; ++j) if (m().seq[l][j] == i) return l; return -1; }
	/* op = kind*256 + l*16 + i */
	void ops(std::vector<int>& out) override
	{
		for (int i = 0; i < n; ++i) {
			if (where(i) < 0) {
				for (int l = 0; l < k; ++l) {
					out.push_back(0x000 + l * 16 + i);
					out.push_back(0x100 + l * 16 + i);
				}
			} else
				out.push_back(0x200 + i);
		}
		for (int a = 0; a < k; ++a)
			for (int b = 0; b < k; ++b)
				if (a != b) out.push_back(0x300 + a * 16 + b);
		if (sorts)
			for (int l = 0; l < k; ++l)
				for (int c = 0; c < 4; ++c) out.push_back(0x400 + l * 16 + c);
	}
	std::string opname(int op) override
	{
		int a = op >> 4 & 15, i = op & 15;
		switch (op >> 8) {
		case 0: return sfmt("insert_head(L%d,%d)", a, i);
		case 1: return sfmt("insert_tail(L%d,%d)", a, i);
		case 2: return sfmt("remove_existing(%d)", i);
		case 3: return sfmt("concat(L%d,L%d)", a, i);
		default: return sfmt("sort(L%d,cmp%d)", a, i);
		}
	}
	void apply(int op) override
	{
		int a = op >> 4 & 15, i = op & 15;
		M& s = m();
		switch (op >> 8) {
		case 0:
		case 1: {
			node_prepare((size_t)i, OWNER);
			{
				Op o(OWN(OWNER), 0, false, true);
				if (op >> 8 == 0) vs_list.insert_head(lp(a), nodep((size_t)i), objp((size_t)i));
				else vs_list.insert_tail(lp(a), nodep((size_t)i), objp((size_t)i));
			}
			if (vs.is_monitored) { CHECK(C30, g_last_acc <= 40, "a list insert makes %llu memory accesses", (unsigned long long)g_last_acc); st.maxi("max_accesses_list_op", g_last_acc); }
			if (op >> 8 == 0) {
				for (int j = s.len[a]; j > 0; --j) s.seq[a][j] = s.seq[a][j - 1];
				s.seq[a][0] = (u8)i;
			} else
				s.seq[a][s.len[a]] = (u8)i;
			++s.len[a];
			break;
		}
		case 2: {
			int l = where(i);
			u8 before[256];
			mcopy(before, nodep((size_t)i), node_size);
			void* r;
			{
				Op o(OWN(OWNER), 0, false, true);
				r = vs_list.remove_existing(lp(l), nodep((size_t)i));
			}
			if (vs.is_monitored) { CHECK(C30, g_last_acc <= 40, "a list removal makes %llu memory accesses", (unsigned long long)g_last_acc); st.maxi("max_accesses_list_op", g_last_acc); }
			CHECK(C01, r == objp((size_t)i), "remove_existing returns another pointer");
			CHECK(C29, !mcmp(before, nodep((size_t)i), node_size), "removing an element from a list changes its node");
			node_release((size_t)i);
			int j = 0;
			while (s.seq[l][j] != i) ++j;
			for (; j + 1 < s.len[l]; ++j) s.seq[l][j] = s.seq[l][j + 1];
			s.seq[l][--s.len[l]] = 0;
			break;
		}
		case 3: {
			{
				Op o(OWN(OWNER), 0, false, true);
				vs_list.concat(lp(a), lp(i));
			}
			if (vs.is_monitored) CHECK(C30, g_last_acc <= 40, "a list concatenation makes %llu memory accesses", (unsigned long long)g_last_acc);
			for (int j = 0; j < s.len[i]; ++j) { s.seq[a][s.len[a] + j] = s.seq[i][j]; s.seq[i][j] = 0; }
			s.len[a] = (u8)(s.len[a] + s.len[i]);
			s.len[i] = 0;
			/* the second list is undefined now: scribble it and start again */
			mfill(lp(i), 0x77, vs_list.size);
			Op o(OWN(OWNER), 0, false, true);
			vs_list.init(lp(i));
			break;
		}
		default: {
			ck = (CmpKind)i;
			mag = (op & 3) * 2 + (s.len[a] & 1);
			in_list.assign((size_t)n, 0);
			for (int j = 0; j < s.len[a]; ++j) in_list[s.seq[a][j]] = 1;
			strict_args = true;
			{
				Op o(OWN(OWNER), 0, false, true);
				vs_list.sort(lp(a), cmp_cb);
			}
			std::stable_sort(s.seq[a], s.seq[a] + s.len[a], [](u8 x, u8 y) { return keyof(x) < keyof(y); });
			sorted = true;
			break;
		}
		}
		/* the operation itself is checked also when it leads to a known state */
		if (op >> 8 == 4) check_mask(C02 | C01);
		else check_mask(C01);
	}
	bool sorted = false;
	void check_mask(u64 mask)
	{
		for (int l = 0; l < k && !g_pruned; ++l)
			list_verify(lp(l), m().seq[l], m().len[l], mask);
	}
	void check() override {}
	bool want_fini() override { return (g_prop & (C18 | C19 | C21 | C29)) != 0; }
	int finis() override { return 2; }
	void fini(int way) override
	{
		/* release each element from inside the callback */
		for (int l = 0; l < k; ++l) {
			visited.clear();
			{
				Op o(OWN(OWNER), 0);
				if (way) vs_list.foreach_arg(lp(l), free_arg_cb, each_arg_want = (void*)(uintptr_t)(0x7000 + l));
				else vs_list.foreach(lp(l), free_cb);
			}
			bool same = visited.size() == m().len[l];
			for (size_t i = 0; same && i < visited.size(); ++i) same = visited[i] == m().seq[l][i];
			CHECK(C21, same, "foreach with a releasing callback visits %zu of %d elements", visited.size(), m().len[l]);
		}
	}
	void reperm() override
	{
		for (int l = 0; l < k; ++l) {
			perm(lp(l), vs_list.size, OWNER);
			for (int j = 0; j < m().len[l]; ++j) perm(nodep(m().seq[l][j]), node_size, OWNER);
		}
	}
};

JOB(list_closure, "list.closure")
{
	ListSys s;
	s.n = (int)p.i("n", 5);
	s.k = (int)p.i("k", 2);
	s.sorts = p.i("sort", 1) != 0;
	use_nodes(vs.node, (size_t)s.n);
	used_struct = 64 * MAXL;
	used_model = sizeof(M);
	bfs(s, (int)p.i("depth", 1 << 30));
}

/* ------------------------------------------------------------------ */
/* sort: one case */

std::vector<u32> keys;
std::vector<u32> expect;

/* max comparisons: N*log2(N) plus a small linear term */
u64 cmp_bound(u64 n) { return n * ilog2c(n) + 3 * n + 4; }

void sort_setup(size_t n)
{
	/* insert in order, without going through the explorer */
	arena_reset();
	perm(lp(0), vs_list.size, OWNER);
	{ Op o(OWN(OWNER), 0, false, true); vs_list.init(lp(0)); }
	for (size_t i = 0; i < n; ++i) {
		node_prepare(i, OWNER);
		Op o(OWN(OWNER), 0, false, true);
		vs_list.insert_tail(lp(0), nodep(i), objp(i));
	}
}

/* sorts the list with keys[] (one for each object, in list order), verifies the outcome and the cost */
void sort_case(int magmode, bool linear)
{
	size_t n = keys.size();
	sort_setup(n);
	ck = CK_KEY;
	keyv = &keys;
	mag = magmode;
	in_list.assign(n, 1);
	strict_args = true;
	ncmp = 0;
	{
		Op o(OWN(OWNER), 0, false, true);
		vs_list.sort(lp(0), cmp_cb);
	}
	u64 c = ncmp;
	if (vs.is_monitored) {
		u64 max = 1000 + 24 * (u64)n * (ilog2c(n) + 3);
		CHECK(C39, g_last_acc <= max, "sorting %zu elements makes %llu memory accesses, over %llu", n, (unsigned long long)g_last_acc, (unsigned long long)max);
		st.maxi("max_accesses_permille_sort()", g_last_acc * 1000 / max);
		if (linear) {
			max = 1000 + 12 * (u64)n;
			CHECK(C39, g_last_acc <= max, "sorting %zu elements in order or reversed makes %llu memory accesses, over %llu", n, (unsigned long long)g_last_acc, (unsigned long long)max);
			st.maxi("max_accesses_permille_sort_ordered", g_last_acc * 1000 / max);
		};
	}
	++st.traces;
	CHECK(C03, c <= cmp_bound(n), "sorting %zu elements takes %llu comparisons, over %llu", n, (unsigned long long)c, (unsigned long long)cmp_bound(n));
	if (linear) CHECK(C03, c <= 3 * n + 2, "sorting %zu elements already in order, equal or reversed takes %llu comparisons", n, (unsigned long long)c);
	if (n >= 2) st.maxi("max_comparisons_permille_of_bound", c * 1000 / cmp_bound(n));
	if (n >= 2) CHECK(C02, c >= n - 1, "sorting %zu elements with only %llu comparisons cannot be right", n, (unsigned long long)c);
	/* counting sort would do, but keep it boring */
	expect.resize(n);
	for (size_t i = 0; i < n; ++i) expect[i] = (u32)i;
	std::stable_sort(expect.begin(), expect.end(), [](u32 a, u32 b) { return keys[a] < keys[b]; });
	list_verify(lp(0), expect, n, C01 | C02);
	if (g_pruned) return;
	/* the list stays usable: remove the head, the tail and one in the middle, insert at both ends */
	if (n && n <= 64) {
		for (int r = 0; r < 3 && !expect.empty(); ++r) {
			size_t pos = r == 0 ? 0 : r == 1 ? expect.size() - 1 : expect.size() / 2;
			size_t i = expect[pos];
			void* d;
			{ Op o(OWN(OWNER), 0, false, true); d = vs_list.remove_existing(lp(0), nodep(i)); }
			CHECK(C02 | C01, d == objp(i), "remove_existing after sort returns another pointer");
			expect.erase(expect.begin() + (ptrdiff_t)pos);
			{
				Op o(OWN(OWNER), 0, false, true);
				if (r & 1) { vs_list.insert_head(lp(0), nodep(i), objp(i)); }
				else { vs_list.insert_tail(lp(0), nodep(i), objp(i)); }
			}
			if (r & 1) expect.insert(expect.begin(), (u32)i); else expect.push_back((u32)i);
		}
		list_verify(lp(0), expect, expect.size(), C01 | C02);
	}
}

void sort_mem(size_t n)
{
	use_nodes(vs.node, n ? n : 1);
	used_struct = 64 * MAXL;
	used_model = 0;
}

bool is_linear(const std::vector<u32>& v)
{
	bool up = true, down = true;
	for (size_t i = 1; i < v.size(); ++i) {
		if (v[i] < v[i - 1]) up = false;
		if (v[i] >= v[i - 1]) down = false;
	}
	return up || down;
}

/* all the weak orderings (arrangements of different and equal keys) of n elements */
JOB(sort_weak, "sort.weak")
{
	for (long long n : p.list("n", "0-7")) {
		sort_mem((size_t)n);
		std::vector<u32> v((size_t)n, 0);
		int magn = (int)p.i("mags", 1);
		u32 part = (u32)p.i("part", 0), parts = (u32)p.i("parts", 1);
		/* enumerate the sequences over 0..n-1 that use exactly the values 0..max */
		std::function<void(size_t)> rec = [&](size_t i) {
			if (out_of_time()) return;
			if (i == (size_t)n) {
				u32 mx = 0;
				u32 used = 0;
				for (u32 x : v) { mx = std::max(mx, x); used |= 1u << x; }
				if (n && used != (2u << mx) - 1) return;
				Ints c;
				c.push_back(n);
				u64 h = 0;
				for (u32 x : v) { c.push_back(x); h = h * 31 + x; }
				for (int mm = 0; mm < magn; ++mm) {
					int mg = magn > 1 ? mm : (int)(h % 8);
					Ints cc = c;
					cc.push_back(mg);
					if (!vf_case(cc)) continue;
					keys = v;
					sort_case(mg, is_linear(v));
				}
				return;
			}
			u32 used = 0, mx = 0;
			for (size_t j = 0; j < i; ++j) { used |= 1u << v[j]; mx = std::max(mx, v[j]); }
			for (u32 x = 0; x < (u32)n; ++x) {
				u32 m2 = std::max(mx, x);
				u32 missing = (u32)__builtin_popcount(~(used | 1u << x) & ((2u << m2) - 1));
				if (missing > (u32)n - 1 - (u32)i) continue;
				if (parts > 1 && i == 2 && (v[0] * 131 + v[1] * 17 + x) % parts != part) continue;
				v[i] = x;
				rec(i + 1);
			}
		};
		rec(0);
		if (n) { std::string s = "sort keys"; for (u32 x : keys) s += " " + std::to_string(x); st.sample(s); }
	}
	st.states = st.cases;
}

/* all the sequences over a small alphabet */
JOB(sort_alpha, "sort.alpha")
{
	u32 a = (u32)p.i("a", 2);
	long long from = p.i("from", 0), to = p.i("n", 14);
	sort_mem((size_t)to);
	for (long long n = from; n <= to; ++n) {
		u64 tot = 1;
		for (int i = 0; i < n; ++i) tot *= a;
		for (u64 x = 0; x < tot; ++x) {
			if ((x & 255) == 0 && out_of_time()) break;
			if (!vf_case({ n, (long long)x })) continue;
			keys.resize((size_t)n);
			u64 y = x;
			for (auto& q : keys) { q = (u32)(y % a); y /= a; }
			sort_case((int)(x % 8), is_linear(keys));
		}
		std::string s = "sort keys";
		for (u32 x : keys) s += " " + std::to_string(x);
		st.sample(s);
	}
	st.states = st.cases;
}

/* structured shapes for a length */
const int NSHAPE = 26;
void shape(int s, size_t n)
{
	keys.assign(n, 0);
	u64 r = n * 131 + (u64)s;
	for (size_t i = 0; i < n; ++i) {
		u32 v = 0;
		switch (s) {
		case 0: v = (u32)i; break; /* ordered */
		case 1: v = (u32)(n - i); break; /* reversed */
		case 2: v = 7; break; /* equal */
		case 3: v = (u32)(i * 2 < n ? i : n - i); break; /* up and down */
		case 4: v = (u32)(i * 2 < n ? n - i : i); break; /* down and up */
		case 5: v = (u32)(i % 2); break;
		case 6: v = (u32)(i % 2 ? i : n - i); break; /* interleaved runs */
		case 7: v = (u32)((i + n / 2) % (n ? n : 1)); break; /* rotated */
		case 8: v = (u32)((i + 1) % (n ? n : 1)); break; /* rotated by one: the smallest last */
		case 9: v = (u32)(i ? i : n); break; /* the biggest first */
		case 10: v = (u32)(splitmix(r) % (n + 1)); break; /* scrambled */
		case 11: v = (u32)(splitmix(r) % 3); break; /* scrambled, few values */
		case 12: v = (u32)(n - i) / 2; break; /* reversed with pairs of equal elements */
		case 13: v = (u32)(i / 3); break; /* ordered with equal elements */
		case 14: { u32 b = 0; for (int k = 0; k < 20; ++k) if (i >> k & 1) b |= 1u << (19 - k); v = b; break; } /* bit reversal: worst merges */
		case 15: v = (u32)(i ^ 1); break; /* swapped pairs */
		case 16: v = (u32)(i % 16 * 1000 + i / 16); break; /* many runs */
		case 17: v = (u32)((i / 8) * 8 + (7 - i % 8)); break; /* reversed blocks */
		case 18: v = (u32)(i == n / 2 ? 0 : i + 1); break; /* one displaced */
		case 19: v = (u32)(i == n / 3 ? n + 1 : i); break;
		case 20: v = (u32)(i & (i >> 1)); break;
		case 21: v = (u32)(i * 7919 % (n + 1)); break;
		case 22: v = (u32)(i % 4 == 0); break;
		case 23: v = (u32)(splitmix(r) & 1 ? 0 : i); break; /* ordered and minimal ones mixed */
		case 24: v = (u32)((n - i) % 5); break;
		case 25: v = (u32)(i + (splitmix(r) % 5)); break; /* nearly ordered */
		}
		keys[i] = v;
	}
}

JOB(sort_shapes, "sort.shapes")
{
	Ints ns = p.list("n", "0-300");
	size_t mx = 1;
	for (auto n : ns) mx = std::max(mx, (size_t)n);
	sort_mem(mx);
	long long part = p.i("part", 0), parts = p.i("parts", 1);
	for (auto n : ns) {
		if (n % parts != part) continue;
		if (out_of_time()) break;
		use_nodes(node_size, (size_t)(n ? n : 1));
		for (int s = 0; s < NSHAPE; ++s) {
			if (!vf_case({ n, s })) continue;
			vf_case_text(sfmt("sort of %lld elements, shape %d", n, s));
			shape(s, (size_t)n);
			sort_case((int)((n + s) % 8), is_linear(keys));
		}
		if (n && n % 97 == 0) st.sample(sfmt("sort of %lld elements in %d shapes", n, NSHAPE));
	}
	st.sample(sfmt("sort of up to %zu elements in %d shapes", mx, NSHAPE));
	st.states = st.cases;
}

/* one element moved from any position to any other, in an ordered or reversed list, of any length */
JOB(sort_displaced, "sort.displaced")
{
	long long to = p.i("n", 40), from = p.i("from", 2);
	sort_mem((size_t)to);
	for (long long n = from; n <= to; ++n)
		for (int rev = 0; rev < 3; ++rev)
			for (long long a = 0; a < n; ++a)
				for (long long b = 0; b < n; ++b) {
					if (a == b) continue;
					if (!vf_case({ n, rev, a, b })) continue;
					std::vector<u32> v;
					for (long long i = 0; i < n; ++i) v.push_back((u32)(rev == 1 ? n - i : rev == 2 ? i / 2 : i));
					u32 x = v[(size_t)a];
					v.erase(v.begin() + a);
					v.insert(v.begin() + b, x);
					keys = v;
					use_nodes(node_size, (size_t)n);
					sort_case((int)((a + b) % 8), is_linear(keys));
				}
	st.sample(sfmt("one element displaced from any to any position, up to %lld elements", to));
	st.states = st.cases;
}

/* a list as the concatenation of two or three lists, then sorted: runs of any lengths */
JOB(sort_runs, "sort.runs")
{
	long long to = p.i("n", 24);
	sort_mem((size_t)to * 3);
	for (long long a = 0; a <= to; ++a)
		for (long long b = 0; b <= to; ++b)
			for (int pat = 0; pat < 9; ++pat) {
				if (!vf_case({ a, b, pat })) continue;
				keys.clear();
				for (long long i = 0; i < a; ++i) keys.push_back((u32)(pat % 3 == 0 ? i * 2 : pat % 3 == 1 ? (a - i) * 2 : 9));
				for (long long i = 0; i < b; ++i) keys.push_back((u32)(pat / 3 == 0 ? i * 2 : pat / 3 == 1 ? (b - i) * 2 + 1 : i));
				use_nodes(node_size, (size_t)(a + b + 1));
				sort_case((int)((a * 3 + b) % 8), is_linear(keys));
			}
	st.sample(sfmt("two runs of up to %lld elements, 9 patterns", to));
	st.states = st.cases;
}

/* list operations on big lists: constant number of accesses, right outcome */
JOB(list_big, "list.big")
{
	Ints ns = p.list("n", "1,2,3,10,100,1000,65536");
	size_t mx = 1;
	for (auto n : ns) mx = std::max(mx, (size_t)n);
	use_nodes(vs.node, 2 * mx + 2);
	used_struct = 64 * MAXL;
	used_model = 0;
	for (auto nn : ns)
		for (int mode = 0; mode < 3; ++mode) {
			if (!vf_case({ nn, mode })) continue;
			size_t n = (size_t)nn;
			use_nodes(node_size, (2 * n + 2));
			arena_reset();
			for (int l = 0; l < 2; ++l) { perm(lp(l), vs_list.size, OWNER); life_list(lp(l), OWNER); Op o(OWN(OWNER), 0, false, true); vs_list.init(lp(l)); }
			std::vector<u32> a, b;
			auto ins = [&](int l, u32 i, bool head) {
				node_prepare(i, OWNER);
				{ Op o(OWN(OWNER), 0, false, true); if (head) vs_list.insert_head(lp(l), nodep(i), objp(i)); else vs_list.insert_tail(lp(l), nodep(i), objp(i)); }
				if (vs.is_monitored) { CHECK(C30, g_last_acc <= 40, "a list insert in a list of %zu elements makes %llu memory accesses", n, (unsigned long long)g_last_acc); st.maxi("max_accesses_list_op", g_last_acc); }
			};
			for (u32 i = 0; i < n; ++i) ins(0, i, mode == 1);
			for (u32 i = 0; i < n; ++i) a.push_back(mode == 1 ? (u32)n - 1 - i : i);
			for (u32 i = 0; i < n; ++i) { ins(1, (u32)n + i, false); b.push_back((u32)n + i); }
			list_verify(lp(0), a, n, C01);
			{ Op o(OWN(OWNER), 0, RO); vs_list.head(lp(0)); vs_list.tail(lp(0)); vs_list.empty(lp(0)); }
			if (vs.is_monitored) CHECK(C30, g_last_acc <= 40, "head/tail/empty of a list of %zu elements make %llu memory accesses", n, (unsigned long long)g_last_acc);
			{ Op o(OWN(OWNER), 0, false, true); vs_list.concat(lp(0), lp(1)); }
			if (vs.is_monitored) CHECK(C30, g_last_acc <= 40, "concatenating lists of %zu elements makes %llu memory accesses", n, (unsigned long long)g_last_acc);
			a.insert(a.end(), b.begin(), b.end());
			mfill(lp(1), 0x77, vs_list.size);
			list_verify(lp(0), a, a.size(), C01);
			/* remove from the tail, from the head, or every other one; iterating meanwhile */
			std::vector<u32> left;
			for (size_t i = 0; i < a.size(); ++i) {
				size_t x = mode == 0 ? a.size() - 1 - i : i;
				if (mode == 2 && (i & 1)) { left.push_back(a[x]); continue; }
				u8 before[256];
				mcopy(before, nodep(a[x]), node_size);
				void* r;
				{ Op o(OWN(OWNER), 0, false, true); r = vs_list.remove_existing(lp(0), nodep(a[x])); }
				if (vs.is_monitored) CHECK(C30, g_last_acc <= 40, "a removal from a list of %zu elements makes %llu memory accesses", n, (unsigned long long)g_last_acc);
				CHECK(C01, r == objp(a[x]), "remove_existing returns another pointer");
				CHECK(C29, !mcmp(before, nodep(a[x]), node_size), "removing an element from a list changes its node");
				node_release(a[x]);
			}
			list_verify(lp(0), left, left.size(), C01);
			++st.traces;
		}
	st.sample(sfmt("insert, concat and remove with lists of up to %zu elements", mx));
	st.states = st.cases;
}

}
