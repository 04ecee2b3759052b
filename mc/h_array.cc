/* Arrays: C16 C17 and the cross-cutting ones */
#include "vf.h"
#include <sys/mman.h>
#include <sys/resource.h>

namespace {

enum { OWNER = 1 };
const vs_array_ops* A;
size_t es; /* element size */
u8* tp() { return sec_struct(); }
u64 cum_cost, cum_ops, cum_elem; /* accesses and number of the calls that grow, elements they added */
void cost_of(size_t added)
{
	cum_cost += g_last_acc;
	++cum_ops;
	cum_elem += added;
	u64 max = 4096 + 60 * cum_ops + 4 * (cum_elem + 4096) * ((es + sizeof(void*) - 1) / sizeof(void*));
	CHECK(C35, cum_cost <= max, "%llu calls adding %llu elements make %llu memory accesses, over %llu", (unsigned long long)cum_ops, (unsigned long long)cum_elem, (unsigned long long)cum_cost, (unsigned long long)max);
	if (cum_ops >= 1000) st.maxi("max_accesses_per_call", cum_cost / cum_ops);
}

void op_init(size_t element)
{
	es = A->is_of ? element : sizeof(void*);
	perm(tp(), A->size, OWNER);
	life_array(*A, tp(), es, OWNER);
	Op o(OWN(OWNER), OWNER);
	A->init(tp(), es);
	cum_cost = cum_ops = cum_elem = 0;
}
void op_grow(size_t n, size_t have)
{
	u64 h, ma;
	{
		Op o(OWN(OWNER), OWNER);
		A->grow(tp(), n);
		h = o.frees() + o.reallocs();
		ma = o.mallocs();
	}
	cost_of(n > have ? n - have : 0);
	CHECK(C17, !h, "growing releases or reallocates heap memory");
	if (n <= have) CHECK(C16 | C27 | C17, !ma, "growing to a smaller or equal size takes heap memory");
}
/* insert() exists in the arrays of pointers only; the others grow by one and use the reference */
void op_insert(size_t have, const void* v)
{
	if (!A->insert) { op_grow(have + 1, have); return; }
	u64 h;
	{
		Op o(OWN(OWNER), OWNER);
		A->insert(tp(), (void*)v);
		h = o.frees() + o.reallocs();
	}
	cost_of(1);
	CHECK(C17, !h, "insert() releases or reallocates heap memory");
}
u8* op_ref(size_t i)
{
	u8* p;
	{ Op o(OWN(OWNER), 0, RO); p = (u8*)A->ref(tp(), i); }
	if (vs.is_monitored) {
		CHECK(C30, g_last_acc <= 40, "an element access makes %llu memory accesses", (unsigned long long)g_last_acc);
		st.maxi("max_accesses", g_last_acc);
	}
	return p;
}
size_t op_size() { Op o(OWN(OWNER), 0, RO); return A->count(tp()); }
void op_done()
{
	size_t room = heap_live() / sizeof(void*);
	{ Op o(OWN(OWNER), 0); A->done(tp()); }
	linear_check("done()", 0, room);
	CHECK(C18, heap_blocks() == 0, "done() leaves %zu heap blocks", heap_blocks());
	perm(tp(), A->size, 0);
}
u8 pat(size_t i, u32 ver, size_t k) { u64 x = (i + 1) * 0x9E3779B97F4A7C15ull + ver * 0x1000193u + k * 131; return (u8)(x >> 56 ^ x >> 24 ^ x) | 1; }
u64 patp(size_t i, u32 ver) { u64 x = (i + 1) * 0x9E3779B97F4A7C15ull + ver * 0x1000193u; return (x ^ x >> 29) | 1; }

struct Model {
	size_t n = 0;
	u32 ver = 0;
	std::unordered_map<size_t, u32> val; /* version stored at a position, absent: never */
	std::unordered_map<size_t, u8*> addr; /* address seen */
};

void store(Model& m, size_t i)
{
	u32 v = ++m.ver;
	m.val[i] = v;
	if (A->set && (v & 1)) {
		void* w = (void*)(uintptr_t)patp(i, v);
		Op o(OWN(OWNER), 0);
		A->set(tp(), i, w);
		return;
	}
	u8* p = op_ref(i);
	if (!heap_in_block(p, es)) { vf_fail(C16 | C17 | C18, "element %zu is not inside the memory of the array", i); g_pruned = true; return; }
	if (A->set) { uintptr_t w = (uintptr_t)patp(i, v); mcopy(p, &w, sizeof w); }
	else for (size_t k = 0; k < es; ++k) p[k] = pat(i, v, k);
}
void verify_at(Model& m, size_t i)
{
	u8* p = op_ref(i);
	if (!heap_in_block(p, es)) { vf_fail(C17 | C18 | C16, "element %zu of %zu is not inside the memory of the array", i, m.n); g_pruned = true; return; }
	auto a = m.addr.emplace(i, p);
	CHECK(C17, a.first->second == p, "the address of element %zu changes", i);
	auto v = m.val.find(i);
	if (A->set) {
		uintptr_t w = v == m.val.end() ? 0 : (uintptr_t)patp(i, v->second), g;
		mcopy(&g, p, sizeof g);
		CHECK(C16, g == w, "element %zu of %zu reads %zx and not %zx", i, m.n, (size_t)g, (size_t)w);
		void* q;
		{ Op o(OWN(OWNER), 0, RO); q = A->get(tp(), i); }
		CHECK(C16, (uintptr_t)q == w, "get() of element %zu returns %zx and not %zx", i, (size_t)(uintptr_t)q, (size_t)w);
	} else {
		for (size_t k = 0; k < es; ++k) {
			u8 w = v == m.val.end() ? 0 : pat(i, v->second, k);
			if (p[k] != w) { vf_fail(C16, "byte %zu of element %zu of %zu reads %u and not %u", k, i, m.n, p[k], w); return; }
		}
	}
}
void verify(Model& m, const std::vector<size_t>& probes)
{
	size_t c = op_size(), mu;
	CHECK(C16, c == m.n, "the size is %zu and not %zu", c, m.n);
	{ Op o(OWN(OWNER), 0, RO); mu = A->memory_usage(tp()); }
	obs(mu);
	bool blk = A->name[5] == 'b'; /* in blocks of 4096 elements, with an array of them */
	u64 nb = (m.n + 4095) / 4096;
	u64 cap = blk ? nb * 4096 * es + std::max((u64)64, 2 * nb) * sizeof(void*) : std::max((u64)64, 2 * (u64)m.n) * es;
	CHECK(C36, heap_live() <= cap, "%zu bytes of heap for %zu elements of %zu, over %llu", heap_live(), m.n, es, (unsigned long long)cap);
	if (m.n > 5000) st.maxi("max_heap_percent_of_elements", (u64)((double)heap_live() * 100 / ((double)m.n * (double)es)));
	CHECK(C20, mu == heap_live(), "memory_usage() is %zu and not %zu", mu, heap_live());
	for (size_t i : probes) {
		if (i >= m.n || g_pruned) break;
		verify_at(m, i);
	}
	if (m.n && !g_pruned) verify_at(m, m.n - 1);
}
/* all the elements are disjoint */
void verify_disjoint(Model& m)
{
	std::vector<u8*> v(m.n);
	for (size_t i = 0; i < m.n; ++i) v[i] = op_ref(i);
	for (auto p : v) if (!heap_in_block(p, es)) { vf_fail(C16 | C17 | C18, "an element is not inside the memory of the array"); return; }
	std::sort(v.begin(), v.end());
	for (size_t i = 1; i < v.size(); ++i)
		if (v[i] < v[i - 1] + es) { vf_fail(C17 | C16, "two elements overlap"); return; }
}

void setup(const Params& p)
{
	std::string s = p.s("t", "array");
	A = 0;
	for (auto& a : vs_array) if (s == a.name) A = &a;
	if (!A) { fprintf(stderr, "unknown array\n"); exit(3); }
	used_struct = (A->size + 63) & ~(size_t)63;
	used_model = 0;
	use_nodes(64, 0);
}

std::vector<size_t> probes_for(size_t max, bool all)
{
	std::vector<size_t> v;
	if (all) { for (size_t i = 0; i < max; ++i) v.push_back(i); return v; }
	for (size_t i = 0; i < 4 && i < max; ++i) v.push_back(i);
	for (size_t b = 4; b <= max; b *= 2)
		for (size_t d = 0; d < 5; ++d) if (b + d - 2 < max) v.push_back(b + d - 2);
	for (size_t b = 4096; b <= max; b += (max / 4096 / 6 + 1) * 4096)
		for (size_t d = 0; d < 3; ++d) if (b + d - 1 < max) v.push_back(b + d - 1);
	std::sort(v.begin(), v.end());
	v.erase(std::unique(v.begin(), v.end()), v.end());
	return v;
}

/* ------------------------------------------------------------------ */
/* all the sequences of "depth" calls out of: grow to each size, insert, store */

JOB(array_seq, "array.seq")
{
	setup(p);
	Ints sizes = p.list("sizes", "0,1,2,63,64,65,66,127,128,129,255,256,257");
	int depth = (int)p.i("depth", 3);
	Ints els = p.list("es", "1,3,8,24");
	if (!A->is_of) els = Ints{ (long long)sizeof(void*) };
	size_t mx = 0;
	for (auto s : sizes) mx = std::max(mx, (size_t)s);
	mx += (size_t)depth;
	std::vector<size_t> probes = probes_for(mx, mx < 700);
	const int INS = (int)sizes.size(), ST_ALL = INS + 1, ST_ENDS = INS + 2, NOPS = INS + 3;
	std::vector<int> seq((size_t)depth);
	for (auto e : els) {
		std::function<void(int)> rec = [&](int d) {
			if (out_of_time()) return;
			if (d < depth) { for (int o = 0; o < NOPS; ++o) { seq[(size_t)d] = o; rec(d + 1); } return; }
			Ints c = { e };
			for (auto o : seq) c.push_back(o);
			if (!vf_case(c)) return;
			if (g_replaying) {
				std::string s = sfmt("elements of %lld bytes:", e);
				for (auto o : seq) s += o < INS ? sfmt(" grow(%lld)", sizes[(size_t)o]) : o == INS ? " insert" : o == ST_ALL ? " store everywhere" : " store at the ends";
				vf_case_text(s);
			}
			arena_reset();
			op_init((size_t)e);
			Model m;
			verify(m, probes);
			for (auto o : seq) {
				if (g_pruned) break;
				if (o < INS) {
					Hash h0, h1;
					bool noop = (size_t)sizes[(size_t)o] <= m.n;
					if (noop) { h0.bytes(sec_struct(), used_struct); hash_heap(h0); }
					op_grow((size_t)sizes[(size_t)o], m.n);
					if (noop) { h1.bytes(sec_struct(), used_struct); hash_heap(h1); CHECK(C27, h0 == h1, "growing to a smaller or equal size changes the array"); }
					m.n = std::max(m.n, (size_t)sizes[(size_t)o]);
				} else if (o == INS) {
					if (A->insert) { m.val[m.n] = ++m.ver; op_insert(m.n, (void*)(uintptr_t)patp(m.n, m.ver)); ++m.n; }
					else { op_insert(m.n, 0); ++m.n; if (op_size() == m.n) store(m, m.n - 1); else { vf_fail(C16, "growing by one gives size %zu and not %zu", op_size(), m.n); break; } }
				} else if (o == ST_ALL) {
					for (size_t i : probes) if (i < m.n && !g_pruned) store(m, i);
				} else if (m.n) {
					store(m, 0);
					if (!g_pruned) store(m, m.n - 1);
					if (!g_pruned) store(m, m.n / 2);
				}
				if (!g_pruned) verify(m, probes);
			}
			if (!g_pruned && m.n <= 600) verify_disjoint(m);
			if (!g_pruned) op_done();
			++st.traces;
		};
		rec(0);
	}
	st.sample(sfmt("%s: all the sequences of %d calls out of %d", A->name, depth, NOPS));
	st.states = st.cases;
}

/* ------------------------------------------------------------------ */
/* element by element up to n, everything verified at the powers of two, all the elements disjoint */

JOB(array_many, "array.many")
{
	setup(p);
	Ints els = p.list("es", "1,2,3,4,5,7,8,12,16,24,31,33,64,100");
	if (!A->is_of) els = Ints{ (long long)sizeof(void*) };
	for (auto n : p.list("n", "1100"))
		for (auto e : els)
			for (int step : { 1, 7, 1000 }) {
				if (out_of_time()) return;
				if (!vf_case({ n, e, step })) continue;
				arena_reset();
				op_init((size_t)e);
				Model m;
				std::vector<size_t> probes = probes_for((size_t)n, false);
				std::vector<size_t> all;
				while (m.n < (size_t)n && !g_pruned) {
					size_t from = m.n;
					bool ins = step == 1 && A->insert;
					if (ins) {
						m.val[from] = ++m.ver;
						op_insert(from, (void*)(uintptr_t)patp(from, m.ver));
					} else op_grow(std::min((size_t)n, m.n + (size_t)step), m.n);
					m.n = std::min((size_t)n, m.n + (size_t)step);
					size_t have = op_size();
					if (have != m.n) { vf_fail(C16, "the size is %zu and not %zu", have, m.n); break; }
					if (ins) verify_at(m, from);
					/* what was already there still reads the same, the new ones read zero, then get a value */
					for (size_t i = from; i < m.n && !g_pruned; ++i) {
						if (n < 20000 || i < 200 || !((i + 3) & 0xff8)) { all.push_back(i); if (!ins) verify_at(m, i); if (!g_pruned && (!ins || (i & 1))) store(m, i); }
					}
					if (!(m.n & (m.n - 1)) || m.n < 5 || !((m.n - 1) & (m.n - 2))) { if (!g_pruned) verify(m, m.n < 5000 ? all : probes); }
				}
				if (!g_pruned) verify(m, all);
				if (!g_pruned) verify_disjoint(m);
				if (!g_pruned) op_done();
				++st.traces;
			}
	st.states = st.cases;
}

/* ------------------------------------------------------------------ */
/* sizes over 2^32 elements: virtual memory only */

JOB(array_huge, "array.huge")
{
	setup(p);
	Ints els = p.list("es", "1");
	if (!A->is_of) els = Ints{ (long long)sizeof(void*) };
	int maxbit = (int)p.i("bits", 33), frombit = (int)p.i("from", 24);
	if (sizeof(void*) == 4 && maxbit > 20) { st.notes.push_back("sizes over 2^20 only in the 64 bit builds"); maxbit = 20; }
	size_t want = ((size_t)1 << (maxbit + 1)) * (size_t)std::max(*std::max_element(els.begin(), els.end()), (long long)8);
	void* q = mmap(0, want, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (q == MAP_FAILED) { st.notes.push_back("not enough virtual memory here: skipped"); st.exhaustive = false; return; }
	munmap(q, want);
	for (auto e : els)
		for (int b = frombit; b <= maxbit; ++b)
			for (int d = -1; d <= 1; ++d) {
				if (out_of_time()) return;
				struct rusage ru;
				getrusage(RUSAGE_SELF, &ru);
				if (ru.ru_maxrss > 1 << 20) { /* KiB; it should take address space only */
					if (st.notes.empty()) st.notes.push_back("growing writes all the memory: the largest sizes are skipped");
					st.exhaustive = false;
					return;
				}
				if (!vf_case({ e, b, d })) continue;
				size_t n = ((size_t)1 << b) + (size_t)d;
				arena_reset();
				op_init((size_t)e);
				Model m;
				std::vector<size_t> probes = probes_for(n, false);
				/* in some steps, the elements of the previous ones stored */
				for (size_t to : { (size_t)2, n / 3, n / 2 + 1, n - 1, n }) {
					if (g_pruned) break;
					size_t from = m.n;
					op_grow(to, from);
					m.n = std::max(m.n, to);
					verify(m, probes);
					for (size_t i : { (size_t)0, (size_t)1, from, m.n / 2, m.n - 1 }) if (!g_pruned && i < m.n) store(m, i);
				}
				for (size_t i : probes) if (!g_pruned && i < m.n) store(m, i);
				if (!g_pruned) verify(m, probes);
				if (!g_pruned) {
					/* the probes are disjoint */
					std::vector<u8*> v;
					for (size_t i : probes) if (i < m.n) v.push_back(op_ref(i));
					std::sort(v.begin(), v.end());
					for (size_t i = 1; i < v.size(); ++i) CHECK(C17 | C16, v[i] >= v[i - 1] + es, "two elements overlap in an array of %zu", n);
				}
				if (!g_pruned) op_done();
				++st.traces;
			}
	st.states = st.cases;
}

}
