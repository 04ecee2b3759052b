/* Block allocator: C15, with C18 C19 C20 C30 and the others that apply */
#include "vf.h"

namespace {

enum { ALLOC = 1, USER = 5 };
u8* ap() { return sec_struct(); }
u64 cum_cost, cum_ops; /* of a linear history */
bool cum_on = true;
size_t bsize, balign, unit; /* requested, and what each block accounts */

void op_init(size_t size, size_t align)
{
	bsize = size;
	balign = align;
	size_t a = std::max(align, sizeof(void*));
	unit = (size + a - 1) / a * a;
	cum_cost = cum_ops = 0;
	perm(ap(), vs_alloc.size, ALLOC);
	life_alloc(ap(), size, align, ALLOC);
	Op o(OWN(ALLOC), ALLOC);
	vs_alloc.init(ap(), size, align);
	CHECK(C15 | C19, !o.mallocs(), "initializing the allocator takes heap memory");
}
u8 pat(size_t slot, size_t k) { return (u8)(slot * 37 + 11 + k * (slot + 1)); }
/* the huge blocks are address space only: their ends and some bytes of the others get a content */
size_t after(size_t k)
{
	if (bsize <= 16u << 20 || k < 256 || k + 256 >= bsize) return k + 1;
	return std::min(k + (bsize >> 6), bsize - 256);
}
void paint(u8* p, size_t slot)
{
	for (size_t k = 0; k < bsize; k = after(k)) p[k] = pat(slot, k);
}
void verify_paint(u8* p, size_t slot)
{
	for (size_t k = 0; k < bsize; k = after(k))
		if (p[k] != pat(slot, k)) { vf_fail(C15, "byte %zu of a block of %zu in use has changed", k, bsize); return; }
}
void cost_of()
{
	if (!cum_on) return;
	cum_cost += g_last_acc;
	++cum_ops;
	CHECK(C35, cum_cost <= 4096 + 60 * cum_ops, "%llu calls make %llu memory accesses", (unsigned long long)cum_ops, (unsigned long long)cum_cost);
	if (cum_ops >= 1000) st.maxi("max_accesses_per_call", cum_cost / cum_ops);
}
/* a block goes to the user: the allocator must not touch it any more */
u8* op_alloc(size_t have_free, u64* mallocs = 0)
{
	u8* p;
	u64 ma, fr;
	g_ro_mask = g_heap_mask = C15;
	{
		Op o(OWN(ALLOC), ALLOC);
		p = (u8*)vs_alloc.alloc(ap());
		ma = o.mallocs();
		fr = o.frees() + o.reallocs();
	}
	g_ro_mask = g_heap_mask = 0;
	if (mallocs) *mallocs = ma;
	cost_of();
	if (g_prop & C15) CHECK(C15, !fr && ma <= 1, "alloc() makes %llu heap allocations and %llu releases", (unsigned long long)ma, (unsigned long long)fr);
	if (g_prop & C15) CHECK(C15, !have_free || !ma, "alloc() takes heap memory with %zu blocks freed before", have_free);
	if (!ma && vs.is_monitored) {
		CHECK(C30, g_last_acc <= 40, "alloc() makes %llu memory accesses", (unsigned long long)g_last_acc);
		st.maxi("max_accesses", g_last_acc);
	}
	CHECK(C15, p != 0, "alloc() returns null");
	if (!p) { g_pruned = true; return 0; }
	CHECK(C15, (uintptr_t)p % balign == 0, "block %p is not aligned to %zu", (void*)p, balign);
	CHECK(C15, (uintptr_t)p % sizeof(void*) == 0, "block %p is not aligned to a pointer", (void*)p);
	CHECK(C15 | C18, heap_in_block(p, bsize), "a block of %zu bytes is not inside a heap block", bsize);
	if (!heap_in_block(p, bsize)) { g_pruned = true; return 0; }
	perm(p, bsize, USER);
	return p;
}
void op_free(u8* p)
{
	perm(p, bsize, ALLOC);
	g_ro_mask = g_heap_mask = C15;
	u64 h;
	{
		Op o(OWN(ALLOC), ALLOC);
		vs_alloc.free(ap(), p);
		h = o.mallocs() + o.frees() + o.reallocs();
	}
	g_ro_mask = g_heap_mask = 0;
	cost_of();
	if (g_prop & C15) CHECK(C15, !h, "free() uses the heap");
	if (vs.is_monitored) CHECK(C30, g_last_acc <= 40, "free() makes %llu memory accesses", (unsigned long long)g_last_acc);
}
/* peak: the most blocks in use at the same time */
void verify_usage(size_t n, size_t peak)
{
	size_t each = unit + std::max(balign, sizeof(void*));
	CHECK(C36, heap_live() <= (u64)unit * peak * 5 / 2 + 4096 + 2 * (u64)each, "%zu bytes of heap for %zu blocks of %zu at most in use", heap_live(), peak, unit);
	if (peak >= 100) st.maxi("max_heap_percent_of_blocks", (u64)heap_live() * 100 / ((u64)unit * peak));
	size_t mu;
	{ Op o(OWN(ALLOC), 0, RO); mu = vs_alloc.memory_usage(ap()); }
	obs(mu);
	obs(heap_live());
	CHECK(C20, mu == n * unit, "memory_usage() is %zu with %zu blocks of %zu", mu, n, unit);
}
void op_done()
{
	g_heap_mask = C15;
	size_t room = heap_live() / sizeof(void*);
	{ Op o(OWN(ALLOC), ALLOC); vs_alloc.done(ap()); CHECK(C15 | C19, !o.mallocs() && !o.reallocs(), "done() allocates"); }
	linear_check("done()", 0, room);
	g_heap_mask = 0;
	CHECK(C15 | C18, heap_blocks() == 0, "done() leaves %zu heap blocks", heap_blocks());
	perm(ap(), vs_alloc.size, 0);
}
void verify_disjoint(std::vector<u8*> v)
{
	std::sort(v.begin(), v.end());
	for (size_t i = 1; i < v.size(); ++i) CHECK(C15, v[i] >= v[i - 1] + bsize, "two blocks in use overlap");
}

/* ------------------------------------------------------------------ */
/* closure: every history of allocations and releases of up to N blocks */

struct AM { u8 n; u8 freed; u32 off[16]; }; /* offsets of the blocks in use, 0 if none */

struct AllocSys : Sys {
	int N;
	size_t size, align;
	AM& m() { return *(AM*)sec_model(); }
	u8* base() { return sec_data(); }
	u8* at(int i) { return base() + m().off[i]; }
	void init() override { op_init(size, align); }
	void ops(std::vector<int>& out) override
	{
		if (m().n < N) out.push_back(0);
		for (int i = 0; i < N; ++i) if (m().off[i]) out.push_back(0x100 + i);
	}
	std::string opname(int op) override { return op >> 8 ? sfmt("free(block %d by address)", op & 255) : "alloc()"; }
	void apply(int op) override
	{
		if (op >> 8) {
			int i = op & 255;
			op_free(at(i));
			for (; i + 1 < N; ++i) m().off[i] = m().off[i + 1];
			m().off[N - 1] = 0;
			--m().n;
			++m().freed;
			return;
		}
		u8* p = op_alloc(m().freed);
		if (!p) return;
		for (int j = 0; j < N; ++j)
			if (m().off[j]) CHECK(C15, p + bsize <= at(j) || at(j) + bsize <= p, "the new block overlaps another one in use");
		/* kept sorted: which call returned which block does not matter */
		int i = m().n;
		for (; i > 0 && at(i - 1) > p; --i) m().off[i] = m().off[i - 1];
		m().off[i] = (u32)(p - base());
		++m().n;
		if (m().freed) --m().freed;
		paint(p, m().off[i]);
	}
	void check() override
	{
		verify_usage(m().n, (size_t)m().n + m().freed);
		for (int i = 0; i < N && !g_pruned; ++i) if (m().off[i]) verify_paint(at(i), m().off[i]);
	}
	bool want_fini() override { return true; }
	void fini(int) override { op_done(); }
	void reperm() override
	{
		perm(ap(), vs_alloc.size, ALLOC);
		for (int i = 0; i < N; ++i) if (m().off[i]) perm(at(i), bsize, USER);
	}
};

JOB(alloc_closure, "alloc.closure")
{
	for (auto size : p.list("size", "64"))
		for (auto align : p.list("align", "8")) {
			if (out_of_time()) return;
			if (g_replaying && (g_replay.size() < 2 || g_replay[0] != size || g_replay[1] != align)) continue;
			AllocSys s;
			s.N = (int)p.i("n", 5);
			s.size = (size_t)size;
			s.align = (size_t)align;
			cum_on = false;
			used_struct = (vs_alloc.size + 63) & ~(size_t)63;
			used_model = sizeof(AM);
			use_nodes(64, 0);
			Ints saved = g_replay;
			if (g_replaying) g_replay.erase(g_replay.begin(), g_replay.begin() + 2);
			g_trace_prefix = { size, align };
			bfs(s);
			g_trace_prefix.clear();
			g_replay = saved;
		}
}

/* ------------------------------------------------------------------ */
/* every block size and alignment, with heaps returning addresses of every alignment */

JOB(alloc_sizes, "alloc.sizes")
{
	Ints sizes = p.list("sizes", "1-130,255,256,257,511,512,513,1000,1343,1344,2000,3999,4000,4016,4024,4025,4031,4032,4033,4040,4095,4096,4097,8192,10000");
	Ints aligns = p.list("aligns", "1,2,4,8,16,24,32,40,64,128,256,512,1024,4096");
	Ints skews = p.list("skews", "0,8,16,24,32,40,48,56");
	size_t count = (size_t)p.i("count", 0);
	long long part = p.i("part", 0), parts = p.i("parts", 1);
	used_struct = (vs_alloc.size + 63) & ~(size_t)63;
	used_model = 0;
	use_nodes(64, 0);
	u64 c = 0;
	for (auto size : sizes) for (auto align : aligns) for (auto skew : skews) for (int order = 0; order < 4; ++order) {
		if ((long long)(c++ % (u64)parts) != part) continue;
		if (out_of_time()) return;
		/* what a heap may return: at least pointer alignment */
		if (skew % (long long)sizeof(void*)) continue;
		if (!vf_case({ size, align, skew, order })) continue;
		vf_case_text(sfmt("blocks of %lld bytes aligned to %lld, heap addresses = %lld mod 64, release order %d", size, align, skew, order));
		heap_cfg.mod = 64;
		heap_cfg.skew = (u32)skew;
		arena_reset();
		op_init((size_t)size, (size_t)align);
		/* enough to go over two segments */
		size_t n = count ? count : std::min<size_t>(2 * 4096 / unit + 4, order ? 40 : 1100);
		std::vector<u8*> b;
		for (size_t i = 0; i < n && !g_pruned; ++i) {
			u8* q = op_alloc(0);
			if (!q) break;
			b.push_back(q);
			paint(q, i);
		}
		if (g_pruned || b.size() != n) continue;
		verify_disjoint(b);
		for (size_t i = 0; i < n && !g_pruned; ++i) verify_paint(b[i], i);
		verify_usage(n, n);
		/* some of them go back and are taken again */
		std::vector<size_t> f;
		switch (order) {
		case 0: for (size_t i = 0; i < n; ++i) f.push_back(i); break;
		case 1: for (size_t i = n; i-- > 0; ) f.push_back(i); break;
		case 2: for (size_t i = 0; i < n; i += 2) f.push_back(i); break;
		case 3: for (size_t i = n / 3; i < n / 2 + 1 && i < n; ++i) f.push_back(i); break;
		}
		for (auto i : f) if (!g_pruned) { op_free(b[i]); b[i] = 0; }
		verify_usage(n - f.size(), n);
		for (size_t i = 0; i < n && !g_pruned; ++i) if (b[i]) verify_paint(b[i], i);
		size_t fr = f.size();
		for (auto i : f) {
			if (g_pruned) break;
			u8* q = op_alloc(fr);
			if (!q) break;
			--fr;
			b[i] = q;
			paint(q, i);
		}
		if (g_pruned) continue;
		verify_disjoint(b);
		for (size_t i = 0; i < n && !g_pruned; ++i) verify_paint(b[i], i);
		verify_usage(n, n);
		op_done();
		++st.traces;
	}
	heap_cfg.skew = 0;
	heap_cfg.mod = 16;
	st.sample(sfmt("%zu block sizes x %zu alignments x %zu heap alignments x 4 release orders", sizes.size(), aligns.size(), skews.size()));
	st.states = st.cases;
}

/* many blocks: constant work, everything released */
JOB(alloc_many, "alloc.many")
{
	used_struct = (vs_alloc.size + 63) & ~(size_t)63;
	used_model = 0;
	use_nodes(64, 0);
	for (auto n : p.list("n", "1000,20000"))
		for (auto size : p.list("size", "8,24,64,200,1500"))
			for (int order = 0; order < 3; ++order) {
				if (out_of_time()) return;
				if (!vf_case({ n, size, order })) continue;
				arena_reset();
				op_init((size_t)size, 16);
				std::vector<u8*> b;
				for (long long i = 0; i < n && !g_pruned; ++i) { u8* q = op_alloc(0); if (!q) break; b.push_back(q); paint(q, (size_t)i); }
				if (g_pruned) continue;
				verify_usage(b.size(), b.size());
				verify_disjoint(b);
				size_t N = b.size();
				if (order == 0) for (size_t i = 0; i < N; ++i) { op_free(b[i]); b[i] = 0; }
				else if (order == 1) for (size_t i = N; i-- > 0; ) { op_free(b[i]); b[i] = 0; }
				else for (size_t i = 0; i < N; i += 2) { op_free(b[i]); b[i] = 0; }
				size_t fr = 0;
				for (size_t i = 0; i < N; ++i) fr += !b[i];
				for (size_t i = 0; i < N && !g_pruned; ++i) if (!b[i]) { u8* q = op_alloc(fr); if (!q) break; --fr; b[i] = q; paint(q, i); }
				if (g_pruned) continue;
				verify_disjoint(b);
				for (size_t i = 0; i < N && !g_pruned; ++i) verify_paint(b[i], i);
				verify_usage(N, N);
				op_done();
				++st.traces;
			}
	st.states = st.cases;
}

/* up to every number of blocks, and there back and forth */
JOB(alloc_turns, "alloc.turns")
{
	used_struct = (vs_alloc.size + 63) & ~(size_t)63;
	used_model = 0;
	use_nodes(64, 0);
	Ints ns = p.list("n", "0-300");
	for (auto size : p.list("size", "8,64,200,1500"))
		for (auto n : ns)
			for (int order = 0; order < 2; ++order) {
				if (out_of_time()) return;
				if (!vf_case({ size, n, order })) continue;
				vf_case_text(sfmt("%lld blocks of %lld bytes, then 1 to 9 more or less, back and forth, released %s", n, size, order ? "first in first out" : "last in first out"));
				arena_reset();
				op_init((size_t)size, 16);
				std::deque<u8*> b;
				size_t fr = 0, peak = 0;
				auto up = [&](size_t k) {
					for (; k && !g_pruned; --k) {
						u8* q = op_alloc(fr);
						if (!q) return;
						if (fr) --fr;
						paint(q, 1);
						b.push_back(q);
						peak = std::max(peak, b.size());
					}
				};
				auto down = [&](size_t k) {
					for (; k && !b.empty() && !g_pruned; --k) {
						u8* q = order ? b.front() : b.back();
						if (order) b.pop_front(); else b.pop_back();
						verify_paint(q, 1);
						op_free(q);
						++fr;
					}
				};
				up((size_t)n);
				for (size_t a : { 1, 2, 3, 9 }) {
					/* the credit of what came before is not taken */
					cum_cost = cum_ops = 0;
					for (int k = 0; k < 24 && !g_pruned; ++k) { up(a); down(a); }
					for (int k = 0; k < 24 && !g_pruned; ++k) { size_t c = std::min(a, b.size()); down(c); up(c); }
				}
				if (g_pruned) continue;
				verify_usage(b.size(), peak);
				/* everything goes back, and again from there */
				cum_cost = cum_ops = 0;
				down(b.size());
				for (size_t a : { 1, 2, 3, 9 }) for (int k = 0; k < 24 && !g_pruned; ++k) { up(a); down(a); }
				if (g_pruned) continue;
				verify_usage(0, peak);
				op_done();
				++st.traces;
			}
	st.sample(sfmt("back and forth around %zu numbers of blocks", ns.size()));
	st.states = st.cases;
}

}
