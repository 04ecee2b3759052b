/* Hashtables: C04 C05 C06 (multimap), C07 (size), C08 (bounded work), C14 (order) and the cross-cutting ones */
#include "vf.h"

namespace {

enum { OWNER = 1 };
const vs_hash_ops* T; /* table under test */
u64 FUN; /* its functional property */

/* objects: hash and value are functions of the identity */
std::vector<size_t> hashv;
std::vector<u32> valv;
u8* tp() { return sec_struct(); }

/* ---- callbacks ---- */

const void* cb_arg; /* what the caller passed */
size_t cb_hash; /* hash requested */
bool cb_any; /* accept whatever */
u32 cb_val;
bool cb_accepted;
u64 cb_calls;
std::vector<u8>* cb_member; /* stored objects */

int search_cb(const void* arg, const void* obj)
{
	++cb_calls;
	++g_progress;
	CHECK(C28, arg == cb_arg, "the comparison gets another argument");
	CHECK(C28, !cb_accepted, "the comparison is called again after a match");
	long i = objid(obj);
	if (i < 0 || (size_t)i >= cb_member->size() || !(*cb_member)[(size_t)i]) {
		vf_fail(C28 | FUN, "the comparison gets something that is not a stored object");
		return 1;
	}
	CHECK(C28, hashv[(size_t)i] == cb_hash, "the comparison is called for an element with another hash");
	if (cb_any || valv[(size_t)i] == cb_val) { cb_accepted = true; return 0; }
	/* vary the nonzero results */
	return cb_calls & 1 ? -1 : 1 << (cb_calls % 31);
}

/* visit stamps: checks "exactly once" in linear time */
std::vector<u32> stamp;
u32 stamp_cur;
u64 visits;
void* each_want;
bool visit(const void* obj)
{
	long i = objid(obj);
	++visits;
	obs((u64)i);
	if (i < 0 || (size_t)i >= cb_member->size() || !(*cb_member)[(size_t)i]) { vf_fail(C21 | FUN, "foreach passes something that is not a stored object"); return false; }
	if (stamp[(size_t)i] == stamp_cur) { vf_fail(C21 | FUN, "foreach passes object %ld twice", i); return false; }
	stamp[(size_t)i] = stamp_cur;
	return true;
}
void each_cb(void* obj) { visit(obj); }
void each_arg_cb(void* arg, void* obj)
{
	CHECK(C21 | C28, arg == each_want, "foreach_arg passes another argument");
	visit(obj);
}
void free_cb(void* obj) { if (visit(obj)) node_release((size_t)objid(obj)); }
void free_arg_cb(void* arg, void* obj) { CHECK(C21 | C28, arg == each_want, "foreach_arg passes another argument"); if (visit(obj)) node_release((size_t)objid(obj)); }

/* ---- one operation each ---- */

u64 acc_limit; /* 0: not bounded */
size_t init_size;
size_t init_heap; /* table memory just after init */
u64 cum_cost, cum_ops; /* accesses and number of the updates since the initialization */
const u64 AMORT = 150; /* accesses per update, on the average of any history */
const u64 COST_FIX = 160, COST_EACH = 12; /* accesses of an operation, and for each element of the bucket */
bool lin() { return T == &vs_hash[2]; }
bool cost_on() { return vs.is_monitored && (g_prop & C34) != 0; }
/* at least n elements in the bucket of a hash */
bool bucket_over(size_t hash, u64 n)
{
	void* b;
	{ Op o(OWN(OWNER), 0, RO); b = T->bucket(tp(), hash); }
	u64 k = 0;
	for (void* q = b; q && k < n; q = ptr_at(q, vs.node_next)) ++k;
	return k >= n;
}
void cost_check(const char* what, size_t hash, u64 acc, u64 more)
{
	st.maxi("max_accesses", acc);
	if (acc <= COST_FIX) return;
	u64 need = (acc - COST_FIX + COST_EACH - 1) / COST_EACH;
	CHECK(C34, bucket_over(hash, need > more ? need - more : 0), "%s makes %llu memory accesses with a bucket of less than %llu elements", what, (unsigned long long)acc, (unsigned long long)need);
}

void op_init(size_t size)
{
	perm(tp(), T->size, OWNER);
	life_hash(*T, tp(), size, OWNER);
	Op o(OWN(OWNER), OWNER);
	T->init(tp(), size);
	cum_cost = cum_ops = 0;
}

void op_insert(size_t i)
{
	node_prepare(i, OWNER);
	Op* po;
	u64 ma, fr, re;
	{
		Op o(OWN(OWNER), OWNER);
		po = &o;
		T->insert(tp(), nodep(i), objp(i), hashv[i]);
		ma = po->mallocs(); fr = po->frees(); re = po->reallocs();
	}
	cum_cost += g_last_acc;
	++cum_ops;
	if (cost_on() && !lin() && !ma && !fr && !re) {
		st.maxi("max_accesses_insert", g_last_acc);
		CHECK(C34, g_last_acc <= COST_FIX, "an insert without a resize makes %llu memory accesses", (unsigned long long)g_last_acc);
	}
	if (lin()) {
		CHECK(C08, ma <= 1 && !fr && !re, "an insert allocates %llu, frees %llu, reallocates %llu segments", (unsigned long long)ma, (unsigned long long)fr, (unsigned long long)re);
		if (acc_limit) {
			CHECK(C08, g_last_acc <= acc_limit, "an insert makes %llu memory accesses, over %llu", (unsigned long long)g_last_acc, (unsigned long long)acc_limit);
			st.maxi("max_accesses_insert", g_last_acc);
		}
	}
	if (T == &vs_hash[0]) CHECK(FUN | C20, !ma && !fr && !re, "an insert in a fixed size table uses the heap");
}

template<class F> void* removal(F f, const size_t* hash)
{
	u64 ma, fr, re;
	void* r;
	{
		Op o(OWN(OWNER), OWNER);
		r = f();
		ma = o.mallocs(); fr = o.frees(); re = o.reallocs();
	}
	u64 acc = g_last_acc;
	cum_cost += acc;
	++cum_ops;
	if (cost_on() && !ma && (lin() || !fr)) {
		if (hash) cost_check("a removal by key", *hash, acc, 1);
		else CHECK(C34, acc <= COST_FIX, "the removal of a known element makes %llu memory accesses", (unsigned long long)acc);
		g_last_acc = acc;
	}
	if (lin()) {
		CHECK(C08, !ma && fr <= 1 && !re, "a removal allocates %llu, frees %llu, reallocates %llu segments", (unsigned long long)ma, (unsigned long long)fr, (unsigned long long)re);
		if (acc_limit) {
			CHECK(C08, g_last_acc <= acc_limit, "a removal makes %llu memory accesses, over %llu", (unsigned long long)g_last_acc, (unsigned long long)acc_limit);
			st.maxi("max_accesses_remove", g_last_acc);
		}
	}
	return r;
}

void cb_setup(size_t hash, bool any, u32 val, const void* arg, std::vector<u8>& member)
{
	cb_hash = hash;
	cb_any = any;
	cb_val = val;
	cb_arg = arg;
	cb_accepted = false;
	cb_calls = 0;
	cb_member = &member;
}

/* what the callers pass: nothing, an object (maybe stored, and not accepted), something else */
const void* pick_arg(size_t hash, u32 val, std::vector<u8>& member)
{
	static u8 args[16];
	size_t x = hash * 5 + val;
	return x % 3 == 0 && !member.empty() ? objp((x / 3) % member.size()) : x % 3 == 1 ? 0 : (const void*)&args[val & 15];
}

void* op_search(size_t hash, bool any, u32 val, std::vector<u8>& member)
{
	cb_setup(hash, any, val, pick_arg(hash, val, member), member);
	void* r;
	{
		Op o(OWN(OWNER), 0, RO);
		r = T->search(tp(), search_cb, cb_arg, hash);
	}
	if (cost_on()) {
		u64 acc = g_last_acc;
		cost_check("a search", hash, acc, 0);
		g_last_acc = acc;
	}
	if (acc_limit && lin()) CHECK(C08, g_last_acc <= acc_limit, "a search makes %llu memory accesses, over %llu", (unsigned long long)g_last_acc, (unsigned long long)acc_limit);
	return r;
}

/* nothing is accepted, not even the object that is passed */
void verify_reject(size_t i, std::vector<u8>& member)
{
	cb_setup(hashv[i], false, ~0u, objp(i), member);
	void* r;
	{
		Op o(OWN(OWNER), 0, RO);
		r = T->search(tp(), search_cb, cb_arg, hashv[i]);
	}
	CHECK(FUN | C28, !r, "search() finds an object the comparison rejects");
	cb_setup(hashv[i], false, ~0u, objp(i), member);
	{
		Op o(OWN(OWNER), OWNER);
		r = T->remove(tp(), search_cb, cb_arg, hashv[i]);
	}
	CHECK(FUN | C28, !r, "remove() takes an object the comparison rejects");
}

void* op_remove(size_t hash, bool any, u32 val, std::vector<u8>& member)
{
	cb_setup(hash, any, val, pick_arg(hash, val, member), member);
	return removal([&] { return T->remove(tp(), search_cb, cb_arg, hash); }, &hash);
}

void* op_remove_existing(size_t i) { return removal([&] { return T->remove_existing(tp(), nodep(i)); }, 0); }

void op_done()
{
	size_t room = heap_live() / sizeof(void*);
	{ Op o(OWN(OWNER), 0); T->done(tp()); }
	linear_check("done()", 0, room);
	CHECK(C18, heap_blocks() == 0 && heap_live() == 0, "done leaves %zu heap blocks", heap_blocks());
	perm(tp(), T->size, 0);
}

/* walks the bucket of a hash: must hold all the elements of that hash, in insertion order, and only stored elements */
struct Expect { const u32* ids; size_t n; };
std::vector<u32> bstamp;
u32 bstamp_cur;
size_t bucket_len; /* of the last bucket walked */
void verify_bucket(size_t hash, Expect e, std::vector<u8>& member, size_t total)
{
	void* b;
	{
		Op o(OWN(OWNER), 0, RO);
		b = T->bucket(tp(), hash);
	}
	if (cost_on()) CHECK(C34, g_last_acc <= COST_FIX, "bucket() makes %llu memory accesses", (unsigned long long)g_last_acc);
	if (acc_limit && lin()) CHECK(C08, g_last_acc <= acc_limit, "bucket() makes %llu memory accesses", (unsigned long long)g_last_acc);
	size_t pos = 0, steps = 0;
	++bstamp_cur;
	bool order = true;
	for (void* q = b; q; q = ptr_at(q, vs.node_next)) {
		if (++steps > total) { vf_fail(FUN, "the bucket of hash %zx does not end after %zu elements", hash, total); return; }
		long i = nodeid(q);
		obs((u64)i);
		if (i < 0 || (size_t)i >= member.size() || !member[(size_t)i]) { vf_fail(FUN, "the bucket of hash %zx holds node %ld that is not stored", hash, i); return; }
		if (bstamp[(size_t)i] == bstamp_cur) { vf_fail(FUN, "the bucket of hash %zx holds element %ld twice", hash, i); return; }
		bstamp[(size_t)i] = bstamp_cur;
		CHECK(FUN, ptr_at(q, vs.node_data) == objp((size_t)i), "the data pointer of element %ld is not its object", i);
		if (hashv[(size_t)i] == hash) {
			if (pos >= e.n) { vf_fail(FUN, "the bucket of hash %zx holds too many elements", hash); return; }
			if (e.ids[pos] != (u32)i) order = false;
			++pos;
		}
		/* both directions */
		void* pv = ptr_at(q, vs.node_prev);
		void* nx = ptr_at(q, vs.node_next);
		(void)pv;
		if (nx) CHECK(FUN, nodeid(nx) >= 0 && (size_t)nodeid(nx) < member.size() && ptr_at(nx, vs.node_prev) == q, "the bucket of hash %zx is not linked backward", hash);
		if (g_pruned) return;
	}
	bucket_len = steps;
	CHECK(FUN, pos == e.n, "the bucket of hash %zx holds %zu elements of that hash and not %zu", hash, pos, e.n);
	CHECK(C14, order || pos != e.n, "the elements with hash %zx are not in insertion order", hash);
}

void verify_counts(size_t n, std::vector<u8>& member)
{
	size_t c, mu;
	{ Op o(OWN(OWNER), 0, RO); c = T->count(tp()); }
	linear_check("count()", 0, 0);
	CHECK(FUN, c == n, "count() is %zu and not %zu", c, n);
	{ Op o(OWN(OWNER), 0, RO); mu = T->memory_usage(tp()); }
	linear_check("memory_usage()", 0, 0);
	obs(mu);
	CHECK(C20, mu == heap_live() + n * vs.node, "memory_usage() is %zu and not %zu + %zu nodes", mu, heap_live(), n);
	cb_member = &member;
	++stamp_cur;
	visits = 0;
	{ Op o(OWN(OWNER), 0, RO); T->foreach(tp(), each_cb); }
	linear_check("foreach()", n, heap_live() / sizeof(void*));
	CHECK(FUN | C21, visits == n, "foreach visits %llu elements of %zu", (unsigned long long)visits, n);
	++stamp_cur;
	visits = 0;
	each_want = (void*)(uintptr_t)0x4321;
	{ Op o(OWN(OWNER), 0, RO); T->foreach_arg(tp(), each_arg_cb, each_want); }
	linear_check("foreach_arg()", n, heap_live() / sizeof(void*));
	CHECK(FUN | C21, visits == n, "foreach_arg visits %llu elements of %zu", (unsigned long long)visits, n);
}

/* the table memory is proportional to the count: C07 */
void verify_size(size_t n)
{
	if (T == &vs_hash[0]) {
		CHECK(FUN | C20, heap_live() == init_heap, "the memory of a fixed size table changes");
		return;
	}
	size_t buckets = heap_live() / sizeof(void*);
	size_t ini = init_heap / sizeof(void*);
	CHECK(C07, buckets >= ini, "the table goes below its initial size: %zu buckets", buckets);
	CHECK(C07, buckets >= 2 * n, "%zu elements in a table of only %zu buckets", n, buckets);
	CHECK(C07, buckets <= std::max(ini, 16 * n + 16), "a table of %zu buckets remains for %zu elements", buckets, n);
	if (!n) CHECK(C07, buckets == ini, "the table of no elements has %zu buckets and not the initial %zu", buckets, ini);
	if (n >= 8) { st.maxi("max_buckets_per_element_x100", buckets * 100 / n); st.maxi("max_load_x1000", n * 1000 / buckets); }
}

void end_free(std::vector<u8>& member, size_t n, bool arg)
{
	cb_member = &member;
	++stamp_cur;
	visits = 0;
	each_want = (void*)(uintptr_t)0x9999;
	{
		Op o(OWN(OWNER), 0, RO);
		if (arg) T->foreach_arg(tp(), free_arg_cb, each_want);
		else T->foreach(tp(), free_cb);
	}
	CHECK(C21, visits == n, "foreach with a releasing callback visits %llu of %zu elements", (unsigned long long)visits, n);
	op_done();
}

void setup_table(int t)
{
	T = &vs_hash[t];
	FUN = t == 0 ? C04 : t == 1 ? C05 : C06;
}
int table_of(const Params& p)
{
	std::string s = p.s("t", "hashdyn");
	for (int i = 0; i < 3; ++i) if (s == vs_hash[i].name) return i;
	fprintf(stderr, "unknown table\n");
	exit(3);
}

void vec_setup(size_t n)
{
	hashv.assign(n, 0);
	valv.assign(n, 0);
	stamp.assign(n, 0);
	bstamp.assign(n, 0);
	stamp_cur = bstamp_cur = 0;
}

/* ------------------------------------------------------------------ */
/* small closure: every order of insertion and removal of n elements with
 * colliding hashes, on a table already holding `pre` others */

struct SM { u8 n; u8 seq[16]; }; /* stored, in insertion order */

struct SmallSys : Sys {
	int n, pre, via; /* via: elements inserted and removed again to get there */
	std::vector<u8> member;
	std::map<size_t, std::vector<u32>> byhash_pre;
	SM& m() { return *(SM*)sec_model(); }

	void init() override
	{
		op_init(init_size);
		init_heap = heap_live();
		/* the preload: objects n, n+1, ... */
		for (int i = 0; i < via; ++i) op_insert((size_t)(n + i));
		for (int i = via - 1; i >= pre; --i) {
			void* r = op_remove_existing((size_t)(n + i));
			CHECK(FUN, r == objp((size_t)(n + i)), "remove_existing returns another pointer");
			node_release((size_t)(n + i));
		}
		member.assign((size_t)(n + via), 0);
		byhash_pre.clear();
		for (int i = 0; i < pre; ++i) { member[(size_t)(n + i)] = 1; byhash_pre[hashv[(size_t)(n + i)]].push_back((u32)(n + i)); }
	}
	void sync()
	{
		for (int i = 0; i < n; ++i) member[(size_t)i] = 0;
		for (int j = 0; j < m().n; ++j) member[m().seq[j]] = 1;
	}
	bool has(int i) { for (int j = 0; j < m().n; ++j) if (m().seq[j] == i) return true; return false; }
	void del(int i)
	{
		int j = 0;
		while (m().seq[j] != i) ++j;
		for (; j + 1 < m().n; ++j) m().seq[j] = m().seq[j + 1];
		m().seq[--m().n] = 0;
	}
	/* 0: insert i, 1: remove_existing i, 2: remove by hash of i, any value; 3: remove by hash and value of i */
	void ops(std::vector<int>& out) override
	{
		for (int i = 0; i < n; ++i) {
			if (!has(i)) out.push_back(i);
			else out.push_back(0x100 + i);
			/* once for each different hash, and hash+value */
			bool dup_h = false, dup_v = false;
			for (int j = 0; j < i; ++j) {
				if (hashv[(size_t)j] == hashv[(size_t)i]) { dup_h = true; if (valv[(size_t)j] == valv[(size_t)i]) dup_v = true; }
			}
			if (!dup_h) out.push_back(0x200 + i);
			if (!dup_v) out.push_back(0x300 + i);
		}
		out.push_back(0x400); /* remove of absent hashes */
	}
	std::string opname(int op) override
	{
		int i = op & 255;
		switch (op >> 8) {
		case 0: return sfmt("insert(%d hash=%zx)", i, hashv[(size_t)i]);
		case 1: return sfmt("remove_existing(%d)", i);
		case 2: return sfmt("remove(any,hash=%zx)", hashv[(size_t)i]);
		case 3: return sfmt("remove(val=%u,hash=%zx)", valv[(size_t)i], hashv[(size_t)i]);
		default: return "remove(absent)";
		}
	}
	/* oldest stored element accepted */
	long oldest(size_t hash, bool any, u32 val)
	{
		/* the preload was inserted before */
		auto it = byhash_pre.find(hash);
		if (it != byhash_pre.end())
			for (u32 x : it->second) if (any || valv[x] == val) return (long)x;
		for (int j = 0; j < m().n; ++j) {
			u32 x = m().seq[j];
			if (hashv[x] == hash && (any || valv[x] == val)) return (long)x;
		}
		return -1;
	}
	void expect_removed(size_t hash, bool any, u32 val)
	{
		long w = oldest(hash, any, val);
		sync();
		Hash h0, h1;
		if (w < 0 && (g_prop & C27)) canon(h0);
		void* r = op_remove(hash, any, val, member);
		if (w < 0) {
			CHECK(FUN, !r, "remove() finds something that is not stored");
			if (g_prop & C27) { canon(h1); CHECK(C27, h0 == h1, "an unsuccessful remove() changes the table"); }
			return;
		}
		long g = objid(r);
		if (!r || g < 0 || !member[(size_t)g] || hashv[(size_t)g] != hash || !(any || valv[(size_t)g] == val)) {
			vf_fail(FUN, "remove() of a stored element returns object %ld", g);
			return;
		}
		if (g != w) {
			vf_fail(C14, "remove() takes element %ld and not the oldest, %ld", g, w);
			if (g >= n) { g_pruned = true; return; }
			w = g;
		}
		if (w >= n) { g_pruned = true; return; } /* the preload stays: alphabets avoid this */
		node_release((size_t)w);
		del((int)w);
	}
	void apply(int op) override
	{
		int i = op & 255;
		switch (op >> 8) {
		case 0:
			op_insert((size_t)i);
			m().seq[m().n++] = (u8)i;
			break;
		case 1: {
			void* r = op_remove_existing((size_t)i);
			CHECK(FUN, r == objp((size_t)i), "remove_existing returns another pointer");
			node_release((size_t)i);
			del(i);
			break;
		}
		case 2: expect_removed(hashv[(size_t)i], true, 0); break;
		case 3: expect_removed(hashv[(size_t)i], false, valv[(size_t)i]); break;
		case 4:
			for (size_t h : absent) expect_removed(h, true, 0);
			/* a value nobody has, with a stored hash */
			for (int j = 0; j < n; ++j) expect_removed(hashv[(size_t)j], false, 99);
			break;
		}
	}
	std::vector<size_t> absent;
	void check() override
	{
		sync();
		size_t total = (size_t)(m().n + pre);
		verify_counts(total, member);
		verify_size(total);
		Hash h0;
		if (g_prop & C27) canon(h0);
		for (int i = 0; i < n && !g_pruned; ++i) {
			size_t h = hashv[(size_t)i];
			std::vector<u32> e;
			auto it = byhash_pre.find(h);
			if (it != byhash_pre.end()) e = it->second;
			for (int j = 0; j < m().n; ++j) if (hashv[m().seq[j]] == h) e.push_back(m().seq[j]);
			bool first = true;
			for (int j = 0; j < i; ++j) if (hashv[(size_t)j] == h) first = false;
			if (first) {
				verify_bucket(h, Expect{ e.data(), e.size() }, member, total);
				if (g_pruned) return;
				search(h, true, 0);
			}
			search(h, false, valv[(size_t)i]);
			if (first) search(h, false, 77);
			if (member[(size_t)i]) verify_reject((size_t)i, member);
		}
		for (size_t h : absent) {
			if (g_pruned) return;
			verify_bucket(h, Expect{ 0, 0 }, member, total);
			search(h, true, 0);
		}
		for (auto& b : byhash_pre) {
			if (g_pruned) return;
			bool shared = false;
			for (int i = 0; i < n; ++i) if (hashv[(size_t)i] == b.first) shared = true;
			if (!shared) { verify_bucket(b.first, Expect{ b.second.data(), b.second.size() }, member, total); search(b.first, true, 0); }
		}
		if ((g_prop & C27) && !g_pruned) {
			Hash h1;
			canon(h1);
			CHECK(C27, h0 == h1, "searching and iterating change the table");
		}
	}
	void search(size_t hash, bool any, u32 val)
	{
		long w = oldest(hash, any, val);
		void* r = op_search(hash, any, val, member);
		if (w < 0) { CHECK(FUN, !r, "search() finds something that is not stored"); return; }
		long g = objid(r);
		if (!r || g < 0 || !member[(size_t)g] || hashv[(size_t)g] != hash || !(any || valv[(size_t)g] == val)) {
			vf_fail(FUN, "search() of a stored element returns object %ld", r ? g : -1);
			return;
		}
		CHECK(C14, g == w, "search() returns element %ld and not the oldest, %ld", g, w);
	}
	bool want_fini() override { return (g_prop & (C18 | C19 | C21 | C29)) != 0; }
	int finis() override { return 2; }
	void fini(int way) override
	{
		sync();
		end_free(member, (size_t)(m().n + pre), way != 0);
	}
	void reperm() override
	{
		perm(tp(), T->size, OWNER);
		for (int j = 0; j < m().n; ++j) perm(nodep(m().seq[j]), node_size, OWNER);
		for (int i = 0; i < pre; ++i) perm(nodep((size_t)(n + i)), node_size, OWNER);
	}
};

/* alphabets of hashes for the small closure */
void alphabet(int a, int n)
{
	const size_t HI = sizeof(size_t) == 8 ? (size_t)1 << (sizeof(size_t) * 8 - 31) : (size_t)1 << 30; /* 2^33 on 64 bit */
	const size_t TOP = (size_t)1 << (sizeof(size_t) * 8 - 1);
	for (int i = 0; i < n; ++i) {
		size_t h = 0;
		u32 v = (u32)i;
		switch (a) {
		case 0: { /* same low bits, differing in the high half or in the bits a resize looks at; equal pairs */
			static const int k[8] = { 0, 0, 1, 2, 0, 3, 4, 1 };
			size_t hs[5] = { 5, 5 + HI, 5 + 64, 5 + TOP, 5 + 16 };
			h = hs[k[i & 7]];
			v = (u32)(i & 3) / 2;
			break;
		}
		case 1: { /* all the same hash, with equal values */
			h = (size_t)-1;
			v = (u32)(i / 2);
			break;
		}
		case 2: { /* one bit apart, on each bit a growth from 16 to 512 looks at */
			static const int k[8] = { 0, 16, 32, 64, 128, 256, 512, 0 };
			h = (size_t)k[i & 7] + 3;
			v = (u32)(i == 7);
			break;
		}
		case 3: { /* extremes */
			size_t hs[8] = { 0, (size_t)-1, TOP, TOP - 1, 1, 0, HI, (size_t)-2 };
			h = hs[i & 7];
			v = (u32)(i == 5);
			break;
		}
		}
		hashv[(size_t)i] = h;
		valv[(size_t)i] = v;
	}
}

std::vector<size_t> absent_for(int a)
{
	const size_t HI = sizeof(size_t) == 8 ? (size_t)1 << 32 : (size_t)1 << 29;
	switch (a) {
	case 0: return { 5 + 32, 5 + HI, 4, 69 + HI };
	case 1: return { 0, (size_t)-2, ((size_t)-1) >> 1, ((size_t)-1) & 0xffff };
	case 2: return { 3 + 1024, 2, 19 + HI };
	default: return { 2, HI, ((size_t)-1) - HI };
	}
}

/* the preload has contiguous hashes away from the alphabets: offset 2^20 (same low bits) */
JOB(hash_small, "hash.small")
{
	setup_table(table_of(p));
	acc_limit = 0;
	int n = (int)p.i("n", 5);
	Ints alphas = p.list("a", "0-3");
	Ints sizes = p.list("size", "0");
	u64 all = 0;
	for (auto pre : p.list("pre", "0"))
		for (auto extra : p.list("via", "0"))
			for (auto a : alphas)
				for (auto size : sizes) {
					if (out_of_time()) return;
					/* a replay carries these four first */
					if (g_replaying && (g_replay.size() < 4 || g_replay[0] != pre || g_replay[1] != extra || g_replay[2] != a || g_replay[3] != size)) continue;
					SmallSys s;
					s.n = n;
					s.pre = (int)pre;
					s.via = (int)(pre + extra);
					vec_setup((size_t)(n + s.via));
					alphabet((int)a, n);
					for (int i = 0; i < s.via; ++i) { hashv[(size_t)(n + i)] = ((size_t)1 << 20) + (size_t)i; valv[(size_t)(n + i)] = (u32)i; }
					init_size = (size_t)size;
					s.absent = absent_for((int)a);
					use_nodes(vs.node, (size_t)(n + s.via));
					used_struct = (T->size + 63) & ~(size_t)63;
					used_model = sizeof(SM);
					u64 st0 = st.states;
					Ints saved = g_replay;
					if (g_replaying) g_replay.erase(g_replay.begin(), g_replay.begin() + 4);
					g_trace_prefix = { pre, extra, a, size };
					bfs(s);
					g_trace_prefix.clear();
					g_replay = saved;
					all += st.states - st0;
				}
	st.num["closures"] = (u64)(p.list("pre", "0").size() * p.list("via", "0").size() * alphas.size() * sizes.size());
}

/* ------------------------------------------------------------------ */
/* walk closure: the state of the resize machinery as a function of the
 * history of the count; all the histories of inserts and removals of the
 * last element, to the fixpoint */

struct WM { u32 n; u32 first; };

struct WalkSys : Sys {
	u32 max;
	bool fifo; /* also removals of the oldest element */
	std::vector<u8> member;
	std::unordered_map<size_t, std::vector<u32>> by; /* ids with a hash, in order, of all the universe */
	WM& m() { return *(WM*)sec_model(); }
	void init() override { op_init(init_size); init_heap = heap_live(); }
	void ops(std::vector<int>& out) override
	{
		if (m().first + m().n < max) out.push_back(0);
		if (m().n) { out.push_back(1); out.push_back(2); }
		if (m().n && fifo) out.push_back(3);
	}
	std::string opname(int op) override
	{
		switch (op) {
		case 0: return "insert(next)";
		case 1: return "remove_existing(last)";
		case 2: return "remove(last)";
		default: return "remove_existing(first)";
		}
	}
	void sync()
	{
		member.assign(max, 0);
		for (u32 i = m().first; i < m().first + m().n; ++i) member[i] = 1;
	}
	void apply(int op) override
	{
		u32 e = m().first + m().n;
		switch (op) {
		case 0: op_insert(e); ++m().n; break;
		case 1: {
			void* r = op_remove_existing(e - 1);
			CHECK(FUN, r == objp(e - 1), "remove_existing returns another pointer");
			node_release(e - 1);
			--m().n;
			break;
		}
		case 2: {
			sync();
			/* values are unique */
			void* r = op_remove(hashv[e - 1], false, valv[e - 1], member);
			CHECK(FUN, r == objp(e - 1), "remove() returns object %ld and not %u", r ? objid(r) : -1, e - 1);
			node_release(e - 1);
			--m().n;
			break;
		}
		case 3: {
			u32 f = m().first;
			void* r = op_remove_existing(f);
			CHECK(FUN, r == objp(f), "remove_existing returns another pointer");
			node_release(f);
			++m().first;
			--m().n;
			if (!m().n) m().first = 0;
			break;
		}
		}
	}
	bool chain1, chain_half;
	void check() override
	{
		sync();
		size_t n = m().n;
		u32 lo = m().first, hi = lo + m().n;
		verify_counts(n, member);
		verify_size(n);
		size_t longest = 0;
		for (u32 i = lo; i < hi && !g_pruned; ++i) {
			auto& v = by[hashv[i]];
			/* the stored ones are a contiguous part */
			auto b = std::lower_bound(v.begin(), v.end(), lo), e = std::lower_bound(v.begin(), v.end(), hi);
			if (*b == i) {
				verify_bucket(hashv[i], Expect{ &*b, (size_t)(e - b) }, member, n);
				if (bucket_len > longest) longest = bucket_len;
			}
			if (g_pruned) return;
			void* r = op_search(hashv[i], false, valv[i], member);
			CHECK(FUN, r == objp(i), "search() of a stored element returns object %ld", r ? objid(r) : -1);
		}
		if (chain1 && n) CHECK(C07, longest <= 1, "%zu elements with contiguous hashes share a bucket of %zu", n, longest);
		st.maxi("longest_chain", longest);
		/* the removed and never inserted neighbours are not found */
		for (u32 i : { hi, hi + 1, lo - 1 }) {
			if (i >= max || g_pruned) continue;
			void* r = op_search(hashv[i], false, valv[i], member);
			CHECK(FUN, !r, "search() finds a removed element");
			auto& v = by[hashv[i]];
			auto b = std::lower_bound(v.begin(), v.end(), lo), e = std::lower_bound(v.begin(), v.end(), hi);
			verify_bucket(hashv[i], Expect{ v.data() + (b - v.begin()), (size_t)(e - b) }, member, n);
		}
	}
	bool want_fini() override { return (g_prop & (C18 | C19 | C21 | C29)) != 0; }
	int finis() override { return 2; }
	void fini(int way) override { sync(); end_free(member, m().n, way != 0); }
	void reperm() override
	{
		perm(tp(), T->size, OWNER);
		for (u32 i = m().first; i < m().first + m().n; ++i) perm(nodep(i), node_size, OWNER);
	}
};

/* hash layouts of the universe of a walk */
size_t layout_hash(int l, size_t i)
{
	const int W = sizeof(size_t) * 8;
	switch (l) {
	default:
	case 0: return i; /* evenly spread */
	case 1: return 0x55; /* all equal */
	case 2: return i * 64; /* collide until the table grows */
	case 3: { size_t r = 0; for (int b = 0; b < 16; ++b) if (i >> b & 1) r |= (size_t)1 << (15 - b); return r; } /* bit reversed */
	case 4: return i << (W / 2); /* differ only in the high half */
	case 5: return i / 2; /* pairs of equal hashes */
	case 6: return (i / 3) * 16 + 1; /* equal triples, colliding */
	case 7: { u64 x = i + 1; return (size_t)splitmix(x); } /* scrambled */
	case 8: return i * 2; /* even: a chain of one needs a load of at most 0.5 */
	case 9: return (size_t)0 - 1 - i; /* descending from the top */
	case 10: return (i & 1) ? i << (W - 20) : i; /* mixed halves */
	case 11: return (i % 5) * 1024 + (i % 2) * 3; /* few hashes, many elements */
	}
}

JOB(hash_walk, "hash.walk")
{
	setup_table(table_of(p));
	u32 max = (u32)p.i("max", 300);
	WalkSys s;
	s.max = max;
	s.fifo = p.i("fifo", 0) != 0;
	init_size = (size_t)p.i("size", 0);
	for (int l : p.list("l", "0")) {
		if (out_of_time()) return;
		if (g_replaying && (g_replay.empty() || g_replay[0] != l)) continue;
		vec_setup(max);
		s.by.clear();
		for (u32 i = 0; i < max; ++i) { hashv[i] = layout_hash(l, i); valv[i] = i; s.by[hashv[i]].push_back(i); }
		/* evenly spread at every moment: a window of even hashes that moves is not, in the middle of a split */
		bool even = l == 0 || l == 9 || (l == 8 && !s.fifo);
		s.chain1 = even && T != &vs_hash[0];
		acc_limit = vs.is_monitored && even ? 160 : 0;
		use_nodes(vs.node, max);
		used_struct = (T->size + 63) & ~(size_t)63;
		used_model = sizeof(WM);
		Ints saved = g_replay;
		if (g_replaying) g_replay.erase(g_replay.begin());
		g_trace_prefix = { l };
		bfs(s);
		g_trace_prefix.clear();
		g_replay = saved;
	}
}

/* ------------------------------------------------------------------ */
/* reversal-bounded walks at large sizes: up to a, down to b, up to c, down
 * to d, up to e; every combination of turning points around the thresholds */

JOB(hash_turns, "hash.turns")
{
	setup_table(table_of(p));
	Ints pts = p.list("pts", "0,1,31,32,33,63,64,65,127,128,129,255,256,257,511,512,513,1023,1024,1025");
	int turns = (int)p.i("turns", 3);
	int l = (int)p.i("l", 0);
	long long part = p.i("part", 0), parts = p.i("parts", 1);
	long long full = p.i("full", 1); /* verify everything at the turns */
	int fifo = (int)p.i("fifo", 0);
	bool done = p.i("done", 0) != 0;
	size_t max = 0;
	for (auto x : pts) max = std::max(max, (size_t)x);
	if (fifo) max = max * (size_t)(turns + 1) + 8;
	init_size = (size_t)p.i("size", 0);
	vec_setup(max);
	for (size_t i = 0; i < max; ++i) { hashv[i] = layout_hash(l, i); valv[i] = (u32)i; }
	bool even = l == 0 || l == 9 || (l == 8 && !fifo);
	acc_limit = vs.is_monitored && even ? 160 : 0;
	bool chain1 = even && T != &vs_hash[0];
	use_nodes(vs.node, max);
	used_struct = (T->size + 63) & ~(size_t)63;
	used_model = 0;
	std::vector<u8> member;
	std::vector<long long> t((size_t)turns);
	u64 cnt = 0;
	std::function<void(int)> rec = [&](int k) {
		if (out_of_time()) return;
		if (k == turns) {
			if ((long long)(cnt++ % (u64)parts) != part) return;
			Ints c(t.begin(), t.end());
			if (!vf_case(c)) return;
			std::string s = "insert up to / remove down to:";
			for (auto x : c) s += " " + std::to_string(x);
			vf_case_text(s);
			arena_reset();
			member.assign(max, 0);
			op_init(init_size);
			init_heap = heap_live();
			u32 lo = 0, hi = 0;
			auto verify = [&](bool deep) {
				size_t n = hi - lo;
				cb_member = &member;
				verify_counts(n, member);
				verify_size(n);
				if (!deep) return;
				for (u32 i = lo; i < hi && !g_pruned; ++i) {
					void* r = op_search(hashv[i], false, valv[i], member);
					CHECK(FUN, r == objp(i), "search() of a stored element returns object %ld", r ? objid(r) : -1);
					if (chain1) {
						void* b;
						{ Op o(OWN(OWNER), 0, RO); b = T->bucket(tp(), hashv[i]); }
						CHECK(C07, b == nodep(i) && !ptr_at(b, vs.node_next), "with %zu elements of evenly spread hashes a bucket has more than one", n);
					}
				}
				for (u32 i = hi; i < hi + 200 && i < max && !g_pruned; ++i) {
					void* r = op_search(hashv[i], false, valv[i], member);
					CHECK(FUN, !r, "search() finds a removed element");
				}
			};
			for (int k2 = 0; k2 < turns && !g_pruned; ++k2) {
				size_t want = (size_t)t[(size_t)k2];
				size_t steps = 0;
				while (hi - lo < want && !g_pruned && hi < max) {
					op_insert(hi);
					member[hi] = 1;
					++hi;
					size_t n = hi - lo;
					++steps;
					verify_size(n);
					if (full && chain1) {
						/* the load just after each insertion: the youngest element alone in its bucket */
						void* b;
						{ Op o(OWN(OWNER), 0, RO); b = T->bucket(tp(), hashv[hi - 1]); }
						CHECK(C07, b == nodep(hi - 1) && !ptr_at(b, vs.node_next), "with %zu elements of evenly spread hashes a bucket has more than one", n);
					}
				}
				while (hi - lo > want && !g_pruned) {
					u32 i = fifo ? lo : hi - 1;
					void* r;
					if (steps++ & 1) r = op_remove_existing(i);
					else r = op_remove(hashv[i], false, valv[i], member);
					CHECK(FUN, r == objp(i), "removal returns object %ld and not %u", r ? objid(r) : -1, i);
					member[i] = 0;
					node_release(i);
					if (fifo) ++lo; else --hi;
					verify_size(hi - lo);
				}
				verify(full || k2 == turns - 1);
			}
			if (!g_pruned && done) {
				/* deinitialized as it is, the elements released by foreach before */
				end_free(member, hi - lo, (cnt & 1) != 0);
			} else if (!g_pruned) {
				/* down to nothing: back to the initial size */
				while (hi > lo && !g_pruned) {
					u32 i = fifo ? lo : hi - 1;
					void* r = op_remove_existing(i);
					CHECK(FUN, r == objp(i), "removal returns another pointer");
					member[i] = 0;
					node_release(i);
					if (fifo) ++lo; else --hi;
				}
				verify(true);
				op_done();
			}
			++st.traces;
			return;
		}
		for (auto x : pts) {
			/* alternate: up, down, up, ... */
			if (k == 0 && !x) continue;
			if (k && (k & 1) && x >= t[(size_t)k - 1]) continue;
			if (k && !(k & 1) && x <= t[(size_t)k - 1]) continue;
			t[(size_t)k] = x;
			rec(k + 1);
		}
	};
	rec(0);
	st.sample(sfmt("%s: all the walks of %d turns between %zu sizes", T->name, turns, pts.size()));
	st.states = st.cases;
}

/* ------------------------------------------------------------------ */
/* amortized cost (C35): no history of inserts and removals costs more than
 * AMORT accesses per operation, but for a constant. All the cycles of the
 * graph of the states, each edge weighting its measured cost less AMORT */

struct CostSys : WalkSys {
	void apply(int op) override
	{
		WalkSys::apply(op);
		last = g_last_acc;
	}
	u64 last;
	void check() override {}
	bool want_fini() override { return false; }
};

JOB(cost_walk, "cost.walk")
{
	setup_table(table_of(p));
	u32 max = (u32)p.i("max", 300);
	CostSys s;
	s.max = max;
	s.fifo = p.i("fifo", 0) != 0;
	init_size = (size_t)p.i("size", 0);
	acc_limit = 0;
	int l = (int)p.i("l", 0);
	vec_setup(max);
	s.by.clear();
	for (u32 i = 0; i < max; ++i) { hashv[i] = layout_hash(l, i); valv[i] = i; s.by[hashv[i]].push_back(i); }
	use_nodes(vs.node, max);
	used_struct = (T->size + 63) & ~(size_t)63;
	used_model = sizeof(WM);
	struct E { u32 from, to; long long w; };
	std::vector<E> edges;
	u32 states = 1;
	g_edge = [&](u32 a, u32 b) {
		edges.push_back({ a, b, (long long)s.last - (long long)AMORT });
		states = std::max(states, b + 1);
		st.maxi("max_accesses", s.last);
	};
	bool replaying = g_replaying;
	g_replaying = false; /* the violation is of the whole graph */
	bool complete = bfs(s);
	g_edge = nullptr;
	g_replaying = replaying;
	if (g_pruned) return;
	/* heaviest paths from the initial state, round by round; still growing after as many rounds as states: a cycle that costs too much */
	std::vector<long long> d(states, -1);
	std::vector<u32> by(states, 0);
	const long long NONE = -(1ll << 60);
	for (auto& x : d) x = NONE;
	d[0] = 0;
	long long worst = 0;
	long long room = (long long)p.i("k", 4096);
	bool grow = true;
	u64 rounds = 0;
	for (; grow && rounds <= states; ++rounds) {
		grow = false;
		for (auto& e : edges)
			if (d[e.from] != NONE && d[e.from] + e.w > d[e.to]) {
				d[e.to] = d[e.from] + e.w;
				grow = true;
				worst = std::max(worst, d[e.to]);
			}
		if (worst > 100 * room + 1000000) break;
	}
	vf_case({ l });
	vf_case_text(sfmt("all the histories of up to %u elements, %s", max, s.fifo ? "removed from both ends" : "last in first out"));
	CHECK(C35, !grow, "some endless history of inserts and removals takes more than %llu memory accesses per operation", (unsigned long long)AMORT);
	CHECK(C35, worst <= room, "some history takes %lld memory accesses more than %llu per operation", worst, (unsigned long long)AMORT);
	st.num["rounds"] = rounds;
	st.num["worst_excess"] = (u64)worst;
	if (!complete) st.exhaustive = false;
}

/* up to a size, and there back and forth */
JOB(cost_turns, "cost.turns")
{
	setup_table(table_of(p));
	Ints ns = p.list("n", "1-140,255-258,383-386,511-514,767-770,1023-1026,2047-2050,4095-4098,8191-8194,16383-16386,32767-32770,65535-65538");
	long long part = p.i("part", 0), parts = p.i("parts", 1);
	int l = (int)p.i("l", 0);
	size_t mx = 0;
	for (auto x : ns) mx = std::max(mx, (size_t)x);
	mx = mx * 2 + 64;
	init_size = (size_t)p.i("size", 0);
	acc_limit = 0;
	vec_setup(mx);
	for (size_t i = 0; i < mx; ++i) { hashv[i] = layout_hash(l, i); valv[i] = (u32)i; }
	use_nodes(vs.node, mx);
	used_struct = (T->size + 63) & ~(size_t)63;
	used_model = 0;
	std::vector<u8> member(mx, 0);
	for (auto n : ns)
		for (int via = 0; via < 2; ++via) {
			if (n % parts != part) continue;
			if (out_of_time()) return;
			if (!vf_case({ n, via })) continue;
			vf_case_text(sfmt("%s to %lld elements, then back and forth", via ? "up to the double and down" : "up", n));
			arena_reset();
			op_init(init_size);
			size_t cnt = 0;
			u64 worst = 0;
			auto up = [&](size_t k) { for (; k && !g_pruned; --k) op_insert(cnt++); };
			auto down = [&](size_t k) {
				for (; k && cnt && !g_pruned; --k) {
					--cnt;
					void* r = op_remove_existing(cnt);
					CHECK(FUN, r == objp(cnt), "remove_existing returns another pointer");
					node_release(cnt);
				}
			};
			auto verify = [&] {
				u64 over = cum_cost > AMORT * cum_ops ? cum_cost - AMORT * cum_ops : 0;
				worst = std::max(worst, over);
				CHECK(C35, over <= 4096, "%llu operations around %lld elements make %llu memory accesses, over %llu for each", (unsigned long long)cum_ops, n, (unsigned long long)cum_cost, (unsigned long long)AMORT);
			};
			if (via) { up((size_t)n * 2); down((size_t)n); } else up((size_t)n);
			verify();
			/* the credit of what came before is not taken */
			for (size_t a : { 1, 2, 3, 5, 9 })
				for (int first = 0; first < 2; ++first) {
					cum_cost = cum_ops = 0;
					int times = n > 2000 ? 300 : 40;
					for (int k = 0; k < times && !g_pruned; ++k) {
						if (first) { up(a); down(a); } else { size_t b = std::min(a, cnt); down(b); up(b); }
					}
					u64 over = cum_cost > AMORT * cum_ops ? cum_cost - AMORT * cum_ops : 0;
					/* one resize may be due */
					CHECK(C35, over <= 4096 + 24 * (u64)n, "%llu operations around %lld elements make %llu memory accesses, over %llu for each", (unsigned long long)cum_ops, n, (unsigned long long)cum_cost, (unsigned long long)AMORT);
					st.maxi("max_accesses_per_operation_around_a_size", cum_cost / (cum_ops ? cum_ops : 1));
				}
			st.maxi("worst_excess", worst);
			down(cnt);
			if (!g_pruned) op_done();
			++st.traces;
		}
	st.sample(sfmt("%s: back and forth around %zu sizes", T->name, ns.size()));
	st.states = st.cases;
}

/* ------------------------------------------------------------------ */
/* fixed table: every requested size */

JOB(hash_sizes, "hash.sizes")
{
	setup_table(0);
	Ints sizes = p.list("sizes", "0-300");
	size_t n = (size_t)p.i("n", 24);
	Ints ranges = p.list("l", "0-5");
	vec_setup(n * 4);
	used_model = 0;
	acc_limit = 0;
	use_nodes(vs.node, n * 4);
	used_struct = (T->size + 63) & ~(size_t)63;
	std::vector<u8> member;
	for (auto size : sizes)
		for (auto l : ranges) {
			if (out_of_time()) return;
			if (!vf_case({ size, l })) continue;
			arena_reset();
			/* hashes at the edges of the table and beyond */
			size_t sz = (size_t)size;
			size_t base = l == 0 ? 0 : l == 1 ? sz - n / 2 : l == 2 ? (size_t)0 - n / 2 : l == 3 ? ((size_t)1 << (sizeof(size_t) * 4)) - n / 2 : l == 4 ? sz * 2 - n / 2 : 16 - n / 2;
			for (size_t i = 0; i < n; ++i) {
				hashv[i] = base + i;
				valv[i] = (u32)i;
			}
			member.assign(n * 4, 0);
			op_init(sz);
			init_heap = heap_live();
			size_t buckets = init_heap / sizeof(void*);
			CHECK(C04, buckets >= sz && buckets >= 1, "a table of %zu buckets requested has %zu", sz, buckets);
			CHECK(C04, (buckets & (buckets - 1)) == 0, "%zu buckets", buckets);
			CHECK(C36, buckets <= std::max((size_t)16, 2 * sz), "a table of %zu buckets requested has %zu", sz, buckets);
			for (size_t i = 0; i < n; ++i) { op_insert(i); member[i] = 1; }
			auto verify = [&](size_t cnt) {
				verify_counts(cnt, member);
				for (size_t i = 0; i < n && !g_pruned; ++i) {
					void* r = op_search(hashv[i], false, valv[i], member);
					CHECK(C04, r == (member[i] ? objp(i) : 0), "search() returns object %ld for element %zu", r ? objid(r) : -1, i);
					u32 id = (u32)i;
					verify_bucket(hashv[i], Expect{ &id, member[i] ? (size_t)1 : 0 }, member, cnt);
				}
			};
			verify(n);
			size_t cnt = n;
			for (size_t i = 0; i < n && !g_pruned; i += 2) {
				void* r = i & 2 ? op_remove_existing(i) : op_remove(hashv[i], false, valv[i], member);
				CHECK(C04, r == objp(i), "removal returns object %ld and not %zu", r ? objid(r) : -1, i);
				member[i] = 0;
				node_release(i);
				--cnt;
			}
			verify(cnt);
			op_done();
			++st.traces;
		}
	st.sample(sfmt("hashtable_init for %zu sizes, %zu hash ranges each", sizes.size(), ranges.size()));
	st.states = st.cases;
}

/* ------------------------------------------------------------------ */
/* equal hashes in a crowd: removal of each position of a run of equal
 * elements, with resizes triggered in between: order (C14) */

JOB(hash_order, "hash.order")
{
	setup_table(table_of(p));
	acc_limit = 0;
	init_size = 0;
	int k = (int)p.i("k", 4); /* equal elements */
	Ints sizes = p.list("pre", "0-40");
	size_t far = (size_t)p.i("far", 300);
	size_t mx = 0;
	for (auto s : sizes) mx = std::max(mx, (size_t)s);
	size_t tot = (size_t)k + std::max(mx, far) + 8;
	vec_setup(tot);
	use_nodes(vs.node, tot);
	used_struct = (T->size + 63) & ~(size_t)63;
	used_model = 0;
	std::vector<u8> member;
	/* elements 0..k-1 share a hash; the others fill. Insert the equal ones at every moment of the growth, then
	 * remove one of them, grow to far, shrink to nothing else */
	for (auto pre : sizes)
		for (int del = 0; del <= k; ++del)
			for (int hh = 0; hh < 3; ++hh)
				for (int spread = 0; spread < 2; ++spread) {
					if (out_of_time()) return;
					if (!vf_case({ pre, del, hh, spread })) continue;
					arena_reset();
					size_t H = hh == 0 ? 0 : hh == 1 ? 37 : (size_t)-1;
					for (int i = 0; i < k; ++i) { hashv[(size_t)i] = H; valv[(size_t)i] = (u32)i; }
					for (size_t i = (size_t)k; i < tot; ++i) { hashv[i] = spread ? (i % 7) * 512 + H : i; valv[i] = (u32)i; if (hashv[i] == H) hashv[i] += (size_t)1 << 30; }
					member.assign(tot, 0);
					op_init(0);
					init_heap = heap_live();
					size_t nf = 0; /* fillers stored */
					std::vector<u32> eq;
					auto fill_to = [&](size_t n) {
						while (nf < n) { op_insert((size_t)k + nf); member[(size_t)k + nf] = 1; ++nf; }
						while (nf > n) {
							--nf;
							void* r = op_remove_existing((size_t)k + nf);
							CHECK(FUN, r == objp((size_t)k + nf), "removal returns another pointer");
							member[(size_t)k + nf] = 0;
							node_release((size_t)k + nf);
						}
					};
					auto verify = [&]() {
						verify_bucket(H, Expect{ eq.data(), eq.size() }, member, nf + eq.size());
						void* r = op_search(H, true, 0, member);
						CHECK(FUN, (r != 0) == !eq.empty(), "search() is wrong");
						if (r && !eq.empty()) CHECK(C14, r == objp(eq[0]), "search() returns element %ld and not the oldest", objid(r));
					};
					for (int i = 0; i < k; ++i) {
						/* equal ones inserted at different sizes */
						fill_to((size_t)pre / (size_t)k * (size_t)(i + 1));
						op_insert((size_t)i);
						member[(size_t)i] = 1;
						eq.push_back((u32)i);
						verify();
					}
					if (del < k) {
						void* r = op_remove_existing((size_t)del);
						CHECK(FUN, r == objp((size_t)del), "removal returns another pointer");
						member[(size_t)del] = 0;
						node_release((size_t)del);
						eq.erase(eq.begin() + del);
						verify();
					}
					for (size_t f : { far / 8, far, far / 2, far / 8, (size_t)10, far, (size_t)0 }) {
						fill_to(f);
						verify();
						if (g_pruned) break;
					}
					if (g_pruned) continue;
					if (del < k) { /* back as the youngest */
						op_insert((size_t)del);
						member[(size_t)del] = 1;
						eq.push_back((u32)del);
						fill_to(far / 3);
						verify();
					}
					while (!eq.empty() && !g_pruned) {
						void* r = op_remove(H, true, 0, member);
						long g = r ? objid(r) : -1;
						CHECK(FUN, g >= 0 && g < k && member[(size_t)g], "removal by key returns object %ld", g);
						if (g_pruned) break;
						CHECK(C14, (u32)g == eq[0], "removal by key takes element %ld and not the oldest", g);
						eq.erase(std::find(eq.begin(), eq.end(), (u32)g));
						member[(size_t)g] = 0;
						node_release((size_t)g);
					}
					++st.traces;
				}
	st.sample(sfmt("%s: %d equal elements inserted during the growth, each removed, growth to %zu and back", T->name, k, far));
	st.states = st.cases;
}

/* ------------------------------------------------------------------ */
/* absent hashes one bit away from stored ones, with a comparison that
 * accepts everything, at every stage of the growth */

JOB(hash_near, "hash.near")
{
	setup_table(table_of(p));
	acc_limit = 0;
	init_size = (size_t)p.i("size", 0);
	const unsigned W = sizeof(size_t) * 8;
	std::vector<size_t> K = { 0, (size_t)-1, 1, (size_t)-2, (size_t)0x123456789abcdef1ull, (size_t)0xfedcba9876543210ull };
	for (unsigned b = 3; b < W; b += 4) { K.push_back((size_t)1 << b); K.push_back((size_t)-1 ^ ((size_t)1 << b)); K.push_back(((size_t)1 << b) - 1); }
	Ints sizes = p.list("pre", "0,1,7,8,20,31,32,33,40,63,65,100");
	size_t mx = 0;
	for (auto s : sizes) mx = std::max(mx, (size_t)s);
	Ints dups = p.list("dup", "1,2");
	const size_t D = (size_t)std::max(*std::max_element(dups.begin(), dups.end()), 2ll); /* the crowd is 0 to D - 1, D the element one bit away, the fillers follow */
	size_t tot = mx + D + 1;
	long long few = p.i("k", 0);
	if (few) K.resize((size_t)few);
	vec_setup(tot);
	use_nodes(vs.node, tot);
	used_struct = (T->size + 63) & ~(size_t)63;
	used_model = 0;
	std::vector<u8> member;
	for (auto pre : sizes)
		for (auto h : K)
			for (auto dup : dups) {
				if (out_of_time()) return;
				if (!vf_case({ pre, (long long)h, dup })) continue;
				arena_reset();
				member.assign(tot, 0);
				op_init(init_size);
				init_heap = heap_live();
				/* the crowd: hashes far from all of those looked for */
				const size_t P = (size_t)0x0f0f33cc5a690000ull ^ (size_t)0x69965aa500000ull;
				size_t n = 0;
				for (size_t i = 0; i < (size_t)pre; ++i) { hashv[D + 1 + i] = P + i; valv[D + 1 + i] = (u32)i; op_insert(D + 1 + i); member[D + 1 + i] = 1; ++n; }
				auto far = [&](size_t x) { return x - P >= tot; };
				const u32 its[1] = { (u32)D };
				std::vector<u32> mine;
				for (int i = 0; i < dup; ++i) { mine.push_back((u32)i); hashv[(size_t)i] = h; valv[(size_t)i] = (u32)i; op_insert((size_t)i); member[(size_t)i] = 1; ++n; }
				if (!far(h)) continue;
				for (unsigned b = 0; b < W && !g_pruned; ++b) {
					size_t q = h ^ ((size_t)1 << b);
					if (!far(q)) continue;
					void* r = op_search(q, true, 0, member);
					CHECK(FUN, !r, "search() of an absent hash %zx returns object %ld", q, r ? objid(r) : -1);
					r = op_remove(q, true, 0, member);
					CHECK(FUN, !r, "remove() of an absent hash %zx returns object %ld", q, r ? objid(r) : -1);
					if (g_pruned) break;
					verify_bucket(q, Expect{ 0, 0 }, member, n);
					/* both stored */
					hashv[D] = q;
					valv[D] = 0;
					op_insert(D);
					member[D] = 1;
					++n;
					verify_bucket(q, Expect{ its, 1 }, member, n);
					if (g_pruned) break;
					verify_bucket(h, Expect{ mine.data(), (size_t)dup }, member, n);
					r = op_search(h, true, 0, member);
					CHECK(FUN, r && objid(r) >= 0 && objid(r) < dup, "search() of hash %zx returns object %ld", h, r ? objid(r) : -1);
					r = op_search(q, true, 0, member);
					CHECK(FUN, r == objp(D), "search() of hash %zx returns object %ld", q, r ? objid(r) : -1);
					r = b & 1 ? op_remove(q, true, 0, member) : op_remove_existing(D);
					CHECK(FUN, r == objp(D), "removal of hash %zx returns object %ld", q, r ? objid(r) : -1);
					if (g_pruned) break;
					member[D] = 0;
					node_release(D);
					--n;
				}
				if (!g_pruned) {
					verify_bucket(h, Expect{ mine.data(), (size_t)dup }, member, n);
					verify_counts(n, member);
				}
				++st.traces;
			}
	st.sample(sfmt("%s: %zu hashes with %zu crowds, every hash one bit away searched, removed and stored beside", T->name, K.size(), sizes.size()));
	st.states = st.cases;
}

}
