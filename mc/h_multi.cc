/*
 * Several containers at once: C26.
 *
 * The oracle is always the container alone: whatever is interleaved with its
 * operations, each must return and show exactly what the same operations show
 * when nothing else runs.
 *
 *   multi.interleave   two operations of two containers, as coroutines
 *                      scheduled at every single memory access
 *   multi.nest         an operation run inside a callback of another one
 *   multi.product      every history of operations of two or more containers
 */
#include "vf.h"
#include <cstring>
#include <set>
#include <ucontext.h>

namespace {

enum Kind { LIST, HTABLE, HDYN, HLIN, TREE, TRIE, TRIEIN, ALLOC, ARR, ARROF, ARRBLK, ARRBLKOF, FUNC, TRIESH, NKIND };
const char* kname[NKIND] = { "list", "hashtable", "hashdyn", "hashlin", "tree", "trie", "trie_inplace", "allocator", "array", "arrayof", "arrayblk", "arrayblkof", "functions", "trie_shared" };

enum { MAXACT = 4, NSLOT = 128, STRIDE = 16384 };

size_t keyof(size_t e) { static const size_t k[8] = { 5, 5, 69, 1000003, 5, 6, 4096, 0x7fffffff }; return e < 8 ? k[e] : e * 7 + 100; }

enum Code { INIT, DONE, INS, INSH, REX, RKEY, SRCH, SRCHC, BUCK, EACH, EACHA, CNT, MEM, SORT, CAT, GROW, SET, GET, APPEND, AL, FR, FN, NCODE };
const char* cname[NCODE] = { "init", "done", "insert", "insert_head", "remove_existing", "remove", "search", "search_compare", "bucket", "foreach", "foreach_arg", "count", "memory_usage", "sort", "concat", "grow", "set", "get", "append", "alloc", "free", "function" };
struct Do { u8 code; u32 a; };
std::string dostr(const Do& d) { return sfmt("%s(%u)", cname[d.code], d.a); }

/* what the caller knows of a container; lives in the snapshotted memory */
struct AM {
	u8 live, nblk, size;
	u8 in[NSLOT];
	u32 blk[16]; /* offsets of the blocks in use, 0 if none */
	u8 blkid[16];
};

struct Actor;
Actor* g_cur; /* whose library call is in progress */

struct Actor {
	int kind = LIST, idx = 0;
	Actor* shared = 0; /* allocator of another one */
	std::vector<long long>* log = 0;

	unsigned owner() const { return 10 + (unsigned)idx; }
	u8* base() const { return sec_struct() + (size_t)idx * STRIDE; }
	u8* second() const { return base() + 8192; } /* allocator of a trie, second list */
	u8* abase() const { return shared ? shared->second() : second(); }
	AM& m() const { return ((AM*)sec_model())[idx]; }
	size_t slot(size_t e) const { return (size_t)idx * NSLOT + e; }
	u8* node(size_t e) const { return nodep(slot(e)); }
	u64 own() const { return OWN(owner()) | (shared ? OWN(shared->owner()) : 0); }
	bool hash() const { return kind >= HTABLE && kind <= HLIN; }
	bool trie() const { return kind == TRIE || kind == TRIEIN || kind == TRIESH; }
	bool arr() const { return kind >= ARR && kind <= ARRBLKOF; }
	const vs_hash_ops& H() const { return vs_hash[kind - HTABLE]; }
	const vs_trie_ops& T() const { return vs_trie[kind == TRIEIN]; }
	const vs_array_ops& A() const { return vs_array[kind - ARR]; }

	void put(long long v) { log->push_back(v); }
	long which(const void* o) const { return o ? objid(o) : -100; }
	void putobj(const void* o) { put(which(o)); }
	void gone(const void* o)
	{
		long e = which(o);
		if (e < 0 || e >= NSLOT || !m().in[e]) return;
		m().in[e] = 0;
		node_release(slot((size_t)e));
	}
	void putlist(void* n, size_t next, size_t data)
	{
		int guard = 0;
		for (; n; n = ptr_at(n, next)) {
			if (nodeid(n) < 0 || ++guard > 2000) { put(-7777); break; }
			putobj(ptr_at(n, data));
		}
		put(-5);
	}
	void exec(const Do& d);
	void observe();
	void reperm();
};

/* ---- callbacks: they log what they get, and may start a nested operation ---- */
Actor* g_nest; /* to be run inside the g_nest_at-th callback */
std::vector<Do> g_nest_do;
long g_nest_at = -1, g_calls;
Actor* g_nest2;
std::vector<Do> g_nest2_do;

void nested()
{
	if (g_calls++ != g_nest_at || !g_nest) return;
	Actor* was = g_cur;
	Actor* n = g_nest;
	std::vector<Do> dd;
	dd.swap(g_nest_do);
	g_nest = 0;
	/* a second level */
	if (g_nest2) {
		g_nest = g_nest2;
		g_nest2 = 0;
		g_nest_do = g_nest2_do;
		g_nest_at = 0;
		g_calls = 0;
	}
	for (auto& d : dd) n->exec(d);
	g_cur = was;
}
int sortkey(long e) { static const int k[8] = { 3, 1, 2, 1, 0, 3, 2, 5 }; return e < 0 ? 99 : e < 8 ? k[e] : (int)((unsigned)e * 37 % 23); }
int cmp_id(const void* a, const void* b)
{
	nested();
	g_cur->putobj(a);
	g_cur->putobj(b);
	return a == b ? 0 : 1;
}
int cmp_sort(const void* a, const void* b)
{
	nested();
	g_cur->putobj(a);
	g_cur->putobj(b);
	return sortkey(objid(a)) - sortkey(objid(b));
}
int cmp_order(const void* a, const void* b)
{
	nested();
	g_cur->putobj(a);
	g_cur->putobj(b);
	return (int)(objid(a) - objid(b));
}
int cmp_coarse(const void* a, const void* b)
{
	nested();
	g_cur->putobj(a);
	g_cur->putobj(b);
	return (int)(objid(a) / 2 - objid(b) / 2);
}
void each(void* o) { nested(); g_cur->putobj(o); }
void each_arg(void* arg, void* o) { nested(); g_cur->put(arg == (void*)(g_cur->base() + 5)); g_cur->putobj(o); }

struct In { Actor* was; In(Actor* a) : was(g_cur) { g_cur = a; } ~In() { g_cur = was; } };

void Actor::exec(const Do& d)
{
	In in(this);
	size_t e = d.a;
	unsigned al = shared ? shared->owner() : owner();
	put(d.code * 1000 + d.a);
	switch (d.code) {
	case INIT: {
		if (m().live) return;
		m().live = 1;
		size_t sz = kind == LIST ? vs_list.size : hash() ? H().size : kind == TREE ? vs_tree.size : trie() ? T().size : kind == ALLOC ? vs_alloc.size : arr() ? A().size : 32;
		perm(base(), sz, owner());
		if (kind == LIST) {
			perm(second(), vs_list.size, owner());
			Op o(own(), al);
			vs_list.init(base());
			vs_list.init(second());
		} else if (hash()) {
			Op o(own(), al);
			H().init(base(), 4);
		} else if (kind == TREE) {
			Op o(own(), al);
			vs_tree.init(base(), cmp_order);
		} else if (trie()) {
			if (kind == TRIE) {
				perm(second(), vs_alloc.size, owner());
				Op o(own(), al);
				vs_alloc.init(second(), vs.trie_block, vs.trie_block);
			}
			Op o(own(), al);
			T().init(base(), abase());
		} else if (kind == ALLOC) {
			Op o(own(), al);
			vs_alloc.init(base(), 40, 8);
		} else if (arr()) {
			Op o(own(), al);
			A().init(base(), 8);
		} else if (kind == FUNC) {
			/* a key of 26 bytes, also a string */
			for (int i = 0; i < 26; ++i) base()[i] = (u8)(33 + idx * 57 + i * 3);
			base()[25] = 0;
			perm(base(), 26, owner());
		}
		return;
	}
	case DONE: {
		if (!m().live) return;
		if (hash()) { Op o(own(), al); H().done(base()); }
		else if (kind == TRIE) { Op o(own(), al); vs_alloc.done(second()); }
		else if (kind == ALLOC) { Op o(own(), al); vs_alloc.done(base()); }
		else if (arr()) { Op o(own(), al); A().done(base()); }
		perm(base(), STRIDE, 0);
		for (size_t i = 0; i < NSLOT; ++i) if (m().in[i]) { m().in[i] = 0; node_release(slot(i)); }
		memset(&m(), 0, sizeof(AM));
		put((long long)heap_live_owner(owner()));
		return;
	}
	case INS:
	case INSH: {
		if (kind == TREE) {
			/* of elements never inserted: equal to one in the tree or not */
			bool was = m().in[e];
			if (was) {
				/* another node for an equal object */
				node_prepare(slot(NSLOT - 1), owner());
				void* r;
				{ Op o(own(), al); r = vs_tree.insert(base(), node(NSLOT - 1), objp(e)); }
				putobj(r);
				node_release(slot(NSLOT - 1));
				return;
			}
			m().in[e] = 1;
			node_prepare(slot(e), owner());
			void* r;
			{ Op o(own(), al); r = vs_tree.insert(base(), node(e), objp(e)); }
			putobj(r);
			return;
		}
		if (m().in[e]) return;
		m().in[e] = 1;
		node_prepare(slot(e), owner());
		Op o(own(), al);
		if (kind == LIST) { if (d.code == INSH) vs_list.insert_head(base(), node(e), objp(e)); else vs_list.insert_tail(base(), node(e), objp(e)); }
		else if (hash()) H().insert(base(), node(e), objp(e), keyof(e));
		else if (trie()) T().insert(base(), node(e), objp(e), keyof(e));
		return;
	}
	case REX: {
		if (!m().in[e]) return;
		void* r = 0;
		{
			Op o(own(), al);
			if (kind == LIST) r = vs_list.remove_existing(base(), node(e));
			else if (hash()) r = H().remove_existing(base(), node(e));
			else if (kind == TREE) r = vs_tree.remove_existing(base(), node(e));
			else r = T().remove_existing(base(), node(e));
		}
		putobj(r);
		gone(r);
		return;
	}
	case RKEY: {
		void* r = 0;
		{
			Op o(own(), al);
			if (hash()) r = H().remove(base(), cmp_id, objp(e), keyof(e));
			else if (kind == TREE) r = vs_tree.remove(base(), objp(e));
			else r = T().remove(base(), keyof(e));
		}
		putobj(r);
		gone(r);
		return;
	}
	case SRCH:
	case SRCHC: {
		void* r = 0;
		{
			Op o(own(), al);
			if (hash()) r = H().search(base(), cmp_id, objp(e), keyof(e));
			else if (kind == TREE) r = d.code == SRCHC ? vs_tree.search_compare(base(), cmp_coarse, objp(e)) : vs_tree.search(base(), objp(e));
			else r = T().search(base(), keyof(e));
		}
		putobj(r);
		return;
	}
	case BUCK: {
		void* b;
		{ Op o(own(), al); b = hash() ? H().bucket(base(), keyof(e)) : T().bucket(base(), keyof(e)); }
		if (hash()) {
			/* other elements may be in the bucket of a hash: those with this hash count */
			int guard = 0;
			for (; b; b = ptr_at(b, vs.node_next)) {
				if (nodeid(b) < 0 || ++guard > 2000) { put(-7777); break; }
				long x = which(ptr_at(b, vs.node_data));
				if (x < 0 || keyof((size_t)x) == keyof(e)) put(x);
			}
			put(-5);
		} else
			putlist(b, T().next, T().data);
		return;
	}
	case EACH: {
		Op o(own(), al);
		if (kind == LIST) vs_list.foreach(base(), each);
		else if (hash()) H().foreach(base(), each);
		else vs_tree.foreach(base(), each);
		return;
	}
	case EACHA: {
		Op o(own(), al);
		void* arg = base() + 5;
		if (kind == LIST) vs_list.foreach_arg(base(), each_arg, arg);
		else if (hash()) H().foreach_arg(base(), each_arg, arg);
		else vs_tree.foreach_arg(base(), each_arg, arg);
		return;
	}
	case CNT: {
		long long r = 0;
		{
			Op o(own(), al);
			if (kind == LIST) r = (long long)vs_list.count(base()) * 2 + (vs_list.empty(base()) != 0);
			else if (hash()) r = (long long)H().count(base());
			else if (kind == TREE) r = (long long)vs_tree.count(base());
			else if (trie()) r = (long long)T().count(base());
			else if (arr()) r = (long long)A().count(base());
		}
		put(r);
		return;
	}
	case MEM: {
		long long r = 0;
		{
			Op o(own(), al);
			if (hash()) r = (long long)H().memory_usage(base());
			else if (kind == TREE) r = (long long)vs_tree.memory_usage(base());
			else if (trie()) r = (long long)T().memory_usage(base());
			else if (kind == ALLOC) r = (long long)vs_alloc.memory_usage(base());
			else if (arr()) r = (long long)A().memory_usage(base());
		}
		put(r);
		if (kind == TRIE) {
			{ Op o(own(), al); r = (long long)vs_alloc.memory_usage(second()); }
			put(r);
		}
		return;
	}
	case SORT: {
		Op o(own(), al);
		vs_list.sort(base(), cmp_sort);
		return;
	}
	case CAT: {
		/* two more elements through a second list */
		for (size_t k = e; k < e + 2; ++k) {
			if (m().in[k]) return;
			m().in[k] = 1;
			node_prepare(slot(k), owner());
			Op o(own(), al);
			vs_list.insert_tail(second(), node(k), objp(k));
		}
		Op o(own(), al);
		vs_list.concat(base(), second());
		vs_list.init(second());
		return;
	}
	case GROW: {
		Op o(own(), al);
		A().grow(base(), e);
		return;
	}
	case SET: {
		size_t n;
		{ Op o(own(), al); n = A().count(base()); }
		put((long long)n);
		if (e >= n) return;
		if (A().set) { Op o(own(), al); A().set(base(), e, objp(e % 100)); }
		else {
			u8* p;
			{ Op o(own(), al); p = (u8*)A().ref(base(), e); }
			if (!heap_in_block(p, 8)) { put(-7776); return; }
			u64 v = 0x1111 * (e + 1);
			mcopy(p, &v, 8);
		}
		return;
	}
	case GET: {
		size_t n;
		{ Op o(own(), al); n = A().count(base()); }
		put((long long)n);
		if (e >= n) return;
		if (A().get) { void* r; { Op o(own(), al); r = A().get(base(), e); } putobj(r); }
		else {
			u8* p;
			{ Op o(own(), al); p = (u8*)A().ref(base(), e); }
			if (!heap_in_block(p, 8)) { put(-7776); return; }
			u64 v;
			mcopy(&v, p, 8);
			put((long long)v);
		}
		return;
	}
	case APPEND: {
		if (A().insert) { Op o(own(), al); A().insert(base(), objp(e)); }
		else {
			size_t n;
			{ Op o(own(), al); n = A().count(base()); }
			{ Op o(own(), al); A().grow(base(), n + 1); }
		}
		return;
	}
	case AL: {
		if (m().nblk >= 15) return;
		u8* p;
		{ Op o(own(), al); p = (u8*)vs_alloc.alloc(base()); }
		if (!p || !heap_in_block(p, 40)) { put(-7776); return; }
		put((long long)((uintptr_t)p % 8));
		const Blk* hb = heap_find(p);
		put(hb && hb->owner == owner());
		int i = m().nblk++;
		m().blk[i] = (u32)(p - sec_data());
		u8 id = 1;
		for (bool again = true; again;) {
			again = false;
			for (int j = 0; j < i; ++j) if (m().blkid[j] == id) { ++id; again = true; }
		}
		m().blkid[i] = id;
		mfill(p, id, 40);
		perm(p, 40, 50 + (unsigned)idx);
		return;
	}
	case FN: {
		if (!m().live) return;
		u64 r = 0;
		{
			Op o(own(), 0, RO);
			switch (e) {
			case 0: r = vs_hash_u32(7 + (u32)idx, base(), 26); break;
			case 1: r = vs_hash_u64(7 + (u32)idx, base(), 26); break;
			case 2: r = vs_hash_u32(7 + (u32)idx, base() + 1, 12); break;
			case 3: r = vs_hash_u64(7 + (u32)idx, base() + 1, 5); break;
			case 4: r = vs_strhash_u32(7 + (u32)idx, base()); break;
			case 5: r = vs_strhash_u32(7 + (u32)idx, base() + 20); break;
			case 6: r = vs_inthash_u32(0x12345678u * (u32)(1 + idx)); break;
			case 7: r = vs_inthash_u64(0x123456789abcdefull * (u64)(1 + idx)); break;
			case 8: r = vs_ilog2_u32(0x1234u << idx * 5) + 100 * vs_ctz_u32(0x1230u << idx * 5) + 10000 * (u64)vs_roundup_u32(0x1231u << idx * 5); break;
			}
		}
		put((long long)r);
		return;
	}
	case FR: {
		if (e >= m().nblk) return;
		u8* p = sec_data() + m().blk[e];
		perm(p, 40, owner());
		for (; e + 1 < m().nblk; ++e) { m().blk[e] = m().blk[e + 1]; m().blkid[e] = m().blkid[e + 1]; }
		--m().nblk;
		m().blk[m().nblk] = 0;
		m().blkid[m().nblk] = 0;
		Op o(own(), al);
		vs_alloc.free(base(), p);
		return;
	}
	}
}

/* everything the caller can see */
void Actor::observe()
{
	In in(this);
	put(m().live);
	if (!m().live || kind == FUNC) return;
	exec({ CNT, 0 });
	exec({ MEM, 0 });
	if (kind == LIST || hash() || kind == TREE) exec({ EACH, 0 });
	if (kind == LIST) {
		void* h;
		{ Op o(own(), 0); h = vs_list.head(base()); }
		putlist(h, vs.node_next, vs.node_data);
		{ Op o(own(), 0); h = vs_list.tail(base()); }
		putobj(h ? ptr_at(h, vs.node_data) : 0);
	}
	std::set<size_t> seen;
	if (hash() || trie())
		for (u32 e = 0; e < 24; ++e)
			if (seen.insert(keyof(e)).second) exec({ BUCK, e });
	if (kind == TREE)
		for (u32 e = 0; e < 8; ++e) exec({ SRCH, e });
	if (arr()) {
		size_t n;
		{ Op o(own(), 0); n = A().count(base()); }
		for (u32 i = 0; i < n && i < 12; ++i) exec({ GET, i });
		if (n > 12) for (u32 i = (u32)n - 3; i < n; ++i) exec({ GET, i });
	}
	if (kind == ALLOC)
		for (int i = 0; i < m().nblk; ++i) {
			u8* p = sec_data() + m().blk[i];
			bool ok = true;
			for (int k = 0; k < 40; ++k) ok = ok && p[k] == m().blkid[i];
			put(ok);
			for (int j = 0; j < i; ++j) put(m().blk[i] >= m().blk[j] + 40 || m().blk[j] >= m().blk[i] + 40);
		}
}

void Actor::reperm()
{
	if (!m().live) return;
	size_t sz = kind == LIST ? vs_list.size : hash() ? H().size : kind == TREE ? vs_tree.size : trie() ? T().size : kind == ALLOC ? vs_alloc.size : arr() ? A().size : 26;
	perm(base(), sz, owner());
	if (kind == LIST) perm(second(), vs_list.size, owner());
	if (kind == TRIE) perm(second(), vs_alloc.size, owner());
	for (size_t e = 0; e < NSLOT; ++e) if (m().in[e]) perm(node(e), node_size, owner());
	for (int i = 0; i < m().nblk; ++i) perm(sec_data() + m().blk[i], 40, 50 + (unsigned)idx);
}

/* ------------------------------------------------------------------ */
/* situations: a container in some state, and an operation */

struct Sit { int kind; std::vector<Do> pre; Do op; };

void add(std::vector<Sit>& v, int kind, const std::vector<Do>& pre, std::vector<Do> ops)
{
	for (auto& o : ops) v.push_back({ kind, pre, o });
}
std::vector<Do> ins(u32 n, u32 first = 0) { std::vector<Do> r = { { INIT, 0 } }; for (u32 i = 0; i < n; ++i) r.push_back({ INS, first + i }); return r; }
std::vector<Do> plus(std::vector<Do> a, std::initializer_list<Do> b) { a.insert(a.end(), b); return a; }

std::vector<Sit> situations(bool all)
{
	std::vector<Sit> v;
	for (int k = 0; k < NKIND; ++k) {
		if (k == TRIESH) continue;
		v.push_back({ k, {}, { INIT, 0 } });
		switch (k) {
		case LIST:
			add(v, k, ins(0), { { INS, 0 }, { SORT, 0 }, { CAT, 40 }, { EACH, 0 } });
			add(v, k, ins(3), { { INS, 5 }, { INSH, 5 }, { REX, 0 }, { REX, 1 }, { REX, 2 }, { CAT, 40 }, { EACH, 0 }, { EACHA, 0 }, { CNT, 0 }, { SORT, 0 } });
			add(v, k, ins(6), { { SORT, 0 } });
			if (all) { add(v, k, ins(1), { { REX, 0 }, { SORT, 0 }, { EACH, 0 } }); add(v, k, ins(2), { { SORT, 0 } }); add(v, k, ins(13), { { SORT, 0 }, { EACH, 0 } }); }
			break;
		case HTABLE:
		case HDYN:
		case HLIN: {
			std::vector<u32> ms = all ? std::vector<u32>{ 0, 1, 3, 5, 8, 9, 16, 17, 32, 33, 34, 50, 64, 65, 66 } : k == HTABLE ? std::vector<u32>{ 0, 3 } : k == HDYN ? std::vector<u32>{ 0, 3, 8, 9, 16 } : std::vector<u32>{ 0, 3, 32, 33, 50 };
			for (u32 m : ms) {
				std::vector<Do> ops = { { INS, 100 } };
				if (m) ops.insert(ops.end(), { { REX, 0 }, { RKEY, m - 1 } });
				if (m && (m == 3 || all)) ops.insert(ops.end(), { { SRCH, 1 }, { SRCH, 100 }, { RKEY, 100 }, { BUCK, 0 }, { EACH, 0 }, { EACHA, 0 }, { MEM, 0 }, { CNT, 0 } });
				if (m == 3 || m == 33 || m == 9) ops.push_back({ DONE, 0 });
				add(v, k, ins(m), ops);
				/* on the way down too */
				if (m >= 16) {
					std::vector<Do> pre = ins(m);
					for (u32 i = 0; i < m; ++i) {
						pre.push_back({ REX, i });
						u32 left = m - i - 1;
						if (left <= 3 || left == 8 || left == 16 || left == 32 || (all && left > 32)) add(v, k, pre, { { INS, 100 }, { REX, i + 1 < m ? i + 1 : 101 } });
					}
				}
			}
			break;
		}
		case TREE:
			add(v, k, ins(0), { { INS, 0 }, { SRCH, 0 }, { RKEY, 0 }, { EACH, 0 } });
			add(v, k, ins(2), { { INS, 2 }, { INS, 7 } });
			add(v, k, ins(7), { { INS, 8 }, { INS, 3 }, { RKEY, 3 }, { REX, 3 }, { REX, 0 }, { SRCH, 4 }, { SRCHC, 4 }, { SRCH, 50 }, { RKEY, 50 }, { EACH, 0 }, { EACHA, 0 }, { MEM, 0 } });
			if (all) add(v, k, ins(20), { { INS, 50 }, { REX, 7 }, { RKEY, 0 }, { EACH, 0 }, { REX, 15 } });
			break;
		case TRIE:
		case TRIEIN:
			add(v, k, ins(0), { { INS, 0 }, { SRCH, 0 }, { RKEY, 0 } });
			add(v, k, ins(1), { { INS, 1 }, { INS, 2 }, { INS, 3 }, { INS, 7 }, { REX, 0 } });
			add(v, k, ins(5), { { INS, 6 }, { RKEY, 0 }, { RKEY, 2 }, { REX, 3 }, { REX, 1 }, { SRCH, 3 }, { SRCH, 6 }, { BUCK, 0 }, { MEM, 0 }, { CNT, 0 } });
			if (k == TRIE) add(v, k, ins(5), { { DONE, 0 } });
			if (all) add(v, k, ins(30), { { INS, 100 }, { REX, 7 }, { RKEY, 20 } });
			break;
		case ALLOC:
			add(v, k, { { INIT, 0 } }, { { AL, 0 }, { DONE, 0 } });
			add(v, k, { { INIT, 0 }, { AL, 0 }, { AL, 0 } }, { { AL, 0 }, { FR, 0 }, { FR, 1 }, { DONE, 0 }, { MEM, 0 } });
			add(v, k, { { INIT, 0 }, { AL, 0 }, { AL, 0 }, { FR, 0 } }, { { AL, 0 }, { FR, 0 } });
			break;
		case FUNC:
			for (u32 i = 0; i < 9; ++i) v.push_back({ k, { { INIT, 0 } }, { FN, i } });
			break;
		default: /* arrays */
			add(v, k, { { INIT, 0 } }, { { APPEND, 1 }, { GROW, 1 }, { GROW, 0 }, { DONE, 0 } });
			add(v, k, { { INIT, 0 }, { GROW, 64 }, { SET, 3 } }, { { APPEND, 1 }, { GROW, 65 }, { GROW, 300 }, { SET, 63 }, { GET, 3 }, { GET, 5 }, { MEM, 0 }, { DONE, 0 } });
			add(v, k, { { INIT, 0 }, { GROW, 128 }, { SET, 3 } }, { { GROW, 129 } });
		}
	}
	return v;
}

void memory(int n)
{
	used_struct = (size_t)n * STRIDE;
	used_model = sizeof(AM) * (size_t)n;
	use_nodes(std::max(vs.node, vs.inode), (size_t)n * NSLOT);
}

typedef std::vector<long long> Log;
std::string simd(const Sit& s) { return sfmt("%s after %zu operations: %s", kname[s.kind], s.pre.size(), dostr(s.op).c_str()); }

Log run_solo(Actor& a, const Sit& s, bool op, Log* obs, u64* calls = 0)
{
	Log l, pl;
	a.log = &pl;
	for (auto& d : s.pre) a.exec(d);
	g_calls = 0;
	g_nest = 0;
	g_nest2 = 0;
	a.log = &l;
	if (op) a.exec(s.op);
	if (calls) *calls = (u64)g_calls;
	if (obs) { a.log = obs; a.observe(); }
	return l;
}
std::string diff(const Log& a, const Log& b)
{
	size_t i = 0;
	while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
	std::string s = sfmt("at value %zu: ", i);
	s += i < a.size() ? std::to_string(a[i]) : "end";
	s += " instead of ";
	s += i < b.size() ? std::to_string(b[i]) : "end";
	return s;
}

/* ------------------------------------------------------------------ */
/* interleavings at the memory accesses */

struct Co { ucontext_t ctx; std::vector<u8> stack; bool done; Actor* a; const Sit* s; OpCtx op; bool in_op; Actor* cur; };
Co co[2];
ucontext_t co_main;
int co_cur;
long co_left; /* accesses until the next switch */
std::vector<long> co_plan;
size_t co_next;
u64 co_count[2];
struct Acc { uintptr_t p; u8 n; bool wr; };
std::vector<Acc>* co_rec;
}
extern uintptr_t g_stk_lo, g_stk_size;
namespace {
uintptr_t main_lo, main_size;

void co_switch(int to)
{
	int from = co_cur;
	co[from].op = g_op;
	co[from].in_op = g_in_op;
	co[from].cur = g_cur;
	co_cur = to;
	g_op = co[to].op;
	g_in_op = co[to].in_op;
	g_cur = co[to].cur;
	g_stk_lo = (uintptr_t)co[to].stack.data();
	g_stk_size = co[to].stack.size();
	swapcontext(&co[from].ctx, &co[to].ctx);
}
void co_hook(const void* p, unsigned n, bool wr)
{
	if (co_rec) co_rec->push_back({ (uintptr_t)p, (u8)n, wr });
	++co_count[co_cur];
	if (co_left < 0) return;
	if (co_left-- > 0) return;
	/* the access in progress happens after the switch */
	co_left = co_next < co_plan.size() ? co_plan[co_next++] : -1;
	int to = 1 - co_cur;
	if (!co[to].done) co_switch(to);
}
void co_body(int i)
{
	Co& c = co[i];
	c.a->exec(c.s->op);
	c.done = true;
	g_in_op = false;
	if (!co[1 - i].done) {
		/* the other goes on, alone */
		co_left = -1;
		co_cur = 1 - i;
		g_op = co[1 - i].op;
		g_in_op = co[1 - i].in_op;
		g_cur = co[1 - i].cur;
		g_stk_lo = (uintptr_t)co[1 - i].stack.data();
		g_stk_size = co[1 - i].stack.size();
		setcontext(&co[1 - i].ctx);
	}
	g_stk_lo = main_lo;
	g_stk_size = main_size;
	setcontext(&co_main);
}
/* plan: how many accesses each turn lasts, the last ones run to the end */
void co_run(Actor* a, const Sit& sa, Actor* b, const Sit& sb, int first, const std::vector<long>& plan)
{
	Actor* as[2] = { a, b };
	const Sit* ss[2] = { &sa, &sb };
	main_lo = g_stk_lo;
	main_size = g_stk_size;
	for (int i = 0; i < 2; ++i) {
		if (co[i].stack.empty()) co[i].stack.resize(512 << 10);
		co[i].done = false;
		co[i].a = as[i];
		co[i].s = ss[i];
		co[i].op = OpCtx();
		co[i].in_op = false;
		co[i].cur = 0;
		getcontext(&co[i].ctx);
		co[i].ctx.uc_stack.ss_sp = co[i].stack.data();
		co[i].ctx.uc_stack.ss_size = co[i].stack.size();
		co[i].ctx.uc_link = 0;
		makecontext(&co[i].ctx, (void (*)())co_body, 1, i);
		co_count[i] = 0;
	}
	co_plan = plan;
	co_next = 0;
	co_left = co_next < co_plan.size() ? co_plan[co_next++] : -1;
	co_cur = first;
	g_stk_lo = (uintptr_t)co[first].stack.data();
	g_stk_size = co[first].stack.size();
	g_op = OpCtx();
	g_in_op = false;
	g_access_hook = co_hook;
	swapcontext(&co_main, &co[first].ctx);
	g_access_hook = 0;
	g_op = OpCtx();
	g_in_op = false;
	g_cur = 0;
	g_stk_lo = main_lo;
	g_stk_size = main_size;
}

struct RepermSys : Sys {
	std::vector<Actor*> as;
	void init() override {}
	void ops(std::vector<int>&) override {}
	void apply(int) override {}
	void (*more)() = 0;
	void reperm() override { for (auto a : as) a->reperm(); if (more) more(); }
	std::string opname(int) override { return ""; }
};

JOB(multi_interleave, "multi.interleave")
{
	if (!vs.is_monitored) { fprintf(stderr, "needs the monitored build\n"); exit(3); }
	auto sits = situations(p.i("all", 0) != 0);
	long long part = p.i("part", 0), parts = p.i("parts", 1);
	int bound = (int)p.i("preempt", 2);
	long long cap3 = p.i("cap3", 60000); /* three preemptions only for pairs with fewer schedules than this */
	bool same = p.i("same", 0) != 0; /* pairs of the same kind only */
	if (p.i("funcs", 0)) { std::vector<Sit> f; for (auto& x : sits) if (x.kind == FUNC && x.op.code == FN) f.push_back(x); sits = f; }
	/* the value of a function depends on its arguments only */
	auto fmask = [&](const Sit& x) { u64 m = C26; if (x.kind == FUNC && x.op.code == FN) m |= x.op.a <= 3 ? C22 : x.op.a <= 5 ? C23 : x.op.a <= 7 ? C24 : C25; return m; };
	memory(2);
	u64 c = 0, conflicts = 0;
	std::vector<Log> soloA(sits.size()), soloB(sits.size()), obsA(sits.size()), obsB(sits.size());
	Actor A, B;
	A.idx = 0;
	B.idx = 1;
	std::vector<char> have(sits.size());
	auto solo = [&](size_t i) {
		if (have[i]) return;
		have[i] = 1;
		A.kind = B.kind = sits[i].kind;
		arena_reset();
		soloA[i] = run_solo(A, sits[i], true, &obsA[i]);
		arena_reset();
		soloB[i] = run_solo(B, sits[i], true, &obsB[i]);
	};
	for (size_t i = 0; i < sits.size(); ++i) for (size_t j = i; j < sits.size(); ++j) {
		if (same && sits[i].kind != sits[j].kind) continue;
		if ((long long)(c++ % (u64)parts) != part) continue;
		if (g_replaying && (g_replay.size() < 2 || g_replay[0] != (long long)i || g_replay[1] != (long long)j)) continue;
		if (out_of_time()) return;
		solo(i);
		solo(j);
		A.kind = sits[i].kind;
		B.kind = sits[j].kind;
		RepermSys rs;
		rs.as = { &A, &B };
		Snap snap;
		arena_reset();
		run_solo(A, sits[i], false, 0);
		run_solo(B, sits[j], false, 0);
		snap_save(snap);
		auto one = [&](int first, const std::vector<long>& plan) {
			Ints cs = { (long long)i, (long long)j, first };
			for (auto x : plan) cs.push_back(x);
			if (!vf_case(cs)) return;
			if (g_replaying) {
				std::string t = sfmt("A: %s; B: %s; %s runs first; switches after accesses", simd(sits[i]).c_str(), simd(sits[j]).c_str(), first ? "B" : "A");
				for (auto x : plan) t += sfmt(" %ld", x);
				vf_case_text(t);
			}
			Log la, lb, oa, ob;
			A.log = &la;
			B.log = &lb;
			co_run(&A, sits[i], &B, sits[j], first, plan);
			A.log = &oa;
			A.observe();
			B.log = &ob;
			B.observe();
			if (la != soloA[i] || oa != obsA[i])
				vf_fail(fmask(sits[i]), "interleaved with [%s], [%s] behaves differently than alone, %s", simd(sits[j]).c_str(), simd(sits[i]).c_str(), diff(la != soloA[i] ? la : oa, la != soloA[i] ? soloA[i] : obsA[i]).c_str());
			if (lb != soloB[j] || ob != obsB[j])
				vf_fail(fmask(sits[j]), "interleaved with [%s], [%s] behaves differently than alone, %s", simd(sits[i]).c_str(), simd(sits[j]).c_str(), diff(lb != soloB[j] ? lb : ob, lb != soloB[j] ? soloB[j] : obsB[j]).c_str());
			snap_restore(snap, rs);
		};
		/* sequentially, both orders, recording the accesses */
		std::vector<Acc> ra, rb;
		long na, nb;
		{
			snap_restore(snap, rs);
			Log la, lb;
			A.log = &la;
			B.log = &lb;
			std::vector<Acc> r;
			co_rec = &r;
			co_run(&A, sits[i], &B, sits[j], 0, {});
			co_rec = 0;
			na = (long)co_count[0];
			nb = (long)co_count[1];
			ra.assign(r.begin(), r.begin() + na);
			rb.assign(r.begin() + na, r.end());
			snap_restore(snap, rs);
		}
		/* if the accesses have no conflict every interleaving, with any number of switches, is equivalent to this one */
		bool conflict = false;
		{
			std::unordered_map<uintptr_t, int> w; /* bit 0 read by A, bit 1 written by A */
			for (auto& x : ra) for (unsigned k = 0; k < x.n; ++k) w[x.p + k] |= x.wr ? 3 : 1;
			for (auto& x : rb) for (unsigned k = 0; k < x.n && !conflict; ++k) { auto f = w.find(x.p + k); if (f != w.end() && (x.wr || (f->second & 2))) conflict = true; }
		}
		if (conflict) ++conflicts;
		one(0, {});
		one(1, {});
		if (bound >= 1) { /* A i | B j | A | B with j == nb: one preemption */
			for (int first = 0; first < 2; ++first) {
				long n1 = first ? nb : na, n2 = first ? na : nb;
				for (long x = 1; x <= n1 - 1; ++x) {
					one(first, { x });
					if (bound >= 2) for (long y = 1; y <= n2 - 1; ++y) {
						one(first, { x, y });
						if (bound >= 3 && (u64)n1 * (u64)n1 * (u64)n2 < (u64)cap3)
							for (long z = 1; z <= n1 - x - 1; ++z) one(first, { x, y, z });
					}
				}
			}
		}
		++st.num["pairs"];
		st.transitions += 0;
		st.maxi("max_accesses", (u64)std::max(na, nb));
		++g_progress;
	}
	st.num["pairs_with_conflicting_accesses"] = conflicts;
	st.sample(sfmt("%zu situations, pairs of %s, every schedule of their memory accesses with at most %d preemptions; conflicting accesses in %llu pairs", sits.size(), same ? "the same kind" : "any kinds", bound, (unsigned long long)conflicts));
}

/* ------------------------------------------------------------------ */
/* operations started inside callbacks */

JOB(multi_nest, "multi.nest")
{
	auto sits = situations(p.i("all", 1) != 0);
	bool deep = p.i("deep", 0) != 0; /* and a third operation inside the first callback of the second one */
	long long part = p.i("part", 0), parts = p.i("parts", 1);
	memory(3);
	Actor A, B, C;
	A.idx = 0;
	B.idx = 1;
	C.idx = 2;
	size_t n = sits.size();
	std::vector<Log> L[3], O[3];
	std::vector<u64> calls(n);
	for (int k = 0; k < 3; ++k) {
		L[k].resize(n);
		O[k].resize(n);
		for (size_t i = 0; i < n; ++i) {
			Actor a;
			a.idx = k;
			a.kind = sits[i].kind;
			arena_reset();
			L[k][i] = run_solo(a, sits[i], true, &O[k][i], &calls[i]);
		}
	}
	u64 c = 0;
	for (size_t i = 0; i < n; ++i) {
		if (!calls[i]) continue;
		++st.num["operations_with_callbacks"];
		for (size_t j = 0; j < n; ++j) {
			if (deep && !calls[j]) continue;
			if ((long long)(c++ % (u64)parts) != part) continue;
			if (out_of_time()) return;
			for (u64 at = 0; at < calls[i]; ++at) for (size_t k = 0; k < (deep ? n : 1); ++k) {
				if (deep && sits[k].kind != sits[i].kind && sits[k].kind != sits[j].kind) continue;
				if (!vf_case({ (long long)i, (long long)j, (long long)at, (long long)k })) continue;
				A.kind = sits[i].kind;
				B.kind = sits[j].kind;
				C.kind = sits[k].kind;
				std::string t = sfmt("in callback %llu of [%s]: [%s]", (unsigned long long)at, simd(sits[i]).c_str(), simd(sits[j]).c_str());
				if (deep) t += sfmt(", and in its first callback [%s]", simd(sits[k]).c_str());
				vf_case_text(t);
				arena_reset();
				run_solo(A, sits[i], false, 0);
				run_solo(B, sits[j], false, 0);
				if (deep) run_solo(C, sits[k], false, 0);
				Log la, lb, lc, oa, ob, oc;
				A.log = &la;
				B.log = &lb;
				C.log = &lc;
				g_calls = 0;
				g_nest_at = (long)at;
				g_nest = &B;
				g_nest_do = { sits[j].op };
				g_nest2 = deep ? &C : 0;
				g_nest2_do = { sits[k].op };
				A.exec(sits[i].op);
				g_nest = g_nest2 = 0;
				g_nest_at = -1;
				A.log = &oa;
				A.observe();
				B.log = &ob;
				B.observe();
				if (la != L[0][i] || oa != O[0][i]) vf_fail(C26, "with a nested operation [%s] behaves differently than alone, %s", simd(sits[i]).c_str(), diff(la != L[0][i] ? la : oa, la != L[0][i] ? L[0][i] : O[0][i]).c_str());
				if (lb != L[1][j] || ob != O[1][j]) vf_fail(C26, "inside a callback [%s] behaves differently than alone, %s", simd(sits[j]).c_str(), diff(lb != L[1][j] ? lb : ob, lb != L[1][j] ? L[1][j] : O[1][j]).c_str());
				if (deep) {
					C.log = &oc;
					C.observe();
					if (lc != L[2][k] || oc != O[2][k]) vf_fail(C26, "inside two callbacks [%s] behaves differently than alone, %s", simd(sits[k]).c_str(), diff(lc != L[2][k] ? lc : oc, lc != L[2][k] ? L[2][k] : O[2][k]).c_str());
				}
				if (st.cases % 5000 == 1) st.sample(t);
			}
		}
	}
}

/* ------------------------------------------------------------------ */
/* every history of several containers, holding the same objects by different nodes */

std::vector<Do> alphabet(int kind, int n, bool full)
{
	std::vector<Do> r;
	if (kind <= TRIEIN || kind == TRIESH) {
		for (u32 e = 0; e < (u32)n; ++e) { r.push_back({ INS, e }); r.push_back({ REX, e }); }
		if (kind == LIST) { r.push_back({ INSH, 0 }); r.push_back({ SORT, 0 }); }
		else { r.push_back({ RKEY, 0 }); r.push_back({ SRCH, (u32)n - 1 }); r.push_back({ RKEY, (u32)n - 1 }); if (full) r.push_back({ SRCH, 0 }); }
		if (full && (kind == LIST || (kind >= HTABLE && kind <= TREE))) r.push_back({ EACH, 0 });
		if (full && (kind == HTABLE || kind == HDYN || kind == HLIN)) r.push_back({ DONE, 0 });
		if (full && kind == TREE) r.push_back({ SRCHC, 1 });
	} else if (kind == ALLOC) {
		r = { { AL, 0 }, { FR, 0 }, { FR, 1 } };
		if (full) r.push_back({ DONE, 0 });
	} else {
		r = { { APPEND, 1 }, { GROW, 65 }, { SET, 0 }, { GET, 64 } };
		if (full) { r.push_back({ SET, 64 }); r.push_back({ DONE, 0 }); }
	}
	r.push_back({ INIT, 0 });
	return r;
}
bool enabled(const Actor& a, const Do& d, int n)
{
	if (d.code == INIT) return !a.m().live;
	if (!a.m().live) return false;
	if (d.code == INS || d.code == INSH) return a.kind == TREE || !a.m().in[d.a];
	if (d.code == REX) return a.m().in[d.a];
	if (d.code == AL) return a.m().nblk < n;
	if (d.code == FR) return d.a < a.m().nblk;
	if (d.code == APPEND) return a.m().size < n;
	return true;
}

struct Table { std::vector<Log> edge; std::vector<u32> to; std::vector<Log> obs; size_t nop; };

/* the allocator of the tries that share one */
Actor common;
bool use_common;
void common_init()
{
	if (!use_common) return;
	common.idx = MAXACT - 1;
	perm(common.second(), vs_alloc.size, common.owner());
	Op o(OWN(common.owner()), common.owner());
	vs_alloc.init(common.second(), vs.trie_block, vs.trie_block);
}
void common_reperm() { if (use_common) perm(common.second(), vs_alloc.size, common.owner()); }

/* one container alone, every state and every operation tabulated */
void tabulate(Actor& a, const std::vector<Do>& ops, int n, u32 maxn, Table& t)
{
	t.nop = ops.size();
	RepermSys rs;
	rs.as = { &a };
	rs.more = common_reperm;
	std::unordered_map<Hash, u32, HashHash> seen;
	std::vector<Snap> st_;
	auto key = [&]() { Hash h; rs.canon(h); return h; };
	Log scratch;
	arena_reset();
	common_init();
	st_.emplace_back();
	snap_save(st_.back());
	seen.emplace(key(), 0);
	t.obs.emplace_back();
	{ a.log = &t.obs.back(); a.observe(); }
	for (size_t i = 0; i < st_.size(); ++i) {
		for (size_t k = 0; k < ops.size(); ++k) {
			snap_restore(st_[i], rs);
			t.edge.emplace_back();
			t.to.push_back(0);
			if (!enabled(a, ops[k], n)) continue;
			Log l;
			a.log = &l;
			a.exec(ops[k]);
			if (ops[k].code == APPEND) ++a.m().size;
			t.edge.back() = l;
			auto f = seen.emplace(key(), (u32)st_.size());
			if (f.second) {
				if (st_.size() >= maxn) { fprintf(stderr, "too many states of %s alone\n", kname[a.kind]); exit(3); }
				st_.emplace_back();
				snap_save(st_.back());
				t.obs.emplace_back();
				Log o;
				a.log = &o;
				a.observe();
				t.obs.back() = o;
			}
			t.to.back() = f.first->second;
		}
	}
}

struct ProductSys : Sys {
	int n = 2;
	std::vector<Actor> as;
	std::vector<std::vector<Do>> alpha;
	std::vector<Table> tab;
	u32* sid() { return (u32*)(sec_model() + sizeof(AM) * MAXACT); }
	void init() override { common_init(); }
	void ops(std::vector<int>& out) override
	{
		for (size_t i = 0; i < as.size(); ++i) for (size_t k = 0; k < alpha[i].size(); ++k)
			if (enabled(as[i], alpha[i][k], n)) out.push_back((int)(i * 256 + k));
	}
	std::string opname(int op) override { return sfmt("%s#%d.%s", kname[as[(size_t)op / 256].kind], op / 256, dostr(alpha[(size_t)op / 256][(size_t)op % 256]).c_str()); }
	void apply(int op) override
	{
		size_t i = (size_t)op / 256, k = (size_t)op % 256;
		Log l;
		as[i].log = &l;
		as[i].exec(alpha[i][k]);
		if (alpha[i][k].code == APPEND) ++as[i].m().size;
		u32 s = sid()[i];
		const Log& w = tab[i].edge[s * tab[i].nop + k];
		if (l != w) { vf_fail(C26, "%s behaves differently than with no other container, %s", opname(op).c_str(), diff(l, w).c_str()); g_pruned = true; return; }
		sid()[i] = tab[i].to[s * tab[i].nop + k];
	}
	void check() override
	{
		for (size_t i = 0; i < as.size(); ++i) {
			Log o;
			as[i].log = &o;
			as[i].observe();
			const Log& w = tab[i].obs[sid()[i]];
			if (o != w) { vf_fail(C26, "the content of %s #%zu is not what it is with no other container, %s", kname[as[i].kind], i, diff(o, w).c_str()); g_pruned = true; return; }
		}
	}
	void reperm() override { for (auto& a : as) a.reperm(); common_reperm(); }
};

int kindof(const std::string& s)
{
	for (int i = 0; i < NKIND; ++i) if (s == kname[i]) return i;
	fprintf(stderr, "unknown kind %s\n", s.c_str());
	exit(3);
}

void product(const std::vector<int>& kinds, int n, bool full, int depth)
{
	ProductSys s;
	s.n = n;
	use_common = false;
	for (int k : kinds) use_common = use_common || k == TRIESH;
	memory(use_common ? MAXACT : (int)kinds.size());
	used_model = sizeof(AM) * MAXACT + 4 * MAXACT;
	s.as.resize(kinds.size());
	for (size_t i = 0; i < kinds.size(); ++i) {
		s.as[i].idx = (int)i;
		s.as[i].kind = kinds[i];
		if (kinds[i] == TRIESH) s.as[i].shared = &common;
		s.alpha.push_back(alphabet(kinds[i], n, full));
		Table t;
		tabulate(s.as[i], s.alpha[i], n, 200000, t);
		st.num["states_of_single_containers"] += t.obs.size();
		s.tab.push_back(std::move(t));
	}
	u64 s0 = st.states;
	bfs(s, depth);
	if (getenv("VF_SHOW")) { for (size_t i = 0; i < kinds.size(); ++i) fprintf(stderr, "%s %zu, ", kname[kinds[i]], s.tab[i].obs.size()); fprintf(stderr, "product %llu\n", (unsigned long long)(st.states - s0)); }
}

JOB(multi_product, "multi.product")
{
	int n = (int)p.i("n", 2);
	bool full = p.i("full", 1) != 0;
	int depth = (int)p.i("depth", 1 << 30);
	std::string k = p.s("kinds", "");
	if (!k.empty()) {
		std::vector<int> kinds;
		size_t o = 0;
		while (o <= k.size()) {
			size_t e = k.find('+', o);
			if (e == std::string::npos) e = k.size();
			kinds.push_back(kindof(k.substr(o, e - o)));
			o = e + 1;
		}
		if (kinds.size() > MAXACT) exit(3);
		for (int k2 : kinds) if (k2 == TRIESH && kinds.size() > MAXACT - 1) exit(3);
		product(kinds, n, full, depth);
		return;
	}
	/* every pair of kinds */
	long long part = p.i("part", 0), parts = p.i("parts", 1);
	u64 c = 0;
	int last = p.i("arrays", 1) ? FUNC : ARR;
	for (int a = 0; a < last; ++a) for (int b = a; b < last; ++b) {
		if ((long long)(c++ % (u64)parts) != part) continue;
		if (out_of_time()) return;
		if (g_replaying && (g_replay.size() < 2 || g_replay[0] != a || g_replay[1] != b)) continue;
		Ints saved = g_replay;
		if (g_replaying) g_replay.erase(g_replay.begin(), g_replay.begin() + 2);
		g_trace_prefix = { a, b };
		product({ a, b }, n, full, depth);
		g_trace_prefix.clear();
		g_replay = saved;
		++st.num["pairs_of_kinds"];
	}
}

}
