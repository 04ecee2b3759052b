/* The data pointer is of the user: null, shared by several elements, the node itself, an integer. C01 C04 C05 C06 C09 C11 C12 C14 C21 C28 */
#include "vf.h"

namespace {

enum { OWNER = 1, ALLOC = 2 };
enum { LIST, HTABLE, HDYN, HLIN, TRIE, TRIEIN, TREE, NT };
const char* tname[NT] = { "list", "hashtable", "hashdyn", "hashlin", "trie", "trie_inplace", "tree" };
int type;
u64 FUN;
const int N = 4;
size_t keyv[N];
int mode;
u8* cp() { return sec_struct(); }
size_t room = 3 * 8192; /* of the container */
u8* ap() { return sec_struct() + room; }

bool hash() { return type == HTABLE || type == HDYN || type == HLIN; }
bool trie() { return type == TRIE || type == TRIEIN; }
const vs_hash_ops& H() { return vs_hash[type - HTABLE]; }
const vs_trie_ops& T() { return vs_trie[type - TRIE]; }

void* dat(int i)
{
	switch (mode) {
	case 1: return 0;
	case 2: return objp(1);
	case 3: return objp((size_t)i / 2);
	case 4: return nodep((size_t)i);
	case 5: return (void*)(~(uintptr_t)0 - (uintptr_t)i);
	case 6: return (void*)(uintptr_t)i;
	case 7: return i == 1 ? 0 : objp((size_t)i);
	case 8: return i == 1 ? 0 : cp();
	}
	return objp((size_t)i);
}
/* order of the tree: the elements by number, backward in half of the modes */
int rankof(const void* d) { for (int i = 0; i < N; ++i) if (dat(i) == d) return mode & 1 ? -i : i; return 1000; }

std::vector<int> seq; /* members, in insertion order (or in list order, or sorted) */
bool in(int i) { return std::find(seq.begin(), seq.end(), i) != seq.end(); }
void drop(int i) { seq.erase(std::find(seq.begin(), seq.end(), i)); }

const char argmark[8] = "";
const void* cb_arg;
size_t cb_key;
bool cb_any, cb_done;
const void* cb_want;
int search_cb(const void* arg, const void* obj)
{
	CHECK(C28, arg == cb_arg, "the comparison gets another argument");
	CHECK(C28, !cb_done, "the comparison is called again after a match");
	bool known = false;
	for (int i : seq) known = known || (dat(i) == obj && keyv[i] == cb_key);
	CHECK(C28 | FUN, known, "the comparison gets something that is not an object stored with that hash");
	if (cb_any || obj == cb_want) { cb_done = true; return 0; }
	return 1;
}
const void* cb_first;
int tree_cb(const void* a, const void* b)
{
	CHECK(C28, a == cb_first, "the first argument of a comparison of the tree is another one");
	bool known = false;
	for (int i : seq) known = known || dat(i) == b;
	CHECK(C28 | FUN, known, "the second argument of a comparison of the tree is not an object stored");
	int x = rankof(a), y = rankof(b);
	return x < y ? -1 : x > y;
}
int list_cb(const void* a, const void* b)
{
	bool ka = false, kb = false;
	for (int i : seq) ka = ka || dat(i) == a, kb = kb || dat(i) == b;
	CHECK(C28 | C01, ka && kb, "sort compares something that is not an object of the list");
	int x = rankof(a), y = rankof(b);
	return x < y ? -1 : x > y;
}
std::vector<void*> seen;
void each_cb(void* d) { if (seen.size() < 64) seen.push_back(d); }
void each_arg_cb(void* arg, void* d) { CHECK(C21 | C28, arg == (void*)argmark, "foreach_arg passes another argument"); each_cb(d); }

void start()
{
	arena_reset();
	seq.clear();
	if (type == TRIE) {
		perm(ap(), vs_alloc.size, ALLOC);
	}
	perm(cp(), room, OWNER);
	if (type == LIST) life_list(cp(), OWNER);
	else if (hash()) life_hash(H(), cp(), 16, OWNER);
	else if (trie()) life_trie(T(), cp(), type == TRIE ? ap() : 0, OWNER, type == TRIE ? ALLOC : 0);
	else life_tree(cp(), OWNER);
	if (type == TRIE) {
		Op o(OWN(ALLOC), ALLOC);
		vs_alloc.init(ap(), vs.trie_block, vs.trie_block);
	}
	Op o(OWN(OWNER), OWNER);
	if (type == LIST) vs_list.init(cp());
	else if (hash()) H().init(cp(), 16);
	else if (trie()) T().init(cp(), ap());
	else vs_tree.init(cp(), tree_cb);
}
void finish()
{
	if (hash()) {
		{ Op o(OWN(OWNER), OWNER); H().done(cp()); }
		CHECK(C18, !heap_live(), "heap memory is still held after done");
	}
}

size_t nops() { return type == LIST ? 2 * N + 2 : type == TREE ? 2 * N : N + 4; }
/* false: not applicable in this state */
bool apply(int op)
{
	Op o(OWN(OWNER) | OWN(ALLOC), type == TRIE ? ALLOC : OWNER);
	if (op < N) {
		int i = op;
		if (in(i)) {
			void* r;
			if (type == LIST) r = vs_list.remove_existing(cp(), nodep((size_t)i));
			else if (hash()) r = H().remove_existing(cp(), nodep((size_t)i));
			else if (trie()) r = T().remove_existing(cp(), nodep((size_t)i));
			else { cb_first = dat(i); r = vs_tree.remove_existing(cp(), nodep((size_t)i)); }
			CHECK(FUN, r == dat(i), "remove_existing() returns %p and not the data pointer %p", r, dat(i));
			drop(i);
			node_release((size_t)i);
			return true;
		}
		node_prepare((size_t)i, OWNER);
		if (type == LIST) vs_list.insert_tail(cp(), nodep((size_t)i), dat(i));
		else if (hash()) H().insert(cp(), nodep((size_t)i), dat(i), keyv[i]);
		else if (trie()) T().insert(cp(), nodep((size_t)i), dat(i), keyv[i]);
		else {
			cb_first = dat(i);
			void* r = vs_tree.insert(cp(), nodep((size_t)i), dat(i));
			CHECK(FUN, r == dat(i), "insert() returns %p and not the data pointer %p", r, dat(i));
		}
		seq.push_back(i);
		return true;
	}
	op -= N;
	if (type == LIST) {
		if (op < N) {
			if (in(op)) return false;
			node_prepare((size_t)op, OWNER);
			vs_list.insert_head(cp(), nodep((size_t)op), dat(op));
			seq.insert(seq.begin(), op);
			return true;
		}
		if (op == N) {
			vs_list.sort(cp(), list_cb);
			std::stable_sort(seq.begin(), seq.end(), [](int a, int b) { return rankof(dat(a)) < rankof(dat(b)); });
			return true;
		}
		/* into another list, and back before some */
		if (seq.size() < 2) return false;
		u8* l2 = cp() + 256;
		vs_list.init(l2);
		std::vector<int> s2;
		for (int i : std::vector<int>(seq.begin() + 1, seq.end())) { vs_list.remove_existing(cp(), nodep((size_t)i)); vs_list.insert_head(l2, nodep((size_t)i), dat(i)); s2.insert(s2.begin(), i); }
		vs_list.concat(cp(), l2);
		seq.resize(1);
		seq.insert(seq.end(), s2.begin(), s2.end());
		return true;
	}
	if (type == TREE) {
		/* remove by key */
		if (!in(op)) {
			cb_first = dat(op);
			void* r = vs_tree.remove(cp(), dat(op));
			CHECK(FUN, !r, "remove() of something absent returns %p", r);
			return true;
		}
		cb_first = dat(op);
		void* r = vs_tree.remove(cp(), dat(op));
		CHECK(FUN, r == dat(op), "remove() returns %p and not the data pointer %p", r, dat(op));
		drop(op);
		node_release((size_t)op);
		return true;
	}
	/* by key: the first of the key of 0, or of 2; for the hashtables also the first with the data of 1, or of 3 */
	int k = op == 0 ? 0 : op == 1 ? 2 : op == 2 ? 1 : 3;
	if (trie() && op >= 2) return false;
	int want = -1;
	for (int i : seq) if (keyv[i] == keyv[k] && (op < 2 || dat(i) == dat(k))) { want = i; break; }
	void* r;
	if (hash()) {
		cb_arg = op & 1 ? (const void*)argmark : 0;
		cb_key = keyv[k]; cb_any = op < 2; cb_done = false; cb_want = dat(k);
		r = H().remove(cp(), search_cb, cb_arg, keyv[k]);
	} else
		r = T().remove(cp(), keyv[k]);
	CHECK(FUN, r == (want < 0 ? 0 : dat(want)), "remove() returns %p and not %p", r, want < 0 ? 0 : dat(want));
	if (want >= 0) { drop(want); node_release((size_t)want); }
	return true;
}

void verify()
{
	size_t n = seq.size(), c;
	{
		Op o(OWN(OWNER), 0, RO);
		c = type == LIST ? vs_list.count(cp()) : hash() ? H().count(cp()) : trie() ? T().count(cp()) : vs_tree.count(cp());
	}
	CHECK(FUN, c == n, "count() is %zu and not %zu", c, n);
	if (!trie()) {
		for (int a = 0; a < 2; ++a) {
			seen.clear();
			cb_first = 0;
			{
				Op o(OWN(OWNER), 0, RO);
				if (type == LIST) { if (a) vs_list.foreach_arg(cp(), each_arg_cb, (void*)argmark); else vs_list.foreach(cp(), each_cb); }
				else if (hash()) { if (a) H().foreach_arg(cp(), each_arg_cb, (void*)argmark); else H().foreach(cp(), each_cb); }
				else if (a) vs_tree.foreach_arg(cp(), each_arg_cb, (void*)argmark); else vs_tree.foreach(cp(), each_cb);
			}
			std::vector<void*> want;
			std::vector<int> s = seq;
			if (type == TREE) std::sort(s.begin(), s.end(), [](int x, int y) { return rankof(dat(x)) < rankof(dat(y)); });
			for (int i : s) want.push_back(dat(i));
			if (hash()) { std::sort(want.begin(), want.end()); std::sort(seen.begin(), seen.end()); }
			CHECK(FUN | C21, seen == want, "foreach visits %zu elements of %zu, or other ones", seen.size(), n);
		}
	}
	if (g_pruned) return;
	if (type == LIST) {
		Op o(OWN(OWNER), 0, RO);
		u8* q = (u8*)vs_list.head(cp());
		CHECK(C01, vs_list.tail(cp()) == (n ? (void*)nodep((size_t)seq[n - 1]) : 0), "tail is another node");
		CHECK(C01, !vs_list.empty(cp()) == (n != 0), "empty() is wrong");
		for (size_t j = 0; j < n; ++j) {
			CHECK(C01, q == nodep((size_t)seq[j]), "element %zu of the list is another one", j);
			if (g_pruned) return;
			CHECK(C01, ptr_at(q, vs.node_data) == dat(seq[j]), "data of element %zu is not what was given", j);
			CHECK(C01, ptr_at(q, vs.node_prev) == nodep((size_t)seq[j ? j - 1 : n - 1]), "prev of element %zu is another one", j);
			q = (u8*)ptr_at(q, vs.node_next);
		}
		CHECK(C01, !q, "the list does not end");
		return;
	}
	for (int k = 0; k < N; ++k) {
		if (type == TREE) {
			void* r;
			cb_first = dat(k);
			{ Op o(OWN(OWNER), 0, RO); r = k & 1 ? vs_tree.search(cp(), dat(k)) : vs_tree.search_compare(cp(), tree_cb, dat(k)); }
			CHECK(FUN, r == (in(k) ? dat(k) : 0), "search() returns %p", r);
			continue;
		}
		std::vector<int> want, got;
		for (int i : seq) if (keyv[i] == keyv[k]) want.push_back(i);
		void* b;
		{ Op o(OWN(OWNER) | OWN(ALLOC), 0, RO); b = hash() ? H().bucket(cp(), keyv[k]) : T().bucket(cp(), keyv[k]); }
		size_t onx = hash() ? vs.node_next : T().next, oda = hash() ? vs.node_data : T().data;
		for (u8* q = (u8*)b; q && got.size() < 16; q = (u8*)ptr_at(q, onx)) {
			long i = nodeid(q);
			if (i < 0 || i >= N || !in((int)i)) { vf_fail(FUN, "the bucket holds a node that is not stored"); return; }
			CHECK(FUN, ptr_at(q, oda) == dat((int)i), "data of element %ld is not what was given", i);
			if (keyv[i] == keyv[k]) got.push_back((int)i);
		}
		std::vector<int> a = want, g = got;
		std::sort(a.begin(), a.end()); std::sort(g.begin(), g.end());
		CHECK(FUN, a == g, "the bucket holds %zu elements of the key and not %zu", g.size(), a.size());
		CHECK(C14, want == got || a != g, "the elements of the bucket are not in insertion order");
		if (g_pruned) return;
		void* r;
		if (hash()) {
			for (int any = 0; any < 2; ++any) {
				int w = -1;
				for (int i : want) if (any || dat(i) == dat(k)) { w = i; break; }
				cb_arg = any ? (const void*)argmark : 0;
				cb_key = keyv[k]; cb_any = any; cb_done = false; cb_want = dat(k);
				{ Op o(OWN(OWNER), 0, RO); r = H().search(cp(), search_cb, cb_arg, keyv[k]); }
				CHECK(FUN, r == (w < 0 ? 0 : dat(w)), "search() returns %p and not %p", r, w < 0 ? 0 : dat(w));
				CHECK(FUN, cb_done == (w >= 0), "search() accepts an object that is not there, or does not find it");
			}
		} else {
			{ Op o(OWN(OWNER) | OWN(ALLOC), 0, RO); r = T().search(cp(), keyv[k]); }
			CHECK(FUN, r == (want.empty() ? 0 : dat(want[0])), "search() returns %p", r);
		}
	}
}

}

/* every sequence of operations up to a depth, for each nature of the data pointers */
JOB(data, "data.any")
{
	std::string t = p.s("t", "list");
	for (type = 0; type < NT && t != tname[type]; ++type) ;
	if (type == NT) exit(3);
	const u64 fun[NT] = { C01, C04, C05, C06, C11, C12, C09 };
	FUN = fun[type];
	int depth = (int)p.i("depth", 5);
	Ints modes = p.list("modes", "1-8");
	use_nodes(type == TRIEIN ? vs.inode : vs.node, N);
	for (auto& t : vs_trie) room = std::max(room, (t.size + 8191) / 8192 * 8192);
	used_struct = room + 8192;
	used_model = 0;
	for (auto m : modes) {
		mode = (int)m;
		/* distinct and not null data only */
		if (type == TREE && mode != 4 && mode != 5) continue;
		for (int lay = 0; lay < (type == LIST || type == TREE ? 1 : 2); ++lay) {
			/* 0,1,3 with the same key, the other in the same bucket or path, or not */
			for (int i = 0; i < N; ++i) keyv[i] = i == 2 ? (lay ? 3 : 1 << 20) : 0;
			if (hash() && !lay) keyv[2] = 256;
			Ints ops(1, 0);
			/* the operations as a number of varying length */
			while ((int)ops.size() <= depth) {
				Ints c;
				c.push_back(m); c.push_back(lay);
				for (auto o : ops) c.push_back(o);
				bool run = vf_case(c);
				bool ok = true;
				size_t at = ops.size() - 1;
				if (run) {
					if (out_of_time()) return;
					start();
					for (size_t i = 0; i < ops.size() && ok && !g_pruned; ++i)
						if (!apply((int)ops[i])) { ok = false; at = i; }
					if (!g_pruned && ok) verify();
					if (!g_pruned) finish();
					st.transitions += ops.size();
					++st.traces;
				}
				/* next one; after a wrong operation, those with the same beginning are wrong too */
				for (size_t i = at + 1; i < ops.size(); ++i) ops[i] = 0;
				long long k = (long long)at;
				while (k >= 0 && ++ops[(size_t)k] == (long long)nops()) ops[(size_t)k--] = 0;
				if (k < 0) ops.assign(ops.size() + 1, 0);
			}
		}
	}
	st.sample(sfmt("%s: every sequence of up to %d operations over %d elements, with %zu natures of the data pointers", tname[type], depth, N, modes.size()));
	st.states = st.cases;
}
