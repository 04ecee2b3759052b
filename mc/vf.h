/*
 * Core of the model checker: deterministic memory (arena, heap, access
 * monitor), property-tagged failures, replayable traces, breadth-first
 * exploration of operation sequences of the real code.
 */
#ifndef VF_H
#define VF_H

#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <deque>
#include <map>
#include <set>
#include <algorithm>
#include <functional>
#include <unordered_map>
#include "shim.h"

typedef uint8_t u8;
typedef uint16_t u16;
typedef uint32_t u32;
typedef uint64_t u64;
typedef std::vector<long long> Ints;

/* property bits */
#define PBIT(n) (1ull << (n))
enum : u64 {
	C01 = PBIT(1), C02 = PBIT(2), C03 = PBIT(3), C04 = PBIT(4), C05 = PBIT(5), C06 = PBIT(6), C07 = PBIT(7), C08 = PBIT(8),
	C09 = PBIT(9), C10 = PBIT(10), C11 = PBIT(11), C12 = PBIT(12), C13 = PBIT(13), C14 = PBIT(14), C15 = PBIT(15), C16 = PBIT(16),
	C17 = PBIT(17), C18 = PBIT(18), C19 = PBIT(19), C20 = PBIT(20), C21 = PBIT(21), C22 = PBIT(22), C23 = PBIT(23), C24 = PBIT(24),
	C25 = PBIT(25), C26 = PBIT(26), C27 = PBIT(27), C28 = PBIT(28), C29 = PBIT(29), C30 = PBIT(30), C31 = PBIT(31),
	C32 = PBIT(32), C33 = PBIT(33), C34 = PBIT(34), C35 = PBIT(35), C36 = PBIT(36), C37 = PBIT(37), C38 = PBIT(38), C39 = PBIT(39), C40 = PBIT(40)
};

/* ---- failures ---- */
extern u64 g_prop; /* properties decided by this run: only their violations are reported */
extern bool g_pruned; /* a violation of another property happened in the current branch */
void vf_fail(u64 mask, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
#define CHECK(mask, cond, ...) do { if (__builtin_expect(!(cond), 0)) vf_fail(mask, __VA_ARGS__); } while (0)

/* ---- job parameters (k=v words of the job string) ---- */
struct Params {
	std::string name;
	std::map<std::string, std::string> kv;
	mutable std::set<std::string> used; /* asked for: the others are mistakes of the plan */
	long long i(const char* k, long long def) const;
	std::string s(const char* k, const char* def) const;
	Ints list(const char* k, const char* def) const;
};

/* ---- statistics ---- */
struct Stats {
	u64 states = 0, transitions = 0, traces = 0, cases = 0, depth = 0;
	bool exhaustive = true;
	std::vector<std::string> samples, notes;
	std::map<std::string, u64> num; /* measured extras: maxima, distinct outcomes */
	void maxi(const char* k, u64 v) { u64& r = num[k]; if (v > r) r = v; }
	void add(const char* k, u64 v) { num[k] += v; }
	void sample(const std::string& s) { if (samples.size() < 6) samples.push_back(s); }
};
extern Stats st;
/* digest of what the models leave open (orders, sizes, values), compared among the builds */
extern u64 g_obs;
static inline void obs(u64 w) { g_obs = (g_obs ^ w) * 0x9E3779B97F4A7C15ull; g_obs ^= g_obs >> 29; }
std::string sfmt(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

/* ---- time ---- */
double now_s();
extern double g_deadline; /* stop exploring there (the run is then reported as not exhaustive) */
bool out_of_time();

/* ---- traces ---- */
extern std::function<void(Ints&)> g_trace; /* current history, as integers */
extern std::function<std::string()> g_trace_text;
extern Ints g_trace_prefix; /* put before the operations: which system of a job this is */
extern bool g_replaying;
extern Ints g_replay;
/* an enumerated case of a family: returns false if a replay wants another one */
bool vf_case(std::initializer_list<long long> c);
bool vf_case(const Ints& c);
void vf_case_text(const std::string& s);

/* ---- memory ---- */
/* primitives safe on poisoned memory */
void mcopy(void* d, const void* s, size_t n);
void mfill(void* d, int c, size_t n);
int mcmp(const void* a, const void* b, size_t n);

/* permissions: owner 0 means nobody */
void perm(const void* p, size_t n, unsigned owner);
void perm_ro(const void* p, size_t n, unsigned owner);
#define OWN(n) (1ull << (n))

struct Blk { u32 off; u32 size; u8 owner; u8 kind; };
struct Ledger { u64 nmalloc, ncalloc, nrealloc, nfree; u64 live, blocks; };
struct HeapCfg {
	bool bump = false; /* never reuse addresses */
	u32 mod = 16, skew = 0; /* returned addresses are == skew modulo mod */
	u8 fill = 0xCD; /* content of a malloc */
	bool stale = false; /* keep the previous content instead */
	u8 freed = 0xDD;
};
extern HeapCfg heap_cfg;
extern Ledger led;
void heap_reset();
size_t heap_live(); /* bytes held, as requested */
size_t heap_live_owner(unsigned owner);
size_t heap_blocks();
/* the live block containing p, or null */
const Blk* heap_find(const void* p);
void* heap_ptr(const Blk* b);
bool heap_in_block(const void* p, size_t n); /* fully inside one live block */
const std::vector<Blk>& heap_list();

/* sections of the arena */
u8* sec_struct(); /* container structures */
u8* sec_node(); /* nodes of the objects */
u8* sec_data(); /* addresses used as objects: no access allowed */
u8* sec_heap_raw(); /* the heap section, for jobs that use no heap */
u8* sec_model(); /* reference model, snapshotted with the rest */
enum : size_t { SEC_STRUCT = 1u << 20, SEC_MODEL = 16u << 20, SEC_NODE = 48u << 20, SEC_DATA = 16u << 20 };
extern size_t used_struct, used_model, used_node; /* bytes saved by the snapshots */
void arena_reset(); /* wipes everything, for a new initial state */
/* the last operation goes once through n elements */
static inline void linear_check(const char* what, size_t n, size_t more);
extern int g_life[3]; /* elements inserted and removed in the life of the container before the one explored */
void life_list(void* l, unsigned owner);
void life_hash(const vs_hash_ops& T, void* h, size_t size, unsigned owner);
void life_tree(void* t, unsigned owner);
void life_trie(const vs_trie_ops& T, void* t, void* alloc, unsigned owner, unsigned alloc_owner); /* alloc: null if inplace */
void life_alloc(void* a, size_t size, size_t align, unsigned owner);
void life_array(const vs_array_ops& T, void* a, size_t es, unsigned owner);
extern int g_struct_fill; /* content of a structure before its init */

/* ---- operations ---- */
struct OpCtx { u64 owners; bool ro; bool noheap; u64 acc, racc, wacc; u8 alloc_owner; uintptr_t sp, low; /* stack at the call, lowest address of it seen */ };
extern OpCtx g_op;
extern bool g_in_op;
extern u64 g_progress;
extern u64 g_last_acc; /* memory accesses of the last operation (monitored builds) */
extern u64 g_ro_mask;
extern u64 g_heap_mask; /* extra properties decided by heap misuse */
/* scope of one library call */
struct Op {
	OpCtx saved; bool saved_in;
	u64 m0, c0, r0, f0;
	/* alloc_owner: who owns the memory allocated meanwhile */
	Op(u64 owners, unsigned alloc_owner, bool ro = false, bool noheap = false);
	~Op();
	u64 mallocs() const, frees() const, reallocs() const;
};
#define RO true

/* hook called at every monitored access (scheduler) */
extern void (*g_access_hook)(const void* p, unsigned n, bool wr);

/* ---- state hashing ---- */
struct Hash {
	u64 a = 0x9E3779B97F4A7C15ull, b = 0xC2B2AE3D27D4EB4Full;
	void word(u64 w);
	void bytes(const void* p, size_t n);
	bool operator==(const Hash& o) const { return a == o.a && b == o.b; }
};
struct HashHash { size_t operator()(const Hash& h) const { return (size_t)h.a; } };
void hash_heap(Hash& h); /* every live block: address, size, content */
void hash_lib(Hash& h); /* static data of the library */

/* ---- breadth-first exploration ---- */
struct Sys {
	virtual ~Sys() {}
	virtual void init() = 0; /* called on a wiped arena */
	virtual void ops(std::vector<int>& out) = 0; /* enabled operations */
	virtual void apply(int op) = 0; /* runs the real operation and the reference model, compares results */
	virtual void check() {} /* oracle of a newly reached state; must not change it */
	virtual void fini(int) {} /* tears the state down, in one of the ways (the explorer restores it afterwards) */
	virtual int finis() { return 1; }
	virtual bool want_fini() { return false; }
	virtual void canon(Hash& h); /* default: all the memory */
	virtual void reperm() = 0; /* set again the permissions after a restore */
	virtual bool expand() { return true; }
	virtual std::string opname(int op) = 0;
};
extern std::function<void(u32 from, u32 to)> g_edge; /* told of every explored edge */
struct Snap { std::vector<u8> bytes; std::vector<Blk> blks; Ledger led; size_t hw; };
void snap_save(Snap& s);
void snap_restore(const Snap& s, Sys& sys);
/* explores to the fixpoint, or to max_depth/max_states; returns true if complete */
bool bfs(Sys& sys, int max_depth = 1 << 30, u64 max_states = ~0ull);

/* ---- jobs ---- */
typedef void JobFn(const Params& p);
struct JobReg { JobReg(const char* name, JobFn* fn); };
#define JOB(ident, name) static void job_##ident(const Params& p); static JobReg reg_##ident(name, job_##ident); static void job_##ident(const Params& p)

/* ---- nodes and objects ---- */
/* object i: identity address in the data section (never accessible), node in the node section */
extern u8 *node_first, *data_first;
extern ptrdiff_t node_step, data_step;
static inline u8* objp(size_t i) { return data_first + (ptrdiff_t)i * data_step; }
static inline long objid(const void* p)
{
	ptrdiff_t d = (u8*)p - data_first;
	if ((u8*)p < sec_data() || (u8*)p >= sec_data() + SEC_DATA || (d & 15)) return -1;
	d = data_step > 0 ? d / 16 : -(d / 16);
	return d < 0 ? -1 : (long)d;
}
extern size_t node_stride, node_size; /* set per container kind */
extern size_t node_room;
static inline u8* nodep(size_t i) { return node_first + (ptrdiff_t)i * node_step; }
static inline long nodeid(const void* p)
{
	u8* q = (u8*)p;
	if (q < sec_node() || q >= sec_node() + node_room || (q - node_first) % node_step) return -1;
	ptrdiff_t i = (q - node_first) / node_step;
	return i < 0 ? -1 : (long)i;
}
void use_nodes(size_t size, size_t count); /* node size of the container under test */
void hash_nodes(Hash& h); /* the content of all the nodes */
extern u8 g_garbage; /* content of a node before insertion; 0x01: stale, keep what was there */
void node_prepare(size_t i, unsigned owner); /* fills with garbage and makes it accessible */
void node_release(size_t i); /* inaccessible and scribbled */
static inline void* ptr_at(const void* p, size_t off) { void* v; mcopy(&v, (const u8*)p + off, sizeof v); return v; }

/* permutations and small helpers */
static inline u64 splitmix(u64& x) { u64 z = (x += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
static inline void linear_check(const char* what, size_t n, size_t more)
{
	if (!vs.is_monitored) return;
	u64 acc = g_last_acc, max = 64 + 24 * (u64)n + 4 * (u64)more;
	CHECK(C39, acc <= max, "%s with %zu elements makes %llu memory accesses, over %llu", what, n, (unsigned long long)acc, (unsigned long long)max);
	st.maxi((std::string("max_accesses_permille_") + what).c_str(), acc * 1000 / max);
	if (n >= 1000) st.maxi((std::string("max_accesses_each_x10_") + what).c_str(), (acc - std::min(acc, 4 * (u64)more)) * 10 / n);
}
static inline unsigned ilog2c(u64 n) { unsigned r = 0; while ((1ull << r) < n) ++r; return r; } /* ceil(log2(n)) */

#endif
