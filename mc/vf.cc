#include "vf.h"
#include <cerrno>
#include <csignal>
#include <cstring>
#include <ctime>
#include <deque>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <unistd.h>

/* ------------------------------------------------------------------ */
/* globals */

u64 g_prop, g_obs;
bool g_pruned;
static u64 g_foreign;
static std::map<std::string, u64> g_foreign_msgs;
Stats st;
double g_deadline = 1e30;
std::function<void(Ints&)> g_trace;
std::function<std::string()> g_trace_text;
bool g_replaying;
Ints g_replay;
OpCtx g_op;
bool g_in_op;
u64 g_progress, g_last_acc;
u8 g_garbage = 0xA5;
int g_struct_fill = 0x5B;
void (*g_access_hook)(const void* p, unsigned n, bool wr);
static std::string g_job, g_out;
static bool g_reported;

double now_s()
{
	struct timespec t;
	clock_gettime(CLOCK_MONOTONIC, &t);
	return t.tv_sec + t.tv_nsec * 1e-9;
}

/* the system is short of memory, and this process has its part in that */
static bool out_of_memory()
{
	static u64 calls;
	static bool out;
	if (out || (calls++ & 63)) return out;
	long pages = 0, rss = 0;
	if (FILE* f = fopen("/proc/self/statm", "r")) {
		if (fscanf(f, "%ld %ld", &pages, &rss) != 2) rss = 0;
		fclose(f);
	}
	if ((u64)rss * 4096 < 1ull << 30) return false;
	u64 avail = ~0ull;
	if (FILE* f = fopen("/proc/meminfo", "r")) {
		char line[256];
		unsigned long long k;
		while (fgets(line, sizeof line, f)) if (sscanf(line, "MemAvailable: %llu", &k) == 1) avail = k << 10;
		fclose(f);
	}
	out = avail < 4ull << 30;
	if (out) st.notes.push_back("stopped for want of memory");
	return out;
}

bool out_of_time()
{
	if (out_of_memory()) {
		st.exhaustive = false;
		return true;
	}
	if (now_s() > g_deadline) {
		st.exhaustive = false;
		return true;
	}
	return false;
}

std::string sfmt(const char* fmt, ...)
{
	char buf[4096];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(buf, sizeof buf, fmt, ap);
	va_end(ap);
	return buf;
}

static std::string jstr(const std::string& s)
{
	std::string r = "\"";
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
		else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
		else r += (char)c;
	}
	return r + "\"";
}

/* ------------------------------------------------------------------ */
/* reports */

static void write_file(const std::string& s)
{
	int f = g_out.empty() ? 1 : open(g_out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
	size_t o = 0;
	while (o < s.size()) {
		ssize_t n = write(f, s.data() + o, s.size() - o);
		if (n <= 0)
			break;
		o += (size_t)n;
	}
	if (f != 1)
		close(f);
}

static void report(const char* kind, u64 mask, const std::string& msg)
{
	if (g_reported)
		return;
	g_reported = true;
	Ints tr;
	std::string text;
	if (g_trace) g_trace(tr);
	if (g_trace_text) text = g_trace_text();
	std::string o = "{\"fail\":{\"kind\":" + jstr(kind) + ",\"mask\":" + std::to_string(mask) + ",\"msg\":" + jstr(msg) + ",\"trace\":[";
	for (size_t i = 0; i < tr.size(); ++i)
		o += (i ? "," : "") + std::to_string(tr[i]);
	o += "],\"text\":" + jstr(text) + "},\"job\":" + jstr(g_job) + "}\n";
	write_file(o);
}

void vf_fail(u64 mask, const char* fmt, ...)
{
	char buf[2048];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(buf, sizeof buf, fmt, ap);
	va_end(ap);
	if (mask & g_prop) {
		report("fail", mask, buf);
		_exit(10);
	}
	/* after a functional failure the reference model and the code have diverged */
	if (mask & (C01 | C02 | C04 | C05 | C06 | C09 | C11 | C12 | C15 | C16))
		g_pruned = true;
	++g_foreign;
	if (g_foreign_msgs.size() < 8)
		++g_foreign_msgs[buf];
}

static void on_crash(int sig)
{
	report("crash", 0, sfmt("the library crashed with signal %d (%s)", sig, strsignal(sig)));
	_exit(11);
}

static void on_death()
{
	report("crash", C18, "the address sanitizer reported an invalid access");
}

extern "C" void __assert_fail(const char* expr, const char* file, unsigned line, const char*)
{
	const char* b = file;
	for (const char* q = file; *q; ++q)
		if (*q == '/') b = q + 1;
	report("assert", 0, sfmt("assertion failed: %s at %s:%u", expr, b, line));
	_exit(11);
}

static u64 wd_last;
static int wd_stuck;
static double wd_limit = 30;
static void on_tick(int)
{
	if (g_in_op && g_progress == wd_last) {
		if (++wd_stuck >= wd_limit) {
			report("hang", 0, sfmt("an operation did not return within %d seconds of cpu time", (int)wd_limit));
			_exit(12);
		}
	} else {
		wd_stuck = 0;
		wd_last = g_progress;
	}
}

extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));

/* ------------------------------------------------------------------ */
/* traces */

static Ints cur_case;
static std::string cur_case_text;

bool vf_case(const Ints& c)
{
	if (g_replaying && c != g_replay)
		return false;
	cur_case = c;
	cur_case_text.clear();
	g_pruned = false;
	++st.cases;
	g_trace = [](Ints& o) { o = cur_case; };
	g_trace_text = []() {
		if (!cur_case_text.empty()) return cur_case_text;
		std::string s = "case";
		for (auto v : cur_case) s += " " + std::to_string(v);
		return s;
	};
	return true;
}

bool vf_case(std::initializer_list<long long> c)
{
	if (g_replaying) {
		return vf_case(Ints(c));
	}
	/* avoid allocations in the common path */
	cur_case.assign(c);
	if (!cur_case_text.empty()) cur_case_text.clear();
	g_pruned = false;
	++st.cases;
	if (!g_trace) {
		g_trace = [](Ints& o) { o = cur_case; };
		g_trace_text = []() {
			if (!cur_case_text.empty()) return cur_case_text;
			std::string s = "case";
			for (auto v : cur_case) s += " " + std::to_string(v);
			return s;
		};
	}
	return true;
}

void vf_case_text(const std::string& s) { cur_case_text = s; }

/* ------------------------------------------------------------------ */
/* raw memory primitives (never intercepted by a sanitizer) */

void mcopy(void* d, const void* s, size_t n)
{
	__asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
}

void mfill(void* d, int c, size_t n)
{
	__asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory");
}

int mcmp(const void* a, const void* b, size_t n)
{
	const u8 *x = (const u8*)a, *y = (const u8*)b;
	for (size_t i = 0; i < n; ++i)
		if (x[i] != y[i])
			return 1;
	return 0;
}

/* ------------------------------------------------------------------ */
/* arena */

static u8* arena;
static size_t arena_size, sec_heap_off, heap_cap;
static u8* shadow; /* monitored builds */
static bool asan;
size_t used_struct, used_model, used_node;
size_t node_stride = 64, node_size = 32;

extern "C" void __asan_poison_memory_region(void const volatile*, size_t) __attribute__((weak));
extern "C" void __asan_unpoison_memory_region(void const volatile*, size_t) __attribute__((weak));
extern "C" char __start_vfdata[] __attribute__((weak));
extern "C" char __stop_vfdata[] __attribute__((weak));
extern "C" char __start_vfbss[] __attribute__((weak));
extern "C" char __stop_vfbss[] __attribute__((weak));
static std::vector<u8> lib_data0;

u8* sec_struct() { return arena; }
u8* sec_model() { return arena + SEC_STRUCT; }
static u8 *node_sec, *data_sec;
u8 *node_first, *data_first;
ptrdiff_t node_step = 64, data_step = 16;
size_t node_room;
u8* sec_node() { return node_sec; }
u8* sec_data() { return data_sec; }
static int g_place; /* where the memory is: see arena_map */
static bool g_rev; /* nodes and objects at descending addresses, heap from the top */
static size_t g_noff; /* distance of the nodes from an alignment of 16 */
static bool g_pack; /* nodes one next to the other */
static size_t far_nodes; /* number of nodes, if they are at 4 GiB from each other */
static u8* sec_heap() { return arena + sec_heap_off; }

u8* sec_heap_raw() { return sec_heap(); }

static size_t lib_size() { return (size_t)(__stop_vfdata - __start_vfdata) + (size_t)(__stop_vfbss - __start_vfbss); }
static void lib_save(u8* p)
{
	size_t n = (size_t)(__stop_vfdata - __start_vfdata);
	mcopy(p, __start_vfdata, n);
	mcopy(p + n, __start_vfbss, (size_t)(__stop_vfbss - __start_vfbss));
}
static void lib_load(const u8* p)
{
	size_t n = (size_t)(__stop_vfdata - __start_vfdata);
	mcopy(__start_vfdata, p, n);
	mcopy(__start_vfbss, p + n, (size_t)(__stop_vfbss - __start_vfbss));
}

/*
 * 0: usual place
 * 1: the third node ends at a multiple of 4 GiB (2 GiB with 32 bits)
 * 2: the same for the third object, at high addresses
 * 3: the same in the first blocks of the heap
 * 4: all below 4 GiB (2 GiB with 32 bits, as usual)
 * 5: each node at a distance of 4 GiB from the previous one, if they are few (only with 64 bits)
 */
enum { FAR_MAX = 16 };
static void arena_map()
{
	bool b64 = sizeof(void*) == 8;
	arena_size = b64 ? (size_t)0xC0000000u : (size_t)0x18000000u;
	u64 edge = b64 ? (g_place == 2 ? 0x4e0100000000ull : 0x200100000000ull) : 0x80000000ull;
	size_t data_off = SEC_STRUCT + SEC_MODEL + SEC_NODE;
	sec_heap_off = data_off + SEC_DATA;
	u64 at = b64 ? 0x200000000000ull : 0x60000000ull;
	size_t third = g_rev ? SEC_DATA - 8192 : 16 + 3 * 16; /* from data_sec, the end of the third object at the edge */
	if (g_place == 1) at = edge - (SEC_STRUCT + SEC_MODEL + (16u << 20));
	else if (g_place == 2) {
		data_off += 4096 - third % 4096;
		at = edge - (data_off + third);
		sec_heap_off += 4096;
	} else if (g_place == 3) {
		at = edge - (sec_heap_off + 4096);
		sec_heap_off += 4096 - 192;
	}
	else if (g_place == 4 && b64) at = 0x20000000ull;
	size_t map_size = arena_size;
	if (g_place == 5 && b64) map_size = ((size_t)FAR_MAX + 2) << 16 << 16;
	if (!b64 && g_place == 2 && g_rev) at = 0xC0000000ull;
	arena = (u8*)mmap((void*)(uintptr_t)at, map_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
	if (arena == MAP_FAILED) {
		st.notes.push_back("the wanted addresses were not free");
		arena = (u8*)mmap(0, map_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	}
	if (arena == MAP_FAILED) {
		perror("mmap");
		_exit(2);
	}
	heap_cap = arena_size - sec_heap_off;
	arena_size = map_size;
	node_sec = arena + SEC_STRUCT + SEC_MODEL;
	data_sec = arena + data_off;
	data_first = data_sec + 16;
	if (g_rev) {
		data_step = -16;
		data_first = data_sec + third + 16;
	}
	use_nodes(32, 1);
	asan = __asan_poison_memory_region != 0;
	if (vs.is_monitored) {
		shadow = (u8*)mmap(0, arena_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (shadow == MAP_FAILED) {
			perror("mmap shadow");
			_exit(2);
		}
	}
	if (asan) {
		/* all but the model */
		__asan_poison_memory_region(sec_struct(), SEC_STRUCT);
		__asan_poison_memory_region(sec_node(), SEC_NODE + SEC_DATA - 4096);
		__asan_poison_memory_region(sec_heap(), heap_cap < (512u << 20) ? heap_cap : (512u << 20));
	}
	lib_data0.resize(lib_size());
	if (!lib_data0.empty())
		lib_save(lib_data0.data());
}

static void perm_set(const void* p, size_t n, u8 v)
{
	if (shadow)
		mfill(shadow + ((const u8*)p - arena), v, n);
	else if (asan) {
		if (v) __asan_unpoison_memory_region(p, n);
		else __asan_poison_memory_region(p, n);
	}
}
void perm(const void* p, size_t n, unsigned owner) { perm_set(p, n, (u8)owner); }
void perm_ro(const void* p, size_t n, unsigned owner) { perm_set(p, n, (u8)(owner | 64)); }

/* ------------------------------------------------------------------ */
/* heap */

HeapCfg heap_cfg;
u64 g_heap_mask;
Ledger led;
static std::vector<Blk> blks; /* sorted by offset */
static size_t heap_hw, heap_lw = ~(size_t)0; /* high and low water marks */
static size_t bump_pos;
enum { RZ = 32 };

/* blocks too big for the arena, each in a mapping of its own, ending at a guard page */
struct Big { u8* map; size_t map_size; u8* p; size_t size; u8 owner; };
static std::vector<Big> bigs;
enum : size_t { BIG_MIN = 96u << 20 };

const std::vector<Blk>& heap_list() { return blks; }
void* heap_ptr(const Blk* b) { return sec_heap() + b->off; }
size_t heap_live() { return (size_t)led.live; }
size_t heap_blocks() { return (size_t)led.blocks; }
size_t heap_live_owner(unsigned o)
{
	size_t n = 0;
	for (auto& b : blks) if (b.owner == o) n += b.size;
	for (auto& b : bigs) if (b.owner == o) n += b.size;
	return n;
}

static size_t blk_upper(size_t off)
{
	size_t lo = 0, hi = blks.size();
	while (lo < hi) {
		size_t m = (lo + hi) / 2;
		if (blks[m].off <= off) lo = m + 1; else hi = m;
	}
	return lo; /* first with a bigger offset */
}

const Blk* heap_find(const void* p)
{
	size_t off = (size_t)((const u8*)p - sec_heap());
	if ((const u8*)p < sec_heap() || off >= heap_cap)
		return 0;
	size_t i = blk_upper(off);
	if (!i)
		return 0;
	const Blk* b = &blks[i - 1];
	return off < (size_t)b->off + b->size ? b : 0;
}

bool heap_in_block(const void* p, size_t n)
{
	const Blk* b = heap_find(p);
	if (b)
		return (size_t)((const u8*)p - sec_heap()) + n <= (size_t)b->off + b->size;
	for (auto& g : bigs)
		if ((const u8*)p >= g.p && (size_t)((const u8*)p - g.p) < g.size)
			return (size_t)((const u8*)p - g.p) + n <= g.size;
	return false;
}

static size_t place(size_t from)
{
	/* lowest offset >= from whose address is == skew modulo mod */
	size_t a = (size_t)(uintptr_t)sec_heap() + from;
	size_t m = heap_cfg.mod;
	size_t r = (a - heap_cfg.skew) & (m - 1);
	if (r) a += m - r;
	return a - (size_t)(uintptr_t)sec_heap();
}

static void* big_alloc(size_t size, int zero)
{
	size_t pg = 4096;
	size_t body = (size + pg - 1) / pg * pg;
	size_t total = body + 2 * pg;
	if (total < size)
		return 0;
	u8* m = (u8*)mmap(0, total, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (m == MAP_FAILED) {
		vf_fail(C16 | C18, "a heap block of %zu bytes is requested", size);
		return 0;
	}
	mprotect(m + pg, body, PROT_READ | PROT_WRITE);
	Big b = { m, total, m + pg + ((body - size) & ~(size_t)15), size, g_op.alloc_owner };
	bigs.push_back(b);
	if (!zero && !heap_cfg.stale) { /* not all of it: it may be address space only */
		size_t some = 1 << 20;
		mfill(b.p, heap_cfg.fill, some);
		mfill(b.p + size / 2 - some / 2, heap_cfg.fill, some);
		mfill(b.p + size - some, heap_cfg.fill, some);
	}
	led.live += size;
	++led.blocks;
	return b.p;
}

static void* heap_alloc(size_t size, int zero)
{
	if (size >= BIG_MIN)
		return big_alloc(size, zero);
	size_t off, idx;
	if (heap_cfg.bump) {
		off = place(bump_pos + RZ);
		idx = blks.size();
	} else if (g_rev) {
		/* the highest place */
		size_t hi = (heap_cap < (500u << 20) ? heap_cap : (size_t)(500u << 20)) - 4096;
		for (idx = blks.size();; --idx) {
			size_t end = idx ? (size_t)blks[idx - 1].off + blks[idx - 1].size + RZ : 0;
			if (hi >= end + size + 2 * RZ + heap_cfg.mod) {
				off = place(hi - size - RZ - heap_cfg.mod);
				break;
			}
			if (!idx) { fprintf(stderr, "arena heap exhausted\n"); _exit(3); }
			hi = (size_t)blks[idx - 1].off - RZ;
		}
	} else {
		size_t end = 0; /* end of the previous block, red zone included */
		for (idx = 0;; ++idx) {
			off = place(end + RZ);
			if (idx == blks.size() || off + size + RZ + RZ <= blks[idx].off)
				break;
			end = (size_t)blks[idx].off + blks[idx].size + RZ;
		}
	}
	if (off + size + 2 * RZ > heap_cap) {
		fprintf(stderr, "arena heap exhausted\n");
		_exit(3);
	}
	Blk b = { (u32)off, (u32)size, g_op.alloc_owner, 0 };
	blks.insert(blks.begin() + (ptrdiff_t)idx, b);
	bump_pos = std::max(bump_pos, off + size + RZ);
	heap_lw = std::min(heap_lw, off - RZ);
	heap_hw = std::max(heap_hw, off + size + RZ);
	u8* p = sec_heap() + off;
	mfill(p - RZ, 0xFA, RZ);
	mfill(p + size, 0xFA, RZ);
	if (zero) mfill(p, 0, size);
	else if (!heap_cfg.stale) mfill(p, heap_cfg.fill, size);
	perm(p, size, g_op.alloc_owner ? g_op.alloc_owner : 63);
	led.live += size;
	++led.blocks;
	return p;
}

static void heap_free(void* p, const char* what)
{
	if (!p)
		return;
	for (size_t i = 0; i < bigs.size(); ++i)
		if (bigs[i].p == p) {
			led.live -= bigs[i].size;
			--led.blocks;
			munmap(bigs[i].map, bigs[i].map_size);
			bigs.erase(bigs.begin() + (ptrdiff_t)i);
			return;
		}
	const Blk* b = heap_find(p);
	if (!b && (const u8*)p >= sec_heap()) {
		/* zero size blocks */
		size_t i = blk_upper((size_t)((const u8*)p - sec_heap()));
		if (i && blks[i - 1].off == (size_t)((const u8*)p - sec_heap())) b = &blks[i - 1];
	}
	if (!b || heap_ptr(b) != p) {
		vf_fail(C18 | C19 | g_heap_mask, "%s of an address that is not an allocated block", what);
		return;
	}
	if (g_op.owners && b->owner && !(g_op.owners >> b->owner & 1))
		vf_fail(C18 | C26, "%s of a heap block of another container", what);
	for (int i = 0; i < RZ; ++i) {
		if (((u8*)p)[-1 - i] != 0xFA) { vf_fail(C18 | g_heap_mask, "heap block underrun of %d bytes", i + 1); break; }
		if (((u8*)p)[b->size + (size_t)i] != 0xFA) { vf_fail(C18 | g_heap_mask, "heap block overrun at byte %d past the end", i); break; }
	}
	mfill(p, heap_cfg.freed, b->size);
	perm(p, b->size, 0);
	led.live -= b->size;
	--led.blocks;
	blks.erase(blks.begin() + (b - blks.data()));
}

void heap_reset()
{
	for (auto& b : bigs) munmap(b.map, b.map_size);
	bigs.clear();
	for (auto& b : blks) perm(sec_heap() + b.off, b.size, 0);
	blks.clear();
	if (heap_hw > heap_lw) mfill(sec_heap() + heap_lw, heap_cfg.freed, heap_hw - heap_lw);
	heap_hw = bump_pos = 0;
	heap_lw = ~(size_t)0;
	led = Ledger();
}

static void heap_use(const char* what)
{
	(void)what;
}

extern "C" void* vf_malloc(size_t size) { heap_use("malloc"); ++led.nmalloc; return heap_alloc(size, 0); }
extern "C" void* vf_calloc(size_t n, size_t size)
{
	heap_use("calloc");
	++led.ncalloc;
	if (size && n > (size_t)-1 / size) {
		vf_fail(C16 | C18, "calloc of %zu elements of %zu bytes overflows", n, size);
		n = 1;
	}
	if (g_in_op) { g_op.acc += n * size / sizeof(void*); g_op.wacc += n * size / sizeof(void*); }
	return heap_alloc(n * size, 1);
}
extern "C" void* vf_realloc(void* p, size_t size)
{
	++led.nrealloc;
	void* q = heap_alloc(size, 0);
	const Blk* b = p ? heap_find(p) : 0;
	if (b) {
		mcopy(q, p, std::min((size_t)b->size, size));
		if (g_in_op) g_op.acc += std::min((size_t)b->size, size) / sizeof(void*);
	}
	heap_free(p, "realloc");
	return q;
}
extern "C" void vf_free(void* p) { if (p) ++led.nfree; heap_free(p, "free"); }
extern "C" void* vf_raw_malloc(size_t size) { vf_fail(C19, "malloc called directly and not by its hook"); return vf_malloc(size); }
extern "C" void* vf_raw_calloc(size_t n, size_t size) { vf_fail(C19, "calloc called directly and not by its hook"); return vf_calloc(n, size); }
extern "C" void* vf_raw_realloc(void* p, size_t size) { vf_fail(C19, "realloc called directly and not by its hook"); return vf_realloc(p, size); }
extern "C" void vf_raw_free(void* p) { vf_fail(C19, "free called directly and not by its hook"); vf_free(p); }

/* ------------------------------------------------------------------ */
/* access monitor */

uintptr_t g_stk_lo, g_stk_size;

static const char* where(uintptr_t a)
{
	if (a - (uintptr_t)sec_struct() < SEC_STRUCT) return "container structures";
	if (a - (uintptr_t)sec_model() < SEC_MODEL) return "data of the caller";
	if (a - (uintptr_t)sec_node() < node_room) return "nodes";
	if (a - (uintptr_t)sec_data() < SEC_DATA) return "objects";
	if (a - (uintptr_t)sec_heap() < heap_cap) return "heap";
	return "outside";
}

static __attribute__((noinline)) void access_bad(const void* p, unsigned n, bool wr, unsigned s)
{
	uintptr_t a = (uintptr_t)p;
	const char* w = where(a);
	const char* v = wr ? "write" : "read";
	unsigned owner = s & 63;
	if (owner && (g_op.owners >> owner & 1)) {
		if (g_op.ro) vf_fail(C27 | g_ro_mask, "a read only operation writes %u bytes to the %s", n, w);
		else vf_fail(C18 | g_ro_mask, "write of %u bytes to read only data", n);
	} else if (owner)
		vf_fail(C18 | C26 | g_ro_mask, "%s of %u bytes in the %s of another owner (%u)", v, n, w, owner);
	else if (a - (uintptr_t)sec_node() < node_room) {
		size_t o = (a - (uintptr_t)sec_node());
		vf_fail(C18 | C29 | g_ro_mask, "%s of %u bytes in node %zu+%zu that is not in the container", v, n, o / node_stride, o % node_stride);
	} else if (a - (uintptr_t)arena < arena_size)
		vf_fail(C18 | g_ro_mask, "%s of %u bytes in the %s, not in memory of the container", v, n, w);
	else
		vf_fail(C18 | g_ro_mask, "%s of %u bytes outside any memory of the container", v, n);
}

u64 g_ro_mask; /* extra properties decided by access violations (functions reading keys) */

static inline void access(const void* p, unsigned n, bool wr)
{
	if (!g_in_op)
		return;
	uintptr_t a = (uintptr_t)p;
	if (a - g_stk_lo < g_stk_size) {
		if (a < g_op.low) g_op.low = a;
		return;
	}
	++g_op.acc;
	if (wr) ++g_op.wacc; else ++g_op.racc;
	if (a - (uintptr_t)arena < arena_size) {
		size_t o = a - (uintptr_t)arena;
		unsigned s = shadow[o], e = shadow[o + n - 1];
		if (__builtin_expect(!(g_op.owners >> (s & 63) & 1) || !(s & 63) || (wr && (g_op.ro || (s & 64))), 0))
			access_bad(p, n, wr, s);
		else if (__builtin_expect(s != e && (!(g_op.owners >> (e & 63) & 1) || !(e & 63) || (wr && (e & 64))), 0))
			access_bad((const u8*)p + n - 1, n, wr, e);
	} else {
		bool lib = (a - (uintptr_t)__start_vfdata < (uintptr_t)(__stop_vfdata - __start_vfdata)) || (a - (uintptr_t)__start_vfbss < (uintptr_t)(__stop_vfbss - __start_vfbss));
		if (!lib) {
			bool ok = false;
			for (auto& b : bigs)
				if ((u8*)p >= b.p && (u8*)p + n <= b.p + b.size) { ok = true; if (wr && g_op.ro) access_bad(p, n, wr, b.owner); }
			extern char __executable_start, end;
			if (!ok && (wr || a < (uintptr_t)&__executable_start || a >= (uintptr_t)&end))
				access_bad(p, n, wr, 0);
		}
	}
	if (g_access_hook)
		g_access_hook(p, n, wr);
}

extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*)
{
	uintptr_t a = (uintptr_t)__builtin_frame_address(0);
	if (g_in_op && a < g_op.low) g_op.low = a;
}
void __tsan_func_exit(void) {}
#define TS(n) \
void __tsan_read##n(void* p) { access(p, n, false); } \
void __tsan_write##n(void* p) { access(p, n, true); } \
void __tsan_unaligned_read##n(void* p) { access(p, n, false); } \
void __tsan_unaligned_write##n(void* p) { access(p, n, true); } \
void __tsan_volatile_read##n(void* p) { access(p, n, false); } \
void __tsan_volatile_write##n(void* p) { access(p, n, true); } \
void __tsan_unaligned_volatile_read##n(void* p) { access(p, n, false); } \
void __tsan_unaligned_volatile_write##n(void* p) { access(p, n, true); }
TS(1) TS(2) TS(4) TS(8) TS(16)
static void access_range(const void* p, size_t n, bool wr)
{
	const u8* q = (const u8*)p;
	while (n) {
		unsigned k = n > 8 ? 8 : (unsigned)n;
		access(q, k, wr);
		q += k;
		n -= k;
	}
}
void __tsan_read_range(void* p, size_t n) { access_range(p, n, false); }
void __tsan_write_range(void* p, size_t n) { access_range(p, n, true); }
void* vf_memset(void* p, int c, size_t n) { access_range(p, n, true); mfill(p, c, n); return p; }
void* vf_memcpy(void* d, const void* s, size_t n) { access_range(s, n, false); access_range(d, n, true); mcopy(d, s, n); return d; }
void* vf_memmove(void* d, const void* s, size_t n)
{
	access_range(s, n, false);
	access_range(d, n, true);
	std::vector<u8> t(n);
	mcopy(t.data(), s, n);
	mcopy(d, t.data(), n);
	return d;
}
int vf_memcmp(const void* a, const void* b, size_t n)
{
	for (size_t i = 0; i < n; ++i) {
		access((const u8*)a + i, 1, false);
		access((const u8*)b + i, 1, false);
		int d = ((const u8*)a)[i] - ((const u8*)b)[i];
		if (d) return d;
	}
	return 0;
}
size_t vf_strlen(const char* s)
{
	size_t n = 0;
	for (;; ++n) {
		access(s + n, 1, false);
		if (!s[n]) return n;
	}
}
}

/* ------------------------------------------------------------------ */
/* operations */

/* what a call may take of the stack */
enum : size_t { STACK_MAX = 16384 };
static size_t g_stack_used;

Op::Op(u64 owners, unsigned alloc_owner, bool ro, bool noheap)
{
	saved = g_op;
	saved_in = g_in_op;
	m0 = led.nmalloc;
	c0 = led.ncalloc;
	r0 = led.nrealloc;
	f0 = led.nfree;
	g_op = OpCtx{ owners, ro, noheap, 0, 0, 0, (u8)alloc_owner, (uintptr_t)__builtin_frame_address(0), (uintptr_t)__builtin_frame_address(0) };
	++g_progress;
	++st.transitions;
	g_in_op = true;
}
u64 Op::mallocs() const { return led.nmalloc - m0 + led.ncalloc - c0; }
u64 Op::frees() const { return led.nfree - f0; }
u64 Op::reallocs() const { return led.nrealloc - r0; }
Op::~Op()
{
	g_in_op = saved_in;
	g_last_acc = g_op.acc;
	bool ro = g_op.ro, noheap = g_op.noheap;
	uintptr_t used = g_op.sp - g_op.low;
	g_op = saved;
	if (vs.is_monitored && used && used < g_stk_size) {
		CHECK(C37, used <= STACK_MAX, "an operation takes %zu bytes of stack", (size_t)used);
		if (used > g_stack_used) g_stack_used = used;
	}
	if (ro || noheap) {
		if (mallocs() || frees() || reallocs())
			vf_fail(ro ? C19 | C27 : C19 + 0, "%s uses the heap", ro ? "a read only operation" : "an operation of an inplace container");
	}
}

/* ------------------------------------------------------------------ */
/* arena reset, hashing, snapshots */

/* the parts of the memory of the nodes in use */
template<class F> static void nodes_chunks(F f)
{
	if (!far_nodes) { f(sec_node(), used_node); return; }
	for (size_t i = 0; i < far_nodes; ++i) f(nodep(i), node_size);
}

void hash_nodes(Hash& h) { nodes_chunks([&](u8* q, size_t n) { h.bytes(q, n); }); }

void arena_reset()
{
	if (!lib_data0.empty())
		lib_load(lib_data0.data());
	heap_reset();
	{
		size_t n = used_struct ? used_struct : 4096;
		mfill(sec_struct(), (u8)g_struct_fill, n);
		/* 256+2*b+c: only the words with the bit b of their position equal to c, zero elsewhere */
		if (g_struct_fill >= 256)
			for (size_t i = 0; i < n / sizeof(void*); ++i)
				mfill(sec_struct() + i * sizeof(void*), (int)(i >> (g_struct_fill - 256) / 2 & 1) == (g_struct_fill & 1) ? 0x01 : 0, sizeof(void*));
	}
	perm(sec_struct(), used_struct ? used_struct : 4096, 0);
	mfill(sec_model(), 0, used_model);
	nodes_chunks([](u8* q, size_t n) { mfill(q, g_garbage < 6 ? 0xEE : g_garbage, n); perm(q, n, 0); });
	g_op = OpCtx();
	g_in_op = false;
	g_pruned = false;
}

/* ------------------------------------------------------------------ */
/* an earlier life of a container: its memory and the heap are those that
 * it leaves. The nodes are at the end of their section, and are gone after it */

int g_life[3];
namespace {
struct Life {
	size_t step, n;
	u64 saved;
	Life(size_t size) : step((size + 63) & ~(size_t)63), n((size_t)g_life[0]), saved(st.transitions) {}
	~Life()
	{
		for (size_t i = 0; i < n; ++i) { perm(node(i), step, 0); mfill(node(i), 0xEE, step); }
		st.transitions = saved;
	}
	u8* node(size_t i) { return arena + SEC_STRUCT + SEC_MODEL + SEC_NODE - (i + 1) * step; }
	u8* take(size_t i, unsigned owner) { perm(node(i), step, owner); mfill(node(i), 0xA5, step); return node(i); }
	size_t last() { return std::min(n, (size_t)g_life[1]); }
	void* obj(size_t i) { return (void*)(i * 16 + 1); }
	void gone(size_t i) { perm(node(i), step, 0); mfill(node(i), 0xEE, step); }
};
int life_cmp(const void* a, const void* b) { return a < b ? 1 : a > b ? -1 : 0; }
}
void life_list(void* l, unsigned owner)
{
	if (!g_life[0]) return;
	Life f(vs.node);
	{ Op o(OWN(owner), 0, false, true); vs_list.init(l); }
	for (size_t i = 0; i < f.n; ++i) { u8* q = f.take(i, owner); Op o(OWN(owner), 0, false, true); if (i & 1) vs_list.insert_head(l, q, f.obj(i)); else vs_list.insert_tail(l, q, f.obj(i)); }
	for (size_t i = 0; i < f.last(); ++i) { { Op o(OWN(owner), 0, false, true); vs_list.remove_existing(l, f.node(i)); } f.gone(i); }
}
void life_hash(const vs_hash_ops& T, void* h, size_t size, unsigned owner)
{
	if (!g_life[0]) return;
	Life f(vs.node);
	if (g_life[2]) size = size * 4 + 100;
	{ Op o(OWN(owner), owner); T.init(h, size); }
	for (size_t i = 0; i < f.n; ++i) { u8* q = f.take(i, owner); Op o(OWN(owner), owner); T.insert(h, q, f.obj(i), i); }
	for (size_t i = f.n; i > f.n - f.last(); --i) { { Op o(OWN(owner), owner); T.remove_existing(h, f.node(i - 1)); } f.gone(i - 1); }
	Op o(OWN(owner), 0);
	T.done(h);
}
void life_tree(void* t, unsigned owner)
{
	if (!g_life[0]) return;
	Life f(vs.node);
	{ Op o(OWN(owner), 0, false, true); vs_tree.init(t, life_cmp); }
	for (size_t i = 0; i < f.n; ++i) { u8* q = f.take(i, owner); Op o(OWN(owner), 0, false, true); vs_tree.insert(t, q, f.obj(i)); }
	for (size_t i = 0; i < f.last(); ++i) { { Op o(OWN(owner), 0, false, true); vs_tree.remove(t, f.obj(i)); } f.gone(i); }
}
void life_trie(const vs_trie_ops& T, void* t, void* alloc, unsigned owner, unsigned alloc_owner)
{
	if (!g_life[0]) return;
	Life f(T.node_size);
	u64 w = OWN(owner) | (alloc ? OWN(alloc_owner) : 0);
	if (alloc) { Op o(OWN(alloc_owner), alloc_owner); vs_alloc.init(alloc, vs.trie_block, vs.trie_block); }
	{ Op o(w, alloc_owner); T.init(t, alloc); }
	for (size_t i = 0; i < f.n; ++i) { u8* q = f.take(i, owner); Op o(w, alloc_owner); T.insert(t, q, f.obj(i), i * 5 & 0xFF); }
	for (size_t i = 0; i < f.last(); ++i) { { Op o(w, alloc_owner); T.remove_existing(t, f.node(i)); } f.gone(i); }
	if (alloc) { Op o(OWN(alloc_owner), 0); vs_alloc.done(alloc); }
}
void life_alloc(void* a, size_t size, size_t align, unsigned owner)
{
	if (!g_life[0]) return;
	Life f(16);
	if (g_life[2] == 1) { size = size * 8 + 4100; align *= 4; }
	if (g_life[2] == 2) { size = (size + 1) / 2; align = 1; }
	{ Op o(OWN(owner), owner); vs_alloc.init(a, size, align); }
	std::vector<void*> b;
	for (size_t i = 0; i < f.n; ++i) { Op o(OWN(owner), owner); b.push_back(vs_alloc.alloc(a)); }
	for (size_t i = 0; i < f.last(); ++i) { Op o(OWN(owner), owner); vs_alloc.free(a, b[i]); }
	Op o(OWN(owner), owner);
	vs_alloc.done(a);
}
void life_array(const vs_array_ops& T, void* a, size_t es, unsigned owner)
{
	if (!g_life[0]) return;
	Life f(16);
	/* with elements of another size, where it can be chosen */
	if (g_life[2] == 1 && (&T == &vs_array[1] || &T == &vs_array[3])) es = es * 3 + 5;
	if (g_life[2] == 2 && (&T == &vs_array[1] || &T == &vs_array[3])) es = (es + 1) / 2;
	{ Op o(OWN(owner), owner); T.init(a, es); }
	{ Op o(OWN(owner), owner); T.grow(a, f.n); }
	{ Op o(OWN(owner), owner); T.grow(a, f.n + f.last()); }
	void* p;
	{ Op o(OWN(owner), 0); p = T.ref(a, 0); }
	mfill(p, 0xC3, es);
	{ Op o(OWN(owner), 0); p = T.ref(a, f.n + f.last() - 1); }
	mfill(p, 0xC3, es);
	Op o(OWN(owner), 0);
	T.done(a);
}

void use_nodes(size_t size, size_t count)
{
	node_size = size;
	node_stride = (size + 16 + 15) & ~(size_t)15;
	if (g_pack) node_stride = size;
	/* if not packed, 16 bytes of red zone between nodes at least */
	used_node = node_stride * count + 16;
	if (g_life[0]) {
		if ((size_t)g_life[0] * 128 > SEC_NODE / 4) { fprintf(stderr, "life too long\n"); _exit(3); }
		if (used_node > SEC_NODE / 2 || g_place == 1) { fprintf(stderr, "no room for an earlier life\n"); _exit(3); }
	}
	if (used_node > SEC_NODE - 16 || count * 16 + 16384 > SEC_DATA) {
		fprintf(stderr, "too many nodes\n");
		_exit(3);
	}
	node_sec = arena + SEC_STRUCT + SEC_MODEL;
	if (g_place == 1 && used_node < (32u << 20)) {
		size_t before = count > 3 ? 3 : count;
		if (g_rev) before = count - before;
		if (before * node_stride < (16u << 20)) node_sec += (16u << 20) - before * node_stride;
	}
	far_nodes = 0;
	if (g_place == 5 && sizeof(void*) == 8 && count && count <= FAR_MAX) {
		/* all with the same lower 32 bits */
		far_nodes = count;
		used_node = size * count;
		node_sec = arena + ((size_t)1 << 16 << 16);
		node_room = (size_t)FAR_MAX << 16 << 16;
		node_first = node_sec + g_noff + (g_rev ? (count - 1) << 16 << 16 : 0);
		node_step = (ptrdiff_t)1 << 16 << 16;
		if (g_rev) node_step = -node_step;
		return;
	}
	node_room = SEC_NODE - (size_t)(node_sec - (arena + SEC_STRUCT + SEC_MODEL));
	node_first = node_sec + g_noff;
	node_step = (ptrdiff_t)node_stride;
	if (g_rev) {
		node_first += node_stride * (count ? count - 1 : 0);
		node_step = -node_step;
	}
}

void node_prepare(size_t i, unsigned owner)
{
	u8* n = nodep(i);
	if (g_garbage == 0x02) {
		/* pointers to itself */
		for (size_t k = 0; k + sizeof(void*) <= node_size; k += sizeof(void*))
			mcopy(n + k, &n, sizeof n);
	} else if (g_garbage == 0x03) {
		/* pointers to the first node */
		u8* q = nodep(0);
		for (size_t k = 0; k + sizeof(void*) <= node_size; k += sizeof(void*))
			mcopy(n + k, &q, sizeof q);
	} else if (g_garbage == 0x04 || g_garbage == 0x05) {
		/* as a node linked with another one: alone at the head and followed, or the other way */
		u8* q = nodep(i ? i - 1 : 1);
		for (size_t k = 0; k + sizeof(void*) <= node_size; k += sizeof(void*)) {
			u8* w = (k == 0) == (g_garbage == 0x04) ? n : q;
			mcopy(n + k, &w, sizeof w);
		}
	} else if (g_garbage != 0x01)
		mfill(n, g_garbage, node_size);
	perm(n, node_size, owner);
}

void node_release(size_t i)
{
	perm(nodep(i), node_size, 0);
	if (g_garbage != 0x01)
		mfill(nodep(i), g_garbage < 6 ? 0xEE : g_garbage, node_size);
}

static inline u64 mul_fold(u64 a, u64 b)
{
#ifdef __SIZEOF_INT128__
	unsigned __int128 m = (unsigned __int128)a * b;
	return (u64)m ^ (u64)(m >> 64);
#else
	u64 x = a * b;
	u64 y = ((a >> 32) * (b >> 32)) ^ ((a << 32 | a >> 32) * (b | 1));
	return x ^ y ^ (y >> 29);
#endif
}

void Hash::word(u64 w)
{
	a = mul_fold(a ^ w, 0xA0761D6478BD642Full) + 0x9E3779B97F4A7C15ull;
	b = mul_fold(b + w * 0xE7037ED1A0B428DBull, 0x8EBC6AF09C88C6E3ull) ^ (b << 7 | b >> 57);
}

void Hash::bytes(const void* p, size_t n)
{
	const u8* q = (const u8*)p;
	while (n >= 8) {
		u64 w;
		__builtin_memcpy(&w, q, 8);
		word(w);
		q += 8;
		n -= 8;
	}
	if (n) {
		u64 w = 0;
		for (size_t i = 0; i < n; ++i) w |= (u64)q[i] << (8 * i);
		word(w);
	}
}

void hash_heap(Hash& h)
{
	for (auto& b : blks) {
		h.word((u64)b.off << 32 | b.size);
		h.bytes(sec_heap() + b.off, b.size);
	}
	if (heap_cfg.bump) h.word(bump_pos);
}

void hash_lib(Hash& h)
{
	h.bytes(__start_vfdata, (size_t)(__stop_vfdata - __start_vfdata));
	h.bytes(__start_vfbss, (size_t)(__stop_vfbss - __start_vfbss));
}

void Sys::canon(Hash& h)
{
	h.bytes(sec_struct(), used_struct);
	h.bytes(sec_model(), used_model);
	hash_nodes(h);
	hash_heap(h);
	hash_lib(h);
}

void snap_save(Snap& s)
{
	size_t live = 0;
	for (auto& b : blks) live += b.size;
	size_t ls = lib_size();
	s.bytes.resize(used_struct + used_model + used_node + live + ls);
	u8* p = s.bytes.data();
	mcopy(p, sec_struct(), used_struct); p += used_struct;
	mcopy(p, sec_model(), used_model); p += used_model;
	nodes_chunks([&](u8* q, size_t n) { mcopy(p, q, n); p += n; });
	for (auto& b : blks) { mcopy(p, sec_heap() + b.off, b.size); p += b.size; }
	if (ls) lib_save(p);
	s.blks = blks;
	s.led = led;
	s.hw = bump_pos;
}

void snap_restore(const Snap& s, Sys& sys)
{
	const u8* p = s.bytes.data();
	mcopy(sec_struct(), p, used_struct); p += used_struct;
	mcopy(sec_model(), p, used_model); p += used_model;
	nodes_chunks([&](u8* q, size_t n) { mcopy(q, p, n); p += n; });
	/* wipe the blocks that disappear */
	bool same = blks.size() == s.blks.size();
	for (size_t i = 0; same && i < blks.size(); ++i)
		same = blks[i].off == s.blks[i].off && blks[i].size == s.blks[i].size && blks[i].owner == s.blks[i].owner;
	if (!same) {
		for (auto& b : blks) {
			mfill(sec_heap() + b.off, heap_cfg.freed, b.size);
			perm(sec_heap() + b.off, b.size, 0);
		}
		blks = s.blks;
		for (auto& b : blks) {
			mfill(sec_heap() + b.off - RZ, 0xFA, RZ);
			mfill(sec_heap() + b.off + b.size, 0xFA, RZ);
		}
	}
	for (auto& b : blks) {
		perm(sec_heap() + b.off, b.size, b.owner ? b.owner : 63);
		mcopy(sec_heap() + b.off, p, b.size);
		p += b.size;
	}
	if (lib_size()) lib_load(p);
	led = s.led;
	bump_pos = s.hw;
	if (shadow || asan) {
		perm(sec_struct(), used_struct, 0);
		nodes_chunks([](u8* q, size_t n) { perm(q, n, 0); });
		sys.reperm();
	}
}

/* ------------------------------------------------------------------ */
/* breadth-first exploration */

Ints g_trace_prefix;
std::function<void(u32, u32)> g_edge;
struct Visit { u32 parent; int op; };

bool bfs(Sys& sys, int max_depth, u64 max_states)
{
	std::vector<Visit> vis;
	std::unordered_map<Hash, u32, HashHash> seen;
	struct Front { u32 idx; int depth; Snap snap; };
	std::deque<Front> q;
	size_t q_bytes = 0;
	u32 cur = 0;
	int cur_op = -1;
	Ints replay_done;
	bool complete = true;
	u64 states0 = st.states;

	g_trace = [&](Ints& out) {
		Ints o;
		out = g_trace_prefix;
		if (g_replaying) { out.insert(out.end(), replay_done.begin(), replay_done.end()); return; }
		if (cur_op >= 0) o.push_back(cur_op);
		for (u32 i = cur; i < vis.size() && vis[i].op >= 0; i = vis[i].parent) o.push_back(vis[i].op);
		std::reverse(o.begin(), o.end());
		out.insert(out.end(), o.begin(), o.end());
	};
	g_trace_text = [&]() {
		Ints t;
		g_trace(t);
		t.erase(t.begin(), t.begin() + (ptrdiff_t)g_trace_prefix.size());
		std::string s;
		if (!g_trace_prefix.empty()) {
			s = "[";
			for (auto x : g_trace_prefix) s += " " + std::to_string(x);
			s += " ] ";
		}
		for (size_t i = 0; i < t.size(); ++i) {
			if (i) s += "; ";
			if (t.size() > 80 && i == 40) { s += sfmt("... (%zu operations) ... ", t.size() - 80); i = t.size() - 40; }
			s += sys.opname((int)t[i]);
		}
		return s;
	};

	arena_reset();
	sys.init();
	if (g_pruned)
		return false;
	sys.check();

	if (g_replaying) {
		for (auto o : g_replay) {
			std::vector<int> en;
			sys.ops(en);
			if (std::find(en.begin(), en.end(), (int)o) == en.end()) {
				/* another system of the same job */
				return true;
			}
			replay_done.push_back(o);
			sys.apply((int)o);
			sys.check();
			if (sys.want_fini()) {
				Snap s;
				snap_save(s);
				for (int v = 0; v < sys.finis() && !g_pruned; ++v) {
					sys.fini(v);
					snap_restore(s, sys);
				}
			}
		}
		return true;
	}

	vis.push_back({ 0, -1 });
	{
		Hash h;
		sys.canon(h);
		seen.emplace(h, 0);
		Front f;
		f.idx = 0;
		f.depth = 0;
		snap_save(f.snap);
		if (sys.want_fini()) {
			for (int v = 0; v < sys.finis() && !g_pruned; ++v) {
				sys.fini(v);
				snap_restore(f.snap, sys);
			}
		}
		q_bytes += f.snap.bytes.size() + 128;
		q.push_back(std::move(f));
	}
	++st.states;

	std::vector<int> en;
	int tick = 0;
	while (!q.empty()) {
		Front f = std::move(q.front());
		q.pop_front();
		q_bytes -= f.snap.bytes.size() + 128;
		st.depth = std::max(st.depth, (u64)f.depth);
		if (f.depth >= max_depth) {
			complete = false;
			continue;
		}
		if ((++tick & 63) == 0 && out_of_time()) { complete = false; break; }
		cur = f.idx;
		cur_op = -1;
		snap_restore(f.snap, sys);
		if (!sys.expand())
			continue;
		en.clear();
		sys.ops(en);
		for (size_t k = 0; k < en.size(); ++k) {
			if (k) snap_restore(f.snap, sys);
			g_pruned = false;
			cur_op = en[k];
			sys.apply(cur_op);
			++st.num["edges"];
			if (g_pruned)
				continue;
			Hash h;
			sys.canon(h);
			auto it = seen.find(h);
			if (it != seen.end()) {
				if (g_edge) g_edge(f.idx, it->second);
				continue;
			}
			sys.check();
			if (g_pruned)
				continue;
			if (st.states - states0 >= max_states) { complete = false; continue; }
			u32 idx = (u32)vis.size();
			vis.push_back({ f.idx, cur_op });
			if (g_edge) g_edge(f.idx, idx);
			seen.emplace(h, idx);
			++st.states;
			Front n;
			n.idx = idx;
			n.depth = f.depth + 1;
			snap_save(n.snap);
			if (sys.want_fini()) {
				for (int v = 0; v < sys.finis() && !g_pruned; ++v) {
					if (v) snap_restore(n.snap, sys);
					sys.fini(v);
				}
				if (g_pruned) continue;
				/* no restore needed: the next iteration restores */
			}
			q_bytes += n.snap.bytes.size() + 128;
			if (q_bytes > (sizeof(void*) == 8 ? (size_t)3 << 30 : (size_t)1 << 29)) { complete = false; continue; }
			q.push_back(std::move(n));
		}
		cur_op = -1;
	}
	/* samples: the deepest history and one in the middle */
	for (u32 i : { (u32)vis.size() - 1, (u32)vis.size() / 2 }) {
		cur = i;
		cur_op = -1;
		st.sample(g_trace_text());
	}
	if (!complete) st.exhaustive = false;
	g_trace = nullptr;
	g_trace_text = nullptr;
	return complete;
}

/* ------------------------------------------------------------------ */
/* jobs and main */

long long Params::i(const char* k, long long def) const
{
	auto it = kv.find(k);
	used.insert(k);
	if (it == kv.end()) return def;
	char* e;
	long long r = strtoll(it->second.c_str(), &e, 0);
	if (*e) { fprintf(stderr, "%s wants one number\n", k); exit(3); }
	return r;
}
std::string Params::s(const char* k, const char* def) const
{
	auto it = kv.find(k);
	used.insert(k);
	return it == kv.end() ? def : it->second;
}
Ints Params::list(const char* k, const char* def) const
{
	std::string v = s(k, def);
	Ints r;
	const char* p = v.c_str();
	while (*p) {
		char* e;
		long long a = strtoll(p, &e, 0);
		if (e == p) break;
		if (*e == '-') {
			long long b = strtoll(e + 1, &e, 0);
			for (; a <= b; ++a) r.push_back(a);
		} else
			r.push_back(a);
		p = *e == ',' ? e + 1 : e;
	}
	return r;
}

static std::map<std::string, JobFn*>& registry()
{
	static std::map<std::string, JobFn*> r;
	return r;
}
JobReg::JobReg(const char* name, JobFn* fn) { registry()[name] = fn; }

int main(int argc, char** argv)
{
	std::string replay, job;
	double budget = 0;
	for (int i = 1; i < argc; ++i) {
		std::string a = argv[i];
		if (a == "--prop" && i + 1 < argc) {
			for (const char* p = argv[++i]; *p; ++p)
				if (*p == 'C') g_prop |= PBIT(atoi(p + 1));
		} else if (a == "--job" && i + 1 < argc) job = argv[++i];
		else if (a == "--out" && i + 1 < argc) g_out = argv[++i];
		else if (a == "--budget" && i + 1 < argc) budget = atof(argv[++i]);
		else if (a == "--hang" && i + 1 < argc) wd_limit = atof(argv[++i]);
		else if (a == "--replay" && i + 1 < argc) { g_replaying = true; replay = argv[++i]; }
		else { fprintf(stderr, "bad argument %s\n", a.c_str()); return 2; }
	}
	/* every build behaves the same: any difference from the models, then compared with that of the other builds */
	if (g_prop == C31 || g_prop == C32 || g_prop == C38) g_prop = ~0ull;
	Params p;
	g_job = job;
	{
		size_t o = 0;
		bool first = true;
		while (o < job.size()) {
			size_t e = job.find(' ', o);
			if (e == std::string::npos) e = job.size();
			std::string w = job.substr(o, e - o);
			o = e + 1;
			if (w.empty()) continue;
			size_t q = w.find('=');
			if (first) { p.name = w; first = false; }
			else if (q == std::string::npos) p.kv[w] = "1";
			else p.kv[w.substr(0, q)] = w.substr(q + 1);
		}
	}
	if (g_replaying) {
		const char* q = replay.c_str();
		while (*q) {
			char* e;
			long long v = strtoll(q, &e, 10);
			if (e == q) break;
			g_replay.push_back(v);
			q = *e == ',' ? e + 1 : e;
		}
	}
	auto it = registry().find(p.name);
	if (it == registry().end()) {
		fprintf(stderr, "unknown job %s\n", p.name.c_str());
		return 2;
	}

	/* the main stack */
	struct rlimit rl;
	getrlimit(RLIMIT_STACK, &rl);
	size_t ss = rl.rlim_cur == RLIM_INFINITY || rl.rlim_cur > (64u << 20) ? (64u << 20) : (size_t)rl.rlim_cur;
	uintptr_t top = (uintptr_t)__builtin_frame_address(0) + 65536;
	g_stk_lo = top - ss;
	g_stk_size = ss;

	g_place = (int)p.i("place", 0);
	g_rev = p.i("rev", 0) != 0;
	g_noff = (size_t)p.i("noff", 0);
	g_pack = p.i("pack", 0) != 0;
	arena_map();
	if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(on_death);
	static u8 alt[65536];
	stack_t sg = {};
	sg.ss_sp = alt;
	sg.ss_size = sizeof alt;
	sigaltstack(&sg, 0);
	struct sigaction sa = {};
	sa.sa_flags = SA_ONSTACK;
	sa.sa_handler = on_crash;
	for (int s : { SIGBUS, SIGFPE, SIGILL, SIGABRT })
		sigaction(s, &sa, 0);
	if (!asan) sigaction(SIGSEGV, &sa, 0);
	sa.sa_handler = on_tick;
	sa.sa_flags = SA_RESTART | SA_ONSTACK;
	sigaction(SIGVTALRM, &sa, 0);
	struct itimerval iv = { { 1, 0 }, { 1, 0 } };
	setitimer(ITIMER_VIRTUAL, &iv, 0);

	double t0 = now_s();
	if (budget > 0) g_deadline = t0 + budget;
	heap_cfg.skew = (u32)p.i("skew", 0);
	heap_cfg.mod = (u32)p.i("mod", 16);
	heap_cfg.bump = p.i("bump", 0) != 0;
	heap_cfg.fill = (u8)p.i("fill", 0xCD);
	heap_cfg.stale = p.i("stale", 0) != 0;
	g_garbage = (u8)p.i("garbage", 0xA5);
	g_struct_fill = (int)p.i("sfill", 0x5B);
	{
		Ints v = p.list("life", "0");
		g_life[0] = (int)v[0];
		g_life[1] = v.size() > 1 ? (int)v[1] : 0;
		g_life[2] = v.size() > 2 ? (int)v[2] : 0;
	}
	it->second(p);
	for (auto& k : p.kv)
		if (!p.used.count(k.first)) { fprintf(stderr, "the job has no parameter %s\n", k.first.c_str()); return 3; }

	if (!st.states) st.states = st.cases;
	if (g_stack_used) st.num["max_stack_bytes"] = g_stack_used;
	std::string o = "{\"job\":" + jstr(job) + ",\"states\":" + std::to_string(st.states) + ",\"transitions\":" + std::to_string(st.transitions)
		+ ",\"cases\":" + std::to_string(st.cases) + ",\"traces\":" + std::to_string(st.traces) + ",\"depth\":" + std::to_string(st.depth)
		+ ",\"exhaustive\":" + (st.exhaustive ? "true" : "false") + ",\"foreign\":" + std::to_string(g_foreign)
		+ ",\"obs\":\"" + sfmt("%llx", (unsigned long long)g_obs) + "\",\"wall\":" + sfmt("%.3f", now_s() - t0) + ",\"num\":{";
	bool first = true;
	for (auto& k : st.num) { o += (first ? "" : ",") + jstr(k.first) + ":" + std::to_string(k.second); first = false; }
	o += "},\"samples\":[";
	first = true;
	for (auto& s : st.samples) { o += (first ? "" : ",") + jstr(s.substr(0, 600)); first = false; }
	o += "],\"notes\":[";
	first = true;
	for (auto& s : st.notes) { o += (first ? "" : ",") + jstr(s); first = false; }
	o += "],\"foreign_msgs\":[";
	first = true;
	for (auto& s : g_foreign_msgs) { o += (first ? "" : ",") + jstr(s.first); first = false; }
	o += "]}\n";
	write_file(o);
	_exit(0);
}
