/*
 * The library under test, in one translation unit, behind function tables.
 * Compiled as C or as C++ against the sources in /repo/tommyds (-I).
 */
#include <stddef.h>
#include <stdint.h>
#include <limits.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "shim.h"

#ifdef VF_GENERIC
/* take the portable code paths, as with a compiler without builtins on an unknown machine */
#undef __GNUC__
#undef __i386__
#undef __x86_64__
#undef _X86_
#define tommy_inline static inline
#endif
#include <assert.h>
#ifdef VF_MSVC
/* take the code for the Microsoft compiler, with its names and intrinsics */
#undef __GNUC__
#if UINTPTR_MAX > 0xffffffffu
#define _WIN64 1
#define _M_X64 100
#define _int64 long
#define _int64_t long
#else
#define _M_IX86 600
#define _int64 long long
#endif
#define _WIN32 1
#define _MSC_VER 1900
#include "intrin.h"
#endif

/* documented way to redefine the heap */
#define tommy_malloc vf_malloc
#define tommy_calloc vf_calloc
#define tommy_realloc vf_realloc
#define tommy_free vf_free
/* anything that bypasses it is seen too */
#define malloc vf_raw_malloc
#define calloc vf_raw_calloc
#define realloc vf_raw_realloc
#define free vf_raw_free
#ifdef VF_MON
#define memset vf_memset
#define memcpy vf_memcpy
#define memmove vf_memmove
#define memcmp vf_memcmp
#define strlen vf_strlen
#endif

#include "tommy.c"

#undef malloc
#undef calloc
#undef realloc
#undef free

#ifdef __cplusplus
extern "C" {
#endif

#ifdef NDEBUG
#define HAS_ASSERT 0
#else
#define HAS_ASSERT 1
#endif
#ifdef __cplusplus
#define IS_CXX 1
#else
#define IS_CXX 0
#endif
#ifdef VF_MON
#define IS_MON 1
#else
#define IS_MON 0
#endif
#if defined(VF_GENERIC) || defined(VF_MSVC)
#define HAS_BUILTIN 0
#else
#define HAS_BUILTIN 1
#endif

const vs_layout vs = {
	sizeof(tommy_node), offsetof(tommy_node, next), offsetof(tommy_node, prev), offsetof(tommy_node, data),
	sizeof(tommy_trie_inplace_node), offsetof(tommy_trie_inplace_node, next), offsetof(tommy_trie_inplace_node, prev), offsetof(tommy_trie_inplace_node, data),
	TOMMY_SIZE_BIT, TOMMY_TRIE_BLOCK_SIZE, TOMMY_TRIE_BIT, TOMMY_TRIE_INPLACE_BIT,
	IS_CXX, HAS_ASSERT, HAS_BUILTIN, IS_MON
};

/* list */
static void l_init(void* l) { tommy_list_init((tommy_list*)l); }
static void* l_head(void* l) { return tommy_list_head((tommy_list*)l); }
static void* l_tail(void* l) { return tommy_list_tail((tommy_list*)l); }
static void l_ih(void* l, void* n, void* d) { tommy_list_insert_head((tommy_list*)l, (tommy_node*)n, d); }
static void l_it(void* l, void* n, void* d) { tommy_list_insert_tail((tommy_list*)l, (tommy_node*)n, d); }
static void* l_re(void* l, void* n) { return tommy_list_remove_existing((tommy_list*)l, (tommy_node*)n); }
static void l_cat(void* a, void* b) { tommy_list_concat((tommy_list*)a, (tommy_list*)b); }
static void l_sort(void* l, vs_cmp* c) { tommy_list_sort((tommy_list*)l, c); }
static int l_empty(void* l) { return tommy_list_empty((tommy_list*)l); }
static size_t l_count(void* l) { return tommy_list_count((tommy_list*)l); }
static void l_fe(void* l, vs_each* f) { tommy_list_foreach((tommy_list*)l, f); }
static void l_fa(void* l, vs_each_arg* f, void* a) { tommy_list_foreach_arg((tommy_list*)l, f, a); }
const vs_list_ops vs_list = { sizeof(tommy_list), l_init, l_head, l_tail, l_ih, l_it, l_re, l_cat, l_sort, l_empty, l_count, l_fe, l_fa };

/* hashtables */
#define HASH_WRAP(T) \
static void T##_w_done(void* h) { tommy_##T##_done((tommy_##T*)h); } \
static void T##_w_insert(void* h, void* n, void* d, size_t k) { tommy_##T##_insert((tommy_##T*)h, (tommy_##T##_node*)n, d, k); } \
static void* T##_w_remove(void* h, vs_cmp* c, const void* a, size_t k) { return tommy_##T##_remove((tommy_##T*)h, c, a, k); } \
static void* T##_w_bucket(void* h, size_t k) { return tommy_##T##_bucket((tommy_##T*)h, k); } \
static void* T##_w_search(void* h, vs_cmp* c, const void* a, size_t k) { return tommy_##T##_search((tommy_##T*)h, c, a, k); } \
static void* T##_w_re(void* h, void* n) { return tommy_##T##_remove_existing((tommy_##T*)h, (tommy_##T##_node*)n); } \
static void T##_w_fe(void* h, vs_each* f) { tommy_##T##_foreach((tommy_##T*)h, f); } \
static void T##_w_fa(void* h, vs_each_arg* f, void* a) { tommy_##T##_foreach_arg((tommy_##T*)h, f, a); } \
static size_t T##_w_count(void* h) { return tommy_##T##_count((tommy_##T*)h); } \
static size_t T##_w_mem(void* h) { return tommy_##T##_memory_usage((tommy_##T*)h); }
HASH_WRAP(hashtable)
HASH_WRAP(hashdyn)
HASH_WRAP(hashlin)
static void hashtable_w_init(void* h, size_t size) { tommy_hashtable_init((tommy_hashtable*)h, size); }
static void hashdyn_w_init(void* h, size_t size) { (void)size; tommy_hashdyn_init((tommy_hashdyn*)h); }
static void hashlin_w_init(void* h, size_t size) { (void)size; tommy_hashlin_init((tommy_hashlin*)h); }
#define HASH_TAB(T) { #T, sizeof(tommy_##T), T##_w_init, T##_w_done, T##_w_insert, T##_w_remove, T##_w_bucket, T##_w_search, T##_w_re, T##_w_fe, T##_w_fa, T##_w_count, T##_w_mem }
const vs_hash_ops vs_hash[3] = { HASH_TAB(hashtable), HASH_TAB(hashdyn), HASH_TAB(hashlin) };

/* tree */
static void t_init(void* t, vs_cmp* c) { tommy_tree_init((tommy_tree*)t, c); }
static void* t_insert(void* t, void* n, void* d) { return tommy_tree_insert((tommy_tree*)t, (tommy_tree_node*)n, d); }
static void* t_remove(void* t, void* d) { return tommy_tree_remove((tommy_tree*)t, d); }
static void* t_search(void* t, void* d) { return tommy_tree_search((tommy_tree*)t, d); }
static void* t_sc(void* t, vs_cmp* c, void* a) { return tommy_tree_search_compare((tommy_tree*)t, c, a); }
static void* t_re(void* t, void* n) { return tommy_tree_remove_existing((tommy_tree*)t, (tommy_tree_node*)n); }
static void t_fe(void* t, vs_each* f) { tommy_tree_foreach((tommy_tree*)t, f); }
static void t_fa(void* t, vs_each_arg* f, void* a) { tommy_tree_foreach_arg((tommy_tree*)t, f, a); }
static size_t t_count(void* t) { return tommy_tree_count((tommy_tree*)t); }
static size_t t_mem(void* t) { return tommy_tree_memory_usage((tommy_tree*)t); }
const vs_tree_ops vs_tree = { sizeof(tommy_tree), t_init, t_insert, t_remove, t_search, t_sc, t_re, t_fe, t_fa, t_count, t_mem };

/* tries */
#define TRIE_WRAP(T) \
static void T##_w_insert(void* t, void* n, void* d, size_t k) { tommy_##T##_insert((tommy_##T*)t, (tommy_##T##_node*)n, d, k); } \
static void* T##_w_remove(void* t, size_t k) { return tommy_##T##_remove((tommy_##T*)t, k); } \
static void* T##_w_bucket(void* t, size_t k) { return tommy_##T##_bucket((tommy_##T*)t, k); } \
static void* T##_w_search(void* t, size_t k) { return tommy_##T##_search((tommy_##T*)t, k); } \
static void* T##_w_re(void* t, void* n) { return tommy_##T##_remove_existing((tommy_##T*)t, (tommy_##T##_node*)n); } \
static size_t T##_w_count(void* t) { return tommy_##T##_count((tommy_##T*)t); } \
static size_t T##_w_mem(void* t) { return tommy_##T##_memory_usage((tommy_##T*)t); }
TRIE_WRAP(trie)
TRIE_WRAP(trie_inplace)
static void trie_w_init(void* t, void* a) { tommy_trie_init((tommy_trie*)t, (tommy_allocator*)a); }
static void trie_inplace_w_init(void* t, void* a) { (void)a; tommy_trie_inplace_init((tommy_trie_inplace*)t); }
#define TRIE_TAB(T) { #T, sizeof(tommy_##T), sizeof(tommy_##T##_node), offsetof(tommy_##T##_node, next), offsetof(tommy_##T##_node, prev), offsetof(tommy_##T##_node, data), \
	T##_w_init, T##_w_insert, T##_w_remove, T##_w_bucket, T##_w_search, T##_w_re, T##_w_count, T##_w_mem }
const vs_trie_ops vs_trie[2] = { TRIE_TAB(trie), TRIE_TAB(trie_inplace) };

/* allocator */
static void a_init(void* a, size_t b, size_t l) { tommy_allocator_init((tommy_allocator*)a, b, l); }
static void a_done(void* a) { tommy_allocator_done((tommy_allocator*)a); }
static void* a_alloc(void* a) { return tommy_allocator_alloc((tommy_allocator*)a); }
static void a_free(void* a, void* p) { tommy_allocator_free((tommy_allocator*)a, p); }
static size_t a_mem(void* a) { return tommy_allocator_memory_usage((tommy_allocator*)a); }
const vs_alloc_ops vs_alloc = { sizeof(tommy_allocator), a_init, a_done, a_alloc, a_free, a_mem };

/* arrays */
#define ARRAY_WRAP(T) \
static void T##_w_done(void* a) { tommy_##T##_done((tommy_##T*)a); } \
static void T##_w_grow(void* a, size_t n) { tommy_##T##_grow((tommy_##T*)a, n); } \
static void* T##_w_ref(void* a, size_t p) { return tommy_##T##_ref((tommy_##T*)a, p); } \
static size_t T##_w_count(void* a) { return tommy_##T##_size((tommy_##T*)a); } \
static size_t T##_w_mem(void* a) { return tommy_##T##_memory_usage((tommy_##T*)a); }
#define ARRAY_WRAP_PTR(T) \
static void T##_w_init(void* a, size_t e) { (void)e; tommy_##T##_init((tommy_##T*)a); } \
static void T##_w_set(void* a, size_t p, void* e) { tommy_##T##_set((tommy_##T*)a, p, e); } \
static void* T##_w_get(void* a, size_t p) { return tommy_##T##_get((tommy_##T*)a, p); } \
static void T##_w_insert(void* a, void* e) { tommy_##T##_insert((tommy_##T*)a, e); }
#define ARRAY_WRAP_OF(T) \
static void T##_w_init(void* a, size_t e) { tommy_##T##_init((tommy_##T*)a, e); }
ARRAY_WRAP(array)
ARRAY_WRAP(arrayof)
ARRAY_WRAP(arrayblk)
ARRAY_WRAP(arrayblkof)
ARRAY_WRAP_PTR(array)
ARRAY_WRAP_PTR(arrayblk)
ARRAY_WRAP_OF(arrayof)
ARRAY_WRAP_OF(arrayblkof)
#define ARRAY_TAB_PTR(T) { #T, sizeof(tommy_##T), 0, T##_w_init, T##_w_done, T##_w_grow, T##_w_ref, T##_w_set, T##_w_get, T##_w_insert, T##_w_count, T##_w_mem }
#define ARRAY_TAB_OF(T) { #T, sizeof(tommy_##T), 1, T##_w_init, T##_w_done, T##_w_grow, T##_w_ref, 0, 0, 0, T##_w_count, T##_w_mem }
const vs_array_ops vs_array[4] = { ARRAY_TAB_PTR(array), ARRAY_TAB_OF(arrayof), ARRAY_TAB_PTR(arrayblk), ARRAY_TAB_OF(arrayblkof) };

/* functions */
uint32_t vs_hash_u32(uint32_t init, const void* key, size_t len) { return tommy_hash_u32(init, key, len); }
uint64_t vs_hash_u64(uint64_t init, const void* key, size_t len) { return tommy_hash_u64(init, key, len); }
uint32_t vs_strhash_u32(uint64_t init, const void* key) { return tommy_strhash_u32(init, key); }
uint32_t vs_inthash_u32(uint32_t key) { return tommy_inthash_u32(key); }
uint64_t vs_inthash_u64(uint64_t key) { return tommy_inthash_u64(key); }
uint32_t vs_ilog2_u32(uint32_t v) { return tommy_ilog2_u32(v); }
uint32_t vs_ctz_u32(uint32_t v) { return tommy_ctz_u32(v); }
uint32_t vs_roundup_u32(uint32_t v) { return tommy_roundup_pow2_u32(v); }
uint64_t vs_roundup_u64(uint64_t v) { return tommy_roundup_pow2_u64(v); }
int vs_haszero_u32(uint32_t v) { return tommy_haszero_u32(v); }
#if TOMMY_SIZE_BIT == 64
uint32_t vs_ilog2_u64(uint64_t v) { return tommy_ilog2_u64(v); }
uint32_t vs_ctz_u64(uint64_t v) { return tommy_ctz_u64(v); }
#else
uint32_t vs_ilog2_u64(uint64_t v) { (void)v; return 0; }
uint32_t vs_ctz_u64(uint64_t v) { (void)v; return 0; }
#endif
size_t vs_roundup(size_t v) { return tommy_roundup_pow2(v); }
uint32_t vs_ilog2(size_t v) { return tommy_ilog2(v); }
uint32_t vs_ctz(size_t v) { return tommy_ctz(v); }

uint64_t vs_inthash_u32_range(uint64_t from, uint64_t to, uint64_t* bitmap)
{
	uint64_t dup = 0, i;
	for (i = from; i < to; ++i) {
		uint32_t h = tommy_inthash_u32((uint32_t)i);
		uint64_t bit = (uint64_t)1 << (h & 63);
		if (bitmap[h >> 6] & bit)
			++dup;
		bitmap[h >> 6] |= bit;
	}
	return dup;
}

int vs_bits_range(uint64_t from, uint64_t to, uint64_t* bad)
{
	uint64_t i;
	for (i = from; i < to; ++i) {
		uint32_t v = (uint32_t)i;
		uint32_t hi, lo;
		int z = !(v & 0xff) || !(v & 0xff00) || !(v & 0xff0000) || !(v & 0xff000000);
		if (!!tommy_haszero_u32(v) != z) { *bad = i; return 1; }
		if (!v)
			continue;
		hi = tommy_ilog2_u32(v);
		if (hi > 31 || (v >> hi) != 1) { *bad = i; return 2; }
		lo = tommy_ctz_u32(v);
		if (lo > 31 || ((v >> lo) << lo) != v || !((v >> lo) & 1)) { *bad = i; return 3; }
		if (v <= 0x80000000U) {
			uint32_t r = tommy_roundup_pow2_u32(v);
			if (!r || (r & (r - 1)) || r < v || (r >> 1) >= v) { *bad = i; return 4; }
		}
	}
	return 0;
}

#ifdef __cplusplus
}
#endif
