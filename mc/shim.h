/*
 * Uniform function-table view of the tommyds public API.
 *
 * shim.c is the only file of the machinery that includes the sources of /repo:
 * it is compiled once per build configuration (C, C++, 32 bit, sanitized,
 * access-monitored, portable code paths) and everything else links to it.
 */
#ifndef SHIM_H
#define SHIM_H

#include <stddef.h>
#include <stdint.h>

#ifdef __cplusplus
extern "C" {
#endif

typedef int vs_cmp(const void* a, const void* b);
typedef void vs_each(void* obj);
typedef void vs_each_arg(void* arg, void* obj);

/* sizes and documented field offsets */
typedef struct {
	size_t node, node_next, node_prev, node_data;
	size_t inode, inode_next, inode_prev, inode_data;
	size_t size_bit; /* TOMMY_SIZE_BIT */
	size_t trie_block; /* TOMMY_TRIE_BLOCK_SIZE */
	size_t trie_bit, trie_inplace_bit; /* documented key range */
	int is_cxx, has_assert, has_builtin, is_monitored;
} vs_layout;
extern const vs_layout vs;

typedef struct {
	size_t size;
	void (*init)(void* l);
	void* (*head)(void* l);
	void* (*tail)(void* l);
	void (*insert_head)(void* l, void* node, void* data);
	void (*insert_tail)(void* l, void* node, void* data);
	void* (*remove_existing)(void* l, void* node);
	void (*concat)(void* a, void* b);
	void (*sort)(void* l, vs_cmp* cmp);
	int (*empty)(void* l);
	size_t (*count)(void* l);
	void (*foreach)(void* l, vs_each* f);
	void (*foreach_arg)(void* l, vs_each_arg* f, void* arg);
} vs_list_ops;
extern const vs_list_ops vs_list;

typedef struct {
	const char* name;
	size_t size;
	void (*init)(void* h, size_t size);
	void (*done)(void* h);
	void (*insert)(void* h, void* node, void* data, size_t hash);
	void* (*remove)(void* h, vs_cmp* cmp, const void* arg, size_t hash);
	void* (*bucket)(void* h, size_t hash);
	void* (*search)(void* h, vs_cmp* cmp, const void* arg, size_t hash);
	void* (*remove_existing)(void* h, void* node);
	void (*foreach)(void* h, vs_each* f);
	void (*foreach_arg)(void* h, vs_each_arg* f, void* arg);
	size_t (*count)(void* h);
	size_t (*memory_usage)(void* h);
} vs_hash_ops;
extern const vs_hash_ops vs_hash[3]; /* hashtable, hashdyn, hashlin */

typedef struct {
	size_t size;
	void (*init)(void* t, vs_cmp* cmp);
	void* (*insert)(void* t, void* node, void* data);
	void* (*remove)(void* t, void* data);
	void* (*search)(void* t, void* data);
	void* (*search_compare)(void* t, vs_cmp* cmp, void* arg);
	void* (*remove_existing)(void* t, void* node);
	void (*foreach)(void* t, vs_each* f);
	void (*foreach_arg)(void* t, vs_each_arg* f, void* arg);
	size_t (*count)(void* t);
	size_t (*memory_usage)(void* t);
} vs_tree_ops;
extern const vs_tree_ops vs_tree;

typedef struct {
	const char* name;
	size_t size, node_size, next, prev, data;
	void (*init)(void* t, void* alloc);
	void (*insert)(void* t, void* node, void* data, size_t key);
	void* (*remove)(void* t, size_t key);
	void* (*bucket)(void* t, size_t key);
	void* (*search)(void* t, size_t key);
	void* (*remove_existing)(void* t, void* node);
	size_t (*count)(void* t);
	size_t (*memory_usage)(void* t);
} vs_trie_ops;
extern const vs_trie_ops vs_trie[2]; /* trie, trie_inplace */

typedef struct {
	size_t size;
	void (*init)(void* a, size_t block_size, size_t align_size);
	void (*done)(void* a);
	void* (*alloc)(void* a);
	void (*free)(void* a, void* ptr);
	size_t (*memory_usage)(void* a);
} vs_alloc_ops;
extern const vs_alloc_ops vs_alloc;

typedef struct {
	const char* name;
	size_t size;
	int is_of; /* takes an element size, has ref() only */
	void (*init)(void* a, size_t element_size);
	void (*done)(void* a);
	void (*grow)(void* a, size_t size);
	void* (*ref)(void* a, size_t pos);
	void (*set)(void* a, size_t pos, void* element); /* null in "of" arrays */
	void* (*get)(void* a, size_t pos);
	void (*insert)(void* a, void* element);
	size_t (*count)(void* a);
	size_t (*memory_usage)(void* a);
} vs_array_ops;
extern const vs_array_ops vs_array[4]; /* array, arrayof, arrayblk, arrayblkof */

uint32_t vs_hash_u32(uint32_t init, const void* key, size_t len);
uint64_t vs_hash_u64(uint64_t init, const void* key, size_t len);
uint32_t vs_strhash_u32(uint64_t init, const void* key);
uint32_t vs_inthash_u32(uint32_t key);
uint64_t vs_inthash_u64(uint64_t key);
uint32_t vs_ilog2_u32(uint32_t v);
uint32_t vs_ctz_u32(uint32_t v);
uint32_t vs_roundup_u32(uint32_t v);
uint64_t vs_roundup_u64(uint64_t v);
int vs_haszero_u32(uint32_t v);
uint32_t vs_ilog2_u64(uint64_t v); /* 64 bit builds only */
uint32_t vs_ctz_u64(uint64_t v);
size_t vs_roundup(size_t v);
uint32_t vs_ilog2(size_t v);
uint32_t vs_ctz(size_t v);
/* bulk loops, run in the library's own translation unit so that whole domains are affordable */
uint64_t vs_inthash_u32_range(uint64_t from, uint64_t to, uint64_t* bitmap); /* number of hashes already present in the bitmap */
int vs_bits_range(uint64_t from, uint64_t to, uint64_t* bad); /* nonzero if a 32 bit primitive is wrong in the range */

/* heap hooks, implemented by the harness */
void* vf_malloc(size_t size);
void* vf_calloc(size_t n, size_t size);
void* vf_realloc(void* p, size_t size);
void vf_free(void* p);
void* vf_raw_malloc(size_t size);
void* vf_raw_calloc(size_t n, size_t size);
void* vf_raw_realloc(void* p, size_t size);
void vf_raw_free(void* p);
void* vf_memset(void* p, int c, size_t n);
void* vf_memcpy(void* d, const void* s, size_t n);
void* vf_memmove(void* d, const void* s, size_t n);
int vf_memcmp(const void* a, const void* b, size_t n);
size_t vf_strlen(const char* s);

#ifdef __cplusplus
}
#endif

#endif
