/* Force-included in every translation unit (-include heap.h): redirects the
 * heap of tommyds, with its documented macros, to an accounting heap. */
#ifndef VF_HEAP_H
#define VF_HEAP_H
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
void* vf_malloc(size_t size);
void* vf_calloc(size_t n, size_t size);
void* vf_realloc(void* ptr, size_t size);
void vf_free(void* ptr);
#ifdef __cplusplus
}
#endif
#define tommy_malloc vf_malloc
#define tommy_calloc vf_calloc
#define tommy_realloc vf_realloc
#define tommy_free vf_free
#ifdef VF_WORK
/* the work done with memory functions is not seen as basic blocks */
#include <string.h>
#ifdef __cplusplus
extern "C" {
#endif
void* vf_memset(void* p, int c, size_t n);
void* vf_memcpy(void* p, const void* q, size_t n);
void* vf_memmove(void* p, const void* q, size_t n);
#ifdef __cplusplus
}
#endif
#define memset vf_memset
#define memcpy vf_memcpy
#define memmove vf_memmove
#endif
#ifdef TOMMYDS_MODEL
#ifndef TOMMY_ARRAY_BIT
#define TOMMY_ARRAY_BIT 6
#endif
#ifndef TOMMY_ARRAYOF_BIT
#define TOMMY_ARRAYOF_BIT 6
#endif
#ifndef TOMMY_ARRAYBLK_SIZE
#define TOMMY_ARRAYBLK_SIZE (4 * 1024)
#endif
#ifndef TOMMY_ARRAYBLKOF_SIZE
#define TOMMY_ARRAYBLKOF_SIZE (4 * 1024)
#endif
#ifndef TOMMY_HASHDYN_BIT
#define TOMMY_HASHDYN_BIT 4
#endif
#ifndef TOMMY_HASHLIN_BIT
#define TOMMY_HASHLIN_BIT 6
#endif
#ifndef TOMMY_TRIE_BIT
#define TOMMY_TRIE_BIT 32
#endif
#ifndef TOMMY_TRIE_TREE_MAX
#define TOMMY_TRIE_TREE_MAX (64 / sizeof(void*))
#endif
#ifndef TOMMY_TRIE_INPLACE_BIT
#define TOMMY_TRIE_INPLACE_BIT 32
#endif
#ifndef TOMMY_TRIE_INPLACE_TREE_MAX
#define TOMMY_TRIE_INPLACE_TREE_MAX 4
#endif
#endif
#endif
