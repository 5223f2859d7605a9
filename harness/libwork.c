/* The library under test, and its inline functions, alone in a translation
 * unit that can be instrumented to count the work they do. */
#include "tommyds/tommy.c"
#include "w.h"
void w_list_head_insert(tommy_list* c, tommy_node* n, void* d) { tommy_list_insert_head(c, n, d); }
void w_list_tail_insert(tommy_list* c, tommy_node* n, void* d) { tommy_list_insert_tail(c, n, d); }
void* w_list_remove(tommy_list* c, tommy_node* n) { return tommy_list_remove_existing(c, n); }
void w_list_concat(tommy_list* a, tommy_list* b) { tommy_list_concat(a, b); }
int w_list_ends(tommy_list* c) { return (tommy_list_head(c) != 0) + (tommy_list_tail(c) != 0) + (tommy_list_empty(c) != 0); }
tommy_size_t w_list_count(tommy_list* c) { return tommy_list_count(c); }
void w_list_foreach(tommy_list* c, tommy_foreach_func* f) { tommy_list_foreach(c, f); }
void w_list_foreach_arg(tommy_list* c, tommy_foreach_arg_func* f, void* a) { tommy_list_foreach_arg(c, f, a); }
#define MAP(K) \
void* w_##K##_bucket(tommy_##K* c, tommy_hash_t h) { return tommy_##K##_bucket(c, h); } \
void* w_##K##_search(tommy_##K* c, tommy_search_func* f, const void* a, tommy_hash_t h) { return tommy_##K##_search(c, f, a, h); } \
tommy_size_t w_##K##_count(tommy_##K* c) { return tommy_##K##_count(c); }
MAP(hashtable) MAP(hashdyn) MAP(hashlin)
#define TRIE(K) \
void* w_##K##_search(tommy_##K* c, tommy_key_t k) { return tommy_##K##_search(c, k); } \
tommy_size_t w_##K##_count(tommy_##K* c) { return tommy_##K##_count(c); }
TRIE(trie) TRIE(trie_inplace)
tommy_size_t w_tree_count(tommy_tree* c) { return tommy_tree_count(c); }
void* w_array(tommy_array* a, tommy_size_t p, void* v) { tommy_array_set(a, p, v); *tommy_array_ref(a, p) = v; return (char*)tommy_array_get(a, p) + (tommy_array_size(a) == 0); }
void w_array_insert(tommy_array* a, void* v) { tommy_array_insert(a, v); }
void* w_arrayblk(tommy_arrayblk* a, tommy_size_t p, void* v) { tommy_arrayblk_set(a, p, v); *tommy_arrayblk_ref(a, p) = v; return (char*)tommy_arrayblk_get(a, p) + (tommy_arrayblk_size(a) == 0); }
void w_arrayblk_insert(tommy_arrayblk* a, void* v) { tommy_arrayblk_insert(a, v); }
void* w_arrayof(tommy_arrayof* a, tommy_size_t p) { return (char*)tommy_arrayof_ref(a, p) + (tommy_arrayof_size(a) == 0); }
tommy_size_t w_arrayof_size(tommy_arrayof* a) { return tommy_arrayof_size(a); }
void* w_arrayblkof(tommy_arrayblkof* a, tommy_size_t p) { return (char*)tommy_arrayblkof_ref(a, p) + (tommy_arrayblkof_size(a) == 0); }
tommy_size_t w_arrayblkof_size(tommy_arrayblkof* a) { return tommy_arrayblkof_size(a); }
