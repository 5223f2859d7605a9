/* The inline functions of the library, compiled in libwork.c. */
void w_list_head_insert(tommy_list* c, tommy_node* n, void* d);
void w_list_tail_insert(tommy_list* c, tommy_node* n, void* d);
void* w_list_remove(tommy_list* c, tommy_node* n);
void w_list_concat(tommy_list* a, tommy_list* b);
int w_list_ends(tommy_list* c);
tommy_size_t w_list_count(tommy_list* c);
void w_list_foreach(tommy_list* c, tommy_foreach_func* f);
void w_list_foreach_arg(tommy_list* c, tommy_foreach_arg_func* f, void* a);
#define W_MAP(K) \
void* w_##K##_bucket(tommy_##K* c, tommy_hash_t h); \
void* w_##K##_search(tommy_##K* c, tommy_search_func* f, const void* a, tommy_hash_t h); \
tommy_size_t w_##K##_count(tommy_##K* c);
W_MAP(hashtable) W_MAP(hashdyn) W_MAP(hashlin)
#define W_TRIE(K) \
void* w_##K##_search(tommy_##K* c, tommy_key_t k); \
tommy_size_t w_##K##_count(tommy_##K* c);
W_TRIE(trie) W_TRIE(trie_inplace)
tommy_size_t w_tree_count(tommy_tree* c);
void* w_array(tommy_array* a, tommy_size_t p, void* v);
void w_array_insert(tommy_array* a, void* v);
void* w_arrayblk(tommy_arrayblk* a, tommy_size_t p, void* v);
void w_arrayblk_insert(tommy_arrayblk* a, void* v);
void* w_arrayof(tommy_arrayof* a, tommy_size_t p);
tommy_size_t w_arrayof_size(tommy_arrayof* a);
void* w_arrayblkof(tommy_arrayblkof* a, tommy_size_t p);
tommy_size_t w_arrayblkof_size(tommy_arrayblkof* a);
