//@ what setting and removing a key of a map of any content changes what is found for that key only, through growing too, and every entry stays in the chain its hash puts it in; going through a map meets each entry once and freeing it frees each once
//@ props C13
//@ kind bounded
//@ functions map_set_ map_get_ map_remove_ map_getref map_newnode map_resize map_addnode map_bucketidx map_hash map_next_ map_iter_ map_deinit_
//@ cut map.c (?<!static map_node_t \*)\bmap_newnode\( => made_node(
//@ nodfcc
//@ timeout 600
//@ cbmc --bounds-check --pointer-check --object-bits 10 --unwind 6
//@ assume hash_map: bounded: the maps of at most three entries whose keys have at most two characters, of one, two or four chains (or none), in any order; every such map is a possible state, so the step is shown from each of them; new entries are made by map_newnode (unit map_entry); equal keys of up to four characters get equal hashes (variant same)
//@ variant set0 -DW=0 -DNB=0
//@ variant set1 -DW=0 -DNB=1
//@ variant set2 -DW=0 -DNB=2
//@ variant set4 -DW=0 -DNB=4
//@ variant remove2 -DW=1 -DNB=2
//@ variant remove4 -DW=1 -DNB=4
//@ variant all2 -DW=2 -DNB=2
//@ variant all4 -DW=2 -DNB=4
//@ variant same -DW=3 -DNB=1
#include "spec.h"
#include "alloc.h"
#include "map.h"
static bool any(void) { bool b; return b ? true : false; }
#if W != 3
static unsigned FREED[4], FREED_BUCKETS; static void* OLD_BUCKETS; static map_node_t* MORE[8];
void bfree_model(void* p); void* brealloc_model(void* p, size_t size);
#undef bfree
#define bfree bfree_model
#undef brealloc
#define brealloc brealloc_model
#endif
map_node_t* made_node(const char* key, void* value, int vsize);
#include "map.c"
/* an entry: the node, its key, its value */
struct entry { map_node_t n; char key[8]; int value; };
static struct entry E[4]; static unsigned MADE;
map_node_t* made_node(const char* key, void* value, int vsize)
{
    struct entry* e = &E[MADE++]; e->key[0] = key[0]; e->key[1] = key[0] == 0 ? 0 : key[1]; e->key[2] = 0; e->n.hash = map_hash(key); e->n.value = &e->value; e->value = *(int*)value; return &e->n;
}
#if W != 3
void bfree_model(void* p)
{
    if(p == OLD_BUCKETS) { FREED_BUCKETS++; return; }
    ASSERT(p == &E[0].n || p == &E[1].n || p == &E[2].n || p == &E[3].n, "what is freed is an entry or the chains");
    for(int i = 0; i < 4; i++) if(p == &E[i].n) FREED[i]++;
}
void* brealloc_model(void* p, size_t size)
{
    ASSERT(p == OLD_BUCKETS && size <= sizeof MORE && size % sizeof(map_node_t*) == 0, "the block that grows is that of the chains"); for(int i = 0; i < NB; i++) MORE[i] = ((map_node_t**)p)[i];
    OLD_BUCKETS = MORE; return MORE;
}
#endif
static void key(char* k) { char a, b; k[0] = a; k[1] = a == 0 ? 0 : b; k[2] = 0; }
static bool same(const char* a, const char* b) { return a[0] == b[0] && (a[0] == 0 || a[1] == b[1]); }
#define MAXN (NB < 2 ? NB : W == 0 ? 2 : NB < 3 ? NB : 3)
int main()
{
    char k[3], q[3]; int v; key(k); key(q);
#if W == 3
    char k6[5], o[8]; k6[4] = 0;
    bool on = true; for(int i = 0; i < 5; i++) if(on) { o[i] = k6[i]; if(k6[i] == 0) on = false; }
    ASSERT(map_hash(k6) == map_hash(o), "equal keys get equal hashes, wherever they are");
#else
    static map_node_t* B[NB > 0 ? NB : 1]; map_base_t m; m.nbuckets = NB; m.nnodes = 0; m.buckets = NB > 0 ? B : NULL; OLD_BUCKETS = m.buckets; for(int i = 0; i < NB; i++) B[i] = NULL; MADE = 0; FREED_BUCKETS = 0;
    char K[4][3]; int V[4]; bool H[4];
    for(int i = 0; i < 4; i++) { H[i] = false; FREED[i] = 0; }
    for(int i = 0; i < MAXN; i++) {
        H[i] = any(); int x; V[i] = x; key(K[i]);
        for(int j = 0; j < i; j++) ASSUME(!H[i] || !H[j] || !same(K[j], K[i]));
        map_node_t* n = made_node(K[i], &x, sizeof(int)); if(H[i]) { map_addnode(&m, n); m.nnodes++; }
    }
#define FIND(key, r) int* r = NULL; for(int i = 0; i < MAXN; i++) if(H[i] && same(K[i], key)) r = &V[i];
    FIND(k, hadk) FIND(q, hadq) unsigned nn = m.nnodes;
#if W == 0
    ASSERT(map_set_(&m, k, &v, sizeof v) == 0, "it is stored");
    int* g = map_get_(&m, k); ASSERT(g != NULL && *g == v, "the key gets the value");
    if(!same(k, q)) { int* o = map_get_(&m, q); ASSERT(hadq == NULL ? o == NULL : o != NULL && *o == *hadq, "the other keys keep theirs"); }
    ASSERT(m.nnodes == nn + (hadk == NULL), "the number of entries"); ASSERT(m.nnodes <= m.nbuckets, "there are as many chains as entries");
#elif W == 1
    map_remove_(&m, k);
    ASSERT(map_get_(&m, k) == NULL, "the key has no value");
    if(!same(k, q)) { int* o = map_get_(&m, q); ASSERT(hadq == NULL ? o == NULL : o != NULL && *o == *hadq, "the other keys keep theirs"); }
    ASSERT(m.nnodes == nn - (hadk != NULL), "the number of entries");
    for(int i = 0; i < 4; i++) ASSERT(FREED[i] == (H[i] && same(K[i], k)), "its entry is freed, once");
#else
    map_iter_t it = map_iter_(); unsigned met = 0, metq = 0; const char* e;
    while((e = map_next_(&m, &it))) { met++; if(same(e, q)) metq++; }
    ASSERT(met == nn && metq == (hadq != NULL), "each entry is met once");
    map_deinit_(&m);
    for(int i = 0; i < 4; i++) ASSERT(FREED[i] == H[i], "each entry is freed, once"); ASSERT(FREED_BUCKETS == 1, "and the chains");
#endif
#endif
    REACH();
}
