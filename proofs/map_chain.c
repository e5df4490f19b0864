//@ what an entry of a map is found in the chain of its key, of any length, exactly when the key has one; setting replaces the value of the entry or puts a new one in front of the chain, growing first when there are as many entries as chains, or tells that there is no room and changes nothing; removing takes the entry out of the chain and frees it
//@ props C13 C08 C19
//@ functions map_getref map_get_ map_set_ map_remove_ map_addnode map_bucketidx
//@ cut map.c (?<!static unsigned )\bmap_hash\( => hash_of(
//@ cut map.c (?<!static map_node_t \*)\bmap_newnode\( => made_node(
//@ cut map.c (?<!static int )\bmap_resize\( => resized(
//@ rewrite map.c &m->buckets\[([^\]]+)\] => FIRST(m, \1)
//@ rewrite map.c &\(\*next\)->next => STEP(next)
//@ rewrite map.c (?<![&\w(])m->buckets\[n\] => (*FIRST(m, n))
//@ loop map.c map_getref 1/1 : __CPROVER_assigns(next, CELL, POS, __CPROVER_object_whole(&EO)) __CPROVER_loop_invariant(next == &CELL && POS <= LEN && CELL == (POS == LEN ? NULL : PRESENT && POS == AT ? (map_node_t*)&EX : (map_node_t*)&EO) && IMPLIES(PRESENT, POS <= AT)) __CPROVER_decreases(LEN - POS)
//@ cbmc --unwind 8 --object-bits 10
//@ assume map_chain: FIRST and STEP give the entries of the chain of the key, of any number and content, among which the entry of the key, if any, is followed (EX); the comparison of keys is that of the entry; growing keeps the entries (unit map_growth), a new entry has its key, hash and value (unit map_entry)
//@ variant get@C13,C08 -DW=0
//@ variant set -DW=1
//@ variant remove -DW=2
#include "spec.h"
#include "alloc.h"
#include "map.h"
extern struct entry EX, EO;
static bool any(void) { bool b; return b ? true : false; }
static map_node_t* CELL; static unsigned HK; static size_t LEN, POS, AT; static bool PRESENT; static unsigned FREED, FREED_NEW, GROWN, MADE; static bool NOROOM; static char KEY[4];
static map_node_t** first_of(map_base_t* m, int i); static map_node_t** step(map_node_t** next); static int key_cmp(const char* a, const char* b);
#define FIRST(m, i) first_of(m, i)
#define STEP(next) step(next)
#define strcmp key_cmp
unsigned hash_of(const char* k); map_node_t* made_node(const char* key, void* value, int vsize); int resized(map_base_t* m, int n);
void free_model(void* p);
#undef bfree
#define bfree free_model
#include "map.c"
struct entry { map_node_t n; char key[4]; int value; };
struct entry EX, EO, EN; static map_base_t M;
unsigned hash_of(const char* k) { ASSERT(k == KEY, "the hash is that of the key"); return HK; }
static map_node_t** first_of(map_base_t* m, int i)
{
    ASSERT(m == &M && M.nbuckets > 0 && (unsigned)i == (HK & (M.nbuckets - 1)), "the chain is that of the key");
    POS = 0; CELL = LEN == 0 ? NULL : PRESENT && AT == 0 ? &EX.n : &EO.n; return &CELL;
}
static map_node_t** step(map_node_t** next)
{
    ASSERT(next == &CELL && POS < LEN, "the next entry of the chain"); POS++; unsigned h; EO.n.hash = h; CELL = POS == LEN ? NULL : PRESENT && POS == AT ? &EX.n : &EO.n; return &CELL;
}
static int key_cmp(const char* a, const char* b) { ASSERT(b == KEY && (a == EX.key || a == EO.key), "the key is compared with that of an entry"); return a == EX.key ? 0 : any() ? 1 : -1; }
map_node_t* made_node(const char* k, void* value, int vsize) { ASSERT(k == KEY && vsize == sizeof(int), "the entry is that of the key"); MADE++; EN.n.hash = HK; EN.n.value = &EN.value; EN.value = *(int*)value; return &EN.n; }
int resized(map_base_t* m, int n) { ASSERT(m == &M && MADE == 1 && n == (M.nbuckets == 0 ? 1 : 2 * M.nbuckets), "the number of chains doubles"); if(any()) { NOROOM = true; return -1; } M.nbuckets = n; GROWN++; return 0; }
void free_model(void* p) { if(NOROOM && p == &EN.n) { FREED_NEW++; return; } ASSERT(p == &EX.n, "the entry freed is that of the key"); FREED++; }
int main()
{
    unsigned hk, nb, lg, nn; size_t len, at; HK = hk; LEN = len; AT = at; PRESENT = any(); ASSUME(lg < 30); nb = any() ? 0 : 1u << lg; M.nbuckets = nb; M.nnodes = nn; ASSUME(nn <= nb);
    ASSUME(IMPLIES(PRESENT, at < len && nn >= 1) && IMPLIES(nb == 0, len == 0)); POS = 0; CELL = NULL; int x; EX.value = x; EX.n.value = &EX.value; EX.n.hash = hk; unsigned h; EO.n.hash = h; map_node_t* rest = any() ? &EO.n : NULL; EX.n.next = rest;
    FREED = FREED_NEW = GROWN = MADE = 0; NOROOM = false;
#if W == 0
    int* r = map_get_(&M, KEY);
    ASSERT(PRESENT ? r == &EX.value : r == NULL, "the value of the key is found exactly when there is one");
    ASSERT(EX.value == x && M.nnodes == nn, "nothing changes");
#elif W == 1
    int v; int r = map_set_(&M, KEY, &v, sizeof v); ASSERT(r == (NOROOM ? -1 : 0), "it tells whether it is stored"); ASSERT(FREED_NEW == NOROOM, "what is not stored is freed");
    if(PRESENT) ASSERT(EX.value == v && MADE == 0 && M.nnodes == nn, "the entry of the key gets the value");
    else if(NOROOM) ASSERT(M.nnodes == nn && M.nbuckets == nb && CELL != &EN.n, "nothing changes");
    else ASSERT(MADE == 1 && CELL == &EN.n && EN.value == v && M.nnodes == nn + 1 && GROWN == (nn >= nb), "a new entry is put in front of the chain");
    ASSERT(FREED == 0, "nothing is freed"); ASSERT(M.nnodes <= M.nbuckets, "there are as many chains as entries");
#else
    map_remove_(&M, KEY);
    ASSERT(FREED == PRESENT && M.nnodes == nn - PRESENT, "the entry of the key is freed");
    if(PRESENT) ASSERT(CELL == rest, "the chain goes on after it");
#endif
    REACH();
}
