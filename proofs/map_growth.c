//@ what growing a map of any number of chains, entries and lengths puts every entry, once, back into the chain of its hash, also when there is no memory to grow; no chain keeps what it held before; freeing a map frees every entry and the chains, once
//@ props C13 C08 C19
//@ functions map_resize map_deinit_
//@ cut map.c (?<!static void )\bmap_addnode\( => placed(
//@ rewrite map.c \(m->buckets\)\[i\] => BUCKET(m, i)
//@ rewrite map.c node = m->buckets\[i\]; => node = BUCKET(m, i);
//@ rewrite map.c = node->next; => = TAKE(node);
//@ rewrite map.c node->next = nodes; => LINK(node) = nodes;
//@ loop map.c map_resize 1/3 : __CPROVER_assigns(i, node, next, nodes, __CPROVER_object_whole(&G1), LINKED) __CPROVER_loop_invariant(!GROWN && ADDED == 0 && m == &M && M.buckets == OLD && M.nbuckets == NB && 0 <= i && i <= NB && OUT(i) && LISTED(nodes)) __CPROVER_decreases(i)
//@ loop map.c map_resize 2/3 : __CPROVER_assigns(node, next, nodes, __CPROVER_object_whole(&G1), LINKED) __CPROVER_loop_invariant(!GROWN && ADDED == 0 && CUR == i && LEN < NOWHERE / 8 && 0 <= i && i < NB && AHEAD(node, i) && LISTED(nodes)) __CPROVER_decreases(LEN - POS)
//@ loop map.c map_resize 3/3 : __CPROVER_assigns(node, next, __CPROVER_object_whole(&G2)) __CPROVER_loop_invariant(GROWN && CLEARED && m == &M && M.buckets == (FAILS ? OLD : NEW) && M.nbuckets == (FAILS ? NB : WANT) && LEFT <= COUNT && node == (LEFT == 0 ? NULL : ITEM(LEFT - 1)) && ADDED == (AT != NOWHERE && LEFT <= AT) && DONE == COUNT - LEFT) __CPROVER_decreases(LEFT)
//@ loop map.c map_deinit_ 1/2 : __CPROVER_assigns(i, node, next, __CPROVER_object_whole(&G1)) __CPROVER_loop_invariant(!GROWN && m == &M && M.buckets == OLD && M.nbuckets == NB && 0 <= i && i <= NB && OUT(i) && FREED_F == (AT != NOWHERE) && FREED == COUNT) __CPROVER_decreases(i)
//@ loop map.c map_deinit_ 2/2 : __CPROVER_assigns(node, next, __CPROVER_object_whole(&G1)) __CPROVER_loop_invariant(!GROWN && CUR == i && LEN < NOWHERE / 8 && 0 <= i && i < NB && AHEAD(node, i) && FREED_F == (AT != NOWHERE) && FREED == COUNT) __CPROVER_decreases(LEN - POS)
//@ cbmc --unwind 9 --object-bits 10
//@ bounded --unwind 6 --unwinding-assertions --bounds-check --pointer-check --object-bits 10
//@ assume map_growth: BUCKET and TAKE give the entries of the chains, of any number and content, among which one is followed (F) to wherever it is; LINK is the link of the entry taken last, from which LISTED shows at each step that the entries are chained up; map_addnode puts an entry in front of the chain of its hash (unit map_chain); a map has fewer than 2^31 chains and 2^62 entries
//@ assume map_growth: the bounded stand-in, used when the proof is not accepted: at most three entries in two chains
//@ variant grow@C13,C08 -DW=0
//@ variant free@C13,C08,C19 -DW=1
#include "spec.h"
#include "alloc.h"
#include "map.h"
static bool any(void) { bool b; return b ? true : false; }
#ifdef BOUNDED
static map_base_t M; static map_node_t *OLD[2], *NEW[4]; static unsigned GONE[3], GONE_CHAINS; static bool FAILS; void placed(map_base_t* m, map_node_t* n); void* realloc_model(void* p, size_t n); void free_model(void* p);
#undef brealloc
#define brealloc realloc_model
#undef bfree
#define bfree free_model
static void* clear_model(void* p, int v, size_t n) { ASSERT(v == 0 && n <= 4 * sizeof(map_node_t*) && n % sizeof(map_node_t*) == 0, "all chains are cleared"); for(size_t i = 0; i < 4; i++) if(i < n / sizeof(map_node_t*)) ((map_node_t**)p)[i] = NULL; return p; }
#define memset clear_model
#include "map.c"
static map_node_t E[3];
void placed(map_base_t* m, map_node_t* n) { map_addnode(m, n); }
void* realloc_model(void* p, size_t n) { ASSERT(p == M.buckets && n <= sizeof NEW, "room for the chains wanted"); return FAILS ? NULL : NEW; }
void free_model(void* p) { if(p == OLD) { GONE_CHAINS++; return; } ASSERT(p == &E[0] || p == &E[1] || p == &E[2], "what is freed is an entry or the chains"); ((map_node_t*)p)->next = NULL; GONE[p == &E[0] ? 0 : p == &E[1] ? 1 : 2]++; }
int main()
{
    unsigned h[3]; bool in[3]; int nb = 2; M.buckets = OLD; M.nbuckets = nb; M.nnodes = 0; OLD[0] = OLD[1] = NULL; GONE_CHAINS = 0; FAILS = any();
    for(int i = 0; i < 3; i++) { in[i] = any(); unsigned x; h[i] = x; E[i].hash = x; GONE[i] = 0; if(in[i]) { map_addnode(&M, &E[i]); M.nnodes++; } }
#if W == 0
    map_resize(&M, 2 * nb);
    if(FAILS) ASSERT(M.buckets == OLD && M.nbuckets == nb, "the chains are the old ones"); else ASSERT(M.buckets == NEW && M.nbuckets == 2 * nb, "the chains are the new ones");
    for(int i = 0; i < 3; i++) { int met = 0; for(int b = 0; b < 4; b++) if(b < M.nbuckets) for(map_node_t* n = M.buckets[b]; n; n = n->next) if(n == &E[i]) { met++; ASSERT((h[i] & (M.nbuckets - 1)) == b, "an entry is in the chain of its hash"); } ASSERT(met == in[i], "every entry was put back, once"); ASSERT(E[i].hash == h[i], "entries keep their hash"); }
#else
    map_deinit_(&M); ASSERT(GONE_CHAINS == 1, "the chains are freed");
    for(int i = 0; i < 3; i++) ASSERT(GONE[i] == in[i], "every entry is freed, once");
#endif
    REACH();
}
#else
#define NOWHERE SIZE_MAX
struct going { size_t pos, len, count, at, freed; map_node_t *top, *below; int cur; unsigned freed_f; }; struct back { size_t left, done; unsigned added; }; static struct going G1; static struct back G2;
static unsigned FREED_CHAINS; static int NB, WANT, BF; static bool GROWN, CLEARED, FAILS; static size_t PF;
#define TOP G1.top
#define BELOW G1.below
#define POS G1.pos
#define LEN G1.len
#define CUR G1.cur
#define COUNT G1.count
#define AT G1.at
#define FREED G1.freed
#define FREED_F G1.freed_f
#define LEFT G2.left
#define DONE G2.done
#define ADDED G2.added
extern struct map_node_t F, O0, O1; static map_base_t M; static map_node_t** OLD; static map_node_t** NEW;
static map_node_t* chain(map_base_t* m, int i); static map_node_t* take(map_node_t* n); void placed(map_base_t* m, map_node_t* n);
void* realloc_model(void* p, size_t n); void* clear_model(void* p, int v, size_t n); void free_model(void* p);
#define BUCKET(m, i) chain(m, i)
#define TAKE(n) take(n)
#define LINK(n) (*link_of(n))
static map_node_t* LINKED; static map_node_t** link_of(map_node_t* n);
#define ITEM(p) ((p) == AT ? &F : ((p) & 1 ? &O1 : &O0))
/* the entry visited is the next one taken */
#define AHEAD(n, i) (POS <= LEN && COUNT < NOWHERE / 4 && (n) == (POS == LEN ? NULL : (i) == BF && POS == PF ? &F : (COUNT & 1 ? &O1 : &O0)) && ((i) == BF ? PF < LEN && (AT == NOWHERE) == (POS <= PF) : (AT == NOWHERE) == ((i) > BF)) && (AT == NOWHERE || AT < COUNT))
#define OUT(i) (COUNT < NOWHERE / 4 && (AT == NOWHERE) == ((i) > BF) && (AT == NOWHERE || AT < COUNT))
/* what was taken is chained up, last first */
#define LISTED(head) ((head) == TOP && TOP == (COUNT == 0 ? NULL : ITEM(COUNT - 1)) && IMPLIES(COUNT > 0, LINKED == BELOW))
#undef brealloc
#define brealloc realloc_model
#undef bfree
#define bfree free_model
#define memset clear_model
#include "map.c"
struct map_node_t F, O0, O1; static map_node_t* MEM0[1]; static map_node_t* MEM1[1];
static map_node_t* first(void) { return POS == LEN ? NULL : CUR == BF && POS == PF ? &F : (COUNT & 1 ? &O1 : &O0); }
static map_node_t* chain(map_base_t* m, int i)
{
    ASSERT(m == &M && !GROWN && i >= 0 && i < NB && M.buckets == OLD, "the chain is one of those of the map");
    size_t len; ASSUME(len < NOWHERE / 8 && IMPLIES(i == BF, PF < len)); struct going g = G1; g.len = len; g.cur = i; g.pos = 0; G1 = g; return first();
}
static map_node_t** link_of(map_node_t* n) { ASSERT(!GROWN && COUNT > 0 && n == TOP, "the entry chained up is the one taken"); return &LINKED; }
static map_node_t* take(map_node_t* n)
{
    if(GROWN) {
        ASSERT(LEFT > 0 && n == ITEM(LEFT - 1), "the entries are gone through in the order they were chained up");
        LEFT--; return LEFT == 0 ? NULL : ITEM(LEFT - 1);
    }
    ASSERT(POS < LEN && n == first(), "the entries of the chain are gone through");
    ASSUME(COUNT < NOWHERE / 4 - 1); struct going g = G1;
    if(n == &F) g.at = g.count;
    g.pos++; g.count++; g.below = g.top; g.top = n; G1 = g; return first();
}
void placed(map_base_t* m, map_node_t* n)
{
    ASSERT(GROWN && m == &M && M.buckets == (FAILS ? OLD : NEW) && M.nbuckets == (FAILS ? NB : WANT) && CLEARED, "the entry goes to the cleared chains");
    ASSERT(LEFT < COUNT && n == ITEM(LEFT) && DONE == COUNT - LEFT - 1, "each entry is put back, once");
    struct back g = G2; g.added += n == &F; g.done++; G2 = g;
}
void* realloc_model(void* p, size_t n) { ASSERT(p == OLD && n == sizeof(map_node_t*) * WANT && !GROWN, "room for the chains wanted"); GROWN = true; LEFT = COUNT; return FAILS ? NULL : NEW; }
void* clear_model(void* p, int v, size_t n) { ASSERT(GROWN && ADDED == 0 && DONE == 0 && p == (FAILS ? OLD : NEW) && v == 0 && n == sizeof(map_node_t*) * (FAILS ? NB : WANT), "all chains are cleared"); CLEARED = true; return p; }
void free_model(void* p)
{
    if(p == OLD) { ASSERT(FREED_CHAINS == 0, "the chains are freed once"); FREED_CHAINS++; }
    else { ASSERT(COUNT > 0 && p == ITEM(COUNT - 1) && FREED == COUNT - 1, "each entry is freed, once, after its successor was read"); struct going g = G1; g.freed++; g.freed_f += p == &F; G1 = g; }
}
int main()
{
    int nb, want, bf; size_t pf; ASSUME(nb >= 0 && want > nb && want < (1 << 30)); NB = nb; WANT = want; BF = bf; PF = pf; ASSUME(nb == 0 ? bf == -1 : bf >= 0 && bf < nb); ASSUME(pf < NOWHERE / 8);
    OLD = nb == 0 && any() ? NULL : MEM0; NEW = MEM1; if(nb > 0) OLD = MEM0; else OLD = NULL;
    M.buckets = OLD; M.nbuckets = nb; TOP = BELOW = LINKED = NULL; AT = NOWHERE; POS = LEN = LEFT = COUNT = DONE = FREED = 0; ADDED = FREED_F = FREED_CHAINS = 0; CUR = -1; GROWN = CLEARED = false; FAILS = any();
#if W == 0
    int r = map_resize(&M, want);
    ASSERT(r == (FAILS ? -1 : 0), "it tells whether there was memory");
    ASSERT(M.buckets == (FAILS ? OLD : NEW) && M.nbuckets == (FAILS ? nb : want), "the chains are the new ones");
    ASSERT(IMPLIES(nb > 0, ADDED == 1) && DONE == COUNT, "every entry was put back, once");
    ASSERT(IMPLIES(M.buckets != NULL, CLEARED), "the chains were cleared");
#else
    map_deinit_(&M);
    ASSERT(FREED_CHAINS == (OLD != NULL) || OLD == NULL, "the chains are freed"); ASSERT(FREED_F == (nb > 0) && FREED == COUNT, "every entry is freed, once");
#endif
    REACH();
}
#endif
