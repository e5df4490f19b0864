//@ what removing a subscription from a leaf removes its first occurrence, keeps all the others in their order, frees nothing in use and says whether it was there; a move takes it from one leaf to the end of another
//@ props C05 C18
//@ functions remove_sub move
//@ loop tree.c remove_sub 1/2 : __CPROVER_assigns(i) __CPROVER_loop_invariant(i <= N && lnode->sub_count == N && lnode->subs == BASE && IMPLIES(PRESENT, i <= FIRST) && IMPLIES(G < N, BASE[G] == OLD) && IMPLIES(PRESENT, BASE[FIRST] == sub)) __CPROVER_decreases(N - i)
//@ ghost tree.c remove_sub 1/2 : INST(i);
//@ loop tree.c remove_sub 2/2 : __CPROVER_assigns(j, __CPROVER_object_whole(BASE)) __CPROVER_loop_invariant(i == FIRST && i <= j && j <= N - 1 && lnode->sub_count == N && lnode->subs == BASE && IMPLIES(G < N && G < i, BASE[G] == OLD) && IMPLIES(G < N && G > i && j >= G, BASE[G - 1] == OLD) && IMPLIES(G < N && G > i && j < G, BASE[G] == OLD)) __CPROVER_decreases(N - 1 - j)
//@ cbmc --bounds-check --pointer-check --pointer-overflow-check --unwind 6
//@ bounded --unwind 5 --bounds-check --pointer-check
//@ assume leaf: INST instantiates, at the element being read, that FIRST is the first position of the subscription (there is none when it is absent); realloc keeps what fits (one arbitrary element is followed); malloc and calloc do not fail
//@ variant remove -DW=0
//@ variant move -DW=1
#include "spec.h"
typedef struct betree_sub* E;
static size_t N, FIRST, G, M, GM; static bool PRESENT; static E* BASE; static E* BASE2; static const struct betree_sub* SUB; static E OLD, OLD2;
#ifdef BOUNDED
#define INST(i)
#else
#define INST(i) ASSUME(BASE[i] != SUB || (PRESENT && (i) == FIRST)) /* used before FIRST and at it */
#endif
void* model_realloc(void* p, size_t size)
{
    E* q = malloc(size);
    if(p == NULL) return q;
    if(p == BASE) { size_t g = G > FIRST ? G - 1 : G; ASSERT(g < N, ""); if((g + 1) * sizeof(E) <= size) q[g] = BASE[g]; }
    else { ASSERT(p == BASE2, "the block that changes is the one of a leaf"); if((GM + 1) * sizeof(E) <= size) q[GM] = BASE2[GM]; }
    free(p); return q;
}
#define realloc model_realloc
#include "tree.c"
int main()
{
    struct lnode l, d; struct betree_sub s; SUB = &s; bool p; PRESENT = p ? true : false;
#ifdef BOUNDED
    size_t n; ASSUME(n <= 3); size_t m; ASSUME(m <= 2);
#else
    size_t n; ASSUME(n < ((size_t)1 << 40)); size_t m; ASSUME(m < ((size_t)1 << 40));
#endif
    N = n; BASE = n > 0 ? malloc(n * sizeof(E)) : NULL; l.subs = BASE; l.sub_count = n;
    M = m; BASE2 = m > 0 ? malloc(m * sizeof(E)) : NULL; d.subs = BASE2; d.sub_count = m; size_t gm; GM = gm; if(m > 0) { ASSUME(GM < m); OLD2 = BASE2[GM]; } else GM = 0;
    size_t first, g; FIRST = first; G = g; if(n > 0) ASSUME(g < n); OLD = NULL; if(n > 0) OLD = BASE[G];
    if(PRESENT) { ASSUME(FIRST < n && BASE[FIRST] == &s); } else { FIRST = n; ASSUME(n == 0 || OLD != &s); }
    if(PRESENT) ASSUME(G >= FIRST || OLD != &s);
#ifdef BOUNDED
    for(size_t i = 0; i < n; i++) if(i < FIRST) ASSUME(BASE[i] != &s);
#endif
#if W == 0
    bool r = remove_sub(&s, &l);
    ASSERT(r == PRESENT, "it is removed exactly when it is there");
#else
    ASSUME(PRESENT);
    move(&s, &l, &d);
    ASSERT(d.sub_count == M + 1, "the destination has one more");
    ASSERT(d.subs[M] == &s, "at its end");
    if(M > 0) ASSERT(d.subs[GM] == OLD2, "the subscriptions of the destination stay");
#endif
    if(!PRESENT) { ASSERT(l.sub_count == N && l.subs == BASE, "nothing changes when it is not there"); if(N > 0) ASSERT(l.subs[G] == OLD, "nothing changes when it is not there"); }
    else {
        ASSERT(l.sub_count == N - 1, "the count is one less");
        if(G < FIRST) ASSERT(l.subs[G] == OLD, "the subscriptions before stay");
        if(G > FIRST) ASSERT(l.subs[G - 1] == OLD, "the subscriptions after move down by one");
        ASSERT(IMPLIES(N == 1, l.subs == NULL), "an empty leaf has no block");
    }
    REACH();
}
