//@ what a search takes every subscription of a leaf of any size, once for each place it has there
//@ props C02 C06
//@ replace add_sub_to_eval
//@ functions check_sub
//@ loop tree.c check_sub 1/1 : __CPROVER_assigns(i, CNT, __CPROVER_object_whole(g_subs)) __CPROVER_loop_invariant(i <= lnode->sub_count && CNT == CNT0 + (G < i ? 1 : 0)) __CPROVER_decreases(lnode->sub_count - i)
//@ ghost tree.c check_sub 1/1 : INSTS(i)
//@ cbmc --unwind 6
//@ bounded --unwind 5
//@ assume search_leaf: T is at most once in the leaf (C05)
#include "spec.h"
/* T: any subscription.  MATCH: T is true on the event.  CNT: how often the search took T so far. */
static bool MATCH; static size_t CNT; static struct betree_sub T, OTHER;
struct subs_to_eval;
static size_t CNT0;
static size_t G, NS; static struct betree_sub** g_subs;
#define INSTS(k) if((k) < NS) g_subs[k] = (k) == G ? &T : &OTHER;
static void add_sub_to_eval(struct betree_sub* sub, struct subs_to_eval* subs)
__CPROVER_requires(sub == &T || sub == &OTHER)
__CPROVER_ensures(CNT == __CPROVER_old(CNT) + (sub == &T ? 1 : 0))
__CPROVER_assigns(CNT);
#include "tree.c"
int main()
{
    struct lnode l; size_t n, g, cnt;
#ifdef BOUNDED
    ASSUME(n <= 3);
#else
    ASSUME(n < ((size_t)1 << 32));
#endif
    NS = n; l.sub_count = n; g_subs = malloc(n * sizeof(*g_subs)); l.subs = g_subs; G = g; CNT = cnt; ASSUME(cnt < ((size_t)1 << 60)); CNT0 = cnt;
#ifdef BOUNDED
    for(size_t k = 0; k < 3; k++) { INSTS(k) }
#endif
    struct subs_to_eval* subs;
    check_sub(&l, subs);
    ASSERT(CNT == cnt + (g < n ? 1 : 0), "every subscription of a leaf is taken, once");
    REACH();
}
