//@ what a search evaluates every subscription it took, each once, and reports exactly those that are true, each once and under its own id; the counters add up; an existence query answers yes exactly when one of them is true; what they allocated and the values they were given are released, once
//@ props C06 C02 C19
//@ replace match_be_tree/took match_sub/decided add_sub/reported make_undefined/undef
//@ functions betree_search_with_preds betree_exists_with_preds make_memoize free_memoize init_subs_to_eval
//@ loop tree.c betree_search_with_preds 1/1 : __CPROVER_assigns(i, CUR, S.id, __CPROVER_object_whole(SUBS), report->evaluated, report->matched, report->subs, report->memoized, report->shorted, ADDED, ADDED_G) __CPROVER_loop_invariant(i <= COUNT && subs.subs == SUBS && subs.count == COUNT && report->evaluated == E0 + i && report->matched == M0 + ADDED && ADDED <= i && ADDED_G == (G < i && IS(G) ? 1 : 0)) __CPROVER_decreases(COUNT - i)
//@ ghost tree.c betree_search_with_preds 1/1 : AT(i);
//@ loop tree.c betree_exists_with_preds 1/1 : __CPROVER_assigns(i, CUR, S.id, __CPROVER_object_whole(SUBS), result) __CPROVER_loop_invariant(i <= COUNT && subs.subs == SUBS && subs.count == COUNT && !result && IMPLIES(G < i, !IS(G))) __CPROVER_decreases(COUNT - i)
//@ ghost tree.c betree_exists_with_preds 1/1 : AT(i);
//@ cbmc --unwind 6
//@ bounded --unwind 5 --object-bits 12
//@ assume search_preds: AT instantiates the i-th subscription taken by match_be_tree (units search_leaf, search_cnode, search_cdir); match_sub decides its truth (units sc_mask, eval)
//@ variant search -DW=0
//@ variant exists -DW=1
#include "spec.h"
#include "tree.h"
/* the subscriptions taken: the i-th has id IDS[i] and is true on the event exactly when MA[i] */
static size_t COUNT, CUR, G, ADDED, ADDED_G, E0, M0; static struct betree_sub S; static struct betree_sub** SUBS; static betree_sub_t* IDS; static unsigned char* MA;
#define IS(k) (MA[k] & 1)
#ifdef BOUNDED
static struct betree_sub OBJ[3];
#define AT(i)
#define SUB_OK(s) (__CPROVER_same_object(s, OBJ))
#define IDX(s) (__CPROVER_POINTER_OFFSET(s) / sizeof(struct betree_sub))
#else
#define AT(i) CUR = (i); S.id = IDS[i]; SUBS[i] = &S
#define SUB_OK(s) ((s) == &S)
#define IDX(s) __CPROVER_old(CUR)
#endif
#include "alloc.h"
static void *MADE[2], *UND; static const struct betree_variable** PREDS; static unsigned MADES, F_MADE[2], F_UND, F_PREDS, F_SUBS;
void model_free(const void* p)
{
    if(p == NULL) return;
    if(p == UND) F_UND++; else if(p == PREDS) F_PREDS++; else if(p == SUBS) F_SUBS++; else if(p == MADE[0]) F_MADE[0]++; else { ASSERT(p == MADE[1], "nothing else is released"); F_MADE[1]++; }
}
void* model_calloc(size_t n) { void* p = calloc(n, 1); ASSUME(p != NULL); ASSERT(MADES < 2, "a cache has two sets"); if(MADES < 2) MADE[MADES++] = p; return p; }
#undef bfree
#undef bcalloc
#define bfree model_free
#define bcalloc model_calloc
#include "tree.c"
#include "memoize.c"
void took(const struct attr_domain** attr_domains, const struct betree_variable** preds, const struct cnode* cnode, struct subs_to_eval* subs)
__CPROVER_requires(subs->count == 0) __CPROVER_ensures(subs->subs == SUBS && subs->count == COUNT) __CPROVER_assigns(*subs);
bool decided(size_t attr_domains_count, const struct betree_variable** preds, const struct betree_sub* sub, struct report* report, struct memoize* memoize, const uint64_t* undefined)
__CPROVER_requires(SUB_OK(sub)) __CPROVER_ensures(CUR == IDX(sub) && __CPROVER_return_value == (IS(CUR) ? true : false)) __CPROVER_assigns(CUR) __CPROVER_assigns(report != NULL: report->memoized, report->shorted);
void reported(betree_sub_t id, struct report* report)
__CPROVER_requires(id == IDS[CUR]) __CPROVER_requires(IS(CUR))
__CPROVER_ensures(report->matched == __CPROVER_old(report->matched) + 1 && ADDED == __CPROVER_old(ADDED) + 1 && ADDED_G == __CPROVER_old(ADDED_G) + (CUR == G ? 1 : 0))
__CPROVER_assigns(report->matched, report->subs, ADDED, ADDED_G);
uint64_t* undef(size_t attr_domain_count, const struct betree_variable** preds)
__CPROVER_requires(1) __CPROVER_ensures(__CPROVER_is_fresh(__CPROVER_return_value, 8) && UND == __CPROVER_return_value) __CPROVER_assigns(UND);
int main()
{
    size_t n, g, e0, m0, ma;
#ifdef BOUNDED
    ASSUME(n <= 3);
#else
    ASSUME(n < ((size_t)1 << 40));
#endif
    COUNT = n; G = g; ADDED = 0; ADDED_G = 0; SUBS = malloc(n * sizeof(*SUBS)); IDS = malloc(n * sizeof(*IDS)); MA = malloc(n);
#ifdef BOUNDED
    for(size_t k = 0; k < n; k++) { betree_sub_t id; OBJ[k].id = id; IDS[k] = id; SUBS[k] = &OBJ[k]; }
#endif
    struct config c; struct pred_map pm; size_t mc; ASSUME(mc < ((size_t)1 << 30)); pm.memoize_count = mc; c.pred_map = &pm; struct cnode cn; struct report r; E0 = e0; M0 = m0; ASSUME(e0 < ((size_t)1 << 60) && m0 <= e0); r.evaluated = e0; r.matched = m0;
    const struct betree_variable** preds = malloc(8); ASSUME(preds != NULL); PREDS = preds; UND = MADE[0] = MADE[1] = NULL; MADES = F_MADE[0] = F_MADE[1] = F_UND = F_PREDS = F_SUBS = 0;
#if W == 0
    bool b = betree_search_with_preds(&c, preds, &cn, &r);
    ASSERT(b, "the search succeeds");
    ASSERT(r.evaluated == e0 + n, "every subscription taken is counted as evaluated");
    ASSERT(r.matched == m0 + ADDED && r.matched <= r.evaluated, "matches are counted by the ids reported, at most those evaluated");
    if(G < n) ASSERT(ADDED_G == (IS(G) ? 1 : 0), "a subscription is reported once when it is true and not at all when it is not");
#else
    bool b = betree_exists_with_preds(&c, preds, &cn);
    if(G < n && IS(G)) ASSERT(b, "a true subscription exists");
    if(b) { ASSERT(CUR < n && IS(CUR), "the answer yes has a witness"); }
#endif
    ASSERT(F_UND == 1 && F_PREDS == 1 && F_SUBS == (SUBS != NULL) && MADES == 2 && F_MADE[0] == 1 && F_MADE[1] == 1, "what was allocated and the values are released, once");
    REACH();
}
