//@ what a search enters, for any number of attributes indexed at a node, exactly the index of the attribute a subscription T was placed under; T is taken exactly as often as it is there when true, at most as often otherwise
//@ props C02 C06
//@ replace search_cdir check_sub
//@ functions match_be_tree get_attr_domain event_contains_variable
//@ loop tree.c match_be_tree 1/1 : __CPROVER_assigns(i, CNT, OCC, __CPROVER_object_whole(&PN), __CPROVER_object_whole(&AD), __CPROVER_object_whole(&CD), __CPROVER_object_whole(g_pnodes), __CPROVER_object_whole(g_ads), __CPROVER_object_whole(g_preds)) __CPROVER_loop_invariant(i <= cnode->pdir->pnode_count && CNT >= CNT0 && CNT <= CNT0 + (OCC_LEAF ? 1 : 0) + (G < i ? 1 : 0) && IMPLIES(MATCH, CNT == CNT0 + (OCC_LEAF ? 1 : 0) + (G < i ? 1 : 0))) __CPROVER_decreases(cnode->pdir->pnode_count - i)
//@ ghost tree.c match_be_tree 1/1 : INSTP(i)
//@ cbmc --unwind 6
//@ bounded --unwind 5
//@ assume search_cnode: INSTP lets the entry being read be any entry; T is below entry G only (C05), whose variable may be undefined or is defined by the event (validate_variables, C07)
#include "spec.h"
/* T: any subscription.  MATCH: T is true on the event.  CNT: how often the search took T so far. */
static bool MATCH; static size_t CNT; static struct betree_sub T, OTHER;
struct subs_to_eval;
static size_t CNT0;
static struct pnode PN; static struct attr_domain AD; static struct cdir CD; static struct lnode LN; static bool OCC, OCC_LEAF; static size_t G, NV, NP;
static struct pnode** g_pnodes; static const struct attr_domain** g_ads; static const struct betree_variable** g_preds;
static struct betree_variable ANYV;
/* PN is the index entry about to be read: any entry over a declared variable; T is below it exactly when it
 * is entry G, and then its variable is one that may be undefined or that the event defines */
static struct pnode any_pnode(void) { struct pnode p; return p; }
static bool any_bool(void) { bool b; return b ? true : false; }
#define INSTP(k) if((k) < NP) { PN = any_pnode(); PN.cdir = &CD; __CPROVER_assume(PN.attr_var.var < NV); g_pnodes[k] = &PN; \
    AD.allow_undefined = any_bool(); AD.attr_var.var = PN.attr_var.var; g_ads[PN.attr_var.var] = &AD; g_preds[PN.attr_var.var] = any_bool() ? &ANYV : NULL; \
    OCC = (k) == G; __CPROVER_assume(AD.allow_undefined || g_preds[PN.attr_var.var] != NULL); }
#ifdef BOUNDED
static struct cdir* OCCD;
#define CDIR_OK(c) true
#define OCC_OF(c) ((c) == OCCD)
#else
#define CDIR_OK(c) ((c) == &CD)
#define OCC_OF(c) OCC
#endif
static void search_cdir(const struct attr_domain** attr_domains, const struct betree_variable** preds, struct cdir* cdir, struct subs_to_eval* subs, bool open_left, bool open_right)
__CPROVER_requires(CDIR_OK(cdir) && open_left && open_right)
__CPROVER_ensures(CNT >= __CPROVER_old(CNT) && CNT <= __CPROVER_old(CNT) + (OCC_OF(cdir) ? 1 : 0) && IMPLIES(MATCH, CNT == __CPROVER_old(CNT) + (OCC_OF(cdir) ? 1 : 0)))
__CPROVER_assigns(CNT);
static void check_sub(const struct lnode* lnode, struct subs_to_eval* subs)
__CPROVER_requires(lnode == &LN)
__CPROVER_ensures(CNT == __CPROVER_old(CNT) + (OCC_LEAF ? 1 : 0))
__CPROVER_assigns(CNT);
#include "tree.c"
const struct attr_domain* get_attr_domain(const struct attr_domain** attr_domains, betree_var_t variable_id) { return attr_domains[variable_id]; }
int main()
{
    struct cnode c; struct pdir d; c.lnode = &LN; bool has; c.pdir = has ? &d : NULL;
    size_t n, nv, g, cnt;
#ifdef BOUNDED
    ASSUME(n <= 3 && nv <= 3 && nv > 0);
#else
    ASSUME(n < ((size_t)1 << 32) && nv < ((size_t)1 << 32));
#endif
    NP = n; NV = nv; d.pnode_count = n; g_pnodes = malloc(n * sizeof(*g_pnodes)); d.pnodes = g_pnodes;
    g_ads = malloc(nv * sizeof(*g_ads)); g_preds = malloc(nv * sizeof(*g_preds));
    G = g; ASSUME(g >= n || n <= ((size_t)1 << 32)); OCC_LEAF = any_bool(); MATCH = any_bool();
    if(!has) ASSUME(G >= n);
    ASSUME(!(OCC_LEAF && G < n)); CNT = cnt; ASSUME(cnt < ((size_t)1 << 60)); CNT0 = cnt;
    bool below = OCC_LEAF || G < n;
#ifdef BOUNDED
    OCCD = NULL;
    static struct pnode P3[3]; static struct attr_domain A3[3]; static struct cdir D3[3];
    for(size_t k = 0; k < 3; k++) {
        if(k < nv) { A3[k].allow_undefined = any_bool(); g_ads[k] = &A3[k]; g_preds[k] = any_bool() ? &ANYV : NULL; }
        if(k < n) { P3[k] = any_pnode(); P3[k].cdir = &D3[k]; g_pnodes[k] = &P3[k]; ASSUME(P3[k].attr_var.var < nv); }
    }
    for(size_t k = 0; k < 3; k++) if(k < n && k == G) { OCCD = &D3[k]; ASSUME(A3[P3[k].attr_var.var].allow_undefined || g_preds[P3[k].attr_var.var] != NULL); }
#endif
    struct subs_to_eval* subs;
    match_be_tree(g_ads, g_preds, &c, subs);
    ASSERT(IMPLIES(MATCH, CNT == cnt + (below ? 1 : 0)), "a true subscription is taken, once");
    ASSERT(CNT <= cnt + (below ? 1 : 0), "no subscription is taken twice");
    REACH();
}
