//@ what a search visits a subscription T exactly as often as it is below an index node when T is true on the event, and at most as often otherwise (T is any subscription; induction over the index nodes)
//@ props C02 C06
//@ enforce_rec search_cdir
//@ replace is_event_enclosed match_be_tree
//@ cbmc --unwind 6
//@ assume search_cdir: an index node on the path to T is entered when T is true (contract of is_event_enclosed, unit enclosed); T is below at most one of the children
#include "spec.h"
/* T: any subscription.  MATCH: T is true on the event.  CNT: how often the search took T so far. */
static bool MATCH; static size_t CNT; static struct betree_sub T, OTHER;
struct subs_to_eval;
/* C0 with its cnode and two children; Oxx: T is below it; Kxx: the flags open_left, open_right are right for it */
static struct cdir C0, CL, CR; static struct cnode CN; static bool OCN, OCL, OCR; static bool K0[2][2], KL[2][2], KR[2][2];
#define OCC_CDIR(c) ((c) == &C0 ? (OCN || OCL || OCR) : (c) == &CL ? OCL : (c) == &CR ? OCR : false)
#define CONS(c, ol, or) ((c) == &C0 ? K0[ol][or] : (c) == &CL ? KL[ol][or] : KR[ol][or])
#define OCC_CNODE(c) OCN
static void search_cdir(const struct attr_domain** attr_domains, const struct betree_variable** preds, struct cdir* cdir, struct subs_to_eval* subs, bool open_left, bool open_right)
__CPROVER_requires((cdir == &C0 || cdir == &CL || cdir == &CR) && CONS(cdir, open_left, open_right))
__CPROVER_ensures(CNT >= __CPROVER_old(CNT) && CNT <= __CPROVER_old(CNT) + (OCC_CDIR(cdir) ? 1 : 0) && IMPLIES(MATCH, CNT == __CPROVER_old(CNT) + (OCC_CDIR(cdir) ? 1 : 0)))
__CPROVER_assigns(CNT);
static bool is_event_enclosed(const struct betree_variable** preds, const struct cdir* cdir, bool open_left, bool open_right)
__CPROVER_requires(cdir == NULL || ((cdir == &CL || cdir == &CR) && CONS(cdir, open_left, open_right)))
__CPROVER_ensures(IMPLIES(cdir == NULL, !__CPROVER_return_value) && IMPLIES(cdir != NULL && MATCH && OCC_CDIR(cdir), __CPROVER_return_value))
__CPROVER_assigns();
static void match_be_tree(const struct attr_domain** attr_domains, const struct betree_variable** preds, const struct cnode* cnode, struct subs_to_eval* subs)
__CPROVER_requires(cnode == &CN)
__CPROVER_ensures(CNT >= __CPROVER_old(CNT) && CNT <= __CPROVER_old(CNT) + (OCN ? 1 : 0) && IMPLIES(MATCH, CNT == __CPROVER_old(CNT) + (OCN ? 1 : 0)))
__CPROVER_assigns(CNT);
#include "tree.c"
static bool any(void) { bool b; return b ? true : false; }
int main()
{
    OCN = any(); OCL = any(); OCR = any(); MATCH = any(); size_t cnt; CNT = cnt; ASSUME(cnt < ((size_t)1 << 60));
    ASSUME((OCN ? 1 : 0) + (OCL ? 1 : 0) + (OCR ? 1 : 0) <= 1);
    for(int a = 0; a < 2; a++) for(int b = 0; b < 2; b++) { K0[a][b] = any(); KL[a][b] = any(); KR[a][b] = any(); }
    C0.cnode = &CN; bool l, r; C0.lchild = l ? &CL : NULL; C0.rchild = r ? &CR : NULL; if(!l) ASSUME(!OCL); if(!r) ASSUME(!OCR);
    bool ol = any(), or = any(); ASSUME(K0[ol][or]);
    /* the left child keeps the left end of the range only, the right child the right end (unit enclosed) */
    KL[ol][false] = true; KR[false][or] = true;
    const struct attr_domain** ads; const struct betree_variable** preds; struct subs_to_eval* subs;
    search_cdir(ads, preds, &C0, subs, ol, or);
    ASSERT(IMPLIES(MATCH, CNT == cnt + (OCN || OCL || OCR ? 1 : 0)), "a true subscription below an index node is taken, once");
    ASSERT(CNT <= cnt + (OCN || OCL || OCR ? 1 : 0), "no subscription is taken twice");
    REACH();
}
