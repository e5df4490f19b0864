//@ what deleting an ordered tree releases every node of it exactly once and then the tree, whatever its size and shape
//@ props C19 C13
//@ functions jsw_rbdelete
//@ ghost jsw_rbtree.c jsw_rbdelete 1/1 : it = RENEW(it);
//@ loop jsw_rbtree.c jsw_rbdelete 1/1 : __CPROVER_assigns(it, save, CUR, LN, W) __CPROVER_loop_invariant((it == NULL || it == &CUR || it == &LN || it == &RN) && W.tree == 0 && (W.fx == 0 || W.fx == 1) && W.fx + IN(it) == WAS && IMPLIES(it == &CUR, SHAPED))
//@ cbmc --unwind 16 --object-bits 10
//@ bounded --unwind 12 --unwinding-assertions --bounds-check --pointer-check
//@ assume torn_down: at each step the tree that is left is shown as an arbitrary node, its left child and what is below them as opaque sub-trees; one arbitrary node (X) is followed through the rotations; that the loop ends is not part of this contract (searched only); the bounded run keeps real nodes, at most 4
#include "spec.h"
#include "alloc.h"
#include "jsw_rbtree.h"
#include <stdbool.h>
enum where { NOWHERE, AT_CUR, AT_L, IN_A, IN_B, IN_R };
/* the node the loop is at, its left child, and what is below: a and b under the left child, r on the right */
extern struct jsw_rbnode CUR, LN, AN, BN, RN; static struct { enum where x; int fx, tree; } W; static int WAS; extern struct jsw_rbtree T;
#define IN_DEEP(p) (((p) == &AN && W.x == IN_A) || ((p) == &BN && W.x == IN_B) || ((p) == &RN && W.x == IN_R))
#define IN_L_AT(p) ((p) == &LN && (W.x == AT_L || IN_DEEP(LN.link[0]) || IN_DEEP(LN.link[1])))
#define IN_CUR_AT(p) ((p) == &CUR && (W.x == AT_CUR || IN_DEEP(CUR.link[0]) || IN_DEEP(CUR.link[1])))
#define IN_CUR(p) ((p) == &CUR && (W.x == AT_CUR || IN_DEEP(CUR.link[0]) || IN_DEEP(CUR.link[1]) || IN_L_AT(CUR.link[0])))
#define IN_L(p) ((p) == &LN && (W.x == AT_L || IN_DEEP(LN.link[0]) || IN_DEEP(LN.link[1]) || IN_CUR_AT(LN.link[0]) || IN_CUR_AT(LN.link[1])))
#define IN(p) ((p) != NULL && (IN_DEEP(p) || IN_CUR(p) || IN_L(p)) ? 1 : 0)
#define SHAPED ((CUR.link[0] == NULL || CUR.link[0] == &LN) && (CUR.link[1] == NULL || CUR.link[1] == &RN) && (LN.link[0] == NULL || LN.link[0] == &AN) && (LN.link[1] == NULL || LN.link[1] == &BN))
static bool any(void) { bool b; return b ? true : false; }
static struct jsw_rbnode* renew(struct jsw_rbnode* p);
void model_free(void* p);
#ifdef BOUNDED
#define RENEW(p) (p)
#else
#define RENEW(p) renew(p)
#endif
#undef bfree
#define bfree model_free
#include "jsw_rbtree.c"
struct jsw_rbnode CUR, LN, AN, BN, RN; struct jsw_rbtree T;
#ifdef BOUNDED
static struct jsw_rbnode ND[4]; static int GONE[4];
#endif
static void shape_it(void) { CUR.link[0] = any() ? &LN : NULL; CUR.link[1] = any() ? &RN : NULL; LN.link[0] = any() ? &AN : NULL; LN.link[1] = any() ? &BN : NULL; }
static struct jsw_rbnode* renew(struct jsw_rbnode* p)
{
    int in = IN(p); enum where x; ASSUME(x >= NOWHERE && x <= IN_R); W.x = x; shape_it(); ASSUME(IN(&CUR) == in && (in || x == NOWHERE)); return &CUR;
}
void model_free(void* p)
{
#ifdef BOUNDED
    if(p == &T) { W.tree++; return; }
    int k = -1; for(int i = 0; i < 4; i++) if(p == &ND[i]) k = i;
    ASSERT(k >= 0 && W.tree == 0, "a node of the tree, before the tree"); GONE[k]++; ASSERT(GONE[k] == 1, "once"); ND[k].link[0] = ND[k].link[1] = (struct jsw_rbnode*)&WAS;
#else
    if(p == &T) { ASSERT(W.fx == WAS, "the tree, after its nodes"); W.tree++; return; }
    ASSERT(p == &CUR && W.tree == 0, "a node of the tree, before the tree");
    if(W.x == AT_CUR) { W.fx++; W.x = NOWHERE; }
    struct jsw_rbnode junk; CUR = junk;
#endif
}
int main()
{
    W.fx = W.tree = 0;
#ifdef BOUNDED
    int n; ASSUME(n >= 0 && n <= 4); for(int i = 0; i < 4; i++) { GONE[i] = 0; ND[i].link[0] = ND[i].link[1] = NULL; }
    T.root = n > 0 ? &ND[0] : NULL;
    for(int i = 1; i < 4; i++) if(i < n) { int q; ASSUME(q >= 0 && q < i); int d; ASSUME(d == 0 || d == 1); ASSUME(ND[q].link[d] == NULL); ND[q].link[d] = &ND[i]; }
    jsw_rbdelete(&T);
    for(int i = 0; i < 4; i++) ASSERT(GONE[i] == (i < n), "every node is released, once");
#else
    enum where x; ASSUME(x >= NOWHERE && x <= IN_R); W.x = x; shape_it(); bool empty = any(); T.root = empty ? NULL : &CUR; WAS = IN(T.root); ASSUME(WAS || x == NOWHERE);
    jsw_rbdelete(&T);
    ASSERT(W.fx == WAS, "every node is released, once");
#endif
    ASSERT(W.tree == 1, "and the tree");
    REACH();
}
