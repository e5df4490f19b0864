//@ what a range that is too full is cut in two when it can be and has not been, hands each half only subscriptions it encloses, keeps the others, never replaces a half that exists, and always ends
//@ props C05 C16 C02
//@ cut tree.c (?<!static void )\bspace_clustering\( => half_clustering(
//@ cut tree.c (?<!static struct cdir\* )\bcreate_cdir_with_cdir_parent\( => made_cdir(
//@ replace half_clustering is_atomic split_value_bound/split_contract sub_is_enclosed move space_partitioning update_cluster_capacity
//@ functions space_clustering is_overflowed is_leaf
//@ loop tree.c space_clustering 1/1 : __CPROVER_assigns(i, ENC, CELL, LN.sub_count) __CPROVER_loop_invariant(lnode == &LN && i <= LN.sub_count && LN.sub_count <= CAP) __CPROVER_decreases(LN.sub_count - i)
//@ rewrite tree.c (?<![\w>])lnode->subs\[([^\]]+)\] => READ(lnode, \1)
//@ cbmc --unwind 30 --object-bits 10
//@ bounded --unwind 5 --object-bits 10
//@ assume clustering: READ lets the subscription read be any (an access within the count); the halves are strictly narrower than what is cut (unit split), so the recursion on them ends; the other contracts are those of units leaf, placement, index_nodes and partitioning
#include "spec.h"
#include "config.h"
#include "tree.h"
static struct cdir T, LC, RC; static struct cnode CN, LCN, RCN; static struct lnode LN, LLN, RLN; static struct betree_sub CUR;
static const struct config* CONF; static struct value_bound BL, BR; static size_t CAP; static unsigned MADE; static unsigned ENC; static bool ATOMIC, SPLIT, PARTED, DONE, GONE_L, GONE_R;
static bool any(void) { bool b; return b ? true : false; }
static struct betree_sub* CELL;
#ifdef BOUNDED
static struct betree_sub S2[2];
#define IS_CUR(s) ((s) == &S2[0] || (s) == &S2[1])
#else
#define IS_CUR(s) ((s) == &CUR)
#endif
static struct betree_sub** read_at(const struct lnode* l, size_t i) { ASSERT(l == &LN && i < LN.sub_count, "the subscription read is one of the leaf"); CELL = &CUR; ENC = 0; return &CELL; }
#define READ(l, i) (*read_at(l, i))
/* the recursive calls, on the halves */
void half_clustering(const struct config* config, struct cdir* cdir)
__CPROVER_requires(config == CONF && MADE == 2 && ((cdir == &LC && T.lchild == &LC && !GONE_L) || (cdir == &RC && T.rchild == &RC && !GONE_R)))
__CPROVER_ensures(cdir == &LC ? GONE_L == true && GONE_R == __CPROVER_old(GONE_R) : GONE_R == true && GONE_L == __CPROVER_old(GONE_L))
__CPROVER_assigns(GONE_L, GONE_R);
static bool is_atomic(const struct cdir* cdir)
__CPROVER_requires(cdir == &T)
__CPROVER_ensures(__CPROVER_return_value == ATOMIC)
__CPROVER_assigns();
#define BOUND_IS(b, c) ((b).imin == (c).imin && (b).imax == (c).imax)
/* the contract of create_cdir_with_cdir_parent */
struct cdir* made_cdir(const struct config* config, struct cdir* parent, struct value_bound bound)
{
    ASSERT(config == CONF && parent == &T && SPLIT && MADE < 2 && T.rchild == NULL && IMPLIES(MADE == 0, T.lchild == NULL), "a half is made where there is none");
    ASSERT(BOUND_IS(bound, MADE == 0 ? BL : BR), "the halves are those of the range");
    MADE++; return MADE == 1 ? &LC : &RC;
}
/* ENC: the halves known to enclose the subscription being read, 1 the left one, 2 the right one */
bool sub_is_enclosed(const struct attr_domain** attr_domains, const struct betree_sub* sub, const struct cdir* cdir)
__CPROVER_requires(attr_domains == (const struct attr_domain**)CONF->attr_domains && IS_CUR(sub) && MADE == 2 && (cdir == &LC || cdir == &RC))
__CPROVER_ensures(WF_BOOL(__CPROVER_return_value) && ENC == (__CPROVER_return_value ? (cdir == &LC ? 1 : 2) : 0))
__CPROVER_assigns(ENC);
static void move(const struct betree_sub* sub, struct lnode* origin, struct lnode* destination)
__CPROVER_requires(IS_CUR(sub) && origin == &LN && LN.sub_count > 0 && ((destination == &LLN && ENC == 1 && !GONE_L) || (destination == &RLN && ENC == 2 && !GONE_R)))
__CPROVER_ensures(LN.sub_count == __CPROVER_old(LN.sub_count) - 1 && ENC == 0)
__CPROVER_assigns(LN.sub_count, ENC);
static void space_partitioning(const struct config* config, struct cnode* cnode)
__CPROVER_requires(config == CONF && cnode == &CN && !PARTED)
__CPROVER_ensures(PARTED == true && LN.sub_count <= CAP)
__CPROVER_assigns(PARTED, LN.sub_count);
static void update_cluster_capacity(const struct config* config, struct lnode* lnode)
__CPROVER_requires(config == CONF && lnode == &LN && PARTED)
__CPROVER_ensures(DONE == true)
__CPROVER_assigns(DONE, LN.max);
#include "tree.c"
struct value_bounds split_contract(struct value_bound bound)
__CPROVER_requires(!ATOMIC && bound.imin == T.bound.imin && bound.imax == T.bound.imax && bound.value_type == T.bound.value_type)
__CPROVER_ensures(SPLIT == true && __CPROVER_return_value.lbound.imin == BL.imin && __CPROVER_return_value.lbound.imax == BL.imax && __CPROVER_return_value.rbound.imin == BR.imin && __CPROVER_return_value.rbound.imax == BR.imax)
__CPROVER_assigns(SPLIT);
int main()
{
    struct config conf; CONF = &conf; size_t n, max; struct value_bound bl, br; BL = bl; BR = br; struct value_bound b; T.bound = b; struct attr_domain** ads; conf.attr_domains = ads;
    ASSUME(n < ((size_t)1 << 40)); CAP = n; LN.sub_count = n; LN.max = max; LN.subs = NULL;
    CN.lnode = &LN; T.cnode = any() ? &CN : NULL; LC.cnode = &LCN; RC.cnode = &RCN; LCN.lnode = &LLN; RCN.lnode = &RLN;
    static struct cdir OL, OR; T.lchild = any() ? &OL : NULL; T.rchild = any() ? &OR : NULL;
    MADE = ENC = 0; ATOMIC = any(); SPLIT = PARTED = DONE = GONE_L = GONE_R = false;
#ifdef BOUNDED
    ASSUME(n <= 2); static struct betree_sub* b2[2]; LN.subs = b2; for(size_t k = 0; k < 2; k++) b2[k] = any() ? &S2[0] : &S2[1];
#endif
    bool leaf = T.lchild == NULL && T.rchild == NULL, over = T.cnode != NULL && n > max; struct cdir* l = T.lchild; struct cdir* r = T.rchild;
    space_clustering(&conf, &T);
    if(!over) ASSERT(MADE == 0 && !PARTED && LN.sub_count == n && T.lchild == l && T.rchild == r, "a range with room is left as it is");
    else {
        ASSERT(PARTED && DONE, "the subscriptions left are split by other attributes");
        if(leaf && !ATOMIC) ASSERT(MADE == 2 && T.lchild == &LC && T.rchild == &RC && GONE_L && GONE_R, "a range that can be cut is cut in two, and the halves are cut in turn");
        else ASSERT(MADE == 0 && T.lchild == l && T.rchild == r, "a range that was cut, or cannot be, keeps its halves");
    }
    ASSERT(LN.sub_count <= n, "no subscription is added");
    REACH();
}
