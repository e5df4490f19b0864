//@ what the score of an attribute is a number, positive when a subscription has the attribute; counting subscriptions with an attribute counts each once
//@ props C05 C16
//@ functions get_attr_domain_score domain_bound_diff get_score get_lnode_score get_pnode_score update_partition_score count_attr_in_lnode count_attr_in_cdir count_subs_with_variable sub_has_attribute
//@ cut tree.c (?<!static size_t )\bcount_attr_in_cdir\( => half_count(
//@ cut tree.c \bget_attr_domain\( => domain_of(
//@ rewrite tree.c (?<![\w>])lnode->subs\[([^\]]+)\] => READ(lnode->subs, \1)
//@ rewrite tree.c (?<![\w>.])subs\[([^\]]+)\] => READ(subs, \1)
//@ loop tree.c count_attr_in_lnode 1/1 : __CPROVER_assigns(i, count, T, CELL) __CPROVER_loop_invariant(i <= NS && count == T && T <= i) __CPROVER_decreases(NS - i)
//@ loop tree.c count_subs_with_variable 1/1 : __CPROVER_assigns(i, count, T, CELL) __CPROVER_loop_invariant(i <= NS && count == T && T <= i) __CPROVER_decreases(NS - i)
//@ cbmc --unwind 12 --object-bits 10
//@ bounded --unwind 5 --object-bits 10
//@ assume scores: READ gives the subscription being read, any with any attributes (T counts those that have the attribute); the bounds of a domain are ordered numbers (unit declared)
//@ variant boolean -DT0=BETREE_BOOLEAN
//@ variant integer -DT0=BETREE_INTEGER
//@ variant integer_list -DT0=BETREE_INTEGER_LIST
//@ variant float -DT0=BETREE_FLOAT
//@ variant string -DT0=BETREE_STRING
//@ variant string_list -DT0=BETREE_STRING_LIST
//@ variant ienum -DT0=BETREE_INTEGER_ENUM
#include "spec.h"
#include "config.h"
#include "tree.h"
static struct lnode L; static struct cnode C; static struct betree_sub S; static struct betree_sub* CELL; static struct attr_domain AD; static struct cdir TOP, LC, RC; static struct pnode PN; static const struct attr_domain* ADS[1];
static size_t NS, V, T, CL, CR;
static bool any(void) { bool b; return b ? true : false; }
static struct betree_sub** read_at(struct betree_sub** subs, size_t i) { ASSERT(subs == L.subs && i < NS, "the subscription read is one of the leaf"); CELL = &S; return &CELL; }
#define READ(l, i) (*read_at((struct betree_sub**)(l), i))
const struct attr_domain* domain_of(const struct attr_domain** ads, betree_var_t v) { ASSERT(ads == ADS && v == V, "the domain is that of the attribute"); return &AD; }
size_t half_count(betree_var_t v, const struct cdir* c) { ASSERT(v == V && (c == NULL || c == &LC || c == &RC || c == &TOP), "the subscriptions of a range"); size_t t; return c == NULL ? 0 : c == &TOP ? t : c == &LC ? CL : CR; }
bool test_bit(const uint64_t A[], uint64_t k) { ASSERT(A == S.attr_vars && k == V, "the attributes are those of the subscription"); bool r = any(); if(r) T++; return r; }
#include "utils.c"
#include "tree.c"
int main()
{
    size_t ns, v, cl, cr; NS = ns; V = v; CL = cl; CR = cr; ASSUME(ns < ((size_t)1 << 40) && cl < ((size_t)1 << 40) && cr < ((size_t)1 << 40)); L.sub_count = ns; static uint64_t bits[1]; S.attr_vars = bits; CELL = NULL; L.subs = NULL;
#ifdef BOUNDED
    ASSUME(ns <= 2); static struct betree_sub* b2[2]; b2[0] = &S; b2[1] = &S; L.subs = b2;
#endif
    struct value_bound b; b.value_type = T0; int64_t i0, i1; size_t s0, s1; double f0, f1; bool x, y; ASSUME(i0 <= i1 && s0 <= s1 && f0 <= f1 && f0 >= -__DBL_MAX__ && f1 <= __DBL_MAX__);
    if(T0 == BETREE_INTEGER || T0 == BETREE_INTEGER_LIST) { b.imin = i0; b.imax = i1; }
    else if(T0 == BETREE_FLOAT) { b.fmin = f0; b.fmax = f1; }
    else if(T0 == BETREE_BOOLEAN) { b.bmin = x ? true : false; b.bmax = y ? true : false; }
    else { b.smin = s0; b.smax = s1; }
    AD.bound = b; AD.allow_undefined = any(); AD.attr_var.var = v; PN.attr_var.var = v; PN.cdir = &TOP; TOP.cnode = any() ? &C : NULL; C.lnode = &L; TOP.lchild = any() ? &LC : NULL; TOP.rchild = any() ? &RC : NULL;
    T = 0; double s = get_lnode_score(ADS, &L, v);
    ASSERT(T > 0 ? s > 0 && s <= __DBL_MAX__ : s == 0, "the score of an attribute in a leaf is a number, positive exactly when a subscription has it");
    T = 0; size_t n = count_subs_with_variable((const struct betree_sub**)L.subs, ns, v);
    ASSERT(n == T && n <= ns, "each subscription with the attribute is counted once");
    T = 0; n = count_attr_in_cdir(v, &TOP);
    ASSERT(n == T + (TOP.lchild != NULL ? CL : 0) + (TOP.rchild != NULL ? CR : 0) && IMPLIES(TOP.cnode == NULL, T == 0), "the count of a range is that of its leaf and of its halves");
    T = 0; update_partition_score(ADS, &PN);
    ASSERT(PN.score >= 0 && PN.score <= __FLT_MAX__, "the score of an index is a number");
    REACH();
}
