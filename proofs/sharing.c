//@ what an expression seen before gets the identity of the one stored and shares its cache slot, which is opened when there is none; any other expression gets an identity never given before and is stored, once; everything below is visited once
//@ props C04
//@ functions assign_pred make_pred_map exprmap_new
//@ cut hashmap.c (?<!void )\bassign_pred\( => below(
//@ nodfcc
//@ cbmc --unwind 12 --bounds-check --pointer-check
//@ assume sharing: the ordered tree finds exactly an element equal in the order of expressions, and keeps what it was given (units find_ordered, ordered_set, cmp)
//@ assume sharing: fewer than 2^63 expressions and cache slots
//@ variant assigning -DHOW=0
//@ variant starting -DHOW=1
//@ bounded
#include "spec.h"
#include "config.h"
#include "jsw_rbtree.h"
#include "hashmap.h"
#include "ast_compare.h"
static struct ast_node N, L, R, B, F, FB; static int DL, DR, FOUND, STORED, LOOKED; static struct pred_map PM, PB; static char M; static bool HAS;
void below(struct pred_map* pm, struct ast_node* node)
{
    ASSERT(pm == &PM && (node == &L || node == &R) && LOOKED == 0, "an operand, before the whole");
    if(node == &L) DL++; else DR++;
    /* what is below takes its own identities and slots */
    betree_pred_t p, m; ASSUME(p >= PM.pred_count && p < (betree_pred_t)1 << 63 && m >= PM.memoize_count && m < (betree_pred_t)1 << 63); PM.pred_count = p; PM.memoize_count = m;
    betree_pred_t g, k; node->global_id = g; node->memoize_id = k;
}
#include "hashmap.c"
#include "shape.h"
void* jsw_rbfind(struct jsw_rbtree* t, void* d) { ASSERT((void*)t == (void*)&M && d == &N && LOOKED == 0, "the whole is looked up, once"); LOOKED++; PB = PM; FB = F; return HAS ? &F : NULL; }
int jsw_rbinsert(struct jsw_rbtree* t, void* d) { ASSERT((void*)t == (void*)&M && d == &N && !HAS && LOOKED == 1 && STORED == 0, "what was not there is stored, once"); STORED++; return 1; }
static cmp_f ORDER;
struct jsw_rbtree* jsw_rbnew(cmp_f c) { ORDER = c; return (struct jsw_rbtree*)&M; }
int expr_cmp(const void* a, const void* b) { int r; return r; }
int main()
{
    DL = DR = STORED = LOOKED = 0; HAS = any();
#if HOW == 1
    struct pred_map* p = make_pred_map();
    ASSERT(p->pred_count == 0 && p->memoize_count == 0 && (void*)p->m == (void*)&M && ORDER == expr_cmp, "a tree starts with no expression, ordered by the order of expressions");
#else
    struct attr_var a, b; shape(a, b); B = N; betree_pred_t g, m; ASSUME(g < (betree_pred_t)1 << 63 && m < (betree_pred_t)1 << 63); PM.pred_count = g; PM.memoize_count = m; PM.m = (struct jsw_rbtree*)&M;
    /* the one stored before: its identity was given before, so was its slot, if any */
    betree_pred_t fg, fm; ASSUME(fg < g && (fm == INVALID_PRED || fm < m)); F.global_id = fg; F.memoize_id = fm;
    assign_pred(&PM, &N);
    ASSERT(LOOKED == 1 && PM.m == PB.m, "looked up");
    if(HAS) {
        ASSERT(N.global_id == fg && F.global_id == fg && PM.pred_count == PB.pred_count && STORED == 0, "the identity of the one stored");
        ASSERT(N.memoize_id == F.memoize_id && N.memoize_id != INVALID_PRED, "they share a slot");
        ASSERT(fm != INVALID_PRED ? F.memoize_id == fm && PM.memoize_count == PB.memoize_count : F.memoize_id == PB.memoize_count && PM.memoize_count == PB.memoize_count + 1, "the slot there is, or one never given before");
        FB.memoize_id = F.memoize_id; B.memoize_id = N.memoize_id;
    }
    else {
        ASSERT(N.global_id == PB.pred_count && PM.pred_count == PB.pred_count + 1 && STORED == 1, "an identity never given before");
        ASSERT(N.memoize_id == B.memoize_id && PM.memoize_count == PB.memoize_count, "no slot is opened");
    }
    B.global_id = N.global_id; size_t o; ASSUME(o < sizeof N);
    ASSERT(((unsigned char*)&N)[o] == ((unsigned char*)&B)[o], "the rest of the expression is as it was");
    ASSERT(((unsigned char*)&F)[o] == ((unsigned char*)&FB)[o], "so is the one stored");
    ASSERT(DL == (USES == BELOW_ONE || USES == BELOW_BOTH) && DR == (USES == BELOW_BOTH), "everything below is visited, once");
#endif
    REACH();
}
