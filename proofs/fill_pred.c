//@ what the set of variables of a subscription gets the variables its expression uses, no other one and nothing outside the set, by structural induction
//@ props C18 C02
//@ enforce_rec fill_pred
//@ replace set_bit
//@ functions fill_pred_attr_var
//@ cbmc --unwind 8
//@ assume fill_pred: the variables of the expression are declared (unit declared), so that their numbers are below the number of variables (unit sub_masks: the set has room for them); set_bit sets that bit only (unit bits)
#include "spec.h"
#include "tree.h"
static struct ast_node N, L, R; static struct betree_sub S; static bool UL, UR, UN, ML, MR, MN, BITG; static uint64_t* W; static size_t g, n;
/* UN: the expression uses variable g; MN: and the set records it (the clock of a frequency cap and of a segment predicate is not recorded) */
void set_bit(uint64_t A[], uint64_t k)
__CPROVER_requires(A == W && k < n)
__CPROVER_ensures(BITG == (__CPROVER_old(BITG) || k == g))
__CPROVER_assigns(BITG);
void fill_pred(struct betree_sub* sub, const struct ast_node* expr)
__CPROVER_requires((expr == &N || expr == &L || expr == &R) && sub == &S)
__CPROVER_ensures(IMPLIES(BITG, __CPROVER_old(BITG) || (expr == &N ? UN : expr == &L ? UL : UR)))
__CPROVER_ensures(IMPLIES(__CPROVER_old(BITG) || (expr == &N ? MN : expr == &L ? ML : MR), BITG))
__CPROVER_assigns(BITG);
#include "tree.c"
#include "memoize.c"
#include "shape.h"
int main()
{
    size_t nn, gg; n = nn; ASSUME(n < ((size_t)1 << 40)); g = gg; ASSUME(g < n); W = malloc(8); S.attr_vars = W;
    UL = any(); UR = any(); ML = any(); MR = any(); ASSUME(IMPLIES(ML, UL) && IMPLIES(MR, UR));
    struct attr_var a, b; ASSUME(a.var < n && b.var < n); shape(a, b);
    ASSUME(!(N.type == AST_TYPE_SET_EXPR && BROKEN_SET));
    bool ia = a.var == g, ib = b.var == g, clock = N.type == AST_TYPE_SPECIAL_EXPR && N.special_expr.type != AST_SPECIAL_GEO;
    UN = USES == NEITHER ? false : USES == ONE ? ia : USES == TWO ? ia || ib : USES == BELOW_ONE ? UL : UL || UR;
    MN = USES == NEITHER ? false : USES == ONE ? ia : USES == TWO ? ia || (ib && !clock) : USES == BELOW_ONE ? ML : ML || MR;
    BITG = false;
    fill_pred(&S, &N);
    ASSERT(IMPLIES(BITG, UN), "only variables of the expression are added");
    ASSERT(IMPLIES(MN, BITG), "every variable of the expression is added, except the clock");
    REACH();
}
