//@ what a subscription is put below an index node only when the range of the node covers every value for which its expression can be true, except on a side where the node reaches the end of the domain
//@ props C02
//@ replace get_variable_bound_inner/bound_contract
//@ functions sub_is_enclosed get_variable_bound get_attr_domain test_bit
//@ cbmc --unwind 6
//@ assume placement: the contract of get_variable_bound_inner is the one proved in unit bound
//@ variant integer -DT=BETREE_INTEGER
//@ variant float -DT=BETREE_FLOAT
//@ variant boolean -DT=BETREE_BOOLEAN
//@ variant string -DT=BETREE_STRING
//@ variant ienum -DT=BETREE_INTEGER_ENUM
//@ variant integer_list -DT=BETREE_INTEGER_LIST
//@ variant string_list -DT=BETREE_STRING_LIST
#include "spec.h"
static struct ast_node N; static bool SN, DEF;
#define SEM(n) SN
static int64_t ILO, IHI; static size_t ULO, UHI; static double F; static bool B;
#define IS_I (T == BETREE_INTEGER || T == BETREE_INTEGER_LIST)
#define IS_S (T == BETREE_STRING || T == BETREE_STRING_LIST || T == BETREE_INTEGER_ENUM)
#define MIN_OK(b) (IS_I ? IHI >= (b)->imin : IS_S ? UHI >= (b)->smin : T == BETREE_FLOAT ? F + EPS >= (b)->fmin : B >= (b)->bmin)
#define MAX_OK(b) (IS_I ? ILO <= (b)->imax : IS_S ? ULO <= (b)->smax : T == BETREE_FLOAT ? F - EPS <= (b)->fmax : B <= (b)->bmax)
#define PLAIN(b) ((b)->value_type == T && (T != BETREE_BOOLEAN || (WF_BOOL((b)->bmin) && WF_BOOL((b)->bmax))) && (T != BETREE_FLOAT || ((b)->fmin == (b)->fmin && (b)->fmax == (b)->fmax)))
#define MIN_LE(a, b) (IS_I ? (a)->imin <= (b)->imin : IS_S ? (a)->smin <= (b)->smin : T == BETREE_FLOAT ? (a)->fmin <= (b)->fmin : (a)->bmin <= (b)->bmin)
#define MAX_GE(a, b) (IS_I ? (a)->imax >= (b)->imax : IS_S ? (a)->smax >= (b)->smax : T == BETREE_FLOAT ? (a)->fmax >= (b)->fmax : (a)->bmax >= (b)->bmax)
#include "ast.c"
#include "utils.c"
#include "memoize.c"
#include "config.c"
void bound_contract(const struct attr_domain* domain, const struct ast_node* node, struct value_bound* bound, bool is_reversed, struct bound_dirty* dirty)
__CPROVER_requires(node == &N && bound != NULL && dirty != NULL && WF_BOOL(is_reversed))
__CPROVER_requires(bound->value_type == T && domain->bound.value_type == T && !dirty->min_dirty && !dirty->max_dirty)
__CPROVER_ensures(PLAIN(bound) && WF_BOOL(dirty->min_dirty) && WF_BOOL(dirty->max_dirty))
__CPROVER_ensures(IMPLIES(DEF && SEM(node) != is_reversed && dirty->min_dirty, MIN_OK(bound)))
__CPROVER_ensures(IMPLIES(DEF && SEM(node) != is_reversed && dirty->max_dirty, MAX_OK(bound)))
__CPROVER_assigns(*bound, *dirty);
#include "tree.c"
static bool any(void) { bool b; return b ? true : false; }
int main()
{
    DEF = any(); SN = any();
    int64_t i0, i1; ASSUME(i0 <= i1); ILO = i0; IHI = i1; size_t u0, u1; ASSUME(u0 <= u1); ULO = u0; UHI = u1; double f; ASSUME(f == f); F = f; B = any();
    struct attr_domain D; struct cdir C; betree_var_t x; size_t nv; ASSUME(x < nv && nv < ((size_t)1 << 30));
    struct value_bound b, c; b.value_type = T; c.value_type = T; ASSUME(PLAIN(&b) && PLAIN(&c)); if(T == BETREE_BOOLEAN) { b.bmin = any(); b.bmax = any(); c.bmin = any(); c.bmax = any(); }
    D.bound = b; C.bound = c; D.attr_var.var = x; C.attr_var.var = x;
    const struct attr_domain** ads = malloc(nv * sizeof(*ads)); ads[x] = &D;
    struct betree_sub s; s.expr = &N; s.attr_vars = malloc((nv / 64 + 1) * 8);
    bool r = sub_is_enclosed(ads, &s, &C);
    if(r) {
        ASSERT(s.attr_vars[x / 64] >> (x % 64) & 1, "the subscription uses the attribute");
        if(DEF && SN) {
            ASSERT(MIN_OK(&c) || MIN_LE(&c, &b), "a matching value is not below the range of the node, unless it reaches the lower end of the domain");
            ASSERT(MAX_OK(&c) || MAX_GE(&c, &b), "a matching value is not above the range of the node, unless it reaches the upper end of the domain");
        }
    }
    ASSERT(!sub_is_enclosed(ads, &s, NULL), "nothing is below a node that is not there");
    REACH();
}
