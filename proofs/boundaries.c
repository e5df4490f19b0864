//@ what applying the range an expression needs to the declared variables, any number of them, never narrows a limit that was set, covers the range, and leaves every variable the expression does not use as it was
//@ props C11
//@ replace get_simple_variable_bound/gsvb
//@ functions change_boundaries d64max d64min fne feq
//@ loop betree.c change_boundaries 1/3 : __CPROVER_assigns(i, __CPROVER_object_whole(&DG), __CPROVER_object_whole(&DO), __CPROVER_object_whole(AD)) __CPROVER_loop_invariant(i <= config->attr_domain_count && DG.attr_var.var == G && DG.bound.value_type == OLD.value_type && DG.allow_undefined == UNDEF && IMPLIES(i <= G, SAME(DG.bound)) && IMPLIES(i > G, POST(DG.bound))) __CPROVER_decreases(config->attr_domain_count - i)
//@ ghost betree.c change_boundaries 1/3 : INST(i)
//@ loop betree.c change_boundaries 2/3 : __CPROVER_assigns(j, __CPROVER_object_whole(attr_domain)) __CPROVER_loop_invariant(j <= config->string_map_count && IMPLIES(i == G, DICT(j))) __CPROVER_decreases(config->string_map_count - j)
//@ ghost betree.c change_boundaries 2/3 : INSTM(config->string_maps[j].attr_var.var, config->string_maps[j].string_value_count, j)
//@ loop betree.c change_boundaries 3/3 : __CPROVER_assigns(j, __CPROVER_object_whole(attr_domain)) __CPROVER_loop_invariant(j <= config->integer_map_count && IMPLIES(i == G, DICT(j))) __CPROVER_decreases(config->integer_map_count - j)
//@ ghost betree.c change_boundaries 3/3 : INSTM(config->integer_maps[j].attr_var.var, config->integer_maps[j].integer_value_count, j)
//@ cbmc --unwind 6 --object-bits 10
//@ assume boundaries: the range an expression needs of a variable is as unit sbound proves; INST lets the variable being read be any one, the one followed at its place; a variable has at most one dictionary, which holds the values the expression uses (C08)
//@ variant integer -DTY=BETREE_INTEGER
//@ variant integer_list -DTY=BETREE_INTEGER_LIST
//@ variant float -DTY=BETREE_FLOAT
//@ variant string -DTY=BETREE_STRING
//@ variant string_list -DTY=BETREE_STRING_LIST
//@ variant enum -DTY=BETREE_INTEGER_ENUM
//@ variant other -DTY=-1
//@ timeout 400
#include "spec.h"
#include <float.h>
#include <math.h>
#include "config.h"
#include "utils.h"
static struct attr_domain DG, DO; static struct attr_domain** AD; static struct value_bound OLD, BND; static bool AFF, UNDEF; static size_t G, M, CNT, XS; static int64_t XI; static double XF;
#define BITS(b) ((b).imin == OLD.imin && (b).imax == OLD.imax)
#define ISSTR (TY == BETREE_STRING || TY == BETREE_STRING_LIST || TY == BETREE_INTEGER_ENUM)
#define SAME(b) (ISSTR ? (b).smin == OLD.smin && (b).smax == OLD.smax : BITS(b))
/* never narrower; a side without a limit gets the one needed; the value X of the range is inside */
#define POST_I(b) ((OLD.imin == INT64_MIN ? (b).imin == (BND.imin == INT64_MIN ? INT64_MIN + 1 : BND.imin) : (b).imin <= OLD.imin) && (OLD.imax == INT64_MAX ? (b).imax == (BND.imax == INT64_MAX ? INT64_MAX - 1 : BND.imax) : (b).imax >= OLD.imax) && IMPLIES(XI > INT64_MIN && XI < INT64_MAX, (b).imin <= XI && XI <= (b).imax))
#define LIM (DBL_MAX * (1 - DBL_EPSILON))
#define POST_F(b) ((OLD.fmin == -DBL_MAX ? (b).fmin == (BND.fmin < -LIM ? -LIM : BND.fmin) : (b).fmin <= OLD.fmin) && (OLD.fmax == DBL_MAX ? (b).fmax == (BND.fmax > LIM ? LIM : BND.fmax) : (b).fmax >= OLD.fmax) && IMPLIES(XF >= -LIM && XF <= LIM, (b).fmin <= XF && XF <= (b).fmax))
#define SNEW (OLD.smax < SIZE_MAX - 1 && OLD.smax > CNT - 1 ? OLD.smax : CNT - 1)
#define POST_S(b) ((b).smin == OLD.smin && (b).smax == SNEW && XS <= (b).smax)
#define POST(b) (!AFF || TY == -1 ? SAME(b) : TY == BETREE_INTEGER || TY == BETREE_INTEGER_LIST ? POST_I(b) : TY == BETREE_FLOAT ? POST_F(b) : POST_S(b))
#define DICT(j) (DG.attr_var.var == G && DG.bound.value_type == OLD.value_type && DG.allow_undefined == UNDEF && DG.bound.smin == OLD.smin && DG.bound.smax == ((j) > M ? SNEW : OLD.smax))
#define INST(i) { struct attr_domain d; DO = d; DO.attr_var.var = i; AD[i] = (i) == G ? &DG : &DO; }
#define INSTM(v, c, j) if(i == G) { __CPROVER_assume(((v) == G) == ((j) == M)); if((j) == M) __CPROVER_assume((c) == CNT); }
#include "betree.c"
#include "utils.c"
static bool gsvb(betree_var_t var, const struct ast_node* node, bool inverted, struct value_bound* bound)
__CPROVER_requires(bound != NULL && node != NULL && !inverted)
__CPROVER_ensures(IMPLIES(var == G, __CPROVER_return_value == AFF && IMPLIES(AFF, bound->value_type == BND.value_type && bound->imin == BND.imin && bound->imax == BND.imax)))
__CPROVER_assigns(*bound);
int main()
{
    struct config c; size_t n, sn, in, g, m, cnt, xs; int64_t xi; double xf; bool aff, und; struct ast_node node;
    ASSUME(n < ((size_t)1 << 40) && sn < ((size_t)1 << 32) && in < ((size_t)1 << 32));
    G = g; M = m; CNT = cnt; XS = xs; XI = xi; XF = xf; AFF = aff ? true : false; UNDEF = und ? true : false; ASSUME(g < n && cnt > 0 && xs < cnt);
    struct value_bound o, b; OLD = o; BND = b;
    if(TY == -1) { ASSUME(OLD.value_type == BETREE_BOOLEAN || OLD.value_type == BETREE_SEGMENTS || OLD.value_type == BETREE_FREQUENCY_CAPS); }
    else OLD.value_type = TY;
    if(TY == BETREE_FLOAT) { double f[4]; ASSUME(f[0] <= f[1] && f[2] <= f[3] && __CPROVER_isfinited(f[0]) && __CPROVER_isfinited(f[1]) && __CPROVER_isfinited(f[2]) && __CPROVER_isfinited(f[3])); OLD.fmin = f[0]; OLD.fmax = f[1]; BND.fmin = f[2]; BND.fmax = f[3]; ASSUME(f[2] <= XF && XF <= f[3]); }
    else if(TY == BETREE_INTEGER || TY == BETREE_INTEGER_LIST) ASSUME(BND.imin <= XI && XI <= BND.imax);
    if(ISSTR) { size_t s[2]; OLD.smin = s[0]; OLD.smax = s[1]; }
    if(TY == BETREE_STRING || TY == BETREE_STRING_LIST) ASSUME(m < sn);
    if(TY == BETREE_INTEGER_ENUM) ASSUME(m < in);
    DG.bound = OLD; DG.attr_var.var = G; DG.allow_undefined = UNDEF;
    AD = malloc(n * sizeof(*AD)); c.attr_domains = AD; c.attr_domain_count = n;
    c.string_map_count = sn; c.string_maps = malloc(sn * sizeof(*c.string_maps)); c.integer_map_count = in; c.integer_maps = malloc(in * sizeof(*c.integer_maps));
    change_boundaries(&c, &node);
    ASSERT(DG.bound.value_type == OLD.value_type && DG.attr_var.var == G && DG.allow_undefined == UNDEF, "the declaration stays");
    ASSERT(POST(DG.bound), "never narrower, covering what the expression needs, unchanged when it is not used");
    REACH();
}
