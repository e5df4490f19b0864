//@ what the range derived from an expression for an attribute contains every value for which the expression can be true (a side left untouched says nothing), under any nesting of connectives and negations, by structural induction
//@ props C02
//@ enforce_rec get_variable_bound_inner/bound_contract
//@ functions get_variable_bound_inner d64min d64max smin smax equality_value_matches compare_value_matches list_value_matches
//@ cbmc --unwind 6
//@ timeout 400
//@ assume bound: the truth of leaf predicates is their mathematical reading (units eval, lists); lists are sorted (C09); expressions are well typed (C07); no NaN
//@ variant integer -DT=BETREE_INTEGER
//@ variant float -DT=BETREE_FLOAT
//@ variant boolean -DT=BETREE_BOOLEAN
//@ variant string -DT=BETREE_STRING
//@ variant ienum -DT=BETREE_INTEGER_ENUM
//@ variant integer_list -DT=BETREE_INTEGER_LIST
//@ variant string_list -DT=BETREE_STRING_LIST
#include "spec.h"
/* the node, its children and their truth values on an arbitrary event; DEF: the event has the variable (a list: with at least one element) */
static struct ast_node N, L, R; static bool SN, SL, SR, DEF;
#define SEM(n) ((n) == &N ? SN : (n) == &L ? SL : SR)
/* lowest and highest value of the variable on that event */
static int64_t ILO, IHI; static size_t ULO, UHI; static double F; static bool B;
#define IS_I (T == BETREE_INTEGER || T == BETREE_INTEGER_LIST)
#define IS_S (T == BETREE_STRING || T == BETREE_STRING_LIST || T == BETREE_INTEGER_ENUM)
#define MIN_OK(b) (IS_I ? IHI >= (b)->imin : IS_S ? UHI >= (b)->smin : T == BETREE_FLOAT ? F + EPS >= (b)->fmin : B >= (b)->bmin)
#define MAX_OK(b) (IS_I ? ILO <= (b)->imax : IS_S ? ULO <= (b)->smax : T == BETREE_FLOAT ? F - EPS <= (b)->fmax : B <= (b)->bmax)
#define PLAIN(b) ((b)->value_type == T && (T != BETREE_BOOLEAN || (WF_BOOL((b)->bmin) && WF_BOOL((b)->bmax))) && (T != BETREE_FLOAT || ((b)->fmin == (b)->fmin && (b)->fmax == (b)->fmax)))
#include "ast.c"
#include "utils.c"
void bound_contract(const struct attr_domain* domain, const struct ast_node* node, struct value_bound* bound, bool is_reversed, struct bound_dirty* dirty)
__CPROVER_requires((node == &N || node == &L || node == &R) && bound != NULL && dirty != NULL && WF_BOOL(is_reversed))
__CPROVER_requires(PLAIN(bound) && domain->bound.value_type == T && !dirty->min_dirty && !dirty->max_dirty)
__CPROVER_ensures(PLAIN(bound) && WF_BOOL(dirty->min_dirty) && WF_BOOL(dirty->max_dirty))
__CPROVER_ensures(IMPLIES(DEF && SEM(node) != is_reversed && dirty->min_dirty, MIN_OK(bound)))
__CPROVER_ensures(IMPLIES(DEF && SEM(node) != is_reversed && dirty->max_dirty, MAX_OK(bound)))
__CPROVER_assigns(*bound, *dirty);
static bool any(void) { bool b; return b ? true : false; }
static struct betree_integer_list IL; static struct betree_string_list SL_;
int main()
{
    struct attr_domain D; D.bound.value_type = T; betree_var_t x, y; D.attr_var.var = x;
    DEF = any(); SN = any(); SL = any(); SR = any();
    int64_t i0, i1; ASSUME(i0 <= i1 && IMPLIES(T == BETREE_INTEGER, i0 == i1)); ILO = i0; IHI = i1;
    size_t u0, u1; ASSUME(u0 <= u1 && IMPLIES(T == BETREE_STRING || T == BETREE_INTEGER_ENUM, u0 == u1)); ULO = u0; UHI = u1;
    double f; ASSUME(f == f); F = f; B = any();
    enum ast_node_type_e k; ASSUME(k == AST_TYPE_COMPARE_EXPR || k == AST_TYPE_EQUALITY_EXPR || k == AST_TYPE_BOOL_EXPR || k == AST_TYPE_SET_EXPR || k == AST_TYPE_LIST_EXPR || k == AST_TYPE_SPECIAL_EXPR || k == AST_TYPE_IS_NULL_EXPR); N.type = k;
    bool on = any(); ASSUME(on || x != y); betree_var_t at = on ? x : y; /* the leaf is about the variable, or about another one */
    int64_t c; size_t s; double d; ASSUME(d == d); bool r;
    /* the list of the leaf: sorted, with lowest l0 and highest l1 (or p0, p1) */
    size_t n; ASSUME(n < ((size_t)1 << 32)); IL.count = n; IL.integers = malloc(n * 8); SL_.count = n; SL_.strings = malloc(n * sizeof(struct string_value));
    int64_t l0 = 0, l1 = 0; size_t p0 = 0, p1 = 0; if(n > 0) { l0 = IL.integers[0]; l1 = IL.integers[n - 1]; p0 = SL_.strings[0].str; p1 = SL_.strings[n - 1].str; ASSUME(l0 <= l1 && p0 <= p1); }
    if(k == AST_TYPE_BOOL_EXPR) {
        enum ast_bool_e op; ASSUME(op == AST_BOOL_OR || op == AST_BOOL_AND || op == AST_BOOL_NOT || op == AST_BOOL_VARIABLE || op == AST_BOOL_LITERAL); N.bool_expr.op = op;
        if(op == AST_BOOL_NOT) { N.bool_expr.unary.expr = &L; ASSUME(SN == !SL); }
        if(op == AST_BOOL_AND) { N.bool_expr.binary.lhs = &L; N.bool_expr.binary.rhs = &R; ASSUME(SN == (SL && SR)); }
        if(op == AST_BOOL_OR) { N.bool_expr.binary.lhs = &L; N.bool_expr.binary.rhs = &R; ASSUME(SN == (SL || SR)); }
        if(op == AST_BOOL_VARIABLE) { N.bool_expr.variable.var = at; if(on) { ASSUME(T == BETREE_BOOLEAN); ASSUME(IMPLIES(DEF, SN == B)); } }
    }
    if(k == AST_TYPE_COMPARE_EXPR) {
        enum ast_compare_e op; ASSUME(op == AST_COMPARE_LT || op == AST_COMPARE_LE || op == AST_COMPARE_GT || op == AST_COMPARE_GE); N.compare_expr.op = op; N.compare_expr.attr_var.var = at;
        if(on) {
            ASSUME(T == BETREE_INTEGER || T == BETREE_FLOAT); N.compare_expr.value.value_type = T == BETREE_FLOAT ? AST_COMPARE_VALUE_FLOAT : AST_COMPARE_VALUE_INTEGER;
            if(T == BETREE_FLOAT) { N.compare_expr.value.float_value = d; r = op == AST_COMPARE_LT ? F < d : op == AST_COMPARE_LE ? F <= d : op == AST_COMPARE_GT ? F > d : F >= d; }
            else { N.compare_expr.value.integer_value = c; r = op == AST_COMPARE_LT ? ILO < c : op == AST_COMPARE_LE ? ILO <= c : op == AST_COMPARE_GT ? ILO > c : ILO >= c; }
            ASSUME(IMPLIES(DEF, SN == r)); }
    }
    if(k == AST_TYPE_EQUALITY_EXPR) {
        enum ast_equality_e op; ASSUME(op == AST_EQUALITY_EQ || op == AST_EQUALITY_NE); N.equality_expr.op = op; N.equality_expr.attr_var.var = at;
        if(on) {
            ASSUME(T == BETREE_INTEGER || T == BETREE_FLOAT || T == BETREE_STRING || T == BETREE_INTEGER_ENUM);
            if(T == BETREE_FLOAT) { N.equality_expr.value.value_type = AST_EQUALITY_VALUE_FLOAT; N.equality_expr.value.float_value = d; r = F == d || (F - d < EPS && d - F < EPS); }
            if(T == BETREE_INTEGER) { N.equality_expr.value.value_type = AST_EQUALITY_VALUE_INTEGER; N.equality_expr.value.integer_value = c; r = ILO == c; }
            if(T == BETREE_STRING) { N.equality_expr.value.value_type = AST_EQUALITY_VALUE_STRING; N.equality_expr.value.string_value.str = s; r = ULO == s; }
            if(T == BETREE_INTEGER_ENUM) { N.equality_expr.value.value_type = AST_EQUALITY_VALUE_INTEGER_ENUM; N.equality_expr.value.integer_enum_value.ienum = s; r = ULO == s; }
            ASSUME(IMPLIES(DEF, SN == (r == (op == AST_EQUALITY_EQ)))); }
    }
    if(k == AST_TYPE_SET_EXPR) {
        enum ast_set_e op; ASSUME(op == AST_SET_IN || op == AST_SET_NOT_IN); N.set_expr.op = op; bool isvar = any(), isint = any();
        if(on) ASSUME(isvar ? T == (isint ? BETREE_INTEGER : BETREE_STRING) : T == (isint ? BETREE_INTEGER_LIST : BETREE_STRING_LIST));
        if(isvar) {
            N.set_expr.left_value.value_type = AST_SET_LEFT_VALUE_VARIABLE; N.set_expr.left_value.variable_value.var = at; N.set_expr.right_value.value_type = isint ? AST_SET_RIGHT_VALUE_INTEGER_LIST : AST_SET_RIGHT_VALUE_STRING_LIST;
            if(isint) N.set_expr.right_value.integer_list_value = &IL; else N.set_expr.right_value.string_list_value = &SL_;
            /* a member is between the ends of the list */
            if(on) ASSUME(IMPLIES(DEF && SN == (op == AST_SET_IN), n > 0 && (isint ? l0 <= ILO && ILO <= l1 : p0 <= ULO && ULO <= p1)));
        } else {
            N.set_expr.right_value.value_type = AST_SET_RIGHT_VALUE_VARIABLE; N.set_expr.right_value.variable_value.var = at; N.set_expr.left_value.value_type = isint ? AST_SET_LEFT_VALUE_INTEGER : AST_SET_LEFT_VALUE_STRING;
            if(isint) N.set_expr.left_value.integer_value = c; else N.set_expr.left_value.string_value.str = s;
            if(on) ASSUME(IMPLIES(DEF && SN == (op == AST_SET_IN), isint ? ILO <= c && c <= IHI : ULO <= s && s <= UHI));
        }
    }
    if(k == AST_TYPE_LIST_EXPR) {
        enum ast_list_e op; ASSUME(op == AST_LIST_ONE_OF || op == AST_LIST_NONE_OF || op == AST_LIST_ALL_OF); N.list_expr.op = op; N.list_expr.attr_var.var = at; bool isint = any();
        if(on) ASSUME(T == (isint ? BETREE_INTEGER_LIST : BETREE_STRING_LIST));
        N.list_expr.value.value_type = isint ? AST_LIST_VALUE_INTEGER_LIST : AST_LIST_VALUE_STRING_LIST; if(isint) N.list_expr.value.integer_list_value = &IL; else N.list_expr.value.string_list_value = &SL_;
        if(on) {
            /* lists that share an element have overlapping ranges; a list included in another has its range inside */
            bool meet = isint ? ILO <= l1 && l0 <= IHI : ULO <= p1 && p0 <= UHI, incl = isint ? ILO <= l0 && l1 <= IHI : ULO <= p0 && p1 <= UHI;
            if(op == AST_LIST_ONE_OF) ASSUME(IMPLIES(DEF && SN, n > 0 && meet));
            if(op == AST_LIST_NONE_OF) ASSUME(IMPLIES(DEF && !SN, n > 0 && meet));
            if(op == AST_LIST_ALL_OF) ASSUME(IMPLIES(DEF && SN && n > 0, incl));
        }
    }
    struct value_bound b; b.value_type = T; if(T == BETREE_BOOLEAN) { b.bmin = any(); b.bmax = any(); }
    if(T == BETREE_FLOAT) { double f0, f1; ASSUME(f0 == f0 && f1 == f1); b.fmin = f0; b.fmax = f1; }
    struct bound_dirty q = { .min_dirty = false, .max_dirty = false }; bool rev = any();
    get_variable_bound_inner(&D, &N, &b, rev, &q);
    ASSERT(IMPLIES(DEF && SN != rev && q.min_dirty, MIN_OK(&b)), "a value for which the expression can be true is not below the range");
    ASSERT(IMPLIES(DEF && SN != rev && q.max_dirty, MAX_OK(&b)), "a value for which the expression can be true is not above the range");
    REACH();
}
