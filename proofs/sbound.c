//@ what the range an expression needs of a variable covers the constant of every operator applied to it (the nearest satisfying value of a strict comparison), through any nesting and negation, and there is none exactly when no operator is applied to it
//@ props C11
//@ enforce_rec get_simple_variable_bound/gsvb
//@ functions compare_simple_bound might_be_affected equality_simple_bound set_simple_bound list_simple_bound integer_bound float_bound string_bound integer_list_bound string_list_bound integer_enum_bound boolean_bound d64prev d64next
//@ cbmc --unwind 6 --object-bits 10
//@ assume sbound: expressions are well typed (all_types_valid, unit typed), lists are not empty (grammar) and sorted (units of C09), one arbitrary element of a list is followed; floats are finite
//@ variant bool_i -DK=AST_TYPE_BOOL_EXPR -DTY=BETREE_INTEGER
//@ variant bool_f -DK=AST_TYPE_BOOL_EXPR -DTY=BETREE_FLOAT
//@ variant bool_s -DK=AST_TYPE_BOOL_EXPR -DTY=BETREE_STRING
//@ variant is_null -DK=AST_TYPE_IS_NULL_EXPR -DTY=BETREE_INTEGER
//@ variant special -DK=AST_TYPE_SPECIAL_EXPR -DTY=BETREE_INTEGER
//@ variant compare_i -DK=AST_TYPE_COMPARE_EXPR -DTY=BETREE_INTEGER
//@ variant compare_f -DK=AST_TYPE_COMPARE_EXPR -DTY=BETREE_FLOAT
//@ variant equality_i -DK=AST_TYPE_EQUALITY_EXPR -DTY=BETREE_INTEGER
//@ variant equality_f -DK=AST_TYPE_EQUALITY_EXPR -DTY=BETREE_FLOAT
//@ variant equality_s -DK=AST_TYPE_EQUALITY_EXPR -DTY=BETREE_STRING
//@ variant set_i -DK=AST_TYPE_SET_EXPR -DTY=BETREE_INTEGER
//@ variant set_s -DK=AST_TYPE_SET_EXPR -DTY=BETREE_STRING
//@ variant list_i -DK=AST_TYPE_LIST_EXPR -DTY=BETREE_INTEGER
//@ variant list_s -DK=AST_TYPE_LIST_EXPR -DTY=BETREE_STRING
#include "spec.h"
#include "utils.h"
#include "betree.c"
#include "utils.c"
#include "value.c"
static struct ast_node N, L, R; static betree_var_t V; static int64_t XI; static double XF; static size_t XS;
/* AFF: an operator is applied to V; HAS[inverted]: the value X is one the expression needs of V */
static bool AFFN, AFFL, AFFR, HN0, HN1, HL0, HL1, HR0, HR1;
#define AFF(n) ((n) == &N ? AFFN : (n) == &L ? AFFL : AFFR)
#define HAS(n, inv) ((n) == &N ? ((inv) ? HN1 : HN0) : (n) == &L ? ((inv) ? HL1 : HL0) : ((inv) ? HR1 : HR0))
#define ICLASS(b) ((b)->value_type == BETREE_INTEGER || (b)->value_type == BETREE_INTEGER_LIST)
#define SCLASS(b) ((b)->value_type == BETREE_STRING || (b)->value_type == BETREE_STRING_LIST || (b)->value_type == BETREE_INTEGER_ENUM)
#define CLASS(b) (TY == BETREE_INTEGER ? ICLASS(b) : TY == BETREE_FLOAT ? (b)->value_type == BETREE_FLOAT && (b)->fmin == (b)->fmin && (b)->fmax == (b)->fmax : SCLASS(b))
#define COVERS(b) (TY == BETREE_INTEGER ? (b)->imin <= XI && XI <= (b)->imax : TY == BETREE_FLOAT ? (b)->fmin <= XF && XF <= (b)->fmax : (b)->smin <= XS && XS <= (b)->smax)
static bool gsvb(betree_var_t var, const struct ast_node* node, bool inverted, struct value_bound* bound)
__CPROVER_requires(var == V && (node == &N || node == &L || node == &R) && bound != NULL)
__CPROVER_ensures(__CPROVER_return_value == AFF(node))
__CPROVER_ensures(IMPLIES(__CPROVER_return_value, CLASS(bound)))
__CPROVER_ensures(IMPLIES(HAS(node, inverted), __CPROVER_return_value && COVERS(bound)))
__CPROVER_assigns(*bound);
#define F(x) { typeof(x) v_; x = v_; }
#define B(x) { bool v_; x = v_ ? true : false; }
int main()
{
    { betree_var_t v; V = v; ASSUME(v != INVALID_VAR); int64_t x; XI = x; double f; ASSUME(__CPROVER_isfinited(f)); XF = f; size_t s; XS = s; }
    B(AFFL) B(AFFR) B(HL0) B(HL1) B(HR0) B(HR1) ASSUME(IMPLIES(HL0 || HL1, AFFL) && IMPLIES(HR0 || HR1, AFFR));
    N.type = K; AFFN = HN0 = HN1 = false;
    struct betree_integer_list il; struct betree_string_list sl; size_t n; ASSUME(n > 0 && n < ((size_t)1 << 40)); il.count = n; sl.count = n; il.integers = malloc(n * sizeof(int64_t)); sl.strings = malloc(n * sizeof(struct string_value));
    int o; betree_var_t w; bool mine = w == V;
    switch(K) {
        case AST_TYPE_BOOL_EXPR: ASSUME(o >= 0 && o <= AST_BOOL_LITERAL); N.bool_expr.op = o;
            if(o == AST_BOOL_AND) { N.bool_expr.binary.lhs = &L; N.bool_expr.binary.rhs = &R; AFFN = AFFL || AFFR; HN0 = HL0 || HR0; HN1 = HL1 || HR1; }
            if(o == AST_BOOL_OR) { N.bool_expr.binary.lhs = &L; N.bool_expr.binary.rhs = &R; AFFN = AFFL || AFFR; HN0 = HL0 || HR0; HN1 = HL1 || HR1; }
            if(o == AST_BOOL_NOT) { N.bool_expr.unary.expr = &L; AFFN = AFFL; HN0 = HL1; HN1 = HL0; }
            if(o == AST_BOOL_VARIABLE) { N.bool_expr.variable.var = w; ASSUME(!mine); } /* boolean variables have no limits to change */
            if(o == AST_BOOL_LITERAL) B(N.bool_expr.literal)
            break;
        case AST_TYPE_COMPARE_EXPR: ASSUME(o >= 0 && o <= AST_COMPARE_GE); N.compare_expr.op = o; N.compare_expr.attr_var.var = w;
            if(TY == BETREE_INTEGER) { int64_t c; N.compare_expr.value.value_type = AST_COMPARE_VALUE_INTEGER; N.compare_expr.value.integer_value = c;
                int64_t below = c == INT64_MIN ? c : c - 1, above = c == INT64_MAX ? c : c + 1;
                HN0 = mine && XI == (o == AST_COMPARE_LT ? below : o == AST_COMPARE_GT ? above : c); HN1 = mine && XI == (o == AST_COMPARE_LE ? above : o == AST_COMPARE_GE ? below : c); }
            else { double c; ASSUME(__CPROVER_isfinited(c)); N.compare_expr.value.value_type = AST_COMPARE_VALUE_FLOAT; N.compare_expr.value.float_value = c;
                HN0 = mine && XF == (o == AST_COMPARE_LT ? c - EPS : o == AST_COMPARE_GT ? c + EPS : c); HN1 = mine && XF == (o == AST_COMPARE_LE ? c + EPS : o == AST_COMPARE_GE ? c - EPS : c); }
            AFFN = mine; break;
        case AST_TYPE_EQUALITY_EXPR: ASSUME(o == AST_EQUALITY_EQ || o == AST_EQUALITY_NE); N.equality_expr.op = o; N.equality_expr.attr_var.var = w; AFFN = mine;
            if(TY == BETREE_INTEGER) { int64_t c; N.equality_expr.value.value_type = AST_EQUALITY_VALUE_INTEGER; N.equality_expr.value.integer_value = c; HN0 = HN1 = mine && XI == c; }
            else if(TY == BETREE_FLOAT) { double c; ASSUME(__CPROVER_isfinited(c)); N.equality_expr.value.value_type = AST_EQUALITY_VALUE_FLOAT; N.equality_expr.value.float_value = c; HN0 = HN1 = mine && XF == c; }
            else { bool e; uint64_t c; HN0 = HN1 = mine && XS == c;
                if(e) { N.equality_expr.value.value_type = AST_EQUALITY_VALUE_STRING; N.equality_expr.value.string_value.str = c; }
                else { N.equality_expr.value.value_type = AST_EQUALITY_VALUE_INTEGER_ENUM; N.equality_expr.value.integer_enum_value.ienum = c; } }
            break;
        case AST_TYPE_SET_EXPR: { bool left; F(N.set_expr.op) AFFN = mine;
            if(left) { N.set_expr.left_value.value_type = AST_SET_LEFT_VALUE_VARIABLE; N.set_expr.left_value.variable_value.var = w;
                if(TY == BETREE_INTEGER) { N.set_expr.right_value.value_type = AST_SET_RIGHT_VALUE_INTEGER_LIST; N.set_expr.right_value.integer_list_value = &il; HN0 = HN1 = mine && il.integers[0] <= XI && XI <= il.integers[n - 1]; ASSUME(il.integers[0] <= il.integers[n - 1]); }
                else { N.set_expr.right_value.value_type = AST_SET_RIGHT_VALUE_STRING_LIST; N.set_expr.right_value.string_list_value = &sl; HN0 = HN1 = mine && sl.strings[0].str <= XS && XS <= sl.strings[n - 1].str; } }
            else { N.set_expr.right_value.value_type = AST_SET_RIGHT_VALUE_VARIABLE; N.set_expr.right_value.variable_value.var = w;
                if(TY == BETREE_INTEGER) { int64_t c; N.set_expr.left_value.value_type = AST_SET_LEFT_VALUE_INTEGER; N.set_expr.left_value.integer_value = c; HN0 = HN1 = mine && XI == c; }
                else { betree_str_t c; N.set_expr.left_value.value_type = AST_SET_LEFT_VALUE_STRING; N.set_expr.left_value.string_value.str = c; HN0 = HN1 = mine && XS == c; } }
            break; }
        case AST_TYPE_LIST_EXPR: F(N.list_expr.op) AFFN = mine; N.list_expr.attr_var.var = w;
            if(TY == BETREE_INTEGER) { N.list_expr.value.value_type = AST_LIST_VALUE_INTEGER_LIST; N.list_expr.value.integer_list_value = &il; HN0 = HN1 = mine && il.integers[0] <= XI && XI <= il.integers[n - 1]; }
            else { N.list_expr.value.value_type = AST_LIST_VALUE_STRING_LIST; N.list_expr.value.string_list_value = &sl; HN0 = HN1 = mine && sl.strings[0].str <= XS && XS <= sl.strings[n - 1].str; }
            break;
        case AST_TYPE_SPECIAL_EXPR: ASSUME(o >= 0 && o <= AST_SPECIAL_STRING); N.special_expr.type = o; break;
        case AST_TYPE_IS_NULL_EXPR: F(N.is_null_expr.type) N.is_null_expr.attr_var.var = w; break;
    }
    struct value_bound b; bool i2, inv = i2 ? true : false;
    get_simple_variable_bound(V, &N, inv, &b);
    REACH();
}
