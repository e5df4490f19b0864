//@ what two expressions are equal exactly when kind, operator, variable, constants (floats within epsilon) and parts are, by structural induction; reflexive and symmetric
//@ props C12
//@ enforce_rec eq_expr
//@ replace feq eq_integer_list/eq_il eq_string_list/eq_sl
//@ functions eq_compare_value eq_equality_value eq_bool_expr eq_set_left_value eq_set_right_value eq_set_expr eq_list_value eq_list_expr eq_special_expr
//@ cbmc --unwind 6 --object-bits 12
//@ assume eq: floats are finite and feq is as unit feq proves; lists are equal as unit cmp_list proves; strcmp gives zero exactly on equal texts; strings and enum values carry the variable they belong to
//@ variant any -DK=99
//@ variant and -DK=AST_TYPE_BOOL_EXPR -DOP=AST_BOOL_AND
//@ variant or -DK=AST_TYPE_BOOL_EXPR -DOP=AST_BOOL_OR
//@ variant not -DK=AST_TYPE_BOOL_EXPR -DOP=AST_BOOL_NOT
//@ variant is_null -DK=AST_TYPE_IS_NULL_EXPR
//@ variant compare -DK=AST_TYPE_COMPARE_EXPR
//@ variant equality -DK=AST_TYPE_EQUALITY_EXPR
//@ variant set -DK=AST_TYPE_SET_EXPR
//@ variant list -DK=AST_TYPE_LIST_EXPR
//@ variant special -DK=AST_TYPE_SPECIAL_EXPR
#include "spec.h"
#include "utils.h"
#ifndef OP
#define OP AST_BOOL_LITERAL
#endif
static struct betree_integer_list IL0, IL1; static struct betree_string_list SL0, SL1; static char P0[2], P1[2]; static struct ast_node N0, N1, L0, L1, R0, R1;
static bool EQI, EQS, EQP, EQL, EQR, SAME;
static int model_strcmp(const char* a, const char* b) { int r; if(a == b || EQP) return 0; ASSUME(r != 0); return r; }
#define strcmp model_strcmp
#define PAIR(a, b, x, y) (((a) == (x) && (b) == (y)) || ((a) == (y) && (b) == (x)))
bool eq_expr(const struct ast_node* a, const struct ast_node* b)
__CPROVER_requires(a != NULL && b != NULL && (a == b || PAIR(a, b, &N0, &N1) || PAIR(a, b, &L0, &L1) || PAIR(a, b, &R0, &R1)))
__CPROVER_ensures(__CPROVER_return_value == (a == b ? 1 : PAIR(a, b, &N0, &N1) ? SAME : PAIR(a, b, &L0, &L1) ? EQL : EQR))
__CPROVER_assigns();
__CPROVER_bool __CPROVER_uninterpreted_close(double, double);
#define CLOSE(a, b) ((a) == (b) || ((a) < (b) ? __CPROVER_uninterpreted_close(a, b) : __CPROVER_uninterpreted_close(b, a)))
bool feq(double a, double b)
__CPROVER_requires(1)
__CPROVER_ensures(__CPROVER_return_value == CLOSE(a, b)) __CPROVER_assigns();
#include "utils.c"
#include "value.c"
#include "ast.c"
static bool eq_il(struct betree_integer_list* a, struct betree_integer_list* b)
__CPROVER_requires(a != NULL && b != NULL)
__CPROVER_ensures(__CPROVER_return_value == (a == b || EQI)) __CPROVER_assigns();
static bool eq_sl(struct betree_string_list* a, struct betree_string_list* b)
__CPROVER_requires(a != NULL && b != NULL)
__CPROVER_ensures(__CPROVER_return_value == (a == b || EQS)) __CPROVER_assigns();
#define F(x) { typeof(x) v_; x = v_; }
#define B(x) { bool v_; x = v_ ? true : false; }
#define D(x) { double v_; ASSUME(__CPROVER_isfinited(v_)); x = v_; }
#define FILL(n, i) \
    if(K != 99) n.type = K; else { int t; n.type = t; } F(n.global_id) \
    switch(n.type) { \
        case AST_TYPE_COMPARE_EXPR: { F(n.compare_expr.op) F(n.compare_expr.attr_var.var) int vt; ASSUME(vt >= 0 && vt <= AST_COMPARE_VALUE_FLOAT); n.compare_expr.value.value_type = vt; \
            if(vt == AST_COMPARE_VALUE_INTEGER) F(n.compare_expr.value.integer_value) else D(n.compare_expr.value.float_value) break; } \
        case AST_TYPE_EQUALITY_EXPR: { F(n.equality_expr.op) F(n.equality_expr.attr_var.var) int vt; ASSUME(vt >= 0 && vt <= AST_EQUALITY_VALUE_INTEGER_ENUM); n.equality_expr.value.value_type = vt; \
            if(vt == AST_EQUALITY_VALUE_INTEGER) F(n.equality_expr.value.integer_value) else if(vt == AST_EQUALITY_VALUE_FLOAT) D(n.equality_expr.value.float_value) \
            else if(vt == AST_EQUALITY_VALUE_STRING) { F(n.equality_expr.value.string_value.str) n.equality_expr.value.string_value.var = n.equality_expr.attr_var.var; } else { F(n.equality_expr.value.integer_enum_value.ienum) n.equality_expr.value.integer_enum_value.var = n.equality_expr.attr_var.var; } break; } \
        case AST_TYPE_BOOL_EXPR: \
            if(OP == AST_BOOL_NOT) { n.bool_expr.op = OP; n.bool_expr.unary.expr = &L##i; } \
            else if(OP == AST_BOOL_AND || OP == AST_BOOL_OR) { n.bool_expr.op = OP; n.bool_expr.binary.lhs = &L##i; n.bool_expr.binary.rhs = &R##i; } \
            else { int o; ASSUME(o == AST_BOOL_VARIABLE || o == AST_BOOL_LITERAL); n.bool_expr.op = o; F(n.bool_expr.variable.var) if(o == AST_BOOL_LITERAL) B(n.bool_expr.literal) } break; \
        case AST_TYPE_SET_EXPR: { F(n.set_expr.op) int l, r; ASSUME(l >= 0 && l <= AST_SET_LEFT_VALUE_VARIABLE); ASSUME(r >= 0 && r <= AST_SET_RIGHT_VALUE_VARIABLE); n.set_expr.left_value.value_type = l; n.set_expr.right_value.value_type = r; \
            if(l == AST_SET_LEFT_VALUE_INTEGER) F(n.set_expr.left_value.integer_value) else if(l == AST_SET_LEFT_VALUE_STRING) { F(n.set_expr.left_value.string_value.str) F(n.set_expr.left_value.string_value.var) } else F(n.set_expr.left_value.variable_value.var) \
            if(r == AST_SET_RIGHT_VALUE_INTEGER_LIST) n.set_expr.right_value.integer_list_value = &IL##i; else if(r == AST_SET_RIGHT_VALUE_STRING_LIST) n.set_expr.right_value.string_list_value = &SL##i; else F(n.set_expr.right_value.variable_value.var) break; } \
        case AST_TYPE_LIST_EXPR: { F(n.list_expr.op) F(n.list_expr.attr_var.var) int vt; ASSUME(vt >= 0 && vt <= AST_LIST_VALUE_STRING_LIST); n.list_expr.value.value_type = vt; \
            if(vt == AST_LIST_VALUE_INTEGER_LIST) n.list_expr.value.integer_list_value = &IL##i; else n.list_expr.value.string_list_value = &SL##i; break; } \
        case AST_TYPE_SPECIAL_EXPR: { int vt; ASSUME(vt >= 0 && vt <= AST_SPECIAL_STRING); n.special_expr.type = vt; \
            if(vt == AST_SPECIAL_FREQUENCY) { F(n.special_expr.frequency.op) F(n.special_expr.frequency.attr_var.var) F(n.special_expr.frequency.type) F(n.special_expr.frequency.ns.str) n.special_expr.frequency.ns.var = n.special_expr.frequency.attr_var.var; F(n.special_expr.frequency.value) F(n.special_expr.frequency.length) F(n.special_expr.frequency.id) } \
            else if(vt == AST_SPECIAL_SEGMENT) { F(n.special_expr.segment.op) B(n.special_expr.segment.has_variable) F(n.special_expr.segment.attr_var.var) F(n.special_expr.segment.segment_id) F(n.special_expr.segment.seconds) } \
            else if(vt == AST_SPECIAL_GEO) { F(n.special_expr.geo.op) B(n.special_expr.geo.has_radius) D(n.special_expr.geo.latitude) D(n.special_expr.geo.longitude) D(n.special_expr.geo.radius) } \
            else { F(n.special_expr.string.op) F(n.special_expr.string.attr_var.var) n.special_expr.string.pattern = P##i; } break; } \
        case AST_TYPE_IS_NULL_EXPR: F(n.is_null_expr.type) F(n.is_null_expr.attr_var.var) break; \
        default: ASSUME(0); \
    }
#define E(x) (N0.x == N1.x)
#define FE(x) CLOSE(N0.x, N1.x)
static bool same(void)
{
    if(!E(type)) return false;
    switch(N0.type) {
        case AST_TYPE_COMPARE_EXPR: return E(compare_expr.op) && E(compare_expr.attr_var.var) && E(compare_expr.value.value_type) && (N0.compare_expr.value.value_type == AST_COMPARE_VALUE_INTEGER ? E(compare_expr.value.integer_value) : FE(compare_expr.value.float_value));
        case AST_TYPE_EQUALITY_EXPR: { int t = N0.equality_expr.value.value_type; return E(equality_expr.op) && E(equality_expr.attr_var.var) && E(equality_expr.value.value_type) && (t == AST_EQUALITY_VALUE_INTEGER ? E(equality_expr.value.integer_value) : t == AST_EQUALITY_VALUE_FLOAT ? FE(equality_expr.value.float_value) : t == AST_EQUALITY_VALUE_STRING ? E(equality_expr.value.string_value.str) : E(equality_expr.value.integer_enum_value.ienum)); }
        case AST_TYPE_BOOL_EXPR: { int o = N0.bool_expr.op; return E(bool_expr.op) && (o == AST_BOOL_LITERAL ? E(bool_expr.literal) : o == AST_BOOL_VARIABLE ? E(bool_expr.variable.var) : EQL && (o == AST_BOOL_NOT || EQR)); }
        case AST_TYPE_SET_EXPR: { int l = N0.set_expr.left_value.value_type, r = N0.set_expr.right_value.value_type; return E(set_expr.op) && E(set_expr.left_value.value_type) && E(set_expr.right_value.value_type)
            && (l == AST_SET_LEFT_VALUE_INTEGER ? E(set_expr.left_value.integer_value) : l == AST_SET_LEFT_VALUE_STRING ? E(set_expr.left_value.string_value.str) && E(set_expr.left_value.string_value.var) : E(set_expr.left_value.variable_value.var))
            && (r == AST_SET_RIGHT_VALUE_INTEGER_LIST ? EQI : r == AST_SET_RIGHT_VALUE_STRING_LIST ? EQS : E(set_expr.right_value.variable_value.var)); }
        case AST_TYPE_LIST_EXPR: return E(list_expr.op) && E(list_expr.attr_var.var) && E(list_expr.value.value_type) && (N0.list_expr.value.value_type == AST_LIST_VALUE_INTEGER_LIST ? EQI : EQS);
        case AST_TYPE_SPECIAL_EXPR: { int t = N0.special_expr.type; if(!E(special_expr.type)) return false;
            if(t == AST_SPECIAL_FREQUENCY) return E(special_expr.frequency.op) && E(special_expr.frequency.attr_var.var) && E(special_expr.frequency.type) && E(special_expr.frequency.ns.str) && E(special_expr.frequency.value) && E(special_expr.frequency.length) && E(special_expr.frequency.id);
            if(t == AST_SPECIAL_SEGMENT) return E(special_expr.segment.op) && E(special_expr.segment.has_variable) && E(special_expr.segment.attr_var.var) && E(special_expr.segment.segment_id) && E(special_expr.segment.seconds);
            if(t == AST_SPECIAL_GEO) return E(special_expr.geo.op) && E(special_expr.geo.has_radius) && FE(special_expr.geo.latitude) && FE(special_expr.geo.longitude) && FE(special_expr.geo.radius);
            return E(special_expr.string.op) && E(special_expr.string.attr_var.var) && EQP; }
        default: return E(is_null_expr.type) && E(is_null_expr.attr_var.var);
    }
}
int main()
{
    B(EQI) B(EQS) B(EQP) B(EQL) B(EQR)
    { betree_pred_t a, b, c, d; L0.global_id = a; L1.global_id = b; R0.global_id = c; R1.global_id = d; }
    FILL(N0, 0)
    FILL(N1, 1)
    if(K == 99) ASSUME(N0.type != N1.type); /* the same kinds are the other variants */
    SAME = same();
    bool w; 
    struct ast_node *x = w ? &N0 : &N1; bool v; struct ast_node *y = v ? &N0 : &N1;
    eq_expr(x, y);
    REACH();
}
