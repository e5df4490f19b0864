//@ what what an undefined variable alone decides of an expression agrees with its truth value, by structural induction
//@ props C03
//@ enforce_rec short_circuit_for_node
//@ functions short_circuit_for_attr_var short_circuit_and short_circuit_or short_circuit_combine
//@ assume sc_node: an atomic predicate on an undefined variable is false, null tests ask about it (proved in unit eval)
//@ cbmc --unwind 6
//@ variant bool -DK=AST_TYPE_BOOL_EXPR
//@ variant is_null -DK=AST_TYPE_IS_NULL_EXPR
//@ variant compare -DK=AST_TYPE_COMPARE_EXPR
//@ variant equality -DK=AST_TYPE_EQUALITY_EXPR
//@ variant set -DK=AST_TYPE_SET_EXPR
//@ variant list -DK=AST_TYPE_LIST_EXPR
//@ variant special -DK=AST_TYPE_SPECIAL_EXPR
#include "spec.h"
__CPROVER_bool __CPROVER_uninterpreted_sem(const struct ast_node* n);
__CPROVER_bool __CPROVER_uninterpreted_undef(betree_var_t v); /* the event leaves v undefined */
enum short_circuit_e;
static enum short_circuit_e short_circuit_for_node(betree_var_t id, bool inverted, const struct ast_node* node)
__CPROVER_requires(node != NULL && __CPROVER_uninterpreted_undef(id))
__CPROVER_ensures(__CPROVER_return_value == 0 || __CPROVER_return_value == 1 || __CPROVER_return_value == 2)
/* PASS: the node (its negation when inverted) is true on every event that leaves id undefined */
__CPROVER_ensures(IMPLIES(__CPROVER_return_value == 0, __CPROVER_uninterpreted_sem(node) == !inverted))
__CPROVER_ensures(IMPLIES(__CPROVER_return_value == 1, __CPROVER_uninterpreted_sem(node) == (inverted != 0)))
__CPROVER_assigns();
#include "tree.c"
int main()
{
    struct ast_node n, l, r; betree_var_t id; bool inv_; bool inv = inv_ ? true : false;
    ASSUME(n.type == K); ASSUME(__CPROVER_uninterpreted_undef(id));
    betree_var_t v1, v2; bool both = false, any = true, isnull = false, hasvar = true;
    /* the variables of the node are arbitrary; those it reads */
    betree_var_t a = v1, b = v1;
    switch(n.type) {
        case AST_TYPE_BOOL_EXPR:
            ASSUME(n.bool_expr.op >= AST_BOOL_OR && n.bool_expr.op <= AST_BOOL_LITERAL);
            hasvar = false;
            switch(n.bool_expr.op) {
                case AST_BOOL_AND: n.bool_expr.binary.lhs = &l; n.bool_expr.binary.rhs = &r; ASSUME(__CPROVER_uninterpreted_sem(&n) == (__CPROVER_uninterpreted_sem(&l) && __CPROVER_uninterpreted_sem(&r))); break;
                case AST_BOOL_OR: n.bool_expr.binary.lhs = &l; n.bool_expr.binary.rhs = &r; ASSUME(__CPROVER_uninterpreted_sem(&n) == (__CPROVER_uninterpreted_sem(&l) || __CPROVER_uninterpreted_sem(&r))); break;
                case AST_BOOL_NOT: n.bool_expr.unary.expr = &l; ASSUME(__CPROVER_uninterpreted_sem(&n) == !__CPROVER_uninterpreted_sem(&l)); break;
                case AST_BOOL_VARIABLE: n.bool_expr.variable.var = v1; hasvar = true; break;
                case AST_BOOL_LITERAL: { bool lit; n.bool_expr.literal = lit ? true : false; ASSUME(__CPROVER_uninterpreted_sem(&n) == n.bool_expr.literal); break; }
            }
            break;
        case AST_TYPE_IS_NULL_EXPR: n.is_null_expr.attr_var.var = v1; ASSUME(n.is_null_expr.type >= AST_IS_NULL && n.is_null_expr.type <= AST_IS_EMPTY);
            if(n.is_null_expr.type == AST_IS_NULL) { hasvar = false; ASSUME(IMPLIES(__CPROVER_uninterpreted_undef(v1), __CPROVER_uninterpreted_sem(&n))); }
            break;
        case AST_TYPE_COMPARE_EXPR: n.compare_expr.attr_var.var = v1; break;
        case AST_TYPE_EQUALITY_EXPR: n.equality_expr.attr_var.var = v1; break;
        case AST_TYPE_LIST_EXPR: n.list_expr.attr_var.var = v1; break;
        case AST_TYPE_SET_EXPR: { bool left; betree_var_t noise;
            if(left) { n.set_expr.left_value.value_type = AST_SET_LEFT_VALUE_VARIABLE; n.set_expr.left_value.variable_value.var = v1; ASSUME(n.set_expr.right_value.value_type <= AST_SET_RIGHT_VALUE_STRING_LIST); }
            else { n.set_expr.right_value.value_type = AST_SET_RIGHT_VALUE_VARIABLE; n.set_expr.right_value.variable_value.var = v1; ASSUME(n.set_expr.left_value.value_type <= AST_SET_LEFT_VALUE_STRING); }
            break; }
        case AST_TYPE_SPECIAL_EXPR:
            ASSUME(n.special_expr.type >= AST_SPECIAL_FREQUENCY && n.special_expr.type <= AST_SPECIAL_STRING);
            switch(n.special_expr.type) {
                case AST_SPECIAL_FREQUENCY: n.special_expr.frequency.attr_var.var = v1; n.special_expr.frequency.now.var = v2; b = v2; break;
                case AST_SPECIAL_SEGMENT: n.special_expr.segment.attr_var.var = v1; n.special_expr.segment.now.var = v2; b = v2; break;
                case AST_SPECIAL_GEO: n.special_expr.geo.latitude_var.var = v1; n.special_expr.geo.longitude_var.var = v2; b = v2; break;
                case AST_SPECIAL_STRING: n.special_expr.string.attr_var.var = v1; break;
            }
            break;
    }
    if(hasvar) ASSUME(IMPLIES(__CPROVER_uninterpreted_undef(a) || __CPROVER_uninterpreted_undef(b), !__CPROVER_uninterpreted_sem(&n)));
    enum short_circuit_e res = short_circuit_for_node(id, inv, &n);
    ASSERT(IMPLIES(res == SHORT_CIRCUIT_PASS, __CPROVER_uninterpreted_sem(&n) == !inv), "a subscription passed because a variable is undefined is true");
    ASSERT(IMPLIES(res == SHORT_CIRCUIT_FAIL, __CPROVER_uninterpreted_sem(&n) == inv), "a subscription failed because a variable is undefined is false");
    REACH();
}
