//@ what whole numbers given for float variables become floats of that value, and nothing else of the expression changes, by structural induction
//@ props C07 C01
//@ enforce_rec fix_float_with_no_fractions/fixed
//@ cbmc --unwind 10
//@ assume floats: the variables of the expression are declared (unit declared)
#include "spec.h"
#include "betree.c"
static struct ast_node N, L, R, B; static bool DL, DR, DN; static struct attr_domain DA, DB;
#define FLOAT_DOMAIN (DA.bound.value_type == BETREE_FLOAT)
#define SAME_FLOAT(a, b) ((a) == (b))
static bool fixed_here(void)
{
    if(N.type != B.type) return false;
    if(N.type == AST_TYPE_COMPARE_EXPR) {
        if(N.compare_expr.op != B.compare_expr.op || N.compare_expr.attr_var.var != B.compare_expr.attr_var.var) return false;
        if(B.compare_expr.value.value_type == AST_COMPARE_VALUE_INTEGER)
            return FLOAT_DOMAIN ? N.compare_expr.value.value_type == AST_COMPARE_VALUE_FLOAT && N.compare_expr.value.float_value == (double)B.compare_expr.value.integer_value
                                : N.compare_expr.value.value_type == AST_COMPARE_VALUE_INTEGER && N.compare_expr.value.integer_value == B.compare_expr.value.integer_value;
        return N.compare_expr.value.value_type == AST_COMPARE_VALUE_FLOAT && N.compare_expr.value.float_value == B.compare_expr.value.float_value;
    }
    if(N.type == AST_TYPE_EQUALITY_EXPR) {
        if(N.equality_expr.op != B.equality_expr.op || N.equality_expr.attr_var.var != B.equality_expr.attr_var.var) return false;
        const struct equality_value *v = &N.equality_expr.value, *w = &B.equality_expr.value;
        if(w->value_type == AST_EQUALITY_VALUE_INTEGER)
            return FLOAT_DOMAIN ? v->value_type == AST_EQUALITY_VALUE_FLOAT && v->float_value == (double)w->integer_value : v->value_type == AST_EQUALITY_VALUE_INTEGER && v->integer_value == w->integer_value;
        if(v->value_type != w->value_type) return false;
        if(w->value_type == AST_EQUALITY_VALUE_FLOAT) return v->float_value == w->float_value;
        if(w->value_type == AST_EQUALITY_VALUE_STRING) return v->string_value.str == w->string_value.str && v->string_value.var == w->string_value.var && v->string_value.string == w->string_value.string;
        return v->integer_enum_value.ienum == w->integer_enum_value.ienum && v->integer_enum_value.integer == w->integer_enum_value.integer;
    }
    return true;
}
#define IS_NUMBER(n) ((n)->type == AST_TYPE_COMPARE_EXPR || (n)->type == AST_TYPE_EQUALITY_EXPR)
/* DL, DR: the children have been fixed */
void fixed(struct config* config, struct ast_node* node)
__CPROVER_requires(node == &N || node == &L || node == &R)
__CPROVER_ensures(IMPLIES(node == &L, DL && DR == __CPROVER_old(DR)) && IMPLIES(node == &R, DR && DL == __CPROVER_old(DL)))
__CPROVER_assigns(DL, DR)
__CPROVER_assigns(node == &N && node->type == AST_TYPE_COMPARE_EXPR: node->compare_expr.value.value_type, node->compare_expr.value.float_value)
__CPROVER_assigns(node == &N && node->type == AST_TYPE_EQUALITY_EXPR: node->equality_expr.value.value_type, node->equality_expr.value.float_value);
#include "shape.h"
int main()
{
    DL = DR = false;
    struct config c; size_t n; ASSUME(n <= (size_t)1 << 32); c.attr_domain_count = n; struct attr_domain** DOMAINS = malloc(n * sizeof(*DOMAINS)); c.attr_domains = DOMAINS;
    struct attr_var a, b; ASSUME(a.var < n && b.var < n);
    struct attr_domain da, db; DA = da; DB = db; int ta; ASSUME(ta >= BETREE_BOOLEAN && ta <= BETREE_INTEGER_ENUM); DA.bound.value_type = ta;
    DOMAINS[b.var] = &DB; DOMAINS[a.var] = &DA;
    shape(a, b); B = N;
    fix_float_with_no_fractions(&c, &N);
    ASSERT(fixed_here(), "whole numbers of float variables become floats and nothing else changes");
    ASSERT(IMPLIES(USES == BELOW_ONE || USES == BELOW_BOTH, DL) && IMPLIES(USES == BELOW_BOTH, DR), "everything below is visited");
    REACH();
}
