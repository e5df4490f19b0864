//@ what an expression is accepted exactly when all its strings and integer enums have an id, by structural induction; a list exactly when all its strings have one
//@ props C07 C08
//@ enforce_rec all_ids_assigned/assigned
//@ replace all_strs_assigned/strs
//@ cbmc --unwind 6
#include "spec.h"
#include "ast.c"
static struct ast_node N, L, R; static bool OKN, OKL, OKR, ALL; static struct betree_string_list SL;
#define OK(n) ((n) == &N ? OKN : (n) == &L ? OKL : OKR)
bool assigned(const struct ast_node* node)
__CPROVER_requires(node == &N || node == &L || node == &R)
__CPROVER_ensures(__CPROVER_return_value == OK(node))
__CPROVER_assigns();
/* unit ids_list */
bool strs(const struct betree_string_list* strings)
__CPROVER_requires(strings == &SL)
__CPROVER_ensures(__CPROVER_return_value == ALL)
__CPROVER_assigns();
#include "shape.h"
static bool has(betree_str_t s) { return s != INVALID_STR; }
int main()
{
    OKL = any(); OKR = any(); ALL = any();
    struct attr_var a, b; shape(a, b);
    if(USES == BELOW_ONE) OKN = OKL; else if(USES == BELOW_BOTH) OKN = OKL && OKR; else OKN = true;
    if(N.type == AST_TYPE_EQUALITY_EXPR) {
        if(N.equality_expr.value.value_type == AST_EQUALITY_VALUE_STRING) OKN = has(N.equality_expr.value.string_value.str);
        if(N.equality_expr.value.value_type == AST_EQUALITY_VALUE_INTEGER_ENUM) OKN = N.equality_expr.value.integer_enum_value.ienum != INVALID_IENUM;
    }
    if(N.type == AST_TYPE_SET_EXPR) {
        ASSUME(!BROKEN_SET);
        if(N.set_expr.left_value.value_type == AST_SET_LEFT_VALUE_STRING) OKN = has(N.set_expr.left_value.string_value.str);
        if(N.set_expr.right_value.value_type == AST_SET_RIGHT_VALUE_STRING_LIST) OKN = ALL;
    }
    if(N.type == AST_TYPE_LIST_EXPR && N.list_expr.value.value_type == AST_LIST_VALUE_STRING_LIST) OKN = ALL;
    if(N.type == AST_TYPE_SPECIAL_EXPR && N.special_expr.type == AST_SPECIAL_FREQUENCY) OKN = has(N.special_expr.frequency.ns.str);
    bool r = all_ids_assigned(&N);
    ASSERT(r == OKN, "accepted exactly when all have an id");
    REACH();
}
