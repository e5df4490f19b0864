//@ what an expression is refused exactly when a string or a list of strings it compares a string variable with does not fit its dictionary, by structural induction
//@ props C07
//@ enforce_rec all_bounded_strings_valid/fits
//@ replace str_valid/one strs_valid/many
//@ cbmc --unwind 6
//@ assume strings_fit: whether a string or a list fits is as units string_fits and list_fits prove
#include "spec.h"
#include "ast.c"
static struct ast_node N, L, R; static bool OKN, OKL, OKR, ONE_FITS, ALL_FIT; static struct betree_string_list SL; static const struct config* CONF; static const char *ATTR, *NAME;
#define OK(n) ((n) == &N ? OKN : (n) == &L ? OKL : OKR)
bool fits(const struct config* config, const struct ast_node* node)
__CPROVER_requires(config == CONF && (node == &N || node == &L || node == &R))
__CPROVER_ensures(__CPROVER_return_value == OK(node))
__CPROVER_assigns();
bool one(const struct config* config, const char* attr, const char* string)
__CPROVER_requires(config == CONF && attr == ATTR && string == NAME)
__CPROVER_ensures(__CPROVER_return_value == ONE_FITS)
__CPROVER_assigns();
bool many(const struct config* config, const char* attr, const struct betree_string_list* strings)
__CPROVER_requires(config == CONF && attr == ATTR && strings == &SL)
__CPROVER_ensures(__CPROVER_return_value == ALL_FIT)
__CPROVER_assigns();
#include "shape.h"
int main()
{
    OKL = any(); OKR = any(); ONE_FITS = any(); ALL_FIT = any(); struct config c; CONF = &c; static char t, n; ATTR = &t; NAME = &n;
    struct attr_var a, b; a.attr = ATTR; shape(a, b); ASSUME(!BROKEN_SET);
    OKN = USES == BELOW_ONE ? OKL : USES == BELOW_BOTH ? OKL && OKR : true;
    if(N.type == AST_TYPE_EQUALITY_EXPR && N.equality_expr.value.value_type == AST_EQUALITY_VALUE_STRING) { N.equality_expr.value.string_value.string = NAME; OKN = ONE_FITS; }
    if(N.type == AST_TYPE_SET_EXPR) {
        if(N.set_expr.left_value.value_type == AST_SET_LEFT_VALUE_STRING) { N.set_expr.left_value.string_value.string = NAME; OKN = ONE_FITS; }
        if(N.set_expr.right_value.value_type == AST_SET_RIGHT_VALUE_STRING_LIST) OKN = ALL_FIT;
    }
    if(N.type == AST_TYPE_LIST_EXPR && N.list_expr.value.value_type == AST_LIST_VALUE_STRING_LIST) OKN = ALL_FIT;
    ASSERT(all_bounded_strings_valid(&c, &N) == OKN, "refused exactly when one does not fit");
    REACH();
}
