//@ what an expression is accepted only when the type of every variable it uses fits its operator and constant (and, building a subscription directly, null tests are on variables that can be undefined and emptiness tests on lists), by structural induction
//@ props C07
//@ enforce_rec exprs_valid/typed
//@ functions get_var_type is_list_type all_exprs_valid all_types_valid
//@ cbmc --unwind 6
//@ variant types -DTYPES_ONLY=1
//@ variant all -DTYPES_ONLY=0
//@ assume typed: the variables of the expression are declared (all_variables_in_config accepted it, unit declared)
#include "spec.h"
#include "ast.c"
static struct ast_node N, L, R; static bool OKN, OKL, OKR;
#define OK(n) ((n) == &N ? OKN : (n) == &L ? OKL : OKR)
bool typed(const struct config* config, const struct ast_node* node, bool types_only)
__CPROVER_requires(node == &N || node == &L || node == &R)
__CPROVER_requires(types_only == TYPES_ONLY)
__CPROVER_ensures(__CPROVER_return_value == OK(node))
__CPROVER_assigns();
#include "shape.h"
#define COUNT ((size_t)1 << 32)
static struct attr_domain DA, DB;
static bool of_type(const struct attr_domain* d, enum betree_value_type_e t) { return d->bound.value_type == t; }
static bool fits(const struct attr_domain* a, const struct attr_domain* b)
{
    switch(N.type) {
        case AST_TYPE_COMPARE_EXPR: return of_type(a, N.compare_expr.value.value_type == AST_COMPARE_VALUE_INTEGER ? BETREE_INTEGER : BETREE_FLOAT);
        case AST_TYPE_EQUALITY_EXPR: { int t = N.equality_expr.value.value_type; return of_type(a, t == AST_EQUALITY_VALUE_INTEGER ? BETREE_INTEGER : t == AST_EQUALITY_VALUE_FLOAT ? BETREE_FLOAT : t == AST_EQUALITY_VALUE_STRING ? BETREE_STRING : BETREE_INTEGER_ENUM); }
        case AST_TYPE_BOOL_EXPR: return of_type(a, BETREE_BOOLEAN);
        case AST_TYPE_SET_EXPR:
            if(N.set_expr.left_value.value_type == AST_SET_LEFT_VALUE_VARIABLE) return of_type(a, N.set_expr.right_value.value_type == AST_SET_RIGHT_VALUE_INTEGER_LIST ? BETREE_INTEGER : BETREE_STRING);
            return of_type(a, N.set_expr.left_value.value_type == AST_SET_LEFT_VALUE_INTEGER ? BETREE_INTEGER_LIST : BETREE_STRING_LIST);
        case AST_TYPE_LIST_EXPR: return of_type(a, N.list_expr.value.value_type == AST_LIST_VALUE_INTEGER_LIST ? BETREE_INTEGER_LIST : BETREE_STRING_LIST);
        case AST_TYPE_SPECIAL_EXPR: switch(N.special_expr.type) {
            case AST_SPECIAL_FREQUENCY: return N.special_expr.frequency.type != FREQUENCY_TYPE_INVALID && of_type(a, BETREE_FREQUENCY_CAPS) && of_type(b, BETREE_INTEGER);
            case AST_SPECIAL_SEGMENT: return of_type(a, BETREE_SEGMENTS) && of_type(b, BETREE_INTEGER);
            case AST_SPECIAL_GEO: return of_type(a, BETREE_FLOAT) && of_type(b, BETREE_FLOAT);
            default: return of_type(a, BETREE_STRING);
        }
        default: return TYPES_ONLY || (N.is_null_expr.type == AST_IS_EMPTY ? of_type(a, BETREE_INTEGER_LIST) || of_type(a, BETREE_STRING_LIST) : a->allow_undefined);
    }
}
int main()
{
    OKL = any(); OKR = any();
    struct config c; size_t n; ASSUME(n <= COUNT); c.attr_domain_count = n; struct attr_domain** DOMAINS = malloc(n * sizeof(*DOMAINS)); c.attr_domains = DOMAINS;
    struct attr_var a, b; ASSUME(a.var < n && b.var < n);
    struct attr_domain da, db; DA = da; DB = db; DA.allow_undefined = any(); DB.allow_undefined = any();
    int ta, tb; ASSUME(ta >= BETREE_BOOLEAN && ta <= BETREE_INTEGER_ENUM && tb >= BETREE_BOOLEAN && tb <= BETREE_INTEGER_ENUM); DA.bound.value_type = ta; DB.bound.value_type = tb;
    DOMAINS[b.var] = &DB; DOMAINS[a.var] = &DA;
    shape(a, b);
    OKN = USES == NEITHER ? !BROKEN_SET : USES == BELOW_ONE ? OKL : USES == BELOW_BOTH ? OKL && OKR : fits(&DA, DOMAINS[b.var]);
    bool r = TYPES_ONLY ? all_types_valid(&c, &N) : all_exprs_valid(&c, &N);
    ASSERT(r == OKN, "accepted exactly when the types fit");
    REACH();
}
