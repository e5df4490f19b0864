//@ what an expression is accepted only when every variable it uses is declared, by structural induction
//@ props C07
//@ enforce_rec all_variables_in_config/declared
//@ functions is_variable_valid
//@ cbmc --unwind 6
#include "spec.h"
#include "ast.c"
static struct ast_node N, L, R; static bool OKN, OKL, OKR;
#define OK(n) ((n) == &N ? OKN : (n) == &L ? OKL : OKR)
bool declared(const struct config* config, const struct ast_node* node)
__CPROVER_requires(node == &N || node == &L || node == &R)
__CPROVER_ensures(__CPROVER_return_value == OK(node))
__CPROVER_assigns();
#include "shape.h"
int main()
{
    OKL = any(); OKR = any();
    struct attr_var a, b; shape(a, b);
    bool da = a.var != INVALID_VAR, db = b.var != INVALID_VAR;
    OKN = USES == NEITHER ? !BROKEN_SET : USES == ONE ? da : USES == TWO ? da && db : USES == BELOW_ONE ? OKL : OKL && OKR;
    const struct config* c;
    bool r = all_variables_in_config(c, &N);
    ASSERT(r == OKN, "accepted exactly when the variables are declared");
    REACH();
}
