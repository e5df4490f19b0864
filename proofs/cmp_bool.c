//@ what the order of boolean expressions is total: zero exactly on the same operator, variable, literal and operands, antisymmetric, transitive
//@ props C12 C04
//@ functions bool_expr_cmp
//@ cbmc --unwind 6
//@ nodfcc
//@ assume cmp_bool: operands of a connective are compared by the id the map gave them (unit sharing), which this unit takes as their identity
//@ variant k111 -DLEAF=111
//@ variant k112 -DLEAF=112
//@ variant k113 -DLEAF=113
//@ variant k121 -DLEAF=121
//@ variant k122 -DLEAF=122
//@ variant k123 -DLEAF=123
//@ variant k131 -DLEAF=131
//@ variant k132 -DLEAF=132
//@ variant k133 -DLEAF=133
//@ variant k211 -DLEAF=211
//@ variant k212 -DLEAF=212
//@ variant k213 -DLEAF=213
//@ variant k221 -DLEAF=221
//@ variant k222 -DLEAF=222
//@ variant k223 -DLEAF=223
//@ variant k231 -DLEAF=231
//@ variant k232 -DLEAF=232
//@ variant k233 -DLEAF=233
//@ variant k311 -DLEAF=311
//@ variant k312 -DLEAF=312
//@ variant k313 -DLEAF=313
//@ variant k321 -DLEAF=321
//@ variant k322 -DLEAF=322
//@ variant k323 -DLEAF=323
//@ variant k331 -DLEAF=331
//@ variant k332 -DLEAF=332
//@ variant k333 -DLEAF=333
#include "spec.h"
#include "ast_compare.c"
static struct ast_node C0, C1, C2, C3, C4, C5; static struct ast_bool_expr N0, N1, N2;
#define NP(i) ((i) == 0 ? &N0 : (i) == 1 ? &N1 : &N2)
#define CP(i) ((i) == 0 ? &C0 : (i) == 1 ? &C1 : (i) == 2 ? &C2 : (i) == 3 ? &C3 : (i) == 4 ? &C4 : &C5)
/* each digit of LEAF: the node is 1 a connective of two, 2 a negation, 3 a variable or literal */
static void fill(int i)
{
    struct ast_bool_expr* n = NP(i); int o; ASSUME(o >= 0 && o <= AST_BOOL_LITERAL); n->op = o;
    int g = i == 0 ? LEAF / 100 : i == 1 ? LEAF / 10 % 10 : LEAF % 10;
    if(g == 3) { ASSUME(o >= AST_BOOL_VARIABLE); betree_var_t v; bool b; n->variable.var = v; if(o == AST_BOOL_LITERAL) n->literal = b ? true : false; }
    else if(g == 2) { ASSUME(o == AST_BOOL_NOT); n->unary.expr = CP(2 * i); }
    else { ASSUME(o <= AST_BOOL_AND); n->binary.lhs = CP(2 * i); n->binary.rhs = CP(2 * i + 1); }
    betree_pred_t a, b; CP(2 * i)->global_id = a; CP(2 * i + 1)->global_id = b;
}
static bool same(int i, int j)
{
    struct ast_bool_expr *a = NP(i), *b = NP(j);
    if(a->op != b->op) return false;
    if(a->op == AST_BOOL_LITERAL) return a->literal == b->literal;
    if(a->op == AST_BOOL_VARIABLE) return a->variable.var == b->variable.var;
    return CP(2 * i)->global_id == CP(2 * j)->global_id && (a->op == AST_BOOL_NOT || CP(2 * i + 1)->global_id == CP(2 * j + 1)->global_id);
}
int main()
{
    fill(0); fill(1); fill(2);
    int ab = bool_expr_cmp(&N0, &N1), ba = bool_expr_cmp(&N1, &N0), bc = bool_expr_cmp(&N1, &N2), ac = bool_expr_cmp(&N0, &N2), aa = bool_expr_cmp(&N0, &N0);
    ASSERT((ab == 0) == same(0, 1), "zero exactly on expressions with the same parts");
    ASSERT(aa == 0, "an expression is equal to itself");
    ASSERT((ab < 0) == (ba > 0) && (ab == 0) == (ba == 0), "the order is antisymmetric");
    ASSERT(IMPLIES(ab <= 0 && bc <= 0, ac <= 0) && IMPLIES(ab <= 0 && bc <= 0 && (ab < 0 || bc < 0), ac < 0), "the order is transitive");
    REACH();
}
