//@ what the fast equality of connectives whose operands have ids compares operator and operands, that of other expressions their ids; reflexive and symmetric
//@ props C12
//@ functions fast_eq_expr
//@ nodfcc
//@ assume fast_eq: expressions have the ids the map gave them (unit sharing)
//@ variant k11 -DGA=1 -DGB=1
//@ variant k12 -DGA=1 -DGB=2
//@ variant k13 -DGA=1 -DGB=3
//@ variant k21 -DGA=2 -DGB=1
//@ variant k22 -DGA=2 -DGB=2
//@ variant k23 -DGA=2 -DGB=3
//@ variant k31 -DGA=3 -DGB=1
//@ variant k32 -DGA=3 -DGB=2
//@ variant k33 -DGA=3 -DGB=3
#include "spec.h"
#include "utils.c"
#include "value.c"
#include "ast.c"
/* an expression with the layout of struct ast_node, of a kind known to be boolean */
struct bnode { betree_pred_t global_id, memoize_id; enum ast_node_type_e type; struct ast_bool_expr bool_expr; char pad[sizeof(struct ast_node)]; };
static struct ast_node C0, C1, C2, C3; static struct bnode N0, N1;
#define FILL(n, g, c, d) { int t, o; betree_pred_t id, i1, i2; n.type = t; n.global_id = id; c.global_id = i1; d.global_id = i2; ASSUME(t >= 0 && t <= AST_TYPE_IS_NULL_EXPR); n.bool_expr.op = o; \
    if(g == 3) ASSUME(t != AST_TYPE_BOOL_EXPR || (o > AST_BOOL_NOT && o <= AST_BOOL_LITERAL)); else if(g == 2) { ASSUME(t == AST_TYPE_BOOL_EXPR && o == AST_BOOL_NOT); n.bool_expr.unary.expr = &c; } \
    else { ASSUME(t == AST_TYPE_BOOL_EXPR && (o == AST_BOOL_AND || o == AST_BOOL_OR)); n.bool_expr.binary.lhs = &c; n.bool_expr.binary.rhs = &d; } }
int main()
{
    FILL(N0, GA, C0, C1) FILL(N1, GB, C2, C3)
    const struct ast_node *a = (const struct ast_node*)&N0, *b = (const struct ast_node*)&N1;
    bool r = fast_eq_expr(a, b);
    ASSERT(r == fast_eq_expr(b, a) && fast_eq_expr(a, a), "symmetric and reflexive");
    if(GA != GB) ASSERT(!r || (GA == 3 && GB == 3), "expressions of different kinds are not equal");
    else if(GA == 3) ASSERT(IMPLIES(r, N0.type == N1.type && N0.global_id == N1.global_id), "the ids decide");
    else ASSERT(r == (N0.bool_expr.op == N1.bool_expr.op && C0.global_id == C2.global_id && (GA == 2 || C1.global_id == C3.global_id)), "operator and operands decide");
    REACH();
}
