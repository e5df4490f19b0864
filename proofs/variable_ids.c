//@ what every variable of an expression is given the id of the declared variable of its name, everything else is left alone and everything below is visited once, by structural induction
//@ props C07 C01
//@ functions assign_variable_id
//@ cut ast.c (?<!void )\bassign_variable_id\( => below(
//@ nodfcc
//@ cbmc --unwind 12 --bounds-check --pointer-check
//@ assume variable_ids: the id of a name is the one unit names proves (a stub here: one id for each of two names)
//@ bounded
#include "spec.h"
#include "config.h"
static const struct config* CONF; static const char *A1, *A2; static betree_var_t VA, VB; static struct ast_node N, L, R, B; static int DL, DR;
void below(struct config* config, struct ast_node* node) { ASSERT(config == CONF && (node == &L || node == &R), "an operand"); if(node == &L) DL++; else DR++; }
#include "ast.c"
#include "shape.h"
betree_var_t try_get_id_for_attr(const struct config* config, const char* attr) { ASSERT(config == CONF && (attr == A1 || attr == A2), "the name of a variable of the node"); return attr == A1 ? VA : VB; }
int main()
{
    struct config c; CONF = &c; static char n1, n2; A1 = &n1; A2 = &n2; DL = DR = 0; betree_var_t x, y; VA = x; VB = y;
    struct attr_var a, b; a.attr = A1; b.attr = A2; shape(a, b); B = N;
    assign_variable_id(&c, &N);
    int k = B.type;
    if(k == AST_TYPE_COMPARE_EXPR) B.compare_expr.attr_var.var = VA;
    else if(k == AST_TYPE_EQUALITY_EXPR) B.equality_expr.attr_var.var = VA;
    else if(k == AST_TYPE_LIST_EXPR) B.list_expr.attr_var.var = VA;
    else if(k == AST_TYPE_IS_NULL_EXPR) B.is_null_expr.attr_var.var = VA;
    else if(k == AST_TYPE_BOOL_EXPR) { if(B.bool_expr.op == AST_BOOL_VARIABLE) B.bool_expr.variable.var = VA; }
    else if(k == AST_TYPE_SET_EXPR) {
        if(B.set_expr.left_value.value_type == AST_SET_LEFT_VALUE_VARIABLE) B.set_expr.left_value.variable_value.var = VA;
        if(B.set_expr.right_value.value_type == AST_SET_RIGHT_VALUE_VARIABLE) B.set_expr.right_value.variable_value.var = VA;
    }
    else switch(B.special_expr.type) {
        case AST_SPECIAL_FREQUENCY: B.special_expr.frequency.attr_var.var = VA; B.special_expr.frequency.now.var = VB; break;
        case AST_SPECIAL_SEGMENT: B.special_expr.segment.attr_var.var = VA; B.special_expr.segment.now.var = VB; break;
        case AST_SPECIAL_GEO: B.special_expr.geo.latitude_var.var = VA; B.special_expr.geo.longitude_var.var = VB; break;
        default: B.special_expr.string.attr_var.var = VA;
    }
    size_t o; ASSUME(o < sizeof N);
    ASSERT(((unsigned char*)&N)[o] == ((unsigned char*)&B)[o], "each variable has the id of its name, the rest is as it was");
    ASSERT(DL == (USES == BELOW_ONE || USES == BELOW_BOTH) && DR == (USES == BELOW_BOTH), "everything below is visited, once");
    REACH();
}
