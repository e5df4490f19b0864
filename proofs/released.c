//@ what releasing an expression releases the node, each of its texts and lists and what is below, each exactly once, and nothing else, by structural induction
//@ props C10 C19
//@ functions free_ast_node free_special_expr free_set_expr free_list_expr
//@ cut ast.c (?<!void )\bfree_ast_node\( => below(
//@ nodfcc
//@ cbmc --unwind 12 --bounds-check --pointer-check
//@ assume released: a list is released with its elements (unit emptied)
//@ bounded
#include "spec.h"
#include "alloc.h"
#include "value.h"
#include "config.h"
static char A1, A2, TXT, PAT; static int FA1, FA2, FT, FP, FN, FIL, FSL, DL, DR; static struct ast_node N, L, R, B;
void below(struct ast_node* node) { ASSERT((node == &L || node == &R) && FN == 0, "an operand, before the node"); if(node == &L) DL++; else DR++; }
void model_free(void* p)
{
    ASSERT(p == &A1 || p == &A2 || p == &TXT || p == &PAT || p == &N, "only what belongs to the node is released");
    ASSERT(FN == 0, "the node is the last");
    if(p == &A1) FA1++; else if(p == &A2) FA2++; else if(p == &TXT) FT++; else if(p == &PAT) FP++; else FN++;
}
#undef bfree
#define bfree model_free
#include "ast.c"
#include "shape.h"
void free_attr_var(struct attr_var a) { model_free((char*)a.attr); }
void free_integer_list(struct betree_integer_list* l) { ASSERT(l == &IL && FN == 0, "the list of the node"); FIL++; }
void free_string_list(struct betree_string_list* l) { ASSERT(l == &SL && FN == 0, "the list of the node"); FSL++; }
int main()
{
    FA1 = FA2 = FT = FP = FN = FIL = FSL = DL = DR = 0; struct attr_var a, b; a.attr = &A1; b.attr = &A2; shape(a, b); ASSUME(!BROKEN_SET);
    int t = 0, p = 0, il = 0, sl = 0;
    if(N.type == AST_TYPE_EQUALITY_EXPR && N.equality_expr.value.value_type == AST_EQUALITY_VALUE_STRING) { N.equality_expr.value.string_value.string = &TXT; t = 1; }
    if(N.type == AST_TYPE_SET_EXPR) {
        if(N.set_expr.left_value.value_type == AST_SET_LEFT_VALUE_STRING) { N.set_expr.left_value.string_value.string = &TXT; t = 1; }
        il = N.set_expr.right_value.value_type == AST_SET_RIGHT_VALUE_INTEGER_LIST; sl = N.set_expr.right_value.value_type == AST_SET_RIGHT_VALUE_STRING_LIST;
    }
    if(N.type == AST_TYPE_LIST_EXPR) { il = N.list_expr.value.value_type == AST_LIST_VALUE_INTEGER_LIST; sl = !il; }
    if(N.type == AST_TYPE_SPECIAL_EXPR && N.special_expr.type == AST_SPECIAL_FREQUENCY) { N.special_expr.frequency.ns.string = &TXT; t = 1; }
    if(N.type == AST_TYPE_SPECIAL_EXPR && N.special_expr.type == AST_SPECIAL_STRING) { N.special_expr.string.pattern = &PAT; p = 1; }
    bool nothing = any();
    free_ast_node(nothing ? NULL : &N);
    if(nothing) ASSERT(FA1 + FA2 + FT + FP + FN + FIL + FSL + DL + DR == 0, "nothing to release");
    else {
        ASSERT(FN == 1, "the node is released, once");
        ASSERT(FA1 == (USES == ONE || USES == TWO) && FA2 == (USES == TWO), "so are the names of its variables");
        ASSERT(FT == t && FP == p && FIL == il && FSL == sl, "and its texts and lists");
        ASSERT(DL == (USES == BELOW_ONE || USES == BELOW_BOTH) && DR == (USES == BELOW_BOTH), "and what is below");
    }
    REACH();
}
