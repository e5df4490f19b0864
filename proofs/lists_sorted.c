//@ what exactly the lists the matcher searches are put into order and rid of repetitions, each once, and everything below is visited once, by structural induction; nothing else changes
//@ props C09
//@ functions sort_lists
//@ cut ast.c (?<!void )\bsort_lists\( => below(
//@ nodfcc
//@ cbmc --unwind 12 --bounds-check --pointer-check
//@ assume lists_sorted: sorting one list is unit dedup (a stub here, which counts the calls)
//@ bounded
#include "spec.h"
#include "value.h"
#include "utils.h"
static struct ast_node N, L, R, B; static int DL, DR, SI, SS; static const void *PI, *PS;
void below(struct ast_node* node) { ASSERT(node == &L || node == &R, "an operand"); if(node == &L) DL++; else DR++; }
#include "ast.c"
#include "shape.h"
void sort_and_remove_duplicate_integer_list(struct betree_integer_list* l) { ASSERT(l == &IL, "the list of the node"); SI++; }
void sort_and_remove_duplicate_string_list(struct betree_string_list* l) { ASSERT(l == &SL, "the list of the node"); SS++; }
int main()
{
    DL = DR = SI = SS = 0; struct attr_var a, b; shape(a, b); B = N;
    sort_lists(&N);
    bool i = false, s = false;
    if(B.type == AST_TYPE_LIST_EXPR) { i = B.list_expr.value.value_type == AST_LIST_VALUE_INTEGER_LIST; s = !i; }
    /* a single value on the left: the list on the right is a variable (unit typed) */
    if(B.type == AST_TYPE_SET_EXPR && !BROKEN_SET) { i = B.set_expr.right_value.value_type == AST_SET_RIGHT_VALUE_INTEGER_LIST; s = B.set_expr.right_value.value_type == AST_SET_RIGHT_VALUE_STRING_LIST; }
    if(!BROKEN_SET) ASSERT(SI == (i ? 1 : 0) && SS == (s ? 1 : 0), "the list of the node is sorted, once");
    size_t o; ASSUME(o < sizeof N);
    ASSERT(((unsigned char*)&N)[o] == ((unsigned char*)&B)[o], "the node is as it was");
    ASSERT(DL == (USES == BELOW_ONE || USES == BELOW_BOTH) && DR == (USES == BELOW_BOTH), "everything below is visited, once");
    REACH();
}
