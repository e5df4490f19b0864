/* C10: a clone equals the original field by field, shares nothing with it, and outlives it. */
#include "trees.h"
#include "deep.h"
#include "clone.h"
const char* family_name = "C10 clone";
static int cmpp(const void* a, const void* b) { uintptr_t x = (uintptr_t)*(void* const*)a, y = (uintptr_t)*(void* const*)b; return x < y ? -1 : x > y; }
static void same(const struct ast_node* a, const struct ast_node* b, const char* when)
{
    static struct ptrs pa, pb; pa.n = pb.n = 0; char why[200];
    if(!deep_eq(a, b, &pa, &pb, why)) sfail("%s: %s", when, why);
    qsort(pa.p, pa.n, sizeof *pa.p, cmpp);
    for(size_t i = 0; i < pb.n; i++) if(bsearch(&pb.p[i], pa.p, pa.n, sizeof *pa.p, cmpp)) sfail("%s: memory is shared", when);
}
static void scribble(struct ast_node* n)
{
    if(n->type == AST_TYPE_BOOL_EXPR) { if(n->bool_expr.op == AST_BOOL_NOT) scribble(n->bool_expr.unary.expr); else if(n->bool_expr.op <= AST_BOOL_AND) { scribble(n->bool_expr.binary.lhs); scribble(n->bool_expr.binary.rhs); } else if(n->bool_expr.op == AST_BOOL_LITERAL) n->bool_expr.literal = !n->bool_expr.literal; }
    if(n->type == AST_TYPE_COMPARE_EXPR) n->compare_expr.op = (n->compare_expr.op + 1) % 4;
    if(n->type == AST_TYPE_LIST_EXPR) { if(n->list_expr.value.value_type == AST_LIST_VALUE_INTEGER_LIST) n->list_expr.value.integer_list_value->integers[0] ^= 5; else n->list_expr.value.string_list_value->strings[0].str ^= 5; }
    n->global_id += 3;
}
void family_round(void)
{
    static struct world w; w_open(&w, (struct schema_opt){ .max_each = 2, .specials = true, .all_undef = coin(40) }, 0, 0);
    for(int i = 0; i < 12; i++) {
        struct ex* e = gen_expr(&w.s, (struct ex_opt){ .depth = rn(6), .nulls = true, .specials = true, .lit_pct = 5, .only_var = -1 });
        char* tx = ex_text(&w.s, e); slog("clone of: %s\n", tx); free(tx);
        if(coin(70)) { struct ex* f = ex_copy(e); w_add(&w, (betree_sub_t)i, f, rn(2)); }
        struct ast_node *n = direct_node(w.t, e, &w.s), *ref = direct_node(w.t, e, &w.s);
        if(coin(70)) { assign_pred_id(w.t->config, n); assign_pred_id(w.t->config, clone_node(n)); assign_pred_id(w.t->config, ref); n->memoize_id = ref->memoize_id; }
        bool inmap = n->global_id != INVALID_PRED;
        struct ast_node* c = clone_node(n); same(n, c, "the clone");
        struct ast_node* c2 = clone_node(c); same(c, c2, "the clone of the clone"); same(n, c2, "the clone of the clone");
        for(int j = 0; j < 3; j++) { struct oevent ev; gen_event(&w.s, &ev, rn(3) * 25); 
            struct ast_node* d = c; bool want = ex_eval(&w.s, e, &ev); if(direct_match(w.t, n, &w.s, &ev) != direct_match(w.t, d, &w.s, &ev)) { log_event(&w, &ev); sfail("the clone evaluates differently (%d expected)", want); } }
        if(!inmap) { if(coin(50)) scribble(n); free_ast_node(n); same(ref, c, "after releasing the original"); free_ast_node(ref); free_ast_node(c2); }
        else { scribble(c2); same(n, c, "after changing another clone"); free_ast_node(c2); free_ast_node(c); }
        /* nodes known to the predicate map stay until the tree is gone: leaked on purpose */
        { /* as parsed: no variable, string or enumeration value has an id yet */
            char* ct = ex_text(&w.s, e); struct ast_node* raw = NULL;
            if(parse(ct, &raw) == 0 && raw) { struct ast_node* rc = clone_node(raw); same(raw, rc, "the clone of an expression just parsed"); free_ast_node(rc); }
            if(raw) free_ast_node(raw); free(ct); }
        free_ex(e);
    }
    w_close(&w);
}
