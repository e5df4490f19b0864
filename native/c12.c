/* C12: expr_cmp is a total order whose zero is equality, eq_expr agrees. */
#include "trees.h"
#include "ast_compare.h"
const char* family_name = "C12 order";
#define N 14
/* operands of and/or in one order: the structure built puts the cheaper one first */
static void unorder(const struct schema* s, struct ex* e)
{
    if(!e) return;
    unorder(s, e->l); unorder(s, e->r_);
    if(e->r_) { char *a = ex_text(s, e->l), *b = ex_text(s, e->r_); if(strcmp(a, b) > 0) { struct ex* t = e->l; e->l = e->r_; e->r_ = t; } free(a); free(b); }
}
static int sgn(int x) { return x < 0 ? -1 : x > 0; }
/* float constants close together */
static void crowd(struct ast_node* n)
{
    if(n->type == AST_TYPE_BOOL_EXPR) {
        if(n->bool_expr.op == AST_BOOL_NOT) crowd(n->bool_expr.unary.expr);
        else if(n->bool_expr.op == AST_BOOL_AND || n->bool_expr.op == AST_BOOL_OR) { crowd(n->bool_expr.binary.lhs); crowd(n->bool_expr.binary.rhs); }
    }
    else if(n->type == AST_TYPE_COMPARE_EXPR && n->compare_expr.value.value_type == AST_COMPARE_VALUE_FLOAT) n->compare_expr.value.float_value = rn(6) * (coin(50) ? 1.5e-16 : 3e-16);
    else if(n->type == AST_TYPE_EQUALITY_EXPR && n->equality_expr.value.value_type == AST_EQUALITY_VALUE_FLOAT) n->equality_expr.value.float_value = rn(6) * (coin(50) ? 1.5e-16 : 3e-16);
}
void family_round(void)
{
    bool crowded = coin(25);
    static struct world w; w_open(&w, (struct schema_opt){ .max_each = 2, .specials = true }, 0, 0);
    struct ex* e[N]; struct ast_node* n[N]; char *canon[N], *form[N], *set[N];
    for(int i = 0; i < N; i++) {
        if(i == 0 || coin(crowded ? 10 : 35)) e[i] = gen_expr(&w.s, (struct ex_opt){ .depth = rn(3), .nulls = true, .specials = true, .lit_pct = 4, .only_var = -1 });
        else if(crowded && coin(70)) e[i] = ex_copy(e[0]);
        else if(coin(25)) e[i] = ex_copy(e[rn(i)]);
        else { struct ex* o = e[rn(i)]; e[i] = coin(15) ? ex_shift(o) : NULL; if(!e[i]) e[i] = ex_mutate(&w.s, o); }
        { char* t = ex_text(&w.s, e[i]); bool ok = betree_change_boundaries(w.t, t); (void)ok; free(t); }
    }
    for(int i = 0; i < N; i++) {
        n[i] = direct_node(w.t, e[i], &w.s);
        /* list elements in the order of their ids is not the order of the text: compare by the canonical text */
        struct ex* c = ex_copy(e[i]); struct ex* p = c; (void)p; ex_canon(c); canon[i] = ex_text(&w.s, c); unorder(&w.s, c); set[i] = ex_text(&w.s, c); free_ex(c);
        c = ex_copy(e[i]); form[i] = ex_text(&w.s, c); free_ex(c);
        slog("%d: %s\n", i, form[i]);
    }
    if(crowded) for(int i = 0; i < N; i++) { crowd(n[i]); slog("%d with float constants %s\n", i, "close to zero"); }
    for(int i = 0; i < N; i++) assign_pred_id(w.t->config, n[i]);
    int r[N][N]; bool q[N][N];
    for(int i = 0; i < N; i++) for(int j = 0; j < N; j++) { r[i][j] = sgn(expr_cmp(n[i], n[j])); q[i][j] = eq_expr(n[i], n[j]); }
    for(int i = 0; i < N; i++) for(int j = 0; j < N; j++) {
        bool same = strcmp(canon[i], canon[j]) == 0, diff = strcmp(set[i], set[j]) != 0, samef = strcmp(form[i], form[j]) == 0;
        if(r[i][j] != -r[j][i]) sfail("order of %d and %d is not antisymmetric", i, j);
        if(q[i][j] != q[j][i]) sfail("equality of %d and %d is not symmetric", i, j);
        for(int k = 0; k < N; k++) if(r[i][j] <= 0 && r[j][k] <= 0 && r[i][k] > 0) sfail("order of %d, %d and %d is not transitive", i, j, k);
        if(crowded) continue;
        if(samef && (r[i][j] || !q[i][j])) sfail("%d and %d are the same", i, j);
        if(diff && r[i][j] == 0) sfail("order: %d and %d are different", i, j);
        bool f = fast_eq_expr(n[i], n[j]);
        if(f != fast_eq_expr(n[j], n[i])) sfail("fast equality of %d and %d is not symmetric", i, j);
        if(samef && !f) sfail("fast equality: %d and %d are the same", i, j);
        if(diff && f) sfail("fast equality: %d and %d are different", i, j);
        if(diff && q[i][j]) sfail("equality: %d and %d are different", i, j);
        if(same && !samef && strstr(form[i], "segment_") == NULL && (r[i][j] || !q[i][j])) sfail("%d and %d differ only in the order or the repetition of list elements or the side of an operator", i, j);
    }
    for(int i = 0; i < N; i++) { free_ex(e[i]); free(canon[i]); free(set[i]); free(form[i]); }
    w_close(&w);
}
