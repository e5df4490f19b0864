/* C01: a subscription alone in a tree is reported exactly when its expression is true by the oracle,
 * and match_node agrees. */
#include "common.h"
const char* family_name = "C01 evaluation";
void family_round(void)
{
    struct schema s; gen_schema(&s, (struct schema_opt){ .max_each = 2, .specials = true });
    log_schema(&s);
    struct consts c = make_consts();
    for(int k = 0; k < 6; k++) {
        struct betree* t = betree_make(); apply_schema(t, &s);
        struct ex* e = gen_expr(&s, (struct ex_opt){ .depth = rn(4), .nulls = true, .specials = true, .lit_pct = 4, .only_var = -1 });
        char* tx = ex_text(&s, e); slog("expression 1: %s\n", tx);
        struct ast_node* n = NULL;
        if(betree_insert_with_constants(t, 1, c.n, (const struct betree_constant**)c.c, tx)) {
            n = direct_node(t, e, &s);
            for(int j = 0; j < 12; j++) {
                struct oevent ev; gen_event(&s, &ev, rn(3) * 25);
                char* et = event_text(&s, &ev); slog("event: %s\n", et);
                bool want = ex_eval(&s, e, &ev);
                if(direct_match(t, n, &s, &ev) != want) sfail("match_node gives %d, the meaning is %d", !want, want);
                struct report* r = make_report(); bool ok;
                if(coin(50)) ok = betree_search(t, et, r);
                else { struct betree_event* a = event_api(t, &s, &ev); ok = betree_search_with_event(t, a, r); betree_free_event(a); }
                if(!ok) sfail("a valid event was refused");
                if((r->matched == 1) != want) sfail("search reports %zu, the meaning is %d", r->matched, want);
                free_report(r); free(et);
            }
            free_ast_node(n);
        }
        free(tx); free_ex(e); betree_free(t);
    }
    free_consts(&c);
}
