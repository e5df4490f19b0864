/* C03: with undefined variables, the search decides as evaluating the expression would. */
#include "trees.h"
const char* family_name = "C03 undefined variables";
void family_round(void)
{
    static struct world w;
    w_open(&w, (struct schema_opt){ .max_each = 2, .specials = coin(60), .all_undef = coin(80), .filler = true }, 0, 0);
    for(int i = 0; i < 3; i++) {
        struct ex* e = gen_expr(&w.s, (struct ex_opt){ .depth = 1 + rn(5), .nulls = true, .specials = true, .lit_pct = 6, .only_var = -1 });
        w_add(&w, (betree_sub_t)i + 1, e, coin(20));
    }
    w_nodes(&w);
    for(int j = 0; j < 10; j++) {
        static struct oevent ev; gen_event(&w.s, &ev, 20 + rn(70));
        struct report* r = w_search(&w, &ev, coin(50));
        if(!r) { log_event(&w, &ev); sfail("a valid event was refused"); }
        for(int k = 0; k < w.n; k++) {
            bool want = direct_match(w.t, w.sub[k].node, &w.s, &ev);
            if(report_has(r, w.sub[k].id) != want) { log_event(&w, &ev); sfail("subscription %llu: the search decides %d, evaluation gives %d (%zu decided without evaluation)", (unsigned long long)w.sub[k].id, !want, want, r->shorted); }
        }
        free_report(r);
    }
    w_close(&w);
}
