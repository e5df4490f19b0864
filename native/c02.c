/* C02: every subscription whose expression is true on the event (by match_node on its own copy) is reported. */
#include "trees.h"
const char* family_name = "C02 index";
void family_round(void)
{
    static struct world w; int caps[] = { 1, 1, 2, 3, 3, 5, 0 };
    w_open(&w, (struct schema_opt){ .max_each = 2, .specials = coin(30), .one_type = coin(50), .extreme = coin(25), .all_undef = coin(50) }, caps[rn(7)], rn(3));
    int total = 10 + rn(70); int only = coin(60) ? rn(w.s.n) : -1;
    for(int i = 0; i < total; i++) {
        struct ex* e = gen_expr(&w.s, (struct ex_opt){ .depth = coin(40) ? 0 : rn(4), .nulls = coin(40), .specials = true, .lit_pct = 2, .only_var = only });
        if(coin(4)) { char* tx = ex_text(&w.s, e); slog("change boundaries: %s\n", tx); betree_change_boundaries(w.t, tx); free(tx); }
        w_add(&w, (betree_sub_t)i + 1, e, coin(12));
        if(i == total - 1 || coin(10)) {
            w_nodes(&w);
            for(int j = 0; j < 8; j++) {
                struct oevent ev; gen_event(&w.s, &ev, rn(3) * 20); 
                struct report* r = w_search(&w, &ev, coin(50));
                if(!r) { log_event(&w, &ev); sfail("a valid event was refused"); }
                for(int k = 0; k < w.n; k++)
                    if(!report_has(r, w.sub[k].id) && direct_match(w.t, w.sub[k].node, &w.s, &ev)) { log_event(&w, &ev); sfail("subscription %llu is true on the event and is not reported", (unsigned long long)w.sub[k].id); }
                free_report(r);
            }
        }
    }
    w_close(&w);
}
