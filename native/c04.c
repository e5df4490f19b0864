/* C04: what a subscription gives does not depend on the others, on order, or on earlier events. */
#include "trees.h"
const char* family_name = "C04 shared sub-expressions";
#define NB 10
void family_round(void)
{
    static struct world w;
    w_open(&w, (struct schema_opt){ .max_each = 2, .specials = coin(60), .all_undef = true }, coin(60) ? 0 : 200, 0);
    struct ex* base[NB];
    for(int i = 0; i < NB; i++) if(!(i && coin(12) && (base[i] = ex_shift(base[rn(i)])))) base[i] = i && coin(50) ? ex_mutate(&w.s, base[rn(i)]) : gen_expr(&w.s, (struct ex_opt){ .depth = rn(3), .nulls = true, .specials = true, .lit_pct = 2, .only_var = -1 });
    int total = 6 + rn(40);
    for(int i = 0; i < total; i++) {
        struct ex* e = ex_copy(base[rn(NB)]);
        for(int d = rn(4); d > 0; d--) {
            struct ex* p = calloc(1, sizeof *p); p->v = p->v2 = -1; int k = rn(5);
            p->k = k < 2 ? O_AND : k < 4 ? O_OR : O_NOT; p->l = e;
            if(p->k != O_NOT) { struct ex* o = coin(30) ? ex_mutate(&w.s, base[rn(NB)]) : ex_copy(base[rn(NB)]); if(coin(50)) p->r_ = o; else { p->r_ = p->l; p->l = o; } }
            e = p;
        }
        w_add(&w, (betree_sub_t)i + 1, e, coin(10));
    }
    for(int i = 0; i < NB; i++) free_ex(base[i]);
    w_nodes(&w);
    for(int j = 0; j < 8; j++) {
        static struct oevent ev; gen_event(&w.s, &ev, rn(4) * 15);
        struct report* r = w_search(&w, &ev, coin(50));
        if(!r) { log_event(&w, &ev); sfail("a valid event was refused"); }
        for(int k = 0; k < w.n; k++) {
            bool want = direct_match(w.t, w.sub[k].node, &w.s, &ev);
            if(report_has(r, w.sub[k].id) != want) { log_event(&w, &ev); sfail("subscription %llu gives %d among the others and %d alone", (unsigned long long)w.sub[k].id, !want, want); }
        }
        free_report(r);
    }
    w_close(&w);
}
