/* C06: report and existence query. */
#include "trees.h"
const char* family_name = "C06 report";
void family_round(void)
{
    static struct world w; int caps[] = { 1, 2, 3, 0, 0, 20 };
    w_open(&w, (struct schema_opt){ .max_each = 2, .specials = coin(40), .one_type = coin(30), .all_undef = coin(30) }, caps[rn(6)], rn(3));
    int total = 1 + rn(coin(20) ? 150 : 30); betree_sub_t base = coin(30) ? rnd() : 1; int lit = coin(20) ? 70 : 5; int rare = coin(40), share = coin(25) ? 2 + rn(3) : 1; /* several subscriptions with the same id */
    for(int i = 0; i < total; i++) {
        struct ex* e = gen_expr(&w.s, (struct ex_opt){ .depth = rn(3), .nulls = coin(30), .specials = true, .lit_pct = lit, .only_var = -1 });
        if(rare) { struct ex* p = calloc(1, sizeof *p); p->v = p->v2 = -1; p->k = O_AND; p->l = e; p->r_ = gen_expr(&w.s, (struct ex_opt){ .depth = 1, .lit_pct = 5, .only_var = -1 }); e = p; }
        w_add(&w, base + (betree_sub_t)(i / share) * 3, e, coin(10));
    }
    w_nodes(&w);
    for(int j = 0; j < 12; j++) {
        static struct oevent ev; gen_event(&w.s, &ev, rn(4) * 25); bool valid = true;
        if(coin(15)) { int v = rn(w.s.n); ev.v[v].def = false; valid = w.s.v[v].undef; }
        bool text = coin(50); struct report* r = w_search(&w, &ev, text); bool ex = w_exists(&w, &ev, text);
        if(valid && !r) { log_event(&w, &ev); sfail("a valid event was refused by the search"); }
        if(!valid && r) { log_event(&w, &ev); sfail("an event without a mandatory variable was accepted by the search"); }
        if(!r) { if(ex) { log_event(&w, &ev); sfail("an event the search refuses was accepted by the existence query"); } continue; }
        size_t want = 0;
        for(int k = 0; k < w.n; k++) {
            size_t times = 0, due = 0; for(size_t q = 0; q < r->matched; q++) times += r->subs[q] == w.sub[k].id;
            bool m = direct_match(w.t, w.sub[k].node, &w.s, &ev); want += m; due = m;
            if(share > 1) for(int q = 0; q < w.n; q++) if(q != k && w.sub[q].id == w.sub[k].id) due += direct_match(w.t, w.sub[q].node, &w.s, &ev);
            if(times != due) { log_event(&w, &ev); sfail("subscription %llu is listed %zu times, its expression is %d, %zu with this id match", (unsigned long long)w.sub[k].id, times, m, due); }
        }
        if(r->matched != want) { log_event(&w, &ev); sfail("%zu matches counted, %zu subscriptions match", r->matched, want); }
        if(r->matched > r->evaluated) { log_event(&w, &ev); sfail("%zu matches, %zu evaluated", r->matched, r->evaluated); }
        if(r->evaluated > (size_t)w.n || r->shorted > r->evaluated) { log_event(&w, &ev); sfail("%zu evaluated, %zu of them without evaluation, of %d", r->evaluated, r->shorted, w.n); }
        if(ex != (want > 0)) { log_event(&w, &ev); sfail("the existence query says %d, %zu match", ex, want); }
        free_report(r);
    }
    w_close(&w);
}
