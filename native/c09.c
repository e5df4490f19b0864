/* C09: lists of expressions and events, reordered and repeated, give the same results. */
#include "trees.h"
const char* family_name = "C09 lists";
static void shuffle_i(int64_t* l, int* n) { while(*n && *n < MAXL && coin(50)) { l[*n] = l[rn(*n)]; (*n)++; } for(int i = *n - 1; i > 0; i--) { int j = rn(i + 1); int64_t x = l[i]; l[i] = l[j]; l[j] = x; } }
static void shuffle_s(int* l, int* n) { while(*n && *n < MAXL && coin(50)) { l[*n] = l[rn(*n)]; (*n)++; } for(int i = *n - 1; i > 0; i--) { int j = rn(i + 1); int x = l[i]; l[i] = l[j]; l[j] = x; } }
static void shuffle_ex(struct ex* e) { if(!e) return; shuffle_ex(e->l); shuffle_ex(e->r_); if(e->n) { if(e->is_s) shuffle_s(e->sl, &e->n); else shuffle_i(e->il, &e->n); } }
static void check_il(const struct betree_integer_list* l, const int64_t* want, int n)
{
    for(size_t i = 1; i < l->count; i++) if(l->integers[i - 1] >= l->integers[i]) sfail("list not in strict order: %lld before %lld", (long long)l->integers[i - 1], (long long)l->integers[i]);
    for(size_t i = 0; i < l->count; i++) { bool in = false; for(int j = 0; j < n; j++) in |= want[j] == l->integers[i]; if(!in) sfail("the list holds %lld, which was not given", (long long)l->integers[i]); }
    for(int j = 0; j < n; j++) { bool in = false; for(size_t i = 0; i < l->count; i++) in |= want[j] == l->integers[i]; if(!in) sfail("the list lost %lld", (long long)want[j]); }
}
void family_round(void)
{
    /* the list functions themselves */
    for(int k = 0; k < 6; k++) {
        struct betree_integer_list* l = make_integer_list(); int n = 1 + rn(MAXL); int64_t in[MAXL];
        for(int i = 0; i < n; i++) { in[i] = coin(20) ? (coin(50) ? INT64_MAX - rn(3) : INT64_MIN + rn(3)) : coin(20) ? (int64_t)rnd() : rn(9) - 4; add_integer_list_value(in[i], l); slog("%lld ", (long long)in[i]); }
        slog(": list sorted, repetitions removed\n");
        sort_and_remove_duplicate_integer_list(l); check_il(l, in, n); free_integer_list(l);
        struct betree_string_list* sl = make_string_list(); betree_str_t ids[MAXL];
        for(int i = 0; i < n; i++) { int x = rn(NPOOL); ids[i] = coin(10) ? INVALID_STR : coin(10) ? ((uint64_t)1 << 33) + (uint64_t)x : (uint64_t)x; struct string_value v = { .string = strdup("x"), .var = 3, .str = ids[i] }; add_string_list_value(v, sl); }
        sort_and_remove_duplicate_string_list(sl);
        for(size_t i = 1; i < sl->count; i++) if(sl->strings[i - 1].str >= sl->strings[i].str) sfail("string list not in strict order");
        for(int j = 0; j < n; j++) { bool f = false; for(size_t i = 0; i < sl->count; i++) f |= sl->strings[i].str == ids[j]; if(!f) sfail("the string list lost an id"); }
        free_string_list(sl);
    }
    static struct world w; w_open(&w, (struct schema_opt){ .max_each = 3, .all_undef = coin(50) }, 0, 0);
    static struct ex* twin[16]; int n = 0;
    for(int i = 0; i < 8; i++) {
        struct ex* e = gen_expr(&w.s, (struct ex_opt){ .depth = rn(2), .lit_pct = 1, .only_var = -1 }); struct ex* f = ex_copy(e); shuffle_ex(f);
        if(!w_add(&w, (betree_sub_t)(2 * i), e, 0)) { free_ex(f); continue; }
        if(!w_add(&w, (betree_sub_t)(2 * i + 1), f, 0)) sfail("the expression with reordered lists was refused");
        n++;
    }
    for(int j = 0; j < 10; j++) {
        static struct oevent a, b; gen_event(&w.s, &a, 15); b = a;
        for(int v = 0; v < w.s.n; v++) { if(w.s.v[v].t == BETREE_INTEGER_LIST) shuffle_i(b.v[v].il, &b.v[v].n); if(w.s.v[v].t == BETREE_STRING_LIST) shuffle_s(b.v[v].sl, &b.v[v].n); }
        bool text = coin(50); struct report* ra = w_search(&w, &a, text); struct report* rb = w_search(&w, &b, text);
        log_event(&w, &a); log_event(&w, &b);
        if(!ra || !rb) sfail("a valid event was refused");
        for(int k = 0; k + 1 < w.n; k += 2) {
            bool r0 = report_has(ra, w.sub[k].id), r1 = report_has(ra, w.sub[k + 1].id), r2 = report_has(rb, w.sub[k].id), r3 = report_has(rb, w.sub[k + 1].id);
            if(r0 != r1 || r0 != r2 || r0 != r3) sfail("subscriptions %llu and %llu, the same but for the order of lists, give %d %d on the first event and %d %d on the second", (unsigned long long)w.sub[k].id, (unsigned long long)w.sub[k + 1].id, r0, r1, r2, r3);
            if(r0 != ex_eval(&w.s, w.sub[k].e, &a)) sfail("subscription %llu gives %d, its lists as sets give %d", (unsigned long long)w.sub[k].id, r0, !r0);
        }
        free_report(ra); free_report(rb);
    }
    w_close(&w);
}
