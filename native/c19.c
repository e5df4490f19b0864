/* C19: what an operation allocates is owned by what it returned; releasing that gives everything back, once.
   The build has AddressSanitizer: a block released twice or used after its release ends the run. */
#include "trees.h"
size_t __sanitizer_get_current_allocated_bytes(void);
const char* family_name = "C19 memory";
static size_t held(void) { return __sanitizer_get_current_allocated_bytes(); }
static char* wrong_expr(const struct schema* s)
{
    static const char* fmt[] = { "%s > 1", "%s = \"a\"", "%s in (1, 2)", "not (%s one of (\"a\", \"b\"))", "contains(%s, \"a\") or %s", "segment_within(%s, 1, 20)", "%s and nosuch", "within_frequency_cap(\"flight\", \"a\", 3, 0) and %s", "nosuch in (\"a\", \"b\") or %s", "\"zzz\" in %s" };
    char* t = malloc(256); const char* n = s->v[rn(s->n)].name; snprintf(t, 256, fmt[rn(10)], n, n); return t;
}
/* a text with a piece lost, doubled or replaced */
static char* spoilt(const char* t)
{
    static const char* tok[] = { "(", ")", ",", "and", " or ", "not", "\"", "\"x\"", "1", "-", "2.5", "in", "not in", "one of", "is null", "=", "<", "true", "now", "contains(", "segment_within(", "within_frequency_cap(", "geo_within_radius(" };
    size_t n = strlen(t), a = n ? (size_t)rn((int)n) : 0, b = a + (size_t)rn((int)(n - a) / 2 + 2); if(b > n) b = n;
    char* r = malloc(2 * n + 64);
    switch(rn(4)) {
        case 0: sprintf(r, "%.*s", (int)a, t); break;
        case 1: sprintf(r, "%.*s%s", (int)a, t, t + b); break;
        case 2: sprintf(r, "%.*s%s", (int)b, t, t + a); break;
        default: sprintf(r, "%.*s %s %s", (int)a, t, tok[rn(23)], coin(50) ? t + a : t + b); break;
    }
    return r;
}
static void spoil(struct world* w, const struct ex* e)
{
    char* t = ex_text(&w->s, e); char* x = spoilt(t); free(t); if(coin(30)) { t = spoilt(x); free(x); x = t; }
    slog("spoilt: %s\n", x);
    size_t h = held(); struct ast_node* n = NULL; int rc = parse(x, &n);
    if(rc == 0) free_ast_node(n);
    if(held() != h) sfail("%zd bytes more are held after reading a text and releasing what it gave", (ssize_t)(held() - h));
    if(rc != 0) {
        int k = rn(3); bool ok = k == 0 ? betree_insert(w->t, 1, x) : k == 1 ? betree_change_boundaries(w->t, x) : betree_make_sub(w->t, 1, 0, NULL, x) != NULL;
        if(ok) sfail("a text that cannot be read was accepted");
        if(held() != h) sfail("%zd bytes more are held after refusing a text", (ssize_t)(held() - h));
    }
    free(x);
}
void family_round(void)
{
    static struct world w; static bool warm; int caps[] = { 1, 2, 3, 0, 20 };
    if(!warm) printf("\n"); /* the buffer of stdout */
    size_t start = held();
    w_open(&w, (struct schema_opt){ .max_each = 2, .specials = coin(70), .one_type = coin(20), .all_undef = coin(40), .tight_strings = coin(40) }, caps[rn(5)], rn(3));
    int total = 4 + rn(coin(20) ? 120 : 25);
    for(int i = 0; i < total; i++) {
        struct ex* e = gen_expr(&w.s, (struct ex_opt){ .depth = rn(4), .nulls = true, .specials = true, .lit_pct = 4, .only_var = -1 });
        int k = rn(20);
        if(k < 11) w_add(&w, (betree_sub_t)i, e, k < 3);
        else {
            char* t = k < 15 ? wrong_expr(&w.s) : ex_text(&w.s, e); 
            if(k == 11 || k == 15) { slog("boundaries of: %s\n", t); betree_change_boundaries(w.t, t); }
            else if(k < 14) {
                slog("subscription built: %s\n", t);
                const struct betree_sub* s = betree_make_sub(w.t, 1, w.c.n, (const struct betree_constant**)w.c.c, t); if(s && !betree_insert_sub(w.t, s)) sfail("a subscription was not taken");
            }
            else if(k == 16) { if(warm) spoil(&w, e); }
            else {
                slog("insert %d: %s\n", i, t);
                betree_insert_with_constants(w.t, (betree_sub_t)i, k == 17 ? 0 : w.c.n, (const struct betree_constant**)w.c.c, t);
            }
            free(t); free_ex(e);
        }
        if(coin(15)) {
            static struct oevent ev; gen_event(&w.s, &ev, rn(4) * 25); if(coin(20)) ev.v[rn(w.s.n)].def = false;
            /* the dictionaries learn the values of the first search */
            struct report* r = w_search(&w, &ev, coin(50)); if(r) free_report(r);
            size_t h = held(); int how = rn(4); char* et = event_text(&w.s, &ev); slog("event: %s\n", et); free(et);
            if(how < 2) { r = w_search(&w, &ev, how); if(r) free_report(r); } else w_exists(&w, &ev, how == 2);
            if(held() != h) sfail("%zd bytes more are held after a search", (ssize_t)(held() - h));
        }
    }
    w_close(&w);
    size_t end = held();
    if(warm && end != start) sfail("%zd bytes are still held after everything was released", (ssize_t)(end - start));
    warm = true;
}
