/* C14: which constants a subscription needs, and that each frequency cap uses the one of its kind. */
#include "trees.h"
const char* family_name = "C14 constants";
static void kinds(const struct ex* e, unsigned* m) { if(!e) return; if(e->k == O_FREQ) *m |= 1u << (e->ftype / 2); kinds(e->l, m); kinds(e->r_, m); }
void family_round(void)
{
    static struct world w; w_open(&w, (struct schema_opt){ .max_each = 1, .specials = true, .all_undef = coin(50) }, coin(50) ? 0 : 3, 0);
    int fc = schema_find(&w.s, "frequency_caps");
    for(int i = 0; i < 10; i++) {
        int64_t vals[5]; for(int k = 0; k < 5; k++) vals[k] = rn(4) * 10 + 10 + (coin(5) ? 4000000000ll : 0);
        for(int k = 0; k < NFT; k++) fconst_value[k] = vals[k / 2];
        struct ex* e = gen_expr(&w.s, (struct ex_opt){ .depth = rn(5), .nulls = true, .specials = true, .lit_pct = 3, .only_var = fc >= 0 && coin(50) ? fc : -1 });
        unsigned need = 0, have = coin(40) ? 31u : (unsigned)rn(32); kinds(e, &need); if(coin(20)) have = need; if(coin(20) && need) have = 31u & ~(need & -need);
        struct betree_constant* c[8]; size_t n = 0; int ord[5] = { 0, 1, 2, 3, 4 }; for(int k = 4; k > 0; k--) { int j = rn(k + 1), t = ord[k]; ord[k] = ord[j]; ord[j] = t; }
        if(coin(30)) c[n++] = betree_make_integer_constant("something", 99);
        for(int k = 0; k < 5; k++) if(have >> ord[k] & 1) c[n++] = betree_make_integer_constant(fconst[ord[k] * 2], vals[ord[k]]);
        if(coin(30)) c[n++] = betree_make_integer_constant("flight", 98);
        char* tx = ex_text(&w.s, e); slog("insert %d: %s\n", i, tx); for(size_t k = 0; k < n; k++) slog("   constant %s = %lld\n", c[k]->name, (long long)c[k]->value.integer_value);
        struct betree* t = betree_make(); apply_schema(t, &w.s); for(int v = 0; v < w.s.n; v++) { enum betree_value_type_e ty = w.s.v[v].t; if(ty == BETREE_STRING || ty == BETREE_STRING_LIST || ty == BETREE_INTEGER_ENUM) t->config->attr_domains[v]->bound.smax = SIZE_MAX - 1; }
        bool ok; bool sub = coin(35); bool nulls_ok = true;
        if(!sub) ok = betree_insert_with_constants(t, 7, n, (const struct betree_constant**)c, tx);
        else { const struct betree_sub* x = betree_make_sub(t, 7, n, (const struct betree_constant**)c, tx); ok = x && betree_insert_sub(t, x); nulls_ok = false; }
        bool want = (need & ~have) == 0;
        if(ok && !want) sfail("accepted without a constant it needs");
        if(!ok && want && (nulls_ok || !strstr(tx, " is "))) sfail("refused with all the constants it needs");
        if(ok) for(int j = 0; j < 6; j++) {
            struct oevent ev; gen_event(&w.s, &ev, rn(3) * 15);
            if(fc >= 0) for(int k = 0; k < ev.v[fc].n; k++) { struct ocap* oc = &ev.v[fc].cap[k]; oc->id = coin(70) ? vals[oc->type / 2] : vals[rn(5)]; oc->ns = rn(2); if(coin(60)) oc->value = 8; }
            struct report* r = make_report(); char* et = event_text(&w.s, &ev);
            if(!betree_search(t, et, r)) { slog("event: %s\n", et); sfail("search refused"); }
            bool exp = ex_eval(&w.s, e, &ev); if((r->matched == 1) != exp) { slog("event: %s\n", et); sfail("the search %s it", exp ? "misses" : "reports"); }
            free(et); free_report(r);
        }
        betree_free(t); betree_free_constants(n, c); free_ex(e); free(tx);
    }
    for(int k = 0; k < NFT; k++) fconst_value[k] = 10 * (k / 2 + 1);
    w_close(&w);
}
