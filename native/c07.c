/* C07: what is refused, what is accepted, and that a refusal changes no later search. */
#include "trees.h"
const char* family_name = "C07 validation";
/* forms of atom, and the types of variable each accepts */
static const struct { const char* fmt; unsigned ok; } form[] = {
#define T(x) (1u << BETREE_##x)
    { "%s > 1", T(INTEGER) | T(FLOAT) }, { "%s <= 1.5", T(FLOAT) }, { "2 >= %s", T(INTEGER) | T(FLOAT) }, { "%s = 1", T(INTEGER) | T(FLOAT) | T(INTEGER_ENUM) }, { "%s <> 1.5", T(FLOAT) }, { "%s = \"a\"", T(STRING) },
    { "%s", T(BOOLEAN) }, { "%s in (1, 2)", T(INTEGER) }, { "%s not in (\"a\", \"b\")", T(STRING) }, { "1 in %s", T(INTEGER_LIST) }, { "\"a\" not in %s", T(STRING_LIST) },
    { "%s one of (1, 2)", T(INTEGER_LIST) }, { "%s all of (1)", T(INTEGER_LIST) }, { "%s none of (\"a\")", T(STRING_LIST) }, { "contains(%s, \"a\")", T(STRING) }, { "starts_with(%s, \"a\")", T(STRING) }, { "segment_within(%s, 1, 20)", T(SEGMENTS) }, { "segment_before(%s, 1, 20)", T(SEGMENTS) },
};
#define NFORM ((int)(sizeof form / sizeof *form))
static const struct { const char* txt; unsigned ok; } lits[] = {
    { "true", T(BOOLEAN) }, { "3", T(INTEGER) | T(FLOAT) | T(INTEGER_ENUM) }, { "-2.5", T(FLOAT) }, { "\"a\"", T(STRING) }, { "[]", T(INTEGER_LIST) | T(STRING_LIST) | T(SEGMENTS) | T(FREQUENCY_CAPS) }, { "[3, 1]", T(INTEGER_LIST) },
    { "[\"b\", \"a\"]", T(STRING_LIST) }, { "[[1, 20000000]]", T(SEGMENTS) }, { "[[[\"flight\", 10, \"a\"], 1, 2]]", T(FREQUENCY_CAPS) },
};
static uint64_t snapshot(struct world* w, struct oevent* evs, int n)
{
    uint64_t h = 7;
    for(int j = 0; j < n; j++) {
        struct report* r = w_search(w, &evs[j], false); if(!r) { h = h * 31 + 1; continue; }
        uint64_t sum = 0; for(size_t i = 0; i < r->matched; i++) sum += (r->subs[i] + 1) * 0x9E3779B97F4A7C15ull;
        h = h * 1000003 + r->matched * 17 + sum; free_report(r);
    }
    return h;
}
#define NEV 8
/* distinct strings / enum values per variable: given for sure, and possibly given */
static unsigned sure[MAXV], maybe[MAXV];
static bool loose; /* an unvalidated way in may have changed how many values a variable allows */
static void need(const struct schema* s, const struct ex* e, unsigned* m)
{
    if(!e) return;
    need(s, e->l, m); need(s, e->r_, m);
    if(e->v < 0) return;
    enum betree_value_type_e t = s->v[e->v].t;
    if(t == BETREE_INTEGER_ENUM && e->k == O_EQ) m[e->v] |= 1u << ((e->i + 20) / 7 & 31);
    if((t == BETREE_STRING || t == BETREE_STRING_LIST) && e->is_s) { if(e->k == O_EQ || e->k == O_INVAR) m[e->v] |= 1u << e->s; else if(e->k == O_VARIN || e->k == O_LIST) for(int j = 0; j < e->n; j++) m[e->v] |= 1u << e->sl[j]; }
}
void family_round(void)
{
    static struct world w; static struct oevent evs[NEV];
    w_open(&w, (struct schema_opt){ .max_each = 2, .specials = true, .all_undef = coin(30), .tight_strings = coin(60) }, coin(50) ? 0 : 2, 0);
    for(int j = 0; j < NEV; j++) gen_event(&w.s, &evs[j], rn(3) * 20);
    memset(sure, 0, sizeof sure); memset(maybe, 0, sizeof maybe); loose = false;
    for(int i = 0; i < 14; i++) {
        betree_sub_t id = (betree_sub_t)i + 1;
        if(coin(50)) {
            /* well typed */
            struct ex* e = gen_expr(&w.s, (struct ex_opt){ .depth = rn(3), .nulls = true, .specials = true, .lit_pct = 3, .only_var = -1 });
            unsigned m[MAXV] = { 0 }; need(&w.s, e, m); bool must = true, mustnot = false;
            for(int v = 0; v < w.s.n; v++) {
                if(w.s.v[v].t != BETREE_STRING && w.s.v[v].t != BETREE_STRING_LIST && w.s.v[v].t != BETREE_INTEGER_ENUM) continue;
                if(m[v] && (loose || (size_t)__builtin_popcount(maybe[v] | m[v]) > w.s.v[v].cap)) must = false;
                if(!loose && (size_t)__builtin_popcount(sure[v] | m[v]) > w.s.v[v].cap && (m[v] & ~sure[v])) mustnot = true;
            }
            uint64_t h0 = snapshot(&w, evs, NEV);
            bool fits = !ex_has_freq(e) || coin(80);
            bool ok;
            if(fits) ok = w_add(&w, id, e, 0);
            else { /* without the constants of its caps */
                char* tx = ex_text(&w.s, e); slog("insert without constants: %s\n", tx); ok = betree_insert(w.t, id, tx); free(tx); free_ex(e);
                if(ok) sfail("accepted without the constant of its frequency cap"); must = false; mustnot = false; }
            if(must && !ok) sfail("a well typed expression was refused");
            if(mustnot && ok) sfail("an expression with more distinct values than its variable allows was accepted");
            for(int v = 0; v < w.s.n; v++) { maybe[v] |= m[v]; if(ok) sure[v] |= m[v]; }
            if(!ok && snapshot(&w, evs, NEV) != h0) sfail("a refused expression changed the result of a search");
        }
        else {
            /* one atom, maybe ill typed or undeclared, nested in a well typed expression without strings */
            int f = rn(NFORM); int v = rn(w.s.n); bool undecl = coin(20); char atom[256], tx[4096];
            snprintf(atom, sizeof atom, form[f].fmt, undecl ? "nosuch" : w.s.v[v].name);
            bool good = !undecl && (form[f].ok & (1u << w.s.v[v].t));
            if(strncmp(atom, "segment", 7) == 0) good = good && schema_find(&w.s, "now") >= 0;
            if(coin(12)) { snprintf(atom, sizeof atom, "within_frequency_cap(\"flight\", \"a\", 3, 0)"); good = schema_find(&w.s, "frequency_caps") >= 0 && schema_find(&w.s, "now") >= 0; }
            else if(coin(8)) { snprintf(atom, sizeof atom, "within_frequency_cap(\"nokind\", \"a\", 3, 0)"); good = false; }
            else if(coin(10)) { snprintf(atom, sizeof atom, "geo_within_radius(1, 2, 30)"); good = schema_find(&w.s, "latitude") >= 0; }
            else if(coin(10)) { static const char* u[] = { "nosuch is null", "nosuch is not null", "nosuch is empty" }; snprintf(atom, sizeof atom, "%s", u[rn(3)]); good = false; }
            else if(coin(10)) { snprintf(atom, sizeof atom, "segment_before(4, 20)"); good = schema_find(&w.s, "segments_with_timestamp") >= 0 && schema_find(&w.s, "now") >= 0; }
            snprintf(tx, sizeof tx, "%s", atom);
            for(int d = rn(3); d > 0; d--) { char o[4096]; snprintf(o, sizeof o, "%s", tx); int k = rn(5); snprintf(tx, sizeof tx, k == 0 ? "not (%s)" : k == 1 ? "(%s and true)" : k == 2 ? "(false or %s)" : k == 3 ? "(%s or true)" : "(true and %s)", o); }
            if(coin(6)) { /* a character no expression has, anywhere outside a string */
                static const char odd[] = "@#$;?^{}[]`"; size_t n = strlen(tx), at = (size_t)rn((int)n + 1); int q = 0; for(size_t z = 0; z < at; z++) q ^= tx[z] == '"';
                if(!q) { memmove(tx + at + 2, tx + at, n - at + 1); tx[at] = ' '; tx[at + 1] = odd[rn(11)]; good = false; }
            }
            bool strs = strchr(atom, '"') && strncmp(atom, "contains", 8) && strncmp(atom, "starts", 6);
            int way = rn(3); uint64_t h0 = snapshot(&w, evs, NEV); bool ok;
            slog("%s: %s\n", way == 0 ? "insert" : way == 1 ? "make_sub" : "change boundaries", tx);
            if(way == 0) ok = betree_insert_with_constants(w.t, id + 1000, w.c.n, (const struct betree_constant**)w.c.c, tx);
            else if(way == 1) { const struct betree_sub* s = betree_make_sub(w.t, id + 1000, w.c.n, (const struct betree_constant**)w.c.c, tx); ok = s != NULL; if(s && !betree_insert_sub(w.t, s)) sfail("a made subscription was refused"); }
            else ok = betree_change_boundaries(w.t, tx);
            if(!good && ok) sfail("an invalid expression was accepted");
            bool capped = loose; for(int q = 0; q < w.s.n; q++) if(w.s.v[q].cap && w.s.v[q].cap < 8) capped = true;
            if(good && !ok && !(way == 0 && (strs || w.s.v[v].t == BETREE_INTEGER_ENUM) && capped)) sfail("a well typed expression was refused");
            if(!ok && snapshot(&w, evs, NEV) != h0) sfail("a refused expression changed the result of a search");
            if(strs || w.s.v[v].t == BETREE_INTEGER_ENUM) loose = true;
        }
    }
    for(int j = 0; j < 12; j++) {
        static struct oevent ev; gen_event(&w.s, &ev, rn(3) * 25); int v = rn(w.s.n); int l = rn((int)(sizeof lits / sizeof *lits)); bool want;
        char* et = event_text(&w.s, &ev); char* tx = malloc(strlen(et) + 256); int mode = rn(3);
        if(mode == 0) { strcpy(tx, et); want = true; }
        else {
            ev.v[v].def = false; free(et); et = event_text(&w.s, &ev);
            /* drop the null entry, if any, then add the value under test */
            char nul[64]; snprintf(nul, sizeof nul, "\"%s\": null", w.s.v[v].name); char* p = strstr(et, nul);
            if(p) memset(p, ' ', strlen(nul)), sprintf(p, "\"%s\":null", w.s.v[v].name), p[strlen(p)] = ' ';
            if(mode == 1 || p) { strcpy(tx, et); want = w.s.v[v].undef; }
            else { et[strlen(et) - 1] = 0; sprintf(tx, "%s%s\"%s\": %s}", et, strlen(et) > 1 ? ", " : "", w.s.v[v].name, lits[l].txt); want = (lits[l].ok >> w.s.v[v].t) & 1; }
        }
        slog("event: %s\n", tx);
        struct report* r = make_report(); bool ok = betree_search(w.t, tx, r);
        if(ok != want) sfail("the search %s an event that is %s", ok ? "accepts" : "refuses", want ? "valid" : "invalid");
        bool x = betree_exists(w.t, tx);
        if(!want && x) sfail("the existence query accepts an invalid event");
        if(want && x != (r->matched > 0)) sfail("the existence query says %d, %zu match", x, r->matched);
        free_report(r); free(tx); free(et);
    }
    w_close(&w);
    /* special predicates over variables declared with any type, or not at all */
    struct betree* t = betree_make(); enum betree_value_type_e ty[5]; bool dec[5];
    static const char* vn[5] = { "now", "latitude", "longitude", "segments_with_timestamp", "frequency_caps" };
    static const enum betree_value_type_e right[5] = { BETREE_INTEGER, BETREE_FLOAT, BETREE_FLOAT, BETREE_SEGMENTS, BETREE_FREQUENCY_CAPS };
    static const enum betree_value_type_e any[] = { BETREE_BOOLEAN, BETREE_INTEGER, BETREE_FLOAT, BETREE_STRING, BETREE_INTEGER_LIST, BETREE_STRING_LIST, BETREE_SEGMENTS, BETREE_FREQUENCY_CAPS, BETREE_INTEGER_ENUM };
    for(int i = 0; i < 5; i++) {
        dec[i] = coin(95); ty[i] = coin(80) ? right[i] : any[rn(9)]; if(!dec[i]) continue;
        const char* n = vn[i]; slog("declare %s type %d\n", n, ty[i]);
        switch(ty[i]) {
            case BETREE_BOOLEAN: betree_add_boolean_variable(t, n, true); break;
            case BETREE_INTEGER: betree_add_integer_variable(t, n, true, INT64_MIN, INT64_MAX); break;
            case BETREE_FLOAT: betree_add_float_variable(t, n, true, -1e6, 1e6); break;
            case BETREE_STRING: betree_add_string_variable(t, n, true, 50); break;
            case BETREE_INTEGER_LIST: betree_add_integer_list_variable(t, n, true, INT64_MIN, INT64_MAX); break;
            case BETREE_STRING_LIST: betree_add_string_list_variable(t, n, true, 50); break;
            case BETREE_SEGMENTS: betree_add_segments_variable(t, n, true); break;
            case BETREE_FREQUENCY_CAPS: betree_add_frequency_caps_variable(t, n, true); break;
            default: betree_add_integer_enum_variable(t, n, true, 50); break;
        }
    }
#define RIGHT(i) (dec[i] && ty[i] == right[i])
    struct betree_constant* cs[1] = { betree_make_integer_constant("flight_id", 7) };
    for(int i = 0; i < 4; i++) {
        static const char* sp[4] = { "within_frequency_cap(\"flight\", \"a\", 3, 0)", "segment_within(4, 20)", "segment_before(4, 20)", "geo_within_radius(1, 2, 30)" };
        bool want = i == 0 ? RIGHT(4) && RIGHT(0) : i < 3 ? RIGHT(3) && RIGHT(0) : RIGHT(1) && RIGHT(2);
        slog("special: %s\n", sp[i]);
        bool ok = betree_insert_with_constants(t, (betree_sub_t)i + 1, 1, (const struct betree_constant**)cs, sp[i]);
        if(ok != want) sfail("the predicate was %s although the variables it reads %s", ok ? "accepted" : "refused", want ? "are declared with the right types" : "are not declared with the right types");
    }
    betree_free_constant(cs[0]); betree_free(t);
}
