/* C18: growing collections against plain models, under AddressSanitizer. */
#include "trees.h"
#include "value.h"
const char* family_name = "C18 growth";
static int len(void) { return coin(60) ? rn(8) : coin(70) ? rn(70) : rn(400); }
void family_round(void)
{
    switch(rn(9)) {
        case 0: { int n = len(); slog("%d integers\n", n); int64_t* m = malloc(sizeof(*m) * (size_t)(n + 1)); struct betree_integer_list* l = make_integer_list();
            for(int i = 0; i < n; i++) { m[i] = (int64_t)rnd(); add_integer_list_value(m[i], l); if(l->count != (size_t)i + 1) sfail("count"); }
            for(int i = 0; i < n; i++) if(l->integers[i] != m[i]) sfail("integer %d changed", i);
            free_integer_list(l); free(m); break; }
        case 1: { int n = len(); slog("%d strings\n", n); struct betree_string_list* l = make_string_list();
            for(int i = 0; i < n; i++) { char t[32]; snprintf(t, sizeof t, "v%d", i); struct string_value v = { .string = strdup(t), .var = (betree_var_t)i, .str = (betree_str_t)i * 3 }; add_string_list_value(v, l); if(l->count != (size_t)i + 1) sfail("count"); }
            for(int i = 0; i < n; i++) { char t[32]; snprintf(t, sizeof t, "v%d", i); if(strcmp(l->strings[i].string, t) || l->strings[i].var != (betree_var_t)i || l->strings[i].str != (betree_str_t)i * 3) sfail("string %d changed", i); }
            free_string_list(l); break; }
        case 2: { int n = len(); slog("%d segments\n", n); struct betree_segments* l = make_segments();
            for(int i = 0; i < n; i++) { add_segment(make_segment(i * 5, i * 7), l); if(l->size != (size_t)i + 1) sfail("count"); }
            for(int i = 0; i < n; i++) if(l->content[i]->id != i * 5 || l->content[i]->timestamp != i * 7) sfail("segment %d changed", i);
            free_segments(l); break; }
        case 3: { int n = len(); slog("%d caps\n", n); struct betree_frequency_caps* l = make_frequency_caps();
            for(int i = 0; i < n; i++) { struct string_value ns = { .string = strdup("n"), .var = 1, .str = 2 }; add_frequency(make_frequency_cap(ftypes[i % NFT], (uint32_t)i, ns, i & 1, i * 3, (uint32_t)i + 9), l); if(l->size != (size_t)i + 1) sfail("count"); }
            for(int i = 0; i < n; i++) { struct betree_frequency_cap* c = l->content[i]; if(c->id != (uint32_t)i || c->timestamp_defined != (i & 1) || c->timestamp != i * 3 || c->value != (uint32_t)i + 9 || c->type != get_type_from_string(ftypes[i % NFT])) sfail("cap %d changed", i); }
            free_frequency_caps(l); break; }
        case 4: { int n = len(); slog("%d event variables\n", n); struct betree_event* e = make_empty_event(); struct betree_variable** m = malloc(sizeof(*m) * (size_t)(n + 1));
            for(int i = 0; i < n; i++) { char t[32]; snprintf(t, sizeof t, "v%d", i); m[i] = betree_make_integer_variable(t, i); add_variable(m[i], e); if(e->variable_count != (size_t)i + 1) sfail("count"); }
            for(int i = 0; i < n; i++) { char t[32]; snprintf(t, sizeof t, "v%d", i); if(e->variables[i] != m[i] || strcmp(m[i]->attr_var.attr, t) || m[i]->value.integer_value != i) sfail("variable %d changed", i); }
            betree_free_event(e); free(m); break; }
        case 5: { int n = 1 + len(); slog("%d declared variables and their dictionaries\n", n); struct betree* t = betree_make();
            for(int i = 0; i < n; i++) {
                char s[32]; snprintf(s, sizeof s, "v%d", i); bool u = i % 3 != 1; size_t before = t->config->attr_domain_count;
                switch(i % 9) { case 0: betree_add_boolean_variable(t, s, u); break; case 1: betree_add_integer_variable(t, s, u, -i, i); break; case 2: betree_add_float_variable(t, s, u, -i, i); break; case 3: betree_add_string_variable(t, s, u, (size_t)i); break; case 4: betree_add_integer_list_variable(t, s, u, -i, i); break;
                    case 5: betree_add_string_list_variable(t, s, u, (size_t)i); break; case 6: betree_add_segments_variable(t, s, u); break; case 7: betree_add_frequency_caps_variable(t, s, u); break; case 8: betree_add_integer_enum_variable(t, s, u, (size_t)i); break; }
                if(t->config->attr_domain_count != before + 1) sfail("count");
            }
            static const enum betree_value_type_e ty[] = { BETREE_BOOLEAN, BETREE_INTEGER, BETREE_FLOAT, BETREE_STRING, BETREE_INTEGER_LIST, BETREE_STRING_LIST, BETREE_SEGMENTS, BETREE_FREQUENCY_CAPS, BETREE_INTEGER_ENUM };
            for(int i = 0; i < n; i++) {
                char s[32]; snprintf(s, sizeof s, "v%d", i); const struct attr_domain* d = t->config->attr_domains[i];
                if(strcmp(d->attr_var.attr, s) || d->attr_var.var != (betree_var_t)i || d->bound.value_type != ty[i % 9] || d->allow_undefined != (i % 3 != 1)) sfail("declared variable %d changed", i);
                if((i % 9 == 1 || i % 9 == 4) && (d->bound.imin != -i || d->bound.imax != i)) sfail("range of %d changed", i);
                if((i % 9 == 3 || i % 9 == 5 || i % 9 == 8) && d->bound.smax != (size_t)i - 1) sfail("range of %d changed", i);
                struct betree_variable_definition f = betree_get_variable_definition(t, (size_t)i); if(strcmp(f.name, s) || f.type != ty[i % 9]) sfail("definition of %d is wrong", i);
            }
            for(int k = 0; k < 60; k++) { int i = rn(n); char s[32]; const struct attr_domain* d = t->config->attr_domains[i]; 
                if(i % 9 == 3 || i % 9 == 5) { for(int j = 0; j < 12; j++) { snprintf(s, sizeof s, "w%d", j); betree_str_t id = get_id_for_string(t->config, d->attr_var, s, true); if(id != (betree_str_t)j) sfail("id of %s for variable %d", s, i); } }
                if(i % 9 == 8) for(int j = 0; j < 12; j++) { betree_ienum_t id = get_id_for_ienum(t->config, d->attr_var, j * 11, true); if(id != (betree_ienum_t)j) sfail("id of %d for variable %d", j * 11, i); } }
            betree_free(t); break; }
        case 7: { /* as many declared variables as fill the words of the sets of variables */
            int n = coin(70) ? 64 * (1 + rn(3)) + rn(3) - 1 : 1 + rn(260); slog("%d boolean variables\n", n); struct betree* t = betree_make(); char s[120]; bool def[300], val[300]; int kind[40], var[40], other[40], k = 1 + rn(40);
            for(int i = 0; i < n; i++) { snprintf(s, sizeof s, "v%d", i); betree_add_boolean_variable(t, s, true); }
            for(int i = 0; i < k; i++) { kind[i] = rn(5); var[i] = coin(40) ? n - 1 - (n > 1 ? rn(2) : 0) : rn(n); other[i] = rn(n); int v = var[i];
                switch(kind[i]) { case 0: snprintf(s, sizeof s, "v%d", v); break; case 1: snprintf(s, sizeof s, "not v%d", v); break; case 2: snprintf(s, sizeof s, "v%d is null", v); break; case 3: snprintf(s, sizeof s, "v%d and not v%d", v, other[i]); break; default: snprintf(s, sizeof s, "v%d or v%d is not null", v, other[i]); }
                slog("%s\n", s); if(!betree_insert(t, (betree_sub_t)i, s)) sfail("refused"); }
            for(int q = 0; q < 4; q++) {
                int pct = rn(101); char* ev = malloc((size_t)n * 20 + 10); size_t m = 0; m += (size_t)sprintf(ev + m, "{"); bool first = true;
                for(int i = 0; i < n; i++) { def[i] = coin(pct); val[i] = def[i] && coin(50); if(def[i]) { m += (size_t)sprintf(ev + m, "%s\"v%d\": %s", first ? "" : ", ", i, val[i] ? "true" : "false"); first = false; } }
                if(first) { def[0] = val[0] = true; m += (size_t)sprintf(ev + m, "\"v0\": true"); }
                sprintf(ev + m, "}"); struct report* r = make_report(); if(!betree_search(t, ev, r)) sfail("search refused");
                for(int i = 0; i < k; i++) { int v = var[i], o = other[i]; bool w; switch(kind[i]) { case 0: w = val[v]; break; case 1: w = !val[v]; break; case 2: w = !def[v]; break; case 3: w = val[v] && !val[o]; break; default: w = val[v] || def[o]; }
                    bool h = false; for(size_t j = 0; j < r->matched; j++) h |= r->subs[j] == (betree_sub_t)i; if(h != w) sfail("subscription %d %s", i, h ? "reported" : "not reported"); }
                free_report(r); free(ev); }
            betree_free(t); break; }
        case 6: { /* reports and leaves */
            struct betree* t = coin(50) ? betree_make() : betree_make_with_parameters((uint64_t)(1 + rn(200)), 0); betree_add_boolean_variable(t, "b", true); betree_add_integer_variable(t, "i", true, 0, 100); int n = len(); slog("%d subscriptions\n", n);
            int match = 0; bool* exp = calloc((size_t)n + 1, 1);
            for(int i = 0; i < n; i++) { int c = rn(110); char s[64]; bool m; switch(rn(4)) { case 0: snprintf(s, sizeof s, "b"); m = true; break; case 1: snprintf(s, sizeof s, "not b"); m = false; break; case 2: snprintf(s, sizeof s, "i < %d", c); m = 50 < c; break; default: snprintf(s, sizeof s, "i >= %d or b", c); m = true; } slog("%s\n", s); if(!betree_insert(t, (betree_sub_t)i, s)) sfail("refused"); exp[i] = m; match += m; }
            struct report* r = make_report(); betree_search(t, "{\"b\": true, \"i\": 50}", r); if(r->matched != (size_t)match) sfail("%d should match, %zu do", match, r->matched);
            for(size_t i = 0; i < r->matched; i++) { if(r->subs[i] >= (betree_sub_t)n || !exp[r->subs[i]]) sfail("id %llu reported", (unsigned long long)r->subs[i]); exp[r->subs[i]] = false; }
            free_report(r); free(exp); betree_free(t); break; }
        default: { /* a leaf losing any of its elements: subscriptions with many variables, small leaves */
            static struct world w; w_open(&w, (struct schema_opt){ .max_each = 2, .all_undef = coin(50) }, 1 + rn(4), rn(3)); int n = 5 + rn(80);
            for(int i = 0; i < n; i++) w_add(&w, (betree_sub_t)i, gen_expr(&w.s, (struct ex_opt){ .depth = rn(3), .nulls = true, .lit_pct = 1, .only_var = -1 }), 0);
            const struct betree_sub* all[MAXSUB]; size_t k = walk_subs(w.t->cnode, all, MAXSUB); if(k != (size_t)w.n) sfail("%d accepted, %zu in the leaves", w.n, k);
            bool seen[MAXSUB] = { 0 }; for(size_t i = 0; i < k; i++) { if(seen[all[i]->id]) sfail("twice in the leaves"); seen[all[i]->id] = true; }
            static struct oevent ev; for(int j = 0; j < 3; j++) { gen_event(&w.s, &ev, 20); struct report* r = w_search(&w, &ev, coin(50)); if(!r) sfail("search refused"); for(int i = 0; i < w.n; i++) { bool x = ex_eval(&w.s, w.sub[i].e, &ev), h = report_has(r, w.sub[i].id); (void)x; (void)h; } free_report(r); }
            w_close(&w); break; }
    }
}
