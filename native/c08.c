/* C08: dictionaries against a model. */
#include "trees.h"
const char* family_name = "C08 dictionary";
#define NS 3
#define NW 24
void family_round(void)
{
    struct betree* t = betree_make(); size_t cap[2 * NS]; char nm[16];
    static char words[NW][128];
    for(int i = 0; i < NW; i++) { if(i && coin(40)) snprintf(words[i], 32, "%.20s%c", words[rn(i)], 'a' + rn(26)); else { int k = rn(12); for(int j = 0; j < k; j++) words[i][j] = (char)(coin(80) ? 'a' + rn(26) : 33 + rn(200)); words[i][k] = 0; } for(int j = 0; j < i; j++) if(!strcmp(words[i], words[j])) { snprintf(words[i], 32, "w%d_%d", i, rn(100000)); } }
    if(coin(50)) { int k = rn(NW - 1); char a[128], b[128]; gen_collision_at(a, b, coin(60) ? rn(5) : rn(110)); bool dupl = false; for(int i = 0; i < NW; i++) if(!strcmp(words[i], a) || !strcmp(words[i], b)) dupl = true; if(!dupl) { strcpy(words[k], a); strcpy(words[k + 1], b); } }
    for(int v = 0; v < 2 * NS; v++) {
        cap[v] = coin(60) ? 1 + (size_t)rn(8) : SIZE_MAX; snprintf(nm, sizeof nm, "v%d", v); slog("%s %s %zu\n", nm, v < NS ? "string" : "enum", cap[v]);
        if(v >= NS) betree_add_integer_enum_variable(t, nm, true, cap[v]); else if(v == 2) betree_add_string_list_variable(t, nm, true, cap[v]); else betree_add_string_variable(t, nm, true, cap[v]);
    }
    uint64_t id[2 * NS][NW]; bool has[2 * NS][NW]; size_t cnt[2 * NS]; memset(has, 0, sizeof has); memset(cnt, 0, sizeof cnt);
    int ops = 60 + rn(200);
    for(int i = 0; i < ops; i++) {
        int v = rn(2 * NS), x = rn(NW); bool always = coin(15); snprintf(nm, sizeof nm, "v%d", v);
        struct attr_var a = make_attr_var(nm, t->config); int64_t iv = x % 3 == 2 ? (x - 1 - 8) * 1000003LL + ((int64_t)1 << (31 + x)) : (x - 8) * 1000003LL; bool look = coin(35); uint64_t got;
        slog("%s %s %s%s\n", look ? "look up" : "get", nm, v < NS ? words[x] : "", v < NS ? "" : "#"); if(v >= NS) slog("   %lld\n", (long long)iv);
        if(look) got = v < NS ? try_get_id_for_string(t->config, a, words[x]) : try_get_id_for_ienum(t->config, a, iv);
        else got = v < NS ? get_id_for_string(t->config, a, words[x], always) : get_id_for_ienum(t->config, a, iv, always);
        if(has[v][x]) { if(got != id[v][x]) sfail("the id of a value changed from %llu to %llu", (unsigned long long)id[v][x], (unsigned long long)got); }
        else if(look) { if(got != UINT64_MAX) sfail("an id for a value never given one"); }
        else if(!always && cnt[v] >= cap[v]) { if(got != UINT64_MAX) sfail("%zu ids for a variable with at most %zu", cnt[v] + 1, cap[v]); }
        else {
            if(got == UINT64_MAX) sfail("no id although there is room");
            for(int y = 0; y < NW; y++) if(has[v][y] && id[v][y] == got) sfail("two values have the id %llu", (unsigned long long)got);
            has[v][x] = true; id[v][x] = got; cnt[v]++;
            if(!always && cap[v] != SIZE_MAX && got >= cap[v] && cnt[v] <= cap[v]) sfail("id %llu outside of the range of the variable", (unsigned long long)got);
        }
        free_attr_var(a);
    }
    /* through the public interface: events give no ids, values of one variable don't affect another */
    for(int i = 0; i < 10; i++) {
        char ev[400]; int x = rn(NW); size_t n0 = 0, n1 = 0;
        for(size_t k = 0; k < t->config->string_map_count; k++) n0 += t->config->string_maps[k].string_value_count;
        for(size_t k = 0; k < t->config->integer_map_count; k++) n0 += t->config->integer_maps[k].integer_value_count;
        snprintf(ev, sizeof ev, "{\"v0\": \"unseen%d\", \"v2\": [\"u%d\", \"u%d\"], \"v3\": %d, \"v4\": %d}", x, x, x + 1, 900000 + x, 5 + x);
        struct report* r = make_report(); betree_search(t, ev, r); free_report(r); betree_exists(t, ev);
        for(size_t k = 0; k < t->config->string_map_count; k++) n1 += t->config->string_maps[k].string_value_count;
        for(size_t k = 0; k < t->config->integer_map_count; k++) n1 += t->config->integer_maps[k].integer_value_count;
        if(n0 != n1) sfail("an event created %zu ids", n1 - n0);
    }
    betree_free(t);
}
