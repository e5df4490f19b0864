//@ what a list of strings, of any length and with repetitions, fits a variable exactly when the variable has room for those of its different strings that have no id there yet
//@ props C07
//@ functions strs_valid space_left_in_map
//@ cut ast.c (?<!size_t )\bget_attr_string_bound\( => bound_of(
//@ cut ast.c (?<!struct string_map\* )\bget_string_map_for_attr\( => map_of(
//@ rewrite ast.c strings->strings\[(\w+)\]\.string => TEXT_AT(strings, \1)
//@ loop ast.c strs_valid 1/2 : __CPROVER_assigns(i, needed, FRESH, KNOWN, CUR, FIRST, READ, MINE.m.ref) __CPROVER_loop_invariant(i <= NS && needed == FRESH && FRESH <= i && WF_BOOL(KNOWN)) __CPROVER_decreases(NS - i)
//@ ghost ast.c strs_valid 1/2 : INST(i)
//@ loop ast.c strs_valid 2/2 : __CPROVER_assigns(j, found, READ) __CPROVER_loop_invariant(j <= i && WF_BOOL(found) && found == (KNOWN || j > FIRST)) __CPROVER_decreases(i - j)
//@ cbmc --unwind 16 --object-bits 10
//@ bounded --unwind 6 --unwinding-assertions
//@ assume list_fits: the bound and the dictionary of the variable are found as unit string_fits proves; strcmp gives zero exactly on equal texts; a map finds what was stored (units map_chain, hash_map)
//@ assume list_fits: INST gives the text at hand any first place (FIRST) of an equal text, its own when it is the first, and lets it be known or not; FRESH counts those which are neither known nor repetitions; the bounded run keeps the array and counts the different texts
#include "spec.h"
#include "config.h"
#include <stdio.h>
#define MAX 4
static const char* ATTR; static struct string_map MINE; static bool HAS; static betree_str_t ID; static size_t BOUND, NS; static const struct config* CONF;
size_t bound_of(const struct config* config, const char* attr) { ASSERT(config == CONF && attr == ATTR, "the variable"); return BOUND; }
struct string_map* map_of(const struct config* config, const char* attr) { ASSERT(config == CONF && attr == ATTR, "the variable"); return HAS ? &MINE : NULL; }
int fprintf(FILE* f, const char* fmt, ...) { int r; return r; }
#ifdef BOUNDED
static bool KNOWN[MAX]; static char TXT[MAX];
int strcmp(const char* a, const char* b) { int r; ASSUME((r == 0) == (a == b)); return r; }
void* map_get_(map_base_t* m, const char* key) { ASSERT(HAS && m == &MINE.m.base && key >= TXT && key < TXT + MAX, "the text is looked up in the dictionary of the variable"); return KNOWN[key - TXT] ? &ID : NULL; }
#else
static size_t FRESH, CUR, FIRST, READ; static bool KNOWN; static char HERE, THERE; static const struct betree_string_list* LIST;
#define INST(i) if((i) < NS) { CUR = (i); size_t f; ASSUME(f <= CUR); FIRST = f; bool k; KNOWN = k && HAS; FRESH += !KNOWN && FIRST == CUR; }
static const char* text_at(const struct betree_string_list* l, size_t k) { ASSERT(l == LIST && k < NS, "inside of the list"); if(k == CUR) return &HERE; READ = k; return &THERE; }
#define TEXT_AT(l, k) text_at(l, k)
int strcmp(const char* a, const char* b)
{
    ASSERT(((a == &HERE && b == &THERE) || (a == &THERE && b == &HERE)) && READ < CUR, "compared with those before");
    int r; ASSUME(IMPLIES(READ < FIRST, r != 0) && IMPLIES(READ == FIRST, r == 0)); return r;
}
void* map_get_(map_base_t* m, const char* key) { ASSERT(HAS && m == &MINE.m.base && key == &HERE, "the text is looked up in the dictionary of the variable"); return KNOWN ? &ID : NULL; }
#endif
#include "ast.c"
int main()
{
    size_t n, b, used; ASSUME(n < (size_t)1 << 40);
#ifdef BOUNDED
    ASSUME(n <= MAX);
#endif
    NS = n; BOUND = b; bool h; HAS = h ? true : false; ASSUME(used < (size_t)1 << 40); MINE.string_value_count = used; static char a; ATTR = &a; struct config c; CONF = &c;
#ifdef BOUNDED
    struct string_value s[MAX]; for(size_t i = 0; i < MAX; i++) { bool k; KNOWN[i] = k && HAS; size_t t; ASSUME(t < MAX); s[i].string = &TXT[t]; }
    size_t fresh = 0; for(size_t t = 0; t < MAX; t++) { bool in = false; for(size_t i = 0; i < n; i++) in = in || s[i].string == &TXT[t]; fresh += in && !KNOWN[t]; }
    struct betree_string_list l = { n, s };
    bool r = strs_valid(&c, ATTR, &l);
#else
    FRESH = CUR = FIRST = READ = 0; KNOWN = false; struct betree_string_list l; l.count = n; LIST = &l;
    bool r = strs_valid(&c, ATTR, &l);
    size_t fresh = FRESH;
#endif
    size_t u = HAS ? used : 0;
    ASSERT(r == (b == SIZE_MAX || fresh == 0 || (u < b && fresh <= b - u)), "it fits exactly when there is room for the new ones");
    REACH();
}
