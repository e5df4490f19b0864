//@ what appending to any growing collection of any length keeps every element, adds the new one at the end, raises the count by one and stays inside the allocated memory
//@ props C18 C05 C06 C08
//@ functions add_integer_list_value add_string_list_value add_segment add_frequency insert_sub add_sub add_sub_to_eval init_subs_to_eval add_variable add_attr_domain make_attr_domain add_integer_map add_string_map add_to_integer_map
//@ nodfcc
//@ cbmc --bounds-check --pointer-check --pointer-overflow-check --unwind 6
//@ bounded --unwind 6
//@ assume growth: realloc gives back a block of the size asked for that holds what the old one held (one arbitrary element is followed), malloc and calloc do not fail, counts stay below 2^40
//@ variant integers@C18 -DW=1
//@ variant strings@C18 -DW=2
//@ variant segments@C18 -DW=3
//@ variant caps@C18 -DW=4
//@ variant leaf@C05,C18 -DW=5
//@ variant report@C06,C18 -DW=6
//@ variant to_eval@C06,C18 -DW=7
//@ variant event@C18 -DW=8
//@ variant domains@C08,C18 -DW=9
//@ variant imaps@C08,C18 -DW=10
//@ variant smaps@C08,C18 -DW=11
//@ variant ivalues@C08,C18 -DW=12
#include "spec.h"
#include "config.h"
#include "value.h"
#if W == 1 || W == 12
typedef int64_t E;
#elif W == 2
typedef struct string_value E;
#elif W == 3
typedef struct betree_segment* E;
#elif W == 4
typedef struct betree_frequency_cap* E;
#elif W == 5 || W == 7
typedef struct betree_sub* E;
#elif W == 6
typedef betree_sub_t E;
#elif W == 8
typedef struct betree_variable* E;
#elif W == 9
typedef struct attr_domain* E;
#elif W == 10
typedef struct integer_map E;
#elif W == 11
typedef struct string_map E;
#endif
static size_t n, G; static E* base;
void* model_realloc(void* p, size_t size)
{
    ASSERT(p == base, "the block that grows is the one of the collection");
    E* q = malloc(size); if(p != NULL && (G + 1) * sizeof(E) <= size) q[G] = ((E*)p)[G];
    free(p); return q;
}
#define realloc model_realloc
#include "alloc.c"
#include "value.c"
#include "config.c"
#include "tree.c"
/* COLL: pointer to the collection, A: its elements, C: its count, CALL: the append, SAME(x, y), NEW(x): the element at the end is the one given */
#define CHECK(A, C, CALL, SAME, NEW) \
    base = n > 0 ? malloc(n * sizeof(E)) : NULL; A = base; C = n; E old; if(n > 0) { ASSUME(G < n); old = base[G]; } else ASSUME(G == 0); \
    CALL; \
    ASSERT(C == n + 1, "the count is one more"); \
    if(n > 0) { E now = A[G]; ASSERT(SAME(old, now), "every earlier element is where it was"); } \
    E last = A[n]; ASSERT(NEW(last), "the new element is at the end");
#define EQ(x, y) ((x) == (y))
int main()
{
    size_t nn, g; ASSUME(nn < ((size_t)1 << 40)); n = nn; G = g;
#if W == 1
    struct betree_integer_list* l = make_integer_list(); int64_t v;
#define NEW(x) ((x) == v)
    CHECK(l->integers, l->count, add_integer_list_value(v, l), EQ, NEW)
#elif W == 2
    struct betree_string_list* l = make_string_list(); struct string_value v;
#define SAME(x, y) ((x).string == (y).string && (x).var == (y).var && (x).str == (y).str)
#define NEW(x) SAME(x, v)
    CHECK(l->strings, l->count, add_string_list_value(v, l), SAME, NEW)
#elif W == 3
    struct betree_segments* l = make_segments(); E v;
#define NEW(x) ((x) == v)
    CHECK(l->content, l->size, add_segment(v, l), EQ, NEW)
#elif W == 4
    struct betree_frequency_caps* l = make_frequency_caps(); E v;
#define NEW(x) ((x) == v)
    CHECK(l->content, l->size, add_frequency(v, l), EQ, NEW)
#elif W == 5
    struct lnode l; E v;
#define NEW(x) ((x) == v)
    CHECK(l.subs, l.sub_count, insert_sub(v, &l), EQ, NEW)
#elif W == 6
    struct report R, *l = &R; E v;
#define NEW(x) ((x) == v)
    CHECK(l->subs, l->matched, add_sub(v, l), EQ, NEW)
#elif W == 7
    struct subs_to_eval l; E v; init_subs_to_eval(&l);
    ASSERT(l.count == 0 && l.capacity > 0 && __CPROVER_rw_ok(l.subs, l.capacity * sizeof(E)), "the list starts empty with room");
    size_t cap; ASSUME(cap >= n && cap > 0 && cap < ((size_t)1 << 40)); base = malloc(cap * sizeof(E)); l.subs = base; l.count = n; l.capacity = cap; E old;
    if(n > 0) { ASSUME(G < n); old = base[G]; }
    add_sub_to_eval(v, &l);
    ASSERT(l.count == n + 1 && l.capacity >= l.count && __CPROVER_rw_ok(l.subs, l.capacity * sizeof(E)), "the count is one more, within the capacity, which the block has");
    if(n > 0) ASSERT(l.subs[G] == old, "every earlier element is where it was");
    ASSERT(l.subs[n] == v, "the new element is at the end");
#elif W == 8
    struct betree_event R, *l = &R; struct betree_variable V; E v = &V;
#define NEW(x) ((x) == v)
    CHECK(l->variables, l->variable_count, add_variable(v, l), EQ, NEW)
    size_t before = l->variable_count; add_variable(NULL, l); ASSERT(l->variable_count == before, "nothing is added for no variable");
#elif W == 9
    struct config c; struct value_bound b; bool u0, u = u0 ? true : false; b.value_type = BETREE_INTEGER; int64_t i0, i1; b.imin = i0; b.imax = i1;
#define NEW(x) ((x)->attr_var.var == n && (x)->bound.value_type == BETREE_INTEGER && (x)->bound.imin == i0 && (x)->bound.imax == i1 && (x)->allow_undefined == u && (x)->attr_var.attr[0] == 'a' && (x)->attr_var.attr[1] == 0)
    CHECK(c.attr_domains, c.attr_domain_count, add_attr_domain(&c, "a", b, u), EQ, NEW)
#elif W == 10
    struct config c; struct attr_var a; betree_var_t x; a.var = x; a.attr = "a";
#define SAME(x, y) ((x).attr_var.attr == (y).attr_var.attr && (x).attr_var.var == (y).attr_var.var && (x).integer_value_count == (y).integer_value_count && (x).integer_values == (y).integer_values)
#define NEW(e) ((e).attr_var.var == x && (e).integer_value_count == 0)
    CHECK(c.integer_maps, c.integer_map_count, add_integer_map(a, &c), SAME, NEW)
#elif W == 11
    struct config c; struct attr_var a; betree_var_t x; a.var = x; a.attr = "a";
#define SAME(x, y) ((x).attr_var.attr == (y).attr_var.attr && (x).attr_var.var == (y).attr_var.var && (x).string_value_count == (y).string_value_count && (x).m.base.buckets == (y).m.base.buckets && (x).m.base.nbuckets == (y).m.base.nbuckets && (x).m.base.nnodes == (y).m.base.nnodes)
#define NEW(e) ((e).attr_var.var == x && (e).string_value_count == 0 && (e).m.base.nnodes == 0 && (e).m.base.nbuckets == 0 && (e).m.base.buckets == NULL)
    CHECK(c.string_maps, c.string_map_count, add_string_map(a, &c), SAME, NEW)
#elif W == 12
    struct integer_map m; int64_t v;
#define NEW(x) ((x) == v)
    CHECK(m.integer_values, m.integer_value_count, add_to_integer_map(&m, v), EQ, NEW)
#endif
    REACH();
}
