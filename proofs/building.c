//@ what a list or an event built with a number of places has that many, empty, and setting one place changes that place only; a variable built has the name and the value given
//@ props C18 C09
//@ functions betree_make_integer_list betree_add_integer betree_make_string_list betree_add_string betree_make_segments betree_add_segment betree_make_frequency_caps betree_add_frequency_cap betree_make_event betree_set_variable betree_make_variable betree_make_boolean_variable betree_make_integer_variable betree_make_float_variable betree_make_string_variable betree_make_integer_list_variable betree_make_string_list_variable betree_make_segments_variable betree_make_frequency_caps_variable make_attr_var betree_make_integer_constant betree_make_segment betree_make_frequency_cap make_report betree_get_variable_definition copy_attr_var
//@ nodfcc
//@ cbmc --bounds-check --pointer-check --pointer-overflow-check --unwind 20
//@ bounded --unwind 20
//@ assume building: malloc and calloc do not fail; the place set is one of the list (as its caller must see to); counts are below 2^40
//@ variant integers -DW=1
//@ variant strings -DW=2
//@ variant segments -DW=3
//@ variant caps -DW=4
//@ variant event -DW=5
//@ variant variables -DW=6
//@ variant parts@C14,C15,C06 -DW=7
#include "spec.h"
#include "betree.h"
#include "config.h"
#include "alloc.c"
#include "tree.c"
#include "value.c"
#include "betree.c"
/* A: the places, C: their number */
#define CHECK(make, A, C, SET, ISNEW, SAME, E) \
    make; ASSERT(C == n, "it has the number of places asked for"); \
    E other = A[g], old = other; ASSERT(i == g || 1, ""); \
    SET; ASSERT(C == n, "setting a place keeps their number"); \
    E now = A[i]; ASSERT(ISNEW(now), "the place holds what was set"); \
    if(g != i) { E kept = A[g]; ASSERT(SAME(old, kept), "the other places keep what they had"); }
#define EQ(x, y) ((x) == (y))
int main()
{
    size_t n, i, g; ASSUME(n < ((size_t)1 << 40) && i < n && g < n);
#if W == 1
    int64_t v;
#define NEW(x) ((x) == v)
    CHECK(struct betree_integer_list* l = betree_make_integer_list(n), l->integers, l->count, betree_add_integer(l, i, v), NEW, EQ, int64_t)
#elif W == 2
#define NEW(x) ((x).string[0] == 'a' && (x).string[1] == 0)
#define SAMES(x, y) ((x).string == (y).string && (x).var == (y).var && (x).str == (y).str)
    CHECK(struct betree_string_list* l = betree_make_string_list(n), l->strings, l->count, betree_add_string(l, i, "a"), NEW, SAMES, struct string_value)
#elif W == 3
    typedef struct betree_segment* PE; PE v;
#define NEW(x) ((x) == v)
    CHECK(struct betree_segments* l = betree_make_segments(n), l->content, l->size, betree_add_segment(l, i, v), NEW, EQ, PE)
#elif W == 4
    typedef struct betree_frequency_cap* PE; PE v;
#define NEW(x) ((x) == v)
    CHECK(struct betree_frequency_caps* l = betree_make_frequency_caps(n), l->content, l->size, betree_add_frequency_cap(l, i, v), NEW, EQ, PE)
#elif W == 5
    struct betree t; struct config c; t.config = &c; c.attr_domain_count = n; typedef struct betree_variable* PE; PE v;
#define NEW(x) ((x) == v)
    CHECK(struct betree_event* l = betree_make_event(&t), l->variables, l->variable_count, betree_set_variable(l, i, v), NEW, EQ, PE)
    struct betree_event* e = betree_make_event(&t); ASSERT(e->variables[g] == NULL, "nothing is defined in an event at first");
#elif W == 6
#define NAMED(v, T0) ASSERT(v->attr_var.attr[0] == 'a' && v->attr_var.attr[1] == 0 && v->value.value_type == T0, "it has the name and the type given")
    struct betree_variable* v; bool b0, b = b0 ? true : false; int64_t x; double f; struct betree_integer_list il; struct betree_string_list sl; struct betree_segments sg; struct betree_frequency_caps fc;
    v = betree_make_boolean_variable("a", b); NAMED(v, BETREE_BOOLEAN); ASSERT(v->value.boolean_value == b, "it has the value given");
    v = betree_make_integer_variable("a", x); NAMED(v, BETREE_INTEGER); ASSERT(v->value.integer_value == x, "it has the value given");
    v = betree_make_float_variable("a", f); NAMED(v, BETREE_FLOAT); ASSERT(v->value.float_value == f || f != f, "it has the value given");
    v = betree_make_string_variable("a", "b"); NAMED(v, BETREE_STRING); ASSERT(v->value.string_value.string[0] == 'b' && v->value.string_value.string[1] == 0, "it has the value given");
    v = betree_make_integer_list_variable("a", &il); NAMED(v, BETREE_INTEGER_LIST); ASSERT(v->value.integer_list_value == &il, "it has the value given");
    v = betree_make_string_list_variable("a", &sl); NAMED(v, BETREE_STRING_LIST); ASSERT(v->value.string_list_value == &sl, "it has the value given");
    v = betree_make_segments_variable("a", &sg); NAMED(v, BETREE_SEGMENTS); ASSERT(v->value.segments_value == &sg, "it has the value given");
    v = betree_make_frequency_caps_variable("a", &fc); NAMED(v, BETREE_FREQUENCY_CAPS); ASSERT(v->value.frequency_caps_value == &fc, "it has the value given");
#else
    char nm[3]; nm[1] = 0; ASSUME(nm[0] != 0); int64_t x, y; uint32_t id, v; bool td0, td = td0 ? true : false;
    struct betree_constant* c = betree_make_integer_constant(nm, x); ASSERT(c->name != nm && c->name[0] == nm[0] && c->name[1] == 0 && c->value.value_type == BETREE_INTEGER && c->value.integer_value == x, "the constant has the name and the value given, the name a text of its own");
    struct betree_segment* sg = betree_make_segment(x, y); ASSERT(sg->id == (betree_seg_t)x && sg->timestamp == y, "the segment has the id and the time given");
    struct betree_frequency_cap* f = betree_make_frequency_cap("flight", id, nm, td, x, v); ASSERT(f != NULL && f->type == FREQUENCY_TYPE_FLIGHT && f->id == id && f->namespace.string != nm && f->namespace.string[0] == nm[0] && f->namespace.string[1] == 0 && f->timestamp_defined == td && f->timestamp == x && f->value == v, "the cap has the parts given, the namespace a text of its own");
    ASSERT(betree_make_frequency_cap("ip", id, nm, td, x, v) == NULL, "no cap of a kind there is not");
    struct report* r = make_report(); ASSERT(r->evaluated == 0 && r->matched == 0 && r->memoized == 0 && r->shorted == 0 && r->subs == NULL, "a report starts with nothing");
    struct attr_var a; a.attr = nm; struct attr_var k = copy_attr_var(a); ASSERT(k.attr != nm && k.attr[0] == nm[0] && k.attr[1] == 0 && k.var == a.var, "the same variable, its name a text of its own");
    struct betree t; struct config cf; static struct attr_domain d0, d1; static struct attr_domain* ds[2]; ds[0] = &d0; ds[1] = &d1; t.config = &cf; cf.attr_domains = ds; cf.attr_domain_count = 2; d0.attr_var.attr = nm; d0.bound.value_type = BETREE_FLOAT; d1.attr_var.attr = "z"; int vt; ASSUME(vt >= 0 && vt <= BETREE_FREQUENCY_CAPS); d1.bound.value_type = vt;
    struct betree_variable_definition df = betree_get_variable_definition(&t, 1); ASSERT(df.name == d1.attr_var.attr && df.type == vt, "the name and the type declared");
#endif
    REACH();
}
