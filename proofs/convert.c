//@ what a value of an event gets the type of its variable exactly when it fits it, keeping the value, and is left alone otherwise
//@ props C07
//@ enforce convert_value/converts
//@ functions is_empty_list
//@ cbmc --unwind 10
#include "spec.h"
#include "var.c"
#include "tree.c"
static struct betree_integer_list IL; static struct betree_string_list SL; static struct betree_segments SE; static struct betree_frequency_caps FC;
static bool EMPTY;
#define IS_EMPTY(v) EMPTY
#include "convert.h"
int main()
{
    struct value v; int t, w; ASSUME(t >= BETREE_BOOLEAN && t <= BETREE_INTEGER_ENUM && w >= BETREE_BOOLEAN && w <= BETREE_INTEGER_ENUM); v.value_type = w;
    size_t a, b, c, d; IL.count = a; SL.count = b; SE.size = c; FC.size = d; EMPTY = false;
    int64_t i; double f; struct string_value s; struct integer_enum_value e; _Bool x;
    switch(w) {
        case BETREE_BOOLEAN: v.boolean_value = x ? true : false; break;
        case BETREE_INTEGER: v.integer_value = i; break;
        case BETREE_FLOAT: ASSUME(f == f); v.float_value = f; break;
        case BETREE_STRING: v.string_value = s; break;
        case BETREE_INTEGER_LIST: v.integer_list_value = &IL; EMPTY = a == 0; break;
        case BETREE_STRING_LIST: v.string_list_value = &SL; EMPTY = b == 0; break;
        case BETREE_SEGMENTS: v.segments_value = &SE; EMPTY = c == 0; break;
        case BETREE_FREQUENCY_CAPS: v.frequency_caps_value = &FC; EMPTY = d == 0; break;
        default: v.integer_enum_value = e;
    }
    struct value old = v;
    bool r = convert_value(t, &v);
    if(w == BETREE_INTEGER && t != BETREE_FLOAT) ASSERT(v.integer_value == i, "a whole number is kept");
    if(w == BETREE_INTEGER && t == BETREE_FLOAT) ASSERT(r && v.float_value == (double)i, "a whole number becomes that float");
    REACH();
}
