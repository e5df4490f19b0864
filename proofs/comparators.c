//@ what the comparisons the lists are sorted by agree with the order of their values (ids for strings), for every pair of values
//@ props C09
//@ functions icmpfunc scmpfunc iecmpfunc
//@ nodfcc
#include "spec.h"
#include "utils.c"
static int sign(int x) { return x < 0 ? -1 : x > 0; }
int main()
{
    int64_t a, b; struct string_value s, t; struct integer_enum_value e, f;
    ASSERT(sign(icmpfunc(&a, &b)) == (a < b ? -1 : a > b), "integers");
    ASSERT(sign(scmpfunc(&s, &t)) == (s.str < t.str ? -1 : s.str > t.str), "strings");
    ASSERT(sign(iecmpfunc(&e, &f)) == (e.ienum < f.ienum ? -1 : e.ienum > f.ienum), "integer enums");
    REACH();
}
