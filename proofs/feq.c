//@ what floats are equal exactly when less than the machine epsilon apart; reflexive and symmetric
//@ props C12 C01
//@ functions feq fne
//@ nodfcc
//@ assume feq: floats are finite
#include "spec.h"
#include "utils.c"
int main()
{
    double a, b; ASSUME(__CPROVER_isfinited(a) && __CPROVER_isfinited(b));
    bool r = feq(a, b);
    ASSERT(r == (a - b < EPS && b - a < EPS), "less than the machine epsilon apart");
    ASSERT(feq(b, a) == r && feq(a, a) && fne(a, b) == !r, "symmetric, reflexive, and unequal is not equal");
    REACH();
}
