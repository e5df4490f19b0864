//@ what setting, clearing and testing a bit of a set of any size touches and reads that bit only
//@ props C13 C04 C03
//@ functions set_bit clear_bit test_bit
//@ nodfcc
//@ solver minisat
//@ cbmc --bounds-check --pointer-check
//@ bounded
#include "spec.h"
#include "memoize.c"
int main()
{
    size_t n; ASSUME(n > 0 && n < ((size_t)1 << 40));
    uint64_t* A = malloc(n * 8); uint64_t k, g; ASSUME(k / 64 < n && g / 64 < n);
    bool was = (A[g / 64] >> (g % 64)) & 1;
    ASSERT(test_bit(A, g) == was, "a bit is read");
    bool nc, c = nc ? true : false; if(c) set_bit(A, k); else clear_bit(A, k);
    bool now = (A[g / 64] >> (g % 64)) & 1;
    ASSERT(now == (g == k ? c : was), "the bit addressed changes, every other bit stays");
    ASSERT(test_bit(A, k) == c, "the bit set or cleared reads so");
    REACH();
}
