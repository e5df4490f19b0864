/* Shared specification vocabulary.
 * __CPROVER_uninterpreted_* are specification functions: sem(n) is the truth value of expression n on
 * the event at hand.  It is pinned down one level at a time by the `define_*` assumptions of each
 * harness (structural induction: children are arbitrary, their sem is arbitrary).
 */
#ifndef SPEC_H
#define SPEC_H
#include <stdbool.h>
#include <stdint.h>
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#include "ast.h"
#include "tree.h"
#include "hashmap.h"
#define ASSUME(x) __CPROVER_assume(x)
#define ASSERT(x, d) __CPROVER_assert(x, d)
/* reaching abort() is a failed obligation */
#define abort() do { __CPROVER_assert(0, "the program does not abort"); __CPROVER_assume(0); } while(0)
#define REACH() __CPROVER_assert(0, "REACH")
#define IMPLIES(a, b) (!(a) || (b))
#define WF_BOOL(b) (*(unsigned char*)&(b) <= 1)
#ifndef EPS
#define EPS __DBL_EPSILON__
#endif
#endif
