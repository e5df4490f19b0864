//@ what every integer given for an integer enum in an expression is given the id the dictionary of its variable has for it; no other look-up is made and nothing else changes, by structural induction
//@ props C08 C07
//@ enforce_rec assign_ienum_id/numbered
//@ cbmc --unwind 12 --object-bits 10
//@ assume assign_enums: the dictionary gives ids as unit dictionary_ienum proves (a stub here: an arbitrary id, the same for the same value and variable)
//@ assume assign_enums: the variables of the expression are declared (unit declared)
#define ENUM 1
#define FUN assign_ienum_id
#include "assign_ids.c"
