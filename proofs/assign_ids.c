//@ what every string of an expression is given the id the dictionary of its variable has for it, lists of any length included; no other look-up is made and nothing else changes, by structural induction
//@ props C08 C07
//@ enforce_rec assign_str_id/numbered
//@ rewrite ast.c ([\w.>-]+)->strings\[(\w+)\] => (*STR(\1, \2))
//@ loop ast.c assign_str_id 1/2 : __CPROVER_assigns(i, MINE.var, MINE.str, OTHER.string, OTHER.var, OTHER.str, CALLS) __CPROVER_loop_invariant(i <= SL.count && LIST_DONE(i)) __CPROVER_decreases(SL.count - i)
//@ ghost ast.c assign_str_id 1/2 : INST
//@ loop ast.c assign_str_id 2/2 : __CPROVER_assigns(i, MINE.var, MINE.str, OTHER.string, OTHER.var, OTHER.str, CALLS) __CPROVER_loop_invariant(i <= SL.count && LIST_DONE(i)) __CPROVER_decreases(SL.count - i)
//@ ghost ast.c assign_str_id 2/2 : INST
//@ cbmc --unwind 12 --object-bits 10
//@ assume assign_ids: the dictionary gives ids as units dictionary and dictionary_ienum prove (a stub here: an arbitrary id, the same for the same value and variable)
//@ assume assign_ids: the elements of a list of strings are read and written through STR, which stands for them by two: one arbitrary element (G) and one for all the others
//@ assume assign_ids: the variables of the expression are declared (unit declared)
#ifndef ENUM
#define ENUM 0
#define FUN assign_str_id
#endif
#include "spec.h"
#include "config.h"
#include "value.h"
static struct betree_string_list SL;
static bool AL, DL, DR; static betree_var_t VAR; static const char *NAME, *ATTR; static betree_str_t ID; static betree_ienum_t EID; static int64_t INT; static size_t G, CALLS; static const struct config* CONF;
static struct string_value MINE, OTHER;
#define LIST_DONE(i) IMPLIES((i) > G && G < SL.count, MINE.var == VAR && MINE.str == ID)
static struct string_value* at(const struct betree_string_list* l, size_t i);
#define STR(l, i) at(l, i)
/* an element other than the followed one: any text */
#define INST { const char* s; OTHER.string = s; }
#include "ast.c"
static struct ast_node N, L, R, B;
void numbered(struct config* config, struct ast_node* node, bool always_assign)
__CPROVER_requires(always_assign == AL && config == CONF && (node == &N || (node == &L && !DL) || (node == &R && !DR)))
__CPROVER_ensures(IMPLIES(node == &L, DL == true && DR == __CPROVER_old(DR)) && IMPLIES(node == &R, DR == true && DL == __CPROVER_old(DL)))
__CPROVER_assigns(DL, DR)
#if ENUM
__CPROVER_assigns(node == &N && node->type == AST_TYPE_EQUALITY_EXPR: node->equality_expr.value)
__CPROVER_assigns(node == &N: CALLS);
#else
__CPROVER_assigns(node == &N: __CPROVER_object_whole(node), MINE.var, MINE.str, OTHER.string, OTHER.var, OTHER.str, CALLS);
#endif
#include "shape.h"
static struct string_value* at(const struct betree_string_list* l, size_t i)
{
    ASSERT(l == &SL && i < l->count, "inside of the list");
    return i == G ? &MINE : &OTHER;
}
betree_str_t get_id_for_string(struct config* config, struct attr_var attr_var, const char* string, bool always_assign)
{
    ASSERT(config == CONF && always_assign == AL && attr_var.var == VAR && attr_var.attr == ATTR, "the dictionary of the variable is asked");
    CALLS++; betree_str_t other; return string == NAME ? ID : other;
}
betree_ienum_t get_id_for_ienum(struct config* config, struct attr_var attr_var, int64_t integer, bool always_assign)
{
    ASSERT(config == CONF && always_assign == AL && attr_var.var == VAR && attr_var.attr == ATTR, "the dictionary of the variable is asked");
    CALLS++; betree_ienum_t other; return integer == INT ? EID : other;
}
#define IS(v, s) ((v).string == (s).string && (v).var == VAR && (v).str == ID)
#define KEPT(v, s) ((v).string == (s).string && (v).var == (s).var && (v).str == (s).str)
int main()
{
    AL = any(); DL = DR = false; CALLS = 0; struct config c; CONF = &c; static char name, attr; NAME = &name; ATTR = &attr;
    betree_str_t id; ID = id; betree_ienum_t eid; EID = eid; size_t g, n; G = g; ASSUME(n < (size_t)1 << 40); struct string_value ml, ol; MINE = ml; MINE.string = NAME; OTHER = ol;
    size_t d; ASSUME(d < (size_t)1 << 32); struct attr_domain** doms = malloc(d * sizeof(*doms)); static struct attr_domain D; int t; ASSUME(t >= BETREE_BOOLEAN && t <= BETREE_INTEGER_ENUM); D.bound.value_type = t; c.attr_domain_count = d; c.attr_domains = doms;
    struct attr_var a, b; ASSUME(a.var < d); a.attr = ATTR; VAR = a.var; doms[a.var] = &D; shape(a, b); ASSUME(!BROKEN_SET); SL.count = n;
    /* the text of the one string there is, when the node has one */
    bool one = false, list = false, ienum = false;
    if(N.type == AST_TYPE_EQUALITY_EXPR && N.equality_expr.value.value_type == AST_EQUALITY_VALUE_STRING) { N.equality_expr.value.string_value.string = NAME; one = true; }
    if(N.type == AST_TYPE_EQUALITY_EXPR && N.equality_expr.value.value_type == AST_EQUALITY_VALUE_INTEGER) { INT = N.equality_expr.value.integer_value; ienum = t == BETREE_INTEGER_ENUM; } else { int64_t i; INT = i; }
    if(N.type == AST_TYPE_SET_EXPR && N.set_expr.left_value.value_type == AST_SET_LEFT_VALUE_STRING) { N.set_expr.left_value.string_value.string = NAME; one = true; }
    if(N.type == AST_TYPE_SET_EXPR && N.set_expr.right_value.value_type == AST_SET_RIGHT_VALUE_STRING_LIST) list = true;
    if(N.type == AST_TYPE_LIST_EXPR && N.list_expr.value.value_type == AST_LIST_VALUE_STRING_LIST) list = true;
    if(N.type == AST_TYPE_SPECIAL_EXPR && N.special_expr.type == AST_SPECIAL_FREQUENCY) { N.special_expr.frequency.ns.string = NAME; one = true; }
    B = N;
    FUN(&c, &N, AL);
    ASSERT(N.type == B.type && N.global_id == B.global_id && N.memoize_id == B.memoize_id, "the kind of the expression is kept");
    ASSERT(MINE.string == NAME && SL.count == n, "lists keep their texts");
    if(N.type == AST_TYPE_EQUALITY_EXPR) {
        ASSERT(N.equality_expr.op == B.equality_expr.op && N.equality_expr.attr_var.var == VAR, "operator and variable are kept");
        const struct equality_value *v = &N.equality_expr.value, *w = &B.equality_expr.value;
        if(ENUM && ienum) ASSERT(v->value_type == AST_EQUALITY_VALUE_INTEGER_ENUM && v->integer_enum_value.integer == INT && v->integer_enum_value.var == VAR && v->integer_enum_value.ienum == EID, "the integer of an enum gets its id");
        else {
            ASSERT(v->value_type == w->value_type, "the type of the constant is kept");
            if(w->value_type == AST_EQUALITY_VALUE_STRING) { if(!ENUM) ASSERT(IS(v->string_value, w->string_value), "a string gets its id"); else ASSERT(KEPT(v->string_value, w->string_value), "strings are kept"); }
            else if(w->value_type == AST_EQUALITY_VALUE_INTEGER) ASSERT(v->integer_value == w->integer_value, "integers are kept");
            else if(w->value_type == AST_EQUALITY_VALUE_FLOAT) ASSERT(v->float_value == w->float_value, "floats are kept");
            else ASSERT(v->integer_enum_value.integer == w->integer_enum_value.integer && v->integer_enum_value.ienum == w->integer_enum_value.ienum, "enums are kept");
        }
    }
    else if(N.type == AST_TYPE_SET_EXPR) {
        ASSERT(N.set_expr.op == B.set_expr.op && N.set_expr.left_value.value_type == B.set_expr.left_value.value_type && N.set_expr.right_value.value_type == B.set_expr.right_value.value_type, "operator and sides are kept");
        if(N.set_expr.left_value.value_type == AST_SET_LEFT_VALUE_STRING) { if(!ENUM) ASSERT(IS(N.set_expr.left_value.string_value, B.set_expr.left_value.string_value), "a string gets its id"); else ASSERT(KEPT(N.set_expr.left_value.string_value, B.set_expr.left_value.string_value), "strings are kept"); }
        else if(N.set_expr.left_value.value_type == AST_SET_LEFT_VALUE_INTEGER) ASSERT(N.set_expr.left_value.integer_value == B.set_expr.left_value.integer_value, "integers are kept");
        else ASSERT(N.set_expr.left_value.variable_value.var == VAR, "the variable is kept");
    }
    else if(N.type == AST_TYPE_SPECIAL_EXPR && N.special_expr.type == AST_SPECIAL_FREQUENCY) {
        const struct ast_special_frequency *f = &N.special_expr.frequency, *o = &B.special_expr.frequency;
        ASSERT(f->op == o->op && f->type == o->type && f->attr_var.var == VAR && f->value == o->value && f->length == o->length && f->now.var == o->now.var && f->id == o->id, "the rest of a frequency cap is kept");
        if(!ENUM) ASSERT(IS(f->ns, o->ns), "the namespace gets its id"); else ASSERT(KEPT(f->ns, o->ns), "the namespace is kept");
    }
    ASSERT(IMPLIES(!ENUM && list && G < n, MINE.var == VAR && MINE.str == ID), "every string of a list gets its id");
    ASSERT(IMPLIES(!list || ENUM, CALLS == (ENUM ? (ienum ? 1 : 0) : one ? 1 : 0)), "nothing else is looked up");
    ASSERT(IMPLIES(ENUM || !list, MINE.var == ml.var && MINE.str == ml.str), "lists that are not used are left alone");
    ASSERT(DL == (USES == BELOW_ONE || USES == BELOW_BOTH) && DR == (USES == BELOW_BOTH), "everything below is visited, once");
    REACH();
}
