//@ what truth value of every node kind against its definition, by structural induction over the expression
//@ props C01 C04
//@ enforce_rec match_node_inner
//@ replace test_bit set_bit integer_in_integer_list string_in_string_list match_not_all_of_int match_not_all_of_string match_all_of_int match_all_of_string
//@ replace within_frequency_caps segment_within segment_before geo_within_radius contains starts_with ends_with
//@ functions match_node match_bool_expr match_compare_expr match_equality_expr match_set_expr match_list_expr match_special_expr match_is_null_expr get_variable get_float_var get_string_var get_integer_enum_var get_integer_var get_bool_var get_integer_list_var get_string_list_var get_segments_var get_frequency_var is_empty_list feq fne
//@ assume eval: expressions and events are well typed (established by the validation units of C07); float values are compared by IEEE-754 order and equality within epsilon
//@ assume eval: the great-circle formula of geo_within_radius is uninterpreted (libm), only its arguments are checked
//@ variant bool -DK=AST_TYPE_BOOL_EXPR
//@ variant is_null -DK=AST_TYPE_IS_NULL_EXPR
//@ variant compare -DK=AST_TYPE_COMPARE_EXPR
//@ variant equality -DK=AST_TYPE_EQUALITY_EXPR
//@ variant set -DK=AST_TYPE_SET_EXPR
//@ variant list -DK=AST_TYPE_LIST_EXPR
//@ variant special -DK=AST_TYPE_SPECIAL_EXPR
//@ cbmc --unwind 6
//@ timeout 300
#include "spec.h"
#include "special.h"

__CPROVER_bool __CPROVER_uninterpreted_sem(const struct ast_node* n);
__CPROVER_bool __CPROVER_uninterpreted_msem(betree_pred_t slot);
__CPROVER_bool __CPROVER_uninterpreted_member_i(int64_t x, const struct betree_integer_list* l);
__CPROVER_bool __CPROVER_uninterpreted_member_s(betree_str_t x, const struct betree_string_list* l);
__CPROVER_bool __CPROVER_uninterpreted_meet_i(const struct betree_integer_list* a, const struct betree_integer_list* b);
__CPROVER_bool __CPROVER_uninterpreted_meet_s(const struct betree_string_list* a, const struct betree_string_list* b);
__CPROVER_bool __CPROVER_uninterpreted_incl_i(const struct betree_integer_list* a, const struct betree_integer_list* b);
__CPROVER_bool __CPROVER_uninterpreted_incl_s(const struct betree_string_list* a, const struct betree_string_list* b);
__CPROVER_bool __CPROVER_uninterpreted_cap(const struct betree_frequency_caps* c, int type, uint32_t id, betree_str_t ns, int64_t value, size_t length, int64_t now);
__CPROVER_bool __CPROVER_uninterpreted_segw(int64_t id, int64_t s, const struct betree_segments* l, int64_t now);
__CPROVER_bool __CPROVER_uninterpreted_segb(int64_t id, int64_t s, const struct betree_segments* l, int64_t now);
__CPROVER_bool __CPROVER_uninterpreted_geo(double a, double b, double c, double d, double r);
__CPROVER_bool __CPROVER_uninterpreted_contains(const char* a, const char* b);
__CPROVER_bool __CPROVER_uninterpreted_starts(const char* a, const char* b);
__CPROVER_bool __CPROVER_uninterpreted_ends(const char* a, const char* b);

static uint64_t *g_pass, *g_fail;
static uint64_t g_slots;

static bool match_node_inner(const struct betree_variable** preds, const struct ast_node* node, struct memoize* memoize, struct report* report)
__CPROVER_requires(node != NULL && memoize != NULL)
__CPROVER_requires(memoize->pass == g_pass && memoize->fail == g_fail)
__CPROVER_ensures(__CPROVER_return_value == __CPROVER_uninterpreted_sem(node))
__CPROVER_assigns(report != NULL: report->memoized; __CPROVER_object_whole(memoize->pass), __CPROVER_object_whole(memoize->fail));

/* the cache: a set pass bit of slot k says the sub-expressions of slot k are true on this event */
bool test_bit(const uint64_t A[], uint64_t k)
__CPROVER_requires((A == g_pass || A == g_fail) && k < g_slots)
__CPROVER_ensures(!(A == g_pass && __CPROVER_return_value) || __CPROVER_uninterpreted_msem(k))
__CPROVER_ensures(!(A == g_fail && __CPROVER_return_value) || !__CPROVER_uninterpreted_msem(k))
__CPROVER_assigns();
void set_bit(uint64_t A[], uint64_t k)
__CPROVER_requires((A == g_pass || A == g_fail) && k < g_slots)
__CPROVER_requires(A != g_pass || __CPROVER_uninterpreted_msem(k))
__CPROVER_requires(A != g_fail || !__CPROVER_uninterpreted_msem(k))
__CPROVER_ensures(1)
__CPROVER_assigns(__CPROVER_object_whole(A));

static bool integer_in_integer_list(int64_t integer, struct betree_integer_list* list)
__CPROVER_requires(list != NULL)
__CPROVER_ensures(__CPROVER_return_value == __CPROVER_uninterpreted_member_i(integer, list)) __CPROVER_assigns();
static bool string_in_string_list(struct string_value string, struct betree_string_list* list)
__CPROVER_requires(list != NULL)
__CPROVER_ensures(__CPROVER_return_value == __CPROVER_uninterpreted_member_s(string.str, list)) __CPROVER_assigns();
static bool match_not_all_of_int(struct value variable, struct ast_list_expr list_expr)
__CPROVER_requires(variable.value_type == BETREE_INTEGER_LIST && list_expr.value.value_type == AST_LIST_VALUE_INTEGER_LIST)
__CPROVER_ensures(__CPROVER_return_value == __CPROVER_uninterpreted_meet_i(list_expr.value.integer_list_value, variable.integer_list_value)) __CPROVER_assigns();
static bool match_not_all_of_string(struct value variable, struct ast_list_expr list_expr)
__CPROVER_requires(variable.value_type == BETREE_STRING_LIST && list_expr.value.value_type == AST_LIST_VALUE_STRING_LIST)
__CPROVER_ensures(__CPROVER_return_value == __CPROVER_uninterpreted_meet_s(list_expr.value.string_list_value, variable.string_list_value)) __CPROVER_assigns();
static bool match_all_of_int(struct value variable, struct ast_list_expr list_expr)
__CPROVER_requires(variable.value_type == BETREE_INTEGER_LIST && list_expr.value.value_type == AST_LIST_VALUE_INTEGER_LIST)
__CPROVER_ensures(__CPROVER_return_value == __CPROVER_uninterpreted_incl_i(list_expr.value.integer_list_value, variable.integer_list_value)) __CPROVER_assigns();
static bool match_all_of_string(struct value variable, struct ast_list_expr list_expr)
__CPROVER_requires(variable.value_type == BETREE_STRING_LIST && list_expr.value.value_type == AST_LIST_VALUE_STRING_LIST)
__CPROVER_ensures(__CPROVER_return_value == __CPROVER_uninterpreted_incl_s(list_expr.value.string_list_value, variable.string_list_value)) __CPROVER_assigns();

bool within_frequency_caps(const struct betree_frequency_caps* caps, enum frequency_type_e type, uint32_t id, const struct string_value namespace, int64_t value, size_t length, int64_t now)
__CPROVER_requires(caps != NULL)
__CPROVER_ensures(__CPROVER_return_value == __CPROVER_uninterpreted_cap(caps, type, id, namespace.str, value, length, now)) __CPROVER_assigns();
bool segment_within(int64_t segment_id, int64_t after_seconds, const struct betree_segments* segments, int64_t now)
__CPROVER_requires(segments != NULL)
__CPROVER_ensures(__CPROVER_return_value == __CPROVER_uninterpreted_segw(segment_id, after_seconds, segments, now)) __CPROVER_assigns();
bool segment_before(int64_t segment_id, int64_t before_seconds, const struct betree_segments* segments, int64_t now)
__CPROVER_requires(segments != NULL)
__CPROVER_ensures(__CPROVER_return_value == __CPROVER_uninterpreted_segb(segment_id, before_seconds, segments, now)) __CPROVER_assigns();
bool geo_within_radius(double lat1, double lon1, double lat2, double lon2, double distance)
__CPROVER_requires(1)
__CPROVER_ensures(__CPROVER_return_value == __CPROVER_uninterpreted_geo(lat1, lon1, lat2, lon2, distance)) __CPROVER_assigns();
bool contains(const char* value, const char* pattern)
__CPROVER_requires(value != NULL && pattern != NULL)
__CPROVER_ensures(__CPROVER_return_value == __CPROVER_uninterpreted_contains(value, pattern)) __CPROVER_assigns();
bool starts_with(const char* value, const char* pattern)
__CPROVER_requires(value != NULL && pattern != NULL)
__CPROVER_ensures(__CPROVER_return_value == __CPROVER_uninterpreted_starts(value, pattern)) __CPROVER_assigns();
bool ends_with(const char* value, const char* pattern)
__CPROVER_requires(value != NULL && pattern != NULL)
__CPROVER_ensures(__CPROVER_return_value == __CPROVER_uninterpreted_ends(value, pattern)) __CPROVER_assigns();

#include "ast.c"
#include "var.c"
#include "special.c"
#include "utils.c"

/* the event: a value (or nothing) for each variable the node uses; all other cells are unreadable */
static const struct betree_variable** preds; static size_t n_vars;
static struct betree_integer_list il; static struct betree_string_list sl; static struct betree_segments sg; static struct betree_frequency_caps fc;
static struct betree_integer_list eil; static struct betree_string_list esl; static char str1[4], str2[4];
static struct betree_variable v1, v2;

static void bind(betree_var_t var, struct betree_variable* v, enum betree_value_type_e t)
{
    struct betree_variable x; *v = x;
    v->value.value_type = t;
    switch(t) {
        case BETREE_BOOLEAN: { bool b; unsigned char c = b ? 1 : 0; v->value.boolean_value = c; break; }
        case BETREE_INTEGER_LIST: v->value.integer_list_value = &il; break;
        case BETREE_STRING_LIST: v->value.string_list_value = &sl; break;
        case BETREE_SEGMENTS: v->value.segments_value = &sg; break;
        case BETREE_FREQUENCY_CAPS: v->value.frequency_caps_value = &fc; break;
        case BETREE_INTEGER: { int64_t i; v->value.integer_value = i; break; }
        case BETREE_FLOAT: { double f; v->value.float_value = f; break; }
        case BETREE_INTEGER_ENUM: { struct integer_enum_value z; v->value.integer_enum_value = z; break; }
        case BETREE_STRING: { struct string_value z; z.string = str1; v->value.string_value = z; break; }
        default: break;
    }
    bool defined; preds[var] = defined ? v : NULL;
}
static bool def(betree_var_t var) { return preds[var] != NULL; }
static bool eqf(double a, double b) { return a - b < EPS && b - a < EPS; }

int main()
{
    size_t nv; n_vars = nv; ASSUME(n_vars >= 1 && n_vars <= ((size_t)1 << 40));
    preds = malloc(n_vars * sizeof(*preds)); ASSUME(preds != NULL);
    struct betree_integer_list nil; il = nil; struct betree_string_list nsl; sl = nsl; struct betree_segments nsg; sg = nsg; struct betree_frequency_caps nfc; fc = nfc;
    struct betree_integer_list neil; eil = neil; struct betree_string_list nesl; esl = nesl;
    struct ast_node n, l, r;
    struct memoize m; uint64_t pass[2], fail[2]; m.pass = pass; m.fail = fail; g_pass = pass; g_fail = fail;
    uint64_t slots; g_slots = slots;
    struct report rep, rep0 = rep; struct report* report; bool has_report; report = has_report ? &rep : NULL;
    ASSUME(n.type == K);
    /* slots are shared by expressions with the same meaning only (C04) */
    ASSUME(IMPLIES(n.memoize_id != INVALID_PRED, n.memoize_id < g_slots && __CPROVER_uninterpreted_msem(n.memoize_id) == __CPROVER_uninterpreted_sem(&n)));
    bool spec = false;
    betree_var_t var, now_var; ASSUME(var < n_vars && now_var < n_vars);
#define P(v) (preds[v]->value)
    if(K == AST_TYPE_BOOL_EXPR) {
        struct ast_bool_expr* e = &n.bool_expr;
        ASSUME(e->op >= AST_BOOL_OR && e->op <= AST_BOOL_LITERAL);
        switch(e->op) {
            case AST_BOOL_LITERAL: { bool b; e->literal = b ? true : false; spec = e->literal; break; }
            case AST_BOOL_AND: e->binary.lhs = &l; e->binary.rhs = &r; spec = __CPROVER_uninterpreted_sem(&l) && __CPROVER_uninterpreted_sem(&r); break;
            case AST_BOOL_OR: e->binary.lhs = &l; e->binary.rhs = &r; spec = __CPROVER_uninterpreted_sem(&l) || __CPROVER_uninterpreted_sem(&r); break;
            case AST_BOOL_NOT: e->unary.expr = &l; spec = !__CPROVER_uninterpreted_sem(&l); break;
            case AST_BOOL_VARIABLE: e->variable.var = var; bind(var, &v1, BETREE_BOOLEAN); spec = def(var) && P(var).boolean_value; break;
        }
    }
    if(K == AST_TYPE_IS_NULL_EXPR) {
        struct ast_is_null_expr* e = &n.is_null_expr; e->attr_var.var = var;
        enum betree_value_type_e t; ASSUME(t >= BETREE_BOOLEAN && t <= BETREE_INTEGER_ENUM); bind(var, &v1, t);
        ASSUME(e->type >= AST_IS_NULL && e->type <= AST_IS_EMPTY);
        switch(e->type) {
            case AST_IS_NULL: spec = !def(var); break;
            case AST_IS_NOT_NULL: spec = def(var); break;
            case AST_IS_EMPTY: spec = def(var) && ((t == BETREE_INTEGER_LIST && il.count == 0) || (t == BETREE_STRING_LIST && sl.count == 0)
                || (t == BETREE_SEGMENTS && sg.size == 0) || (t == BETREE_FREQUENCY_CAPS && fc.size == 0)); break;
        }
    }
    if(K == AST_TYPE_COMPARE_EXPR) {
        struct ast_compare_expr* e = &n.compare_expr; e->attr_var.var = var;
        ASSUME(e->op >= AST_COMPARE_LT && e->op <= AST_COMPARE_GE);
        ASSUME(e->value.value_type == AST_COMPARE_VALUE_INTEGER || e->value.value_type == AST_COMPARE_VALUE_FLOAT);
        bool is_int = e->value.value_type == AST_COMPARE_VALUE_INTEGER;
        if(is_int) { int64_t i; e->value.integer_value = i; } else { double f; e->value.float_value = f; }
        bind(var, &v1, is_int ? BETREE_INTEGER : BETREE_FLOAT);
        if(def(var)) {
            int64_t i = P(var).integer_value, ic = e->value.integer_value; double f = P(var).float_value, fc_ = e->value.float_value;
            switch(e->op) {
                case AST_COMPARE_LT: spec = is_int ? i < ic : f < fc_; break;
                case AST_COMPARE_LE: spec = is_int ? i <= ic : f <= fc_; break;
                case AST_COMPARE_GT: spec = is_int ? i > ic : f > fc_; break;
                case AST_COMPARE_GE: spec = is_int ? i >= ic : f >= fc_; break;
            }
        }
    }
    if(K == AST_TYPE_EQUALITY_EXPR) {
        struct ast_equality_expr* e = &n.equality_expr; e->attr_var.var = var;
        ASSUME(e->op == AST_EQUALITY_EQ || e->op == AST_EQUALITY_NE);
        bool eq = false;
        switch(e->value.value_type) {
            case AST_EQUALITY_VALUE_INTEGER: { int64_t z; e->value.integer_value = z; } bind(var, &v1, BETREE_INTEGER); if(def(var)) eq = P(var).integer_value == e->value.integer_value; break;
            case AST_EQUALITY_VALUE_FLOAT: { double z; e->value.float_value = z; } bind(var, &v1, BETREE_FLOAT); if(def(var)) eq = eqf(P(var).float_value, e->value.float_value); break;
            case AST_EQUALITY_VALUE_STRING: { struct string_value z; e->value.string_value = z; } bind(var, &v1, BETREE_STRING); if(def(var)) eq = P(var).string_value.str == e->value.string_value.str; break;
            case AST_EQUALITY_VALUE_INTEGER_ENUM: { struct integer_enum_value z; e->value.integer_enum_value = z; } bind(var, &v1, BETREE_INTEGER_ENUM); if(def(var)) eq = P(var).integer_enum_value.ienum == e->value.integer_enum_value.ienum; break;
            default: ASSUME(false);
        }
        spec = def(var) && (e->op == AST_EQUALITY_EQ ? eq : !eq);
    }
    if(K == AST_TYPE_SET_EXPR) {
        struct ast_set_expr* e = &n.set_expr;
        ASSUME(e->op == AST_SET_NOT_IN || e->op == AST_SET_IN);
        bool in = false; unsigned char shape;
        switch(shape) {
            case 0: { int64_t z; e->left_value.integer_value = z; } e->left_value.value_type = AST_SET_LEFT_VALUE_INTEGER; e->right_value.value_type = AST_SET_RIGHT_VALUE_VARIABLE; e->right_value.variable_value.var = var;
                bind(var, &v1, BETREE_INTEGER_LIST); in = __CPROVER_uninterpreted_member_i(e->left_value.integer_value, &il); break;
            case 1: { struct string_value z; e->left_value.string_value = z; } e->left_value.value_type = AST_SET_LEFT_VALUE_STRING; e->right_value.value_type = AST_SET_RIGHT_VALUE_VARIABLE; e->right_value.variable_value.var = var;
                bind(var, &v1, BETREE_STRING_LIST); in = __CPROVER_uninterpreted_member_s(e->left_value.string_value.str, &sl); break;
            case 2: e->left_value.value_type = AST_SET_LEFT_VALUE_VARIABLE; e->left_value.variable_value.var = var; e->right_value.value_type = AST_SET_RIGHT_VALUE_INTEGER_LIST; e->right_value.integer_list_value = &eil;
                bind(var, &v1, BETREE_INTEGER); if(def(var)) in = __CPROVER_uninterpreted_member_i(P(var).integer_value, &eil); break;
            case 3: e->left_value.value_type = AST_SET_LEFT_VALUE_VARIABLE; e->left_value.variable_value.var = var; e->right_value.value_type = AST_SET_RIGHT_VALUE_STRING_LIST; e->right_value.string_list_value = &esl;
                bind(var, &v1, BETREE_STRING); if(def(var)) in = __CPROVER_uninterpreted_member_s(P(var).string_value.str, &esl); break;
            default: ASSUME(false);
        }
        spec = def(var) && (e->op == AST_SET_IN ? in : !in);
    }
    if(K == AST_TYPE_LIST_EXPR) {
        struct ast_list_expr* e = &n.list_expr; e->attr_var.var = var;
        ASSUME(e->op >= AST_LIST_ONE_OF && e->op <= AST_LIST_ALL_OF);
        bool isint; bool meet, incl;
        if(isint) { e->value.value_type = AST_LIST_VALUE_INTEGER_LIST; e->value.integer_list_value = &eil; bind(var, &v1, BETREE_INTEGER_LIST);
            meet = __CPROVER_uninterpreted_meet_i(&eil, &il); incl = __CPROVER_uninterpreted_incl_i(&eil, &il); }
        else { e->value.value_type = AST_LIST_VALUE_STRING_LIST; e->value.string_list_value = &esl; bind(var, &v1, BETREE_STRING_LIST);
            meet = __CPROVER_uninterpreted_meet_s(&esl, &sl); incl = __CPROVER_uninterpreted_incl_s(&esl, &sl); }
        spec = def(var) && (e->op == AST_LIST_ONE_OF ? meet : e->op == AST_LIST_NONE_OF ? !meet : incl);
    }
    if(K == AST_TYPE_SPECIAL_EXPR) {
        struct ast_special_expr* e = &n.special_expr;
        ASSUME(e->type >= AST_SPECIAL_FREQUENCY && e->type <= AST_SPECIAL_STRING);
        switch(e->type) {
            case AST_SPECIAL_FREQUENCY: {
                struct ast_special_frequency* f = &e->frequency; ASSUME(f->op == AST_SPECIAL_WITHINFREQUENCYCAP && var != now_var); f->attr_var.var = var; f->now.var = now_var;
                bind(var, &v1, BETREE_FREQUENCY_CAPS); bind(now_var, &v2, BETREE_INTEGER);
                if(def(var) && def(now_var)) {
                    spec = __CPROVER_uninterpreted_cap(&fc, f->type, f->id, f->ns.str, f->value, f->length, P(now_var).integer_value);
                    ASSUME(IMPLIES(fc.size == 0, spec)); /* no cap at all: true, lemma proved in unit special_caps */
                }
                break; }
            case AST_SPECIAL_SEGMENT: {
                struct ast_special_segment* s = &e->segment; ASSUME((s->op == AST_SPECIAL_SEGMENTWITHIN || s->op == AST_SPECIAL_SEGMENTBEFORE) && var != now_var); s->attr_var.var = var; s->now.var = now_var;
                bind(var, &v1, BETREE_SEGMENTS); bind(now_var, &v2, BETREE_INTEGER);
                if(def(var) && def(now_var)) spec = s->op == AST_SPECIAL_SEGMENTWITHIN ? __CPROVER_uninterpreted_segw(s->segment_id, s->seconds, &sg, P(now_var).integer_value)
                    : __CPROVER_uninterpreted_segb(s->segment_id, s->seconds, &sg, P(now_var).integer_value);
                break; }
            case AST_SPECIAL_GEO: {
                struct ast_special_geo* g = &e->geo; ASSUME(g->op == AST_SPECIAL_GEOWITHINRADIUS && var != now_var); g->latitude_var.var = var; g->longitude_var.var = now_var;
                bind(var, &v1, BETREE_FLOAT); bind(now_var, &v2, BETREE_FLOAT);
                if(def(var) && def(now_var)) spec = __CPROVER_uninterpreted_geo(g->latitude, g->longitude, P(var).float_value, P(now_var).float_value, g->radius);
                break; }
            case AST_SPECIAL_STRING: {
                struct ast_special_string* s = &e->string; ASSUME(s->op >= AST_SPECIAL_CONTAINS && s->op <= AST_SPECIAL_ENDSWITH); s->attr_var.var = var; s->pattern = str2;
                bind(var, &v1, BETREE_STRING);
                if(def(var)) spec = s->op == AST_SPECIAL_CONTAINS ? __CPROVER_uninterpreted_contains(str1, str2) : s->op == AST_SPECIAL_STARTSWITH ? __CPROVER_uninterpreted_starts(str1, str2) : __CPROVER_uninterpreted_ends(str1, str2);
                break; }
        }
    }
    ASSUME(__CPROVER_uninterpreted_sem(&n) == spec);
    bool result = match_node(preds, &n, &m, report);
    ASSERT(result == spec, "an expression evaluates to what its operators mean");
    ASSERT(rep.evaluated == rep0.evaluated && rep.matched == rep0.matched && rep.shorted == rep0.shorted && rep.subs == rep0.subs, "evaluation touches only the memoized counter of the report");
    REACH();
}
