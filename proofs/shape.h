/* An arbitrary expression node N of any kind with arbitrary constants: its variables are a (and b where the kind
 * uses two), its children the already decided L and R.  `x in y` with variables on both sides is left out here
 * (the grammar has none). */
static bool any(void) { bool b; return b ? true : false; }
enum uses { NEITHER, ONE, TWO, BELOW_ONE, BELOW_BOTH };
static enum uses USES; static bool BROKEN_SET; static struct betree_integer_list IL; static struct betree_string_list SL;
static void shape(struct attr_var a, struct attr_var b)
{
    int k; ASSUME(k >= AST_TYPE_COMPARE_EXPR && k <= AST_TYPE_IS_NULL_EXPR);
    N.type = k; BROKEN_SET = false;
    betree_pred_t g1, g2; N.global_id = g1; N.memoize_id = g2;
    if(k == AST_TYPE_COMPARE_EXPR) {
        int op, t; ASSUME(op >= AST_COMPARE_LT && op <= AST_COMPARE_GE); ASSUME(t == AST_COMPARE_VALUE_INTEGER || t == AST_COMPARE_VALUE_FLOAT);
        N.compare_expr.op = op; N.compare_expr.attr_var = a; N.compare_expr.value.value_type = t;
        int64_t i; double f; if(t == AST_COMPARE_VALUE_INTEGER) N.compare_expr.value.integer_value = i; else { ASSUME(f == f); N.compare_expr.value.float_value = f; }
        USES = ONE;
    }
    else if(k == AST_TYPE_EQUALITY_EXPR) {
        int op, t; ASSUME(op == AST_EQUALITY_EQ || op == AST_EQUALITY_NE); ASSUME(t >= AST_EQUALITY_VALUE_INTEGER && t <= AST_EQUALITY_VALUE_INTEGER_ENUM);
        N.equality_expr.op = op; N.equality_expr.attr_var = a; N.equality_expr.value.value_type = t;
        int64_t i; double f; struct string_value s; struct integer_enum_value e;
        if(t == AST_EQUALITY_VALUE_INTEGER) N.equality_expr.value.integer_value = i;
        else if(t == AST_EQUALITY_VALUE_FLOAT) { ASSUME(f == f); N.equality_expr.value.float_value = f; }
        else if(t == AST_EQUALITY_VALUE_STRING) N.equality_expr.value.string_value = s;
        else N.equality_expr.value.integer_enum_value = e;
        USES = ONE;
    }
    else if(k == AST_TYPE_BOOL_EXPR) {
        int op; ASSUME(op >= AST_BOOL_OR && op <= AST_BOOL_LITERAL); N.bool_expr.op = op;
        if(op == AST_BOOL_VARIABLE) { N.bool_expr.variable = a; USES = ONE; }
        else if(op == AST_BOOL_LITERAL) { N.bool_expr.literal = any(); USES = NEITHER; }
        else if(op == AST_BOOL_NOT) { N.bool_expr.unary.expr = &L; USES = BELOW_ONE; }
        else { N.bool_expr.binary.lhs = &L; N.bool_expr.binary.rhs = &R; USES = BELOW_BOTH; }
    }
    else if(k == AST_TYPE_SET_EXPR) {
        int op, lt, rt; ASSUME(op == AST_SET_NOT_IN || op == AST_SET_IN); ASSUME(lt >= AST_SET_LEFT_VALUE_INTEGER && lt <= AST_SET_LEFT_VALUE_VARIABLE); ASSUME(rt >= AST_SET_RIGHT_VALUE_INTEGER_LIST && rt <= AST_SET_RIGHT_VALUE_VARIABLE);
        ASSUME(!(lt == AST_SET_LEFT_VALUE_VARIABLE && rt == AST_SET_RIGHT_VALUE_VARIABLE));
        N.set_expr.op = op; N.set_expr.left_value.value_type = lt; N.set_expr.right_value.value_type = rt;
        int64_t i; struct string_value s;
        if(lt == AST_SET_LEFT_VALUE_INTEGER) N.set_expr.left_value.integer_value = i; else if(lt == AST_SET_LEFT_VALUE_STRING) N.set_expr.left_value.string_value = s; else N.set_expr.left_value.variable_value = a;
        if(rt == AST_SET_RIGHT_VALUE_INTEGER_LIST) N.set_expr.right_value.integer_list_value = &IL; else if(rt == AST_SET_RIGHT_VALUE_STRING_LIST) N.set_expr.right_value.string_list_value = &SL; else N.set_expr.right_value.variable_value = a;
        BROKEN_SET = lt != AST_SET_LEFT_VALUE_VARIABLE && rt != AST_SET_RIGHT_VALUE_VARIABLE; USES = BROKEN_SET ? NEITHER : ONE;
    }
    else if(k == AST_TYPE_LIST_EXPR) {
        int op, t; ASSUME(op >= AST_LIST_ONE_OF && op <= AST_LIST_ALL_OF); ASSUME(t == AST_LIST_VALUE_INTEGER_LIST || t == AST_LIST_VALUE_STRING_LIST);
        N.list_expr.op = op; N.list_expr.attr_var = a; N.list_expr.value.value_type = t;
        if(t == AST_LIST_VALUE_INTEGER_LIST) N.list_expr.value.integer_list_value = &IL; else N.list_expr.value.string_list_value = &SL;
        USES = ONE;
    }
    else if(k == AST_TYPE_SPECIAL_EXPR) {
        int t; ASSUME(t >= AST_SPECIAL_FREQUENCY && t <= AST_SPECIAL_STRING); N.special_expr.type = t;
        if(t == AST_SPECIAL_FREQUENCY) { struct ast_special_frequency f; int ft; ASSUME(ft >= FREQUENCY_TYPE_INVALID && ft <= FREQUENCY_TYPE_PRODUCTIP); f.op = AST_SPECIAL_WITHINFREQUENCYCAP; f.type = ft; f.attr_var = a; f.now = b; N.special_expr.frequency = f; USES = TWO; }
        else if(t == AST_SPECIAL_SEGMENT) { struct ast_special_segment s; int op; ASSUME(op == AST_SPECIAL_SEGMENTWITHIN || op == AST_SPECIAL_SEGMENTBEFORE); s.op = op; s.has_variable = any(); s.attr_var = a; s.now = b; N.special_expr.segment = s; USES = TWO; }
        else if(t == AST_SPECIAL_GEO) { struct ast_special_geo g; g.op = AST_SPECIAL_GEOWITHINRADIUS; g.has_radius = any(); g.latitude_var = a; g.longitude_var = b; N.special_expr.geo = g; USES = TWO; }
        else { struct ast_special_string s; int op; ASSUME(op >= AST_SPECIAL_CONTAINS && op <= AST_SPECIAL_ENDSWITH); s.op = op; s.attr_var = a; N.special_expr.string = s; USES = ONE; }
    }
    else {
        int t; ASSUME(t >= AST_IS_NULL && t <= AST_IS_EMPTY); N.is_null_expr.type = t; N.is_null_expr.attr_var = a; USES = ONE;
    }
}
