From 83ff87a613c8c7ad87e854416712a0196bf829c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:47 +0000
Subject: [PATCH 01/28] fix: short-circuit of and/or and of two-variable
 predicates under a negation

The result a single undefined variable forces on a negated and/or was computed
with the rule of the un-negated operator, so 'not (a or b)' passed as soon as
either variable was undefined and 'not (a is null and b)' failed. Use De Morgan.
---
 src/tree.c | 72 ++++++++++++++++++++++++++++--------------------------
 1 file changed, 37 insertions(+), 35 deletions(-)

diff --git a/src/tree.c b/src/tree.c
index f9d4a2b..0b5cad8 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -1453,6 +1453,38 @@ static enum short_circuit_e short_circuit_for_attr_var(
     return SHORT_CIRCUIT_NONE;
 }
 
+// The result of both sides is required to be true for the whole to be true
+static enum short_circuit_e short_circuit_and(enum short_circuit_e lhs, enum short_circuit_e rhs)
+{
+    if(lhs == SHORT_CIRCUIT_FAIL || rhs == SHORT_CIRCUIT_FAIL) {
+        return SHORT_CIRCUIT_FAIL;
+    }
+    if(lhs == SHORT_CIRCUIT_PASS && rhs == SHORT_CIRCUIT_PASS) {
+        return SHORT_CIRCUIT_PASS;
+    }
+    return SHORT_CIRCUIT_NONE;
+}
+
+// The result of either side is enough for the whole to be true
+static enum short_circuit_e short_circuit_or(enum short_circuit_e lhs, enum short_circuit_e rhs)
+{
+    if(lhs == SHORT_CIRCUIT_PASS || rhs == SHORT_CIRCUIT_PASS) {
+        return SHORT_CIRCUIT_PASS;
+    }
+    if(lhs == SHORT_CIRCUIT_FAIL && rhs == SHORT_CIRCUIT_FAIL) {
+        return SHORT_CIRCUIT_FAIL;
+    }
+    return SHORT_CIRCUIT_NONE;
+}
+
+// `lhs` and `rhs` were computed with the same `inverted`. "not (a and b)" is
+// "(not a) or (not b)" and "not (a or b)" is "(not a) and (not b)".
+static enum short_circuit_e short_circuit_combine(
+    bool is_and, bool inverted, enum short_circuit_e lhs, enum short_circuit_e rhs)
+{
+    return is_and != inverted ? short_circuit_and(lhs, rhs) : short_circuit_or(lhs, rhs);
+}
+
 static enum short_circuit_e short_circuit_for_node(
     betree_var_t id, bool inverted, const struct ast_node* node)
 {
@@ -1481,26 +1513,14 @@ static enum short_circuit_e short_circuit_for_node(
                         = short_circuit_for_node(id, inverted, node->bool_expr.binary.lhs);
                     enum short_circuit_e rhs
                         = short_circuit_for_node(id, inverted, node->bool_expr.binary.rhs);
-                    if(lhs == SHORT_CIRCUIT_PASS || rhs == SHORT_CIRCUIT_PASS) {
-                        return SHORT_CIRCUIT_PASS;
-                    }
-                    if(lhs == SHORT_CIRCUIT_FAIL && rhs == SHORT_CIRCUIT_FAIL) {
-                        return SHORT_CIRCUIT_FAIL;
-                    }
-                    return SHORT_CIRCUIT_NONE;
+                    return short_circuit_combine(false, inverted, lhs, rhs);
                 }
                 case AST_BOOL_AND: {
                     enum short_circuit_e lhs
                         = short_circuit_for_node(id, inverted, node->bool_expr.binary.lhs);
                     enum short_circuit_e rhs
                         = short_circuit_for_node(id, inverted, node->bool_expr.binary.rhs);
-                    if(lhs == SHORT_CIRCUIT_FAIL || rhs == SHORT_CIRCUIT_FAIL) {
-                        return SHORT_CIRCUIT_FAIL;
-                    }
-                    if(lhs == SHORT_CIRCUIT_PASS && rhs == SHORT_CIRCUIT_PASS) {
-                        return SHORT_CIRCUIT_PASS;
-                    }
-                    return SHORT_CIRCUIT_NONE;
+                    return short_circuit_combine(true, inverted, lhs, rhs);
                 }
                 case AST_BOOL_NOT:
                     return short_circuit_for_node(id, !inverted, node->bool_expr.unary.expr);
@@ -1525,35 +1545,17 @@ static enum short_circuit_e short_circuit_for_node(
                 case AST_SPECIAL_FREQUENCY: {
                     enum short_circuit_e frequency = short_circuit_for_attr_var(id, inverted, node->special_expr.frequency.attr_var);
                     enum short_circuit_e now = short_circuit_for_attr_var(id, inverted, node->special_expr.frequency.now);
-                    if(frequency == SHORT_CIRCUIT_FAIL || now == SHORT_CIRCUIT_FAIL) {
-                        return SHORT_CIRCUIT_FAIL;
-                    }
-                    if(frequency == SHORT_CIRCUIT_PASS && now == SHORT_CIRCUIT_PASS) {
-                        return SHORT_CIRCUIT_PASS;
-                    }
-                    return SHORT_CIRCUIT_NONE;
+                    return short_circuit_combine(true, inverted, frequency, now);
                 }
                 case AST_SPECIAL_SEGMENT: {
                     enum short_circuit_e frequency = short_circuit_for_attr_var(id, inverted, node->special_expr.segment.attr_var);
                     enum short_circuit_e now = short_circuit_for_attr_var(id, inverted, node->special_expr.segment.now);
-                    if(frequency == SHORT_CIRCUIT_FAIL || now == SHORT_CIRCUIT_FAIL) {
-                        return SHORT_CIRCUIT_FAIL;
-                    }
-                    if(frequency == SHORT_CIRCUIT_PASS && now == SHORT_CIRCUIT_PASS) {
-                        return SHORT_CIRCUIT_PASS;
-                    }
-                    return SHORT_CIRCUIT_NONE;
+                    return short_circuit_combine(true, inverted, frequency, now);
                 }
                 case AST_SPECIAL_GEO: {
                     enum short_circuit_e latitude = short_circuit_for_attr_var(id, inverted, node->special_expr.geo.latitude_var);
                     enum short_circuit_e longitude = short_circuit_for_attr_var(id, inverted, node->special_expr.geo.longitude_var);
-                    if(latitude == SHORT_CIRCUIT_FAIL || longitude == SHORT_CIRCUIT_FAIL) {
-                        return SHORT_CIRCUIT_FAIL;
-                    }
-                    if(latitude == SHORT_CIRCUIT_PASS && longitude == SHORT_CIRCUIT_PASS) {
-                        return SHORT_CIRCUIT_PASS;
-                    }
-                    return SHORT_CIRCUIT_NONE;
+                    return short_circuit_combine(true, inverted, latitude, longitude);
                 }
                 case AST_SPECIAL_STRING:
                     return short_circuit_for_attr_var(
-- 
2.43.0


From 8d289d832b7d642d9ccf795e0a064e8d124a6a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:11 +0000
Subject: [PATCH 02/28] fix: a frequency cap predicate is false when the
 current time is undefined

An empty caps list made it true, while the short-circuit computed for the same
predicate says an undefined 'now' makes it false: the answer depended on
where in the expression the predicate stood.
---
 src/ast.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ast.c b/src/ast.c
index 22a5266..728b759 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -511,15 +511,15 @@ static bool match_special_expr(
                     if(is_caps_defined == false) {
                         return false;
                     }
-                    if(caps->size == 0) {
-                        // Optimization from looking at what within_frequency_caps does
-                        return true;
-                    }
                     int64_t now;
                     bool is_now_defined = get_integer_var(f->now.var, preds, &now);
                     if(is_now_defined == false) {
                         return false;
                     }
+                    if(caps->size == 0) {
+                        // Optimization from looking at what within_frequency_caps does
+                        return true;
+                    }
                     return within_frequency_caps(
                         caps, f->type, f->id, f->ns, f->value, f->length, now);
                 }
-- 
2.43.0


From 3eb3acfdc4655960ac4e89e764898c47ffa0e2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:53 +0000
Subject: [PATCH 03/28] fix: bound of a negated conjunction

'not (a and b)' is a disjunction: a bound found on one side only does not bound
the whole. The wrong bound stored the expression in a sub-range that searches
of matching events never visit.
---
 src/ast.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ast.c b/src/ast.c
index 728b759..8f8b706 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -1475,7 +1475,9 @@ static void get_variable_bound_inner(const struct attr_domain* domain,
                         domain, node->bool_expr.binary.lhs, &lbound, is_reversed, &ldirty);
                     get_variable_bound_inner(
                         domain, node->bool_expr.binary.rhs, &rbound, is_reversed, &rdirty);
-                    if(ldirty.min_dirty == true || rdirty.min_dirty == true) {
+                    // "not (a and b)" is "(not a) or (not b)", it takes both sides to get a bound
+                    if(is_reversed ? (ldirty.min_dirty == true && rdirty.min_dirty == true)
+                                   : (ldirty.min_dirty == true || rdirty.min_dirty == true)) {
                         dirty->min_dirty = true;
                         switch(bound->value_type) {
                             case BETREE_BOOLEAN:
@@ -1531,7 +1533,9 @@ static void get_variable_bound_inner(const struct attr_domain* domain,
                                 break;
                         }
                     }
-                    if(ldirty.max_dirty == true || rdirty.max_dirty == true) {
+                    // "not (a and b)" is "(not a) or (not b)", it takes both sides to get a bound
+                    if(is_reversed ? (ldirty.max_dirty == true && rdirty.max_dirty == true)
+                                   : (ldirty.max_dirty == true || rdirty.max_dirty == true)) {
                         dirty->max_dirty = true;
                         switch(bound->value_type) {
                             case BETREE_BOOLEAN:
-- 
2.43.0


From dc9f4a964f1dee3a48eb5b615d128b7324000364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:32 +0000
Subject: [PATCH 04/28] fix: remove duplicates from the lists of an expression

Event lists are deduplicated but expression lists were not, and 'all of' counts
elements: 'il all of (1, 1)' never matched.
---
 src/ast.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ast.c b/src/ast.c
index 8f8b706..343cf07 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -2494,10 +2494,10 @@ void sort_lists(struct ast_node* node)
             if(node->set_expr.left_value.value_type == AST_SET_LEFT_VALUE_VARIABLE) {
                 switch(node->set_expr.right_value.value_type) {
                     case AST_SET_RIGHT_VALUE_INTEGER_LIST:
-                        sort_integer_list(node->set_expr.right_value.integer_list_value);
+                        sort_and_remove_duplicate_integer_list(node->set_expr.right_value.integer_list_value);
                         return;
                     case AST_SET_RIGHT_VALUE_STRING_LIST:
-                        sort_string_list(node->set_expr.right_value.string_list_value);
+                        sort_and_remove_duplicate_string_list(node->set_expr.right_value.string_list_value);
                         return;
                     case AST_SET_RIGHT_VALUE_VARIABLE:
                         return;
@@ -2511,10 +2511,10 @@ void sort_lists(struct ast_node* node)
         case AST_TYPE_LIST_EXPR:
             switch(node->list_expr.value.value_type) {
                 case AST_LIST_VALUE_INTEGER_LIST:
-                    sort_integer_list(node->list_expr.value.integer_list_value);
+                    sort_and_remove_duplicate_integer_list(node->list_expr.value.integer_list_value);
                     return;
                 case AST_LIST_VALUE_STRING_LIST:
-                    sort_string_list(node->list_expr.value.string_list_value);
+                    sort_and_remove_duplicate_string_list(node->list_expr.value.string_list_value);
                     return;
                 default: abort();
             }
-- 
2.43.0


From 9cbe10db2cf7bf1625a6360c058603dbd46e5ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:33 +0000
Subject: [PATCH 05/28] fix: do not bound the namespaces of frequency caps to
 one

The domain of a frequency caps variable was left with a string bound of 0, so
the second namespace inserted got the id of unknown strings and matched caps of
any unknown namespace.
---
 src/config.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/config.c b/src/config.c
index 0a9ec96..60028b4 100644
--- a/src/config.c
+++ b/src/config.c
@@ -194,7 +194,8 @@ void add_attr_domain_segments(struct config* config, const char* attr, bool allo
 
 void add_attr_domain_frequency(struct config* config, const char* attr, bool allow_undefined)
 {
-    struct value_bound bound = { .value_type = BETREE_FREQUENCY_CAPS };
+    // No bound on the number of namespaces
+    struct value_bound bound = { .value_type = BETREE_FREQUENCY_CAPS, .smin = 0, .smax = SIZE_MAX - 1 };
     add_attr_domain(config, attr, bound, allow_undefined);
 }
 
-- 
2.43.0


From c562cdb0cc9de8cd2c161232cf64410ab38640df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:33 +0000
Subject: [PATCH 06/28] fix: reject expressions with strings or integer enums
 that did not get an id

The bound is checked literal by literal before any id is assigned, so an
expression bringing several new strings could exceed it, and the bound of
integer enums was not checked at all. Those literals got the id of unknown
values and matched any of them. Also free the expression when the constants
are missing.
---
 src/ast.c    | 64 ++++++++++++++++++++++++++++++++++++++++++++++++++++
 src/ast.h    |  1 +
 src/betree.c |  6 +++++
 3 files changed, 71 insertions(+)

diff --git a/src/ast.c b/src/ast.c
index 343cf07..471e1eb 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -2808,3 +2808,67 @@ bool all_bounded_strings_valid(const struct config* config, const struct ast_nod
     }
 }
 
+
+static bool all_strs_assigned(const struct betree_string_list* strings)
+{
+    for(size_t i = 0; i < strings->count; i++) {
+        if(strings->strings[i].str == INVALID_STR) {
+            return false;
+        }
+    }
+    return true;
+}
+
+// Check that all the strings and integer enums of the expression got an id. They don't once the
+// bound of the variable is reached, and would be confused with every other value without an id.
+bool all_ids_assigned(const struct ast_node* node)
+{
+    switch(node->type) {
+        case AST_TYPE_IS_NULL_EXPR:
+        case AST_TYPE_COMPARE_EXPR:
+            return true;
+        case AST_TYPE_EQUALITY_EXPR:
+            switch(node->equality_expr.value.value_type) {
+                case AST_EQUALITY_VALUE_STRING:
+                    return node->equality_expr.value.string_value.str != INVALID_STR;
+                case AST_EQUALITY_VALUE_INTEGER_ENUM:
+                    return node->equality_expr.value.integer_enum_value.ienum != INVALID_IENUM;
+                case AST_EQUALITY_VALUE_INTEGER:
+                case AST_EQUALITY_VALUE_FLOAT:
+                    return true;
+                default: abort();
+            }
+        case AST_TYPE_BOOL_EXPR:
+            switch(node->bool_expr.op) {
+                case AST_BOOL_OR:
+                case AST_BOOL_AND:
+                    return all_ids_assigned(node->bool_expr.binary.lhs)
+                        && all_ids_assigned(node->bool_expr.binary.rhs);
+                case AST_BOOL_NOT:
+                    return all_ids_assigned(node->bool_expr.unary.expr);
+                case AST_BOOL_VARIABLE:
+                case AST_BOOL_LITERAL:
+                    return true;
+                default: abort();
+            }
+        case AST_TYPE_SET_EXPR:
+            if(node->set_expr.left_value.value_type == AST_SET_LEFT_VALUE_STRING) {
+                return node->set_expr.left_value.string_value.str != INVALID_STR;
+            }
+            if(node->set_expr.right_value.value_type == AST_SET_RIGHT_VALUE_STRING_LIST) {
+                return all_strs_assigned(node->set_expr.right_value.string_list_value);
+            }
+            return true;
+        case AST_TYPE_LIST_EXPR:
+            if(node->list_expr.value.value_type == AST_LIST_VALUE_STRING_LIST) {
+                return all_strs_assigned(node->list_expr.value.string_list_value);
+            }
+            return true;
+        case AST_TYPE_SPECIAL_EXPR:
+            if(node->special_expr.type == AST_SPECIAL_FREQUENCY) {
+                return node->special_expr.frequency.ns.str != INVALID_STR;
+            }
+            return true;
+        default: abort();
+    }
+}
diff --git a/src/ast.h b/src/ast.h
index acda1a8..46f51df 100644
--- a/src/ast.h
+++ b/src/ast.h
@@ -342,3 +342,4 @@ bool fast_eq_expr(const struct ast_node* a, const struct ast_node* b);
 bool all_variables_in_config(const struct config* config, const struct ast_node* node);
 bool all_bounded_strings_valid(const struct config* config, const struct ast_node* node);
 bool all_exprs_valid(const struct config* config, const struct ast_node* node);
+bool all_ids_assigned(const struct ast_node* node);
diff --git a/src/betree.c b/src/betree.c
index acf6a28..281b02b 100644
--- a/src/betree.c
+++ b/src/betree.c
@@ -491,10 +491,16 @@ bool betree_insert_with_constants(struct betree* tree,
     }
     if(!assign_constants(constant_count, constants, node)) {
         fprintf(stderr, "Can't assign constants %ld\n", id);
+        free_ast_node(node);
         return false;
     }
     assign_str_id(tree->config, node, false);
     assign_ienum_id(tree->config, node, false);
+    if(!all_ids_assigned(node)) {
+        fprintf(stderr, "Out of bound value %ld\n", id);
+        free_ast_node(node);
+        return false;
+    }
     sort_lists(node);
     fix_float_with_no_fractions(tree->config, node);
     assign_pred_id(tree->config, node);
-- 
2.43.0


From e6f7349a3f4c257e99e70a5258d795bf773a2e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:03 +0000
Subject: [PATCH 07/28] fix: move the given subscription, not the first one
 with the same id

---
 src/tree.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tree.c b/src/tree.c
index 0b5cad8..636cbc9 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -494,11 +494,11 @@ bool sub_has_attribute_str(struct config* config, const struct betree_sub* sub,
     return sub_has_attribute(sub, variable_id);
 }
 
-static bool remove_sub(betree_sub_t sub, struct lnode* lnode)
+static bool remove_sub(const struct betree_sub* sub, struct lnode* lnode)
 {
     for(size_t i = 0; i < lnode->sub_count; i++) {
         const struct betree_sub* lnode_sub = lnode->subs[i];
-        if(sub == lnode_sub->id) {
+        if(sub == lnode_sub) {
             for(size_t j = i; j < lnode->sub_count - 1; j++) {
                 lnode->subs[j] = lnode->subs[j + 1];
             }
@@ -523,7 +523,7 @@ static bool remove_sub(betree_sub_t sub, struct lnode* lnode)
 
 static void move(const struct betree_sub* sub, struct lnode* origin, struct lnode* destination)
 {
-    bool isFound = remove_sub(sub->id, origin);
+    bool isFound = remove_sub(sub, origin);
     if(!isFound) {
         fprintf(stderr, "Could not find sub %" PRIu64 "\n", sub->id);
         abort();
-- 
2.43.0


From f319e2f421e4faca418160275aadf860310a8b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:38 +0000
Subject: [PATCH 08/28] fix: reject expressions using a variable with the wrong
 type or an undeclared one

---
 src/ast.c    | 41 +++++++++++++++++++++++++++++++++--------
 src/ast.h    |  1 +
 src/betree.c |  5 +++++
 3 files changed, 39 insertions(+), 8 deletions(-)

diff --git a/src/ast.c b/src/ast.c
index 471e1eb..fc322b7 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -2554,10 +2554,18 @@ bool is_list_type(enum betree_value_type_e type) {
     return type == BETREE_INTEGER_LIST || type == BETREE_STRING_LIST;
 }
 
-bool all_exprs_valid(const struct config* config, const struct ast_node* node)
+static enum betree_value_type_e get_var_type(const struct config* config, struct attr_var attr_var)
+{
+    return config->attr_domains[attr_var.var]->bound.value_type;
+}
+
+static bool exprs_valid(const struct config* config, const struct ast_node* node, bool types_only)
 {
     switch(node->type) {
         case AST_TYPE_IS_NULL_EXPR: {
+            if(types_only) {
+                return true;
+            }
             const struct attr_domain* attr_domain = config->attr_domains[node->is_null_expr.attr_var.var];
             enum betree_value_type_e var_type = attr_domain->bound.value_type;
             return (node->is_null_expr.type == AST_IS_NULL && attr_domain->allow_undefined)
@@ -2594,10 +2602,10 @@ bool all_exprs_valid(const struct config* config, const struct ast_node* node)
                     return true;
                 case AST_BOOL_OR:
                 case AST_BOOL_AND:
-                    return all_exprs_valid(config, node->bool_expr.binary.lhs)
-                        && all_exprs_valid(config, node->bool_expr.binary.rhs);
+                    return exprs_valid(config, node->bool_expr.binary.lhs, types_only)
+                        && exprs_valid(config, node->bool_expr.binary.rhs, types_only);
                 case AST_BOOL_NOT:
-                    return all_exprs_valid(config, node->bool_expr.unary.expr);
+                    return exprs_valid(config, node->bool_expr.unary.expr, types_only);
                 default: abort();
             }
         }
@@ -2619,17 +2627,33 @@ bool all_exprs_valid(const struct config* config, const struct ast_node* node)
         case AST_TYPE_SPECIAL_EXPR:
             switch(node->special_expr.type) {
                 case AST_SPECIAL_FREQUENCY:
-                    return node->special_expr.frequency.type != FREQUENCY_TYPE_INVALID;
+                    return node->special_expr.frequency.type != FREQUENCY_TYPE_INVALID
+                        && get_var_type(config, node->special_expr.frequency.attr_var) == BETREE_FREQUENCY_CAPS
+                        && get_var_type(config, node->special_expr.frequency.now) == BETREE_INTEGER;
                 case AST_SPECIAL_SEGMENT:
+                    return get_var_type(config, node->special_expr.segment.attr_var) == BETREE_SEGMENTS
+                        && get_var_type(config, node->special_expr.segment.now) == BETREE_INTEGER;
                 case AST_SPECIAL_GEO:
+                    return get_var_type(config, node->special_expr.geo.latitude_var) == BETREE_FLOAT
+                        && get_var_type(config, node->special_expr.geo.longitude_var) == BETREE_FLOAT;
                 case AST_SPECIAL_STRING:
-                    return true;
+                    return get_var_type(config, node->special_expr.string.attr_var) == BETREE_STRING;
                 default: abort();
             }
         default: abort();
     }
 }
 
+bool all_exprs_valid(const struct config* config, const struct ast_node* node)
+{
+    return exprs_valid(config, node, false);
+}
+
+bool all_types_valid(const struct config* config, const struct ast_node* node)
+{
+    return exprs_valid(config, node, true);
+}
+
 bool all_variables_in_config(const struct config* config, const struct ast_node* node)
 {
     switch(node->type) {
@@ -2657,11 +2681,12 @@ bool all_variables_in_config(const struct config* config, const struct ast_node*
                 return is_variable_valid(node->set_expr.right_value.variable_value);
             }
             fprintf(stderr, "Invalid set expr");
-            abort();
             return false;
         case AST_TYPE_SPECIAL_EXPR:
             switch(node->special_expr.type) {
-                case AST_SPECIAL_GEO: return true;
+                case AST_SPECIAL_GEO:
+                    return is_variable_valid(node->special_expr.geo.latitude_var)
+                        && is_variable_valid(node->special_expr.geo.longitude_var);
                 case AST_SPECIAL_STRING: return is_variable_valid(node->special_expr.string.attr_var);
                 case AST_SPECIAL_FREQUENCY:
                     return is_variable_valid(node->special_expr.frequency.attr_var)
diff --git a/src/ast.h b/src/ast.h
index 46f51df..bbcc2b4 100644
--- a/src/ast.h
+++ b/src/ast.h
@@ -342,4 +342,5 @@ bool fast_eq_expr(const struct ast_node* a, const struct ast_node* b);
 bool all_variables_in_config(const struct config* config, const struct ast_node* node);
 bool all_bounded_strings_valid(const struct config* config, const struct ast_node* node);
 bool all_exprs_valid(const struct config* config, const struct ast_node* node);
+bool all_types_valid(const struct config* config, const struct ast_node* node);
 bool all_ids_assigned(const struct ast_node* node);
diff --git a/src/betree.c b/src/betree.c
index 281b02b..3b91867 100644
--- a/src/betree.c
+++ b/src/betree.c
@@ -503,6 +503,11 @@ bool betree_insert_with_constants(struct betree* tree,
     }
     sort_lists(node);
     fix_float_with_no_fractions(tree->config, node);
+    if(!all_types_valid(tree->config, node)) {
+        fprintf(stderr, "Invalid expression found %ld\n", id);
+        free_ast_node(node);
+        return false;
+    }
     assign_pred_id(tree->config, node);
     struct betree_sub* sub = make_sub(tree->config, id, node);
     return insert_be_tree(tree->config, sub, tree->cnode, NULL);
-- 
2.43.0


From 95677e4719d5f8c1493ca52555dec138438eef04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:41 +0000
Subject: [PATCH 09/28] fix: validate the expression given to
 betree_change_boundaries

---
 src/betree.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/betree.c b/src/betree.c
index 3b91867..0d4c798 100644
--- a/src/betree.c
+++ b/src/betree.c
@@ -463,10 +463,20 @@ bool betree_change_boundaries(struct betree* tree, const char* expr)
         return false;
     }
     assign_variable_id(tree->config, node);
+    if(!all_variables_in_config(tree->config, node)) {
+        fprintf(stderr, "Missing variable in config\n");
+        free_ast_node(node);
+        return false;
+    }
     assign_str_id(tree->config, node, true);
     assign_ienum_id(tree->config, node, true);
     sort_lists(node);
     fix_float_with_no_fractions(tree->config, node);
+    if(!all_types_valid(tree->config, node)) {
+        fprintf(stderr, "Invalid expression found\n");
+        free_ast_node(node);
+        return false;
+    }
     change_boundaries(tree->config, node);
     free_ast_node(node);
     return true;
-- 
2.43.0


From 3df38385a0d8766e74ff80fa8246cc259a2f3ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:31 +0000
Subject: [PATCH 10/28] fix: refuse event values which do not have the type of
 their variable

---
 src/betree.c |  1 +
 src/tree.c   | 33 ++++++++++++++++++++++++++++++++-
 2 files changed, 33 insertions(+), 1 deletion(-)

diff --git a/src/betree.c b/src/betree.c
index 0d4c798..4c226ab 100644
--- a/src/betree.c
+++ b/src/betree.c
@@ -583,6 +583,7 @@ static bool betree_search_with_event_filled(const struct betree* betree, struct
         = make_environment(betree->config->attr_domain_count, event);
     if(validate_variables(betree->config, variables) == false) {
         fprintf(stderr, "Failed to validate event\n");
+        bfree(variables);
         return false;
     }
     return betree_search_with_preds(betree->config, variables, betree->cnode, report);
diff --git a/src/tree.c b/src/tree.c
index 636cbc9..77f5ece 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -17,6 +17,7 @@
 #include "printer.h"
 #include "tree.h"
 #include "utils.h"
+#include "var.h"
 
 struct subs_to_eval {
     struct betree_sub** subs;
@@ -1871,6 +1872,30 @@ void add_variable(struct betree_variable* variable, struct betree_event* event)
     event->variable_count++;
 }
 
+// An event gives no type to its values, fit what was found to what the variable is expected to be
+static bool convert_value(enum betree_value_type_e type, struct value* value)
+{
+    if(value->value_type == type) {
+        return true;
+    }
+    if(value->value_type == BETREE_INTEGER && type == BETREE_FLOAT) {
+        value->float_value = (double)value->integer_value;
+        value->value_type = type;
+        return true;
+    }
+    if(value->value_type == BETREE_INTEGER && type == BETREE_INTEGER_ENUM) {
+        value->value_type = type;
+        return true;
+    }
+    bool is_list = type == BETREE_INTEGER_LIST || type == BETREE_STRING_LIST
+        || type == BETREE_SEGMENTS || type == BETREE_FREQUENCY_CAPS;
+    if(is_list && is_empty_list(*value)) {
+        value->value_type = type;
+        return true;
+    }
+    return false;
+}
+
 void fill_event(const struct config* config, struct betree_event* event)
 {
     for(size_t i = 0; i < event->variable_count; i++) {
@@ -1885,7 +1910,10 @@ void fill_event(const struct config* config, struct betree_event* event)
         }
         pred->attr_var.var = var;
         struct attr_domain* domain = config->attr_domains[var];
-        pred->value.value_type = domain->bound.value_type;
+        if(!convert_value(domain->bound.value_type, &pred->value)) {
+            // Keep the type as is, validate_variables will refuse it
+            continue;
+        }
         switch(pred->value.value_type) {
             case BETREE_BOOLEAN:
             case BETREE_INTEGER:
@@ -1939,6 +1967,9 @@ bool validate_variables(const struct config* config, const struct betree_variabl
         if(attr_domain->allow_undefined == false && variable == NULL) {
             return false;
         }
+        if(variable != NULL && variable->value.value_type != attr_domain->bound.value_type) {
+            return false;
+        }
     }
     return true;
 }
-- 
2.43.0


From fab953c278669640486303eea181fcf17eb92ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:34 +0000
Subject: [PATCH 11/28] fix: validate the event given to betree_exists like the
 one given to betree_search

---
 src/betree.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/betree.c b/src/betree.c
index 4c226ab..ad0448e 100644
--- a/src/betree.c
+++ b/src/betree.c
@@ -592,6 +592,11 @@ static bool betree_search_with_event_filled(const struct betree* betree, struct
 static bool betree_exists_with_event_filled(const struct betree* betree, struct betree_event* event)
 {
     const struct betree_variable** variables = make_environment(betree->config->attr_domain_count, event);
+    if(validate_variables(betree->config, variables) == false) {
+        fprintf(stderr, "Failed to validate event\n");
+        bfree(variables);
+        return false;
+    }
     return betree_exists_with_preds(betree->config, variables, betree->cnode);
 }
 
-- 
2.43.0


From e6e632b6cc0f6803f4ff59a5765b8ab782eb384a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:52 +0000
Subject: [PATCH 12/28] fix: width of integer domains close to the whole range
 of integers

---
 src/tree.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tree.c b/src/tree.c
index 77f5ece..7234eea 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -354,7 +354,7 @@ static size_t domain_bound_diff(const struct attr_domain* attr_domain)
                 return SIZE_MAX;
             }
             else {
-                return (size_t)(llabs(b->imax - b->imin));
+                return (size_t)b->imax - (size_t)b->imin;
             }
         case BETREE_FLOAT:
             if(feq(b->fmin, -DBL_MAX) && feq(b->fmax, DBL_MAX)) {
@@ -724,7 +724,7 @@ static bool splitable_attr_domain(
             if(attr_domain->bound.imin == INT64_MIN || attr_domain->bound.imax == INT64_MAX) {
                 return false;
             }
-            return ((uint64_t)llabs(attr_domain->bound.imax - attr_domain->bound.imin))
+            return (uint64_t)attr_domain->bound.imax - (uint64_t)attr_domain->bound.imin
                 < config->max_domain_for_split;
         case BETREE_FLOAT:
             if(feq(attr_domain->bound.fmin, -DBL_MAX) || feq(attr_domain->bound.fmax, DBL_MAX)) {
-- 
2.43.0


From 7036db33ea61f87aecfec808bb21b52ecc4271ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:11 +0000
Subject: [PATCH 13/28] fix: do not abort when the domain of a float cannot be
 split in two

---
 src/tree.c | 44 +++++++++++++++++++++++++++-----------------
 1 file changed, 27 insertions(+), 17 deletions(-)

diff --git a/src/tree.c b/src/tree.c
index 7234eea..d202c8c 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -361,7 +361,8 @@ static size_t domain_bound_diff(const struct attr_domain* attr_domain)
                 return SIZE_MAX;
             }
             else {
-                return (size_t)(fabs(b->fmax - b->fmin));
+                double diff = fabs(b->fmax - b->fmin);
+                return diff < (double)SIZE_MAX ? (size_t)diff : SIZE_MAX;
             }
         case BETREE_STRING:
         case BETREE_STRING_LIST:
@@ -730,8 +731,8 @@ static bool splitable_attr_domain(
             if(feq(attr_domain->bound.fmin, -DBL_MAX) || feq(attr_domain->bound.fmax, DBL_MAX)) {
                 return false;
             }
-            return ((uint64_t)fabs(attr_domain->bound.fmax - attr_domain->bound.fmin))
-                < config->max_domain_for_split;
+            return fabs(attr_domain->bound.fmax - attr_domain->bound.fmin)
+                < (double)config->max_domain_for_split;
         case BETREE_BOOLEAN:
             return true;
         case BETREE_STRING:
@@ -836,6 +837,25 @@ static void space_partitioning(const struct config* config, struct cnode* cnode)
     update_cluster_capacity(config, lnode);
 }
 
+// Find where to split, both sides need to be smaller than what is split
+static bool split_float_bound(double start, double end, double* lmax, double* rmin)
+{
+    if(fabs(end - start) > 2) {
+        *lmax = *rmin = start + ceil((end - start) / 2);
+    }
+    else if(feq(fabs(end - start), 2)) {
+        *lmax = *rmin = start + 1;
+    }
+    else if(feq(fabs(end - start), 1)) {
+        *lmax = start;
+        *rmin = end;
+    }
+    else {
+        return false;
+    }
+    return *lmax < end && *rmin > start;
+}
+
 static bool is_atomic(const struct cdir* cdir)
 {
     switch(cdir->bound.value_type) {
@@ -843,7 +863,8 @@ static bool is_atomic(const struct cdir* cdir)
         case(BETREE_INTEGER_LIST):
             return cdir->bound.imin == cdir->bound.imax;
         case(BETREE_FLOAT): {
-            return feq(cdir->bound.fmin, cdir->bound.fmax);
+            double lmax, rmin;
+            return !split_float_bound(cdir->bound.fmin, cdir->bound.fmax, &lmax, &rmin);
         }
         case(BETREE_BOOLEAN): {
             return cdir->bound.bmin == cdir->bound.bmax;
@@ -930,19 +951,8 @@ static struct value_bounds split_value_bound(struct value_bound bound)
             double start = bound.fmin, end = bound.fmax;
             lbound.fmin = start;
             rbound.fmax = end;
-            if(fabs(end - start) > 2) {
-                double middle = start + ceil((end - start) / 2);
-                lbound.fmax = middle;
-                rbound.fmin = middle;
-            }
-            else if(feq(fabs(end - start), 2)) {
-                double middle = start + 1;
-                lbound.fmax = middle;
-                rbound.fmin = middle;
-            }
-            else if(feq(fabs(end - start), 1)) {
-                lbound.fmax = start;
-                rbound.fmin = end;
+            if(split_float_bound(start, end, &lbound.fmax, &rbound.fmin)) {
+                break;
             }
             else {
                 fprintf(stderr, "%s trying to split an unsplitable bound\n", __func__);
-- 
2.43.0


From 8ce4d0da867a99537d8d66e35eba1c9d0536316a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:15 +0000
Subject: [PATCH 14/28] fix: look for float values with the epsilon their
 expressions are matched with

---
 src/tree.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tree.c b/src/tree.c
index d202c8c..1965a3c 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -153,7 +153,9 @@ static bool is_event_enclosed(const struct betree_variable** preds, const struct
         case BETREE_INTEGER:
             return (open_left || cdir->bound.imin <= pred->value.integer_value) && (open_right || cdir->bound.imax >= pred->value.integer_value);
         case BETREE_FLOAT:
-            return (open_left || cdir->bound.fmin <= pred->value.float_value) && (open_right || cdir->bound.fmax >= pred->value.float_value);
+            // Floats are compared within an epsilon and so are the bounds of the expressions
+            return (open_left || cdir->bound.fmin <= pred->value.float_value + __DBL_EPSILON__)
+                && (open_right || cdir->bound.fmax >= pred->value.float_value - __DBL_EPSILON__);
         case BETREE_STRING:
             return (cdir->bound.smin <= pred->value.string_value.str) && (open_right || cdir->bound.smax >= pred->value.string_value.str);
         case BETREE_INTEGER_ENUM:
-- 
2.43.0


From 9af8f5b119cfa6222a947d7e3c48fad6ad9f37a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:11 +0000
Subject: [PATCH 15/28] fix: overflow of the bounds of comparisons with the
 lowest and highest integers

---
 src/ast.c    |  8 ++++----
 src/betree.c |  4 ++--
 src/utils.c  | 10 ++++++++++
 src/utils.h  |  3 +++
 4 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/ast.c b/src/ast.c
index fc322b7..b6efb1a 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -1716,7 +1716,7 @@ static void get_variable_bound_inner(const struct attr_domain* domain,
                                 dirty->min_dirty = true;
                             }
                             else {
-                                bound->imax = node->compare_expr.value.integer_value - 1;
+                                bound->imax = d64prev(node->compare_expr.value.integer_value);
                                 dirty->max_dirty = true;
                             }
                             break;
@@ -1738,7 +1738,7 @@ static void get_variable_bound_inner(const struct attr_domain* domain,
                     switch(node->compare_expr.value.value_type) {
                         case AST_COMPARE_VALUE_INTEGER:
                             if(is_reversed) {
-                                bound->imin = node->compare_expr.value.integer_value + 1;
+                                bound->imin = d64next(node->compare_expr.value.integer_value);
                                 dirty->min_dirty = true;
                             }
                             else {
@@ -1768,7 +1768,7 @@ static void get_variable_bound_inner(const struct attr_domain* domain,
                                 dirty->max_dirty = true;
                             }
                             else {
-                                bound->imin = node->compare_expr.value.integer_value + 1;
+                                bound->imin = d64next(node->compare_expr.value.integer_value);
                                 dirty->min_dirty = true;
                             }
                             break;
@@ -1790,7 +1790,7 @@ static void get_variable_bound_inner(const struct attr_domain* domain,
                     switch(node->compare_expr.value.value_type) {
                         case AST_COMPARE_VALUE_INTEGER:
                             if(is_reversed) {
-                                bound->imax = node->compare_expr.value.integer_value - 1;
+                                bound->imax = d64prev(node->compare_expr.value.integer_value);
                                 dirty->max_dirty = true;
                             }
                             else {
diff --git a/src/betree.c b/src/betree.c
index ad0448e..cc6ec88 100644
--- a/src/betree.c
+++ b/src/betree.c
@@ -189,9 +189,9 @@ static struct value_bound compare_simple_bound(struct compare_value value, enum
         case AST_COMPARE_VALUE_INTEGER: {
             int64_t i = value.integer_value;
             switch(op) {
-                case AST_COMPARE_LT: return inverted ? compare_simple_bound(value, AST_COMPARE_GE, false) : integer_bound(i - 1);
+                case AST_COMPARE_LT: return inverted ? compare_simple_bound(value, AST_COMPARE_GE, false) : integer_bound(d64prev(i));
                 case AST_COMPARE_LE: return inverted ? compare_simple_bound(value, AST_COMPARE_GT, false) : integer_bound(i);
-                case AST_COMPARE_GT: return inverted ? compare_simple_bound(value, AST_COMPARE_LE, false) : integer_bound(i + 1);
+                case AST_COMPARE_GT: return inverted ? compare_simple_bound(value, AST_COMPARE_LE, false) : integer_bound(d64next(i));
                 case AST_COMPARE_GE: return inverted ? compare_simple_bound(value, AST_COMPARE_LT, false) : integer_bound(i);
                 default: abort();
             }
diff --git a/src/utils.c b/src/utils.c
index 8d8ceca..f7c9d3f 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -20,6 +20,16 @@ int64_t d64max(int64_t a, int64_t b)
     return a > b ? a : b;
 }
 
+int64_t d64prev(int64_t a)
+{
+    return a == INT64_MIN ? a : a - 1;
+}
+
+int64_t d64next(int64_t a)
+{
+    return a == INT64_MAX ? a : a + 1;
+}
+
 uint64_t u64max(uint64_t a, uint64_t b)
 {
     return a > b ? a : b;
diff --git a/src/utils.h b/src/utils.h
index ac20c15..35764b1 100644
--- a/src/utils.h
+++ b/src/utils.h
@@ -9,6 +9,9 @@
 
 int64_t d64min(int64_t a, int64_t b);
 int64_t d64max(int64_t a, int64_t b);
+// The integers before and after, stops at the limits
+int64_t d64prev(int64_t a);
+int64_t d64next(int64_t a);
 uint64_t u64max(uint64_t a, uint64_t b);
 size_t smin(size_t a, size_t b);
 size_t smax(size_t a, size_t b);
-- 
2.43.0


From 97316319021164ab4ea63154b1843e13e662d1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:55 +0000
Subject: [PATCH 16/28] fix: domain getting narrower after an expression
 reached its limits

---
 src/betree.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/betree.c b/src/betree.c
index cc6ec88..22276f1 100644
--- a/src/betree.c
+++ b/src/betree.c
@@ -392,6 +392,10 @@ static void change_boundaries(struct config* config, const struct ast_node* node
                 break;
             case BETREE_INTEGER:
             case BETREE_INTEGER_LIST:
+                // The limits stand for a domain without bounds, which would get narrower on the
+                // next expression, don't reach them
+                bound.imin = d64max(bound.imin, INT64_MIN + 1);
+                bound.imax = d64min(bound.imax, INT64_MAX - 1);
                 if(attr_domain->bound.imin != INT64_MIN) {
                     attr_domain->bound.imin = bound.imin < attr_domain->bound.imin ? bound.imin : attr_domain->bound.imin;
                 }
@@ -406,6 +410,8 @@ static void change_boundaries(struct config* config, const struct ast_node* node
                 }
                 break;
             case BETREE_FLOAT:
+                bound.fmin = fmax(bound.fmin, -DBL_MAX * (1 - DBL_EPSILON));
+                bound.fmax = fmin(bound.fmax, DBL_MAX * (1 - DBL_EPSILON));
                 if(fne(attr_domain->bound.fmin, -DBL_MAX)) {
                     attr_domain->bound.fmin = bound.fmin < attr_domain->bound.fmin ? bound.fmin : attr_domain->bound.fmin;
                 }
-- 
2.43.0


From 2afebf55ee27a59e84da23e79c401ecd8750c9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:58 +0000
Subject: [PATCH 17/28] fix: a string repeated in a list takes room only once

---
 src/ast.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/ast.c b/src/ast.c
index b6efb1a..fb20267 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -2756,17 +2756,17 @@ static bool strs_valid(
     }
     struct string_map* string_map = get_string_map_for_attr(config, attr);
     size_t space_left = string_map == NULL ? bound : bound - string_map->string_value_count;
-    size_t found = 0;
-    if(string_map != NULL) {
-        for(size_t i = 0; i < strings->count; i++) {
-            const char* string = strings->strings[i].string;
-            betree_str_t* str = map_get(&string_map->m, string);
-            if(str != NULL) {
-                found++;
-            }
+    size_t needed = 0;
+    for(size_t i = 0; i < strings->count; i++) {
+        const char* string = strings->strings[i].string;
+        bool found = string_map != NULL && map_get(&string_map->m, string) != NULL;
+        for(size_t j = 0; j < i && found == false; j++) {
+            found = strcmp(string, strings->strings[j].string) == 0;
+        }
+        if(found == false) {
+            needed++;
         }
     }
-    size_t needed = strings->count - found;
     bool within_bound = space_left >= needed;
     if(within_bound == false) {
         fprintf(stderr,
-- 
2.43.0


From 0e9312d865d5ed1122973a8c9030547e947d90b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:31 +0000
Subject: [PATCH 18/28] fix: string map without a string was left uninitialized

---
 src/config.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/config.c b/src/config.c
index 60028b4..3ba4254 100644
--- a/src/config.c
+++ b/src/config.c
@@ -251,6 +251,7 @@ static void add_string_map(struct attr_var attr_var, struct config* config)
     config->string_maps[config->string_map_count].attr_var.attr = bstrdup(attr_var.attr);
     config->string_maps[config->string_map_count].attr_var.var = attr_var.var;
     config->string_maps[config->string_map_count].string_value_count = 0;
+    map_init(&config->string_maps[config->string_map_count].m);
     config->string_map_count++;
 }
 
@@ -278,9 +279,6 @@ static void add_to_integer_map(struct integer_map* integer_map, int64_t integer)
 
 static void add_to_string_map(struct string_map* string_map, const char* string)
 {
-    if(string_map->string_value_count == 0) {
-        map_init(&string_map->m);
-    }
     map_set(&string_map->m, string, string_map->string_value_count);
     string_map->string_value_count++;
 }
-- 
2.43.0


From 7be97fb662e7fe19fefa452dfcee917c61d027ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:44 +0000
Subject: [PATCH 19/28] fix: values of frequency caps and segments expressions
 were truncated to 32 bits

---
 src/special.c | 6 +++---
 src/special.h | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/special.c b/src/special.c
index 5192ae6..d80cac4 100644
--- a/src/special.c
+++ b/src/special.c
@@ -12,7 +12,7 @@ bool within_frequency_caps(const struct betree_frequency_caps* caps,
     enum frequency_type_e type,
     uint32_t id,
     const struct string_value namespace,
-    uint32_t value,
+    int64_t value,
     size_t length,
     int64_t now)
 {
@@ -40,7 +40,7 @@ bool within_frequency_caps(const struct betree_frequency_caps* caps,
 }
 
 bool segment_within(
-    int64_t segment_id, int32_t after_seconds, const struct betree_segments* segments, int64_t now)
+    int64_t segment_id, int64_t after_seconds, const struct betree_segments* segments, int64_t now)
 {
     for(size_t i = 0; i < segments->size; i++) {
         if(segments->content[i]->id < segment_id) {
@@ -55,7 +55,7 @@ bool segment_within(
 }
 
 bool segment_before(
-    int64_t segment_id, int32_t before_seconds, const struct betree_segments* segments, int64_t now)
+    int64_t segment_id, int64_t before_seconds, const struct betree_segments* segments, int64_t now)
 {
     for(size_t i = 0; i < segments->size; i++) {
         if(segments->content[i]->id < segment_id) {
diff --git a/src/special.h b/src/special.h
index 688aa9c..869c28f 100644
--- a/src/special.h
+++ b/src/special.h
@@ -10,13 +10,13 @@ bool within_frequency_caps(const struct betree_frequency_caps* caps,
     enum frequency_type_e type,
     uint32_t id,
     const struct string_value namespace,
-    uint32_t value,
+    int64_t value,
     size_t length,
     int64_t now);
 bool segment_within(
-    int64_t segment_id, int32_t after_seconds, const struct betree_segments* segments, int64_t now);
+    int64_t segment_id, int64_t after_seconds, const struct betree_segments* segments, int64_t now);
 bool segment_before(
-    int64_t segment_id, int32_t before_seconds, const struct betree_segments* segments, int64_t now);
+    int64_t segment_id, int64_t before_seconds, const struct betree_segments* segments, int64_t now);
 bool geo_within_radius(double lat1, double lon1, double lat2, double lon2, double distance);
 bool contains(const char* value, const char* pattern);
 bool starts_with(const char* value, const char* pattern);
-- 
2.43.0


From 75525ffc1f1b07b3fd7787791095ec2d9e91c0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:47 +0000
Subject: [PATCH 20/28] fix: find the segment of an event whose segments are
 not sorted

---
 src/special.c | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/src/special.c b/src/special.c
index d80cac4..7744223 100644
--- a/src/special.c
+++ b/src/special.c
@@ -43,13 +43,9 @@ bool segment_within(
     int64_t segment_id, int64_t after_seconds, const struct betree_segments* segments, int64_t now)
 {
     for(size_t i = 0; i < segments->size; i++) {
-        if(segments->content[i]->id < segment_id) {
-            continue;
-        }
         if(segments->content[i]->id == segment_id) {
             return (now - after_seconds) <= (segments->content[i]->timestamp / 1000000);
         }
-        return false;
     }
     return false;
 }
@@ -58,13 +54,9 @@ bool segment_before(
     int64_t segment_id, int64_t before_seconds, const struct betree_segments* segments, int64_t now)
 {
     for(size_t i = 0; i < segments->size; i++) {
-        if(segments->content[i]->id < segment_id) {
-            continue;
-        }
         if(segments->content[i]->id == segment_id) {
             return (now - before_seconds) > (segments->content[i]->timestamp / 1000000);
         }
-        return false;
     }
     return false;
 }
-- 
2.43.0


From 9b27df373acd178dfa90dcbbf473cc05b9309c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:17 +0000
Subject: [PATCH 21/28] fix: parameters given to betree_make_with_parameters
 were truncated

---
 src/betree.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/betree.c b/src/betree.c
index 22276f1..782cdf2 100644
--- a/src/betree.c
+++ b/src/betree.c
@@ -688,7 +688,10 @@ struct betree* betree_make()
 
 struct betree* betree_make_with_parameters(uint64_t lnode_max_cap, uint64_t min_partition_size)
 {
-    struct config* config = make_config(lnode_max_cap, min_partition_size);
+    // The config keeps small values, and lnodes need to hold something
+    uint8_t max_cap = lnode_max_cap == 0 ? 1 : lnode_max_cap > UINT8_MAX ? UINT8_MAX : lnode_max_cap;
+    uint8_t min_size = min_partition_size > UINT8_MAX ? UINT8_MAX : min_partition_size;
+    struct config* config = make_config(max_cap, min_size);
     return betree_make_with_config(config);
 }
 
-- 
2.43.0


From 641167a903b6118a92e81ae5225e2aad6586677e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:21 +0000
Subject: [PATCH 22/28] fix: expressions with a different null check, strings
 or frequency id are not equal

---
 src/ast.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ast.c b/src/ast.c
index fb20267..a485133 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -2324,7 +2324,7 @@ static bool eq_string_list(struct betree_string_list* a, struct betree_string_li
         return false;
     }
     for(size_t i = 0; i < a->count; i++) {
-        if(a->strings[i].var == b->strings[i].var && a->strings[i].str != b->strings[i].str) {
+        if(a->strings[i].var != b->strings[i].var || a->strings[i].str != b->strings[i].str) {
             return false;
         }
     }
@@ -2389,7 +2389,8 @@ static bool eq_special_expr(struct ast_special_expr a, struct ast_special_expr b
                 && a.frequency.length == b.frequency.length
                 && a.frequency.ns.var == b.frequency.ns.var
                 && a.frequency.ns.str == b.frequency.ns.str && a.frequency.op == b.frequency.op
-                && a.frequency.type == b.frequency.type && a.frequency.value == b.frequency.value;
+                && a.frequency.type == b.frequency.type && a.frequency.value == b.frequency.value
+                && a.frequency.id == b.frequency.id;
         case AST_SPECIAL_SEGMENT:
             return a.segment.attr_var.var == b.segment.attr_var.var
                 && a.segment.has_variable == b.segment.has_variable && a.segment.op == b.segment.op
@@ -2416,7 +2417,8 @@ bool eq_expr(const struct ast_node* a, const struct ast_node* b)
     }
     switch(a->type) {
         case AST_TYPE_IS_NULL_EXPR:
-            return a->is_null_expr.attr_var.var == b->is_null_expr.attr_var.var;
+            return a->is_null_expr.attr_var.var == b->is_null_expr.attr_var.var
+                && a->is_null_expr.type == b->is_null_expr.type;
         case AST_TYPE_COMPARE_EXPR: {
             return a->compare_expr.attr_var.var == b->compare_expr.attr_var.var
                 && a->compare_expr.op == b->compare_expr.op
-- 
2.43.0


From 9fd22d580fad2d67ab3f968d5bd9aa535dcc2515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:24 +0000
Subject: [PATCH 23/28] fix: clone all the variables and the id of special
 expressions

---
 src/clone.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/clone.c b/src/clone.c
index 6213ebf..756f4a9 100644
--- a/src/clone.c
+++ b/src/clone.c
@@ -222,6 +222,8 @@ static struct ast_node* clone_special(betree_pred_t global_id, betree_pred_t mem
             clone->special_expr.frequency.op = orig.frequency.op;
             clone->special_expr.frequency.type = orig.frequency.type;
             clone->special_expr.frequency.value = orig.frequency.value;
+            clone->special_expr.frequency.now = clone_attr_var(orig.frequency.now);
+            clone->special_expr.frequency.id = orig.frequency.id;
             break;
         case AST_SPECIAL_SEGMENT:
             clone->special_expr.segment.attr_var = clone_attr_var(orig.segment.attr_var);
@@ -229,6 +231,7 @@ static struct ast_node* clone_special(betree_pred_t global_id, betree_pred_t mem
             clone->special_expr.segment.op = orig.segment.op;
             clone->special_expr.segment.seconds = orig.segment.seconds;
             clone->special_expr.segment.segment_id = orig.segment.segment_id;
+            clone->special_expr.segment.now = clone_attr_var(orig.segment.now);
             break;
         case AST_SPECIAL_GEO:
             clone->special_expr.geo.has_radius = orig.geo.has_radius;
@@ -236,6 +239,8 @@ static struct ast_node* clone_special(betree_pred_t global_id, betree_pred_t mem
             clone->special_expr.geo.longitude = orig.geo.longitude;
             clone->special_expr.geo.op = orig.geo.op;
             clone->special_expr.geo.radius = orig.geo.radius;
+            clone->special_expr.geo.latitude_var = clone_attr_var(orig.geo.latitude_var);
+            clone->special_expr.geo.longitude_var = clone_attr_var(orig.geo.longitude_var);
             break;
         case AST_SPECIAL_STRING:
             clone->special_expr.string.attr_var = clone_attr_var(orig.string.attr_var);
-- 
2.43.0


From 012e7f26a43d77ec1764daba9586c2305d3b3c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:46 +0000
Subject: [PATCH 24/28] fix: values beyond the allowed count got ids after a
 refused subscription

---
 src/ast.c    | 13 +++++++++++--
 src/config.c |  4 ++--
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/ast.c b/src/ast.c
index a485133..95edd04 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -2727,11 +2727,20 @@ static struct string_map* get_string_map_for_attr(const struct config* config, c
     return NULL;
 }
 
+static size_t space_left_in_map(size_t bound, const struct string_map* string_map)
+{
+    // Strings without room were added while changing boundaries, even if that was refused later
+    if(string_map->string_value_count >= bound) {
+        return 0;
+    }
+    return bound - string_map->string_value_count;
+}
+
 static bool str_valid(const struct config* config, const char* attr, const char* string)
 {
     size_t bound = get_attr_string_bound(config, attr);
     struct string_map* string_map = get_string_map_for_attr(config, attr);
-    size_t space_left = string_map == NULL ? bound : bound - string_map->string_value_count;
+    size_t space_left = string_map == NULL ? bound : space_left_in_map(bound, string_map);
     if(string_map != NULL) {
         betree_str_t* str = map_get(&string_map->m, string);
         if(str != NULL) {
@@ -2757,7 +2766,7 @@ static bool strs_valid(
         return true;
     }
     struct string_map* string_map = get_string_map_for_attr(config, attr);
-    size_t space_left = string_map == NULL ? bound : bound - string_map->string_value_count;
+    size_t space_left = string_map == NULL ? bound : space_left_in_map(bound, string_map);
     size_t needed = 0;
     for(size_t i = 0; i < strings->count; i++) {
         const char* string = strings->strings[i].string;
diff --git a/src/config.c b/src/config.c
index 3ba4254..7770bf0 100644
--- a/src/config.c
+++ b/src/config.c
@@ -336,7 +336,7 @@ betree_ienum_t get_id_for_ienum(struct config* config, struct attr_var attr_var,
     }
     const struct attr_domain* attr_domain
         = get_attr_domain((const struct attr_domain**)config->attr_domains, attr_var.var);
-    if(!always_assign && attr_domain->bound.smax + 1 == integer_map->integer_value_count) {
+    if(!always_assign && attr_domain->bound.smax + 1 <= integer_map->integer_value_count) {
         return INVALID_IENUM;
     }
     add_to_integer_map(integer_map, integer);
@@ -362,7 +362,7 @@ betree_str_t get_id_for_string(struct config* config, struct attr_var attr_var,
     }
     const struct attr_domain* attr_domain
         = get_attr_domain((const struct attr_domain**)config->attr_domains, attr_var.var);
-    if(!always_assign && attr_domain->bound.smax + 1 == string_map->string_value_count) {
+    if(!always_assign && attr_domain->bound.smax + 1 <= string_map->string_value_count) {
         return INVALID_STR;
     }
     add_to_string_map(string_map, string);
-- 
2.43.0


From abee73185fac5d1f505c0eef3c33f246269547c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:54 +0000
Subject: [PATCH 25/28] fix: fast_eq_expr compared the operands of connectives
 but not the operator

---
 src/ast.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ast.c b/src/ast.c
index 95edd04..9ba8ac2 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -2454,6 +2454,9 @@ bool fast_eq_expr(const struct ast_node* a, const struct ast_node* b)
         return false;
     }
     if(a->type == AST_TYPE_BOOL_EXPR) {
+        if(a->bool_expr.op != b->bool_expr.op) {
+            return false;
+        }
         if(a->bool_expr.op == AST_BOOL_NOT) {
             return a->bool_expr.unary.expr->global_id == b->bool_expr.unary.expr->global_id;
         }
-- 
2.43.0


From 63a548e25dcdcb7fc5d0bdc728e1b2ee8b57721e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:18 +0000
Subject: [PATCH 26/28] fix: the size of an ordered tree counts its elements,
 not the calls that insert and erase

---
 src/jsw_rbtree.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/jsw_rbtree.c b/src/jsw_rbtree.c
index d9fc229..f516d59 100644
--- a/src/jsw_rbtree.c
+++ b/src/jsw_rbtree.c
@@ -137,6 +137,8 @@ int jsw_rbinsert(struct jsw_rbtree* tree, void* data)
         if(tree->root == NULL) {
             return 0;
 		}
+
+        tree->size++;
     }
     else {
         struct jsw_rbnode head = {0}; 
@@ -155,6 +157,8 @@ int jsw_rbinsert(struct jsw_rbtree* tree, void* data)
                 if(q == NULL) {
                     return 0;
                 }
+
+                tree->size++;
             }
             else if(is_red(q->link[0]) && is_red(q->link[1])) {
                 q->red = 1;
@@ -192,7 +196,6 @@ int jsw_rbinsert(struct jsw_rbtree* tree, void* data)
     }
 
     tree->root->red = 0;
-    tree->size++;
 
     return 1;
 }
@@ -256,6 +259,7 @@ int jsw_rberase(struct jsw_rbtree* tree, void* data)
             f->data = q->data;
             p->link[p->link[1] == q] = q->link[q->link[0] == NULL];
             bfree(q);
+            tree->size--;
         }
 
         tree->root = head.link[1];
@@ -263,8 +267,6 @@ int jsw_rberase(struct jsw_rbtree* tree, void* data)
         if(tree->root != NULL) {
             tree->root->red = 0;
         }
-
-        tree->size--;
     }
 
     return 1;
-- 
2.43.0


From 72a725f0284598a57874a48e18dc2312da146ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:26 +0000
Subject: [PATCH 27/28] fix: the parts of an expression read before a syntax
 error were never released

---
 src/parser.c | 200 ++++++++++++++++++++++++++++++++++++++++++++++++++-
 src/parser.y |  30 ++++++++
 2 files changed, 229 insertions(+), 1 deletion(-)

diff --git a/src/parser.c b/src/parser.c
index 6c74de6..3fd552a 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -82,6 +82,22 @@
     #include "value.h"
     extern int xxlex();
     void xxerror(void *scanner, struct ast_node** node, const char *s) { (void)node; (void)scanner; printf("ERROR: %s\n", s); }
+    static void free_set_left_value(struct set_left_value value)
+    {
+        if(value.value_type == AST_SET_LEFT_VALUE_STRING) bfree((char*)value.string_value.string);
+        if(value.value_type == AST_SET_LEFT_VALUE_VARIABLE) free_attr_var(value.variable_value);
+    }
+    static void free_set_right_value(struct set_right_value value)
+    {
+        if(value.value_type == AST_SET_RIGHT_VALUE_INTEGER_LIST) free_integer_list(value.integer_list_value);
+        if(value.value_type == AST_SET_RIGHT_VALUE_STRING_LIST) free_string_list(value.string_list_value);
+        if(value.value_type == AST_SET_RIGHT_VALUE_VARIABLE) free_attr_var(value.variable_value);
+    }
+    static void free_list_value(struct list_value value)
+    {
+        if(value.value_type == AST_LIST_VALUE_INTEGER_LIST) free_integer_list(value.integer_list_value);
+        if(value.value_type == AST_LIST_VALUE_STRING_LIST) free_string_list(value.string_list_value);
+    }
 #ifdef NIF
     #include "erl_nif.h"
     #define YYMALLOC enif_alloc
@@ -1188,7 +1204,186 @@ yydestruct (const char *yymsg, int yytype, YYSTYPE *yyvaluep, void *scanner, str
   YY_SYMBOL_PRINT (yymsg, yytype, yyvaluep, yylocationp);
 
   YY_IGNORE_MAYBE_UNINITIALIZED_BEGIN
-  YYUSE (yytype);
+  switch (yytype)
+    {
+          case 33: /* TSTRING */
+
+      { bfree(((*yyvaluep).string)); }
+
+        break;
+
+
+          case 34: /* TIDENTIFIER */
+
+      { bfree(((*yyvaluep).string)); }
+
+        break;
+
+
+          case 39: /* ident */
+
+      { bfree(((*yyvaluep).string)); }
+
+        break;
+
+
+          case 42: /* string */
+
+      { bfree((char*)((*yyvaluep).string_value).string); }
+
+        break;
+
+
+          case 43: /* integer_list_value */
+
+      { free_integer_list(((*yyvaluep).integer_list_value)); }
+
+        break;
+
+
+          case 44: /* integer_list_loop */
+
+      { free_integer_list(((*yyvaluep).integer_list_value)); }
+
+        break;
+
+
+          case 45: /* string_list_value */
+
+      { free_string_list(((*yyvaluep).string_list_value)); }
+
+        break;
+
+
+          case 46: /* string_list_loop */
+
+      { free_string_list(((*yyvaluep).string_list_value)); }
+
+        break;
+
+
+          case 47: /* expr */
+
+      { free_ast_node(((*yyvaluep).node)); }
+
+        break;
+
+
+          case 48: /* is_null_expr */
+
+      { free_ast_node(((*yyvaluep).node)); }
+
+        break;
+
+
+          case 50: /* num_comp_expr */
+
+      { free_ast_node(((*yyvaluep).node)); }
+
+        break;
+
+
+          case 51: /* eq_value */
+
+      { if(((*yyvaluep).equality_value).value_type == AST_EQUALITY_VALUE_STRING) bfree((char*)((*yyvaluep).equality_value).string_value.string); }
+
+        break;
+
+
+          case 52: /* eq_expr */
+
+      { free_ast_node(((*yyvaluep).node)); }
+
+        break;
+
+
+          case 53: /* variable_value */
+
+      { free_attr_var(((*yyvaluep).variable_value)); }
+
+        break;
+
+
+          case 54: /* set_left_value */
+
+      { free_set_left_value(((*yyvaluep).set_left_value)); }
+
+        break;
+
+
+          case 55: /* set_right_value */
+
+      { free_set_right_value(((*yyvaluep).set_right_value)); }
+
+        break;
+
+
+          case 56: /* set_expr */
+
+      { free_ast_node(((*yyvaluep).node)); }
+
+        break;
+
+
+          case 57: /* list_value */
+
+      { free_list_value(((*yyvaluep).list_value)); }
+
+        break;
+
+
+          case 58: /* list_expr */
+
+      { free_ast_node(((*yyvaluep).node)); }
+
+        break;
+
+
+          case 59: /* bool_expr */
+
+      { free_ast_node(((*yyvaluep).node)); }
+
+        break;
+
+
+          case 60: /* special_expr */
+
+      { free_ast_node(((*yyvaluep).node)); }
+
+        break;
+
+
+          case 61: /* s_frequency_expr */
+
+      { free_ast_node(((*yyvaluep).node)); }
+
+        break;
+
+
+          case 62: /* s_segment_expr */
+
+      { free_ast_node(((*yyvaluep).node)); }
+
+        break;
+
+
+          case 63: /* s_geo_expr */
+
+      { free_ast_node(((*yyvaluep).node)); }
+
+        break;
+
+
+          case 64: /* s_string_expr */
+
+      { free_ast_node(((*yyvaluep).node)); }
+
+        break;
+
+
+      default:
+        break;
+    }
   YY_IGNORE_MAYBE_UNINITIALIZED_END
 }
 
@@ -2140,6 +2335,7 @@ int parse(const char *text, struct ast_node **node)
     // xxdebug = 1;
     
     // Parse using Bison.
+    *node = NULL;
     yyscan_t scanner;
     xxlex_init(&scanner);
     YY_BUFFER_STATE buffer = xx_scan_string(text, scanner);
@@ -2151,6 +2347,8 @@ int parse(const char *text, struct ast_node **node)
         return 0;
     }
     else {
+        free_ast_node(*node);
+        *node = NULL;
         return -1;
     }
 }
diff --git a/src/parser.y b/src/parser.y
index fc6cbc6..43dea8b 100644
--- a/src/parser.y
+++ b/src/parser.y
@@ -10,6 +10,22 @@
     #include "value.h"
     extern int xxlex();
     void xxerror(void *scanner, struct ast_node** node, const char *s) { (void)node; (void)scanner; printf("ERROR: %s\n", s); }
+    static void free_set_left_value(struct set_left_value value)
+    {
+        if(value.value_type == AST_SET_LEFT_VALUE_STRING) bfree((char*)value.string_value.string);
+        if(value.value_type == AST_SET_LEFT_VALUE_VARIABLE) free_attr_var(value.variable_value);
+    }
+    static void free_set_right_value(struct set_right_value value)
+    {
+        if(value.value_type == AST_SET_RIGHT_VALUE_INTEGER_LIST) free_integer_list(value.integer_list_value);
+        if(value.value_type == AST_SET_RIGHT_VALUE_STRING_LIST) free_string_list(value.string_list_value);
+        if(value.value_type == AST_SET_RIGHT_VALUE_VARIABLE) free_attr_var(value.variable_value);
+    }
+    static void free_list_value(struct list_value value)
+    {
+        if(value.value_type == AST_LIST_VALUE_INTEGER_LIST) free_integer_list(value.integer_list_value);
+        if(value.value_type == AST_LIST_VALUE_STRING_LIST) free_string_list(value.string_list_value);
+    }
 #ifdef NIF
     #include "erl_nif.h"
     #define YYMALLOC enif_alloc
@@ -84,6 +100,17 @@
 %type<integer_list_value> integer_list_value integer_list_loop
 %type<string_list_value> string_list_value string_list_loop
 
+%destructor { bfree($$); } <string>
+%destructor { free_integer_list($$); } <integer_list_value>
+%destructor { free_string_list($$); } <string_list_value>
+%destructor { bfree((char*)$$.string); } <string_value>
+%destructor { if($$.value_type == AST_EQUALITY_VALUE_STRING) bfree((char*)$$.string_value.string); } <equality_value>
+%destructor { free_attr_var($$); } <variable_value>
+%destructor { free_set_left_value($$); } <set_left_value>
+%destructor { free_set_right_value($$); } <set_right_value>
+%destructor { free_list_value($$); } <list_value>
+%destructor { free_ast_node($$); } <node>
+
 %left TCEQ TCNE TCGT TCGE TCLT TCLE
 %left TOR
 %left TAND 
@@ -239,6 +266,7 @@ int parse(const char *text, struct ast_node **node)
     // xxdebug = 1;
     
     // Parse using Bison.
+    *node = NULL;
     yyscan_t scanner;
     xxlex_init(&scanner);
     YY_BUFFER_STATE buffer = xx_scan_string(text, scanner);
@@ -250,6 +278,8 @@ int parse(const char *text, struct ast_node **node)
         return 0;
     }
     else {
+        free_ast_node(*node);
+        *node = NULL;
         return -1;
     }
 }
-- 
2.43.0


From 2ba5e4fed214a956c7d2647989b2ba0d06d670ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:48 +0000
Subject: [PATCH 28/28] fix: an unknown character ended an expression, and what
 came before it was accepted as the whole

---
 src/lexer.c | 2 +-
 src/lexer.l | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lexer.c b/src/lexer.c
index 9661314..331e9b4 100644
--- a/src/lexer.c
+++ b/src/lexer.c
@@ -1304,7 +1304,7 @@ SAVE_FLOAT; return TFLOAT;
 case 39:
 YY_RULE_SETUP
 #line 73 "src/lexer.l"
-printf("Unknown token! (%s)\n", yytext); yyterminate();
+printf("Unknown token! (%s)\n", yytext); return 1;
 	YY_BREAK
 case 40:
 YY_RULE_SETUP
diff --git a/src/lexer.l b/src/lexer.l
index 60b5e95..acc7166 100644
--- a/src/lexer.l
+++ b/src/lexer.l
@@ -70,7 +70,7 @@
 [a-zA-Z_][a-zA-Z0-9_-]*     SAVE_IDENTIFIER; return TIDENTIFIER;
 [0-9]+                      SAVE_INTEGER; return TINTEGER;
 [0-9]+\.[0-9]*              SAVE_FLOAT; return TFLOAT;
-.                           printf("Unknown token! (%s)\n", yytext); yyterminate();
+.                           printf("Unknown token! (%s)\n", yytext); return 1;
 
 %%
 
-- 
2.43.0

