From cae782f78126d7700e4791c480e53fd3b7912ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:05 +0000
Subject: [PATCH 01/90] fix: logical and/or expressions are one bit wide

---
 src/expr.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/expr.cc b/src/expr.cc
index ced5806..3cfb1ea 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -27,7 +27,8 @@ namespace kratos {
 bool is_relational_op(ExprOp op) {
     static std::unordered_set<ExprOp> ops = {ExprOp::LessThan,   ExprOp::GreaterThan,
                                              ExprOp::LessEqThan, ExprOp::GreaterEqThan,
-                                             ExprOp::Eq,         ExprOp::Neq};
+                                             ExprOp::Eq,         ExprOp::Neq,
+                                             ExprOp::LAnd,       ExprOp::LOr};
     return ops.find(op) != ops.end();
 }
 
-- 
2.43.0


From 6ceffa8726ea6e9f3f4895c262f0658db2da9da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:41 +0000
Subject: [PATCH 02/90] fix: relational and reduction expressions are unsigned

---
 src/expr.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/expr.cc b/src/expr.cc
index 3cfb1ea..020fe5e 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -776,7 +776,9 @@ Expr::Expr(ExprOp op, Var *left, Var *right)
     else
         var_width_ = left->var_width();
 
-    if (right != nullptr)
+    if (is_relational_op(op) || is_reduction_op(op))
+        is_signed_ = false;
+    else if (right != nullptr)
         is_signed_ = left->is_signed() && right->is_signed();
     else
         is_signed_ = left->is_signed();
-- 
2.43.0


From 8c8ca3437a6c3e7c2f77b08a7457c279a5350cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:55 +0000
Subject: [PATCH 03/90] fix: the sign of a shift is that of its left operand

---
 src/expr.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/expr.cc b/src/expr.cc
index 020fe5e..315080b 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -778,7 +778,8 @@ Expr::Expr(ExprOp op, Var *left, Var *right)
 
     if (is_relational_op(op) || is_reduction_op(op))
         is_signed_ = false;
-    else if (right != nullptr)
+    else if (right != nullptr && op != ExprOp::ShiftLeft && op != ExprOp::SignedShiftRight &&
+             op != ExprOp::LogicalShiftRight)
         is_signed_ = left->is_signed() && right->is_signed();
     else
         is_signed_ = left->is_signed();
-- 
2.43.0


From ee564061b8d7ac3a93cc821bd576e7c42b939fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:26 +0000
Subject: [PATCH 04/90] fix: keep the parentheses of nested non-associative and
 unary operators

---
 src/expr.cc | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/expr.cc b/src/expr.cc
index 315080b..b4ebbef 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -1427,6 +1427,28 @@ std::shared_ptr<AssignStmt> Var::assign(Var &var, AssignmentType type) {
     return assign(var_ptr, type);
 }
 
+// whether a nested operand can be printed without parentheses
+static bool is_same_level(const Expr *expr, const Var *operand, bool is_left) {
+    if (operand->type() != VarType::Expression) return false;
+    auto const *child = static_cast<const Expr *>(operand);
+    // unary operators, which may share the operator with a binary one, e.g. -(a - b)
+    if (!expr->right || !child->right || expr->op != child->op) return false;
+    if (is_left) return true;
+    switch (expr->op) {
+        case ExprOp::Add:
+        case ExprOp::Multiply:
+        case ExprOp::And:
+        case ExprOp::Or:
+        case ExprOp::Xor:
+        case ExprOp::LAnd:
+        case ExprOp::LOr:
+            return true;
+        default:
+            // not associative, e.g. a - (b - c)
+            return false;
+    }
+}
+
 std::string inline expr_to_string(const Expr *expr, bool is_top, bool use_handle,
                                   bool ignore_top = false, Generator *scope = nullptr) {
     // overloaded to_string methods?
@@ -1443,7 +1465,7 @@ std::string inline expr_to_string(const Expr *expr, bool is_top, bool use_handle
     auto *right = expr->right;
 
     auto left_str = left->type() == VarType::Expression
-                        ? expr_to_string(left->as<Expr>().get(), expr->op == left->as<Expr>()->op,
+                        ? expr_to_string(left->as<Expr>().get(), is_same_level(expr, left, true),
                                          use_handle, ignore_top, scope)
                         : (use_handle ? left->handle_name(ignore_top)
                            : scope    ? left->handle_name(scope)
@@ -1452,7 +1474,7 @@ std::string inline expr_to_string(const Expr *expr, bool is_top, bool use_handle
     if (right != nullptr) {
         auto right_str =
             right->type() == VarType::Expression
-                ? expr_to_string(right->as<Expr>().get(), expr->op == right->as<Expr>()->op,
+                ? expr_to_string(right->as<Expr>().get(), is_same_level(expr, right, false),
                                  use_handle, ignore_top, scope)
                 : (use_handle ? right->handle_name(ignore_top)
                    : scope    ? right->handle_name(scope)
-- 
2.43.0


From 010dbdf7f53b162b04cf7bff7d52098375839519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:41 +0000
Subject: [PATCH 05/90] fix: parenthesize a negative constant under a unary
 operator

---
 src/expr.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/expr.cc b/src/expr.cc
index b4ebbef..125814e 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -1484,6 +1484,8 @@ std::string inline expr_to_string(const Expr *expr, bool is_top, bool use_handle
         else
             return ::format("({0} {1} {2})", left_str, ExprOpStr(expr->op), right_str);
     } else {
+        // negative constants are printed with a leading minus
+        if (left_str[0] == '-') left_str = ::format("({0})", left_str);
         if (is_top)
             return ::format("{0}{1}", ExprOpStr(expr->op), left_str);
         else
-- 
2.43.0


From eda862f91b9b8f4241452f8c36effdadaff230a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:17 +0000
Subject: [PATCH 06/90] fix: a range slice of a multi-dimensional array changes
 its outermost dimension

---
 src/expr.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expr.cc b/src/expr.cc
index 125814e..35bb75e 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -541,7 +541,7 @@ VarSlice::VarSlice(Var *parent, uint32_t high, uint32_t low)
         } else {
             // readjust the top slice
             size_ = std::vector<uint32_t>(parent->size().begin(), parent->size().end());
-            size_.back() = high - low + 1;
+            size_.front() = high - low + 1;
             var_width_ = parent->var_width();
             is_packed_ = parent->is_packed();
         }
-- 
2.43.0


From 621b6d150f1934bab1fd16b98b954ec222614d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:35 +0000
Subject: [PATCH 07/90] fix: print the sign of a function's return type

---
 src/codegen.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/codegen.cc b/src/codegen.cc
index c4fd39d..ccd91b1 100644
--- a/src/codegen.cc
+++ b/src/codegen.cc
@@ -652,10 +652,12 @@ void SystemVerilogCodeGen::stmt_code(kratos::FunctionStmtBlock* stmt) {
         if (stmt->has_return_value()) {
             auto handler = stmt->function_handler();
             auto width = 32u;
+            bool is_signed = false;
             if (handler) {
                 width = handler->width();
+                is_signed = handler->is_signed();
             }
-            return_str = "logic" + get_width_str(width) + " ";
+            return_str = (is_signed ? "logic signed" : "logic") + get_width_str(width) + " ";
         } else {
             return_str = "void ";
         }
-- 
2.43.0


From 68dbeb5061740690d279e7613b3192afd45efdf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:05 +0000
Subject: [PATCH 08/90] fix: print signed constants in expressions as signed
 literals

---
 src/expr.cc | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/expr.cc b/src/expr.cc
index 35bb75e..ad32e6f 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -1362,8 +1362,19 @@ void VarExtend::replace_var(const std::shared_ptr<Var> &target, const std::share
     }
 }
 
+// constants are printed as unsigned literals, which turns the whole expression they are used in into
+// an unsigned one. mark the signed ones if they are part of an expression
+static std::string operand_to_string(const Var *var) {
+    auto result = var->to_string();
+    if (var->type() == VarType::ConstValue && var->is_signed()) {
+        auto pos = result.find("'h");
+        if (pos != std::string::npos) result.insert(pos + 1, "s");
+    }
+    return result;
+}
+
 std::string VarExtend::to_string() const {
-    return ::format("{0}'({1})", width(), parent_->to_string());
+    return ::format("{0}'({1})", width(), operand_to_string(parent_));
 }
 
 VarDuplicated::VarDuplicated(Var *var, uint32_t count) : Expr(ExprOp::Duplicate, var, nullptr) {
@@ -1469,7 +1480,7 @@ std::string inline expr_to_string(const Expr *expr, bool is_top, bool use_handle
                                          use_handle, ignore_top, scope)
                         : (use_handle ? left->handle_name(ignore_top)
                            : scope    ? left->handle_name(scope)
-                                      : left->to_string());
+                                      : operand_to_string(left));
 
     if (right != nullptr) {
         auto right_str =
@@ -1478,7 +1489,7 @@ std::string inline expr_to_string(const Expr *expr, bool is_top, bool use_handle
                                  use_handle, ignore_top, scope)
                 : (use_handle ? right->handle_name(ignore_top)
                    : scope    ? right->handle_name(scope)
-                              : right->to_string());
+                              : operand_to_string(right));
         if (is_top)
             return ::format("{0} {1} {2}", left_str, ExprOpStr(expr->op), right_str);
         else
@@ -1833,7 +1844,8 @@ std::string ConditionalExpr::to_string() const {
     std::string cond_str = condition->type() == VarType::Expression
                                ? ::format("({0})", condition->to_string())
                                : condition->to_string();
-    return ::format("{0} ? {1}: {2}", cond_str, left->to_string(), right->to_string());
+    return ::format("{0} ? {1}: {2}", cond_str, operand_to_string(left),
+                    operand_to_string(right));
 }
 
 std::string ConditionalExpr::handle_name(bool ignore_top) const {
-- 
2.43.0


From 2a10e939246ccc368287c813f025f99343b53387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:19 +0000
Subject: [PATCH 09/90] fix: replacing a variable updates casts, extensions,
 concatenations, indices, predicates and switch targets

Moving the loads or drivers of a port left the old variable in nested casts, extended and
concatenated operands, dynamic indices, call arguments and if/switch conditions, so the generated
code referred to an undeclared hierarchical name; printing the handle name of a duplicated
expression never returned.
---
 src/expr.cc | 241 +++++++++++++++++++++++++++++-----------------------
 src/expr.hh |   8 ++
 src/stmt.cc |  22 ++++-
 src/stmt.hh |   8 +-
 4 files changed, 167 insertions(+), 112 deletions(-)

diff --git a/src/expr.cc b/src/expr.cc
index ad32e6f..2c27253 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -1042,27 +1042,42 @@ std::shared_ptr<AssignStmt> VarCasted::assign_(const std::shared_ptr<Var> &var,
     return parent_var_->assign(var, type);
 }
 
-std::string VarCasted::to_string() const {
-    if (cast_type_ == VarCastType::Signed) {
-        return ::format("signed'({0})", parent_var_->to_string());
-    } else if (cast_type_ == VarCastType::Unsigned) {
-        return ::format("unsigned'({0})", parent_var_->to_string());
-    } else if (cast_type_ == VarCastType::Enum) {
-        if (!enum_type_) {
+// how the parent is cast, given the name of the parent
+static std::string cast_to_string(const VarCasted *var, const Var *parent,
+                                  const std::string &parent_name) {
+    auto cast_type = var->cast_type();
+    if (cast_type == VarCastType::Signed) {
+        return ::format("signed'({0})", parent_name);
+    } else if (cast_type == VarCastType::Unsigned) {
+        return ::format("unsigned'({0})", parent_name);
+    } else if (cast_type == VarCastType::Enum) {
+        if (!var->enum_type()) {
             throw UserException(
                 ::format("Variable {0} is casted as a enum without "
                          "enum type information",
-                         parent_var_->to_string()));
+                         parent->to_string()));
         }
-        auto const &enum_name = enum_type_->name;
-        return ::format("{0}'({1})", enum_name, parent_var_->to_string());
-    } else if (cast_type_ == VarCastType::Resize) {
-        return ::format("{0}'({1})", target_width_, parent_var_->to_string());
+        auto const &enum_name = var->enum_type()->name;
+        return ::format("{0}'({1})", enum_name, parent_name);
+    } else if (cast_type == VarCastType::Resize) {
+        return ::format("{0}'({1})", var->target_width(), parent_name);
     } else {
-        return parent_var_->to_string();
+        return parent_name;
     }
 }
 
+std::string VarCasted::to_string() const {
+    return cast_to_string(this, parent_var_, parent_var_->to_string());
+}
+
+std::string VarCasted::handle_name(bool ignore_top) const {
+    return cast_to_string(this, parent_var_, parent_var_->handle_name(ignore_top));
+}
+
+std::string VarCasted::handle_name(kratos::Generator *scope) const {
+    return cast_to_string(this, parent_var_, parent_var_->handle_name(scope));
+}
+
 void VarCasted::set_target_width(uint32_t width) {
     // override the current width
     if (parent_var_->size().size() > 1 && parent_var_->size().front() != 1) {
@@ -1377,6 +1392,14 @@ std::string VarExtend::to_string() const {
     return ::format("{0}'({1})", width(), operand_to_string(parent_));
 }
 
+std::string VarExtend::handle_name(bool ignore_top) const {
+    return ::format("{0}'({1})", width(), parent_->handle_name(ignore_top));
+}
+
+std::string VarExtend::handle_name(kratos::Generator *scope) const {
+    return ::format("{0}'({1})", width(), parent_->handle_name(scope));
+}
+
 VarDuplicated::VarDuplicated(Var *var, uint32_t count) : Expr(ExprOp::Duplicate, var, nullptr) {
     auto &c = Const::constant(static_cast<int64_t>(count), 32, false);
     right = &c;
@@ -1406,15 +1429,27 @@ void VarDuplicated::remove_source(const std::shared_ptr<AssignStmt> &stmt) {
     left->remove_source(stmt);
 }
 
-std::string VarDuplicated::to_string() const {
-    if (left->type() == VarType::Expression) {
-        auto expr = left->as<Expr>();
+static std::string duplicate_to_string(const VarDuplicated *var, const std::string &left_name) {
+    if (var->left->type() == VarType::Expression) {
+        auto expr = var->left->as<Expr>();
         if (expr->op == ExprOp::Concat) {
-            return fmt::format("{{{0}{1}}}", right->to_string(), left->to_string());
+            return fmt::format("{{{0}{1}}}", var->right->to_string(), left_name);
         }
     }
 
-    return fmt::format("{{{0}{{{1}}}}}", right->to_string(), left->to_string());
+    return fmt::format("{{{0}{{{1}}}}}", var->right->to_string(), left_name);
+}
+
+std::string VarDuplicated::to_string() const {
+    return duplicate_to_string(this, left->to_string());
+}
+
+std::string VarDuplicated::handle_name(bool ignore_top) const {
+    return duplicate_to_string(this, left->handle_name(ignore_top));
+}
+
+std::string VarDuplicated::handle_name(kratos::Generator *scope) const {
+    return duplicate_to_string(this, left->handle_name(scope));
 }
 
 std::string Const::to_string() const {
@@ -1511,7 +1546,7 @@ std::string Expr::handle_name(bool ignore_top) const {
 }
 
 std::string Expr::handle_name(kratos::Generator *scope) const {
-    return expr_to_string(this, true, false, scope);
+    return expr_to_string(this, true, false, false, scope);
 }
 
 IRNode *Expr::get_child(uint64_t index) {
@@ -1523,114 +1558,112 @@ IRNode *Expr::get_child(uint64_t index) {
         return nullptr;
 }
 
-void set_slice_var_parent(Var *&var, Var *target, Var *new_var, bool check_target) {
-    std::shared_ptr<VarSlice> slice;
-    Var *parent_var = var;
-    std::vector<std::shared_ptr<VarSlice>> slices;
-    while (parent_var->type() == VarType::Slice) {
-        // this is for nested slicing
-        slice = parent_var->as<VarSlice>();
-        slices.emplace_back(slice);
-        parent_var = slice->parent_var;
-    }
-    if (parent_var != target) {
-        if (check_target)
-            throw InternalException("Target not found");
-        else
-            return;
-    }
-    if (!slice) throw InternalException("Slice cannot be null");
+void change_var_expr(const std::shared_ptr<Expr> &expr, Var *target, Var *new_var,
+                     bool move_linked = true);
 
-    auto new_var_ptr = new_var->as<Var>();
-    std::reverse(slices.begin(), slices.end());
-    for (auto const &s : slices) {
-        new_var_ptr = s->slice_var(new_var_ptr);
+// replace the target, wherever it is used in var. slices, casts, extensions, and concatenations are
+// shared among every usage of the variable they are created from, so they are re-created from the
+// new variable instead of being changed in place
+static Var *replace_operand(Var *var, Var *target, Var *new_var) {
+    if (var == target) return new_var;
+    if (var->type() == VarType::Slice) {
+        auto slice = var->as<VarSlice>();
+        auto *parent = replace_operand(slice->parent_var, target, new_var);
+        if (slice->sliced_by_var()) {
+            auto *old_index = slice->as<VarVarSlice>()->sliced_var();
+            auto *index = replace_operand(old_index, target, new_var);
+            if (index != old_index) return &(*parent)[index->shared_from_this()];
+        }
+        if (parent == slice->parent_var) return var;
+        return slice->slice_var(parent->shared_from_this()).get();
+    } else if (var->type() == VarType::BaseCasted) {
+        auto casted = var->as<VarCasted>();
+        auto *parent = replace_operand(casted->parent_var(), target, new_var);
+        if (parent == casted->parent_var()) return var;
+        auto result = parent->cast(casted->cast_type());
+        if (result->type() == VarType::BaseCasted) {
+            auto new_cast = result->as<VarCasted>();
+            if (casted->cast_type() == VarCastType::Resize)
+                new_cast->set_target_width(casted->width());
+            if (casted->enum_type()) new_cast->set_enum_type(const_cast<Enum *>(casted->enum_type()));
+        }
+        return result.get();
+    } else if (var->type() == VarType::Expression) {
+        auto expr = var->as<Expr>();
+        if (expr->op == ExprOp::Extend) {
+            auto *parent = replace_operand(expr->left, target, new_var);
+            if (parent != expr->left) return &parent->extend(expr->width());
+            expr->set_parent();
+        } else if (expr->op == ExprOp::Concat) {
+            auto const &vars = expr->as<VarConcat>()->vars();
+            std::vector<Var *> new_vars;
+            new_vars.reserve(vars.size());
+            for (auto *v : vars) new_vars.emplace_back(replace_operand(v, target, new_var));
+            if (!std::equal(vars.begin(), vars.end(), new_vars.begin())) {
+                Var *result = new_vars[0];
+                for (auto i = 1u; i < new_vars.size(); i++) result = &result->concat(*new_vars[i]);
+                return result;
+            }
+            // the operands may have been changed in place
+            replace_operand(expr->left, target, new_var);
+            expr->set_parent();
+        } else {
+            change_var_expr(expr, target, new_var);
+        }
+    } else if (var->is_function()) {
+        auto call = var->as<FunctionCallVar>();
+        auto const args = call->args();
+        for (auto const &[name, arg] : args) {
+            auto *new_arg = replace_operand(arg.get(), target, new_var);
+            if (new_arg != arg.get()) call->set_arg(name, new_arg->shared_from_this());
+        }
     }
-    var = new_var_ptr.get();
+    return var;
 }
 
-void change_var_expr(const std::shared_ptr<Expr> &expr, Var *target, Var *new_var,
-                     bool move_linked = true) {
+void change_var_expr(const std::shared_ptr<Expr> &expr, Var *target, Var *new_var, bool) {
     if (!new_var || !target) throw InternalException("Variable is NULL");
-    if (expr->left->type() == VarType::Expression) {
-        change_var_expr(expr->left->as<Expr>(), target, new_var, move_linked);
-    }
-    if (expr->right && expr->right->type() == VarType::Expression) {
-        change_var_expr(expr->right->as<Expr>(), target, new_var, move_linked);
-    }
-
-    if (expr->left == target) {
-        expr->left = new_var;
-        if (move_linked) expr->left->move_linked_to(new_var);
-    }
-    if (expr->right && expr->right == target) {
-        expr->right = new_var;
-        if (move_linked) expr->right->move_linked_to(new_var);
-    }
-
-    // need to change the parent as well
-    if (expr->left->type() == VarType::Slice) {
-        set_slice_var_parent(expr->left, target, new_var, false);
-    }
-    if (expr->right && expr->right->type() == VarType::Slice) {
-        set_slice_var_parent(expr->right, target, new_var, false);
-    }
-    // we did some tricks on the concatenation, need to update them there
+    // concatenations and extensions keep their own references
     if (expr->op == ExprOp::Concat) {
         auto concat = expr->as<VarConcat>();
-        concat->replace_var(target->shared_from_this(), new_var->shared_from_this());
-    }
-    // need to deal with ternary op as well
-    if (expr->op == ExprOp::Conditional) {
-        auto ternary = expr->as<ConditionalExpr>();
-        auto *cond = ternary->condition;
-        if (cond->type() == VarType::Expression) {
-            change_var_expr(cond->as<Expr>(), target, new_var);
-        } else if (cond == target) {
-            ternary->condition = new_var;
-        } else if (cond->type() == VarType::Slice) {
-            set_slice_var_parent(cond, target, new_var, false);
+        auto const vars = concat->vars();
+        for (auto *var : vars) {
+            auto *new_operand = replace_operand(var, target, new_var);
+            if (new_operand != var)
+                concat->replace_var(var->shared_from_this(), new_operand->shared_from_this());
         }
+    } else if (expr->op == ExprOp::Extend) {
+        auto *new_operand = replace_operand(expr->left, target, new_var);
+        expr->as<VarExtend>()->replace_var(expr->left->shared_from_this(),
+                                           new_operand->shared_from_this());
+    } else if (expr->op == ExprOp::Conditional) {
+        auto ternary = expr->as<ConditionalExpr>();
+        ternary->condition = replace_operand(ternary->condition, target, new_var);
     }
+
+    expr->left = replace_operand(expr->left, target, new_var);
+    if (expr->right) expr->right = replace_operand(expr->right, target, new_var);
     expr->set_parent();
 }
 
-void change_cast_parent(const std::shared_ptr<VarCasted> &var, Var *target, Var *new_var);
-
 void change_var_parent(Var *&var, Var *target, Var *new_var) {
-    if (var->type() == VarType::Slice) {
-        set_slice_var_parent(var, target, new_var, true);
-    } else if (var->type() == VarType::Expression) {
-        auto expr = var->as<Expr>();
-        change_var_expr(expr, target, new_var);
-    } else if (var->type() == VarType::BaseCasted) {
-        change_cast_parent(var->as<VarCasted>(), target, new_var);
-    }
-}
-
-void change_cast_parent(const std::shared_ptr<VarCasted> &var, Var *target, Var *new_var) {
-    auto &p = var->parent_var();
-    if (p == target) {
-        p = new_var;
-    } else {
-        change_var_parent(p, target, new_var);
-    }
+    auto *result = replace_operand(var, target, new_var);
+    if (result == var && var->type() == VarType::Slice)
+        throw InternalException("Target not found");
+    var = result;
 }
 
 void stmt_set_right(AssignStmt *stmt, Var *target, Var *new_var) {
     auto &right = stmt->right();
-    if (right->type() == VarType::Base || right->type() == VarType::PortIO ||
-        right->type() == VarType::ConstValue) {
+    if (!right->is_function() &&
+        (right->type() == VarType::Base || right->type() == VarType::PortIO ||
+         right->type() == VarType::ConstValue)) {
         if (right == target) {
             stmt->set_right(new_var->shared_from_this());
             right->move_linked_to(new_var);
         } else {
             throw InternalException("Target not found");
         }
-    } else if (right->type() == VarType::Slice) {
-        set_slice_var_parent(right, target, new_var, true);
-    } else if (right->type() == VarType::Expression) {
-        change_var_expr(stmt->right()->as<Expr>(), target, new_var);
     } else {
         change_var_parent(right, target, new_var);
     }
diff --git a/src/expr.hh b/src/expr.hh
index 708f64b..a9ce3ff 100644
--- a/src/expr.hh
+++ b/src/expr.hh
@@ -294,6 +294,8 @@ public:
     Var *&parent_var() { return parent_var_; }
 
     std::string to_string() const override;
+    std::string handle_name(bool ignore_top) const override;
+    std::string handle_name(Generator *scope) const override;
 
     VarCastType cast_type() const { return cast_type_; }
 
@@ -324,6 +326,7 @@ public:
     bool is_enum() const override { return cast_type_ == VarCastType ::Enum; }
 
     void set_target_width(uint32_t width);
+    uint32_t target_width() const { return target_width_; }
 
 protected:
     std::shared_ptr<AssignStmt> assign_(const std::shared_ptr<Var> &var,
@@ -709,6 +712,8 @@ public:
     IRNode *get_child(uint64_t index) override { return index == 0 ? parent_ : nullptr; }
 
     std::string to_string() const override;
+    std::string handle_name(bool ignore_top) const override;
+    std::string handle_name(Generator *scope) const override;
     Var *parent_var() const { return parent_; }
 
 private:
@@ -727,6 +732,8 @@ public:
     void remove_source(const std::shared_ptr<AssignStmt> &stmt) override;
 
     std::string to_string() const override;
+    std::string handle_name(bool ignore_top) const override;
+    std::string handle_name(Generator *scope) const override;
 };
 
 struct ConditionalExpr : public Expr {
@@ -851,6 +858,7 @@ public:
     void accept(IRVisitor *visitor) override { visitor->visit(this); }
 
     const std::map<std::string, std::shared_ptr<Var>> &args() const { return args_; }
+    void set_arg(const std::string &name, const std::shared_ptr<Var> &arg) { args_[name] = arg; }
 
 private:
     FunctionStmtBlock *func_def_;
diff --git a/src/stmt.cc b/src/stmt.cc
index c2cc026..b93c21d 100644
--- a/src/stmt.cc
+++ b/src/stmt.cc
@@ -242,6 +242,13 @@ IfStmt::IfStmt(std::shared_ptr<Var> predicate)
     predicate_stmt_->set_parent(this);
 }
 
+std::shared_ptr<Var> IfStmt::predicate() const {
+    // the variable can be replaced through the statement that tracks its usage
+    if (predicate_stmt_->right() != predicate_.get())
+        predicate_ = predicate_stmt_->right()->shared_from_this();
+    return predicate_;
+}
+
 void IfStmt::set_predicate(const std::shared_ptr<Var> &var) {
     predicate_stmt_->clear();
     assert(var->ir_node_kind() == IRNodeKind::VarKind);
@@ -313,7 +320,7 @@ void IfStmt::set_parent(IRNode *node) {
 
 IRNode *IfStmt::get_child(uint64_t index) {
     if (index == 0)
-        return predicate_.get();
+        return predicate().get();
     else if (index == 1)
         return then_body_.get();
     else if (index == 2)
@@ -330,7 +337,7 @@ void IfStmt::add_scope_variable(const std::string &name, const std::string &valu
 }
 
 std::shared_ptr<Stmt> IfStmt::clone() const {
-    auto if_ = std::make_shared<IfStmt>(predicate_);
+    auto if_ = std::make_shared<IfStmt>(predicate());
     auto then_clone = then_body_->clone();
     auto else_clone = else_body_->clone();
 
@@ -531,6 +538,13 @@ SwitchStmt::SwitchStmt(Var &target)
     target_stmt_->set_parent(this);
 }
 
+std::shared_ptr<Var> SwitchStmt::target() const {
+    // the variable can be replaced through the statement that tracks its usage
+    if (target_stmt_->right() != target_.get())
+        target_ = target_stmt_->right()->shared_from_this();
+    return target_;
+}
+
 void SwitchStmt::set_target(const std::shared_ptr<Var> &target) {
     target_stmt_->clear();
     target_ = target;
@@ -611,7 +625,7 @@ void SwitchStmt::remove_stmt(const std::shared_ptr<kratos::Stmt> &stmt) {
 
 IRNode *SwitchStmt::get_child(uint64_t index) {
     if (index == 0) {
-        return target_.get();
+        return target().get();
     } else {
         // need to make it deterministic
         index--;
@@ -640,7 +654,7 @@ void SwitchStmt::add_scope_variable(const std::string &name, const std::string &
 }
 
 std::shared_ptr<Stmt> SwitchStmt::clone() const {
-    auto switch_ = std::make_shared<SwitchStmt>(target_);
+    auto switch_ = std::make_shared<SwitchStmt>(target());
     // clone the cases
     for (auto const &[cond, stmt] : body_) {
         auto cloned_stmt = stmt->clone()->as<ScopedStmtBlock>();
diff --git a/src/stmt.hh b/src/stmt.hh
index e565ac7..6d1fcd7 100644
--- a/src/stmt.hh
+++ b/src/stmt.hh
@@ -150,7 +150,7 @@ public:
     explicit IfStmt(std::shared_ptr<Var> predicate);
     explicit IfStmt(Var &var) : IfStmt(var.shared_from_this()) {}
 
-    std::shared_ptr<Var> predicate() const { return predicate_; }
+    std::shared_ptr<Var> predicate() const;
     void set_predicate(const std::shared_ptr<Var> &var);
     const std::shared_ptr<ScopedStmtBlock> &then_body() const { return then_body_; }
     const std::shared_ptr<ScopedStmtBlock> &else_body() const { return else_body_; }
@@ -179,7 +179,7 @@ public:
     void clear() override;
 
 private:
-    std::shared_ptr<Var> predicate_;
+    mutable std::shared_ptr<Var> predicate_;
     std::shared_ptr<AssignStmt> predicate_stmt_;
     std::shared_ptr<ScopedStmtBlock> then_body_;
     std::shared_ptr<ScopedStmtBlock> else_body_;
@@ -203,7 +203,7 @@ public:
                             const std::shared_ptr<Stmt> &stmt);
     void remove_stmt(const std::shared_ptr<Stmt> &stmt) override;
 
-    std::shared_ptr<Var> target() const { return target_; }
+    std::shared_ptr<Var> target() const;
     void set_target(const std::shared_ptr<Var> &target);
 
     const std::map<std::shared_ptr<Const>, std::shared_ptr<ScopedStmtBlock>> &body() const {
@@ -228,7 +228,7 @@ public:
     void clear() override;
 
 private:
-    std::shared_ptr<Var> target_;
+    mutable std::shared_ptr<Var> target_;
     std::shared_ptr<AssignStmt> target_stmt_;
     // default case will be indexed as nullptr
     std::map<std::shared_ptr<Const>, std::shared_ptr<ScopedStmtBlock>> body_;
-- 
2.43.0


From 26ad6ae15f4c742016d4d8558db00058fd14c1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:02 +0000
Subject: [PATCH 10/90] fix: constants of 64 bits and more

Every 64-bit value is legal for wider constants, an unsigned 64-bit constant with its highest bit
set was printed with a minus sign, and string values of up to 8 characters fit.
---
 src/expr.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/expr.cc b/src/expr.cc
index 2c27253..d357fbf 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -957,6 +957,8 @@ Const::Const(Generator *generator, int64_t value, uint32_t width, bool is_signed
 }
 
 Const::ConstantLegal Const::is_legal(int64_t value, uint32_t width, bool is_signed) {
+    // every 64-bit value fits
+    if (width > 64) return Const::ConstantLegal::Legal;
     if (is_signed) {
         // compute the -max value
         uint64_t temp = (~0ull) << (width - 1);
@@ -1132,7 +1134,7 @@ int64_t convert_string_to_int(const std::string &value) {
 
 void Const::set_value(const std::string &new_value) {
     // convert string to int
-    if ((new_value.size() * 8) > sizeof(uint64_t)) {
+    if (new_value.size() > sizeof(uint64_t)) {
         throw VarException("string value too big to be converted to integer", {this});
     }
     auto converted_value = convert_string_to_int(new_value);
@@ -1461,9 +1463,11 @@ std::string Const::to_string() const {
             return ::format("{0}\'h{1}", width(), hex_value_);
         }
     } else if (is_signed_ && value_ < 0) {
-        return ::format("-{0}\'h{1:X}", width(), -value_);
+        // avoid overflow with the minimum value
+        return ::format("-{0}\'h{1:X}", width(), 0 - static_cast<uint64_t>(value_));
     } else {
-        return ::format("{0}\'h{1:X}", width(), value_);
+        // an unsigned constant with the highest bit set is kept as a negative number
+        return ::format("{0}\'h{1:X}", width(), static_cast<uint64_t>(value_));
     }
 }
 
-- 
2.43.0


From 4e330c9869259647aa387296fbac53c94fa3992b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:01 +0000
Subject: [PATCH 11/90] fix: a switch case can be added without statements

---
 src/stmt.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/stmt.cc b/src/stmt.cc
index b93c21d..660ef13 100644
--- a/src/stmt.cc
+++ b/src/stmt.cc
@@ -588,8 +588,10 @@ ScopedStmtBlock &SwitchStmt::add_switch_case(const std::shared_ptr<Const> &switc
 
 ScopedStmtBlock &SwitchStmt::add_switch_case(const std::shared_ptr<Const> &switch_case,
                                              const std::vector<std::shared_ptr<Stmt>> &stmts) {
+    // the case exists even if there is no statement in it
+    auto &block = add_switch_case(switch_case, std::make_shared<ScopedStmtBlock>());
     for (const auto &stmt : stmts) add_switch_case(switch_case, stmt);
-    return *body_.at(switch_case);
+    return block;
 }
 
 ScopedStmtBlock &SwitchStmt::add_switch_case(Const &switch_case,
-- 
2.43.0


From c8bfb259c0749228a0631523eb1a887cc91406bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:01 +0000
Subject: [PATCH 12/90] fix: if-else chains that compare with the same value
 twice are not turned into a case

---
 src/optimize.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/optimize.cc b/src/optimize.cc
index 65e4f4b..00924b6 100644
--- a/src/optimize.cc
+++ b/src/optimize.cc
@@ -2,6 +2,7 @@
 
 #include <algorithm>
 #include <iostream>
+#include <limits>
 #include <mutex>
 
 #include "except.hh"
@@ -29,7 +30,9 @@ private:
             std::vector<std::shared_ptr<IfStmt>> if_stmts;
             if (has_target_if(stmt, target, if_stmts) && target) {
                 uint64_t cases = if_stmts.size();
-                uint64_t expected_case = 1u << target->width();
+                uint64_t expected_case = target->width() < 64
+                                             ? (static_cast<uint64_t>(1) << target->width())
+                                             : std::numeric_limits<uint64_t>::max();
                 bool has_else = !(if_stmts.back()->else_body()->empty());
                 if (expected_case > 1 && (cases >= expected_case || has_else)) {
                     auto switch_stmt = change_if_to_switch(stmt->as<IfStmt>(), if_stmts);
@@ -62,6 +65,11 @@ private:
         if ((expr->right->type() != VarType::ConstValue) &&
             (expr->right->type() != VarType::Parameter))
             return false;
+        // the case values have to be distinct, otherwise the first comparison has priority
+        auto const value = expr->right->as<Const>()->value();
+        for (auto const& prev : if_stmts) {
+            if (prev->predicate()->as<Expr>()->right->as<Const>()->value() == value) return false;
+        }
         if (if_->else_body()->size() > 1) return false;
 
         if_stmts.emplace_back(if_);
-- 
2.43.0


From a2d3753b1403dc5769a27cb129f286405e4666c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:01 +0000
Subject: [PATCH 13/90] fix: remove_empty_block keeps the meaning of the
 branches it rewrites

---
 src/optimize.cc | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/optimize.cc b/src/optimize.cc
index 00924b6..cf51d0f 100644
--- a/src/optimize.cc
+++ b/src/optimize.cc
@@ -952,12 +952,12 @@ private:
         auto else_body = process(stmt->else_body());
         if (!then_body) {
             // then is empty
-            if (else_body->empty()) {
+            if (!else_body) {
                 return nullptr;
             } else {
                 // invert the condition and make else then
                 auto cond = stmt->predicate();
-                auto& new_cond = ~(*cond);
+                auto& new_cond = cond->width() == 1 ? ~(*cond) : cond->r_not();
                 stmt->set_predicate(new_cond.shared_from_this());
                 stmt->set_then(else_body->as<ScopedStmtBlock>());
                 stmt->set_else(std::make_shared<ScopedStmtBlock>());
@@ -992,13 +992,18 @@ private:
     std::shared_ptr<SwitchStmt> process(std::shared_ptr<SwitchStmt> stmt) {
         std::map<std::shared_ptr<Const>, std::shared_ptr<ScopedStmtBlock>> new_body;
         auto const& body = stmt->body();
+        bool empty = true;
         for (const auto& [cond, block] : body) {
-            auto r = process(block);
-            if (r) {
-                new_body.emplace(cond, r->as<ScopedStmtBlock>());
+            if (process(block)) {
+                new_body.emplace(cond, block);
+                empty = false;
             }
         }
-        if (new_body.empty()) return nullptr;
+        if (empty) return nullptr;
+        if (new_body.find(nullptr) != new_body.end()) {
+            // an empty case has to stay, otherwise the default branch takes over
+            for (const auto& [cond, block] : body) new_body.emplace(cond, block);
+        }
         stmt->set_body(new_body);
         return stmt;
     }
-- 
2.43.0


From 30d35dcc378efc0d996536d4952380f3a5d8dab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:01 +0000
Subject: [PATCH 14/90] fix: merge_const_port_assignment only merges wires that
 are the constant

---
 src/optimize.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/optimize.cc b/src/optimize.cc
index cf51d0f..66c6311 100644
--- a/src/optimize.cc
+++ b/src/optimize.cc
@@ -1050,6 +1050,10 @@ class MergeConstPortVisitor : public IRVisitor {
                 }
                 auto* source_from = source_stmt->right();
                 auto* sink_to = sink_stmt->left();
+                // only plain assignments of the entire variable can be merged
+                if (source_stmt->left() != var.get() || sink_stmt->right() != var.get() ||
+                    source_stmt->parent() != generator)
+                    continue;
                 if (source_from->type() == VarType::ConstValue &&
                     sink_to->type() == VarType::PortIO &&
                     sink_to->generator()->parent() == generator) {
-- 
2.43.0


From e20a3af2ab6b544167718e841c623b3a204ed018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:42 +0000
Subject: [PATCH 15/90] fix: merge_if_block keeps the order and the else
 branches of what it merges

---
 src/optimize.cc | 117 ++++++++++++++++++++++++++----------------------
 1 file changed, 63 insertions(+), 54 deletions(-)

diff --git a/src/optimize.cc b/src/optimize.cc
index 66c6311..a1d7066 100644
--- a/src/optimize.cc
+++ b/src/optimize.cc
@@ -128,54 +128,48 @@ public:
     void visit(ScopedStmtBlock* stmts) override { transform_block(stmts); }
 
 private:
-    using IfStmtType = std::pair<std::shared_ptr<IfStmt>, std::shared_ptr<Const>>;
     // The if statements has to satisfy the following requirements in order to merge
     // in the same block
-    // if target is the same
+    // if target is the same and is not changed by the block
     // all equality comparison and against an constant
+    // nothing else is in between
     void static transform_block(StmtBlock* block) {
         // only run marked ones
         if (!block->has_attribute("merge_if_block")) return;
-        std::map<Var*, std::vector<IfStmtType>> result;
-        get_targeted_if(block, result);
         std::unordered_set<IfStmt*> merged_if;
-        for (auto const& iter : result) {
-            auto stmts = iter.second;
-            if (stmts.size() > 1) {
-                // we have stmts to merge
-                auto top_if = stmts[0].first;
-                // first pass to merge the if statements with the same constant value
-                // build index on the const values
-                std::unordered_map<int64_t, IfStmt*> mapping;
-                for (const auto& [stmt, const_] : stmts) {
-                    auto const_value = const_->value();
-                    if (mapping.find(const_value) == mapping.end()) {
-                        mapping.emplace(const_value, stmt.get());
-                    } else {
-                        // merge the current one into the one we already have
-                        auto* if_ = mapping.at(const_value);
-                        auto const& then = stmt->then_body();
-                        for (auto const& st : *then) {
-                            if_->add_then_stmt(st);
-                        }
-                        auto const& else_ = stmt->else_body();
-                        for (auto const& st : *else_) {
-                            if_->add_else_stmt(st);
-                        }
-                        merged_if.emplace(stmt.get());
-                    }
-                }
-
-                // second pass to nest the if statement
-                for (uint64_t i = 1; i < stmts.size(); i++) {
-                    auto const& stmt = stmts[i].first;
-                    if (merged_if.find(stmt.get()) != merged_if.end()) {
-                        continue;
-                    }
+        // the if statement we're merging to, and the ones that have been nested in its else body
+        std::shared_ptr<IfStmt> top_if;
+        std::unordered_map<int64_t, IfStmt*> nested;
+        for (auto const& stmt : *block) {
+            auto if_ = get_targeted_if(stmt);
+            if (!if_) {
+                top_if = nullptr;
+                continue;
+            }
+            auto const value = get_value(if_);
+            if (!top_if || get_target(top_if) != get_target(if_) ||
+                is_assigned(block, get_target(if_))) {
+                top_if = if_;
+                nested.clear();
+            } else if (value == get_value(top_if)) {
+                // merge the current one into the one we already have
+                move_stmts(if_.get(), top_if.get());
+                // statements in the else body keep their order
+                if (!if_->else_body()->empty()) nested.clear();
+                merged_if.emplace(if_.get());
+            } else if (if_->else_body()->empty()) {
+                if (nested.find(value) != nested.end()) {
+                    move_stmts(if_.get(), nested.at(value));
+                } else {
                     // put the one in the top if
-                    top_if->add_else_stmt(stmt);
-                    merged_if.emplace(stmt.get());
+                    top_if->add_else_stmt(if_);
+                    nested.emplace(value, if_.get());
                 }
+                merged_if.emplace(if_.get());
+            } else {
+                // the else body is also executed when the condition of the top one holds
+                top_if = if_;
+                nested.clear();
             }
         }
         // remove merged if
@@ -184,23 +178,38 @@ private:
         }
     }
 
-    void static get_targeted_if(StmtBlock* block, std::map<Var*, std::vector<IfStmtType>>& result) {
-        for (auto const& stmt : *block) {
-            if (stmt->type() == StatementType::If) {
-                auto if_ = stmt->as<IfStmt>();
-                auto predicate = if_->predicate();
-                if (predicate->type() == VarType::Expression) {
-                    auto expr = predicate->as<Expr>();
-                    if (expr->op == ExprOp::Eq && expr->right &&
-                        expr->right->type() == VarType::ConstValue) {
-                        // this is what we want
-                        auto* target_var = expr->left;
-                        result[target_var].emplace_back(
-                            std::make_pair(if_, expr->right->as<Const>()));
-                    }
-                }
+    std::shared_ptr<IfStmt> static get_targeted_if(const std::shared_ptr<Stmt>& stmt) {
+        if (stmt->type() != StatementType::If) return nullptr;
+        auto if_ = stmt->as<IfStmt>();
+        auto predicate = if_->predicate();
+        if (predicate->type() != VarType::Expression) return nullptr;
+        auto expr = predicate->as<Expr>();
+        if (expr->op == ExprOp::Eq && expr->right && expr->right->type() == VarType::ConstValue)
+            return if_;
+        return nullptr;
+    }
+
+    Var static* get_target(const std::shared_ptr<IfStmt>& stmt) {
+        return stmt->predicate()->as<Expr>()->left;
+    }
+
+    int64_t static get_value(const std::shared_ptr<IfStmt>& stmt) {
+        return stmt->predicate()->as<Expr>()->right->as<Const>()->value();
+    }
+
+    bool static is_assigned(StmtBlock* block, Var* target) {
+        auto const* root = target->get_var_root_parent();
+        for (auto const& stmt : root->sources()) {
+            for (auto* node = stmt->parent(); node; node = node->parent()) {
+                if (node == block) return true;
             }
         }
+        return false;
+    }
+
+    void static move_stmts(IfStmt* from, IfStmt* to) {
+        for (auto const& st : *from->then_body()) to->add_then_stmt(st);
+        for (auto const& st : *from->else_body()) to->add_else_stmt(st);
     }
 };
 
-- 
2.43.0


From 80312da1415885f1f85c9e4b601a3c58f3d68590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:18 +0000
Subject: [PATCH 16/90] fix: merge_wire_assignments only merges slices that
 form a plain copy

---
 src/optimize.cc | 77 +++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 68 insertions(+), 9 deletions(-)

diff --git a/src/optimize.cc b/src/optimize.cc
index a1d7066..ba84650 100644
--- a/src/optimize.cc
+++ b/src/optimize.cc
@@ -396,7 +396,7 @@ public:
         std::set<std::shared_ptr<Stmt>> stmts_to_remove;
 
         // first filter out sliced assignments
-        std::set<std::shared_ptr<AssignStmt>> sliced_stmts;
+        std::vector<std::shared_ptr<AssignStmt>> sliced_stmts;
         extract_sliced_stmts(generator, sliced_stmts);
         get_stmts_to_remove(generator, stmts_to_remove, sliced_stmts);
 
@@ -411,14 +411,14 @@ private:
         std::set<std::shared_ptr<Stmt>> stmts_to_remove;
 
         // first filter out sliced assignments
-        std::set<std::shared_ptr<AssignStmt>> sliced_stmts;
+        std::vector<std::shared_ptr<AssignStmt>> sliced_stmts;
         extract_sliced_stmts(block, sliced_stmts);
         get_stmts_to_remove(block, stmts_to_remove, sliced_stmts);
         for (auto const& stmt : stmts_to_remove) block->remove_stmt(stmt);
     }
 
     static void extract_sliced_stmts(Generator* generator,
-                                     std::set<std::shared_ptr<AssignStmt>>& sliced_stmts) {
+                                     std::vector<std::shared_ptr<AssignStmt>>& sliced_stmts) {
         uint64_t stmt_count = generator->stmts_count();
         for (uint64_t i = 0; i < stmt_count; i++) {
             auto stmt = generator->get_stmt(i);
@@ -426,20 +426,20 @@ private:
                 auto assign_stmt = stmt->as<AssignStmt>();
                 if (assign_stmt->left()->type() == VarType::Slice &&
                     assign_stmt->right()->type() == VarType::Slice) {
-                    sliced_stmts.emplace(assign_stmt);
+                    sliced_stmts.emplace_back(assign_stmt);
                 }
             }
         }
     }
 
     static void extract_sliced_stmts(StmtBlock* block,
-                                     std::set<std::shared_ptr<AssignStmt>>& sliced_stmts) {
+                                     std::vector<std::shared_ptr<AssignStmt>>& sliced_stmts) {
         for (auto const& stmt : *block) {
             if (stmt->type() == StatementType ::Assign) {
                 auto assign_stmt = stmt->as<AssignStmt>();
                 if (assign_stmt->left()->type() == VarType::Slice &&
                     assign_stmt->right()->type() == VarType::Slice) {
-                    sliced_stmts.emplace(assign_stmt);
+                    sliced_stmts.emplace_back(assign_stmt);
                 }
             }
         }
@@ -447,10 +447,12 @@ private:
 
     template <typename T>
     void get_stmts_to_remove(T* generator, std::set<std::shared_ptr<Stmt>>& stmts_to_remove,
-                             const std::set<std::shared_ptr<AssignStmt>>& sliced_stmts) const {
+                             const std::vector<std::shared_ptr<AssignStmt>>& sliced_stmts) const {
         // group the assignments together
         using AssignPair = std::pair<Var*, Var*>;
         std::map<AssignPair, std::vector<std::shared_ptr<AssignStmt>>> slice_vars;
+        // keep the order of the statements
+        std::vector<AssignPair> pairs;
         for (auto const& assign_stmt : sliced_stmts) {
             auto left_slice = assign_stmt->left()->as<VarSlice>();
             auto right_slice = assign_stmt->right()->as<VarSlice>();
@@ -464,16 +466,21 @@ private:
                 left_parent->size().front() != right_parent->size().front())
                 continue;
 
-            slice_vars[{left_parent, right_parent}].emplace_back(assign_stmt);
+            auto& group = slice_vars[{left_parent, right_parent}];
+            if (group.empty()) pairs.emplace_back(std::make_pair(left_parent, right_parent));
+            group.emplace_back(assign_stmt);
         }
 
         // merge the assignments
-        for (auto const& [vars, stmts] : slice_vars) {
+        for (auto const& vars : pairs) {
             const auto& [left, right] = vars;
+            auto const& stmts = slice_vars.at(vars);
 
             // NOTE:
             // we assume that at this stage we've passed the connectivity check
             if (stmts.size() != left->width()) continue;
+            // every bit is copied to the same position
+            if (!is_copy(stmts) || !can_move(generator, stmts, left, right)) continue;
 
             // remove left's sources and right's sink
             // also add it to the statements to remove
@@ -486,6 +493,58 @@ private:
             create_new_assignment(generator, stmts, left, right);
         }
     }
+    static bool is_copy(const std::vector<std::shared_ptr<AssignStmt>>& stmts) {
+        std::set<uint32_t> bits;
+        for (auto const& stmt : stmts) {
+            if (stmt->left()->as<VarSlice>()->sliced_by_var() ||
+                stmt->right()->as<VarSlice>()->sliced_by_var())
+                return false;
+            auto left = stmt->left()->as<VarSlice>();
+            auto right = stmt->right()->as<VarSlice>();
+            if (left->low != right->low || left->high != right->high) return false;
+            if (left->width() != 1 || !bits.emplace(left->low).second) return false;
+        }
+        return true;
+    }
+
+    // order does not matter at the generator level
+    static bool can_move(Generator*, const std::vector<std::shared_ptr<AssignStmt>>&, Var* const,
+                         Var* const) {
+        return true;
+    }
+
+    // only copies that don't interfere can be in between
+    static bool can_move(StmtBlock* block, const std::vector<std::shared_ptr<AssignStmt>>& stmts,
+                         Var* const left, Var* const right) {
+        auto is_merged = [&](const std::shared_ptr<Stmt>& stmt) {
+            return std::find(stmts.begin(), stmts.end(), stmt) != stmts.end();
+        };
+        uint64_t const count = block->size();
+        uint64_t begin = 0;
+        while (begin < count && !is_merged(block->get_stmt(begin))) begin++;
+        // the new one is placed after the last one
+        for (uint64_t i = begin; i < count; i++) {
+            auto stmt = block->get_stmt(i);
+            if (is_merged(stmt)) continue;
+            if (stmt->type() != StatementType::Assign) return false;
+            auto assign = stmt->as<AssignStmt>();
+            auto const* to = assign->left()->get_var_root_parent();
+            auto const* from = assign->right();
+            if (from->type() != VarType::Slice && from->type() != VarType::Base &&
+                from->type() != VarType::PortIO && from->type() != VarType::ConstValue)
+                return false;
+            if (assign->left()->type() == VarType::Slice &&
+                assign->left()->as<VarSlice>()->sliced_by_var())
+                return false;
+            if (from->type() == VarType::Slice &&
+                const_cast<Var*>(from)->as<VarSlice>()->sliced_by_var())
+                return false;
+            from = from->get_var_root_parent();
+            if (to == left || to == right || from == left) return false;
+        }
+        return true;
+    }
+
     void static create_new_assignment(Generator* generator,
                                       const std::vector<std::shared_ptr<AssignStmt>>& stmts,
                                       Var* const left, Var* const right) {
-- 
2.43.0


From ce67fad3ab56fd242b3a64231aaa045fec7d3f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:18 +0000
Subject: [PATCH 17/90] fix: moving and removing variables keeps their slices,
 sinks and sources consistent

---
 src/expr.cc      | 14 +++++++-------
 src/generator.cc |  5 +++--
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/expr.cc b/src/expr.cc
index d357fbf..79275aa 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -718,7 +718,8 @@ void VarVarSlice::remove_sink(const std::shared_ptr<AssignStmt> &stmt) {
 
 void VarVarSlice::remove_source(const std::shared_ptr<AssignStmt> &stmt) {
     VarSlice::remove_source(stmt);
-    sliced_var_->remove_source(stmt);
+    // the index is read, see add_source
+    sliced_var_->remove_sink(stmt);
 }
 
 std::string VarVarSlice::to_string() const {
@@ -1774,17 +1775,16 @@ void Var::move_linked_to(kratos::Var *new_var) {
     for (auto &slice : slices_) {
         slice->set_parent(new_var);
     }
-    new_var->slices_ = std::vector(slices_.begin(), slices_.end());
+    // the new variable keeps its own slices, which may be in use
+    new_var->slices_.insert(new_var->slices_.end(), slices_.begin(), slices_.end());
     slices_.clear();
 
     // change concat'ed vars
-    // we use overloaded ones
     for (auto const &concat : concat_vars_) {
-        concat->move_linked_to(new_var);
         concat->replace_var(shared_from_this(), new_var->shared_from_this());
     }
-    new_var->concat_vars_ =
-        std::vector<std::shared_ptr<VarConcat>>(concat_vars_.begin(), concat_vars_.end());
+    new_var->concat_vars_.insert(new_var->concat_vars_.end(), concat_vars_.begin(),
+                                 concat_vars_.end());
     concat_vars_.clear();
 
     // casted
@@ -1842,7 +1842,7 @@ void VarSlice::remove_source(const std::shared_ptr<AssignStmt> &stmt) {
 
 void VarSlice::remove_sink(const std::shared_ptr<AssignStmt> &stmt) {
     Var *parent = parent_var;
-    parent->remove_source(stmt);
+    parent->remove_sink(stmt);
 }
 
 ConditionalExpr::ConditionalExpr(const std::shared_ptr<Var> &condition,
diff --git a/src/generator.cc b/src/generator.cc
index 0d8d45b..8233de9 100644
--- a/src/generator.cc
+++ b/src/generator.cc
@@ -707,15 +707,16 @@ void Generator::transfer_content(kratos::Generator &gen, const std::string &pref
         var->set_generator(&gen);
         std::string target_name = var_name;
         if (gen.has_var(var_name)) {
-            target_name = get_unique_variable_name(prefix, var_name);
+            target_name = gen.get_unique_variable_name(prefix, var_name);
         }
         var->name = target_name;
         // maybe it's a port, in that case we need to copy its definition and create a var
         if (var->type() == VarType::PortIO) {
             auto &new_var = gen.var(*var, target_name);
-            var->move_linked_to(&new_var);
+            // the statements have to be moved first, since they look for the original variable
             Var::move_sink_to(var.get(), &new_var, &gen, false);
             Var::move_src_to(var.get(), &new_var, &gen, false);
+            var->move_linked_to(&new_var);
         } else {
             gen.vars_.emplace(target_name, var);
         }
-- 
2.43.0


From 66c558cac80697870bdeb9ddbea258f7d1f2af3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:18 +0000
Subject: [PATCH 18/90] fix: fan-out, dead code, case and inline passes keep
 drivers, clocks and statements that are in use

---
 src/optimize.cc | 98 ++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 77 insertions(+), 21 deletions(-)

diff --git a/src/optimize.cc b/src/optimize.cc
index ba84650..69bc905 100644
--- a/src/optimize.cc
+++ b/src/optimize.cc
@@ -15,6 +15,13 @@ using fmt::format;
 
 namespace kratos {
 
+// take the statements out of the block without changing them
+static std::vector<std::shared_ptr<Stmt>> release_stmts(StmtBlock* block) {
+    std::vector<std::shared_ptr<Stmt>> stmts(block->begin(), block->end());
+    for (auto const& stmt : stmts) block->remove_stmt(stmt);
+    return stmts;
+}
+
 class TransformIfCase : public IRVisitor {
 public:
     void visit(CombinationalStmtBlock* stmts) override { transform_block(stmts); }
@@ -112,6 +119,13 @@ private:
             }
         }
 
+        // the statements are owned by the cases now
+        for (auto const& if_stmt : if_stmts) {
+            release_stmts(if_stmt->then_body().get());
+            release_stmts(if_stmt->else_body().get());
+            if_stmt->clear();
+        }
+
         return switch_;
     }
 };
@@ -153,9 +167,9 @@ private:
                 nested.clear();
             } else if (value == get_value(top_if)) {
                 // merge the current one into the one we already have
-                move_stmts(if_.get(), top_if.get());
                 // statements in the else body keep their order
                 if (!if_->else_body()->empty()) nested.clear();
+                move_stmts(if_.get(), top_if.get());
                 merged_if.emplace(if_.get());
             } else if (if_->else_body()->empty()) {
                 if (nested.find(value) != nested.end()) {
@@ -208,8 +222,9 @@ private:
     }
 
     void static move_stmts(IfStmt* from, IfStmt* to) {
-        for (auto const& st : *from->then_body()) to->add_then_stmt(st);
-        for (auto const& st : *from->else_body()) to->add_else_stmt(st);
+        for (auto const& st : release_stmts(from->then_body().get())) to->add_then_stmt(st);
+        for (auto const& st : release_stmts(from->else_body().get())) to->add_else_stmt(st);
+        from->clear();
     }
 };
 
@@ -218,15 +233,40 @@ void merge_if_block(Generator* top) {
     visitor.visit_root_s(top);
 }
 
+// event controls don't show up as sinks
+static std::unordered_set<const Var*> get_event_vars(Generator* generator) {
+    std::unordered_set<const Var*> result;
+    auto const stmt_count = generator->stmts_count();
+    for (uint64_t i = 0; i < stmt_count; i++) {
+        auto stmt = generator->get_stmt(i);
+        if (stmt->type() != StatementType::Block) continue;
+        auto block = stmt->as<StmtBlock>();
+        if (block->block_type() != StatementBlockType::Sequential) continue;
+        auto seq = block->as<SequentialStmtBlock>();
+        for (auto const& event : seq->get_event_controls()) {
+            Var* var = event.var;
+            if (var->type() == VarType::BaseCasted) var = var->as<VarCasted>()->parent_var();
+            result.emplace(var->get_var_root_parent());
+        }
+    }
+    return result;
+}
+
 class VarFanOutVisitor : public IRVisitor {
 public:
     void visit(Generator* generator) override {
         auto var_names = generator->get_all_var_names();
+        auto const events = get_event_vars(generator);
         for (auto const& var_name : var_names) {
             auto var = generator->get_var(var_name);
             std::vector<std::pair<std::shared_ptr<Var>, std::shared_ptr<AssignStmt>>> chain;
             compute_assign_chain(var, chain);
             if (chain.size() <= 2) continue;  // nothing to be done
+            // only the last one keeps its driver
+            if (std::any_of(chain.begin(), chain.end() - 1, [&](auto const& pair) {
+                    return events.find(pair.first.get()) != events.end();
+                }))
+                continue;
 
             std::vector<std::pair<std::string, uint32_t>> debug_info;
 
@@ -244,9 +284,10 @@ public:
             }
 
             auto dst = chain.back().first;
-            Var::move_src_to(var.get(), dst.get(), generator, false);
-            // if both of them are ports, we need to add a statement
-            if (var->type() == VarType::PortIO && dst->type() == VarType::PortIO) {
+            if (var->type() != VarType::PortIO) {
+                Var::move_src_to(var.get(), dst.get(), generator, false);
+            } else {
+                // a port keeps whatever drives it, so we need to add a statement
                 // need to add a top assign statement
                 auto stmt = dst->assign(var, AssignmentType::Blocking);
                 if (generator->debug) {
@@ -1021,14 +1062,15 @@ private:
         if (!then_body) {
             // then is empty
             if (!else_body) {
+                stmt->clear();
                 return nullptr;
             } else {
                 // invert the condition and make else then
                 auto cond = stmt->predicate();
                 auto& new_cond = cond->width() == 1 ? ~(*cond) : cond->r_not();
                 stmt->set_predicate(new_cond.shared_from_this());
-                stmt->set_then(else_body->as<ScopedStmtBlock>());
-                stmt->set_else(std::make_shared<ScopedStmtBlock>());
+                // move the statements, which shall not be cleared with the else body
+                for (auto const& st : release_stmts(else_body.get())) stmt->add_then_stmt(st);
                 return stmt;
             }
         }
@@ -1067,7 +1109,10 @@ private:
                 empty = false;
             }
         }
-        if (empty) return nullptr;
+        if (empty) {
+            stmt->clear();
+            return nullptr;
+        }
         if (new_body.find(nullptr) != new_body.end()) {
             // an empty case has to stay, otherwise the default branch takes over
             for (const auto& [cond, block] : body) new_body.emplace(cond, block);
@@ -1217,6 +1262,7 @@ class DeadCodeVarElimination : public IRVisitor {
 public:
     void visit(Generator* generator) override {
         bool changed = true;
+        auto const events = get_event_vars(generator);
 
         while (changed) {
             changed = false;
@@ -1224,6 +1270,7 @@ public:
             for (auto const& var_name : var_names) {
                 auto const& var = generator->get_var(var_name);
                 if (var->type() != VarType::Base) continue;
+                if (events.find(var.get()) != events.end()) continue;
                 if (var->sinks().empty()) {
                     // remove all the sources
                     remove_var(var.get());
@@ -1235,11 +1282,12 @@ public:
 
         // because we run child first, the parent's content get cleared out
         // nicely before this pass runs on parent
-        clear_out_ports(generator);
+        clear_out_ports(generator, events);
     }
 
 private:
-    static void clear_out_ports(Generator* generator) {
+    static void clear_out_ports(Generator* generator,
+                                const std::unordered_set<const Var*>& events) {
         // we don't deal with top level ports, since it changes
         // interface
         if (!generator->parent_generator()) return;
@@ -1248,7 +1296,7 @@ private:
         for (auto const& port_name : port_names) {
             auto const& p = generator->get_port(port_name);
             if (p->port_direction() == PortDirection::In) {
-                if (p->sinks().empty()) {
+                if (p->sinks().empty() && events.find(p.get()) == events.end()) {
                     ports_to_remove.emplace_back(port_name);
                 }
             } else if (p->port_direction() == PortDirection::Out) {
@@ -1443,22 +1491,24 @@ private:
                                                 const std::vector<PortInfo>& stmts) {
         gen->set_use_stmt_remove_cache(true);
         std::unordered_map<std::string, Var*> var_mapping;
-        std::vector<Var*> vars;
+        std::vector<std::shared_ptr<Var>> vars;
         for (auto const& info : stmts) {
-            auto* stmt = info.stmt;
+            auto stmt = info.stmt->as<AssignStmt>();
             auto* left = stmt->left();
             auto* right = stmt->right();
             if (info.direction == PortDirection::In) {
                 // move to right
                 Var::move_sink_to(left, right, gen, false);
+                right->remove_sink(stmt);
                 left->clear_sources(true);
-                vars.emplace_back(right);
+                vars.emplace_back(right->shared_from_this());
                 var_mapping.emplace(left->name, right);
             } else {
                 // move to left
                 Var::move_src_to(right, left, gen, false);
+                left->remove_source(stmt);
                 right->clear_sinks(true);
-                vars.emplace_back(left);
+                vars.emplace_back(left->shared_from_this());
                 var_mapping.emplace(right->name, left);
             }
         }
@@ -1473,19 +1523,25 @@ private:
 
         // also clear out variables with only one source
         // notice that we keep track of the ones need to check for performance reason
-        for (auto* var : vars) {
-            if (var->sources().size() != 1) {
+        for (auto const& var : vars) {
+            if (var->type() != VarType::Base || var->sources().size() != 1) {
                 continue;
             }
 
-            auto const& src_stmt = *var->sources().begin();
+            auto const src_stmt = *var->sources().begin();
             auto* left = src_stmt->left();
             auto* right = src_stmt->right();
-            if (left != var) continue;
-            if (right->type() == VarType::PortIO || right->type() == VarType::Base) {
+            // only continuous assignment of the entire variable
+            if (left != var.get() || src_stmt->parent() != gen) continue;
+            if ((right->type() == VarType::PortIO || right->type() == VarType::Base) &&
+                right->generator() == gen && left->is_signed() == right->is_signed()) {
                 // move
                 VarSlice::move_sink_to(left, right, gen, false);
+                right->remove_sink(src_stmt);
                 left->clear_sources(true);
+                std::unordered_map<std::string, Var*> const mapping{{left->name, right}};
+                RenameLinkedVar rename(mapping);
+                rename.visit_content_s(gen);
                 gen->remove_var(left->name);
             }
         }
-- 
2.43.0


From e79d5b7b4f8ac28b2d0ecf3a95955bb9361570c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:48 +0000
Subject: [PATCH 19/90] fix: statements of a for loop can be removed from it

---
 src/stmt.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/stmt.cc b/src/stmt.cc
index 660ef13..e86c321 100644
--- a/src/stmt.cc
+++ b/src/stmt.cc
@@ -392,9 +392,8 @@ void ForStmt::set_parent(IRNode *node) {
         iter_->set_generator(gen);
     }
     Stmt::set_parent(node);
-    for (auto &st : (*loop_body_)) {
-        st->set_parent(this);
-    }
+    // the statements belong to the loop body
+    loop_body_->set_parent(this);
 }
 
 IRNode *ForStmt::get_child(uint64_t index) { return index < 1 ? loop_body_.get() : nullptr; }
-- 
2.43.0


From a482504834210b09a7a049772796acf01cc9e05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:56 +0000
Subject: [PATCH 20/90] fix: inlining keeps the statements that read an output

---
 src/optimize.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/optimize.cc b/src/optimize.cc
index 69bc905..9791265 100644
--- a/src/optimize.cc
+++ b/src/optimize.cc
@@ -1505,9 +1505,12 @@ private:
                 var_mapping.emplace(left->name, right);
             } else {
                 // move to left
-                Var::move_src_to(right, left, gen, false);
                 left->remove_source(stmt);
-                right->clear_sinks(true);
+                right->remove_sink(stmt);
+                stmt->remove_from_parent();
+                // the output may be read as well
+                Var::move_sink_to(right, left, gen, false);
+                Var::move_src_to(right, left, gen, false);
                 vars.emplace_back(left->shared_from_this());
                 var_mapping.emplace(right->name, left);
             }
-- 
2.43.0


From ef1368837f2bcc5dffafbddaa85f401095156f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:53 +0000
Subject: [PATCH 21/90] fix: dead code elimination does not visit siblings in
 parallel

---
 src/optimize.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/optimize.cc b/src/optimize.cc
index 9791265..27fdf94 100644
--- a/src/optimize.cc
+++ b/src/optimize.cc
@@ -7,6 +7,7 @@
 
 #include "except.hh"
 #include "fmt/format.h"
+#include "graph.hh"
 #include "stmt.hh"
 #include "syntax.hh"
 #include "util.hh"
@@ -1359,8 +1360,11 @@ public:
 
 void dead_code_elimination(Generator* top) {
     {
+        // children first. since statements in the parent are removed as well, siblings cannot
+        // be visited at the same time
         DeadCodeVarElimination visitor;
-        visitor.visit_generator_root_p(top);
+        GeneratorGraph graph(top);
+        for (auto* generator : graph.get_sorted_nodes()) generator->accept_generator(&visitor);
     }
     {
         DeadCodeInstanceElimination visitor;
-- 
2.43.0


From 7aee99fd1c68842e048471e4c770f6fd81e1adcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:19 +0000
Subject: [PATCH 22/90] fix: inline_instance does not visit generators while
 removing them

---
 src/optimize.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/optimize.cc b/src/optimize.cc
index 27fdf94..ddaea1f 100644
--- a/src/optimize.cc
+++ b/src/optimize.cc
@@ -1562,9 +1562,9 @@ void inline_instance(Generator* top) {
     // this has to be run after decouple generator ports
     InlineGeneratorVisitor visitor;
     // we only allow leaf instances to be inlined, users can run this pass multiple times
-    // by making this assumption, we can run the pass in parallel since the parent of the target
-    // won't run this pass hence avoiding race conditions
-    visitor.visit_generator_root_tp(top);
+    // inlining removes generators from the hierarchy, so it cannot run in parallel: the children
+    // being removed are visited as well
+    visitor.visit_generator_root(top);
 }
 
 }  // namespace kratos
\ No newline at end of file
-- 
2.43.0


From a6180b0727a21e6d00e493f0cfced10f5cc5dec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:19 +0000
Subject: [PATCH 23/90] fix: leveled traversal does not read a popped queue
 entry

---
 src/graph.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/graph.cc b/src/graph.cc
index bf795c6..efbcf4e 100644
--- a/src/graph.cc
+++ b/src/graph.cc
@@ -129,7 +129,8 @@ std::vector<std::vector<Generator *>> GeneratorGraph::get_leveled_nodes() {
     uint32_t max_level = 0;
 
     while (!queue.empty()) {
-        const auto &[generator, current_level] = queue.front();
+        // make a copy since the entry is gone after the pop
+        const auto [generator, current_level] = queue.front();
         queue.pop();
         auto const &node = get_node(generator);
         if (level_index.find(node) == level_index.end() || level_index.at(node) < current_level) {
-- 
2.43.0


From 4dae65dc50b3fb287993c19168d413f2361dd733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:03 +0000
Subject: [PATCH 24/90] fix: empty switch cases that stay can be printed;
 inlining keeps a variable tied to a constant or expression

---
 src/optimize.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/optimize.cc b/src/optimize.cc
index ddaea1f..31efec8 100644
--- a/src/optimize.cc
+++ b/src/optimize.cc
@@ -1116,7 +1116,11 @@ private:
         }
         if (new_body.find(nullptr) != new_body.end()) {
             // an empty case has to stay, otherwise the default branch takes over
-            for (const auto& [cond, block] : body) new_body.emplace(cond, block);
+            for (const auto& [cond, block] : body) {
+                if (new_body.find(cond) != new_body.end()) continue;
+                block->add_stmt(std::make_shared<CommentStmt>("empty"));
+                new_body.emplace(cond, block);
+            }
         }
         stmt->set_body(new_body);
         return stmt;
@@ -1501,6 +1505,11 @@ private:
             auto* left = stmt->left();
             auto* right = stmt->right();
             if (info.direction == PortDirection::In) {
+                if (right->type() != VarType::Base && right->type() != VarType::PortIO) {
+                    // a constant or an expression cannot be sliced, so keep the variable
+                    gen->add_stmt(stmt);
+                    continue;
+                }
                 // move to right
                 Var::move_sink_to(left, right, gen, false);
                 right->remove_sink(stmt);
-- 
2.43.0


From 3c0fda5b7ccfee2674fce963ebd7d25fb30a299f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:41 +0000
Subject: [PATCH 25/90] fix: inlining keeps a variable tied to an expression
 with a blocking assignment

---
 src/optimize.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/optimize.cc b/src/optimize.cc
index 31efec8..22a8a32 100644
--- a/src/optimize.cc
+++ b/src/optimize.cc
@@ -1507,6 +1507,7 @@ private:
             if (info.direction == PortDirection::In) {
                 if (right->type() != VarType::Base && right->type() != VarType::PortIO) {
                     // a constant or an expression cannot be sliced, so keep the variable
+                    stmt->set_assign_type(AssignmentType::Blocking);
                     gen->add_stmt(stmt);
                     continue;
                 }
-- 
2.43.0


From 78d3cbd0ed367034d7f6808b6d333a6e2eb84170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:54 +0000
Subject: [PATCH 26/90] fix: moving the connections of a port keeps the
 statements of the other generators

---
 src/expr.cc | 16 ++++++++--------
 src/expr.hh |  4 ++--
 src/port.hh |  4 ++--
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/expr.cc b/src/expr.cc
index 79275aa..935a795 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -1694,12 +1694,15 @@ void Var::move_src_to(Var *var, Var *new_var, Generator *parent, bool keep_conne
     if (var->type_ == VarType::Expression || var->type_ == VarType::ConstValue)
         throw VarException("Only base or port variables are allowed.", {var, new_var});
 
-    for (const auto &stmt : var->sources()) {
+    auto const sources = var->sources();
+    for (const auto &stmt : sources) {
+        // the ones in other generators, e.g. inside the instance, stay
         if (stmt->generator_parent() != parent) continue;
         stmt_set_left(stmt.get(), var, new_var);
         if (parent->debug) {
             stmt->fn_name_ln.emplace_back(std::make_pair(__FILE__, __LINE__));
         }
+        var->remove_source(stmt);
         new_var->add_source(stmt);
         // pick a source parameter, if any. only if the generator match
         if (stmt->right()->parametrized() && !new_var->parametrized() &&
@@ -1707,9 +1710,6 @@ void Var::move_src_to(Var *var, Var *new_var, Generator *parent, bool keep_conne
             new_var->set_width_param(stmt->right()->width_param());
         }
     }
-    // now clear the sources
-    var->clear_sources(false);
-
     if (keep_connection) {
         // create an assignment and add it to the parent
         auto stmt = var->assign(new_var->shared_from_this());
@@ -1725,7 +1725,9 @@ void Var::move_sink_to(Var *var, Var *new_var, Generator *parent, bool keep_conn
     if (var->type_ == VarType::Expression || var->type_ == VarType::ConstValue)
         throw VarException("Only base or port variables are allowed.", {var, new_var});
 
-    for (const auto &stmt : var->sinks()) {
+    auto const sinks = var->sinks();
+    for (const auto &stmt : sinks) {
+        // the ones in other generators, e.g. inside the instance, stay
         if (stmt->generator_parent() != parent) {
             continue;
         }
@@ -1733,6 +1735,7 @@ void Var::move_sink_to(Var *var, Var *new_var, Generator *parent, bool keep_conn
         if (parent->debug) {
             stmt->fn_name_ln.emplace_back(std::make_pair(__FILE__, __LINE__));
         }
+        var->remove_sink(stmt);
         new_var->add_sink(stmt);
         // pick a source parameter, if any
         if (stmt->left()->parametrized() && !new_var->parametrized() &&
@@ -1740,9 +1743,6 @@ void Var::move_sink_to(Var *var, Var *new_var, Generator *parent, bool keep_conn
             new_var->set_width_param(stmt->left()->width_param());
         }
     }
-    // now clear the sinks
-    var->clear_sinks(false);
-
     if (keep_connection) {
         // create an assignment and add it to the parent
         auto stmt = new_var->assign(var->shared_from_this());
diff --git a/src/expr.hh b/src/expr.hh
index a9ce3ff..fbd5d16 100644
--- a/src/expr.hh
+++ b/src/expr.hh
@@ -312,8 +312,8 @@ public:
     const std::unordered_set<std::shared_ptr<AssignStmt>> &sources() const override {
         return parent_var_->sources();
     };
-    void clear_sinks(bool remove_parent) override { parent_var_->clear_sources(remove_parent); }
-    void clear_sources(bool remove_parent) override { parent_var_->clear_sinks(remove_parent); }
+    void clear_sinks(bool remove_parent) override { parent_var_->clear_sinks(remove_parent); }
+    void clear_sources(bool remove_parent) override { parent_var_->clear_sources(remove_parent); }
     void remove_source(const std::shared_ptr<AssignStmt> &stmt) override {
         parent_var_->remove_source(stmt);
     }
diff --git a/src/port.hh b/src/port.hh
index ebe1999..ad074a5 100644
--- a/src/port.hh
+++ b/src/port.hh
@@ -206,8 +206,8 @@ public:
     const std::unordered_set<std::shared_ptr<AssignStmt>> &sources() const override {
         return var_->sources();
     };
-    void clear_sinks(bool remove_parent = false) override { var_->clear_sources(remove_parent); }
-    void clear_sources(bool remove_parent = false) override { var_->clear_sinks(remove_parent); }
+    void clear_sinks(bool remove_parent = false) override { var_->clear_sinks(remove_parent); }
+    void clear_sources(bool remove_parent = false) override { var_->clear_sources(remove_parent); }
     void remove_source(const std::shared_ptr<AssignStmt> &stmt) override {
         var_->remove_source(stmt);
     }
-- 
2.43.0


From f55a414ca4b891cff03253341d5a6264e7eb66aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:36 +0000
Subject: [PATCH 27/90] fix: inverting a 64-bit value or one with bits above
 its width

---
 src/eval.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/eval.cc b/src/eval.cc
index a9360a4..68460b7 100644
--- a/src/eval.cc
+++ b/src/eval.cc
@@ -6,9 +6,7 @@ namespace kratos {
 auto constexpr UINT64_WIDTH_ = 64;
 
 uint64_t invert(uint64_t value, uint32_t width) {
-    auto v = ~value;
-    v ^= UINT64_MASK << width;
-    return v;
+    return ~value & (UINT64_MASK >> (UINT64_WIDTH_ - width));
 }
 
 uint64_t two_complement(uint64_t value, uint32_t width) {
-- 
2.43.0


From 31a6991017cdf5e5512da248c626775a8400f42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:37 +0000
Subject: [PATCH 28/90] fix: reduction operators evaluate all 64 bits

---
 src/eval.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eval.cc b/src/eval.cc
index 68460b7..ea2f332 100644
--- a/src/eval.cc
+++ b/src/eval.cc
@@ -23,7 +23,7 @@ uint64_t eval_unary_op(uint64_t value, ExprOp op, uint32_t width) {
         case ExprOp::UMinus:
             return two_complement(value, width);
         case ExprOp::UAnd:
-            return static_cast<uint32_t>(__builtin_popcount(value)) == width;
+            return static_cast<uint32_t>(__builtin_popcountll(value)) == width;
         case ExprOp::UInvert:
             return invert(value, width);
         case ExprOp::UNot:
@@ -33,7 +33,7 @@ uint64_t eval_unary_op(uint64_t value, ExprOp op, uint32_t width) {
         case ExprOp::UPlus:
             return value;
         case ExprOp::UXor: {
-            return __builtin_popcount(value) % 2;
+            return __builtin_popcountll(value) % 2;
         }
         default: throw std::runtime_error("Not implemented");
     }
-- 
2.43.0


From 49732c8eaabbe584d108048dc902d855f80b0a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:37 +0000
Subject: [PATCH 29/90] fix: signed comparison of two equal negative values

---
 src/eval.cc | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/src/eval.cc b/src/eval.cc
index ea2f332..e3cdb9c 100644
--- a/src/eval.cc
+++ b/src/eval.cc
@@ -47,6 +47,10 @@ uint64_t eval_bin_op(uint64_t left_value, uint64_t right_value, ExprOp op, uint3
     uint64_t right_abs_value = right_negative ? two_complement(right_value, width) : right_value;
     uint64_t signed_bit = static_cast<uint64_t>(left_negative ^ right_negative) << (width - 1);
     auto const mask = UINT64_MASK >> (64u - width);
+    // flipping the sign bits turns a signed comparison into an unsigned one
+    uint64_t const sign_flip = signed_ ? (static_cast<uint64_t>(1) << (width - 1)) : 0;
+    uint64_t left_cmp_value = left_value ^ sign_flip;
+    uint64_t right_cmp_value = right_value ^ sign_flip;
     uint64_t result;
     switch (op) {
         case ExprOp::Add:
@@ -79,28 +83,16 @@ uint64_t eval_bin_op(uint64_t left_value, uint64_t right_value, ExprOp op, uint3
             result = static_cast<uint64_t>(std::pow(left_value, right_value));
             break;
         case ExprOp::GreaterEqThan:
-            result = left_abs_value >= right_abs_value;
-            result = (left_negative && !right_negative)
-                         ? false
-                         : !left_negative && right_negative ? true : result ^ left_negative;
+            result = left_cmp_value >= right_cmp_value;
             break;
         case ExprOp::LessEqThan:
-            result = left_abs_value <= right_abs_value;
-            result = (left_negative && !right_negative)
-                         ? true
-                         : !left_negative && right_negative ? false : result ^ left_negative;
+            result = left_cmp_value <= right_cmp_value;
             break;
         case ExprOp::LessThan:
-            result = left_abs_value < right_abs_value;
-            result = (left_negative && !right_negative)
-                         ? true
-                         : !left_negative && right_negative ? false : result ^ left_negative;
+            result = left_cmp_value < right_cmp_value;
             break;
         case ExprOp ::GreaterThan:
-            result = left_abs_value > right_abs_value;
-            result = (left_negative && !right_negative)
-                         ? false
-                         : !left_negative && right_negative ? true : result ^ left_negative;
+            result = left_cmp_value > right_cmp_value;
             break;
         case ExprOp::SignedShiftRight:
             result = left_abs_value >> right_value;
-- 
2.43.0


From a55df9dfb804d690b1ef54c9406a2e39c853b167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:37 +0000
Subject: [PATCH 30/90] fix: evaluating a division by zero no longer kills the
 process

---
 src/eval.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eval.cc b/src/eval.cc
index e3cdb9c..3008ee6 100644
--- a/src/eval.cc
+++ b/src/eval.cc
@@ -64,7 +64,8 @@ uint64_t eval_bin_op(uint64_t left_value, uint64_t right_value, ExprOp op, uint3
             if (signed_bit) result = two_complement(result, width);
             break;
         case ExprOp::Divide:
-            result = left_abs_value / right_abs_value;
+            // there is no unknown value here: dividing by zero gives zero instead of a trap
+            result = right_abs_value ? left_abs_value / right_abs_value : 0;
             if (signed_bit) result = two_complement(result, width);
             break;
         case ExprOp::And:
-- 
2.43.0


From e8519d7bdde985dd950e42d316acf1f86255c138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:37 +0000
Subject: [PATCH 31/90] fix: evaluate %, !=, &&, || and << instead of throwing

---
 src/eval.cc | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/eval.cc b/src/eval.cc
index 3008ee6..24ceab0 100644
--- a/src/eval.cc
+++ b/src/eval.cc
@@ -68,6 +68,11 @@ uint64_t eval_bin_op(uint64_t left_value, uint64_t right_value, ExprOp op, uint3
             result = right_abs_value ? left_abs_value / right_abs_value : 0;
             if (signed_bit) result = two_complement(result, width);
             break;
+        case ExprOp::Mod:
+            // the remainder takes the sign of the dividend
+            result = right_abs_value ? left_abs_value % right_abs_value : 0;
+            if (left_negative) result = two_complement(result, width);
+            break;
         case ExprOp::And:
             result = left_value & right_value;
             break;
@@ -80,6 +85,15 @@ uint64_t eval_bin_op(uint64_t left_value, uint64_t right_value, ExprOp op, uint3
         case ExprOp::Eq:
             result = left_value == right_value;
             break;
+        case ExprOp::Neq:
+            result = left_value != right_value;
+            break;
+        case ExprOp::LAnd:
+            result = left_value && right_value;
+            break;
+        case ExprOp::LOr:
+            result = left_value || right_value;
+            break;
         case ExprOp::Power:
             result = static_cast<uint64_t>(std::pow(left_value, right_value));
             break;
@@ -99,6 +113,9 @@ uint64_t eval_bin_op(uint64_t left_value, uint64_t right_value, ExprOp op, uint3
             result = left_abs_value >> right_value;
             if (left_negative) result |= UINT64_MASK << (width - 1 - right_value);
             break;
+        case ExprOp::ShiftLeft:
+            result = right_value >= width ? 0 : left_value << right_value;
+            break;
         case ExprOp::LogicalShiftRight:
             result = left_value >> right_value;
             break;
-- 
2.43.0


From 7273d4aab66c585681d1433d26aea2ed7502b61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:37 +0000
Subject: [PATCH 32/90] fix: right shifts of negative values and by at least
 the width

---
 src/eval.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/eval.cc b/src/eval.cc
index 24ceab0..6c0e379 100644
--- a/src/eval.cc
+++ b/src/eval.cc
@@ -110,14 +110,18 @@ uint64_t eval_bin_op(uint64_t left_value, uint64_t right_value, ExprOp op, uint3
             result = left_cmp_value > right_cmp_value;
             break;
         case ExprOp::SignedShiftRight:
-            result = left_abs_value >> right_value;
-            if (left_negative) result |= UINT64_MASK << (width - 1 - right_value);
+            if (right_value >= width) {
+                result = left_negative ? UINT64_MASK : 0;
+            } else {
+                result = left_value >> right_value;
+                if (left_negative) result |= ~(mask >> right_value);
+            }
             break;
         case ExprOp::ShiftLeft:
             result = right_value >= width ? 0 : left_value << right_value;
             break;
         case ExprOp::LogicalShiftRight:
-            result = left_value >> right_value;
+            result = right_value >= width ? 0 : left_value >> right_value;
             break;
         default: {
             throw std::runtime_error("Not implemented");
-- 
2.43.0


From 8b61377cea964ddcc835e025955056e999aeddea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:37 +0000
Subject: [PATCH 33/90] fix: ** is evaluated with integers

---
 src/eval.cc | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/eval.cc b/src/eval.cc
index 6c0e379..e821ead 100644
--- a/src/eval.cc
+++ b/src/eval.cc
@@ -1,5 +1,4 @@
 #include "eval.hh"
-#include <cmath>
 
 namespace kratos {
 
@@ -18,6 +17,21 @@ uint64_t truncate(uint64_t value, uint32_t width) {
     return value & (UINT64_MASK >> (UINT64_WIDTH_ - width));
 }
 
+uint64_t eval_power(uint64_t base, uint64_t exponent, uint32_t width, bool signed_) {
+    auto const mask = UINT64_MASK >> (UINT64_WIDTH_ - width);
+    if (signed_ && exponent >> (width - 1)) {
+        // one over a power is an integer only for 1 and -1
+        if (base == mask) return exponent & 1u ? mask : 1;
+        return base == 1;
+    }
+    uint64_t result = 1;
+    for (; exponent; exponent >>= 1u) {
+        if (exponent & 1u) result *= base;
+        base *= base;
+    }
+    return result & mask;
+}
+
 uint64_t eval_unary_op(uint64_t value, ExprOp op, uint32_t width) {
     switch(op) {
         case ExprOp::UMinus:
@@ -95,7 +109,7 @@ uint64_t eval_bin_op(uint64_t left_value, uint64_t right_value, ExprOp op, uint3
             result = left_value || right_value;
             break;
         case ExprOp::Power:
-            result = static_cast<uint64_t>(std::pow(left_value, right_value));
+            result = eval_power(left_value, right_value, width, signed_);
             break;
         case ExprOp::GreaterEqThan:
             result = left_cmp_value >= right_cmp_value;
-- 
2.43.0


From 636ed895374731ffdb7e04c15666f8dc409e9e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:13 +0000
Subject: [PATCH 34/90] fix: the and-reduction is a unary operator

---
 src/expr.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expr.cc b/src/expr.cc
index 935a795..ad11e6e 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -46,7 +46,7 @@ bool is_ternary_op(ExprOp op) { return op == ExprOp::Conditional; }
 
 bool is_unary_op(ExprOp op) {
     static std::unordered_set<ExprOp> ops = {ExprOp::UXor,  ExprOp::UPlus, ExprOp::UOr,
-                                             ExprOp::UNot,  ExprOp::UXor,  ExprOp::UInvert,
+                                             ExprOp::UNot,  ExprOp::UAnd,  ExprOp::UInvert,
                                              ExprOp::UMinus};
     return ops.find(op) != ops.end();
 }
-- 
2.43.0


From 54634ccd09c1692e3323c8b6368c2143f4964900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:13 +0000
Subject: [PATCH 35/90] fix: simulated switch compares case values at the width
 of its target

---
 src/sim.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sim.cc b/src/sim.cc
index 4232ae9..b6eb793 100644
--- a/src/sim.cc
+++ b/src/sim.cc
@@ -676,7 +676,7 @@ void Simulator::process_stmt(kratos::SwitchStmt *switch_, const Var *var) {
             int64_t cond_val = cond->value();
             int64_t *v_p = &cond_val;
             uint64_t bits = *(reinterpret_cast<uint64_t *>(v_p));
-            bits &= (0xFFFFFFFFFFFFFFFF >> target->width());
+            bits = truncate(bits, target->width());
             if (value == bits) {
                 process_stmt(stmt.get(), var);
                 return;
-- 
2.43.0


From 219f5b052098fa799c19e3c4bc1aae702a01516d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:13 +0000
Subject: [PATCH 36/90] fix: simulation uses a queue entry after removing it

---
 src/sim.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sim.cc b/src/sim.cc
index b6eb793..90a2424 100644
--- a/src/sim.cc
+++ b/src/sim.cc
@@ -540,7 +540,7 @@ void Simulator::eval() {
         if (simulation_depth_ > MAX_SIMULATION_DEPTH) {
             throw UserException("Simulation doesn't converge");
         }
-        auto &[var, stmt] = event_queue_.front();
+        auto const [var, stmt] = event_queue_.front();
         event_queue_.pop();
         process_stmt(stmt, var);
     }
-- 
2.43.0


From 604dea45e654e68047ec83b4772200c118cbb9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:13 +0000
Subject: [PATCH 37/90] fix: Simulator::set_i with a list of values uses the
 values as addresses

---
 src/sim.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/sim.cc b/src/sim.cc
index 90a2424..100cf0b 100644
--- a/src/sim.cc
+++ b/src/sim.cc
@@ -581,8 +581,7 @@ void Simulator::set_i(const kratos::Var *var, const std::optional<std::vector<in
         std::vector<uint64_t> u_vs;
         u_vs.reserve(vs.size());
         for (auto v : vs) {
-            auto u_v = *(reinterpret_cast<uint64_t *>(v));
-            u_v = truncate(u_v, var->width());
+            auto u_v = truncate(static_cast<uint64_t>(v), var->var_width());
             u_vs.emplace_back(u_v);
         }
         set_complex_value_(var, u_vs);
-- 
2.43.0


From 54b0db83570a1f83692d4f8e447693b27ba2f537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:13 +0000
Subject: [PATCH 38/90] fix: building the simulation dependencies from several
 threads races

---
 src/sim.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sim.cc b/src/sim.cc
index 100cf0b..2173d37 100644
--- a/src/sim.cc
+++ b/src/sim.cc
@@ -187,8 +187,8 @@ Simulator::Simulator(kratos::Generator *generator) {
     fix_assignment_type(generator);
     // compute the dependency
     DependencyVisitor visitor;
-    // visit in parallel to build up and dep table
-    visitor.visit_generator_root_p(generator);
+    // the visitor builds up one dep table: not thread safe
+    visitor.visit_generator_root(generator);
     dependency_ = visitor.dependency();
     linked_dependency_ = visitor.linked_dependency();
     init_pull_up_value(generator);
-- 
2.43.0


From 2aa213790a949d4dd162f3c2e0d51a582e4dcb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:13 +0000
Subject: [PATCH 39/90] fix: negative constants are evaluated at their width

---
 src/sim.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sim.cc b/src/sim.cc
index 2173d37..71d734e 100644
--- a/src/sim.cc
+++ b/src/sim.cc
@@ -201,13 +201,13 @@ std::optional<uint64_t> Simulator::get_value_(const kratos::Var *var) const {
 
     if (var->type() == VarType::Parameter) {
         auto const *param = reinterpret_cast<const Param *>(var);
-        return param->value();
+        return truncate(static_cast<uint64_t>(param->value()), var->width());
     } else if (var->type() == VarType::ConstValue) {
         auto const *const_ = reinterpret_cast<const Const *>(var);
         if (const_->is_bignum())
             throw InternalException("Big number evaluation not supported. Got " +
                                     const_->to_string());
-        return const_->value();
+        return truncate(static_cast<uint64_t>(const_->value()), var->width());
     } else if (var->type() == VarType::Expression) {
         auto result = eval_expr(var);
         if (result) {
-- 
2.43.0


From 952b29921e4a4d5b30ea7dcddd99d91d756cb444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:11 +0000
Subject: [PATCH 40/90] fix: the simulator reads, writes and reacts to slices
 by the bits they address

---
 src/expr.hh |   1 +
 src/sim.cc  | 482 ++++++++++++++++------------------------------------
 src/sim.hh  |  15 +-
 3 files changed, 156 insertions(+), 342 deletions(-)

diff --git a/src/expr.hh b/src/expr.hh
index fbd5d16..ccb175c 100644
--- a/src/expr.hh
+++ b/src/expr.hh
@@ -292,6 +292,7 @@ public:
     Var *get_var_root_parent() override { return parent_var_->get_var_root_parent(); }
 
     Var *&parent_var() { return parent_var_; }
+    const Var *parent_var() const { return parent_var_; }
 
     std::string to_string() const override;
     std::string handle_name(bool ignore_top) const override;
diff --git a/src/sim.cc b/src/sim.cc
index 71d734e..9cfdea1 100644
--- a/src/sim.cc
+++ b/src/sim.cc
@@ -35,37 +35,25 @@ public:
             }
         }
     }
-    using DepSet = std::pair<std::unordered_set<const Var *>,
-                             std::unordered_map<const Var *, std::unordered_map<uint32_t, Var *>>>;
+    using DepSet = std::unordered_set<const Var *>;
 
     static DepSet get_dep(Var *var) {
-        std::unordered_set<const Var *> deps;
-        std::unordered_map<const Var *, std::unordered_map<uint32_t, Var *>> linked_deps;
-        get_var_deps(var, deps, linked_deps);
-        return {deps, linked_deps};
+        DepSet deps;
+        get_var_deps(var, deps);
+        return deps;
     }
 
     const std::unordered_map<const Var *, std::unordered_set<Stmt *>> &dependency() const {
         return dependency_;
     }
 
-    const std::unordered_map<const Var *, std::unordered_map<uint32_t, Var *>> &linked_dependency()
-        const {
-        return linked_dependency_;
-    }
-
 private:
     std::unordered_map<const Var *, std::unordered_set<Stmt *>> dependency_;
-    std::unordered_map<const Var *, std::unordered_map<uint32_t, Var *>> linked_dependency_;
 
     void visit_block(CombinationalStmtBlock *block) {
         CombinationBlockVisitor visitor;
         visitor.visit_root(block);
-        auto const &vars = visitor.vars();
-        for (auto const &var : vars) dependency_[var].emplace(block);
-        for (auto const &[var, entry] : visitor.linked_vars()) {
-            linked_dependency_[var].insert(entry.begin(), entry.end());
-        }
+        for (auto const &var : visitor.vars()) dependency_[var].emplace(block);
     }
 
     void visit_block(SequentialStmtBlock *block) {
@@ -76,11 +64,9 @@ private:
     }
 
     void visit_assign(AssignStmt *assign) {
-        auto const &[dep, linked] = get_dep(assign->right());
+        auto dep = get_dep(assign->right());
+        get_index_deps(assign->left(), dep);
         for (auto const &v : dep) dependency_[v].emplace(assign);
-        for (auto const &[var, entry] : linked) {
-            linked_dependency_[var].insert(entry.begin(), entry.end());
-        }
     }
 
     void visit_module_instantiation(ModuleInstantiationStmt *stmt) {
@@ -90,28 +76,39 @@ private:
         }
     }
 
-    void static get_var_deps(
-        Var *var, std::unordered_set<const Var *> &dep,
-        std::unordered_map<const Var *, std::unordered_map<uint32_t, Var *>> &linked_dep) {
+    // values are stored for the variables that are sliced, cast or used in an expression
+    void static get_var_deps(Var *var, DepSet &dep) {
+        if (!var) return;
         switch (var->type()) {
             case VarType::Base:
             case VarType::PortIO: {
-                dep.emplace(var);
+                if (var->is_function()) {
+                    auto *call = static_cast<FunctionCallVar *>(var);
+                    for (auto const &arg : call->args()) get_var_deps(arg.second.get(), dep);
+                } else {
+                    dep.emplace(var);
+                }
                 break;
             }
             case VarType ::Expression: {
-                auto const &expr = reinterpret_cast<Expr *>(var);
-                get_var_deps(expr->left, dep, linked_dep);
-                if (expr->right) {
-                    get_var_deps(expr->right, dep, linked_dep);
+                auto *expr = static_cast<Expr *>(var);
+                if (expr->op == ExprOp::Concat) {
+                    for (auto *v : static_cast<VarConcat *>(expr)->vars()) get_var_deps(v, dep);
+                } else {
+                    if (expr->op == ExprOp::Conditional)
+                        get_var_deps(static_cast<ConditionalExpr *>(expr)->condition, dep);
+                    get_var_deps(expr->left, dep);
+                    get_var_deps(expr->right, dep);
                 }
                 break;
             }
-            case VarType::BaseCasted:
+            case VarType::BaseCasted: {
+                get_var_deps(static_cast<VarCasted *>(var)->parent_var(), dep);
+                break;
+            }
             case VarType ::Slice: {
-                // compute linked dependency
-                compute_linked_dep(reinterpret_cast<VarSlice *>(var), linked_dep);
-                dep.emplace(var);
+                get_index_deps(var, dep);
+                get_var_deps(var->get_var_root_parent(), dep);
                 break;
             }
             default: {
@@ -120,67 +117,50 @@ private:
         }
     }
 
-    static void compute_linked_dep(
-        VarSlice *slice,
-        std::unordered_map<const Var *, std::unordered_map<uint32_t, Var *>> &linked_dep) {
-        auto var_high = slice->var_high();
-        auto var_low = slice->var_low();
-        auto *root = slice->get_var_root_parent();
-        for (uint32_t i = var_low; i <= var_high; i++) {
-            linked_dep[root].emplace(i, slice);
-        }
-        // if indexed by a var
-        if (slice->sliced_by_var()) {
-            auto *var_slice = reinterpret_cast<VarVarSlice *>(slice);
-            auto *p = var_slice->sliced_var();
-            var_high = p->var_high();
-            var_low = p->var_low();
-            root = p->get_var_root_parent();
-            for (uint32_t i = var_low; i <= var_high; i++) {
-                linked_dep[root].emplace(i, slice);
-            }
+    // variables used as index
+    static void get_index_deps(Var *var, DepSet &dep) {
+        while (var->type() == VarType::Slice) {
+            auto *slice = static_cast<VarSlice *>(var);
+            if (slice->sliced_by_var())
+                get_var_deps(static_cast<VarVarSlice *>(slice)->sliced_var(), dep);
+            var = slice->parent_var;
         }
     }
 
     class CombinationBlockVisitor : public IRVisitor {
     public:
-        void visit(IfStmt *stmt) override {
-            auto predicate = stmt->predicate();
-            auto const &[dep, linked] = DependencyVisitor::get_dep(predicate.get());
-            for (auto const &var : dep) vars_.emplace(var);
-            for (auto const &[var, entry] : linked) {
-                linked_vars_[var].insert(entry.begin(), entry.end());
-            }
-        }
+        void visit(IfStmt *stmt) override { get_var_deps(stmt->predicate().get(), vars_); }
 
-        void visit(SwitchStmt *stmt) override {
-            auto target = stmt->target();
-            auto const &[dep, linked] = DependencyVisitor::get_dep(target.get());
-            for (auto const &var : dep) vars_.emplace(var);
-            for (auto const &[var, entry] : linked) {
-                linked_vars_[var].insert(entry.begin(), entry.end());
-            }
-        }
+        void visit(SwitchStmt *stmt) override { get_var_deps(stmt->target().get(), vars_); }
 
         void visit(AssignStmt *stmt) override {
-            auto const &[dep, linked] = DependencyVisitor::get_dep(stmt->right());
-            for (auto const &var : dep) vars_.emplace(var);
-            for (auto const &[var, entry] : linked) {
-                linked_vars_[var].insert(entry.begin(), entry.end());
-            }
+            get_var_deps(stmt->right(), vars_);
+            get_index_deps(stmt->left(), vars_);
         }
 
-        std::unordered_set<const Var *> &vars() { return vars_; }
-        std::unordered_map<const Var *, std::unordered_map<uint32_t, Var *>> &linked_vars() {
-            return linked_vars_;
-        }
+        const DepSet &vars() const { return vars_; }
 
     private:
-        std::unordered_set<const Var *> vars_;
-        std::unordered_map<const Var *, std::unordered_map<uint32_t, Var *>> linked_vars_;
+        DepSet vars_;
     };
 };
 
+// bits [low + width - 1 : low] of a value that is held as a list of elements
+static uint64_t get_bits(const std::vector<uint64_t> &values, uint32_t element_width, uint64_t low,
+                         uint32_t width) {
+    uint64_t result = 0;
+    for (uint32_t i = 0; i < width; i++) {
+        auto const bit = low + i;
+        auto const value = values.at(bit / element_width);
+        result |= ((value >> (bit % element_width)) & 1u) << i;
+    }
+    return result;
+}
+
+static bool is_scalar(const Var *var) {
+    return var->size().size() == 1 && var->size().front() == 1;
+}
+
 Simulator::Simulator(kratos::Generator *generator) {
     if (!generator) return;
     // fix the assignment type
@@ -190,7 +170,6 @@ Simulator::Simulator(kratos::Generator *generator) {
     // the visitor builds up one dep table: not thread safe
     visitor.visit_generator_root(generator);
     dependency_ = visitor.dependency();
-    linked_dependency_ = visitor.linked_dependency();
     init_pull_up_value(generator);
 }
 
@@ -216,35 +195,13 @@ std::optional<uint64_t> Simulator::get_value_(const kratos::Var *var) const {
             return std::nullopt;
         }
     } else if (var->type() == VarType::Slice) {
-        auto const *root = var->get_var_root_parent();
-        std::vector<uint64_t> values;
-        if (root->type() == VarType::ConstValue || root->type() == VarType::Parameter) {
-            auto value = get_value_(var);
-            if (!value)
-                throw InternalException(
-                    ::format("Unable to get value for {0}", var->handle_name()));
-            values = {*value};
-        } else if (root->size().size() == 1 && root->size().front() == 1) {
-            // this is size one
-            auto value = get_value_(root);
-            if (!value) return std::nullopt;
-            values = {*value};
-        } else if (complex_values_.find(root) == complex_values_.end()) {
-            return std::nullopt;
-        } else {
-            values = complex_values_.at(root);
-        }
-        // obtain the index
-        auto index = get_slice_index(var);
-        if (index.empty()) return std::nullopt;
-        auto const [var_high, var_low] = compute_var_high_low(root, index);
-        if (var_high + 1 - var_low > root->width())
-            throw InternalException("Unable to resolve variable slicing");
-        auto base = var_low / root->var_width();
-        auto low = var_low % root->var_width();
-        auto high = var_high % root->var_width();
-        auto value = values[base];
-        return (value >> low) & (~(0xFFFFFFFFFFFFFFFF << (high + 1)));
+        auto const location = get_location(var);
+        if (!location) return std::nullopt;
+        auto const *root = location->root;
+        auto const values = get_complex_value_(root);
+        if (!values) return std::nullopt;
+        auto const element_width = is_scalar(root) ? root->width() : root->var_width();
+        return get_bits(*values, element_width, location->low, location->width);
     } else {
         // function call
         if (var->is_function()) {
@@ -267,84 +224,55 @@ std::optional<uint64_t> Simulator::get_value_(const kratos::Var *var) const {
     }
 }
 
+std::optional<Simulator::Location> Simulator::get_location(const Var *var) const {
+    if (var->type() != VarType::Slice) return Location{var, 0, var->width()};
+    auto const *slice = static_cast<const VarSlice *>(var);
+    auto const parent = get_location(slice->parent_var);
+    if (!parent) return std::nullopt;
+    uint64_t high = slice->high, low = slice->low;
+    if (slice->sliced_by_var()) {
+        auto const index = get_value_(static_cast<const VarVarSlice *>(slice)->sliced_var());
+        // the index variable is empty
+        if (!index) return std::nullopt;
+        high = low = *index;
+    }
+    // every layer addresses elements of the same width, down to a single bit
+    uint64_t const element_width = var->width() / (high - low + 1);
+    if (high >= parent->width / element_width) return std::nullopt;
+    return Location{parent->root, parent->low + static_cast<uint32_t>(low * element_width),
+                    var->width()};
+}
+
 void Simulator::set_value_(const kratos::Var *var, std::optional<uint64_t> op_value) {
     if (!op_value) return;
-    auto value = *op_value;
-    if (var->size().size() != 1 || var->size().front() != 1) {
-        set_complex_value_(var, std::vector<uint64_t>{value});
-        return;
-    }
-    if (var->type() == VarType::Parameter || var->type() == VarType::ConstValue) {
-        throw UserException(::format("Cannot set value for constant {0}", var->handle_name()));
-    } else if (var->type() == VarType::Slice) {
-        auto const *root = var->get_var_root_parent();
-        std::vector<uint64_t *> values;
-        if (root->type() == VarType::ConstValue || root->type() == VarType::Parameter) {
-            throw UserException(::format("Cannot set value for constant {0}", var->handle_name()));
-        } else if (root->size().size() == 1 && root->size().front() == 1) {
-            // this is size one
-            if (values_.find(root) == values_.end()) values_[root] = 0;
-            values = {&values_.at(root)};
-        } else {
-            uint32_t base = 1;
-            for (uint32_t s : root->size()) {
-                base *= s;
-            }
-            if (complex_values_.find(root) == complex_values_.end()) {
-                // fill in values
-                std::vector<uint64_t> v(base);
-                for (uint64_t i = 0; i < base; i++) v[i] = 0;
-                complex_values_.emplace(root, v);
-            }
-            std::vector<uint64_t> &v_ref = complex_values_.at(root);
-            values.reserve(base);
-            for (uint64_t i = 0; i < base; i++) values.emplace_back(&v_ref[i]);
-        }
-        // obtain the index
-        auto index = get_slice_index(var);
-        if (index.empty()) throw InternalException("Empty slice");
-        auto [var_high, var_low] = compute_var_high_low(root, index);
-        if (var_high + 1 - var_low > root->width())
-            throw InternalException("Unable to resolve variable slicing");
-        auto base = var_low / root->var_width();
-        var_high = var_high - base * root->var_width();
-        var_low = var_low - base * root->var_width();
-        auto *v = values[base];
-        auto temp = *v;
-        // compute the mask
-        uint64_t mask = (0xFFFFFFFFFFFFFFFF >> (var_high + 1)) >> var_low;
-        *v = *v & (~mask);
-        value = value & (0xFFFFFFFFFFFFFFFF >> (var_high - var_low + 1));
-        *v = *v | (value << var_low);
-        if (*v != temp) {
-            std::unordered_set<uint32_t> changed_bits;
-            uint64_t m = (*v) ^ temp;
-            for (uint32_t bit = 0; bit < root->width(); bit++) {
-                if ((m >> bit) & 1u) {
-                    changed_bits.emplace(bit);
-                }
-            }
-            trigger_event(root, changed_bits);
-        }
-    } else {
-        std::unordered_set<uint32_t> changed_bits;
-        if (values_.find(var) != values_.end()) {
-            auto temp = values_.at(var);
-            if (temp != value) {
-                values_[var] = value;
-                uint64_t m = value ^ temp;
-                for (uint32_t bit = 0; bit < var->width(); bit++) {
-                    if ((m >> bit) & 1u) {
-                        changed_bits.emplace(bit);
-                    }
-                }
-            }
-        } else {
-            values_[var] = value;
-            for (uint32_t i = 0; i < var->width(); i++) changed_bits.emplace(i);
-        }
-        trigger_event(var, changed_bits);
-    }
+    set_complex_value_(var, std::vector<uint64_t>{*op_value});
+}
+
+void Simulator::set_location(const Location &location, const std::vector<uint64_t> &values,
+                             uint32_t element_width) {
+    auto const *root = location.root;
+    auto const scalar = is_scalar(root);
+    auto const root_element_width = scalar ? root->width() : root->var_width();
+    // once a bit is set the bits next to it are known as well
+    bool changed;
+    if (scalar)
+        changed = values_.emplace(root, 0).second;
+    else
+        changed = complex_values_
+                      .emplace(root, std::vector<uint64_t>(root->width() / root_element_width))
+                      .second;
+    for (uint32_t i = 0; i < location.width; i++) {
+        auto const bit = location.low + i;
+        auto &element = scalar ? values_.at(root)
+                               : complex_values_.at(root)[bit / root_element_width];
+        uint64_t const mask = static_cast<uint64_t>(1) << (bit % root_element_width);
+        uint64_t const value = get_bits(values, element_width, i, 1) ? mask : 0;
+        if ((element & mask) != value) {
+            element ^= mask;
+            changed = true;
+        }
+    }
+    if (changed) trigger_event(root);
 }
 
 std::optional<std::vector<uint64_t>> Simulator::get_complex_value_(const kratos::Var *var) const {
@@ -358,19 +286,17 @@ std::optional<std::vector<uint64_t>> Simulator::get_complex_value_(const kratos:
             return std::nullopt;
     }
     if (var->type() == VarType::Slice) {
-        auto const *root = var->get_var_root_parent();
-        auto index = get_slice_index(var);
-        if (index.empty()) return std::nullopt;
-        auto const [var_high, var_low] = compute_var_high_low(root, index);
-        if (var_low % root->var_width() != 0 ||
-            (var_high % root->var_width() != root->var_width() - 1))
-            throw InternalException("Misaligned vector slicing");
-        if (complex_values_.find(root) == complex_values_.end()) return std::nullopt;
-        auto values = complex_values_.at(root);
-        // compute the slice range
-        auto low = var_low / root->var_width();
-        auto high = var_high / root->var_width();
-        return std::vector<uint64_t>(values.begin() + low, values.end() + high + 1);
+        auto const location = get_location(var);
+        if (!location) return std::nullopt;
+        auto const *root = location->root;
+        auto const values = get_complex_value_(root);
+        if (!values) return std::nullopt;
+        std::vector<uint64_t> result;
+        for (uint32_t low = 0; low < location->width; low += var->var_width()) {
+            result.emplace_back(
+                get_bits(*values, root->var_width(), location->low + low, var->var_width()));
+        }
+        return result;
     } else {
         if (complex_values_.find(var) == complex_values_.end()) return std::nullopt;
         return complex_values_.at(var);
@@ -380,130 +306,30 @@ std::optional<std::vector<uint64_t>> Simulator::get_complex_value_(const kratos:
 void Simulator::set_complex_value_(const kratos::Var *var,
                                    const std::optional<std::vector<uint64_t>> &op_value) {
     if (!op_value) return;
-    auto value = *op_value;
-    if (var->size().size() == 1 && var->size().front() == 1) {
-        if (value.size() > 1) throw UserException("Cannot set multiple values to a scalar");
-        set_value_(var, value[0]);
-        return;
-    }
-    std::vector<uint64_t *> values;
-    uint64_t base = 1;
-    const Var *fill_var;
-    uint32_t low, high;
-    if (var->type() == VarType::Slice) {
-        const auto *root = var->get_var_root_parent();
-        fill_var = root;
-        auto index = get_slice_index(var);
-        if (index.empty()) throw InternalException("Empty slice");
-        auto const [var_high, var_low] = compute_var_high_low(root, index);
-        if (var_low % root->var_width() != 0 ||
-            (var_high % root->var_width() != root->var_width() - 1))
-            throw InternalException("Misaligned vector slicing");
-        low = var_low;
-        high = var_high;
-        if (root->size().size() == 1 && root->size().front() == 1) {
-            // this is size one
-            if (values_.find(root) == values_.end()) values_[root] = 0;
-            values = {&values_.at(root)};
-        } else {
-            for (uint32_t s : root->size()) {
-                base *= s;
-            }
-            std::vector<uint64_t> &v_ref = complex_values_.at(root);
-            values.reserve(base);
-            for (uint64_t i = 0; i < base; i++) values.emplace_back(&v_ref[i]);
-        }
-    } else {
-        for (uint32_t s : var->size()) {
-            base *= s;
-        }
-        fill_var = var;
-        low = 0;
-        high = base - 1;
-    }
-    bool fill_in = false;
-    if (complex_values_.find(fill_var) == complex_values_.end()) {
-        // whatever bits changed
-        // fill in values
-        fill_in = true;
-        if (complex_values_.find(fill_var) == complex_values_.end()) {
-            // fill in values
-            std::vector<uint64_t> v(base);
-            for (uint64_t i = 0; i < base; i++) v[i] = 0;
-            complex_values_.emplace(var, v);
-        }
-    }
-
-    // get values
-    if (var->type() != VarType::Slice) {
-        values.reserve(base);
-        auto &v_ref = complex_values_.at(var);
-        for (uint64_t i = 0; i < base; i++) values.emplace_back(&v_ref[i]);
-    }
-
-    if (values.size() != value.size()) {
-        // expand the value to if the target is packed
-        if (fill_var->is_packed()) {
-            if (value.size() > 1) {
-                throw InternalException("Multiple value assigned to packed array not supported");
-            }
-            auto v = value[0];
-            std::vector<uint64_t> v_(values.size());
-            for (uint64_t i = 0; i < values.size(); i++) {
-                auto w = fill_var->var_width();
-                v_[i] = (v >> (w * i)) & (~(UINT64_MASK << w));
-            }
-            value = v_;
-        } else {
-            throw UserException("Misaligned slicing");
-        }
-    }
-    std::unordered_set<uint32_t> changed_bits;
-    uint32_t var_width = fill_var->var_width();
-
-    for (uint32_t i = low; i <= high; i++) {
-        if (*(values[i]) != value[i] || fill_in) {
-            uint32_t bit_mask = (*values[i]) ^ value[i];
-            *(values[i]) = value[i];
-            for (uint32_t bit = 0; bit < var_width; bit++) {
-                if ((bit_mask >> bit) & 1u || fill_in) {
-                    changed_bits.emplace(bit + var_width * i);
-                }
-            }
-        }
-    }
-    trigger_event(fill_var, changed_bits);
+    auto const location = get_location(var);
+    // nothing is written if the index is not known or out of bound
+    if (!location) return;
+    set_location(*location, *op_value, get_element_width(var, *op_value));
 }
 
-std::vector<std::pair<uint32_t, uint32_t>> Simulator::get_slice_index(const Var *var) const {
-    if (var->type() != VarType::Slice) {
-        return {};
-    }
-    const auto *slice = reinterpret_cast<const VarSlice *>(var);
-    auto result = get_slice_index(slice->parent_var);
-    uint32_t high, low;
-    if (slice->sliced_by_var()) {
-        const auto *var_slice = reinterpret_cast<const VarVarSlice *>(slice);
-        auto *v = var_slice->sliced_var();
-        auto index = get_value_(v);
-        // the index variable is empty
-        if (!index) {
-            return {};
-        }
-        high = *index;
-        low = *index;
-    } else {
-        high = slice->high;
-        low = slice->low;
-    }
-    result.emplace_back(std::make_pair(high, low));
-    return result;
+uint32_t Simulator::get_element_width(const Var *var, const std::vector<uint64_t> &values) {
+    auto const *root = var->get_var_root_parent();
+    if (root->type() == VarType::Parameter || root->type() == VarType::ConstValue)
+        throw UserException(::format("Cannot set value for constant {0}", var->handle_name()));
+    if (is_scalar(var)) {
+        if (values.size() > 1) throw UserException("Cannot set multiple values to a scalar");
+        return var->width();
+    }
+    if (values.size() == var->width() / var->var_width()) return var->var_width();
+    // expand the value if the target is packed
+    if (!root->is_packed()) throw UserException("Misaligned slicing");
+    if (values.size() > 1)
+        throw InternalException("Multiple value assigned to packed array not supported");
+    if (var->width() > 64) throw InternalException("Big number evaluation not supported");
+    return var->width();
 }
 
-void Simulator::trigger_event(const kratos::Var *var,
-                              const std::unordered_set<uint32_t> &bits_mask) {
-    if (bits_mask.empty()) return;
-
+void Simulator::trigger_event(const kratos::Var *var) {
     if (dependency_.find(var) != dependency_.end()) {
         auto const &deps = dependency_.at(var);
         for (auto const &stmt : deps) {
@@ -511,26 +337,6 @@ void Simulator::trigger_event(const kratos::Var *var,
         }
     }
 
-    const auto *root = var->get_var_root_parent();
-    if (linked_dependency_.find(root) != linked_dependency_.end()) {
-        auto const &vars = linked_dependency_.at(root);
-        std::unordered_set<Var *> vs;
-        for (const auto &[bit, v] : vars) {
-            if (bits_mask.find(bit) != bits_mask.end()) vs.emplace(v);
-        }
-
-        for (auto const &v : vs) {
-            if (dependency_.find(v) != dependency_.end()) {
-                auto const &deps = dependency_.at(v);
-                for (auto const &stmt : deps) {
-                    if (scope_.find(stmt) == scope_.end())
-                        event_queue_.emplace(std::make_pair(var, stmt));
-                }
-            }
-        }
-    }
-
-    // trigger linked events as well
     simulation_depth_++;
 }
 
diff --git a/src/sim.hh b/src/sim.hh
index 848d414..29e79da 100644
--- a/src/sim.hh
+++ b/src/sim.hh
@@ -34,13 +34,20 @@ private:
     std::unordered_map<const Var *, std::vector<uint64_t>> complex_values_;
     std::queue<std::pair<const Var *, Stmt *>> event_queue_;
     std::unordered_map<const Var *, std::unordered_set<Stmt *>> dependency_;
-    // linked dependency is for partial updates
-    std::unordered_map<const Var *, std::unordered_map<uint32_t, Var *>> linked_dependency_;
     // this is prevent self triggering in always block
     std::unordered_set<Stmt *> scope_;
 
-    std::vector<std::pair<uint32_t, uint32_t>> get_slice_index(const Var *var) const;
-    void trigger_event(const Var *var, const std::unordered_set<uint32_t> &bit_mask);
+    // where the bits of a variable, or of a slice of it, are stored
+    struct Location {
+        const Var *root;
+        uint32_t low;
+        uint32_t width;
+    };
+    std::optional<Location> get_location(const Var *var) const;
+    void set_location(const Location &location, const std::vector<uint64_t> &values,
+                      uint32_t element_width);
+    static uint32_t get_element_width(const Var *var, const std::vector<uint64_t> &values);
+    void trigger_event(const Var *var);
 
     void process_stmt(Stmt *stmt, const Var *var);
     void process_stmt(IfStmt *if_, const Var *var);
-- 
2.43.0


From ee476f74defe27ac55ee2d342f622c33ffaa8bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:11 +0000
Subject: [PATCH 41/90] fix: simulated expressions use the width and the sign
 of their operands

---
 src/sim.cc | 113 ++++++++++++++++++++++++++++++++---------------------
 src/sim.hh |   1 +
 2 files changed, 70 insertions(+), 44 deletions(-)

diff --git a/src/sim.cc b/src/sim.cc
index 9cfdea1..07b3ec6 100644
--- a/src/sim.cc
+++ b/src/sim.cc
@@ -157,6 +157,12 @@ static uint64_t get_bits(const std::vector<uint64_t> &values, uint32_t element_w
     return result;
 }
 
+// truncate or extend a value
+static uint64_t resize(uint64_t value, uint32_t from, uint32_t to, bool is_signed) {
+    if (is_signed && to > from && (value >> (from - 1)) & 1u) value |= UINT64_MASK << from;
+    return truncate(value, to);
+}
+
 static bool is_scalar(const Var *var) {
     return var->size().size() == 1 && var->size().front() == 1;
 }
@@ -202,6 +208,11 @@ std::optional<uint64_t> Simulator::get_value_(const kratos::Var *var) const {
         if (!values) return std::nullopt;
         auto const element_width = is_scalar(root) ? root->width() : root->var_width();
         return get_bits(*values, element_width, location->low, location->width);
+    } else if (var->type() == VarType::BaseCasted) {
+        auto const *parent = static_cast<const VarCasted *>(var)->parent_var();
+        auto const value = get_bits_value(parent);
+        if (!value) return std::nullopt;
+        return resize(*value, parent->width(), var->width(), parent->is_signed());
     } else {
         // function call
         if (var->is_function()) {
@@ -224,7 +235,19 @@ std::optional<uint64_t> Simulator::get_value_(const kratos::Var *var) const {
     }
 }
 
+std::optional<uint64_t> Simulator::get_bits_value(const Var *var) const {
+    if (var->width() > 64)
+        throw InternalException("Big number evaluation not supported. Got " + var->to_string());
+    auto const values = get_complex_value_(var);
+    if (!values) return std::nullopt;
+    return get_bits(*values, values->size() > 1 ? var->var_width() : var->width(), 0, var->width());
+}
+
 std::optional<Simulator::Location> Simulator::get_location(const Var *var) const {
+    if (var->type() == VarType::BaseCasted) {
+        auto const *parent = static_cast<const VarCasted *>(var)->parent_var();
+        if (parent->width() == var->width()) return get_location(parent);
+    }
     if (var->type() != VarType::Slice) return Location{var, 0, var->width()};
     auto const *slice = static_cast<const VarSlice *>(var);
     auto const parent = get_location(slice->parent_var);
@@ -297,6 +320,8 @@ std::optional<std::vector<uint64_t>> Simulator::get_complex_value_(const kratos:
                 get_bits(*values, root->var_width(), location->low + low, var->var_width()));
         }
         return result;
+    } else if (var->type() == VarType::BaseCasted) {
+        return get_complex_value_(static_cast<const VarCasted *>(var)->parent_var());
     } else {
         if (complex_values_.find(var) == complex_values_.end()) return std::nullopt;
         return complex_values_.at(var);
@@ -431,6 +456,11 @@ void Simulator::process_stmt(kratos::Stmt *stmt, const Var *var) {
 void Simulator::process_stmt(kratos::AssignStmt *stmt, const Var *) {
     auto *right = stmt->right();
     auto val = eval_expr(right);
+    if (val && (*val).size() > 1 && right->width() <= 64 &&
+        (*val).size() != stmt->left()->width() / stmt->left()->var_width()) {
+        // bits of a packed array
+        val = std::vector<uint64_t>{*get_bits_value(right)};
+    }
     if (val) {
         if (stmt->assign_type() != AssignmentType::NonBlocking)
             set_complex_value_(stmt->left(), val);
@@ -533,7 +563,7 @@ uint64_t Simulator::static_evaluate_expr(Var *expr) {
     // LCOV_EXCL_START
     if (!result || (*result).size() != 1)
         throw UserException(::format("Unable to static elaborate value {0}", expr->to_string()));
-    auto value = static_cast<int64_t>((*result)[0]);
+    auto value = static_cast<int64_t>(resize((*result)[0], expr->width(), 64, expr->is_signed()));
     if (value <= 0)
         throw UserException(::format("Unable to static elaborate value {0}", expr->to_string()));
     return static_cast<uint64_t>(value);
@@ -569,7 +599,10 @@ void Simulator::init_pull_up_value(Generator *generator) {
 
 std::optional<std::vector<uint64_t>> Simulator::eval_expr(const kratos::Var *var) const {
     if (var->type() == VarType::Expression) {
-        const auto *expr = reinterpret_cast<const Expr *>(var);
+        const auto *expr = static_cast<const Expr *>(var);
+        if (expr->width() > 64)
+            throw InternalException("Big number evaluation not supported. Got " +
+                                    expr->to_string());
         // there are couple special ones
         if (expr->op == ExprOp::Concat) {
             const auto *var_concat = reinterpret_cast<const VarConcat *>(expr);
@@ -578,7 +611,7 @@ std::optional<std::vector<uint64_t>> Simulator::eval_expr(const kratos::Var *var
             uint32_t shift_amount = 0;
             uint64_t value = 0;
             for (auto *var_ : vars) {
-                auto v = get_value_(var_);
+                auto v = get_bits_value(var_);
                 if (v) {
                     value |= (*v) << shift_amount;
                     shift_amount += var_->width();
@@ -589,53 +622,45 @@ std::optional<std::vector<uint64_t>> Simulator::eval_expr(const kratos::Var *var
             return std::vector<uint64_t>{value};
         } else if (expr->op == ExprOp::Extend) {
             // depends on whether it's a signed value or not
-            const auto *extend = reinterpret_cast<const VarExtend *>(var);
+            const auto *extend = static_cast<const VarExtend *>(expr);
             auto *base_var = extend->parent_var();
-            auto value = get_complex_value_(base_var);
+            auto value = get_bits_value(base_var);
             if (!value) return std::nullopt;
-            if (var->is_signed()) {
-                // do signed extension
-                if ((*value).size() > 1) {
-                    throw std::runtime_error("Not implemented");
-                }
-                auto v = (*value)[0];
-                if (v >> (var->width() - 1)) {
-                    // do a signed extension
-                    for (uint32_t i = base_var->width(); i < var->width(); i++) {
-                        v |= 1u << i;
-                    }
-                }
-                return std::vector<uint64_t>{v};
-            } else {
-                return value;
-            }
+            return std::vector<uint64_t>{
+                resize(*value, base_var->width(), expr->width(), base_var->is_signed())};
+        } else if (expr->op == ExprOp::Duplicate) {
+            auto value = get_bits_value(expr->left);
+            if (!value) return std::nullopt;
+            uint64_t result = 0;
+            for (uint32_t i = 0; i < expr->width(); i += expr->left->width()) result |= *value << i;
+            return std::vector<uint64_t>{result};
+        } else if (is_ternary_op(expr->op)) {
+            auto const *cond = static_cast<const ConditionalExpr *>(expr);
+            auto predicate_val = get_bits_value(cond->condition);
+            if (!predicate_val) return std::nullopt;
+            // only the selected side has to be known
+            auto value = get_bits_value(*predicate_val ? expr->left : expr->right);
+            if (!value) return std::nullopt;
+            return std::vector<uint64_t>{
+                eval_ternary_op(*predicate_val, *value, *value, expr->width())};
         } else {
-            auto left_val = get_complex_value_(expr->left);
-            if (!left_val) return left_val;
-            auto right_val = get_complex_value_(expr->right);
-            if (is_ternary_op(expr->op)) {
-                auto const *cond = reinterpret_cast<const ConditionalExpr *>(expr);
-                auto predicate_val = get_complex_value_(cond->condition);
-                if (!predicate_val) return right_val;
-                bool c = (*predicate_val)[0];
-                auto result = eval_ternary_op(c, (*left_val)[0], (*right_val)[0], expr->width());
-                return std::vector<uint64_t>{result};
-            } else if (!is_unary_op(expr->op)) {
-                if (!right_val) return std::nullopt;
-                if ((*left_val).size() > 1) throw std::runtime_error("Not implemented");
-                if ((*right_val).size() > 1) throw std::runtime_error("Not implemented");
-                auto left_value = (*left_val)[0];
-                auto right_value = (*right_val)[0];
-                auto result = eval_bin_op(left_value, right_value, expr->op, expr->width(),
-                                          expr->is_signed());
-                return std::vector<uint64_t>{result};
+            // operators work on the width and the sign of their operands, not of the result
+            auto left_val = get_bits_value(expr->left);
+            if (!left_val) return std::nullopt;
+            auto const width = expr->left->width();
+            uint64_t result;
+            if (is_unary_op(expr->op)) {
+                result = eval_unary_op(*left_val, expr->op, width);
             } else {
-                auto left_value = (*left_val)[0];
-                auto result = eval_unary_op(left_value, expr->op, expr->width());
-                return std::vector<uint64_t>{result};
+                auto right_val = get_bits_value(expr->right);
+                if (!right_val) return std::nullopt;
+                bool const is_signed = is_relational_op(expr->op)
+                                           ? expr->left->is_signed() && expr->right->is_signed()
+                                           : expr->is_signed();
+                result = eval_bin_op(*left_val, *right_val, expr->op, width, is_signed);
             }
+            return std::vector<uint64_t>{truncate(result, expr->width())};
         }
-
     } else {
         return get_complex_value_(var);
     }
diff --git a/src/sim.hh b/src/sim.hh
index 29e79da..a8585cd 100644
--- a/src/sim.hh
+++ b/src/sim.hh
@@ -44,6 +44,7 @@ private:
         uint32_t width;
     };
     std::optional<Location> get_location(const Var *var) const;
+    std::optional<uint64_t> get_bits_value(const Var *var) const;
     void set_location(const Location &location, const std::vector<uint64_t> &values,
                       uint32_t element_width);
     static uint32_t get_element_width(const Var *var, const std::vector<uint64_t> &values);
-- 
2.43.0


From 50509c3ff19ff8b95817e77cd9694b4388d0caa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:14 +0000
Subject: [PATCH 42/90] fix: simulated expressions of packed arrays have a
 value

---
 src/sim.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sim.cc b/src/sim.cc
index 07b3ec6..3118492 100644
--- a/src/sim.cc
+++ b/src/sim.cc
@@ -320,6 +320,8 @@ std::optional<std::vector<uint64_t>> Simulator::get_complex_value_(const kratos:
                 get_bits(*values, root->var_width(), location->low + low, var->var_width()));
         }
         return result;
+    } else if (var->type() == VarType::Expression) {
+        return eval_expr(var);
     } else if (var->type() == VarType::BaseCasted) {
         return get_complex_value_(static_cast<const VarCasted *>(var)->parent_var());
     } else {
-- 
2.43.0


From 7d19e1cd50280ff1017ac77f4dfa7ee256f4dd38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:14 +0000
Subject: [PATCH 43/90] fix: simulated non-blocking assignments take effect
 after all the active events

---
 src/sim.cc | 26 ++++++++++++++++++--------
 src/sim.hh |  8 +++++++-
 2 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/src/sim.cc b/src/sim.cc
index 3118492..f8fcf33 100644
--- a/src/sim.cc
+++ b/src/sim.cc
@@ -369,10 +369,19 @@ void Simulator::trigger_event(const kratos::Var *var) {
 
 void Simulator::eval() {
     simulation_depth_ = 0;
-    while (!event_queue_.empty()) {
+    while (!event_queue_.empty() || !nba_values_.empty()) {
         if (simulation_depth_ > MAX_SIMULATION_DEPTH) {
             throw UserException("Simulation doesn't converge");
         }
+        if (event_queue_.empty()) {
+            // every active event has read the values before the update
+            auto const nba_values = std::move(nba_values_);
+            nba_values_.clear();
+            // in order: the last assignment wins
+            for (auto const &nba : nba_values)
+                set_location(nba.location, nba.values, nba.element_width);
+            continue;
+        }
         auto const [var, stmt] = event_queue_.front();
         event_queue_.pop();
         process_stmt(stmt, var);
@@ -467,10 +476,17 @@ void Simulator::process_stmt(kratos::AssignStmt *stmt, const Var *) {
         if (stmt->assign_type() != AssignmentType::NonBlocking)
             set_complex_value_(stmt->left(), val);
         else
-            nba_values_.emplace(stmt->left(), *val);
+            schedule_nba(stmt->left(), *val);
     }
 }
 
+void Simulator::schedule_nba(const Var *var, const std::vector<uint64_t> &values) {
+    // the index of the target is evaluated now, only the update is deferred
+    auto const location = get_location(var);
+    if (!location) return;
+    nba_values_.emplace_back(NBA{*location, values, get_element_width(var, values)});
+}
+
 void Simulator::process_stmt(kratos::StmtBlock *block, const Var *var) {
     for (auto &stmt : *block) {
         process_stmt(stmt.get(), var);
@@ -549,12 +565,6 @@ void Simulator::process_stmt(kratos::SequentialStmtBlock *block, const Var *var_
     }
     if (!trigger) return;
     process_stmt(reinterpret_cast<StmtBlock *>(block), var_);
-
-    for (auto const &[var, value] : nba_values_) {
-        set_complex_value_(var, value);
-    }
-    // clear the nba regions
-    nba_values_.clear();
 }
 
 uint64_t Simulator::static_evaluate_expr(Var *expr) {
diff --git a/src/sim.hh b/src/sim.hh
index a8585cd..26b89de 100644
--- a/src/sim.hh
+++ b/src/sim.hh
@@ -59,7 +59,13 @@ private:
     void process_stmt(CombinationalStmtBlock *block, const Var *);
     void process_stmt(SequentialStmtBlock *block, const Var *var);
 
-    std::unordered_map<Var *, std::vector<uint64_t>> nba_values_;
+    struct NBA {
+        Location location;
+        std::vector<uint64_t> values;
+        uint32_t element_width;
+    };
+    std::vector<NBA> nba_values_;
+    void schedule_nba(const Var *var, const std::vector<uint64_t> &values);
 
     // pull-up registers
     void init_pull_up_value(Generator *generator);
-- 
2.43.0


From b22680e5506b1d7170c063d93ce1eefc85d5e23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:14 +0000
Subject: [PATCH 44/90] fix: simulated clocked blocks run on the edges of
 sliced and cast events, once per event

---
 src/sim.cc | 27 +++++++++++----------------
 src/sim.hh |  4 ++++
 2 files changed, 15 insertions(+), 16 deletions(-)

diff --git a/src/sim.cc b/src/sim.cc
index f8fcf33..7405ebe 100644
--- a/src/sim.cc
+++ b/src/sim.cc
@@ -59,7 +59,7 @@ private:
     void visit_block(SequentialStmtBlock *block) {
         auto &lst = block->get_event_controls();
         for (auto const &iter : lst) {
-            dependency_[iter.var].emplace(block);
+            for (auto const *var : get_dep(iter.var)) dependency_[var].emplace(block);
         }
     }
 
@@ -546,22 +546,17 @@ void Simulator::process_stmt(kratos::SwitchStmt *switch_, const Var *var) {
 void Simulator::process_stmt(kratos::SequentialStmtBlock *block, const Var *var_) {
     // only trigger it if it's actually high/low
     auto const &conditions = block->get_event_controls();
+    auto &last_values = event_values_[block];
+    last_values.resize(conditions.size());
     bool trigger = false;
-    for (auto const &event : conditions) {
-        if (event.var != var_) continue;
-        if (event.edge == EventEdgeType::Posedge) {
-            auto val = get_value_(event.var);
-            if (val && *val) {
-                trigger = true;
-                break;
-            }
-        } else {
-            auto val = get_value_(event.var);
-            if (val && (!(*val))) {
-                trigger = true;
-                break;
-            }
-        }
+    for (uint64_t i = 0; i < conditions.size(); i++) {
+        auto const &event = conditions[i];
+        auto const value = get_value_(event.var);
+        // an edge is a change: the block runs once even if several events happen together
+        if (value && value != last_values[i] &&
+            *value == (event.edge == EventEdgeType::Posedge ? 1 : 0))
+            trigger = true;
+        last_values[i] = value;
     }
     if (!trigger) return;
     process_stmt(reinterpret_cast<StmtBlock *>(block), var_);
diff --git a/src/sim.hh b/src/sim.hh
index 26b89de..7f52aba 100644
--- a/src/sim.hh
+++ b/src/sim.hh
@@ -65,6 +65,10 @@ private:
         uint32_t element_width;
     };
     std::vector<NBA> nba_values_;
+
+    // last seen values of the event controls
+    std::unordered_map<const Stmt *, std::vector<std::optional<uint64_t>>> event_values_;
+
     void schedule_nba(const Var *var, const std::vector<uint64_t> &values);
 
     // pull-up registers
-- 
2.43.0


From a426a55784af37c9d3b1c68a8b4fd18c5b82afd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:14 +0000
Subject: [PATCH 45/90] fix: simulated logic that reads only constants has a
 value from the start

---
 src/sim.cc | 45 ++++++++++++++++-----------------------------
 src/sim.hh |  3 ---
 2 files changed, 16 insertions(+), 32 deletions(-)

diff --git a/src/sim.cc b/src/sim.cc
index 7405ebe..1be3a44 100644
--- a/src/sim.cc
+++ b/src/sim.cc
@@ -47,13 +47,17 @@ public:
         return dependency_;
     }
 
+    const std::vector<Stmt *> &initial() const { return initial_; }
+
 private:
     std::unordered_map<const Var *, std::unordered_set<Stmt *>> dependency_;
+    std::vector<Stmt *> initial_;
 
     void visit_block(CombinationalStmtBlock *block) {
         CombinationBlockVisitor visitor;
         visitor.visit_root(block);
         for (auto const &var : visitor.vars()) dependency_[var].emplace(block);
+        if (visitor.constant()) initial_.emplace_back(block);
     }
 
     void visit_block(SequentialStmtBlock *block) {
@@ -67,6 +71,7 @@ private:
         auto dep = get_dep(assign->right());
         get_index_deps(assign->left(), dep);
         for (auto const &v : dep) dependency_[v].emplace(assign);
+        if (dep.empty()) initial_.emplace_back(assign);
     }
 
     void visit_module_instantiation(ModuleInstantiationStmt *stmt) {
@@ -136,12 +141,20 @@ private:
         void visit(AssignStmt *stmt) override {
             get_var_deps(stmt->right(), vars_);
             get_index_deps(stmt->left(), vars_);
+            assigned_.emplace(stmt->left()->get_var_root_parent());
         }
 
         const DepSet &vars() const { return vars_; }
+        // nothing outside the block changes what it computes
+        bool constant() const {
+            return std::all_of(vars_.begin(), vars_.end(), [this](const Var *var) {
+                return assigned_.find(var) != assigned_.end();
+            });
+        }
 
     private:
         DepSet vars_;
+        DepSet assigned_;
     };
 };
 
@@ -176,7 +189,9 @@ Simulator::Simulator(kratos::Generator *generator) {
     // the visitor builds up one dep table: not thread safe
     visitor.visit_generator_root(generator);
     dependency_ = visitor.dependency();
-    init_pull_up_value(generator);
+    // logic that only uses constants is never triggered by a change
+    for (auto *stmt : visitor.initial()) event_queue_.emplace(nullptr, stmt);
+    eval();
 }
 
 std::optional<uint64_t> Simulator::get_value_(const kratos::Var *var) const {
@@ -576,34 +591,6 @@ uint64_t Simulator::static_evaluate_expr(Var *expr) {
     return static_cast<uint64_t>(value);
 }
 
-class InitValueVisitor : public IRVisitor {
-public:
-    [[maybe_unused]] explicit InitValueVisitor(std::function<void(AssignStmt *)> fn)
-        : fn_(std::move(fn)) {}
-
-    void visit(Generator *gen) override {
-        uint64_t stmt_count = gen->stmts_count();
-        for (uint64_t i = 0; i < stmt_count; i++) {
-            auto stmt = gen->get_stmt(i);
-            if (stmt->type() == StatementType::Assign) {
-                auto assign = stmt->as<AssignStmt>();
-                if (assign->right()->type() == VarType::ConstValue) {
-                    fn_(assign.get());
-                }
-            }
-        }
-    }
-
-private:
-    std::function<void(AssignStmt *)> fn_;
-};
-
-void Simulator::init_pull_up_value(Generator *generator) {
-    auto fn = [&](AssignStmt *stmt) { this->process_stmt(stmt, nullptr); };
-    InitValueVisitor visitor(fn);
-    visitor.visit_generator_root(generator);
-}
-
 std::optional<std::vector<uint64_t>> Simulator::eval_expr(const kratos::Var *var) const {
     if (var->type() == VarType::Expression) {
         const auto *expr = static_cast<const Expr *>(var);
diff --git a/src/sim.hh b/src/sim.hh
index 7f52aba..aec46bd 100644
--- a/src/sim.hh
+++ b/src/sim.hh
@@ -71,9 +71,6 @@ private:
 
     void schedule_nba(const Var *var, const std::vector<uint64_t> &values);
 
-    // pull-up registers
-    void init_pull_up_value(Generator *generator);
-
     uint64_t simulation_depth_ = 0;
 };
 }  // namespace kratos
-- 
2.43.0


From 92fc2dff35942bbb4d252a64a1a8bbc8c91ea68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:34 +0000
Subject: [PATCH 46/90] fix: simulated negation has a value

---
 src/sim.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sim.cc b/src/sim.cc
index 1be3a44..df728d7 100644
--- a/src/sim.cc
+++ b/src/sim.cc
@@ -643,8 +643,10 @@ std::optional<std::vector<uint64_t>> Simulator::eval_expr(const kratos::Var *var
             if (!left_val) return std::nullopt;
             auto const width = expr->left->width();
             uint64_t result;
-            if (is_unary_op(expr->op)) {
-                result = eval_unary_op(*left_val, expr->op, width);
+            if (!expr->right) {
+                // the negation of a variable is a minus that has nothing on its right
+                auto const op = expr->op == ExprOp::Minus ? ExprOp::UMinus : expr->op;
+                result = eval_unary_op(*left_val, op, width);
             } else {
                 auto right_val = get_bits_value(expr->right);
                 if (!right_val) return std::nullopt;
-- 
2.43.0


From 1ace89d0c4ba5fb0a74e2f850ab9ae58124f5e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:59 +0000
Subject: [PATCH 47/90] fix: combinational loops through selections,
 concatenations and conditions are detected

---
 src/analysis.cc | 94 +++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 87 insertions(+), 7 deletions(-)

diff --git a/src/analysis.cc b/src/analysis.cc
index ad58b54..bfcbb6e 100644
--- a/src/analysis.cc
+++ b/src/analysis.cc
@@ -16,6 +16,82 @@ using fmt::format;
 using std::runtime_error;
 
 namespace kratos {
+
+// bits of a variable that are assigned or read
+struct VarBits {
+    const Var* var;
+    uint32_t low;
+    uint32_t high;
+    // which of these bits depends on a variable index
+    bool dynamic;
+};
+
+static void get_read_bits(const Var* var, std::vector<VarBits>& bits);
+
+// bits that are selected, which is the longest static prefix if a variable is used as an index
+static VarBits get_selected_bits(const Var* var) {
+    auto const* prefix = var;
+    bool dynamic = false;
+    while (var->type() == VarType::Slice) {
+        auto const* slice = static_cast<const VarSlice*>(var);
+        var = slice->parent_var;
+        if (slice->sliced_by_var()) {
+            dynamic = true;
+            prefix = var;
+        }
+    }
+    return {var, prefix->var_low(), prefix->var_high(), dynamic};
+}
+
+// bits assigned if var is the target of an assignment
+static void get_assigned_bits(const Var* var, std::vector<VarBits>& bits) {
+    if (var->type() == VarType::Expression) {
+        auto const* expr = static_cast<const Expr*>(var);
+        if (expr->op == ExprOp::Concat) {
+            for (auto const* v : static_cast<const VarConcat*>(expr)->vars())
+                get_assigned_bits(v, bits);
+        }
+    } else {
+        bits.emplace_back(get_selected_bits(var));
+    }
+}
+
+static void get_read_bits(const Var* var, std::vector<VarBits>& bits) {
+    if (!var) return;
+    if (var->type() == VarType::Expression) {
+        auto const* expr = static_cast<const Expr*>(var);
+        if (expr->op == ExprOp::Concat) {
+            for (auto const* v : static_cast<const VarConcat*>(expr)->vars())
+                get_read_bits(v, bits);
+        } else {
+            if (expr->op == ExprOp::Conditional)
+                get_read_bits(static_cast<const ConditionalExpr*>(expr)->condition, bits);
+            get_read_bits(expr->left, bits);
+            get_read_bits(expr->right, bits);
+        }
+    } else if (var->type() == VarType::BaseCasted) {
+        get_read_bits(static_cast<const VarCasted*>(var)->parent_var(), bits);
+    } else if (var->is_function()) {
+        for (auto const& arg : static_cast<const FunctionCallVar*>(var)->args())
+            get_read_bits(arg.second.get(), bits);
+    } else {
+        auto const selected = get_selected_bits(var);
+        // variables used as an index are read as well
+        for (auto const* v = var; v->type() == VarType::Slice;) {
+            auto const* slice = static_cast<const VarSlice*>(v);
+            if (slice->sliced_by_var())
+                get_read_bits(static_cast<const VarVarSlice*>(slice)->sliced_var(), bits);
+            v = slice->parent_var;
+        }
+        if (selected.var->type() == VarType::Expression ||
+            selected.var->type() == VarType::BaseCasted) {
+            get_read_bits(selected.var, bits);
+        } else {
+            bits.emplace_back(selected);
+        }
+    }
+}
+
 class VerifyAssignmentVisitor : public IRVisitor {
 public:
     void visit(AssignStmt* stmt) override {
@@ -817,7 +893,7 @@ private:
         // get all the sources
         auto const& sources = var->sources();
         for (auto const& stmt : sources) {
-            if (stmt->assign_type() == AssignmentType::Blocking && has_var(stmt->right(), var) &&
+            if (stmt->assign_type() == AssignmentType::Blocking && has_loop(stmt.get(), var) &&
                 stmt->parent()->ir_node_kind() == IRNodeKind::GeneratorKind) {
                 throw StmtException(::format("Combinational loop detected at {0} <- {1}",
                                              stmt->left()->to_string(), stmt->right()->to_string()),
@@ -826,12 +902,16 @@ private:
         }
     }
 
-    static bool has_var(Var* var, Var* target) {
-        if (!var) return false;
-        if (var == target) return true;
-        if (var->type() == VarType::Expression) {
-            auto* expr = reinterpret_cast<Expr*>(var);
-            return has_var(expr->left, target) || has_var(expr->right, target);
+    // a bit of the variable that the statement assigns is read by the same statement
+    static bool has_loop(AssignStmt* stmt, const Var* var) {
+        std::vector<VarBits> assigned, read;
+        get_assigned_bits(stmt->left(), assigned);
+        get_read_bits(stmt->right(), read);
+        for (auto const& a : assigned) {
+            if (a.var != var) continue;
+            for (auto const& r : read) {
+                if (r.var == var && a.low <= r.high && r.low <= a.high) return true;
+            }
         }
         return false;
     }
-- 
2.43.0


From f275dd3ae653218deaa97a1f40cd3f15dcb5354e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:00 +0000
Subject: [PATCH 48/90] fix: every pair of drivers of a variable is checked,
 also those with a variable index

---
 src/analysis.cc | 45 ++++++++++++++++++++++++---------------------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/src/analysis.cc b/src/analysis.cc
index bfcbb6e..cf2ad69 100644
--- a/src/analysis.cc
+++ b/src/analysis.cc
@@ -785,24 +785,29 @@ private:
     }
 
     static void check_var(Var* var) {
-        std::unordered_map<uint32_t, std::pair<IRNode*, Stmt*>> parents;
+        struct Driver {
+            VarBits bits;
+            // which bits are assigned is only known when the statement is executed
+            bool dynamic;
+            IRNode* parent;
+            Stmt* stmt_parent;
+        };
+        // all the drivers have to be compared with each other
+        std::vector<Driver> drivers;
         for (auto const& stmt : var->sources()) {
-            // TODO: FIX THIS
-            //  This is a hack to bypass the check if there is a for loop
-            if (has_for_loop(stmt.get())) continue;
-            auto* v = stmt->left();
-            if (v->get_var_root_parent() != var) continue;
-            if (v->type() == VarType::Slice) {
-                auto slice = v->as<VarSlice>();
-                if (slice->sliced_by_var()) continue;
-            }
-            uint32_t var_low = v->var_low();
-            uint32_t var_high = v->var_high();
-            for (uint32_t i = var_low; i <= var_high; i++) {
-                if (parents.find(i) != parents.end()) {
-                    auto* parent = stmt->parent();
-                    auto* stmt_parent = non_gen_root_parent(stmt.get());
-                    auto const& [ref_parent, ref_stmt_parent] = parents.at(i);
+            std::vector<VarBits> assigned;
+            get_assigned_bits(stmt->left(), assigned);
+            for (auto const& bits : assigned) {
+                if (bits.var != var) continue;
+                // TODO: FIX THIS
+                //  This is a hack to bypass the check if there is a for loop
+                bool const dynamic = bits.dynamic || has_for_loop(stmt.get());
+                auto* parent = stmt->parent();
+                auto* stmt_parent = non_gen_root_parent(stmt.get());
+                for (auto const& driver : drivers) {
+                    if (driver.bits.low > bits.high || bits.low > driver.bits.high) continue;
+                    auto* ref_parent = driver.parent;
+                    auto* ref_stmt_parent = driver.stmt_parent;
                     // the purpose of the following statement is to make sure that there is no
                     // other assignment that's assigning the same var slice in the same scope
                     // it cannot be driven through different blocks, either.
@@ -811,7 +816,7 @@ private:
                     // having different scope implies priority. as a result, we need to filter
                     // this case out
                     bool has_multiple_driver = stmt_parent != ref_stmt_parent;
-                    if (!has_multiple_driver) {
+                    if (!has_multiple_driver && !dynamic && !driver.dynamic) {
                         // skip the special case
                         if (parent == ref_parent) {
                             has_multiple_driver = true;
@@ -844,10 +849,8 @@ private:
                                                      var->handle_name()),
                                             {var, parent, stmt.get()});
                     }
-                } else {
-                    parents.emplace(
-                        i, std::make_pair(stmt->parent(), non_gen_root_parent(stmt.get())));
                 }
+                drivers.emplace_back(Driver{bits, dynamic, parent, stmt_parent});
             }
         }
     }
-- 
2.43.0


From 7fce5c38586f2fced07dc2154fe5a02dc6fa2510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:57 +0000
Subject: [PATCH 49/90] fix: a port is connected if all its bits are driven

---
 src/analysis.cc | 45 ++++++++-------------------------------------
 1 file changed, 8 insertions(+), 37 deletions(-)

diff --git a/src/analysis.cc b/src/analysis.cc
index cf2ad69..f1be6ad 100644
--- a/src/analysis.cc
+++ b/src/analysis.cc
@@ -1583,47 +1583,18 @@ void check_always_sensitivity(Generator* top) {
     visitor.visit_root(top);
 }
 
+// compute the bits that are driven. bits selected by a variable possibly hit all the elements
 bool connected(const std::shared_ptr<Port>& port, std::unordered_set<uint32_t>& bits) {
-    bool result = false;
     bits.reserve(port->width());
-    if (!port->sources().empty()) {
-        // it has been assigned. need to compute all the slices
-        auto sources = port->sources();
-        for (const auto& stmt : sources) {
-            auto* src = stmt->left();
-            if (src->type() == VarType::Slice) {
-                auto ptr = src->as<VarSlice>();
-                auto* ptr_parent = ptr->get_var_root_parent();
-                uint32_t high, low;
-                if (ptr_parent != port.get()) {
-                    // it got be a sliced by var
-                    if (!ptr->sliced_by_var())
-                        throw VarException("Internal error. Variable has un-related sources",
-                                           {port.get()});
-                    // it's actually not driven by the current net
-                    continue;
-                } else {
-                    if (ptr->sliced_by_var()) {
-                        // possibly to hit all bits
-                        low = 0;
-                        high = port->width() - 1;
-                    } else {
-                        low = ptr->var_low();
-                        high = ptr->var_high();
-                    }
-                }
-                for (uint32_t i = low; i <= high; i++) {
-                    bits.emplace(i);
-                }
-            } else {
-                result = true;
-                for (uint32_t i = 0; i < port->width(); i++) bits.emplace(i);
-                break;
-            }
+    for (auto const& stmt : port->sources()) {
+        std::vector<VarBits> assigned;
+        get_assigned_bits(stmt->left(), assigned);
+        for (auto const& a : assigned) {
+            if (a.var != port.get()) continue;
+            for (uint32_t i = a.low; i <= a.high; i++) bits.emplace(i);
         }
     }
-    if (result && bits.size() != port->width()) result = false;
-    return result;
+    return bits.size() == port->width();
 }
 
 class GeneratorConnectivityVisitor : public IRVisitor {
-- 
2.43.0


From 57f2b63ccb7d7d7f8c13f093a7eebaec784bad34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:19 +0000
Subject: [PATCH 50/90] fix: zero-fill passes drive exactly the undriven bits,
 from the parent of the instance

---
 src/transform.cc | 105 +++++++++++++++--------------------------------
 1 file changed, 34 insertions(+), 71 deletions(-)

diff --git a/src/transform.cc b/src/transform.cc
index 02326da..9df3d64 100644
--- a/src/transform.cc
+++ b/src/transform.cc
@@ -74,13 +74,44 @@ void fix_assignment_type(Generator* top) {
     final_visitor.visit_root_s(top->ast_node());
 }
 
+// drive the bits of the variable that are not driven, with as few assignments as possible
+static void wire_zero(Var* var, const std::unordered_set<uint32_t>& bits, Generator* generator) {
+    auto const low = var->var_low();
+    auto const width = var->width();
+    auto driven = [&](uint32_t bit) { return bits.find(low + bit) != bits.end(); };
+    uint32_t num_driven = 0;
+    for (uint32_t i = 0; i < width; i++) num_driven += driven(i) ? 1 : 0;
+    if (num_driven == width) return;
+    bool const is_array =
+        var->size().size() > 1 || var->size().front() > 1 || var->explicit_array();
+    if (num_driven == 0 && (!is_array || var->is_packed())) {
+        auto stmt = var->assign(constant(0, width, var->is_signed()));
+        stmt->fn_name_ln.emplace_back(std::make_pair(__FILE__, __LINE__));
+        generator->add_stmt(stmt);
+    } else if (is_array) {
+        for (uint32_t i = 0; i < var->size().front(); i++)
+            wire_zero(&(*var)[i], bits, generator);
+    } else {
+        for (uint32_t i = 0; i < width; i++) {
+            if (driven(i)) continue;
+            auto const start = i;
+            while (i + 1 < width && !driven(i + 1)) i++;
+            auto& slice = var->operator[]({i, start});
+            auto stmt = slice.assign(constant(0, slice.width(), slice.is_signed()));
+            stmt->fn_name_ln.emplace_back(std::make_pair(__FILE__, __LINE__));
+            generator->add_stmt(stmt);
+        }
+    }
+}
+
 class StubGeneratorVisitor : public IRVisitor {
 public:
     void visit(Generator* generator) override {
         if (!generator->is_stub()) return;
         // to be a stub, there shouldn't be any extra variables
         if (generator->stmts_count() > 0) {
-            throw ::runtime_error(::format("{0} is marked as a stub but contains statements"));
+            throw ::runtime_error(
+                ::format("{0} is marked as a stub but contains statements", generator->name));
         }
 
         // has to be the exact same number of ports and vars, otherwise it means there are
@@ -107,7 +138,7 @@ public:
                         fmt::format("{0}.{1} is driven by a net, but {0} is declared as a stub",
                                     generator->name, port_name),
                         {port.get(), generator});
-                generator->add_stmt(port->assign(constant(0, port->width())));
+                wire_zero(port.get(), {}, generator);
             }
         }
     }
@@ -147,75 +178,7 @@ public:
                     std::unordered_set<uint32_t> bits;
                     bool is_connected = connected(port, bits);
                     if (!is_connected) {
-                        // notice that we can two choices here:
-                        // bit wiring and bulk wiring
-                        // we will implement bulk wiring here since the merge wiring pass is not
-                        // complete at the time of implementation
-                        // compute the set difference
-                        std::vector<uint32_t> diff_bits;
-                        for (uint32_t i = 0; i < port->width(); i++) {
-                            if (bits.find(i) == bits.end()) {
-                                // no need to sort the bits since we're going in order
-                                // so it's already sorted.
-                                diff_bits.emplace_back(i);
-                            }
-                        }
-                        // we will connect the size 1 easily
-                        // however, if it's an array and sliced in a weird way, there is nothing
-                        // easy we can do. for now we will throw an exception
-                        // maximum the slices range
-                        uint32_t low = diff_bits[0];
-                        uint32_t high = low;
-                        uint32_t pre_high = high;
-
-                        // lambda functions to handle the situation
-                        std::function<void(uint32_t, uint32_t)> wire_zero = [=](uint32_t h,
-                                                                                uint32_t l) {
-                            uint32_t ll, hh;
-                            if (port->size().size() == 1 && port->size().front() == 1) {
-                                ll = l;
-                                hh = h;
-                            } else {
-                                if (l % port->var_width() || (h + 1) % port->var_width()) {
-                                    // can't handle it right now
-                                    auto stmts = std::vector<Stmt*>();
-                                    stmts.reserve(port->sources().size());
-                                    for (auto const& stmt : port->sources()) {
-                                        stmts.emplace_back(stmt.get());
-                                    }
-                                    throw StmtException(
-                                        "Cannot fix up unpacked array due to irregular slicing",
-                                        stmts.begin(), stmts.end());
-                                }
-                                // compute the low and high
-                                ll = l / port->var_width();
-                                hh = h / port->var_width();
-                            }
-                            std::shared_ptr<AssignStmt> stmt;
-                            // a special case is that the port is not connected at all!
-                            if (ll == 0 && hh == (port->width() - 1)) {
-                                stmt = port->assign(constant(0, port->width(), port->is_signed()));
-                            } else {
-                                auto& slice = port->operator[]({hh, ll});
-                                stmt = slice.assign(constant(0, slice.width(), slice.is_signed()));
-                            }
-                            stmt->fn_name_ln.emplace_back(std::make_pair(__FILE__, __LINE__));
-                            gen->add_stmt(stmt);
-                        };
-
-                        for (auto const bit : diff_bits) {
-                            high = bit;
-                            if (high - pre_high > 1) {
-                                // there is a gap
-                                wire_zero(pre_high, low);
-                                low = high;
-                                pre_high = low;
-                            } else {
-                                pre_high = high;
-                            }
-                        }
-                        // the last bit
-                        wire_zero(high, low);
+                        wire_zero(port.get(), bits, generator);
                     }
                 }
             }
-- 
2.43.0


From 993246223a4e69a5c34f993b6785109f99b590b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:29 +0000
Subject: [PATCH 51/90] fix: latches are found for every bit and every path,
 also with a variable index

---
 src/analysis.cc | 235 +++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 182 insertions(+), 53 deletions(-)

diff --git a/src/analysis.cc b/src/analysis.cc
index f1be6ad..6efb454 100644
--- a/src/analysis.cc
+++ b/src/analysis.cc
@@ -469,6 +469,29 @@ void check_active_high(Generator* top) {
     visitor.visit_root_s(top);
 }
 
+// whether one of the cases is always taken
+static bool has_all_cases(SwitchStmt* stmt) {
+    auto const& cases = stmt->body();
+    if (cases.find(nullptr) != cases.end()) return true;
+    auto const width = stmt->target()->width();
+    auto value_of = [=](const Const* c) {
+        auto const value = static_cast<uint64_t>(c->value());
+        return width < 64 ? value & ((1ull << width) - 1) : value;
+    };
+    std::set<uint64_t> values;
+    for (auto const& iter : cases) values.emplace(value_of(iter.first.get()));
+    // if the target is an enum it's sufficient to cover all the enum values
+    if (stmt->target()->is_enum()) {
+        auto* enum_var = dynamic_cast<EnumType*>(stmt->target().get());
+        if (!enum_var) throw InternalException("Unable to resolve enum type");
+        auto const& enums = enum_var->enum_type()->values;
+        return std::all_of(enums.begin(), enums.end(), [&](auto const& iter) {
+            return values.find(value_of(iter.second.get())) != values.end();
+        });
+    }
+    return width < 64 && values.size() == (1ull << width);
+}
+
 bool check_stmt_condition(Stmt* stmt, const std::function<bool(Stmt*)>& cond,
                           bool check_unreachable = false, bool full_branch = true) {
     if (cond(stmt)) {
@@ -513,20 +536,10 @@ bool check_stmt_condition(Stmt* stmt, const std::function<bool(Stmt*)>& cond,
             else if (full_branch)
                 return false;
         }
-        // make sure default case is covered
-        // if there is no default case, all the cases have to be covered
-        // the only exception is that if the target is an enum and we've covered all it's enum case
-        uint32_t targeted_cases;
-        if (stmt_->target()->is_enum()) {
-            auto* enum_var = dynamic_cast<EnumType*>(stmt_->target().get());
-            if (!enum_var) throw InternalException("Unable to resolve enum type");
-            auto const* enum_def = enum_var->enum_type();
-            targeted_cases = enum_def->values.size();
-        } else {
-            targeted_cases = 1u << stmt_->target()->width();
-        }
         if (full_branch) {
-            return cases.find(nullptr) != cases.end() || found_case == targeted_cases;
+            // make sure default case is covered
+            // if there is no default case, all the cases have to be covered
+            return has_all_cases(stmt_);
         } else {
             return found_case > 0;
         }
@@ -608,7 +621,7 @@ public:
     }
 
 private:
-    bool static check_stmt_block(StmtBlock* stmt, Var* var, bool full_branch) {
+    bool static check_stmt_block(StmtBlock* stmt, const Var* var, bool full_branch) {
         return check_stmt_condition(
             stmt,
             [=](Stmt* s) -> bool {
@@ -621,17 +634,15 @@ private:
             false, full_branch);
     }
 
-    static void check_stmt_block(StmtBlock* stmt, Var* var, const std::vector<Stmt*>& stmts,
+    static void check_stmt_block(StmtBlock* stmt, const Var* var, const std::vector<Stmt*>& stmts,
                                  bool full_branch) {
         auto check = [=](Stmt* s) -> bool {
             if (s->type() == StatementType::Assign) {
                 auto* assign = reinterpret_cast<AssignStmt*>(s);
-                auto* left = assign->left();
-                if (left->type() == VarType::Slice) {
-                    auto* slice = reinterpret_cast<VarSlice*>(left);
-                    left = const_cast<Var*>(slice->get_var_root_parent());
-                }
-                return left == var;
+                std::vector<VarBits> assigned;
+                get_assigned_bits(assign->left(), assigned);
+                return std::any_of(assigned.begin(), assigned.end(),
+                                   [=](const VarBits& bits) { return bits.var == var; });
             } else if (s->type() == StatementType::Block) {
                 auto* block = reinterpret_cast<StmtBlock*>(s);
                 if (block->block_type() == StatementBlockType::Function) {
@@ -650,14 +661,149 @@ private:
     }
 
     void static check_combinational(CombinationalStmtBlock* stmt) {
-        AssignedVarVisitor visitor;
-        visitor.visit_root(stmt);
-        const auto& vars = visitor.assigned_vars();
-        for (auto const& iter : vars) {
-            check_stmt_block(stmt, iter.first, iter.second, true);
+        AssignedBits touched;
+        IterValues values;
+        auto const assigned = assigned_bits(stmt, values, touched);
+        for (auto const& [var, bits] : touched) {
+            auto const it = assigned.find(var);
+            if (it != assigned.end() && it->second.size() == bits.size()) continue;
+            // things goes wrong
+            // need to recover all the statements
+            AssignedVarVisitor visitor;
+            visitor.visit_root(stmt);
+            auto const& stmts = visitor.assigned_vars().at(var);
+            throw StmtException(::format("{0} will be inferred as latch", var->to_string()),
+                                stmts.begin(), stmts.end());
         }
     }
 
+    using AssignedBits = std::map<const Var*, std::set<uint32_t>>;
+    using IterValues = std::unordered_map<const Var*, int64_t>;
+
+    static void intersect(AssignedBits& bits, const AssignedBits& other) {
+        for (auto it = bits.begin(); it != bits.end();) {
+            auto const other_it = other.find(it->first);
+            if (other_it == other.end()) {
+                it = bits.erase(it);
+                continue;
+            }
+            std::set<uint32_t> result;
+            std::set_intersection(it->second.begin(), it->second.end(), other_it->second.begin(),
+                                  other_it->second.end(), std::inserter(result, result.begin()));
+            it->second = std::move(result);
+            it++;
+        }
+    }
+
+    static void merge(AssignedBits& bits, const AssignedBits& other) {
+        for (auto const& [var, b] : other) bits[var].insert(b.begin(), b.end());
+    }
+
+    enum class Selection { Known, Unknown, Loop };
+    struct SelectedBits {
+        uint32_t low;
+        uint32_t high;
+        // whether the bits are known. if it depends on a loop variable in a way that's not known,
+        // we assume that all the bits will be covered by the loop
+        Selection selection;
+    };
+
+    // the bits that are selected, given the values of the loop variables
+    static SelectedBits selected_bits(const Var* var, const IterValues& values) {
+        if (var->type() != VarType::Slice) return {var->var_low(), var->var_high(), Selection::Known};
+        auto const* slice = static_cast<const VarSlice*>(var);
+        auto result = selected_bits(slice->parent_var, values);
+        if (result.selection != Selection::Known) return result;
+        if (slice->sliced_by_var()) {
+            Var const* index = static_cast<const VarVarSlice*>(slice)->sliced_var();
+            bool const has_iter = IterVar::has_iter_var(index);
+            while (index->type() == VarType::BaseCasted)
+                index = static_cast<const VarCasted*>(index)->parent_var();
+            auto const it = values.find(index);
+            if (it == values.end()) {
+                result.selection = has_iter ? Selection::Loop : Selection::Unknown;
+                return result;
+            }
+            result.low += static_cast<uint32_t>(it->second) * slice->width();
+        } else {
+            result.low += slice->var_low() - slice->parent_var->var_low();
+        }
+        result.high = std::min(result.high, result.low + slice->width() - 1);
+        return result;
+    }
+
+    static void assigned_bits(const Var* left, const IterValues& values, AssignedBits& touched,
+                              AssignedBits& result) {
+        if (left->type() == VarType::Expression) {
+            auto const* expr = static_cast<const Expr*>(left);
+            if (expr->op == ExprOp::Concat) {
+                for (auto const* v : static_cast<const VarConcat*>(expr)->vars())
+                    assigned_bits(v, values, touched, result);
+            }
+            return;
+        }
+        auto const selected = selected_bits(left, values);
+        auto const* root = left->get_var_root_parent();
+        for (uint32_t i = selected.low; i <= selected.high; i++) {
+            touched[root].emplace(i);
+            if (selected.selection != Selection::Unknown) result[root].emplace(i);
+        }
+    }
+
+    // the bits that are assigned no matter which branches are taken. the bits that are assigned
+    // in any of the branches are put into touched
+    static AssignedBits assigned_bits(Stmt* stmt, IterValues& values, AssignedBits& touched) {
+        AssignedBits result;
+        switch (stmt->type()) {
+            case StatementType::Assign: {
+                assigned_bits(static_cast<AssignStmt*>(stmt)->left(), values, touched, result);
+                break;
+            }
+            case StatementType::Block: {
+                for (auto const& s : *static_cast<StmtBlock*>(stmt))
+                    merge(result, assigned_bits(s.get(), values, touched));
+                break;
+            }
+            case StatementType::If: {
+                auto* if_ = static_cast<IfStmt*>(stmt);
+                result = assigned_bits(if_->then_body().get(), values, touched);
+                intersect(result, assigned_bits(if_->else_body().get(), values, touched));
+                break;
+            }
+            case StatementType::Switch: {
+                auto* switch_ = static_cast<SwitchStmt*>(stmt);
+                bool first = true;
+                for (auto const& iter : switch_->body()) {
+                    auto const bits = assigned_bits(iter.second.get(), values, touched);
+                    if (first)
+                        result = bits;
+                    else
+                        intersect(result, bits);
+                    first = false;
+                }
+                if (!has_all_cases(switch_)) result.clear();
+                break;
+            }
+            case StatementType::For: {
+                auto* for_ = static_cast<ForStmt*>(stmt);
+                auto const* iter = for_->get_iter_var().get();
+                auto const step = for_->step();
+                for (auto i = for_->start(); step > 0 ? i < for_->end() : i > for_->end();
+                     i += step) {
+                    values[iter] = i;
+                    merge(result, assigned_bits(for_->get_loop_body().get(), values, touched));
+                    if (step == 0) break;
+                }
+                values.erase(iter);
+                break;
+            }
+            default: {
+                // nothing is assigned
+            }
+        }
+        return result;
+    }
+
     void static check_sequential(SequentialStmtBlock* stmt) {
         auto const& conditions = stmt->get_event_controls();
         // we care about non-clock
@@ -687,49 +833,32 @@ private:
     public:
         explicit IfVisitor(Var* var) : var_(var) {}
         void visit(IfStmt* stmt) override {
-            if (has_var(stmt->predicate().get(), var_)) ifs_.emplace(stmt);
+            std::vector<VarBits> read;
+            get_read_bits(stmt->predicate().get(), read);
+            if (std::any_of(read.begin(), read.end(),
+                            [this](const VarBits& bits) { return bits.var == var_; }))
+                ifs_.emplace(stmt);
         }
         const std::unordered_set<IfStmt*>& ifs() const { return ifs_; }
 
     private:
         Var* var_;
         std::unordered_set<IfStmt*> ifs_;
-
-        bool static has_var(Var* var, Var* target) {
-            if (var->type() == VarType::Expression) {
-                auto* expr = var->as<Expr>().get();
-                bool left = has_var(expr->left, target);
-                bool right = expr->right ? has_var(expr->right, target) : false;
-                return left || right;
-            } else {
-                if (var->type() == VarType::Slice) {
-                    auto* slice = reinterpret_cast<VarSlice*>(var);
-                    var = const_cast<Var*>(slice->get_var_root_parent());
-                }
-                return var == target;
-            }
-        }
     };
 
     class AssignedVarVisitor : public IRVisitor {
     public:
         void visit(AssignStmt* stmt) override {
-            auto* left = stmt->left();
-            if (left->type() == VarType::Slice) {
-                auto* slice = reinterpret_cast<VarSlice*>(left);
-                if (slice->sliced_by_var()) {
-                    return;
-                }
-                left = const_cast<Var*>(slice->get_var_root_parent());
-            }
-            assigned_vars_[left].emplace_back(stmt);
+            std::vector<VarBits> assigned;
+            get_assigned_bits(stmt->left(), assigned);
+            for (auto const& bits : assigned) assigned_vars_[bits.var].emplace_back(stmt);
         }
-        const std::unordered_map<Var*, std::vector<Stmt*>>& assigned_vars() const {
+        const std::unordered_map<const Var*, std::vector<Stmt*>>& assigned_vars() const {
             return assigned_vars_;
         }
 
     private:
-        std::unordered_map<Var*, std::vector<Stmt*>> assigned_vars_;
+        std::unordered_map<const Var*, std::vector<Stmt*>> assigned_vars_;
     };
 };
 
-- 
2.43.0


From c31b102ec41d3d1848f50fc140ed44a01d98d5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:58 +0000
Subject: [PATCH 52/90] fix: reset and sensitivity errors are reported with the
 right message and statement

---
 src/analysis.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/analysis.cc b/src/analysis.cc
index 6efb454..8d66dfd 100644
--- a/src/analysis.cc
+++ b/src/analysis.cc
@@ -442,7 +442,7 @@ public:
                         }
                     } else {
                         reset_map_.emplace(std::make_pair(port, reset_high));
-                        reset_map_.emplace(std::make_pair(port, stmt));
+                        reset_stmt_.emplace(std::make_pair(port, stmt));
                     }
                 } else if (port->port_type() == PortType::Reset) {
                     throw VarException(
@@ -1693,7 +1693,7 @@ class SensitivityVisitor : public IRVisitor {
                 if (var_casted->cast_type() != VarCastType::Clock &&
                     var_casted->cast_type() != VarCastType::AsyncReset) {
                     throw StmtException(::format("Only Clock and AsyncReset allowed in "
-                                                 "sensitivity list. Please use cast() to cast {0}}",
+                                                 "sensitivity list. Please use cast() to cast {0}",
                                                  var->to_string()),
                                         {stmt, var});
                 }
-- 
2.43.0


From 7c309615af87bd4363de93ad0bdfdcb79440a36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:51 +0000
Subject: [PATCH 53/90] fix: both kinds of assignments in a latch are rejected

---
 src/transform.cc | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/transform.cc b/src/transform.cc
index 9df3d64..92fbdfc 100644
--- a/src/transform.cc
+++ b/src/transform.cc
@@ -56,12 +56,31 @@ class AssignmentTypeBlockVisitor : public IRVisitor {
         visitor.visit_root(block->ast_node());
     }
 
+    void visit(LatchStmtBlock* block) override {
+        auto* parent = block->generator_parent();
+        if (parent && (parent->is_cloned() || parent->external())) return;
+        // either type can be used in a latch, but they cannot be mixed
+        ExplicitTypeVisitor types;
+        types.visit_root(block->ast_node());
+        AssignmentTypeVisitor visitor(types.type, true);
+        visitor.visit_root(block->ast_node());
+    }
+
     void visit(FunctionStmtBlock* block) override {
         auto* parent = block->generator_parent();
         if (parent && (parent->is_cloned() || parent->external())) return;
         AssignmentTypeVisitor visitor(AssignmentType::Blocking, true);
         visitor.visit_root(block->ast_node());
     }
+
+    class ExplicitTypeVisitor : public IRVisitor {
+    public:
+        void visit(AssignStmt* stmt) override {
+            if (stmt->assign_type() == AssignmentType::NonBlocking)
+                type = AssignmentType::NonBlocking;
+        }
+        AssignmentType type = AssignmentType::Blocking;
+    };
 };
 
 void fix_assignment_type(Generator* top) {
-- 
2.43.0


From 963722a4d9e05d5de6f99bf43ed3c81cf29cc797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:51 +0000
Subject: [PATCH 54/90] fix: mixed assignments are found through concatenations

---
 src/analysis.cc | 6 +++++-
 src/stmt.hh     | 2 ++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/analysis.cc b/src/analysis.cc
index 8d66dfd..19d5485 100644
--- a/src/analysis.cc
+++ b/src/analysis.cc
@@ -221,7 +221,11 @@ private:
         auto const& var = generator->get_var(name);
         AssignmentType type = AssignmentType::Undefined;
         for (auto const& stmt : var->sources()) {
-            if (stmt->left()->get_var_root_parent() != var.get()) continue;
+            std::vector<VarBits> assigned;
+            get_assigned_bits(stmt->left(), assigned);
+            if (std::none_of(assigned.begin(), assigned.end(),
+                             [&](const VarBits& bits) { return bits.var == var.get(); }))
+                continue;
             if (type == AssignmentType ::Undefined)
                 type = stmt->assign_type();
             else if (type != stmt->assign_type()) {
diff --git a/src/stmt.hh b/src/stmt.hh
index 6d1fcd7..6c875e1 100644
--- a/src/stmt.hh
+++ b/src/stmt.hh
@@ -358,6 +358,8 @@ class LatchStmtBlock : public StmtBlock {
 public:
     LatchStmtBlock() : StmtBlock(StatementBlockType::Latch) {}
 
+    void accept(IRVisitor *visitor) override { visitor->visit(this); }
+
     std::shared_ptr<Stmt> clone() const override;
 };
 
-- 
2.43.0


From fbb915c4f6476a52c8a9b8d94332a01182409783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:41 +0000
Subject: [PATCH 55/90] fix: an element of an unpacked array selected by a
 variable is a vector

---
 src/expr.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/expr.cc b/src/expr.cc
index ad11e6e..adc2652 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -667,12 +667,15 @@ VarVarSlice::VarVarSlice(kratos::Var *parent, kratos::Var *slice)
             required_width = clog2(parent->width());
     } else {
         var_width_ = parent->var_width();
-        is_packed_ = parent->is_packed();
         // peel one layer
-        if (parent->size().size() > 1)
+        if (parent->size().size() > 1) {
+            is_packed_ = parent->is_packed();
             size_ = std::vector<uint32_t>(parent->size().begin() + 1, parent->size().end());
-        else
+        } else {
+            // an element is a vector
+            is_packed_ = true;
             size_ = {1};
+        }
         var_high_ = parent->var_high();
         var_low_ = parent->var_low();
         // we need to compute the clog2 here
-- 
2.43.0


From b9b9b1d411c31cd64508334571a6dea5175ed8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:04 +0000
Subject: [PATCH 56/90] fix: concatenations, repetitions and comparisons of
 arrays are vectors, concatenations are unsigned

---
 src/expr.cc | 14 +++++++++++++-
 src/expr.hh |  2 ++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/expr.cc b/src/expr.cc
index adc2652..6bbdac3 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -1316,10 +1316,11 @@ std::string VarConcat::handle_name(kratos::Generator *scope) const {
 
 VarConcat::VarConcat(const std::shared_ptr<VarConcat> &first, const std::shared_ptr<Var> &second)
     : Expr(first.get(), second.get()) {
-    if (first->is_signed_ != second->is_signed())
+    if (first->vars_.back()->is_signed() != second->is_signed())
         throw VarException(
             ::format("{0} is signed but {1} is not", first->to_string(), second->to_string()),
             {first.get(), second.get()});
+    set_type();
     vars_ = std::vector<Var *>(first->vars_.begin(), first->vars_.end());
     vars_.emplace_back(second.get());
     var_width_ = first->width() + second->width();
@@ -1332,11 +1333,18 @@ VarConcat::VarConcat(const std::shared_ptr<Var> &first, const std::shared_ptr<Va
         throw VarException(
             ::format("{0} is signed but {1} is not", first->to_string(), second->to_string()),
             {first.get(), second.get()});
+    set_type();
     vars_ = {first.get(), second.get()};
     var_width_ = first->width() + second->width();
     op = ExprOp::Concat;
 }
 
+void VarConcat::set_type() {
+    // a concatenation is an unsigned vector, whatever its operands are
+    is_signed_ = false;
+    size_ = {1};
+}
+
 VarConcat &VarConcat::concat(kratos::Var &var) {
     auto result = std::make_shared<VarConcat>(as<VarConcat>(), var.shared_from_this());
     // add it to the first one
@@ -1411,6 +1419,8 @@ VarDuplicated::VarDuplicated(Var *var, uint32_t count) : Expr(ExprOp::Duplicate,
     right = &c;
     // compute width
     var_width_ = count * var->width();
+    size_ = {1};
+    is_signed_ = false;
 }
 
 VarDuplicated::VarDuplicated(Var *var, const std::shared_ptr<Const> &count)
@@ -1418,6 +1428,8 @@ VarDuplicated::VarDuplicated(Var *var, const std::shared_ptr<Const> &count)
     right = count.get();
     // compute width
     var_width_ = static_cast<uint32_t>(count->value()) * var->width();
+    size_ = {1};
+    is_signed_ = false;
 }
 
 uint32_t VarDuplicated::width() const {
diff --git a/src/expr.hh b/src/expr.hh
index ccb175c..8ae317f 100644
--- a/src/expr.hh
+++ b/src/expr.hh
@@ -696,6 +696,8 @@ public:
 
 private:
     std::vector<Var *> vars_;
+
+    void set_type();
 };
 
 struct VarExtend : public Expr {
-- 
2.43.0


From 35c434dcc23b23de56023a104e182deab8a0eecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:11 +0000
Subject: [PATCH 57/90] fix: the range of an element selected by a variable in
 a slice lies in the slice

---
 src/expr.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/expr.cc b/src/expr.cc
index 6bbdac3..eca492f 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -661,6 +661,10 @@ VarVarSlice::VarVarSlice(kratos::Var *parent, kratos::Var *slice)
         // potentially cover all the bits
         var_high_ = parent->width() - 1;
         var_low_ = 0;
+        if (parent->type() == VarType::Slice) {
+            var_high_ = parent->var_high();
+            var_low_ = parent->var_low();
+        }
         if (parent->width_param())
             required_width = Simulator::static_evaluate_expr(parent->width_param());
         else
-- 
2.43.0


From a2bf4b036df3dcd478e6120976d3f723a8e5f4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:11 +0000
Subject: [PATCH 58/90] fix: a cast of an array has the width of the array, a
 resize keeps the sign

---
 src/expr.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/expr.cc b/src/expr.cc
index eca492f..f164439 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -1029,11 +1029,14 @@ std::unordered_set<std::shared_ptr<Const>> Const::consts_ = {};
 std::shared_ptr<Generator> Const::const_generator_ = nullptr;
 
 VarCasted::VarCasted(Var *parent, VarCastType cast_type)
-    : Var(parent->generator(), "", parent->width(), parent->size(), false, parent->type()),
+    : Var(parent->generator(), "", parent->var_width(), parent->size(), false, parent->type()),
       parent_var_(parent),
       cast_type_(cast_type) {
     type_ = VarType::BaseCasted;
-    if (cast_type_ == VarCastType::Signed) {
+    is_packed_ = parent->is_packed();
+    if (cast_type_ == VarCastType::Resize) {
+        is_signed_ = parent->is_signed();
+    } else if (cast_type_ == VarCastType::Signed) {
         is_signed_ = true;
     } else if (cast_type_ == VarCastType::Unsigned) {
         is_signed_ = false;
@@ -1090,7 +1093,7 @@ std::string VarCasted::handle_name(kratos::Generator *scope) const {
 
 void VarCasted::set_target_width(uint32_t width) {
     // override the current width
-    if (parent_var_->size().size() > 1 && parent_var_->size().front() != 1) {
+    if (parent_var_->size().size() > 1 || parent_var_->size().front() != 1) {
         throw UserException("Width casting for array not supported");
     }
     if (cast_type_ == VarCastType::Resize) {
-- 
2.43.0


From 302ac228d94c901041332ddd2084c1650995aaf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:11 +0000
Subject: [PATCH 59/90] fix: operands are never truncated and constants are not
 resized for other users

---
 src/expr.cc | 57 ++++++++++++++++++++++++++++++++++++++++++++---------
 src/expr.hh |  4 ++++
 src/stmt.cc |  3 ++-
 3 files changed, 54 insertions(+), 10 deletions(-)

diff --git a/src/expr.cc b/src/expr.cc
index f164439..7c0032f 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -734,8 +734,15 @@ std::string VarVarSlice::to_string() const {
 }
 
 void resize_var(Expr *expr, uint32_t target_width, Var *var, bool left) {
-    if (var->type() == VarType::ConstValue) {
-        var->var_width() = target_width;
+    auto *const_ = var->type() == VarType::ConstValue ? dynamic_cast<Const *>(var) : nullptr;
+    if (const_) {
+        // the same constant may be used somewhere else
+        auto &resized = const_->resized(target_width);
+        if (left) {
+            expr->left = &resized;
+        } else {
+            expr->right = &resized;
+        }
     } else {
         auto new_var = var->cast(VarCastType::Resize);
         auto var_casted = new_var->as<VarCasted>();
@@ -764,9 +771,12 @@ Expr::Expr(ExprOp op, Var *left, Var *right)
         resize_var(this, left->width(), right, false);
     } else if (right != nullptr && left->width() != right->width()) {
         // see if we can resize
-        if (IterVar::safe_to_resize(left, right->width(), right->is_signed()) &&
-            (right->type() != VarType::ConstValue && right->type() != VarType::Parameter &&
-             right->type() != VarType::Iter)) {
+        bool right_literal = right->type() == VarType::ConstValue ||
+                             right->type() == VarType::Parameter || right->type() == VarType::Iter;
+        if (right_literal &&
+            IterVar::safe_to_resize(right, left->width(), left->is_signed())) {
+            resize_var(this, left->width(), right, false);
+        } else if (IterVar::safe_to_resize(left, right->width(), right->is_signed())) {
             resize_var(this, right->width(), left, true);
         } else if (IterVar::safe_to_resize(right, left->width(), left->is_signed())) {
             resize_var(this, left->width(), right, false);
@@ -779,10 +789,13 @@ Expr::Expr(ExprOp op, Var *left, Var *right)
     }
 
     // if it's a predicate/relational op, the width is one
-    if (is_relational_op(op) || is_reduction_op(op))
+    if (is_relational_op(op) || is_reduction_op(op)) {
         var_width_ = 1;
-    else
-        var_width_ = left->var_width();
+        size_ = {1};
+    } else {
+        // the operand may have been resized
+        var_width_ = this->left->var_width();
+    }
 
     if (is_relational_op(op) || is_reduction_op(op))
         is_signed_ = false;
@@ -1152,6 +1165,23 @@ void Const::set_value(const std::string &new_value) {
     set_value(converted_value);
 }
 
+bool Const::can_resize(uint32_t target_width) const {
+    if (target_width >= width()) return true;
+    // the actual bits of these constants are not known here
+    if (!hex_value_.empty() || is_enum()) return false;
+    return Const::is_legal(value_, target_width, is_signed()) == Const::ConstantLegal::Legal;
+}
+
+Const &Const::resized(uint32_t target_width) {
+    if (typeid(*this) != typeid(Const)) {
+        var_width_ = target_width;
+        return *this;
+    }
+    if (!hex_value_.empty())
+        return Const::constant(hex_value_, num_bits_, negative_, target_width, is_signed());
+    return Const::constant(value_, target_width, is_signed());
+}
+
 void Const::set_width(uint32_t target_width) {
     if (Const::is_legal(value_, target_width, is_signed()) != Const::ConstantLegal::Legal) {
         throw VarException(::format("Unable to set const {0} to width {1}", value_, target_width),
@@ -2252,7 +2282,7 @@ bool safe_to_resize_(Simulator &sim, const Var *var, uint32_t target_size, bool
         if (p->type() == VarType::Base || p->type() == VarType::PortIO)
             return var->width() <= target_size;
         else
-            return true;
+            return true;  // every value of the loop variables fits
     } else {
         // pop one
         auto *t = const_cast<IterVar *>(vars.front());
@@ -2295,6 +2325,15 @@ bool IterVar::safe_to_resize(const Var *var, uint32_t target_size, bool is_signe
         sim.set_i(v, v->max_value() - 1, false);
         queue.emplace(v);
     }
+    if (queue.empty()) {
+        // either a constant that fits, or something to be extended
+        auto const *const_ =
+            var->type() == VarType::ConstValue || var->type() == VarType::Parameter
+                ? dynamic_cast<const Const *>(var)
+                : nullptr;
+        if (const_) return const_->can_resize(target_size);
+        return var->width() <= target_size;
+    }
 
     auto result = safe_to_resize_(sim, var, target_size, is_signed, queue);
 
diff --git a/src/expr.hh b/src/expr.hh
index 8ae317f..a15f66c 100644
--- a/src/expr.hh
+++ b/src/expr.hh
@@ -437,6 +437,10 @@ public:
     void add_source(const std::shared_ptr<AssignStmt> &stmt) override;
     void add_sink(const std::shared_ptr<AssignStmt> &stmt) override;
     void set_width(uint32_t target_width);
+    // whether the value is kept when the width is changed
+    [[nodiscard]] bool can_resize(uint32_t target_width) const;
+    // the same constant with a different width
+    Const &resized(uint32_t target_width);
 
     std::string to_string() const override;
     std::string handle_name(bool) const override { return to_string(); }
diff --git a/src/stmt.cc b/src/stmt.cc
index e86c321..3b4dd17 100644
--- a/src/stmt.cc
+++ b/src/stmt.cc
@@ -151,7 +151,8 @@ AssignStmt::AssignStmt(const std::shared_ptr<Var> &left, std::shared_ptr<Var> ri
             if (Const::is_legal(const_->value(), left->width(), left->is_signed()) ==
                 Const::ConstantLegal::Legal) {
                 has_error = false;
-                const_->set_width(left->width());
+                // the same constant may be used somewhere else
+                right = const_->resized(left->width()).shared_from_this();
             }
         } else if (IterVar::has_iter_var(right.get())) {
             // need to resize it
-- 
2.43.0


From 241ae9103a5cdd57e40c7713a400741bc8e593a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:11 +0000
Subject: [PATCH 60/90] fix: a selection from a dimension of size one is in its
 range and selects the element

---
 src/expr.cc | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/expr.cc b/src/expr.cc
index 7c0032f..d0670e4 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -502,14 +502,18 @@ VarSlice::VarSlice(Var *parent, uint32_t high, uint32_t low)
     // we also need to honer the way the dimension the array is set
     auto diff = num_size_decrease(parent);
     auto diff_parent = true;
-    if (low == 0 && high == 0 && parent->type() == VarType::Slice) {
+    if (parent->type() == VarType::Slice) {
         auto p_d = num_size_decrease(reinterpret_cast<VarSlice *>(parent)->parent_var);
         diff_parent = diff != p_d;
     }
-    bool dropped_dim_size1 = low == 0 && high == 0 &&
-                             parent->get_var_root_parent()->size().size() > 1 &&
+    bool dropped_dim_size1 = parent->get_var_root_parent()->size().size() > 1 &&
                              parent->get_var_root_parent()->size().back() == 1 && diff_parent &&
                              diff == parent->get_var_root_parent()->size().size() - 1;
+    if (dropped_dim_size1 && (high != 0 || low != 0)) {
+        throw VarException(::format("{0} has only one element, only [0, 0] allowed",
+                                    parent->to_string()),
+                           {parent});
+    }
     if (parent->size().size() == 1 && parent->size().front() == 1 && parent->explicit_array()) {
         if (high != 0 || low != 0) {
             throw VarException(::format("Parent {0} is a scalar but used marked as an explicit "
@@ -653,7 +657,9 @@ VarVarSlice::VarVarSlice(kratos::Var *parent, kratos::Var *slice)
     // the connectivity check
     // TODO: fix this
     uint32_t required_width;
-    if (parent->size().size() == 1 && parent->size().front() == 1 && !parent->explicit_array()) {
+    // a remaining dimension of size one is selected as a whole
+    if (parent->size().size() == 1 && parent->size().front() == 1 && !parent->explicit_array() &&
+        var_width_ == 1) {
         // slice through the 1D array
         // so the width will be 1
         var_width_ = 1;
-- 
2.43.0


From d2ddbf5327354dd1ababf258179c2349e93c6877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:53 +0000
Subject: [PATCH 61/90] fix: Mealy outputs of unconditional and default
 transitions

---
 src/fsm.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/fsm.cc b/src/fsm.cc
index c1fc562..65721e6 100644
--- a/src/fsm.cc
+++ b/src/fsm.cc
@@ -277,7 +277,15 @@ void FSM::generate_state_transition(
                 // direct transition
                 auto stmt = get_next_state_stmt(enum_def, next_state, state, next_fsm_state,
                                                 state_name_mapping);
-                case_state_comb->add_switch_case(enum_def.get_enum(state_name), stmt);
+                std::vector<std::shared_ptr<Stmt>> stmts = {stmt};
+                // mealy machine need to add extra state transition outputs
+                std::shared_ptr<FunctionCallStmt> func_stmt = nullptr;
+                if (!moore_) {
+                    get_func_call_stmt(func_def, next_fsm_state, func_stmt);
+                    stmts.emplace_back(func_stmt);
+                }
+                add_debug_info_to_stmt(func_stmt, state);
+                case_state_comb->add_switch_case(enum_def.get_enum(state_name), stmts);
                 break;
             } else if (!cond) {
                 // we have a default case here
@@ -324,7 +332,7 @@ void FSM::generate_state_transition(
             std::shared_ptr<FunctionCallStmt> func_stmt = nullptr;
             if (!moore_) {
                 get_func_call_stmt(func_def, next_fsm_state, func_stmt);
-                if_->add_then_stmt(func_stmt);
+                if_->add_else_stmt(func_stmt);
             }
             add_debug_info_to_stmt(func_stmt, state);
         }
-- 
2.43.0


From 8e12d1ba622875a884b0adeac27d90faaca2ce8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:53 +0000
Subject: [PATCH 62/90] fix: a second unconditional transition is rejected

---
 src/fsm.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fsm.cc b/src/fsm.cc
index 65721e6..bc6d97d 100644
--- a/src/fsm.cc
+++ b/src/fsm.cc
@@ -681,6 +681,8 @@ void FSMState::next(const std::shared_ptr<FSMState>& next_state, const std::shar
     };
 
     if (!cond) {
+        if (find_match(nullptr))
+            throw UserException("Unconditional transition has been assign to " + name_);
         transitions_.emplace_back(std::make_pair(nullptr, state_ptr));
     } else {
         if (find_match(nullptr)) {
-- 
2.43.0


From 73447dac8e2377bdfbd726b2de4ea72c9261cc92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:53 +0000
Subject: [PATCH 63/90] fix: an active low reset that is not a port, message of
 a repeated output

---
 src/fsm.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fsm.cc b/src/fsm.cc
index bc6d97d..81ffc25 100644
--- a/src/fsm.cc
+++ b/src/fsm.cc
@@ -158,9 +158,9 @@ void FSM::realize() {
     auto seq = generator_->sequential();
     bool reset_high = true;
     seq->add_condition({EventEdgeType::Posedge, clk_});
-    if (reset_->type() == VarType::PortIO &&
-        ((reset_->as<Port>()->active_high() && !(*reset_->as<Port>()->active_high())) ||
-         !reset_high_)) {
+    if (!reset_high_ ||
+        (reset_->type() == VarType::PortIO &&
+         (reset_->as<Port>()->active_high() && !(*reset_->as<Port>()->active_high())))) {
         seq->add_condition({EventEdgeType::Negedge, reset_});
         reset_high = false;
     } else {
@@ -711,7 +711,7 @@ void FSMState::output(const std::shared_ptr<Var>& output_var,
     auto* output = output_var.get();
     auto* value = value_var.get();
     if (output_values_.find(output) != output_values_.end()) {
-        throw VarException(::format("{0} already has specified output"),
+        throw VarException(::format("{0} already has specified output", output->to_string()),
                            {output_values_.at(output)});
     }
     output_ordering_.emplace_back(output);
-- 
2.43.0


From 2e9e24a858bd8eeab5b976f982201204b15542df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:40 +0000
Subject: [PATCH 64/90] fix: a state that keeps every output does not get those
 of the default case

---
 src/fsm.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/fsm.cc b/src/fsm.cc
index 81ffc25..a9afeea 100644
--- a/src/fsm.cc
+++ b/src/fsm.cc
@@ -397,7 +397,14 @@ void FSM::generate_output(Enum& enum_def, EnumVar& current_state,
 
     // need to deal with fully specified case where default is the same as start state
     // also default case
-    if (!is_2_power(enum_def.values.size())) {
+    // a state that keeps every output has no case of its own and must not reach the default
+    bool has_keep_state = std::any_of(states.begin(), states.end(), [](FSMState* state) {
+        auto const& values = state->output_values();
+        return std::none_of(values.begin(), values.end(), [](auto const& iter) {
+            return iter.second && iter.second != iter.first;
+        });
+    });
+    if (!is_2_power(enum_def.values.size()) && !has_keep_state) {
         states.emplace_back(nullptr);
     }
 
-- 
2.43.0


From eaf987c10023d89da084346393b66a2dd4ecadc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:05 +0000
Subject: [PATCH 65/90] fix: unassign removes the statement from where it is
 and from all its variables

---
 src/expr.cc | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/expr.cc b/src/expr.cc
index d0670e4..bce3744 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -955,12 +955,9 @@ std::shared_ptr<AssignStmt> Var::assign_(const std::shared_ptr<Var> &var, Assign
 }
 
 void Var::unassign(const std::shared_ptr<AssignStmt> &stmt) {
-    // we need to take care of the slices
-    stmt->right()->sinks_.erase(stmt);
-    sources_.erase(stmt);
-    // erase from parent if any
-    // TODO: fix this will proper parent
-    generator()->remove_stmt(stmt);
+    // it leaves the place it is in and the variables it was registered with
+    stmt->remove_from_parent();
+    stmt->clear();
 }
 
 Const::Const(Generator *generator, int64_t value, uint32_t width, bool is_signed)
-- 
2.43.0


From bf8007ba49e7d029efe3adacbcf707903133d0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:05 +0000
Subject: [PATCH 66/90] fix: a switch statement that is cleared and added again
 is a load of its target

---
 src/stmt.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/stmt.cc b/src/stmt.cc
index 3b4dd17..3b954c2 100644
--- a/src/stmt.cc
+++ b/src/stmt.cc
@@ -554,6 +554,7 @@ void SwitchStmt::set_target(const std::shared_ptr<Var> &target) {
 
 void SwitchStmt::set_parent(IRNode *parent) {
     Stmt::set_parent(parent);
+    target_stmt_->set_parent(this);
     for (auto &iter : body_) {
         iter.second->set_parent(this);
     }
-- 
2.43.0


From a758bc213daef2ea3bde23442b569e8394a7ff64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:05 +0000
Subject: [PATCH 67/90] fix: an unwired assignment can be added again

---
 src/generator.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/generator.cc b/src/generator.cc
index 8233de9..0fccd02 100644
--- a/src/generator.cc
+++ b/src/generator.cc
@@ -1013,9 +1013,8 @@ void Generator::unwire(Var &var1, Var &var2) {
     }
     if (target) {
         auto assign_stmt = target->as<AssignStmt>();
-        assign_stmt->left()->remove_source(assign_stmt);
-        assign_stmt->right()->remove_sink(assign_stmt);
         remove_stmt(target);
+        assign_stmt->clear();
     }
 }
 
-- 
2.43.0


From 35f79ee033543f26067053e215ea6b3f966e0e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:27 +0000
Subject: [PATCH 68/90] fix: the enable condition of a default case

---
 src/analysis.cc | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/analysis.cc b/src/analysis.cc
index 19d5485..a2a8ace 100644
--- a/src/analysis.cc
+++ b/src/analysis.cc
@@ -1161,8 +1161,8 @@ private:
                 throw StmtException("Incorrect statement block stage", {stmt});
             }
             if (!expr) {
-                // it's the default one. we nor them together
-                std::shared_ptr<Var> or_;
+                // it's the default one. none of the others matches
+                std::shared_ptr<Var> none;
                 std::vector<std::shared_ptr<Const>> conditions;
                 conditions.reserve(body.size());
                 for (auto const& [cond, stmt_blk] : body) {
@@ -1175,13 +1175,13 @@ private:
                     [](const std::shared_ptr<Const>& left, const std::shared_ptr<Const>& right) {
                         return left->value() < right->value();
                     });
-                or_ = conditions[0];
-                if (conditions.size() > 1) {
-                    for (uint64_t i = 1; i < conditions.size(); i++) {
-                        or_ = or_->operator||(*conditions[i]).shared_from_this();
-                    }
+                for (auto const& condition : conditions) {
+                    auto ne = switch_->target()->operator!=(*condition).shared_from_this();
+                    none = none ? none->operator&&(*ne).shared_from_this() : ne;
                 }
-                expr = (switch_->target()->operator!=(*or_)).shared_from_this();
+                // a switch with only a default always executes it
+                if (!none) return get_cond(parent_stmt);
+                expr = none;
             }
         } else {
             return get_cond(parent_stmt);
-- 
2.43.0


From b1c02375f14028386a3062dd4923f4592a5d740b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:35 +0000
Subject: [PATCH 69/90] fix: coverage follows switch statements

---
 src/fault.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/fault.cc b/src/fault.cc
index da6928b..a24c680 100644
--- a/src/fault.cc
+++ b/src/fault.cc
@@ -119,6 +119,15 @@ void compute_hit_stmts(Simulator *state, std::unordered_set<Stmt *> &result, Stm
         } else {
             compute_hit_stmts(state, result, if_->else_body().get());
         }
+    } else if (stmt->type() == StatementType::Switch) {
+        auto *switch_ = cast<SwitchStmt>(stmt);
+        auto val = state->get(switch_->target().get());
+        StmtBlock *hit = nullptr;
+        for (auto const &[cond, body] : switch_->body()) {
+            auto case_ = cond ? state->get(cond.get()) : std::nullopt;
+            if (cond ? (val && case_ && *val == *case_) : !hit) hit = body.get();
+        }
+        if (hit) compute_hit_stmts(state, result, hit);
     } else if (stmt->type() == StatementType::Block) {
         auto *block = cast<StmtBlock>(stmt);
         // normal sequential block and combinational block always gets executed
-- 
2.43.0


From 30d7e4c1202167e875675712c66185d9d740dd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:53 +0000
Subject: [PATCH 70/90] fix: the index of a dynamic slice has its own handle

---
 src/expr.cc | 22 ++++++++++++++++++++++
 src/expr.hh |  4 ++++
 2 files changed, 26 insertions(+)

diff --git a/src/expr.cc b/src/expr.cc
index bce3744..b4f3710 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -596,6 +596,15 @@ std::string VarSlice::to_string() const {
     }
 }
 
+std::string VarSlice::handle_name(bool ignore_top) const {
+    return parent_var->handle_name(ignore_top) +
+           to_string().substr(parent_var->to_string().size());
+}
+
+std::string VarSlice::handle_name(kratos::Generator *scope) const {
+    return parent_var->handle_name(scope) + to_string().substr(parent_var->to_string().size());
+}
+
 const Var *VarSlice::get_var_root_parent() const {
     Var *parent = parent_var;
     while (parent->type() == VarType::Slice) {
@@ -739,6 +748,19 @@ std::string VarVarSlice::to_string() const {
     return ::format("{0}[{1}]", parent_var->to_string(), sliced_var_->to_string());
 }
 
+std::string VarVarSlice::handle_name(bool ignore_top) const {
+    // the index may belong to another generator
+    return ::format("{0}[{1}]", parent_var->handle_name(ignore_top),
+                    IterVar::has_iter_var(sliced_var_) ? sliced_var_->to_string()
+                                                       : sliced_var_->handle_name(ignore_top));
+}
+
+std::string VarVarSlice::handle_name(kratos::Generator *scope) const {
+    return ::format("{0}[{1}]", parent_var->handle_name(scope),
+                    IterVar::has_iter_var(sliced_var_) ? sliced_var_->to_string()
+                                                       : sliced_var_->handle_name(scope));
+}
+
 void resize_var(Expr *expr, uint32_t target_width, Var *var, bool left) {
     auto *const_ = var->type() == VarType::ConstValue ? dynamic_cast<Const *>(var) : nullptr;
     if (const_) {
diff --git a/src/expr.hh b/src/expr.hh
index a15f66c..d70a72d 100644
--- a/src/expr.hh
+++ b/src/expr.hh
@@ -364,6 +364,8 @@ public:
     void accept(IRVisitor *visitor) override { visitor->visit(this); }
 
     std::string to_string() const override;
+    std::string handle_name(bool ignore_top) const override;
+    std::string handle_name(Generator *scope) const override;
 
     uint32_t var_high() const override { return var_high_; }
     uint32_t var_low() const override { return var_low_; }
@@ -407,6 +409,8 @@ public:
     VarVarSlice(Var *parent, Var *slice);
 
     std::string to_string() const override;
+    std::string handle_name(bool ignore_top) const override;
+    std::string handle_name(Generator *scope) const override;
 
     void add_sink(const std::shared_ptr<AssignStmt> &stmt) override;
     void add_source(const std::shared_ptr<AssignStmt> &stmt) override;
-- 
2.43.0


From 03205de583ee38a2b361ae0d6f19e62083227a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:53 +0000
Subject: [PATCH 71/90] fix: signed constants and nested conditions in
 hierarchical names

---
 src/expr.cc | 47 ++++++++++++++++++++++++++++-------------------
 1 file changed, 28 insertions(+), 19 deletions(-)

diff --git a/src/expr.cc b/src/expr.cc
index b4f3710..97931e5 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -1455,8 +1455,7 @@ void VarExtend::replace_var(const std::shared_ptr<Var> &target, const std::share
 
 // constants are printed as unsigned literals, which turns the whole expression they are used in into
 // an unsigned one. mark the signed ones if they are part of an expression
-static std::string operand_to_string(const Var *var) {
-    auto result = var->to_string();
+static std::string operand_to_string(const Var *var, std::string result) {
     if (var->type() == VarType::ConstValue && var->is_signed()) {
         auto pos = result.find("'h");
         if (pos != std::string::npos) result.insert(pos + 1, "s");
@@ -1464,16 +1463,22 @@ static std::string operand_to_string(const Var *var) {
     return result;
 }
 
+static std::string operand_to_string(const Var *var) {
+    return operand_to_string(var, var->to_string());
+}
+
 std::string VarExtend::to_string() const {
     return ::format("{0}'({1})", width(), operand_to_string(parent_));
 }
 
 std::string VarExtend::handle_name(bool ignore_top) const {
-    return ::format("{0}'({1})", width(), parent_->handle_name(ignore_top));
+    return ::format("{0}'({1})", width(),
+                    operand_to_string(parent_, parent_->handle_name(ignore_top)));
 }
 
 std::string VarExtend::handle_name(kratos::Generator *scope) const {
-    return ::format("{0}'({1})", width(), parent_->handle_name(scope));
+    return ::format("{0}'({1})", width(),
+                    operand_to_string(parent_, parent_->handle_name(scope)));
 }
 
 VarDuplicated::VarDuplicated(Var *var, uint32_t count) : Expr(ExprOp::Duplicate, var, nullptr) {
@@ -1595,18 +1600,18 @@ std::string inline expr_to_string(const Expr *expr, bool is_top, bool use_handle
     auto left_str = left->type() == VarType::Expression
                         ? expr_to_string(left->as<Expr>().get(), is_same_level(expr, left, true),
                                          use_handle, ignore_top, scope)
-                        : (use_handle ? left->handle_name(ignore_top)
-                           : scope    ? left->handle_name(scope)
-                                      : operand_to_string(left));
+                        : operand_to_string(left, use_handle ? left->handle_name(ignore_top)
+                                                  : scope    ? left->handle_name(scope)
+                                                             : left->to_string());
 
     if (right != nullptr) {
         auto right_str =
             right->type() == VarType::Expression
                 ? expr_to_string(right->as<Expr>().get(), is_same_level(expr, right, false),
                                  use_handle, ignore_top, scope)
-                : (use_handle ? right->handle_name(ignore_top)
-                   : scope    ? right->handle_name(scope)
-                              : operand_to_string(right));
+                : operand_to_string(right, use_handle ? right->handle_name(ignore_top)
+                                           : scope    ? right->handle_name(scope)
+                                                      : right->to_string());
         if (is_top)
             return ::format("{0} {1} {2}", left_str, ExprOpStr(expr->op), right_str);
         else
@@ -1954,22 +1959,26 @@ void ConditionalExpr::remove_sink(const std::shared_ptr<AssignStmt> &stmt) {
     right->remove_sink(stmt);
 }
 
+static std::string conditional_to_string(const ConditionalExpr *expr, std::string cond_str,
+                                         const std::string &left, const std::string &right) {
+    if (expr->condition->type() == VarType::Expression) cond_str = ::format("({0})", cond_str);
+    return ::format("{0} ? {1}: {2}", cond_str, operand_to_string(expr->left, left),
+                    operand_to_string(expr->right, right));
+}
+
 std::string ConditionalExpr::to_string() const {
-    std::string cond_str = condition->type() == VarType::Expression
-                               ? ::format("({0})", condition->to_string())
-                               : condition->to_string();
-    return ::format("{0} ? {1}: {2}", cond_str, operand_to_string(left),
-                    operand_to_string(right));
+    return conditional_to_string(this, condition->to_string(), left->to_string(),
+                                 right->to_string());
 }
 
 std::string ConditionalExpr::handle_name(bool ignore_top) const {
-    return ::format("{0} ? {1}: {2}", condition->handle_name(ignore_top),
-                    left->handle_name(ignore_top), right->handle_name(ignore_top));
+    return conditional_to_string(this, condition->handle_name(ignore_top),
+                                 left->handle_name(ignore_top), right->handle_name(ignore_top));
 }
 
 std::string ConditionalExpr::handle_name(kratos::Generator *scope) const {
-    return ::format("{0} ? {1}: {2}", condition->handle_name(scope), left->handle_name(scope),
-                    right->handle_name(scope));
+    return conditional_to_string(this, condition->handle_name(scope), left->handle_name(scope),
+                                 right->handle_name(scope));
 }
 
 std::shared_ptr<ConditionalExpr> ConditionalExpr::create(const std::shared_ptr<Var> &condition,
-- 
2.43.0


From 16e63441128f8118947a4b876632a5bbe9651825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:01 +0000
Subject: [PATCH 72/90] fix: modules that differ are hashed differently

---
 src/hash.cc | 321 ++++++++++++++++++++++++++++++++++------------------
 1 file changed, 208 insertions(+), 113 deletions(-)

diff --git a/src/hash.cc b/src/hash.cc
index 0c2f66f..0a566a2 100644
--- a/src/hash.cc
+++ b/src/hash.cc
@@ -6,6 +6,7 @@
 #include "debug.hh"
 #include "generator.hh"
 #include "graph.hh"
+#include "interface.hh"
 #include "ir.hh"
 #include "pass.hh"
 #include "stmt.hh"
@@ -212,139 +213,236 @@ uint64_t hash_64_fnv1a(const void* key, uint64_t len) {
 
 }  // hash_64_fnv1a
 
-constexpr uint64_t shift_const(uint64_t value, uint8_t amount) {
-    return (value << amount) | (value >> (64u - amount));
-}
+// everything that makes up the definition of a module, as text: generators with the same text can
+// share the definition
+class ModuleSignature {
+public:
+    explicit ModuleSignature(Generator* root) : root_(root) {}
 
-static uint64_t hash_var(Var* var) {
-    if (!var) return 0;
-    if (var->type() == VarType::Expression) {
-        auto* expr = reinterpret_cast<Expr*>(var);
-        auto op_hash = (uint64_t)expr->op;
-        return hash_var(expr->left) ^ hash_var(expr->right) ^ op_hash;
-    } else if (var->type() == VarType::ConstValue) {
-        auto* c = reinterpret_cast<Const*>(var);
-        return static_cast<uint64_t>(c->value());
-    } else if (var->type() == VarType::Parameter) {
-        auto v = var->to_string();
-        return hash_64_fnv1a(v.c_str(), v.size());
-    } else {
-        auto v = var->to_string();
-        auto hash = hash_64_fnv1a(v.c_str(), v.size());
-        if (!var->parametrized()) {
-            hash ^= var->width();
+    uint64_t produce_hash() {
+        text_.clear();
+        add(root_->name);
+        for (auto const& name : root_->get_all_var_names()) add_var(root_->get_var(name).get());
+        for (auto const& [name, param] : root_->get_params()) add_param(name, param.get());
+        for (auto const& [name, ref] : root_->interfaces()) {
+            add(name);
+            add(ref->definition()->def_name());
         }
-        return hash;
+        for (auto const& [name, func] : root_->functions()) add_function(func.get());
+        for (auto const& child : root_->get_child_generators()) {
+            add(child->instance_name);
+            add_generator(child.get());
+            for (auto const& name : child->get_port_names()) add_connections(child->get_port(name));
+        }
+        for (uint64_t i = 0; i < root_->stmts_count(); i++) add_stmt(root_->get_stmt(i).get());
+        return XXHash64::hash(text_.c_str(), text_.size(), 0);
     }
-}
 
-class HashVisitor : public IRVisitor {
-public:
-    explicit HashVisitor(Generator* root) : root_(root) {
-        context_ = root->context();
-        // compute the hash for all vars
-        auto vars = root->get_vars();
-        var_hashes_.reserve(vars.size());
-        for (const auto& var : vars) {
-            uint64_t var_hash = hash_64_fnv1a(var.c_str(), var.size());
-            var_hashes_.emplace_back(var_hash);
+private:
+    Generator* root_;
+    std::string text_;
+
+    void add(const std::string& value) { text_.append(value).append(1, '\n'); }
+    void add(const char* value) { add(std::string(value)); }
+    void add(int64_t value) { add(std::to_string(value)); }
+
+    // a port of a child may have the same name as a variable of the generator
+    std::string name(Var* var) const {
+        try {
+            return var->handle_name(root_);
+        } catch (const VarException&) {
+            return var->to_string();
         }
     }
 
-    uint64_t produce_hash() {
-        // use generator name as a seed
-        uint64_t var_hash = hash_64_fnv1a(root_->name.c_str(), root_->name.size()) << 32u;
-        for (const uint64_t var : var_hashes_) var_hash = var_hash ^ var;
-        // use var_hash as a seed
-        // FIXME: do we really need to hash in chunks? or can we use xor to ignore the ordering
-        //  of the blocks?
-        uint64_t result =
-            XXHash64::hash(stmt_hashes_.data(), stmt_hashes_.size() * sizeof(uint64_t), var_hash);
-        return result;
+    void add(Var* var) {
+        if (!var) return add("");
+        add(name(var));
+        // constants do not carry their sign
+        add(var->is_signed() ? "signed" : "unsigned");
     }
 
-    void visit(AssignStmt* stmt) override {
-        uint64_t stmt_hash = hash_var(stmt->left()) ^ (shift(hash_var(stmt->right()), 1));
-        // based on level
-        stmt_hash = shift(stmt_hash, level);
-        stmt_hashes_.emplace_back(stmt_hash);
+    void add_generator(const Generator* generator) {
+        auto* context = root_->context();
+        // by requiring that the children are hashed first, we can have a lock-free implementation
+        if (context->has_hash(generator)) {
+            add(std::to_string(context->get_hash(generator)));
+        } else {
+            add(generator->name);
+        }
     }
 
-    void visit(IfStmt* stmt) override {
-        // magic number comes from here https://stackoverflow.com/a/4948967
-        // based on the requirements, warped shifting doesn't matter since it keeps
-        // the number of 0 and 1 the same. And I don't think the shifting will
-        // introduce any correlation either
-        constexpr uint64_t if_signature = shift_const(0x9e3779b97f4a7c16, 1);
-        auto var = stmt->predicate()->to_string();
-        uint64_t hash = hash_64_fnv1a(var.c_str(), var.size()) << level;
-        stmt_hashes_.emplace_back(if_signature ^ hash);
+    // the connections of an instance may not be in the list of statements any more
+    void add_connections(const std::shared_ptr<Port>& port) {
+        std::set<std::pair<std::string, std::string>> connections;
+        bool const is_input = port->port_direction() == PortDirection::In;
+        for (auto const& stmt : is_input ? port->sources() : port->sinks()) {
+            if (stmt->parent() && stmt->generator_parent() == root_)
+                connections.emplace(name(stmt->left()), name(stmt->right()));
+        }
+        add(port->name);
+        for (auto const& [left, right] : connections) {
+            add(left);
+            add(right);
+        }
     }
 
-    void visit(SwitchStmt* stmt) override {
-        constexpr uint64_t switch_signature = shift_const(0x9e3779b97f4a7c16, 2);
-        auto var = stmt->target()->to_string();
-        uint64_t hash = hash_64_fnv1a(var.c_str(), var.size()) << level;
-        stmt_hashes_.emplace_back(switch_signature ^ hash);
+    void add_var(Var* var) {
+        add(var->name);
+        add(static_cast<int64_t>(var->type()));
+        if (var->parametrized())
+            add(var->width_param()->to_string());
+        else
+            add(var->var_width());
+        for (auto i = 0u; i < var->size().size(); i++) {
+            if (auto* p = var->get_size_param(i))
+                add(p->to_string());
+            else
+                add(var->size()[i]);
+        }
+        add(var->raw_type_parametrized() ? var->get_raw_type_param()->to_string() : "");
+        for (auto const value : {var->is_signed(), var->is_packed(), var->explicit_array()}) add(value);
+        if (auto* port = dynamic_cast<Port*>(var)) {
+            add(static_cast<int64_t>(port->port_direction()));
+            add(static_cast<int64_t>(port->port_type()));
+        }
+        if (auto* enum_ = dynamic_cast<EnumType*>(var))
+            add(enum_->enum_type() ? enum_->enum_type()->name : "");
+        if (auto* struct_ = dynamic_cast<PackedInterface*>(var))
+            add(struct_->packed_struct()->struct_name);
     }
 
-    void visit(CombinationalStmtBlock*) override {
-        constexpr uint64_t comb_signature = shift_const(0x9e3779b97f4a7c16, 3);
-        stmt_hashes_.emplace_back(comb_signature << level);
+    void add_param(const std::string& name, Param* param) {
+        // the actual value is set at the instance
+        add(name);
+        add(static_cast<int64_t>(param->param_type()));
+        add(param->width());
+        add(param->is_signed());
+        if (param->get_initial_value()) add(*param->get_initial_value());
+        if (param->get_raw_str_initial_value()) add(*param->get_raw_str_initial_value());
+        if (param->param_type() == ParamType::Enum) add(param->enum_def()->name);
     }
 
-    void visit(SequentialStmtBlock* stmt) override {
-        std::string cond;
-        auto const& conditions = stmt->get_event_controls();
-        for (auto const& event_control : conditions) {
-            if (event_control.edge == EventEdgeType::Posedge)
-                cond.append("1" + event_control.var->to_string());
-            else
-                cond.append("0" + event_control.var->to_string());
+    void add_function(FunctionStmtBlock* func) {
+        add(func->function_name());
+        for (auto const& [name, port] : func->ports()) {
+            add_var(port.get());
+            auto const& ordering = func->port_ordering();
+            if (ordering.find(name) != ordering.end()) add(ordering.at(name));
         }
-        uint64_t hash = hash_64_fnv1a(cond.c_str(), cond.size()) << level;
-        constexpr uint64_t seq_signature = shift_const(0x9e3779b97f4a7c16, 3);
-        stmt_hashes_.emplace_back(hash ^ seq_signature);
-    }
-
-    void visit(ModuleInstantiationStmt* stmt) override {
-        // notice that we don't use any mechanism to lock the context's get hash or set hash
-        // it is the caller's responsibility to do prepare the calling sequence so that there
-        // won't be any race condition.
-        // by requiring this, we can have a lock-free implementation ready to scale
-        auto const* target = stmt->target();
-        if (!context_->has_hash(target)) {
-            throw std::runtime_error("Internal error: " + target->name + " doesn't have a hash");
+        if (func->function_handler()) add_var(func->function_handler().get());
+        if (func->is_dpi()) {
+            auto* dpi = static_cast<DPIFunctionStmtBlock*>(func);
+            add(dpi->return_width());
+            add(dpi->is_context());
+            add(dpi->is_pure());
         }
-        uint64_t target_hash = context_->get_hash(target);
-        constexpr uint64_t mod_signature = shift_const(0x9e3779b97f4a7c16, 4);
-        // we have assign stmts already computed the connections
-        stmt_hashes_.emplace_back(target_hash ^ mod_signature);
+        add_block(func);
     }
 
-    void visit(FunctionCallStmt* stmt) override {
-        // this is to hash the call args and func_def
-        auto func = stmt->func();
-        auto str = func->function_name();
-        auto const& var = stmt->var();
-        auto const& var_args = var->args();
-        // this is ordered map
-        for (auto const& iter : var_args) {
-            str.append(iter.second->to_string());
+    void add_block(StmtBlock* block) {
+        add("{");
+        if (block) {
+            for (auto const& stmt : *block) add_stmt(stmt.get());
         }
-        uint64_t hash = hash_64_fnv1a(str.c_str(), str.size()) << level;
-        constexpr uint64_t call_signature = shift_const(0x9e3779b97f4a7c16, 4);
-        stmt_hashes_.emplace_back(hash ^ call_signature);
+        add("}");
     }
 
-private:
-    std::vector<uint64_t> var_hashes_;
-    std::vector<uint64_t> stmt_hashes_;
-    Generator* root_;
-    Context* context_;
-
-    inline static uint64_t shift(uint64_t value, uint8_t amount) {
-        return (value << amount) | (value >> (64u - amount));
+    void add_stmt(Stmt* stmt) {
+        add(static_cast<int64_t>(stmt->type()));
+        switch (stmt->type()) {
+            case StatementType::Assign: {
+                auto* assign = static_cast<AssignStmt*>(stmt);
+                add(static_cast<int64_t>(assign->assign_type()));
+                add(assign->left());
+                add(assign->right());
+                if (auto const& delay = assign->get_delay()) {
+                    add(static_cast<int64_t>(delay->delay_side));
+                    add(static_cast<int64_t>(delay->delay));
+                }
+                break;
+            }
+            case StatementType::If: {
+                auto* if_ = static_cast<IfStmt*>(stmt);
+                add(if_->predicate().get());
+                add_block(if_->then_body().get());
+                add_block(if_->else_body().get());
+                break;
+            }
+            case StatementType::Switch: {
+                auto* switch_ = static_cast<SwitchStmt*>(stmt);
+                add(switch_->target().get());
+                std::vector<std::pair<Const*, ScopedStmtBlock*>> cases;
+                for (auto const& [value, block] : switch_->body())
+                    cases.emplace_back(value.get(), block.get());
+                std::sort(cases.begin(), cases.end(), [](auto const& left, auto const& right) {
+                    if (!left.first || !right.first) return left.first && !right.first;
+                    return left.first->value() < right.first->value();
+                });
+                for (auto const& [value, block] : cases) {
+                    add(value);
+                    add_block(block);
+                }
+                break;
+            }
+            case StatementType::For: {
+                auto* for_ = static_cast<ForStmt*>(stmt);
+                add(for_->get_iter_var()->to_string());
+                add(for_->start());
+                add(for_->end());
+                add(for_->step());
+                add_block(for_->get_loop_body().get());
+                break;
+            }
+            case StatementType::Block: {
+                auto* block = static_cast<StmtBlock*>(stmt);
+                add(static_cast<int64_t>(block->block_type()));
+                if (block->block_type() == StatementBlockType::Combinational) {
+                    add(static_cast<CombinationalStmtBlock*>(block)->is_general_purpose());
+                } else if (block->block_type() == StatementBlockType::Sequential) {
+                    auto* seq = static_cast<SequentialStmtBlock*>(block);
+                    for (auto const& control : seq->get_event_controls()) {
+                        add(static_cast<int64_t>(control.type));
+                        add(static_cast<int64_t>(control.delay));
+                        add(static_cast<int64_t>(control.edge));
+                        add(control.var);
+                    }
+                }
+                add_block(block);
+                break;
+            }
+            case StatementType::ModuleInstantiation: {
+                auto* inst = static_cast<ModuleInstantiationStmt*>(stmt);
+                add(inst->target()->instance_name);
+                add_generator(inst->target());
+                // ordered by address
+                std::map<std::string, Var*> mapping;
+                for (auto const& [port, var] : inst->port_mapping()) mapping[port->name] = var;
+                for (auto const& [name, var] : mapping) {
+                    add(name);
+                    add(var);
+                }
+                break;
+            }
+            case StatementType::FunctionalCall: {
+                auto* call = static_cast<FunctionCallStmt*>(stmt);
+                add(call->func()->function_name());
+                // this is ordered map
+                for (auto const& [name, arg] : call->var()->args()) {
+                    add(name);
+                    add(arg.get());
+                }
+                break;
+            }
+            case StatementType::Return:
+                add(static_cast<ReturnStmt*>(stmt)->value().get());
+                break;
+            case StatementType::RawString:
+                for (auto const& line : static_cast<RawStringStmt*>(stmt)->stmts()) add(line);
+                break;
+            default:
+                break;
+        }
     }
 };
 
@@ -353,10 +451,7 @@ uint64_t hash_generator(Generator* generator) {
     if (generator->context()->is_unique(generator)) {
         return hash_64_fnv1a(generator->name.c_str(), generator->name.size());
     }
-    // we use a visitor to compute all the hashes
-    HashVisitor hash_visitor(generator);
-    hash_visitor.visit_root(generator);
-    return hash_visitor.produce_hash();
+    return ModuleSignature(generator).produce_hash();
 }
 
 void hash_generator_src(Context* context, Generator* generator) {
-- 
2.43.0


From 5e49505916462e0d0901a6a61d81ebe636895da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:27 +0000
Subject: [PATCH 73/90] fix: children of other generators with the same
 instance name are not touched

---
 src/generator.cc | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/generator.cc b/src/generator.cc
index 0fccd02..5cd6149 100644
--- a/src/generator.cc
+++ b/src/generator.cc
@@ -403,14 +403,14 @@ IRNode *Generator::get_child(uint64_t index) {
 
 void Generator::add_child_generator(const std::string &instance_name_,
                                     const std::shared_ptr<Generator> &child) {
-    child->instance_name = instance_name_;
-    if (children_.find(child->instance_name) == children_.end()) {
+    if (children_.find(instance_name_) == children_.end()) {
+        child->instance_name = instance_name_;
         children_.emplace(child->instance_name, child);
         child->parent_generator_ = this;
         children_names_.emplace_back(child->instance_name);
     } else {
         throw GeneratorException(
-            ::format("{0} already exists  in {1}", child->instance_name, instance_name),
+            ::format("{0} already exists  in {1}", instance_name_, instance_name),
             {children_.at(instance_name_).get()});
     }
 }
@@ -437,7 +437,8 @@ Generator *Generator::get_child_generator(const std::string &instance_name_) {
 void Generator::remove_child_generator(const std::shared_ptr<Generator> &child) {
     auto child_name = child->instance_name;
     auto pos = std::find(children_names_.begin(), children_names_.end(), child_name);
-    if (pos != children_names_.end()) {
+    // could be a child of a different generator that has the same instance name
+    if (pos != children_names_.end() && has_child_generator(child)) {
         children_names_.erase(pos);
         children_.erase(child_name);
         children_comments_.erase(child_name);
@@ -479,7 +480,8 @@ std::vector<std::shared_ptr<Generator>> Generator::get_child_generators() {
 }
 
 bool Generator::has_child_generator(const std::shared_ptr<Generator> &child) {
-    return children_.find(child->instance_name) != children_.end();
+    auto it = children_.find(child->instance_name);
+    return it != children_.end() && it->second == child;
 }
 
 bool Generator::has_child_generator(const std::string &child_name) {
-- 
2.43.0


From f67a79345e3b2b2b1f008b961c73079fc2c52305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:01 +0000
Subject: [PATCH 74/90] fix: pipeline stages of unpacked output arrays

---
 src/optimize.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/optimize.cc b/src/optimize.cc
index 22a8a32..433e3ce 100644
--- a/src/optimize.cc
+++ b/src/optimize.cc
@@ -708,6 +708,8 @@ public:
                         generator->get_unique_variable_name(port_name, ::format("stage_{0}", i));
                     auto& var = generator->var(new_name, port->var_width(), port->size(),
                                                port->is_signed());
+                    var.set_explicit_array(port->explicit_array());
+                    var.set_is_packed(port->is_packed());
                     if (generator->debug)
                         var.fn_name_ln.emplace_back(std::make_pair(__FILE__, __LINE__));
                     vars[i] = var.shared_from_this();
-- 
2.43.0


From 748055f74951bfdb94b8af320ec44a30526bd6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:01 +0000
Subject: [PATCH 75/90] fix: outputs read inside a pipelined generator are not
 delayed

---
 src/optimize.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/optimize.cc b/src/optimize.cc
index 433e3ce..17353b3 100644
--- a/src/optimize.cc
+++ b/src/optimize.cc
@@ -714,8 +714,10 @@ public:
                         var.fn_name_ln.emplace_back(std::make_pair(__FILE__, __LINE__));
                     vars[i] = var.shared_from_this();
                 }
-                // move the source to the first stage
+                // move the source to the first stage, and whatever the generator itself reads from
+                // the port, so that its own state is not delayed
                 Var::move_src_to(port.get(), vars[0].get(), generator, false);
+                Var::move_sink_to(port.get(), vars[0].get(), generator, false);
                 // connect the stages together
                 for (uint32_t i = 0; i < num_stages - 1; i++) {
                     auto pre_stage = vars[i];
-- 
2.43.0


From 4d9bff806cca5bed20771824e408dbdd32ec3989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:53 +0000
Subject: [PATCH 76/90] fix: resets compared with constants are recognized as
 resets

---
 src/optimize.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/optimize.cc b/src/optimize.cc
index 17353b3..158e6a6 100644
--- a/src/optimize.cc
+++ b/src/optimize.cc
@@ -742,7 +742,10 @@ bool static has_port_type(Var* var, PortType type) {
         auto* expr = reinterpret_cast<Expr*>(var);
         auto l = has_port_type(expr->left, type);
         if (expr->right) {
+            // e.g. compared with a constant
+            if (expr->right->type() == VarType::ConstValue) return l;
             auto r = has_port_type(expr->right, type);
+            if (expr->left->type() == VarType::ConstValue) return r;
             return l && r;
         }
         return l;
-- 
2.43.0


From 0d16f1a94246a58445fcc779e811249744c3dc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:44 +0000
Subject: [PATCH 77/90] fix: an instance whose reset is already driven is not
 wired to the inserted reset

---
 src/optimize.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/optimize.cc b/src/optimize.cc
index 158e6a6..d0aa448 100644
--- a/src/optimize.cc
+++ b/src/optimize.cc
@@ -973,9 +973,9 @@ public:
                 if (sources.size() > 1) continue;
                 if (sources.size() == 1) {
                     auto* right = (*sources.begin())->right();
-                    if (right->type() == VarType::ConstValue) {
-                        child_port->clear_sources(true);
-                    }
+                    // already driven by something else
+                    if (right->type() != VarType::ConstValue) continue;
+                    child_port->clear_sources(true);
                 }
                 generator->wire(*child_port, *port);
             }
-- 
2.43.0


From a948c9a663c272546efd17cf0cebc2480dc2aac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:31 +0000
Subject: [PATCH 78/90] fix: statements next to an enabled one are enabled as
 well

---
 src/optimize.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/optimize.cc b/src/optimize.cc
index d0aa448..b59d33e 100644
--- a/src/optimize.cc
+++ b/src/optimize.cc
@@ -870,10 +870,12 @@ private:
     Generator* top_;
 
     bool has_clk_en_stmt(StmtBlock* block) const {
-        if (!block->empty()) {
+        // whatever follows the enabled statement is not enabled
+        if (block->size() == 1) {
             auto stmt = block->get_stmt(0);
             if (stmt->type() == StatementType::If) {
                 auto if_ = stmt->as<IfStmt>();
+                if (!if_->else_body()->empty()) return false;
                 auto cond = if_->predicate();
                 if (cond->type() == VarType::PortIO) {
                     auto p = cond->as<Port>();
-- 
2.43.0


From 7d6e68ef4fc4e67cbe0e91c0536930bbcc2324d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:07 +0000
Subject: [PATCH 79/90] fix: constants inside an instance do not move to its
 parent

---
 src/expr.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/expr.cc b/src/expr.cc
index 97931e5..4a57014 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -1222,7 +1222,11 @@ void Const::add_source(const std::shared_ptr<AssignStmt> &) {
 
 void Const::add_sink(const std::shared_ptr<AssignStmt> &stmt) {
     auto *left = stmt->left();
-    // if it's a port, we change the constant's generator to that of port
+    // if it's an input, we change the constant's generator to the one that drives the port
+    auto *root = const_cast<Var *>(left->get_var_root_parent());
+    if (root->type() != VarType::PortIO ||
+        reinterpret_cast<Port *>(root)->port_direction() == PortDirection::Out)
+        return;
     auto *generator = left->generator();
     if (!generator)
         throw StmtException(::format("Unable to find left hand side generator"), {stmt.get()});
-- 
2.43.0


From 901c409b1b2f1c94f68d1042bbf1719a80727e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:44 +0000
Subject: [PATCH 80/90] fix: clock enables are not inserted below generators
 that are not touched

---
 src/optimize.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/optimize.cc b/src/optimize.cc
index b59d33e..b7457ea 100644
--- a/src/optimize.cc
+++ b/src/optimize.cc
@@ -804,6 +804,8 @@ public:
         if (gen->external() || gen->is_stub()) return;
         auto* parent = gen->parent_generator();
         if (!parent || gen == top_) return;
+        // nothing reaches the instances of a generator that is not touched
+        if (!parent->has_port(clk_en_name_)) return;
 
         Port* clk_en;
         if (!gen->has_port(clk_en_name_)) {
@@ -836,6 +838,7 @@ public:
         if (has_don_touch(gen)) return;
         auto num_stmts = block->size();
         auto* generator = block->generator_parent();
+        if (!generator->has_port(clk_en_name_)) return;
         auto clk_en = generator->get_port(clk_en_name_);
         if (num_stmts > 0) {
             // we need to be careful about async reset logic
-- 
2.43.0


From b8830622915dba37f996a2c3f2c05956032c000c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:05 +0000
Subject: [PATCH 81/90] fix: renaming a variable keeps the port table and
 refuses a taken name

---
 src/generator.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/generator.cc b/src/generator.cc
index 5cd6149..41a5e1f 100644
--- a/src/generator.cc
+++ b/src/generator.cc
@@ -586,9 +586,13 @@ void Generator::remove_port(const std::string &port_name) {
 
 void Generator::rename_var(const std::string &old_name, const std::string &new_name) {
     auto var = get_var(old_name);
-    if (!var) return;
+    if (!var || old_name == new_name) return;
+    if (has_var(new_name))
+        throw VarException(::format("{0} already exists in {1}", new_name, name),
+                           {var.get(), vars_.at(new_name).get()});
     // Using C++17 to replace the key
     auto handle = vars_.extract(old_name);
+    if (ports_.erase(old_name)) ports_.emplace(new_name);
     handle.key() = new_name;
     // rename the var
     var->name = new_name;
-- 
2.43.0


From 2ee5558ee2529b27bcedb9015a15931d842364ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:05 +0000
Subject: [PATCH 82/90] fix: renamed memory ports are found under their new
 name

---
 src/lib.cc |  4 ++--
 src/lib.hh | 14 +++++++-------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/lib.cc b/src/lib.cc
index 6326170..97a9b48 100644
--- a/src/lib.cc
+++ b/src/lib.cc
@@ -110,7 +110,7 @@ SinglePortSRAM::SinglePortSRAM(kratos::Context *context, const std::string &stub
     // optional partial write
     if (partial_write_) {
         partial_write_mask_ =
-            port(PortDirection::In, partial_write_mask_name_, data_width_).as<Port>();
+            port(PortDirection::In, basis->partial_write_mask_name(), data_width_).as<Port>();
     }
 
     // memory select logic
@@ -154,7 +154,7 @@ SinglePortSRAM::SinglePortSRAM(kratos::Context *context, const std::string &stub
         add_stmt(gen->get_port(basis->input_data_name())->assign(input_data_));
         add_stmt(Q_array[i].assign(gen->get_port(basis->output_data_name())));
         if (partial_write_) {
-            add_stmt(gen->get_port(partial_write_mask_name())->assign(partial_write_mask_));
+            add_stmt(gen->get_port(basis->partial_write_mask_name())->assign(partial_write_mask_));
         }
     }
 }
diff --git a/src/lib.hh b/src/lib.hh
index 30cd422..2900a5c 100644
--- a/src/lib.hh
+++ b/src/lib.hh
@@ -17,7 +17,7 @@ public:
     uint16_t data_width() { return data_width_; }
 
     std::string clock_name() const { return clk_->name; }
-    void set_clock_name(const std::string &name) { clk_->name = name; }
+    void set_clock_name(const std::string &name) { rename_var(clk_->name, name); }
 
     [[nodiscard]] uint32_t capacity() const;
 
@@ -63,13 +63,13 @@ public:
     }
 
     // set names
-    void set_output_data_name(const std::string &name) { output_data_->name = name; }
-    void set_chip_enable_name(const std::string &name) { chip_enable_->name = name; }
-    void set_write_enable_name(const std::string &name) { write_enable_->name = name; }
-    void set_addr_name(const std::string &name) { addr_->name = name; }
-    void set_input_data_name(const std::string &name) { input_data_->name = name; }
+    void set_output_data_name(const std::string &name) { rename_var(output_data_->name, name); }
+    void set_chip_enable_name(const std::string &name) { rename_var(chip_enable_->name, name); }
+    void set_write_enable_name(const std::string &name) { rename_var(write_enable_->name, name); }
+    void set_addr_name(const std::string &name) { rename_var(addr_->name, name); }
+    void set_input_data_name(const std::string &name) { rename_var(input_data_->name, name); }
     void set_partial_write_mask_name(const std::string &name) {
-        if (partial_write_mask_) partial_write_mask_->name = name;
+        if (partial_write_mask_) rename_var(partial_write_mask_->name, name);
     }
 
     bool partial_write() const { return partial_write_; }
-- 
2.43.0


From b84b010f10e267bc52a023af7c257a590402ce3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:35 +0000
Subject: [PATCH 83/90] fix: capacity of a memory whose bank count is not a
 power of two

---
 src/lib.cc | 9 ++++++++-
 src/lib.hh | 2 ++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/lib.cc b/src/lib.cc
index 97a9b48..6b451bf 100644
--- a/src/lib.cc
+++ b/src/lib.cc
@@ -22,7 +22,9 @@ SRAM::SRAM(kratos::Context *context, const std::string &sram_name, uint16_t addr
     init_sram();
 }
 
-uint32_t SRAM::capacity() const { return (1u << addr_width_) * data_width_; }
+uint32_t SRAM::capacity() const {
+    return capacity_ ? capacity_ : (1u << addr_width_) * data_width_;
+}
 
 void SRAM::init_clock() {
     // clock
@@ -92,8 +94,13 @@ SinglePortSRAM::SinglePortSRAM(kratos::Context *context, const std::string &stub
         throw UserException(
             ::format("Desired capacity {0} is not divisible by {1}", capacity, basic_capacity));
     }
+    if (basic_capacity != (1u << basis->addr_width_) * basis->data_width_) {
+        throw UserException(
+            ::format("{0} does not have a word at each of its addresses", basis->name));
+    }
     uint32_t num_sram = capacity / basic_capacity;
     uint32_t additional_addr_bits = std::ceil(std::log2(num_sram));
+    capacity_ = capacity;
     addr_width_ = basis->addr_width_ + additional_addr_bits;
     data_width_ = basis->data_width_;
     set_clock_name(basis->clock_name());
diff --git a/src/lib.hh b/src/lib.hh
index 2900a5c..ec6c250 100644
--- a/src/lib.hh
+++ b/src/lib.hh
@@ -26,6 +26,8 @@ protected:
     std::shared_ptr<Var> data_ = nullptr;
     uint16_t addr_width_ = 11;
     uint16_t data_width_ = 64;
+    // set if not every address of the address width is used
+    uint32_t capacity_ = 0;
 
 private:
     void init_sram();
-- 
2.43.0


From ecbca64ff0ee9e8ddc6e23c0f889969e549ff4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:35 +0000
Subject: [PATCH 84/90] fix: a memory can be composed from a single bank

---
 src/lib.cc | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/lib.cc b/src/lib.cc
index 6b451bf..ff0df44 100644
--- a/src/lib.cc
+++ b/src/lib.cc
@@ -99,6 +99,7 @@ SinglePortSRAM::SinglePortSRAM(kratos::Context *context, const std::string &stub
             ::format("{0} does not have a word at each of its addresses", basis->name));
     }
     uint32_t num_sram = capacity / basic_capacity;
+    if (!num_sram) throw UserException("Desired capacity has to be larger than 0");
     uint32_t additional_addr_bits = std::ceil(std::log2(num_sram));
     capacity_ = capacity;
     addr_width_ = basis->addr_width_ + additional_addr_bits;
@@ -121,9 +122,14 @@ SinglePortSRAM::SinglePortSRAM(kratos::Context *context, const std::string &stub
     }
 
     // memory select logic
-    auto &mem_select = var("memory_select", additional_addr_bits);
+    // a single memory has nothing to select from
+    uint32_t select_width = additional_addr_bits ? additional_addr_bits : 1;
+    auto &mem_select = var("memory_select", select_width);
     auto &addr_to_mem = var("addr_to_mem", basis->addr_width_);
-    add_stmt(mem_select.assign((*addr_)[{addr_width_ - 1, basis->addr_width_}]));
+    if (additional_addr_bits)
+        add_stmt(mem_select.assign((*addr_)[{addr_width_ - 1, basis->addr_width_}]));
+    else
+        add_stmt(mem_select.assign(constant(0, select_width)));
     add_stmt(addr_to_mem.assign((*addr_)[{basis->addr_width_ - 1, 0}]));
 
     // one hot encoding for memory write enable array
@@ -132,7 +138,7 @@ SinglePortSRAM::SinglePortSRAM(kratos::Context *context, const std::string &stub
                                         ~(constant(1, num_sram) << mem_select.extend(num_sram)),
                                         ~(constant(0, num_sram)))));
 
-    auto &output_select = var("output_select", additional_addr_bits);
+    auto &output_select = var("output_select", select_width);
     auto seq = sequential();
     seq->add_condition({EventEdgeType::Posedge, clock()});
     auto ceb_if = std::make_shared<IfStmt>(chip_enable_->r_not());
@@ -145,6 +151,7 @@ SinglePortSRAM::SinglePortSRAM(kratos::Context *context, const std::string &stub
     // num_sram array seems to be wrong
     auto &Q_array = var("Q_array", data_width_, num_sram);
     Q_array.set_is_packed(false);
+    Q_array.set_explicit_array(true);
     add_stmt(output_data_->assign(Q_array[output_select.shared_from_this()]));
 
     // generate a list of srams
-- 
2.43.0


From 9fca6b09359dd2864fa021e9898b95e1b9fc56d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:00 +0000
Subject: [PATCH 85/90] fix: a clone keeps parameter values, packed types,
 dimensions and reset levels of its ports

---
 src/generator.cc | 55 ++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 51 insertions(+), 4 deletions(-)

diff --git a/src/generator.cc b/src/generator.cc
index 41a5e1f..f68d544 100644
--- a/src/generator.cc
+++ b/src/generator.cc
@@ -1024,23 +1024,70 @@ void Generator::unwire(Var &var1, Var &var2) {
     }
 }
 
+// the same expression over the parameters of another generator
+Var *copy_param_expr(Var *var, Generator *generator) {
+    if (var->is_param()) {
+        auto param = generator->get_param(var->to_string());
+        if (param) return param.get();
+    }
+    if (var->type() == VarType::Expression) {
+        auto expr = var->as<Expr>();
+        auto *left = copy_param_expr(expr->left, generator);
+        auto *right = expr->right ? copy_param_expr(expr->right, generator) : nullptr;
+        return &generator->expr(expr->op, left, right);
+    }
+    return var;
+}
+
 std::shared_ptr<Generator> Generator::clone() {
     auto generator = std::make_shared<Generator>(context_, name);
     auto port_names = get_port_names();
     // also parameters
     for (auto const &[param_name, param] : params_) {
-        generator->parameter(param_name, param->width(), param->is_signed());
+        if (param->param_type() == ParamType::RawType) {
+            auto &p = generator->parameter(param_name);
+            if (param->get_raw_str_value()) p.set_value(*param->get_raw_str_value());
+            if (param->get_raw_str_initial_value())
+                p.set_initial_raw_str_value(*param->get_raw_str_initial_value());
+            continue;
+        }
+        auto &p = param->enum_def()
+                      ? generator->parameter(param_name, param->enum_def()->shared_from_this())
+                      : generator->parameter(param_name, param->width(), param->is_signed());
+        if (param->has_value()) p.set_value(param->value());
+        if (param->get_initial_value()) p.set_initial_value(*param->get_initial_value());
     }
 
     for (auto const &port_name : port_names) {
         auto port = get_port(port_name);
+        if (port->is_struct()) {
+            auto &p = generator->port_packed(
+                port->port_direction(), port_name,
+                dynamic_cast<PackedInterface *>(port.get())->packed_struct(), port->size());
+            p.set_explicit_array(port->explicit_array());
+            continue;
+        } else if (port->is_enum()) {
+            auto *enum_def =
+                const_cast<Enum *>(dynamic_cast<EnumType *>(port.get())->enum_type());
+            generator->port(port->port_direction(), port_name, enum_def->shared_from_this());
+            continue;
+        }
         auto &p = generator->port(port->port_direction(), port_name, port->var_width(),
                                   port->size(), port->port_type(), port->is_signed());
-        if (port->width_param() && port->width_param()->is_param()) {
-            auto param = generator->get_param(port->width_param()->to_string());
-            p.set_width_param(param);
+        if (port->width_param()) {
+            p.set_width_param(copy_param_expr(port->width_param(), generator.get()));
+        }
+        for (uint32_t index = 0; index < port->size().size(); index++) {
+            if (auto *param = port->get_size_param(index))
+                p.set_size_param(index, copy_param_expr(param, generator.get()));
+        }
+        if (port->raw_type_parametrized()) {
+            auto param = generator->get_param(port->get_raw_type_param()->to_string());
+            p.set_raw_type_param(param.get());
         }
         p.set_is_packed(port->is_packed());
+        p.set_explicit_array(port->explicit_array());
+        if (port->active_high()) p.set_active_high(*port->active_high());
     }
 
     if (!fn_name_ln.empty()) {
-- 
2.43.0


From 221e802c641ae9ca70e6648edb0964dbc84c5dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:00 +0000
Subject: [PATCH 86/90] fix: function call statements can be cloned

---
 src/stmt.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/stmt.cc b/src/stmt.cc
index 3b954c2..b9c3f77 100644
--- a/src/stmt.cc
+++ b/src/stmt.cc
@@ -900,7 +900,11 @@ FunctionCallStmt::FunctionCallStmt(const std::shared_ptr<FunctionStmtBlock> &fun
 FunctionCallStmt::FunctionCallStmt(const std::shared_ptr<FunctionCallVar> &var)
     : Stmt(StatementType::FunctionalCall), func_(var->func()->as<FunctionStmtBlock>()), var_(var) {}
 
-std::shared_ptr<Stmt> FunctionCallStmt::clone() const { throw UserException("Not implemented"); }
+std::shared_ptr<Stmt> FunctionCallStmt::clone() const {
+    auto stmt = std::make_shared<FunctionCallStmt>(var_);
+    copy_meta(stmt);
+    return stmt;
+}
 
 void InstantiationStmt::process_port(kratos::Port *port, Generator *parent,
                                      const std::string &target_name) {
-- 
2.43.0


From 4d10dd8ea60c15205e5e4a7f4ac1606c1cad531d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:48 +0000
Subject: [PATCH 87/90] fix: cloned statements keep their attributes

---
 src/stmt.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/stmt.cc b/src/stmt.cc
index b9c3f77..0a20287 100644
--- a/src/stmt.cc
+++ b/src/stmt.cc
@@ -100,6 +100,7 @@ std::shared_ptr<Stmt> Stmt::clone() const {
 void Stmt::copy_meta(const std::shared_ptr<Stmt> &stmt) const {
     stmt->verilog_ln = verilog_ln;
     stmt->comment = comment;
+    for (auto const &attribute : get_attributes()) stmt->add_attribute(attribute);
 }
 
 EventControl::EventControl(kratos::EventEdgeType edge, kratos::Var &var)
-- 
2.43.0


From c2c9cc8af60e0642d9226238ee4c11e649712b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:48 +0000
Subject: [PATCH 88/90] fix: a rejected replacement leaves the instance
 connected

---
 src/generator.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/generator.cc b/src/generator.cc
index f68d544..519cd42 100644
--- a/src/generator.cc
+++ b/src/generator.cc
@@ -1182,7 +1182,6 @@ void Generator::replace(const std::string &child_name,
                                  {this, new_child.get()});
     }
     auto old_child = children_.at(child_name);
-    new_child->instance_name = child_name;
     // first we need to make sure that the interfaces are the same
     auto old_port_names = old_child->get_port_names();
     auto new_port_names = new_child->get_port_names();
@@ -1231,8 +1230,13 @@ void Generator::replace(const std::string &child_name,
                                         old_child->name, port_name, new_child->name),
                                {old_port.get(), new_port.get()});
         }
+    }
 
-        // all passed, now replace the port!
+    // all passed, now replace the ports!
+    new_child->instance_name = child_name;
+    for (const auto &port_name : old_port_names) {
+        auto old_port = old_child->get_port(port_name);
+        auto new_port = new_child->get_port(port_name);
         if (old_port->port_direction() == PortDirection::In) {
             // move the src
             Var::move_src_to(old_port.get(), new_port.get(), this, false);
-- 
2.43.0


From 0c400842c6beafbdb51d5932c3940df1a2b442a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:33:51 +0000
Subject: [PATCH 89/90] fix: variables follow the parameter they were linked to
 last, and none once unlinked

---
 src/expr.cc | 62 ++++++++++++++++++++++++++++++++++-------------------
 src/expr.hh |  2 ++
 2 files changed, 42 insertions(+), 22 deletions(-)

diff --git a/src/expr.cc b/src/expr.cc
index 4a57014..750424f 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -312,8 +312,6 @@ std::string Var::handle_name(kratos::Generator *scope) const {
     return var_name.substr(pos + gen_name.size() + 1);
 }
 
-void Var::set_width_param(const std::shared_ptr<Var> &param) { set_width_param(param.get()); }
-
 class ParamVisitor : public IRVisitor {
 public:
     void visit(Param *param) override { params_.emplace(param); }
@@ -323,21 +321,32 @@ private:
     std::unordered_set<Param *> params_;
 };
 
+void Var::unlink_width_param() {
+    if (!width_param_) return;
+    ParamVisitor visitor;
+    visitor.visit_root(width_param_);
+    for (const auto &p : visitor.params()) {
+        p->remove_param_width_var(this);
+    }
+    width_param_ = nullptr;
+}
+
+void Var::set_width_param(const std::shared_ptr<Var> &param) { set_width_param(param.get()); }
+
 void Var::set_width_param(Var *param) {
     if (param == nullptr) {
-        if (width_param_) {
-            ParamVisitor visitor;
-            visitor.visit_root(width_param_);
-            auto const &params = visitor.params();
-            for (const auto &p : params) {
-                p->add_param_width_var(this);
-            }
-        }
-        width_param_= nullptr;
+        unlink_width_param();
         return;
     }
     // set width to the current param value
     auto value = Simulator::static_evaluate_expr(param);
+    if (value <= 0)
+        throw VarException(
+            ::format("{0} is used for parametrizing variable width, thus cannot be non-positive "
+                     "({1})",
+                     param->to_string(), value),
+            {this, param});
+    if (param != width_param_) unlink_width_param();
     var_width_ = value;
     width_param_ = param;
 
@@ -352,6 +361,18 @@ void Var::set_width_param(Var *param) {
 
 VarSlice &Var::operator[](uint32_t bit) { return this->operator[]({bit, bit}); }
 
+void Var::unlink_size_param(uint32_t index) {
+    if (size_param_.find(index) == size_param_.end()) return;
+    auto *linked_param = size_param_.at(index);
+    // get all the parameters
+    ParamVisitor visitor;
+    visitor.visit_root(linked_param);
+    for (const auto &p : visitor.params()) {
+        p->remove_param_size_var(this, index, linked_param);
+    }
+    size_param_.erase(index);
+}
+
 void Var::set_size_param(uint32_t index, Var *param) {
     if (type_ != VarType::Base && type_ != VarType::PortIO)
         throw UserException(::format("{0} is not a variable or port", to_string()));
@@ -359,21 +380,16 @@ void Var::set_size_param(uint32_t index, Var *param) {
         throw UserException(::format("{0} does not have {1} dimension", to_string(), index));
 
     if (param == nullptr) {
-        if (size_param_.find(index) != size_param_.end()) {
-            auto *linked_param = size_param_.at(index);
-            // get all the parameters
-            ParamVisitor visitor;
-            visitor.visit_root(linked_param);
-            auto const &params = visitor.params();
-            for (const auto &p : params) {
-                p->remove_param_size_var(this, index, linked_param);
-            }
-            size_param_.erase(index);
-        }
+        unlink_size_param(index);
         return;
     }
 
     auto new_dim_size = Simulator::static_evaluate_expr(param);
+    if (new_dim_size <= 0)
+        throw VarException(::format("{0} is used for parametrizing dim {1}, thus cannot be "
+                                    "non-positive ({2})",
+                                    param->to_string(), index, new_dim_size),
+                           {this, param});
 
     // LCOV_EXCL_STOP
     for (auto const &slice : slices_) {
@@ -390,6 +406,8 @@ void Var::set_size_param(uint32_t index, Var *param) {
         }
     }
     // all good. now we need to resize the index
+    if (size_param_.find(index) != size_param_.end() && size_param_.at(index) != param)
+        unlink_size_param(index);
     size_[index] = new_dim_size;
     size_param_[index] = param;
 
diff --git a/src/expr.hh b/src/expr.hh
index d70a72d..96a35f0 100644
--- a/src/expr.hh
+++ b/src/expr.hh
@@ -257,6 +257,8 @@ protected:
 
     // parametrization
     Var *width_param_ = nullptr;
+    void unlink_width_param();
+    void unlink_size_param(uint32_t index);
     // raw type parametrization
     Param *raw_type_param_ = nullptr;
 
-- 
2.43.0


From 5cb3ae7aeda40391610e4efc5eb55447b5681636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:39 +0000
Subject: [PATCH 90/90] fix: parameter values reach linked widths, sizes and
 parameters consistently or are rejected

---
 src/expr.cc | 66 ++++++++++++++++++++++++++++++++++++++++-------------
 src/expr.hh |  3 +++
 2 files changed, 53 insertions(+), 16 deletions(-)

diff --git a/src/expr.cc b/src/expr.cc
index 750424f..5375af9 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -1276,34 +1276,63 @@ Param::Param(Generator *m, std::string name, Enum *enum_def)
 }
 
 Param::Param(Generator *m, const std::shared_ptr<Param> &param, std::string parameter_name)
-    : Const(m, 1, 1, false),
+    : Const(m, param->value(), param->width(), param->is_signed()),
       parameter_name_(std::move(parameter_name)),
       param_type_(param->param_type_),
-      enum_def_(param->enum_def_) {}
+      enum_def_(param->enum_def_) {
+    type_ = VarType::Parameter;
+}
 
 void Param::set_value(int64_t new_value) {
-    if (new_value <= 0 && !param_vars_width_.empty()) {
-        throw VarException(
-            ::format(
-                "{0} is used for parametrizing variable width, thus cannot be non-positive ({1})",
-                to_string(), new_value),
-            {this});
+    change_value(new_value);
+    // the value no longer comes from another parameter
+    if (parent_param_) {
+        parent_param_->param_params_.erase(this);
+        parent_param_ = nullptr;
+        if (param_type_ == ParamType::Parameter)
+            param_type_ = enum_def_ ? ParamType::Enum : ParamType::Integral;
     }
+}
+
+void Param::change_value(int64_t new_value) {
+    auto const old_value = value();
     Const::set_value(new_value);
+    try {
+        update_linked(new_value);
+    } catch (...) {
+        // nothing changes if the value is not possible
+        Const::set_value(old_value);
+        update_linked(old_value);
+        throw;
+    }
     has_value_ = true;
+}
 
-    // change the width of parametrized variables
-    for (const auto &var : param_vars_width_) {
-        var->var_width() = new_value;
+void Param::update_linked(int64_t new_value) {
+    // change the width of parametrized variables, whose width may depend on other parameters as
+    // well. slices are computed from their parents
+    auto slice_depth = [](Var *var) {
+        uint32_t depth = 0;
+        while (var->type() == VarType::Slice) {
+            var = dynamic_cast<VarSlice *>(var)->parent_var;
+            depth++;
+        }
+        return depth;
+    };
+    std::multimap<uint32_t, Var *> vars;
+    for (const auto &var : param_vars_width_) vars.emplace(slice_depth(var), var);
+    for (const auto &iter : vars) {
+        iter.second->set_width_param(iter.second->width_param());
     }
     // change the size as well
-    for (const auto &[var, index, expr] : param_vars_size_) {
+    auto const sizes = param_vars_size_;
+    for (const auto &[var, index, expr] : sizes) {
         var->set_size_param(index, expr);
     }
 
     // change the entire chain
     for (const auto &param : param_params_) {
-        param->set_value(new_value);
+        param->change_value(new_value);
     }
 }
 
@@ -1337,12 +1366,17 @@ bool Param::has_param_size_var(kratos::Var *var, uint32_t index, kratos::Var *ex
 }
 
 void Param::set_value(const std::shared_ptr<Param> &param) {
+    for (const auto *p = param.get(); p; p = p->parent_param()) {
+        if (p == this)
+            throw VarException(::format("The value of {0} depends on itself", to_string()),
+                               {this, param.get()});
+    }
+    // update the values
+    set_value(param->value());
+
     param->param_params_.emplace(this);
     parent_param_ = param.get();
     if (param->param_type() != ParamType::RawType) param_type_ = ParamType::Parameter;
-
-    // update the values
-    set_value(param->value());
 }
 
 void Param::set_value(const std::string &str_value) { raw_str_value_ = str_value; }
diff --git a/src/expr.hh b/src/expr.hh
index 96a35f0..dfc961f 100644
--- a/src/expr.hh
+++ b/src/expr.hh
@@ -538,6 +538,9 @@ private:
     std::unordered_set<Param *> param_params_;
     Param *parent_param_ = nullptr;
 
+    void change_value(int64_t new_value);
+    void update_linked(int64_t new_value);
+
     bool has_value_ = false;
     std::optional<int64_t> initial_value_;
     // for now only used for raw_type strings
-- 
2.43.0

