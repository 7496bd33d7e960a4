From cb7e40f7a9cdc17c489af020724995e2710f47da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:19 +0000
Subject: [PATCH 01/10] fix: json_encode passes bytes above 0x7F through

With a signed char, every byte of a multi-byte UTF-8 sequence compared below 0x1F,
and was encoded as an invalid escape sequence such as \u-03D.
---
 src/utils.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index 57eb5a1..eab3723 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -54,10 +54,10 @@ std::string url_encode(const std::string &str) {
  */
 std::string json_encode(const std::string &str) {
     auto ret = std::string{};
-    std::for_each(str.begin(), str.end(), [&ret](char c) {
+    std::for_each(str.begin(), str.end(), [&ret](unsigned char c) {
         ret += (c == '"' || c == '\\' || c <= '\x1f')
-            ? fmt::format("\\u{:04X}", static_cast<int>(c))
-            : std::string{ c };
+            ? fmt::format("\\u{:04X}", static_cast<unsigned int>(c))
+            : std::string{ static_cast<char>(c) };
     });
     return ret;
 }
-- 
2.43.0


From 26ac4157408306dd1024e4464590eee2b5fa02aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:39 +0000
Subject: [PATCH 02/10] fix: indexing a constant reports an error instead of
 dereferencing null

---
 src/v3x/semantic_analyzer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/v3x/semantic_analyzer.cpp b/src/v3x/semantic_analyzer.cpp
index 5645992..bd2d0a5 100644
--- a/src/v3x/semantic_analyzer.cpp
+++ b/src/v3x/semantic_analyzer.cpp
@@ -578,6 +578,10 @@ std::any SemanticAnalyzer::visit_index(syntactic::Index& node) {
     try {
         auto expression = std::any_cast<values::Value>(visit_expression(*node.expr));
         auto variable_ref_ptr = expression->as_variable_ref();
+        if (!variable_ref_ptr) {
+            throw error::AnalysisError{ fmt::format(
+                "indexation is not supported for value of type '{}'", values::type_of(expression)) };
+        }
         const auto variable_link = variable_ref_ptr->variable;
         const auto variable_type = variable_link->typ;
         if (variable_type->as_qubit_array() || variable_type->as_bit_array()) {
-- 
2.43.0


From 7081cb6dd8d9f5eff53725e35b8ef9e7b11ab52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:45 +0000
Subject: [PATCH 03/10] fix: parse errors of any kind end up in the error list

---
 src/v3x/parse_helper.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/v3x/parse_helper.cpp b/src/v3x/parse_helper.cpp
index 016d6c3..da52840 100644
--- a/src/v3x/parse_helper.cpp
+++ b/src/v3x/parse_helper.cpp
@@ -54,7 +54,8 @@ ParseResult ParseHelper::parse() {
         result = scanner_up_->parse();
     } catch (error::AnalysisError& err) {
         result.errors.push_back(std::move(err));
-    } catch (const std::runtime_error& err) {
+    } catch (const std::exception& err) {
+        // Any other exception, e.g., the one ANTLR throws for an input that is not valid UTF-8
         result.errors.emplace_back(err.what());
     }
 
-- 
2.43.0


From 80f67a40573999ddf857891068ce04d3b1c6c9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:25 +0000
Subject: [PATCH 04/10] fix: Python reads instruction references under the keys
 C++ writes

---
 python/module/cqasm/v3x/primitives.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/python/module/cqasm/v3x/primitives.py b/python/module/cqasm/v3x/primitives.py
index 8e38071..879d11f 100644
--- a/python/module/cqasm/v3x/primitives.py
+++ b/python/module/cqasm/v3x/primitives.py
@@ -35,8 +35,8 @@ def serialize(typ, val):
             return {}
         else:
             return {
-                'n': val.data.name,
-                't': [x.serialize() for x in val.data.types]
+                'name': val.data.name,
+                'operand_types': [x.serialize() for x in val.data.types]
             }
     else:
         assert False
@@ -61,10 +61,10 @@ def deserialize(typ, val):
     elif typ is Version:
         return Version(val['x'])
     elif typ is cqasm.v3x.instruction.InstructionRef:
-        if 'n' in val:
+        if 'name' in val:
             return cqasm.v3x.instruction.InstructionRef(
-                val['n'],
-                [cqasm.v3x.types.Node.deserialize(x) for x in val['t']]
+                val['name'],
+                [cqasm.v3x.types.Node.deserialize(x) for x in val['operand_types']]
             )
         else:
             return cqasm.v3x.instruction.InstructionRef()
-- 
2.43.0


From 846424dddfcb90fe1b2a220287c3bd519cb00506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:17 +0000
Subject: [PATCH 05/10] fix: constant integer arithmetic never traps or is
 undefined

---
 .../v3x/register_consteval_core_functions.hpp | 70 +++++++++++++++----
 1 file changed, 58 insertions(+), 12 deletions(-)

diff --git a/include/libqasm/v3x/register_consteval_core_functions.hpp b/include/libqasm/v3x/register_consteval_core_functions.hpp
index 9845d22..6f298de 100644
--- a/include/libqasm/v3x/register_consteval_core_functions.hpp
+++ b/include/libqasm/v3x/register_consteval_core_functions.hpp
@@ -1,9 +1,14 @@
 #pragma once
 
+#include <fmt/format.h>
+
 #include <cmath>
+#include <cstdint>  // uint64_t
 #include <functional>
+#include <limits>
 #include <numeric>
 
+#include "libqasm/error.hpp"
 #include "libqasm/v3x/analyzer.hpp"
 #include "libqasm/v3x/primitives.hpp"
 
@@ -15,9 +20,8 @@ namespace primitives = cqasm::v3x::primitives;
  * - There are not functions operating on complex types yet
  * - There are not functions operating on string types yet
  * - op_int_div_ii has been renamed to op_div_ii (integer division)
- * - op_div_ii is implemented using std::divides, not div_floor
- * - op_mod_ii is implemented using std::modulus, not mod_floor
- *   Whereas mod_floor keeps the sign of the divisor, std::modulus keeps the sign of the dividend
+ * - op_div_ii truncates towards zero, as opposed to div_floor
+ * - op_mod_ii keeps the sign of the dividend, as opposed to mod_floor, which keeps the sign of the divisor
  * - op_sra_ii has been renamed to op_shr_ii (shift right arithmetic)
  * - op_srl_ii (shift right logic) has been dropped
  */
@@ -72,19 +76,49 @@ struct tf_cp : public f_cp<ParamValue, ParamValue, F> {
     }
 };
 
+/**
+ * Integer arithmetic.
+ * Signed overflow is undefined in C++, so additions, subtractions, and multiplications are done in unsigned arithmetic,
+ * i.e., they wrap around.
+ * Operations without a meaningful result throw an AnalysisError.
+ */
+inline constexpr auto wrap_int = [](std::uint64_t value) { return static_cast<primitives::Int>(value); };
+inline constexpr auto neg_int = [](primitives::Int a) { return wrap_int(-static_cast<std::uint64_t>(a)); };
+inline constexpr auto add_int = [](primitives::Int a, primitives::Int b) {
+    return wrap_int(static_cast<std::uint64_t>(a) + static_cast<std::uint64_t>(b));
+};
+inline constexpr auto sub_int = [](primitives::Int a, primitives::Int b) {
+    return wrap_int(static_cast<std::uint64_t>(a) - static_cast<std::uint64_t>(b));
+};
+inline constexpr auto mul_int = [](primitives::Int a, primitives::Int b) {
+    return wrap_int(static_cast<std::uint64_t>(a) * static_cast<std::uint64_t>(b));
+};
+inline constexpr auto div_int = [](primitives::Int a, primitives::Int b) {
+    if (b == 0) {
+        throw error::AnalysisError{ "division by zero" };
+    }
+    return b == -1 ? neg_int(a) : a / b;
+};
+inline constexpr auto mod_int = [](primitives::Int a, primitives::Int b) {
+    if (b == 0) {
+        throw error::AnalysisError{ "modulo by zero" };
+    }
+    return b == -1 ? primitives::Int{ 0 } : a % b;
+};
+
 constexpr auto op_neg_f = uf_cp<values::ConstFloat, values::ConstFloat, std::negate<double>{}>{};
-constexpr auto op_neg_i = uf_cp<values::ConstInt, values::ConstInt, std::negate{}>{};
+constexpr auto op_neg_i = uf_cp<values::ConstInt, values::ConstInt, neg_int>{};
 
 constexpr auto op_add_ff = bf_cp<values::ConstFloat, values::ConstFloat, std::plus{}>{};
-constexpr auto op_add_ii = bf_cp<values::ConstInt, values::ConstInt, std::plus{}>{};
+constexpr auto op_add_ii = bf_cp<values::ConstInt, values::ConstInt, add_int>{};
 constexpr auto op_sub_ff = bf_cp<values::ConstFloat, values::ConstFloat, std::minus{}>{};
-constexpr auto op_sub_ii = bf_cp<values::ConstInt, values::ConstInt, std::minus{}>{};
+constexpr auto op_sub_ii = bf_cp<values::ConstInt, values::ConstInt, sub_int>{};
 
 constexpr auto op_mul_ff = bf_cp<values::ConstFloat, values::ConstFloat, std::multiplies{}>{};
-constexpr auto op_mul_ii = bf_cp<values::ConstInt, values::ConstInt, std::multiplies{}>{};
+constexpr auto op_mul_ii = bf_cp<values::ConstInt, values::ConstInt, mul_int>{};
 constexpr auto op_div_ff = bf_cp<values::ConstFloat, values::ConstFloat, std::divides{}>{};
-constexpr auto op_div_ii = bf_cp<values::ConstInt, values::ConstInt, std::divides{}>{};
-constexpr auto op_mod_ii = bf_cp<values::ConstInt, values::ConstInt, std::modulus{}>{};
+constexpr auto op_div_ii = bf_cp<values::ConstInt, values::ConstInt, div_int>{};
+constexpr auto op_mod_ii = bf_cp<values::ConstInt, values::ConstInt, mod_int>{};
 
 inline constexpr auto pow = [](auto base, auto exp) { return std::pow(base, exp); };
 constexpr auto op_pow_ff = bf_cp<values::ConstFloat, values::ConstFloat, pow>{};
@@ -115,9 +149,20 @@ constexpr auto op_band_ii = bf_cp<values::ConstInt, values::ConstInt, std::bit_a
 constexpr auto op_bxor_ii = bf_cp<values::ConstInt, values::ConstInt, std::bit_xor{}>{};
 constexpr auto op_bor_ii = bf_cp<values::ConstInt, values::ConstInt, std::bit_or{}>{};
 
-inline constexpr auto shl = [](primitives::Int a, primitives::Int b) { return a << b; };
+inline constexpr auto check_shift_amount = [](primitives::Int b) {
+    if (b < 0 || b >= std::numeric_limits<std::uint64_t>::digits) {
+        throw error::AnalysisError{ fmt::format("shift amount {} out of range", b) };
+    }
+};
+inline constexpr auto shl = [](primitives::Int a, primitives::Int b) {
+    check_shift_amount(b);
+    return a << b;
+};
 constexpr auto op_shl_ii = bf_cp<values::ConstInt, values::ConstInt, shl>{};
-inline constexpr auto shr = [](primitives::Int a, primitives::Int b) { return a >> b; };
+inline constexpr auto shr = [](primitives::Int a, primitives::Int b) {
+    check_shift_amount(b);
+    return a >> b;
+};
 constexpr auto op_shr_ii = bf_cp<values::ConstInt, values::ConstInt, shr>{};
 
 constexpr auto op_linv_b = uf_cp<values::ConstBool, values::ConstBool, std::logical_not{}>{};
@@ -163,7 +208,8 @@ inline constexpr auto atanh = [](auto num) { return std::atanh(num); };
 constexpr auto fn_atanh_f = uf_cp<values::ConstFloat, values::ConstFloat, atanh>{};
 inline constexpr auto abs = [](auto num) { return std::abs(num); };
 constexpr auto fn_abs_f = uf_cp<values::ConstFloat, values::ConstFloat, abs>{};
-constexpr auto fn_abs_i = uf_cp<values::ConstInt, values::ConstInt, abs>{};
+inline constexpr auto abs_int = [](primitives::Int num) { return num < 0 ? neg_int(num) : num; };
+constexpr auto fn_abs_i = uf_cp<values::ConstInt, values::ConstInt, abs_int>{};
 
 /**
  * Registers a bunch of consteval core functions.
-- 
2.43.0


From 816a8e2ddb4e3d76dc8baaa1df78c5dca0fe2fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:17 +0000
Subject: [PATCH 06/10] fix: analyzing a program leaves the analyzer as it was

---
 src/v3x/analyzer.cpp | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/v3x/analyzer.cpp b/src/v3x/analyzer.cpp
index 74a1371..bb6b8af 100644
--- a/src/v3x/analyzer.cpp
+++ b/src/v3x/analyzer.cpp
@@ -81,10 +81,38 @@ void Analyzer::register_default_instructions() {
     instruction::register_instructions(this);
 }
 
+namespace {
+
+/**
+ * Restores the scope stack of an analyzer on destruction,
+ * so that the declarations and statements of a program do not leak into the analysis of the next one.
+ */
+class ScopeStackGuard {
+    std::list<Scope>& scope_stack_;
+    std::list<Scope> configuration_;
+
+public:
+    explicit ScopeStackGuard(std::list<Scope>& scope_stack)
+    : scope_stack_{ scope_stack }
+    , configuration_{ scope_stack } {
+        // Scopes hold a reference to a block, so blocks have to be cloned
+        for (auto& scope : scope_stack_) {
+            scope.block = scope.block.clone();
+        }
+    }
+    ~ScopeStackGuard() { scope_stack_.swap(configuration_); }
+    ScopeStackGuard(const ScopeStackGuard&) = delete;
+    ScopeStackGuard& operator=(const ScopeStackGuard&) = delete;
+};
+
+}  // namespace
+
 /**
  * Analyzes the given AST.
+ * The scope stack is left as it was found.
  */
 AnalysisResult Analyzer::analyze(syntactic::Program& ast) {
+    ScopeStackGuard scope_stack_guard{ scope_stack_ };
     auto analyze_visitor_up = std::make_unique<SemanticAnalyzer>(*this);
     auto result = std::any_cast<AnalysisResult>(analyze_visitor_up->visit_program(ast));
     if (result.errors.empty()) {
-- 
2.43.0


From f0d6910bf922e8b962d56719f75f2d501c6719ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:40 +0000
Subject: [PATCH 07/10] fix: index ranges are checked before they are expanded

---
 src/v3x/semantic_analyzer.cpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/v3x/semantic_analyzer.cpp b/src/v3x/semantic_analyzer.cpp
index bd2d0a5..ce6efbe 100644
--- a/src/v3x/semantic_analyzer.cpp
+++ b/src/v3x/semantic_analyzer.cpp
@@ -574,6 +574,16 @@ void check_out_of_range(const IndexListT& indices, primitives::Int size) {
     }
 }
 
+/**
+ * Check out of range accesses from an index range to an array of a given size
+ */
+void check_out_of_range(primitives::Int first, primitives::Int last, primitives::Int size) {
+    if (first <= last && (first < 0 || last >= size)) {
+        throw error::AnalysisError{ fmt::format(
+            "index {} out of range (size {})", (first < 0 || first >= size) ? first : size, size) };
+    }
+}
+
 std::any SemanticAnalyzer::visit_index(syntactic::Index& node) {
     try {
         auto expression = std::any_cast<values::Value>(visit_expression(*node.expr));
@@ -585,8 +595,16 @@ std::any SemanticAnalyzer::visit_index(syntactic::Index& node) {
         const auto variable_link = variable_ref_ptr->variable;
         const auto variable_type = variable_link->typ;
         if (variable_type->as_qubit_array() || variable_type->as_bit_array()) {
+            // Check the ranges before expanding them, since a range can span any number of indices
+            const auto size = types::size_of(variable_type);
+            for (const auto& index_entry : node.indices->items) {
+                if (auto index_range = index_entry->as_index_range()) {
+                    check_out_of_range(
+                        visit_const_int(*index_range->first), visit_const_int(*index_range->last), size);
+                }
+            }
             auto indices = std::any_cast<IndexListT>(visit_index_list(*node.indices));
-            check_out_of_range(indices, types::size_of(variable_type));
+            check_out_of_range(indices, size);
             auto ret = tree::make<values::IndexRef>(variable_link, indices);
             return values::Value{ ret };
         } else {
-- 
2.43.0


From c244c1690942eb32338ae028f19fc472a4e691e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:02 +0000
Subject: [PATCH 08/10] fix: keep the operand types of a Python instruction
 given as an iterator

---
 python/module/cqasm/v3x/instruction.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/module/cqasm/v3x/instruction.py b/python/module/cqasm/v3x/instruction.py
index 271a075..4c1edd9 100644
--- a/python/module/cqasm/v3x/instruction.py
+++ b/python/module/cqasm/v3x/instruction.py
@@ -8,10 +8,11 @@ class Instruction(object):
         if types is None:
             self._types = ()
         else:
+            types = tuple(types)
             for typ in types:
                 if not isinstance(typ, cqasm.v3x.types.Node):
                     raise TypeError('types must be an iterable of cqasm.v3x.types.Node if specified')
-            self._types = tuple(types)
+            self._types = types
 
     @property
     def name(self):
-- 
2.43.0


From 6773bd71c74680356ac4dc83e31c9ab33cbedc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:22 +0000
Subject: [PATCH 09/10] fix: a file that cannot be examined is refused like one
 that does not exist

---
 src/v3x/antlr_scanner.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/v3x/antlr_scanner.cpp b/src/v3x/antlr_scanner.cpp
index ab860ad..9b4de92 100644
--- a/src/v3x/antlr_scanner.cpp
+++ b/src/v3x/antlr_scanner.cpp
@@ -4,6 +4,7 @@
 #include <fmt/format.h>
 
 #include <filesystem>
+#include <system_error>
 
 #include "libqasm/v3x/CqasmLexer.h"
 #include "libqasm/v3x/CqasmParser.h"
@@ -48,7 +49,8 @@ FileAntlrScanner::FileAntlrScanner(std::unique_ptr<BaseSyntacticAnalyzer> build_
     std::unique_ptr<AntlrCustomErrorListener> error_listener_up, std::string file_path)
 : AntlrScanner{ std::move(build_visitor_up), std::move(error_listener_up) }
 , file_path_{ std::move(file_path) } {
-    if (!fs::exists(file_path_) || !fs::is_regular_file(file_path_)) {
+    std::error_code error_code{};
+    if (!fs::is_regular_file(file_path_, error_code)) {
         throw cqasm::error::ParseError{ fmt::format("FileAntlrScanner couldn't access file '{}'.", file_path_) };
     }
 }
-- 
2.43.0


From 3b42ca951c1e62927246d6d0f20d24521f5dc1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:03 +0000
Subject: [PATCH 10/10] fix: a variable whose name is already taken does not
 become part of the program

---
 src/v3x/semantic_analyzer.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/v3x/semantic_analyzer.cpp b/src/v3x/semantic_analyzer.cpp
index ce6efbe..99c4059 100644
--- a/src/v3x/semantic_analyzer.cpp
+++ b/src/v3x/semantic_analyzer.cpp
@@ -108,11 +108,11 @@ std::any SemanticAnalyzer::visit_variable(syntactic::Variable& node) {
         ret->annotations = std::any_cast<tree::Any<semantic::AnnotationData>>(visit_annotated(*node.as_annotated()));
         ret->copy_annotation<parser::SourceLocation>(*identifier);
 
+        // Register the variable. This throws if the name is already taken
+        analyzer_.register_variable(identifier->name, tree::make<values::VariableRef>(ret));
+
         // Add the variable to the current scope
         analyzer_.add_variable_to_current_scope(ret);
-
-        // Register the variable
-        analyzer_.register_variable(identifier->name, tree::make<values::VariableRef>(ret));
     } catch (error::AnalysisError& err) {
         err.context(node);
         result_.errors.push_back(std::move(err));
-- 
2.43.0

