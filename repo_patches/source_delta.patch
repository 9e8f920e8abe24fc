From b111adbd3bddbd4ddf2436ef68611d94ee2e6dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:13 +0000
Subject: [PATCH 01/96] fix: parse hexadecimal, octal, binary and suffixed
 integer literals

---
 crates/decy-parser/src/extract/expressions.rs | 20 ++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/crates/decy-parser/src/extract/expressions.rs b/crates/decy-parser/src/extract/expressions.rs
index 2df955f..343cfda 100644
--- a/crates/decy-parser/src/extract/expressions.rs
+++ b/crates/decy-parser/src/extract/expressions.rs
@@ -351,7 +351,7 @@ pub(crate) fn extract_int_literal(cursor: CXCursor) -> Option<Expression> {
             let token_cxstring = clang_getTokenSpelling(tu, *tokens);
             let c_str = CStr::from_ptr(clang_getCString(token_cxstring));
             if let Ok(token_str) = c_str.to_str() {
-                value = token_str.parse().unwrap_or(0);
+                value = parse_int_literal(token_str).unwrap_or(0);
             }
             clang_disposeString(token_cxstring);
 
@@ -373,6 +373,24 @@ pub(crate) fn extract_int_literal(cursor: CXCursor) -> Option<Expression> {
     Some(Expression::IntLiteral(value))
 }
 
+/// Parse the spelling of a C integer literal (decimal, octal, hexadecimal or
+/// binary, with an optional `u`/`l` suffix). Values that only fit an unsigned
+/// 32-bit integer keep their bit pattern.
+pub(crate) fn parse_int_literal(token: &str) -> Option<i32> {
+    let digits = token.trim_end_matches(['u', 'U', 'l', 'L']);
+    let value = if let Some(hex) = digits.strip_prefix("0x").or(digits.strip_prefix("0X")) {
+        i64::from_str_radix(hex, 16)
+    } else if let Some(bin) = digits.strip_prefix("0b").or(digits.strip_prefix("0B")) {
+        i64::from_str_radix(bin, 2)
+    } else if digits.len() > 1 && digits.starts_with('0') {
+        i64::from_str_radix(&digits[1..], 8)
+    } else {
+        digits.parse()
+    }
+    .ok()?;
+    i32::try_from(value).ok().or_else(|| u32::try_from(value).ok().map(|v| v as i32))
+}
+
 /// DECY-207: Extract a floating-point literal expression.
 pub(crate) fn extract_float_literal(cursor: CXCursor) -> Option<Expression> {
     // SAFETY: Get the extent (source range) of the cursor
-- 
2.43.0


From 02e324c81e0561fa080b287166fc2884cc8398e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:13 +0000
Subject: [PATCH 02/96] fix: keep casts that are operands of binary operators

---
 crates/decy-parser/src/extract/expressions.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/decy-parser/src/extract/expressions.rs b/crates/decy-parser/src/extract/expressions.rs
index 343cfda..86b1414 100644
--- a/crates/decy-parser/src/extract/expressions.rs
+++ b/crates/decy-parser/src/extract/expressions.rs
@@ -713,6 +713,13 @@ pub(crate) extern "C" fn visit_binary_operand(
             }
             CXChildVisit_Continue
         }
+        117 => {
+            // CXCursor_CStyleCastExpr - keep the conversion, not just its operand
+            if let Some(expr) = extract_cast(cursor) {
+                operands.push(expr);
+            }
+            CXChildVisit_Continue
+        }
         116 => {
             // CXCursor_ConditionalOperator (ternary) - DECY-192
             if let Some(expr) = extract_conditional_op(cursor) {
-- 
2.43.0


From 98f7da3c82b077a4e46a6edc4197e040139d6145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:33 +0000
Subject: [PATCH 03/96] fix: extract bitwise and shift compound assignments

---
 crates/decy-parser/src/extract/statements.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/decy-parser/src/extract/statements.rs b/crates/decy-parser/src/extract/statements.rs
index 331ee8d..f4cc355 100644
--- a/crates/decy-parser/src/extract/statements.rs
+++ b/crates/decy-parser/src/extract/statements.rs
@@ -454,7 +454,7 @@ pub(crate) fn extract_inc_dec_stmt(cursor: CXCursor) -> Option<Statement> {
     }
 }
 
-/// Extract a compound assignment statement (+=, -=, *=, /=, %=).
+/// Extract a compound assignment statement (+=, -=, *=, /=, %=, &=, |=, ^=, <<=, >>=).
 pub(crate) fn extract_compound_assignment_stmt(cursor: CXCursor) -> Option<Statement> {
     // Get the translation unit
     let tu = unsafe { clang_Cursor_getTranslationUnit(cursor) };
@@ -491,6 +491,11 @@ pub(crate) fn extract_compound_assignment_stmt(cursor: CXCursor) -> Option<State
                         "*=" => Some(BinaryOperator::Multiply),
                         "/=" => Some(BinaryOperator::Divide),
                         "%=" => Some(BinaryOperator::Modulo),
+                        "&=" => Some(BinaryOperator::BitwiseAnd),
+                        "|=" => Some(BinaryOperator::BitwiseOr),
+                        "^=" => Some(BinaryOperator::BitwiseXor),
+                        "<<=" => Some(BinaryOperator::LeftShift),
+                        ">>=" => Some(BinaryOperator::RightShift),
                         _ => None,
                     };
                     if operator.is_some() {
-- 
2.43.0


From 7f8762b7a05894b6e2cd236a624ccd441c997fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:33 +0000
Subject: [PATCH 04/96] fix: recognise an assignment by its own operator, not
 by its first token

---
 crates/decy-parser/src/extract/statements.rs | 56 ++------------------
 1 file changed, 3 insertions(+), 53 deletions(-)

diff --git a/crates/decy-parser/src/extract/statements.rs b/crates/decy-parser/src/extract/statements.rs
index f4cc355..bfe1e86 100644
--- a/crates/decy-parser/src/extract/statements.rs
+++ b/crates/decy-parser/src/extract/statements.rs
@@ -113,59 +113,9 @@ pub(crate) fn extract_return_stmt(cursor: CXCursor) -> Option<Statement> {
 
 /// Extract an assignment statement.
 pub(crate) fn extract_assignment_stmt(cursor: CXCursor) -> Option<Statement> {
-    // Check if this binary operator is an assignment '=' (not '==', '!=', etc.)
-    // Get the translation unit
-    let tu = unsafe { clang_Cursor_getTranslationUnit(cursor) };
-    if tu.is_null() {
-        return None;
-    }
-
-    // Get the extent (source range) of the cursor
-    let extent = unsafe { clang_getCursorExtent(cursor) };
-
-    // Tokenize to find the operator
-    let mut tokens = ptr::null_mut();
-    let mut num_tokens = 0;
-
-    unsafe {
-        clang_tokenize(tu, extent, &mut tokens, &mut num_tokens);
-    }
-
-    let mut is_assignment = false;
-
-    // Look through tokens to find '=' (and make sure it's not '==', '!=', etc.)
-    for i in 0..num_tokens {
-        unsafe {
-            let token = *tokens.add(i as usize);
-            let token_kind = clang_getTokenKind(token);
-
-            if token_kind == CXToken_Punctuation {
-                let token_cxstring = clang_getTokenSpelling(tu, token);
-                let c_str = CStr::from_ptr(clang_getCString(token_cxstring));
-                if let Ok(token_str) = c_str.to_str() {
-                    // Only accept single '=' for assignment
-                    if token_str == "=" {
-                        is_assignment = true;
-                        clang_disposeString(token_cxstring);
-                        break;
-                    } else if token_str == "=="
-                        || token_str == "!="
-                        || token_str == "<="
-                        || token_str == ">="
-                    {
-                        // This is a comparison operator, not assignment
-                        clang_disposeString(token_cxstring);
-                        break;
-                    }
-                }
-                clang_disposeString(token_cxstring);
-            }
-        }
-    }
-
-    unsafe {
-        clang_disposeTokens(tu, tokens, num_tokens);
-    }
+    // Only accept '=' as this cursor's own operator: operators inside the operands
+    // (such as the comparison in `v[a == b] = c`) belong to nested cursors.
+    let is_assignment = matches!(extract_binary_operator(cursor), Some(BinaryOperator::Assign));
 
     if !is_assignment {
         return None;
-- 
2.43.0


From f5a65864d37f136b0925700d39a7f859a4c385b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:33 +0000
Subject: [PATCH 05/96] fix: keep the condition and branches of else-if chains

---
 crates/decy-parser/src/extract/statements.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/crates/decy-parser/src/extract/statements.rs b/crates/decy-parser/src/extract/statements.rs
index bfe1e86..e5dccea 100644
--- a/crates/decy-parser/src/extract/statements.rs
+++ b/crates/decy-parser/src/extract/statements.rs
@@ -626,13 +626,8 @@ pub(crate) extern "C" fn visit_if_children(
                 }
                 if_data.else_block = Some(else_stmts);
             } else if kind == CXCursor_IfStmt {
-                // else if chain
-                let mut else_stmts = Vec::new();
-                let body_ptr = &mut else_stmts as *mut Vec<Statement>;
-                unsafe {
-                    clang_visitChildren(cursor, visit_statement, body_ptr as CXClientData);
-                }
-                if_data.else_block = Some(else_stmts);
+                // else if chain: the nested if keeps its own condition and branches
+                if_data.else_block = extract_if_stmt(cursor).map(|stmt| vec![stmt]);
             } else {
                 // Single statement in else: else return 0;
                 if let Some(stmt) = extract_single_statement(cursor) {
-- 
2.43.0


From 49f5e5a71a8b139b7614e9f9629b592863f54045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:20 +0000
Subject: [PATCH 06/96] fix: extract ternary and cast conditions as a whole

---
 crates/decy-parser/src/extract/expressions.rs |  9 ++++++---
 crates/decy-parser/src/extract/statements.rs  | 19 ++-----------------
 2 files changed, 8 insertions(+), 20 deletions(-)

diff --git a/crates/decy-parser/src/extract/expressions.rs b/crates/decy-parser/src/extract/expressions.rs
index 86b1414..753eb82 100644
--- a/crates/decy-parser/src/extract/expressions.rs
+++ b/crates/decy-parser/src/extract/expressions.rs
@@ -109,10 +109,13 @@ pub(crate) fn extract_expression_from_cursor(cursor: CXCursor) -> Option<Express
         CXCursor_CallExpr => extract_function_call(cursor),
         CXCursor_UnaryOperator => extract_unary_op(cursor),
         _ => {
+            // The cursor itself is the expression; only wrappers need their children visited
             let mut expr: Option<Expression> = None;
-            let expr_ptr = &mut expr as *mut Option<Expression>;
-            unsafe {
-                clang_visitChildren(cursor, visit_expression, expr_ptr as CXClientData);
+            let client_data = &mut expr as *mut Option<Expression> as CXClientData;
+            if visit_expression(cursor, cursor, client_data) == CXChildVisit_Recurse {
+                unsafe {
+                    clang_visitChildren(cursor, visit_expression, client_data);
+                }
             }
             expr
         }
diff --git a/crates/decy-parser/src/extract/statements.rs b/crates/decy-parser/src/extract/statements.rs
index e5dccea..967d1b4 100644
--- a/crates/decy-parser/src/extract/statements.rs
+++ b/crates/decy-parser/src/extract/statements.rs
@@ -585,15 +585,7 @@ pub(crate) extern "C" fn visit_if_children(
                 CXCursor_DeclRefExpr => extract_variable_ref(cursor),
                 CXCursor_CallExpr => extract_function_call(cursor),
                 CXCursor_UnaryOperator => extract_unary_op(cursor),
-                _ => {
-                    // For other expression types, try visiting children
-                    let mut cond_expr: Option<Expression> = None;
-                    let expr_ptr = &mut cond_expr as *mut Option<Expression>;
-                    unsafe {
-                        clang_visitChildren(cursor, visit_expression, expr_ptr as CXClientData);
-                    }
-                    cond_expr
-                }
+                _ => extract_expression_from_cursor(cursor),
             };
             if_data.child_index += 1;
             CXChildVisit_Continue
@@ -935,14 +927,7 @@ pub(crate) extern "C" fn visit_while_children(
                 CXCursor_DeclRefExpr => extract_variable_ref(cursor),
                 CXCursor_CallExpr => extract_function_call(cursor),
                 CXCursor_UnaryOperator => extract_unary_op(cursor),
-                _ => {
-                    let mut cond_expr: Option<Expression> = None;
-                    let expr_ptr = &mut cond_expr as *mut Option<Expression>;
-                    unsafe {
-                        clang_visitChildren(cursor, visit_expression, expr_ptr as CXClientData);
-                    }
-                    cond_expr
-                }
+                _ => extract_expression_from_cursor(cursor),
             };
             while_data.child_index += 1;
             CXChildVisit_Continue
-- 
2.43.0


From e7bedd514528a761edf11466399fff191a2bfd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:49 +0000
Subject: [PATCH 07/96] fix: keep every kind of unbraced branch and loop body

---
 crates/decy-parser/src/extract/expressions.rs | 29 +-------
 crates/decy-parser/src/extract/statements.rs  | 68 ++++++-------------
 2 files changed, 21 insertions(+), 76 deletions(-)

diff --git a/crates/decy-parser/src/extract/expressions.rs b/crates/decy-parser/src/extract/expressions.rs
index 753eb82..ae84639 100644
--- a/crates/decy-parser/src/extract/expressions.rs
+++ b/crates/decy-parser/src/extract/expressions.rs
@@ -7,7 +7,7 @@ use std::ptr;
 
 use super::statements::{
     extract_assignment_stmt, extract_for_stmt, extract_if_stmt, extract_inc_dec_stmt,
-    extract_return_stmt, extract_switch_stmt, extract_var_decl, extract_while_stmt,
+    extract_return_stmt, extract_var_decl, extract_while_stmt,
 };
 use super::types::convert_type;
 
@@ -122,33 +122,6 @@ pub(crate) fn extract_expression_from_cursor(cursor: CXCursor) -> Option<Express
     }
 }
 
-/// Extract a single statement from a cursor (for non-compound for bodies)
-pub(crate) fn extract_single_statement(cursor: CXCursor) -> Option<Statement> {
-    let kind = unsafe { clang_getCursorKind(cursor) };
-    match kind {
-        CXCursor_IfStmt => extract_if_stmt(cursor),
-        CXCursor_ForStmt => extract_for_stmt(cursor),
-        CXCursor_WhileStmt => extract_while_stmt(cursor),
-        CXCursor_ReturnStmt => extract_return_stmt(cursor),
-        CXCursor_SwitchStmt => extract_switch_stmt(cursor),
-        CXCursor_UnaryOperator => extract_inc_dec_stmt(cursor),
-        CXCursor_BinaryOperator => extract_assignment_stmt(cursor),
-        CXCursor_CallExpr => {
-            if let Some(Expression::FunctionCall { function, arguments }) =
-                extract_function_call(cursor)
-            {
-                Some(Statement::FunctionCall { function, arguments })
-            } else {
-                None
-            }
-        }
-        CXCursor_BreakStmt => Some(Statement::Break),
-        CXCursor_ContinueStmt => Some(Statement::Continue),
-        CXCursor_DoStmt | CXCursor_NullStmt => None, // Not supported yet
-        _ => None,
-    }
-}
-
 /// Visitor callback for extracting expressions.
 ///
 /// # Safety
diff --git a/crates/decy-parser/src/extract/statements.rs b/crates/decy-parser/src/extract/statements.rs
index 967d1b4..571b930 100644
--- a/crates/decy-parser/src/extract/statements.rs
+++ b/crates/decy-parser/src/extract/statements.rs
@@ -8,7 +8,7 @@ use std::ptr;
 use super::expressions::{
     extract_array_index, extract_binary_op, extract_binary_operator, extract_char_literal,
     extract_expression_from_cursor, extract_field_access, extract_float_literal,
-    extract_function_call, extract_int_literal, extract_single_statement, extract_statement,
+    extract_function_call, extract_int_literal, extract_statement,
     extract_unary_op, extract_variable_ref, try_extract_expression, visit_binary_operand,
     visit_expression,
 };
@@ -525,6 +525,18 @@ pub(crate) fn extract_compound_assignment_stmt(cursor: CXCursor) -> Option<State
     Some(Statement::CompoundAssignment { target, op, value: operands[1].clone() })
 }
 
+/// Extract the statements of a branch or loop body, with or without braces.
+pub(crate) fn extract_body(cursor: CXCursor) -> Vec<Statement> {
+    let mut body: Vec<Statement> = Vec::new();
+    let body_ptr = &mut body as *mut Vec<Statement> as CXClientData;
+    if visit_statement(cursor, cursor, body_ptr) == CXChildVisit_Recurse {
+        unsafe {
+            clang_visitChildren(cursor, visit_statement, body_ptr);
+        }
+    }
+    body
+}
+
 /// Extract an if statement.
 pub(crate) fn extract_if_stmt(cursor: CXCursor) -> Option<Statement> {
     // An if statement has 2 or 3 children:
@@ -593,39 +605,15 @@ pub(crate) extern "C" fn visit_if_children(
         1 => {
             // Second child: then block
             // DECY-216: Handle both compound statements (with braces) and single statements
-            if kind == CXCursor_CompoundStmt {
-                let body_ptr = &mut if_data.then_block as *mut Vec<Statement>;
-                unsafe {
-                    clang_visitChildren(cursor, visit_statement, body_ptr as CXClientData);
-                }
-            } else {
-                // Single statement without braces: if (cond) return 1;
-                if let Some(stmt) = extract_single_statement(cursor) {
-                    if_data.then_block.push(stmt);
-                }
-            }
+            if_data.then_block = extract_body(cursor);
             if_data.child_index += 1;
             CXChildVisit_Continue
         }
         2 => {
             // Third child (optional): else block
             // DECY-216: Handle compound, if-else chain, and single statement
-            if kind == CXCursor_CompoundStmt {
-                let mut else_stmts = Vec::new();
-                let body_ptr = &mut else_stmts as *mut Vec<Statement>;
-                unsafe {
-                    clang_visitChildren(cursor, visit_statement, body_ptr as CXClientData);
-                }
-                if_data.else_block = Some(else_stmts);
-            } else if kind == CXCursor_IfStmt {
-                // else if chain: the nested if keeps its own condition and branches
-                if_data.else_block = extract_if_stmt(cursor).map(|stmt| vec![stmt]);
-            } else {
-                // Single statement in else: else return 0;
-                if let Some(stmt) = extract_single_statement(cursor) {
-                    if_data.else_block = Some(vec![stmt]);
-                }
-            }
+            // (an else-if chain is a single nested if statement)
+            if_data.else_block = Some(extract_body(cursor));
             if_data.child_index += 1;
             CXChildVisit_Continue
         }
@@ -675,7 +663,6 @@ pub(crate) fn extract_for_stmt(cursor: CXCursor) -> Option<Statement> {
     let mut init: Vec<Statement> = Vec::new();
     let mut condition: Option<Expression> = None;
     let mut increment: Vec<Statement> = Vec::new();
-    let mut body: Vec<Statement> = Vec::new();
 
     let num_children = collector.children.len();
 
@@ -756,7 +743,7 @@ pub(crate) fn extract_for_stmt(cursor: CXCursor) -> Option<Statement> {
     }
 
     if num_children == 0 {
-        return Some(Statement::For { init, condition, increment, body });
+        return Some(Statement::For { init, condition, increment, body: Vec::new() });
     }
 
     // Process children based on count and types
@@ -765,17 +752,7 @@ pub(crate) fn extract_for_stmt(cursor: CXCursor) -> Option<Statement> {
     let body_child = &collector.children[body_idx];
 
     // Extract body
-    if body_child.kind == CXCursor_CompoundStmt {
-        let body_ptr = &mut body as *mut Vec<Statement>;
-        unsafe {
-            clang_visitChildren(body_child.cursor, visit_statement, body_ptr as CXClientData);
-        }
-    } else {
-        // Single statement body - extract it
-        if let Some(stmt) = extract_single_statement(body_child.cursor) {
-            body.push(stmt);
-        }
-    }
+    let body = extract_body(body_child.cursor);
 
     // Process children before body
     let pre_body = &collector.children[..body_idx];
@@ -933,13 +910,8 @@ pub(crate) extern "C" fn visit_while_children(
             CXChildVisit_Continue
         }
         1 => {
-            // Second child: body
-            if kind == CXCursor_CompoundStmt {
-                let body_ptr = &mut while_data.body as *mut Vec<Statement>;
-                unsafe {
-                    clang_visitChildren(cursor, visit_statement, body_ptr as CXClientData);
-                }
-            }
+            // Second child: body, with or without braces
+            while_data.body = extract_body(cursor);
             while_data.child_index += 1;
             CXChildVisit_Continue
         }
-- 
2.43.0


From db07c74aaab3f3c27786c54fc5b61879ea246b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:06 +0000
Subject: [PATCH 08/96] fix: assign for-loop header parts by position and keep
 compound, comma and lone parts

---
 crates/decy-parser/src/extract/statements.rs | 197 ++++++-------------
 1 file changed, 61 insertions(+), 136 deletions(-)

diff --git a/crates/decy-parser/src/extract/statements.rs b/crates/decy-parser/src/extract/statements.rs
index 571b930..3e59795 100644
--- a/crates/decy-parser/src/extract/statements.rs
+++ b/crates/decy-parser/src/extract/statements.rs
@@ -621,6 +621,48 @@ pub(crate) extern "C" fn visit_if_children(
     }
 }
 
+/// File offset of a location (of its expansion, when a macro produced it).
+fn expansion_offset(location: CXSourceLocation) -> u32 {
+    let mut offset = 0u32;
+    unsafe {
+        clang_getExpansionLocation(
+            location,
+            ptr::null_mut(),
+            ptr::null_mut(),
+            ptr::null_mut(),
+            &mut offset,
+        );
+    }
+    offset
+}
+
+/// Offsets of the two semicolons in the header of a for loop.
+fn for_header_semicolons(cursor: CXCursor) -> Option<(u32, u32)> {
+    let tu = unsafe { clang_Cursor_getTranslationUnit(cursor) };
+    if tu.is_null() {
+        return None;
+    }
+    let mut tokens = ptr::null_mut();
+    let mut num_tokens = 0;
+    let mut offsets: Vec<u32> = Vec::new();
+    unsafe {
+        clang_tokenize(tu, clang_getCursorExtent(cursor), &mut tokens, &mut num_tokens);
+        for i in 0..num_tokens {
+            let token = *tokens.add(i as usize);
+            let spelling = clang_getTokenSpelling(tu, token);
+            if CStr::from_ptr(clang_getCString(spelling)).to_bytes() == b";" && offsets.len() < 2 {
+                offsets.push(expansion_offset(clang_getTokenLocation(tu, token)));
+            }
+            clang_disposeString(spelling);
+        }
+        clang_disposeTokens(tu, tokens, num_tokens);
+    }
+    match offsets[..] {
+        [first, second] => Some((first, second)),
+        _ => None,
+    }
+}
+
 /// Extract a for loop statement.
 pub(crate) fn extract_for_stmt(cursor: CXCursor) -> Option<Statement> {
     // DECY-200: Two-pass approach to handle for loops with empty parts
@@ -632,7 +674,6 @@ pub(crate) fn extract_for_stmt(cursor: CXCursor) -> Option<Statement> {
     #[repr(C)]
     struct ForChildInfo {
         cursor: CXCursor,
-        kind: i32,
     }
 
     #[repr(C)]
@@ -647,8 +688,7 @@ pub(crate) fn extract_for_stmt(cursor: CXCursor) -> Option<Statement> {
         client_data: CXClientData,
     ) -> CXChildVisitResult {
         let collector = unsafe { &mut *(client_data as *mut ForCollector) };
-        let kind = unsafe { clang_getCursorKind(cursor) };
-        collector.children.push(ForChildInfo { cursor, kind });
+        collector.children.push(ForChildInfo { cursor });
         CXChildVisit_Continue
     }
 
@@ -670,34 +710,6 @@ pub(crate) fn extract_for_stmt(cursor: CXCursor) -> Option<Statement> {
     // The children before body are init/condition/increment in that order,
     // but clang omits empty ones
 
-    // Helper to check if a BinaryOperator is an assignment
-    fn is_assignment_op(cursor: CXCursor) -> bool {
-        if let Some(op) = extract_binary_operator(cursor) {
-            matches!(op, BinaryOperator::Assign)
-        } else {
-            false
-        }
-    }
-
-    // Helper to check if a BinaryOperator is a comparison/logical (condition)
-    fn is_condition_op(cursor: CXCursor) -> bool {
-        if let Some(op) = extract_binary_operator(cursor) {
-            matches!(
-                op,
-                BinaryOperator::Equal
-                    | BinaryOperator::NotEqual
-                    | BinaryOperator::LessThan
-                    | BinaryOperator::GreaterThan
-                    | BinaryOperator::LessEqual
-                    | BinaryOperator::GreaterEqual
-                    | BinaryOperator::LogicalAnd
-                    | BinaryOperator::LogicalOr
-            )
-        } else {
-            false
-        }
-    }
-
     // DECY-224: Helper to extract increment statements (handles comma operator)
     fn extract_increment_stmts(cursor: CXCursor) -> Vec<Statement> {
         let kind = unsafe { clang_getCursorKind(cursor) };
@@ -730,15 +742,9 @@ pub(crate) fn extract_for_stmt(cursor: CXCursor) -> Option<Statement> {
                 }
                 return stmts;
             }
-            // Assignment increment
-            if let Some(stmt) = extract_assignment_stmt(cursor) {
-                stmts.push(stmt);
-            }
-        } else if kind == CXCursor_UnaryOperator {
-            if let Some(stmt) = extract_inc_dec_stmt(cursor) {
-                stmts.push(stmt);
-            }
         }
+        // Any other expression: assignment, compound assignment, ++/--, call
+        stmts.extend(extract_body(cursor));
         stmts
     }
 
@@ -746,106 +752,25 @@ pub(crate) fn extract_for_stmt(cursor: CXCursor) -> Option<Statement> {
         return Some(Statement::For { init, condition, increment, body: Vec::new() });
     }
 
-    // Process children based on count and types
     // The LAST child is always the body
     let body_idx = num_children - 1;
-    let body_child = &collector.children[body_idx];
-
-    // Extract body
-    let body = extract_body(body_child.cursor);
-
-    // Process children before body
-    let pre_body = &collector.children[..body_idx];
-
-    match pre_body.len() {
-        0 => {
-            // for (;;) - infinite loop with no init/condition/increment
-        }
-        1 => {
-            // One child before body - could be init, condition, or increment
-            // Use heuristics to determine which
-            let child = &pre_body[0];
-            if child.kind == CXCursor_DeclStmt {
-                // DeclStmt - always init
-                let mut init_stmts = Vec::new();
-                let ptr = &mut init_stmts as *mut Vec<Statement>;
-                unsafe {
-                    clang_visitChildren(child.cursor, visit_statement, ptr as CXClientData);
-                }
-            } else if child.kind == CXCursor_BinaryOperator {
-                if is_assignment_op(child.cursor) {
-                    // Assignment - treat as init
-                    if let Some(stmt) = extract_assignment_stmt(child.cursor) {
-                        init.push(stmt);
-                    }
-                } else if is_condition_op(child.cursor) {
-                    // Comparison - treat as condition
-                    condition = extract_binary_op(child.cursor);
-                } else {
-                    // Ambiguous - default to condition
-                    condition = extract_binary_op(child.cursor);
-                }
-            } else if child.kind == CXCursor_UnaryOperator {
-                increment = extract_increment_stmts(child.cursor);
-            } else {
-                // Treat as condition by default
-                condition = extract_expression_from_cursor(child.cursor);
+    let body = extract_body(collector.children[body_idx].cursor);
+
+    // Which of init/condition/increment a child is follows from the header's two
+    // semicolons (empty parts have no child at all)
+    let semicolons = for_header_semicolons(cursor);
+    for (idx, child) in collector.children[..body_idx].iter().enumerate() {
+        let slot = match semicolons {
+            Some((first, second)) => {
+                let offset = expansion_offset(unsafe { clang_getCursorLocation(child.cursor) });
+                usize::from(offset > first) + usize::from(offset > second)
             }
-        }
-        2 => {
-            // Two children before body
-            // Most common case: condition and increment (init is empty)
-            let child0 = &pre_body[0];
-            let child1 = &pre_body[1];
-
-            // Check if first child is init (DeclStmt or assignment)
-            let first_is_init = child0.kind == CXCursor_DeclStmt
-                || (child0.kind == CXCursor_BinaryOperator && is_assignment_op(child0.cursor));
-
-            if first_is_init {
-                // child0 = init, child1 = condition (skip increment)
-                if child0.kind == CXCursor_DeclStmt {
-                    // DECY-224: Collect ALL declarations
-                    let ptr = &mut init as *mut Vec<Statement>;
-                    unsafe {
-                        clang_visitChildren(child0.cursor, visit_statement, ptr as CXClientData);
-                    }
-                } else if let Some(stmt) = extract_assignment_stmt(child0.cursor) {
-                    init.push(stmt);
-                }
-                condition = extract_expression_from_cursor(child1.cursor);
-            } else {
-                // child0 = condition, child1 = increment (no init)
-                condition = extract_expression_from_cursor(child0.cursor);
-                increment = extract_increment_stmts(child1.cursor);
-            }
-        }
-        3 => {
-            // Three children before body - init, condition, increment all present
-            let child0 = &pre_body[0];
-            let child1 = &pre_body[1];
-            let child2 = &pre_body[2];
-
-            // Init - DECY-224: Collect ALL declarations
-            if child0.kind == CXCursor_DeclStmt {
-                let ptr = &mut init as *mut Vec<Statement>;
-                unsafe {
-                    clang_visitChildren(child0.cursor, visit_statement, ptr as CXClientData);
-                }
-            } else if child0.kind == CXCursor_BinaryOperator {
-                if let Some(stmt) = extract_assignment_stmt(child0.cursor) {
-                    init.push(stmt);
-                }
-            }
-
-            // Condition
-            condition = extract_expression_from_cursor(child1.cursor);
-
-            // Increment - DECY-224: Handle comma operators
-            increment = extract_increment_stmts(child2.cursor);
-        }
-        _ => {
-            // More than 3 children before body - unexpected, handle gracefully
+            None => idx,
+        };
+        match slot {
+            0 => init.extend(extract_increment_stmts(child.cursor)),
+            1 => condition = extract_expression_from_cursor(child.cursor),
+            _ => increment.extend(extract_increment_stmts(child.cursor)),
         }
     }
 
-- 
2.43.0


From 37cb9ee30dd7dc3191ac8c2ba2aa46868936db9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:35 +0000
Subject: [PATCH 09/96] fix: test non-boolean for-loop conditions against zero

---
 crates/decy-codegen/src/stmt_gen.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/crates/decy-codegen/src/stmt_gen.rs b/crates/decy-codegen/src/stmt_gen.rs
index 718e1df..dfa1094 100644
--- a/crates/decy-codegen/src/stmt_gen.rs
+++ b/crates/decy-codegen/src/stmt_gen.rs
@@ -651,10 +651,15 @@ impl CodeGenerator {
 
         // Generate loop: `loop {}` for None (for(;;)), `while cond {}` for Some
         if let Some(cond) = condition {
-            code.push_str(&format!(
-                "while {} {{\n",
-                self.generate_expression_with_context(cond, ctx)
-            ));
+            let cond_code = self.generate_expression_with_context(cond, ctx);
+            let cond_str = if Self::is_boolean_expression(cond) {
+                cond_code
+            } else if matches!(ctx.infer_expression_type(cond), Some(HirType::Pointer(_))) {
+                format!("!{}.is_null()", cond_code)
+            } else {
+                format!("({}) != 0", cond_code)
+            };
+            code.push_str(&format!("while {} {{\n", cond_str));
         } else {
             code.push_str("loop {\n");
         }
-- 
2.43.0


From accd4c2c8d64bece469b35bb436aa55b5ea872a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:40 +0000
Subject: [PATCH 10/96] fix: run the for-loop increment when the body continues

---
 crates/decy-codegen/src/stmt_gen.rs | 45 ++++++++++++++++++++++++++++-
 1 file changed, 44 insertions(+), 1 deletion(-)

diff --git a/crates/decy-codegen/src/stmt_gen.rs b/crates/decy-codegen/src/stmt_gen.rs
index dfa1094..b33733c 100644
--- a/crates/decy-codegen/src/stmt_gen.rs
+++ b/crates/decy-codegen/src/stmt_gen.rs
@@ -624,6 +624,46 @@ impl CodeGenerator {
         }
     }
 
+    /// Insert a for loop's increment before every `continue` that belongs to that loop.
+    fn increment_before_continue(
+        body: &[HirStatement],
+        increment: &[HirStatement],
+    ) -> Vec<HirStatement> {
+        let nested = |block: &[HirStatement]| Self::increment_before_continue(block, increment);
+        let mut result = Vec::with_capacity(body.len());
+        for stmt in body {
+            match stmt {
+                HirStatement::Continue => {
+                    result.extend(increment.iter().cloned());
+                    result.push(HirStatement::Continue);
+                }
+                HirStatement::If { condition, then_block, else_block } => {
+                    result.push(HirStatement::If {
+                        condition: condition.clone(),
+                        then_block: nested(then_block),
+                        else_block: else_block.as_deref().map(nested),
+                    });
+                }
+                HirStatement::Switch { condition, cases, default_case } => {
+                    result.push(HirStatement::Switch {
+                        condition: condition.clone(),
+                        cases: cases
+                            .iter()
+                            .map(|case| decy_hir::SwitchCase {
+                                value: case.value.clone(),
+                                body: nested(&case.body),
+                            })
+                            .collect(),
+                        default_case: default_case.as_deref().map(nested),
+                    });
+                }
+                // A nested loop owns its `continue` statements
+                other => result.push(other.clone()),
+            }
+        }
+        result
+    }
+
     /// Generate a for statement.
     #[allow(clippy::too_many_arguments)]
     fn generate_for_statement(
@@ -664,8 +704,11 @@ impl CodeGenerator {
             code.push_str("loop {\n");
         }
 
+        // `continue` still runs the increment before the next test
+        let body = Self::increment_before_continue(body, increment);
+
         // Generate loop body
-        for stmt in body {
+        for stmt in &body {
             code.push_str("    ");
             code.push_str(&self.generate_statement_with_context(
                 stmt,
-- 
2.43.0


From 6cf903fc4c5e38c1f18a4a296246aa98beeac6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:10 +0000
Subject: [PATCH 11/96] fix: do not let a for-loop variable shadow past the end
 of its loop

---
 crates/decy-codegen/src/stmt_gen.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/crates/decy-codegen/src/stmt_gen.rs b/crates/decy-codegen/src/stmt_gen.rs
index b33733c..a5f9ee8 100644
--- a/crates/decy-codegen/src/stmt_gen.rs
+++ b/crates/decy-codegen/src/stmt_gen.rs
@@ -678,6 +678,20 @@ impl CodeGenerator {
     ) -> String {
         let mut code = String::new();
 
+        // A loop variable that shadows another variable must not outlive the loop
+        let shadowed: Vec<(String, HirType)> = init
+            .iter()
+            .filter_map(|stmt| match stmt {
+                HirStatement::VariableDeclaration { name, .. } => {
+                    ctx.get_type(name).map(|ty| (name.clone(), ty.clone()))
+                }
+                _ => None,
+            })
+            .collect();
+        if !shadowed.is_empty() {
+            code.push_str("{\n");
+        }
+
         // DECY-224: Generate ALL init statements before loop
         for init_stmt in init {
             code.push_str(&self.generate_statement_with_context(
@@ -732,6 +746,12 @@ impl CodeGenerator {
         }
 
         code.push('}');
+        if !shadowed.is_empty() {
+            code.push_str("\n}");
+        }
+        for (name, ty) in shadowed {
+            ctx.add_variable(name, ty);
+        }
         code
     }
 
-- 
2.43.0


From 4e07294eb2dc428350bac959ecdd6832e1b6364e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:12 +0000
Subject: [PATCH 12/96] fix: translate do-while loops

---
 crates/decy-parser/src/extract/mod.rs        | 13 +++++--
 crates/decy-parser/src/extract/statements.rs | 40 ++++++++++++++++++++
 2 files changed, 50 insertions(+), 3 deletions(-)

diff --git a/crates/decy-parser/src/extract/mod.rs b/crates/decy-parser/src/extract/mod.rs
index a616ccb..71646b3 100644
--- a/crates/decy-parser/src/extract/mod.rs
+++ b/crates/decy-parser/src/extract/mod.rs
@@ -24,9 +24,9 @@ use std::ptr;
 
 use self::expressions::extract_statement;
 use self::statements::{
-    extract_assignment_stmt, extract_compound_assignment_stmt, extract_for_stmt, extract_if_stmt,
-    extract_inc_dec_stmt, extract_return_stmt, extract_switch_stmt, extract_var_decl,
-    extract_while_stmt,
+    extract_assignment_stmt, extract_compound_assignment_stmt, extract_do_stmt, extract_for_stmt,
+    extract_if_stmt, extract_inc_dec_stmt, extract_return_stmt, extract_switch_stmt,
+    extract_var_decl, extract_while_stmt,
 };
 
 #[allow(non_upper_case_globals)]
@@ -321,6 +321,13 @@ pub(crate) extern "C" fn visit_statement(
             }
             CXChildVisit_Continue
         }
+        CXCursor_DoStmt => {
+            // Do-while loop
+            if let Some(stmt) = extract_do_stmt(cursor) {
+                statements.push(stmt);
+            }
+            CXChildVisit_Continue
+        }
         CXCursor_SwitchStmt => {
             // Switch statement
             if let Some(stmt) = extract_switch_stmt(cursor) {
diff --git a/crates/decy-parser/src/extract/statements.rs b/crates/decy-parser/src/extract/statements.rs
index 3e59795..d2453fe 100644
--- a/crates/decy-parser/src/extract/statements.rs
+++ b/crates/decy-parser/src/extract/statements.rs
@@ -801,6 +801,46 @@ pub(crate) fn extract_while_stmt(cursor: CXCursor) -> Option<Statement> {
     Some(Statement::While { condition: while_data.condition?, body: while_data.body })
 }
 
+/// Extract a do-while loop statement.
+///
+/// `do { body } while (cond);` tests its condition after each pass, including the
+/// ones ended by `continue`, so it becomes `for (;; if (!cond) break) { body }`.
+pub(crate) fn extract_do_stmt(cursor: CXCursor) -> Option<Statement> {
+    extern "C" fn collect_children(
+        cursor: CXCursor,
+        _parent: CXCursor,
+        client_data: CXClientData,
+    ) -> CXChildVisitResult {
+        let children = unsafe { &mut *(client_data as *mut Vec<CXCursor>) };
+        children.push(cursor);
+        CXChildVisit_Continue
+    }
+
+    // A do-while loop has 2 children: the body, then the condition
+    let mut children: Vec<CXCursor> = Vec::new();
+    unsafe {
+        clang_visitChildren(cursor, collect_children, &mut children as *mut _ as CXClientData);
+    }
+    let [body, condition] = children[..] else {
+        return None;
+    };
+
+    let leave = Expression::UnaryOp {
+        op: UnaryOperator::LogicalNot,
+        operand: Box::new(extract_expression_from_cursor(condition)?),
+    };
+    Some(Statement::For {
+        init: Vec::new(),
+        condition: None,
+        increment: vec![Statement::If {
+            condition: leave,
+            then_block: vec![Statement::Break],
+            else_block: None,
+        }],
+        body: extract_body(body),
+    })
+}
+
 /// Visitor for while loop children.
 pub(crate) extern "C" fn visit_while_children(
     cursor: CXCursor,
-- 
2.43.0


From d667afbec935dea2c631d741824d562ddac74f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:58 +0000
Subject: [PATCH 13/96] fix: keep all statements, shared labels and fallthrough
 of switch cases

---
 crates/decy-parser/src/extract/statements.rs | 196 ++++++++-----------
 1 file changed, 82 insertions(+), 114 deletions(-)

diff --git a/crates/decy-parser/src/extract/statements.rs b/crates/decy-parser/src/extract/statements.rs
index d2453fe..7f80a6d 100644
--- a/crates/decy-parser/src/extract/statements.rs
+++ b/crates/decy-parser/src/extract/statements.rs
@@ -8,7 +8,7 @@ use std::ptr;
 use super::expressions::{
     extract_array_index, extract_binary_op, extract_binary_operator, extract_char_literal,
     extract_expression_from_cursor, extract_field_access, extract_float_literal,
-    extract_function_call, extract_int_literal, extract_statement,
+    extract_function_call, extract_int_literal,
     extract_unary_op, extract_variable_ref, try_extract_expression, visit_binary_operand,
     visit_expression,
 };
@@ -895,13 +895,11 @@ pub(crate) fn extract_switch_stmt(cursor: CXCursor) -> Option<Statement> {
     #[repr(C)]
     struct SwitchData {
         condition: Option<Expression>,
-        cases: Vec<SwitchCase>,
-        default_case: Option<Vec<Statement>>,
+        groups: Vec<SwitchGroup>,
         child_index: u32,
     }
 
-    let mut switch_data =
-        SwitchData { condition: None, cases: Vec::new(), default_case: None, child_index: 0 };
+    let mut switch_data = SwitchData { condition: None, groups: Vec::new(), child_index: 0 };
 
     let data_ptr = &mut switch_data as *mut SwitchData;
 
@@ -909,11 +907,28 @@ pub(crate) fn extract_switch_stmt(cursor: CXCursor) -> Option<Statement> {
         clang_visitChildren(cursor, visit_switch_children, data_ptr as CXClientData);
     }
 
-    Some(Statement::Switch {
-        condition: switch_data.condition?,
-        cases: switch_data.cases,
-        default_case: switch_data.default_case,
-    })
+    let mut cases: Vec<SwitchCase> = Vec::new();
+    let mut default_case: Option<Vec<Statement>> = None;
+    for (idx, group) in switch_data.groups.iter().enumerate() {
+        // Without a break, control falls through into the following labels
+        let mut body = group.body.clone();
+        for next in &switch_data.groups[idx + 1..] {
+            if leaves_switch(&body) {
+                break;
+            }
+            body.extend(next.body.iter().cloned());
+        }
+        for label in &group.labels {
+            match label {
+                Some(value) => {
+                    cases.push(SwitchCase { value: Some(value.clone()), body: body.clone() });
+                }
+                None => default_case = Some(body.clone()),
+            }
+        }
+    }
+
+    Some(Statement::Switch { condition: switch_data.condition?, cases, default_case })
 }
 
 /// Visitor callback for switch statement children (condition and body).
@@ -925,8 +940,7 @@ pub(crate) extern "C" fn visit_switch_children(
     #[repr(C)]
     struct SwitchData {
         condition: Option<Expression>,
-        cases: Vec<SwitchCase>,
-        default_case: Option<Vec<Statement>>,
+        groups: Vec<SwitchGroup>,
         child_index: u32,
     }
 
@@ -947,7 +961,11 @@ pub(crate) extern "C" fn visit_switch_children(
             // Need to visit this recursively to find case/default labels
             if kind == CXCursor_CompoundStmt {
                 unsafe {
-                    clang_visitChildren(cursor, visit_switch_body, client_data);
+                    clang_visitChildren(
+                        cursor,
+                        visit_switch_body,
+                        &mut switch_data.groups as *mut Vec<SwitchGroup> as CXClientData,
+                    );
                 }
             }
             switch_data.child_index += 1;
@@ -963,122 +981,72 @@ pub(crate) extern "C" fn visit_switch_body(
     _parent: CXCursor,
     client_data: CXClientData,
 ) -> CXChildVisitResult {
-    #[repr(C)]
-    struct SwitchData {
-        condition: Option<Expression>,
-        cases: Vec<SwitchCase>,
-        default_case: Option<Vec<Statement>>,
-        child_index: u32,
-    }
-
-    let switch_data = unsafe { &mut *(client_data as *mut SwitchData) };
-    let kind = unsafe { clang_getCursorKind(cursor) };
-
-    match kind {
-        CXCursor_CaseStmt => {
-            // Extract case statement
-            if let Some(case) = extract_case_stmt(cursor) {
-                switch_data.cases.push(case);
-            }
-            CXChildVisit_Continue
-        }
-        CXCursor_DefaultStmt => {
-            // Extract default statement
-            if let Some(body) = extract_default_stmt(cursor) {
-                switch_data.default_case = Some(body);
-            }
-            CXChildVisit_Continue
-        }
-        _ => CXChildVisit_Continue,
-    }
+    let groups = unsafe { &mut *(client_data as *mut Vec<SwitchGroup>) };
+    extract_switch_item(cursor, groups);
+    CXChildVisit_Continue
 }
 
-/// Extract a case statement from a cursor.
-pub(crate) fn extract_case_stmt(cursor: CXCursor) -> Option<SwitchCase> {
-    // Case statement has 2 children:
-    // 1. Case value expression
-    // 2. Body (statements following the case label)
+/// The labels in front of one run of statements in a switch body
+/// (`None` is the default label), and those statements.
+pub(crate) struct SwitchGroup {
+    labels: Vec<Option<Expression>>,
+    body: Vec<Statement>,
+}
 
-    #[repr(C)]
-    struct CaseData {
-        value: Option<Expression>,
-        body: Vec<Statement>,
-        child_index: u32,
+/// Add one child of a switch body (a label or a plain statement) to the groups.
+fn extract_switch_item(cursor: CXCursor, groups: &mut Vec<SwitchGroup>) {
+    extern "C" fn collect_children(
+        cursor: CXCursor,
+        _parent: CXCursor,
+        client_data: CXClientData,
+    ) -> CXChildVisitResult {
+        let children = unsafe { &mut *(client_data as *mut Vec<CXCursor>) };
+        children.push(cursor);
+        CXChildVisit_Continue
     }
 
-    let mut case_data = CaseData { value: None, body: Vec::new(), child_index: 0 };
-
-    let data_ptr = &mut case_data as *mut CaseData;
-
-    unsafe {
-        clang_visitChildren(cursor, visit_case_children, data_ptr as CXClientData);
+    let kind = unsafe { clang_getCursorKind(cursor) };
+    if kind != CXCursor_CaseStmt && kind != CXCursor_DefaultStmt {
+        // A statement after a label belongs to the most recent label
+        if let Some(group) = groups.last_mut() {
+            group.body.extend(extract_body(cursor));
+        }
+        return;
     }
 
-    Some(SwitchCase { value: case_data.value, body: case_data.body })
-}
-
-/// Visitor for case statement children.
-pub(crate) extern "C" fn visit_case_children(
-    cursor: CXCursor,
-    _parent: CXCursor,
-    client_data: CXClientData,
-) -> CXChildVisitResult {
-    #[repr(C)]
-    struct CaseData {
-        value: Option<Expression>,
-        body: Vec<Statement>,
-        child_index: u32,
+    let mut children: Vec<CXCursor> = Vec::new();
+    unsafe {
+        clang_visitChildren(cursor, collect_children, &mut children as *mut _ as CXClientData);
     }
+    let mut children = children.into_iter();
 
-    let case_data = unsafe { &mut *(client_data as *mut CaseData) };
-    let _kind = unsafe { clang_getCursorKind(cursor) };
-
-    match case_data.child_index {
-        0 => {
-            // First child: case value expression
-            if let Some(expr) = try_extract_expression(cursor) {
-                case_data.value = Some(expr);
-            }
-            case_data.child_index += 1;
-            CXChildVisit_Continue
-        }
+    // A case label starts with its value
+    let label = if kind == CXCursor_CaseStmt {
+        children.next().and_then(try_extract_expression).map(Some)
+    } else {
+        Some(None)
+    };
+    match groups.last_mut() {
+        // Adjacent labels (case 1: case 2:) share their statements
+        Some(group) if group.body.is_empty() => group.labels.extend(label),
         _ => {
-            // Subsequent children: statements in case body
-            // Extract statements until we hit another case or default
-            if let Some(stmt) = extract_statement(cursor) {
-                case_data.body.push(stmt);
-            }
-            // Continue recursing to find all statements in the case body
-            CXChildVisit_Recurse
+            groups.push(SwitchGroup { labels: label.into_iter().collect(), body: Vec::new() });
         }
     }
-}
 
-/// Extract a default statement from a cursor.
-pub(crate) fn extract_default_stmt(cursor: CXCursor) -> Option<Vec<Statement>> {
-    // Default statement has body statements as children
-    let mut body: Vec<Statement> = Vec::new();
-    let body_ptr = &mut body as *mut Vec<Statement>;
-
-    unsafe {
-        clang_visitChildren(cursor, visit_default_children, body_ptr as CXClientData);
+    // What a label is attached to is a statement or another label
+    for child in children {
+        extract_switch_item(child, groups);
     }
-
-    Some(body)
 }
 
-/// Visitor for default statement children.
-pub(crate) extern "C" fn visit_default_children(
-    cursor: CXCursor,
-    _parent: CXCursor,
-    client_data: CXClientData,
-) -> CXChildVisitResult {
-    let body = unsafe { &mut *(client_data as *mut Vec<Statement>) };
-
-    // Extract all statements in default body
-    if let Some(stmt) = extract_statement(cursor) {
-        body.push(stmt);
+/// Whether control never runs past the end of these statements.
+fn leaves_switch(body: &[Statement]) -> bool {
+    match body.last() {
+        Some(Statement::Break | Statement::Continue | Statement::Return(_)) => true,
+        Some(Statement::If { then_block, else_block: Some(else_block), .. }) => {
+            leaves_switch(then_block) && leaves_switch(else_block)
+        }
+        _ => false,
     }
-
-    CXChildVisit_Continue
 }
-- 
2.43.0


From ff29df9f2c7cc00b4576fd5a5d337431caab9b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:03 +0000
Subject: [PATCH 14/96] fix: end a switch case at a break nested in an if

---
 crates/decy-codegen/src/stmt_gen.rs | 80 ++++++++++++++++++++---------
 1 file changed, 57 insertions(+), 23 deletions(-)

diff --git a/crates/decy-codegen/src/stmt_gen.rs b/crates/decy-codegen/src/stmt_gen.rs
index a5f9ee8..8aa2b18 100644
--- a/crates/decy-codegen/src/stmt_gen.rs
+++ b/crates/decy-codegen/src/stmt_gen.rs
@@ -755,6 +755,44 @@ impl CodeGenerator {
         code
     }
 
+    /// Whether these statements contain a `break` out of the enclosing switch.
+    fn breaks_switch(body: &[HirStatement]) -> bool {
+        body.iter().any(|stmt| match stmt {
+            HirStatement::Break => true,
+            HirStatement::If { then_block, else_block, .. } => {
+                Self::breaks_switch(then_block)
+                    || else_block.as_deref().is_some_and(Self::breaks_switch)
+            }
+            _ => false,
+        })
+    }
+
+    /// Rewrite the body of a switch case without `break`: a `break` ends the case, so what
+    /// follows an `if` that may break only runs in the branches that do not.
+    fn without_switch_breaks(body: &[HirStatement]) -> Vec<HirStatement> {
+        let mut result = Vec::with_capacity(body.len());
+        for (idx, stmt) in body.iter().enumerate() {
+            match stmt {
+                HirStatement::Break => return result,
+                HirStatement::If { condition, then_block, else_block }
+                    if Self::breaks_switch(std::slice::from_ref(stmt)) =>
+                {
+                    let rest = &body[idx + 1..];
+                    let branch =
+                        |block: &[HirStatement]| Self::without_switch_breaks(&[block, rest].concat());
+                    result.push(HirStatement::If {
+                        condition: condition.clone(),
+                        then_block: branch(then_block),
+                        else_block: Some(branch(else_block.as_deref().unwrap_or(&[]))),
+                    });
+                    return result;
+                }
+                other => result.push(other.clone()),
+            }
+        }
+        result
+    }
+
     /// Generate a switch statement as a Rust match expression.
     fn generate_switch_statement(
         &self,
@@ -797,29 +835,8 @@ impl CodeGenerator {
                 };
                 code.push_str(&format!("    {} => {{\n", case_pattern));
 
-                // Generate case body (filter out Break statements)
-                for stmt in &case.body {
-                    if !matches!(stmt, HirStatement::Break) {
-                        code.push_str("        ");
-                        code.push_str(&self.generate_statement_with_context(
-                            stmt,
-                            function_name,
-                            ctx,
-                            return_type,
-                        ));
-                        code.push('\n');
-                    }
-                }
-
-                code.push_str("    },\n");
-            }
-        }
-
-        // Generate default case (or empty default if not present)
-        code.push_str("    _ => {\n");
-        if let Some(default_stmts) = default_case {
-            for stmt in default_stmts {
-                if !matches!(stmt, HirStatement::Break) {
+                // Generate case body (a match arm needs no break)
+                for stmt in &Self::without_switch_breaks(&case.body) {
                     code.push_str("        ");
                     code.push_str(&self.generate_statement_with_context(
                         stmt,
@@ -829,6 +846,23 @@ impl CodeGenerator {
                     ));
                     code.push('\n');
                 }
+
+                code.push_str("    },\n");
+            }
+        }
+
+        // Generate default case (or empty default if not present)
+        code.push_str("    _ => {\n");
+        if let Some(default_stmts) = default_case {
+            for stmt in &Self::without_switch_breaks(default_stmts) {
+                code.push_str("        ");
+                code.push_str(&self.generate_statement_with_context(
+                    stmt,
+                    function_name,
+                    ctx,
+                    return_type,
+                ));
+                code.push('\n');
             }
         }
         code.push_str("    },\n");
-- 
2.43.0


From caaf2e9645ce4b62f74a11f82703cc1d65fb49fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:52 +0000
Subject: [PATCH 15/96] fix: fold the negation of the smallest int without
 panicking

---
 crates/decy-core/src/optimize.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/decy-core/src/optimize.rs b/crates/decy-core/src/optimize.rs
index efcca84..2579ac7 100644
--- a/crates/decy-core/src/optimize.rs
+++ b/crates/decy-core/src/optimize.rs
@@ -129,7 +129,7 @@ fn fold_constants_expr(expr: HirExpression) -> HirExpression {
         HirExpression::UnaryOp { op, operand } => {
             let operand = fold_constants_expr(*operand);
             if let (decy_hir::UnaryOperator::Minus, HirExpression::IntLiteral(v)) = (op, &operand) {
-                return HirExpression::IntLiteral(-v);
+                return HirExpression::IntLiteral(v.wrapping_neg());
             }
             HirExpression::UnaryOp { op, operand: Box::new(operand) }
         }
-- 
2.43.0


From 0b8f4505bedffea4aa4ec514aaf8d28321896d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:52 +0000
Subject: [PATCH 16/96] fix: leave pointer casts in binary operands transparent

---
 crates/decy-parser/src/extract/expressions.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/crates/decy-parser/src/extract/expressions.rs b/crates/decy-parser/src/extract/expressions.rs
index ae84639..34f3221 100644
--- a/crates/decy-parser/src/extract/expressions.rs
+++ b/crates/decy-parser/src/extract/expressions.rs
@@ -690,11 +690,17 @@ pub(crate) extern "C" fn visit_binary_operand(
             CXChildVisit_Continue
         }
         117 => {
-            // CXCursor_CStyleCastExpr - keep the conversion, not just its operand
-            if let Some(expr) = extract_cast(cursor) {
-                operands.push(expr);
+            // CXCursor_CStyleCastExpr - keep arithmetic conversions, not just their operand
+            // (pointer casts stay transparent, as in `p = (T *)malloc(n)`)
+            match extract_cast(cursor) {
+                Some(Expression::Cast { target_type: Type::Pointer(_), .. }) | None => {
+                    CXChildVisit_Recurse
+                }
+                Some(expr) => {
+                    operands.push(expr);
+                    CXChildVisit_Continue
+                }
             }
-            CXChildVisit_Continue
         }
         116 => {
             // CXCursor_ConditionalOperator (ternary) - DECY-192
-- 
2.43.0


From 4ee87bdf82d1a71453fe672a4170b3f89d545e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:52 +0000
Subject: [PATCH 17/96] fix: apply unary minus and bitwise not to their whole
 operand

---
 crates/decy-codegen/src/expr_gen/calls.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/crates/decy-codegen/src/expr_gen/calls.rs b/crates/decy-codegen/src/expr_gen/calls.rs
index 221aefd..e39cac7 100644
--- a/crates/decy-codegen/src/expr_gen/calls.rs
+++ b/crates/decy-codegen/src/expr_gen/calls.rs
@@ -118,7 +118,20 @@ impl CodeGenerator {
             _ => {
                 let op_str = Self::unary_operator_to_string(op);
                 let operand_code = self.generate_expression_with_context(operand, ctx);
-                format!("{}{}", op_str, operand_code)
+                if Self::is_boolean_expression(operand) {
+                    // The operand is an int in C
+                    format!("{}(({}) as i32)", op_str, operand_code)
+                } else if matches!(
+                    operand,
+                    HirExpression::BinaryOp { .. }
+                        | HirExpression::Cast { .. }
+                        | HirExpression::Ternary { .. }
+                ) {
+                    // The operator applies to the whole operand
+                    format!("{}({})", op_str, operand_code)
+                } else {
+                    format!("{}{}", op_str, operand_code)
+                }
             }
         }
     }
-- 
2.43.0


From fcbd789b03a5f752e369371284df9dfb3e577f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:52 +0000
Subject: [PATCH 18/96] fix: convert truth values to int in arithmetic and
 shift operands

---
 .../decy-codegen/src/expr_gen/binary_ops.rs   | 36 +++++++++++++------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/crates/decy-codegen/src/expr_gen/binary_ops.rs b/crates/decy-codegen/src/expr_gen/binary_ops.rs
index 6e41df2..1225cb2 100644
--- a/crates/decy-codegen/src/expr_gen/binary_ops.rs
+++ b/crates/decy-codegen/src/expr_gen/binary_ops.rs
@@ -54,17 +54,33 @@ impl CodeGenerator {
         let right_code = self.generate_expression_with_context(right, ctx);
         let op_str = Self::binary_operator_to_string(op);
 
-        let left_str = if matches!(*left, HirExpression::BinaryOp { .. }) {
-            format!("({})", left_code)
-        } else {
-            left_code.clone()
-        };
-
-        let right_str = if matches!(*right, HirExpression::BinaryOp { .. }) {
-            format!("({})", right_code)
-        } else {
-            right_code.clone()
+        // Comparisons and logical operators yield an int in C
+        let int_operands = matches!(
+            op,
+            BinaryOperator::Add
+                | BinaryOperator::Subtract
+                | BinaryOperator::Multiply
+                | BinaryOperator::Divide
+                | BinaryOperator::Modulo
+                | BinaryOperator::LeftShift
+                | BinaryOperator::RightShift
+        );
+        let operand_str = |operand: &HirExpression, code: &str| {
+            if int_operands && Self::is_boolean_expression(operand) {
+                format!("(({}) as i32)", code)
+            } else if matches!(
+                operand,
+                HirExpression::BinaryOp { .. }
+                    | HirExpression::Cast { .. }
+                    | HirExpression::Ternary { .. }
+            ) {
+                format!("({})", code)
+            } else {
+                code.to_string()
+            }
         };
+        let left_str = operand_str(left, &left_code);
+        let right_str = operand_str(right, &right_code);
 
         if matches!(op, BinaryOperator::Add | BinaryOperator::Subtract) {
             if let Some(result) =
-- 
2.43.0


From c2a5b155bac5d5bcaaecd81079ad90393aa06250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:52 +0000
Subject: [PATCH 19/96] fix: yield an int from a character comparison used as a
 value

---
 crates/decy-codegen/src/expr_gen/binary_ops.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/decy-codegen/src/expr_gen/binary_ops.rs b/crates/decy-codegen/src/expr_gen/binary_ops.rs
index 1225cb2..b68d150 100644
--- a/crates/decy-codegen/src/expr_gen/binary_ops.rs
+++ b/crates/decy-codegen/src/expr_gen/binary_ops.rs
@@ -34,6 +34,9 @@ impl CodeGenerator {
 
         if is_comparison {
             if let Some(result) = self.gen_expr_binary_char_int_comparison(op, left, right, ctx) {
+                if let Some(HirType::Int) = target_type {
+                    return format!("{} as i32", result);
+                }
                 return result;
             }
         }
-- 
2.43.0


From 249a6f29ba37eff7ba2c5ba6dfe1b233bbdde7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:52 +0000
Subject: [PATCH 20/96] fix: convert truth values in conditional branches to
 int

---
 crates/decy-codegen/src/expr_gen/misc.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/decy-codegen/src/expr_gen/misc.rs b/crates/decy-codegen/src/expr_gen/misc.rs
index 04bf3b8..d8900e4 100644
--- a/crates/decy-codegen/src/expr_gen/misc.rs
+++ b/crates/decy-codegen/src/expr_gen/misc.rs
@@ -459,6 +459,14 @@ impl CodeGenerator {
         ctx: &TypeContext,
         target_type: Option<&HirType>,
     ) -> String {
+        // A truth value in either branch is an int in C
+        let target_type = if target_type.is_none()
+            && (Self::is_boolean_expression(then_expr) || Self::is_boolean_expression(else_expr))
+        {
+            Some(&HirType::Int)
+        } else {
+            target_type
+        };
         let cond_code = self.generate_expression_with_context(condition, ctx);
         let then_code = self.generate_expression_with_target_type(then_expr, ctx, target_type);
         let else_code = self.generate_expression_with_target_type(else_expr, ctx, target_type);
-- 
2.43.0


From 3aac533c4a4d2c5e5becd70a045ba54fa4c51f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:54 +0000
Subject: [PATCH 21/96] fix: zero the elements after a single array initializer

---
 crates/decy-codegen/src/expr_gen/misc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/decy-codegen/src/expr_gen/misc.rs b/crates/decy-codegen/src/expr_gen/misc.rs
index d8900e4..0264ca2 100644
--- a/crates/decy-codegen/src/expr_gen/misc.rs
+++ b/crates/decy-codegen/src/expr_gen/misc.rs
@@ -303,7 +303,7 @@ impl CodeGenerator {
                         .collect();
 
                     if let Some(n) = size {
-                        if elements.len() == 1 {
+                        if matches!(initializers, [HirExpression::IntLiteral(0)]) {
                             format!("[{}; {}]", elements[0], *n)
                         } else if elements.len() < *n {
                             let mut padded = elements.clone();
-- 
2.43.0


From a1a1a36c5c504930399422383e4e818d03e81234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:54 +0000
Subject: [PATCH 22/96] fix: escape literal braces in format strings

---
 crates/decy-codegen/src/expr_gen/misc.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/decy-codegen/src/expr_gen/misc.rs b/crates/decy-codegen/src/expr_gen/misc.rs
index 0264ca2..514834e 100644
--- a/crates/decy-codegen/src/expr_gen/misc.rs
+++ b/crates/decy-codegen/src/expr_gen/misc.rs
@@ -861,6 +861,10 @@ impl CodeGenerator {
                     result.push_str(&input[start..]);
                 }
             } else {
+                // A literal brace is doubled in a Rust format string
+                if chars[i] == '{' || chars[i] == '}' {
+                    result.push(chars[i]);
+                }
                 result.push(chars[i]);
                 i += 1;
             }
-- 
2.43.0


From 2dc3b7dcd700317b1cc0e19759458b916e84f7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:54 +0000
Subject: [PATCH 23/96] fix: read through the pointer in *p op= v

---
 crates/decy-hir/src/lib.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/crates/decy-hir/src/lib.rs b/crates/decy-hir/src/lib.rs
index 7a345ef..2b9ecfe 100644
--- a/crates/decy-hir/src/lib.rs
+++ b/crates/decy-hir/src/lib.rs
@@ -1418,12 +1418,21 @@ impl HirStatement {
             // DECY-185: Compound assignments to complex targets like *ptr *= 2, sb->capacity *= 2
             // These become DerefAssignment with a BinaryOp value
             Statement::DerefCompoundAssignment { target, op, value } => {
+                use decy_parser::parser::Expression;
                 let hir_target = HirExpression::from_ast_expression(target);
+                // Fields and elements name the modified value itself; any other target is
+                // the pointer to it
+                let current = match target {
+                    Expression::PointerFieldAccess { .. }
+                    | Expression::FieldAccess { .. }
+                    | Expression::ArrayIndex { .. } => hir_target.clone(),
+                    _ => HirExpression::Dereference(Box::new(hir_target.clone())),
+                };
                 HirStatement::DerefAssignment {
-                    target: hir_target.clone(),
+                    target: hir_target,
                     value: HirExpression::BinaryOp {
                         op: convert_binary_operator(*op),
-                        left: Box::new(hir_target),
+                        left: Box::new(current),
                         right: Box::new(HirExpression::from_ast_expression(value)),
                     },
                 }
-- 
2.43.0


From b6a7df79827287af14b55b9b43666f785d3270d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:54 +0000
Subject: [PATCH 24/96] fix: increment the pointee in (*p)++

---
 crates/decy-parser/src/extract/statements.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/crates/decy-parser/src/extract/statements.rs b/crates/decy-parser/src/extract/statements.rs
index 7f80a6d..00abb6b 100644
--- a/crates/decy-parser/src/extract/statements.rs
+++ b/crates/decy-parser/src/extract/statements.rs
@@ -258,6 +258,14 @@ pub(crate) fn extract_inc_dec_stmt(cursor: CXCursor) -> Option<Statement> {
             }
         }
 
+        // (*p)++ modifies the pointee, not the pointer
+        if kind == CXCursor_UnaryOperator {
+            if let Some(expr @ Expression::Dereference(_)) = extract_unary_op(cursor) {
+                data.0 = Some(expr);
+                return CXChildVisit_Break;
+            }
+        }
+
         // Check for member expression (sb->length, obj.field)
         if kind == CXCursor_MemberRefExpr {
             if let Some(expr) = extract_field_access(cursor) {
@@ -378,6 +386,14 @@ pub(crate) fn extract_inc_dec_stmt(cursor: CXCursor) -> Option<Statement> {
 
                 return Some(Statement::ArrayIndexAssignment { array, index, value });
             }
+            Expression::Dereference(pointer) => {
+                let op = if delta > 0 { BinaryOperator::Add } else { BinaryOperator::Subtract };
+                return Some(Statement::DerefCompoundAssignment {
+                    target: *pointer,
+                    op,
+                    value: Expression::IntLiteral(1),
+                });
+            }
             _ => {} // Fall through to simple variable handling
         }
     }
-- 
2.43.0


From 9301b751df2db59266c84d8890f5f9e3b404ba74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:31 +0000
Subject: [PATCH 25/96] fix: pass truth values to int parameters as int

---
 crates/decy-codegen/src/expr_gen/calls.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/decy-codegen/src/expr_gen/calls.rs b/crates/decy-codegen/src/expr_gen/calls.rs
index e39cac7..9d7c3a7 100644
--- a/crates/decy-codegen/src/expr_gen/calls.rs
+++ b/crates/decy-codegen/src/expr_gen/calls.rs
@@ -784,6 +784,13 @@ impl CodeGenerator {
                         if let HirExpression::CharLiteral(c) = arg {
                             return Some(format!("{}i32", *c as i32));
                         }
+                        if Self::is_boolean_expression(arg) {
+                            return Some(self.generate_expression_with_target_type(
+                                arg,
+                                ctx,
+                                Some(&HirType::Int),
+                            ));
+                        }
                     }
 
                     let is_string_param = param_type
-- 
2.43.0


From ef763508c34e6b54c481687b3f66a34e988d5aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:40 +0000
Subject: [PATCH 26/96] fix: treat character constants as int in int contexts
 and escape quote and backslash

---
 .../decy-codegen/src/expr_gen/binary_ops.rs   | 31 +++++++++++++++++--
 crates/decy-codegen/src/expr_gen/calls.rs     |  4 ++-
 crates/decy-codegen/src/expr_gen/literals.rs  |  2 ++
 crates/decy-codegen/src/expr_gen/mod.rs       |  4 +++
 4 files changed, 37 insertions(+), 4 deletions(-)

diff --git a/crates/decy-codegen/src/expr_gen/binary_ops.rs b/crates/decy-codegen/src/expr_gen/binary_ops.rs
index b68d150..2e6f811 100644
--- a/crates/decy-codegen/src/expr_gen/binary_ops.rs
+++ b/crates/decy-codegen/src/expr_gen/binary_ops.rs
@@ -41,7 +41,16 @@ impl CodeGenerator {
             }
         }
 
-        if matches!(op, BinaryOperator::Add | BinaryOperator::Subtract) {
+        if matches!(
+            op,
+            BinaryOperator::Add
+                | BinaryOperator::Subtract
+                | BinaryOperator::BitwiseAnd
+                | BinaryOperator::BitwiseOr
+                | BinaryOperator::BitwiseXor
+                | BinaryOperator::LeftShift
+                | BinaryOperator::RightShift
+        ) {
             if let Some(result) = self.gen_expr_binary_char_arithmetic(op, left, right, ctx) {
                 return result;
             }
@@ -384,7 +393,10 @@ impl CodeGenerator {
         if let HirExpression::CharLiteral(c) = right {
             let left_type = ctx.infer_expression_type(left);
             if matches!(left_type, Some(HirType::Int)) {
-                let left_code = self.generate_expression_with_context(left, ctx);
+                let mut left_code = self.generate_expression_with_context(left, ctx);
+                if Self::needs_operand_parens(left) {
+                    left_code = format!("({})", left_code);
+                }
                 let op_str = Self::binary_operator_to_string(op);
                 return Some(format!("({} {} {}i32)", left_code, op_str, *c as i32));
             }
@@ -392,7 +404,10 @@ impl CodeGenerator {
         if let HirExpression::CharLiteral(c) = left {
             let right_type = ctx.infer_expression_type(right);
             if matches!(right_type, Some(HirType::Int)) {
-                let right_code = self.generate_expression_with_context(right, ctx);
+                let mut right_code = self.generate_expression_with_context(right, ctx);
+                if Self::needs_operand_parens(right) {
+                    right_code = format!("({})", right_code);
+                }
                 let op_str = Self::binary_operator_to_string(op);
                 return Some(format!("({}i32 {} {})", *c as i32, op_str, right_code));
             }
@@ -400,6 +415,16 @@ impl CodeGenerator {
         None
     }
 
+    /// Whether the code of an operand must be parenthesised next to another operator.
+    pub(crate) fn needs_operand_parens(operand: &HirExpression) -> bool {
+        matches!(
+            operand,
+            HirExpression::BinaryOp { .. }
+                | HirExpression::Cast { .. }
+                | HirExpression::Ternary { .. }
+        )
+    }
+
     pub(crate) fn gen_expr_binary_pointer_arithmetic(
         &self,
         op: &BinaryOperator,
diff --git a/crates/decy-codegen/src/expr_gen/calls.rs b/crates/decy-codegen/src/expr_gen/calls.rs
index 9d7c3a7..3c8f475 100644
--- a/crates/decy-codegen/src/expr_gen/calls.rs
+++ b/crates/decy-codegen/src/expr_gen/calls.rs
@@ -118,7 +118,9 @@ impl CodeGenerator {
             _ => {
                 let op_str = Self::unary_operator_to_string(op);
                 let operand_code = self.generate_expression_with_context(operand, ctx);
-                if Self::is_boolean_expression(operand) {
+                if Self::is_boolean_expression(operand)
+                    || matches!(operand, HirExpression::CharLiteral(_))
+                {
                     // The operand is an int in C
                     format!("{}(({}) as i32)", op_str, operand_code)
                 } else if matches!(
diff --git a/crates/decy-codegen/src/expr_gen/literals.rs b/crates/decy-codegen/src/expr_gen/literals.rs
index 7b106e9..ce9d822 100644
--- a/crates/decy-codegen/src/expr_gen/literals.rs
+++ b/crates/decy-codegen/src/expr_gen/literals.rs
@@ -119,6 +119,8 @@ impl CodeGenerator {
         let val = c as u8;
         if val == 0 {
             "0u8".to_string()
+        } else if val == b'\'' || val == b'\\' {
+            format!("b'\\{}'", val as char)
         } else if val.is_ascii_graphic() || val == b' ' {
             format!("b'{}'", val as char)
         } else {
diff --git a/crates/decy-codegen/src/expr_gen/mod.rs b/crates/decy-codegen/src/expr_gen/mod.rs
index f9d5618..be41d7a 100644
--- a/crates/decy-codegen/src/expr_gen/mod.rs
+++ b/crates/decy-codegen/src/expr_gen/mod.rs
@@ -49,6 +49,10 @@ impl CodeGenerator {
                 self.gen_expr_unary_logical_not(operand, ctx, target_type)
             }
             HirExpression::StringLiteral(s) => self.gen_expr_string_literal(s, target_type),
+            // A character constant has type int in C
+            HirExpression::CharLiteral(c) if matches!(target_type, Some(HirType::Int)) => {
+                format!("{}i32", *c as i32)
+            }
             HirExpression::CharLiteral(c) => Self::gen_expr_char_literal(*c),
             HirExpression::Variable(name) => self.gen_expr_variable(name, ctx, target_type),
             HirExpression::BinaryOp { op, left, right } => {
-- 
2.43.0


From 349f63d96826ae133aeb8d945f7f0a22b127eb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:00 +0000
Subject: [PATCH 27/96] fix: strip only the delimiting quotes of literals and
 join adjacent strings

---
 crates/decy-parser/src/extract/expressions.rs | 23 +++++++++++++------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/crates/decy-parser/src/extract/expressions.rs b/crates/decy-parser/src/extract/expressions.rs
index 34f3221..9699010 100644
--- a/crates/decy-parser/src/extract/expressions.rs
+++ b/crates/decy-parser/src/extract/expressions.rs
@@ -441,15 +441,23 @@ pub(crate) fn extract_string_literal(cursor: CXCursor) -> Option<Expression> {
     let mut value = String::new();
 
     if num_tokens > 0 {
-        // SAFETY: Get the spelling of the first token
+        // SAFETY: Get the spelling of each token; adjacent literals are one string
         unsafe {
-            let token_cxstring = clang_getTokenSpelling(tu, *tokens);
-            let c_str = CStr::from_ptr(clang_getCString(token_cxstring));
-            if let Ok(token_str) = c_str.to_str() {
+            for i in 0..num_tokens as usize {
+                let token_cxstring = clang_getTokenSpelling(tu, *tokens.add(i));
+                let c_str = CStr::from_ptr(clang_getCString(token_cxstring));
                 // Remove surrounding quotes from string literal
-                value = token_str.trim_matches('"').to_string();
+                let part = c_str
+                    .to_str()
+                    .ok()
+                    .and_then(|t| t.strip_prefix('"')?.strip_suffix('"'))
+                    .map(str::to_string);
+                clang_disposeString(token_cxstring);
+                match part {
+                    Some(part) => value.push_str(&part),
+                    None => break,
+                }
             }
-            clang_disposeString(token_cxstring);
 
             // SAFETY: Dispose tokens
             clang_disposeTokens(tu, tokens, num_tokens);
@@ -489,7 +497,8 @@ pub(crate) fn extract_char_literal(cursor: CXCursor) -> Option<Expression> {
             let c_str = CStr::from_ptr(clang_getCString(token_cxstring));
             if let Ok(token_str) = c_str.to_str() {
                 // Remove surrounding quotes from character literal
-                let inner = token_str.trim_matches('\'');
+                let inner = token_str.strip_prefix('\'').unwrap_or(token_str);
+                let inner = inner.strip_suffix('\'').unwrap_or(inner);
                 value = parse_char_literal(inner);
             }
             clang_disposeString(token_cxstring);
-- 
2.43.0


From 1d21123eb40c80d95bf01d24878cb53c5a94fbc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:20 +0000
Subject: [PATCH 28/96] fix: print %c arguments as characters, string
 references as they are and truth values as int

---
 crates/decy-codegen/src/expr_gen/calls.rs | 22 ++++++++++++++++++++--
 crates/decy-codegen/src/expr_gen/misc.rs  |  7 ++++++-
 2 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/crates/decy-codegen/src/expr_gen/calls.rs b/crates/decy-codegen/src/expr_gen/calls.rs
index 3c8f475..539c2cb 100644
--- a/crates/decy-codegen/src/expr_gen/calls.rs
+++ b/crates/decy-codegen/src/expr_gen/calls.rs
@@ -487,14 +487,32 @@ impl CodeGenerator {
             if arguments.len() == 1 {
                 format!("print!({})", rust_fmt)
             } else {
+                let c_positions = Self::find_format_positions(&fmt, 'c');
                 let s_positions = Self::find_string_format_positions(&fmt);
                 let args: Vec<String> = arguments[1..]
                     .iter()
                     .enumerate()
                     .map(|(i, a)| {
+                        if Self::is_boolean_expression(a) {
+                            // Comparisons and logical operators yield an int in C
+                            return self.generate_expression_with_target_type(
+                                a,
+                                ctx,
+                                Some(&HirType::Int),
+                            );
+                        }
                         let arg_code = self.generate_expression_with_context(a, ctx);
-                        if s_positions.contains(&i) && !Self::is_string_ternary(a) {
-                            let arg_type = ctx.infer_expression_type(a);
+                        if c_positions.contains(&i) {
+                            return format!("({}) as u8 as char", arg_code);
+                        }
+                        let arg_type = ctx.infer_expression_type(a);
+                        // A string literal or string reference is already a &str
+                        let is_str = matches!(a, HirExpression::StringLiteral(_))
+                            || matches!(
+                                arg_type,
+                                Some(HirType::StringReference | HirType::StringLiteral)
+                            );
+                        if s_positions.contains(&i) && !is_str && !Self::is_string_ternary(a) {
                             let is_raw_pointer = matches!(arg_type, Some(HirType::Pointer(_)));
                             let is_function_call = matches!(a, HirExpression::FunctionCall { .. });
                             if is_raw_pointer || is_function_call {
diff --git a/crates/decy-codegen/src/expr_gen/misc.rs b/crates/decy-codegen/src/expr_gen/misc.rs
index 514834e..efd62b0 100644
--- a/crates/decy-codegen/src/expr_gen/misc.rs
+++ b/crates/decy-codegen/src/expr_gen/misc.rs
@@ -876,6 +876,11 @@ impl CodeGenerator {
     /// DECY-187: Find positions of %s format specifiers in a format string.
     /// Returns 0-indexed positions corresponding to printf arguments.
     pub(crate) fn find_string_format_positions(fmt: &str) -> Vec<usize> {
+        Self::find_format_positions(fmt, 's')
+    }
+
+    /// Find positions of the arguments printed with the `wanted` conversion.
+    pub(crate) fn find_format_positions(fmt: &str, wanted: char) -> Vec<usize> {
         let mut positions = Vec::new();
         let mut arg_index = 0;
         let trimmed = fmt.trim();
@@ -925,7 +930,7 @@ impl CodeGenerator {
                 // Now we should be at the conversion specifier
                 if j < chars.len() {
                     let specifier = chars[j];
-                    if specifier == 's' {
+                    if specifier == wanted {
                         positions.push(arg_index);
                     }
                     // Count this as an argument position (for d, i, u, f, s, c, p, x, X, o, e, E, g, G, n)
-- 
2.43.0


From 521c173a6ac0bd35b0d9051796b9e4312a7445ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:21 +0000
Subject: [PATCH 29/96] fix: see writes through a pointer parameter inside
 switch cases

---
 crates/decy-ownership/src/dataflow.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/decy-ownership/src/dataflow.rs b/crates/decy-ownership/src/dataflow.rs
index db876cc..658570e 100644
--- a/crates/decy-ownership/src/dataflow.rs
+++ b/crates/decy-ownership/src/dataflow.rs
@@ -184,6 +184,12 @@ impl DataflowGraph {
             HirStatement::While { body, .. } | HirStatement::For { body, .. } => {
                 body.iter().any(|s| self.statement_modifies_var(s, var))
             }
+            HirStatement::Switch { cases, default_case, .. } => {
+                cases.iter().any(|c| c.body.iter().any(|s| self.statement_modifies_var(s, var)))
+                    || default_case
+                        .as_ref()
+                        .is_some_and(|blk| blk.iter().any(|s| self.statement_modifies_var(s, var)))
+            }
             _ => false,
         }
     }
-- 
2.43.0


From 7b74494afb537e77bba4cec899561c411afe2be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:28 +0000
Subject: [PATCH 30/96] fix: convert truth values stored in nested fields

---
 crates/decy-codegen/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/decy-codegen/src/lib.rs b/crates/decy-codegen/src/lib.rs
index 13b2084..4c06398 100644
--- a/crates/decy-codegen/src/lib.rs
+++ b/crates/decy-codegen/src/lib.rs
@@ -193,12 +193,12 @@ impl TypeContext {
     fn get_field_type(&self, object_expr: &HirExpression, field_name: &str) -> Option<HirType> {
         // Get the type of the object expression
         let object_type = match object_expr {
-            HirExpression::Variable(var_name) => self.get_type(var_name)?,
-            _ => return None,
+            HirExpression::Variable(var_name) => self.get_type(var_name)?.clone(),
+            _ => self.infer_expression_type(object_expr)?,
         };
 
         // Extract the struct name from the type
-        let struct_name = match object_type {
+        let struct_name = match &object_type {
             HirType::Struct(name) => name,
             HirType::Pointer(inner) => {
                 // If it's a pointer to a struct, dereference it
-- 
2.43.0


From 691aadc7435ed6e763eb41b220907253e2bc7338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:39 +0000
Subject: [PATCH 31/96] fix: emit typedef'd and unnamed enums once

---
 crates/decy-core/src/lib.rs             | 4 ++++
 crates/decy-parser/src/extract/mod.rs   | 5 ++++-
 crates/decy-parser/src/extract/types.rs | 3 +++
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/crates/decy-core/src/lib.rs b/crates/decy-core/src/lib.rs
index c2f0317..beea946 100644
--- a/crates/decy-core/src/lib.rs
+++ b/crates/decy-core/src/lib.rs
@@ -1194,6 +1194,8 @@ pub fn transpile_with_includes(c_code: &str, base_dir: Option<&Path>) -> Result<
 
     // DECY-240: Generate enum definitions (as const i32 values)
     for hir_enum in &hir_enums {
+        // generate_enum emits the type alias, so a typedef of the same name is redundant
+        emitted_typedefs.insert(hir_enum.name().to_string());
         let enum_code = code_generator.generate_enum(hir_enum);
         rust_code.push_str(&enum_code);
         rust_code.push('\n');
@@ -1438,6 +1440,8 @@ fn process_ast_to_rust(ast: decy_parser::Ast, _base_dir: Option<&Path>) -> Resul
 
     // DECY-240: Generate enum definitions (as const i32 values)
     for hir_enum in &hir_enums {
+        // generate_enum emits the type alias, so a typedef of the same name is redundant
+        emitted_typedefs.insert(hir_enum.name().to_string());
         let enum_code = code_generator.generate_enum(hir_enum);
         rust_code.push_str(&enum_code);
         rust_code.push('\n');
diff --git a/crates/decy-parser/src/extract/mod.rs b/crates/decy-parser/src/extract/mod.rs
index 71646b3..861752a 100644
--- a/crates/decy-parser/src/extract/mod.rs
+++ b/crates/decy-parser/src/extract/mod.rs
@@ -198,8 +198,11 @@ pub(crate) extern "C" fn visit_function(
     } else if kind == 5 {
         // CXCursor_EnumDecl = 5
         // DECY-240: Extract enum declaration
+        // An enum declared inside a typedef or variable declaration is visited twice
         if let Some(enum_def) = extract_enum(cursor) {
-            ast.add_enum(enum_def);
+            if !ast.enums().contains(&enum_def) {
+                ast.add_enum(enum_def);
+            }
         }
     } else if kind == 4 {
         // CXCursor_ClassDecl = 4 (DECY-200: C++ class extraction)
diff --git a/crates/decy-parser/src/extract/types.rs b/crates/decy-parser/src/extract/types.rs
index ee6b9b5..a3233f9 100644
--- a/crates/decy-parser/src/extract/types.rs
+++ b/crates/decy-parser/src/extract/types.rs
@@ -423,6 +423,9 @@ pub(crate) fn extract_enum(cursor: CXCursor) -> Option<Enum> {
         name
     };
 
+    // An unnamed enum has a description such as "enum (unnamed at ...)" as its spelling
+    let name = if name.contains('(') { String::new() } else { name };
+
     // Extract enum variants by visiting children
     let mut variants: Vec<EnumVariant> = Vec::new();
     let variants_ptr = &mut variants as *mut Vec<EnumVariant>;
-- 
2.43.0


From ab3e02ca65f841b5ef71d29efe765375d21b2647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:17 +0000
Subject: [PATCH 32/96] fix: keep array initializers of globals, zero struct
 globals, prefer struct definitions over forward declarations

---
 crates/decy-core/src/lib.rs                   |  2 ++
 crates/decy-parser/src/extract/expressions.rs |  1 +
 crates/decy-parser/src/extract/types.rs       | 21 ++++++++++++++++++-
 3 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/crates/decy-core/src/lib.rs b/crates/decy-core/src/lib.rs
index beea946..fa315cc 100644
--- a/crates/decy-core/src/lib.rs
+++ b/crates/decy-core/src/lib.rs
@@ -887,6 +887,7 @@ fn const_struct_literal(struct_name: &str, hir_structs: &[decy_hir::HirStruct])
                         };
                         format!("[{}; {}]", elem, n)
                     }
+                    decy_hir::HirType::Struct(inner) => const_struct_literal(inner, hir_structs),
                     _ => "Default::default()".to_string(),
                 };
                 format!("{}: {}", f.name(), default_val)
@@ -969,6 +970,7 @@ fn generate_uninitialized_global_code(
                         format!("[{}; 0]", elem_default)
                     }
                 }
+                decy_hir::HirType::Struct(sname) => const_struct_literal(sname, hir_structs),
                 _ => "Default::default()".to_string(),
             };
             Some(format!("static mut {}: {} = {};\n", name, type_str, default_value))
diff --git a/crates/decy-parser/src/extract/expressions.rs b/crates/decy-parser/src/extract/expressions.rs
index 9699010..dfeb172 100644
--- a/crates/decy-parser/src/extract/expressions.rs
+++ b/crates/decy-parser/src/extract/expressions.rs
@@ -30,6 +30,7 @@ pub(crate) fn try_extract_expression(cursor: CXCursor) -> Option<Expression> {
         116 => extract_conditional_op(cursor), // CXCursor_ConditionalOperator (ternary)
         117 => extract_cast(cursor),           // CXCursor_CStyleCastExpr
         118 => extract_compound_literal(cursor), // CXCursor_CompoundLiteralExpr
+        CXCursor_InitListExpr => extract_init_list(cursor),
         111 => {
             // CXCursor_ParenExpr - parenthesized expression like (a > b)
             // Recurse into children to extract the inner expression
diff --git a/crates/decy-parser/src/extract/types.rs b/crates/decy-parser/src/extract/types.rs
index a3233f9..2e5ce8a 100644
--- a/crates/decy-parser/src/extract/types.rs
+++ b/crates/decy-parser/src/extract/types.rs
@@ -399,6 +399,15 @@ pub(crate) fn extract_struct(cursor: CXCursor) -> Option<Struct> {
         return None;
     }
 
+    // Skip a forward declaration when the definition follows elsewhere
+    unsafe {
+        if clang_isCursorDefinition(cursor) == 0
+            && clang_Cursor_isNull(clang_getCursorDefinition(cursor)) == 0
+        {
+            return None;
+        }
+    }
+
     // Extract struct fields by visiting children
     let mut fields = Vec::new();
     let fields_ptr = &mut fields as *mut Vec<StructField>;
@@ -513,8 +522,18 @@ pub(crate) fn extract_variable(cursor: CXCursor) -> Option<Variable> {
     let mut initializer: Option<Expression> = None;
     let initializer_ptr = &mut initializer as *mut Option<Expression>;
 
+    // The initializer is the last expression; array bounds come before it
+    extern "C" fn visit_initializer(
+        cursor: CXCursor,
+        parent: CXCursor,
+        client_data: CXClientData,
+    ) -> CXChildVisitResult {
+        visit_variable_initializer(cursor, parent, client_data);
+        CXChildVisit_Continue
+    }
+
     unsafe {
-        clang_visitChildren(cursor, visit_variable_initializer, initializer_ptr as CXClientData);
+        clang_visitChildren(cursor, visit_initializer, initializer_ptr as CXClientData);
     }
 
     Some(Variable::new_with_storage_class(
-- 
2.43.0


From ee36b96d6ffb150d7b1b09ea657320b7f49aeaab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:01 +0000
Subject: [PATCH 33/96] fix: evaluate integer constant macro bodies

---
 crates/decy-parser/src/extract/expressions.rs | 49 +++++++++++++++++++
 1 file changed, 49 insertions(+)

diff --git a/crates/decy-parser/src/extract/expressions.rs b/crates/decy-parser/src/extract/expressions.rs
index dfeb172..40df849 100644
--- a/crates/decy-parser/src/extract/expressions.rs
+++ b/crates/decy-parser/src/extract/expressions.rs
@@ -581,6 +581,11 @@ pub(crate) fn extract_variable_ref(cursor: CXCursor) -> Option<Expression> {
 
 /// Extract a binary operation expression.
 pub(crate) fn extract_binary_op(cursor: CXCursor) -> Option<Expression> {
+    // The tokens of a macro body are not at the cursor's location
+    if let Some(constant) = evaluate_macro_constant(cursor) {
+        return Some(constant);
+    }
+
     // Extract operator by tokenizing
     let op = extract_binary_operator(cursor)?;
 
@@ -604,6 +609,50 @@ pub(crate) fn extract_binary_op(cursor: CXCursor) -> Option<Expression> {
     })
 }
 
+/// Value of an integer constant expression that the expansion of one macro name produced.
+fn evaluate_macro_constant(cursor: CXCursor) -> Option<Expression> {
+    unsafe {
+        // A binary operator spans at least three tokens unless a macro name stands for it
+        let tu = clang_Cursor_getTranslationUnit(cursor);
+        if tu.is_null() {
+            return None;
+        }
+        let expansion = |location| {
+            let mut file = ptr::null_mut();
+            let mut offset = 0;
+            clang_getExpansionLocation(
+                location,
+                &mut file,
+                ptr::null_mut(),
+                ptr::null_mut(),
+                &mut offset,
+            );
+            clang_getLocationForOffset(tu, file, offset)
+        };
+        let extent = clang_getCursorExtent(cursor);
+        let written = clang_getRange(
+            expansion(clang_getRangeStart(extent)),
+            expansion(clang_getRangeEnd(extent)),
+        );
+        let mut tokens = ptr::null_mut();
+        let mut num_tokens = 0;
+        clang_tokenize(tu, written, &mut tokens, &mut num_tokens);
+        clang_disposeTokens(tu, tokens, num_tokens);
+        if num_tokens != 1 {
+            return None;
+        }
+
+        let result = clang_Cursor_Evaluate(cursor);
+        if result.is_null() {
+            return None;
+        }
+        let is_int = clang_EvalResult_getKind(result) == CXEval_Int;
+        let value = clang_EvalResult_getAsInt(result);
+        clang_EvalResult_dispose(result);
+        is_int.then_some(Expression::IntLiteral(value))
+    }
+}
+
 /// Visitor callback for binary operator operands.
 pub(crate) extern "C" fn visit_binary_operand(
     cursor: CXCursor,
-- 
2.43.0


From d4751c79f2c12c952ca4bdb3bd84be378a97641e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:07 +0000
Subject: [PATCH 34/96] fix: compare character constants with any int operand

---
 crates/decy-codegen/src/expr_gen/binary_ops.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/decy-codegen/src/expr_gen/binary_ops.rs b/crates/decy-codegen/src/expr_gen/binary_ops.rs
index 2e6f811..1031268 100644
--- a/crates/decy-codegen/src/expr_gen/binary_ops.rs
+++ b/crates/decy-codegen/src/expr_gen/binary_ops.rs
@@ -380,7 +380,7 @@ impl CodeGenerator {
                 }
             }
         }
-        None
+        self.gen_expr_binary_char_arithmetic(op, left, right, ctx)
     }
 
     pub(crate) fn gen_expr_binary_char_arithmetic(
-- 
2.43.0


From c74060a1b4652970749a7553dc8d8200d084bc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:06 +0000
Subject: [PATCH 35/96] fix: strip unsafe wrappers by matching braces and pass
 the address of globals, not of a copy

---
 crates/decy-codegen/src/expr_gen/calls.rs |  6 ++++-
 crates/decy-codegen/src/lib.rs            | 25 ++++++++++++++++++
 crates/decy-codegen/src/stmt_gen.rs       | 31 +++--------------------
 3 files changed, 33 insertions(+), 29 deletions(-)

diff --git a/crates/decy-codegen/src/expr_gen/calls.rs b/crates/decy-codegen/src/expr_gen/calls.rs
index 539c2cb..5d5b59c 100644
--- a/crates/decy-codegen/src/expr_gen/calls.rs
+++ b/crates/decy-codegen/src/expr_gen/calls.rs
@@ -716,7 +716,11 @@ impl CodeGenerator {
 
                     let inner_code =
                         self.generate_expression_with_context(inner, ctx);
-                    if expects_mut {
+                    if inner_code.starts_with("unsafe { ") {
+                        // A global: borrow it, not a copy of its value
+                        let place = Self::strip_nested_unsafe(&inner_code);
+                        Some(format!("unsafe {{ &mut *std::ptr::addr_of_mut!({}) }}", place))
+                    } else if expects_mut {
                         Some(format!("&mut {}", inner_code))
                     } else {
                         Some(format!("&{}", inner_code))
diff --git a/crates/decy-codegen/src/lib.rs b/crates/decy-codegen/src/lib.rs
index 4c06398..550d4a9 100644
--- a/crates/decy-codegen/src/lib.rs
+++ b/crates/decy-codegen/src/lib.rs
@@ -415,6 +415,31 @@ impl CodeGenerator {
         Self { box_transformer: box_transform::BoxTransformer::new() }
     }
 
+    /// DECY-261: Replace every `unsafe { code }` by `code`, for use inside an unsafe block.
+    fn strip_nested_unsafe(code: &str) -> String {
+        const OPEN: &str = "unsafe { ";
+        let Some(start) = code.find(OPEN) else { return code.to_string() };
+        let body = &code[start + OPEN.len()..];
+        let mut depth = 0i32;
+        for (i, c) in body.char_indices() {
+            match c {
+                '{' => depth += 1,
+                '}' if depth > 0 => depth -= 1,
+                '}' => {
+                    let inner = body[..i].strip_suffix(' ').unwrap_or(&body[..i]);
+                    return format!(
+                        "{}{}{}",
+                        &code[..start],
+                        Self::strip_nested_unsafe(inner),
+                        Self::strip_nested_unsafe(&body[i + 1..])
+                    );
+                }
+                _ => {}
+            }
+        }
+        code.to_string()
+    }
+
     /// DECY-143: Generate unsafe block with SAFETY comment.
     /// All unsafe blocks should have a comment explaining why the operation is safe.
     fn unsafe_block(code: &str, safety_reason: &str) -> String {
diff --git a/crates/decy-codegen/src/stmt_gen.rs b/crates/decy-codegen/src/stmt_gen.rs
index 8aa2b18..248503c 100644
--- a/crates/decy-codegen/src/stmt_gen.rs
+++ b/crates/decy-codegen/src/stmt_gen.rs
@@ -590,33 +590,15 @@ impl CodeGenerator {
             let target_type = ctx.get_type(target);
             let value_code = self.generate_expression_with_target_type(value, ctx, target_type);
 
-            // DECY-261: Helper to strip nested unsafe blocks to avoid redundancy
-            fn strip_nested_unsafe(code: &str) -> String {
-                // Iteratively strip all unsafe { } wrappers from the code
-                let mut result = code.to_string();
-                while result.contains("unsafe { ") {
-                    result = result.replace("unsafe { ", "").replace(" }", "");
-                    // Handle case where there might be multiple closings
-                    // Simple approach: strip pattern "unsafe { X }" → "X"
-                }
-                // More precise: use regex-like matching for simple cases
-                result = code.replace("unsafe { ", "").replacen(
-                    " }",
-                    "",
-                    code.matches("unsafe { ").count(),
-                );
-                result
-            }
-
             // DECY-241: Handle errno assignment specially
             if target == "errno" {
-                let clean_value = strip_nested_unsafe(&value_code);
+                let clean_value = Self::strip_nested_unsafe(&value_code);
                 return format!("unsafe {{ ERRNO = {}; }}", clean_value);
             }
             // DECY-220: Wrap global variable assignment in unsafe block
             // DECY-261: Strip nested unsafe from value_code to avoid redundancy
             if ctx.is_global(target) {
-                let clean_value = strip_nested_unsafe(&value_code);
+                let clean_value = Self::strip_nested_unsafe(&value_code);
                 format!("unsafe {{ {} = {}; }}", target, clean_value)
             } else {
                 format!("{} = {};", target, value_code)
@@ -1068,14 +1050,7 @@ impl CodeGenerator {
             if let HirExpression::Variable(name) = object {
                 if ctx.is_global(name) {
                     // Strip nested unsafe from value_code
-                    fn strip_nested_unsafe(code: &str) -> String {
-                        code.replace("unsafe { ", "").replacen(
-                            " }",
-                            "",
-                            code.matches("unsafe { ").count(),
-                        )
-                    }
-                    let clean_value = strip_nested_unsafe(&value_code);
+                    let clean_value = Self::strip_nested_unsafe(&value_code);
                     return format!("unsafe {{ {}.{} = {}; }}", name, escaped_field, clean_value);
                 }
             }
-- 
2.43.0


From 91eadffbc41525d5edef8ce5c4823719feadfd11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:20 +0000
Subject: [PATCH 36/96] fix: apply compound assignments to global elements and
 fields in place

---
 crates/decy-codegen/src/stmt_gen.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/decy-codegen/src/stmt_gen.rs b/crates/decy-codegen/src/stmt_gen.rs
index 248503c..35165af 100644
--- a/crates/decy-codegen/src/stmt_gen.rs
+++ b/crates/decy-codegen/src/stmt_gen.rs
@@ -872,6 +872,14 @@ impl CodeGenerator {
         ) {
             let target_code = self.generate_expression_with_context(target, ctx);
             let value_code = self.generate_expression_with_context(value, ctx);
+            if target_code.starts_with("unsafe { ") {
+                // A global: assign to it, not to a copy of its value
+                return format!(
+                    "unsafe {{ {} = {}; }}",
+                    Self::strip_nested_unsafe(&target_code),
+                    Self::strip_nested_unsafe(&value_code)
+                );
+            }
             return format!("{} = {};", target_code, value_code);
         }
 
-- 
2.43.0


From 61e3b22264e3ed251854885005f3a215d0d6981e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:47 +0000
Subject: [PATCH 37/96] fix: zero-fill a char array longer than its string
 initializer

---
 crates/decy-codegen/src/stmt_gen.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/crates/decy-codegen/src/stmt_gen.rs b/crates/decy-codegen/src/stmt_gen.rs
index 35165af..e2c76fa 100644
--- a/crates/decy-codegen/src/stmt_gen.rs
+++ b/crates/decy-codegen/src/stmt_gen.rs
@@ -270,7 +270,13 @@ impl CodeGenerator {
                         c => c.to_string(),
                     })
                     .collect();
-                code.push_str(&format!(" = *b\"{}\\0\";", escaped));
+                // C zero-fills the rest of the array, and drops the terminator if it does not fit
+                let length = Self::c_string_length(s);
+                let zeros = match var_type {
+                    HirType::Array { size: Some(n), .. } => n.saturating_sub(length),
+                    _ => 1,
+                };
+                code.push_str(&format!(" = *b\"{}{}\";", escaped, "\\0".repeat(zeros)));
             } else {
                 code.push_str(&format!(
                     " = {};",
@@ -285,6 +291,19 @@ impl CodeGenerator {
         }
     }
 
+    /// Number of characters a string literal stands for (an escape sequence counts once).
+    fn c_string_length(literal: &str) -> usize {
+        let mut length = 0;
+        let mut chars = literal.chars();
+        while let Some(c) = chars.next() {
+            if c == '\\' {
+                chars.next();
+            }
+            length += c.len_utf8();
+        }
+        length
+    }
+
     fn generate_declaration_statement(
         &self,
         name: &str,
-- 
2.43.0


From 668ece40c64d394fd05ed280bf314555e1173d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:47 +0000
Subject: [PATCH 38/96] fix: exit with the int value of a comparison or
 character status

---
 crates/decy-codegen/src/expr_gen/calls.rs | 15 ++++++++++++++-
 crates/decy-codegen/src/stmt_gen.rs       |  7 ++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/crates/decy-codegen/src/expr_gen/calls.rs b/crates/decy-codegen/src/expr_gen/calls.rs
index 5d5b59c..3cb7009 100644
--- a/crates/decy-codegen/src/expr_gen/calls.rs
+++ b/crates/decy-codegen/src/expr_gen/calls.rs
@@ -192,7 +192,20 @@ impl CodeGenerator {
             }
             "exit" => {
                 if arguments.len() == 1 {
-                    let code = self.generate_expression_with_context(&arguments[0], ctx);
+                    let status = &arguments[0];
+                    if Self::is_boolean_expression(status) {
+                        // Comparisons and logical operators yield an int in C
+                        let code = self.generate_expression_with_target_type(
+                            status,
+                            ctx,
+                            Some(&HirType::Int),
+                        );
+                        return format!("std::process::exit({})", code);
+                    }
+                    let code = self.generate_expression_with_context(status, ctx);
+                    if matches!(ctx.infer_expression_type(status), Some(HirType::Char)) {
+                        return format!("std::process::exit({} as i32)", code);
+                    }
                     format!("std::process::exit({})", code)
                 } else {
                     "std::process::exit(1)".to_string()
diff --git a/crates/decy-codegen/src/stmt_gen.rs b/crates/decy-codegen/src/stmt_gen.rs
index e2c76fa..4aab531 100644
--- a/crates/decy-codegen/src/stmt_gen.rs
+++ b/crates/decy-codegen/src/stmt_gen.rs
@@ -387,7 +387,12 @@ impl CodeGenerator {
         // return N; in main becomes std::process::exit(N);
         if function_name == Some("main") {
             if let Some(expr) = expr_opt {
-                let expr_code = self.generate_expression_with_context(expr, ctx);
+                let expr_code = if Self::is_boolean_expression(expr) {
+                    // Comparisons and logical operators yield an int in C
+                    self.generate_expression_with_target_type(expr, ctx, Some(&HirType::Int))
+                } else {
+                    self.generate_expression_with_context(expr, ctx)
+                };
                 // DECY-126: Check if expression type needs cast to i32
                 // exit() expects i32, but char/u8 expressions need casting
                 let expr_type = ctx.infer_expression_type(expr);
-- 
2.43.0


From 726c664c5cd7c082c3975fd14cea16b18a3ca853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:47 +0000
Subject: [PATCH 39/96] fix: honour printf flags, text alignment and default
 precision

---
 crates/decy-codegen/src/expr_gen/calls.rs |   2 +-
 crates/decy-codegen/src/expr_gen/misc.rs  | 114 ++++++++++++----------
 2 files changed, 62 insertions(+), 54 deletions(-)

diff --git a/crates/decy-codegen/src/expr_gen/calls.rs b/crates/decy-codegen/src/expr_gen/calls.rs
index 3cb7009..e05aff6 100644
--- a/crates/decy-codegen/src/expr_gen/calls.rs
+++ b/crates/decy-codegen/src/expr_gen/calls.rs
@@ -496,7 +496,7 @@ impl CodeGenerator {
     pub(crate) fn gen_call_printf(&self, arguments: &[HirExpression], ctx: &TypeContext) -> String {
         if !arguments.is_empty() {
             let fmt = self.generate_expression_with_context(&arguments[0], ctx);
-            let rust_fmt = Self::convert_c_format_to_rust(&fmt);
+            let rust_fmt = Self::convert_printf_format(&fmt);
             if arguments.len() == 1 {
                 format!("print!({})", rust_fmt)
             } else {
diff --git a/crates/decy-codegen/src/expr_gen/misc.rs b/crates/decy-codegen/src/expr_gen/misc.rs
index efd62b0..19cad84 100644
--- a/crates/decy-codegen/src/expr_gen/misc.rs
+++ b/crates/decy-codegen/src/expr_gen/misc.rs
@@ -732,6 +732,20 @@ impl CodeGenerator {
     /// DECY-193: Convert C format specifiers to Rust format specifiers.
     /// Handles width, precision, and flags like %02X, %10.3f, etc.
     pub(crate) fn convert_format_specifiers(input: &str) -> String {
+        Self::convert_specifiers(input, false)
+    }
+
+    /// Convert a printf format string, keeping C's default precision and text alignment.
+    pub(crate) fn convert_printf_format(c_fmt: &str) -> String {
+        let trimmed = c_fmt.trim();
+        if trimmed.starts_with('"') && trimmed.ends_with('"') && trimmed.len() >= 2 {
+            format!("\"{}\"", Self::convert_specifiers(&trimmed[1..trimmed.len() - 1], true))
+        } else {
+            c_fmt.to_string()
+        }
+    }
+
+    fn convert_specifiers(input: &str, c_defaults: bool) -> String {
         let mut result = String::new();
         let chars: Vec<char> = input.chars().collect();
         let mut i = 0;
@@ -749,16 +763,20 @@ impl CodeGenerator {
                 let start = i;
                 i += 1; // skip %
 
-                let mut flags = String::new();
+                let mut left_align = false;
+                let mut plus = false;
+                let mut zero = false;
                 let mut width = String::new();
                 let mut precision = String::new();
 
                 // Parse flags: -, +, space, #, 0
                 while i < chars.len() && "-+ #0".contains(chars[i]) {
-                    if chars[i] == '0' {
-                        flags.push('0'); // zero-padding
+                    match chars[i] {
+                        '-' => left_align = true,
+                        '+' => plus = true,
+                        '0' => zero = true,
+                        _ => {}
                     }
-                    // Skip other flags for now (- is left-align, + is sign, etc.)
                     i += 1;
                 }
 
@@ -775,6 +793,9 @@ impl CodeGenerator {
                         precision.push(chars[i]);
                         i += 1;
                     }
+                    if precision.is_empty() {
+                        precision.push('0');
+                    }
                 }
 
                 // Skip length modifiers: h, hh, l, ll, L, z, j, t
@@ -787,78 +808,65 @@ impl CodeGenerator {
                     let spec = chars[i];
                     i += 1;
 
+                    // Left alignment overrides zero padding in C
+                    let zero = zero && !left_align && !matches!(spec, 's' | 'c');
+                    let align = if left_align && !width.is_empty() {
+                        "<"
+                    } else if c_defaults && !width.is_empty() && matches!(spec, 's' | 'c') {
+                        // C right-aligns text, Rust left-aligns it
+                        ">"
+                    } else {
+                        ""
+                    };
+                    let sign = if plus && matches!(spec, 'd' | 'i' | 'f' | 'F') { "+" } else { "" };
+                    let pad = format!("{}{}{}{}", align, sign, if zero { "0" } else { "" }, width);
+                    let braced = |tail: &str| {
+                        if pad.is_empty() && tail.is_empty() {
+                            "{}".to_string()
+                        } else {
+                            format!("{{:{}{}}}", pad, tail)
+                        }
+                    };
+
                     // Build Rust format specifier
                     let rust_spec = match spec {
-                        'd' | 'i' | 'u' => {
-                            if !width.is_empty() || !flags.is_empty() {
-                                format!("{{:{}{}}}", flags, width)
-                            } else {
-                                "{}".to_string()
-                            }
-                        }
-                        'x' => {
-                            if !width.is_empty() || !flags.is_empty() {
-                                format!("{{:{}{}x}}", flags, width)
-                            } else {
-                                "{:x}".to_string()
-                            }
-                        }
-                        'X' => {
-                            if !width.is_empty() || !flags.is_empty() {
-                                format!("{{:{}{}X}}", flags, width)
-                            } else {
-                                "{:X}".to_string()
-                            }
-                        }
-                        'o' => {
-                            if !width.is_empty() || !flags.is_empty() {
-                                format!("{{:{}{}o}}", flags, width)
-                            } else {
-                                "{:o}".to_string()
-                            }
-                        }
+                        'd' | 'i' | 'u' => braced(""),
+                        'x' => braced("x"),
+                        'X' => braced("X"),
+                        'o' => braced("o"),
                         // DECY-247: Binary format specifier (non-standard but common extension)
-                        'b' => {
-                            if !width.is_empty() || !flags.is_empty() {
-                                format!("{{:{}{}b}}", flags, width)
-                            } else {
-                                "{:b}".to_string()
-                            }
-                        }
+                        'b' => braced("b"),
                         'f' | 'F' => {
                             if !precision.is_empty() {
-                                if !width.is_empty() {
-                                    format!("{{:{}{}.{}}}", flags, width, precision)
-                                } else {
-                                    format!("{{:.{}}}", precision)
-                                }
-                            } else if !width.is_empty() {
-                                format!("{{:{}{}}}", flags, width)
+                                braced(&format!(".{}", precision))
+                            } else if c_defaults {
+                                // C prints six decimals unless told otherwise
+                                braced(".6")
                             } else {
-                                "{}".to_string()
+                                braced("")
                             }
                         }
                         'e' => "{:e}".to_string(),
                         'E' => "{:E}".to_string(),
                         'g' | 'G' => "{}".to_string(),
                         's' => {
-                            if !width.is_empty() {
-                                format!("{{:{}}}", width)
+                            if precision.is_empty() {
+                                braced("")
                             } else {
-                                "{}".to_string()
+                                braced(&format!(".{}", precision))
                             }
                         }
-                        'c' => "{}".to_string(),
+                        'c' => braced(""),
                         'p' => "{:p}".to_string(),
                         _ => {
                             // Unknown specifier, keep original
-                            input[start..i].to_string()
+                            chars[start..i].iter().collect()
                         }
                     };
                     result.push_str(&rust_spec);
                 } else {
                     // Incomplete format specifier at end of string
-                    result.push_str(&input[start..]);
+                    result.extend(&chars[start..]);
                 }
             } else {
                 // A literal brace is doubled in a Rust format string
-- 
2.43.0


From 13e7a8f2eeb9ad05764b364e2c2c93257caae7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:47 +0000
Subject: [PATCH 40/96] fix: generate a valid entry point for main with
 parameters or an empty body

---
 crates/decy-codegen/src/transform_gen.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/crates/decy-codegen/src/transform_gen.rs b/crates/decy-codegen/src/transform_gen.rs
index 2d976d0..52dd190 100644
--- a/crates/decy-codegen/src/transform_gen.rs
+++ b/crates/decy-codegen/src/transform_gen.rs
@@ -98,6 +98,8 @@ impl CodeGenerator {
             .parameters
             .iter()
             .filter(|p| !skip_output_params.contains(&p.name))
+            // Rust's entry point takes no parameters (see generate_main_arguments)
+            .filter(|_| sig.name != "main")
             .map(|p| self.generate_annotated_param(p, func))
             .collect();
         result.push_str(&params.join(", "));
@@ -902,8 +904,14 @@ impl CodeGenerator {
             func.return_type().clone()
         };
 
+        if func.name() == "main" {
+            code.push_str(&Self::generate_main_arguments(func));
+        }
+
         // Generate body statements if present
-        if func.body().is_empty() {
+        if func.name() == "main" && func.body().is_empty() {
+            // Falling off the end of main is a successful exit
+        } else if func.body().is_empty() {
             // Generate stub body with return statement
             let return_stmt = self.generate_return(func.return_type());
             if !return_stmt.is_empty() {
@@ -928,6 +936,17 @@ impl CodeGenerator {
         code
     }
 
+    /// Bind the argument count of C's `main` (Rust's entry point takes no parameters).
+    fn generate_main_arguments(func: &HirFunction) -> String {
+        match func.parameters().first() {
+            Some(argc) if matches!(argc.param_type(), HirType::Int) => format!(
+                "    let mut {}: i32 = std::env::args().count() as i32;\n",
+                escape_rust_keyword(argc.name())
+            ),
+            _ => String::new(),
+        }
+    }
+
     /// Generate a function with Box transformations applied.
     ///
     /// This method analyzes the function for malloc/free patterns and
-- 
2.43.0


From d8e78fceff8d59b12e4f976a7e61b1139ab8f853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:38 +0000
Subject: [PATCH 41/96] fix: resolve includes of a traced file next to it

---
 crates/decy-core/src/lib.rs | 10 +++++++++-
 crates/decy/src/main.rs     |  2 +-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/decy-core/src/lib.rs b/crates/decy-core/src/lib.rs
index fa315cc..082d759 100644
--- a/crates/decy-core/src/lib.rs
+++ b/crates/decy-core/src/lib.rs
@@ -715,6 +715,14 @@ pub fn transpile(c_code: &str) -> Result<String> {
 /// # Ok::<(), anyhow::Error>(())
 /// ```
 pub fn transpile_with_trace(c_code: &str) -> Result<(String, trace::TraceCollector)> {
+    transpile_with_includes_and_trace(c_code, None)
+}
+
+/// Transpile C code with decision tracing, resolving #include directives in `base_dir`.
+pub fn transpile_with_includes_and_trace(
+    c_code: &str,
+    base_dir: Option<&Path>,
+) -> Result<(String, trace::TraceCollector)> {
     contract_pre_configuration!();
     use trace::{DecisionType, PipelineStage, TraceCollector, TraceEntry};
 
@@ -732,7 +740,7 @@ pub fn transpile_with_trace(c_code: &str) -> Result<(String, trace::TraceCollect
     });
 
     // Transpile normally
-    let rust_code = transpile(c_code)?;
+    let rust_code = transpile_with_includes(c_code, base_dir)?;
 
     // Record completion
     collector.record(TraceEntry {
diff --git a/crates/decy/src/main.rs b/crates/decy/src/main.rs
index 924b38c..8c12c8d 100644
--- a/crates/decy/src/main.rs
+++ b/crates/decy/src/main.rs
@@ -387,7 +387,7 @@ fn transpile_file(
     } else if trace_enabled {
         // DECY-193: Transpile with decision tracing
         let (code, trace_collector) =
-            decy_core::transpile_with_trace(&c_code).with_context(|| {
+            decy_core::transpile_with_includes_and_trace(&c_code, base_dir).with_context(|| {
                 format!(
                     "Failed to transpile {}\n\nTry: Check if the C code has syntax errors\n  or: Preprocess the file first: gcc -E {} -o preprocessed.c",
                     input.display(),
-- 
2.43.0


From 462cc50ffbc622b066cdba1a5738719dd01b559c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:38 +0000
Subject: [PATCH 42/96] fix: miss the cache when a dependency vanished, and
 count every miss

---
 crates/decy-core/src/lib.rs | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/crates/decy-core/src/lib.rs b/crates/decy-core/src/lib.rs
index 082d759..f0a6762 100644
--- a/crates/decy-core/src/lib.rs
+++ b/crates/decy-core/src/lib.rs
@@ -445,27 +445,25 @@ impl TranspilationCache {
     /// - File content has changed
     /// - Any dependency has changed
     pub fn get(&mut self, path: &Path) -> Option<&TranspiledFile> {
-        let entry = self.entries.get(&path.to_path_buf())?;
-
-        // Check if file hash matches
-        let current_hash = self.compute_hash(path).ok()?;
-        if current_hash != entry.hash {
+        if !self.is_current(path) {
             self.misses += 1;
             return None;
         }
 
-        // Check if any dependency has changed
-        for (dep_path, cached_hash) in &entry.dependency_hashes {
-            if let Ok(current_dep_hash) = self.compute_hash(dep_path) {
-                if &current_dep_hash != cached_hash {
-                    self.misses += 1;
-                    return None;
-                }
-            }
-        }
-
         self.hits += 1;
-        Some(&entry.transpiled)
+        self.entries.get(path).map(|entry| &entry.transpiled)
+    }
+
+    /// Check that a file is cached and that neither it nor any dependency changed or vanished.
+    fn is_current(&self, path: &Path) -> bool {
+        let unchanged = |path: &Path, cached_hash: &String| {
+            self.compute_hash(path).is_ok_and(|current_hash| &current_hash == cached_hash)
+        };
+
+        self.entries.get(path).is_some_and(|entry| {
+            unchanged(path, &entry.hash)
+                && entry.dependency_hashes.iter().all(|(dep, hash)| unchanged(dep, hash))
+        })
     }
 
     /// Save the cache to disk (if cache_dir is set).
-- 
2.43.0


From b22c7b094265853c87b3af8734f5d688c09b1c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:39 +0000
Subject: [PATCH 43/96] fix: replace the cache file in one step

---
 crates/decy-core/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/decy-core/src/lib.rs b/crates/decy-core/src/lib.rs
index f0a6762..2595e58 100644
--- a/crates/decy-core/src/lib.rs
+++ b/crates/decy-core/src/lib.rs
@@ -479,7 +479,10 @@ impl TranspilationCache {
         let json =
             serde_json::to_string_pretty(&self.entries).context("Failed to serialize cache")?;
 
-        std::fs::write(&cache_file, json)
+        // Replace the file in one step, so that an interrupted save leaves the old cache
+        let partial_file = cache_dir.join("cache.json.tmp");
+        std::fs::write(&partial_file, json)
+            .and_then(|()| std::fs::rename(&partial_file, &cache_file))
             .with_context(|| format!("Failed to write cache file: {}", cache_file.display()))?;
 
         Ok(())
-- 
2.43.0


From de58874bea10fd62e1fe45038de2f9f6ebb93046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:39 +0000
Subject: [PATCH 44/96] fix: transpile a project file with its own includes and
 track all of them

---
 crates/decy-core/src/lib.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/crates/decy-core/src/lib.rs b/crates/decy-core/src/lib.rs
index 2595e58..dfed08b 100644
--- a/crates/decy-core/src/lib.rs
+++ b/crates/decy-core/src/lib.rs
@@ -1631,7 +1631,7 @@ pub fn transpile_file(path: &Path, _context: &ProjectContext) -> Result<Transpil
     let dependencies = extract_dependencies(path, &c_code)?;
 
     // Transpile the C code using the main pipeline
-    let rust_code = transpile(&c_code)?;
+    let rust_code = transpile_with_includes(&c_code, path.parent())?;
 
     // Extract function names from the generated Rust code
     let functions_exported = extract_function_names(&rust_code);
@@ -1651,13 +1651,20 @@ pub fn transpile_file(path: &Path, _context: &ProjectContext) -> Result<Transpil
 /// Extract dependencies from #include directives in C code.
 ///
 /// This is a simplified implementation that detects #include directives
-/// and resolves them relative to the source file's directory.
+/// and resolves them relative to the including file's directory, following
+/// the includes of included files.
 fn extract_dependencies(source_path: &Path, c_code: &str) -> Result<Vec<PathBuf>> {
     let mut dependencies = Vec::new();
     let source_dir = source_path
         .parent()
         .ok_or_else(|| anyhow::anyhow!("Source file has no parent directory"))?;
 
+    collect_dependencies(source_dir, c_code, &mut dependencies);
+    Ok(dependencies)
+}
+
+/// Add the files included by `c_code`, directly or through other files, to `dependencies`.
+fn collect_dependencies(source_dir: &Path, c_code: &str, dependencies: &mut Vec<PathBuf>) {
     for line in c_code.lines() {
         let trimmed = line.trim();
         if trimmed.starts_with("#include") {
@@ -1666,15 +1673,17 @@ fn extract_dependencies(source_path: &Path, c_code: &str) -> Result<Vec<PathBuf>
                 if let Some(end) = trimmed[start + 1..].find('"') {
                     let header_name = &trimmed[start + 1..start + 1 + end];
                     let header_path = source_dir.join(header_name);
-                    if header_path.exists() {
-                        dependencies.push(header_path);
+                    if header_path.exists() && !dependencies.contains(&header_path) {
+                        dependencies.push(header_path.clone());
+                        if let Ok(header_code) = std::fs::read_to_string(&header_path) {
+                            let header_dir = header_path.parent().unwrap_or(source_dir);
+                            collect_dependencies(header_dir, &header_code, dependencies);
+                        }
                     }
                 }
             }
         }
     }
-
-    Ok(dependencies)
 }
 
 /// Extract function names from generated Rust code.
-- 
2.43.0


From f983078d48b603b8e77d3656f4935ad7441f0ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:39 +0000
Subject: [PATCH 45/96] fix: check a project's real include graph for cycles

---
 crates/decy/src/main.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/crates/decy/src/main.rs b/crates/decy/src/main.rs
index 8c12c8d..1fd0aba 100644
--- a/crates/decy/src/main.rs
+++ b/crates/decy/src/main.rs
@@ -943,10 +943,7 @@ fn check_project(input_dir: PathBuf) -> Result<()> {
     println!();
 
     // Build dependency graph
-    let mut dep_graph = DependencyGraph::new();
-    for file in &c_files {
-        dep_graph.add_file(file);
-    }
+    let dep_graph = DependencyGraph::from_files(&c_files)?;
 
     // Check for circular dependencies
     match dep_graph.topological_sort() {
-- 
2.43.0


From e152b53e2c073f1e3f497195f4d2e3d2317f1121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:54 +0000
Subject: [PATCH 46/96] fix: write the output of cached project files and
 survive a damaged cache

---
 crates/decy/src/main.rs | 53 +++++++++++++++++++++--------------------
 1 file changed, 27 insertions(+), 26 deletions(-)

diff --git a/crates/decy/src/main.rs b/crates/decy/src/main.rs
index 1fd0aba..ce8b051 100644
--- a/crates/decy/src/main.rs
+++ b/crates/decy/src/main.rs
@@ -15,7 +15,7 @@ use oracle_integration::{OracleOptions, OracleTranspileResult};
 use anyhow::{Context, Result};
 use clap::{Parser, Subcommand};
 use std::fs;
-use std::path::PathBuf;
+use std::path::{Path, PathBuf};
 
 /// Decy: C-to-Rust Transpiler with EXTREME Quality Standards
 #[derive(Parser, Debug)]
@@ -683,7 +683,7 @@ fn transpile_project(
     stats: bool,
     _oracle_opts: &OracleOptions,
 ) -> Result<()> {
-    use decy_core::{DependencyGraph, TranspilationCache};
+    use decy_core::{DependencyGraph, ProjectContext, TranspilationCache};
     use indicatif::{ProgressBar, ProgressStyle};
     use std::time::Instant;
     use walkdir::WalkDir;
@@ -740,7 +740,9 @@ fn transpile_project(
     }
 
     let mut cache = if use_cache && !dry_run {
-        TranspilationCache::load(&cache_dir)?
+        // A damaged cache file only costs the cached results
+        TranspilationCache::load(&cache_dir)
+            .unwrap_or_else(|_| TranspilationCache::with_directory(&cache_dir))
     } else {
         TranspilationCache::new()
     };
@@ -771,6 +773,7 @@ fn transpile_project(
     };
 
     let start_time = Instant::now();
+    let context = ProjectContext::new();
     let mut transpiled_count = 0;
     let mut cached_count = 0;
     let mut total_lines = 0;
@@ -782,7 +785,10 @@ fn transpile_project(
 
         // Check cache
         if use_cache {
-            if let Some(_cached) = cache.get(&file_path) {
+            if let Some(cached) = cache.get(&file_path) {
+                // The output may be missing, or come from another version of the source
+                let output_path = output_dir.join(relative_path).with_extension("rs");
+                write_if_different(&output_path, &cached.rust_code)?;
                 if verbose {
                     println!("✓ Cached: {}", relative_path.display());
                 }
@@ -793,10 +799,6 @@ fn transpile_project(
             }
         }
 
-        // Read C code
-        let c_code = fs::read_to_string(&file_path)
-            .with_context(|| format!("Failed to read {}", file_path.display()))?;
-
         if dry_run {
             // Dry run mode - always show what would be done (that's the point of dry-run!)
             if !quiet {
@@ -808,22 +810,14 @@ fn transpile_project(
         }
 
         // Transpile
-        let rust_code = decy_core::transpile(&c_code)
+        let transpiled = decy_core::transpile_file(&file_path, &context)
             .with_context(|| format!("Failed to transpile {}", file_path.display()))?;
 
-        total_lines += rust_code.lines().count();
+        total_lines += transpiled.rust_code.lines().count();
 
         // Compute output path (preserve directory structure)
         let output_path = output_dir.join(relative_path).with_extension("rs");
-
-        // Create parent directory if needed
-        if let Some(parent) = output_path.parent() {
-            fs::create_dir_all(parent)?;
-        }
-
-        // Write output
-        fs::write(&output_path, &rust_code)
-            .with_context(|| format!("Failed to write {}", output_path.display()))?;
+        write_if_different(&output_path, &transpiled.rust_code)?;
 
         if verbose {
             println!("✓ Transpiled: {} → {}", relative_path.display(), output_path.display());
@@ -831,13 +825,6 @@ fn transpile_project(
 
         // Update cache
         if use_cache {
-            let transpiled = decy_core::TranspiledFile {
-                source_path: file_path.clone(),
-                rust_code: rust_code.clone(),
-                dependencies: vec![], // Would be populated by actual parser
-                functions_exported: vec![], // Would be populated by actual parser
-                ffi_declarations: String::new(), // Would be populated by actual parser
-            };
             cache.insert(&file_path, &transpiled);
         }
 
@@ -910,6 +897,20 @@ fn transpile_project(
     Ok(())
 }
 
+/// Write generated code, creating parent directories, unless the file already holds it.
+fn write_if_different(output_path: &Path, rust_code: &str) -> Result<()> {
+    if fs::read(output_path).is_ok_and(|existing| existing == rust_code.as_bytes()) {
+        return Ok(());
+    }
+
+    if let Some(parent) = output_path.parent() {
+        fs::create_dir_all(parent)?;
+    }
+
+    fs::write(output_path, rust_code)
+        .with_context(|| format!("Failed to write {}", output_path.display()))
+}
+
 fn check_project(input_dir: PathBuf) -> Result<()> {
     use decy_core::DependencyGraph;
     use walkdir::WalkDir;
-- 
2.43.0


From 3e7d337c016964fb9b60941459d04131150b9843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:34 +0000
Subject: [PATCH 47/96] fix: keep the function order of file-based
 transpilation repeatable

---
 crates/decy-core/src/lib.rs | 18 +-----------------
 1 file changed, 1 insertion(+), 17 deletions(-)

diff --git a/crates/decy-core/src/lib.rs b/crates/decy-core/src/lib.rs
index dfed08b..aa3685c 100644
--- a/crates/decy-core/src/lib.rs
+++ b/crates/decy-core/src/lib.rs
@@ -1345,23 +1345,7 @@ fn process_ast_to_rust(ast: decy_parser::Ast, _base_dir: Option<&Path>) -> Resul
         ast.functions().iter().map(HirFunction::from_ast_function).collect();
 
     // DECY-190: Deduplicate functions
-    let hir_functions: Vec<HirFunction> = {
-        use std::collections::HashMap;
-        let mut func_map: HashMap<String, HirFunction> = HashMap::new();
-
-        for func in all_hir_functions {
-            let name = func.name().to_string();
-            if let Some(existing) = func_map.get(&name) {
-                if func.has_body() && !existing.has_body() {
-                    func_map.insert(name, func);
-                }
-            } else {
-                func_map.insert(name, func);
-            }
-        }
-
-        func_map.into_values().collect()
-    };
+    let hir_functions = deduplicate_functions(all_hir_functions);
 
     // Convert structs to HIR
     let hir_structs: Vec<decy_hir::HirStruct> = ast
-- 
2.43.0


From 6c4b18b2c047c184f96e251340cc0544c67f4c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:28 +0000
Subject: [PATCH 48/96] fix: do not overflow on an enumerator after INT_MAX

---
 crates/decy-codegen/src/type_gen.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/decy-codegen/src/type_gen.rs b/crates/decy-codegen/src/type_gen.rs
index e9b3d6e..e679c58 100644
--- a/crates/decy-codegen/src/type_gen.rs
+++ b/crates/decy-codegen/src/type_gen.rs
@@ -482,11 +482,11 @@ impl CodeGenerator {
         let mut next_value: i32 = 0;
         for variant in hir_enum.variants() {
             let value = if let Some(v) = variant.value() {
-                next_value = v + 1; // Next auto value
+                next_value = v.wrapping_add(1); // Next auto value
                 v
             } else {
                 let v = next_value;
-                next_value += 1;
+                next_value = next_value.wrapping_add(1);
                 v
             };
             code.push_str(&format!("pub const {}: i32 = {};\n", variant.name(), value));
-- 
2.43.0


From fba110bb24a6d04dcdf2870afafc3ae8f43bb2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:14 +0000
Subject: [PATCH 49/96] fix: keep the byte string form of zero-filled char
 arrays

---
 crates/decy-codegen/src/expr_gen/misc.rs |  3 ++-
 crates/decy-codegen/src/stmt_gen.rs      | 19 ++++++++++++++-----
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/crates/decy-codegen/src/expr_gen/misc.rs b/crates/decy-codegen/src/expr_gen/misc.rs
index 19cad84..d48a1b4 100644
--- a/crates/decy-codegen/src/expr_gen/misc.rs
+++ b/crates/decy-codegen/src/expr_gen/misc.rs
@@ -818,7 +818,8 @@ impl CodeGenerator {
                     } else {
                         ""
                     };
-                    let sign = if plus && matches!(spec, 'd' | 'i' | 'f' | 'F') { "+" } else { "" };
+                    let signed = plus && matches!(spec, 'd' | 'i' | 'f' | 'F');
+                    let sign = if signed && (c_defaults || !zero) { "+" } else { "" };
                     let pad = format!("{}{}{}{}", align, sign, if zero { "0" } else { "" }, width);
                     let braced = |tail: &str| {
                         if pad.is_empty() && tail.is_empty() {
diff --git a/crates/decy-codegen/src/stmt_gen.rs b/crates/decy-codegen/src/stmt_gen.rs
index 4aab531..773b2e4 100644
--- a/crates/decy-codegen/src/stmt_gen.rs
+++ b/crates/decy-codegen/src/stmt_gen.rs
@@ -272,11 +272,20 @@ impl CodeGenerator {
                     .collect();
                 // C zero-fills the rest of the array, and drops the terminator if it does not fit
                 let length = Self::c_string_length(s);
-                let zeros = match var_type {
-                    HirType::Array { size: Some(n), .. } => n.saturating_sub(length),
-                    _ => 1,
-                };
-                code.push_str(&format!(" = *b\"{}{}\";", escaped, "\\0".repeat(zeros)));
+                match var_type {
+                    HirType::Array { size: Some(n), .. } if *n <= length => {
+                        code.push_str(&format!(" = *b\"{}\";", escaped));
+                    }
+                    HirType::Array { size: Some(n), .. } if *n > length + 1 => {
+                        code.push_str(&format!(
+                            " = {{ let mut chars = [0u8; {}]; chars[..{}].copy_from_slice(&*b\"{}\\0\"); chars }};",
+                            n,
+                            length + 1,
+                            escaped
+                        ));
+                    }
+                    _ => code.push_str(&format!(" = *b\"{}\\0\";", escaped)),
+                }
             } else {
                 code.push_str(&format!(
                     " = {};",
-- 
2.43.0


From ca69cf8c7490d47c71fd0bff32ef87cabba1d1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:36 +0000
Subject: [PATCH 50/96] fix: keep a returned temporary whose type converts the
 value

---
 crates/decy-core/src/optimize.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/crates/decy-core/src/optimize.rs b/crates/decy-core/src/optimize.rs
index 2579ac7..58f44ea 100644
--- a/crates/decy-core/src/optimize.rs
+++ b/crates/decy-core/src/optimize.rs
@@ -29,9 +29,7 @@
 //! assert_eq!(optimized.body().len(), 1);
 //! ```
 
-#[cfg(test)]
-use decy_hir::HirType;
-use decy_hir::{BinaryOperator, HirExpression, HirFunction, HirStatement};
+use decy_hir::{BinaryOperator, HirExpression, HirFunction, HirStatement, HirType};
 
 /// Maximum number of fixed-point iterations.
 const MAX_ITERATIONS: usize = 3;
@@ -51,7 +49,7 @@ pub fn optimize_function(func: &HirFunction) -> HirFunction {
 
         body = body.into_iter().map(fold_constants_stmt).collect();
         body = remove_dead_branches(body);
-        body = eliminate_temporaries(body);
+        body = eliminate_temporaries_returning(body, Some(func.return_type()));
 
         if body != prev {
             changed = true;
@@ -251,7 +249,18 @@ fn is_constant_truthy(expr: &HirExpression) -> Option<bool> {
 ///
 /// Conservative: does NOT inline malloc/calloc/realloc results since
 /// downstream passes (box_transform) need the variable assignment pattern.
+#[cfg(test)]
 fn eliminate_temporaries(stmts: Vec<HirStatement>) -> Vec<HirStatement> {
+    eliminate_temporaries_returning(stmts, None)
+}
+
+/// Eliminate single-use temporary variables of the function's return type.
+///
+/// A temporary of another type converts the value, so it is kept.
+fn eliminate_temporaries_returning(
+    stmts: Vec<HirStatement>,
+    return_type: Option<&HirType>,
+) -> Vec<HirStatement> {
     if stmts.len() < 2 {
         return stmts;
     }
@@ -268,11 +277,12 @@ fn eliminate_temporaries(stmts: Vec<HirStatement>) -> Vec<HirStatement> {
         // Check for pattern: let tmp = expr; return tmp;
         if i + 1 < stmts.len() {
             if let (
-                HirStatement::VariableDeclaration { name, initializer: Some(init_expr), .. },
+                HirStatement::VariableDeclaration { name, var_type, initializer: Some(init_expr) },
                 HirStatement::Return(Some(HirExpression::Variable(ret_var))),
             ) = (&stmts[i], &stmts[i + 1])
             {
                 if name == ret_var
+                    && return_type.map_or(true, |ty| ty == var_type)
                     && count_uses(name, &stmts[i + 2..]) == 0
                     && !is_allocation_expr(init_expr)
                 {
-- 
2.43.0


From a8eb4c2bc43be456e654e6491355aae6781bafae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:57 +0000
Subject: [PATCH 51/96] fix: keep the scope of declarations under a constant
 condition

---
 crates/decy-core/src/optimize.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/crates/decy-core/src/optimize.rs b/crates/decy-core/src/optimize.rs
index 58f44ea..0fdf8c3 100644
--- a/crates/decy-core/src/optimize.rs
+++ b/crates/decy-core/src/optimize.rs
@@ -192,7 +192,13 @@ fn remove_dead_branches(stmts: Vec<HirStatement>) -> Vec<HirStatement> {
     for stmt in stmts {
         match stmt {
             HirStatement::If { condition, then_block, else_block } => {
-                if let Some(always_true) = is_constant_truthy(&condition) {
+                let constant = is_constant_truthy(&condition);
+                let kept = match constant {
+                    Some(true) => Some(&then_block),
+                    _ => else_block.as_ref(),
+                };
+                // A block with declarations of its own is a scope and stays one
+                if let (Some(always_true), false) = (constant, kept.is_some_and(|b| declares(b))) {
                     if always_true {
                         // if(1) { body } → body
                         result.extend(
@@ -230,6 +236,11 @@ fn remove_dead_branches(stmts: Vec<HirStatement>) -> Vec<HirStatement> {
     result
 }
 
+/// Check if a block declares a variable in its own scope.
+fn declares(block: &[HirStatement]) -> bool {
+    block.iter().any(|stmt| matches!(stmt, HirStatement::VariableDeclaration { .. }))
+}
+
 /// Check if an expression is a constant truthy/falsy value.
 fn is_constant_truthy(expr: &HirExpression) -> Option<bool> {
     match expr {
-- 
2.43.0


From a87e8d467025e7eb53a1133d655289b642c32285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:48 +0000
Subject: [PATCH 52/96] fix: resolve parent directories of includes in the
 dependency graph

---
 crates/decy-core/src/lib.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/crates/decy-core/src/lib.rs b/crates/decy-core/src/lib.rs
index aa3685c..8d1ff36 100644
--- a/crates/decy-core/src/lib.rs
+++ b/crates/decy-core/src/lib.rs
@@ -270,9 +270,12 @@ impl DependencyGraph {
             for include in includes {
                 let include_path = file_dir.join(&include);
 
-                // Only add dependency if the included file is in our file list
-                if graph.contains_file(&include_path) {
-                    graph.add_dependency(file, &include_path);
+                // Only add dependency if the included file is in our file list,
+                // however the include spells its path
+                let listed =
+                    files.iter().find(|other| file_identity(other) == file_identity(&include_path));
+                if let Some(listed) = listed {
+                    graph.add_dependency(file, listed);
                 }
             }
         }
@@ -321,6 +324,11 @@ impl DependencyGraph {
     }
 }
 
+/// Identity of a file, independent of `.` and `..` in the spelling of its path.
+fn file_identity(path: &Path) -> PathBuf {
+    path.canonicalize().unwrap_or_else(|_| path.to_path_buf())
+}
+
 impl Default for DependencyGraph {
     fn default() -> Self {
         Self::new()
-- 
2.43.0


From 42625108ae97e951ba284f83094081fb06c8b741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:09 +0000
Subject: [PATCH 53/96] fix: recognise an included file under every spelling of
 its path

---
 crates/decy-core/src/lib.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/decy-core/src/lib.rs b/crates/decy-core/src/lib.rs
index 8d1ff36..de59be6 100644
--- a/crates/decy-core/src/lib.rs
+++ b/crates/decy-core/src/lib.rs
@@ -626,7 +626,8 @@ fn preprocess_includes(
             let include_path = base_dir.join(filename);
 
             // Check if already processed (circular dependency or duplicate)
-            if processed.contains(&include_path) {
+            let identity = file_identity(&include_path);
+            if processed.contains(&identity) {
                 // Already processed, skip (header guards working)
                 result.push_str(&format!("// Already included: {}\n", filename));
                 continue;
@@ -635,7 +636,7 @@ fn preprocess_includes(
             // Try to read the included file
             if let Ok(included_content) = std::fs::read_to_string(&include_path) {
                 // Mark as processed
-                processed.insert(include_path.clone());
+                processed.insert(identity);
 
                 // Get directory of included file for nested includes
                 let included_dir = include_path.parent().unwrap_or(base_dir);
@@ -1665,7 +1666,10 @@ fn collect_dependencies(source_dir: &Path, c_code: &str, dependencies: &mut Vec<
                 if let Some(end) = trimmed[start + 1..].find('"') {
                     let header_name = &trimmed[start + 1..start + 1 + end];
                     let header_path = source_dir.join(header_name);
-                    if header_path.exists() && !dependencies.contains(&header_path) {
+                    let identity = file_identity(&header_path);
+                    if header_path.exists()
+                        && !dependencies.iter().any(|known| file_identity(known) == identity)
+                    {
                         dependencies.push(header_path.clone());
                         if let Ok(header_code) = std::fs::read_to_string(&header_path) {
                             let header_dir = header_path.parent().unwrap_or(source_dir);
-- 
2.43.0


From 2ab420ea38cff7fbb6a33051e9606f3417efcc6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:40 +0000
Subject: [PATCH 54/96] fix: roll back to a version before the active one

---
 crates/decy-ownership/src/model_versioning.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/decy-ownership/src/model_versioning.rs b/crates/decy-ownership/src/model_versioning.rs
index 484a436..60e8f70 100644
--- a/crates/decy-ownership/src/model_versioning.rs
+++ b/crates/decy-ownership/src/model_versioning.rs
@@ -371,8 +371,8 @@ impl ModelVersionManager {
             .versions
             .iter()
             .enumerate()
+            .take(current_idx) // Only versions before the active one
             .rev()
-            .skip(1) // Skip current
             .find(|(_, e)| !e.rolled_back)
             .map(|(i, _)| i)
             .ok_or("No previous version available for rollback")?;
-- 
2.43.0


From 5ec0d0a8bab055954a0da2c158e10a0a49c106bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:40 +0000
Subject: [PATCH 55/96] fix: see a reversed lock order at a later acquisition

---
 crates/decy-verify/src/lock_verify.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/decy-verify/src/lock_verify.rs b/crates/decy-verify/src/lock_verify.rs
index d69a7af..a76aadd 100644
--- a/crates/decy-verify/src/lock_verify.rs
+++ b/crates/decy-verify/src/lock_verify.rs
@@ -304,8 +304,12 @@ impl<'a> LockDisciplineChecker<'a> {
                 let lock_a = &ordering1[i];
                 let lock_b = &ordering1[j];
 
-                // Check if ordering2 has lock_b before lock_a
-                let pos_a_in_2 = ordering2.iter().position(|l| l == lock_a);
+                if lock_a == lock_b {
+                    continue;
+                }
+
+                // Check if ordering2 has lock_b before lock_a (at any acquisition)
+                let pos_a_in_2 = ordering2.iter().rposition(|l| l == lock_a);
                 let pos_b_in_2 = ordering2.iter().position(|l| l == lock_b);
 
                 if let (Some(pos_a), Some(pos_b)) = (pos_a_in_2, pos_b_in_2) {
-- 
2.43.0


From 87629ccf5ee79655df8dee162ae1453ad0388e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:40 +0000
Subject: [PATCH 56/96] fix: report a mutex locked again while held

---
 crates/decy-analyzer/src/lock_analysis.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/decy-analyzer/src/lock_analysis.rs b/crates/decy-analyzer/src/lock_analysis.rs
index 11c86e5..b92adac 100644
--- a/crates/decy-analyzer/src/lock_analysis.rs
+++ b/crates/decy-analyzer/src/lock_analysis.rs
@@ -283,7 +283,13 @@ impl LockAnalyzer {
         for (idx, stmt) in body.iter().enumerate() {
             // Check for lock calls
             if let Some(lock_name) = Self::extract_lock_call(stmt) {
-                active_locks.insert(lock_name, idx);
+                if let Some(start_idx) = active_locks.insert(lock_name.clone(), idx) {
+                    // Locked again while held: the earlier lock has no unlock of its own
+                    violations.push(format!(
+                        "Unmatched lock: pthread_mutex_lock(&{}) at statement {} has no corresponding unlock",
+                        lock_name, start_idx
+                    ));
+                }
             }
             // Check for unlock calls
             else if let Some(unlock_name) = Self::extract_unlock_call(stmt) {
-- 
2.43.0


From 82d6d2a789dbb2f1f99007d3a5bd63d31c6521cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:40 +0000
Subject: [PATCH 57/96] fix: do not take a nested mutex for protected data

---
 crates/decy-analyzer/src/lock_analysis.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/decy-analyzer/src/lock_analysis.rs b/crates/decy-analyzer/src/lock_analysis.rs
index b92adac..dcce828 100644
--- a/crates/decy-analyzer/src/lock_analysis.rs
+++ b/crates/decy-analyzer/src/lock_analysis.rs
@@ -160,6 +160,11 @@ impl LockAnalyzer {
         // Scan statements in the region (excluding lock/unlock calls)
         for idx in (region.start_index + 1)..region.end_index {
             if let Some(stmt) = body.get(idx) {
+                if Self::extract_lock_call(stmt).is_some()
+                    || Self::extract_unlock_call(stmt).is_some()
+                {
+                    continue;
+                }
                 self.collect_accessed_variables(stmt, &mut accessed);
             }
         }
-- 
2.43.0


From 3195649530f9a833edab7856b0e7eb5496216c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:28 +0000
Subject: [PATCH 58/96] fix: see accesses to protected data in every statement
 form

---
 crates/decy-analyzer/src/lock_analysis.rs | 52 ++++++++++++++++++
 crates/decy-verify/src/lock_verify.rs     | 66 ++---------------------
 2 files changed, 55 insertions(+), 63 deletions(-)

diff --git a/crates/decy-analyzer/src/lock_analysis.rs b/crates/decy-analyzer/src/lock_analysis.rs
index dcce828..0df30fc 100644
--- a/crates/decy-analyzer/src/lock_analysis.rs
+++ b/crates/decy-analyzer/src/lock_analysis.rs
@@ -172,6 +172,13 @@ impl LockAnalyzer {
         accessed
     }
 
+    /// Find all variables read or written by a statement, nested statements included.
+    pub fn accessed_variables(&self, stmt: &HirStatement) -> HashSet<String> {
+        let mut accessed = HashSet::new();
+        self.collect_accessed_variables(stmt, &mut accessed);
+        accessed
+    }
+
     /// Recursively collect all variable names accessed in a statement.
     fn collect_accessed_variables(&self, stmt: &HirStatement, accessed: &mut HashSet<String>) {
         match stmt {
@@ -227,6 +234,24 @@ impl LockAnalyzer {
                 self.collect_variables_from_expr(object, accessed);
                 self.collect_variables_from_expr(value, accessed);
             }
+            HirStatement::For { init, condition, increment, body } => {
+                if let Some(cond) = condition {
+                    self.collect_variables_from_expr(cond, accessed);
+                }
+                for s in init.iter().chain(increment).chain(body) {
+                    self.collect_accessed_variables(s, accessed);
+                }
+            }
+            HirStatement::Switch { condition, cases, default_case } => {
+                self.collect_variables_from_expr(condition, accessed);
+                let default_stmts = default_case.iter().flatten();
+                for s in cases.iter().flat_map(|c| &c.body).chain(default_stmts) {
+                    self.collect_accessed_variables(s, accessed);
+                }
+            }
+            HirStatement::Free { pointer } => {
+                self.collect_variables_from_expr(pointer, accessed);
+            }
             _ => {
                 // Break, Continue, etc. don't access variables
             }
@@ -265,6 +290,33 @@ impl LockAnalyzer {
             HirExpression::Cast { expr, .. } => {
                 self.collect_variables_from_expr(expr, accessed);
             }
+            HirExpression::PostIncrement { operand }
+            | HirExpression::PreIncrement { operand }
+            | HirExpression::PostDecrement { operand }
+            | HirExpression::PreDecrement { operand } => {
+                self.collect_variables_from_expr(operand, accessed);
+            }
+            HirExpression::PointerFieldAccess { pointer, .. } => {
+                self.collect_variables_from_expr(pointer, accessed);
+            }
+            HirExpression::SliceIndex { slice, index, .. } => {
+                self.collect_variables_from_expr(slice, accessed);
+                self.collect_variables_from_expr(index, accessed);
+            }
+            HirExpression::IsNotNull(inner) => {
+                self.collect_variables_from_expr(inner, accessed);
+            }
+            HirExpression::Ternary { condition, then_expr, else_expr } => {
+                self.collect_variables_from_expr(condition, accessed);
+                self.collect_variables_from_expr(then_expr, accessed);
+                self.collect_variables_from_expr(else_expr, accessed);
+            }
+            HirExpression::StringMethodCall { receiver, arguments, .. } => {
+                self.collect_variables_from_expr(receiver, accessed);
+                for arg in arguments {
+                    self.collect_variables_from_expr(arg, accessed);
+                }
+            }
             // Literals and other expressions don't reference variables
             _ => {}
         }
diff --git a/crates/decy-verify/src/lock_verify.rs b/crates/decy-verify/src/lock_verify.rs
index a76aadd..22878a6 100644
--- a/crates/decy-verify/src/lock_verify.rs
+++ b/crates/decy-verify/src/lock_verify.rs
@@ -149,7 +149,9 @@ impl<'a> LockDisciplineChecker<'a> {
             }
 
             // Check if statement accesses protected data
-            let accessed_vars = self.collect_accessed_vars(stmt);
+            let mut accessed_vars: Vec<String> =
+                self.analyzer.accessed_variables(stmt).into_iter().collect();
+            accessed_vars.sort();
             for var in accessed_vars {
                 if protected_vars.contains(&var) {
                     violations.push(format!(
@@ -172,68 +174,6 @@ impl<'a> LockDisciplineChecker<'a> {
         regions.iter().any(|r| idx > r.start_index && idx < r.end_index)
     }
 
-    /// Collect all variable names accessed in a statement
-    fn collect_accessed_vars(&self, stmt: &decy_hir::HirStatement) -> Vec<String> {
-        use decy_hir::HirStatement;
-        let mut vars = Vec::new();
-
-        match stmt {
-            HirStatement::Assignment { target, value } => {
-                vars.push(target.clone());
-                Self::collect_vars_from_expr(value, &mut vars);
-            }
-            HirStatement::VariableDeclaration { initializer: Some(init), .. } => {
-                Self::collect_vars_from_expr(init, &mut vars);
-            }
-            HirStatement::Expression(expr) => {
-                Self::collect_vars_from_expr(expr, &mut vars);
-            }
-            HirStatement::Return(Some(expr)) => {
-                Self::collect_vars_from_expr(expr, &mut vars);
-            }
-            _ => {}
-        }
-
-        vars
-    }
-
-    /// Recursively collect variable names from an expression
-    fn collect_vars_from_expr(expr: &decy_hir::HirExpression, vars: &mut Vec<String>) {
-        use decy_hir::HirExpression;
-
-        match expr {
-            HirExpression::Variable(name) => {
-                vars.push(name.clone());
-            }
-            HirExpression::BinaryOp { left, right, .. } => {
-                Self::collect_vars_from_expr(left, vars);
-                Self::collect_vars_from_expr(right, vars);
-            }
-            HirExpression::UnaryOp { operand, .. } => {
-                Self::collect_vars_from_expr(operand, vars);
-            }
-            HirExpression::FunctionCall { arguments, .. } => {
-                for arg in arguments {
-                    Self::collect_vars_from_expr(arg, vars);
-                }
-            }
-            HirExpression::AddressOf(inner) | HirExpression::Dereference(inner) => {
-                Self::collect_vars_from_expr(inner, vars);
-            }
-            HirExpression::ArrayIndex { array, index } => {
-                Self::collect_vars_from_expr(array, vars);
-                Self::collect_vars_from_expr(index, vars);
-            }
-            HirExpression::FieldAccess { object, .. } => {
-                Self::collect_vars_from_expr(object, vars);
-            }
-            HirExpression::Cast { expr, .. } => {
-                Self::collect_vars_from_expr(expr, vars);
-            }
-            _ => {}
-        }
-    }
-
     /// Check for potential deadlocks
     ///
     /// Analyzes lock ordering across multiple functions to detect
-- 
2.43.0


From 88ec8040acd10b6cb86246db5a6d2fb280c84116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:03 +0000
Subject: [PATCH 59/96] fix: recognise inline assembly in unsafe blocks

---
 crates/decy-verify/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/decy-verify/src/lib.rs b/crates/decy-verify/src/lib.rs
index c7a47f2..b43693b 100644
--- a/crates/decy-verify/src/lib.rs
+++ b/crates/decy-verify/src/lib.rs
@@ -177,7 +177,7 @@ impl UnsafeAuditor {
                 "Consider safe alternatives like From/Into traits or checked conversions"
                     .to_string(),
             )
-        } else if block_str.contains("asm!") || block_str.contains("global_asm!") {
+        } else if block_str.contains("asm !") {
             (
                 UnsafePattern::Assembly,
                 15,
-- 
2.43.0


From f2fc01df331f74158dd93636d6da71bfc89439ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:03 +0000
Subject: [PATCH 60/96] fix: audit each file afresh

---
 crates/decy-verify/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/decy-verify/src/lib.rs b/crates/decy-verify/src/lib.rs
index b43693b..c340f9c 100644
--- a/crates/decy-verify/src/lib.rs
+++ b/crates/decy-verify/src/lib.rs
@@ -139,6 +139,10 @@ impl UnsafeAuditor {
 
     /// Analyze Rust source code and generate an audit report
     pub fn audit(&mut self, rust_code: &str) -> Result<UnsafeAuditReport> {
+        // Start afresh: an auditor may be used for several files
+        self.unsafe_blocks.clear();
+        self.unsafe_lines = 0;
+
         // Store source code for line counting
         self.source_code = rust_code.to_string();
 
-- 
2.43.0


From 1b711be79a0869fd85dee2deb24c83ee6aa83484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:03 +0000
Subject: [PATCH 61/96] fix: audit unsafe methods

---
 crates/decy-verify/src/lib.rs | 44 ++++++++++++++++++++++++-----------
 1 file changed, 30 insertions(+), 14 deletions(-)

diff --git a/crates/decy-verify/src/lib.rs b/crates/decy-verify/src/lib.rs
index c340f9c..73412d2 100644
--- a/crates/decy-verify/src/lib.rs
+++ b/crates/decy-verify/src/lib.rs
@@ -36,7 +36,7 @@ pub mod diff_test;
 pub mod lock_verify;
 
 use anyhow::{Context, Result};
-use syn::{visit::Visit, Block, Expr, ExprUnsafe, ItemFn};
+use syn::{visit::Visit, Block, Expr, ExprUnsafe, ImplItemFn, ItemFn, Signature, TraitItemFn};
 
 /// Represents a single unsafe block found in Rust code
 #[derive(Debug, Clone, PartialEq)]
@@ -211,6 +211,22 @@ impl UnsafeAuditor {
         // Rough approximation: count statements and add braces
         block.stmts.len() + 2
     }
+
+    fn note_function(&mut self, sig: &Signature, body: &Block) {
+        // Check if function is marked unsafe
+        if sig.unsafety.is_some() {
+            // Unsafe function - count the entire body as unsafe
+            let body_lines = self.count_block_lines(body);
+            self.unsafe_lines += body_lines;
+
+            self.unsafe_blocks.push(UnsafeBlock {
+                line: 0,
+                confidence: 60,
+                pattern: UnsafePattern::Other,
+                suggestion: "Unsafe function - review if entire function needs to be unsafe or just specific blocks".to_string(),
+            });
+        }
+    }
 }
 
 impl Default for UnsafeAuditor {
@@ -242,23 +258,23 @@ impl<'ast> Visit<'ast> for UnsafeAuditor {
 
     /// Visit items to find unsafe functions
     fn visit_item_fn(&mut self, func: &'ast ItemFn) {
-        // Check if function is marked unsafe
-        if func.sig.unsafety.is_some() {
-            // Unsafe function - count the entire body as unsafe
-            let body_lines = self.count_block_lines(&func.block);
-            self.unsafe_lines += body_lines;
-
-            self.unsafe_blocks.push(UnsafeBlock {
-                line: 0,
-                confidence: 60,
-                pattern: UnsafePattern::Other,
-                suggestion: "Unsafe function - review if entire function needs to be unsafe or just specific blocks".to_string(),
-            });
-        }
+        self.note_function(&func.sig, &func.block);
 
         // Continue visiting the function body
         syn::visit::visit_item_fn(self, func);
     }
+
+    fn visit_impl_item_fn(&mut self, func: &'ast ImplItemFn) {
+        self.note_function(&func.sig, &func.block);
+        syn::visit::visit_impl_item_fn(self, func);
+    }
+
+    fn visit_trait_item_fn(&mut self, func: &'ast TraitItemFn) {
+        if let Some(body) = &func.default {
+            self.note_function(&func.sig, body);
+        }
+        syn::visit::visit_trait_item_fn(self, func);
+    }
 }
 
 /// Convenience function to audit Rust code
-- 
2.43.0


From 67f0ee3057fe47c0b6aea4e5a11a30dbc9b50128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:03 +0000
Subject: [PATCH 62/96] fix: audit unsafe blocks in macro arguments

---
 crates/decy-verify/src/lib.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/crates/decy-verify/src/lib.rs b/crates/decy-verify/src/lib.rs
index 73412d2..409097d 100644
--- a/crates/decy-verify/src/lib.rs
+++ b/crates/decy-verify/src/lib.rs
@@ -36,7 +36,9 @@ pub mod diff_test;
 pub mod lock_verify;
 
 use anyhow::{Context, Result};
-use syn::{visit::Visit, Block, Expr, ExprUnsafe, ImplItemFn, ItemFn, Signature, TraitItemFn};
+use syn::{
+    visit::Visit, Block, Expr, ExprUnsafe, ImplItemFn, ItemFn, Macro, Signature, TraitItemFn,
+};
 
 /// Represents a single unsafe block found in Rust code
 #[derive(Debug, Clone, PartialEq)]
@@ -275,6 +277,20 @@ impl<'ast> Visit<'ast> for UnsafeAuditor {
         }
         syn::visit::visit_trait_item_fn(self, func);
     }
+
+    fn visit_macro(&mut self, mac: &'ast Macro) {
+        // Arguments of macros like println! may contain unsafe blocks
+        type Arguments = syn::punctuated::Punctuated<Expr, syn::Token![,]>;
+        if let Ok(arguments) = mac.parse_body_with(Arguments::parse_terminated) {
+            let mut nested = UnsafeAuditor::new();
+            for argument in &arguments {
+                nested.visit_expr(argument);
+            }
+            self.unsafe_lines += nested.unsafe_lines;
+            self.unsafe_blocks.append(&mut nested.unsafe_blocks);
+        }
+        syn::visit::visit_macro(self, mac);
+    }
 }
 
 /// Convenience function to audit Rust code
-- 
2.43.0


From c67bc74fb8c9c175ee2b6966dec556b2cc972916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:48 +0000
Subject: [PATCH 63/96] fix: tell output bytes and signals apart in
 differential tests

---
 crates/decy-verify/src/diff_test.rs | 37 +++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/crates/decy-verify/src/diff_test.rs b/crates/decy-verify/src/diff_test.rs
index a1e88c7..0e44b86 100644
--- a/crates/decy-verify/src/diff_test.rs
+++ b/crates/decy-verify/src/diff_test.rs
@@ -19,7 +19,7 @@
 
 use anyhow::{Context, Result};
 use std::path::{Path, PathBuf};
-use std::process::Command;
+use std::process::{Command, ExitStatus, Output};
 use tempfile::TempDir;
 
 /// Output captured from running a compiled binary.
@@ -136,15 +136,30 @@ pub fn compile_rust(rust_code: &str, config: &DiffTestConfig) -> Result<(TempDir
 
 /// Run a compiled binary and capture its output.
 pub fn run_binary(binary: &Path) -> Result<ExecutionOutput> {
-    let output = Command::new(binary)
+    run_binary_raw(binary).map(|output| to_execution_output(&output))
+}
+
+fn run_binary_raw(binary: &Path) -> Result<Output> {
+    Command::new(binary)
         .output()
-        .with_context(|| format!("Failed to execute binary: {}", binary.display()))?;
+        .with_context(|| format!("Failed to execute binary: {}", binary.display()))
+}
 
-    Ok(ExecutionOutput {
+fn to_execution_output(output: &Output) -> ExecutionOutput {
+    ExecutionOutput {
         stdout: String::from_utf8_lossy(&output.stdout).into_owned(),
         stderr: String::from_utf8_lossy(&output.stderr).into_owned(),
-        exit_code: output.status.code().unwrap_or(-1),
-    })
+        exit_code: exit_code(&output.status),
+    }
+}
+
+/// Exit code of a process; a process ended by a signal gives minus the signal number.
+fn exit_code(status: &ExitStatus) -> i32 {
+    #[cfg(unix)]
+    if let Some(signal) = std::os::unix::process::ExitStatusExt::signal(status) {
+        return -signal;
+    }
+    status.code().unwrap_or(-1)
 }
 
 /// Run a full differential test: compile C with gcc, compile Rust with rustc,
@@ -157,11 +172,13 @@ pub fn diff_test(c_code: &str, rust_code: &str, config: &DiffTestConfig) -> Resu
         compile_rust(rust_code, config).context("Rust compilation failed during diff test")?;
 
     // Run both
-    let c_output = run_binary(&c_bin).context("Failed to run C binary")?;
-    let rust_output = run_binary(&rs_bin).context("Failed to run Rust binary")?;
+    let c_raw = run_binary_raw(&c_bin).context("Failed to run C binary")?;
+    let rust_raw = run_binary_raw(&rs_bin).context("Failed to run Rust binary")?;
+    let c_output = to_execution_output(&c_raw);
+    let rust_output = to_execution_output(&rust_raw);
 
     // Compare
-    let stdout_matches = c_output.stdout == rust_output.stdout;
+    let stdout_matches = c_raw.stdout == rust_raw.stdout;
     let exit_code_matches = c_output.exit_code == rust_output.exit_code;
 
     let mut divergences = Vec::new();
@@ -180,7 +197,7 @@ pub fn diff_test(c_code: &str, rust_code: &str, config: &DiffTestConfig) -> Resu
         ));
     }
 
-    if config.compare_stderr && c_output.stderr != rust_output.stderr {
+    if config.compare_stderr && c_raw.stderr != rust_raw.stderr {
         divergences.push(format!(
             "stderr differs:\n  C:    {:?}\n  Rust: {:?}",
             c_output.stderr, rust_output.stderr
-- 
2.43.0


From 3f24454b9d50d513f3adcc7c25f1ca6f5f520e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:48 +0000
Subject: [PATCH 64/96] fix: honour the timeout of differential tests

---
 crates/decy-verify/src/diff_test.rs | 52 ++++++++++++++++++++++++-----
 1 file changed, 44 insertions(+), 8 deletions(-)

diff --git a/crates/decy-verify/src/diff_test.rs b/crates/decy-verify/src/diff_test.rs
index 0e44b86..03db645 100644
--- a/crates/decy-verify/src/diff_test.rs
+++ b/crates/decy-verify/src/diff_test.rs
@@ -18,8 +18,11 @@
 //! ```
 
 use anyhow::{Context, Result};
+use std::io::Read;
 use std::path::{Path, PathBuf};
-use std::process::{Command, ExitStatus, Output};
+use std::process::{Command, ExitStatus, Output, Stdio};
+use std::thread::JoinHandle;
+use std::time::{Duration, Instant};
 use tempfile::TempDir;
 
 /// Output captured from running a compiled binary.
@@ -136,13 +139,45 @@ pub fn compile_rust(rust_code: &str, config: &DiffTestConfig) -> Result<(TempDir
 
 /// Run a compiled binary and capture its output.
 pub fn run_binary(binary: &Path) -> Result<ExecutionOutput> {
-    run_binary_raw(binary).map(|output| to_execution_output(&output))
+    run_binary_raw(binary, None).map(|output| to_execution_output(&output))
 }
 
-fn run_binary_raw(binary: &Path) -> Result<Output> {
-    Command::new(binary)
-        .output()
-        .with_context(|| format!("Failed to execute binary: {}", binary.display()))
+/// Run a binary, ending it when it takes longer than `timeout`.
+fn run_binary_raw(binary: &Path, timeout: Option<Duration>) -> Result<Output> {
+    let mut child = Command::new(binary)
+        .stdin(Stdio::null())
+        .stdout(Stdio::piped())
+        .stderr(Stdio::piped())
+        .spawn()
+        .with_context(|| format!("Failed to execute binary: {}", binary.display()))?;
+    let stdout = child.stdout.take().map(read_in_background);
+    let stderr = child.stderr.take().map(read_in_background);
+
+    let start = Instant::now();
+    let status = loop {
+        if let Some(status) = child.try_wait().context("Failed to wait for binary")? {
+            break status;
+        }
+        if timeout.is_some_and(|limit| start.elapsed() >= limit) {
+            let _ = child.kill();
+            let _ = child.wait();
+            anyhow::bail!("Timed out after {:?}: {}", start.elapsed(), binary.display());
+        }
+        std::thread::sleep(Duration::from_millis(2));
+    };
+
+    let collect = |reader: Option<JoinHandle<Vec<u8>>>| {
+        reader.and_then(|handle| handle.join().ok()).unwrap_or_default()
+    };
+    Ok(Output { status, stdout: collect(stdout), stderr: collect(stderr) })
+}
+
+fn read_in_background(mut pipe: impl Read + Send + 'static) -> JoinHandle<Vec<u8>> {
+    std::thread::spawn(move || {
+        let mut bytes = Vec::new();
+        let _ = pipe.read_to_end(&mut bytes);
+        bytes
+    })
 }
 
 fn to_execution_output(output: &Output) -> ExecutionOutput {
@@ -172,8 +207,9 @@ pub fn diff_test(c_code: &str, rust_code: &str, config: &DiffTestConfig) -> Resu
         compile_rust(rust_code, config).context("Rust compilation failed during diff test")?;
 
     // Run both
-    let c_raw = run_binary_raw(&c_bin).context("Failed to run C binary")?;
-    let rust_raw = run_binary_raw(&rs_bin).context("Failed to run Rust binary")?;
+    let timeout = Some(Duration::from_secs(config.timeout_secs));
+    let c_raw = run_binary_raw(&c_bin, timeout).context("Failed to run C binary")?;
+    let rust_raw = run_binary_raw(&rs_bin, timeout).context("Failed to run Rust binary")?;
     let c_output = to_execution_output(&c_raw);
     let rust_output = to_execution_output(&rust_raw);
 
-- 
2.43.0


From c8e954bd7552588b092c7d23eb5273123cb8c098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:28 +0000
Subject: [PATCH 65/96] fix: take rustc error codes only from their place in
 the message

---
 crates/decy-verify/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/decy-verify/src/lib.rs b/crates/decy-verify/src/lib.rs
index 409097d..0980393 100644
--- a/crates/decy-verify/src/lib.rs
+++ b/crates/decy-verify/src/lib.rs
@@ -379,9 +379,9 @@ pub fn verify_compilation(rust_code: &str) -> Result<CompilationResult> {
             if line.starts_with("error") {
                 // Extract error code like E0308 from "error[E0308]: ..."
                 let code = line
-                    .find('[')
-                    .and_then(|start| line.find(']').map(|end| (start, end)))
-                    .map(|(start, end)| line[start + 1..end].to_string());
+                    .strip_prefix("error[")
+                    .and_then(|rest| rest.split_once(']'))
+                    .map(|(code, _)| code.to_string());
                 errors.push(CompilationError { code, message: line.to_string() });
             }
         }
-- 
2.43.0


From 49e45f010ad10ec763627538a0aef3963bf84131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:28 +0000
Subject: [PATCH 66/96] fix: verify code without main as a library

---
 crates/decy-verify/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/decy-verify/src/lib.rs b/crates/decy-verify/src/lib.rs
index 0980393..903c033 100644
--- a/crates/decy-verify/src/lib.rs
+++ b/crates/decy-verify/src/lib.rs
@@ -354,9 +354,13 @@ pub fn verify_compilation(rust_code: &str) -> Result<CompilationResult> {
     std::fs::write(&temp_file, rust_code)
         .context("Failed to write temp file for compilation check")?;
 
+    // Code without a main function is a library
+    let crate_type = if rust_code.contains("fn main(") { "bin" } else { "lib" };
+
     let output = Command::new("rustc")
         .arg("--emit=metadata")
         .arg("--edition=2021")
+        .arg(format!("--crate-type={}", crate_type))
         .arg("-o")
         .arg(&temp_output)
         .arg(&temp_file)
-- 
2.43.0


From ddd626fa7d05938ad5a7c6ff48094284e84a7df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:04 +0000
Subject: [PATCH 67/96] fix: keep concurrent compilation checks apart and clean
 up after them

The temp files were named after the clock alone, so two checks in the same
tick shared them, and they stayed behind when rustc could not be run. The
main function is looked for in the syntax tree.
---
 crates/decy-verify/src/lib.rs | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/crates/decy-verify/src/lib.rs b/crates/decy-verify/src/lib.rs
index 903c033..3aa5bed 100644
--- a/crates/decy-verify/src/lib.rs
+++ b/crates/decy-verify/src/lib.rs
@@ -344,18 +344,17 @@ pub struct CompilationResult {
 /// ```
 pub fn verify_compilation(rust_code: &str) -> Result<CompilationResult> {
     use std::process::Command;
-    use std::time::{SystemTime, UNIX_EPOCH};
 
-    let unique_id = SystemTime::now().duration_since(UNIX_EPOCH).map(|d| d.as_nanos()).unwrap_or(0);
-    let temp_dir = std::env::temp_dir();
-    let temp_file = temp_dir.join(format!("decy_verify_{}.rs", unique_id));
-    let temp_output = temp_dir.join(format!("decy_verify_{}.rmeta", unique_id));
+    // A directory of its own keeps concurrent calls apart and is removed on every path
+    let temp_dir = tempfile::tempdir().context("Failed to create temp directory")?;
+    let temp_file = temp_dir.path().join("decy_verify.rs");
+    let temp_output = temp_dir.path().join("decy_verify.rmeta");
 
     std::fs::write(&temp_file, rust_code)
         .context("Failed to write temp file for compilation check")?;
 
     // Code without a main function is a library
-    let crate_type = if rust_code.contains("fn main(") { "bin" } else { "lib" };
+    let crate_type = if has_main_function(rust_code) { "bin" } else { "lib" };
 
     let output = Command::new("rustc")
         .arg("--emit=metadata")
@@ -367,10 +366,6 @@ pub fn verify_compilation(rust_code: &str) -> Result<CompilationResult> {
         .output()
         .context("Failed to run rustc — is it installed?")?;
 
-    // Remove scratch files
-    let _ = std::fs::remove_file(&temp_file);
-    let _ = std::fs::remove_file(&temp_output);
-
     let stderr = String::from_utf8_lossy(&output.stderr);
 
     if output.status.success() {
@@ -393,6 +388,17 @@ pub fn verify_compilation(rust_code: &str) -> Result<CompilationResult> {
     }
 }
 
+/// Whether the code has a main function at the top level.
+fn has_main_function(rust_code: &str) -> bool {
+    match syn::parse_file(rust_code) {
+        Ok(file) => file
+            .items
+            .iter()
+            .any(|item| matches!(item, syn::Item::Fn(function) if function.sig.ident == "main")),
+        Err(_) => rust_code.contains("fn main("),
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 71fe1e2e95929acb23f32f8c77a2f03893e3bd06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:39 +0000
Subject: [PATCH 68/96] fix: keep a compound assignment that is used as a value

---
 crates/decy-parser/src/extract/expressions.rs | 51 ++++++++++++++++++-
 1 file changed, 49 insertions(+), 2 deletions(-)

diff --git a/crates/decy-parser/src/extract/expressions.rs b/crates/decy-parser/src/extract/expressions.rs
index 40df849..804ce1d 100644
--- a/crates/decy-parser/src/extract/expressions.rs
+++ b/crates/decy-parser/src/extract/expressions.rs
@@ -6,8 +6,8 @@ use std::ffi::CStr;
 use std::ptr;
 
 use super::statements::{
-    extract_assignment_stmt, extract_for_stmt, extract_if_stmt, extract_inc_dec_stmt,
-    extract_return_stmt, extract_var_decl, extract_while_stmt,
+    extract_assignment_stmt, extract_compound_assignment_stmt, extract_for_stmt, extract_if_stmt,
+    extract_inc_dec_stmt, extract_return_stmt, extract_var_decl, extract_while_stmt,
 };
 use super::types::convert_type;
 
@@ -23,6 +23,7 @@ pub(crate) fn try_extract_expression(cursor: CXCursor) -> Option<Expression> {
         110 => extract_char_literal(cursor), // CXCursor_CharacterLiteral
         CXCursor_DeclRefExpr => extract_variable_ref(cursor),
         CXCursor_BinaryOperator => extract_binary_op(cursor),
+        CXCursor_CompoundAssignOperator => extract_compound_assignment_expr(cursor),
         CXCursor_CallExpr => extract_function_call(cursor),
         CXCursor_UnaryOperator => extract_unary_op(cursor),
         CXCursor_ArraySubscriptExpr => extract_array_index(cursor),
@@ -182,6 +183,13 @@ pub(crate) extern "C" fn visit_expression(
             }
             CXChildVisit_Continue
         }
+        CXCursor_CompoundAssignOperator => {
+            // Compound assignment used as a value (e.g., (a += 2) > 3)
+            if let Some(expr) = extract_compound_assignment_expr(cursor) {
+                *expr_opt = Some(expr);
+            }
+            CXChildVisit_Continue
+        }
         CXCursor_CallExpr => {
             // Function call
             if let Some(expr) = extract_function_call(cursor) {
@@ -609,6 +617,31 @@ pub(crate) fn extract_binary_op(cursor: CXCursor) -> Option<Expression> {
     })
 }
 
+/// Extract a compound assignment that is used as a value: `a += b` is `a = a + b`.
+fn extract_compound_assignment_expr(cursor: CXCursor) -> Option<Expression> {
+    let op = match extract_compound_assignment_stmt(cursor)? {
+        Statement::CompoundAssignment { op, .. }
+        | Statement::DerefCompoundAssignment { op, .. } => op,
+        _ => return None,
+    };
+    let mut operands: Vec<Expression> = Vec::new();
+    let operands_ptr = &mut operands as *mut Vec<Expression>;
+    unsafe {
+        clang_visitChildren(cursor, visit_binary_operand, operands_ptr as CXClientData);
+    }
+    let value = operands.pop()?;
+    let target = operands.pop()?;
+    Some(Expression::BinaryOp {
+        op: BinaryOperator::Assign,
+        left: Box::new(target.clone()),
+        right: Box::new(Expression::BinaryOp {
+            op,
+            left: Box::new(target),
+            right: Box::new(value),
+        }),
+    })
+}
+
 /// Value of an integer constant expression that the expansion of one macro name produced.
 fn evaluate_macro_constant(cursor: CXCursor) -> Option<Expression> {
     unsafe {
@@ -702,6 +735,13 @@ pub(crate) extern "C" fn visit_binary_operand(
             }
             CXChildVisit_Continue
         }
+        CXCursor_CompoundAssignOperator => {
+            // Compound assignment used as a value (e.g., (a += 2) > 3)
+            if let Some(expr) = extract_compound_assignment_expr(cursor) {
+                operands.push(expr);
+            }
+            CXChildVisit_Continue
+        }
         CXCursor_UnaryOperator => {
             // Unary operation (e.g., *ptr dereference)
             if let Some(expr) = extract_unary_op(cursor) {
@@ -1220,6 +1260,13 @@ pub(crate) extern "C" fn visit_call_argument(
             }
             CXChildVisit_Continue
         }
+        CXCursor_CompoundAssignOperator => {
+            // Compound assignment used as a value (e.g., (a += 2) > 3)
+            if let Some(expr) = extract_compound_assignment_expr(cursor) {
+                arg_data.arguments.push(expr);
+            }
+            CXChildVisit_Continue
+        }
         CXCursor_CallExpr => {
             // Nested function call (e.g., add(add(x, 5), add(10, 20)))
             if let Some(expr) = extract_function_call(cursor) {
-- 
2.43.0


From ba2db2c3d142d07d2b38a0b9da9c30b108be0b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:28 +0000
Subject: [PATCH 69/96] fix: compute library functions instead of returning
 zero

A function that was only declared got a body returning zero, so sqrt, toupper
or strcmp from the injected standard headers silently gave wrong results.
---
 crates/decy-codegen/src/transform_gen.rs | 53 ++++++++++++++++++++++++
 1 file changed, 53 insertions(+)

diff --git a/crates/decy-codegen/src/transform_gen.rs b/crates/decy-codegen/src/transform_gen.rs
index 52dd190..86be58b 100644
--- a/crates/decy-codegen/src/transform_gen.rs
+++ b/crates/decy-codegen/src/transform_gen.rs
@@ -911,6 +911,8 @@ impl CodeGenerator {
         // Generate body statements if present
         if func.name() == "main" && func.body().is_empty() {
             // Falling off the end of main is a successful exit
+        } else if let Some(body) = Self::library_function_body(func) {
+            code.push_str(&format!("    return {};\n", body));
         } else if func.body().is_empty() {
             // Generate stub body with return statement
             let return_stmt = self.generate_return(func.return_type());
@@ -936,6 +938,57 @@ impl CodeGenerator {
         code
     }
 
+    /// Value of a declared function of the C library that computes on numbers or compares strings.
+    fn library_function_body(func: &HirFunction) -> Option<String> {
+        if !func.body().is_empty() {
+            return None;
+        }
+        let all = |of: HirType| {
+            *func.return_type() == of && func.parameters().iter().all(|p| *p.param_type() == of)
+        };
+        let names: Vec<String> =
+            func.parameters().iter().map(|p| escape_rust_keyword(p.name())).collect();
+        let args: Vec<&str> = names.iter().map(String::as_str).collect();
+        let body = match (func.name(), args.as_slice()) {
+            (
+                "acos" | "asin" | "atan" | "ceil" | "cos" | "exp" | "floor" | "log10" | "round"
+                | "sin" | "sqrt" | "tan" | "trunc",
+                [x],
+            ) if all(HirType::Double) => {
+                format!("{}.{}()", x, func.name())
+            }
+            ("fabs", [x]) if all(HirType::Double) => format!("{}.abs()", x),
+            ("log", [x]) if all(HirType::Double) => format!("{}.ln()", x),
+            ("atan2", [y, x]) if all(HirType::Double) => format!("{}.atan2({})", y, x),
+            ("pow", [x, y]) if all(HirType::Double) => format!("{}.powf({})", x, y),
+            ("fmod", [x, y]) if all(HirType::Double) => format!("{} % {}", x, y),
+            ("abs" | "labs", [j]) if all(HirType::Int) => format!("{}.abs()", j),
+            ("isalnum", [c]) if all(HirType::Int) => {
+                format!("matches!({}, 48..=57 | 65..=90 | 97..=122) as i32", c)
+            }
+            ("isalpha", [c]) if all(HirType::Int) => {
+                format!("matches!({}, 65..=90 | 97..=122) as i32", c)
+            }
+            ("isdigit", [c]) if all(HirType::Int) => format!("matches!({}, 48..=57) as i32", c),
+            ("islower", [c]) if all(HirType::Int) => format!("matches!({}, 97..=122) as i32", c),
+            ("isupper", [c]) if all(HirType::Int) => format!("matches!({}, 65..=90) as i32", c),
+            ("isspace", [c]) if all(HirType::Int) => {
+                format!("matches!({}, 9..=13 | 32) as i32", c)
+            }
+            ("tolower", [c]) if all(HirType::Int) => {
+                format!("if matches!({0}, 65..=90) {{ {0} + 32 }} else {{ {0} }}", c)
+            }
+            ("toupper", [c]) if all(HirType::Int) => {
+                format!("if matches!({0}, 97..=122) {{ {0} - 32 }} else {{ {0} }}", c)
+            }
+            ("strcmp", [s1, s2]) if func.parameters().iter().all(|p| p.is_const_char_pointer()) => {
+                format!("{}.cmp({}) as i32", s1, s2)
+            }
+            _ => return None,
+        };
+        Some(body)
+    }
+
     /// Bind the argument count of C's `main` (Rust's entry point takes no parameters).
     fn generate_main_arguments(func: &HirFunction) -> String {
         match func.parameters().first() {
-- 
2.43.0


From 559884283414436c7b4559d5db2b8d34b8fcdb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:07 +0000
Subject: [PATCH 70/96] fix: do not alias bool to itself

---
 crates/decy-codegen/src/type_gen.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/decy-codegen/src/type_gen.rs b/crates/decy-codegen/src/type_gen.rs
index e679c58..8cebc12 100644
--- a/crates/decy-codegen/src/type_gen.rs
+++ b/crates/decy-codegen/src/type_gen.rs
@@ -566,6 +566,10 @@ impl CodeGenerator {
                 // Generate as a comment for documentation purposes
                 format!("// type {} = {}; (redundant in Rust)", name, struct_name)
             }
+            underlying if Self::map_type(underlying) == name => {
+                // The name is the Rust type itself (bool from stdbool.h)
+                format!("// type {} = {}; (redundant in Rust)", name, name)
+            }
             _ => {
                 // Regular type alias with public visibility
                 format!("pub type {} = {};", name, Self::map_type(typedef.underlying_type()))
-- 
2.43.0


From 8f0a2ce7e2830ebf8cb229cb8f0178961f919c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:17 +0000
Subject: [PATCH 71/96] fix: declare function pointers and directory streams in
 valid C

---
 crates/decy-stdlib/src/lib.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/decy-stdlib/src/lib.rs b/crates/decy-stdlib/src/lib.rs
index 70f0186..9c045a6 100644
--- a/crates/decy-stdlib/src/lib.rs
+++ b/crates/decy-stdlib/src/lib.rs
@@ -132,7 +132,14 @@ impl FunctionProto {
             let mut p = self
                 .parameters
                 .iter()
-                .map(|param| format!("{} {}", param.type_str, param.name))
+                .map(|param| {
+                    if param.type_str.contains("(*)") {
+                        // The name of a function pointer stands inside its type
+                        param.type_str.replacen("(*)", &format!("(*{})", param.name), 1)
+                    } else {
+                        format!("{} {}", param.type_str, param.name)
+                    }
+                })
                 .collect::<Vec<_>>()
                 .join(", ");
 
@@ -432,6 +439,8 @@ impl StdlibPrototypes {
         result.push_str("typedef long time_t;\n");
         result.push_str("typedef long clock_t;\n");
         result.push_str("typedef int wchar_t;\n");
+        result.push_str("struct dirent;\n");
+        result.push_str("typedef struct __dirstream DIR;\n");
         result.push_str("extern int errno;\n");
         // Common macros
         result.push_str("#define CLOCKS_PER_SEC 1000000\n");
-- 
2.43.0


From d5c4380e96939599f5ed27173721eacab56a4093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:43 +0000
Subject: [PATCH 72/96] fix: take the size of the element, not of the array, in
 sizeof(v[0])

---
 crates/decy-codegen/src/expr_gen/misc.rs      | 10 ++++-
 crates/decy-parser/src/extract/expressions.rs | 41 +++++++++++++++++++
 2 files changed, 50 insertions(+), 1 deletion(-)

diff --git a/crates/decy-codegen/src/expr_gen/misc.rs b/crates/decy-codegen/src/expr_gen/misc.rs
index d48a1b4..bc71660 100644
--- a/crates/decy-codegen/src/expr_gen/misc.rs
+++ b/crates/decy-codegen/src/expr_gen/misc.rs
@@ -114,6 +114,12 @@ impl CodeGenerator {
                 if let Some(field_type) = field_type {
                     let rust_type = Self::map_type(&field_type);
                     format!("std::mem::size_of::<{}>() as i32", rust_type)
+                } else if matches!(ctx.get_type(struct_name), Some(HirType::Struct(_))) {
+                    format!(
+                        "std::mem::size_of_val(&{}.{}) as i32",
+                        struct_name,
+                        parts[1..].join(".")
+                    )
                 } else if ctx.get_type(struct_name).is_some() {
                     let field = parts[1..].join(".");
                     format!("std::mem::size_of_val(&(*{}).{}) as i32", struct_name, field)
@@ -126,7 +132,9 @@ impl CodeGenerator {
                 format!("std::mem::size_of::<{}>() as i32", rust_type)
             }
         } else {
-            if ctx.get_type(trimmed).is_some() {
+            if let (true, Some(ty)) = (ctx.is_global(trimmed), ctx.get_type(trimmed)) {
+                format!("std::mem::size_of::<{}>() as i32", Self::map_type(ty))
+            } else if ctx.get_type(trimmed).is_some() {
                 format!("std::mem::size_of_val(&{}) as i32", trimmed)
             } else {
                 let rust_type = self.map_sizeof_type(type_name);
diff --git a/crates/decy-parser/src/extract/expressions.rs b/crates/decy-parser/src/extract/expressions.rs
index 804ce1d..3f20c22 100644
--- a/crates/decy-parser/src/extract/expressions.rs
+++ b/crates/decy-parser/src/extract/expressions.rs
@@ -1652,6 +1652,8 @@ pub(crate) fn extract_sizeof(cursor: CXCursor) -> Option<Expression> {
     let mut type_name = String::new();
     let mut paren_depth = 0;
     let mut in_sizeof_parens = false;
+    // An element (`v[0]`) or a dereferenced pointer (`*p`) has a type of its own
+    let mut derived_operand = false;
 
     // Look through tokens to extract type name (skip first token which is "sizeof")
     // DECY-119: Track paren depth to stop at closing paren
@@ -1663,6 +1665,9 @@ pub(crate) fn extract_sizeof(cursor: CXCursor) -> Option<Expression> {
             let c_str = CStr::from_ptr(clang_getCString(token_cxstring));
 
             if let Ok(token_str) = c_str.to_str() {
+                if token_str == "[" || (token_str == "*" && type_name.is_empty()) {
+                    derived_operand = true;
+                }
                 if token_str == "(" {
                     paren_depth += 1;
                     in_sizeof_parens = true;
@@ -1692,6 +1697,12 @@ pub(crate) fn extract_sizeof(cursor: CXCursor) -> Option<Expression> {
         clang_disposeTokens(tu, tokens, num_tokens);
     }
 
+    if derived_operand {
+        if let Some(operand_type) = sizeof_operand_type(cursor) {
+            return Some(Expression::Sizeof { type_name: operand_type });
+        }
+    }
+
     // We already verified first token is sizeof, just check we got a type name
     if !type_name.is_empty() {
         Some(Expression::Sizeof { type_name })
@@ -1700,6 +1711,36 @@ pub(crate) fn extract_sizeof(cursor: CXCursor) -> Option<Expression> {
     }
 }
 
+/// Name of the type of the expression a `sizeof` is applied to.
+fn sizeof_operand_type(cursor: CXCursor) -> Option<String> {
+    extern "C" fn visit_operand(
+        cursor: CXCursor,
+        _parent: CXCursor,
+        client_data: CXClientData,
+    ) -> CXChildVisitResult {
+        if unsafe { clang_isExpression(clang_getCursorKind(cursor)) } == 0 {
+            return CXChildVisit_Continue;
+        }
+        // SAFETY: client_data points to the Option<String> below
+        let result = unsafe { &mut *(client_data as *mut Option<String>) };
+        let spelling = unsafe { clang_getTypeSpelling(clang_getCursorType(cursor)) };
+        let c_str = unsafe { CStr::from_ptr(clang_getCString(spelling)) };
+        *result = Some(c_str.to_string_lossy().into_owned());
+        unsafe { clang_disposeString(spelling) };
+        CXChildVisit_Break
+    }
+
+    let mut result: Option<String> = None;
+    unsafe {
+        clang_visitChildren(
+            cursor,
+            visit_operand,
+            &mut result as *mut Option<String> as CXClientData,
+        );
+    }
+    result
+}
+
 /// Convert clang type to our Type enum.
 /// Extract a cast expression from a clang cursor.
 ///
-- 
2.43.0


From 973e266707dccd99fb17de4ee2fd4284b37f8d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:29 +0000
Subject: [PATCH 73/96] fix: pass, place and size arrays as C does

---
 crates/decy-codegen/src/expr_gen/calls.rs    | 17 ++++++++++----
 crates/decy-codegen/src/stmt_gen.rs          | 20 +++++++++++++++-
 crates/decy-core/src/lib.rs                  | 24 +++++++++++++++++++-
 crates/decy-parser/src/extract/statements.rs |  2 ++
 crates/decy-parser/src/extract/types.rs      |  5 ++++
 5 files changed, 62 insertions(+), 6 deletions(-)

diff --git a/crates/decy-codegen/src/expr_gen/calls.rs b/crates/decy-codegen/src/expr_gen/calls.rs
index e05aff6..ad2ad5d 100644
--- a/crates/decy-codegen/src/expr_gen/calls.rs
+++ b/crates/decy-codegen/src/expr_gen/calls.rs
@@ -806,11 +806,20 @@ impl CodeGenerator {
                         .map(|t| matches!(t, HirType::Array { size: None, .. }))
                         .unwrap_or(false);
                     if is_slice_param {
-                        if let HirExpression::Variable(var_name) = arg {
-                            let var_type = ctx.get_type(var_name);
-                            if matches!(var_type, Some(HirType::Array { size: Some(_), .. })) {
-                                return Some(format!("&mut {}", var_name));
+                        let arg_type = ctx.infer_expression_type(arg);
+                        if matches!(
+                            arg_type,
+                            Some(HirType::Array { size: Some(_), .. } | HirType::Vec(_))
+                        ) {
+                            let place = self.generate_expression_with_context(arg, ctx);
+                            if place.starts_with("unsafe { ") {
+                                // A global: borrow it, not a copy of its value
+                                return Some(format!(
+                                    "unsafe {{ &mut *std::ptr::addr_of_mut!({}) }}",
+                                    Self::strip_nested_unsafe(&place)
+                                ));
                             }
+                            return Some(format!("&mut {}", place));
                         }
                     }
 
diff --git a/crates/decy-codegen/src/stmt_gen.rs b/crates/decy-codegen/src/stmt_gen.rs
index 773b2e4..8cebddb 100644
--- a/crates/decy-codegen/src/stmt_gen.rs
+++ b/crates/decy-codegen/src/stmt_gen.rs
@@ -1027,6 +1027,10 @@ impl CodeGenerator {
         } else {
             self.generate_expression_with_context(array, ctx)
         };
+        // A row of a global array is a place in that array, not a copy of it
+        let is_global_place = !is_raw_pointer && array_code.starts_with("unsafe { ");
+        let array_code =
+            if is_global_place { Self::strip_nested_unsafe(&array_code) } else { array_code };
         let index_code = self.generate_expression_with_context(index, ctx);
         let mut value_code =
             self.generate_expression_with_target_type(value, ctx, target_type.as_ref());
@@ -1052,7 +1056,7 @@ impl CodeGenerator {
             // DECY-072: Cast index to usize for slice indexing
             // DECY-150: Wrap index in parens to handle operator precedence
             // DECY-223: Wrap global array assignment in unsafe block
-            if is_global_array {
+            if is_global_array || is_global_place {
                 format!("unsafe {{ {}[({}) as usize] = {}; }}", array_code, index_code, value_code)
             } else {
                 format!("{}[({}) as usize] = {};", array_code, index_code, value_code)
@@ -1095,6 +1099,20 @@ impl CodeGenerator {
                     return format!("unsafe {{ {}.{} = {}; }}", name, escaped_field, clean_value);
                 }
             }
+            // An element reached through a raw pointer: assign in place, not to a copy of it
+            if let HirExpression::ArrayIndex { array, .. } = object {
+                if matches!(ctx.infer_expression_type(array), Some(HirType::Pointer(_))) {
+                    return Self::unsafe_stmt(
+                        &format!(
+                            "({}).{} = {}",
+                            Self::strip_nested_unsafe(&obj_code),
+                            escaped_field,
+                            value_code
+                        ),
+                        "index is within bounds of allocated array",
+                    );
+                }
+            }
             // Regular struct field assignment
             format!("{}.{} = {};", obj_code, escaped_field, value_code)
         }
diff --git a/crates/decy-core/src/lib.rs b/crates/decy-core/src/lib.rs
index de59be6..fa789b0 100644
--- a/crates/decy-core/src/lib.rs
+++ b/crates/decy-core/src/lib.rs
@@ -917,6 +917,18 @@ fn const_struct_literal(struct_name: &str, hir_structs: &[decy_hir::HirStruct])
     }
 }
 
+/// Zero initializer of a row of a multi-dimensional array.
+fn zero_row(row_type: &decy_hir::HirType) -> String {
+    match row_type {
+        decy_hir::HirType::Array { element_type, size } => {
+            format!("[{}; {}]", zero_row(element_type), size.unwrap_or(0))
+        }
+        decy_hir::HirType::Float | decy_hir::HirType::Double => "0.0".to_string(),
+        decy_hir::HirType::Pointer(_) => "std::ptr::null_mut()".to_string(),
+        _ => "0".to_string(),
+    }
+}
+
 fn generate_initialized_global_code(
     name: &str,
     var_type: &decy_hir::HirType,
@@ -927,7 +939,13 @@ fn generate_initialized_global_code(
 ) -> String {
     let init_code =
         if let decy_hir::HirType::Array { element_type, size: Some(size_val) } = var_type {
-            if matches!(init_expr, decy_hir::HirExpression::IntLiteral(_)) {
+            // An array is initialized by a list or a string: anything else is its size
+            if matches!(
+                init_expr,
+                decy_hir::HirExpression::IntLiteral(_)
+                    | decy_hir::HirExpression::Variable(_)
+                    | decy_hir::HirExpression::BinaryOp { .. }
+            ) {
                 let element_init = match element_type.as_ref() {
                     decy_hir::HirType::Char => "0u8".to_string(),
                     decy_hir::HirType::SignedChar => "0i8".to_string(),
@@ -937,6 +955,7 @@ fn generate_initialized_global_code(
                     decy_hir::HirType::Double => "0.0f64".to_string(),
                     decy_hir::HirType::Pointer(_) => "std::ptr::null_mut()".to_string(),
                     decy_hir::HirType::Struct(sname) => const_struct_literal(sname, hir_structs),
+                    row @ decy_hir::HirType::Array { .. } => zero_row(row),
                     _ => "0".to_string(),
                 };
                 format!("[{}; {}]", element_init, size_val)
@@ -980,6 +999,7 @@ fn generate_uninitialized_global_code(
                         decy_hir::HirType::Struct(sname) => {
                             const_struct_literal(sname, hir_structs)
                         }
+                        row @ decy_hir::HirType::Array { .. } => zero_row(row),
                         _ => "0".to_string(),
                     };
                     if let Some(n) = size {
@@ -1507,7 +1527,9 @@ fn process_ast_to_rust(ast: decy_parser::Ast, _base_dir: Option<&Path>) -> Resul
                     decy_hir::HirType::Double => "0.0".to_string(),
                     decy_hir::HirType::Pointer(_) => "std::ptr::null_mut()".to_string(),
                     decy_hir::HirType::Array { element_type, size } => {
+                        let row_default = zero_row(element_type);
                         let elem_default = match element_type.as_ref() {
+                            decy_hir::HirType::Array { .. } => row_default.as_str(),
                             decy_hir::HirType::Char => "0u8",
                             decy_hir::HirType::SignedChar => "0i8", // DECY-250
                             decy_hir::HirType::Int => "0i32",
diff --git a/crates/decy-parser/src/extract/statements.rs b/crates/decy-parser/src/extract/statements.rs
index 00abb6b..74d5f72 100644
--- a/crates/decy-parser/src/extract/statements.rs
+++ b/crates/decy-parser/src/extract/statements.rs
@@ -92,6 +92,8 @@ pub(crate) fn extract_var_decl(cursor: CXCursor) -> Option<Statement> {
             // The "initializer" is actually the array size expression, not a real initializer
             None
         }
+        // An array is initialized by a list or a string: this is a size such as `N` or `N + 1`
+        (Type::Array { .. }, Some(Expression::Variable(_) | Expression::BinaryOp { .. })) => None,
         _ => initializer,
     };
 
diff --git a/crates/decy-parser/src/extract/types.rs b/crates/decy-parser/src/extract/types.rs
index 2e5ce8a..8ac6dd2 100644
--- a/crates/decy-parser/src/extract/types.rs
+++ b/crates/decy-parser/src/extract/types.rs
@@ -52,6 +52,11 @@ pub(crate) fn extract_function(cursor: CXCursor) -> Option<Function> {
                     false
                 }
             };
+            // An array parameter is a pointer in C: the length in it says nothing
+            let param_type = match param_type {
+                Type::Array { element_type, .. } => Type::Array { element_type, size: None },
+                other => other,
+            };
             parameters.push(Parameter::new_with_const(param_name, param_type, is_pointee_const));
         }
     }
-- 
2.43.0


From e346dc9a59e23ef774476c4a40887d0e25f77af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:54 +0000
Subject: [PATCH 74/96] fix: reach globals, pointees and vector elements in
 place

Assignments and increments through a pointer, a pointer field or a global went to a copy;
an index that reads the vector it indexes did not compile.
---
 .../decy-codegen/src/expr_gen/binary_ops.rs   |  6 ++
 crates/decy-codegen/src/expr_gen/misc.rs      | 26 +++++++
 crates/decy-codegen/src/lib.rs                | 17 ++++-
 crates/decy-codegen/src/stmt_gen.rs           | 70 +++++++++++++------
 4 files changed, 97 insertions(+), 22 deletions(-)

diff --git a/crates/decy-codegen/src/expr_gen/binary_ops.rs b/crates/decy-codegen/src/expr_gen/binary_ops.rs
index 1031268..62d834d 100644
--- a/crates/decy-codegen/src/expr_gen/binary_ops.rs
+++ b/crates/decy-codegen/src/expr_gen/binary_ops.rs
@@ -235,6 +235,12 @@ impl CodeGenerator {
         }
 
         let left_code = self.generate_expression_with_context(left, ctx);
+        if let Some(place) = Self::unsafe_place(&left_code) {
+            return format!(
+                "{{ let __assign_tmp = {}; unsafe {{ {} = __assign_tmp }}; __assign_tmp }}",
+                right_code, place
+            );
+        }
         format!(
             "{{ let __assign_tmp = {}; {} = __assign_tmp; __assign_tmp }}",
             right_code, left_code
diff --git a/crates/decy-codegen/src/expr_gen/misc.rs b/crates/decy-codegen/src/expr_gen/misc.rs
index bc71660..e28fc06 100644
--- a/crates/decy-codegen/src/expr_gen/misc.rs
+++ b/crates/decy-codegen/src/expr_gen/misc.rs
@@ -15,6 +15,14 @@ impl CodeGenerator {
         let escaped_field = escape_rust_keyword(field);
         match pointer {
             HirExpression::PointerFieldAccess { .. } | HirExpression::FieldAccess { .. } => {
+                if matches!(ctx.infer_expression_type(pointer), Some(HirType::Pointer(_))) {
+                    let ptr_code = self.generate_expression_with_context(pointer, ctx);
+                    let ptr_code = Self::unsafe_place(&ptr_code).unwrap_or(ptr_code);
+                    return Self::unsafe_block(
+                        &format!("(*{}).{}", ptr_code, escaped_field),
+                        "pointer is non-null and points to valid struct",
+                    );
+                }
                 format!("{}.{}", self.generate_expression_with_context(pointer, ctx), escaped_field)
             }
             _ => {
@@ -68,6 +76,12 @@ impl CodeGenerator {
             );
         }
 
+        if let Some(place) = Self::unsafe_place(&array_code) {
+            // Part of a global or pointee: one block around the whole access, since a block
+            // at the start of a statement cannot be indexed
+            return format!("unsafe {{ {}[({}) as usize] }}", place, index_code);
+        }
+
         let index_expr = format!("{}[({}) as usize]", array_code, index_code);
         if is_global_array {
             format!("unsafe {{ {} }}", index_expr)
@@ -370,6 +384,10 @@ impl CodeGenerator {
                 "{{ let __tmp = {operand}; {operand} = {operand}.wrapping_add(1); __tmp }}",
                 operand = operand_code
             )
+        } else if let Some(place) = Self::unsafe_place(&operand_code) {
+            format!(
+                "{{ let __tmp = unsafe {{ {place} }}; unsafe {{ {place} += 1 }}; __tmp }}"
+            )
         } else {
             format!("{{ let __tmp = {operand}; {operand} += 1; __tmp }}", operand = operand_code)
         }
@@ -398,6 +416,8 @@ impl CodeGenerator {
                 "{{ {operand} = {operand}.wrapping_add(1); {operand} }}",
                 operand = operand_code
             )
+        } else if let Some(place) = Self::unsafe_place(&operand_code) {
+            format!("{{ unsafe {{ {place} += 1 }}; unsafe {{ {place} }} }}")
         } else {
             format!("{{ {operand} += 1; {operand} }}", operand = operand_code)
         }
@@ -426,6 +446,10 @@ impl CodeGenerator {
                 "{{ let __tmp = {operand}; {operand} = {operand}.wrapping_sub(1); __tmp }}",
                 operand = operand_code
             )
+        } else if let Some(place) = Self::unsafe_place(&operand_code) {
+            format!(
+                "{{ let __tmp = unsafe {{ {place} }}; unsafe {{ {place} -= 1 }}; __tmp }}"
+            )
         } else {
             format!("{{ let __tmp = {operand}; {operand} -= 1; __tmp }}", operand = operand_code)
         }
@@ -454,6 +478,8 @@ impl CodeGenerator {
                 "{{ {operand} = {operand}.wrapping_sub(1); {operand} }}",
                 operand = operand_code
             )
+        } else if let Some(place) = Self::unsafe_place(&operand_code) {
+            format!("{{ unsafe {{ {place} -= 1 }}; unsafe {{ {place} }} }}")
         } else {
             format!("{{ {operand} -= 1; {operand} }}", operand = operand_code)
         }
diff --git a/crates/decy-codegen/src/lib.rs b/crates/decy-codegen/src/lib.rs
index 550d4a9..b290ec8 100644
--- a/crates/decy-codegen/src/lib.rs
+++ b/crates/decy-codegen/src/lib.rs
@@ -427,11 +427,15 @@ impl CodeGenerator {
                 '}' if depth > 0 => depth -= 1,
                 '}' => {
                     let inner = body[..i].strip_suffix(' ').unwrap_or(&body[..i]);
+                    let rest = &body[i + 1..];
+                    // `.x` and `[i]` bind tighter than the dereference in `unsafe { *p }.x`
+                    let parens = inner.starts_with('*') && rest.starts_with(['.', '[']);
+                    let inner = Self::strip_nested_unsafe(inner);
                     return format!(
                         "{}{}{}",
                         &code[..start],
-                        Self::strip_nested_unsafe(inner),
-                        Self::strip_nested_unsafe(&body[i + 1..])
+                        if parens { format!("({})", inner) } else { inner },
+                        Self::strip_nested_unsafe(rest)
                     );
                 }
                 _ => {}
@@ -440,6 +444,15 @@ impl CodeGenerator {
         code.to_string()
     }
 
+    /// The place read by an expression that begins with an unsafe block, as in
+    /// `unsafe { g }.x`: assigning to such an expression would change a copy.
+    fn unsafe_place(code: &str) -> Option<String> {
+        let begins_unsafe = code.starts_with("unsafe { ")
+            || (code.starts_with("/* SAFETY: ")
+                && code.split_once(" */ ").is_some_and(|(_, c)| c.starts_with("unsafe { ")));
+        begins_unsafe.then(|| Self::strip_nested_unsafe(code))
+    }
+
     /// DECY-143: Generate unsafe block with SAFETY comment.
     /// All unsafe blocks should have a comment explaining why the operation is safe.
     fn unsafe_block(code: &str, safety_reason: &str) -> String {
diff --git a/crates/decy-codegen/src/stmt_gen.rs b/crates/decy-codegen/src/stmt_gen.rs
index 8cebddb..647faed 100644
--- a/crates/decy-codegen/src/stmt_gen.rs
+++ b/crates/decy-codegen/src/stmt_gen.rs
@@ -905,11 +905,11 @@ impl CodeGenerator {
         ) {
             let target_code = self.generate_expression_with_context(target, ctx);
             let value_code = self.generate_expression_with_context(value, ctx);
-            if target_code.starts_with("unsafe { ") {
-                // A global: assign to it, not to a copy of its value
+            if let Some(place) = Self::unsafe_place(&target_code) {
+                // Assign to the global or pointee, not to a copy of its value
                 return format!(
                     "unsafe {{ {} = {}; }}",
-                    Self::strip_nested_unsafe(&target_code),
+                    place,
                     Self::strip_nested_unsafe(&value_code)
                 );
             }
@@ -1028,9 +1028,9 @@ impl CodeGenerator {
             self.generate_expression_with_context(array, ctx)
         };
         // A row of a global array is a place in that array, not a copy of it
-        let is_global_place = !is_raw_pointer && array_code.starts_with("unsafe { ");
-        let array_code =
-            if is_global_place { Self::strip_nested_unsafe(&array_code) } else { array_code };
+        let place = if is_raw_pointer { None } else { Self::unsafe_place(&array_code) };
+        let is_global_place = place.is_some();
+        let array_code = place.unwrap_or(array_code);
         let index_code = self.generate_expression_with_context(index, ctx);
         let mut value_code =
             self.generate_expression_with_target_type(value, ctx, target_type.as_ref());
@@ -1056,7 +1056,14 @@ impl CodeGenerator {
             // DECY-072: Cast index to usize for slice indexing
             // DECY-150: Wrap index in parens to handle operator precedence
             // DECY-223: Wrap global array assignment in unsafe block
-            if is_global_array || is_global_place {
+            let indexes_vec = matches!(ctx.infer_expression_type(array), Some(HirType::Vec(_)));
+            if indexes_vec && Self::mentions(index, array) {
+                // The index reads the vector: compute it before the vector is borrowed
+                format!(
+                    "{{ let __index = ({}) as usize; {}[__index] = {}; }}",
+                    index_code, array_code, value_code
+                )
+            } else if is_global_array || is_global_place {
                 format!("unsafe {{ {}[({}) as usize] = {}; }}", array_code, index_code, value_code)
             } else {
                 format!("{}[({}) as usize] = {};", array_code, index_code, value_code)
@@ -1064,6 +1071,27 @@ impl CodeGenerator {
         }
     }
 
+    /// Whether an expression contains an element of the given array.
+    fn mentions(expr: &HirExpression, array: &HirExpression) -> bool {
+        match expr {
+            HirExpression::ArrayIndex { array: inner, index } => {
+                **inner == *array || Self::mentions(index, array)
+            }
+            HirExpression::BinaryOp { left, right, .. } => {
+                Self::mentions(left, array) || Self::mentions(right, array)
+            }
+            HirExpression::UnaryOp { operand, .. } => Self::mentions(operand, array),
+            HirExpression::Cast { expr, .. } => Self::mentions(expr, array),
+            HirExpression::Ternary { condition, then_expr, else_expr } => {
+                [condition, then_expr, else_expr].iter().any(|e| Self::mentions(e, array))
+            }
+            HirExpression::FunctionCall { arguments, .. } => {
+                arguments.iter().any(|a| a == array || Self::mentions(a, array))
+            }
+            _ => false,
+        }
+    }
+
     /// Generate a field assignment statement.
     fn generate_field_assignment_statement(
         &self,
@@ -1099,19 +1127,21 @@ impl CodeGenerator {
                     return format!("unsafe {{ {}.{} = {}; }}", name, escaped_field, clean_value);
                 }
             }
-            // An element reached through a raw pointer: assign in place, not to a copy of it
-            if let HirExpression::ArrayIndex { array, .. } = object {
-                if matches!(ctx.infer_expression_type(array), Some(HirType::Pointer(_))) {
-                    return Self::unsafe_stmt(
-                        &format!(
-                            "({}).{} = {}",
-                            Self::strip_nested_unsafe(&obj_code),
-                            escaped_field,
-                            value_code
-                        ),
-                        "index is within bounds of allocated array",
-                    );
-                }
+            // The object is itself reached through a pointer held in a field
+            if matches!(
+                object,
+                HirExpression::PointerFieldAccess { .. } | HirExpression::FieldAccess { .. }
+            ) && matches!(ctx.infer_expression_type(object), Some(HirType::Pointer(_)))
+            {
+                let place = Self::unsafe_place(&obj_code).unwrap_or(obj_code);
+                return Self::unsafe_stmt(
+                    &format!("(*{}).{} = {}", place, escaped_field, value_code),
+                    "pointer is non-null and points to valid struct",
+                );
+            }
+            // A part of a global or of a pointee: assign in place, not to a copy of it
+            if let Some(place) = Self::unsafe_place(&format!("{}.{}", obj_code, escaped_field)) {
+                return format!("unsafe {{ {} = {}; }}", place, value_code);
             }
             // Regular struct field assignment
             format!("{}.{} = {};", obj_code, escaped_field, value_code)
-- 
2.43.0


From d788ce41266b73652f69d3547d21d6497fb1a58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:54 +0000
Subject: [PATCH 75/96] fix: size of an array divided by its element inside an
 argument

---
 crates/decy-parser/src/extract/expressions.rs | 28 +++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/crates/decy-parser/src/extract/expressions.rs b/crates/decy-parser/src/extract/expressions.rs
index 3f20c22..0b749be 100644
--- a/crates/decy-parser/src/extract/expressions.rs
+++ b/crates/decy-parser/src/extract/expressions.rs
@@ -1613,6 +1613,11 @@ pub(crate) fn extract_sizeof(cursor: CXCursor) -> Option<Expression> {
         return None;
     }
 
+    // An implicit conversion of `sizeof(v) / sizeof(v[0])` begins with sizeof too
+    if wraps_binary_operator(cursor) {
+        return None;
+    }
+
     // Get the extent (source range) of the cursor
     let extent = unsafe { clang_getCursorExtent(cursor) };
 
@@ -1711,6 +1716,29 @@ pub(crate) fn extract_sizeof(cursor: CXCursor) -> Option<Expression> {
     }
 }
 
+/// Whether the only expression in a wrapper (implicit conversion) is a binary operator.
+fn wraps_binary_operator(cursor: CXCursor) -> bool {
+    extern "C" fn visit_first(
+        cursor: CXCursor,
+        _parent: CXCursor,
+        client_data: CXClientData,
+    ) -> CXChildVisitResult {
+        // SAFETY: client_data points to the bool below
+        let result = unsafe { &mut *(client_data as *mut bool) };
+        *result = unsafe { clang_getCursorKind(cursor) } == CXCursor_BinaryOperator;
+        CXChildVisit_Break
+    }
+
+    if unsafe { clang_getCursorKind(cursor) } != CXCursor_UnexposedExpr {
+        return false;
+    }
+    let mut result = false;
+    unsafe {
+        clang_visitChildren(cursor, visit_first, &mut result as *mut bool as CXClientData);
+    }
+    result
+}
+
 /// Name of the type of the expression a `sizeof` is applied to.
 fn sizeof_operand_type(cursor: CXCursor) -> Option<String> {
     extern "C" fn visit_operand(
-- 
2.43.0


From 9b62821cccf4d799a8b4c09369c5062cd7ecb81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:54 +0000
Subject: [PATCH 76/96] fix: rename locals and parameters that hide a global

---
 crates/decy-core/src/lib.rs       |  14 ++
 crates/decy-core/src/shadowing.rs | 212 ++++++++++++++++++++++++++++++
 crates/decy-hir/src/lib.rs        |   5 +
 3 files changed, 231 insertions(+)
 create mode 100644 crates/decy-core/src/shadowing.rs

diff --git a/crates/decy-core/src/lib.rs b/crates/decy-core/src/lib.rs
index fa789b0..49863d6 100644
--- a/crates/decy-core/src/lib.rs
+++ b/crates/decy-core/src/lib.rs
@@ -18,6 +18,7 @@ mod generated_contracts;
 
 pub mod metrics;
 pub mod optimize;
+mod shadowing;
 pub mod trace;
 
 pub use metrics::{
@@ -1204,6 +1205,19 @@ pub fn transpile_with_includes(c_code: &str, base_dir: Option<&Path>) -> Result<
         })
         .collect();
 
+    // A local may hide a global in C but not in Rust: give it a name of its own
+    let global_names: std::collections::HashSet<String> = hir_variables
+        .iter()
+        .filter_map(|v| match v {
+            decy_hir::HirStatement::VariableDeclaration { name, .. } => Some(name.clone()),
+            _ => None,
+        })
+        .collect();
+    let hir_functions: Vec<HirFunction> = hir_functions
+        .into_iter()
+        .map(|f| shadowing::rename_shadowing_locals(f, &global_names))
+        .collect();
+
     // DECY-116: Build slice function arg mappings BEFORE transformation (while we still have original params)
     let slice_func_args = build_slice_func_arg_mappings(&hir_functions);
 
diff --git a/crates/decy-core/src/shadowing.rs b/crates/decy-core/src/shadowing.rs
new file mode 100644
index 0000000..bc6d550
--- /dev/null
+++ b/crates/decy-core/src/shadowing.rs
@@ -0,0 +1,212 @@
+//! Renaming of locals and parameters that hide a global variable.
+//!
+//! In C a local may have the name of a global. Rust does not allow a local to shadow a
+//! `static`, so such locals get a name of their own before code is generated.
+
+use decy_hir::{HirExpression, HirFunction, HirStatement, SwitchCase};
+use std::collections::{HashMap, HashSet};
+
+/// Rename the parameters and locals of `func` that have the name of a global variable.
+pub fn rename_shadowing_locals(func: HirFunction, globals: &HashSet<String>) -> HirFunction {
+    if !func.has_body() || globals.is_empty() {
+        return func;
+    }
+    let mut scope: Scope = HashMap::new();
+    let parameters = func
+        .parameters()
+        .iter()
+        .map(|p| match declare(p.name(), globals, &mut scope) {
+            Some(renamed) => p.with_name(renamed),
+            None => p.clone(),
+        })
+        .collect();
+    let body = rename_block(func.body(), globals, &scope);
+    let mut result = HirFunction::new_with_body(
+        func.name().to_string(),
+        func.return_type().clone(),
+        parameters,
+        body,
+    );
+    result.set_cuda_qualifier(func.cuda_qualifier());
+    result
+}
+
+/// Names in scope that were renamed, with their new names.
+type Scope = HashMap<String, String>;
+
+fn declare(name: &str, globals: &HashSet<String>, scope: &mut Scope) -> Option<String> {
+    if !globals.contains(name) {
+        return None;
+    }
+    let mut renamed = format!("{}_local", name);
+    while globals.contains(&renamed) {
+        renamed.push('_');
+    }
+    scope.insert(name.to_string(), renamed.clone());
+    Some(renamed)
+}
+
+fn resolve(name: &str, scope: &Scope) -> String {
+    scope.get(name).cloned().unwrap_or_else(|| name.to_string())
+}
+
+/// Declarations of a block are visible up to its end only.
+fn rename_block(
+    block: &[HirStatement],
+    globals: &HashSet<String>,
+    outer: &Scope,
+) -> Vec<HirStatement> {
+    let mut scope = outer.clone();
+    block.iter().map(|s| rename_statement(s, globals, &mut scope)).collect()
+}
+
+fn rename_statement(
+    stmt: &HirStatement,
+    globals: &HashSet<String>,
+    scope: &mut Scope,
+) -> HirStatement {
+    match stmt {
+        HirStatement::VariableDeclaration { name, var_type, initializer } => {
+            let initializer = initializer.as_ref().map(|e| rename_expr(e, scope));
+            let renamed = declare(name, globals, scope).unwrap_or_else(|| name.clone());
+            HirStatement::VariableDeclaration {
+                name: renamed,
+                var_type: var_type.clone(),
+                initializer,
+            }
+        }
+        HirStatement::Return(value) => {
+            HirStatement::Return(value.as_ref().map(|e| rename_expr(e, scope)))
+        }
+        HirStatement::If { condition, then_block, else_block } => HirStatement::If {
+            condition: rename_expr(condition, scope),
+            then_block: rename_block(then_block, globals, scope),
+            else_block: else_block.as_ref().map(|b| rename_block(b, globals, scope)),
+        },
+        HirStatement::While { condition, body } => HirStatement::While {
+            condition: rename_expr(condition, scope),
+            body: rename_block(body, globals, scope),
+        },
+        HirStatement::For { init, condition, increment, body } => {
+            let mut inner = scope.clone();
+            HirStatement::For {
+                init: init.iter().map(|s| rename_statement(s, globals, &mut inner)).collect(),
+                condition: condition.as_ref().map(|e| rename_expr(e, &inner)),
+                increment: rename_block(increment, globals, &inner),
+                body: rename_block(body, globals, &inner),
+            }
+        }
+        HirStatement::Switch { condition, cases, default_case } => HirStatement::Switch {
+            condition: rename_expr(condition, scope),
+            cases: cases
+                .iter()
+                .map(|c| SwitchCase {
+                    value: c.value.as_ref().map(|e| rename_expr(e, scope)),
+                    body: rename_block(&c.body, globals, scope),
+                })
+                .collect(),
+            default_case: default_case.as_ref().map(|b| rename_block(b, globals, scope)),
+        },
+        HirStatement::Assignment { target, value } => HirStatement::Assignment {
+            target: resolve(target, scope),
+            value: rename_expr(value, scope),
+        },
+        HirStatement::DerefAssignment { target, value } => HirStatement::DerefAssignment {
+            target: rename_expr(target, scope),
+            value: rename_expr(value, scope),
+        },
+        HirStatement::ArrayIndexAssignment { array, index, value } => {
+            HirStatement::ArrayIndexAssignment {
+                array: Box::new(rename_expr(array, scope)),
+                index: Box::new(rename_expr(index, scope)),
+                value: rename_expr(value, scope),
+            }
+        }
+        HirStatement::FieldAssignment { object, field, value } => HirStatement::FieldAssignment {
+            object: rename_expr(object, scope),
+            field: field.clone(),
+            value: rename_expr(value, scope),
+        },
+        HirStatement::Free { pointer } => {
+            HirStatement::Free { pointer: rename_expr(pointer, scope) }
+        }
+        HirStatement::Expression(expr) => HirStatement::Expression(rename_expr(expr, scope)),
+        HirStatement::Break | HirStatement::Continue | HirStatement::InlineAsm { .. } => {
+            stmt.clone()
+        }
+    }
+}
+
+fn rename_expr(expr: &HirExpression, scope: &Scope) -> HirExpression {
+    use HirExpression as E;
+    if scope.is_empty() {
+        return expr.clone();
+    }
+    let boxed = |e: &HirExpression| Box::new(rename_expr(e, scope));
+    let all = |v: &[HirExpression]| v.iter().map(|e| rename_expr(e, scope)).collect();
+    match expr {
+        E::Variable(name) => E::Variable(resolve(name, scope)),
+        E::BinaryOp { op, left, right } => {
+            E::BinaryOp { op: *op, left: boxed(left), right: boxed(right) }
+        }
+        E::Dereference(inner) => E::Dereference(boxed(inner)),
+        E::AddressOf(inner) => E::AddressOf(boxed(inner)),
+        E::UnaryOp { op, operand } => E::UnaryOp { op: *op, operand: boxed(operand) },
+        E::PostIncrement { operand } => E::PostIncrement { operand: boxed(operand) },
+        E::PreIncrement { operand } => E::PreIncrement { operand: boxed(operand) },
+        E::PostDecrement { operand } => E::PostDecrement { operand: boxed(operand) },
+        E::PreDecrement { operand } => E::PreDecrement { operand: boxed(operand) },
+        E::FunctionCall { function, arguments } => {
+            E::FunctionCall { function: resolve(function, scope), arguments: all(arguments) }
+        }
+        E::FieldAccess { object, field } => {
+            E::FieldAccess { object: boxed(object), field: field.clone() }
+        }
+        E::PointerFieldAccess { pointer, field } => {
+            E::PointerFieldAccess { pointer: boxed(pointer), field: field.clone() }
+        }
+        E::ArrayIndex { array, index } => {
+            E::ArrayIndex { array: boxed(array), index: boxed(index) }
+        }
+        E::SliceIndex { slice, index, element_type } => E::SliceIndex {
+            slice: boxed(slice),
+            index: boxed(index),
+            element_type: element_type.clone(),
+        },
+        E::Sizeof { type_name } => E::Sizeof { type_name: resolve(type_name, scope) },
+        E::IsNotNull(inner) => E::IsNotNull(boxed(inner)),
+        E::Calloc { count, element_type } => {
+            E::Calloc { count: boxed(count), element_type: element_type.clone() }
+        }
+        E::Malloc { size } => E::Malloc { size: boxed(size) },
+        E::Realloc { pointer, new_size } => {
+            E::Realloc { pointer: boxed(pointer), new_size: boxed(new_size) }
+        }
+        E::StringMethodCall { receiver, method, arguments } => E::StringMethodCall {
+            receiver: boxed(receiver),
+            method: method.clone(),
+            arguments: all(arguments),
+        },
+        E::Cast { target_type, expr } => {
+            E::Cast { target_type: target_type.clone(), expr: boxed(expr) }
+        }
+        E::CompoundLiteral { literal_type, initializers } => E::CompoundLiteral {
+            literal_type: literal_type.clone(),
+            initializers: all(initializers),
+        },
+        E::Ternary { condition, then_expr, else_expr } => E::Ternary {
+            condition: boxed(condition),
+            then_expr: boxed(then_expr),
+            else_expr: boxed(else_expr),
+        },
+        E::CxxNew { allocated_type, arguments } => {
+            E::CxxNew { allocated_type: allocated_type.clone(), arguments: all(arguments) }
+        }
+        E::CxxDelete { operand } => E::CxxDelete { operand: boxed(operand) },
+        E::IntLiteral(_)
+        | E::FloatLiteral(_)
+        | E::StringLiteral(_)
+        | E::CharLiteral(_)
+        | E::NullLiteral => expr.clone(),
+    }
+}
diff --git a/crates/decy-hir/src/lib.rs b/crates/decy-hir/src/lib.rs
index 2b9ecfe..766e8fa 100644
--- a/crates/decy-hir/src/lib.rs
+++ b/crates/decy-hir/src/lib.rs
@@ -754,6 +754,11 @@ impl HirParameter {
         }
     }
 
+    /// Create a copy of this parameter with another name.
+    pub fn with_name(&self, new_name: String) -> Self {
+        Self { name: new_name, ..self.clone() }
+    }
+
     /// DECY-135: Create a new parameter with a transformed type but preserving is_pointee_const.
     /// Use this when transforming parameter types (e.g., pointer to reference) to maintain
     /// const char* → &str transformation capability.
-- 
2.43.0


From 02b3d6cded61aa40a33e4e41f2d2a6405f2b6173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:54 +0000
Subject: [PATCH 77/96] fix: keep the scope of a block that declares variables

---
 crates/decy-parser/src/extract/mod.rs | 66 ++++++++++++++++++++++++++-
 1 file changed, 65 insertions(+), 1 deletion(-)

diff --git a/crates/decy-parser/src/extract/mod.rs b/crates/decy-parser/src/extract/mod.rs
index 861752a..3c06e57 100644
--- a/crates/decy-parser/src/extract/mod.rs
+++ b/crates/decy-parser/src/extract/mod.rs
@@ -256,6 +256,52 @@ pub(crate) extern "C" fn visit_function(
     CXChildVisit_Recurse
 }
 
+/// Whether a block inside another one declares variables that must not outlive it:
+/// statements follow the block in which the same names may mean something else.
+fn needs_own_scope(block: CXCursor, parent: CXCursor) -> bool {
+    // SAFETY: Inspecting a valid cursor
+    let nested = unsafe { clang_getCursorKind(parent) } == CXCursor_CompoundStmt;
+    // Cursors of one statement agree in the statement itself, but not always in the
+    // declaration they were reached from
+    let same = |a: &CXCursor, b: &CXCursor| a.data[1] == b.data[1];
+    let is_last = child_cursors(parent).last().is_some_and(|last| same(last, &block));
+    nested && !same(&block, &parent) && !is_last && declares_variable(block)
+}
+
+/// Whether a block, or a plain block inside it, declares a variable.
+fn declares_variable(block: CXCursor) -> bool {
+    // SAFETY: Inspecting valid cursors
+    child_cursors(block).iter().any(|child| match unsafe { clang_getCursorKind(*child) } {
+        CXCursor_DeclStmt => true,
+        CXCursor_CompoundStmt => declares_variable(*child),
+        _ => false,
+    })
+}
+
+/// The direct children of a cursor.
+fn child_cursors(cursor: CXCursor) -> Vec<CXCursor> {
+    extern "C" fn collect(
+        cursor: CXCursor,
+        _parent: CXCursor,
+        client_data: CXClientData,
+    ) -> CXChildVisitResult {
+        // SAFETY: The client data is the vector passed below
+        let children = unsafe { &mut *(client_data as *mut Vec<CXCursor>) };
+        children.push(cursor);
+        CXChildVisit_Continue
+    }
+    let mut children: Vec<CXCursor> = Vec::new();
+    // SAFETY: The vector outlives the visit
+    unsafe {
+        clang_visitChildren(
+            cursor,
+            collect,
+            &mut children as *mut Vec<CXCursor> as CXClientData,
+        );
+    }
+    children
+}
+
 /// Visitor callback for extracting statements from function body.
 ///
 /// # Safety
@@ -264,7 +310,7 @@ pub(crate) extern "C" fn visit_function(
 #[allow(non_upper_case_globals)]
 pub(crate) extern "C" fn visit_statement(
     cursor: CXCursor,
-    _parent: CXCursor,
+    parent: CXCursor,
     client_data: CXClientData,
 ) -> CXChildVisitResult {
     // SAFETY: Converting client data back to statement vector pointer
@@ -275,6 +321,24 @@ pub(crate) extern "C" fn visit_statement(
 
     match kind {
         CXCursor_CompoundStmt => {
+            if needs_own_scope(cursor, parent) {
+                // Keep the scope of a block whose variables could hide outer ones
+                let mut block: Vec<Statement> = Vec::new();
+                // SAFETY: The vector outlives the visit
+                unsafe {
+                    clang_visitChildren(
+                        cursor,
+                        visit_statement,
+                        &mut block as *mut Vec<Statement> as CXClientData,
+                    );
+                }
+                statements.push(Statement::If {
+                    condition: Expression::IntLiteral(1),
+                    then_block: block,
+                    else_block: None,
+                });
+                return CXChildVisit_Continue;
+            }
             // Compound statement (function body) - recurse into it
             CXChildVisit_Recurse
         }
-- 
2.43.0


From 16326ff0b607d3a74f33dca1bd80cf649621f6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:58 +0000
Subject: [PATCH 78/96] fix: rename locals and parameters whose name is
 reserved in Rust

---
 crates/decy-core/src/shadowing.rs | 86 +++++++++++++++++++++++--------
 1 file changed, 65 insertions(+), 21 deletions(-)

diff --git a/crates/decy-core/src/shadowing.rs b/crates/decy-core/src/shadowing.rs
index bc6d550..254feaf 100644
--- a/crates/decy-core/src/shadowing.rs
+++ b/crates/decy-core/src/shadowing.rs
@@ -1,26 +1,39 @@
-//! Renaming of locals and parameters that hide a global variable.
+//! Renaming of locals and parameters that hide a global variable or have a reserved name.
 //!
 //! In C a local may have the name of a global. Rust does not allow a local to shadow a
-//! `static`, so such locals get a name of their own before code is generated.
+//! `static`, so such locals get a name of their own before code is generated. The same holds
+//! for locals whose name means something else in Rust.
 
 use decy_hir::{HirExpression, HirFunction, HirStatement, SwitchCase};
 use std::collections::{HashMap, HashSet};
 
-/// Rename the parameters and locals of `func` that have the name of a global variable.
+/// Names a C variable may have, but a Rust variable may not.
+const RESERVED: &[&str] = &[
+    "Err", "None", "Ok", "Self", "Some", "abstract", "as", "async", "await", "become", "box",
+    "crate", "dyn", "final", "fn", "impl", "in", "let", "loop", "macro", "match", "mod", "move",
+    "mut", "override", "priv", "pub", "ref", "self", "super", "trait", "try", "type", "unsafe",
+    "unsized", "use", "virtual", "where", "yield",
+];
+
+/// Rename the parameters and locals of `func` that cannot keep their name in Rust.
 pub fn rename_shadowing_locals(func: HirFunction, globals: &HashSet<String>) -> HirFunction {
-    if !func.has_body() || globals.is_empty() {
+    if !func.has_body() {
         return func;
     }
+    let mut taken = globals.clone();
+    taken.extend(func.parameters().iter().map(|p| p.name().to_string()));
+    collect_declared(func.body(), &mut taken);
+    let names = &Names { globals, taken };
     let mut scope: Scope = HashMap::new();
     let parameters = func
         .parameters()
         .iter()
-        .map(|p| match declare(p.name(), globals, &mut scope) {
+        .map(|p| match declare(p.name(), names, &mut scope) {
             Some(renamed) => p.with_name(renamed),
             None => p.clone(),
         })
         .collect();
-    let body = rename_block(func.body(), globals, &scope);
+    let body = rename_block(func.body(), names, &scope);
     let mut result = HirFunction::new_with_body(
         func.name().to_string(),
         func.return_type().clone(),
@@ -31,15 +44,46 @@ pub fn rename_shadowing_locals(func: HirFunction, globals: &HashSet<String>) ->
     result
 }
 
+/// The names of the globals, and all names that are in use.
+struct Names<'a> {
+    globals: &'a HashSet<String>,
+    taken: HashSet<String>,
+}
+
+/// Add the names of all variables a block declares, in nested blocks too.
+fn collect_declared(block: &[HirStatement], taken: &mut HashSet<String>) {
+    for stmt in block {
+        match stmt {
+            HirStatement::VariableDeclaration { name, .. } => {
+                taken.insert(name.clone());
+            }
+            HirStatement::If { then_block, else_block, .. } => {
+                collect_declared(then_block, taken);
+                collect_declared(else_block.as_deref().unwrap_or_default(), taken);
+            }
+            HirStatement::While { body, .. } => collect_declared(body, taken),
+            HirStatement::For { init, body, .. } => {
+                collect_declared(init, taken);
+                collect_declared(body, taken);
+            }
+            HirStatement::Switch { cases, default_case, .. } => {
+                cases.iter().for_each(|c| collect_declared(&c.body, taken));
+                collect_declared(default_case.as_deref().unwrap_or_default(), taken);
+            }
+            _ => {}
+        }
+    }
+}
+
 /// Names in scope that were renamed, with their new names.
 type Scope = HashMap<String, String>;
 
-fn declare(name: &str, globals: &HashSet<String>, scope: &mut Scope) -> Option<String> {
-    if !globals.contains(name) {
+fn declare(name: &str, names: &Names, scope: &mut Scope) -> Option<String> {
+    if !names.globals.contains(name) && !RESERVED.contains(&name) {
         return None;
     }
     let mut renamed = format!("{}_local", name);
-    while globals.contains(&renamed) {
+    while names.taken.contains(&renamed) {
         renamed.push('_');
     }
     scope.insert(name.to_string(), renamed.clone());
@@ -53,22 +97,22 @@ fn resolve(name: &str, scope: &Scope) -> String {
 /// Declarations of a block are visible up to its end only.
 fn rename_block(
     block: &[HirStatement],
-    globals: &HashSet<String>,
+    names: &Names,
     outer: &Scope,
 ) -> Vec<HirStatement> {
     let mut scope = outer.clone();
-    block.iter().map(|s| rename_statement(s, globals, &mut scope)).collect()
+    block.iter().map(|s| rename_statement(s, names, &mut scope)).collect()
 }
 
 fn rename_statement(
     stmt: &HirStatement,
-    globals: &HashSet<String>,
+    names: &Names,
     scope: &mut Scope,
 ) -> HirStatement {
     match stmt {
         HirStatement::VariableDeclaration { name, var_type, initializer } => {
             let initializer = initializer.as_ref().map(|e| rename_expr(e, scope));
-            let renamed = declare(name, globals, scope).unwrap_or_else(|| name.clone());
+            let renamed = declare(name, names, scope).unwrap_or_else(|| name.clone());
             HirStatement::VariableDeclaration {
                 name: renamed,
                 var_type: var_type.clone(),
@@ -80,20 +124,20 @@ fn rename_statement(
         }
         HirStatement::If { condition, then_block, else_block } => HirStatement::If {
             condition: rename_expr(condition, scope),
-            then_block: rename_block(then_block, globals, scope),
-            else_block: else_block.as_ref().map(|b| rename_block(b, globals, scope)),
+            then_block: rename_block(then_block, names, scope),
+            else_block: else_block.as_ref().map(|b| rename_block(b, names, scope)),
         },
         HirStatement::While { condition, body } => HirStatement::While {
             condition: rename_expr(condition, scope),
-            body: rename_block(body, globals, scope),
+            body: rename_block(body, names, scope),
         },
         HirStatement::For { init, condition, increment, body } => {
             let mut inner = scope.clone();
             HirStatement::For {
-                init: init.iter().map(|s| rename_statement(s, globals, &mut inner)).collect(),
+                init: init.iter().map(|s| rename_statement(s, names, &mut inner)).collect(),
                 condition: condition.as_ref().map(|e| rename_expr(e, &inner)),
-                increment: rename_block(increment, globals, &inner),
-                body: rename_block(body, globals, &inner),
+                increment: rename_block(increment, names, &inner),
+                body: rename_block(body, names, &inner),
             }
         }
         HirStatement::Switch { condition, cases, default_case } => HirStatement::Switch {
@@ -102,10 +146,10 @@ fn rename_statement(
                 .iter()
                 .map(|c| SwitchCase {
                     value: c.value.as_ref().map(|e| rename_expr(e, scope)),
-                    body: rename_block(&c.body, globals, scope),
+                    body: rename_block(&c.body, names, scope),
                 })
                 .collect(),
-            default_case: default_case.as_ref().map(|b| rename_block(b, globals, scope)),
+            default_case: default_case.as_ref().map(|b| rename_block(b, names, scope)),
         },
         HirStatement::Assignment { target, value } => HirStatement::Assignment {
             target: resolve(target, scope),
-- 
2.43.0


From a10e680f4f1d893a9bf6dcb994f02f15a8875e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:32 +0000
Subject: [PATCH 79/96] revert: leave diff_test.rs as it was

Its name makes it count as a test file here; the defects are recorded as known findings in /verif.
---
 crates/decy-verify/src/diff_test.rs | 73 ++++-------------------------
 1 file changed, 10 insertions(+), 63 deletions(-)

diff --git a/crates/decy-verify/src/diff_test.rs b/crates/decy-verify/src/diff_test.rs
index 03db645..a1e88c7 100644
--- a/crates/decy-verify/src/diff_test.rs
+++ b/crates/decy-verify/src/diff_test.rs
@@ -18,11 +18,8 @@
 //! ```
 
 use anyhow::{Context, Result};
-use std::io::Read;
 use std::path::{Path, PathBuf};
-use std::process::{Command, ExitStatus, Output, Stdio};
-use std::thread::JoinHandle;
-use std::time::{Duration, Instant};
+use std::process::Command;
 use tempfile::TempDir;
 
 /// Output captured from running a compiled binary.
@@ -139,62 +136,15 @@ pub fn compile_rust(rust_code: &str, config: &DiffTestConfig) -> Result<(TempDir
 
 /// Run a compiled binary and capture its output.
 pub fn run_binary(binary: &Path) -> Result<ExecutionOutput> {
-    run_binary_raw(binary, None).map(|output| to_execution_output(&output))
-}
-
-/// Run a binary, ending it when it takes longer than `timeout`.
-fn run_binary_raw(binary: &Path, timeout: Option<Duration>) -> Result<Output> {
-    let mut child = Command::new(binary)
-        .stdin(Stdio::null())
-        .stdout(Stdio::piped())
-        .stderr(Stdio::piped())
-        .spawn()
+    let output = Command::new(binary)
+        .output()
         .with_context(|| format!("Failed to execute binary: {}", binary.display()))?;
-    let stdout = child.stdout.take().map(read_in_background);
-    let stderr = child.stderr.take().map(read_in_background);
-
-    let start = Instant::now();
-    let status = loop {
-        if let Some(status) = child.try_wait().context("Failed to wait for binary")? {
-            break status;
-        }
-        if timeout.is_some_and(|limit| start.elapsed() >= limit) {
-            let _ = child.kill();
-            let _ = child.wait();
-            anyhow::bail!("Timed out after {:?}: {}", start.elapsed(), binary.display());
-        }
-        std::thread::sleep(Duration::from_millis(2));
-    };
-
-    let collect = |reader: Option<JoinHandle<Vec<u8>>>| {
-        reader.and_then(|handle| handle.join().ok()).unwrap_or_default()
-    };
-    Ok(Output { status, stdout: collect(stdout), stderr: collect(stderr) })
-}
 
-fn read_in_background(mut pipe: impl Read + Send + 'static) -> JoinHandle<Vec<u8>> {
-    std::thread::spawn(move || {
-        let mut bytes = Vec::new();
-        let _ = pipe.read_to_end(&mut bytes);
-        bytes
-    })
-}
-
-fn to_execution_output(output: &Output) -> ExecutionOutput {
-    ExecutionOutput {
+    Ok(ExecutionOutput {
         stdout: String::from_utf8_lossy(&output.stdout).into_owned(),
         stderr: String::from_utf8_lossy(&output.stderr).into_owned(),
-        exit_code: exit_code(&output.status),
-    }
-}
-
-/// Exit code of a process; a process ended by a signal gives minus the signal number.
-fn exit_code(status: &ExitStatus) -> i32 {
-    #[cfg(unix)]
-    if let Some(signal) = std::os::unix::process::ExitStatusExt::signal(status) {
-        return -signal;
-    }
-    status.code().unwrap_or(-1)
+        exit_code: output.status.code().unwrap_or(-1),
+    })
 }
 
 /// Run a full differential test: compile C with gcc, compile Rust with rustc,
@@ -207,14 +157,11 @@ pub fn diff_test(c_code: &str, rust_code: &str, config: &DiffTestConfig) -> Resu
         compile_rust(rust_code, config).context("Rust compilation failed during diff test")?;
 
     // Run both
-    let timeout = Some(Duration::from_secs(config.timeout_secs));
-    let c_raw = run_binary_raw(&c_bin, timeout).context("Failed to run C binary")?;
-    let rust_raw = run_binary_raw(&rs_bin, timeout).context("Failed to run Rust binary")?;
-    let c_output = to_execution_output(&c_raw);
-    let rust_output = to_execution_output(&rust_raw);
+    let c_output = run_binary(&c_bin).context("Failed to run C binary")?;
+    let rust_output = run_binary(&rs_bin).context("Failed to run Rust binary")?;
 
     // Compare
-    let stdout_matches = c_raw.stdout == rust_raw.stdout;
+    let stdout_matches = c_output.stdout == rust_output.stdout;
     let exit_code_matches = c_output.exit_code == rust_output.exit_code;
 
     let mut divergences = Vec::new();
@@ -233,7 +180,7 @@ pub fn diff_test(c_code: &str, rust_code: &str, config: &DiffTestConfig) -> Resu
         ));
     }
 
-    if config.compare_stderr && c_raw.stderr != rust_raw.stderr {
+    if config.compare_stderr && c_output.stderr != rust_output.stderr {
         divergences.push(format!(
             "stderr differs:\n  C:    {:?}\n  Rust: {:?}",
             c_output.stderr, rust_output.stderr
-- 
2.43.0


From a9c320d7cc4ca65e0302a54ad4e8625b33cbf878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:38 +0000
Subject: [PATCH 80/96] fix: silence a naming warning about clang's constants

---
 crates/decy-parser/src/extract/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/decy-parser/src/extract/mod.rs b/crates/decy-parser/src/extract/mod.rs
index 3c06e57..ca88e2a 100644
--- a/crates/decy-parser/src/extract/mod.rs
+++ b/crates/decy-parser/src/extract/mod.rs
@@ -269,6 +269,7 @@ fn needs_own_scope(block: CXCursor, parent: CXCursor) -> bool {
 }
 
 /// Whether a block, or a plain block inside it, declares a variable.
+#[allow(non_upper_case_globals)]
 fn declares_variable(block: CXCursor) -> bool {
     // SAFETY: Inspecting valid cursors
     child_cursors(block).iter().any(|child| match unsafe { clang_getCursorKind(*child) } {
-- 
2.43.0


From 21aa6496ba9e07feeb81fec19245712781be4eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:04 +0000
Subject: [PATCH 81/96] fix: read include directives with spaced #, comments
 around them and quotes after them

---
 crates/decy-core/src/lib.rs | 145 ++++++++++++++++++++++--------------
 1 file changed, 89 insertions(+), 56 deletions(-)

diff --git a/crates/decy-core/src/lib.rs b/crates/decy-core/src/lib.rs
index 49863d6..a6a62f8 100644
--- a/crates/decy-core/src/lib.rs
+++ b/crates/decy-core/src/lib.rs
@@ -291,17 +291,10 @@ impl DependencyGraph {
         contract_pre_parse!();
         let mut includes = Vec::new();
 
+        let mut in_comment = false;
         for line in code.lines() {
-            let trimmed = line.trim();
-            if trimmed.starts_with("#include") {
-                // Extract filename from #include "file.h" or #include <file.h>
-                if let Some(start) = trimmed.find('"').or_else(|| trimmed.find('<')) {
-                    let end_char = if trimmed.chars().nth(start) == Some('"') { '"' } else { '>' };
-                    if let Some(end) = trimmed[start + 1..].find(end_char) {
-                        let filename = &trimmed[start + 1..start + 1 + end];
-                        includes.push(filename.to_string());
-                    }
-                }
+            if let Some((filename, _)) = include_directive(line, &mut in_comment) {
+                includes.push(filename.to_string());
             }
         }
 
@@ -330,6 +323,69 @@ fn file_identity(path: &Path) -> PathBuf {
     path.canonicalize().unwrap_or_else(|_| path.to_path_buf())
 }
 
+/// The file named by an #include directive, and whether it is a system header.
+///
+/// `in_comment` carries the state of block comments from line to line: directives inside
+/// comments name nothing, and comments may stand before and inside a directive.
+fn include_directive<'a>(line: &'a str, in_comment: &mut bool) -> Option<(&'a str, bool)> {
+    // Skip white space and comments at the start of the text
+    fn skip_blank<'a>(mut rest: &'a str, in_comment: &mut bool) -> &'a str {
+        loop {
+            if *in_comment {
+                let Some(end) = rest.find("*/") else { return "" };
+                rest = &rest[end + 2..];
+                *in_comment = false;
+            }
+            rest = rest.trim_start();
+            match rest.strip_prefix("/*") {
+                Some(comment) => {
+                    rest = comment;
+                    *in_comment = true;
+                }
+                None => return rest,
+            }
+        }
+    }
+
+    let mut rest = skip_blank(line, in_comment);
+    let mut include = None;
+    if let Some(directive) = rest.strip_prefix('#') {
+        rest = skip_blank(directive, in_comment);
+        if let Some(operand) = rest.strip_prefix("include") {
+            rest = skip_blank(operand, in_comment);
+            let is_system = rest.starts_with('<');
+            let delimiter = if is_system { '>' } else { '"' };
+            if let Some(text) = rest.strip_prefix(['"', '<']) {
+                if let Some(end) = text.find(delimiter) {
+                    include = Some((&text[..end], is_system));
+                    rest = &text[end + 1..];
+                }
+            }
+        }
+    }
+
+    // Find out whether the line ends inside a comment
+    let mut quote = None;
+    let mut chars = rest.chars();
+    while let Some(c) = chars.next() {
+        match (quote, c) {
+            (Some(_), '\\') => {
+                chars.next();
+            }
+            (Some(open), _) if c == open => quote = None,
+            (None, '"' | '\'') => quote = Some(c),
+            (None, '/') if chars.as_str().starts_with('/') => break,
+            (None, '/') if chars.as_str().starts_with('*') => {
+                *in_comment = true;
+                chars = skip_blank(&chars.as_str()[1..], in_comment).chars();
+            }
+            _ => {}
+        }
+    }
+
+    include
+}
+
 impl Default for DependencyGraph {
     fn default() -> Self {
         Self::new()
@@ -564,38 +620,21 @@ fn preprocess_includes(
     let mut result = String::new();
     let base_dir = base_dir.unwrap_or_else(|| Path::new("."));
 
+    let mut in_comment = false;
+    let mut reopen_comment = false;
     for line in source.lines() {
-        let trimmed = line.trim();
+        if std::mem::take(&mut reopen_comment) {
+            result.push_str("/*\n");
+        }
 
         // Check for #include directive
-        if trimmed.starts_with("#include") {
-            // Extract filename from #include "file.h" or #include <file.h>
-            let (filename, is_system) = if let Some(start) = trimmed.find('"') {
-                if let Some(end) = trimmed[start + 1..].find('"') {
-                    let filename = &trimmed[start + 1..start + 1 + end];
-                    (filename, false)
-                } else {
-                    // Malformed include, keep original line
-                    result.push_str(line);
-                    result.push('\n');
-                    continue;
-                }
-            } else if let Some(start) = trimmed.find('<') {
-                if let Some(end) = trimmed[start + 1..].find('>') {
-                    let filename = &trimmed[start + 1..start + 1 + end];
-                    (filename, true)
-                } else {
-                    // Malformed include, keep original line
-                    result.push_str(line);
-                    result.push('\n');
-                    continue;
-                }
-            } else {
-                // No include found, keep original line
-                result.push_str(line);
-                result.push('\n');
-                continue;
-            };
+        let ends_comment = in_comment;
+        if let Some((filename, is_system)) = include_directive(line, &mut in_comment) {
+            // The line goes away, but not the comment it ends or starts
+            if ends_comment {
+                result.push_str("*/\n");
+            }
+            reopen_comment = in_comment;
 
             // Skip system includes (<stdio.h>) - we don't have those files
             // BUT: Inject stdlib prototypes so parsing succeeds
@@ -1694,24 +1733,18 @@ fn extract_dependencies(source_path: &Path, c_code: &str) -> Result<Vec<PathBuf>
 
 /// Add the files included by `c_code`, directly or through other files, to `dependencies`.
 fn collect_dependencies(source_dir: &Path, c_code: &str, dependencies: &mut Vec<PathBuf>) {
+    let mut in_comment = false;
     for line in c_code.lines() {
-        let trimmed = line.trim();
-        if trimmed.starts_with("#include") {
-            // Extract header filename from #include "header.h" or #include <header.h>
-            if let Some(start) = trimmed.find('"') {
-                if let Some(end) = trimmed[start + 1..].find('"') {
-                    let header_name = &trimmed[start + 1..start + 1 + end];
-                    let header_path = source_dir.join(header_name);
-                    let identity = file_identity(&header_path);
-                    if header_path.exists()
-                        && !dependencies.iter().any(|known| file_identity(known) == identity)
-                    {
-                        dependencies.push(header_path.clone());
-                        if let Ok(header_code) = std::fs::read_to_string(&header_path) {
-                            let header_dir = header_path.parent().unwrap_or(source_dir);
-                            collect_dependencies(header_dir, &header_code, dependencies);
-                        }
-                    }
+        if let Some((header_name, false)) = include_directive(line, &mut in_comment) {
+            let header_path = source_dir.join(header_name);
+            let identity = file_identity(&header_path);
+            if header_path.exists()
+                && !dependencies.iter().any(|known| file_identity(known) == identity)
+            {
+                dependencies.push(header_path.clone());
+                if let Ok(header_code) = std::fs::read_to_string(&header_path) {
+                    let header_dir = header_path.parent().unwrap_or(source_dir);
+                    collect_dependencies(header_dir, &header_code, dependencies);
                 }
             }
         }
-- 
2.43.0


From 8b74b3256fb8862a5d037266ca4b0b6392c36077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:50 +0000
Subject: [PATCH 82/96] fix: read every octal, hexadecimal and named escape of
 a character constant

---
 crates/decy-parser/src/extract/expressions.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/decy-parser/src/extract/expressions.rs b/crates/decy-parser/src/extract/expressions.rs
index 0b749be..41c423d 100644
--- a/crates/decy-parser/src/extract/expressions.rs
+++ b/crates/decy-parser/src/extract/expressions.rs
@@ -534,21 +534,22 @@ pub(crate) fn parse_char_literal(s: &str) -> i8 {
     if first == '\\' {
         // Escape sequence
         match chars.next() {
-            Some('0') => 0, // null character
             Some('n') => b'\n' as i8,
             Some('t') => b'\t' as i8,
             Some('r') => b'\r' as i8,
             Some('\\') => b'\\' as i8,
             Some('\'') => b'\'' as i8,
             Some('"') => b'"' as i8,
+            Some('?') => b'?' as i8,
             Some('a') => 7,  // bell
             Some('b') => 8,  // backspace
+            Some('e') => 27, // escape (extension)
             Some('f') => 12, // form feed
             Some('v') => 11, // vertical tab
             Some('x') => {
                 // Hex escape: \xNN
                 let hex: String = chars.take(2).collect();
-                i8::from_str_radix(&hex, 16).unwrap_or(0)
+                u8::from_str_radix(&hex, 16).unwrap_or(0) as i8
             }
             Some(c) if c.is_ascii_digit() => {
                 // Octal escape: \NNN
@@ -563,7 +564,7 @@ pub(crate) fn parse_char_literal(s: &str) -> i8 {
                         }
                     }
                 }
-                i8::from_str_radix(&octal, 8).unwrap_or(0)
+                u8::from_str_radix(&octal, 8).unwrap_or(0) as i8
             }
             _ => first as i8,
         }
-- 
2.43.0


From 6d55d01499b927943b64698cff6758c8e6147086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:50 +0000
Subject: [PATCH 83/96] fix: take ++, -- and compound operators outside the
 index, and read unary plus

---
 crates/decy-parser/src/extract/expressions.rs | 17 ++++--
 crates/decy-parser/src/extract/statements.rs  | 53 +++++++++++++++++--
 2 files changed, 64 insertions(+), 6 deletions(-)

diff --git a/crates/decy-parser/src/extract/expressions.rs b/crates/decy-parser/src/extract/expressions.rs
index 41c423d..980012c 100644
--- a/crates/decy-parser/src/extract/expressions.rs
+++ b/crates/decy-parser/src/extract/expressions.rs
@@ -1363,6 +1363,7 @@ pub(crate) fn extract_unary_op(cursor: CXCursor) -> Option<Expression> {
     // So we scan all tokens and pick the right operator based on position
     let mut found_star_at_zero = false;
     let mut found_open_paren_at_zero = false;
+    let mut found_plus_at_zero = false;
     let mut found_increment: Option<u32> = None;
     let mut found_decrement: Option<u32> = None;
 
@@ -1378,12 +1379,17 @@ pub(crate) fn extract_unary_op(cursor: CXCursor) -> Option<Expression> {
                     match token_str {
                         "*" if i == 0 => found_star_at_zero = true,
                         "(" if i == 0 => found_open_paren_at_zero = true,
-                        "++" => {
+                        // An operator in front of the operand is the operator of this cursor,
+                        // as is the last one behind it; others belong to subexpressions
+                        "++" if found_increment != Some(0) && found_decrement != Some(0) => {
                             found_increment = Some(i);
+                            found_decrement = None;
                         }
-                        "--" => {
+                        "--" if found_increment != Some(0) && found_decrement != Some(0) => {
                             found_decrement = Some(i);
+                            found_increment = None;
                         }
+                        "+" if i == 0 => found_plus_at_zero = true,
                         "-" if i == 0 && operator.is_none() => {
                             operator = Some(UnaryOperator::Minus);
                         }
@@ -1410,7 +1416,7 @@ pub(crate) fn extract_unary_op(cursor: CXCursor) -> Option<Expression> {
     // CRITICAL: If we have * at position 0 (dereference), the ++ belongs to a nested expression
     // CRITICAL: If we found a unary operator (-, !, ~, &) at position 0, do NOT override
     // with ++/-- found at later positions - those belong to different expressions
-    let has_unary_op_at_zero = operator.is_some();
+    let has_unary_op_at_zero = operator.is_some() || found_plus_at_zero;
 
     if let Some(pos) = found_increment {
         // Only use ++ as operator if:
@@ -1458,6 +1464,11 @@ pub(crate) fn extract_unary_op(cursor: CXCursor) -> Option<Expression> {
 
     let operand_expr = operand?;
 
+    // Unary plus changes no value
+    if found_plus_at_zero {
+        return Some(operand_expr);
+    }
+
     // Handle dereference separately (maintains backward compatibility)
     if is_dereference {
         return Some(Expression::Dereference(Box::new(operand_expr)));
diff --git a/crates/decy-parser/src/extract/statements.rs b/crates/decy-parser/src/extract/statements.rs
index 74d5f72..69671a6 100644
--- a/crates/decy-parser/src/extract/statements.rs
+++ b/crates/decy-parser/src/extract/statements.rs
@@ -205,8 +205,9 @@ pub(crate) fn extract_inc_dec_stmt(cursor: CXCursor) -> Option<Statement> {
 
     let mut operator: Option<String> = None;
     let mut operator_position = 0;
+    let mut depth = 0;
 
-    // Look through tokens to find ++ or --
+    // Look through tokens to find the ++ or -- that is not part of an index or argument
     for i in 0..num_tokens {
         unsafe {
             let token = *tokens.add(i as usize);
@@ -216,7 +217,12 @@ pub(crate) fn extract_inc_dec_stmt(cursor: CXCursor) -> Option<Statement> {
                 let token_cxstring = clang_getTokenSpelling(tu, token);
                 let c_str = CStr::from_ptr(clang_getCString(token_cxstring));
                 if let Ok(token_str) = c_str.to_str() {
-                    if token_str == "++" || token_str == "--" {
+                    match token_str {
+                        "(" | "[" => depth += 1,
+                        ")" | "]" => depth -= 1,
+                        _ => {}
+                    }
+                    if depth == 0 && (token_str == "++" || token_str == "--") {
                         operator = Some(token_str.to_string()); // Clone the string before disposing
                         operator_position = i;
                         clang_disposeString(token_cxstring);
@@ -313,6 +319,16 @@ pub(crate) fn extract_inc_dec_stmt(cursor: CXCursor) -> Option<Statement> {
             _ => return None,
         };
 
+        // The target must not be evaluated twice when that calls a function
+        if calls_function(cursor) && !matches!(expr, Expression::Dereference(_)) {
+            let op = if delta > 0 { BinaryOperator::Add } else { BinaryOperator::Subtract };
+            return Some(Statement::DerefCompoundAssignment {
+                target: expr,
+                op,
+                value: Expression::IntLiteral(1),
+            });
+        }
+
         // Extract object and field from the expression
         match expr {
             Expression::PointerFieldAccess { pointer, field } => {
@@ -422,6 +438,27 @@ pub(crate) fn extract_inc_dec_stmt(cursor: CXCursor) -> Option<Statement> {
     }
 }
 
+/// Whether a call occurs below a cursor.
+fn calls_function(cursor: CXCursor) -> bool {
+    extern "C" fn find_call(
+        cursor: CXCursor,
+        _parent: CXCursor,
+        client_data: CXClientData,
+    ) -> CXChildVisitResult {
+        if unsafe { clang_getCursorKind(cursor) } == CXCursor_CallExpr {
+            unsafe { *(client_data as *mut bool) = true };
+            return CXChildVisit_Break;
+        }
+        CXChildVisit_Recurse
+    }
+
+    let mut found = false;
+    unsafe {
+        clang_visitChildren(cursor, find_call, &mut found as *mut bool as CXClientData);
+    }
+    found
+}
+
 /// Extract a compound assignment statement (+=, -=, *=, /=, %=, &=, |=, ^=, <<=, >>=).
 pub(crate) fn extract_compound_assignment_stmt(cursor: CXCursor) -> Option<Statement> {
     // Get the translation unit
@@ -442,8 +479,9 @@ pub(crate) fn extract_compound_assignment_stmt(cursor: CXCursor) -> Option<State
     }
 
     let mut operator: Option<BinaryOperator> = None;
+    let mut depth = 0;
 
-    // Look through tokens to find compound assignment operator
+    // Look through tokens to find the compound assignment operator outside any parentheses
     for i in 0..num_tokens {
         unsafe {
             let token = *tokens.add(i as usize);
@@ -454,6 +492,15 @@ pub(crate) fn extract_compound_assignment_stmt(cursor: CXCursor) -> Option<State
                 let c_str = CStr::from_ptr(clang_getCString(token_cxstring));
                 if let Ok(token_str) = c_str.to_str() {
                     operator = match token_str {
+                        "(" | "[" => {
+                            depth += 1;
+                            None
+                        }
+                        ")" | "]" => {
+                            depth -= 1;
+                            None
+                        }
+                        _ if depth != 0 => None,
                         "+=" => Some(BinaryOperator::Add),
                         "-=" => Some(BinaryOperator::Subtract),
                         "*=" => Some(BinaryOperator::Multiply),
-- 
2.43.0


From 87a45b6e6e24b2f1f7c331ff88e3b95fe8057351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:18 +0000
Subject: [PATCH 84/96] fix: character constants are ints except next to char
 objects

---
 .../decy-codegen/src/expr_gen/binary_ops.rs   | 57 ++++++++++++++++++-
 crates/decy-codegen/src/expr_gen/calls.rs     |  5 +-
 crates/decy-codegen/src/expr_gen/misc.rs      | 15 +++++
 3 files changed, 72 insertions(+), 5 deletions(-)

diff --git a/crates/decy-codegen/src/expr_gen/binary_ops.rs b/crates/decy-codegen/src/expr_gen/binary_ops.rs
index 62d834d..da9b3d9 100644
--- a/crates/decy-codegen/src/expr_gen/binary_ops.rs
+++ b/crates/decy-codegen/src/expr_gen/binary_ops.rs
@@ -56,6 +56,35 @@ impl CodeGenerator {
             }
         }
 
+        // A character constant next to anything but a char object is an int
+        let char_object = |operand: &HirExpression| {
+            !Self::is_char_constant(operand)
+                && matches!(
+                    ctx.infer_expression_type(operand),
+                    Some(HirType::Char | HirType::SignedChar)
+                )
+        };
+        if !matches!(op, BinaryOperator::Comma) {
+            let int_left = Self::is_char_constant(left) && !char_object(right);
+            let int_right = Self::is_char_constant(right) && !char_object(left);
+            if int_left || int_right {
+                let promote = |operand: &HirExpression, to_int: bool| {
+                    if to_int {
+                        Self::int_constant(operand)
+                    } else {
+                        operand.clone()
+                    }
+                };
+                return self.gen_expr_binary_op(
+                    op,
+                    &promote(left, int_left),
+                    &promote(right, int_right),
+                    ctx,
+                    target_type,
+                );
+            }
+        }
+
         if matches!(op, BinaryOperator::Comma) {
             let left_code = self.generate_expression_with_context(left, ctx);
             let right_code = self.generate_expression_with_context(right, ctx);
@@ -398,7 +427,7 @@ impl CodeGenerator {
     ) -> Option<String> {
         if let HirExpression::CharLiteral(c) = right {
             let left_type = ctx.infer_expression_type(left);
-            if matches!(left_type, Some(HirType::Int)) {
+            if matches!(left_type, Some(HirType::Int)) && !Self::is_boolean_expression(left) {
                 let mut left_code = self.generate_expression_with_context(left, ctx);
                 if Self::needs_operand_parens(left) {
                     left_code = format!("({})", left_code);
@@ -409,7 +438,7 @@ impl CodeGenerator {
         }
         if let HirExpression::CharLiteral(c) = left {
             let right_type = ctx.infer_expression_type(right);
-            if matches!(right_type, Some(HirType::Int)) {
+            if matches!(right_type, Some(HirType::Int)) && !Self::is_boolean_expression(right) {
                 let mut right_code = self.generate_expression_with_context(right, ctx);
                 if Self::needs_operand_parens(right) {
                     right_code = format!("({})", right_code);
@@ -421,6 +450,30 @@ impl CodeGenerator {
         None
     }
 
+    /// Whether an expression is a character constant, or a choice between some.
+    pub(crate) fn is_char_constant(expr: &HirExpression) -> bool {
+        match expr {
+            HirExpression::CharLiteral(_) => true,
+            HirExpression::Ternary { then_expr, else_expr, .. } => {
+                Self::is_char_constant(then_expr) || Self::is_char_constant(else_expr)
+            }
+            _ => false,
+        }
+    }
+
+    /// Character constants as the ints they are in C.
+    pub(crate) fn int_constant(expr: &HirExpression) -> HirExpression {
+        match expr {
+            HirExpression::CharLiteral(c) => HirExpression::IntLiteral(i32::from(*c)),
+            HirExpression::Ternary { condition, then_expr, else_expr } => HirExpression::Ternary {
+                condition: condition.clone(),
+                then_expr: Box::new(Self::int_constant(then_expr)),
+                else_expr: Box::new(Self::int_constant(else_expr)),
+            },
+            _ => expr.clone(),
+        }
+    }
+
     /// Whether the code of an operand must be parenthesised next to another operator.
     pub(crate) fn needs_operand_parens(operand: &HirExpression) -> bool {
         matches!(
diff --git a/crates/decy-codegen/src/expr_gen/calls.rs b/crates/decy-codegen/src/expr_gen/calls.rs
index ad2ad5d..cfdac06 100644
--- a/crates/decy-codegen/src/expr_gen/calls.rs
+++ b/crates/decy-codegen/src/expr_gen/calls.rs
@@ -117,10 +117,9 @@ impl CodeGenerator {
             }
             _ => {
                 let op_str = Self::unary_operator_to_string(op);
+                let operand = &Self::int_constant(operand);
                 let operand_code = self.generate_expression_with_context(operand, ctx);
-                if Self::is_boolean_expression(operand)
-                    || matches!(operand, HirExpression::CharLiteral(_))
-                {
+                if Self::is_boolean_expression(operand) {
                     // The operand is an int in C
                     format!("{}(({}) as i32)", op_str, operand_code)
                 } else if matches!(
diff --git a/crates/decy-codegen/src/expr_gen/misc.rs b/crates/decy-codegen/src/expr_gen/misc.rs
index e28fc06..4fa1b8c 100644
--- a/crates/decy-codegen/src/expr_gen/misc.rs
+++ b/crates/decy-codegen/src/expr_gen/misc.rs
@@ -501,6 +501,21 @@ impl CodeGenerator {
         } else {
             target_type
         };
+        // A character constant is an int unless it is used as a char
+        let used_as_char = |other: &HirExpression| {
+            matches!(target_type, Some(HirType::Char | HirType::SignedChar))
+                || (!Self::is_char_constant(other)
+                    && matches!(ctx.infer_expression_type(other), Some(HirType::Char)))
+        };
+        let int_branch = |branch: &HirExpression, other: &HirExpression| {
+            if Self::is_char_constant(branch) && !used_as_char(other) {
+                Self::int_constant(branch)
+            } else {
+                branch.clone()
+            }
+        };
+        let (then_expr, else_expr) =
+            (&int_branch(then_expr, else_expr), &int_branch(else_expr, then_expr));
         let cond_code = self.generate_expression_with_context(condition, ctx);
         let then_code = self.generate_expression_with_target_type(then_expr, ctx, target_type);
         let else_code = self.generate_expression_with_target_type(else_expr, ctx, target_type);
-- 
2.43.0


From 68b52425dfa62c3e4e44cf9f27fd5eb37d21d164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:18 +0000
Subject: [PATCH 85/96] fix: evaluate the target of a compound assignment,
 increment or decrement once

---
 .../decy-codegen/src/expr_gen/binary_ops.rs   |  23 +++-
 crates/decy-codegen/src/expr_gen/calls.rs     |  11 ++
 crates/decy-codegen/src/expr_gen/misc.rs      | 103 ++++++++++++++++++
 crates/decy-codegen/src/stmt_gen.rs           |  62 +++++++++++
 4 files changed, 198 insertions(+), 1 deletion(-)

diff --git a/crates/decy-codegen/src/expr_gen/binary_ops.rs b/crates/decy-codegen/src/expr_gen/binary_ops.rs
index da9b3d9..529d261 100644
--- a/crates/decy-codegen/src/expr_gen/binary_ops.rs
+++ b/crates/decy-codegen/src/expr_gen/binary_ops.rs
@@ -249,7 +249,28 @@ impl CodeGenerator {
         right: &HirExpression,
         ctx: &TypeContext,
     ) -> String {
-        let right_code = self.generate_expression_with_context(right, ctx);
+        // A compound assignment evaluates its target once
+        if let HirExpression::BinaryOp { op, left: current, right: operand } = right {
+            if **current == *left {
+                if let Some((lets, place)) = self.hoist_indices(left, ctx, false) {
+                    let value = HirExpression::BinaryOp {
+                        op: *op,
+                        left: Box::new(place.clone()),
+                        right: operand.clone(),
+                    };
+                    let code = self.gen_expr_binary_assign(&place, &value, ctx);
+                    return format!("{{ {}{} }}", lets, code);
+                }
+            }
+        }
+
+        let right_code = if Self::is_char_constant(right)
+            && matches!(ctx.infer_expression_type(left), Some(HirType::Int))
+        {
+            self.generate_expression_with_context(&Self::int_constant(right), ctx)
+        } else {
+            self.generate_expression_with_context(right, ctx)
+        };
 
         if let HirExpression::ArrayIndex { array, index } = left {
             if let HirExpression::Variable(var_name) = &**array {
diff --git a/crates/decy-codegen/src/expr_gen/calls.rs b/crates/decy-codegen/src/expr_gen/calls.rs
index cfdac06..6b9d8f0 100644
--- a/crates/decy-codegen/src/expr_gen/calls.rs
+++ b/crates/decy-codegen/src/expr_gen/calls.rs
@@ -58,6 +58,17 @@ impl CodeGenerator {
         ctx: &TypeContext,
     ) -> String {
         use decy_hir::UnaryOperator;
+        if matches!(
+            op,
+            UnaryOperator::PostIncrement
+                | UnaryOperator::PostDecrement
+                | UnaryOperator::PreIncrement
+                | UnaryOperator::PreDecrement
+        ) {
+            if let Some((lets, operand)) = self.hoist_indices(operand, ctx, true) {
+                return format!("{{ {}{} }}", lets, self.gen_expr_unary_op(op, &operand, ctx));
+            }
+        }
         match op {
             UnaryOperator::PostIncrement => {
                 let operand_code = self.generate_expression_with_context(operand, ctx);
diff --git a/crates/decy-codegen/src/expr_gen/misc.rs b/crates/decy-codegen/src/expr_gen/misc.rs
index 4fa1b8c..566ab1f 100644
--- a/crates/decy-codegen/src/expr_gen/misc.rs
+++ b/crates/decy-codegen/src/expr_gen/misc.rs
@@ -348,11 +348,105 @@ impl CodeGenerator {
         }
     }
 
+    /// Bind the indices of a modified place that have side effects, so that the place can be
+    /// written more than once: the bindings and the place in terms of them.
+    pub(crate) fn hoist_indices(
+        &self,
+        place: &HirExpression,
+        ctx: &TypeContext,
+        calls: bool,
+    ) -> Option<(String, HirExpression)> {
+        let mut lets = String::new();
+        let mut count = 0;
+        let place = self.hoist_place(place, ctx, calls, &mut lets, &mut count);
+        (count > 0).then_some((lets, place))
+    }
+
+    fn hoist_place(
+        &self,
+        place: &HirExpression,
+        ctx: &TypeContext,
+        calls: bool,
+        lets: &mut String,
+        count: &mut usize,
+    ) -> HirExpression {
+        match place {
+            HirExpression::ArrayIndex { array, index } => {
+                let array = Box::new(self.hoist_place(array, ctx, calls, lets, count));
+                let index = if Self::has_side_effects(index, calls) {
+                    let name = format!("__index{}", count);
+                    *count += 1;
+                    let code = self.generate_expression_with_context(index, ctx);
+                    lets.push_str(&format!("let {} = {}; ", name, code));
+                    Box::new(HirExpression::Variable(name))
+                } else {
+                    index.clone()
+                };
+                HirExpression::ArrayIndex { array, index }
+            }
+            HirExpression::FieldAccess { object, field } => HirExpression::FieldAccess {
+                object: Box::new(self.hoist_place(object, ctx, calls, lets, count)),
+                field: field.clone(),
+            },
+            HirExpression::PointerFieldAccess { pointer, field } => {
+                HirExpression::PointerFieldAccess {
+                    pointer: Box::new(self.hoist_place(pointer, ctx, calls, lets, count)),
+                    field: field.clone(),
+                }
+            }
+            _ => place.clone(),
+        }
+    }
+
+    /// Whether evaluating an expression changes a variable (or, with `calls`, calls a function).
+    fn has_side_effects(expr: &HirExpression, calls: bool) -> bool {
+        match expr {
+            HirExpression::PostIncrement { .. }
+            | HirExpression::PreIncrement { .. }
+            | HirExpression::PostDecrement { .. }
+            | HirExpression::PreDecrement { .. }
+            | HirExpression::BinaryOp { op: BinaryOperator::Assign, .. } => true,
+            HirExpression::UnaryOp { op, operand } => {
+                matches!(
+                    op,
+                    decy_hir::UnaryOperator::PostIncrement
+                        | decy_hir::UnaryOperator::PreIncrement
+                        | decy_hir::UnaryOperator::PostDecrement
+                        | decy_hir::UnaryOperator::PreDecrement
+                ) || Self::has_side_effects(operand, calls)
+            }
+            HirExpression::BinaryOp { left, right, .. } => {
+                Self::has_side_effects(left, calls) || Self::has_side_effects(right, calls)
+            }
+            HirExpression::Ternary { condition, then_expr, else_expr } => {
+                [condition, then_expr, else_expr]
+                    .into_iter()
+                    .any(|part| Self::has_side_effects(part, calls))
+            }
+            HirExpression::Cast { expr, .. } => Self::has_side_effects(expr, calls),
+            HirExpression::Dereference(inner) => Self::has_side_effects(inner, calls),
+            HirExpression::ArrayIndex { array, index } => {
+                Self::has_side_effects(array, calls) || Self::has_side_effects(index, calls)
+            }
+            HirExpression::FieldAccess { object: inner, .. }
+            | HirExpression::PointerFieldAccess { pointer: inner, .. } => {
+                Self::has_side_effects(inner, calls)
+            }
+            HirExpression::FunctionCall { arguments, .. } => {
+                calls || arguments.iter().any(|argument| Self::has_side_effects(argument, calls))
+            }
+            _ => false,
+        }
+    }
+
     pub(crate) fn gen_expr_post_increment(
         &self,
         operand: &HirExpression,
         ctx: &TypeContext,
     ) -> String {
+        if let Some((lets, operand)) = self.hoist_indices(operand, ctx, true) {
+            return format!("{{ {}{} }}", lets, self.gen_expr_post_increment(&operand, ctx));
+        }
         if let HirExpression::Variable(var_name) = operand {
             if let Some(var_type) = ctx.get_type(var_name) {
                 if matches!(var_type, HirType::StringReference | HirType::StringLiteral) {
@@ -398,6 +492,9 @@ impl CodeGenerator {
         operand: &HirExpression,
         ctx: &TypeContext,
     ) -> String {
+        if let Some((lets, operand)) = self.hoist_indices(operand, ctx, true) {
+            return format!("{{ {}{} }}", lets, self.gen_expr_pre_increment(&operand, ctx));
+        }
         if let HirExpression::Dereference(inner) = operand {
             if let HirExpression::Variable(var_name) = &**inner {
                 if ctx.is_pointer(var_name) {
@@ -428,6 +525,9 @@ impl CodeGenerator {
         operand: &HirExpression,
         ctx: &TypeContext,
     ) -> String {
+        if let Some((lets, operand)) = self.hoist_indices(operand, ctx, true) {
+            return format!("{{ {}{} }}", lets, self.gen_expr_post_decrement(&operand, ctx));
+        }
         if let HirExpression::Dereference(inner) = operand {
             if let HirExpression::Variable(var_name) = &**inner {
                 if ctx.is_pointer(var_name) {
@@ -460,6 +560,9 @@ impl CodeGenerator {
         operand: &HirExpression,
         ctx: &TypeContext,
     ) -> String {
+        if let Some((lets, operand)) = self.hoist_indices(operand, ctx, true) {
+            return format!("{{ {}{} }}", lets, self.gen_expr_pre_decrement(&operand, ctx));
+        }
         if let HirExpression::Dereference(inner) = operand {
             if let HirExpression::Variable(var_name) = &**inner {
                 if ctx.is_pointer(var_name) {
diff --git a/crates/decy-codegen/src/stmt_gen.rs b/crates/decy-codegen/src/stmt_gen.rs
index 647faed..218a310 100644
--- a/crates/decy-codegen/src/stmt_gen.rs
+++ b/crates/decy-codegen/src/stmt_gen.rs
@@ -25,6 +25,64 @@ impl CodeGenerator {
         self.generate_statement_with_context(stmt, function_name, &mut TypeContext::new(), None)
     }
 
+    /// A compound assignment evaluates its target once: bind the indices with side effects.
+    fn hoist_compound_target(
+        &self,
+        stmt: &HirStatement,
+        ctx: &TypeContext,
+    ) -> Option<(String, HirStatement)> {
+        let (value, calls) = match stmt {
+            HirStatement::DerefAssignment { value, .. } => (value, true),
+            // These may also be plain assignments of a value that calls the same function
+            HirStatement::ArrayIndexAssignment { value, .. }
+            | HirStatement::FieldAssignment { value, .. } => (value, false),
+            _ => return None,
+        };
+        let HirExpression::BinaryOp { op, left: current, right } = value else { return None };
+        let modifies_current = match stmt {
+            HirStatement::DerefAssignment { target, .. } => {
+                **current == *target
+                    || matches!(&**current, HirExpression::Dereference(p) if **p == *target)
+            }
+            HirStatement::ArrayIndexAssignment { array, index, .. } => {
+                matches!(&**current, HirExpression::ArrayIndex { array: a, index: i }
+                    if a == array && i == index)
+            }
+            HirStatement::FieldAssignment { object, field, .. } => match &**current {
+                HirExpression::FieldAccess { object: o, field: f }
+                | HirExpression::PointerFieldAccess { pointer: o, field: f } => {
+                    **o == *object && f == field
+                }
+                _ => false,
+            },
+            _ => false,
+        };
+        if !modifies_current {
+            return None;
+        }
+        let (lets, place) = self.hoist_indices(current, ctx, calls)?;
+        let value = HirExpression::BinaryOp {
+            op: *op,
+            left: Box::new(place.clone()),
+            right: right.clone(),
+        };
+        let stmt = match (stmt, place) {
+            (HirStatement::ArrayIndexAssignment { .. }, HirExpression::ArrayIndex { array, index }) => {
+                HirStatement::ArrayIndexAssignment { array, index, value }
+            }
+            (
+                HirStatement::FieldAssignment { .. },
+                HirExpression::FieldAccess { object, field }
+                | HirExpression::PointerFieldAccess { pointer: object, field },
+            ) => HirStatement::FieldAssignment { object: *object, field, value },
+            (HirStatement::DerefAssignment { .. }, HirExpression::Dereference(target)) => {
+                HirStatement::DerefAssignment { target: *target, value }
+            }
+            (_, target) => HirStatement::DerefAssignment { target, value },
+        };
+        Some((lets, stmt))
+    }
+
     /// Generate code for a statement with type context for pointer arithmetic and return type for null pointer detection.
     pub(crate) fn generate_statement_with_context(
         &self,
@@ -33,6 +91,10 @@ impl CodeGenerator {
         ctx: &mut TypeContext,
         return_type: Option<&HirType>,
     ) -> String {
+        if let Some((lets, stmt)) = self.hoist_compound_target(stmt, ctx) {
+            let code = self.generate_statement_with_context(&stmt, function_name, ctx, return_type);
+            return format!("{{ {}{} }}", lets, code);
+        }
         match stmt {
             HirStatement::VariableDeclaration { name, var_type, initializer } => {
                 self.generate_declaration_statement(name, var_type, initializer.as_ref(), ctx)
-- 
2.43.0


From 367ab450550a66f0bb3bb0256cdcdc385f16efcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:12 +0000
Subject: [PATCH 86/96] fix: drop unreachable statements that name an inlined
 temporary

---
 crates/decy-core/src/optimize.rs | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/crates/decy-core/src/optimize.rs b/crates/decy-core/src/optimize.rs
index 0fdf8c3..66183ec 100644
--- a/crates/decy-core/src/optimize.rs
+++ b/crates/decy-core/src/optimize.rs
@@ -277,14 +277,8 @@ fn eliminate_temporaries_returning(
     }
 
     let mut result = Vec::new();
-    let mut skip_next = false;
 
     for i in 0..stmts.len() {
-        if skip_next {
-            skip_next = false;
-            continue;
-        }
-
         // Check for pattern: let tmp = expr; return tmp;
         if i + 1 < stmts.len() {
             if let (
@@ -297,10 +291,10 @@ fn eliminate_temporaries_returning(
                     && count_uses(name, &stmts[i + 2..]) == 0
                     && !is_allocation_expr(init_expr)
                 {
-                    // Replace with direct return
+                    // Replace with direct return. What follows never runs, and may name the
+                    // temporary that is gone.
                     result.push(HirStatement::Return(Some(init_expr.clone())));
-                    skip_next = true;
-                    continue;
+                    break;
                 }
             }
         }
-- 
2.43.0


From 2c7f69cb5564b024939eb2de296367f158a65445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:33 +0000
Subject: [PATCH 87/96] fix: convert between integers and floating-point
 numbers where C does

---
 crates/decy-parser/src/extract/expressions.rs | 60 ++++++++++++++++++-
 1 file changed, 58 insertions(+), 2 deletions(-)

diff --git a/crates/decy-parser/src/extract/expressions.rs b/crates/decy-parser/src/extract/expressions.rs
index 980012c..f4a3413 100644
--- a/crates/decy-parser/src/extract/expressions.rs
+++ b/crates/decy-parser/src/extract/expressions.rs
@@ -43,6 +43,9 @@ pub(crate) fn try_extract_expression(cursor: CXCursor) -> Option<Expression> {
             result
         }
         CXCursor_UnexposedExpr => {
+            if let Some(expr) = extract_float_conversion(cursor) {
+                return Some(expr);
+            }
             // UnexposedExpr is a wrapper - recurse into children
             let mut result: Option<Expression> = None;
             let result_ptr = &mut result as *mut Option<Expression>;
@@ -269,6 +272,10 @@ pub(crate) extern "C" fn visit_expression(
         CXCursor_UnexposedExpr => {
             // Unexposed expressions might wrap other expressions (like ImplicitCastExpr wrapping CallExpr)
             // Recurse first to check if there's a more specific expression inside
+            if let Some(expr) = extract_float_conversion(cursor) {
+                *expr_opt = Some(expr);
+                return CXChildVisit_Continue;
+            }
             CXChildVisit_Recurse
         }
         CXCursor_ParenExpr => {
@@ -766,7 +773,8 @@ pub(crate) extern "C" fn visit_binary_operand(
         }
         CXCursor_UnexposedExpr | CXCursor_ParenExpr => {
             // Unexposed expressions might be sizeof or wrap other expressions
-            if let Some(expr) = extract_sizeof(cursor) {
+            if let Some(expr) = extract_float_conversion(cursor).or_else(|| extract_sizeof(cursor))
+            {
                 operands.push(expr);
                 CXChildVisit_Continue
             } else {
@@ -1305,7 +1313,8 @@ pub(crate) extern "C" fn visit_call_argument(
         }
         CXCursor_UnexposedExpr | CXCursor_ParenExpr => {
             // Unexposed expressions might wrap actual expressions or be sizeof, try to extract
-            if let Some(expr) = extract_sizeof(cursor) {
+            if let Some(expr) = extract_float_conversion(cursor).or_else(|| extract_sizeof(cursor))
+            {
                 arg_data.arguments.push(expr);
                 CXChildVisit_Continue
             } else {
@@ -1824,6 +1833,48 @@ pub(crate) extern "C" fn visit_cast_inner(
     }
 }
 
+/// Extract an implicit conversion to or from a floating type: Rust needs it spelled out.
+fn extract_float_conversion(cursor: CXCursor) -> Option<Expression> {
+    extern "C" fn first_child(
+        cursor: CXCursor,
+        _parent: CXCursor,
+        client_data: CXClientData,
+    ) -> CXChildVisitResult {
+        unsafe { *(client_data as *mut Option<CXCursor>) = Some(cursor) };
+        CXChildVisit_Break
+    }
+    // SAFETY: The cursor is valid, and the callback writes to `child` only
+    let (operand, to, from) = unsafe {
+        if clang_getCursorKind(cursor) != CXCursor_UnexposedExpr {
+            return None;
+        }
+        let mut child: Option<CXCursor> = None;
+        clang_visitChildren(cursor, first_child, &mut child as *mut _ as CXClientData);
+        let operand = child?;
+        let canonical = |c| clang_getCanonicalType(clang_getCursorType(c)).kind;
+        (operand, canonical(cursor), canonical(operand))
+    };
+    let is_float = |kind| kind == CXType_Float || kind == CXType_Double;
+    let is_integer = |kind| (CXType_Bool..=CXType_LongLong).contains(&kind) || kind == CXType_Enum;
+    let converts = (is_float(to) && (is_float(from) || is_integer(from)) && to != from)
+        || (is_integer(to) && is_float(from));
+    if !converts {
+        return None;
+    }
+    let target_type = convert_type(unsafe { clang_getCursorType(cursor) })?;
+    let expr = try_extract_expression(operand)?;
+    let suffix = if to == CXType_Float { "f" } else { "" };
+    Some(match expr {
+        Expression::IntLiteral(value) if is_float(to) => {
+            Expression::FloatLiteral(format!("{}.0{}", value, suffix))
+        }
+        Expression::FloatLiteral(text) if to == CXType_Float => {
+            Expression::FloatLiteral(format!("{}{}", text, suffix))
+        }
+        expr => Expression::Cast { target_type, expr: Box::new(expr) },
+    })
+}
+
 /// Extract a compound literal expression from a clang cursor.
 ///
 /// Parses C99 compound literals like `(struct Point){10, 20}` or `(int[]){1, 2, 3}`.
@@ -1948,6 +1999,11 @@ pub(crate) extern "C" fn visit_init_list_children(
         return CXChildVisit_Continue;
     }
 
+    if let Some(expr) = extract_float_conversion(cursor) {
+        initializers.push(expr);
+        return CXChildVisit_Continue;
+    }
+
     // DECY-133b: Handle designated initializers
     // Array: [idx] = value  → UnexposedExpr with children [IntLiteral(idx), value]
     // Struct: .field = value → UnexposedExpr with children [MemberRef, value]
-- 
2.43.0


From f717a8684792e77ace1242a67aeea2a6cddae9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:16 +0000
Subject: [PATCH 88/96] fix: floating-point literals, conditions, increments
 and compound assignments

---
 .../decy-codegen/src/expr_gen/binary_ops.rs   |  9 ++-
 crates/decy-codegen/src/expr_gen/calls.rs     | 11 ++--
 crates/decy-codegen/src/expr_gen/literals.rs  | 11 +++-
 crates/decy-codegen/src/expr_gen/misc.rs      | 43 ++++++++++-----
 crates/decy-codegen/src/expr_gen/mod.rs       | 14 ++++-
 crates/decy-codegen/src/lib.rs                | 39 +++++++++++++
 crates/decy-codegen/src/stmt_gen.rs           | 14 +++--
 crates/decy-parser/src/extract/expressions.rs | 55 +++++++++++++------
 8 files changed, 147 insertions(+), 49 deletions(-)

diff --git a/crates/decy-codegen/src/expr_gen/binary_ops.rs b/crates/decy-codegen/src/expr_gen/binary_ops.rs
index 529d261..91885d5 100644
--- a/crates/decy-codegen/src/expr_gen/binary_ops.rs
+++ b/crates/decy-codegen/src/expr_gen/binary_ops.rs
@@ -139,6 +139,7 @@ impl CodeGenerator {
                 &left_str,
                 &right_str,
                 op_str,
+                ctx,
                 target_type,
             );
         }
@@ -269,7 +270,8 @@ impl CodeGenerator {
         {
             self.generate_expression_with_context(&Self::int_constant(right), ctx)
         } else {
-            self.generate_expression_with_context(right, ctx)
+            let target_type = ctx.numeric_type(left);
+            self.generate_expression_with_target_type(right, ctx, target_type.as_ref())
         };
 
         if let HirExpression::ArrayIndex { array, index } = left {
@@ -550,16 +552,17 @@ impl CodeGenerator {
         left_str: &str,
         right_str: &str,
         op_str: &str,
+        ctx: &TypeContext,
         target_type: Option<&HirType>,
     ) -> String {
         let left_needs_bool = !Self::is_boolean_expression(left);
         let right_needs_bool = !Self::is_boolean_expression(right);
 
         let left_bool =
-            if left_needs_bool { format!("({} != 0)", left_str) } else { left_str.to_string() };
+            if left_needs_bool { format!("({} != {})", left_str, ctx.zero_like(left)) } else { left_str.to_string() };
 
         let right_bool =
-            if right_needs_bool { format!("({} != 0)", right_str) } else { right_str.to_string() };
+            if right_needs_bool { format!("({} != {})", right_str, ctx.zero_like(right)) } else { right_str.to_string() };
 
         if let Some(HirType::Int) = target_type {
             return format!("({} {} {}) as i32", left_bool, op_str, right_bool);
diff --git a/crates/decy-codegen/src/expr_gen/calls.rs b/crates/decy-codegen/src/expr_gen/calls.rs
index 6b9d8f0..2261afc 100644
--- a/crates/decy-codegen/src/expr_gen/calls.rs
+++ b/crates/decy-codegen/src/expr_gen/calls.rs
@@ -69,6 +69,7 @@ impl CodeGenerator {
                 return format!("{{ {}{} }}", lets, self.gen_expr_unary_op(op, &operand, ctx));
             }
         }
+        let one = ctx.one_like(operand);
         match op {
             UnaryOperator::PostIncrement => {
                 let operand_code = self.generate_expression_with_context(operand, ctx);
@@ -79,7 +80,7 @@ impl CodeGenerator {
                         operand_code, operand_code, operand_code
                     )
                 } else {
-                    format!("{{ let __tmp = {}; {} += 1; __tmp }}", operand_code, operand_code)
+                    format!("{{ let __tmp = {}; {} += {one}; __tmp }}", operand_code, operand_code)
                 }
             }
             UnaryOperator::PostDecrement => {
@@ -91,7 +92,7 @@ impl CodeGenerator {
                         operand_code, operand_code, operand_code
                     )
                 } else {
-                    format!("{{ let __tmp = {}; {} -= 1; __tmp }}", operand_code, operand_code)
+                    format!("{{ let __tmp = {}; {} -= {one}; __tmp }}", operand_code, operand_code)
                 }
             }
             UnaryOperator::PreIncrement => {
@@ -103,7 +104,7 @@ impl CodeGenerator {
                         operand_code, operand_code, operand_code
                     )
                 } else {
-                    format!("{{ {} += 1; {} }}", operand_code, operand_code)
+                    format!("{{ {} += {one}; {} }}", operand_code, operand_code)
                 }
             }
             UnaryOperator::PreDecrement => {
@@ -115,7 +116,7 @@ impl CodeGenerator {
                         operand_code, operand_code, operand_code
                     )
                 } else {
-                    format!("{{ {} -= 1; {} }}", operand_code, operand_code)
+                    format!("{{ {} -= {one}; {} }}", operand_code, operand_code)
                 }
             }
             UnaryOperator::LogicalNot => {
@@ -123,7 +124,7 @@ impl CodeGenerator {
                 if Self::is_boolean_expression(operand) {
                     format!("!{}", operand_code)
                 } else {
-                    format!("({} == 0) as i32", operand_code)
+                    format!("({} == {}) as i32", operand_code, ctx.zero_like(operand))
                 }
             }
             _ => {
diff --git a/crates/decy-codegen/src/expr_gen/literals.rs b/crates/decy-codegen/src/expr_gen/literals.rs
index ce9d822..0fef146 100644
--- a/crates/decy-codegen/src/expr_gen/literals.rs
+++ b/crates/decy-codegen/src/expr_gen/literals.rs
@@ -22,6 +22,13 @@ impl CodeGenerator {
         target_type: Option<&HirType>,
     ) -> String {
         let val_stripped = val.trim_end_matches(['f', 'F', 'l', 'L']);
+        // C literals may lack digits before or after the point
+        let padded = val_stripped.replace(".e", ".0e").replace(".E", ".0E");
+        let val_stripped = match (padded.starts_with('.'), padded.ends_with('.')) {
+            (true, _) => format!("0{}", padded),
+            (_, true) => format!("{}0", padded),
+            _ => padded,
+        };
         match target_type {
             Some(HirType::Float) => format!("{}f32", val_stripped),
             Some(HirType::Double) => format!("{}f64", val_stripped),
@@ -88,13 +95,13 @@ impl CodeGenerator {
             if Self::is_boolean_expression(operand) {
                 return format!("(!{}) as i32", inner_parens);
             } else {
-                return format!("({} == 0) as i32", inner_code);
+                return format!("({} == {}) as i32", inner_code, ctx.zero_like(operand));
             }
         }
         if Self::is_boolean_expression(operand) {
             format!("!{}", inner_parens)
         } else {
-            format!("({} == 0)", inner_code)
+            format!("({} == {})", inner_code, ctx.zero_like(operand))
         }
     }
 
diff --git a/crates/decy-codegen/src/expr_gen/misc.rs b/crates/decy-codegen/src/expr_gen/misc.rs
index 566ab1f..64dd8c7 100644
--- a/crates/decy-codegen/src/expr_gen/misc.rs
+++ b/crates/decy-codegen/src/expr_gen/misc.rs
@@ -250,7 +250,18 @@ impl CodeGenerator {
             }
         }
 
-        let expr_code = self.generate_expression_with_context(expr, ctx);
+        if let (HirType::Float, HirExpression::FloatLiteral(literal)) = (cast_target, expr) {
+            return self.gen_expr_float_literal(literal, Some(cast_target));
+        }
+
+        let expr_code = if matches!(cast_target, HirType::Float | HirType::Double)
+            && Self::is_boolean_expression(expr)
+        {
+            // Rust casts a bool to integers only
+            format!("({})", self.generate_expression_with_target_type(expr, ctx, Some(&HirType::Int)))
+        } else {
+            self.generate_expression_with_context(expr, ctx)
+        };
         let rust_type = Self::map_type(cast_target);
 
         let expr_str = if matches!(*expr, HirExpression::BinaryOp { .. }) {
@@ -459,11 +470,12 @@ impl CodeGenerator {
             }
         }
 
+        let one = ctx.one_like(operand);
         if let HirExpression::Dereference(inner) = operand {
             if let HirExpression::Variable(var_name) = &**inner {
                 if ctx.is_pointer(var_name) {
                     return format!(
-                        "{{ let __tmp = unsafe {{ *{} }}; unsafe {{ *{} += 1 }}; __tmp }}",
+                        "{{ let __tmp = unsafe {{ *{} }}; unsafe {{ *{} += {one} }}; __tmp }}",
                         var_name, var_name
                     );
                 }
@@ -480,10 +492,10 @@ impl CodeGenerator {
             )
         } else if let Some(place) = Self::unsafe_place(&operand_code) {
             format!(
-                "{{ let __tmp = unsafe {{ {place} }}; unsafe {{ {place} += 1 }}; __tmp }}"
+                "{{ let __tmp = unsafe {{ {place} }}; unsafe {{ {place} += {one} }}; __tmp }}"
             )
         } else {
-            format!("{{ let __tmp = {operand}; {operand} += 1; __tmp }}", operand = operand_code)
+            format!("{{ let __tmp = {operand}; {operand} += {one}; __tmp }}", operand = operand_code)
         }
     }
 
@@ -495,11 +507,12 @@ impl CodeGenerator {
         if let Some((lets, operand)) = self.hoist_indices(operand, ctx, true) {
             return format!("{{ {}{} }}", lets, self.gen_expr_pre_increment(&operand, ctx));
         }
+        let one = ctx.one_like(operand);
         if let HirExpression::Dereference(inner) = operand {
             if let HirExpression::Variable(var_name) = &**inner {
                 if ctx.is_pointer(var_name) {
                     return format!(
-                        "{{ unsafe {{ *{} += 1 }}; unsafe {{ *{} }} }}",
+                        "{{ unsafe {{ *{} += {one} }}; unsafe {{ *{} }} }}",
                         var_name, var_name
                     );
                 }
@@ -514,9 +527,9 @@ impl CodeGenerator {
                 operand = operand_code
             )
         } else if let Some(place) = Self::unsafe_place(&operand_code) {
-            format!("{{ unsafe {{ {place} += 1 }}; unsafe {{ {place} }} }}")
+            format!("{{ unsafe {{ {place} += {one} }}; unsafe {{ {place} }} }}")
         } else {
-            format!("{{ {operand} += 1; {operand} }}", operand = operand_code)
+            format!("{{ {operand} += {one}; {operand} }}", operand = operand_code)
         }
     }
 
@@ -528,11 +541,12 @@ impl CodeGenerator {
         if let Some((lets, operand)) = self.hoist_indices(operand, ctx, true) {
             return format!("{{ {}{} }}", lets, self.gen_expr_post_decrement(&operand, ctx));
         }
+        let one = ctx.one_like(operand);
         if let HirExpression::Dereference(inner) = operand {
             if let HirExpression::Variable(var_name) = &**inner {
                 if ctx.is_pointer(var_name) {
                     return format!(
-                        "{{ let __tmp = unsafe {{ *{} }}; unsafe {{ *{} -= 1 }}; __tmp }}",
+                        "{{ let __tmp = unsafe {{ *{} }}; unsafe {{ *{} -= {one} }}; __tmp }}",
                         var_name, var_name
                     );
                 }
@@ -548,10 +562,10 @@ impl CodeGenerator {
             )
         } else if let Some(place) = Self::unsafe_place(&operand_code) {
             format!(
-                "{{ let __tmp = unsafe {{ {place} }}; unsafe {{ {place} -= 1 }}; __tmp }}"
+                "{{ let __tmp = unsafe {{ {place} }}; unsafe {{ {place} -= {one} }}; __tmp }}"
             )
         } else {
-            format!("{{ let __tmp = {operand}; {operand} -= 1; __tmp }}", operand = operand_code)
+            format!("{{ let __tmp = {operand}; {operand} -= {one}; __tmp }}", operand = operand_code)
         }
     }
 
@@ -563,11 +577,12 @@ impl CodeGenerator {
         if let Some((lets, operand)) = self.hoist_indices(operand, ctx, true) {
             return format!("{{ {}{} }}", lets, self.gen_expr_pre_decrement(&operand, ctx));
         }
+        let one = ctx.one_like(operand);
         if let HirExpression::Dereference(inner) = operand {
             if let HirExpression::Variable(var_name) = &**inner {
                 if ctx.is_pointer(var_name) {
                     return format!(
-                        "{{ unsafe {{ *{} -= 1 }}; unsafe {{ *{} }} }}",
+                        "{{ unsafe {{ *{} -= {one} }}; unsafe {{ *{} }} }}",
                         var_name, var_name
                     );
                 }
@@ -582,9 +597,9 @@ impl CodeGenerator {
                 operand = operand_code
             )
         } else if let Some(place) = Self::unsafe_place(&operand_code) {
-            format!("{{ unsafe {{ {place} -= 1 }}; unsafe {{ {place} }} }}")
+            format!("{{ unsafe {{ {place} -= {one} }}; unsafe {{ {place} }} }}")
         } else {
-            format!("{{ {operand} -= 1; {operand} }}", operand = operand_code)
+            format!("{{ {operand} -= {one}; {operand} }}", operand = operand_code)
         }
     }
 
@@ -626,7 +641,7 @@ impl CodeGenerator {
         let cond_bool = if Self::is_boolean_expression(condition) {
             cond_code
         } else {
-            format!("{} != 0", cond_code)
+            format!("{} != {}", cond_code, ctx.zero_like(condition))
         };
 
         format!("if {} {{ {} }} else {{ {} }}", cond_bool, then_code, else_code)
diff --git a/crates/decy-codegen/src/expr_gen/mod.rs b/crates/decy-codegen/src/expr_gen/mod.rs
index be41d7a..9d43e77 100644
--- a/crates/decy-codegen/src/expr_gen/mod.rs
+++ b/crates/decy-codegen/src/expr_gen/mod.rs
@@ -56,7 +56,19 @@ impl CodeGenerator {
             HirExpression::CharLiteral(c) => Self::gen_expr_char_literal(*c),
             HirExpression::Variable(name) => self.gen_expr_variable(name, ctx, target_type),
             HirExpression::BinaryOp { op, left, right } => {
-                self.gen_expr_binary_op(op, left, right, ctx, target_type)
+                let code = self.gen_expr_binary_op(op, left, right, ctx, target_type);
+                // A compound assignment may compute in a wider type than that of its target
+                match (target_type, ctx.infer_expression_type(expr)) {
+                    (
+                        Some(to @ (HirType::Int | HirType::UnsignedInt | HirType::Float)),
+                        Some(HirType::Double),
+                    )
+                    | (Some(to @ (HirType::Int | HirType::UnsignedInt)), Some(HirType::Float))
+                    | (Some(to @ HirType::Double), Some(HirType::Float)) => {
+                        format!("({}) as {}", code, Self::map_type(to))
+                    }
+                    _ => code,
+                }
             }
             HirExpression::Dereference(inner) => self.gen_expr_dereference(inner, ctx),
             HirExpression::UnaryOp { op, operand } => self.gen_expr_unary_op(op, operand, ctx),
diff --git a/crates/decy-codegen/src/lib.rs b/crates/decy-codegen/src/lib.rs
index b290ec8..af2ec88 100644
--- a/crates/decy-codegen/src/lib.rs
+++ b/crates/decy-codegen/src/lib.rs
@@ -244,6 +244,14 @@ impl TypeContext {
         matches!(self.get_type(name), Some(HirType::Vec(_)))
     }
 
+    /// The zero to compare an expression with when it is a condition.
+    fn zero_like(&self, expr: &HirExpression) -> &'static str {
+        match self.infer_expression_type(expr) {
+            Some(HirType::Float | HirType::Double) => "0.0",
+            _ => "0",
+        }
+    }
+
     /// Infer the type of an expression based on the context.
     /// Returns None if the type cannot be inferred.
     fn infer_expression_type(&self, expr: &HirExpression) -> Option<HirType> {
@@ -356,13 +364,44 @@ impl TypeContext {
                     | BinaryOperator::BitwiseXor
                     | BinaryOperator::LeftShift
                     | BinaryOperator::RightShift => Some(HirType::Int),
+                    BinaryOperator::Comma => right_type,
+                    _ => None,
+                }
+            }
+            HirExpression::Cast { target_type: ty @ (HirType::Float | HirType::Double), .. } => {
+                Some(ty.clone())
+            }
+            HirExpression::UnaryOp { op: decy_hir::UnaryOperator::Minus, operand } => {
+                match self.infer_expression_type(operand) {
+                    Some(ty @ (HirType::Float | HirType::Double)) => Some(ty),
                     _ => None,
                 }
             }
+            HirExpression::Ternary { then_expr, else_expr, .. } => {
+                let then_type = self.infer_expression_type(then_expr);
+                let else_type = self.infer_expression_type(else_expr);
+                [HirType::Double, HirType::Float].into_iter().find(|ty| {
+                    then_type.as_ref() == Some(ty) || else_type.as_ref() == Some(ty)
+                })
+            }
             _ => None,
         }
     }
 
+    /// The type of an assignment's target where a compound assignment may compute in a wider one.
+    fn numeric_type(&self, target: &HirExpression) -> Option<HirType> {
+        self.infer_expression_type(target)
+            .filter(|ty| matches!(ty, HirType::Int | HirType::Float | HirType::Double))
+    }
+
+    /// The one to add or subtract when an expression is incremented or decremented.
+    fn one_like(&self, expr: &HirExpression) -> &'static str {
+        match self.infer_expression_type(expr) {
+            Some(HirType::Float | HirType::Double) => "1.0",
+            _ => "1",
+        }
+    }
+
     /// DECY-123: Helper to get field type from a struct type
     fn get_field_type_from_type(&self, obj_type: &HirType, field_name: &str) -> Option<HirType> {
         let struct_name = match obj_type {
diff --git a/crates/decy-codegen/src/stmt_gen.rs b/crates/decy-codegen/src/stmt_gen.rs
index 218a310..0bc4c23 100644
--- a/crates/decy-codegen/src/stmt_gen.rs
+++ b/crates/decy-codegen/src/stmt_gen.rs
@@ -507,10 +507,10 @@ impl CodeGenerator {
                 if matches!(cond_type, HirType::Pointer(_)) {
                     format!("!{}.is_null()", cond_code)
                 } else {
-                    format!("({}) != 0", cond_code)
+                    format!("({}) != {}", cond_code, ctx.zero_like(condition))
                 }
             } else {
-                format!("({}) != 0", cond_code)
+                format!("({}) != {}", cond_code, ctx.zero_like(condition))
             }
         };
         code.push_str(&format!("if {} {{\n", cond_str));
@@ -572,10 +572,10 @@ impl CodeGenerator {
                     if matches!(cond_type, HirType::Pointer(_)) {
                         format!("!{}.is_null()", cond_code)
                     } else {
-                        format!("({}) != 0", cond_code)
+                        format!("({}) != {}", cond_code, ctx.zero_like(condition))
                     }
                 } else {
-                    format!("({}) != 0", cond_code)
+                    format!("({}) != {}", cond_code, ctx.zero_like(condition))
                 }
             }
         };
@@ -788,7 +788,7 @@ impl CodeGenerator {
             } else if matches!(ctx.infer_expression_type(cond), Some(HirType::Pointer(_))) {
                 format!("!{}.is_null()", cond_code)
             } else {
-                format!("({}) != 0", cond_code)
+                format!("({}) != {}", cond_code, ctx.zero_like(cond))
             };
             code.push_str(&format!("while {} {{\n", cond_str));
         } else {
@@ -966,7 +966,9 @@ impl CodeGenerator {
                 | HirExpression::ArrayIndex { .. }
         ) {
             let target_code = self.generate_expression_with_context(target, ctx);
-            let value_code = self.generate_expression_with_context(value, ctx);
+            let target_type = ctx.numeric_type(target);
+            let value_code =
+                self.generate_expression_with_target_type(value, ctx, target_type.as_ref());
             if let Some(place) = Self::unsafe_place(&target_code) {
                 // Assign to the global or pointee, not to a copy of its value
                 return format!(
diff --git a/crates/decy-parser/src/extract/expressions.rs b/crates/decy-parser/src/extract/expressions.rs
index f4a3413..0ee8190 100644
--- a/crates/decy-parser/src/extract/expressions.rs
+++ b/crates/decy-parser/src/extract/expressions.rs
@@ -419,19 +419,28 @@ pub(crate) fn extract_float_literal(cursor: CXCursor) -> Option<Expression> {
             // SAFETY: Dispose tokens
             clang_disposeTokens(tu, tokens, num_tokens);
         }
-    } else {
-        // Fallback using evaluate
+    }
+    if num_tokens == 0 || value.starts_with("0x") || value.starts_with("0X") {
+        // No tokens, or a hexadecimal literal, which Rust does not have
         unsafe {
             let eval_result = clang_Cursor_Evaluate(cursor);
             if !eval_result.is_null() {
                 let float_val = clang_EvalResult_getAsDouble(eval_result);
-                value = format!("{}", float_val);
+                value = format!("{:?}", float_val);
                 clang_EvalResult_dispose(eval_result);
             }
         }
     }
 
-    Some(Expression::FloatLiteral(value))
+    // SAFETY: Getting the type of the literal
+    let cx_type = unsafe { clang_getCanonicalType(clang_getCursorType(cursor)) };
+    let is_float = cx_type.kind == CXType_Float;
+    let literal = Expression::FloatLiteral(value);
+    Some(if is_float {
+        Expression::Cast { target_type: Type::Float, expr: Box::new(literal) }
+    } else {
+        literal
+    })
 }
 
 /// Extract a string literal expression.
@@ -650,7 +659,7 @@ fn extract_compound_assignment_expr(cursor: CXCursor) -> Option<Expression> {
     })
 }
 
-/// Value of an integer constant expression that the expansion of one macro name produced.
+/// Value of a constant expression that the expansion of one macro name produced.
 fn evaluate_macro_constant(cursor: CXCursor) -> Option<Expression> {
     unsafe {
         // A binary operator spans at least three tokens unless a macro name stands for it
@@ -687,10 +696,26 @@ fn evaluate_macro_constant(cursor: CXCursor) -> Option<Expression> {
         if result.is_null() {
             return None;
         }
-        let is_int = clang_EvalResult_getKind(result) == CXEval_Int;
-        let value = clang_EvalResult_getAsInt(result);
+        let constant = match clang_EvalResult_getKind(result) {
+            CXEval_Int => Some(Expression::IntLiteral(clang_EvalResult_getAsInt(result))),
+            CXEval_Float => {
+                let literal = Expression::FloatLiteral(format!(
+                    "{:?}",
+                    clang_EvalResult_getAsDouble(result)
+                ));
+                match clang_getCanonicalType(clang_getCursorType(cursor)).kind {
+                    CXType_Double => Some(literal),
+                    CXType_Float => Some(Expression::Cast {
+                        target_type: Type::Float,
+                        expr: Box::new(literal),
+                    }),
+                    _ => None,
+                }
+            }
+            _ => None,
+        };
         clang_EvalResult_dispose(result);
-        is_int.then_some(Expression::IntLiteral(value))
+        constant
     }
 }
 
@@ -1863,16 +1888,10 @@ fn extract_float_conversion(cursor: CXCursor) -> Option<Expression> {
     }
     let target_type = convert_type(unsafe { clang_getCursorType(cursor) })?;
     let expr = try_extract_expression(operand)?;
-    let suffix = if to == CXType_Float { "f" } else { "" };
-    Some(match expr {
-        Expression::IntLiteral(value) if is_float(to) => {
-            Expression::FloatLiteral(format!("{}.0{}", value, suffix))
-        }
-        Expression::FloatLiteral(text) if to == CXType_Float => {
-            Expression::FloatLiteral(format!("{}{}", text, suffix))
-        }
-        expr => Expression::Cast { target_type, expr: Box::new(expr) },
-    })
+    if let (Expression::IntLiteral(value), CXType_Double) = (&expr, to) {
+        return Some(Expression::FloatLiteral(format!("{}.0", value)));
+    }
+    Some(Expression::Cast { target_type, expr: Box::new(expr) })
 }
 
 /// Extract a compound literal expression from a clang cursor.
-- 
2.43.0


From c457822eb69e01b7eb7c943bf270c6122020dfce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:48:51 +0000
Subject: [PATCH 89/96] fix: operators after a global or pointee in a branch of
 the conditional operator

---
 crates/decy-codegen/src/expr_gen/misc.rs | 29 +++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/crates/decy-codegen/src/expr_gen/misc.rs b/crates/decy-codegen/src/expr_gen/misc.rs
index 64dd8c7..6113791 100644
--- a/crates/decy-codegen/src/expr_gen/misc.rs
+++ b/crates/decy-codegen/src/expr_gen/misc.rs
@@ -644,7 +644,34 @@ impl CodeGenerator {
             format!("{} != {}", cond_code, ctx.zero_like(condition))
         };
 
-        format!("if {} {{ {} }} else {{ {} }}", cond_bool, then_code, else_code)
+        format!(
+            "if {} {{ {} }} else {{ {} }}",
+            cond_bool,
+            Self::block_value(then_code),
+            Self::block_value(else_code)
+        )
+    }
+
+    /// Code for the value of a block: a leading block is an operand there, not a statement.
+    fn block_value(code: String) -> String {
+        if !["unsafe {", "{", "if "].iter().any(|start| code.starts_with(start)) {
+            return code;
+        }
+        let mut depth = 0;
+        let end = code.char_indices().find_map(|(i, c)| {
+            depth += match c {
+                '{' => 1,
+                '}' => -1,
+                _ => 0,
+            };
+            (c == '}' && depth == 0).then_some(i + 1)
+        });
+        match end {
+            Some(end) if end < code.len() && !code[end..].starts_with(" else ") => {
+                format!("({})", code)
+            }
+            _ => code,
+        }
     }
 
     /// Convert unary operator to string.
-- 
2.43.0


From f9a2cd48498ec26ae9da95106f9fc4c9ffc225ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:51 +0000
Subject: [PATCH 90/96] fix: designated initializers, left-out braces and
 compound literals

---
 crates/decy-codegen/src/expr_gen/misc.rs      |  27 +-
 crates/decy-parser/src/extract/expressions.rs | 281 +++++++++++++-----
 2 files changed, 231 insertions(+), 77 deletions(-)

diff --git a/crates/decy-codegen/src/expr_gen/misc.rs b/crates/decy-codegen/src/expr_gen/misc.rs
index 6113791..837445e 100644
--- a/crates/decy-codegen/src/expr_gen/misc.rs
+++ b/crates/decy-codegen/src/expr_gen/misc.rs
@@ -294,17 +294,20 @@ impl CodeGenerator {
     ) -> String {
         match literal_type {
             HirType::Struct(name) => {
-                if initializers.is_empty() {
+                let struct_fields = ctx.structs.get(name);
+                let num_struct_fields = struct_fields.map(|f| f.len()).unwrap_or(0);
+                if initializers.is_empty() && num_struct_fields > 0 {
+                    format!("{}::default()", name)
+                } else if initializers.is_empty() {
                     format!("{} {{}}", name)
                 } else {
-                    let struct_fields = ctx.structs.get(name);
-                    let num_struct_fields = struct_fields.map(|f| f.len()).unwrap_or(0);
 
                     let fields: Vec<String> = initializers
                         .iter()
                         .enumerate()
                         .map(|(i, init)| {
-                            let init_code = self.generate_expression_with_context(init, ctx);
+                            let field_type = struct_fields.and_then(|f| f.get(i)).map(|(_, ty)| ty);
+                            let init_code = self.gen_initializer(init, ctx, field_type);
                             let field_name = struct_fields
                                 .and_then(|f| f.get(i))
                                 .map(|(name, _)| name.as_str())
@@ -332,7 +335,7 @@ impl CodeGenerator {
                 } else {
                     let elements: Vec<String> = initializers
                         .iter()
-                        .map(|init| self.generate_expression_with_context(init, ctx))
+                        .map(|init| self.gen_initializer(init, ctx, Some(element_type)))
                         .collect();
 
                     if let Some(n) = size {
@@ -359,6 +362,18 @@ impl CodeGenerator {
         }
     }
 
+    /// Code for the initializer of an element or field: a truth value is an int in C.
+    fn gen_initializer(
+        &self,
+        init: &HirExpression,
+        ctx: &TypeContext,
+        member_type: Option<&HirType>,
+    ) -> String {
+        let target_type = member_type
+            .filter(|ty| matches!(ty, HirType::Int) && Self::is_boolean_expression(init));
+        self.generate_expression_with_target_type(init, ctx, target_type)
+    }
+
     /// Bind the indices of a modified place that have side effects, so that the place can be
     /// written more than once: the bindings and the place in terms of them.
     pub(crate) fn hoist_indices(
@@ -653,7 +668,7 @@ impl CodeGenerator {
     }
 
     /// Code for the value of a block: a leading block is an operand there, not a statement.
-    fn block_value(code: String) -> String {
+    pub(crate) fn block_value(code: String) -> String {
         if !["unsafe {", "{", "if "].iter().any(|start| code.starts_with(start)) {
             return code;
         }
diff --git a/crates/decy-parser/src/extract/expressions.rs b/crates/decy-parser/src/extract/expressions.rs
index 0ee8190..971246e 100644
--- a/crates/decy-parser/src/extract/expressions.rs
+++ b/crates/decy-parser/src/extract/expressions.rs
@@ -2,6 +2,7 @@
 
 use crate::ast_types::*;
 use clang_sys::*;
+use std::collections::VecDeque;
 use std::ffi::CStr;
 use std::ptr;
 
@@ -735,6 +736,13 @@ pub(crate) extern "C" fn visit_binary_operand(
             }
             CXChildVisit_Continue
         }
+        118 => {
+            // Compound literal (CXCursor_CompoundLiteralExpr)
+            if let Some(expr) = extract_compound_literal(cursor) {
+                operands.push(expr);
+            }
+            CXChildVisit_Continue
+        }
         107 => {
             // Floating-point literal (CXCursor_FloatingLiteral)
             if let Some(expr) = extract_float_literal(cursor) {
@@ -1254,6 +1262,13 @@ pub(crate) extern "C" fn visit_call_argument(
             }
             CXChildVisit_Continue
         }
+        118 => {
+            // Compound literal (CXCursor_CompoundLiteralExpr)
+            if let Some(expr) = extract_compound_literal(cursor) {
+                arg_data.arguments.push(expr);
+            }
+            CXChildVisit_Continue
+        }
         107 => {
             // Floating-point literal (CXCursor_FloatingLiteral)
             if let Some(expr) = extract_float_literal(cursor) {
@@ -1971,22 +1986,167 @@ pub(crate) extern "C" fn visit_conditional_operand(
 
 /// DECY-133: Extract an initializer list expression for struct/array initialization.
 ///
-/// Handles C99 designated initializers like `{.x = 10, .y = 20}` or `{[2] = 100}`.
-/// Clang resolves designated initializers to positional order and inserts ImplicitValueInitExpr
-/// for uninitialized fields.
+/// Handles C99 designated initializers like `{.x = 10, .y = 20}` or `{[2] = 100}` and lists that
+/// leave out the braces of nested arrays and structs. The initializers come out in the order of
+/// the elements or fields, with zeros for those skipped.
 pub(crate) fn extract_init_list(cursor: CXCursor) -> Option<Expression> {
     // SAFETY: Getting the type of the initializer list
     let literal_cx_type = unsafe { clang_getCursorType(cursor) };
-    let literal_type = convert_type(literal_cx_type)?;
+    convert_type(literal_cx_type)?;
 
     // Extract initializer expressions by visiting children
-    let mut initializers: Vec<Expression> = Vec::new();
-    let initializers_ptr = &mut initializers as *mut Vec<Expression>;
+    let mut items: Vec<InitItem> = Vec::new();
+    let items_ptr = &mut items as *mut Vec<InitItem>;
+
+    unsafe {
+        clang_visitChildren(cursor, visit_init_list_children, items_ptr as CXClientData);
+    }
+
+    arrange_initializers(literal_cx_type, &mut items.into_iter().peekable(), true, Vec::new())
+}
+
+/// One initializer of a list.
+pub(crate) struct InitItem {
+    /// What the designators name, outermost first
+    designators: VecDeque<Designator>,
+    /// Whether it has braces of its own
+    braced: bool,
+    /// Kind of its type
+    kind: CXTypeKind,
+    value: Expression,
+}
+
+/// The element or field an initializer is for.
+enum Designator {
+    Element(usize),
+    Field(String),
+}
+
+/// The name of what a cursor declares or refers to.
+fn cursor_name(cursor: CXCursor) -> String {
+    // SAFETY: The string is copied before it is disposed of
+    unsafe {
+        let spelling = clang_getCursorSpelling(cursor);
+        let name = CStr::from_ptr(clang_getCString(spelling)).to_string_lossy().into_owned();
+        clang_disposeString(spelling);
+        name
+    }
+}
 
+/// Value of an integer constant expression.
+fn constant_value(cursor: CXCursor) -> Option<usize> {
+    // SAFETY: The result is checked before use and disposed of afterwards
     unsafe {
-        clang_visitChildren(cursor, visit_init_list_children, initializers_ptr as CXClientData);
+        let result = clang_Cursor_Evaluate(cursor);
+        if result.is_null() {
+            return None;
+        }
+        let is_int = clang_EvalResult_getKind(result) == CXEval_Int;
+        let value = clang_EvalResult_getAsInt(result);
+        clang_EvalResult_dispose(result);
+        usize::try_from(value).ok().filter(|_| is_int)
     }
+}
+
+/// Types of the elements or fields of an array or struct, with the names of fields.
+fn aggregate_members(cx_type: CXType) -> Option<Vec<(CXType, Option<String>)>> {
+    extern "C" fn collect_field(cursor: CXCursor, client_data: CXClientData) -> CXVisitorResult {
+        let fields = unsafe { &mut *(client_data as *mut Vec<(CXType, Option<String>)>) };
+        let name = cursor_name(cursor);
+        fields.push((unsafe { clang_getCursorType(cursor) }, Some(name)));
+        CXVisit_Continue
+    }
+    // SAFETY: The type is valid, and the callback writes to `fields` only
+    unsafe {
+        let canonical = clang_getCanonicalType(cx_type);
+        match canonical.kind {
+            CXType_ConstantArray => {
+                let size = usize::try_from(clang_getArraySize(canonical)).ok()?;
+                Some(vec![(clang_getArrayElementType(canonical), None); size])
+            }
+            CXType_Record => {
+                let mut fields: Vec<(CXType, Option<String>)> = Vec::new();
+                clang_Type_visitFields(canonical, collect_field, &mut fields as *mut _ as _);
+                Some(fields)
+            }
+            _ => None,
+        }
+    }
+}
+
+/// Value of an element or field that a list skips.
+fn zero_initializer(cx_type: CXType) -> Option<Expression> {
+    Some(match convert_type(cx_type)? {
+        Type::Double => Expression::FloatLiteral("0.0".to_string()),
+        target_type @ Type::Float => Expression::Cast {
+            target_type,
+            expr: Box::new(Expression::FloatLiteral("0.0".to_string())),
+        },
+        literal_type @ (Type::Struct(_) | Type::Array { .. }) => {
+            Expression::CompoundLiteral { literal_type, initializers: Vec::new() }
+        }
+        _ => Expression::IntLiteral(0),
+    })
+}
 
+/// Assign the items of a list to the members of an array or struct.
+///
+/// Without braces of its own, the array or struct takes items up to the next designator.
+fn arrange_initializers(
+    cx_type: CXType,
+    items: &mut std::iter::Peekable<std::vec::IntoIter<InitItem>>,
+    braced: bool,
+    mut values: Vec<Option<Expression>>,
+) -> Option<Expression> {
+    let literal_type = convert_type(cx_type)?;
+    let Some(members) = aggregate_members(cx_type) else {
+        let initializers = items.map(|item| item.value).collect();
+        return Some(Expression::CompoundLiteral { literal_type, initializers });
+    };
+    let mut position = 0;
+    let mut first = true;
+    while let Some(item) = items.peek_mut() {
+        if !braced && !first && !item.designators.is_empty() {
+            break;
+        }
+        first = false;
+        if let Some(designator) = item.designators.pop_front() {
+            position = match designator {
+                Designator::Element(index) => index,
+                Designator::Field(field) => {
+                    members.iter().position(|(_, name)| name.as_ref() == Some(&field))?
+                }
+            };
+        }
+        let Some((member_type, _)) = members.get(position) else { break };
+        // SAFETY: The type is valid
+        let member_kind = unsafe { clang_getCanonicalType(*member_type) }.kind;
+        let whole = item.braced || item.kind == member_kind;
+        let nested = !item.designators.is_empty()
+            || (!whole && aggregate_members(*member_type).is_some());
+        let value = if nested {
+            // An earlier item may have set other parts of the member
+            let merged = match values.get(position) {
+                Some(Some(Expression::CompoundLiteral { initializers, .. })) => {
+                    initializers.iter().cloned().map(Some).collect()
+                }
+                _ => Vec::new(),
+            };
+            arrange_initializers(*member_type, items, false, merged)?
+        } else {
+            items.next()?.value
+        };
+        if values.len() <= position {
+            values.resize(position + 1, None);
+        }
+        values[position] = Some(value);
+        position += 1;
+    }
+    let initializers = values
+        .into_iter()
+        .zip(&members)
+        .map(|(value, (member_type, _))| value.or_else(|| zero_initializer(*member_type)))
+        .collect::<Option<Vec<_>>>()?;
     Some(Expression::CompoundLiteral { literal_type, initializers })
 }
 
@@ -1997,85 +2157,54 @@ pub(crate) extern "C" fn visit_init_list_children(
     _parent: CXCursor,
     client_data: CXClientData,
 ) -> CXChildVisitResult {
-    let initializers = unsafe { &mut *(client_data as *mut Vec<Expression>) };
+    let items = unsafe { &mut *(client_data as *mut Vec<InitItem>) };
     let kind = unsafe { clang_getCursorKind(cursor) };
-
-    // Handle ImplicitValueInitExpr (115) - default value for uninitialized fields
-    // This appears when designated initializers skip some fields
-    if kind == 115 {
-        // Get the type to determine the default value
-        let cx_type = unsafe { clang_getCursorType(cursor) };
-        if let Some(var_type) = convert_type(cx_type) {
-            // Generate appropriate default based on type
-            let default_expr = match var_type {
-                Type::Int => Expression::IntLiteral(0),
-                Type::Float | Type::Double => Expression::IntLiteral(0), // Will be cast
-                Type::Char => Expression::IntLiteral(0),
-                _ => Expression::IntLiteral(0), // Fallback
-            };
-            initializers.push(default_expr);
-        }
-        return CXChildVisit_Continue;
-    }
+    let mut push = |designators, of: CXCursor, value| {
+        // SAFETY: The cursor is valid
+        let of_kind = unsafe { clang_getCursorKind(of) };
+        let kind = unsafe { clang_getCanonicalType(clang_getCursorType(of)) }.kind;
+        items.push(InitItem { designators, braced: of_kind == CXCursor_InitListExpr, kind, value });
+    };
 
     if let Some(expr) = extract_float_conversion(cursor) {
-        initializers.push(expr);
+        push(VecDeque::new(), cursor, expr);
         return CXChildVisit_Continue;
     }
 
     // DECY-133b: Handle designated initializers
-    // Array: [idx] = value  → UnexposedExpr with children [IntLiteral(idx), value]
+    // Array: [idx] = value  → UnexposedExpr with children [idx, value]
     // Struct: .field = value → UnexposedExpr with children [MemberRef, value]
     if kind == CXCursor_UnexposedExpr {
-        // Collect cursor kinds and expressions for all children
-        #[repr(C)]
-        struct ChildInfo {
-            kinds: Vec<u32>,
-            exprs: Vec<Expression>,
-        }
-
-        let mut info = ChildInfo { kinds: Vec::new(), exprs: Vec::new() };
-        let info_ptr = &mut info as *mut ChildInfo;
-
-        #[allow(clippy::disallowed_methods)] // .unwrap() after !is_empty() check
-        extern "C" fn collect_child_info(
+        extern "C" fn collect_child(
             cursor: CXCursor,
             _parent: CXCursor,
             client_data: CXClientData,
         ) -> CXChildVisitResult {
-            let info = unsafe { &mut *(client_data as *mut ChildInfo) };
-            let kind = unsafe { clang_getCursorKind(cursor) };
-            info.kinds.push(kind as u32);
-
-            // Try to extract expression, including InitListExpr
-            if kind == 119 {
-                // InitListExpr - extract as CompoundLiteral
-                if let Some(expr) = extract_init_list(cursor) {
-                    info.exprs.push(expr);
-                }
-            } else if let Some(expr) = try_extract_expression(cursor) {
-                info.exprs.push(expr);
-            }
+            unsafe { (*(client_data as *mut Vec<CXCursor>)).push(cursor) };
             CXChildVisit_Continue
         }
-
+        let mut children: Vec<CXCursor> = Vec::new();
         unsafe {
-            clang_visitChildren(cursor, collect_child_info, info_ptr as CXClientData);
+            clang_visitChildren(cursor, collect_child, &mut children as *mut _ as CXClientData);
         }
 
-        // Array designated init: [idx] = value → 2 children, first is IntLiteral
-        if info.exprs.len() == 2 && matches!(&info.exprs[0], Expression::IntLiteral(_)) {
-            initializers.push(info.exprs[1].clone());
-            return CXChildVisit_Continue;
-        }
-
-        // Struct field designated init: .field = value → first kind is MemberRef (47)
-        // Second child is the value (could be InitListExpr or other expression)
-        if info.kinds.len() == 2 && info.kinds[0] == 47 && !info.exprs.is_empty() {
-            // Take the last expression (the value)
-            #[allow(clippy::disallowed_methods)]
-            initializers.push(info.exprs.last().unwrap().clone());
-            return CXChildVisit_Continue;
+        if let [names @ .., value] = &children[..] {
+            let designators: Option<VecDeque<Designator>> = names
+                .iter()
+                .map(|name| {
+                    if unsafe { clang_getCursorKind(*name) } == CXCursor_MemberRef {
+                        Some(Designator::Field(cursor_name(*name)))
+                    } else {
+                        constant_value(*name).map(Designator::Element)
+                    }
+                })
+                .collect();
+            if let (Some(designators), Some(expr), false) =
+                (designators, extract_initializer(*value), names.is_empty())
+            {
+                push(designators, *value, expr);
+                return CXChildVisit_Continue;
+            }
         }
 
         // Not a designated initializer - fall through to recursion
@@ -2084,7 +2213,7 @@ pub(crate) extern "C" fn visit_init_list_children(
 
     // Try to extract any expression as an initializer
     if let Some(expr) = try_extract_expression(cursor) {
-        initializers.push(expr);
+        push(VecDeque::new(), cursor, expr);
         return CXChildVisit_Continue;
     }
 
@@ -2095,6 +2224,11 @@ pub(crate) extern "C" fn visit_init_list_children(
     }
 }
 
+/// Extract the value of a designated initializer.
+fn extract_initializer(cursor: CXCursor) -> Option<Expression> {
+    extract_float_conversion(cursor).or_else(|| try_extract_expression(cursor))
+}
+
 /// Visitor callback to extract initializers from a compound literal.
 pub(crate) extern "C" fn visit_compound_literal_initializers(
     cursor: CXCursor,
@@ -2107,8 +2241,13 @@ pub(crate) extern "C" fn visit_compound_literal_initializers(
     // The compound literal typically has an InitListExpr child
     // CXCursor_InitListExpr = 119
     if kind == 119 {
-        // This is the initializer list - visit its children to get individual initializers
-        return CXChildVisit_Recurse;
+        // This is the initializer list
+        if let Some(Expression::CompoundLiteral { initializers: list, .. }) =
+            extract_init_list(cursor)
+        {
+            *initializers = list;
+        }
+        return CXChildVisit_Break;
     }
 
     // Try to extract any expression as an initializer
-- 
2.43.0


From 110531153240cfdbc1cc28273ddaaa70fdbf2233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:51 +0000
Subject: [PATCH 91/96] fix: comma operator with a global operand or a truth
 value

---
 crates/decy-codegen/src/expr_gen/binary_ops.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/decy-codegen/src/expr_gen/binary_ops.rs b/crates/decy-codegen/src/expr_gen/binary_ops.rs
index 91885d5..d64f897 100644
--- a/crates/decy-codegen/src/expr_gen/binary_ops.rs
+++ b/crates/decy-codegen/src/expr_gen/binary_ops.rs
@@ -87,8 +87,15 @@ impl CodeGenerator {
 
         if matches!(op, BinaryOperator::Comma) {
             let left_code = self.generate_expression_with_context(left, ctx);
-            let right_code = self.generate_expression_with_context(right, ctx);
-            return format!("{{ {}; {} }}", left_code, right_code);
+            // A truth value is an int in C
+            let value_type =
+                if Self::is_boolean_expression(right) { Some(&HirType::Int) } else { target_type };
+            let right_code = self.generate_expression_with_target_type(right, ctx, value_type);
+            return format!(
+                "{{ {}; {} }}",
+                Self::block_value(left_code),
+                Self::block_value(right_code)
+            );
         }
 
         let left_code = self.generate_expression_with_context(left, ctx);
-- 
2.43.0


From 6463c59c3ae44893a757dedaf3e1b2d2b70bd2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:23 +0000
Subject: [PATCH 92/96] fix: number a retrained model after the newest
 registered version

---
 crates/decy-ownership/src/retraining_pipeline.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/decy-ownership/src/retraining_pipeline.rs b/crates/decy-ownership/src/retraining_pipeline.rs
index 4ad7fe2..43c6c7b 100644
--- a/crates/decy-ownership/src/retraining_pipeline.rs
+++ b/crates/decy-ownership/src/retraining_pipeline.rs
@@ -429,9 +429,12 @@ impl<T: ModelTrainer> RetrainingPipeline<T> {
 
         // Promote new model
         let quality_metrics = metrics.to_quality_metrics();
+        // The store takes only versions newer than every registered one, and the
+        // active one need not be the newest
         let next_version = self
             .version_manager
-            .active_version()
+            .versions()
+            .last()
             .map(|e| e.version.bump_minor())
             .unwrap_or_else(|| ModelVersion::new(1, 0, 0));
 
-- 
2.43.0


From 384ffc11dddd53be0ea655a268f340172a596f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:23 +0000
Subject: [PATCH 93/96] fix: find the error code anywhere in a message

---
 crates/decy-core/src/metrics.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/decy-core/src/metrics.rs b/crates/decy-core/src/metrics.rs
index baecd77..a1deda7 100644
--- a/crates/decy-core/src/metrics.rs
+++ b/crates/decy-core/src/metrics.rs
@@ -143,10 +143,11 @@ impl CompileMetrics {
 /// - "some unknown error" -> "UNKNOWN"
 fn extract_error_code(message: &str) -> String {
     // Pattern: E followed by 4 digits
-    if let Some(start) = message.find('E') {
-        let rest = &message[start..];
-        if rest.len() >= 5 && rest[1..5].chars().all(|c| c.is_ascii_digit()) {
-            return rest[..5].to_string();
+    for (start, _) in message.match_indices('E') {
+        if let Some(code) = message.get(start..start + 5) {
+            if code[1..].chars().all(|c| c.is_ascii_digit()) {
+                return code.to_string();
+            }
         }
     }
 
-- 
2.43.0


From aa49263624a61675f8885eadbb87d2e8e0c12c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:20 +0000
Subject: [PATCH 94/96] fix: a local of a loop body does not hide the variable
 the loop steps

---
 crates/decy-core/src/shadowing.rs | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/crates/decy-core/src/shadowing.rs b/crates/decy-core/src/shadowing.rs
index 254feaf..a63ccbd 100644
--- a/crates/decy-core/src/shadowing.rs
+++ b/crates/decy-core/src/shadowing.rs
@@ -2,7 +2,8 @@
 //!
 //! In C a local may have the name of a global. Rust does not allow a local to shadow a
 //! `static`, so such locals get a name of their own before code is generated. The same holds
-//! for locals whose name means something else in Rust.
+//! for locals whose name means something else in Rust, and for locals of a loop body that hide
+//! a variable of the loop's increment: the increment becomes a part of the body.
 
 use decy_hir::{HirExpression, HirFunction, HirStatement, SwitchCase};
 use std::collections::{HashMap, HashSet};
@@ -23,7 +24,7 @@ pub fn rename_shadowing_locals(func: HirFunction, globals: &HashSet<String>) ->
     let mut taken = globals.clone();
     taken.extend(func.parameters().iter().map(|p| p.name().to_string()));
     collect_declared(func.body(), &mut taken);
-    let names = &Names { globals, taken };
+    let names = &Names { globals, taken, increments: Vec::new() };
     let mut scope: Scope = HashMap::new();
     let parameters = func
         .parameters()
@@ -44,10 +45,20 @@ pub fn rename_shadowing_locals(func: HirFunction, globals: &HashSet<String>) ->
     result
 }
 
-/// The names of the globals, and all names that are in use.
+/// The names of the globals, all names that are in use, and the increments of the loops around.
 struct Names<'a> {
     globals: &'a HashSet<String>,
     taken: HashSet<String>,
+    increments: Vec<HirStatement>,
+}
+
+impl Names<'_> {
+    /// Whether the increment of an enclosing loop refers to a variable of that name.
+    fn in_increment(&self, name: &str) -> bool {
+        let mut scope = Scope::from([(name.to_string(), String::new())]);
+        let names = Names { globals: self.globals, taken: HashSet::new(), increments: Vec::new() };
+        self.increments.iter().any(|s| rename_statement(s, &names, &mut scope) != *s)
+    }
 }
 
 /// Add the names of all variables a block declares, in nested blocks too.
@@ -79,7 +90,10 @@ fn collect_declared(block: &[HirStatement], taken: &mut HashSet<String>) {
 type Scope = HashMap<String, String>;
 
 fn declare(name: &str, names: &Names, scope: &mut Scope) -> Option<String> {
-    if !names.globals.contains(name) && !RESERVED.contains(&name) {
+    if !names.globals.contains(name)
+        && !RESERVED.contains(&name)
+        && !names.in_increment(name)
+    {
         return None;
     }
     let mut renamed = format!("{}_local", name);
@@ -133,11 +147,15 @@ fn rename_statement(
         },
         HirStatement::For { init, condition, increment, body } => {
             let mut inner = scope.clone();
+            let init = init.iter().map(|s| rename_statement(s, names, &mut inner)).collect();
+            let mut taken = names.taken.clone();
+            taken.extend(inner.values().cloned());
+            let increments = [names.increments.as_slice(), increment.as_slice()].concat();
             HirStatement::For {
-                init: init.iter().map(|s| rename_statement(s, names, &mut inner)).collect(),
+                init,
                 condition: condition.as_ref().map(|e| rename_expr(e, &inner)),
                 increment: rename_block(increment, names, &inner),
-                body: rename_block(body, names, &inner),
+                body: rename_block(body, &Names { taken, increments, ..*names }, &inner),
             }
         }
         HirStatement::Switch { condition, cases, default_case } => HirStatement::Switch {
-- 
2.43.0


From 62e21ad50b133e3fbed5c7356dcfd0f1734f624e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:20 +0000
Subject: [PATCH 95/96] fix: a redeclared global keeps its initializer

---
 crates/decy-core/src/lib.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/crates/decy-core/src/lib.rs b/crates/decy-core/src/lib.rs
index a6a62f8..a9aff5e 100644
--- a/crates/decy-core/src/lib.rs
+++ b/crates/decy-core/src/lib.rs
@@ -1092,6 +1092,18 @@ fn generate_global_variable_code(
     global_vars
 }
 
+/// Whether a global has an initializer: on an array, anything but a list or a string is its size.
+fn is_initialized(variable: &decy_parser::Variable) -> bool {
+    use decy_parser::{Expression, Type};
+    match (variable.var_type(), variable.initializer()) {
+        (Type::Array { .. }, Some(initializer)) => matches!(
+            initializer,
+            Expression::CompoundLiteral { .. } | Expression::StringLiteral(_)
+        ),
+        (_, initializer) => initializer.is_some(),
+    }
+}
+
 fn build_all_function_sigs(
     transformed_functions: &[(HirFunction, decy_ownership::lifetime_gen::AnnotatedSignature)],
 ) -> Vec<(String, Vec<decy_hir::HirType>)> {
@@ -1205,7 +1217,9 @@ pub fn transpile_with_includes(c_code: &str, base_dir: Option<&Path>) -> Result<
 
     // Convert global variables to HIR (DECY-054)
     // DECY-223: Filter out extern references (they refer to existing globals, not new definitions)
-    // Also deduplicate by name (first definition wins)
+    // Also deduplicate by name (the definition with an initializer wins, else the first)
+    let initialized_globals: std::collections::HashSet<&str> =
+        ast.variables().iter().filter(|v| is_initialized(v)).map(|v| v.name()).collect();
     let mut seen_globals: std::collections::HashSet<String> = std::collections::HashSet::new();
     let hir_variables: Vec<decy_hir::HirStatement> = ast
         .variables()
@@ -1215,7 +1229,11 @@ pub fn transpile_with_includes(c_code: &str, base_dir: Option<&Path>) -> Result<
             // extern int max; → skip (reference)
             // int max = 0; → keep (definition)
             // extern int max = 0; → keep (definition with extern linkage)
-            if v.is_extern() && v.initializer().is_none() {
+            if v.is_extern() && !is_initialized(v) {
+                return false;
+            }
+            // A tentative definition only counts if there is no other
+            if !is_initialized(v) && initialized_globals.contains(v.name()) {
                 return false;
             }
             // Deduplicate by name
-- 
2.43.0


From 87b8de71bf4f4644e1d1dcfe509c81f5e09c0239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:22 +0000
Subject: [PATCH 96/96] fix: continue in a switch in a do-while loop tests the
 loop's condition

---
 crates/decy-codegen/src/lib.rs      |  3 ++
 crates/decy-codegen/src/stmt_gen.rs | 67 ++++++++++-------------------
 2 files changed, 25 insertions(+), 45 deletions(-)

diff --git a/crates/decy-codegen/src/lib.rs b/crates/decy-codegen/src/lib.rs
index af2ec88..2efa296 100644
--- a/crates/decy-codegen/src/lib.rs
+++ b/crates/decy-codegen/src/lib.rs
@@ -65,6 +65,8 @@ struct TypeContext {
     globals: std::collections::HashSet<String>,
     // DECY-245: Track locals renamed to avoid shadowing statics (original_name -> renamed_name)
     renamed_locals: HashMap<String, String>,
+    // What a `continue` of the current loop has to run before the next test
+    loop_increment: Vec<decy_hir::HirStatement>,
 }
 
 impl TypeContext {
@@ -78,6 +80,7 @@ impl TypeContext {
             string_iter_funcs: HashMap::new(),
             globals: std::collections::HashSet::new(),
             renamed_locals: HashMap::new(),
+            loop_increment: Vec::new(),
         }
     }
 
diff --git a/crates/decy-codegen/src/stmt_gen.rs b/crates/decy-codegen/src/stmt_gen.rs
index 0bc4c23..e9bb508 100644
--- a/crates/decy-codegen/src/stmt_gen.rs
+++ b/crates/decy-codegen/src/stmt_gen.rs
@@ -114,7 +114,21 @@ impl CodeGenerator {
                 self.generate_while_statement(condition, body, function_name, ctx, return_type)
             }
             HirStatement::Break => "break;".to_string(),
-            HirStatement::Continue => "continue;".to_string(),
+            HirStatement::Continue => {
+                // `continue` still runs the increment of a for loop
+                let mut code = String::new();
+                for stmt in &ctx.loop_increment.clone() {
+                    code.push_str(&self.generate_statement_with_context(
+                        stmt,
+                        function_name,
+                        ctx,
+                        return_type,
+                    ));
+                    code.push('\n');
+                }
+                code.push_str("continue;");
+                code
+            }
             HirStatement::Assignment { target, value } => {
                 self.generate_assignment_statement(target, value, ctx)
             }
@@ -582,6 +596,7 @@ impl CodeGenerator {
         code.push_str(&format!("while {} {{\n", cond_str));
 
         // Generate loop body
+        let outer_increment = std::mem::take(&mut ctx.loop_increment);
         for stmt in body {
             code.push_str("    ");
             code.push_str(&self.generate_statement_with_context(
@@ -593,6 +608,8 @@ impl CodeGenerator {
             code.push('\n');
         }
 
+        ctx.loop_increment = outer_increment;
+
         code.push('}');
         code
     }
@@ -701,46 +718,6 @@ impl CodeGenerator {
         }
     }
 
-    /// Insert a for loop's increment before every `continue` that belongs to that loop.
-    fn increment_before_continue(
-        body: &[HirStatement],
-        increment: &[HirStatement],
-    ) -> Vec<HirStatement> {
-        let nested = |block: &[HirStatement]| Self::increment_before_continue(block, increment);
-        let mut result = Vec::with_capacity(body.len());
-        for stmt in body {
-            match stmt {
-                HirStatement::Continue => {
-                    result.extend(increment.iter().cloned());
-                    result.push(HirStatement::Continue);
-                }
-                HirStatement::If { condition, then_block, else_block } => {
-                    result.push(HirStatement::If {
-                        condition: condition.clone(),
-                        then_block: nested(then_block),
-                        else_block: else_block.as_deref().map(nested),
-                    });
-                }
-                HirStatement::Switch { condition, cases, default_case } => {
-                    result.push(HirStatement::Switch {
-                        condition: condition.clone(),
-                        cases: cases
-                            .iter()
-                            .map(|case| decy_hir::SwitchCase {
-                                value: case.value.clone(),
-                                body: nested(&case.body),
-                            })
-                            .collect(),
-                        default_case: default_case.as_deref().map(nested),
-                    });
-                }
-                // A nested loop owns its `continue` statements
-                other => result.push(other.clone()),
-            }
-        }
-        result
-    }
-
     /// Generate a for statement.
     #[allow(clippy::too_many_arguments)]
     fn generate_for_statement(
@@ -795,11 +772,9 @@ impl CodeGenerator {
             code.push_str("loop {\n");
         }
 
-        // `continue` still runs the increment before the next test
-        let body = Self::increment_before_continue(body, increment);
-
         // Generate loop body
-        for stmt in &body {
+        let outer_increment = std::mem::replace(&mut ctx.loop_increment, increment.to_vec());
+        for stmt in body {
             code.push_str("    ");
             code.push_str(&self.generate_statement_with_context(
                 stmt,
@@ -810,6 +785,8 @@ impl CodeGenerator {
             code.push('\n');
         }
 
+        ctx.loop_increment = outer_increment;
+
         // DECY-224: Generate ALL increment statements at end of body
         for inc_stmt in increment {
             code.push_str("    ");
-- 
2.43.0

