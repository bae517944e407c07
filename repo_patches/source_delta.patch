From c4a670ba99b6c57fb24736e6b07108ba138e7869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:12 +0000
Subject: [PATCH 01/68] verif hook: box recursive parser combinators under
 cfg(cairo_m_vp)

With the cfg off nothing changes. With it on, type erasure of a dozen
sub-parsers cuts the compile time of this crate from minutes to seconds,
so that checks can rebuild it from scratch.
---
 crates/compiler/parser/src/parser.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/crates/compiler/parser/src/parser.rs b/crates/compiler/parser/src/parser.rs
index 2ecc2c8..94e5692 100644
--- a/crates/compiler/parser/src/parser.rs
+++ b/crates/compiler/parser/src/parser.rs
@@ -736,6 +736,8 @@ where
                     span,
                 )
             });
+        #[cfg(cairo_m_vp)]
+        let array_type = array_type.boxed();
 
         let base_type = named_type.or(array_type).or(tuple_type);
 
@@ -974,6 +976,8 @@ where
             .or(array_literal)
             .or(ident_expr)
             .or(paren_or_tuple);
+        #[cfg(cairo_m_vp)]
+        let atom = atom.boxed();
 
         // Postfix operations (left-associative): function calls, member access, indexing
         let postfix_op = choice((
@@ -1071,6 +1075,8 @@ where
                 )
             }
         });
+        #[cfg(cairo_m_vp)]
+        let call = call.boxed();
 
         // Helper to create binary operator parsers
         let op = |token, op| just(token).to(op);
@@ -1118,6 +1124,8 @@ where
                 )
             },
         );
+        #[cfg(cairo_m_vp)]
+        let cast = cast.boxed();
 
         // Multiplicative operators: *, /, % (left-associative)
         let mul = cast.clone().foldl(
@@ -1167,6 +1175,8 @@ where
                 )
             },
         );
+        #[cfg(cairo_m_vp)]
+        let add = add.boxed();
 
         // Comparison operators: ==, !=, <, >, <=, >= (left-associative)
         let cmp = add.clone().foldl(
@@ -1218,6 +1228,8 @@ where
                 )
             },
         );
+        #[cfg(cairo_m_vp)]
+        let bitwise = bitwise.boxed();
 
         // Logical operators: &&, || (left-associative)
         bitwise.clone().foldl(
@@ -1315,6 +1327,8 @@ where
                 value,
             })
             .map_with(|stmt, extra| Spanned::new(stmt, extra.span()));
+        #[cfg(cairo_m_vp)]
+        let let_stmt = let_stmt.boxed();
 
         // Const statement: const NAME = expression;
         let const_stmt = just(TokenType::Const)
@@ -1329,6 +1343,8 @@ where
             .then_ignore(just(TokenType::Semicolon)) // ignore ';'
             .map(|((name, ty), value)| Statement::Const(ConstDef { name, ty, value }))
             .map_with(|stmt, extra| Spanned::new(stmt, extra.span()));
+        #[cfg(cairo_m_vp)]
+        let const_stmt = const_stmt.boxed();
 
         // If statement: supports both `if (cond) { ... }` and `if cond { ... }`
         let if_condition = choice((
@@ -1351,6 +1367,8 @@ where
                 else_block: else_block.map(Box::new),
             })
             .map_with(|stmt, extra| Spanned::new(stmt, extra.span()));
+        #[cfg(cairo_m_vp)]
+        let if_stmt = if_stmt.boxed();
 
         // Return statement: return expression; or return;
         let return_stmt = just(TokenType::Return)
@@ -1382,6 +1400,8 @@ where
                 body: Box::new(body),
             })
             .map_with(|stmt, extra| Spanned::new(stmt, extra.span()));
+        #[cfg(cairo_m_vp)]
+        let while_stmt = while_stmt.boxed();
 
         // --- Helpers for C-style `for` loop parts ---
         // init: either a `let` declaration or an assignment/expression, and MUST end with ';'
@@ -1443,6 +1463,8 @@ where
                 body: Box::new(body),
             })
             .map_with(|stmt, extra| Spanned::new(stmt, extra.span()));
+        #[cfg(cairo_m_vp)]
+        let for_stmt = for_stmt.boxed();
 
         // Break statement: break;
         let break_stmt = just(TokenType::Break)
@@ -1466,6 +1488,8 @@ where
                 None => Statement::Expression(lhs),
             })
             .map_with(|stmt, extra| Spanned::new(stmt, extra.span()));
+        #[cfg(cairo_m_vp)]
+        let assignment_or_expr = assignment_or_expr.boxed();
 
         // Try statement alternatives in order
         block
-- 
2.43.0


From 48f860a45cbee5faa98ff249c8f697cc2ac01eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:16 +0000
Subject: [PATCH 02/68] fix: parse `if (a) == b { .. }` as a bare condition

A condition that starts with a parenthesized operand was committed to the
parenthesized form, so the operator after it was a syntax error. The
parenthesized form is now chosen only when no operator follows.
---
 crates/compiler/parser/src/parser.rs | 29 ++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/crates/compiler/parser/src/parser.rs b/crates/compiler/parser/src/parser.rs
index 94e5692..eff546c 100644
--- a/crates/compiler/parser/src/parser.rs
+++ b/crates/compiler/parser/src/parser.rs
@@ -1346,10 +1346,34 @@ where
         #[cfg(cairo_m_vp)]
         let const_stmt = const_stmt.boxed();
 
+        // A condition whose leading parentheses are followed by one of these tokens is a bare
+        // expression that starts with a parenthesized operand, e.g. `if (a) == b { ... }`
+        let operator = one_of([
+            TokenType::EqEq,
+            TokenType::Neq,
+            TokenType::Less,
+            TokenType::Greater,
+            TokenType::LessEqual,
+            TokenType::GreaterEqual,
+            TokenType::AndAnd,
+            TokenType::OrOr,
+            TokenType::BitwiseAnd,
+            TokenType::BitwiseOr,
+            TokenType::BitwiseXor,
+            TokenType::Plus,
+            TokenType::Minus,
+            TokenType::Mul,
+            TokenType::Div,
+            TokenType::Mod,
+            TokenType::As,
+            TokenType::Dot,
+        ]);
+
         // If statement: supports both `if (cond) { ... }` and `if cond { ... }`
         let if_condition = choice((
             expr.clone()
-                .delimited_by(just(TokenType::LParen), just(TokenType::RParen)), // condition in parens
+                .delimited_by(just(TokenType::LParen), just(TokenType::RParen))
+                .then_ignore(operator.not()), // condition in parens
             expr.clone(), // bare condition
         ));
 
@@ -1388,7 +1412,8 @@ where
         // While statement: supports both `while (cond) { ... }` and `while cond { ... }`
         let while_condition = choice((
             expr.clone()
-                .delimited_by(just(TokenType::LParen), just(TokenType::RParen)), // condition in parens
+                .delimited_by(just(TokenType::LParen), just(TokenType::RParen))
+                .then_ignore(operator.not()), // condition in parens
             expr.clone(), // bare condition
         ));
 
-- 
2.43.0


From eaba853766c627345b41940175d5e26f45f1750c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:18 +0000
Subject: [PATCH 03/68] fix: parse nested array expressions in linear time

An array expression was first tried as a repetition `[e; n]` and then
parsed again from its start as a literal `[e, ..]`, so nested arrays took
time exponential in their nesting depth.
---
 crates/compiler/parser/src/parser.rs | 74 +++++++++++++++++-----------
 1 file changed, 45 insertions(+), 29 deletions(-)

diff --git a/crates/compiler/parser/src/parser.rs b/crates/compiler/parser/src/parser.rs
index eff546c..1544f08 100644
--- a/crates/compiler/parser/src/parser.rs
+++ b/crates/compiler/parser/src/parser.rs
@@ -526,6 +526,13 @@ enum ParenTail {
     Tuple(Vec<Spanned<Expression>>), // (e, rest..., [trailing ,]) )
 }
 
+/// What follows the first element of an array expression
+#[derive(Debug, Clone)]
+enum ArrayTail {
+    Elements(Vec<Spanned<Expression>>), // [e, rest..., [trailing ,]]
+    Repeat(Spanned<u64>),               // [e; n]
+}
+
 /// Wrapper for the parsed AST result.
 ///
 /// This follows the Salsa best practice of caching the entire parse result
@@ -931,40 +938,50 @@ where
             )
             .map_with(|expr, extra| Spanned::new(expr, extra.span()));
 
-        // Array repetition expressions: "[expr; UNSUFFIXED_INT]"
-        let array_repeat = just(TokenType::LBrack)
-            .ignore_then(
-                expr.clone().then_ignore(just(TokenType::Semicolon)).then(
-                    select! { TokenType::LiteralNumber(lit) => lit }
-                        .map_with(|lit, extra| Spanned::new(lit, extra.span())),
-                ),
-            )
-            .then_ignore(just(TokenType::RBrack))
-            .try_map_with(|(element, lit_spanned), extra| {
-                if lit_spanned.value().suffix.is_some() {
+        // Length of an array repetition: UNSUFFIXED_INT
+        let array_length =
+            select! { TokenType::LiteralNumber(lit) => lit }.try_map_with(|lit, extra| {
+                if lit.suffix.is_some() {
                     Err(Rich::custom(
-                        lit_spanned.span(),
+                        extra.span(),
                         "array length must be an unsuffixed integer",
                     ))
                 } else {
-                    Ok(Spanned::new(
-                        Expression::ArrayRepeat {
-                            element: Box::new(element),
-                            count: Spanned::new(lit_spanned.value().value, lit_spanned.span()),
-                        },
-                        extra.span(),
-                    ))
+                    Ok(Spanned::new(lit.value, extra.span()))
                 }
             });
 
-        // Array literal expressions: "[elem1, elem2, elem3]"
-        let array_literal = expr
-            .clone()
-            .separated_by(just(TokenType::Comma))
-            .allow_trailing()
-            .collect::<Vec<_>>()
-            .delimited_by(just(TokenType::LBrack), just(TokenType::RBrack))
-            .map(Expression::ArrayLiteral)
+        // Array expressions: "[elem1, elem2, elem3]" or "[expr; UNSUFFIXED_INT]". What follows the
+        // first element tells them apart, so that it is parsed only once.
+        let array = just(TokenType::LBrack)
+            .ignore_then(
+                just(TokenType::RBrack)
+                    .to(Expression::ArrayLiteral(vec![]))
+                    .or(expr
+                        .clone()
+                        .then(choice((
+                            just(TokenType::Semicolon)
+                                .ignore_then(array_length)
+                                .map(ArrayTail::Repeat),
+                            just(TokenType::Comma)
+                                .ignore_then(expr.clone())
+                                .repeated()
+                                .collect::<Vec<_>>()
+                                .then_ignore(just(TokenType::Comma).or_not())
+                                .map(ArrayTail::Elements),
+                        )))
+                        .then_ignore(just(TokenType::RBrack))
+                        .map(|(first, tail)| match tail {
+                            ArrayTail::Repeat(count) => Expression::ArrayRepeat {
+                                element: Box::new(first),
+                                count,
+                            },
+                            ArrayTail::Elements(mut rest) => {
+                                rest.insert(0, first);
+                                Expression::ArrayLiteral(rest)
+                            }
+                        })),
+            )
             .map_with(|expr, extra| Spanned::new(expr, extra.span()));
 
         // Basic atomic expressions - try each alternative in order
@@ -972,8 +989,7 @@ where
             .or(boolean_literal)
             .or(new_expr)
             .or(struct_literal)
-            .or(array_repeat.clone())
-            .or(array_literal)
+            .or(array)
             .or(ident_expr)
             .or(paren_or_tuple);
         #[cfg(cairo_m_vp)]
-- 
2.43.0


From dd9ed150f55829f75b57ca97a625dbc4698e2766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:22 +0000
Subject: [PATCH 04/68] fix: keep the type annotation of constants when
 formatting

---
 crates/compiler/formatter/src/rules/items.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/crates/compiler/formatter/src/rules/items.rs b/crates/compiler/formatter/src/rules/items.rs
index beaed17..13c2a17 100644
--- a/crates/compiler/formatter/src/rules/items.rs
+++ b/crates/compiler/formatter/src/rules/items.rs
@@ -145,14 +145,22 @@ impl Format for StructDef {
 
 impl Format for ConstDef {
     fn format(&self, ctx: &mut FormatterCtx) -> Doc {
-        Doc::concat(vec![
+        let mut parts = vec![
             Doc::text("const"),
             Doc::text(" "),
             Doc::text(self.name.value()),
-            Doc::text(" = "),
-            self.value.value().format(ctx),
-            Doc::text(";"),
-        ])
+        ];
+
+        if let Some(ty) = &self.ty {
+            parts.push(Doc::text(": "));
+            parts.push(ty.value().format(ctx));
+        }
+
+        parts.push(Doc::text(" = "));
+        parts.push(self.value.value().format(ctx));
+        parts.push(Doc::text(";"));
+
+        Doc::concat(parts)
     }
 }
 
-- 
2.43.0


From 46a7696b4e13d44b231ede33379c057495f147d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:23 +0000
Subject: [PATCH 05/68] fix: keep the comma of one-element tuples when
 formatting

---
 crates/compiler/formatter/src/rules/expressions.rs |  2 +-
 crates/compiler/formatter/src/rules/types.rs       |  2 +-
 crates/compiler/formatter/src/utils.rs             | 11 +++++++++++
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/crates/compiler/formatter/src/rules/expressions.rs b/crates/compiler/formatter/src/rules/expressions.rs
index b9cce2e..a57c6eb 100644
--- a/crates/compiler/formatter/src/rules/expressions.rs
+++ b/crates/compiler/formatter/src/rules/expressions.rs
@@ -54,7 +54,7 @@ impl Format for Expression {
                     .iter()
                     .map(|e| e.value().format(ctx))
                     .collect::<Vec<_>>();
-                parens(comma_separated(elem_docs))
+                tuple(elem_docs)
             }
             Self::StructLiteral { name, fields } => {
                 let field_docs = fields
diff --git a/crates/compiler/formatter/src/rules/types.rs b/crates/compiler/formatter/src/rules/types.rs
index fe4e90f..2b23ce4 100644
--- a/crates/compiler/formatter/src/rules/types.rs
+++ b/crates/compiler/formatter/src/rules/types.rs
@@ -15,7 +15,7 @@ impl Format for TypeExpr {
                     .iter()
                     .map(|t| t.value().format(ctx))
                     .collect::<Vec<_>>();
-                parens(comma_separated(type_docs))
+                tuple(type_docs)
             }
             Self::FixedArray { element_type, size } => Doc::concat(vec![
                 Doc::text("["),
diff --git a/crates/compiler/formatter/src/utils.rs b/crates/compiler/formatter/src/utils.rs
index e04c7dd..4b5492e 100644
--- a/crates/compiler/formatter/src/utils.rs
+++ b/crates/compiler/formatter/src/utils.rs
@@ -15,6 +15,17 @@ pub fn parens(inner: Doc) -> Doc {
     Doc::concat(vec![Doc::text("("), inner, Doc::text(")")])
 }
 
+/// Helper function to format the elements of a tuple; a single element keeps the comma that
+/// distinguishes `(x,)` from a parenthesized `(x)`
+pub fn tuple(items: Vec<Doc>) -> Doc {
+    let is_single = items.len() == 1;
+    let mut inner = vec![comma_separated(items)];
+    if is_single {
+        inner.push(Doc::text(","));
+    }
+    parens(Doc::concat(inner))
+}
+
 /// Helper function to wrap in braces
 pub fn braces(inner: Doc) -> Doc {
     Doc::concat(vec![Doc::text("{"), inner, Doc::text("}")])
-- 
2.43.0


From 2cb4316515a40c3afd737176c8c56b6b3ff1dd2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:23 +0000
Subject: [PATCH 06/68] fix: format `use name;` without a leading `::`

---
 crates/compiler/formatter/src/rules/items.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/compiler/formatter/src/rules/items.rs b/crates/compiler/formatter/src/rules/items.rs
index 13c2a17..2aebcae 100644
--- a/crates/compiler/formatter/src/rules/items.rs
+++ b/crates/compiler/formatter/src/rules/items.rs
@@ -175,8 +175,10 @@ impl Format for UseStmt {
             .map(|p| p.value().as_str())
             .collect::<Vec<_>>()
             .join("::");
-        parts.push(Doc::text(path_str));
-        parts.push(Doc::text("::"));
+        if !self.path.is_empty() {
+            parts.push(Doc::text(path_str));
+            parts.push(Doc::text("::"));
+        }
 
         // Format the items
         match &self.items {
-- 
2.43.0


From 7e53b5060f34045f8185de128752bab7441f7419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:47 +0000
Subject: [PATCH 07/68] fix: keep the parentheses of a condition where its
 meaning needs them

The formatter dropped the parentheses around every `if` and `while`
condition, so that `if (x) {}`, `if ((a) == (b)) ..` or `if (a) (b);`
came out as a different or an invalid program, or not stable.
---
 .../formatter/src/rules/statements.rs         | 51 +++++++++++++++++--
 1 file changed, 48 insertions(+), 3 deletions(-)

diff --git a/crates/compiler/formatter/src/rules/statements.rs b/crates/compiler/formatter/src/rules/statements.rs
index 4f989a5..c3d5b35 100644
--- a/crates/compiler/formatter/src/rules/statements.rs
+++ b/crates/compiler/formatter/src/rules/statements.rs
@@ -1,8 +1,53 @@
-use cairo_m_compiler_parser::parser::{Pattern, Spanned, Statement};
+use cairo_m_compiler_parser::parser::{Expression, Pattern, Spanned, Statement};
 
 use crate::Format;
 use crate::context::FormatterCtx;
 use crate::doc::Doc;
+use crate::utils::parens;
+
+/// Format the condition of an `if` or `while`. It is written without the optional parentheses,
+/// unless the text would then read differently.
+fn format_condition(
+    condition: &Spanned<Expression>,
+    body: &Spanned<Statement>,
+    ctx: &mut FormatterCtx,
+) -> Doc {
+    let doc = condition.value().format(ctx);
+    let needs_parens = match body.value() {
+        // `if x {}` reads as the struct literal `x {}`
+        Statement::Block(statements) if statements.is_empty() => {
+            starts_with_paren(condition.value()) || ends_with_identifier(condition.value())
+        }
+        Statement::Block(_) => starts_with_paren(condition.value()),
+        // `if a (b);` reads as the call `a(b)`
+        _ => true,
+    };
+    if needs_parens { parens(doc) } else { doc }
+}
+
+/// Whether the text of the expression starts with an opening parenthesis
+fn starts_with_paren(expr: &Expression) -> bool {
+    match expr {
+        Expression::Parenthesized(_) | Expression::Tuple(_) => true,
+        Expression::BinaryOp { left, .. } => starts_with_paren(left.value()),
+        Expression::Cast { expr, .. } => starts_with_paren(expr.value()),
+        Expression::FunctionCall { callee, .. } => starts_with_paren(callee.value()),
+        Expression::IndexAccess { array, .. } => starts_with_paren(array.value()),
+        Expression::MemberAccess { object, .. } => starts_with_paren(object.value()),
+        Expression::TupleIndex { tuple, .. } => starts_with_paren(tuple.value()),
+        _ => false,
+    }
+}
+
+/// Whether the text of the expression ends with an identifier that names a value
+fn ends_with_identifier(expr: &Expression) -> bool {
+    match expr {
+        Expression::Identifier(_) => true,
+        Expression::BinaryOp { right, .. } => ends_with_identifier(right.value()),
+        Expression::UnaryOp { expr, .. } => ends_with_identifier(expr.value()),
+        _ => false,
+    }
+}
 
 // Implement Format for Spanned<Statement> to handle comments
 impl Format for Spanned<Statement> {
@@ -74,7 +119,7 @@ impl Format for Statement {
                 let mut parts = vec![
                     Doc::text("if"),
                     Doc::text(" "),
-                    condition.value().format(ctx),
+                    format_condition(condition, then_block, ctx),
                     Doc::text(" "),
                     then_block.value().format(ctx),
                 ];
@@ -112,7 +157,7 @@ impl Format for Statement {
             Self::While { condition, body } => Doc::concat(vec![
                 Doc::text("while"),
                 Doc::text(" "),
-                condition.value().format(ctx),
+                format_condition(condition, body, ctx),
                 Doc::text(" "),
                 body.value().format(ctx),
             ]),
-- 
2.43.0


From 4898f7b6788ad7f08dabfa192d9484368f1afaff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:41 +0000
Subject: [PATCH 08/68] fix: keep every comment when formatting

Comments inside nested blocks, struct bodies and after the last item were
dropped, and comments inside expressions were attached to nodes that print
none. Attach comments to items, fields and statements only, print them for
nested blocks too, and leave the text alone when one cannot be kept.
---
 crates/compiler/formatter/src/api.rs          |  12 +-
 .../formatter/src/comment_attachment.rs       | 167 ++++--------------
 crates/compiler/formatter/src/context.rs      |  18 ++
 crates/compiler/formatter/src/lib.rs          |   1 -
 crates/compiler/formatter/src/rules/items.rs  |  26 +--
 .../formatter/src/rules/statements.rs         |  20 +--
 .../formatter/src/simple_comment_preserver.rs |  43 -----
 crates/compiler/formatter/src/trivia.rs       |  40 ++++-
 8 files changed, 109 insertions(+), 218 deletions(-)
 delete mode 100644 crates/compiler/formatter/src/simple_comment_preserver.rs

diff --git a/crates/compiler/formatter/src/api.rs b/crates/compiler/formatter/src/api.rs
index 60d4d79..bcecbd7 100644
--- a/crates/compiler/formatter/src/api.rs
+++ b/crates/compiler/formatter/src/api.rs
@@ -5,7 +5,7 @@ use crate::Format;
 use crate::comment_attachment::attach_comments_to_ast;
 use crate::config::FormatterConfig;
 use crate::context::FormatterCtx;
-use crate::simple_comment_preserver::format_with_comments;
+use crate::trivia::comments_in_context;
 
 /// Format a source file
 pub fn format_source_file(
@@ -32,15 +32,19 @@ pub fn format_parsed_module(
 ) -> String {
     let mut ctx = FormatterCtx::new(cfg, original_text);
 
-    // Attach comments to AST nodes (excludes file-level comments)
+    // Attach comments to AST nodes
     let comment_buckets = attach_comments_to_ast(module, original_text);
     ctx.set_comments(comment_buckets);
 
     let doc = module.format(&mut ctx);
     let formatted = doc.render(cfg.max_width);
 
-    // Apply file-level comment preservation
-    format_with_comments(&formatted, original_text)
+    // Never lose or misplace a comment: leave the text alone if some comment cannot be kept
+    if comments_in_context(&formatted) != comments_in_context(original_text) {
+        return original_text.to_string();
+    }
+
+    formatted
 }
 
 /// Format a range within a source file
diff --git a/crates/compiler/formatter/src/comment_attachment.rs b/crates/compiler/formatter/src/comment_attachment.rs
index 537c198..54966fc 100644
--- a/crates/compiler/formatter/src/comment_attachment.rs
+++ b/crates/compiler/formatter/src/comment_attachment.rs
@@ -1,5 +1,5 @@
 use cairo_m_compiler_parser::parser::{
-    Expression, FunctionDef, ParsedModule, Statement, TopLevelItem,
+    FunctionDef, ParsedModule, Spanned, Statement, TopLevelItem, TypeExpr,
 };
 use chumsky::span::SimpleSpan;
 
@@ -31,47 +31,15 @@ pub fn attach_comments_to_ast(module: &ParsedModule, source: &str) -> CommentBuc
     // Sort spans by start position for efficient attachment
     node_spans.sort_by_key(|span| span.start);
 
-    // Find the first code position (non-comment, non-whitespace)
-    let first_code_pos = source
-        .lines()
-        .enumerate()
-        .find(|(_, line)| {
-            let trimmed = line.trim();
-            !trimmed.is_empty() && !trimmed.starts_with("//")
-        })
-        .map(|(line_num, _)| {
-            source
-                .lines()
-                .take(line_num)
-                .map(|l| l.len() + 1)
-                .sum::<usize>()
-                .saturating_sub(1)
-        })
-        .unwrap_or(0);
-
     // For each comment, find the best node to attach it to
     for comment in comments {
-        // Skip file-level comments (before first code)
-        if comment.span.start < first_code_pos {
-            continue;
-        }
-
-        if let Some(node_span) = find_best_attachment(&comment, &node_spans, source) {
-            match determine_comment_position(comment.span, node_span, source) {
-                Some(CommentPosition::Before) => {
-                    buckets.add_leading(node_span, comment);
-                }
-                Some(CommentPosition::EndOfLine) => {
-                    buckets.add_trailing(node_span, comment);
-                }
-                Some(CommentPosition::After) => {
-                    buckets.add_trailing(node_span, comment);
-                }
-                None => {
-                    // Orphaned comment - attach to nearest node
-                    if let Some(nearest) = find_nearest_node(&comment, &node_spans) {
-                        buckets.add_leading(nearest, comment);
-                    }
+        match find_best_attachment(&comment, &node_spans, source) {
+            Some((node_span, CommentPosition::Before)) => buckets.add_leading(node_span, comment),
+            Some((node_span, _)) => buckets.add_trailing(node_span, comment),
+            None => {
+                // Not next to any node - keep it after the code it follows
+                if let Some(preceding) = find_preceding_node(&comment, &node_spans) {
+                    buckets.add_trailing(preceding, comment);
                 }
             }
         }
@@ -95,6 +63,7 @@ fn collect_item_spans(item: &TopLevelItem, spans: &mut Vec<SimpleSpan<usize>>) {
         }
         TopLevelItem::Struct(s) => {
             spans.push(s.span());
+            spans.extend(s.value().fields.iter().map(struct_field_span));
         }
         TopLevelItem::Const(c) => {
             spans.push(c.span());
@@ -105,6 +74,13 @@ fn collect_item_spans(item: &TopLevelItem, spans: &mut Vec<SimpleSpan<usize>>) {
     }
 }
 
+/// The span of a struct field, from its name to the end of its type
+pub(crate) fn struct_field_span(
+    (name, ty): &(Spanned<String>, Spanned<TypeExpr>),
+) -> SimpleSpan<usize> {
+    SimpleSpan::from(name.span().start..ty.span().end)
+}
+
 fn collect_function_spans(func: &FunctionDef, spans: &mut Vec<SimpleSpan<usize>>) {
     // Collect spans from function body statements
     for stmt in &func.body {
@@ -112,105 +88,33 @@ fn collect_function_spans(func: &FunctionDef, spans: &mut Vec<SimpleSpan<usize>>
     }
 }
 
-fn collect_statement_spans(
-    stmt: &cairo_m_compiler_parser::parser::Spanned<Statement>,
-    spans: &mut Vec<SimpleSpan<usize>>,
-) {
+/// Collects the spans of the nodes that comments can be attached to: the statements of a block.
+fn collect_statement_spans(stmt: &Spanned<Statement>, spans: &mut Vec<SimpleSpan<usize>>) {
     spans.push(stmt.span());
+    collect_nested_spans(stmt, spans);
+}
 
-    // Recursively collect from nested statements and expressions
+fn collect_nested_spans(stmt: &Spanned<Statement>, spans: &mut Vec<SimpleSpan<usize>>) {
     match stmt.value() {
         Statement::If {
-            condition,
             then_block,
             else_block,
+            ..
         } => {
-            collect_expression_spans(condition, spans);
-            collect_statement_spans(then_block, spans);
+            collect_nested_spans(then_block, spans);
             if let Some(else_stmt) = else_block {
-                collect_statement_spans(else_stmt, spans);
+                collect_nested_spans(else_stmt, spans);
             }
         }
-        Statement::While { condition, body } => {
-            collect_expression_spans(condition, spans);
-            collect_statement_spans(body, spans);
-        }
-        Statement::For {
-            init,
-            condition,
-            step,
-            body,
-        } => {
-            collect_statement_spans(init, spans);
-            collect_expression_spans(condition, spans);
-            collect_statement_spans(step, spans);
-            collect_statement_spans(body, spans);
+        Statement::Loop { body } | Statement::While { body, .. } | Statement::For { body, .. } => {
+            collect_nested_spans(body, spans);
         }
         Statement::Block(statements) => {
             for s in statements {
                 collect_statement_spans(s, spans);
             }
         }
-        Statement::Let { value, .. } => {
-            collect_expression_spans(value, spans);
-        }
-        Statement::Assignment { lhs, rhs } => {
-            collect_expression_spans(lhs, spans);
-            collect_expression_spans(rhs, spans);
-        }
-        Statement::Return { value: Some(expr) } => {
-            collect_expression_spans(expr, spans);
-        }
-        Statement::Return { value: None } => {}
-        Statement::Expression(expr) => {
-            collect_expression_spans(expr, spans);
-        }
-        _ => {} // Other statement types
-    }
-}
-
-fn collect_expression_spans(
-    expr: &cairo_m_compiler_parser::parser::Spanned<Expression>,
-    spans: &mut Vec<SimpleSpan<usize>>,
-) {
-    spans.push(expr.span());
-
-    // Recursively collect from nested expressions
-    match expr.value() {
-        Expression::BinaryOp { left, right, .. } => {
-            collect_expression_spans(left, spans);
-            collect_expression_spans(right, spans);
-        }
-        Expression::UnaryOp { expr, .. } => {
-            collect_expression_spans(expr, spans);
-        }
-        Expression::FunctionCall { callee, args } => {
-            collect_expression_spans(callee, spans);
-            for arg in args {
-                collect_expression_spans(arg, spans);
-            }
-        }
-        Expression::IndexAccess { array, index } => {
-            collect_expression_spans(array, spans);
-            collect_expression_spans(index, spans);
-        }
-        Expression::MemberAccess { object, .. } => {
-            collect_expression_spans(object, spans);
-        }
-        Expression::Tuple(elements) => {
-            for elem in elements {
-                collect_expression_spans(elem, spans);
-            }
-        }
-        Expression::Parenthesized(inner) => {
-            collect_expression_spans(inner, spans);
-        }
-        Expression::StructLiteral { fields, .. } => {
-            for (_, value) in fields {
-                collect_expression_spans(value, spans);
-            }
-        }
-        _ => {} // Literals and identifiers
+        _ => {} // No nested statements
     }
 }
 
@@ -219,7 +123,7 @@ fn find_best_attachment(
     comment: &Comment,
     node_spans: &[SimpleSpan<usize>],
     source: &str,
-) -> Option<SimpleSpan<usize>> {
+) -> Option<(SimpleSpan<usize>, CommentPosition)> {
     // Find nodes that could be related to this comment
     let mut candidates: Vec<(
         SimpleSpan<usize>,
@@ -265,22 +169,17 @@ fn find_best_attachment(
     candidates
         .into_iter()
         .min_by_key(|&(_span, _pos, distance, rank)| (rank, distance))
-        .map(|(span, _pos, _distance, _rank)| span)
+        .map(|(span, pos, _distance, _rank)| (span, pos))
 }
 
-/// Find the nearest node to a comment
-fn find_nearest_node(
+/// Find the last node that ends before a comment
+fn find_preceding_node(
     comment: &Comment,
     node_spans: &[SimpleSpan<usize>],
 ) -> Option<SimpleSpan<usize>> {
     node_spans
         .iter()
-        .min_by_key(|&&span| {
-            if comment.span.start < span.start {
-                span.start - comment.span.start
-            } else {
-                comment.span.start - span.end
-            }
-        })
+        .filter(|span| span.end <= comment.span.start)
+        .max_by_key(|span| (span.end, std::cmp::Reverse(span.start)))
         .copied()
 }
diff --git a/crates/compiler/formatter/src/context.rs b/crates/compiler/formatter/src/context.rs
index 0d5b7ff..ada17f7 100644
--- a/crates/compiler/formatter/src/context.rs
+++ b/crates/compiler/formatter/src/context.rs
@@ -2,6 +2,7 @@ use chumsky::span::SimpleSpan;
 
 use crate::comment_preserver::CommentPreserver;
 use crate::config::FormatterConfig;
+use crate::doc::Doc;
 use crate::trivia::{Comment, CommentBuckets};
 
 pub struct FormatterCtx<'a> {
@@ -33,6 +34,23 @@ impl<'a> FormatterCtx<'a> {
         self.comments.get_trailing(span)
     }
 
+    /// Surround the document of a node with the comments attached to that node
+    pub fn with_comments(&self, span: SimpleSpan<usize>, doc: Doc) -> Doc {
+        let leading = self.get_leading_comments(span).unwrap_or_default();
+        let mut doc = Doc::with_leading_comments(leading.iter().map(|c| c.text.clone()), doc);
+
+        for comment in self.get_trailing_comments(span).unwrap_or_default() {
+            let own_line = self.source[span.end..comment.span.start].contains('\n');
+            doc = if own_line {
+                Doc::concat(vec![doc, Doc::line(), Doc::comment(&comment.text)])
+            } else {
+                doc.with_eol_comment(Some(&comment.text))
+            };
+        }
+
+        doc
+    }
+
     pub fn set_comments(&mut self, comments: CommentBuckets) {
         self.comments = comments;
     }
diff --git a/crates/compiler/formatter/src/lib.rs b/crates/compiler/formatter/src/lib.rs
index d651f72..dff9c1a 100644
--- a/crates/compiler/formatter/src/lib.rs
+++ b/crates/compiler/formatter/src/lib.rs
@@ -5,7 +5,6 @@ pub mod config;
 pub mod context;
 pub mod doc;
 pub mod rules;
-pub mod simple_comment_preserver;
 pub mod trivia;
 pub mod utils;
 
diff --git a/crates/compiler/formatter/src/rules/items.rs b/crates/compiler/formatter/src/rules/items.rs
index 2aebcae..80aeee8 100644
--- a/crates/compiler/formatter/src/rules/items.rs
+++ b/crates/compiler/formatter/src/rules/items.rs
@@ -3,6 +3,7 @@ use cairo_m_compiler_parser::parser::{
 };
 
 use crate::Format;
+use crate::comment_attachment::struct_field_span;
 use crate::context::FormatterCtx;
 use crate::doc::Doc;
 use crate::utils::*;
@@ -38,20 +39,7 @@ impl Format for TopLevelItem {
             Self::Use(u) => (u.span(), u.value().format(ctx)),
         };
 
-        // Add leading comments
-        let mut doc = inner_doc;
-        if let Some(leading) = ctx.get_leading_comments(span) {
-            let comments: Vec<String> = leading.iter().map(|c| c.text.clone()).collect();
-            doc = Doc::with_leading_comments(comments, doc);
-        }
-
-        // Add trailing comments
-        if let Some(trailing) = ctx.get_trailing_comments(span) {
-            let comments: Vec<String> = trailing.iter().map(|c| c.text.clone()).collect();
-            doc = Doc::with_trailing_comments(doc, comments);
-        }
-
-        doc
+        ctx.with_comments(span, inner_doc)
     }
 }
 
@@ -122,14 +110,16 @@ impl Format for StructDef {
             let fields = self
                 .fields
                 .iter()
-                .map(|(name, ty)| {
-                    Doc::concat(vec![
-                        Doc::line(),
+                .map(|field| {
+                    let (name, ty) = field;
+                    let doc = Doc::concat(vec![
                         Doc::text(name.value()),
                         Doc::text(": "),
                         ty.value().format(ctx),
                         Doc::text(","),
-                    ])
+                    ]);
+                    let doc = ctx.with_comments(struct_field_span(field), doc);
+                    Doc::concat(vec![Doc::line(), doc])
                 })
                 .collect::<Vec<_>>();
 
diff --git a/crates/compiler/formatter/src/rules/statements.rs b/crates/compiler/formatter/src/rules/statements.rs
index c3d5b35..6e24adc 100644
--- a/crates/compiler/formatter/src/rules/statements.rs
+++ b/crates/compiler/formatter/src/rules/statements.rs
@@ -53,22 +53,8 @@ fn ends_with_identifier(expr: &Expression) -> bool {
 impl Format for Spanned<Statement> {
     fn format(&self, ctx: &mut FormatterCtx) -> Doc {
         let span = self.span();
-        let mut doc = self.value().format(ctx);
-
-        // Add leading comments
-        if let Some(leading) = ctx.get_leading_comments(span) {
-            let comments: Vec<String> = leading.iter().map(|c| c.text.clone()).collect();
-            doc = Doc::with_leading_comments(comments, doc);
-        }
-
-        // Add trailing comments (end-of-line)
-        if let Some(trailing) = ctx.get_trailing_comments(span) {
-            if let Some(first_trailing) = trailing.first() {
-                doc = doc.with_eol_comment(Some(&first_trailing.text));
-            }
-        }
-
-        doc
+        let doc = self.value().format(ctx);
+        ctx.with_comments(span, doc)
     }
 }
 
@@ -139,7 +125,7 @@ impl Format for Statement {
                 if !statements.is_empty() {
                     let stmts = statements
                         .iter()
-                        .map(|s| Doc::concat(vec![Doc::line(), s.value().format(ctx)]))
+                        .map(|s| Doc::concat(vec![Doc::line(), s.format(ctx)]))
                         .collect::<Vec<_>>();
 
                     parts.push(Doc::indent(ctx.cfg.indent_width, Doc::concat(stmts)));
diff --git a/crates/compiler/formatter/src/simple_comment_preserver.rs b/crates/compiler/formatter/src/simple_comment_preserver.rs
deleted file mode 100644
index bcbf092..0000000
--- a/crates/compiler/formatter/src/simple_comment_preserver.rs
+++ /dev/null
@@ -1,43 +0,0 @@
-use chumsky::span::Span;
-
-/// Simple comment preservation strategy for MVP
-/// This approach re-inserts comments based on their original line positions
-use crate::trivia::scan_comments;
-
-pub fn format_with_comments(formatted_content: &str, original_content: &str) -> String {
-    // For MVP, we'll just prepend file-level comments
-    let comments = scan_comments(original_content);
-
-    if comments.is_empty() {
-        return formatted_content.to_string();
-    }
-
-    let mut output = String::new();
-
-    // Find comments that appear before any code
-    let first_non_comment_line = original_content
-        .lines()
-        .position(|line| {
-            let trimmed = line.trim();
-            !trimmed.is_empty() && !trimmed.starts_with("//")
-        })
-        .unwrap_or(0);
-
-    // Add leading comments
-    for comment in &comments {
-        let comment_line = original_content[..comment.span.start()]
-            .chars()
-            .filter(|&c| c == '\n')
-            .count();
-
-        if comment_line < first_non_comment_line {
-            output.push_str(&comment.text);
-            output.push('\n');
-        }
-    }
-
-    // Add the formatted content
-    output.push_str(formatted_content);
-
-    output
-}
diff --git a/crates/compiler/formatter/src/trivia.rs b/crates/compiler/formatter/src/trivia.rs
index e80af65..54bb9de 100644
--- a/crates/compiler/formatter/src/trivia.rs
+++ b/crates/compiler/formatter/src/trivia.rs
@@ -54,7 +54,9 @@ pub fn scan_comments(source: &str) -> Vec<Comment> {
                 i += 1;
             }
 
-            let text = String::from_utf8_lossy(&bytes[start..i]).to_string();
+            let text = String::from_utf8_lossy(&bytes[start..i])
+                .trim_end()
+                .to_string();
             comments.push(Comment {
                 text,
                 span: SimpleSpan::from(start..i),
@@ -68,6 +70,42 @@ pub fn scan_comments(source: &str) -> Vec<Comment> {
     comments
 }
 
+/// Returns each comment of the source with the code between it and the previous comment. The code
+/// is reduced to the parts that formatting keeps: everything but commas, parentheses and arrows.
+pub fn comments_in_context(source: &str) -> Vec<(String, String)> {
+    let mut code_start = 0;
+    scan_comments(source)
+        .into_iter()
+        .map(|comment| {
+            let code = code_skeleton(&source[code_start..comment.span.start]);
+            code_start = comment.span.end;
+            (code, comment.text)
+        })
+        .collect()
+}
+
+fn code_skeleton(code: &str) -> String {
+    let mut skeleton = String::new();
+    let is_word = |c: char| c.is_alphanumeric() || c == '_';
+    let mut chars = code.chars().peekable();
+    while let Some(c) = chars.next() {
+        if is_word(c) {
+            let mut word = String::from(c);
+            while let Some(next) = chars.next_if(|&next| is_word(next)) {
+                word.push(next);
+            }
+            // The notation of a number may change
+            skeleton.push_str(if c.is_numeric() { "0" } else { &word });
+            skeleton.push(' ');
+        } else if c == '-' && chars.next_if_eq(&'>').is_some() {
+            // The arrow of a unit return type may be dropped
+        } else if !c.is_whitespace() && !matches!(c, ',' | '(' | ')') {
+            skeleton.push(c);
+        }
+    }
+    skeleton
+}
+
 #[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
 pub enum CommentPosition {
     Before,
-- 
2.43.0


From b019e78526cca2121b427abf83241f8661234134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:19 +0000
Subject: [PATCH 09/68] fix: count a struct literal as a use of the name it
 mentions

---
 crates/compiler/semantic/src/semantic_index.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/compiler/semantic/src/semantic_index.rs b/crates/compiler/semantic/src/semantic_index.rs
index 5426ee5..9f82fc3 100644
--- a/crates/compiler/semantic/src/semantic_index.rs
+++ b/crates/compiler/semantic/src/semantic_index.rs
@@ -1132,8 +1132,10 @@ impl<'db, 'sink> SemanticIndexBuilder<'db, 'sink> {
                 // until phase 1 (forward declarations) is fully in place.
                 if let Some(def_idx) = self
                     .index
-                    .latest_definition_index_by_name(self.current_scope(), name.value())
+                    .latest_definition_index_by_name_in_chain(self.current_scope(), name.value())
                 {
+                    // Mark the referenced type's definition as used
+                    self.index.mark_definition_used(def_idx);
                     self.index
                         .add_type_usage_to_definition(usage_index, def_idx);
                 }
-- 
2.43.0


From 58af4d2e9e820bb9f4d5a6fd6e8cb56580d8069a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:32 +0000
Subject: [PATCH 10/68] fix: report undeclared types in constant annotations

---
 crates/compiler/semantic/src/semantic_index.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/compiler/semantic/src/semantic_index.rs b/crates/compiler/semantic/src/semantic_index.rs
index 9f82fc3..eab7c2d 100644
--- a/crates/compiler/semantic/src/semantic_index.rs
+++ b/crates/compiler/semantic/src/semantic_index.rs
@@ -1569,6 +1569,7 @@ where
                     self.with_expected_type(Some(ty.clone()), |builder| {
                         builder.visit_expr(&const_def.value);
                     });
+                    self.visit_type_expr(ty);
                 } else {
                     self.visit_expr(&const_def.value);
                 }
@@ -1687,6 +1688,7 @@ where
             self.with_expected_type(Some(ty.clone()), |builder| {
                 builder.visit_expr(&const_def_inner.value);
             });
+            self.visit_type_expr(ty);
         } else {
             self.visit_expr(&const_def_inner.value);
         }
-- 
2.43.0


From 368fb6b0c34c31601271f51964f918372ef67d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:04 +0000
Subject: [PATCH 11/68] fix: report names that are no struct when used as types

---
 .../semantic/src/validation/scope_check.rs    | 44 ++++++++++---------
 1 file changed, 24 insertions(+), 20 deletions(-)

diff --git a/crates/compiler/semantic/src/validation/scope_check.rs b/crates/compiler/semantic/src/validation/scope_check.rs
index 036bd9e..b7fc316 100644
--- a/crates/compiler/semantic/src/validation/scope_check.rs
+++ b/crates/compiler/semantic/src/validation/scope_check.rs
@@ -188,27 +188,31 @@ impl ScopeValidator {
             }
         }
 
-        // Check each type usage to see if it was resolved to a definition
+        // Check that each type usage names a struct, here or in an imported module
         for (usage_index, usage) in index.type_usages().iter().enumerate() {
-            if !index.is_type_usage_resolved(usage_index) {
-                // If not resolved, try to resolve with imports using the centralized method
-                if index
-                    .resolve_name_with_imports_at_position(
-                        db,
-                        crate_id,
-                        file,
-                        &usage.name,
-                        usage.scope_id,
-                        usage.span,
-                    )
-                    .is_none()
-                {
-                    sink.push(Diagnostic::undeclared_type(
-                        file.file_path(db).to_string(),
-                        &usage.name,
-                        usage.span,
-                    ));
-                }
+            let definition = index.resolve_name_with_imports_at_position(
+                db,
+                crate_id,
+                file,
+                &usage.name,
+                usage.scope_id,
+                usage.span,
+            );
+            let names_type = match definition {
+                Some((_, def, _)) => matches!(
+                    def.kind,
+                    crate::definition::DefinitionKind::Struct(_)
+                        | crate::definition::DefinitionKind::Use(_)
+                ),
+                // An import that does not resolve is reported at the import itself
+                None => index.is_type_usage_resolved(usage_index),
+            };
+            if !names_type {
+                sink.push(Diagnostic::undeclared_type(
+                    file.file_path(db).to_string(),
+                    &usage.name,
+                    usage.span,
+                ));
             }
         }
     }
-- 
2.43.0


From 8dba533cdbb65c25b38f5fab6446f20f2dd01751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:48 +0000
Subject: [PATCH 12/68] fix: reject struct literals that give a field twice

---
 .../semantic/src/validation/type_validator.rs  | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/crates/compiler/semantic/src/validation/type_validator.rs b/crates/compiler/semantic/src/validation/type_validator.rs
index b24c854..4e7dbf9 100644
--- a/crates/compiler/semantic/src/validation/type_validator.rs
+++ b/crates/compiler/semantic/src/validation/type_validator.rs
@@ -1071,10 +1071,20 @@ impl TypeValidator {
         };
 
         let struct_fields = struct_type.fields(db);
-        let provided_fields: HashSet<String> = fields
-            .iter()
-            .map(|(field_name, _)| field_name.value().clone())
-            .collect();
+        let mut provided_fields: HashSet<String> = HashSet::new();
+
+        // Check for fields given more than once
+        for (field_name, _) in fields {
+            if !provided_fields.insert(field_name.value().clone()) {
+                sink.push(
+                    Diagnostic::error(
+                        DiagnosticCode::InvalidStructLiteral,
+                        format!("Field `{}` specified more than once", field_name.value()),
+                    )
+                    .with_location(file.file_path(db).to_string(), field_name.span()),
+                );
+            }
+        }
 
         // Check for missing fields
         for (field_name, _field_type) in &struct_fields {
-- 
2.43.0


From 33868419723b4e0226b846ad70a2883260a8563c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:38 +0000
Subject: [PATCH 13/68] fix: check the declared type of module-level constants

---
 .../semantic/src/validation/type_validator.rs | 105 +++++++++++-------
 1 file changed, 64 insertions(+), 41 deletions(-)

diff --git a/crates/compiler/semantic/src/validation/type_validator.rs b/crates/compiler/semantic/src/validation/type_validator.rs
index 4e7dbf9..e54bb79 100644
--- a/crates/compiler/semantic/src/validation/type_validator.rs
+++ b/crates/compiler/semantic/src/validation/type_validator.rs
@@ -16,8 +16,8 @@ use std::collections::HashSet;
 use cairo_m_compiler_diagnostics::{Diagnostic, DiagnosticCode, DiagnosticSink};
 use cairo_m_compiler_parser::ParsedModule;
 use cairo_m_compiler_parser::parser::{
-    BinaryOp, Expression, FunctionDef, Pattern, Spanned, Statement, TopLevelItem, TypeExpr,
-    UnaryOp, parse_file,
+    BinaryOp, ConstDef, Expression, FunctionDef, Pattern, Spanned, Statement, TopLevelItem,
+    TypeExpr, UnaryOp, parse_file,
 };
 use chumsky::span::SimpleSpan;
 
@@ -30,7 +30,7 @@ use crate::type_resolution::{
 };
 use crate::types::{TypeData, TypeId};
 use crate::validation::Validator;
-use crate::{DefinitionKind, ExpressionId, File, SemanticIndex};
+use crate::{DefinitionKind, ExpressionId, File, FileScopeId, SemanticIndex};
 
 /// Unified validator for all type-related semantic checks
 ///
@@ -81,6 +81,23 @@ impl Validator for TypeValidator {
             }
         }
 
+        // Check the declared types of module-level constants
+        if let Some(root_scope) = index.root_scope() {
+            for item in parsed_module.items() {
+                if let TopLevelItem::Const(const_spanned) = item {
+                    self.check_const_type(
+                        db,
+                        crate_id,
+                        file,
+                        index,
+                        const_spanned.value(),
+                        root_scope,
+                        sink,
+                    );
+                }
+            }
+        }
+
         for (_def_idx, definition) in index.all_definitions() {
             if let DefinitionKind::Function(_) = &definition.kind {
                 self.analyze_function_statement_types(
@@ -102,6 +119,48 @@ impl Validator for TypeValidator {
 }
 
 impl TypeValidator {
+    /// Checks that the value of a constant has the type the constant is declared with
+    #[allow(clippy::too_many_arguments)]
+    fn check_const_type(
+        &self,
+        db: &dyn SemanticDb,
+        crate_id: Crate,
+        file: File,
+        index: &SemanticIndex,
+        const_def: &ConstDef,
+        scope_id: FileScopeId,
+        sink: &dyn cairo_m_compiler_diagnostics::DiagnosticSink,
+    ) {
+        let Some(ref type_ast) = const_def.ty else {
+            return;
+        };
+        let Some(value_expr_id) = index.expression_id_by_span(const_def.value.span()) else {
+            return;
+        };
+
+        // Get the declared type
+        let declared_type = resolve_ast_type(db, crate_id, file, type_ast.clone(), scope_id);
+
+        // Get the actual value type
+        let value_type =
+            expression_semantic_type(db, crate_id, file, value_expr_id, Some(declared_type));
+
+        // Check compatibility
+        if !are_types_compatible(db, value_type, declared_type) {
+            sink.push(
+                Diagnostic::error(
+                    DiagnosticCode::TypeMismatch,
+                    format!(
+                        "Type mismatch in const declaration: expected `{}`, got `{}`",
+                        declared_type.data(db).display_name(db),
+                        value_type.data(db).display_name(db)
+                    ),
+                )
+                .with_location(file.file_path(db).to_string(), const_def.value.span()),
+            );
+        }
+    }
+
     /// Returns Some((name, name_span)) if the expression resolves to a const array
     fn expr_resolves_to_const_array(
         db: &dyn SemanticDb,
@@ -1424,44 +1483,8 @@ impl TypeValidator {
                 let _expr_id = index.expression_id_by_span(expr.span());
             }
             Statement::Const(const_def) => {
-                // Validate that the const value type matches the declared type
-                if let Some(ref type_ast) = const_def.ty {
-                    if let Some(value_expr_id) = index.expression_id_by_span(const_def.value.span())
-                    {
-                        // Get the declared type
-                        let declared_type = resolve_ast_type(
-                            db,
-                            crate_id,
-                            file,
-                            type_ast.clone(),
-                            index.scope_for_span(stmt.span()).unwrap(),
-                        );
-
-                        // Get the actual value type
-                        let value_type = expression_semantic_type(
-                            db,
-                            crate_id,
-                            file,
-                            value_expr_id,
-                            Some(declared_type),
-                        );
-
-                        // Check compatibility
-                        if !are_types_compatible(db, value_type, declared_type) {
-                            sink.push(
-                                Diagnostic::error(
-                                    DiagnosticCode::TypeMismatch,
-                                    format!(
-                                        "Type mismatch in const declaration: expected `{}`, got `{}`",
-                                        declared_type.data(db).display_name(db),
-                                        value_type.data(db).display_name(db)
-                                    ),
-                                )
-                                .with_location(file.file_path(db).to_string(), const_def.value.span()),
-                            );
-                        }
-                    }
-                }
+                let scope_id = index.scope_for_span(stmt.span()).unwrap();
+                self.check_const_type(db, crate_id, file, index, const_def, scope_id, sink);
             }
             Statement::Loop { body } => {
                 self.check_statement_type(db, crate_id, file, index, function_def, body, sink);
-- 
2.43.0


From 572bd99811eff6e78369c8dbf69eb999569e1ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:02 +0000
Subject: [PATCH 14/68] fix: a loop that a break can leave does not guarantee a
 return

---
 .../semantic/src/validation/control_flow_validator.rs    | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/crates/compiler/semantic/src/validation/control_flow_validator.rs b/crates/compiler/semantic/src/validation/control_flow_validator.rs
index b9c8828..0aafd9f 100644
--- a/crates/compiler/semantic/src/validation/control_flow_validator.rs
+++ b/crates/compiler/semantic/src/validation/control_flow_validator.rs
@@ -294,9 +294,8 @@ impl ControlFlowValidator {
                 then_returns && else_returns
             }
             Statement::Loop { body } => {
-                // Loop statements can provide returns if they contain return statements
-                // TODO: This could be improved to check if all break paths lead to returns
-                Self::statement_provides_return_value(body)
+                // A loop provides a return if its body does and no `break` leaves it before
+                !Self::contains_break(body) && Self::statement_provides_return_value(body)
             }
             Statement::While { .. } => {
                 // While loops might not execute, so they can't guarantee a return
@@ -331,8 +330,8 @@ impl ControlFlowValidator {
                 then_returns && else_returns
             }
             Statement::Loop { body } => {
-                // Check if the loop body has a hard return
-                Self::statement_guarantees_hard_return(body)
+                // A loop has a hard return if its body does and no `break` leaves it before
+                !Self::contains_break(body) && Self::statement_guarantees_hard_return(body)
             }
             Statement::While { .. } | Statement::For { .. } => {
                 // While and for loops might not execute, so they don't guarantee hard returns
-- 
2.43.0


From 285c494a533b2bde1c2889067aa124c0eb3c54a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:36 +0000
Subject: [PATCH 15/68] fix: take the context of a returned literal from its
 own function

---
 .../compiler/semantic/src/type_resolution.rs  | 65 ++++---------------
 1 file changed, 13 insertions(+), 52 deletions(-)

diff --git a/crates/compiler/semantic/src/type_resolution.rs b/crates/compiler/semantic/src/type_resolution.rs
index 1290820..2ee6e05 100644
--- a/crates/compiler/semantic/src/type_resolution.rs
+++ b/crates/compiler/semantic/src/type_resolution.rs
@@ -336,58 +336,19 @@ pub fn expression_semantic_type<'db>(
             }
             Origin::Condition { .. } => Some(TypeId::new(db, TypeData::Bool)),
             Origin::ReturnExpr => {
-                // Get the function's return type as context for return expressions
-                // We need to find the containing function to get its return type
-
-                // Walk up the scope hierarchy to find a function scope
-                let expr_scope = expr_info.scope_id;
-                let mut current_scope = Some(expr_scope);
-
-                let mut result = None;
-                while let Some(scope_id) = current_scope {
-                    // Check if this scope has a function definition
-                    for (def_idx, def) in semantic_index.all_definitions() {
-                        if let DefinitionKind::Function(_func_def) = &def.kind {
-                            // Check if this function's scope contains our expression
-                            // Functions create a new scope, so we need to check if our expression
-                            // is within the function's body scope
-                            if def.scope_id == scope_id
-                                || semantic_index
-                                    .scope(expr_scope)
-                                    .and_then(|s| {
-                                        let mut parent = s.parent;
-                                        while let Some(p) = parent {
-                                            if p == def.scope_id {
-                                                return Some(true);
-                                            }
-                                            parent =
-                                                semantic_index.scope(p).and_then(|ps| ps.parent);
-                                        }
-                                        None
-                                    })
-                                    .unwrap_or(false)
-                            {
-                                // Found the containing function, get its signature
-                                let def_id = DefinitionId::new(db, file, def_idx);
-                                if let Some(signature) =
-                                    function_semantic_signature(db, crate_id, def_id)
-                                {
-                                    result = Some(signature.return_type(db));
-                                    break;
-                                }
-                            }
-                        }
-                    }
-
-                    if result.is_some() {
-                        break;
-                    }
-
-                    // Move to parent scope
-                    current_scope = semantic_index.scope(scope_id).and_then(|s| s.parent);
-                }
-
-                result
+                // The return type of the function around the expression is its context
+                semantic_index
+                    .all_definitions()
+                    .find(|(_, def)| {
+                        matches!(def.kind, DefinitionKind::Function(_))
+                            && def.full_span.start <= expr_info.ast_span.start
+                            && expr_info.ast_span.end <= def.full_span.end
+                    })
+                    .and_then(|(def_idx, _)| {
+                        let def_id = DefinitionId::new(db, file, def_idx);
+                        function_semantic_signature(db, crate_id, def_id)
+                    })
+                    .map(|signature| signature.return_type(db))
             }
             Origin::StructField { parent, field, .. } => {
                 semantic_index.expression(*parent).and_then(|parent_info| {
-- 
2.43.0


From 4b466f1b36277113b3eb70cf67c9f2923e348403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:17 +0000
Subject: [PATCH 16/68] fix: reject literals that no integer type can hold,
 wherever they stand

---
 .../src/validation/literal_validator.rs       | 35 +++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/crates/compiler/semantic/src/validation/literal_validator.rs b/crates/compiler/semantic/src/validation/literal_validator.rs
index 40cf214..b0bd80b 100644
--- a/crates/compiler/semantic/src/validation/literal_validator.rs
+++ b/crates/compiler/semantic/src/validation/literal_validator.rs
@@ -2,9 +2,12 @@
 //!
 //! This validator handles validation of literal values:
 //! - u32 literal range checking
+//! - Literals that fit no integer type, anywhere in the program
 //! - Detects negative literals (unary negation on literals)
 //! - Future: other bounded integer types
 
+use std::collections::HashSet;
+
 use cairo_m_compiler_diagnostics::{Diagnostic, DiagnosticCode, DiagnosticSink};
 use cairo_m_compiler_parser::parser::{Expression, NamedType, UnaryOp};
 
@@ -33,6 +36,9 @@ impl Validator for LiteralValidator {
         index: &SemanticIndex,
         sink: &dyn DiagnosticSink,
     ) {
+        // Literals that initialise a definition of known type are checked with it
+        let mut checked = HashSet::new();
+
         // Check all let/const definitions with explicit u32 or felt type
         for (def_idx, definition) in index.all_definitions() {
             match &definition.kind {
@@ -46,6 +52,7 @@ impl Validator for LiteralValidator {
                                 NamedType::U32 => {
                                     // Check if there's a value expression to validate
                                     if let Some(value_expr_id) = let_ref.value_expr_id {
+                                        checked.insert(value_expr_id);
                                         if let Some(expr_info) = index.expression(value_expr_id) {
                                             self.check_u32_literal(
                                                 db,
@@ -60,6 +67,7 @@ impl Validator for LiteralValidator {
                                 NamedType::Felt => {
                                     // Check if there's a value expression to validate
                                     if let Some(value_expr_id) = let_ref.value_expr_id {
+                                        checked.insert(value_expr_id);
                                         if let Some(expr_info) = index.expression(value_expr_id) {
                                             self.check_felt_literal(
                                                 db,
@@ -85,6 +93,7 @@ impl Validator for LiteralValidator {
                         TypeData::U32 => {
                             // Check if there's a value expression to validate
                             if let Some(value_expr_id) = const_ref.value_expr_id {
+                                checked.insert(value_expr_id);
                                 if let Some(expr_info) = index.expression(value_expr_id) {
                                     self.check_u32_literal(
                                         db,
@@ -99,6 +108,7 @@ impl Validator for LiteralValidator {
                         TypeData::Felt => {
                             // Check if there's a value expression to validate
                             if let Some(value_expr_id) = const_ref.value_expr_id {
+                                checked.insert(value_expr_id);
                                 if let Some(expr_info) = index.expression(value_expr_id) {
                                     self.check_felt_literal(
                                         db,
@@ -116,6 +126,31 @@ impl Validator for LiteralValidator {
                 _ => {}
             }
         }
+
+        // Any other literal must at least fit the type of its suffix, or some integer type
+        for (expr_id, expr_info) in index.all_expressions() {
+            if checked.contains(&expr_id) {
+                continue;
+            }
+            if let Expression::Literal(_, suffix) = &expr_info.ast_node {
+                match suffix.as_deref() {
+                    Some("felt") => self.check_felt_literal(
+                        db,
+                        &expr_info.ast_node,
+                        expr_info.ast_span,
+                        file,
+                        sink,
+                    ),
+                    _ => self.check_u32_literal(
+                        db,
+                        &expr_info.ast_node,
+                        expr_info.ast_span,
+                        file,
+                        sink,
+                    ),
+                }
+            }
+        }
     }
 
     fn name(&self) -> &'static str {
-- 
2.43.0


From 8aa303bc89306c1f219b8f7bdd6995373d8fa99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:20 +0000
Subject: [PATCH 17/68] fix: report duplicate names in for loops and in
 redefined items

---
 .../src/validation/structural_validator.rs    | 61 +++++--------------
 1 file changed, 16 insertions(+), 45 deletions(-)

diff --git a/crates/compiler/semantic/src/validation/structural_validator.rs b/crates/compiler/semantic/src/validation/structural_validator.rs
index c87a0bf..b16b895 100644
--- a/crates/compiler/semantic/src/validation/structural_validator.rs
+++ b/crates/compiler/semantic/src/validation/structural_validator.rs
@@ -9,12 +9,10 @@
 
 use cairo_m_compiler_diagnostics::{Diagnostic, DiagnosticCode, DiagnosticSink};
 use cairo_m_compiler_parser::parser::{
-    Expression, FunctionDef, NamedType, Spanned, Statement, StructDef, TopLevelItem, TypeExpr,
-    parse_file,
+    Expression, NamedType, Spanned, Statement, TopLevelItem, TypeExpr, parse_file,
 };
 
 use crate::db::{Crate, SemanticDb};
-use crate::definition::DefinitionKind;
 use crate::validation::{Validator, shared};
 use crate::{File, SemanticIndex};
 
@@ -30,7 +28,7 @@ impl Validator for StructuralValidator {
         db: &dyn SemanticDb,
         _crate_id: Crate,
         file: File,
-        index: &SemanticIndex,
+        _index: &SemanticIndex,
         sink: &dyn DiagnosticSink,
     ) {
         let file_path = file.file_path(db);
@@ -41,24 +39,14 @@ impl Validator for StructuralValidator {
         }
         let parsed_module = parsed_program.module;
 
-        // Check each definition in this module
-        for (_def_idx, definition) in index.all_definitions() {
-            match &definition.kind {
-                DefinitionKind::Function(_) => {
-                    // Find the function in the AST and check its parameters
-                    if let Some(func_def) =
-                        self.find_function_in_module(&parsed_module, &definition.name)
-                    {
-                        shared::check_duplicate_parameter_names(&func_def.params, file_path, sink);
-                    }
+        // Check each item in this module, including ones whose name is taken already
+        for item in parsed_module.items() {
+            match item {
+                TopLevelItem::Function(func) => {
+                    shared::check_duplicate_parameter_names(&func.value().params, file_path, sink);
                 }
-                DefinitionKind::Struct(_) => {
-                    // Find the struct in the AST and check its fields
-                    if let Some(struct_def) =
-                        self.find_struct_in_module(&parsed_module, &definition.name)
-                    {
-                        shared::check_duplicate_struct_fields(&struct_def, file_path, sink);
-                    }
+                TopLevelItem::Struct(struct_def) => {
+                    shared::check_duplicate_struct_fields(struct_def, file_path, sink);
                 }
                 _ => {}
             }
@@ -77,30 +65,6 @@ impl Validator for StructuralValidator {
 }
 
 impl StructuralValidator {
-    fn find_function_in_module<'a>(
-        &self,
-        module: &'a cairo_m_compiler_parser::parser::ParsedModule,
-        name: &str,
-    ) -> Option<&'a FunctionDef> {
-        module.items().iter().find_map(|item| match item {
-            TopLevelItem::Function(func) if func.value().name.value() == name => Some(func.value()),
-            _ => None,
-        })
-    }
-
-    fn find_struct_in_module(
-        &self,
-        module: &cairo_m_compiler_parser::parser::ParsedModule,
-        name: &str,
-    ) -> Option<Spanned<StructDef>> {
-        module.items().iter().find_map(|item| match item {
-            TopLevelItem::Struct(struct_def) if struct_def.value().name.value() == name => {
-                Some(struct_def.clone())
-            }
-            _ => None,
-        })
-    }
-
     fn check_patterns_in_module(
         &self,
         module: &cairo_m_compiler_parser::parser::ParsedModule,
@@ -146,6 +110,13 @@ impl StructuralValidator {
                 Statement::Loop { body } | Statement::While { body, .. } => {
                     self.check_patterns_in_statements(&[(**body).clone()], file_path, sink);
                 }
+                Statement::For {
+                    init, step, body, ..
+                } => {
+                    for part in [init, step, body] {
+                        self.check_patterns_in_statements(&[(**part).clone()], file_path, sink);
+                    }
+                }
                 _ => {}
             }
         }
-- 
2.43.0


From 9516257034c57bd4099844d0a66784ebcfcf8405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:56 +0000
Subject: [PATCH 18/68] fix: report cyclic imports from module diagnostics
 instead of panicking

---
 crates/compiler/semantic/src/db.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/crates/compiler/semantic/src/db.rs b/crates/compiler/semantic/src/db.rs
index 9405b30..3456a04 100644
--- a/crates/compiler/semantic/src/db.rs
+++ b/crates/compiler/semantic/src/db.rs
@@ -311,6 +311,13 @@ fn detect_import_cycle(graph: &HashMap<String, Vec<String>>) -> Option<Vec<Strin
     cycle
 }
 
+fn cyclic_import_error(cycle: &[String]) -> Diagnostic {
+    Diagnostic::error(
+        DiagnosticCode::SyntaxError,
+        format!("Cyclic import: {}", cycle.join(" -> ")),
+    )
+}
+
 fn topological_sort(graph: &HashMap<String, Vec<String>>) -> Vec<String> {
     let mut visited: HashMap<String, bool> = HashMap::new();
     let mut topo: Vec<String> = Vec::new();
@@ -353,10 +360,7 @@ pub fn project_semantic_index(
 
     let mut coll = DiagnosticCollection::default();
     if let Some(cycle) = detect_import_cycle(&graph) {
-        coll.add(Diagnostic::error(
-            DiagnosticCode::SyntaxError,
-            format!("Cyclic import: {}", cycle.join(" -> ")),
-        ));
+        coll.add(cyclic_import_error(&cycle));
         return Err(coll);
     }
 
@@ -479,6 +483,15 @@ pub fn module_semantic_diagnostics(
 
     let mut semantic_diag = DiagnosticCollection::default();
 
+    // Modules cannot be indexed while their imports are cyclic: the cycle is reported
+    // once, by the module it starts from.
+    if let Some(cycle) = detect_import_cycle(&project_import_graph(db, crate_id)) {
+        if cycle.first() == Some(&module_name) {
+            semantic_diag.add(cyclic_import_error(&cycle));
+        }
+        return semantic_diag;
+    }
+
     if let Some(file) = crate_id.modules(db).get(&module_name) {
         let index = match module_semantic_index(db, crate_id, module_name.clone()) {
             Ok(index) => index,
-- 
2.43.0


From 46510c98a7aec840ff3d9f31f70221ef7cefd826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:56 +0000
Subject: [PATCH 19/68] fix: report each problem of a module once

---
 crates/compiler/semantic/src/db.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/compiler/semantic/src/db.rs b/crates/compiler/semantic/src/db.rs
index 3456a04..8165b76 100644
--- a/crates/compiler/semantic/src/db.rs
+++ b/crates/compiler/semantic/src/db.rs
@@ -502,9 +502,8 @@ pub fn module_semantic_diagnostics(
         };
         let registry = create_default_registry();
 
-        let mut validate_diags = registry.validate_all(db, crate_id, *file, &index);
-        validate_diags.extend(index.semantic_syntax_errors);
-        validate_diags
+        // This includes the errors found while building the index
+        registry.validate_all(db, crate_id, *file, &index)
     } else {
         DiagnosticCollection::default()
     }
@@ -518,6 +517,10 @@ pub fn module_all_diagnostics(
     module_name: String,
 ) -> DiagnosticCollection {
     let parse_diag = module_parse_diagnostics(db, crate_id, module_name.clone());
+    if !parse_diag.is_empty() {
+        // Semantic validation is skipped, its diagnostics are the parse errors
+        return parse_diag;
+    }
     let semantic_diag = module_semantic_diagnostics(db, crate_id, module_name);
 
     let mut collection = DiagnosticCollection::default();
-- 
2.43.0


From 2ea9079bd46530cbabc91a1b0a3871187492ef8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:06 +0000
Subject: [PATCH 20/68] fix: do not mix crates or removed modules in the
 diagnostics tracker

---
 .../compiler/semantic/src/delta_diagnostics.rs   | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/crates/compiler/semantic/src/delta_diagnostics.rs b/crates/compiler/semantic/src/delta_diagnostics.rs
index 78d85ef..322b955 100644
--- a/crates/compiler/semantic/src/delta_diagnostics.rs
+++ b/crates/compiler/semantic/src/delta_diagnostics.rs
@@ -39,6 +39,8 @@ pub struct DeltaDiagnosticsTracker {
     cached_diagnostics: HashMap<String, DiagnosticCollection>,
     /// The overall project revision at last computation
     last_project_revision: Option<salsa::Revision>,
+    /// The crate the tracked state belongs to
+    last_crate: Option<Crate>,
 }
 
 impl DeltaDiagnosticsTracker {
@@ -48,6 +50,7 @@ impl DeltaDiagnosticsTracker {
             module_revisions: HashMap::new(),
             cached_diagnostics: HashMap::new(),
             last_project_revision: None,
+            last_crate: None,
         }
     }
 
@@ -59,6 +62,14 @@ impl DeltaDiagnosticsTracker {
     ) -> DiagnosticCollection {
         let current_revision = db.zalsa().current_revision();
 
+        // What is tracked for one crate says nothing about another
+        if self.last_crate != Some(crate_id) {
+            self.module_revisions.clear();
+            self.cached_diagnostics.clear();
+            self.last_project_revision = None;
+            self.last_crate = Some(crate_id);
+        }
+
         // Check if this is the first computation or if anything has changed
         let needs_full_recompute = self.last_project_revision.is_none()
             || self.last_project_revision.unwrap() < current_revision;
@@ -69,6 +80,11 @@ impl DeltaDiagnosticsTracker {
         }
 
         let modules = crate_id.modules(db);
+        // Forget modules that are no longer part of the crate
+        self.module_revisions
+            .retain(|name, _| modules.contains_key(name));
+        self.cached_diagnostics
+            .retain(|name, _| modules.contains_key(name));
         let mut total_diagnostics = DiagnosticCollection::default();
 
         for (module_name, _file) in modules.iter() {
-- 
2.43.0


From e7dbf5a3639d027dcf41151ef075ef00b3f13f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:00 +0000
Subject: [PATCH 21/68] fix: subtraction and division have no left identity

---
 crates/compiler/mir/src/passes/arithmetic_simplify.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/compiler/mir/src/passes/arithmetic_simplify.rs b/crates/compiler/mir/src/passes/arithmetic_simplify.rs
index 5e35244..edc30f3 100644
--- a/crates/compiler/mir/src/passes/arithmetic_simplify.rs
+++ b/crates/compiler/mir/src/passes/arithmetic_simplify.rs
@@ -37,7 +37,12 @@ impl ArithmeticSimplify {
     ) -> Option<SimplificationResult> {
         // Check for identity values
         if let Some(identity) = self.evaluator.identity_value(op) {
-            if left == Value::Literal(identity) {
+            // Subtraction and division have an identity on the right only
+            let right_only = matches!(
+                op,
+                BinaryOp::Sub | BinaryOp::U32Sub | BinaryOp::Div | BinaryOp::U32Div
+            );
+            if left == Value::Literal(identity) && !right_only {
                 // identity op x → x
                 return Some(SimplificationResult::Assign(right));
             }
-- 
2.43.0


From 83a87e8c2f794f82c36aa548a37e743e324506d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:36 +0000
Subject: [PATCH 22/68] fix: accept boolean literals as call arguments

---
 crates/compiler/codegen/src/builder/calls.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/compiler/codegen/src/builder/calls.rs b/crates/compiler/codegen/src/builder/calls.rs
index d619650..28555b0 100644
--- a/crates/compiler/codegen/src/builder/calls.rs
+++ b/crates/compiler/codegen/src/builder/calls.rs
@@ -208,6 +208,13 @@ impl super::CasmBuilder {
                         )));
                     }
                 },
+                Value::Literal(Literal::Boolean(imm)) => {
+                    self.store_immediate(
+                        *imm as u32,
+                        arg_offset,
+                        format!("Arg {i}: [fp + {arg_offset}] = {imm}"),
+                    );
+                }
                 Value::Operand(arg_id) => {
                     let src_off = self.layout.get_offset(*arg_id)?;
                     if src_off == arg_offset
-- 
2.43.0


From 4c629648981ef52b413204db5930df7ef62e0953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:59 +0000
Subject: [PATCH 23/68] fix: branch on u32 comparisons with zero over both
 limbs

---
 crates/compiler/mir/src/passes/fuse_cmp.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/crates/compiler/mir/src/passes/fuse_cmp.rs b/crates/compiler/mir/src/passes/fuse_cmp.rs
index e9612d9..492a35e 100644
--- a/crates/compiler/mir/src/passes/fuse_cmp.rs
+++ b/crates/compiler/mir/src/passes/fuse_cmp.rs
@@ -73,28 +73,29 @@ impl MirPass for FuseCmpBranch {
                             if Self::is_fusible_comparison(*op) {
                                 // We found the pattern! Perform the fusion.
 
-                                // We first check for comparisons with 0 which can be optimized
+                                // We first check for comparisons with 0 which can be optimized.
+                                // A branch tests a single cell, so this holds for felts only.
                                 match (
                                     *op,
                                     self.evaluator.is_zero(left),
                                     self.evaluator.is_zero(right),
                                 ) {
-                                    (BinaryOp::Eq | BinaryOp::U32Eq, true, false) => {
+                                    (BinaryOp::Eq, true, false) => {
                                         // 0 == x is equivalent to !x, so we switch the targets
                                         block.terminator =
                                             Terminator::branch(*right, else_target, then_target);
                                     }
-                                    (BinaryOp::Eq | BinaryOp::U32Eq, false, true) => {
+                                    (BinaryOp::Eq, false, true) => {
                                         // x == 0 is equivalent to !x, so we switch the targets
                                         block.terminator =
                                             Terminator::branch(*left, else_target, then_target);
                                     }
-                                    (BinaryOp::Neq | BinaryOp::U32Neq, true, false) => {
+                                    (BinaryOp::Neq, true, false) => {
                                         // 0 != x is equivalent to x, so we use x as the condition
                                         block.terminator =
                                             Terminator::branch(*right, then_target, else_target);
                                     }
-                                    (BinaryOp::Neq | BinaryOp::U32Neq, false, true) => {
+                                    (BinaryOp::Neq, false, true) => {
                                         // x != 0 is equivalent to x, so we use x as the condition
                                         block.terminator =
                                             Terminator::branch(*left, then_target, else_target);
-- 
2.43.0


From df74d9b97019e726a21783a67fdc1534a58a248c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:27 +0000
Subject: [PATCH 24/68] fix: type operands of nested expressions in the context
 of the whole expression

---
 .../compiler/semantic/src/semantic_index.rs   |  10 +-
 .../compiler/semantic/src/type_resolution.rs  | 265 ++++++++++--------
 .../semantic/src/validation/type_validator.rs |   2 +-
 3 files changed, 149 insertions(+), 128 deletions(-)

diff --git a/crates/compiler/semantic/src/semantic_index.rs b/crates/compiler/semantic/src/semantic_index.rs
index eab7c2d..0eb9ce1 100644
--- a/crates/compiler/semantic/src/semantic_index.rs
+++ b/crates/compiler/semantic/src/semantic_index.rs
@@ -146,6 +146,8 @@ pub enum Origin {
     ReturnExpr,
     /// Expression is a condition in a control-flow statement.
     Condition { kind: ConditionKind },
+    /// Expression is an operand of an operator, or the inside of parentheses.
+    Operand { parent: ExpressionId },
 }
 
 /// Information about an expression node in the AST
@@ -1083,14 +1085,14 @@ impl<'db, 'sink> SemanticIndexBuilder<'db, 'sink> {
                 // Note: Unresolved symbols will be detected in the validation pass
             }
             Expression::BinaryOp { left, right, .. } => {
-                self.visit_expr(left);
-                self.visit_expr(right);
+                self.visit_expr_with_origin(left, Origin::Operand { parent: expr_id });
+                self.visit_expr_with_origin(right, Origin::Operand { parent: expr_id });
             }
             Expression::UnaryOp { expr, .. } => {
-                self.visit_expr(expr);
+                self.visit_expr_with_origin(expr, Origin::Operand { parent: expr_id });
             }
             Expression::Parenthesized(inner) => {
-                self.visit_expr(inner);
+                self.visit_expr_with_origin(inner, Origin::Operand { parent: expr_id });
             }
             Expression::FunctionCall { callee, args } => {
                 self.visit_expr(callee);
diff --git a/crates/compiler/semantic/src/type_resolution.rs b/crates/compiler/semantic/src/type_resolution.rs
index 2ee6e05..2781ed9 100644
--- a/crates/compiler/semantic/src/type_resolution.rs
+++ b/crates/compiler/semantic/src/type_resolution.rs
@@ -21,7 +21,7 @@ use crate::builtins::{self, BuiltinFn};
 use crate::db::{Crate, SemanticDb, module_name_for_file, module_semantic_index};
 use crate::definition::{DefinitionKind, FunctionDefRef, ParameterDefRef, StructDefRef};
 use crate::place::FileScopeId;
-use crate::semantic_index::{DefinitionId, ExpressionId, Origin};
+use crate::semantic_index::{DefinitionId, ExpressionId, Origin, SemanticIndex};
 use crate::types::{FunctionSignatureId, StructTypeId, TypeData, TypeId};
 
 /// Resolves an AST type expression to a `TypeId`
@@ -296,96 +296,9 @@ pub fn expression_semantic_type<'db>(
         return TypeId::new(db, TypeData::Error);
     };
 
-    // If context_expected is None, try to derive it from origin.
-    // Be careful to avoid cycles: do not derive context from parent container types for
-    // array/tuple elements here, as that can cause recursive calls back into this node.
-    let context_expected = if context_expected.is_none() {
-        match &expr_info.origin {
-            Origin::AssignmentRhs { lhs } => {
-                // Only provide assignment context for direct literals, not complex expressions
-                // This avoids interfering with binary operations' internal type inference
-                match &expr_info.ast_node {
-                    Expression::Literal(_, None) => {
-                        // Only for non suffixed literals - provide LHS type as context
-                        Some(expression_semantic_type(db, crate_id, file, *lhs, None))
-                    }
-                    _ => {
-                        // For complex expressions like binary ops, let them handle their own inference
-                        None
-                    }
-                }
-            }
-            Origin::Arg { callee, index } => {
-                semantic_index.expression(*callee).and_then(|callee_info| {
-                    match &callee_info.ast_node {
-                        // Use builder-recorded mapping for the callee identifier
-                        Expression::Identifier(_name) => semantic_index
-                            .definition_for_identifier_expr(*callee)
-                            .and_then(|(def_idx, _)| {
-                                let def_id = DefinitionId::new(db, file, def_idx);
-                                function_semantic_signature(db, crate_id, def_id).and_then(
-                                    |signature_id| {
-                                        let params = signature_id.params(db);
-                                        params.get(*index).map(|(_, param_type)| *param_type)
-                                    },
-                                )
-                            }),
-                        _ => None,
-                    }
-                })
-            }
-            Origin::Condition { .. } => Some(TypeId::new(db, TypeData::Bool)),
-            Origin::ReturnExpr => {
-                // The return type of the function around the expression is its context
-                semantic_index
-                    .all_definitions()
-                    .find(|(_, def)| {
-                        matches!(def.kind, DefinitionKind::Function(_))
-                            && def.full_span.start <= expr_info.ast_span.start
-                            && expr_info.ast_span.end <= def.full_span.end
-                    })
-                    .and_then(|(def_idx, _)| {
-                        let def_id = DefinitionId::new(db, file, def_idx);
-                        function_semantic_signature(db, crate_id, def_id)
-                    })
-                    .map(|signature| signature.return_type(db))
-            }
-            Origin::StructField { parent, field, .. } => {
-                semantic_index.expression(*parent).and_then(|parent_info| {
-                    if let Expression::StructLiteral { name, .. } = &parent_info.ast_node {
-                        semantic_index
-                            .resolve_name_at_position(
-                                name.value(),
-                                parent_info.scope_id,
-                                name.span(),
-                            )
-                            .and_then(|(_def_idx, definition)| match &definition.kind {
-                                DefinitionKind::Struct(struct_def) => struct_def
-                                    .fields_ast
-                                    .iter()
-                                    .find(|(field_name, _)| field_name == field)
-                                    .map(|(_, field_type)| {
-                                        resolve_ast_type(
-                                            db,
-                                            crate_id,
-                                            file,
-                                            field_type.clone(),
-                                            parent_info.scope_id,
-                                        )
-                                    }),
-                                _ => None,
-                            })
-                    } else {
-                        None
-                    }
-                })
-            }
-            // Avoid deriving from TupleElem/ArrayElem origins to prevent cycles.
-            _ => None,
-        }
-    } else {
-        context_expected
-    };
+    // If context_expected is None, derive it from where the expression stands.
+    let context_expected = context_expected
+        .or_else(|| context_from_origin(db, crate_id, file, &semantic_index, expression_id));
 
     // Access the AST node directly from ExpressionInfo - no lookup needed!
     match &expr_info.ast_node {
@@ -504,39 +417,15 @@ pub fn expression_semantic_type<'db>(
             let left_id = semantic_index.expression_id_by_span(left.span()).unwrap();
             let right_id = semantic_index.expression_id_by_span(right.span()).unwrap();
 
-            // For commutative operators, we need to be smarter about type inference
-            // First, check if either operand is a literal - if so, we want to infer its type from the other operand
-            let is_commutative = matches!(
-                op,
-                BinaryOp::Add | BinaryOp::Mul | BinaryOp::Eq | BinaryOp::Neq
-            );
-
-            let (left_type, right_type) = if is_commutative {
-                // Check if left is a literal and right has a concrete type
-                let left_expr = &semantic_index.expression(left_id).unwrap().ast_node;
-                let right_expr = &semantic_index.expression(right_id).unwrap().ast_node;
-
-                let left_is_unsuffixed_literal = matches!(left_expr, Expression::Literal(_, None));
-                let right_is_unsuffixed_literal =
-                    matches!(right_expr, Expression::Literal(_, None));
-
-                if left_is_unsuffixed_literal && !right_is_unsuffixed_literal {
-                    // Infer right first, then use it as context for left
-                    let right_type =
-                        expression_semantic_type(db, crate_id, file, right_id, context_expected);
-                    let left_type =
-                        expression_semantic_type(db, crate_id, file, left_id, Some(right_type));
-                    (left_type, right_type)
-                } else {
-                    // Default behavior: left first, then right with left as context
-                    let left_type =
-                        expression_semantic_type(db, crate_id, file, left_id, context_expected);
-                    let right_type =
-                        expression_semantic_type(db, crate_id, file, right_id, Some(left_type));
-                    (left_type, right_type)
-                }
+            // A bare literal on the left of a commutative operator takes the type of the right
+            // operand; otherwise the left operand gives the right one its context.
+            let (left_type, right_type) = if infers_right_first(*op, left, right) {
+                let right_type =
+                    expression_semantic_type(db, crate_id, file, right_id, context_expected);
+                let left_type =
+                    expression_semantic_type(db, crate_id, file, left_id, Some(right_type));
+                (left_type, right_type)
             } else {
-                // Non-commutative operators: always left first, then right
                 let left_type =
                     expression_semantic_type(db, crate_id, file, left_id, context_expected);
                 let right_type =
@@ -850,6 +739,136 @@ pub fn expression_semantic_type<'db>(
     }
 }
 
+/// The type that the place of an expression expects of it, if any.
+///
+/// Only looks at what surrounds the expression and at its siblings, never at the expression itself.
+fn context_from_origin<'db>(
+    db: &'db dyn SemanticDb,
+    crate_id: Crate,
+    file: File,
+    semantic_index: &SemanticIndex,
+    expression_id: ExpressionId,
+) -> Option<TypeId<'db>> {
+    let expr_info = semantic_index.expression(expression_id)?;
+    match &expr_info.origin {
+        Origin::AssignmentRhs { lhs } => {
+            Some(expression_semantic_type(db, crate_id, file, *lhs, None))
+        }
+        Origin::Arg { callee, index } => {
+            semantic_index.expression(*callee).and_then(|callee_info| {
+                match &callee_info.ast_node {
+                    // Use builder-recorded mapping for the callee identifier
+                    Expression::Identifier(_name) => semantic_index
+                        .definition_for_identifier_expr(*callee)
+                        .and_then(|(def_idx, _)| {
+                            let def_id = DefinitionId::new(db, file, def_idx);
+                            function_semantic_signature(db, crate_id, def_id).and_then(
+                                |signature_id| {
+                                    let params = signature_id.params(db);
+                                    params.get(*index).map(|(_, param_type)| *param_type)
+                                },
+                            )
+                        }),
+                    _ => None,
+                }
+            })
+        }
+        Origin::Condition { .. } => Some(TypeId::new(db, TypeData::Bool)),
+        Origin::ReturnExpr => {
+            // The return type of the function around the expression is its context
+            semantic_index
+                .all_definitions()
+                .find(|(_, def)| {
+                    matches!(def.kind, DefinitionKind::Function(_))
+                        && def.full_span.start <= expr_info.ast_span.start
+                        && expr_info.ast_span.end <= def.full_span.end
+                })
+                .and_then(|(def_idx, _)| {
+                    let def_id = DefinitionId::new(db, file, def_idx);
+                    function_semantic_signature(db, crate_id, def_id)
+                })
+                .map(|signature| signature.return_type(db))
+        }
+        Origin::StructField { parent, field, .. } => {
+            semantic_index.expression(*parent).and_then(|parent_info| {
+                if let Expression::StructLiteral { name, .. } = &parent_info.ast_node {
+                    semantic_index
+                        .resolve_name_at_position(
+                            name.value(),
+                            parent_info.scope_id,
+                            name.span(),
+                        )
+                        .and_then(|(_def_idx, definition)| match &definition.kind {
+                            DefinitionKind::Struct(struct_def) => struct_def
+                                .fields_ast
+                                .iter()
+                                .find(|(field_name, _)| field_name == field)
+                                .map(|(_, field_type)| {
+                                    resolve_ast_type(
+                                        db,
+                                        crate_id,
+                                        file,
+                                        field_type.clone(),
+                                        parent_info.scope_id,
+                                    )
+                                }),
+                            _ => None,
+                        })
+                } else {
+                    None
+                }
+            })
+        }
+        Origin::Operand { parent } => {
+            let context = context_from_origin(db, crate_id, file, semantic_index, *parent);
+            match &semantic_index.expression(*parent)?.ast_node {
+                Expression::BinaryOp { left, op, right } => {
+                    let left_id = semantic_index.expression_id_by_span(left.span())?;
+                    let right_id = semantic_index.expression_id_by_span(right.span())?;
+                    // The operand that gives the other one its context is typed first
+                    let (first, second) = if infers_right_first(*op, left, right) {
+                        (right_id, left_id)
+                    } else {
+                        (left_id, right_id)
+                    };
+                    if expression_id == second {
+                        Some(expression_semantic_type(db, crate_id, file, first, context))
+                    } else {
+                        context
+                    }
+                }
+                _ => context,
+            }
+        }
+        Origin::TupleElem { parent, index } => {
+            match context_from_origin(db, crate_id, file, semantic_index, *parent)?.data(db) {
+                TypeData::Tuple(elements) => elements.get(*index).copied(),
+                _ => None,
+            }
+        }
+        Origin::ArrayElem { parent, .. } => {
+            match context_from_origin(db, crate_id, file, semantic_index, *parent)?.data(db) {
+                TypeData::FixedArray { element_type, .. } => Some(element_type),
+                _ => None,
+            }
+        }
+        Origin::Plain => None,
+    }
+}
+
+/// Whether a binary operator takes the type of its left operand, a bare literal, from the right one.
+const fn infers_right_first(
+    op: BinaryOp,
+    left: &Spanned<Expression>,
+    right: &Spanned<Expression>,
+) -> bool {
+    matches!(
+        op,
+        BinaryOp::Add | BinaryOp::Mul | BinaryOp::Eq | BinaryOp::Neq
+    ) && matches!(left.value(), Expression::Literal(_, None))
+        && !matches!(right.value(), Expression::Literal(_, None))
+}
+
 /// Retrieves the semantic data for a struct definition
 #[salsa::tracked]
 pub fn struct_semantic_data<'db>(
diff --git a/crates/compiler/semantic/src/validation/type_validator.rs b/crates/compiler/semantic/src/validation/type_validator.rs
index e54bb79..ff08ecd 100644
--- a/crates/compiler/semantic/src/validation/type_validator.rs
+++ b/crates/compiler/semantic/src/validation/type_validator.rs
@@ -1376,7 +1376,7 @@ impl TypeValidator {
                     .with_location(file.file_path(db).to_string(), expr_info.ast_span),
                 );
             }
-            Origin::Plain => {
+            Origin::Plain | Origin::Operand { .. } => {
                 // Fallback to generic type mismatch message
                 sink.push(
                     Diagnostic::error(
-- 
2.43.0


From 53e96ee741af6b774652585328caf7b818b3b101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:27 +0000
Subject: [PATCH 25/68] fix: wrap the negation of a u32 instead of computing it
 in the field

---
 crates/compiler/mir/src/lowering/expr.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/crates/compiler/mir/src/lowering/expr.rs b/crates/compiler/mir/src/lowering/expr.rs
index 120d087..15e19d6 100644
--- a/crates/compiler/mir/src/lowering/expr.rs
+++ b/crates/compiler/mir/src/lowering/expr.rs
@@ -235,6 +235,18 @@ impl<'a, 'db> MirBuilder<'a, 'db> {
         // Query semantic type system for result type based on this expression
         let result_type = self.ctx.get_expr_type(expr_id);
 
+        // The negation of a u32 wraps like its subtraction from zero
+        if op == UnaryOp::Neg && result_type == MirType::U32 {
+            let dest = self.state.mir_function.new_typed_value_id(result_type);
+            self.instr().binary_op_to(
+                crate::BinaryOp::U32Sub,
+                dest,
+                Value::integer(0),
+                expr_value,
+            );
+            return Ok(LoweredExpr::new(Value::operand(dest)));
+        }
+
         // Use the new unary_op API that allocates its own destination
         let dest = self.instr().unary_op(op, expr_value, result_type);
 
-- 
2.43.0


From 30c5c17ab42793154aed3ed947b697ef509fb278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:53 +0000
Subject: [PATCH 26/68] fix: do not take the context of call arguments and
 casts from the result's annotation

---
 .../compiler/semantic/src/semantic_index.rs   | 39 +++++++++++--------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/crates/compiler/semantic/src/semantic_index.rs b/crates/compiler/semantic/src/semantic_index.rs
index 0eb9ce1..73e399f 100644
--- a/crates/compiler/semantic/src/semantic_index.rs
+++ b/crates/compiler/semantic/src/semantic_index.rs
@@ -1096,21 +1096,26 @@ impl<'db, 'sink> SemanticIndexBuilder<'db, 'sink> {
             }
             Expression::FunctionCall { callee, args } => {
                 self.visit_expr(callee);
-                // Get the callee expression ID for context
-                if let Some(callee_expr_id) = self.index.expression_id_by_span(callee.span()) {
-                    for (index, arg) in args.iter().enumerate() {
-                        let arg_origin = Origin::Arg {
-                            callee: callee_expr_id,
-                            index,
-                        };
-                        self.visit_expr_with_origin(arg, arg_origin);
-                    }
-                } else {
-                    // Fallback: visit arguments without special origin if callee not found
-                    for arg in args {
-                        self.visit_expr(arg);
+                // Arguments take their context from the parameters, not from the type that is
+                // expected of the result
+                self.with_expected_type(None, |builder| {
+                    // Get the callee expression ID for context
+                    if let Some(callee_expr_id) = builder.index.expression_id_by_span(callee.span())
+                    {
+                        for (index, arg) in args.iter().enumerate() {
+                            let arg_origin = Origin::Arg {
+                                callee: callee_expr_id,
+                                index,
+                            };
+                            builder.visit_expr_with_origin(arg, arg_origin);
+                        }
+                    } else {
+                        // Fallback: visit arguments without special origin if callee not found
+                        for arg in args {
+                            builder.visit_expr(arg);
+                        }
                     }
-                }
+                });
             }
             Expression::MemberAccess { object, .. } => {
                 self.visit_expr(object);
@@ -1335,8 +1340,10 @@ impl<'db, 'sink> SemanticIndexBuilder<'db, 'sink> {
                 expr,
                 target_type: _,
             } => {
-                // Visit the expression being cast
-                self.visit_expr(expr);
+                // Visit the expression being cast; its type is not the one expected of the result
+                self.with_expected_type(None, |builder| {
+                    builder.visit_expr(expr);
+                });
             }
             Expression::Literal(_, _) | Expression::BooleanLiteral(_) => {
                 // Leaf nodes - no sub-expressions
-- 
2.43.0


From bb105c891db00ba5939d86454988fd6b79ec29c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:28 +0000
Subject: [PATCH 27/68] fix: keep operations that can fail when their result is
 unused

---
 crates/compiler/mir/src/instruction.rs           | 16 +++++++++++++++-
 .../mir/src/passes/dead_code_elimination.rs      |  4 ++--
 crates/compiler/mir/src/passes/local_cse.rs      |  4 +++-
 3 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/crates/compiler/mir/src/instruction.rs b/crates/compiler/mir/src/instruction.rs
index 2e9fa70..f6aa156 100644
--- a/crates/compiler/mir/src/instruction.rs
+++ b/crates/compiler/mir/src/instruction.rs
@@ -9,7 +9,7 @@ use cairo_m_compiler_parser::parser::UnaryOp;
 use chumsky::span::SimpleSpan;
 
 use crate::value_visitor::{replace_place_value_ids, visit_place, visit_value, visit_values};
-use crate::{BasicBlockId, MirType, Place, PrettyPrint, Value, ValueId};
+use crate::{BasicBlockId, Literal, MirType, Place, PrettyPrint, Value, ValueId};
 
 /// Binary operators supported in MIR
 ///
@@ -979,6 +979,20 @@ impl Instruction {
         )
     }
 
+    /// Returns true if executing this instruction can fail: a division by zero, or a cast of a
+    /// value that its target type cannot hold.
+    pub const fn may_fail(&self) -> bool {
+        match &self.kind {
+            InstructionKind::BinaryOp {
+                op: BinaryOp::Div | BinaryOp::U32Div | BinaryOp::U32Rem,
+                right,
+                ..
+            } => !matches!(right, Value::Literal(Literal::Integer(1..))),
+            InstructionKind::Cast { .. } => true,
+            _ => false,
+        }
+    }
+
     /// Returns true if this instruction is pure (no side effects, result only depends on inputs)
     pub const fn is_pure(&self) -> bool {
         !self.has_side_effects()
diff --git a/crates/compiler/mir/src/passes/dead_code_elimination.rs b/crates/compiler/mir/src/passes/dead_code_elimination.rs
index 140297a..c9ef5f7 100644
--- a/crates/compiler/mir/src/passes/dead_code_elimination.rs
+++ b/crates/compiler/mir/src/passes/dead_code_elimination.rs
@@ -89,8 +89,8 @@ impl DeadCodeElimination {
                 let before = block.instructions.len();
 
                 block.instructions.retain(|instr| {
-                    // Preserve side-effecting operations unconditionally
-                    if instr.has_side_effects() {
+                    // Preserve operations that have side effects or can fail unconditionally
+                    if instr.has_side_effects() || instr.may_fail() {
                         return true;
                     }
 
diff --git a/crates/compiler/mir/src/passes/local_cse.rs b/crates/compiler/mir/src/passes/local_cse.rs
index abe9c1e..ee6036b 100644
--- a/crates/compiler/mir/src/passes/local_cse.rs
+++ b/crates/compiler/mir/src/passes/local_cse.rs
@@ -267,7 +267,9 @@ impl LocalCSE {
         if let Some(block) = function.basic_blocks.get_mut(block_id) {
             // Remove instructions whose destinations are no longer used
             block.instructions.retain(|instr| {
-                if let Some(dest) = instr.destination() {
+                if instr.has_side_effects() || instr.may_fail() {
+                    true
+                } else if let Some(dest) = instr.destination() {
                     // Keep instruction if its result is still used
                     use_counts.get(&dest).copied().unwrap_or(0) > 0
                 } else {
-- 
2.43.0


From a5fa6b791eae9464aedafd701a86e61dd27a2f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:21 +0000
Subject: [PATCH 28/68] fix: only literals are negative literals

---
 .../src/validation/literal_validator.rs         | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/crates/compiler/semantic/src/validation/literal_validator.rs b/crates/compiler/semantic/src/validation/literal_validator.rs
index b0bd80b..de0ae24 100644
--- a/crates/compiler/semantic/src/validation/literal_validator.rs
+++ b/crates/compiler/semantic/src/validation/literal_validator.rs
@@ -158,6 +158,15 @@ impl Validator for LiteralValidator {
     }
 }
 
+/// Whether an expression is a number, possibly in parentheses
+fn is_literal(expr: &Expression) -> bool {
+    match expr {
+        Expression::Literal(..) => true,
+        Expression::Parenthesized(inner) => is_literal(inner.value()),
+        _ => false,
+    }
+}
+
 impl LiteralValidator {
     /// Check if a literal value fits within u32 range
     fn check_u32_literal(
@@ -191,8 +200,8 @@ impl LiteralValidator {
             }
             Expression::UnaryOp {
                 op: UnaryOp::Neg,
-                expr: _,
-            } => {
+                expr,
+            } if is_literal(expr.value()) => {
                 // Negative values are not allowed for u32
                 sink.push(
                     Diagnostic::error(
@@ -247,8 +256,8 @@ impl LiteralValidator {
             }
             Expression::UnaryOp {
                 op: UnaryOp::Neg,
-                expr: _,
-            } => {
+                expr,
+            } if is_literal(expr.value()) => {
                 // Negative values are not allowed for felt in Cairo-M (uses M31 field)
                 sink.push(
                     Diagnostic::error(
-- 
2.43.0


From c7231619214394072eb6d3f78c4b07f9be1bcfe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:02 +0000
Subject: [PATCH 29/68] fix: give array elements the type of the first one as
 context

---
 crates/compiler/semantic/src/type_resolution.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/crates/compiler/semantic/src/type_resolution.rs b/crates/compiler/semantic/src/type_resolution.rs
index 2781ed9..e85914b 100644
--- a/crates/compiler/semantic/src/type_resolution.rs
+++ b/crates/compiler/semantic/src/type_resolution.rs
@@ -846,10 +846,19 @@ fn context_from_origin<'db>(
                 _ => None,
             }
         }
-        Origin::ArrayElem { parent, .. } => {
-            match context_from_origin(db, crate_id, file, semantic_index, *parent)?.data(db) {
-                TypeData::FixedArray { element_type, .. } => Some(element_type),
+        Origin::ArrayElem { parent, index } => {
+            let context = context_from_origin(db, crate_id, file, semantic_index, *parent);
+            let declared = match context.map(|ty| ty.data(db)) {
+                Some(TypeData::FixedArray { element_type, .. }) => Some(element_type),
                 _ => None,
+            };
+            match &semantic_index.expression(*parent)?.ast_node {
+                // The first element gives the others their context
+                Expression::ArrayLiteral(elements) if *index > 0 => {
+                    let first_id = semantic_index.expression_id_by_span(elements[0].span())?;
+                    Some(expression_semantic_type(db, crate_id, file, first_id, declared))
+                }
+                _ => declared,
             }
         }
         Origin::Plain => None,
-- 
2.43.0


From c44eb3826dc6e90a86c50fb8770a3e6656aaee9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:27 +0000
Subject: [PATCH 30/68] verif hook: a bound on the number of segments of a run

---
 crates/runner/src/vm/mod.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/crates/runner/src/vm/mod.rs b/crates/runner/src/vm/mod.rs
index 329a655..951ae34 100644
--- a/crates/runner/src/vm/mod.rs
+++ b/crates/runner/src/vm/mod.rs
@@ -18,6 +18,11 @@ use thiserror::Error;
 use crate::RunnerOptions;
 use crate::memory::{MAX_ADDRESS, Memory, MemoryError};
 
+/// Lets the verification harness stop a run that does not end.
+#[cfg(cairo_m_vp)]
+pub static VP_MAX_SEGMENTS: std::sync::atomic::AtomicUsize =
+    std::sync::atomic::AtomicUsize::new(usize::MAX);
+
 /// The status of the overall program execution.
 ///
 /// - `Complete`: The program has reached the final program counter (PC) and is complete.
@@ -277,7 +282,15 @@ impl VM {
         loop {
             match self.execute(options.max_steps) {
                 Ok(ExecutionStatus::Complete) => break self.finalize_segment(true),
-                Ok(ExecutionStatus::Ongoing) => self.finalize_segment(false),
+                Ok(ExecutionStatus::Ongoing) => {
+                    self.finalize_segment(false);
+                    #[cfg(cairo_m_vp)]
+                    if self.segments.len()
+                        >= VP_MAX_SEGMENTS.load(std::sync::atomic::Ordering::Relaxed)
+                    {
+                        return Err(VmError::Io(std::io::Error::other("too many segments")));
+                    }
+                }
                 Err(e) => return Err(e),
             }
         }
-- 
2.43.0


From 64904a7bd5875bb2c6c66285b4f5429c886e9775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:27 +0000
Subject: [PATCH 31/68] fix: order the copies that replace phi nodes so that
 none reads an overwritten value

---
 .../mir/src/passes/phi_elimination.rs         | 111 ++++++------------
 1 file changed, 39 insertions(+), 72 deletions(-)

diff --git a/crates/compiler/mir/src/passes/phi_elimination.rs b/crates/compiler/mir/src/passes/phi_elimination.rs
index bde659d..c22157a 100644
--- a/crates/compiler/mir/src/passes/phi_elimination.rs
+++ b/crates/compiler/mir/src/passes/phi_elimination.rs
@@ -225,8 +225,19 @@ impl PhiElimination {
             return Vec::new();
         }
 
-        // Special case: single copy
-        if copies.len() == 1 {
+        // A copy of a value to itself does nothing
+        let copies: Vec<_> = copies
+            .into_iter()
+            .filter(|copy| {
+                !matches!(
+                    &copy.kind,
+                    InstructionKind::Assign { dest, source: Value::Operand(src_id), .. } if dest == src_id
+                )
+            })
+            .collect();
+
+        // Special case: at most a single copy
+        if copies.len() <= 1 {
             return copies;
         }
 
@@ -240,84 +251,40 @@ impl PhiElimination {
             );
         }
 
-        let mut sequenced = Vec::new();
-        let mut processed = HashSet::new();
+        // The non-cyclic copies come first, in dependency order: they may read the destination
+        // of a cyclic copy, while a cyclic copy only reads destinations of its own cycle.
+        let in_cycle: HashSet<ValueId> = cycles.iter().flatten().copied().collect();
+        let (cyclic, acyclic): (Vec<_>, Vec<_>) = copies.into_iter().partition(
+            |copy| matches!(&copy.kind, InstructionKind::Assign { dest, .. } if in_cycle.contains(dest)),
+        );
+        let mut sequenced = self.topological_sort_copies(acyclic, &graph);
 
-        // Handle cycles first by breaking them with temporaries
+        // Break each cycle with a temporary
         for cycle in cycles {
-            if cycle.len() <= 1 {
-                continue; // Skip trivial cycles
-            }
-
             self.stats.cycles_broken += 1;
 
-            // Find the actual copy instructions for this cycle
-            let mut cycle_copies = Vec::new();
-            for copy in &copies {
-                if let InstructionKind::Assign { dest, .. } = &copy.kind {
-                    if cycle.contains(dest) {
-                        cycle_copies.push(copy.clone());
-                        processed.insert(*dest);
-                    }
-                }
-            }
-
-            if cycle_copies.is_empty() {
-                continue;
-            }
-
-            // Break the cycle using a temporary
-            // Save the first source to a temporary
-            if let InstructionKind::Assign { source, ty, .. } = &cycle_copies[0].kind {
-                let temp = function.new_value_id();
+            // The copies of the cycle, each of which reads the destination of the next one
+            let mut cycle_copies: Vec<_> = cycle
+                .iter()
+                .filter_map(|id| {
+                    cyclic.iter().find(|copy| {
+                        matches!(&copy.kind, InstructionKind::Assign { dest, .. } if dest == id)
+                    })
+                })
+                .cloned()
+                .collect();
+
+            // Save the destination that the first copy overwrites: the last copy reads it
+            if let Some(InstructionKind::Assign { source, ty, .. }) =
+                cycle_copies.last_mut().map(|copy| &mut copy.kind)
+            {
+                let temp = function.new_typed_value_id(ty.clone());
                 sequenced.push(Instruction::assign(temp, *source, ty.clone()));
-
-                // Perform the cycle rotations
-                for i in 0..cycle_copies.len() - 1 {
-                    if let (
-                        InstructionKind::Assign {
-                            dest: dest1,
-                            ty: ty1,
-                            ..
-                        },
-                        InstructionKind::Assign {
-                            source: source2, ..
-                        },
-                    ) = (&cycle_copies[i].kind, &cycle_copies[i + 1].kind)
-                    {
-                        sequenced.push(Instruction::assign(*dest1, *source2, ty1.clone()));
-                    }
-                }
-
-                // Restore from temporary to complete the cycle
-                if let InstructionKind::Assign {
-                    dest: last_dest,
-                    ty: last_ty,
-                    ..
-                } = &cycle_copies[cycle_copies.len() - 1].kind
-                {
-                    sequenced.push(Instruction::assign(
-                        *last_dest,
-                        Value::Operand(temp),
-                        last_ty.clone(),
-                    ));
-                }
+                *source = Value::Operand(temp);
             }
+            sequenced.extend(cycle_copies);
         }
 
-        // Add non-cyclic copies in dependency order
-        let mut remaining_copies = Vec::new();
-        for copy in copies {
-            if let InstructionKind::Assign { dest, .. } = &copy.kind {
-                if !processed.contains(dest) {
-                    remaining_copies.push(copy);
-                }
-            }
-        }
-
-        // Topological sort for remaining copies
-        sequenced.extend(self.topological_sort_copies(remaining_copies, &graph));
-
         sequenced
     }
 
-- 
2.43.0


From bdf3899be71d23992e435d853f5a14f754e3d9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:27 +0000
Subject: [PATCH 32/68] fix: let no variable keep a removed phi node as its
 definition

---
 crates/compiler/mir/src/function.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/crates/compiler/mir/src/function.rs b/crates/compiler/mir/src/function.rs
index 46b0f94..48027b8 100644
--- a/crates/compiler/mir/src/function.rs
+++ b/crates/compiler/mir/src/function.rs
@@ -537,7 +537,11 @@ impl MirFunction {
             block_value_pairs.push((pred, operand));
         }
 
-        // Update the phi instruction with operands
+        // Update the phi instruction with operands. Reading from one predecessor may have removed
+        // a phi that another one gave: what replaced it is then the definition there.
+        for (pred, operand) in &mut block_value_pairs {
+            *operand = self.read_variable(var, *pred);
+        }
         self.update_phi_operands(phi_block, phi, block_value_pairs);
 
         // Try trivial phi elimination
@@ -612,6 +616,17 @@ impl MirFunction {
         // Phi is trivial - replace all uses with the unique operand
         self.replace_value_uses(phi, replacement);
 
+        // Later reads must see the replacement too, whichever variable or block they go through
+        for value in self
+            .current_def
+            .values_mut()
+            .chain(self.locals.values_mut())
+        {
+            if *value == phi {
+                *value = replacement;
+            }
+        }
+
         // Remove phi instruction
         self.remove_phi_instruction(phi_block, phi);
 
-- 
2.43.0


From bf16db4de3c76eb1174f35b38557998c0d88a0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:27 +0000
Subject: [PATCH 33/68] fix: do not merge arrays that have the same elements

---
 crates/compiler/mir/src/passes/local_cse.rs | 19 +++----------------
 1 file changed, 3 insertions(+), 16 deletions(-)

diff --git a/crates/compiler/mir/src/passes/local_cse.rs b/crates/compiler/mir/src/passes/local_cse.rs
index ee6036b..c2a79cc 100644
--- a/crates/compiler/mir/src/passes/local_cse.rs
+++ b/crates/compiler/mir/src/passes/local_cse.rs
@@ -178,22 +178,9 @@ impl PureExpressionKey {
             // Cast operations - skip for now
             InstructionKind::Cast { .. } => None,
 
-            // Array operations - can be CSE'd similar to tuples
-            InstructionKind::MakeFixedArray { elements, .. } => {
-                // Only handle all-operand arrays
-                let element_ids: Option<Vec<ValueId>> = elements
-                    .iter()
-                    .map(|v| match v {
-                        Value::Operand(id) => Some(*id),
-                        _ => None,
-                    })
-                    .collect();
-
-                element_ids.map(|ids| Self::MakeTuple {
-                    elements: ids,
-                    tuple_type: MirType::Unknown, // Use MakeTuple variant for simplicity
-                })
-            }
+            // Each array has its own storage, which may be written to: two arrays with the same
+            // elements are not the same value
+            InstructionKind::MakeFixedArray { .. } => None,
         }
     }
 }
-- 
2.43.0


From 31fd20f7d9359acd46a4ecc28a787cf01e5cc070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:27 +0000
Subject: [PATCH 34/68] fix: remove unreachable blocks in unoptimised builds
 and update phi sources with them

---
 crates/compiler/mir/src/passes.rs             |  5 +++-
 .../mir/src/passes/dead_code_elimination.rs   | 28 ++++++++++++++++---
 2 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/crates/compiler/mir/src/passes.rs b/crates/compiler/mir/src/passes.rs
index db747e2..1d8feb9 100644
--- a/crates/compiler/mir/src/passes.rs
+++ b/crates/compiler/mir/src/passes.rs
@@ -79,7 +79,10 @@ impl PassManager {
     }
 
     pub fn no_opt_pipeline() -> Self {
-        Self::new().add_pass(PhiElimination::new())
+        Self::new()
+            // Unreachable code may hold incomplete phi nodes, which can't be lowered
+            .add_pass(DeadCodeElimination::blocks_only())
+            .add_pass(PhiElimination::new())
     }
 
     /// Create a standard optimization pipeline (default)
diff --git a/crates/compiler/mir/src/passes/dead_code_elimination.rs b/crates/compiler/mir/src/passes/dead_code_elimination.rs
index c9ef5f7..c4b010a 100644
--- a/crates/compiler/mir/src/passes/dead_code_elimination.rs
+++ b/crates/compiler/mir/src/passes/dead_code_elimination.rs
@@ -3,7 +3,7 @@ use std::collections::{HashMap, HashSet};
 use index_vec::IndexVec;
 
 use super::MirPass;
-use crate::{BasicBlockId, MirFunction, Terminator};
+use crate::{BasicBlockId, InstructionKind, MirFunction, Terminator};
 
 /// Dead Code Elimination Pass
 ///
@@ -13,12 +13,20 @@ use crate::{BasicBlockId, MirFunction, Terminator};
 ///   no longer used, iterating to a fixed point. This cleans up temporaries that
 ///   become unused after constant propagation/folding and CSE.
 #[derive(Debug, Default)]
-pub struct DeadCodeElimination;
+pub struct DeadCodeElimination {
+    /// Whether to only remove the unreachable blocks
+    blocks_only: bool,
+}
 
 impl DeadCodeElimination {
     /// Create a new dead code elimination pass
     pub const fn new() -> Self {
-        Self
+        Self { blocks_only: false }
+    }
+
+    /// Create a pass that removes the unreachable blocks and leaves the instructions as they are
+    pub const fn blocks_only() -> Self {
+        Self { blocks_only: true }
     }
 
     /// Remap all basic-block targets inside a terminator according to `map`.
@@ -158,6 +166,18 @@ impl MirPass for DeadCodeElimination {
                 if let Some(block) = new_blocks.get_mut(bid) {
                     let new_term = Self::remap_terminator(block.terminator.clone(), &old_to_new);
                     block.terminator = new_term;
+
+                    // A phi node keeps the sources that come from the kept predecessors
+                    for instruction in &mut block.instructions {
+                        if let InstructionKind::Phi { sources, .. } = &mut instruction.kind {
+                            sources.retain_mut(|(pred, _)| {
+                                old_to_new.get(pred).is_some_and(|new_pred| {
+                                    *pred = *new_pred;
+                                    true
+                                })
+                            });
+                        }
+                    }
                 }
             }
 
@@ -177,7 +197,7 @@ impl MirPass for DeadCodeElimination {
         }
 
         // 6) Remove dead pure instructions to a fixed point
-        if self.remove_dead_instructions(function) {
+        if !self.blocks_only && self.remove_dead_instructions(function) {
             modified = true;
         }
 
-- 
2.43.0


From dd4a3020279200d28095d6ad5923994066dd99ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:01 +0000
Subject: [PATCH 35/68] fix: split aggregates into scalars only when nothing
 else sees their storage

---
 crates/compiler/mir/src/passes/sroa.rs | 807 +++++++++++--------------
 1 file changed, 357 insertions(+), 450 deletions(-)

diff --git a/crates/compiler/mir/src/passes/sroa.rs b/crates/compiler/mir/src/passes/sroa.rs
index cd29991..8e6b63f 100644
--- a/crates/compiler/mir/src/passes/sroa.rs
+++ b/crates/compiler/mir/src/passes/sroa.rs
@@ -472,40 +472,35 @@ impl ScalarReplacementOfAggregates {
         family
     }
 
-    /// Check if any value in an array's SSA family has non-constant index usage.
-    fn array_family_has_dynamic_index_use(
+    /// Check that the values of an array's SSA family are only read and written element by
+    /// element, through constant in-bounds indices.
+    ///
+    /// Any other use (a call, a field of another aggregate, ...) may share the storage of the
+    /// array, so that the array must exist in memory.
+    fn array_family_is_accessed_by_element(
         &self,
         root: ValueId,
+        array_ty: &MirType,
         instructions: &[Instruction],
         function: &MirFunction,
     ) -> bool {
         let family = self.build_aggregate_family(root, instructions, function);
+        let is_element = |place: &crate::Place| projected_type(array_ty, &place.projections).is_some();
 
-        // Check for non-constant indexing on any member of the family
-        for inst in instructions {
-            match &inst.kind {
-                InstructionKind::Load { place, .. } => {
-                    if family.contains(&place.base) {
-                        if let Some(crate::Projection::Index(v)) = place.projections.first() {
-                            if !matches!(v, crate::Value::Literal(crate::Literal::Integer(_))) {
-                                return true;
-                            }
-                        }
-                    }
-                }
-                InstructionKind::Store { place, .. } => {
-                    if family.contains(&place.base) {
-                        if let Some(crate::Projection::Index(v)) = place.projections.first() {
-                            if !matches!(v, crate::Value::Literal(crate::Literal::Integer(_))) {
-                                return true;
-                            }
-                        }
-                    }
-                }
-                _ => {}
+        instructions.iter().all(|inst| match &inst.kind {
+            InstructionKind::Load { place, .. } if family.contains(&place.base) => is_element(place),
+            InstructionKind::Store { place, value, .. } if family.contains(&place.base) => {
+                is_element(place) && value.as_operand().is_none_or(|id| !family.contains(&id))
             }
-        }
-        false
+            // A store elsewhere copies the elements
+            InstructionKind::Store { value, .. }
+                if value.as_operand().is_some_and(|id| family.contains(&id)) =>
+            {
+                true
+            }
+            InstructionKind::Assign { dest, .. } if family.contains(dest) => true,
+            _ => inst.used_values().is_disjoint(&family.iter().copied().collect()),
+        })
     }
 
     /// Find aggregates that are used across block boundaries.
@@ -758,6 +753,7 @@ impl MirPass for ScalarReplacementOfAggregates {
 
         // Phase 1: Analyze which aggregates are used across block boundaries
         let cross_block_aggregates = self.find_cross_block_aggregates(function);
+        let uses = find_uses(function);
 
         // Process blocks one by one; preserve phi prefix ordering
         let block_count = function.block_count();
@@ -795,6 +791,8 @@ impl MirPass for ScalarReplacementOfAggregates {
 
             // Map: aggregate ValueId → AggState
             let mut agg_states: FxHashMap<ValueId, AggState> = FxHashMap::default();
+            // Map: copy of a tracked array → that array
+            let mut array_copies: FxHashMap<ValueId, ValueId> = FxHashMap::default();
 
             let mut block_modified = false;
 
@@ -807,18 +805,18 @@ impl MirPass for ScalarReplacementOfAggregates {
                     // 1) Build aggregate → capture state, drop instruction
                     InstructionKind::MakeTuple { dest, elements } if self.config.enable_tuples => {
                         let Some(ty @ MirType::Tuple(_)) = function.get_value_type(*dest) else {
-                            new_instrs.push(inst);
+                            keep(function, &mut new_instrs, &mut agg_states, inst);
                             continue;
                         };
 
                         if !self.is_scalarizable(ty) {
-                            new_instrs.push(inst);
+                            keep(function, &mut new_instrs, &mut agg_states, inst);
                             continue;
                         }
 
                         // Skip scalarization if used across blocks in phase 1
                         if cross_block_aggregates.contains(dest) {
-                            new_instrs.push(inst);
+                            keep(function, &mut new_instrs, &mut agg_states, inst);
                             continue;
                         }
 
@@ -854,7 +852,7 @@ impl MirPass for ScalarReplacementOfAggregates {
                         }
 
                         if !can_scalarize {
-                            new_instrs.push(inst);
+                            keep(function, &mut new_instrs, &mut agg_states, inst);
                             continue;
                         }
 
@@ -879,7 +877,7 @@ impl MirPass for ScalarReplacementOfAggregates {
                         );
 
                         if !can_scalarize {
-                            new_instrs.push(inst);
+                            keep(function, &mut new_instrs, &mut agg_states, inst);
                             continue;
                         }
 
@@ -891,7 +889,7 @@ impl MirPass for ScalarReplacementOfAggregates {
                             .or(Some(struct_ty))
                             .filter(|t| matches!(t, MirType::Struct { .. }))
                         else {
-                            new_instrs.push(inst);
+                            keep(function, &mut new_instrs, &mut agg_states, inst);
                             continue;
                         };
 
@@ -900,7 +898,7 @@ impl MirPass for ScalarReplacementOfAggregates {
                             self.stats.scalarized_builds += 1;
                             block_modified = true;
                         } else {
-                            new_instrs.push(inst);
+                            keep(function, &mut new_instrs, &mut agg_states, inst);
                         }
                     }
 
@@ -910,22 +908,22 @@ impl MirPass for ScalarReplacementOfAggregates {
                     {
                         let Some(ty @ MirType::FixedArray { .. }) = function.get_value_type(*dest)
                         else {
-                            new_instrs.push(inst);
+                            keep(function, &mut new_instrs, &mut agg_states, inst);
                             continue;
                         };
 
                         if !self.is_scalarizable(ty) {
-                            new_instrs.push(inst);
+                            keep(function, &mut new_instrs, &mut agg_states, inst);
                             continue;
                         }
 
                         // Skip scalarization if used across blocks in phase 1
                         if cross_block_aggregates.contains(dest) {
-                            new_instrs.push(inst);
+                            keep(function, &mut new_instrs, &mut agg_states, inst);
                             continue;
                         }
 
-                        // Full decision: general recursive checks AND no dynamic index in the array family
+                        // Full decision: general recursive checks AND only accesses by element in the array family
                         let mut visited = FxHashSet::default();
                         let can_scalarize_general = self.can_scalarize_aggregate(
                             dest,
@@ -935,15 +933,16 @@ impl MirPass for ScalarReplacementOfAggregates {
                             &mut visited,
                         );
 
-                        let family_has_dynamic_index = self.array_family_has_dynamic_index_use(
+                        let accessed_by_element = self.array_family_is_accessed_by_element(
                             *dest,
+                            ty,
                             &all_instructions,
                             function,
                         );
 
-                        if !can_scalarize_general || family_has_dynamic_index {
+                        if !can_scalarize_general || !accessed_by_element {
                             // Keep as real array (do not SROA)
-                            new_instrs.push(inst);
+                            keep(function, &mut new_instrs, &mut agg_states, inst);
                             continue;
                         }
 
@@ -962,16 +961,16 @@ impl MirPass for ScalarReplacementOfAggregates {
                         tuple_ty: _,
                     } if self.config.enable_tuples => {
                         let Some(src_id) = tuple_val.as_operand() else {
-                            new_instrs.push(inst);
+                            keep(function, &mut new_instrs, &mut agg_states, inst);
                             continue;
                         };
-                        let Some(src_state) = agg_states.get(&src_id).cloned() else {
-                            new_instrs.push(inst);
+                        let Some(src_state) = agg_states.get(&src_id).map(AggState::shared) else {
+                            keep(function, &mut new_instrs, &mut agg_states, inst);
                             continue;
                         };
                         let mut next = src_state;
                         if *index >= next.elems.len() {
-                            new_instrs.push(inst);
+                            keep(function, &mut new_instrs, &mut agg_states, inst);
                             continue;
                         }
                         next.elems[*index] = *new_value;
@@ -988,20 +987,20 @@ impl MirPass for ScalarReplacementOfAggregates {
                         struct_ty,
                     } if self.config.enable_structs => {
                         let Some(src_id) = struct_val.as_operand() else {
-                            new_instrs.push(inst);
+                            keep(function, &mut new_instrs, &mut agg_states, inst);
                             continue;
                         };
-                        let Some(src_state) = agg_states.get(&src_id).cloned() else {
-                            new_instrs.push(inst);
+                        let Some(src_state) = agg_states.get(&src_id).map(AggState::shared) else {
+                            keep(function, &mut new_instrs, &mut agg_states, inst);
                             continue;
                         };
                         let Some(field_index) = struct_field_index(struct_ty, field_name) else {
-                            new_instrs.push(inst);
+                            keep(function, &mut new_instrs, &mut agg_states, inst);
                             continue;
                         };
                         let mut next = src_state;
                         if field_index >= next.elems.len() {
-                            new_instrs.push(inst);
+                            keep(function, &mut new_instrs, &mut agg_states, inst);
                             continue;
                         }
                         next.elems[field_index] = *new_value;
@@ -1018,15 +1017,15 @@ impl MirPass for ScalarReplacementOfAggregates {
                         element_ty,
                     } if self.config.enable_tuples => {
                         let Some(src_id) = tuple.as_operand() else {
-                            new_instrs.push(inst);
+                            keep(function, &mut new_instrs, &mut agg_states, inst);
                             continue;
                         };
                         let Some(state) = agg_states.get(&src_id) else {
-                            new_instrs.push(inst);
+                            keep(function, &mut new_instrs, &mut agg_states, inst);
                             continue;
                         };
                         if *index >= state.elems.len() {
-                            new_instrs.push(inst);
+                            keep(function, &mut new_instrs, &mut agg_states, inst);
                             continue;
                         }
                         let scalar = state.elems[*index];
@@ -1035,7 +1034,7 @@ impl MirPass for ScalarReplacementOfAggregates {
                         if let Value::Operand(elem_val_id) = &scalar {
                             if let Some(elem_state) = agg_states.get(elem_val_id) {
                                 // The extracted element is a scalarized aggregate - propagate its state
-                                agg_states.insert(*dest, elem_state.clone());
+                                agg_states.insert(*dest, elem_state.shared());
                                 self.stats.extracts_rewritten += 1;
                                 block_modified = true;
                                 continue;
@@ -1055,25 +1054,25 @@ impl MirPass for ScalarReplacementOfAggregates {
                         field_ty,
                     } if self.config.enable_structs => {
                         let Some(src_id) = struct_val.as_operand() else {
-                            new_instrs.push(inst);
+                            keep(function, &mut new_instrs, &mut agg_states, inst);
                             continue;
                         };
                         let Some(MirType::Struct { fields, .. }) = function.get_value_type(src_id)
                         else {
-                            new_instrs.push(inst);
+                            keep(function, &mut new_instrs, &mut agg_states, inst);
                             continue;
                         };
                         let Some(field_index) = fields.iter().position(|(n, _)| n == field_name)
                         else {
-                            new_instrs.push(inst);
+                            keep(function, &mut new_instrs, &mut agg_states, inst);
                             continue;
                         };
                         let Some(state) = agg_states.get(&src_id) else {
-                            new_instrs.push(inst);
+                            keep(function, &mut new_instrs, &mut agg_states, inst);
                             continue;
                         };
                         if field_index >= state.elems.len() {
-                            new_instrs.push(inst);
+                            keep(function, &mut new_instrs, &mut agg_states, inst);
                             continue;
                         }
                         let scalar = state.elems[field_index];
@@ -1082,7 +1081,7 @@ impl MirPass for ScalarReplacementOfAggregates {
                         if let Value::Operand(field_val_id) = &scalar {
                             if let Some(field_state) = agg_states.get(field_val_id) {
                                 // The extracted field is a scalarized aggregate - propagate its state
-                                agg_states.insert(*dest, field_state.clone());
+                                agg_states.insert(*dest, field_state.shared());
                                 self.stats.extracts_rewritten += 1;
                                 block_modified = true;
                                 continue;
@@ -1095,137 +1094,74 @@ impl MirPass for ScalarReplacementOfAggregates {
                         block_modified = true;
                     }
 
-                    // Handle Load through aggregates with constant projections (arrays/tuples/structs)
-                    InstructionKind::Load { dest, place, ty } if self.config.enable_tuples => {
-                        // Only attempt forwarding if base is a tracked aggregate and first step is constant index (array)
-                        let Some(crate::Projection::Index(crate::Value::Literal(
-                            crate::Literal::Integer(_),
-                        ))) = place.projections.first()
-                        else {
-                            new_instrs.push(inst);
-                            continue;
-                        };
-
-                        if !agg_states.contains_key(&place.base) {
-                            new_instrs.push(inst);
-                            continue;
-                        }
-
-                        // Try to forward the entire projection chain
-                        if let Some(final_val) = forward_projection_chain(
+                    // Load an element of a tracked array, or a component of it
+                    InstructionKind::Load { dest, place, ty }
+                        if is_tracked_array(function, &agg_states, &array_copies, place.base) =>
+                    {
+                        let base = array_copies.get(&place.base).unwrap_or(&place.base);
+                        let value = project(
                             function,
+                            &mut new_instrs,
                             &agg_states,
-                            Value::operand(place.base),
+                            Value::operand(*base),
                             &place.projections,
-                        ) {
-                            // If we ended on a tracked aggregate operand and expecting an aggregate type,
-                            // propagate its state instead of assigning the operand directly
-                            if let Value::Operand(agg_id) = final_val {
-                                if let Some(state) = agg_states.get(&agg_id) {
-                                    if matches!(
-                                        ty,
-                                        MirType::Tuple(_)
-                                            | MirType::Struct { .. }
-                                            | MirType::FixedArray { .. }
-                                    ) {
-                                        agg_states.insert(*dest, state.clone());
-                                        self.stats.extracts_rewritten += 1;
-                                        block_modified = true;
-                                        continue;
-                                    }
-                                }
-                            }
+                        );
+                        self.stats.extracts_rewritten += 1;
+                        block_modified = true;
 
-                            new_instrs.push(Instruction::assign(*dest, final_val, ty.clone()));
-                            self.stats.extracts_rewritten += 1;
-                            block_modified = true;
+                        // If the component is a tracked aggregate, propagate its state
+                        if let Some(state) =
+                            value.as_operand().and_then(|id| agg_states.get(&id)).map(AggState::shared)
+                        {
+                            agg_states.insert(*dest, state);
                         } else {
-                            new_instrs.push(inst);
+                            new_instrs.push(Instruction::assign(*dest, value, ty.clone()));
                         }
                     }
 
-                    // Treat Store into aggregates: forward if we can resolve entire projection chain.
-                    // If forwarding is not possible but the stored `value` is a tracked aggregate,
-                    // we must materialize it right before the Store to avoid leaving a dangling use.
-                    InstructionKind::Store { place, value, ty } if self.config.enable_tuples => {
-                        if try_forward_store_chain(function, &mut agg_states, place, *value) {
-                            self.stats.inserts_forwarded += 1;
-                            block_modified = true;
-                            // Store forwarded into state; drop instruction
-                            continue;
-                        }
-
-                        // Forwarding failed. If `value` references a tracked aggregate state,
-                        // materialize the aggregate and rewrite the Store to use the new value.
-                        if let Value::Operand(agg_id) = value
-                            && matches!(
-                                ty,
-                                MirType::Tuple(_)
-                                    | MirType::Struct { .. }
-                                    | MirType::FixedArray { .. }
-                            )
-                        {
-                            if let Some(state) = agg_states.get(agg_id) {
-                                // Create aggregate value from state using the expected store type
-                                let mat_id = materialize(function, &mut new_instrs, state, ty);
-                                // Rewrite Store to use the freshly materialized aggregate
-                                let mut rewritten = inst.clone();
-                                if let InstructionKind::Store { ref mut value, .. } = rewritten.kind
-                                {
-                                    *value = Value::operand(mat_id);
-                                }
-                                new_instrs.push(rewritten);
-                                block_modified = true;
-                                continue;
-                            }
+                    // Store to an element of a tracked array, or to a component of it
+                    InstructionKind::Store { place, value, .. }
+                        if is_tracked_array(function, &agg_states, &array_copies, place.base) =>
+                    {
+                        let base = *array_copies.get(&place.base).unwrap_or(&place.base);
+                        let (first, rest) = place
+                            .projections
+                            .split_first()
+                            .expect("a tracked array is accessed by element");
+                        let index = projection_index(function, base, first);
+                        let old = agg_states[&base].elems[index];
+                        let new = update(
+                            function,
+                            &mut new_instrs,
+                            &mut agg_states,
+                            old,
+                            rest,
+                            *value,
+                        );
+                        if let Some(state) = agg_states.get_mut(&base) {
+                            state.elems[index] = new;
                         }
-
-                        // Fallback: keep original store as-is
-                        new_instrs.push(inst)
+                        self.stats.inserts_forwarded += 1;
+                        block_modified = true;
                     }
 
-                    // Treat Load with constant projections as extract/load forwarding (duplicate arm consolidated)
-                    InstructionKind::Load { dest, place, ty } if self.config.enable_tuples => {
-                        let Some(crate::Projection::Index(crate::Value::Literal(
-                            crate::Literal::Integer(_),
-                        ))) = place.projections.first()
-                        else {
-                            new_instrs.push(inst);
-                            continue;
-                        };
-
-                        if !agg_states.contains_key(&place.base) {
-                            new_instrs.push(inst);
-                            continue;
-                        }
-
-                        if let Some(final_val) = forward_projection_chain(
-                            function,
-                            &agg_states,
-                            Value::operand(place.base),
-                            &place.projections,
-                        ) {
-                            if let Value::Operand(agg_id) = final_val {
-                                if let Some(state) = agg_states.get(&agg_id) {
-                                    if matches!(
-                                        ty,
-                                        MirType::Tuple(_)
-                                            | MirType::Struct { .. }
-                                            | MirType::FixedArray { .. }
-                                    ) {
-                                        agg_states.insert(*dest, state.clone());
-                                        self.stats.extracts_rewritten += 1;
-                                        block_modified = true;
-                                        continue;
-                                    }
-                                }
-                            }
-                            new_instrs.push(Instruction::assign(*dest, final_val, ty.clone()));
-                            self.stats.extracts_rewritten += 1;
-                            block_modified = true;
-                        } else {
-                            new_instrs.push(inst);
-                        }
+                    // Store a tracked aggregate elsewhere: materialize it right before the store
+                    InstructionKind::Store { place, value, ty }
+                        if value.as_operand().is_some_and(|id| {
+                            let id = array_copies.get(&id).unwrap_or(&id);
+                            agg_states.contains_key(id)
+                        }) =>
+                    {
+                        let id = value.as_operand().expect("checked above");
+                        let id = array_copies.get(&id).unwrap_or(&id);
+                        let state = agg_states[id].shared();
+                        let mat_id = function.new_typed_value_id(ty.clone());
+                        agg_states.insert(mat_id, state);
+                        let store =
+                            Instruction::store(place.clone(), Value::operand(mat_id), ty.clone());
+                        keep(function, &mut new_instrs, &mut agg_states, store);
+                        self.stats.materializations += 1;
+                        block_modified = true;
                     }
 
                     // 4) Aggregate Assign forwarding (copy-prop for aggregates)
@@ -1235,114 +1171,48 @@ impl MirPass for ScalarReplacementOfAggregates {
                         ty: MirType::Tuple(_) | MirType::Struct { .. } | MirType::FixedArray { .. },
                     } => {
                         if let Value::Operand(src_id) = source {
-                            if let Some(state) = agg_states.get(src_id).cloned() {
-                                agg_states.insert(*dest, state);
+                            if is_tracked_array(function, &agg_states, &array_copies, *src_id) {
+                                // Both values are the same array
+                                let root = *array_copies.get(src_id).unwrap_or(src_id);
+                                array_copies.insert(*dest, root);
                                 self.stats.assigns_forwarded += 1;
                                 block_modified = true;
-                                // Drop the assign (no materialization yet)
                                 continue;
                             }
-                        }
-                        new_instrs.push(inst)
-                    }
-
-                    // 5) Calls & Stores: materialize only the aggregate arguments that need it
-                    InstructionKind::Call {
-                        dests,
-                        callee,
-                        args,
-                        signature,
-                    } => {
-                        let mut new_args = args.clone();
-                        let mut touched = false;
-
-                        for (i, arg) in args.iter().enumerate() {
-                            let Some(Value::Operand(id)) = Some(arg).filter(|v| v.is_operand())
-                            else {
-                                continue;
-                            };
-
-                            let needs_agg = matches!(
-                                signature.param_types.get(i),
-                                Some(MirType::Tuple(_))
-                                    | Some(MirType::Struct { .. })
-                                    | Some(MirType::FixedArray { .. })
-                            );
-                            if !needs_agg {
-                                continue;
-                            }
-
-                            if let Some(state) = agg_states.get(id) {
-                                // Use the signature type for exact shape
-                                let Some(param_ty) = signature.param_types.get(i).cloned() else {
-                                    continue;
-                                };
-                                let mat_id =
-                                    materialize(function, &mut new_instrs, state, &param_ty);
-                                new_args[i] = Value::operand(mat_id);
-                                self.stats.materializations += 1;
-                                touched = true;
+                            if let Some(state) = agg_states.get(src_id).map(AggState::shared) {
+                                agg_states.insert(*dest, state);
+                                self.stats.assigns_forwarded += 1;
                                 block_modified = true;
+                                // Drop the assign (no materialization yet)
+                                continue;
                             }
                         }
-
-                        if touched {
-                            new_instrs.push(Instruction::call(
-                                dests.clone(),
-                                *callee,
-                                new_args,
-                                signature.clone(),
-                            ));
-                        } else {
-                            new_instrs.push(inst);
-                        }
+                        keep(function, &mut new_instrs, &mut agg_states, inst)
                     }
 
-                    // Everything else: keep as-is
-                    _ => new_instrs.push(inst),
+                    // 5) Everything else (calls, stores, ...): materialize the aggregates it uses
+                    _ => keep(function, &mut new_instrs, &mut agg_states, inst),
                 }
             }
 
-            // Process terminator - materialize any scalarized aggregates in returns
-            let mut new_return_values = None;
-            let terminator_values = if let Some(block) = function.get_basic_block(bb) {
-                if let crate::Terminator::Return { values } = &block.terminator {
-                    Some(values.clone())
-                } else {
-                    None
-                }
-            } else {
-                None
-            };
-
-            if let Some(values) = terminator_values {
-                let mut updated_values = values.clone();
-                let mut any_materialized = false;
-
-                // Collect aggregates to materialize first
-                let mut to_materialize = Vec::new();
-                for (i, val) in values.iter().enumerate() {
-                    if let Value::Operand(id) = val {
-                        if let Some(state) = agg_states.get(id) {
-                            if let Some(ty) = function.get_value_type(*id) {
-                                to_materialize.push((i, state.clone(), ty.clone()));
-                            }
-                        }
+            // Materialize the scalarized aggregates that the terminator or other blocks use
+            let mut live_out: Vec<ValueId> = agg_states
+                .keys()
+                .chain(array_copies.keys())
+                .filter(|id| uses.get(id).is_some_and(|u| u.is_used_after(bb)))
+                .copied()
+                .collect();
+            live_out.sort_unstable();
+            for id in live_out {
+                if let Some(root) = array_copies.get(&id) {
+                    materialize(function, &mut new_instrs, &mut agg_states, *root);
+                    if let Some(ty) = function.get_value_type(id).cloned() {
+                        new_instrs.push(Instruction::assign(id, Value::operand(*root), ty));
                     }
+                } else {
+                    materialize(function, &mut new_instrs, &mut agg_states, id);
                 }
-
-                // Now materialize them
-                for (i, state, ty) in to_materialize {
-                    let mat_id = materialize(function, &mut new_instrs, &state, &ty);
-                    updated_values[i] = Value::operand(mat_id);
-                    self.stats.materializations += 1;
-                    any_materialized = true;
-                    block_modified = true;
-                }
-
-                if any_materialized {
-                    new_return_values = Some(updated_values);
-                }
+                self.stats.materializations += 1;
             }
 
             if block_modified {
@@ -1351,11 +1221,6 @@ impl MirPass for ScalarReplacementOfAggregates {
                     // Reinstall updated instruction list: phi prefix + rewritten tail
                     block_mut.instructions.clear();
                     block_mut.instructions.extend(new_instrs);
-
-                    // Update terminator if it was modified
-                    if let Some(new_vals) = new_return_values {
-                        block_mut.terminator = crate::Terminator::Return { values: new_vals };
-                    }
                 }
             }
         }
@@ -1384,11 +1249,21 @@ impl MirPass for ScalarReplacementOfAggregates {
 struct AggState {
     /// Elements are in tuple order, or struct field declaration order
     elems: Vec<Value>,
+    /// Whether the value that this is the state of has been materialized
+    materialized: bool,
 }
 
 impl AggState {
     const fn tuple(elements: Vec<Value>) -> Self {
-        Self { elems: elements }
+        Self {
+            elems: elements,
+            materialized: false,
+        }
+    }
+
+    /// The state of another value with the same components
+    fn shared(&self) -> Self {
+        Self::tuple(self.elems.clone())
     }
 
     /// Build a state for a struct, aligning to the *type* field order
@@ -1404,7 +1279,10 @@ impl AggState {
                 return None; // missing field initialization (be conservative)
             }
         }
-        Some(Self { elems })
+        Some(Self {
+            elems,
+            materialized: false,
+        })
     }
 }
 
@@ -1415,201 +1293,230 @@ fn struct_field_index(ty: &MirType, name: &str) -> Option<usize> {
     }
 }
 
-/// Create a concrete aggregate value (MakeTuple/MakeStruct) from components,
-/// insert it *before* the current use by pushing into `sink`, and return the new ValueId
-fn materialize(
-    func: &mut MirFunction,
-    sink: &mut Vec<Instruction>,
-    state: &AggState,
-    ty: &MirType,
-) -> ValueId {
-    match ty {
-        MirType::Tuple(elem_tys) => {
-            // Sanity check on arity; if mismatch, truncate/pad with unit (defensive)
-            let mut elems = state.elems.clone();
-            if elems.len() != elem_tys.len() {
-                elems.truncate(elem_tys.len());
-                while elems.len() < elem_tys.len() {
-                    elems.push(Value::unit());
+/// Where a value is used
+#[derive(Debug, Default)]
+struct Uses {
+    /// Blocks that use the value in an instruction other than a phi
+    blocks: FxHashSet<BasicBlockId>,
+    /// Blocks that use the value in their terminator
+    terminators: FxHashSet<BasicBlockId>,
+    /// Whether a phi uses the value
+    phi: bool,
+}
+
+impl Uses {
+    /// Whether the value, defined in `block`, is used after the instructions of this block
+    fn is_used_after(&self, block: BasicBlockId) -> bool {
+        self.phi || !self.terminators.is_empty() || self.blocks.iter().any(|used| *used != block)
+    }
+}
+
+fn find_uses(function: &MirFunction) -> FxHashMap<ValueId, Uses> {
+    let mut uses: FxHashMap<ValueId, Uses> = FxHashMap::default();
+    for (block_id, block) in function.basic_blocks.iter_enumerated() {
+        for inst in &block.instructions {
+            for id in inst.used_values() {
+                let entry = uses.entry(id).or_default();
+                if inst.is_phi() {
+                    entry.phi = true;
+                } else {
+                    entry.blocks.insert(block_id);
                 }
             }
-            let dest = func.new_typed_value_id(ty.clone());
-            sink.push(Instruction::make_tuple(dest, elems));
-            dest
         }
-        MirType::Struct { fields, .. } => {
-            // Rebuild in declared order with names
-            let mut pairs: Vec<(String, Value)> = Vec::with_capacity(fields.len());
-            for (i, (name, _fty)) in fields.iter().enumerate() {
-                let v = state.elems.get(i).cloned().unwrap_or_else(Value::unit);
-                pairs.push((name.clone(), v));
-            }
-            let dest = func.new_typed_value_id(ty.clone());
-            sink.push(Instruction::make_struct(dest, pairs, ty.clone()));
-            dest
+        for id in block.terminator.used_values() {
+            uses.entry(id).or_default().terminators.insert(block_id);
         }
-        MirType::FixedArray { element_type, size } => {
-            // Rebuild array from elements. The tracked element count must match the array size.
-            assert_eq!(
-                state.elems.len(),
-                *size,
-                "SROA materialize: array element count mismatch (have {}, want {})",
-                state.elems.len(),
-                size
-            );
-            let dest = func.new_typed_value_id(ty.clone());
-            sink.push(Instruction::make_fixed_array(
-                dest,
-                state.elems.clone(),
-                (**element_type).clone(),
-            ));
-            dest
+    }
+    uses
+}
+
+/// The index of the component of an aggregate type that a projection selects, and its type
+fn component(ty: &MirType, projection: &Projection) -> Option<(usize, MirType)> {
+    match (ty, projection) {
+        (MirType::FixedArray { element_type, size }, Projection::Index(index)) => {
+            let index = index.as_const_integer()? as usize;
+            (index < *size).then(|| (index, (**element_type).clone()))
+        }
+        (MirType::Tuple(types), Projection::Tuple(index)) => {
+            Some((*index, types.get(*index)?.clone()))
         }
-        _ => {
-            // Not an aggregate; should not be called
-            func.new_typed_value_id(ty.clone())
+        (MirType::Struct { fields, .. }, Projection::Field(name)) => {
+            let index = struct_field_index(ty, name)?;
+            Some((index, fields[index].1.clone()))
         }
+        _ => None,
     }
 }
 
-#[cfg(test)]
-#[path = "sroa_tests.rs"]
-mod tests;
-/// Attempt to forward a chain of projections through tracked aggregate state.
-///
-/// Starting from a base aggregate `base_id` and its AggState, apply the
-/// provided `projections` (Index/Tuple/Field) in order, returning either a
-/// final scalar `Value` or, when the last projection stops at an aggregate
-/// that is itself tracked, propagate that aggregate state to the destination
-/// via the provided callback.
-///
-/// Returns Some(Value) when the chain fully resolves to a scalar or a non-tracked
-/// operand. Returns None when the chain cannot be resolved (e.g., dynamic index,
-/// missing aggregate state, or mismatched projection for the aggregate kind).
-fn forward_projection_chain(
+/// The type that a chain of projections selects in an array, if it starts with an index into the
+/// array and goes on through tuples and structs.
+fn projected_type(array_ty: &MirType, projections: &[Projection]) -> Option<MirType> {
+    let (first, rest) = projections.split_first()?;
+    let mut ty = component(array_ty, first)?.1;
+    for projection in rest {
+        if matches!(ty, MirType::FixedArray { .. }) {
+            return None;
+        }
+        ty = component(&ty, projection)?.1;
+    }
+    Some(ty)
+}
+
+fn is_tracked_array(
     function: &MirFunction,
     agg_states: &FxHashMap<ValueId, AggState>,
-    current: Value,
+    array_copies: &FxHashMap<ValueId, ValueId>,
+    id: ValueId,
+) -> bool {
+    let root = array_copies.get(&id).unwrap_or(&id);
+    agg_states.contains_key(root)
+        && matches!(
+            function.get_value_type(*root),
+            Some(MirType::FixedArray { .. })
+        )
+}
+
+/// The component of the aggregate `id` that a projection selects
+fn projection_index(function: &MirFunction, id: ValueId, projection: &Projection) -> usize {
+    projection_component(function, id, projection).0
+}
+
+fn projection_component(
+    function: &MirFunction,
+    id: ValueId,
+    projection: &Projection,
+) -> (usize, MirType) {
+    function
+        .get_value_type(id)
+        .and_then(|ty| component(ty, projection))
+        .expect("a tracked array is accessed through valid projections")
+}
+
+/// Read the component of `value` that `projections` select.
+fn project(
+    function: &mut MirFunction,
+    sink: &mut Vec<Instruction>,
+    agg_states: &FxHashMap<ValueId, AggState>,
+    value: Value,
     projections: &[Projection],
-) -> Option<Value> {
-    // Walk each projection step by step, using AggState when the current value
-    // is an operand with tracked aggregate contents. If the current value is a
-    // literal, we cannot project further.
-    let mut value = current;
-
-    for proj in projections {
-        match proj {
-            Projection::Index(idx_val) => {
-                // Only handle constant indices
-                let idx = idx_val.as_const_integer().map(|x| x as usize)?;
-
-                // Expect current to be an operand referencing a tracked array/tuple aggregate
-                let cur_id = value.as_operand()?;
-                let state = agg_states.get(&cur_id)?;
-                if idx >= state.elems.len() {
-                    return None;
-                }
-                value = state.elems[idx];
-            }
-            Projection::Tuple(index) => {
-                // Tuple projection: requires a tracked tuple state
-                let cur_id = value.as_operand()?;
-                let state = agg_states.get(&cur_id)?;
-                let i = *index;
-                if i >= state.elems.len() {
-                    return None;
-                }
-                value = state.elems[i];
-            }
+) -> Value {
+    let Some((first, rest)) = projections.split_first() else {
+        return value;
+    };
+    let id = value
+        .as_operand()
+        .expect("only operands have components");
+    let (index, ty) = projection_component(function, id, first);
+    let inner = if let Some(state) = agg_states.get(&id) {
+        state.elems[index]
+    } else {
+        let dest = function.new_typed_value_id(ty.clone());
+        sink.push(match first {
             Projection::Field(name) => {
-                // Struct field projection: requires we can locate field index from type
-                let cur_id = value.as_operand()?;
-                let ty = function.get_value_type(cur_id)?;
-                let field_index = struct_field_index(ty, name)?;
-                let state = agg_states.get(&cur_id)?;
-                if field_index >= state.elems.len() {
-                    return None;
-                }
-                value = state.elems[field_index];
+                Instruction::extract_struct_field(dest, value, name.clone(), ty)
             }
-        }
-    }
-
-    Some(value)
+            _ => Instruction::extract_tuple_element(dest, value, index, ty),
+        });
+        Value::operand(dest)
+    };
+    project(function, sink, agg_states, inner, rest)
 }
 
-/// Try to forward an in-place Store through tracked aggregate states.
-///
-/// Supports nested projections starting from an array element with a constant index,
-/// followed by zero or more tuple/field/index projections. Updates the corresponding
-/// AggState leaf with `new_value` and returns true if successful. Returns false if
-/// any step cannot be resolved conservatively, in which case the original Store
-/// must be kept.
-fn try_forward_store_chain(
-    function: &MirFunction,
+/// Create the value that differs from `value` in the component that `projections` select.
+fn update(
+    function: &mut MirFunction,
+    sink: &mut Vec<Instruction>,
     agg_states: &mut FxHashMap<ValueId, AggState>,
-    place: &crate::Place,
+    value: Value,
+    projections: &[Projection],
     new_value: Value,
-) -> bool {
-    // Require base to be a tracked array/tuple aggregate and first step to be constant index
-    let Some(Projection::Index(Value::Literal(Literal::Integer(idx)))) = place.projections.first()
-    else {
-        return false;
+) -> Value {
+    let Some((first, rest)) = projections.split_first() else {
+        return new_value;
     };
-
-    let Some(state) = agg_states.get_mut(&place.base) else {
-        return false;
+    let id = value
+        .as_operand()
+        .expect("only operands have components");
+    let index = projection_index(function, id, first);
+    let inner = if rest.is_empty() {
+        new_value
+    } else {
+        let old = project(function, sink, agg_states, value, std::slice::from_ref(first));
+        update(function, sink, agg_states, old, rest, new_value)
     };
-    let i = *idx as usize;
-    if i >= state.elems.len() {
-        return false;
+    let ty = function
+        .get_value_type(id)
+        .cloned()
+        .expect("an aggregate has a type");
+    let dest = function.new_typed_value_id(ty.clone());
+    if let Some(mut state) = agg_states.get(&id).map(AggState::shared) {
+        state.elems[index] = inner;
+        agg_states.insert(dest, state);
+    } else {
+        sink.push(match first {
+            Projection::Field(name) => {
+                Instruction::insert_field(dest, value, name.clone(), inner, ty)
+            }
+            _ => Instruction::insert_tuple(dest, value, index, inner, ty),
+        });
     }
+    Value::operand(dest)
+}
 
-    // If there is only one projection (pure array element update), replace the element
-    if place.projections.len() == 1 {
-        state.elems[i] = new_value;
-        return true;
+/// Keep an instruction, after creating the scalarized aggregates that it uses.
+fn keep(
+    function: &mut MirFunction,
+    sink: &mut Vec<Instruction>,
+    agg_states: &mut FxHashMap<ValueId, AggState>,
+    inst: Instruction,
+) {
+    let mut used: Vec<ValueId> = inst.used_values().into_iter().collect();
+    used.sort_unstable();
+    for id in used {
+        materialize(function, sink, agg_states, id);
     }
+    sink.push(inst);
+}
 
-    // Otherwise, walk nested projections starting from the selected element
-    let mut current_val = state.elems[i];
-    let mut projections_iter = place.projections.iter().skip(1).peekable();
-
-    while let Some(proj) = projections_iter.next() {
-        // We must have an operand referencing a tracked aggregate state to go deeper
-        let Some(cur_id) = current_val.as_operand() else {
-            return false;
-        };
-        let Some(cur_state) = agg_states.get_mut(&cur_id) else {
-            return false;
-        };
-
-        // Determine the child index based on projection kind
-        let child_index_opt: Option<usize> = match proj {
-            Projection::Tuple(ti) => Some(*ti),
-            Projection::Field(name) => function
-                .get_value_type(cur_id)
-                .and_then(|ty| struct_field_index(ty, name)),
-            Projection::Index(v) => v.as_const_integer().map(|x| x as usize),
-        };
-
-        let Some(child_index) = child_index_opt else {
-            return false;
-        };
-        if child_index >= cur_state.elems.len() {
-            return false;
+/// Create the concrete value of a scalarized aggregate (MakeTuple/MakeStruct/MakeFixedArray)
+/// from its components, unless this was done before.
+fn materialize(
+    func: &mut MirFunction,
+    sink: &mut Vec<Instruction>,
+    agg_states: &mut FxHashMap<ValueId, AggState>,
+    id: ValueId,
+) {
+    let Some(state) = agg_states.get_mut(&id) else {
+        return;
+    };
+    if std::mem::replace(&mut state.materialized, true) {
+        return;
+    }
+    let elems = state.elems.clone();
+    for elem in elems.iter().filter_map(Value::as_operand) {
+        materialize(func, sink, agg_states, elem);
+    }
+    match func.get_value_type(id).cloned() {
+        Some(MirType::Struct { fields, name }) => {
+            let pairs = fields
+                .iter()
+                .map(|(name, _)| name.clone())
+                .zip(elems)
+                .collect();
+            sink.push(Instruction::make_struct(
+                id,
+                pairs,
+                MirType::Struct { fields, name },
+            ));
         }
-
-        let is_last = projections_iter.peek().is_none();
-        if is_last {
-            // Perform the leaf update
-            cur_state.elems[child_index] = new_value;
-            return true;
-        } else {
-            // Descend into the child for the next iteration
-            current_val = cur_state.elems[child_index];
+        Some(MirType::FixedArray { element_type, .. }) => {
+            sink.push(Instruction::make_fixed_array(id, elems, *element_type));
         }
+        _ => sink.push(Instruction::make_tuple(id, elems)),
     }
-
-    false
 }
+
+#[cfg(test)]
+#[path = "sroa_tests.rs"]
+mod tests;
-- 
2.43.0


From cdb6c7759750e0cdb892bf489f5df0d8688ca9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:01 +0000
Subject: [PATCH 36/68] fix: keep aggregates independent of their updated and
 extracted copies

---
 crates/compiler/codegen/src/aliasing.rs       | 113 ++++++++++++++++++
 crates/compiler/codegen/src/builder.rs        |  12 +-
 .../codegen/src/builder/aggregates.rs         |  34 +++++-
 crates/compiler/codegen/src/generator.rs      |   4 +-
 crates/compiler/codegen/src/lib.rs            |   1 +
 crates/compiler/mir/src/instruction.rs        |   2 +-
 crates/compiler/mir/src/terminator.rs         |   2 +-
 7 files changed, 162 insertions(+), 6 deletions(-)
 create mode 100644 crates/compiler/codegen/src/aliasing.rs

diff --git a/crates/compiler/codegen/src/aliasing.rs b/crates/compiler/codegen/src/aliasing.rs
new file mode 100644
index 0000000..57dc0ba
--- /dev/null
+++ b/crates/compiler/codegen/src/aliasing.rs
@@ -0,0 +1,113 @@
+//! # Storage sharing between aggregate values
+//!
+//! Extracting a member of an aggregate can map the result onto the member's slots, and
+//! updating a member can overwrite the aggregate in place. Both make two MIR values share
+//! storage, which is only sound while no reader of one can see a write meant for the other.
+//! This module finds the values for which that cannot be guaranteed, and which must
+//! therefore be copied into slots of their own.
+
+use cairo_m_compiler_mir::{
+    BasicBlockId, Instruction, InstructionKind, MirFunction, Value, ValueId,
+};
+use rustc_hash::{FxHashMap, FxHashSet};
+
+/// Position of an instruction; the terminator of a block comes after its last instruction.
+type Site = (BasicBlockId, usize);
+
+/// Returns the results of aggregate extractions and updates in `function` which must not
+/// share the storage of the aggregate they are taken from.
+pub(crate) fn values_needing_own_slots(function: &MirFunction) -> FxHashSet<ValueId> {
+    let mut defs: FxHashMap<ValueId, Vec<Site>> = FxHashMap::default();
+    let mut uses: FxHashMap<ValueId, Vec<Site>> = FxHashMap::default();
+    for (block_id, block) in function.basic_blocks.iter_enumerated() {
+        for (idx, instruction) in block.instructions.iter().enumerate() {
+            for dest in instruction.destinations() {
+                defs.entry(dest).or_default().push((block_id, idx));
+            }
+            for value in instruction.used_values() {
+                uses.entry(value).or_default().push((block_id, idx));
+            }
+        }
+        for value in block.terminator.used_values() {
+            uses.entry(value)
+                .or_default()
+                .push((block_id, block.instructions.len()));
+        }
+    }
+    let sites = |map: &FxHashMap<ValueId, Vec<Site>>, value: ValueId| -> Vec<Site> {
+        map.get(&value).cloned().unwrap_or_default()
+    };
+
+    let mut own = FxHashSet::default();
+    // The value whose slots a shared extraction really reads
+    let mut storage: FxHashMap<ValueId, ValueId> = FxHashMap::default();
+    for (block_id, block) in function.basic_blocks.iter_enumerated() {
+        for (idx, instruction) in block.instructions.iter().enumerate() {
+            match &instruction.kind {
+                InstructionKind::ExtractTupleElement {
+                    dest,
+                    tuple: Value::Operand(source),
+                    ..
+                }
+                | InstructionKind::ExtractStructField {
+                    dest,
+                    struct_val: Value::Operand(source),
+                    ..
+                } => {
+                    let holder = storage.get(source).copied().unwrap_or(*source);
+                    let dest_uses = sites(&uses, *dest);
+                    let last_use = dest_uses.iter().map(|(_, i)| *i).max().unwrap_or(idx);
+                    // All reads happen in this block, before the holder can be redefined
+                    let can_share = sites(&defs, *dest).len() == 1
+                        && dest_uses.iter().all(|(b, i)| *b == block_id && *i > idx)
+                        && !sites(&defs, holder)
+                            .iter()
+                            .any(|(b, i)| *b == block_id && *i > idx && *i < last_use);
+                    if can_share {
+                        storage.insert(*dest, holder);
+                    } else {
+                        own.insert(*dest);
+                    }
+                }
+                InstructionKind::InsertTuple {
+                    dest,
+                    tuple_val: Value::Operand(source),
+                    ..
+                }
+                | InstructionKind::InsertField {
+                    dest,
+                    struct_val: Value::Operand(source),
+                    ..
+                } => {
+                    // The source is a temporary of this block that nothing else reads
+                    let in_place = sites(&defs, *dest).len() == 1
+                        && sites(&uses, *source) == [(block_id, idx)]
+                        && matches!(
+                            sites(&defs, *source)[..],
+                            [(b, i)] if b == block_id
+                                && i < idx
+                                && has_fresh_storage(&block.instructions[i])
+                        );
+                    if !in_place {
+                        own.insert(*dest);
+                    }
+                }
+                _ => {}
+            }
+        }
+    }
+    own
+}
+
+/// Whether the result of `instruction` never shares its slots with another value
+const fn has_fresh_storage(instruction: &Instruction) -> bool {
+    matches!(
+        instruction.kind,
+        InstructionKind::MakeTuple { .. }
+            | InstructionKind::MakeStruct { .. }
+            | InstructionKind::InsertTuple { .. }
+            | InstructionKind::InsertField { .. }
+            | InstructionKind::Call { .. }
+            | InstructionKind::Load { .. }
+    )
+}
diff --git a/crates/compiler/codegen/src/builder.rs b/crates/compiler/codegen/src/builder.rs
index d8eaa81..3fd85b1 100644
--- a/crates/compiler/codegen/src/builder.rs
+++ b/crates/compiler/codegen/src/builder.rs
@@ -13,6 +13,7 @@
 
 use cairo_m_compiler_mir::{BinaryOp, DataLayout, Literal, MirType, Value, ValueId};
 use cairo_m_compiler_parser::parser::UnaryOp;
+use rustc_hash::FxHashSet;
 use stwo_prover::core::fields::m31::M31;
 
 use crate::{CodegenError, CodegenResult, FunctionLayout, InstructionBuilder, Label};
@@ -50,6 +51,8 @@ pub struct CasmBuilder {
     pub(super) label_counter: usize,
     /// Highest fp+ offset that has been written to (for optimization tracking)
     pub(super) max_written_offset: i32,
+    /// Extracted or updated aggregates that must not share the slots of their source
+    pub(super) own_slots: FxHashSet<ValueId>,
 }
 
 /// Represents the type of array operation to perform
@@ -62,7 +65,7 @@ pub enum ArrayOperation {
 
 impl CasmBuilder {
     /// Create a new CASM builder with the required layout
-    pub const fn new(layout: FunctionLayout, label_counter: usize) -> Self {
+    pub fn new(layout: FunctionLayout, label_counter: usize) -> Self {
         // Initialize max_written_offset based on pre-allocated layout
         // For tests and scenarios with pre-allocated values, we assume
         // all slots up to frame_size are "potentially written"
@@ -78,9 +81,16 @@ impl CasmBuilder {
             layout,
             label_counter,
             max_written_offset,
+            own_slots: FxHashSet::default(),
         }
     }
 
+    /// Sets the extracted or updated aggregates that must be copied to slots of their own
+    pub(crate) fn with_own_slots(mut self, own_slots: FxHashSet<ValueId>) -> Self {
+        self.own_slots = own_slots;
+        self
+    }
+
     /// Get the current "live" frame usage based on what's actually been written
     pub const fn live_frame_usage(&self) -> i32 {
         self.max_written_offset + 1 // Convert from 0-based offset to size
diff --git a/crates/compiler/codegen/src/builder/aggregates.rs b/crates/compiler/codegen/src/builder/aggregates.rs
index 8e4c59c..34bf7df 100644
--- a/crates/compiler/codegen/src/builder/aggregates.rs
+++ b/crates/compiler/codegen/src/builder/aggregates.rs
@@ -73,6 +73,12 @@ impl super::CasmBuilder {
         let field_size = DataLayout::memory_size_of(field_ty);
         let absolute_offset = struct_offset + field_offset as i32;
 
+        if self.own_slots.contains(&dest) {
+            let dest_offset = self.layout.allocate_local(dest, field_size)?;
+            self.copy_slots(absolute_offset, dest_offset, field_size, "");
+            return Ok(());
+        }
+
         // Map destination to the field's location
         if field_size == 1 {
             self.layout.value_layouts.insert(
@@ -94,6 +100,24 @@ impl super::CasmBuilder {
         Ok(())
     }
 
+    /// Returns the offset of the slots holding `source` in which its update `dest` can be
+    /// performed: those of `source` itself, or a copy when `source` must be preserved.
+    fn updatable_aggregate(
+        &mut self,
+        dest: ValueId,
+        source: ValueId,
+        ty: &MirType,
+    ) -> CodegenResult<i32> {
+        let source_offset = self.layout.get_offset(source)?;
+        if !self.own_slots.contains(&dest) {
+            return Ok(source_offset);
+        }
+        let size = DataLayout::memory_size_of(ty);
+        let dest_offset = self.layout.allocate_local(dest, size)?;
+        self.copy_slots(source_offset, dest_offset, size, "");
+        Ok(dest_offset)
+    }
+
     /// Inserts a new value into a struct field (in-place update)
     pub(crate) fn insert_struct_field(
         &mut self,
@@ -105,7 +129,7 @@ impl super::CasmBuilder {
     ) -> CodegenResult<()> {
         // Get struct base offset
         let struct_offset = match struct_val {
-            Value::Operand(id) => self.layout.get_offset(id)?,
+            Value::Operand(id) => self.updatable_aggregate(dest, id, struct_ty)?,
             _ => {
                 return Err(CodegenError::InvalidMir(
                     "InsertField requires operand source".to_string(),
@@ -249,6 +273,12 @@ impl super::CasmBuilder {
         let element_size = DataLayout::memory_size_of(element_ty);
         let absolute_offset = tuple_offset + element_offset as i32;
 
+        if self.own_slots.contains(&dest) {
+            let dest_offset = self.layout.allocate_local(dest, element_size)?;
+            self.copy_slots(absolute_offset, dest_offset, element_size, "");
+            return Ok(());
+        }
+
         // Map destination to the element's location
         if element_size == 1 {
             self.layout.value_layouts.insert(
@@ -281,7 +311,7 @@ impl super::CasmBuilder {
     ) -> CodegenResult<()> {
         // Get tuple base offset
         let tuple_offset = match tuple_val {
-            Value::Operand(id) => self.layout.get_offset(id)?,
+            Value::Operand(id) => self.updatable_aggregate(dest, id, tuple_ty)?,
             _ => {
                 return Err(CodegenError::InvalidMir(
                     "InsertTuple requires operand source".to_string(),
diff --git a/crates/compiler/codegen/src/generator.rs b/crates/compiler/codegen/src/generator.rs
index 6bd7294..4708c90 100644
--- a/crates/compiler/codegen/src/generator.rs
+++ b/crates/compiler/codegen/src/generator.rs
@@ -14,6 +14,7 @@ use cairo_m_compiler_mir::{
 use stwo_prover::core::fields::m31::M31;
 use stwo_prover::core::fields::qm31::QM31;
 
+use crate::aliasing::values_needing_own_slots;
 use crate::mir_passes::legalize::legalize_module_for_vm;
 use crate::{
     CasmBuilder, CodegenError, CodegenResult, FunctionLayout, InstructionBuilder, Label, passes,
@@ -368,7 +369,8 @@ impl CodeGenerator {
             .clone();
 
         // Create a builder for this function
-        let mut builder = CasmBuilder::new(layout, self.label_counter);
+        let mut builder = CasmBuilder::new(layout, self.label_counter)
+            .with_own_slots(values_needing_own_slots(function));
 
         // Add function label - but we'll fix the address later
         let func_label = Label::for_function(&function.name);
diff --git a/crates/compiler/codegen/src/lib.rs b/crates/compiler/codegen/src/lib.rs
index 5e842f3..a26449b 100644
--- a/crates/compiler/codegen/src/lib.rs
+++ b/crates/compiler/codegen/src/lib.rs
@@ -19,6 +19,7 @@ use cairo_m_common::{Instruction, InstructionError};
 use cairo_m_compiler_mir::BasicBlockId;
 use thiserror::Error;
 
+mod aliasing;
 pub mod backend;
 pub mod builder;
 pub mod db;
diff --git a/crates/compiler/mir/src/instruction.rs b/crates/compiler/mir/src/instruction.rs
index f6aa156..8935a84 100644
--- a/crates/compiler/mir/src/instruction.rs
+++ b/crates/compiler/mir/src/instruction.rs
@@ -709,7 +709,7 @@ impl Instruction {
     }
 
     /// Returns all values used by this instruction
-    pub(crate) fn used_values(&self) -> HashSet<ValueId> {
+    pub fn used_values(&self) -> HashSet<ValueId> {
         let mut used = HashSet::new();
 
         match &self.kind {
diff --git a/crates/compiler/mir/src/terminator.rs b/crates/compiler/mir/src/terminator.rs
index 4d5e7c0..4addf4f 100644
--- a/crates/compiler/mir/src/terminator.rs
+++ b/crates/compiler/mir/src/terminator.rs
@@ -133,7 +133,7 @@ impl Terminator {
     }
 
     /// Returns all values used by this terminator
-    pub(crate) fn used_values(&self) -> HashSet<crate::ValueId> {
+    pub fn used_values(&self) -> HashSet<crate::ValueId> {
         let mut used = HashSet::new();
 
         match self {
-- 
2.43.0


From 28f62aa88bcf3aa3a1322a141406cc7319f7b20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:00 +0000
Subject: [PATCH 37/68] fix: keep results read by earlier generated blocks in
 their own slots

---
 crates/compiler/codegen/src/aliasing.rs      | 30 ++++++++++++++------
 crates/compiler/codegen/src/builder.rs       |  4 +--
 crates/compiler/codegen/src/builder/calls.rs | 14 ++++++++-
 crates/compiler/codegen/src/generator.rs     | 16 +++++++++--
 4 files changed, 50 insertions(+), 14 deletions(-)

diff --git a/crates/compiler/codegen/src/aliasing.rs b/crates/compiler/codegen/src/aliasing.rs
index 57dc0ba..ddb8ff9 100644
--- a/crates/compiler/codegen/src/aliasing.rs
+++ b/crates/compiler/codegen/src/aliasing.rs
@@ -1,10 +1,16 @@
-//! # Storage sharing between aggregate values
+//! # Values that must keep the slots given by the frame layout
+//!
+//! Code generation may place a value elsewhere than in its preallocated slots: the result of
+//! a call stays where the callee left it, an argument or a returned value is computed where
+//! it is needed. This is only sound when the code reading the value is generated after the
+//! code defining it, and when there is a single definition.
 //!
 //! Extracting a member of an aggregate can map the result onto the member's slots, and
 //! updating a member can overwrite the aggregate in place. Both make two MIR values share
 //! storage, which is only sound while no reader of one can see a write meant for the other.
+//!
 //! This module finds the values for which that cannot be guaranteed, and which must
-//! therefore be copied into slots of their own.
+//! therefore be stored in their own, preallocated, slots.
 
 use cairo_m_compiler_mir::{
     BasicBlockId, Instruction, InstructionKind, MirFunction, Value, ValueId,
@@ -14,8 +20,7 @@ use rustc_hash::{FxHashMap, FxHashSet};
 /// Position of an instruction; the terminator of a block comes after its last instruction.
 type Site = (BasicBlockId, usize);
 
-/// Returns the results of aggregate extractions and updates in `function` which must not
-/// share the storage of the aggregate they are taken from.
+/// Returns the values of `function` which must be stored in their preallocated slots.
 pub(crate) fn values_needing_own_slots(function: &MirFunction) -> FxHashSet<ValueId> {
     let mut defs: FxHashMap<ValueId, Vec<Site>> = FxHashMap::default();
     let mut uses: FxHashMap<ValueId, Vec<Site>> = FxHashMap::default();
@@ -38,7 +43,17 @@ pub(crate) fn values_needing_own_slots(function: &MirFunction) -> FxHashSet<Valu
         map.get(&value).cloned().unwrap_or_default()
     };
 
-    let mut own = FxHashSet::default();
+    // Several definitions, or a read in a block generated before the definition
+    let mut own: FxHashSet<ValueId> = defs
+        .iter()
+        .filter(|(value, defs)| match defs[..] {
+            [(block_id, _)] => sites(&uses, **value)
+                .iter()
+                .any(|(b, _)| b.index() < block_id.index()),
+            _ => true,
+        })
+        .map(|(value, _)| *value)
+        .collect();
     // The value whose slots a shared extraction really reads
     let mut storage: FxHashMap<ValueId, ValueId> = FxHashMap::default();
     for (block_id, block) in function.basic_blocks.iter_enumerated() {
@@ -58,7 +73,7 @@ pub(crate) fn values_needing_own_slots(function: &MirFunction) -> FxHashSet<Valu
                     let dest_uses = sites(&uses, *dest);
                     let last_use = dest_uses.iter().map(|(_, i)| *i).max().unwrap_or(idx);
                     // All reads happen in this block, before the holder can be redefined
-                    let can_share = sites(&defs, *dest).len() == 1
+                    let can_share = !own.contains(dest)
                         && dest_uses.iter().all(|(b, i)| *b == block_id && *i > idx)
                         && !sites(&defs, holder)
                             .iter()
@@ -80,8 +95,7 @@ pub(crate) fn values_needing_own_slots(function: &MirFunction) -> FxHashSet<Valu
                     ..
                 } => {
                     // The source is a temporary of this block that nothing else reads
-                    let in_place = sites(&defs, *dest).len() == 1
-                        && sites(&uses, *source) == [(block_id, idx)]
+                    let in_place = sites(&uses, *source) == [(block_id, idx)]
                         && matches!(
                             sites(&defs, *source)[..],
                             [(b, i)] if b == block_id
diff --git a/crates/compiler/codegen/src/builder.rs b/crates/compiler/codegen/src/builder.rs
index 3fd85b1..4188ac4 100644
--- a/crates/compiler/codegen/src/builder.rs
+++ b/crates/compiler/codegen/src/builder.rs
@@ -51,7 +51,7 @@ pub struct CasmBuilder {
     pub(super) label_counter: usize,
     /// Highest fp+ offset that has been written to (for optimization tracking)
     pub(super) max_written_offset: i32,
-    /// Extracted or updated aggregates that must not share the slots of their source
+    /// Values that must be stored in their preallocated slots
     pub(super) own_slots: FxHashSet<ValueId>,
 }
 
@@ -85,7 +85,7 @@ impl CasmBuilder {
         }
     }
 
-    /// Sets the extracted or updated aggregates that must be copied to slots of their own
+    /// Sets the values that must be stored in their preallocated slots
     pub(crate) fn with_own_slots(mut self, own_slots: FxHashSet<ValueId>) -> Self {
         self.own_slots = own_slots;
         self
diff --git a/crates/compiler/codegen/src/builder/calls.rs b/crates/compiler/codegen/src/builder/calls.rs
index 28555b0..c67398e 100644
--- a/crates/compiler/codegen/src/builder/calls.rs
+++ b/crates/compiler/codegen/src/builder/calls.rs
@@ -30,6 +30,9 @@ impl super::CasmBuilder {
             .map(DataLayout::memory_size_of)
             .sum();
 
+        // Results that must not stay where the callee leaves them: (source, destination, slots)
+        let mut moved_results = Vec::new();
+
         // Map return values (if any)
         if dests.is_empty() {
             if !signature.return_types.is_empty() {
@@ -41,7 +44,13 @@ impl super::CasmBuilder {
             // Map destinations sequentially starting at return area
             let mut current_offset = args_offset + m as i32;
             for (i, dest) in dests.iter().enumerate() {
-                self.layout.map_value(*dest, current_offset);
+                if self.own_slots.contains(dest) {
+                    let size = self.layout.get_value_size(*dest);
+                    let dest_offset = self.layout.allocate_local(*dest, size)?;
+                    moved_results.push((current_offset, dest_offset, size));
+                } else {
+                    self.layout.map_value(*dest, current_offset);
+                }
                 if i < signature.return_types.len() {
                     current_offset += DataLayout::memory_size_of(&signature.return_types[i]) as i32;
                 }
@@ -67,6 +76,9 @@ impl super::CasmBuilder {
         )
         .with_label(callee_name.to_string());
         self.emit_push(instr);
+        for (src_offset, dest_offset, size) in moved_results {
+            self.copy_slots(src_offset, dest_offset, size, "");
+        }
         Ok(())
     }
 
diff --git a/crates/compiler/codegen/src/generator.rs b/crates/compiler/codegen/src/generator.rs
index 4708c90..40cab3f 100644
--- a/crates/compiler/codegen/src/generator.rs
+++ b/crates/compiler/codegen/src/generator.rs
@@ -553,6 +553,9 @@ impl CodeGenerator {
         instruction_index: usize,
         builder: &CasmBuilder,
     ) -> Option<i32> {
+        if builder.own_slots.contains(&dest) {
+            return None;
+        }
         if let Some(next_instruction) = block_instructions.get(instruction_index + 1) {
             if let InstructionKind::Call {
                 args, signature, ..
@@ -602,7 +605,8 @@ impl CodeGenerator {
 
                 // Fallback to return-value optimization
                 if target_offset.is_none() {
-                    target_offset = self.get_target_offset_for_dest(*dest, terminator, function);
+                    target_offset =
+                        self.get_target_offset_for_dest(*dest, terminator, function, builder);
                 }
 
                 // Use the unified type-aware assign method
@@ -680,7 +684,8 @@ impl CodeGenerator {
 
                 // Fallback to return-value optimization
                 if target_offset.is_none() {
-                    target_offset = self.get_target_offset_for_dest(*dest, terminator, function);
+                    target_offset =
+                        self.get_target_offset_for_dest(*dest, terminator, function, builder);
                 }
 
                 builder.unary_op(*op, *dest, *source, target_offset)?;
@@ -724,7 +729,8 @@ impl CodeGenerator {
                             | BinaryOp::U32Rem
                     )
                 {
-                    target_offset = self.get_target_offset_for_dest(*dest, terminator, function);
+                    target_offset =
+                        self.get_target_offset_for_dest(*dest, terminator, function, builder);
                 }
 
                 builder.binary_op(*op, *dest, *left, *right, target_offset)?;
@@ -1394,7 +1400,11 @@ impl CodeGenerator {
         dest: ValueId,
         terminator: &Terminator,
         function: &MirFunction,
+        builder: &CasmBuilder,
     ) -> Option<i32> {
+        if builder.own_slots.contains(&dest) {
+            return None;
+        }
         self.get_target_offsets_for_dests(&[dest], terminator, function)
             .into_iter()
             .next()
-- 
2.43.0


From b541a5e52f1faf8c9fbc9729c528eb11bf786ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:12 +0000
Subject: [PATCH 38/68] fix: write the zero elements of arrays, frames are
 reused

---
 crates/compiler/codegen/src/builder/aggregates.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/crates/compiler/codegen/src/builder/aggregates.rs b/crates/compiler/codegen/src/builder/aggregates.rs
index 34bf7df..7735248 100644
--- a/crates/compiler/codegen/src/builder/aggregates.rs
+++ b/crates/compiler/codegen/src/builder/aggregates.rs
@@ -1,4 +1,6 @@
-use cairo_m_compiler_mir::{DataLayout, Literal, MirType, Value, ValueId};
+#[cfg(test)]
+use cairo_m_compiler_mir::Literal;
+use cairo_m_compiler_mir::{DataLayout, MirType, Value, ValueId};
 
 use crate::layout::ValueLayout;
 use crate::{CodegenError, CodegenResult};
@@ -381,10 +383,6 @@ impl super::CasmBuilder {
 
         // Copy each element to its position in the array
         for (index, element) in elements.iter().enumerate() {
-            // Skip writing zeroes in memory.
-            if element == &Value::Literal(Literal::Integer(0)) {
-                continue;
-            }
             let target_offset = base_offset + (index * element_size) as i32;
             self.copy_value_to_offset(element, target_offset, element_size)?;
         }
-- 
2.43.0


From bb4fd38c09999fd65d6fb405b5b7ebae4109f3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:12 +0000
Subject: [PATCH 39/68] fix: results of calls with several results are not
 constants

---
 crates/compiler/mir/src/passes/constant_propagation.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/compiler/mir/src/passes/constant_propagation.rs b/crates/compiler/mir/src/passes/constant_propagation.rs
index db05ddb..ceb7949 100644
--- a/crates/compiler/mir/src/passes/constant_propagation.rs
+++ b/crates/compiler/mir/src/passes/constant_propagation.rs
@@ -307,6 +307,16 @@ impl MirPass for ConstantPropagation {
         for param in &function.parameters {
             state.insert(*param, NonConst);
         }
+        // So are the results of calls, of which there may be several
+        for (_bb_id, block) in function.basic_blocks() {
+            for instr in &block.instructions {
+                if let InstructionKind::Call { dests, .. } = &instr.kind {
+                    for dest in dests {
+                        state.insert(*dest, NonConst);
+                    }
+                }
+            }
+        }
 
         // Worklist: iterate until no changes
         let mut changed = true;
-- 
2.43.0


From 9081ca16cd680ddff98c2e131808fdff56418815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:25 +0000
Subject: [PATCH 40/68] fix: write trace files next to each other when a
 directory has a dot in its name

---
 crates/runner/src/vm/mod.rs | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/crates/runner/src/vm/mod.rs b/crates/runner/src/vm/mod.rs
index 951ae34..2f1f9b3 100644
--- a/crates/runner/src/vm/mod.rs
+++ b/crates/runner/src/vm/mod.rs
@@ -4,7 +4,7 @@ pub mod state;
 use std::collections::HashMap;
 use std::fs::File;
 use std::io::{self, Write};
-use std::path::Path;
+use std::path::{Path, PathBuf};
 
 use cairo_m_common::execution::Segment;
 use cairo_m_common::instruction::InstructionError;
@@ -297,6 +297,15 @@ impl VM {
         Ok(())
     }
 
+    /// The file of a segment: `<base_path>_segment_<index>.<extension>`.
+    ///
+    /// Only the file name has an extension; the directories that it is in may contain dots.
+    fn segment_path(path: &Path, index: usize) -> PathBuf {
+        let name = path.file_name().unwrap_or_default().to_string_lossy();
+        let (base, ext) = name.split_at(name.rfind('.').unwrap_or(name.len()));
+        path.with_file_name(format!("{base}_segment_{index}{ext}"))
+    }
+
     /// Writes the serialized trace to binary files, one per segment.
     ///
     /// This function creates a file for each segment with the naming pattern:
@@ -318,17 +327,10 @@ impl VM {
     /// - Writing to any file fails
     pub fn write_binary_trace<P: AsRef<Path>>(&self, path: P) -> Result<(), VmError> {
         let path = path.as_ref();
-        let path_str = path.to_string_lossy();
-
-        // Extract base name and extension
-        let (base, ext) = path_str.rfind('.').map_or_else(
-            || (path_str.as_ref(), ""),
-            |dot_pos| (&path_str[..dot_pos], &path_str[dot_pos..]),
-        );
 
         // Write each segment's trace
         for (i, segment) in self.segments.iter().enumerate() {
-            let segment_path = format!("{}_segment_{}{}", base, i, ext);
+            let segment_path = Self::segment_path(path, i);
             let serialized_trace = segment.serialize_segment_trace();
             let mut file = File::create(&segment_path)?;
             file.write_all(&serialized_trace)?;
@@ -361,17 +363,10 @@ impl VM {
     /// - Writing to any file fails
     pub fn write_binary_memory_trace<P: AsRef<Path>>(&self, path: P) -> Result<(), VmError> {
         let path = path.as_ref();
-        let path_str = path.to_string_lossy();
-
-        // Extract base name and extension
-        let (base, ext) = path_str.rfind('.').map_or_else(
-            || (path_str.as_ref(), ""),
-            |dot_pos| (&path_str[..dot_pos], &path_str[dot_pos..]),
-        );
 
         // Write each segment's memory trace
         for (i, segment) in self.segments.iter().enumerate() {
-            let segment_path = format!("{}_segment_{}{}", base, i, ext);
+            let segment_path = Self::segment_path(path, i);
             let mut file = File::create(&segment_path)?;
 
             // Write program length
-- 
2.43.0


From ba68f8abd30cc3aafd886e7e3cd3c09b949a6c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:13 +0000
Subject: [PATCH 41/68] fix: make room for all array data of the arguments,
 refuse arrays of a wrong length

---
 crates/runner/src/lib.rs | 87 +++-------------------------------------
 1 file changed, 5 insertions(+), 82 deletions(-)

diff --git a/crates/runner/src/lib.rs b/crates/runner/src/lib.rs
index 0341d52..fbb92bd 100644
--- a/crates/runner/src/lib.rs
+++ b/crates/runner/src/lib.rs
@@ -62,77 +62,6 @@ pub struct RunnerOutput {
     pub public_address_ranges: PublicAddressRanges,
 }
 
-/// Calculates the total number of memory cells needed for materializing array data
-/// when passing arguments to a function.
-///
-/// Arrays are passed as pointers in the call ABI, but their contents must be
-/// materialized in memory. This function recursively calculates the total space needed
-/// for all arrays (including nested arrays within tuples/structs).
-///
-/// ## Returns
-/// Number of M31 cells needed for materialized array contents
-fn calculate_array_materialization_size(ty: &AbiType) -> usize {
-    match ty {
-        AbiType::FixedSizeArray { element, size } => {
-            let element_call_size = AbiType::call_slot_size(element);
-            let nested_array_size = calculate_array_materialization_size(element);
-            (*size as usize) * (element_call_size + nested_array_size)
-        }
-        AbiType::Tuple(elements) => elements
-            .iter()
-            .map(calculate_array_materialization_size)
-            .sum(),
-        AbiType::Struct { fields, .. } => fields
-            .iter()
-            .map(|(_, field_type)| calculate_array_materialization_size(field_type))
-            .sum(),
-        // Scalar types don't require array materialization
-        _ => 0,
-    }
-}
-
-/// Value-aware materialization size calculator for arguments.
-/// Handles dynamic pointers by using the provided values to determine the
-/// number of cells to allocate inline.
-fn calculate_array_materialization_size_with_value(ty: &AbiType, val: &InputValue) -> usize {
-    match (ty, val) {
-        // Static arrays: compute based on declared size and recurse into element type for nested arrays
-        (AbiType::FixedSizeArray { element, size }, InputValue::List(values)) => {
-            assert_eq!(*size, values.len() as u32);
-            let element_call_size = AbiType::call_slot_size(element);
-            let nested_array_size = calculate_array_materialization_size(element);
-            (*size as usize) * (element_call_size + nested_array_size)
-        }
-        // Dynamic pointer: count elements and account for nested arrays in element
-        (AbiType::Pointer { element, len }, InputValue::List(values)) => {
-            let element_call_size = AbiType::call_slot_size(element);
-            let nested_array_size = calculate_array_materialization_size(element);
-            let count = len.unwrap_or(values.len() as u32) as usize;
-            count * (element_call_size + nested_array_size)
-        }
-        // Numeric value for pointer means a single element
-        (AbiType::Pointer { element, len }, InputValue::Number(_)) => {
-            let element_call_size = AbiType::call_slot_size(element);
-            let nested_array_size = calculate_array_materialization_size(element);
-            let count = len.unwrap_or(1) as usize;
-            count * (element_call_size + nested_array_size)
-        }
-        // Aggregates: recurse element-wise
-        (AbiType::Tuple(types), InputValue::List(values)) => types
-            .iter()
-            .zip(values.iter())
-            .map(|(t, v)| calculate_array_materialization_size_with_value(t, v))
-            .sum(),
-        (AbiType::Struct { fields, .. }, InputValue::Struct(values)) => fields
-            .iter()
-            .zip(values.iter())
-            .map(|((_, t), v)| calculate_array_materialization_size_with_value(t, v))
-            .sum(),
-        // No materialization for numeric pointers (raw addresses) or scalars
-        _ => 0,
-    }
-}
-
 /// Validates and converts an M31 value to a boolean.
 ///
 /// ## Arguments
@@ -415,24 +344,14 @@ pub fn run_cairo_program(
         .map(|param| AbiType::call_slot_size(&param.ty))
         .sum();
 
-    let array_materialization_size: usize = entrypoint_info
-        .params
-        .iter()
-        .zip(args.iter())
-        .map(|(param, arg)| calculate_array_materialization_size_with_value(&param.ty, arg))
-        .sum();
-
     let return_slot_count: usize = entrypoint_info
         .returns
         .iter()
         .map(|ret| AbiType::call_slot_size(&ret.ty))
         .sum();
 
-    let initial_frame_pointer = vm.state.fp;
-    let total_frame_offset =
-        array_materialization_size + argument_slot_count + return_slot_count + 2;
-
     // Array data is materialized starting from the current frame pointer
+    let initial_frame_pointer = vm.state.fp;
     let mut array_memory_cursor = initial_frame_pointer;
 
     let mut encoded_arguments: Vec<M31> = Vec::with_capacity(argument_slot_count);
@@ -446,6 +365,10 @@ pub fn run_cairo_program(
         )?;
     }
 
+    let array_materialization_size = (array_memory_cursor.0 - initial_frame_pointer.0) as usize;
+    let total_frame_offset =
+        array_materialization_size + argument_slot_count + return_slot_count + 2;
+
     vm.run_from_entrypoint(
         entrypoint_info.pc as u32,
         total_frame_offset as u32,
-- 
2.43.0


From 06b9a9e3f455307bc70d79ba09a18086a9f54a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:34 +0000
Subject: [PATCH 42/68] fix: include array data in the public input range

---
 crates/runner/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/runner/src/lib.rs b/crates/runner/src/lib.rs
index fbb92bd..84f36ae 100644
--- a/crates/runner/src/lib.rs
+++ b/crates/runner/src/lib.rs
@@ -390,9 +390,10 @@ pub fn run_cairo_program(
         decode_all_return_values(&entrypoint_info.returns, &raw_return_frame, &vm)?;
 
     // Create public address ranges for proof generation
+    // The input is the array data, if any, followed by the argument slots
     let public_address_ranges = PublicAddressRanges::new(
         vm.program_length.0,
-        encoded_arguments.len(),
+        array_materialization_size + encoded_arguments.len(),
         return_slot_count,
     );
 
-- 
2.43.0


From 9dad4c83c32ded6f4332272991910c42a99d8454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:03 +0000
Subject: [PATCH 43/68] fix: prove U32StoreEqFpFp with its destination operand

---
 crates/prover/src/components/opcodes/u32_store_eq_fp_fp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/prover/src/components/opcodes/u32_store_eq_fp_fp.rs b/crates/prover/src/components/opcodes/u32_store_eq_fp_fp.rs
index 61de0e2..69ccb29 100644
--- a/crates/prover/src/components/opcodes/u32_store_eq_fp_fp.rs
+++ b/crates/prover/src/components/opcodes/u32_store_eq_fp_fp.rs
@@ -207,7 +207,7 @@ impl Claim {
                 let opcode_constant = PackedM31::from(M31::from(U32_STORE_EQ_FP_FP));
                 let src0_off = input.inst_value_1;
                 let src1_off = input.inst_value_2;
-                let dst_off = input.inst_value_4;
+                let dst_off = input.inst_value_3;
 
                 let op0_val_lo = get_value(input, data_accesses, 0);
                 let op0_val_hi = get_value(input, data_accesses, 1);
-- 
2.43.0


From 868551458cae963124a9d50d41c9cdce86b71452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:02 +0000
Subject: [PATCH 44/68] fix: prove U32StoreEqFpImm: two instruction words,
 limb-wise equality

---
 .../components/opcodes/u32_store_eq_fp_imm.rs | 98 +++++++++++++------
 1 file changed, 68 insertions(+), 30 deletions(-)

diff --git a/crates/prover/src/components/opcodes/u32_store_eq_fp_imm.rs b/crates/prover/src/components/opcodes/u32_store_eq_fp_imm.rs
index 59e949d..c3c8b16 100644
--- a/crates/prover/src/components/opcodes/u32_store_eq_fp_imm.rs
+++ b/crates/prover/src/components/opcodes/u32_store_eq_fp_imm.rs
@@ -22,15 +22,15 @@
 //!
 //! # Constraints
 //!
-//! diff_lo = op1_val_lo - op0_val_lo
-//! diff_hi = op1_val_hi - op0_val_hi
+//! diff_lo = imm_lo - op0_val_lo
+//! diff_hi = imm_hi - op0_val_hi
 //! * enabler is a bool
 //!   * `enabler * (1 - enabler)`
 //! * registers update is regular
-//!   * `- [pc, fp, clock] + [pc + 1, fp, clock + 1]` in `Registers` relation
+//!   * `- [pc, fp, clock] + [pc + 2, fp, clock + 1]` in `Registers` relation
 //! * read 2 instruction words from memory
 //!   * `- [pc, inst_prev_clk, opcode_constant, src0_off, imm_lo, imm_hi] + [pc, clk, opcode_constant, src0_off, imm_lo, imm_hi]` in `Memory` relation
-//!   * `- [pc, inst_prev_clk, dst_off] + [pc, clk, dst_off]` in `Memory` relation
+//!   * `- [pc + 1, inst_prev_clk, dst_off] + [pc + 1, clk, dst_off]` in `Memory` relation
 //!   * `- [clk - inst_prev_clk - 1]` in `RangeCheck20` relation
 //! * read op0
 //!   * `- [fp + src0_off, op0_prev_clk, op0_val_lo] + [fp + src0_off, clk, op0_val_lo]`
@@ -86,7 +86,7 @@ use crate::utils::data_accesses::{get_prev_clock, get_prev_value, get_value};
 use crate::utils::enabler::Enabler;
 use crate::utils::execution_bundle::PackedExecutionBundle;
 
-const N_TRACE_COLUMNS: usize = 16;
+const N_TRACE_COLUMNS: usize = 19;
 const N_MEMORY_LOOKUPS: usize = 10;
 const N_REGISTERS_LOOKUPS: usize = 2;
 const N_RANGE_CHECK_20_LOOKUPS: usize = 4;
@@ -140,7 +140,7 @@ impl Claim {
         TreeVec::new(vec![vec![], trace, interaction_trace])
     }
 
-    /// Writes the trace for the U32StoreEqFpFp opcode.
+    /// Writes the trace for the U32StoreEqFpImm opcode.
     ///
     /// # Important
     /// This function filters the inputs and creates a local vector which is cleared after processing.
@@ -179,7 +179,6 @@ impl Claim {
 
         let zero = PackedM31::from(M31::zero());
         let one = PackedM31::from(M31::one());
-        let two_pow_16 = PackedM31::from(M31::from(1 << 16));
         let enabler_col = Enabler::new(non_padded_length);
         (
             trace.par_iter_mut(),
@@ -209,12 +208,26 @@ impl Claim {
                 let dst_prev_val = get_prev_value(input, data_accesses, 2);
                 let dst_prev_clock = get_prev_clock(input, data_accesses, 2);
 
-                let diff = op0_val_lo + op0_val_hi * two_pow_16 - imm_lo - imm_hi * two_pow_16;
-                let diff_inv = PackedM31::from_array(
-                    diff.to_array()
+                // Compute differences for each limb
+                let diff_lo = imm_lo - op0_val_lo;
+                let diff_hi = imm_hi - op0_val_hi;
+
+                // Compute inverses (or zero if diff is zero)
+                let diff_inv_lo = PackedM31::from_array(
+                    diff_lo
+                        .to_array()
+                        .map(|x| if x.0 != 0 { x.inverse() } else { M31::zero() }),
+                );
+                let diff_inv_hi = PackedM31::from_array(
+                    diff_hi
+                        .to_array()
                         .map(|x| if x.0 != 0 { x.inverse() } else { M31::zero() }),
                 );
 
+                // Compute equality indicators
+                let is_eq_lo = one - diff_lo * diff_inv_lo;
+                let is_eq_prod = is_eq_lo * (one - diff_hi * diff_inv_hi);
+
                 *row[0] = enabler;
                 *row[1] = pc;
                 *row[2] = fp;
@@ -230,10 +243,13 @@ impl Claim {
                 *row[12] = op0_prev_clock_hi;
                 *row[13] = dst_prev_val;
                 *row[14] = dst_prev_clock;
-                *row[15] = diff_inv;
+                *row[15] = diff_inv_lo;
+                *row[16] = diff_inv_hi;
+                *row[17] = is_eq_lo;
+                *row[18] = is_eq_prod;
 
                 *lookup_data.registers[0] = [input.pc, input.fp, input.clock];
-                *lookup_data.registers[1] = [input.pc + one, input.fp, input.clock + one];
+                *lookup_data.registers[1] = [input.pc + one + one, input.fp, input.clock + one];
 
                 // Read instruction
                 *lookup_data.memory[0] = [
@@ -247,8 +263,15 @@ impl Claim {
                 *lookup_data.memory[1] =
                     [input.pc, clock, opcode_constant, src0_off, imm_lo, imm_hi];
 
-                *lookup_data.memory[2] = [input.pc, inst_prev_clock, dst_off, zero, zero, zero];
-                *lookup_data.memory[3] = [input.pc, clock, dst_off, zero, zero, zero];
+                *lookup_data.memory[2] = [
+                    input.pc + one,
+                    inst_prev_clock,
+                    dst_off,
+                    zero,
+                    zero,
+                    zero,
+                ];
+                *lookup_data.memory[3] = [input.pc + one, clock, dst_off, zero, zero, zero];
 
                 // Read op0_lo
                 *lookup_data.memory[4] = [
@@ -275,8 +298,7 @@ impl Claim {
                 // Write dst
                 *lookup_data.memory[8] =
                     [fp + dst_off, dst_prev_clock, dst_prev_val, zero, zero, zero];
-                *lookup_data.memory[9] =
-                    [fp + dst_off, clock, one - diff * diff_inv, zero, zero, zero];
+                *lookup_data.memory[9] = [fp + dst_off, clock, is_eq_prod, zero, zero, zero];
 
                 // Range checks for U32 limbs
                 *lookup_data.range_check_16[0] = op0_val_lo;
@@ -437,10 +459,9 @@ impl FrameworkEval for Eval {
 
     fn evaluate<E: EvalAtRow>(&self, mut eval: E) -> E {
         let one = E::F::from(M31::one());
-        let two_pow_16 = E::F::from(M31::from(1 << 16));
         let opcode_constant = E::F::from(M31::from(U32_STORE_EQ_FP_IMM));
 
-        // 17 columns
+        // 19 columns
         let enabler = eval.next_trace_mask();
         let pc = eval.next_trace_mask();
         let fp = eval.next_trace_mask();
@@ -456,20 +477,33 @@ impl FrameworkEval for Eval {
         let op0_prev_clock_hi = eval.next_trace_mask();
         let dst_prev_val = eval.next_trace_mask();
         let dst_prev_clock = eval.next_trace_mask();
-        let diff_inv = eval.next_trace_mask();
+        let diff_inv_lo = eval.next_trace_mask();
+        let diff_inv_hi = eval.next_trace_mask();
+        let is_eq_lo = eval.next_trace_mask();
+        let is_eq_prod = eval.next_trace_mask();
 
         // Enabler is 1 or 0
         eval.add_constraint(enabler.clone() * (one.clone() - enabler.clone()));
 
-        let diff = op0_val_lo.clone() + op0_val_hi.clone() * two_pow_16.clone()
-            - imm_lo.clone()
-            - imm_hi.clone() * two_pow_16;
+        // Calculate differences
+        let diff_lo = imm_lo.clone() - op0_val_lo.clone();
+        let diff_hi = imm_hi.clone() - op0_val_hi.clone();
+
+        // diff_inv_lo is the inverse of diff_lo or diff_lo is 0
+        eval.add_constraint(
+            diff_lo.clone() * (diff_inv_lo.clone() * diff_lo.clone() - one.clone()),
+        );
+
+        // diff_inv_hi is the inverse of diff_hi or diff_hi is 0
+        eval.add_constraint(
+            diff_hi.clone() * (diff_inv_hi.clone() * diff_hi.clone() - one.clone()),
+        );
 
-        // diff_inv is the inverse of diff or diff is 0
-        eval.add_constraint(diff.clone() * (diff_inv.clone() * diff.clone() - one.clone()));
+        // is_eq_lo is 1 if diff_lo is 0, 0 otherwise
+        eval.add_constraint(is_eq_lo.clone() - (one.clone() - diff_lo * diff_inv_lo));
 
-        // diff_inv is the inverse of diff or diff_inv is 0
-        eval.add_constraint(diff_inv.clone() * (diff_inv.clone() * diff.clone() - one.clone()));
+        // is_eq_prod is the product of is_eq_lo and is_eq_hi
+        eval.add_constraint(is_eq_prod.clone() - is_eq_lo * (one.clone() - diff_hi * diff_inv_hi));
 
         // Registers update
         eval.add_to_relation(RelationEntry::new(
@@ -516,12 +550,16 @@ impl FrameworkEval for Eval {
         eval.add_to_relation(RelationEntry::new(
             &self.relations.memory,
             -E::EF::from(enabler.clone()),
-            &[pc.clone(), inst_prev_clock.clone(), dst_off.clone()],
+            &[
+                pc.clone() + one.clone(),
+                inst_prev_clock.clone(),
+                dst_off.clone(),
+            ],
         ));
         eval.add_to_relation(RelationEntry::new(
             &self.relations.memory,
             E::EF::from(enabler.clone()),
-            &[pc, clock.clone(), dst_off.clone()],
+            &[pc + one.clone(), clock.clone(), dst_off.clone()],
         ));
 
         // Read op0_lo
@@ -558,7 +596,7 @@ impl FrameworkEval for Eval {
             &self.relations.memory,
             E::EF::from(enabler.clone()),
             &[
-                fp.clone() + src0_off + one.clone(),
+                fp.clone() + src0_off + one,
                 clock.clone(),
                 op0_val_hi.clone(),
             ],
@@ -577,7 +615,7 @@ impl FrameworkEval for Eval {
         eval.add_to_relation(RelationEntry::new(
             &self.relations.memory,
             E::EF::from(enabler.clone()),
-            &[fp + dst_off, clock.clone(), one - diff * diff_inv],
+            &[fp + dst_off, clock.clone(), is_eq_prod],
         ));
 
         // Range check 16
-- 
2.43.0


From 732f2ed685eb031c242c3055c741d3612e0cb752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:19 +0000
Subject: [PATCH 45/68] fix: clock updates carry the previous value of the cell

---
 crates/prover/src/adapter/memory.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/crates/prover/src/adapter/memory.rs b/crates/prover/src/adapter/memory.rs
index 5f458fd..356cf6b 100644
--- a/crates/prover/src/adapter/memory.rs
+++ b/crates/prover/src/adapter/memory.rs
@@ -502,11 +502,8 @@ impl Memory {
             }
         };
 
-        // Because of sparse memory cases (output example mentioned), we need to use the initial memory entry updated as above.
-        // Indeed when writing the output, memory_entry.value is the output but initial_memory.get(addr) is 0 (filled by VM).
-        // The clock update must consume 0 (emitted by the initial memory) and emit 0. The store opcode will be the one consuming
-        // 0 and emitting the actual output.
-        let initial_memory_entry = self.initial_memory.get(&memory_entry.address);
+        // The clock updates consume and emit the previous value: on a write, the store opcode is the one consuming
+        // the previous value and emitting the new one.
         // Check for large clock deltas and generate clock update data if needed
         if current_clk.0 > prev_clk.0 {
             let delta = current_clk.0 - prev_clk.0;
@@ -518,7 +515,7 @@ impl Memory {
                     self.clock_update_data.push((
                         memory_entry.address,
                         prev_clk,
-                        initial_memory_entry.unwrap().0,
+                        prev_memory_entry.0,
                     ));
                     prev_clk += M31::from(RC20_LIMIT);
                 }
-- 
2.43.0


From 478f6564bea9fb87f690ed904fb2e0c49141ef56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:19 +0000
Subject: [PATCH 46/68] fix: padding rows of the memory component have no
 multiplicity

---
 crates/prover/src/components/memory.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/prover/src/components/memory.rs b/crates/prover/src/components/memory.rs
index 1106d93..063077b 100644
--- a/crates/prover/src/components/memory.rs
+++ b/crates/prover/src/components/memory.rs
@@ -17,6 +17,8 @@
 //!
 //! * enabler is a bool
 //!   * `enabler * (1 - enabler)`
+//! * padding rows have no multiplicity
+//!   * `multiplicity * (1 - enabler)`
 //! * emit or use boundary memory values
 //!   * `+ or - [address, clock, value]` in `Memory` relation
 //! * use leaves of merkle trees
@@ -310,6 +312,9 @@ impl FrameworkEval for Eval {
         // Enabler is 1 or 0
         eval.add_constraint(enabler.clone() * (one.clone() - enabler.clone()));
 
+        // Padding rows have no multiplicity
+        eval.add_constraint(multiplicity.clone() * (one.clone() - enabler.clone()));
+
         // Emit initial values and use final ones
         eval.add_to_relation(RelationEntry::new(
             &self.relations.memory,
-- 
2.43.0


From ffec2e2b500fa6a8d90232dded6501e2aeb1f78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:19 +0000
Subject: [PATCH 47/68] fix: every enabled row of the merkle component uses its
 parent, padding rows nothing

---
 crates/prover/src/components/merkle.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/crates/prover/src/components/merkle.rs b/crates/prover/src/components/merkle.rs
index 8f6591b..f9835df 100644
--- a/crates/prover/src/components/merkle.rs
+++ b/crates/prover/src/components/merkle.rs
@@ -17,6 +17,9 @@
 //!
 //! * enabler is a bool
 //!   * `enabler * (1 - enabler)`
+//! * left and right multiplicities are 0, 1 or 2, and 0 for padding rows
+//! * parent multiplicity is 1, and 0 for padding rows
+//!   * `parent_multiplicity - enabler`
 //! * use left node
 //!   * `- [index, depth, left_value, root]` in `Memory` relation
 //! * use right node
@@ -324,12 +327,11 @@ impl FrameworkEval for Eval {
                 * (right_multiplicity.clone() - one.clone())
                 * (right_multiplicity.clone() - one.clone() * E::F::from(m31_2)),
         );
-        // parent multiplicity is 0, 1 or 2
-        eval.add_constraint(
-            parent_multiplicity.clone()
-                * (parent_multiplicity.clone() - one.clone())
-                * (parent_multiplicity.clone() - one.clone() * E::F::from(m31_2)),
-        );
+        // parent multiplicity is 1, 0 for padding rows
+        eval.add_constraint(parent_multiplicity.clone() - enabler.clone());
+        // padding rows have no left nor right multiplicity
+        eval.add_constraint(left_multiplicity.clone() * (one.clone() - enabler.clone()));
+        eval.add_constraint(right_multiplicity.clone() * (one.clone() - enabler.clone()));
 
         // Emit current depth node
         eval.add_to_relation(RelationEntry::new(
-- 
2.43.0


From 8062dba0b00ec9709940af3864570c1271a41228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:19 +0000
Subject: [PATCH 48/68] fix: a division by zero has no proof

---
 .../src/components/opcodes/store_fp_fp.rs       | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/crates/prover/src/components/opcodes/store_fp_fp.rs b/crates/prover/src/components/opcodes/store_fp_fp.rs
index ad87f13..64e9a30 100644
--- a/crates/prover/src/components/opcodes/store_fp_fp.rs
+++ b/crates/prover/src/components/opcodes/store_fp_fp.rs
@@ -27,6 +27,7 @@
 //! - opcode_flag_1
 //! - prod
 //! - div
+//! - is_div
 //!
 //! # Constraints
 //!
@@ -43,6 +44,9 @@
 //! * op1_inv is the inverse of op1 or op1 is 0
 //!   * `op1 * (op1_inv * op1 - 1)`
 //!   * `op1_inv * (op1_inv * op1 - 1)`
+//! * is_div is the product of the flags, the divisor is not 0 (the VM refuses to divide by 0)
+//!   * `is_div - opcode_flag_0 * opcode_flag_1`
+//!   * `is_div * (op1_inv * op1 - 1)`
 //! * dst_val is the result of the operation
 //!   * `dst_val - (1 - opcode_flag_0) * (1 - opcode_flag_1) * (op0 + op1) // (0, 0) => StoreAddFpFp
 //!   * `    - (1 - opcode_flag_0) * opcode_flag_1 * (op0 - op1) // (0, 1) => StoreSubFpFp
@@ -98,7 +102,7 @@ use crate::utils::data_accesses::{get_prev_clock, get_prev_value, get_value};
 use crate::utils::enabler::Enabler;
 use crate::utils::execution_bundle::PackedExecutionBundle;
 
-const N_TRACE_COLUMNS: usize = 20;
+const N_TRACE_COLUMNS: usize = 21;
 const N_MEMORY_LOOKUPS: usize = 8;
 const N_REGISTERS_LOOKUPS: usize = 2;
 const N_RANGE_CHECK_20_LOOKUPS: usize = 4;
@@ -273,6 +277,7 @@ impl Claim {
                     *row[17] = *opcode_flag_1;
                     *row[18] = prod;
                     *row[19] = div;
+                    *row[20] = *opcode_flag_0 * *opcode_flag_1;
 
                     *lookup_data.registers[0] = [input.pc, input.fp, input.clock];
                     *lookup_data.registers[1] = [input.pc + one, input.fp, input.clock + one];
@@ -496,7 +501,7 @@ impl FrameworkEval for Eval {
     fn evaluate<E: EvalAtRow>(&self, mut eval: E) -> E {
         let one = E::F::from(M31::one());
 
-        // 20 columns
+        // 21 columns
         let enabler = eval.next_trace_mask();
         let pc = eval.next_trace_mask();
         let fp = eval.next_trace_mask();
@@ -517,6 +522,7 @@ impl FrameworkEval for Eval {
         let opcode_flag_1 = eval.next_trace_mask();
         let prod = eval.next_trace_mask();
         let div = eval.next_trace_mask();
+        let is_div = eval.next_trace_mask();
 
         // Enabler is 1 or 0
         eval.add_constraint(enabler.clone() * (one.clone() - enabler.clone()));
@@ -536,6 +542,12 @@ impl FrameworkEval for Eval {
         // op1_inv is the inverse of op1 or op1_inv is 0
         eval.add_constraint(op1_inv.clone() * (op1_inv.clone() * op1_val.clone() - one.clone()));
 
+        // is_div is the product of the flags
+        eval.add_constraint(is_div.clone() - opcode_flag_0.clone() * opcode_flag_1.clone());
+
+        // the divisor is not 0
+        eval.add_constraint(is_div.clone() * (op1_inv.clone() * op1_val.clone() - one.clone()));
+
         // div is op0 / op1
         eval.add_constraint(div.clone() - op0_val.clone() * op1_inv);
 
@@ -551,7 +563,6 @@ impl FrameworkEval for Eval {
             eval.add_intermediate((one.clone() - opcode_flag_0.clone()) * opcode_flag_1.clone());
         let is_mul =
             eval.add_intermediate(opcode_flag_0.clone() * (one.clone() - opcode_flag_1.clone()));
-        let is_div = eval.add_intermediate(opcode_flag_0.clone() * opcode_flag_1.clone());
         let opcode_id = eval.add_intermediate(
             E::F::from(M31::from(STORE_ADD_FP_FP))
                 + E::F::from(M31::from_u32_unchecked(2)) * opcode_flag_0
-- 
2.43.0


From 3fce98886e37eb9c2de3428ae721b8a5de7d5f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:27 +0000
Subject: [PATCH 49/68] fix: U32StoreMulFpFp checks the clocks of its second
 operand

---
 .../components/opcodes/u32_store_mul_fp_fp.rs | 48 +++++++++++++++----
 1 file changed, 40 insertions(+), 8 deletions(-)

diff --git a/crates/prover/src/components/opcodes/u32_store_mul_fp_fp.rs b/crates/prover/src/components/opcodes/u32_store_mul_fp_fp.rs
index 80c648d..cf06f29 100644
--- a/crates/prover/src/components/opcodes/u32_store_mul_fp_fp.rs
+++ b/crates/prover/src/components/opcodes/u32_store_mul_fp_fp.rs
@@ -123,7 +123,7 @@ const N_MEMORY_LOOKUPS: usize = 14;
 const N_REGISTERS_LOOKUPS: usize = 2;
 const N_RANGE_CHECK_8_LOOKUPS: usize = 12;
 const N_RANGE_CHECK_16_LOOKUPS: usize = 4;
-const N_RANGE_CHECK_20_LOOKUPS: usize = 5;
+const N_RANGE_CHECK_20_LOOKUPS: usize = 7;
 
 // 1 * (255 * 255) = 254 * 2^8 + 1
 // 2 * (255 * 255) + 254 = 509 * 2^8
@@ -489,8 +489,10 @@ impl Claim {
                 *lookup_data.range_check_20[0] = clock - inst_prev_clock - enabler;
                 *lookup_data.range_check_20[1] = clock - op0_prev_clock_lo - enabler;
                 *lookup_data.range_check_20[2] = clock - op0_prev_clock_hi - enabler;
-                *lookup_data.range_check_20[3] = clock - dst_prev_clock_lo - enabler;
-                *lookup_data.range_check_20[4] = clock - dst_prev_clock_hi - enabler;
+                *lookup_data.range_check_20[3] = clock - op1_prev_clock_lo - enabler;
+                *lookup_data.range_check_20[4] = clock - op1_prev_clock_hi - enabler;
+                *lookup_data.range_check_20[5] = clock - dst_prev_clock_lo - enabler;
+                *lookup_data.range_check_20[6] = clock - dst_prev_clock_hi - enabler;
             });
 
         (
@@ -659,17 +661,37 @@ impl InteractionClaim {
             });
         col.finalize_col();
 
-        // Last RC20 with itself since we have an odd number (5 total)
         let mut col = interaction_trace.new_col();
         (
             col.par_iter_mut(),
             &interaction_claim_data.lookup_data.range_check_20[4],
+            &interaction_claim_data.lookup_data.range_check_20[5],
         )
             .into_par_iter()
             .enumerate()
-            .for_each(|(_i, (writer, range_check_20_4))| {
+            .for_each(|(_i, (writer, range_check_20_4, range_check_20_5))| {
                 let num = -PackedQM31::one();
-                let denom: PackedQM31 = relations.range_check_20.combine(&[*range_check_20_4]);
+                let denom_4: PackedQM31 = relations.range_check_20.combine(&[*range_check_20_4]);
+                let denom_5: PackedQM31 = relations.range_check_20.combine(&[*range_check_20_5]);
+
+                let numerator = num * denom_5 + num * denom_4;
+                let denom = denom_4 * denom_5;
+
+                writer.write_frac(numerator, denom);
+            });
+        col.finalize_col();
+
+        // Last RC20 with itself since we have an odd number (7 total)
+        let mut col = interaction_trace.new_col();
+        (
+            col.par_iter_mut(),
+            &interaction_claim_data.lookup_data.range_check_20[6],
+        )
+            .into_par_iter()
+            .enumerate()
+            .for_each(|(_i, (writer, range_check_20_6))| {
+                let num = -PackedQM31::one();
+                let denom: PackedQM31 = relations.range_check_20.combine(&[*range_check_20_6]);
 
                 writer.write_frac(num, denom);
             });
@@ -865,7 +887,7 @@ impl FrameworkEval for Eval {
             -E::EF::from(enabler.clone()),
             &[
                 fp.clone() + src1_off.clone(),
-                op1_prev_clock_lo,
+                op1_prev_clock_lo.clone(),
                 op1_0.clone() + op1_1.clone() * two_pow_8.clone(),
             ],
         ));
@@ -885,7 +907,7 @@ impl FrameworkEval for Eval {
             -E::EF::from(enabler.clone()),
             &[
                 fp.clone() + src1_off.clone() + one.clone(),
-                op1_prev_clock_hi,
+                op1_prev_clock_hi.clone(),
                 op1_2.clone() + op1_3.clone() * two_pow_8.clone(),
             ],
         ));
@@ -1043,6 +1065,16 @@ impl FrameworkEval for Eval {
             -E::EF::one(),
             &[clock.clone() - op0_prev_clock_hi - enabler.clone()],
         ));
+        eval.add_to_relation(RelationEntry::new(
+            &self.relations.range_check_20,
+            -E::EF::one(),
+            &[clock.clone() - op1_prev_clock_lo - enabler.clone()],
+        ));
+        eval.add_to_relation(RelationEntry::new(
+            &self.relations.range_check_20,
+            -E::EF::one(),
+            &[clock.clone() - op1_prev_clock_hi - enabler.clone()],
+        ));
         eval.add_to_relation(RelationEntry::new(
             &self.relations.range_check_20,
             -E::EF::one(),
-- 
2.43.0


From cb45edf57e62acb21328ded573493860cc7cb2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:27 +0000
Subject: [PATCH 50/68] fix: a value less than or equal to itself has no proof
 of the contrary

---
 .../src/components/opcodes/store_le_fp_imm.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/crates/prover/src/components/opcodes/store_le_fp_imm.rs b/crates/prover/src/components/opcodes/store_le_fp_imm.rs
index cf393c3..7f27085 100644
--- a/crates/prover/src/components/opcodes/store_le_fp_imm.rs
+++ b/crates/prover/src/components/opcodes/store_le_fp_imm.rs
@@ -48,6 +48,7 @@
 //! - arc_long_lo
 //! - arc_long_hi
 //! - is_le
+//! - diff_inv
 //!
 //! # Constraints
 //!
@@ -78,6 +79,8 @@
 //! * rebuild imm and src_val from a and b
 //!   * `a - is_le * src_val - (1 - is_le) * imm`
 //!   * `b - is_le * imm - (1 - is_le) * src_val`
+//! * if is_le is 0 then a (imm) is not b (src_val)
+//!   * `(1 - is_le) * ((b - a) * diff_inv - 1)`
 //! * registers update is regular
 //!   * `- [pc, fp, clock] + [pc + 1, fp, clock + 1]` in `Registers` relation
 //! * read instruction from memory
@@ -132,7 +135,7 @@ use crate::utils::execution_bundle::PackedExecutionBundle;
 const PRIME_OVER_3_HIGH: u32 = ((P / 3) >> 16) + 1;
 const PRIME_OVER_2_HIGH: u32 = ((P / 2) >> 16) + 1;
 
-const N_TRACE_COLUMNS: usize = 22;
+const N_TRACE_COLUMNS: usize = 23;
 const N_MEMORY_LOOKUPS: usize = 6;
 const N_REGISTERS_LOOKUPS: usize = 2;
 const N_RANGE_CHECK_20_LOOKUPS: usize = 3;
@@ -286,6 +289,13 @@ impl Claim {
                 );
                 let is_le = PackedM31::from_array(is_le);
 
+                // Inverse of b - a (or zero if a is b)
+                let diff_inv = PackedM31::from_array(
+                    (b - a)
+                        .to_array()
+                        .map(|x| if x.0 != 0 { x.inverse() } else { M31::zero() }),
+                );
+
                 // Compute arcs for range checking the comparison
                 // We need to prove that a <= b using the arc method
                 // This partitions the circle into 3 arcs and ensures 2 of them fit in specific ranges
@@ -359,6 +369,7 @@ impl Claim {
                 *row[19] = arc_long_lo;
                 *row[20] = arc_long_hi;
                 *row[21] = is_le;
+                *row[22] = diff_inv;
 
                 *lookup_data.registers[0] = [input.pc, input.fp, input.clock];
                 *lookup_data.registers[1] = [input.pc + one, input.fp, input.clock + one];
@@ -576,6 +587,7 @@ impl FrameworkEval for Eval {
         let arc_long_lo = eval.next_trace_mask();
         let arc_long_hi = eval.next_trace_mask();
         let is_le = eval.next_trace_mask();
+        let diff_inv = eval.next_trace_mask();
 
         // Enabler is 1 or 0
         eval.add_constraint(enabler.clone() * (one.clone() - enabler.clone()));
@@ -596,6 +608,11 @@ impl FrameworkEval for Eval {
         // is_le is 1 or 0
         eval.add_constraint(is_le.clone() * (one.clone() - is_le.clone()));
 
+        // If is_le is 0 then a (imm) is not b (src_val)
+        eval.add_constraint(
+            (one.clone() - is_le.clone()) * ((b.clone() - a.clone()) * diff_inv - one.clone()),
+        );
+
         // Arc computations
         let arc_short = arc_short_lo.clone() + arc_short_hi.clone() * prime_over_3_high;
         let arc_long = arc_long_lo.clone() + arc_long_hi.clone() * prime_over_2_high;
-- 
2.43.0


From e22902c62a03d240b5e1f620daa109bb43002241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:55 +0000
Subject: [PATCH 51/68] fix: U32StoreDivRemFpFp checks the clocks of its second
 operand

---
 .../components/opcodes/u32_store_div_fp_fp.rs | 48 +++++++++++++++----
 1 file changed, 40 insertions(+), 8 deletions(-)

diff --git a/crates/prover/src/components/opcodes/u32_store_div_fp_fp.rs b/crates/prover/src/components/opcodes/u32_store_div_fp_fp.rs
index 913fd40..158c5ac 100644
--- a/crates/prover/src/components/opcodes/u32_store_div_fp_fp.rs
+++ b/crates/prover/src/components/opcodes/u32_store_div_fp_fp.rs
@@ -178,7 +178,7 @@ const N_MEMORY_LOOKUPS: usize = 20;
 const N_REGISTERS_LOOKUPS: usize = 2;
 const N_RANGE_CHECK_8_LOOKUPS: usize = 16;
 const N_RANGE_CHECK_16_LOOKUPS: usize = 13;
-const N_RANGE_CHECK_20_LOOKUPS: usize = 7;
+const N_RANGE_CHECK_20_LOOKUPS: usize = 9;
 
 // 1 * (255 * 255) = 254 * 2^8 + 1
 // 2 * (255 * 255) + 254 = 509 * 2^8
@@ -742,10 +742,12 @@ impl Claim {
                 *lookup_data.range_check_20[0] = clock - inst_prev_clock - enabler;
                 *lookup_data.range_check_20[1] = clock - op0_prev_clock_lo - enabler;
                 *lookup_data.range_check_20[2] = clock - op0_prev_clock_hi - enabler;
-                *lookup_data.range_check_20[3] = clock - dst_prev_clock_lo - enabler;
-                *lookup_data.range_check_20[4] = clock - dst_prev_clock_hi - enabler;
-                *lookup_data.range_check_20[5] = clock - dst_rem_prev_clock_lo - enabler;
-                *lookup_data.range_check_20[6] = clock - dst_rem_prev_clock_hi - enabler;
+                *lookup_data.range_check_20[3] = clock - op1_prev_clock_lo - enabler;
+                *lookup_data.range_check_20[4] = clock - op1_prev_clock_hi - enabler;
+                *lookup_data.range_check_20[5] = clock - dst_prev_clock_lo - enabler;
+                *lookup_data.range_check_20[6] = clock - dst_prev_clock_hi - enabler;
+                *lookup_data.range_check_20[7] = clock - dst_rem_prev_clock_lo - enabler;
+                *lookup_data.range_check_20[8] = clock - dst_rem_prev_clock_hi - enabler;
             });
 
         (
@@ -934,7 +936,6 @@ impl InteractionClaim {
             });
         col.finalize_col();
 
-        // Pair remaining RC20 lookups [5] and [6]
         let mut col = interaction_trace.new_col();
         (
             col.par_iter_mut(),
@@ -955,6 +956,27 @@ impl InteractionClaim {
             });
         col.finalize_col();
 
+        // Pair remaining RC20 lookups [7] and [8]
+        let mut col = interaction_trace.new_col();
+        (
+            col.par_iter_mut(),
+            &interaction_claim_data.lookup_data.range_check_20[7],
+            &interaction_claim_data.lookup_data.range_check_20[8],
+        )
+            .into_par_iter()
+            .enumerate()
+            .for_each(|(_i, (writer, val1, val2))| {
+                let num = -PackedQM31::one();
+                let denom_0: PackedQM31 = relations.range_check_20.combine(&[*val1]);
+                let denom_1: PackedQM31 = relations.range_check_20.combine(&[*val2]);
+
+                let numerator = num * denom_1 + num * denom_0;
+                let denom = denom_0 * denom_1;
+
+                writer.write_frac(numerator, denom);
+            });
+        col.finalize_col();
+
         let (trace, claimed_sum) = interaction_trace.finalize_last();
         (Self { claimed_sum }, trace)
     }
@@ -1269,7 +1291,7 @@ impl FrameworkEval for Eval {
             -E::EF::from(enabler.clone()),
             &[
                 fp.clone() + src1_off.clone(),
-                op1_prev_clock_lo,
+                op1_prev_clock_lo.clone(),
                 op1_val_lo.clone(),
             ],
         ));
@@ -1285,7 +1307,7 @@ impl FrameworkEval for Eval {
             -E::EF::from(enabler.clone()),
             &[
                 fp.clone() + src1_off.clone() + one.clone(),
-                op1_prev_clock_hi,
+                op1_prev_clock_hi.clone(),
                 op1_val_hi.clone(),
             ],
         ));
@@ -1483,6 +1505,16 @@ impl FrameworkEval for Eval {
             -E::EF::one(),
             &[clock.clone() - op0_prev_clock_hi - enabler.clone()],
         ));
+        eval.add_to_relation(RelationEntry::new(
+            &self.relations.range_check_20,
+            -E::EF::one(),
+            &[clock.clone() - op1_prev_clock_lo - enabler.clone()],
+        ));
+        eval.add_to_relation(RelationEntry::new(
+            &self.relations.range_check_20,
+            -E::EF::one(),
+            &[clock.clone() - op1_prev_clock_hi - enabler.clone()],
+        ));
         eval.add_to_relation(RelationEntry::new(
             &self.relations.range_check_20,
             -E::EF::one(),
-- 
2.43.0


From f38268985e0a66c821a07edb31f8aafa26a4861e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:29 +0000
Subject: [PATCH 52/68] fix: cells first used in a segment are zero in its
 initial memory

---
 crates/prover/src/adapter/mod.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/crates/prover/src/adapter/mod.rs b/crates/prover/src/adapter/mod.rs
index 4589e71..88de8ca 100644
--- a/crates/prover/src/adapter/mod.rs
+++ b/crates/prover/src/adapter/mod.rs
@@ -10,6 +10,7 @@ use cairo_m_common::state::MemoryEntry as RunnerMemoryEntry;
 use cairo_m_common::{PublicAddressRanges, State as VmRegisters};
 use io::VmImportError;
 pub use memory::ExecutionBundle;
+use num_traits::Zero;
 use stwo_prover::core::fields::m31::M31;
 use stwo_prover::core::fields::qm31::QM31;
 use tracing::{Level, span};
@@ -255,12 +256,21 @@ pub fn import_from_runner_output(
     let _span = span!(Level::INFO, "import_from_runner_output").entered();
 
     let trace_iter = segment.trace.into_iter();
-    let memory_iter = segment.memory_trace.into_inner().into_iter();
+    let memory_trace = segment.memory_trace.into_inner();
+
+    // Cells beyond the memory in use hold zero until they are written: the initial memory commits
+    // to that value, so that it is the final memory of the previous segment.
+    let mut initial_memory = segment.initial_memory;
+    for entry in &memory_trace {
+        initial_memory
+            .entry(entry.addr)
+            .or_insert((QM31::zero(), M31::zero(), M31::zero()));
+    }
 
     import_internal(
         trace_iter,
-        memory_iter,
-        segment.initial_memory,
+        memory_trace.into_iter(),
+        initial_memory,
         public_address_ranges,
     )
 }
-- 
2.43.0


From 4c207be47833236a01fa16dc5dd1231c58a7088d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:50 +0000
Subject: [PATCH 53/68] fix: the language server applies text changes in the
 order of the messages

---
 crates/cairo-m-ls/src/backend.rs | 80 +++++++++-----------------------
 1 file changed, 21 insertions(+), 59 deletions(-)

diff --git a/crates/cairo-m-ls/src/backend.rs b/crates/cairo-m-ls/src/backend.rs
index 4751b21..609671f 100644
--- a/crates/cairo-m-ls/src/backend.rs
+++ b/crates/cairo-m-ls/src/backend.rs
@@ -431,30 +431,20 @@ impl Backend {
         }
     }
 
-    /// Safely access the mutable database using blocking lock with spawn_blocking
+    /// Access the mutable database, waiting for its lock.
     ///
-    /// Note: This implementation uses `spawn_blocking` rather than `try_lock` with exponential backoff.
-    /// While try_lock patterns can reduce contention, spawn_blocking provides better guarantees:
-    /// 1. No risk of starvation from repeated lock failures
-    /// 2. Fair scheduling through Tokio's blocking thread pool
-    /// 3. Automatic yielding of the async runtime thread
-    /// 4. Simpler error handling without retry logic complexity
-    ///
-    /// The blocking thread pool overhead is acceptable for our use case where database
-    /// operations are already relatively expensive (parsing, semantic analysis, etc).
-    fn safe_db_access_mut<F, R>(&self, f: F) -> tokio::task::JoinHandle<R>
+    /// Changes of texts must not be deferred to another task: the client sends them in order, and
+    /// handlers run concurrently from their first await on, so that a deferred change could be
+    /// applied before an earlier one, or not at all when the file is not known yet.
+    fn safe_db_access_mut<F, R>(&self, f: F) -> R
     where
-        F: FnOnce(&mut AnalysisDatabase) -> R + Send + 'static,
-        R: Send + 'static,
+        F: FnOnce(&mut AnalysisDatabase) -> R,
     {
-        let db_clone = self.db.clone();
-        tokio::task::spawn_blocking(move || {
-            let mut db = db_clone.lock().unwrap_or_else(|poisoned| {
-                tracing::error!("Database mutex poisoned - recovering from panic");
-                poisoned.into_inner()
-            });
-            f(&mut db)
-        })
+        let mut db = self.db.lock().unwrap_or_else(|poisoned| {
+            tracing::error!("Database mutex poisoned - recovering from panic");
+            poisoned.into_inner()
+        });
+        f(&mut db)
     }
 
     /// Synchronously access the database (for use in sync contexts)
@@ -659,27 +649,13 @@ impl LanguageServer for Backend {
             Err(_) => return,
         };
 
-        // Create a new SourceFile for the opened file. This requires a mutable
-        // database lock because it allocates a new entity.
+        // Create a new SourceFile for the opened file, and make it known before anyone else can
+        // use the database: project loading reads files that are not known from disk.
         let uri_string = uri.to_string();
-        let join_handle =
-            self.safe_db_access_mut(move |db| SourceFile::new(db, content, uri_string));
-
-        let source = match join_handle.await {
-            Ok(source) => source,
-            Err(e) => {
-                tracing::error!("Failed to create source file: {:?}", e);
-                self.client
-                    .log_message(
-                        MessageType::ERROR,
-                        "Failed to create source file due to database error",
-                    )
-                    .await;
-                return;
-            }
-        };
-
-        self.source_files.insert(uri.clone(), source);
+        self.safe_db_access_mut(|db| {
+            let source = SourceFile::new(db, content, uri_string);
+            self.source_files.insert(uri.clone(), source);
+        });
 
         // Update reverse lookup map
         self.path_to_uri.insert(path.clone(), uri.clone());
@@ -705,26 +681,12 @@ impl LanguageServer for Backend {
             // Update the SourceFile with new content. This is the key to
             // incremental compilation.
             if let Some(source) = self.source_files.get(&uri).map(|s| *s.value()) {
-                let change_text = change.text.clone();
-                let join_handle = self.safe_db_access_mut(move |db| {
-                    source.set_text(db).to(change_text);
+                self.safe_db_access_mut(|db| {
+                    source.set_text(db).to(change.text);
                 });
 
-                match join_handle.await {
-                    Ok(_) => {
-                        // Schedule debounced diagnostics instead of immediate run
-                        self.schedule_debounced_diagnostics(uri, Some(version));
-                    }
-                    Err(e) => {
-                        tracing::error!("Failed to update file content: {:?}", e);
-                        self.client
-                            .log_message(
-                                MessageType::ERROR,
-                                "Failed to update file content due to database error",
-                            )
-                            .await;
-                    }
-                }
+                // Schedule debounced diagnostics instead of immediate run
+                self.schedule_debounced_diagnostics(uri, Some(version));
             }
         }
     }
-- 
2.43.0


From dd0c598874bab61f938f1c861b795114ea136f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:50 +0000
Subject: [PATCH 54/68] fix: the language server counts positions in UTF-16
 code units

---
 crates/cairo-m-ls/src/backend.rs                | 16 ++++++----------
 crates/cairo-m-ls/src/diagnostics/controller.rs |  4 ++--
 2 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/crates/cairo-m-ls/src/backend.rs b/crates/cairo-m-ls/src/backend.rs
index 609671f..a18b6ef 100644
--- a/crates/cairo-m-ls/src/backend.rs
+++ b/crates/cairo-m-ls/src/backend.rs
@@ -462,7 +462,7 @@ impl Backend {
         }
     }
 
-    /// Convert byte offset to LSP Position
+    /// Convert byte offset to LSP Position (characters are counted in UTF-16 code units)
     fn offset_to_position(&self, source: &str, offset: usize) -> Position {
         let mut line = 0;
         let mut character = 0;
@@ -475,7 +475,7 @@ impl Backend {
                 line += 1;
                 character = 0;
             } else {
-                character += 1;
+                character += ch.len_utf16();
             }
         }
 
@@ -495,14 +495,15 @@ impl Backend {
         }
     }
 
-    /// Convert LSP Position to byte offset
+    /// Convert LSP Position to byte offset (characters are counted in UTF-16 code units)
     fn position_to_offset(&self, source: &str, position: Position) -> usize {
         let mut current_line = 0;
         let mut current_character = 0;
 
         for (i, ch) in source.char_indices() {
+            // A character past the end of the line stands for the end of the line
             if current_line == position.line as usize
-                && current_character == position.character as usize
+                && (current_character >= position.character as usize || ch == '\n')
             {
                 return i;
             }
@@ -510,13 +511,8 @@ impl Backend {
             if ch == '\n' {
                 current_line += 1;
                 current_character = 0;
-
-                // If we're past the target line, the position doesn't exist
-                if current_line > position.line as usize {
-                    return source.len();
-                }
             } else {
-                current_character += 1;
+                current_character += ch.len_utf16();
             }
         }
 
diff --git a/crates/cairo-m-ls/src/diagnostics/controller.rs b/crates/cairo-m-ls/src/diagnostics/controller.rs
index 51d2ddf..3240e9f 100644
--- a/crates/cairo-m-ls/src/diagnostics/controller.rs
+++ b/crates/cairo-m-ls/src/diagnostics/controller.rs
@@ -411,7 +411,7 @@ pub fn convert_cairo_diagnostic(
     }
 }
 
-/// Convert byte offset to LSP Position
+/// Convert byte offset to LSP Position (characters are counted in UTF-16 code units)
 fn offset_to_position(source: &str, offset: usize) -> Position {
     let mut line = 0;
     let mut character = 0;
@@ -424,7 +424,7 @@ fn offset_to_position(source: &str, offset: usize) -> Position {
             line += 1;
             character = 0;
         } else {
-            character += 1;
+            character += ch.len_utf16();
         }
     }
 
-- 
2.43.0


From ac6151f4028621ab8b1ab0c878cf60708dafd8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:50 +0000
Subject: [PATCH 55/68] fix: formatting replaces the document up to its very
 end

---
 crates/cairo-m-ls/src/backend.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/crates/cairo-m-ls/src/backend.rs b/crates/cairo-m-ls/src/backend.rs
index a18b6ef..fd2d47c 100644
--- a/crates/cairo-m-ls/src/backend.rs
+++ b/crates/cairo-m-ls/src/backend.rs
@@ -1085,19 +1085,13 @@ impl LanguageServer for Backend {
             None => return Ok(None),
         };
 
-        // Calculate the range that covers the entire document
-        let line_count = current.lines().count();
-        let last_line_len = current.lines().last().map(|l| l.len()).unwrap_or(0);
-
+        // The range that covers the entire document, up to and including its last line ending
         let range = Range {
             start: Position {
                 line: 0,
                 character: 0,
             },
-            end: Position {
-                line: (line_count.saturating_sub(1)) as u32,
-                character: last_line_len as u32,
-            },
+            end: self.offset_to_position(&current, current.len()),
         };
 
         // Return a single text edit that replaces the entire document
-- 
2.43.0


From 2c493bae5e19b0f818a27aba11bd8f0a5acffd25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:05 +0000
Subject: [PATCH 56/68] fix: did_change applies the last of its changes

---
 crates/cairo-m-ls/src/backend.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/cairo-m-ls/src/backend.rs b/crates/cairo-m-ls/src/backend.rs
index fd2d47c..29e2811 100644
--- a/crates/cairo-m-ls/src/backend.rs
+++ b/crates/cairo-m-ls/src/backend.rs
@@ -673,7 +673,8 @@ impl LanguageServer for Backend {
         let uri = params.text_document.uri;
         let version = params.text_document.version;
 
-        if let Some(change) = params.content_changes.into_iter().next() {
+        // Every change holds the full text (TextDocumentSyncKind::FULL): the last one prevails
+        if let Some(change) = params.content_changes.into_iter().next_back() {
             // Update the SourceFile with new content. This is the key to
             // incremental compilation.
             if let Some(source) = self.source_files.get(&uri).map(|s| *s.value()) {
-- 
2.43.0


From fb5f494442e3070eec72fca7f0672fe897e56a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:13 +0000
Subject: [PATCH 57/68] fix: the language server answers in modules below the
 source root

---
 crates/cairo-m-ls/src/backend.rs | 29 +++++------------------------
 1 file changed, 5 insertions(+), 24 deletions(-)

diff --git a/crates/cairo-m-ls/src/backend.rs b/crates/cairo-m-ls/src/backend.rs
index 29e2811..f7db9fa 100644
--- a/crates/cairo-m-ls/src/backend.rs
+++ b/crates/cairo-m-ls/src/backend.rs
@@ -6,7 +6,7 @@ use std::time::Duration;
 
 use cairo_m_compiler_parser::{SourceFile, Upcast};
 use cairo_m_compiler_semantic::DefinitionKind;
-use cairo_m_compiler_semantic::db::module_semantic_index;
+use cairo_m_compiler_semantic::db::{module_name_for_file, module_semantic_index};
 use cairo_m_compiler_semantic::semantic_index::DefinitionId;
 use cairo_m_compiler_semantic::type_resolution::definition_semantic_type;
 use cairo_m_compiler_semantic::types::TypeId;
@@ -713,12 +713,7 @@ impl LanguageServer for Backend {
             let offset = self.position_to_offset(content, position);
 
             // Determine which module this file belongs to in the project
-            let file_path = uri.to_file_path().ok();
-            let module_name = file_path
-                .as_ref()
-                .and_then(|p| p.file_stem())
-                .and_then(|stem| stem.to_str())
-                .map(|s| s.to_string())?;
+            let module_name = module_name_for_file(db.upcast(), crate_id, source)?;
 
             // Run semantic analysis query. Salsa will compute it incrementally.
             let index = module_semantic_index(db.upcast(), crate_id, module_name).ok()?;
@@ -856,12 +851,7 @@ impl LanguageServer for Backend {
             let offset = self.position_to_offset(content, position);
 
             // Determine which module this file belongs to in the project
-            let file_path = uri.to_file_path().ok();
-            let module_name = file_path
-                .as_ref()
-                .and_then(|p| p.file_stem())
-                .and_then(|stem| stem.to_str())
-                .map(|s| s.to_string())?;
+            let module_name = module_name_for_file(db.upcast(), crate_id, source)?;
 
             // Run semantic analysis query incrementally.
             let index = module_semantic_index(db.upcast(), crate_id, module_name).ok()?;
@@ -893,11 +883,7 @@ impl LanguageServer for Backend {
                     // Add module information if it's from a different file
                     if def_file != source {
                         if let Some(module_name) =
-                            cairo_m_compiler_semantic::db::module_name_for_file(
-                                db.upcast(),
-                                crate_id,
-                                def_file,
-                            )
+                            module_name_for_file(db.upcast(), crate_id, def_file)
                         {
                             hover_text.push_str(&format!("\n\n*From module: {}*", module_name));
                         }
@@ -943,12 +929,7 @@ impl LanguageServer for Backend {
             let offset = self.position_to_offset(content, position);
 
             // Determine which module this file belongs to in the project
-            let file_path = uri.to_file_path().ok();
-            let module_name = file_path
-                .as_ref()
-                .and_then(|p| p.file_stem())
-                .and_then(|stem| stem.to_str())
-                .map(|s| s.to_string())?;
+            let module_name = module_name_for_file(db.upcast(), crate_id, source)?;
 
             let index = module_semantic_index(db.upcast(), crate_id, module_name).ok()?;
 
-- 
2.43.0


From 5a995f9db58ae4958e057c78dc2df05bdb9d2254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:14 +0000
Subject: [PATCH 58/68] fix: loading a project does not need its manifest to
 stay in the cache

---
 crates/cairo-m-ls/src/project/controller.rs | 23 +++++++--------------
 1 file changed, 7 insertions(+), 16 deletions(-)

diff --git a/crates/cairo-m-ls/src/project/controller.rs b/crates/cairo-m-ls/src/project/controller.rs
index 9850804..928b96b 100644
--- a/crates/cairo-m-ls/src/project/controller.rs
+++ b/crates/cairo-m-ls/src/project/controller.rs
@@ -234,10 +234,10 @@ impl ProjectController {
                                 } // cache dropped here
                                 // Use cached file list and convert project to crate info
                                 let crate_info = CrateInfo {
-                                    name: entry.project.name,
-                                    root: entry.project.root_directory,
+                                    name: entry.project.name.clone(),
+                                    root: entry.project.root_directory.clone(),
                                 };
-                                Ok((crate_info, entry.files))
+                                Ok((entry.project, crate_info, entry.files))
                             }
                             None => {
                                 // Load project and update cache
@@ -261,10 +261,10 @@ impl ProjectController {
                                         } // cache dropped here
                                         debug!("Cached manifest: {:?}", manifest_path);
                                         let crate_info = CrateInfo {
-                                            name: project.name,
-                                            root: project.root_directory,
+                                            name: project.name.clone(),
+                                            root: project.root_directory.clone(),
                                         };
-                                        Ok((crate_info, files))
+                                        Ok((project, crate_info, files))
                                     }
                                     Err(e) => Err(e),
                                 }
@@ -272,16 +272,7 @@ impl ProjectController {
                         };
 
                         match result {
-                            Ok((crate_info, files)) => {
-                                // Get the project from the cache
-                                let project = {
-                                    let cache = manifest_cache.lock().unwrap();
-                                    cache
-                                        .get(&manifest_path)
-                                        .map(|entry| entry.project.clone())
-                                        .expect("Project should be in cache after loading")
-                                };
-
+                            Ok((project, crate_info, files)) => {
                                 if let Err(e) = response_sender.send(ProjectUpdate::Project {
                                     project: Box::new(project),
                                     crate_info,
-- 
2.43.0


From 2f196908f80e59171e437a85af191da6dca629db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:37 +0000
Subject: [PATCH 59/68] fix: constants can be imported from other modules

---
 crates/compiler/mir/src/lowering/builder.rs | 49 +++++++++++++++++++++
 crates/compiler/mir/src/lowering/expr.rs    |  5 +++
 2 files changed, 54 insertions(+)

diff --git a/crates/compiler/mir/src/lowering/builder.rs b/crates/compiler/mir/src/lowering/builder.rs
index e087754..07b0aa2 100644
--- a/crates/compiler/mir/src/lowering/builder.rs
+++ b/crates/compiler/mir/src/lowering/builder.rs
@@ -17,6 +17,7 @@ use cairo_m_compiler_semantic::types::TypeData;
 use cairo_m_compiler_semantic::{File, SemanticDb, module_semantic_index};
 use rustc_hash::FxHashMap;
 
+use super::expr::{LowerExpr, LoweredExpr};
 use crate::{
     BasicBlockId, CfgBuilder, FunctionId, InstrBuilder, Instruction, MirDefinitionId, MirFunction,
     MirType, Value, ValueId,
@@ -236,6 +237,54 @@ impl<'a, 'db> MirBuilder<'a, 'db> {
             .map(|(_, func_id)| *func_id)
     }
 
+    /// Lowers the value of a constant that another module defines
+    ///
+    /// The expression belongs to that module: its types and the names in it are resolved there.
+    pub(crate) fn lower_imported_constant(
+        &mut self,
+        module_name: &str,
+        constant_name: &str,
+    ) -> Result<LoweredExpr, String> {
+        let not_found = || format!("Failed to resolve constant '{module_name}::{constant_name}'");
+        let file = *self
+            .ctx
+            .crate_id
+            .modules(self.ctx.db)
+            .get(module_name)
+            .ok_or_else(not_found)?;
+        let index = module_semantic_index(self.ctx.db, self.ctx.crate_id, module_name.to_string())
+            .map_err(|e| e.to_string())?;
+        let def = index
+            .root_scope()
+            .and_then(|root| index.latest_definition_index_by_name(root, constant_name))
+            .and_then(|def_idx| index.definition(def_idx))
+            .ok_or_else(not_found)?;
+        let DefinitionKind::Const(const_ref) = &def.kind else {
+            return Err(not_found());
+        };
+        let expr_info = const_ref
+            .value_expr_id
+            .and_then(|id| index.expression(id))
+            .ok_or_else(not_found)?;
+        let expr = Spanned::new(expr_info.ast_node.clone(), expr_info.ast_span);
+
+        // Lower into the function being built, in the context of the other module
+        let mut builder = MirBuilder::new(
+            self.ctx.db,
+            file,
+            &index,
+            self.ctx.function_mapping,
+            self.ctx.file_id,
+            self.ctx.crate_id,
+        );
+        std::mem::swap(&mut builder.state, &mut self.state);
+        let in_const_context = std::mem::replace(&mut builder.state.in_const_context, true);
+        let value = builder.lower_expression(&expr);
+        builder.state.in_const_context = in_const_context;
+        std::mem::swap(&mut builder.state, &mut self.state);
+        value
+    }
+
     // ================================================================================
     // CFG Operations - All delegated through CfgBuilder
     // ================================================================================
diff --git a/crates/compiler/mir/src/lowering/expr.rs b/crates/compiler/mir/src/lowering/expr.rs
index 15e19d6..6431068 100644
--- a/crates/compiler/mir/src/lowering/expr.rs
+++ b/crates/compiler/mir/src/lowering/expr.rs
@@ -209,6 +209,11 @@ impl<'a, 'db> MirBuilder<'a, 'db> {
                 ));
             }
 
+            // An imported constant has the value its own module gives it
+            if let DefinitionKind::Use(use_ref) = &def.kind {
+                return self.lower_imported_constant(use_ref.imported_module.value(), name.value());
+            }
+
             let _mir_def_id = self.convert_definition_id(def_id);
 
             // Look up the MIR value for this definition (for variables, not constants)
-- 
2.43.0


From 2f3af3132824e1850b173f197b6ebbab03c9ede9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:32 +0000
Subject: [PATCH 60/68] fix: compiling the same modules again gives the same
 program

---
 crates/compiler/mir/src/lowering/function.rs | 35 ++++++++------------
 1 file changed, 14 insertions(+), 21 deletions(-)

diff --git a/crates/compiler/mir/src/lowering/function.rs b/crates/compiler/mir/src/lowering/function.rs
index 6e96fea..053c78f 100644
--- a/crates/compiler/mir/src/lowering/function.rs
+++ b/crates/compiler/mir/src/lowering/function.rs
@@ -65,8 +65,15 @@ pub fn generate_mir_with_config(
     let mut parsed_modules = HashMap::new();
     let mut lowering_errors: Vec<Diagnostic> = Vec::new();
 
+    // Visit the modules in the order of their names, so that the same texts always give the same
+    // program
+    let modules_map = crate_id.modules(db);
+    let mut module_names: Vec<&String> = modules_map.keys().collect();
+    module_names.sort();
+
     // First, collect all parsed modules to avoid re-parsing
-    for (module_name, file) in crate_id.modules(db) {
+    for &module_name in &module_names {
+        let file = modules_map[module_name];
         let parsed_program = parse_file(db, file);
         if !parsed_program.diagnostics.is_empty() {
             return Err(parsed_program.diagnostics); // Can't generate MIR if parsing failed
@@ -76,16 +83,9 @@ pub fn generate_mir_with_config(
 
     // First pass: Collect all function definitions from all modules and assign them MIR function IDs
     // This allows resolving cross-module function calls correctly
-    let modules_map = crate_id.modules(db);
-    for (module_name, semantic_index) in crate_semantic_index.modules() {
-        let file = *modules_map
-            .get(module_name)
-            .expect("Module file should exist");
-        let _file_id: u64 = crate_id
-            .modules(db)
-            .iter()
-            .position(|(name, _)| name == module_name)
-            .expect("Module should exist in crate") as u64;
+    for &module_name in &module_names {
+        let file = modules_map[module_name];
+        let semantic_index = &crate_semantic_index.modules()[module_name];
 
         // Get the parsed module for this file
         let (_, parsed_module) = parsed_modules
@@ -116,16 +116,9 @@ pub fn generate_mir_with_config(
     }
 
     // Second pass: Now lower all function bodies with the complete function mapping
-    for (module_name, semantic_index) in crate_semantic_index.modules() {
-        let file = *modules_map
-            .get(module_name)
-            .expect("Module file should exist");
-
-        let position = crate_id
-            .modules(db)
-            .iter()
-            .position(|(name, _)| name == module_name)
-            .expect("Module should exist in crate");
+    for (position, &module_name) in module_names.iter().enumerate() {
+        let file = modules_map[module_name];
+        let semantic_index = &crate_semantic_index.modules()[module_name];
 
         let mut hasher = DefaultHasher::new();
         crate_id.name(db).hash(&mut hasher);
-- 
2.43.0


From 8efd01f9502c77e611e351466b17482090c37ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:27 +0000
Subject: [PATCH 61/68] fix: functions of one name in two modules stay apart

---
 crates/compiler/mir/src/lowering/function.rs | 35 +++++++++++++++++---
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/crates/compiler/mir/src/lowering/function.rs b/crates/compiler/mir/src/lowering/function.rs
index 053c78f..268c76d 100644
--- a/crates/compiler/mir/src/lowering/function.rs
+++ b/crates/compiler/mir/src/lowering/function.rs
@@ -9,12 +9,14 @@ use std::sync::Arc;
 
 use cairo_m_compiler_diagnostics::{Diagnostic, DiagnosticCode, DiagnosticSeverity};
 use cairo_m_compiler_parser::parse_file;
-use cairo_m_compiler_parser::parser::{FunctionDef, Parameter, Spanned, Statement, TopLevelItem};
-use cairo_m_compiler_semantic::FileScopeId;
+use cairo_m_compiler_parser::parser::{
+    FunctionDef, Parameter, ParsedModule, Spanned, Statement, TopLevelItem,
+};
 use cairo_m_compiler_semantic::db::Crate;
 use cairo_m_compiler_semantic::definition::{Definition, DefinitionKind};
 use cairo_m_compiler_semantic::semantic_index::DefinitionId;
 use cairo_m_compiler_semantic::type_resolution::definition_semantic_type;
+use cairo_m_compiler_semantic::{File, FileScopeId};
 use rustc_hash::FxHashMap;
 
 use super::builder::MirBuilder;
@@ -100,7 +102,12 @@ pub fn generate_mir_with_config(
                     let def_id = DefinitionId::new(db, file, def_idx);
 
                     // Create a placeholder function that will be filled in during lowering
-                    let placeholder_func = MirFunction::new(def.name.clone());
+                    let placeholder_func = MirFunction::new(unique_function_name(
+                        &crate_id.entry_point(db),
+                        module_name,
+                        &def.name,
+                        &parsed_modules,
+                    ));
                     let func_id = mir_module.add_function(placeholder_func);
 
                     // Map semantic DefinitionId to MIR FunctionId
@@ -155,8 +162,9 @@ pub fn generate_mir_with_config(
 
                     // Lower the function
                     match lower_function(builder, func_def_id, def, func_ast) {
-                        Ok(mir_function) => {
+                        Ok(mut mir_function) => {
                             // Use direct indexing to replace the placeholder function
+                            mir_function.name = mir_module.functions[func_id].name.clone();
                             mir_module.functions[func_id] = mir_function;
                         }
                         Err(e) => {
@@ -196,6 +204,25 @@ pub fn generate_mir_with_config(
     Ok(Arc::new(mir_module))
 }
 
+/// The name of a function in the compiled program, where all functions of all modules stand side
+/// by side: its own name, qualified by its module if another module has a function of that name.
+/// Functions of the main module always keep their name.
+fn unique_function_name(
+    main_module: &str,
+    module_name: &str,
+    func_name: &str,
+    parsed_modules: &HashMap<String, (File, ParsedModule)>,
+) -> String {
+    let is_elsewhere = parsed_modules.iter().any(|(other, (_, module))| {
+        other != module_name && find_function_ast(&module.items, func_name).is_some()
+    });
+    if is_elsewhere && module_name != main_module {
+        format!("{module_name}::{func_name}")
+    } else {
+        func_name.to_string()
+    }
+}
+
 fn find_function_ast<'a>(
     items: &'a [TopLevelItem],
     func_name: &str,
-- 
2.43.0


From 71dee2407a4ff26adf4dd6ee09164d330484155c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:22 +0000
Subject: [PATCH 62/68] fix: names of functions never collide with labels

---
 crates/compiler/codegen/src/builder.rs      | 11 ++++++
 crates/compiler/codegen/src/builder/emit.rs |  2 +-
 crates/compiler/codegen/src/generator.rs    | 41 ++++++++++++++++-----
 crates/compiler/codegen/src/lib.rs          | 30 +++++++++++++--
 4 files changed, 71 insertions(+), 13 deletions(-)

diff --git a/crates/compiler/codegen/src/builder.rs b/crates/compiler/codegen/src/builder.rs
index 4188ac4..c095a9d 100644
--- a/crates/compiler/codegen/src/builder.rs
+++ b/crates/compiler/codegen/src/builder.rs
@@ -11,6 +11,8 @@
 //! set of u32 comparison ops when called directly (e.g., unit tests), but the
 //! generator asserts that illegalized ops do not reach this stage.
 
+use std::sync::Arc;
+
 use cairo_m_compiler_mir::{BinaryOp, DataLayout, Literal, MirType, Value, ValueId};
 use cairo_m_compiler_parser::parser::UnaryOp;
 use rustc_hash::FxHashSet;
@@ -53,6 +55,8 @@ pub struct CasmBuilder {
     pub(super) max_written_offset: i32,
     /// Values that must be stored in their preallocated slots
     pub(super) own_slots: FxHashSet<ValueId>,
+    /// Names of all functions of the program: labels that are taken
+    pub(super) function_names: Arc<FxHashSet<String>>,
 }
 
 /// Represents the type of array operation to perform
@@ -82,9 +86,16 @@ impl CasmBuilder {
             label_counter,
             max_written_offset,
             own_slots: FxHashSet::default(),
+            function_names: Arc::default(),
         }
     }
 
+    /// Sets the names of functions, which generated labels stay clear of
+    pub(crate) fn with_function_names(mut self, names: Arc<FxHashSet<String>>) -> Self {
+        self.function_names = names;
+        self
+    }
+
     /// Sets the values that must be stored in their preallocated slots
     pub(crate) fn with_own_slots(mut self, own_slots: FxHashSet<ValueId>) -> Self {
         self.own_slots = own_slots;
diff --git a/crates/compiler/codegen/src/builder/emit.rs b/crates/compiler/codegen/src/builder/emit.rs
index 4e6be06..6e056a4 100644
--- a/crates/compiler/codegen/src/builder/emit.rs
+++ b/crates/compiler/codegen/src/builder/emit.rs
@@ -17,7 +17,7 @@ impl super::CasmBuilder {
     pub(crate) fn emit_new_label_name(&mut self, prefix: &str) -> String {
         let label_id = self.label_counter;
         self.label_counter += 1;
-        format!("{}_{}", prefix, label_id)
+        Label::numbered_name(prefix, label_id, |name| self.function_names.contains(name))
     }
 
     /// Add a label at the current instruction address.
diff --git a/crates/compiler/codegen/src/generator.rs b/crates/compiler/codegen/src/generator.rs
index 40cab3f..5aa57eb 100644
--- a/crates/compiler/codegen/src/generator.rs
+++ b/crates/compiler/codegen/src/generator.rs
@@ -3,6 +3,7 @@
 //! This module orchestrates the entire MIR to CASM translation process.
 
 use std::collections::HashMap;
+use std::sync::Arc;
 
 use cairo_m_common::instruction::Instruction as CasmInstr;
 use cairo_m_common::program::{AbiSlot, AbiType, EntrypointInfo};
@@ -11,6 +12,7 @@ use cairo_m_compiler_mir::{
     BasicBlockId, BinaryOp, DataLayout, Instruction, InstructionKind, Literal, MirFunction,
     MirModule, MirType, Projection, Terminator, Value, ValueId,
 };
+use rustc_hash::FxHashSet;
 use stwo_prover::core::fields::m31::M31;
 use stwo_prover::core::fields::qm31::QM31;
 
@@ -51,6 +53,8 @@ pub struct CodeGenerator {
     data_blobs: Vec<Vec<QM31>>,
     /// Label -> mutable data blob index
     data_label_to_blob: std::collections::HashMap<String, usize>,
+    /// Names of all functions: labels that are taken
+    function_names: Arc<FxHashSet<String>>,
 }
 
 impl CodeGenerator {
@@ -69,13 +73,24 @@ impl CodeGenerator {
             rodata_blob_to_label: std::collections::HashMap::new(),
             data_blobs: Vec::new(),
             data_label_to_blob: std::collections::HashMap::new(),
+            function_names: Arc::default(),
         }
     }
 
+    /// Name of the label of a basic block
+    fn block_label(&self, function_name: &str, block_id: BasicBlockId) -> String {
+        Label::block_name(function_name, block_id, |name| {
+            self.function_names.contains(name)
+        })
+    }
+
     /// Ensure a single mutable data cell exists for the heap cursor.
     /// Returns the label name to use for addressing it.
     fn ensure_heap_cursor_label(&mut self) -> String {
-        let label = "HEAP_CURSOR".to_string();
+        let mut label = "HEAP_CURSOR".to_string();
+        while self.function_names.contains(&label) {
+            label.push('_');
+        }
         if !self.data_label_to_blob.contains_key(&label) {
             // One QM31 cell initialized to zero
             let q = QM31::from_m31_array([M31::from(0), 0.into(), 0.into(), 0.into()]);
@@ -249,10 +264,13 @@ impl CodeGenerator {
 
     /// Calculate layouts for all functions in the module
     fn calculate_all_layouts(&mut self, module: &MirModule) -> CodegenResult<()> {
+        let mut function_names = FxHashSet::default();
         for (_, function) in module.functions() {
             let layout = FunctionLayout::new(function)?;
             self.function_layouts.insert(function.name.clone(), layout);
+            function_names.insert(function.name.clone());
         }
+        self.function_names = Arc::new(function_names);
         Ok(())
     }
 
@@ -370,7 +388,8 @@ impl CodeGenerator {
 
         // Create a builder for this function
         let mut builder = CasmBuilder::new(layout, self.label_counter)
-            .with_own_slots(values_needing_own_slots(function));
+            .with_own_slots(values_needing_own_slots(function))
+            .with_function_names(self.function_names.clone());
 
         // Add function label - but we'll fix the address later
         let func_label = Label::for_function(&function.name);
@@ -446,7 +465,7 @@ impl CodeGenerator {
         let block_count = function.basic_blocks.len();
         for (block_id, block) in function.basic_blocks.iter_enumerated() {
             // Add block label
-            let block_label = Label::for_block(&function.name, block_id);
+            let block_label = Label::new(self.block_label(&function.name, block_id));
             builder.emit_add_label(block_label);
 
             for (idx, instruction) in block.instructions.iter().enumerate() {
@@ -487,7 +506,11 @@ impl CodeGenerator {
                                 if let Some(lbl) = self.rodata_blob_to_label.get(&blob_index) {
                                     lbl.clone()
                                 } else {
-                                    let lbl = format!("RODATA_{}", self.label_counter);
+                                    let lbl = Label::numbered_name(
+                                        "RODATA",
+                                        self.label_counter,
+                                        |name| self.function_names.contains(name),
+                                    );
                                     self.label_counter += 1;
                                     self.rodata_blob_to_label.insert(blob_index, lbl.clone());
                                     self.rodata_label_to_blob.insert(lbl.clone(), blob_index);
@@ -1429,7 +1452,7 @@ impl CodeGenerator {
                         return Ok(());
                     }
                 }
-                let target_label = format!("{function_name}_{target:?}");
+                let target_label = self.block_label(function_name, *target);
                 builder.jump(&target_label);
             }
 
@@ -1439,8 +1462,8 @@ impl CodeGenerator {
                 else_target,
             } => {
                 // Check if we can optimize the control flow
-                let then_label = format!("{function_name}_{then_target:?}");
-                let else_label = format!("{function_name}_{else_target:?}");
+                let then_label = self.block_label(function_name, *then_target);
+                let else_label = self.block_label(function_name, *else_target);
 
                 // Because CASM has only JNZ, we need to jump to the then_label if the condition is true.
                 // We can't optimize a fallthrough.
@@ -1461,8 +1484,8 @@ impl CodeGenerator {
                 // Reserve a temporary slot on the stack for the comparison result.
                 let temp_slot_offset = builder.layout_mut().reserve_stack(1);
 
-                let then_label = format!("{function_name}_{then_target:?}");
-                let else_label = format!("{function_name}_{else_target:?}");
+                let then_label = self.block_label(function_name, *then_target);
+                let else_label = self.block_label(function_name, *else_target);
 
                 match op {
                     BinaryOp::Eq => {
diff --git a/crates/compiler/codegen/src/lib.rs b/crates/compiler/codegen/src/lib.rs
index a26449b..e64ff42 100644
--- a/crates/compiler/codegen/src/lib.rs
+++ b/crates/compiler/codegen/src/lib.rs
@@ -118,9 +118,33 @@ impl Label {
         }
     }
 
-    /// Create a label for a basic block
-    pub(crate) fn for_block(function_name: &str, block_id: BasicBlockId) -> Self {
-        Self::new(format!("{function_name}_{block_id:?}"))
+    /// Name of the label of a basic block. It is never the name of a function: those are labels
+    /// too.
+    pub(crate) fn block_name(
+        function_name: &str,
+        block_id: BasicBlockId,
+        is_function: impl Fn(&str) -> bool,
+    ) -> String {
+        let mut name = format!("{function_name}_{block_id:?}");
+        while is_function(&name) {
+            name.push('_');
+        }
+        name
+    }
+
+    /// Name of a numbered label. It is never the name of a function, nor of one of its blocks.
+    pub(crate) fn numbered_name(
+        prefix: &str,
+        id: usize,
+        is_function: impl Fn(&str) -> bool,
+    ) -> String {
+        let mut prefix = prefix.to_string();
+        let mut name = format!("{prefix}_{id}");
+        while is_function(&prefix) || is_function(&name) {
+            prefix.push('_');
+            name = format!("{prefix}_{id}");
+        }
+        name
     }
 
     /// Create a label for a function
-- 
2.43.0


From 98a9c33ff0ecf708f382deefee2907dc155bc47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:31 +0000
Subject: [PATCH 63/68] fix: programs of many functions keep their labels apart

---
 crates/compiler/codegen/src/generator.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/compiler/codegen/src/generator.rs b/crates/compiler/codegen/src/generator.rs
index 5aa57eb..cc5ebea 100644
--- a/crates/compiler/codegen/src/generator.rs
+++ b/crates/compiler/codegen/src/generator.rs
@@ -432,7 +432,12 @@ impl CodeGenerator {
 
         self.generate_basic_blocks(function, module, &mut builder)?;
 
-        self.label_counter += builder.label_counter();
+        // The sum leaves gaps between functions; it must not wrap around when there are many
+        self.label_counter = self
+            .label_counter
+            .checked_add(builder.label_counter())
+            .filter(|&sum| sum <= u32::MAX as usize)
+            .unwrap_or_else(|| builder.label_counter());
 
         // Run post-builder passes (deduplication, peephole opts, etc.)
         passes::run_all(&mut builder)?;
-- 
2.43.0


From 3e8b34469fb4a7d94187178387400dcd29a0c069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:18 +0000
Subject: [PATCH 64/68] fix: a wrong argument to an imported function is an
 error, not a panic

---
 .../semantic/src/validation/type_validator.rs    | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/crates/compiler/semantic/src/validation/type_validator.rs b/crates/compiler/semantic/src/validation/type_validator.rs
index ff08ecd..04d0df4 100644
--- a/crates/compiler/semantic/src/validation/type_validator.rs
+++ b/crates/compiler/semantic/src/validation/type_validator.rs
@@ -655,13 +655,17 @@ impl TypeValidator {
                         if !are_types_compatible(db, arg_type, *param_type) {
                             // Find the parameter's AST to get its span
                             let func_def_id = signature_id.definition_id(db);
-                            let func_def = index.definition(func_def_id.id_in_file(db)).unwrap();
-                            let param_type_span =
-                                if let DefinitionKind::Function(func_ref) = &func_def.kind {
+                            // Related spans lie in the file of the diagnostic: there is none
+                            // when the function is imported
+                            let func_def = Some(func_def_id)
+                                .filter(|id| id.file(db) == file)
+                                .and_then(|id| index.definition(id.id_in_file(db)));
+                            let param_type_span = func_def.and_then(|def| match &def.kind {
+                                DefinitionKind::Function(func_ref) => {
                                     func_ref.params_ast.get(arg_idx).map(|p| p.1.span())
-                                } else {
-                                    None
-                                };
+                                }
+                                _ => None,
+                            });
 
                             let mut diag = Diagnostic::error(
                                 DiagnosticCode::TypeMismatch,
-- 
2.43.0


From 48d95960134b6607e995b96adeb6eef6c1211194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:41 +0000
Subject: [PATCH 65/68] fix: a constant that another module imports is not
 unused

---
 .../semantic/src/validation/scope_check.rs    | 33 +++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/crates/compiler/semantic/src/validation/scope_check.rs b/crates/compiler/semantic/src/validation/scope_check.rs
index b7fc316..bc7cd00 100644
--- a/crates/compiler/semantic/src/validation/scope_check.rs
+++ b/crates/compiler/semantic/src/validation/scope_check.rs
@@ -52,8 +52,9 @@ impl Validator for ScopeValidator {
         self.check_import_validity(index, file, db, crate_id, sink);
 
         // Check each scope in this module
+        let imported = Self::names_imported_from(file, db, crate_id);
         for (scope_id, scope) in index.scopes() {
-            self.check_scope(scope_id, scope, file, db, index, sink);
+            self.check_scope(scope_id, scope, file, db, index, &imported, sink);
         }
     }
 
@@ -81,10 +82,30 @@ impl ScopeValidator {
         file: File,
         db: &dyn SemanticDb,
         index: &SemanticIndex,
+        imported: &HashSet<String>,
         sink: &dyn DiagnosticSink,
     ) {
         // Check for unused variables (but not in the global scope for functions/structs)
-        self.check_unused_variables(scope_id, file, db, index, sink);
+        self.check_unused_variables(scope_id, file, db, index, imported, sink);
+    }
+
+    /// Names of this module's items that other modules import
+    fn names_imported_from(file: File, db: &dyn SemanticDb, crate_id: Crate) -> HashSet<String> {
+        let mut names = HashSet::new();
+        let Some(module_name) = crate::db::module_name_for_file(db, crate_id, file) else {
+            return names;
+        };
+        let Ok(project_index) = crate::db::project_semantic_index(db, crate_id) else {
+            return names;
+        };
+        for module_index in project_index.modules().values() {
+            for (_scope_id, use_def_ref) in &module_index.imports {
+                if *use_def_ref.imported_module.value() == module_name {
+                    names.insert(use_def_ref.item.value().clone());
+                }
+            }
+        }
+        names
     }
 
     /// Check for unused variables (warnings for local variables)
@@ -102,6 +123,7 @@ impl ScopeValidator {
         file: File,
         db: &dyn SemanticDb,
         index: &SemanticIndex,
+        imported: &HashSet<String>,
         sink: &dyn DiagnosticSink,
     ) {
         for (def_idx, def) in index.definitions_in_scope(scope_id) {
@@ -122,6 +144,13 @@ impl ScopeValidator {
             if index.is_definition_used(def_idx) {
                 continue;
             }
+            // Skip constants that another module imports
+            if matches!(def.kind, crate::definition::DefinitionKind::Const(_))
+                && index.root_scope() == Some(scope_id)
+                && imported.contains(&def.name)
+            {
+                continue;
+            }
             // Otherwise, report unused variable/const/param
             sink.push(Diagnostic::unused_variable(
                 file.file_path(db).to_string(),
-- 
2.43.0


From da64f53a14f31d960529e9843d99439f9fe79848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:34 +0000
Subject: [PATCH 66/68] fix: a single file may have any name

---
 crates/compiler/cairo-m-project/src/discovery.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/crates/compiler/cairo-m-project/src/discovery.rs b/crates/compiler/cairo-m-project/src/discovery.rs
index 95dea31..d0840a7 100644
--- a/crates/compiler/cairo-m-project/src/discovery.rs
+++ b/crates/compiler/cairo-m-project/src/discovery.rs
@@ -57,14 +57,11 @@ fn setup_as_standalone_file(file_path: &Path) -> Result<Project> {
         .unwrap_or("main");
 
     // For standalone files, the entry point is just the file name
-    let manifest_content = format!(
-        r#"name = "{file_stem}"
-version = "0.1.0"
-entry_point = "{file_stem}.cm"
-"#
-    );
-    let project_manifest =
-        ProjectManifest::from_file_content(&manifest_content).expect("Failed to parse manifest");
+    let project_manifest = ProjectManifest {
+        name: file_stem.to_string(),
+        version: "0.1.0".to_string(),
+        entry_point: format!("{file_stem}.cm"),
+    };
 
     let project = Project {
         config: project_manifest,
-- 
2.43.0


From 710fc460b175012f9932187727a3a230ddb4d2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:34 +0000
Subject: [PATCH 67/68] fix: the manifest above the working directory is found
 from a relative path

---
 .../compiler/cairo-m-project/src/discovery.rs   | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/crates/compiler/cairo-m-project/src/discovery.rs b/crates/compiler/cairo-m-project/src/discovery.rs
index d0840a7..141c8e0 100644
--- a/crates/compiler/cairo-m-project/src/discovery.rs
+++ b/crates/compiler/cairo-m-project/src/discovery.rs
@@ -127,7 +127,22 @@ pub fn find_project_manifest(start_path: &Path) -> Result<Option<PathBuf>> {
         start_path
     };
 
-    let mut current = start_dir;
+    // The directories above a relative path do not stand in the path itself
+    let absolute_dir;
+    let mut current = if start_dir.is_relative() {
+        let dir = if start_dir.as_os_str().is_empty() {
+            Path::new(".")
+        } else {
+            start_dir
+        };
+        absolute_dir = match dir.canonicalize() {
+            Ok(dir) => dir,
+            Err(_) => std::path::absolute(dir)?,
+        };
+        absolute_dir.as_path()
+    } else {
+        start_dir
+    };
 
     loop {
         let manifest_path = current.join(crate::MANIFEST_FILE_NAME);
-- 
2.43.0


From 0c900e7b4ae9f66069db912a62a9d86c5dd2d5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:34 +0000
Subject: [PATCH 68/68] fix: a directory may be named like a module

---
 crates/compiler/cairo-m-project/src/model.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/compiler/cairo-m-project/src/model.rs b/crates/compiler/cairo-m-project/src/model.rs
index e808589..2867436 100644
--- a/crates/compiler/cairo-m-project/src/model.rs
+++ b/crates/compiler/cairo-m-project/src/model.rs
@@ -57,7 +57,8 @@ impl Project {
             let entry = entry?;
             let path = entry.path();
 
-            if path.extension().and_then(|s| s.to_str()) == Some("cm") {
+            // A directory may have such a name as well
+            if path.is_file() && path.extension().and_then(|s| s.to_str()) == Some("cm") {
                 files.push(path.to_owned());
             }
         }
-- 
2.43.0

