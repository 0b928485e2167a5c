From a95dc23af2f2a9a0d699d6928eb23650517705c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:15 +0000
Subject: [PATCH 01/54] fix: escape and unescape every template start marker

`escape_markers` skipped a start marker which directly followed a `$` or
`%`, and `unescape_markers` could miss or misplace escapes for the same
reason, so strings like `${a}$${b}` did not survive a round trip.
---
 crates/hcl-primitives/src/template.rs | 48 ++++++++-------------------
 1 file changed, 13 insertions(+), 35 deletions(-)

diff --git a/crates/hcl-primitives/src/template.rs b/crates/hcl-primitives/src/template.rs
index 9302ce4..a9ced12 100644
--- a/crates/hcl-primitives/src/template.rs
+++ b/crates/hcl-primitives/src/template.rs
@@ -109,25 +109,14 @@ pub fn escape_markers(literal: &str) -> Cow<'_, str> {
 
 fn escape_markers_owned(literal: &str, idx: usize) -> String {
     let (mut buf, rest) = split_buf(literal, idx);
-    let mut chars = rest.chars();
+    let mut chars = rest.chars().peekable();
 
     while let Some(ch) = chars.next() {
         buf.push(ch);
 
-        if ch != '$' && ch != '%' {
-            continue;
-        }
-
-        match chars.next() {
-            Some(ch2) => {
-                if ch2 == '{' {
-                    // Escape the start marker by doubling `ch`.
-                    buf.push(ch);
-                }
-
-                buf.push(ch2);
-            }
-            None => break,
+        if (ch == '$' || ch == '%') && chars.peek() == Some(&'{') {
+            // Escape the start marker by doubling `ch`.
+            buf.push(ch);
         }
     }
 
@@ -163,31 +152,20 @@ pub fn unescape_markers(literal: &str) -> Cow<'_, str> {
 }
 
 fn unescape_markers_owned(literal: &str, idx: usize) -> String {
-    let (mut buf, rest) = split_buf(literal, idx);
-    let mut chars = rest.chars();
+    let (mut buf, mut rest) = split_buf(literal, idx);
 
-    while let Some(ch) = chars.next() {
+    while let Some(ch) = rest.chars().next() {
         buf.push(ch);
 
-        if ch != '$' && ch != '%' {
-            continue;
-        }
-
-        match (chars.next(), chars.next()) {
-            (Some(ch2), Some('{')) if ch2 == ch => {
-                // Unescape by not pushing `ch2` to the output buffer.
-                buf.push('{');
-            }
-            (Some(ch2), ch3) => {
-                buf.push(ch2);
-
-                if let Some(ch) = ch3 {
-                    buf.push(ch);
-                }
-            }
-            (_, _) => break,
+        if rest.starts_with("$${") || rest.starts_with("%%{") {
+            // Unescape by not pushing the second `ch` to the output buffer.
+            buf.push('{');
+            rest = &rest[3..];
+        } else {
+            rest = &rest[ch.len_utf8()..];
         }
     }
+
     buf
 }
 
-- 
2.43.0


From d4f628a7ba89a125b16d2fe7c8be2488aa234483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:15 +0000
Subject: [PATCH 02/54] fix: parse chained comparison operators as
 left-associative

The pratt parser silently dropped everything after the second operand of
`a == b == c` or `1 < 2 < 3`. HCL binary operators are left-associative.
---
 crates/hcl-edit/src/parser/pratt.rs | 20 +++-----------------
 1 file changed, 3 insertions(+), 17 deletions(-)

diff --git a/crates/hcl-edit/src/parser/pratt.rs b/crates/hcl-edit/src/parser/pratt.rs
index c96e841..82ad307 100644
--- a/crates/hcl-edit/src/parser/pratt.rs
+++ b/crates/hcl-edit/src/parser/pratt.rs
@@ -32,23 +32,9 @@ where
         match token {
             BinaryOpToken::Operator(operator) => {
                 let precedence = u32::from(operator.precedence());
-                let associativity = match **operator {
-                    BinaryOperator::Eq
-                    | BinaryOperator::NotEq
-                    | BinaryOperator::LessEq
-                    | BinaryOperator::GreaterEq
-                    | BinaryOperator::Less
-                    | BinaryOperator::Greater => Associativity::Neither,
-                    BinaryOperator::Plus
-                    | BinaryOperator::Minus
-                    | BinaryOperator::Mul
-                    | BinaryOperator::Div
-                    | BinaryOperator::Mod
-                    | BinaryOperator::And
-                    | BinaryOperator::Or => Associativity::Left,
-                };
-
-                Ok(Affix::Infix(Precedence(precedence), associativity))
+                // All binary operators are left-associative, including the comparison operators:
+                // `a == b == c` is the same as `(a == b) == c`.
+                Ok(Affix::Infix(Precedence(precedence), Associativity::Left))
             }
             BinaryOpToken::Expression(_) => Ok(Affix::Nilfix),
         }
-- 
2.43.0


From 9c25b03a25e9cb8a40c4073471c94f1d3527119e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:40 +0000
Subject: [PATCH 03/54] fix: keep the decor of binary and traversal operators

Whitespace and comments in front of (or behind) binary operators and
traversal operators were attached as spans which were never resolved, so
printing a parsed document dropped comments and changed whitespace.
---
 crates/hcl-edit/src/expr/operation.rs | 3 ++-
 crates/hcl-edit/src/expr/traversal.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/hcl-edit/src/expr/operation.rs b/crates/hcl-edit/src/expr/operation.rs
index 5db2af3..a260dbe 100644
--- a/crates/hcl-edit/src/expr/operation.rs
+++ b/crates/hcl-edit/src/expr/operation.rs
@@ -1,5 +1,5 @@
 use crate::expr::Expression;
-use crate::{Decor, Decorated, Spanned};
+use crate::{Decor, Decorate, Decorated, Spanned};
 use std::ops::Range;
 
 // Re-exported for convenience.
@@ -77,6 +77,7 @@ impl BinaryOp {
     pub(crate) fn despan(&mut self, input: &str) {
         self.decor.despan(input);
         self.lhs_expr.despan(input);
+        self.operator.decor_mut().despan(input);
         self.rhs_expr.despan(input);
     }
 }
diff --git a/crates/hcl-edit/src/expr/traversal.rs b/crates/hcl-edit/src/expr/traversal.rs
index 6c28a28..517bb29 100644
--- a/crates/hcl-edit/src/expr/traversal.rs
+++ b/crates/hcl-edit/src/expr/traversal.rs
@@ -35,7 +35,8 @@ impl Traversal {
         self.expr.despan(input);
 
         for operator in &mut self.operators {
-            operator.despan(input);
+            operator.decor_mut().despan(input);
+            operator.value_mut().despan(input);
         }
     }
 }
-- 
2.43.0


From c33f993a39efeb805a2ec0085f191589c8856a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:57 +0000
Subject: [PATCH 04/54] fix: restore the escape mode after encoding nested
 templates

Encoding a string template which contains another string template within
an interpolation stopped escaping the remainder of the outer one, and a
heredoc nested within a string template was erroneously escaped.
---
 crates/hcl-edit/src/encode/mod.rs      | 8 +++++---
 crates/hcl-edit/src/encode/template.rs | 4 ++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/crates/hcl-edit/src/encode/mod.rs b/crates/hcl-edit/src/encode/mod.rs
index 28c0779..0210263 100644
--- a/crates/hcl-edit/src/encode/mod.rs
+++ b/crates/hcl-edit/src/encode/mod.rs
@@ -29,13 +29,15 @@ impl<'a> EncodeState<'a> {
         EncodeState { buf, escape: false }
     }
 
-    pub fn escaped<F>(&mut self, f: F) -> fmt::Result
+    /// Runs the closure with escaping of template literals enabled or disabled and restores the
+    /// previous mode afterwards.
+    pub fn with_escape<F>(&mut self, escape: bool, f: F) -> fmt::Result
     where
         F: FnOnce(&mut EncodeState) -> fmt::Result,
     {
-        self.escape = true;
+        let prev = std::mem::replace(&mut self.escape, escape);
         let result = f(self);
-        self.escape = false;
+        self.escape = prev;
         result
     }
 
diff --git a/crates/hcl-edit/src/encode/template.rs b/crates/hcl-edit/src/encode/template.rs
index fc87d25..a7a57af 100644
--- a/crates/hcl-edit/src/encode/template.rs
+++ b/crates/hcl-edit/src/encode/template.rs
@@ -17,7 +17,7 @@ const DIRECTIVE_START: &str = "%{";
 impl Encode for StringTemplate {
     fn encode(&self, buf: &mut EncodeState) -> fmt::Result {
         buf.write_char('"')?;
-        buf.escaped(|buf| {
+        buf.with_escape(true, |buf| {
             for element in self {
                 element.encode(buf)?;
             }
@@ -46,7 +46,7 @@ impl Encode for HeredocTemplate {
                 let indented = indent_by(&indent_buf, n, false);
                 buf.write_str(&indented)?;
             }
-            None => self.template.encode(buf)?,
+            None => buf.with_escape(false, |buf| self.template.encode(buf))?,
         }
 
         self.trailing().encode_with_default(buf, "")?;
-- 
2.43.0


From 20b6ed27369a49f6e25beb6350404438e2304bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:31 +0000
Subject: [PATCH 05/54] fix: process escapes in directives of quoted string
 templates

The literals within the body of a directive in a quoted template were
parsed like the ones of a heredoc, that is without processing escape
sequences, but encoded with escaping: "%{ if x }\n%{ endif }" changed to
"%{ if x }\\n%{ endif }" when printed.
---
 crates/hcl-edit/src/parser/template.rs | 49 +++++++++++++++++++-------
 1 file changed, 36 insertions(+), 13 deletions(-)

diff --git a/crates/hcl-edit/src/parser/template.rs b/crates/hcl-edit/src/parser/template.rs
index 93d1572..d3638f4 100644
--- a/crates/hcl-edit/src/parser/template.rs
+++ b/crates/hcl-edit/src/parser/template.rs
@@ -22,7 +22,17 @@ use winnow::token::one_of;
 use hcl_primitives::ident::is_id_continue;
 
 pub(super) fn string_template(input: &mut Input) -> ModalResult<StringTemplate> {
-    delimited('"', elements(build_string(quoted_string_fragment)), '"')
+    let literal = build_string(quoted_string_fragment);
+    delimited('"', elements(literal, quoted_template), '"')
+        .output_into()
+        .parse_next(input)
+}
+
+/// Parses the template nested within a directive of a quoted string template. Literals are subject
+/// to the same escaping rules as the literals of the surrounding string template.
+fn quoted_template(input: &mut Input) -> ModalResult<Template> {
+    let literal = build_string(quoted_string_fragment);
+    elements(literal, quoted_template)
         .output_into()
         .parse_next(input)
 }
@@ -30,7 +40,7 @@ pub(super) fn string_template(input: &mut Input) -> ModalResult<StringTemplate>
 pub(super) fn template(input: &mut Input) -> ModalResult<Template> {
     let literal_end = alt(("${", "%{"));
     let literal = template_literal(literal_end);
-    elements(literal).output_into().parse_next(input)
+    elements(literal, template).output_into().parse_next(input)
 }
 
 pub(super) fn heredoc_template<'a>(
@@ -52,7 +62,7 @@ pub(super) fn heredoc_template<'a>(
         let literal = template_literal(literal_end);
 
         // Use `opt` to handle an empty template.
-        opt((elements(literal), line_ending.with_span()).map(
+        opt((elements(literal, template), line_ending.with_span()).map(
             |(mut elements, (line_ending, line_ending_span))| {
                 // If there is a trailing literal, update its span and append the line ending to
                 // it. Otherwise just add a new literal containing only the line ending.
@@ -74,6 +84,9 @@ pub(super) fn heredoc_template<'a>(
     }
 }
 
+/// A function which parses the template nested within a directive.
+type NestedTemplateFn<'a> = fn(&mut Input<'a>) -> ModalResult<Template>;
+
 #[inline]
 fn template_literal<'a, F, T>(
     literal_end: F,
@@ -84,7 +97,10 @@ where
     build_string(template_string_fragment(literal_end))
 }
 
-fn elements<'a, P>(literal: P) -> impl ModalParser<Input<'a>, Vec<Element>, ContextError>
+fn elements<'a, P>(
+    literal: P,
+    nested: NestedTemplateFn<'a>,
+) -> impl ModalParser<Input<'a>, Vec<Element>, ContextError>
 where
     P: ModalParser<Input<'a>, Cow<'a, str>, ContextError>,
 {
@@ -93,7 +109,8 @@ where
         spanned(alt((
             literal.map(|s| Element::Literal(Spanned::new(s.into()))),
             interpolation.map(Element::Interpolation),
-            directive.map(|d| Element::Directive(Box::new(d))),
+            (move |input: &mut Input<'a>| directive(input, nested))
+                .map(|d| Element::Directive(Box::new(d))),
         ))),
     )
 }
@@ -108,21 +125,24 @@ fn interpolation(input: &mut Input) -> ModalResult<Interpolation> {
         .parse_next(input)
 }
 
-fn directive(input: &mut Input) -> ModalResult<Directive> {
+fn directive<'a>(input: &mut Input<'a>, nested: NestedTemplateFn<'a>) -> ModalResult<Directive> {
     alt((
-        if_directive.map(Directive::If),
-        for_directive.map(Directive::For),
+        (|input: &mut Input<'a>| if_directive(input, nested)).map(Directive::If),
+        (|input: &mut Input<'a>| for_directive(input, nested)).map(Directive::For),
     ))
     .parse_next(input)
 }
 
-fn if_directive(input: &mut Input) -> ModalResult<IfDirective> {
+fn if_directive<'a>(
+    input: &mut Input<'a>,
+    nested: NestedTemplateFn<'a>,
+) -> ModalResult<IfDirective> {
     let if_expr = (
         control(
             "%{",
             (terminated(raw_string(ws), "if"), decorated(ws, expr, ws)),
         ),
-        spanned(template),
+        spanned(nested),
     )
         .map(|(((preamble, cond_expr), strip), template)| {
             let mut expr = IfTemplateExpr::new(cond_expr, template);
@@ -133,7 +153,7 @@ fn if_directive(input: &mut Input) -> ModalResult<IfDirective> {
 
     let else_expr = (
         control("%{", separated_pair(raw_string(ws), "else", raw_string(ws))),
-        spanned(template),
+        spanned(nested),
     )
         .map(|(((preamble, trailing), strip), template)| {
             let mut expr = ElseTemplateExpr::new(template);
@@ -160,7 +180,10 @@ fn if_directive(input: &mut Input) -> ModalResult<IfDirective> {
         .parse_next(input)
 }
 
-fn for_directive(input: &mut Input) -> ModalResult<ForDirective> {
+fn for_directive<'a>(
+    input: &mut Input<'a>,
+    nested: NestedTemplateFn<'a>,
+) -> ModalResult<ForDirective> {
     let for_expr = (
         control(
             "%{",
@@ -171,7 +194,7 @@ fn for_directive(input: &mut Input) -> ModalResult<ForDirective> {
                 preceded(cut_tag("in"), decorated(ws, expr, ws)),
             ),
         ),
-        spanned(template),
+        spanned(nested),
     )
         .map(
             |(((preamble, key_var, value_var, collection_expr), strip), template)| {
-- 
2.43.0


From 5a62151448714161f13501942cb818a297789232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:46 +0000
Subject: [PATCH 06/54] fix: reject invalid escape sequences in string literals

An invalid escape sequence was only reported if it was at the very start
of a string literal. Everywhere else the parser swallowed the error and
silently dropped parts of the escape sequence from the string.
---
 crates/hcl-edit/src/parser/string.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/hcl-edit/src/parser/string.rs b/crates/hcl-edit/src/parser/string.rs
index 74b89c3..c3df451 100644
--- a/crates/hcl-edit/src/parser/string.rs
+++ b/crates/hcl-edit/src/parser/string.rs
@@ -7,6 +7,7 @@ use crate::{Decorated, Ident, RawString};
 use hcl_primitives::ident::{is_id_continue, is_id_start};
 use std::borrow::Cow;
 use winnow::combinator::{alt, cut_err, delimited, empty, fail, not, opt, preceded, repeat};
+use winnow::error::ErrMode;
 use winnow::token::{any, one_of, take, take_while};
 
 pub(super) fn string(input: &mut Input) -> ModalResult<String> {
@@ -33,13 +34,20 @@ where
         };
 
         loop {
+            let checkpoint = input.checkpoint();
+
             match fragment_parser.parse_next(input) {
                 Ok(fragment) => match fragment {
                     StringFragment::Literal(s) => string.to_mut().push_str(s),
                     StringFragment::EscapedChar(c) => string.to_mut().push(c),
                     StringFragment::EscapedMarker(m) => string.to_mut().push_str(m.unescape()),
                 },
-                Err(_) => return Ok(string),
+                Err(ErrMode::Backtrack(_)) => {
+                    input.reset(&checkpoint);
+                    return Ok(string);
+                }
+                // E.g. an invalid escape sequence.
+                Err(err) => return Err(err),
             }
         }
     }
-- 
2.43.0


From a4353ceb53b5043913b56d4e9a843ae377c735b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:11 +0000
Subject: [PATCH 07/54] fix: allow newlines in for expressions and template
 directives

Newlines are insignificant between the delimiters of a for expression or
a template directive. They were only allowed in the value expression and
the condition of a for expression that produces a list, everywhere else
multi-line expressions were rejected.
---
 crates/hcl-edit/src/parser/expr.rs     | 6 +++---
 crates/hcl-edit/src/parser/template.rs | 9 ++++++---
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/crates/hcl-edit/src/parser/expr.rs b/crates/hcl-edit/src/parser/expr.rs
index 77ea970..2824316 100644
--- a/crates/hcl-edit/src/parser/expr.rs
+++ b/crates/hcl-edit/src/parser/expr.rs
@@ -456,9 +456,9 @@ fn for_object_expr<'i>(
         (
             for_intro,
             separated_pair(
-                decorated(ws, expr, ws),
+                decorated(ws, multiline_expr, ws),
                 cut_tag("=>"),
-                decorated(ws, expr, ws),
+                decorated(ws, multiline_expr, ws),
             ),
             opt(("...", raw_string(ws))),
             opt(for_cond(state)),
@@ -627,7 +627,7 @@ fn for_intro(input: &mut Input) -> ModalResult<ForIntro> {
             (
                 decorated(ws, cut_ident, ws),
                 opt(preceded(',', decorated(ws, cut_ident, ws))),
-                preceded(cut_tag("in"), decorated(ws, expr, ws)),
+                preceded(cut_tag("in"), decorated(ws, multiline_expr, ws)),
             ),
             cut_char(':'),
         )
diff --git a/crates/hcl-edit/src/parser/template.rs b/crates/hcl-edit/src/parser/template.rs
index d3638f4..d4d6a33 100644
--- a/crates/hcl-edit/src/parser/template.rs
+++ b/crates/hcl-edit/src/parser/template.rs
@@ -1,6 +1,6 @@
 use super::prelude::*;
 
-use super::expr::{expr, multiline_expr};
+use super::expr::multiline_expr;
 use super::repr::{decorated, spanned};
 use super::string::{
     build_string, cut_char, cut_ident, cut_tag, quoted_string_fragment, raw_string,
@@ -140,7 +140,10 @@ fn if_directive<'a>(
     let if_expr = (
         control(
             "%{",
-            (terminated(raw_string(ws), "if"), decorated(ws, expr, ws)),
+            (
+                terminated(raw_string(ws), "if"),
+                decorated(ws, multiline_expr, ws),
+            ),
         ),
         spanned(nested),
     )
@@ -191,7 +194,7 @@ fn for_directive<'a>(
                 terminated(raw_string(ws), "for"),
                 decorated(ws, cut_ident, ws),
                 opt(preceded(',', decorated(ws, cut_ident, ws))),
-                preceded(cut_tag("in"), decorated(ws, expr, ws)),
+                preceded(cut_tag("in"), decorated(ws, multiline_expr, ws)),
             ),
         ),
         spanned(nested),
-- 
2.43.0


From d7690c98bb9fe39cae2f5356c95726992949b065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:39 +0000
Subject: [PATCH 08/54] fix: keep the decor behind the grouping operator of for
 expressions in place

Whitespace and comments between the `...` and the closing brace of a for
expression without condition were moved behind the closing brace.
---
 crates/hcl-edit/src/encode/expr.rs   |  2 ++
 crates/hcl-edit/src/expr/for_expr.rs | 15 ++++++++++++++-
 crates/hcl-edit/src/parser/expr.rs   |  2 +-
 3 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/crates/hcl-edit/src/encode/expr.rs b/crates/hcl-edit/src/encode/expr.rs
index 61953a4..eac0ff5 100644
--- a/crates/hcl-edit/src/encode/expr.rs
+++ b/crates/hcl-edit/src/encode/expr.rs
@@ -136,6 +136,7 @@ impl Encode for ForExpr {
             if let Some(cond) = &self.cond {
                 cond.encode_decorated(buf, LEADING_SPACE_DECOR)?;
             }
+            self.trailing().encode_with_default(buf, "")?;
             buf.write_char('}')
         } else {
             // list expr
@@ -145,6 +146,7 @@ impl Encode for ForExpr {
             if let Some(cond) = &self.cond {
                 cond.encode_decorated(buf, LEADING_SPACE_DECOR)?;
             }
+            self.trailing().encode_with_default(buf, "")?;
             buf.write_char(']')
         }
     }
diff --git a/crates/hcl-edit/src/expr/for_expr.rs b/crates/hcl-edit/src/expr/for_expr.rs
index 858e6d2..99d5e92 100644
--- a/crates/hcl-edit/src/expr/for_expr.rs
+++ b/crates/hcl-edit/src/expr/for_expr.rs
@@ -1,5 +1,5 @@
 use crate::expr::Expression;
-use crate::{Decor, Decorate, Decorated, Ident};
+use crate::{Decor, Decorate, Decorated, Ident, RawString};
 use std::ops::Range;
 
 /// A for expression is a construct for constructing a collection by projecting the items from
@@ -22,6 +22,7 @@ pub struct ForExpr {
     /// be evaluated as normal, while if `false` the element will be skipped.
     pub cond: Option<ForCond>,
 
+    trailing: RawString,
     decor: Decor,
     span: Option<Range<usize>>,
 }
@@ -36,13 +37,25 @@ impl ForExpr {
             value_expr: value_expr.into(),
             grouping: false,
             cond: None,
+            trailing: RawString::default(),
             decor: Decor::default(),
             span: None,
         }
     }
 
+    /// Return a reference to raw trailing decor before the closing `]` or `}`.
+    pub fn trailing(&self) -> &RawString {
+        &self.trailing
+    }
+
+    /// Set the raw trailing decor before the closing `]` or `}`.
+    pub fn set_trailing(&mut self, trailing: impl Into<RawString>) {
+        self.trailing = trailing.into();
+    }
+
     pub(crate) fn despan(&mut self, input: &str) {
         self.decor.despan(input);
+        self.trailing.despan(input);
         self.intro.despan(input);
 
         if let Some(key_expr) = &mut self.key_expr {
diff --git a/crates/hcl-edit/src/parser/expr.rs b/crates/hcl-edit/src/parser/expr.rs
index 2824316..50b1f16 100644
--- a/crates/hcl-edit/src/parser/expr.rs
+++ b/crates/hcl-edit/src/parser/expr.rs
@@ -472,7 +472,7 @@ fn for_object_expr<'i>(
                     if let Some(ref mut cond) = expr.cond {
                         cond.decor_mut().set_prefix(trailing);
                     } else {
-                        expr.decor_mut().set_suffix(trailing);
+                        expr.set_trailing(trailing);
                     }
                 }
 
-- 
2.43.0


From f929e5b371dc88c9353db5d2562118ebc20f0203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:56 +0000
Subject: [PATCH 09/54] fix: separate keywords from undecorated operands when
 encoding

A for intro or an if directive which was not produced by the parser was
encoded as `for xin y` and `%{iffoo }` respectively.
---
 crates/hcl-edit/src/encode/expr.rs     | 2 +-
 crates/hcl-edit/src/encode/template.rs | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/crates/hcl-edit/src/encode/expr.rs b/crates/hcl-edit/src/encode/expr.rs
index eac0ff5..e6a94cd 100644
--- a/crates/hcl-edit/src/encode/expr.rs
+++ b/crates/hcl-edit/src/encode/expr.rs
@@ -159,7 +159,7 @@ impl Encode for ForIntro {
             key_var.encode_decorated(buf, LEADING_SPACE_DECOR)?;
             buf.write_char(',')?;
         }
-        self.value_var.encode_decorated(buf, LEADING_SPACE_DECOR)?;
+        self.value_var.encode_decorated(buf, BOTH_SPACE_DECOR)?;
         buf.write_str("in")?;
         self.collection_expr
             .encode_decorated(buf, BOTH_SPACE_DECOR)?;
diff --git a/crates/hcl-edit/src/encode/template.rs b/crates/hcl-edit/src/encode/template.rs
index a7a57af..c698213 100644
--- a/crates/hcl-edit/src/encode/template.rs
+++ b/crates/hcl-edit/src/encode/template.rs
@@ -1,6 +1,5 @@
 use super::{
     encode_escaped, Encode, EncodeDecorated, EncodeState, BOTH_SPACE_DECOR, LEADING_SPACE_DECOR,
-    TRAILING_SPACE_DECOR,
 };
 use crate::template::{
     Directive, Element, ElseTemplateExpr, EndforTemplateExpr, EndifTemplateExpr, ForDirective,
@@ -114,7 +113,7 @@ impl Encode for IfTemplateExpr {
         encode_strip(buf, DIRECTIVE_START, self.strip, |buf| {
             self.preamble().encode_with_default(buf, " ")?;
             buf.write_str("if")?;
-            self.cond_expr.encode_decorated(buf, TRAILING_SPACE_DECOR)
+            self.cond_expr.encode_decorated(buf, BOTH_SPACE_DECOR)
         })?;
         self.template.encode(buf)
     }
-- 
2.43.0


From 05ee5e7df76a2b3d304908b01dce11b379ad7c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:11 +0000
Subject: [PATCH 10/54] fix: visit the collection expression of for directives

---
 crates/hcl-edit/src/visit.rs     | 1 +
 crates/hcl-edit/src/visit_mut.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/crates/hcl-edit/src/visit.rs b/crates/hcl-edit/src/visit.rs
index 12bd95b..9b1a8d7 100644
--- a/crates/hcl-edit/src/visit.rs
+++ b/crates/hcl-edit/src/visit.rs
@@ -479,5 +479,6 @@ where
         v.visit_ident(key_var);
     }
     v.visit_ident(&node.value_var);
+    v.visit_expr(&node.collection_expr);
     v.visit_template(&node.template);
 }
diff --git a/crates/hcl-edit/src/visit_mut.rs b/crates/hcl-edit/src/visit_mut.rs
index ab7a249..02b57bd 100644
--- a/crates/hcl-edit/src/visit_mut.rs
+++ b/crates/hcl-edit/src/visit_mut.rs
@@ -495,5 +495,6 @@ where
         v.visit_ident_mut(key_var);
     }
     v.visit_ident_mut(&mut node.value_var);
+    v.visit_expr_mut(&mut node.collection_expr);
     v.visit_template_mut(&mut node.template);
 }
-- 
2.43.0


From e07598cfac1e53527be64546e58bb1f53f597c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:19 +0000
Subject: [PATCH 11/54] fix: consider argument expansion when comparing
 function arguments

`f(x)` and `f(x...)` compared equal.
---
 crates/hcl-edit/src/expr/func_call.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/hcl-edit/src/expr/func_call.rs b/crates/hcl-edit/src/expr/func_call.rs
index c4905df..fe7f7e6 100644
--- a/crates/hcl-edit/src/expr/func_call.rs
+++ b/crates/hcl-edit/src/expr/func_call.rs
@@ -254,6 +254,7 @@ impl FuncArgs {
 impl PartialEq for FuncArgs {
     fn eq(&self, other: &Self) -> bool {
         self.args == other.args
+            && self.expand_final == other.expand_final
             && self.trailing_comma == other.trailing_comma
             && self.trailing == other.trailing
     }
-- 
2.43.0


From a6294e374fb822eb3c4ca6d9bad18f937470723c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:21 +0000
Subject: [PATCH 12/54] fix: do not wrap, saturate or panic in number
 arithmetics

Integers which cannot be represented were wrapped or caused a panic, and
big floats were saturated to `i64::MAX`: `1e300` was parsed as
9223372036854775807 and `-18446744073709551615` as 1. Results are exact
as long as they are integers that can be represented, and floats otherwise.

This also makes equality consistent with the hash for integers and floats
near 2^64, and adds checked operations which do not panic on results that
are not finite.
---
 crates/hcl-primitives/src/number.rs | 244 ++++++++++++++++------------
 1 file changed, 142 insertions(+), 102 deletions(-)

diff --git a/crates/hcl-primitives/src/number.rs b/crates/hcl-primitives/src/number.rs
index 93b1372..30e6e36 100644
--- a/crates/hcl-primitives/src/number.rs
+++ b/crates/hcl-primitives/src/number.rs
@@ -7,22 +7,6 @@ use core::ops::{Add, Div, Mul, Neg, Rem, Sub};
 #[cfg(feature = "serde")]
 use serde::de::Unexpected;
 
-enum CoerceResult {
-    PosInt(u64, u64),
-    NegInt(i64, i64),
-    Float(f64, f64),
-}
-
-// Coerce two numbers to a common type suitable for binary operations.
-fn coerce(a: N, b: N) -> CoerceResult {
-    match (a, b) {
-        (N::PosInt(a), N::PosInt(b)) => CoerceResult::PosInt(a, b),
-        (N::NegInt(a), N::NegInt(b)) => CoerceResult::NegInt(a, b),
-        (N::Float(a), N::Float(b)) => CoerceResult::Float(a, b),
-        (a, b) => CoerceResult::Float(a.to_f64(), b.to_f64()),
-    }
-}
-
 /// Represents an HCL number.
 #[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd)]
 pub struct Number {
@@ -38,6 +22,12 @@ enum N {
     Float(f64),
 }
 
+// The lowest float above `u64::MAX`.
+const TWO_POW_64: f64 = 18_446_744_073_709_551_616.0;
+
+// `i64::MIN` as float.
+const MINUS_TWO_POW_63: f64 = -9_223_372_036_854_775_808.0;
+
 impl N {
     fn from_finite_f64(value: f64) -> N {
         debug_assert!(value.is_finite());
@@ -48,16 +38,90 @@ impl N {
         // `core::f64` does not have the `fract()` method.
         #[cfg(not(feature = "std"))]
         #[allow(clippy::cast_possible_truncation, clippy::cast_precision_loss)]
-        let no_fraction = value - (value as i64 as f64) == 0.0;
-
-        if no_fraction {
-            #[allow(clippy::cast_possible_truncation)]
-            N::from(value as i64)
+        let no_fraction = value >= TWO_POW_64
+            || value < MINUS_TWO_POW_63
+            || value - (value as i128 as f64) == 0.0;
+
+        #[allow(clippy::cast_possible_truncation, clippy::cast_sign_loss)]
+        if no_fraction && (0.0..TWO_POW_64).contains(&value) {
+            N::PosInt(value as u64)
+        } else if no_fraction && (MINUS_TWO_POW_63..0.0).contains(&value) {
+            N::NegInt(value as i64)
         } else {
             N::Float(value)
         }
     }
 
+    fn from_f64(value: f64) -> Option<N> {
+        if value.is_finite() {
+            Some(N::from_finite_f64(value))
+        } else {
+            None
+        }
+    }
+
+    fn from_i128(value: i128) -> N {
+        if let Ok(value) = u64::try_from(value) {
+            N::PosInt(value)
+        } else if let Ok(value) = i64::try_from(value) {
+            N::NegInt(value)
+        } else {
+            #[allow(clippy::cast_precision_loss)]
+            N::from_finite_f64(value as f64)
+        }
+    }
+
+    fn as_i128(self) -> Option<i128> {
+        match self {
+            N::PosInt(n) => Some(i128::from(n)),
+            N::NegInt(n) => Some(i128::from(n)),
+            N::Float(_) => None,
+        }
+    }
+
+    // Performs a binary operation on integers if possible, and on floats otherwise. Returns `None`
+    // if the result is not a finite number.
+    fn checked_op(
+        self,
+        rhs: Self,
+        int_op: fn(i128, i128) -> Option<i128>,
+        float_op: fn(f64, f64) -> f64,
+    ) -> Option<N> {
+        match (self.as_i128(), rhs.as_i128()) {
+            (Some(a), Some(b)) => int_op(a, b).map(N::from_i128),
+            (_, _) => None,
+        }
+        .or_else(|| N::from_f64(float_op(self.to_f64(), rhs.to_f64())))
+    }
+
+    fn checked_add(self, rhs: Self) -> Option<N> {
+        self.checked_op(rhs, i128::checked_add, |a, b| a + b)
+    }
+
+    fn checked_sub(self, rhs: Self) -> Option<N> {
+        self.checked_op(rhs, i128::checked_sub, |a, b| a - b)
+    }
+
+    fn checked_mul(self, rhs: Self) -> Option<N> {
+        self.checked_op(rhs, i128::checked_mul, |a, b| a * b)
+    }
+
+    fn checked_div(self, rhs: Self) -> Option<N> {
+        // Only use the quotient of the integers if there's no fraction.
+        self.checked_op(
+            rhs,
+            |a, b| match a.checked_rem(b) {
+                Some(0) => a.checked_div(b),
+                _ => None,
+            },
+            |a, b| a / b,
+        )
+    }
+
+    fn checked_rem(self, rhs: Self) -> Option<N> {
+        self.checked_op(rhs, i128::checked_rem, |a, b| a % b)
+    }
+
     fn as_i64(&self) -> Option<i64> {
         match *self {
             N::PosInt(n) => i64::try_from(n).ok(),
@@ -107,11 +171,7 @@ impl N {
 
 impl PartialEq for N {
     fn eq(&self, other: &Self) -> bool {
-        match coerce(*self, *other) {
-            CoerceResult::PosInt(a, b) => a == b,
-            CoerceResult::NegInt(a, b) => a == b,
-            CoerceResult::Float(a, b) => a == b,
-        }
+        self.partial_cmp(other) == Some(Ordering::Equal)
     }
 }
 
@@ -120,10 +180,17 @@ impl Eq for N {}
 
 impl PartialOrd for N {
     fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
-        match coerce(*self, *other) {
-            CoerceResult::PosInt(a, b) => a.partial_cmp(&b),
-            CoerceResult::NegInt(a, b) => a.partial_cmp(&b),
-            CoerceResult::Float(a, b) => a.partial_cmp(&b),
+        match (self, other) {
+            (N::Float(a), N::Float(b)) => a.partial_cmp(b),
+            // A `N::Float` never equals an integer, because these are not represented as floats.
+            // The only integers that may become equal to a float due to the loss of precision are
+            // those that are rounded up to 2^64.
+            (N::Float(a), b) => match a.partial_cmp(&b.to_f64()) {
+                Some(Ordering::Equal) => Some(Ordering::Greater),
+                ordering => ordering,
+            },
+            (_, N::Float(_)) => other.partial_cmp(self).map(Ordering::reverse),
+            (a, b) => a.as_i128().partial_cmp(&b.as_i128()),
         }
     }
 }
@@ -166,73 +233,9 @@ impl Neg for N {
 
     fn neg(self) -> Self::Output {
         match self {
-            #[allow(clippy::cast_possible_wrap)]
-            N::PosInt(value) => N::NegInt(-(value as i64)),
-            N::NegInt(value) => N::from(-value),
-            N::Float(value) => N::Float(-value),
-        }
-    }
-}
-
-impl Add for N {
-    type Output = N;
-
-    fn add(self, rhs: Self) -> Self::Output {
-        match coerce(self, rhs) {
-            CoerceResult::PosInt(a, b) => N::PosInt(a + b),
-            CoerceResult::NegInt(a, b) => N::NegInt(a + b),
-            CoerceResult::Float(a, b) => N::from_finite_f64(a + b),
-        }
-    }
-}
-
-impl Sub for N {
-    type Output = N;
-
-    fn sub(self, rhs: Self) -> Self::Output {
-        match coerce(self, rhs) {
-            CoerceResult::PosInt(a, b) => {
-                if b > a {
-                    #[allow(clippy::cast_possible_wrap)]
-                    N::NegInt(a as i64 - b as i64)
-                } else {
-                    N::PosInt(a - b)
-                }
-            }
-            CoerceResult::NegInt(a, b) => N::from(a - b),
-            CoerceResult::Float(a, b) => N::from_finite_f64(a - b),
-        }
-    }
-}
-
-impl Mul for N {
-    type Output = N;
-
-    fn mul(self, rhs: Self) -> Self::Output {
-        match coerce(self, rhs) {
-            CoerceResult::PosInt(a, b) => N::PosInt(a * b),
-            CoerceResult::NegInt(a, b) => N::from(a * b),
-            CoerceResult::Float(a, b) => N::from_finite_f64(a * b),
-        }
-    }
-}
-
-impl Div for N {
-    type Output = N;
-
-    fn div(self, rhs: Self) -> Self::Output {
-        N::from_finite_f64(self.to_f64() / rhs.to_f64())
-    }
-}
-
-impl Rem for N {
-    type Output = N;
-
-    fn rem(self, rhs: Self) -> Self::Output {
-        match coerce(self, rhs) {
-            CoerceResult::PosInt(a, b) => N::PosInt(a % b),
-            CoerceResult::NegInt(a, b) => N::NegInt(a % b),
-            CoerceResult::Float(a, b) => N::from_finite_f64(a % b),
+            N::PosInt(value) => N::from_i128(-i128::from(value)),
+            N::NegInt(value) => N::from_i128(-i128::from(value)),
+            N::Float(value) => N::from_finite_f64(-value),
         }
     }
 }
@@ -308,6 +311,36 @@ impl Number {
         self.n.is_u64()
     }
 
+    /// Checked addition. Returns `None` if the result is not a finite number.
+    #[inline]
+    pub fn checked_add(self, rhs: Number) -> Option<Number> {
+        self.n.checked_add(rhs.n).map(|n| Number { n })
+    }
+
+    /// Checked subtraction. Returns `None` if the result is not a finite number.
+    #[inline]
+    pub fn checked_sub(self, rhs: Number) -> Option<Number> {
+        self.n.checked_sub(rhs.n).map(|n| Number { n })
+    }
+
+    /// Checked multiplication. Returns `None` if the result is not a finite number.
+    #[inline]
+    pub fn checked_mul(self, rhs: Number) -> Option<Number> {
+        self.n.checked_mul(rhs.n).map(|n| Number { n })
+    }
+
+    /// Checked division. Returns `None` if `rhs` is zero or if the result is not a finite number.
+    #[inline]
+    pub fn checked_div(self, rhs: Number) -> Option<Number> {
+        self.n.checked_div(rhs.n).map(|n| Number { n })
+    }
+
+    /// Checked remainder. Returns `None` if `rhs` is zero or if the result is not a finite number.
+    #[inline]
+    pub fn checked_rem(self, rhs: Number) -> Option<Number> {
+        self.n.checked_rem(rhs.n).map(|n| Number { n })
+    }
+
     // Not public API. Used to generate better deserialization errors in `hcl-rs`.
     #[cfg(feature = "serde")]
     #[doc(hidden)]
@@ -354,15 +387,16 @@ macro_rules! impl_from_signed {
 }
 
 macro_rules! impl_binary_ops {
-    ($($op:ty => $method:ident),*) => {
+    ($($op:ty => $method:ident, $checked:ident),*) => {
         $(
             impl $op for Number {
                 type Output = Number;
 
+                /// # Panics
+                ///
+                /// Panics if the result is not a finite number.
                 fn $method(self, rhs: Self) -> Self::Output {
-                    Number {
-                        n: self.n.$method(rhs.n)
-                    }
+                    self.$checked(rhs).expect("number is not finite")
                 }
             }
         )*
@@ -371,7 +405,13 @@ macro_rules! impl_binary_ops {
 
 impl_from_unsigned!(u8, u16, u32, u64, usize);
 impl_from_signed!(i8, i16, i32, i64, isize);
-impl_binary_ops!(Add => add, Sub => sub, Mul => mul, Div => div, Rem => rem);
+impl_binary_ops!(
+    Add => add, checked_add,
+    Sub => sub, checked_sub,
+    Mul => mul, checked_mul,
+    Div => div, checked_div,
+    Rem => rem, checked_rem
+);
 
 impl Neg for Number {
     type Output = Number;
-- 
2.43.0


From 610c7efe57cf88f96a9a7f063a1406730604470b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:34 +0000
Subject: [PATCH 13/54] fix: report an error for operations without a finite
 result

Evaluating `1 / 0` or `1 % 0` panicked or produced a number that is not
finite.
---
 crates/hcl-rs/src/eval/impls.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/crates/hcl-rs/src/eval/impls.rs b/crates/hcl-rs/src/eval/impls.rs
index f318e1c..28ad304 100644
--- a/crates/hcl-rs/src/eval/impls.rs
+++ b/crates/hcl-rs/src/eval/impls.rs
@@ -418,11 +418,22 @@ impl Evaluate for BinaryOp {
             (Number(lhs), GreaterEq, Number(rhs)) => Bool(lhs >= rhs),
             (Number(lhs), Less, Number(rhs)) => Bool(lhs < rhs),
             (Number(lhs), Greater, Number(rhs)) => Bool(lhs > rhs),
-            (Number(lhs), Plus, Number(rhs)) => Number(lhs + rhs),
-            (Number(lhs), Minus, Number(rhs)) => Number(lhs - rhs),
-            (Number(lhs), Mul, Number(rhs)) => Number(lhs * rhs),
-            (Number(lhs), Div, Number(rhs)) => Number(lhs / rhs),
-            (Number(lhs), Mod, Number(rhs)) => Number(lhs % rhs),
+            (Number(lhs), operator, Number(rhs)) => {
+                let result = match operator {
+                    Plus => lhs.checked_add(rhs),
+                    Minus => lhs.checked_sub(rhs),
+                    Mul => lhs.checked_mul(rhs),
+                    Div => lhs.checked_div(rhs),
+                    Mod => lhs.checked_rem(rhs),
+                    _ => None,
+                };
+
+                // There's no result if the operator is not applicable to numbers at all, for
+                // divisions by zero and if the result is not a finite number.
+                return result.map(Number).ok_or_else(|| {
+                    ctx.error(ErrorKind::BinaryOp(Number(lhs), operator, Number(rhs)))
+                });
+            }
             (lhs, operator, rhs) => return Err(ctx.error(ErrorKind::BinaryOp(lhs, operator, rhs))),
         };
 
-- 
2.43.0


From 1e91a7ce927ad6822cf31fd45c85bef8ab22e30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:56 +0000
Subject: [PATCH 14/54] fix: check formatted strings for valid UTF-8

The formatter can be configured to use arbitrary bytes for indentation and
a pre-filled buffer can be used as writer, so assuming valid UTF-8 is
unsound.
---
 crates/hcl-rs/src/format/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/hcl-rs/src/format/mod.rs b/crates/hcl-rs/src/format/mod.rs
index 81c0451..e937454 100644
--- a/crates/hcl-rs/src/format/mod.rs
+++ b/crates/hcl-rs/src/format/mod.rs
@@ -78,14 +78,15 @@ pub trait Format: private::Sealed {
     ///
     /// # Errors
     ///
-    /// Formatting the data structure or writing to the writer may fail with an `Error`.
+    /// Formatting the data structure or writing to the writer may fail with an `Error`. An error is
+    /// also returned if the result is not valid UTF-8.
     fn format_string<W>(&self, fmt: &mut Formatter<W>) -> Result<String>
     where
         W: io::Write + AsMut<Vec<u8>>,
     {
         let bytes = self.format_vec(fmt)?;
-        // SAFETY: The `Formatter` never emits invalid UTF-8.
-        Ok(unsafe { String::from_utf8_unchecked(bytes) })
+        // The indent and the contents of the writer are not guaranteed to be valid UTF-8.
+        String::from_utf8(bytes).map_err(|err| err.utf8_error().into())
     }
 }
 
-- 
2.43.0


From fdfe5035e5fb1a83b677c19bf38f4f055aff5e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:34 +0000
Subject: [PATCH 15/54] fix: reset the formatter state when draining its buffer

A formatter that was reused emitted a stray leading newline if the
previously formatted structure was a block.
---
 crates/hcl-rs/src/format/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/hcl-rs/src/format/mod.rs b/crates/hcl-rs/src/format/mod.rs
index e937454..43fa15e 100644
--- a/crates/hcl-rs/src/format/mod.rs
+++ b/crates/hcl-rs/src/format/mod.rs
@@ -71,6 +71,7 @@ pub trait Format: private::Sealed {
         self.format(fmt)?;
         // "Drain" the buffer by splitting off all bytes, leaving the formatter's buffer empty
         // ready for reuse.
+        fmt.state = FormatState::Initial;
         Ok(fmt.writer.as_mut().split_off(0))
     }
 
-- 
2.43.0


From 7aba85cfd6044528da892a26738e5de258ad2421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:12 +0000
Subject: [PATCH 16/54] fix: escape the literals of quoted templates when
 formatting

The raw template of a quoted template expression contains unescaped
literals which were written as is, so `"a\\"b${c}"` was formatted as
`"a"b${c}"` which is not valid HCL.
---
 crates/hcl-rs/src/format/impls.rs | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/crates/hcl-rs/src/format/impls.rs b/crates/hcl-rs/src/format/impls.rs
index 54e24eb..a6fb0b3 100644
--- a/crates/hcl-rs/src/format/impls.rs
+++ b/crates/hcl-rs/src/format/impls.rs
@@ -1,4 +1,5 @@
 use super::{private, Format, Formatter};
+use crate::edit;
 use crate::expr::{
     BinaryOp, Conditional, Expression, ForExpr, FuncCall, FuncName, Heredoc, HeredocStripMode,
     ObjectKey, Operation, TemplateExpr, Traversal, TraversalOperator, UnaryOp, Variable,
@@ -149,7 +150,9 @@ impl Format for Value {
             Value::Number(num) => num.format(fmt),
             Value::String(string) => {
                 if is_templated(string) {
-                    fmt.write_quoted_string(string)
+                    format_quoted_template(fmt, string, |fmt| {
+                        fmt.write_quoted_string_escaped(string)
+                    })
                 } else {
                     fmt.write_quoted_string_escaped(string)
                 }
@@ -211,7 +214,9 @@ impl Format for TemplateExpr {
         W: io::Write,
     {
         match self {
-            TemplateExpr::QuotedString(string) => fmt.write_quoted_string(string),
+            TemplateExpr::QuotedString(string) => {
+                format_quoted_template(fmt, string, |fmt| fmt.write_quoted_string(string))
+            }
             TemplateExpr::Heredoc(heredoc) => heredoc.format(fmt),
         }
     }
@@ -570,6 +575,24 @@ impl Format for String {
     }
 }
 
+/// Formats the raw string representation of a template as quoted string. The literals of the
+/// template are escaped, but not the expressions within its interpolations and directives.
+///
+/// Uses `fallback` if the string is not a valid template.
+fn format_quoted_template<W, F>(fmt: &mut Formatter<W>, template: &str, fallback: F) -> Result<()>
+where
+    W: io::Write,
+    F: FnOnce(&mut Formatter<W>) -> Result<()>,
+{
+    match template.parse::<edit::template::Template>() {
+        Ok(template) => {
+            let expr = edit::expr::Expression::from(edit::template::StringTemplate::from(template));
+            fmt.write_string_fragment(&expr.to_string())
+        }
+        Err(_) => fallback(fmt),
+    }
+}
+
 fn format_array<W, T>(fmt: &mut Formatter<W>, array: impl Iterator<Item = T>) -> Result<()>
 where
     W: io::Write,
-- 
2.43.0


From 44b859119aac442d23fddd7d06b917e6628fe7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:19 +0000
Subject: [PATCH 17/54] fix: do not produce different HCL for empty heredocs
 and argument lists

An empty heredoc was formatted with an additional empty line, and a
function call with `expand_final` but without arguments was formatted as
`f(...)` which is not valid HCL.
---
 crates/hcl-rs/src/format/impls.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/hcl-rs/src/format/impls.rs b/crates/hcl-rs/src/format/impls.rs
index a6fb0b3..746f58d 100644
--- a/crates/hcl-rs/src/format/impls.rs
+++ b/crates/hcl-rs/src/format/impls.rs
@@ -234,7 +234,7 @@ impl Format for Heredoc {
         fmt.write_bytes(b"\n")?;
         fmt.write_string_fragment(&self.template)?;
 
-        if !self.template.ends_with('\n') {
+        if !self.template.is_empty() && !self.template.ends_with('\n') {
             fmt.write_bytes(b"\n")?;
         }
 
@@ -331,7 +331,7 @@ impl Format for FuncCall {
             Ok(())
         })?;
 
-        if self.expand_final {
+        if self.expand_final && !self.args.is_empty() {
             fmt.write_bytes(b"...)")
         } else {
             fmt.write_bytes(b")")
-- 
2.43.0


From e0357893b301c4bf47c706c3b2e0cd4df45ad0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:37 +0000
Subject: [PATCH 18/54] fix: report errors while flushing the hcl2json output

---
 crates/hcl2json/src/main.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/hcl2json/src/main.rs b/crates/hcl2json/src/main.rs
index 8b35cab..735d798 100644
--- a/crates/hcl2json/src/main.rs
+++ b/crates/hcl2json/src/main.rs
@@ -176,13 +176,16 @@ fn read_hcl<R: Read>(reader: R, args: &Args) -> Result<Value> {
 }
 
 #[inline]
-fn write_json<W: Write>(writer: W, value: &Value, args: &Args) -> Result<()> {
+fn write_json<W: Write>(mut writer: W, value: &Value, args: &Args) -> Result<()> {
     if args.pretty {
-        serde_json::to_writer_pretty(writer, value)?;
+        serde_json::to_writer_pretty(&mut writer, value)?;
     } else {
-        serde_json::to_writer(writer, value)?;
+        serde_json::to_writer(&mut writer, value)?;
     }
 
+    // Dropping the buffered writer would ignore errors.
+    writer.flush()?;
+
     Ok(())
 }
 
-- 
2.43.0


From ea598529ce08afbfc0d5b432cff419d3df6ac724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:11 +0000
Subject: [PATCH 19/54] fix: strip and restore the indent of heredocs
 consistently

A line without indent after an interpolation was ignored and lost its
first characters, lines within directives were never dedented but
indented again when encoding, and lines of multi-line expressions within
interpolations were indented as well.
---
 crates/hcl-edit/src/encode/mod.rs      | 56 ++++++++++++++++++++-
 crates/hcl-edit/src/encode/template.rs | 21 +++-----
 crates/hcl-edit/src/template/mod.rs    | 63 ++++++++++++++++++------
 crates/hcl-edit/src/util.rs            | 67 +++++++-------------------
 4 files changed, 129 insertions(+), 78 deletions(-)

diff --git a/crates/hcl-edit/src/encode/mod.rs b/crates/hcl-edit/src/encode/mod.rs
index 0210263..d72f175 100644
--- a/crates/hcl-edit/src/encode/mod.rs
+++ b/crates/hcl-edit/src/encode/mod.rs
@@ -2,6 +2,7 @@ mod expr;
 mod structure;
 mod template;
 
+use crate::util::indent_by;
 use crate::{Decorate, Decorated, Formatted, Ident, Number};
 use hcl_primitives::template::escape_markers;
 use std::fmt::{self, Write};
@@ -22,11 +23,25 @@ pub(crate) trait Encode {
 pub(crate) struct EncodeState<'a> {
     buf: &'a mut dyn fmt::Write,
     escape: bool,
+    indent: Option<Indent>,
+}
+
+/// The indent of the heredoc template that is being encoded.
+#[derive(Clone, Copy)]
+struct Indent {
+    /// The number of spaces.
+    width: usize,
+    /// Whether the next character is written to the start of a line.
+    line_start: bool,
 }
 
 impl<'a> EncodeState<'a> {
     pub fn new(buf: &'a mut dyn fmt::Write) -> EncodeState<'a> {
-        EncodeState { buf, escape: false }
+        EncodeState {
+            buf,
+            escape: false,
+            indent: None,
+        }
     }
 
     /// Runs the closure with escaping of template literals enabled or disabled and restores the
@@ -44,6 +59,45 @@ impl<'a> EncodeState<'a> {
     pub fn escape(&self) -> bool {
         self.escape
     }
+
+    /// Runs the closure with the lines of template literals being indented by `indent` spaces, if
+    /// any, and restores the previous indent afterwards.
+    pub fn with_indent<F>(&mut self, indent: Option<usize>, f: F) -> fmt::Result
+    where
+        F: FnOnce(&mut EncodeState) -> fmt::Result,
+    {
+        let indent = indent.map(|width| Indent {
+            width,
+            line_start: true,
+        });
+        let prev = std::mem::replace(&mut self.indent, indent);
+        let result = f(self);
+        self.indent = prev;
+        result
+    }
+
+    /// Writes a template literal.
+    pub fn write_literal(&mut self, literal: &str) -> fmt::Result {
+        match &mut self.indent {
+            Some(indent) if !literal.is_empty() => {
+                let indented = indent_by(literal, indent.width, !indent.line_start);
+                indent.line_start = literal.ends_with('\n');
+                self.buf.write_str(&indented)
+            }
+            _ => self.buf.write_str(literal),
+        }
+    }
+
+    /// Writes the start marker of an interpolation or directive.
+    pub fn write_start_marker(&mut self, marker: &str) -> fmt::Result {
+        if let Some(indent) = &mut self.indent {
+            if std::mem::take(&mut indent.line_start) {
+                self.buf.write_str(&" ".repeat(indent.width))?;
+            }
+        }
+
+        self.buf.write_str(marker)
+    }
 }
 
 impl fmt::Write for EncodeState<'_> {
diff --git a/crates/hcl-edit/src/encode/template.rs b/crates/hcl-edit/src/encode/template.rs
index c698213..a17c324 100644
--- a/crates/hcl-edit/src/encode/template.rs
+++ b/crates/hcl-edit/src/encode/template.rs
@@ -6,7 +6,6 @@ use crate::template::{
     ForTemplateExpr, HeredocTemplate, IfDirective, IfTemplateExpr, Interpolation, StringTemplate,
     Strip, Template,
 };
-use crate::util::indent_by;
 use hcl_primitives::template::escape_markers;
 use std::fmt::{self, Write};
 
@@ -37,16 +36,9 @@ impl Encode for HeredocTemplate {
 
         writeln!(buf, "{}", self.delimiter.as_str())?;
 
-        match self.indent() {
-            Some(n) => {
-                let mut indent_buf = String::new();
-                let mut indent_state = EncodeState::new(&mut indent_buf);
-                self.template.encode(&mut indent_state)?;
-                let indented = indent_by(&indent_buf, n, false);
-                buf.write_str(&indented)?;
-            }
-            None => buf.with_escape(false, |buf| self.template.encode(buf))?,
-        }
+        buf.with_indent(self.indent(), |buf| {
+            buf.with_escape(false, |buf| self.template.encode(buf))
+        })?;
 
         self.trailing().encode_with_default(buf, "")?;
 
@@ -72,7 +64,7 @@ impl Encode for Element {
                 if buf.escape() {
                     encode_escaped(buf, &escaped)
                 } else {
-                    buf.write_str(&escaped)
+                    buf.write_literal(&escaped)
                 }
             }
             Element::Interpolation(interp) => interp.encode(buf),
@@ -180,12 +172,13 @@ fn encode_strip<F>(buf: &mut EncodeState, start_marker: &str, strip: Strip, f: F
 where
     F: FnOnce(&mut EncodeState) -> fmt::Result,
 {
-    buf.write_str(start_marker)?;
+    buf.write_start_marker(start_marker)?;
     if strip.strip_start() {
         buf.write_char('~')?;
     }
 
-    f(buf)?;
+    // The indent does not affect anything within an interpolation or directive.
+    buf.with_indent(None, f)?;
 
     if strip.strip_end() {
         buf.write_char('~')?;
diff --git a/crates/hcl-edit/src/template/mod.rs b/crates/hcl-edit/src/template/mod.rs
index 5c68527..e5b0d19 100644
--- a/crates/hcl-edit/src/template/mod.rs
+++ b/crates/hcl-edit/src/template/mod.rs
@@ -402,15 +402,20 @@ impl Template {
     /// Dedents string literals in the template, returning the maximum indent that was stripped,
     /// if any.
     pub(crate) fn dedent(&mut self) -> Option<usize> {
+        let mut parts = Vec::new();
+        self.collect_parts(&mut parts);
+
         let mut indent: Option<usize> = None;
         let mut skip_first_line = false;
 
-        for element in &self.elements {
-            if let Element::Literal(literal) = element {
+        for part in &parts {
+            if let Some(literal) = part {
                 if let Some(leading_ws) = min_leading_whitespace(literal, skip_first_line) {
                     indent = Some(indent.map_or(leading_ws, |indent| indent.min(leading_ws)));
                 }
-                skip_first_line = !literal.ends_with('\n');
+                if !literal.is_empty() {
+                    skip_first_line = !literal.ends_with('\n');
+                }
             } else if !skip_first_line {
                 // Directive or interpolation at line start always mean that no indent can be
                 // stripped.
@@ -418,21 +423,51 @@ impl Template {
             }
         }
 
-        if let Some(indent) = indent {
-            skip_first_line = false;
+        let indent = indent.filter(|&indent| indent > 0)?;
 
-            for element in &mut self.elements {
-                if let Element::Literal(literal) = element {
-                    let dedented = dedent_by(literal, indent, skip_first_line);
-                    *literal.as_mut() = dedented.into_owned();
-                    skip_first_line = !literal.ends_with('\n');
-                } else if !skip_first_line {
-                    skip_first_line = true;
-                }
+        skip_first_line = false;
+
+        for part in parts {
+            if let Some(literal) = part {
+                let dedented = dedent_by(literal, indent, skip_first_line);
+                let ends_line = literal.ends_with('\n');
+                *literal.as_mut() = dedented.into_owned();
+                skip_first_line = !ends_line;
+            } else {
+                skip_first_line = true;
             }
         }
 
-        indent
+        Some(indent)
+    }
+
+    /// Collects the literals of the template and of the templates nested within its directives in
+    /// the order of their appearance. The result contains a `None` for every interpolation and
+    /// for every control sequence of a directive.
+    fn collect_parts<'a>(&'a mut self, parts: &mut Vec<Option<&'a mut Spanned<String>>>) {
+        for element in &mut self.elements {
+            match element {
+                Element::Literal(literal) => parts.push(Some(literal)),
+                Element::Interpolation(_) => parts.push(None),
+                Element::Directive(directive) => {
+                    parts.push(None);
+
+                    match &mut **directive {
+                        Directive::If(dir) => {
+                            dir.if_expr.template.collect_parts(parts);
+
+                            if let Some(else_expr) = &mut dir.else_expr {
+                                parts.push(None);
+                                else_expr.template.collect_parts(parts);
+                            }
+                        }
+                        Directive::For(dir) => dir.for_expr.template.collect_parts(parts),
+                    }
+
+                    parts.push(None);
+                }
+            }
+        }
     }
 }
 
diff --git a/crates/hcl-edit/src/util.rs b/crates/hcl-edit/src/util.rs
index 8950b9c..d0a6908 100644
--- a/crates/hcl-edit/src/util.rs
+++ b/crates/hcl-edit/src/util.rs
@@ -1,21 +1,20 @@
 use std::borrow::Cow;
 
+/// Returns `true` if the line consists of nothing but whitespace and a line break. Blank lines are
+/// not considered when looking for the indent and are left alone otherwise.
+fn is_blank_line(line: &str) -> bool {
+    line.ends_with('\n') && line.trim_start().is_empty()
+}
+
 pub(crate) fn dedent_by(s: &str, n: usize, skip_first: bool) -> Cow<'_, str> {
     let mut dedented = String::with_capacity(s.len());
 
-    for (i, line) in s.lines().enumerate() {
-        if i == 0 && skip_first {
+    for (i, line) in s.split_inclusive('\n').enumerate() {
+        if (i == 0 && skip_first) || is_blank_line(line) {
             dedented.push_str(line);
-        } else if !line.is_empty() {
+        } else {
             dedented.extend(line.chars().skip(n));
         }
-
-        dedented.push('\n');
-    }
-
-    if dedented.ends_with('\n') && !s.ends_with('\n') {
-        let new_len = dedented.len() - 1;
-        dedented.truncate(new_len);
     }
 
     dedented.shrink_to_fit();
@@ -23,34 +22,14 @@ pub(crate) fn dedent_by(s: &str, n: usize, skip_first: bool) -> Cow<'_, str> {
     Cow::Owned(dedented)
 }
 
+/// Finds the minimum number of possible leading units of whitespace that can be be stripped off of
+/// each non-blank line. Returns `None` if there is no such line.
 pub(crate) fn min_leading_whitespace(s: &str, skip_first: bool) -> Option<usize> {
-    if s.is_empty() {
-        return None;
-    }
-
-    let mut leading_ws: Option<usize> = None;
-
-    // Find the minimum number of possible leading units of whitespace that can be be stripped off
-    // of each non-empty line.
-    for (i, line) in s.lines().enumerate() {
-        if (i == 0 && skip_first) || line.is_empty() {
-            continue;
-        }
-
-        let line_leading_ws = line.chars().take_while(|ch| ch.is_whitespace()).count();
-
-        if line_leading_ws == 0 {
-            // Fast path: no dedent needed if we encounter a non-empty line which starts with a
-            // non-whitespace character.
-            return None;
-        }
-
-        leading_ws = Some(leading_ws.map_or(line_leading_ws, |leading_ws| {
-            leading_ws.min(line_leading_ws)
-        }));
-    }
-
-    leading_ws
+    s.split_inclusive('\n')
+        .skip(usize::from(skip_first))
+        .filter(|line| !is_blank_line(line))
+        .map(|line| line.chars().take_while(|ch| ch.is_whitespace()).count())
+        .min()
 }
 
 pub(crate) fn indent_by(s: &str, n: usize, skip_first: bool) -> String {
@@ -58,23 +37,13 @@ pub(crate) fn indent_by(s: &str, n: usize, skip_first: bool) -> String {
     let length = s.len();
     let mut output = String::with_capacity(length + length / 2);
 
-    for (i, line) in s.lines().enumerate() {
-        if i > 0 {
-            output.push('\n');
-
-            if !line.is_empty() {
-                output.push_str(&prefix);
-            }
-        } else if !skip_first && !line.is_empty() {
+    for (i, line) in s.split_inclusive('\n').enumerate() {
+        if !(i == 0 && skip_first) && !is_blank_line(line) {
             output.push_str(&prefix);
         }
 
         output.push_str(line);
     }
 
-    if s.ends_with('\n') {
-        output.push('\n');
-    }
-
     output
 }
-- 
2.43.0


From 22949201fc85b18563ad6175310cd7a268f2c7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:32 +0000
Subject: [PATCH 20/54] fix: keep the strip marker of heredocs without an
 indent

---
 crates/hcl-edit/src/parser/expr.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/hcl-edit/src/parser/expr.rs b/crates/hcl-edit/src/parser/expr.rs
index 50b1f16..22f267b 100644
--- a/crates/hcl-edit/src/parser/expr.rs
+++ b/crates/hcl-edit/src/parser/expr.rs
@@ -690,6 +690,11 @@ fn heredoc<'i>(
 
         if indented {
             heredoc.dedent();
+
+            if heredoc.indent().is_none() {
+                // There's no indent to strip, but the `<<-` marker must not get lost.
+                heredoc.set_indent(0);
+            }
         }
 
         heredoc.set_trailing(trailing);
-- 
2.43.0


From d3e80f3120cab0e4c0f6d1863d7f7024109cc98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:56 +0000
Subject: [PATCH 21/54] fix: honour the strip mode of programmatically created
 heredocs

---
 crates/hcl-rs/src/expr/edit.rs    | 15 ++++++++++++++-
 crates/hcl-rs/src/template/mod.rs | 15 +++++++++++++--
 2 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/crates/hcl-rs/src/expr/edit.rs b/crates/hcl-rs/src/expr/edit.rs
index becf377..3a74630 100644
--- a/crates/hcl-rs/src/expr/edit.rs
+++ b/crates/hcl-rs/src/expr/edit.rs
@@ -222,7 +222,20 @@ impl From<template::HeredocTemplate> for Heredoc {
 
 impl From<Heredoc> for template::HeredocTemplate {
     fn from(value: Heredoc) -> Self {
-        template::HeredocTemplate::new(value.delimiter.into(), template_or_default(value.template))
+        let mut heredoc = template::HeredocTemplate::new(
+            value.delimiter.into(),
+            template_or_default(value.template),
+        );
+
+        if value.strip == HeredocStripMode::Indent {
+            heredoc.dedent();
+
+            if heredoc.indent().is_none() {
+                heredoc.set_indent(0);
+            }
+        }
+
+        heredoc
     }
 }
 
diff --git a/crates/hcl-rs/src/template/mod.rs b/crates/hcl-rs/src/template/mod.rs
index 8ef9717..3c07ba5 100644
--- a/crates/hcl-rs/src/template/mod.rs
+++ b/crates/hcl-rs/src/template/mod.rs
@@ -85,7 +85,8 @@
 mod edit;
 
 use crate::de::FromStrVisitor;
-use crate::expr::{Expression, TemplateExpr};
+use crate::edit::template as edit_template;
+use crate::expr::{Expression, HeredocStripMode, TemplateExpr};
 use crate::{format, Error, Identifier, Result};
 use serde::{Deserialize, Serialize};
 use std::fmt::{self, Display};
@@ -121,7 +122,17 @@ impl Template {
     /// Returns an error if the parsing of raw string templates fails or if the template expression
     /// contains string literals with invalid escape sequences.
     pub fn from_expr(expr: &TemplateExpr) -> Result<Self> {
-        Template::from_str(expr.as_str())
+        let template: edit_template::Template = expr.as_str().parse()?;
+
+        match expr {
+            TemplateExpr::Heredoc(heredoc) if heredoc.strip == HeredocStripMode::Indent => {
+                let delimiter = heredoc.delimiter.clone();
+                let mut heredoc = edit_template::HeredocTemplate::new(delimiter.into(), template);
+                heredoc.dedent();
+                Ok(heredoc.template.into())
+            }
+            _ => Ok(template.into()),
+        }
     }
 
     /// Returns a reference to the template elements.
-- 
2.43.0


From 02d88f4471d8b2ceff2fbd1aad434b901050d232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:15 +0000
Subject: [PATCH 22/54] fix: treat directory names literally when matching glob
 patterns

---
 crates/hcl2json/src/main.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/hcl2json/src/main.rs b/crates/hcl2json/src/main.rs
index 735d798..7eeaeab 100644
--- a/crates/hcl2json/src/main.rs
+++ b/crates/hcl2json/src/main.rs
@@ -86,7 +86,9 @@ fn main() -> Result<()> {
                     bail!("--glob is required if directory arguments are specified")
                 };
 
-                let path_pattern = path.join(pattern);
+                // Only the pattern itself may contain glob meta characters, not the directory.
+                let escaped_path = PathBuf::from(globset::escape(&path.to_string_lossy()));
+                let path_pattern = escaped_path.join(pattern);
 
                 let matcher = GlobBuilder::new(&path_pattern.to_string_lossy())
                     .literal_separator(true)
-- 
2.43.0


From 63eb839ebfdbce8183978a5a95bdceb30e0f85a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:57 +0000
Subject: [PATCH 23/54] fix: do not leak internal handles into serialized HCL

---
 crates/hcl-rs/src/expr/ser/mod.rs      | 16 +++++++++++++++-
 crates/hcl-rs/src/structure/mod.rs     |  2 +-
 crates/hcl-rs/src/structure/ser/mod.rs | 22 +++++++++-------------
 3 files changed, 25 insertions(+), 15 deletions(-)

diff --git a/crates/hcl-rs/src/expr/ser/mod.rs b/crates/hcl-rs/src/expr/ser/mod.rs
index ae2a8b8..80968b5 100644
--- a/crates/hcl-rs/src/expr/ser/mod.rs
+++ b/crates/hcl-rs/src/expr/ser/mod.rs
@@ -5,6 +5,7 @@ mod tests;
 
 use super::*;
 use crate::ser::{in_internal_serialization, InternalHandles, SerializeInternalHandleStruct};
+use crate::structure::ser::{STRUCTURE_HANDLES, STRUCTURE_HANDLE_MARKER};
 use crate::Error;
 use serde::ser::{self, Impossible, SerializeMap};
 
@@ -346,6 +347,7 @@ impl ser::SerializeMap for SerializeExpressionMap {
 
 pub(crate) enum SerializeExpressionStruct {
     InternalHandle(SerializeInternalHandleStruct),
+    InternalStructureHandle(SerializeInternalHandleStruct),
     Map(SerializeExpressionMap),
 }
 
@@ -353,6 +355,8 @@ impl SerializeExpressionStruct {
     pub(crate) fn new(name: &'static str, len: usize) -> Self {
         if name == EXPR_HANDLE_MARKER {
             SerializeExpressionStruct::InternalHandle(SerializeInternalHandleStruct::new())
+        } else if name == STRUCTURE_HANDLE_MARKER {
+            SerializeExpressionStruct::InternalStructureHandle(SerializeInternalHandleStruct::new())
         } else {
             SerializeExpressionStruct::Map(SerializeExpressionMap::new(Some(len)))
         }
@@ -368,7 +372,10 @@ impl ser::SerializeStruct for SerializeExpressionStruct {
         T: ?Sized + ser::Serialize,
     {
         match self {
-            SerializeExpressionStruct::InternalHandle(ser) => ser.serialize_field(key, value),
+            SerializeExpressionStruct::InternalHandle(ser)
+            | SerializeExpressionStruct::InternalStructureHandle(ser) => {
+                ser.serialize_field(key, value)
+            }
             SerializeExpressionStruct::Map(ser) => ser.serialize_entry(key, value),
         }
     }
@@ -378,6 +385,13 @@ impl ser::SerializeStruct for SerializeExpressionStruct {
             SerializeExpressionStruct::InternalHandle(ser) => ser
                 .end()
                 .map(|handle| EXPR_HANDLES.with(|eh| eh.remove(handle))),
+            SerializeExpressionStruct::InternalStructureHandle(ser) => {
+                let handle = ser.end()?;
+                STRUCTURE_HANDLES.with(|sh| sh.remove(handle));
+                Err(ser::Error::custom(
+                    "HCL structures are not permitted in this context",
+                ))
+            }
             SerializeExpressionStruct::Map(ser) => ser.end(),
         }
     }
diff --git a/crates/hcl-rs/src/structure/mod.rs b/crates/hcl-rs/src/structure/mod.rs
index 97beb4d..19de73f 100644
--- a/crates/hcl-rs/src/structure/mod.rs
+++ b/crates/hcl-rs/src/structure/mod.rs
@@ -52,7 +52,7 @@ pub(crate) mod de;
 mod edit;
 pub mod iter;
 mod json_spec;
-mod ser;
+pub(crate) mod ser;
 #[cfg(test)]
 mod tests;
 
diff --git a/crates/hcl-rs/src/structure/ser/mod.rs b/crates/hcl-rs/src/structure/ser/mod.rs
index e796bc7..c029150 100644
--- a/crates/hcl-rs/src/structure/ser/mod.rs
+++ b/crates/hcl-rs/src/structure/ser/mod.rs
@@ -18,10 +18,10 @@ use crate::{Error, Expression, Identifier, ObjectKey, Result};
 use serde::ser::{self, Serialize, SerializeMap, SerializeStruct};
 use std::fmt;
 
-const STRUCTURE_HANDLE_MARKER: &str = "\x00$hcl::StructureHandle";
+pub(crate) const STRUCTURE_HANDLE_MARKER: &str = "\x00$hcl::StructureHandle";
 
 thread_local! {
-    static STRUCTURE_HANDLES: InternalHandles<Structure> = InternalHandles::new(STRUCTURE_HANDLE_MARKER);
+    pub(crate) static STRUCTURE_HANDLES: InternalHandles<Structure> = InternalHandles::new(STRUCTURE_HANDLE_MARKER);
 }
 
 impl ser::Serialize for Attribute {
@@ -883,8 +883,8 @@ impl ser::Serializer for BlockSerializer {
         Ok(SerializeBlockMap::new(self.ident, len))
     }
 
-    fn serialize_struct(self, _name: &'static str, len: usize) -> Result<Self::SerializeStruct> {
-        Ok(SerializeBlockStruct::new(self.ident, len))
+    fn serialize_struct(self, name: &'static str, len: usize) -> Result<Self::SerializeStruct> {
+        Ok(SerializeBlockStruct::new(self.ident, name, len))
     }
 
     fn serialize_struct_variant(
@@ -1029,14 +1029,14 @@ impl ser::SerializeMap for SerializeBlockMap {
 
 pub(crate) struct SerializeBlockStruct {
     ident: Identifier,
-    structures: Vec<Structure>,
+    body: SerializeBodyStruct,
 }
 
 impl SerializeBlockStruct {
-    fn new(ident: Identifier, len: usize) -> Self {
+    fn new(ident: Identifier, name: &'static str, len: usize) -> Self {
         SerializeBlockStruct {
             ident,
-            structures: Vec::with_capacity(len),
+            body: SerializeBodyStruct::new(name, len),
         }
     }
 }
@@ -1049,16 +1049,12 @@ impl ser::SerializeStruct for SerializeBlockStruct {
     where
         T: ?Sized + ser::Serialize,
     {
-        let ident = Identifier::new(key)?;
-
-        self.structures
-            .extend(value.serialize(StructureSerializer::new(ident))?);
-        Ok(())
+        self.body.serialize_field(key, value)
     }
 
     fn end(self) -> Result<Self::Ok> {
         Ok(Block::builder(self.ident)
-            .add_structures(self.structures)
+            .add_structures(self.body.end()?)
             .build()
             .into())
     }
-- 
2.43.0


From dcaa46e3ca6d2a43f207205028bf0b3e6ff13510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:09 +0000
Subject: [PATCH 24/54] fix: do not allow newlines behind arrays, function
 calls and for expressions

---
 crates/hcl-edit/src/parser/expr.rs | 122 ++++++++++++-----------------
 1 file changed, 51 insertions(+), 71 deletions(-)

diff --git a/crates/hcl-edit/src/parser/expr.rs b/crates/hcl-edit/src/parser/expr.rs
index 22f267b..4dcb62a 100644
--- a/crates/hcl-edit/src/parser/expr.rs
+++ b/crates/hcl-edit/src/parser/expr.rs
@@ -380,7 +380,6 @@ fn array<'i>(
     state: &RefCell<ExprParseState>,
 ) -> impl ModalParser<Input<'i>, (), ContextError> + '_ {
     move |input: &mut Input<'i>| {
-        state.borrow_mut().allow_newlines();
         delimited(
             '[',
             for_expr_or_items(for_list_expr(state), array_items(state)),
@@ -394,11 +393,7 @@ fn for_list_expr<'i>(
     state: &RefCell<ExprParseState>,
 ) -> impl ModalParser<Input<'i>, (), ContextError> + '_ {
     move |input: &mut Input<'i>| {
-        (
-            for_intro,
-            decorated(ws, expr_with_state(state), ws),
-            opt(for_cond(state)),
-        )
+        (for_intro, decorated(ws, multiline_expr, ws), opt(for_cond))
             .map(|(intro, value_expr, cond)| {
                 let mut expr = ForExpr::new(intro, value_expr);
                 expr.cond = cond;
@@ -417,7 +412,7 @@ fn array_items<'i>(
     move |input: &mut Input<'i>| {
         let values = separated(
             0..,
-            decorated(ws, preceded(not(']'), expr_with_state(state)), ws),
+            decorated(ws, preceded(not(']'), multiline_expr), ws),
             ',',
         );
 
@@ -452,7 +447,6 @@ fn for_object_expr<'i>(
     state: &RefCell<ExprParseState>,
 ) -> impl ModalParser<Input<'i>, (), ContextError> + '_ {
     move |input: &mut Input<'i>| {
-        state.borrow_mut().allow_newlines();
         (
             for_intro,
             separated_pair(
@@ -461,7 +455,7 @@ fn for_object_expr<'i>(
                 decorated(ws, multiline_expr, ws),
             ),
             opt(("...", raw_string(ws))),
-            opt(for_cond(state)),
+            opt(for_cond),
         )
             .map(|(intro, (key_expr, value_expr), grouping, cond)| {
                 let mut expr = ForExpr::new(intro, value_expr);
@@ -643,16 +637,12 @@ fn for_intro(input: &mut Input) -> ModalResult<ForIntro> {
     .parse_next(input)
 }
 
-fn for_cond<'i>(
-    state: &RefCell<ExprParseState>,
-) -> impl ModalParser<Input<'i>, ForCond, ContextError> + '_ {
-    move |input: &mut Input| {
-        prefix_decorated(
-            ws,
-            preceded("if", decorated(ws, expr_with_state(state), ws)).map(ForCond::new),
-        )
-        .parse_next(input)
-    }
+fn for_cond(input: &mut Input) -> ModalResult<ForCond> {
+    prefix_decorated(
+        ws,
+        preceded("if", decorated(ws, multiline_expr, ws)).map(ForCond::new),
+    )
+    .parse_next(input)
 }
 
 fn parenthesis<'i>(
@@ -753,7 +743,7 @@ fn identlike<'i>(
                     FuncName::from(ident)
                 };
 
-                let func_args = func_args(state).parse_next(input)?;
+                let func_args = func_args.parse_next(input)?;
                 let func_call = FuncCall::new(func_name, func_args);
                 Expression::FuncCall(Box::new(func_call))
             }
@@ -796,59 +786,49 @@ fn func_namespace_components<'i>(
     }
 }
 
-fn func_args<'i>(
-    state: &RefCell<ExprParseState>,
-) -> impl ModalParser<Input<'i>, FuncArgs, ContextError> + '_ {
-    move |input: &mut Input| {
-        #[derive(Copy, Clone)]
-        enum Trailer {
-            Comma,
-            Ellipsis,
-        }
-
-        state.borrow_mut().allow_newlines();
-
-        let args = separated(
-            1..,
-            decorated(
-                ws,
-                preceded(peek(none_of(b",.)")), expr_with_state(state)),
-                ws,
-            ),
-            ',',
-        );
+fn func_args(input: &mut Input) -> ModalResult<FuncArgs> {
+    #[derive(Copy, Clone)]
+    enum Trailer {
+        Comma,
+        Ellipsis,
+    }
 
-        let trailer = dispatch! {any;
-            ',' => empty.value(Trailer::Comma),
-            '.' => cut_tag("..").value(Trailer::Ellipsis),
-            _ => fail,
-        };
+    let args = separated(
+        1..,
+        decorated(ws, preceded(peek(none_of(b",.)")), multiline_expr), ws),
+        ',',
+    );
 
-        delimited(
-            cut_char('('),
-            (opt((args, opt(trailer))), raw_string(ws)).map(|(args, trailing)| {
-                let mut args = match args {
-                    Some((args, Some(trailer))) => {
-                        let args: Vec<_> = args;
-                        let mut args = FuncArgs::from(args);
-                        if let Trailer::Ellipsis = trailer {
-                            args.set_expand_final(true);
-                        } else {
-                            args.set_trailing_comma(true);
-                        }
-                        args
+    let trailer = dispatch! {any;
+        ',' => empty.value(Trailer::Comma),
+        '.' => cut_tag("..").value(Trailer::Ellipsis),
+        _ => fail,
+    };
+
+    delimited(
+        cut_char('('),
+        (opt((args, opt(trailer))), raw_string(ws)).map(|(args, trailing)| {
+            let mut args = match args {
+                Some((args, Some(trailer))) => {
+                    let args: Vec<_> = args;
+                    let mut args = FuncArgs::from(args);
+                    if let Trailer::Ellipsis = trailer {
+                        args.set_expand_final(true);
+                    } else {
+                        args.set_trailing_comma(true);
                     }
-                    Some((args, None)) => FuncArgs::from(args),
-                    None => FuncArgs::default(),
-                };
+                    args
+                }
+                Some((args, None)) => FuncArgs::from(args),
+                None => FuncArgs::default(),
+            };
 
-                args.set_trailing(trailing);
-                args
-            }),
-            cut_char(')').context(StrContext::Expected(StrContextValue::Description(
-                "expression",
-            ))),
-        )
-        .parse_next(input)
-    }
+            args.set_trailing(trailing);
+            args
+        }),
+        cut_char(')').context(StrContext::Expected(StrContextValue::Description(
+            "expression",
+        ))),
+    )
+    .parse_next(input)
 }
-- 
2.43.0


From 706fc052fd0f4f4a44a3843c092e3989611feecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:44 +0000
Subject: [PATCH 25/54] fix: do not parse the content behind empty heredocs as
 template

---
 crates/hcl-edit/src/parser/template.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/crates/hcl-edit/src/parser/template.rs b/crates/hcl-edit/src/parser/template.rs
index d4d6a33..0d76b73 100644
--- a/crates/hcl-edit/src/parser/template.rs
+++ b/crates/hcl-edit/src/parser/template.rs
@@ -16,7 +16,9 @@ use crate::{SetSpan, Span, Spanned};
 
 use std::borrow::Cow;
 use winnow::ascii::{line_ending, space0};
-use winnow::combinator::{alt, delimited, not, opt, preceded, repeat, separated_pair, terminated};
+use winnow::combinator::{
+    alt, delimited, not, opt, peek, preceded, repeat, separated_pair, terminated,
+};
 use winnow::token::one_of;
 
 use hcl_primitives::ident::is_id_continue;
@@ -57,12 +59,12 @@ pub(super) fn heredoc_template<'a>(
         //
         // Handling this case via parser combinators is quite tricky and thus we'll manually add
         // the line ending to the last template element below.
-        let heredoc_end = (line_ending, space0, delim, not(one_of(is_id_continue))).take();
+        let delimiter = || (space0, delim, not(one_of(is_id_continue))).void();
+        let heredoc_end = (line_ending, delimiter()).take();
         let literal_end = alt(("${", "%{", heredoc_end));
         let literal = template_literal(literal_end);
 
-        // Use `opt` to handle an empty template.
-        opt((elements(literal, template), line_ending.with_span()).map(
+        let non_empty = (elements(literal, template), line_ending.with_span()).map(
             |(mut elements, (line_ending, line_ending_span))| {
                 // If there is a trailing literal, update its span and append the line ending to
                 // it. Otherwise just add a new literal containing only the line ending.
@@ -78,9 +80,10 @@ pub(super) fn heredoc_template<'a>(
 
                 Template::from(elements)
             },
-        ))
-        .map(Option::unwrap_or_default)
-        .parse_next(input)
+        );
+
+        // The template is empty if the delimiter immediately follows the heredoc start.
+        alt((peek(delimiter()).map(|()| Template::default()), non_empty)).parse_next(input)
     }
 }
 
-- 
2.43.0


From 34089c504da196160be3cbde5df8a9b3a1da293d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:33 +0000
Subject: [PATCH 26/54] fix: count characters in the column of errors at
 multi-byte characters

---
 crates/hcl-edit/src/parser/error.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/hcl-edit/src/parser/error.rs b/crates/hcl-edit/src/parser/error.rs
index 976f2a6..2f24826 100644
--- a/crates/hcl-edit/src/parser/error.rs
+++ b/crates/hcl-edit/src/parser/error.rs
@@ -150,9 +150,12 @@ fn locate_error<'a>(err: &'a ParseError<Input<'a>, ContextError>) -> (&'a [u8],
     let line = input[..line_begin].iter().filter(|&&b| b == b'\n').count() + 1;
 
     // The (1-indexed) column number is the offset of the remaining input into that line.
-    // This also takes multi-byte unicode characters into account.
-    let column = std::str::from_utf8(&input[line_begin..=offset])
-        .map_or_else(|_| offset - line_begin + 1, |s| s.chars().count())
+    // This also takes multi-byte unicode characters into account by only counting the first byte of
+    // each character.
+    let column = input[line_begin..=offset]
+        .iter()
+        .filter(|&&b| b & 0b1100_0000 != 0b1000_0000)
+        .count()
         + column_offset;
 
     (
-- 
2.43.0


From 3c5afe4471bda06ed183a57c40ce7a2b68ccf159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:34 +0000
Subject: [PATCH 27/54] fix: allow CRLF behind the for keyword

---
 crates/hcl-edit/src/parser/expr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/hcl-edit/src/parser/expr.rs b/crates/hcl-edit/src/parser/expr.rs
index 4dcb62a..770af0b 100644
--- a/crates/hcl-edit/src/parser/expr.rs
+++ b/crates/hcl-edit/src/parser/expr.rs
@@ -606,7 +606,7 @@ where
         // disambiguate. Otherwise an identifier like `format` will match both the `for` tag
         // and the following identifier which would fail parsing of arrays with identifier/func
         // call elements and objects with those as keys.
-        match peek((ws, "for", one_of(b" \t#/\n"))).parse_next(input) {
+        match peek((ws, "for", one_of(b" \t#/\r\n"))).parse_next(input) {
             Ok(_) => for_expr_parser.parse_next(input),
             Err(_) => items_parser.parse_next(input),
         }
-- 
2.43.0


From 1cd8197dad216cbab64a69034fc74ae70cefccd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:45 +0000
Subject: [PATCH 28/54] fix: reject arrays which only contain a comma

---
 crates/hcl-edit/src/parser/expr.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/crates/hcl-edit/src/parser/expr.rs b/crates/hcl-edit/src/parser/expr.rs
index 770af0b..fde83b2 100644
--- a/crates/hcl-edit/src/parser/expr.rs
+++ b/crates/hcl-edit/src/parser/expr.rs
@@ -411,17 +411,18 @@ fn array_items<'i>(
 ) -> impl ModalParser<Input<'i>, (), ContextError> + '_ {
     move |input: &mut Input<'i>| {
         let values = separated(
-            0..,
-            decorated(ws, preceded(not(']'), multiline_expr), ws),
+            1..,
+            decorated(ws, preceded(not(one_of(b",]")), multiline_expr), ws),
             ',',
         );
 
-        (values, opt(','), raw_string(ws))
-            .map(|(values, comma, trailing)| {
-                let values: Vec<_> = values;
-                let mut array = Array::from(values);
-                if comma.is_some() {
-                    array.set_trailing_comma(true);
+        (opt((values, opt(','))), raw_string(ws))
+            .map(|(values, trailing)| {
+                let mut array = Array::new();
+                if let Some((values, comma)) = values {
+                    let values: Vec<_> = values;
+                    array = Array::from(values);
+                    array.set_trailing_comma(comma.is_some());
                 }
                 array.set_trailing(trailing);
                 state.borrow_mut().on_expr_term(Expression::Array(array));
-- 
2.43.0


From 7c9b835a5da75c3eaaf95041be96ca96ca2f0dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:17 +0000
Subject: [PATCH 29/54] fix: require keywords to end at a word boundary

---
 crates/hcl-edit/src/parser/expr.rs     |  8 +++++---
 crates/hcl-edit/src/parser/string.rs   | 17 ++++++++++++++++-
 crates/hcl-edit/src/parser/template.rs | 10 +++++-----
 3 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/crates/hcl-edit/src/parser/expr.rs b/crates/hcl-edit/src/parser/expr.rs
index fde83b2..259795f 100644
--- a/crates/hcl-edit/src/parser/expr.rs
+++ b/crates/hcl-edit/src/parser/expr.rs
@@ -3,7 +3,9 @@ use super::prelude::*;
 use super::number::number as num;
 use super::repr::{decorated, prefix_decorated, spanned, suffix_decorated};
 use super::state::ExprParseState;
-use super::string::{cut_char, cut_ident, cut_tag, ident, raw_string, str_ident, string};
+use super::string::{
+    cut_char, cut_ident, cut_keyword, cut_tag, ident, keyword, raw_string, str_ident, string,
+};
 use super::template::{heredoc_template, string_template};
 use super::trivia::{line_comment, sp, ws};
 
@@ -622,7 +624,7 @@ fn for_intro(input: &mut Input) -> ModalResult<ForIntro> {
             (
                 decorated(ws, cut_ident, ws),
                 opt(preceded(',', decorated(ws, cut_ident, ws))),
-                preceded(cut_tag("in"), decorated(ws, multiline_expr, ws)),
+                preceded(cut_keyword("in"), decorated(ws, multiline_expr, ws)),
             ),
             cut_char(':'),
         )
@@ -641,7 +643,7 @@ fn for_intro(input: &mut Input) -> ModalResult<ForIntro> {
 fn for_cond(input: &mut Input) -> ModalResult<ForCond> {
     prefix_decorated(
         ws,
-        preceded("if", decorated(ws, multiline_expr, ws)).map(ForCond::new),
+        preceded(keyword("if"), decorated(ws, multiline_expr, ws)).map(ForCond::new),
     )
     .parse_next(input)
 }
diff --git a/crates/hcl-edit/src/parser/string.rs b/crates/hcl-edit/src/parser/string.rs
index c3df451..714f106 100644
--- a/crates/hcl-edit/src/parser/string.rs
+++ b/crates/hcl-edit/src/parser/string.rs
@@ -6,7 +6,9 @@ use crate::{Decorated, Ident, RawString};
 
 use hcl_primitives::ident::{is_id_continue, is_id_start};
 use std::borrow::Cow;
-use winnow::combinator::{alt, cut_err, delimited, empty, fail, not, opt, preceded, repeat};
+use winnow::combinator::{
+    alt, cut_err, delimited, empty, fail, not, opt, preceded, repeat, terminated,
+};
 use winnow::error::ErrMode;
 use winnow::token::{any, one_of, take, take_while};
 
@@ -204,6 +206,19 @@ pub(super) fn cut_tag<'a>(tag: &'static str) -> impl ModalParser<Input<'a>, &'a
     cut_err(tag).context(StrContext::Expected(StrContextValue::StringLiteral(tag)))
 }
 
+/// Parses a keyword, which must not be immediately followed by another identifier character.
+pub(super) fn keyword<'a>(
+    keyword: &'static str,
+) -> impl ModalParser<Input<'a>, &'a str, ContextError> {
+    terminated(keyword, not(one_of(is_id_continue)))
+}
+
+pub(super) fn cut_keyword<'a>(
+    tag: &'static str,
+) -> impl ModalParser<Input<'a>, &'a str, ContextError> {
+    cut_err(keyword(tag)).context(StrContext::Expected(StrContextValue::StringLiteral(tag)))
+}
+
 pub(super) fn cut_ident(input: &mut Input) -> ModalResult<Decorated<Ident>> {
     cut_err(ident)
         .context(StrContext::Expected(StrContextValue::Description(
diff --git a/crates/hcl-edit/src/parser/template.rs b/crates/hcl-edit/src/parser/template.rs
index 0d76b73..4c25fcf 100644
--- a/crates/hcl-edit/src/parser/template.rs
+++ b/crates/hcl-edit/src/parser/template.rs
@@ -3,8 +3,8 @@ use super::prelude::*;
 use super::expr::multiline_expr;
 use super::repr::{decorated, spanned};
 use super::string::{
-    build_string, cut_char, cut_ident, cut_tag, quoted_string_fragment, raw_string,
-    template_string_fragment,
+    build_string, cut_char, cut_ident, cut_keyword, cut_tag, keyword, quoted_string_fragment,
+    raw_string, template_string_fragment,
 };
 use super::trivia::ws;
 
@@ -144,7 +144,7 @@ fn if_directive<'a>(
         control(
             "%{",
             (
-                terminated(raw_string(ws), "if"),
+                terminated(raw_string(ws), keyword("if")),
                 decorated(ws, multiline_expr, ws),
             ),
         ),
@@ -194,10 +194,10 @@ fn for_directive<'a>(
         control(
             "%{",
             (
-                terminated(raw_string(ws), "for"),
+                terminated(raw_string(ws), keyword("for")),
                 decorated(ws, cut_ident, ws),
                 opt(preceded(',', decorated(ws, cut_ident, ws))),
-                preceded(cut_tag("in"), decorated(ws, multiline_expr, ws)),
+                preceded(cut_keyword("in"), decorated(ws, multiline_expr, ws)),
             ),
         ),
         spanned(nested),
-- 
2.43.0


From 1be8ab935515fc21099c0f9d346a301351e3a36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:54 +0000
Subject: [PATCH 30/54] fix: deserialize bool and number object keys as strings

---
 crates/hcl-rs/src/expr/de.rs | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/crates/hcl-rs/src/expr/de.rs b/crates/hcl-rs/src/expr/de.rs
index 55ab0c3..747ace8 100644
--- a/crates/hcl-rs/src/expr/de.rs
+++ b/crates/hcl-rs/src/expr/de.rs
@@ -1089,6 +1089,24 @@ impl<'de> de::Deserializer<'de> for ObjectKey {
         }
     }
 
+    fn deserialize_str<V>(self, visitor: V) -> Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        self.deserialize_string(visitor)
+    }
+
+    fn deserialize_string<V>(self, visitor: V) -> Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        // Object keys are always strings, primitive values are implicitly converted.
+        match Value::from(self) {
+            value @ (Value::Bool(_) | Value::Number(_)) => visitor.visit_string(value.to_string()),
+            value => value.into_deserializer().deserialize_any(visitor),
+        }
+    }
+
     fn deserialize_enum<V>(
         self,
         _name: &'static str,
@@ -1102,9 +1120,9 @@ impl<'de> de::Deserializer<'de> for ObjectKey {
     }
 
     forward_to_deserialize_any! {
-        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str
-        string bytes byte_buf option unit unit_struct newtype_struct seq
-        tuple tuple_struct map struct identifier ignored_any
+        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char bytes
+        byte_buf option unit unit_struct newtype_struct seq tuple
+        tuple_struct map struct identifier ignored_any
     }
 }
 
-- 
2.43.0


From d4caed33236f238a3dedb710ce3033e660600545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:54 +0000
Subject: [PATCH 31/54] fix: spell object keys consistently when converting to
 values

---
 crates/hcl-rs/src/expr/mod.rs | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/crates/hcl-rs/src/expr/mod.rs b/crates/hcl-rs/src/expr/mod.rs
index 6e76fe1..6b10669 100644
--- a/crates/hcl-rs/src/expr/mod.rs
+++ b/crates/hcl-rs/src/expr/mod.rs
@@ -99,7 +99,10 @@ impl From<Expression> for Value {
             Expression::Number(n) => Value::Number(n),
             Expression::String(s) => Value::String(s),
             Expression::Array(array) => array.into_iter().collect(),
-            Expression::Object(object) => object.into_iter().collect(),
+            Expression::Object(object) => object
+                .into_iter()
+                .map(|(key, value)| (key.into_value_key(), value))
+                .collect(),
             Expression::TemplateExpr(expr) => Value::String(expr.to_string()),
             Expression::Parenthesis(expr) => Value::from(*expr),
             other => Value::String(format::to_interpolated_string(&other).unwrap()),
@@ -296,6 +299,32 @@ pub enum ObjectKey {
     Expression(Expression),
 }
 
+impl ObjectKey {
+    /// Converts the key to the string that represents it in a `Value`. Keys which evaluate to a
+    /// string have the same spelling there as they would have as a value.
+    fn into_value_key(self) -> String {
+        let mut expr = match self {
+            ObjectKey::Identifier(ident) => return ident.into_inner(),
+            ObjectKey::Expression(expr) => expr,
+        };
+
+        while let Expression::Parenthesis(inner) = expr {
+            expr = *inner;
+        }
+
+        match expr {
+            Expression::Null
+            | Expression::Bool(_)
+            | Expression::Number(_)
+            | Expression::Array(_)
+            | Expression::Object(_) => expr.to_string(),
+            Expression::String(string) => string,
+            Expression::TemplateExpr(expr) => expr.to_string(),
+            other => format::to_interpolated_string(&other).unwrap(),
+        }
+    }
+}
+
 impl<T> From<T> for ObjectKey
 where
     T: Into<Expression>,
-- 
2.43.0


From 04b2cbfac608830267d453a2524c0d34e5130d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:48 +0000
Subject: [PATCH 32/54] fix: escape literals in front of template markers in
 quoted templates

---
 crates/hcl-edit/src/encode/template.rs | 50 ++++++++++++++++++--------
 1 file changed, 35 insertions(+), 15 deletions(-)

diff --git a/crates/hcl-edit/src/encode/template.rs b/crates/hcl-edit/src/encode/template.rs
index a17c324..6e6a219 100644
--- a/crates/hcl-edit/src/encode/template.rs
+++ b/crates/hcl-edit/src/encode/template.rs
@@ -15,13 +15,7 @@ const DIRECTIVE_START: &str = "%{";
 impl Encode for StringTemplate {
     fn encode(&self, buf: &mut EncodeState) -> fmt::Result {
         buf.write_char('"')?;
-        buf.with_escape(true, |buf| {
-            for element in self {
-                element.encode(buf)?;
-            }
-
-            Ok(())
-        })?;
+        buf.with_escape(true, |buf| encode_elements(self, None, buf))?;
         buf.write_char('"')
     }
 }
@@ -48,11 +42,7 @@ impl Encode for HeredocTemplate {
 
 impl Encode for Template {
     fn encode(&self, buf: &mut EncodeState) -> fmt::Result {
-        for element in self {
-            element.encode(buf)?;
-        }
-
-        Ok(())
+        encode_elements(self, None, buf)
     }
 }
 
@@ -107,7 +97,7 @@ impl Encode for IfTemplateExpr {
             buf.write_str("if")?;
             self.cond_expr.encode_decorated(buf, BOTH_SPACE_DECOR)
         })?;
-        self.template.encode(buf)
+        encode_elements(&self.template, Some('%'), buf)
     }
 }
 
@@ -118,7 +108,7 @@ impl Encode for ElseTemplateExpr {
             buf.write_str("else")?;
             self.trailing().encode_with_default(buf, " ")
         })?;
-        self.template.encode(buf)
+        encode_elements(&self.template, Some('%'), buf)
     }
 }
 
@@ -154,7 +144,7 @@ impl Encode for ForTemplateExpr {
             buf.write_str("in")?;
             self.collection_expr.encode_decorated(buf, BOTH_SPACE_DECOR)
         })?;
-        self.template.encode(buf)
+        encode_elements(&self.template, Some('%'), buf)
     }
 }
 
@@ -168,6 +158,36 @@ impl Encode for EndforTemplateExpr {
     }
 }
 
+/// Encodes template elements. If something follows that starts with a template marker, `next` is
+/// the first char of that marker.
+fn encode_elements<'a, I>(elements: I, next: Option<char>, buf: &mut EncodeState) -> fmt::Result
+where
+    I: IntoIterator<Item = &'a Element>,
+{
+    let mut elements = elements.into_iter().peekable();
+
+    while let Some(element) = elements.next() {
+        let next = match elements.peek() {
+            Some(Element::Literal(_)) => None,
+            Some(Element::Interpolation(_)) => Some('$'),
+            Some(Element::Directive(_)) => Some('%'),
+            None => next,
+        };
+
+        match (element, next) {
+            // In front of a marker, the char would turn it into an escaped marker.
+            (Element::Literal(lit), Some(ch)) if buf.escape() && lit.ends_with(ch) => {
+                let escaped = escape_markers(lit);
+                encode_escaped(buf, &escaped[..escaped.len() - 1])?;
+                write!(buf, "\\u{:04X}", ch as u32)?;
+            }
+            _ => element.encode(buf)?,
+        }
+    }
+
+    Ok(())
+}
+
 fn encode_strip<F>(buf: &mut EncodeState, start_marker: &str, strip: Strip, f: F) -> fmt::Result
 where
     F: FnOnce(&mut EncodeState) -> fmt::Result,
-- 
2.43.0


From 2d0b6f468c238b8f051ee203300879646d37d005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:51 +0000
Subject: [PATCH 33/54] fix: discard the raw representation of a mutated
 formatted value

---
 crates/hcl-edit/src/repr.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/hcl-edit/src/repr.rs b/crates/hcl-edit/src/repr.rs
index 176afb2..8987c40 100644
--- a/crates/hcl-edit/src/repr.rs
+++ b/crates/hcl-edit/src/repr.rs
@@ -428,7 +428,11 @@ impl<T> Formatted<T> {
     }
 
     /// Returns a mutable reference to the wrapped value.
+    ///
+    /// Since the value may be changed through the reference, its raw string representation is
+    /// discarded.
     pub fn value_mut(&mut self) -> &mut T {
+        self.repr = None;
         &mut self.value
     }
 
-- 
2.43.0


From 2b82481898549ac80d1ac52ce53bdf7898178e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:00 +0000
Subject: [PATCH 34/54] fix: terminate all but the last item of an object

---
 crates/hcl-edit/src/encode/expr.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/hcl-edit/src/encode/expr.rs b/crates/hcl-edit/src/encode/expr.rs
index e6a94cd..3ed95e7 100644
--- a/crates/hcl-edit/src/encode/expr.rs
+++ b/crates/hcl-edit/src/encode/expr.rs
@@ -83,9 +83,16 @@ impl Encode for Object {
     fn encode(&self, buf: &mut EncodeState) -> fmt::Result {
         buf.write_char('{')?;
 
-        for (key, value) in self {
+        let mut items = self.iter().peekable();
+
+        while let Some((key, value)) = items.next() {
             key.encode_decorated(buf, TRAILING_SPACE_DECOR)?;
             value.encode(buf)?;
+
+            // Only the last item can do without a terminator.
+            if value.terminator() == ObjectValueTerminator::None && items.peek().is_some() {
+                buf.write_char(',')?;
+            }
         }
 
         self.trailing().encode_with_default(buf, "")?;
-- 
2.43.0


From 5d1f58dc69063982703d3d67a1f8b968dab7ec68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:24 +0000
Subject: [PATCH 35/54] fix: quote object keys that are keywords when
 formatting with `prefer_ident_keys`

---
 crates/hcl-rs/src/format/impls.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/hcl-rs/src/format/impls.rs b/crates/hcl-rs/src/format/impls.rs
index 746f58d..bc29029 100644
--- a/crates/hcl-rs/src/format/impls.rs
+++ b/crates/hcl-rs/src/format/impls.rs
@@ -189,6 +189,11 @@ impl Format for ObjectKey {
     }
 }
 
+/// Checks if an unquoted object key would be parsed as something other than an identifier.
+fn is_keyword(s: &str) -> bool {
+    matches!(s, "null" | "true" | "false" | "for")
+}
+
 struct StrKey<'a>(&'a str);
 
 impl private::Sealed for StrKey<'_> {}
@@ -198,7 +203,7 @@ impl Format for StrKey<'_> {
     where
         W: io::Write,
     {
-        if fmt.config.prefer_ident_keys && is_ident(self.0) {
+        if fmt.config.prefer_ident_keys && is_ident(self.0) && !is_keyword(self.0) {
             fmt.write_string_fragment(self.0)
         } else {
             fmt.write_quoted_string_escaped(self.0)
-- 
2.43.0


From da5ee49a84cab8b60fb8b190359e2ce5a09798b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:54 +0000
Subject: [PATCH 36/54] fix: deserialize documents as optional values

---
 crates/hcl-rs/src/de/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/hcl-rs/src/de/mod.rs b/crates/hcl-rs/src/de/mod.rs
index 0058ee4..fb23cac 100644
--- a/crates/hcl-rs/src/de/mod.rs
+++ b/crates/hcl-rs/src/de/mod.rs
@@ -223,6 +223,13 @@ impl<'de> de::Deserializer<'de> for Deserializer {
         self.body.into_json_spec().deserialize_any(visitor)
     }
 
+    fn deserialize_option<V>(self, visitor: V) -> Result<V::Value>
+    where
+        V: de::Visitor<'de>,
+    {
+        visitor.visit_some(self)
+    }
+
     fn deserialize_newtype_struct<V>(
         self,
         name: &'static str,
@@ -258,7 +265,7 @@ impl<'de> de::Deserializer<'de> for Deserializer {
 
     forward_to_deserialize_any! {
         bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
-        bytes byte_buf option unit unit_struct seq tuple
+        bytes byte_buf unit unit_struct seq tuple
         tuple_struct map struct identifier ignored_any
     }
 }
-- 
2.43.0


From 6497a584a05faf7221b20ee8bda944241cba19d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:54 +0000
Subject: [PATCH 37/54] fix: deserialize object keys as enum variants and
 newtype structs

---
 crates/hcl-rs/src/expr/de.rs | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/crates/hcl-rs/src/expr/de.rs b/crates/hcl-rs/src/expr/de.rs
index 747ace8..b2afabe 100644
--- a/crates/hcl-rs/src/expr/de.rs
+++ b/crates/hcl-rs/src/expr/de.rs
@@ -1108,20 +1108,39 @@ impl<'de> de::Deserializer<'de> for ObjectKey {
     }
 
     fn deserialize_enum<V>(
+        self,
+        name: &'static str,
+        variants: &'static [&'static str],
+        visitor: V,
+    ) -> Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        if name == "ObjectKey" && variants == ["Identifier", "Expression"] {
+            // Specialized handling of `hcl::ObjectKey`.
+            return visitor.visit_enum(self);
+        }
+
+        match self {
+            ObjectKey::Identifier(ident) => visitor.visit_enum(ident.into_deserializer()),
+            ObjectKey::Expression(expr) => expr.deserialize_enum(name, variants, visitor),
+        }
+    }
+
+    fn deserialize_newtype_struct<V>(
         self,
         _name: &'static str,
-        _variants: &'static [&'static str],
         visitor: V,
     ) -> Result<V::Value, Self::Error>
     where
         V: de::Visitor<'de>,
     {
-        visitor.visit_enum(self)
+        visitor.visit_newtype_struct(self)
     }
 
     forward_to_deserialize_any! {
         bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char bytes
-        byte_buf option unit unit_struct newtype_struct seq tuple
+        byte_buf option unit unit_struct seq tuple
         tuple_struct map struct identifier ignored_any
     }
 }
-- 
2.43.0


From 07098f4463fcb5b65ede649abd3da8155851c780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:54 +0000
Subject: [PATCH 38/54] fix: quote object keys that are keywords when
 formatting identifiers

---
 crates/hcl-rs/src/format/impls.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/hcl-rs/src/format/impls.rs b/crates/hcl-rs/src/format/impls.rs
index bc29029..0529612 100644
--- a/crates/hcl-rs/src/format/impls.rs
+++ b/crates/hcl-rs/src/format/impls.rs
@@ -182,6 +182,9 @@ impl Format for ObjectKey {
         W: io::Write,
     {
         match self {
+            ObjectKey::Identifier(ident) if is_keyword(ident) => {
+                fmt.write_quoted_string_escaped(ident)
+            }
             ObjectKey::Identifier(ident) => ident.format(fmt),
             ObjectKey::Expression(Expression::String(s)) => StrKey(s).format(fmt),
             ObjectKey::Expression(expr) => expr.format(fmt),
-- 
2.43.0


From 388a69417b2fcd90d28036c2db1c63dcfd4fccd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:54 +0000
Subject: [PATCH 39/54] fix: refuse invalid attribute keys of serialized object
 expressions instead of changing them

---
 crates/hcl-rs/src/structure/ser/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/hcl-rs/src/structure/ser/mod.rs b/crates/hcl-rs/src/structure/ser/mod.rs
index c029150..a4bbff2 100644
--- a/crates/hcl-rs/src/structure/ser/mod.rs
+++ b/crates/hcl-rs/src/structure/ser/mod.rs
@@ -350,7 +350,9 @@ impl ser::SerializeStruct for SerializeBodyStruct {
                             .map(|(key, value)| {
                                 let key = match key {
                                     ObjectKey::Identifier(ident) => ident,
-                                    ObjectKey::Expression(Expression::String(s)) => s.into(),
+                                    ObjectKey::Expression(Expression::String(s)) => {
+                                        Identifier::new(s)?
+                                    }
                                     ObjectKey::Expression(expr) => {
                                         return Err(ser::Error::custom(format!(
                                             "encountered invalid HCL attribute key `{expr}`",
-- 
2.43.0


From 07f4e851442c96dd348946e2403910664aea97d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:54 +0000
Subject: [PATCH 40/54] fix: do not ignore surplus array elements and object
 items when deserializing

---
 crates/hcl-rs/src/expr/de.rs  | 14 +++++++++-----
 crates/hcl-rs/src/value/de.rs | 10 ++++++++--
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/crates/hcl-rs/src/expr/de.rs b/crates/hcl-rs/src/expr/de.rs
index b2afabe..8a4e7f3 100644
--- a/crates/hcl-rs/src/expr/de.rs
+++ b/crates/hcl-rs/src/expr/de.rs
@@ -309,7 +309,7 @@ impl<'de> de::Deserializer<'de> for Expression {
             Expression::Bool(b) => visitor.visit_bool(b),
             Expression::Number(v) => v.deserialize_any(visitor).map_err(de::Error::custom),
             Expression::String(s) => visitor.visit_string(s),
-            Expression::Array(v) => visitor.visit_seq(v.into_deserializer()),
+            Expression::Array(v) => v.into_deserializer().deserialize_any(visitor),
             Expression::Object(v) => visitor.visit_map(v.into_deserializer()),
             Expression::TemplateExpr(v) => visitor.visit_string(v.to_string()),
             Expression::Parenthesis(v) => v.deserialize_any(visitor),
@@ -342,11 +342,15 @@ impl<'de> de::Deserializer<'de> for Expression {
 
         match self {
             Expression::String(v) => visitor.visit_enum(v.into_deserializer()),
-            Expression::Object(v) => {
+            Expression::Object(v) if v.len() == 1 => {
                 visitor.visit_enum(MapAccessDeserializer::new(v.into_deserializer()))
             }
             Expression::Operation(v) => visitor.visit_enum(EnumAccess::new(*v)),
             Expression::TemplateExpr(v) => visitor.visit_enum(EnumAccess::new(*v)),
+            Expression::Object(_) => Err(de::Error::invalid_value(
+                Unexpected::Map,
+                &"object with a single key",
+            )),
             _ => Err(self.invalid_type(&"string, object, operation or template expression")),
         }
     }
@@ -414,7 +418,7 @@ impl<'de> de::Deserializer<'de> for Expression {
     {
         match self {
             Expression::String(v) => visitor.visit_string(v),
-            Expression::Array(v) => visitor.visit_seq(v.into_deserializer()),
+            Expression::Array(v) => v.into_deserializer().deserialize_any(visitor),
             _ => Err(self.invalid_type(&visitor)),
         }
     }
@@ -445,7 +449,7 @@ impl<'de> de::Deserializer<'de> for Expression {
         V: de::Visitor<'de>,
     {
         match self {
-            Expression::Array(v) => visitor.visit_seq(v.into_deserializer()),
+            Expression::Array(v) => v.into_deserializer().deserialize_any(visitor),
             _ => Err(self.invalid_type(&visitor)),
         }
     }
@@ -495,7 +499,7 @@ impl<'de> de::Deserializer<'de> for Expression {
         V: de::Visitor<'de>,
     {
         match self {
-            Expression::Array(v) => visitor.visit_seq(v.into_deserializer()),
+            Expression::Array(v) => v.into_deserializer().deserialize_any(visitor),
             other => other.deserialize_map(visitor),
         }
     }
diff --git a/crates/hcl-rs/src/value/de.rs b/crates/hcl-rs/src/value/de.rs
index 118d682..0556bfd 100644
--- a/crates/hcl-rs/src/value/de.rs
+++ b/crates/hcl-rs/src/value/de.rs
@@ -122,7 +122,7 @@ impl<'de> de::Deserializer<'de> for ValueDeserializer {
             Value::Bool(b) => visitor.visit_bool(b),
             Value::Number(n) => n.deserialize_any(visitor).map_err(de::Error::custom),
             Value::String(s) => visitor.visit_string(s),
-            Value::Array(array) => visitor.visit_seq(array.into_deserializer()),
+            Value::Array(array) => array.into_deserializer().deserialize_any(visitor),
             Value::Object(object) => visitor.visit_map(object.into_deserializer()),
         }
     }
@@ -148,7 +148,13 @@ impl<'de> de::Deserializer<'de> for ValueDeserializer {
     {
         match self.value {
             Value::String(s) => visitor.visit_enum(s.into_deserializer()),
-            Value::Object(object) => visitor.visit_enum(EnumAccess::new(object)),
+            Value::Object(object) if object.len() == 1 => {
+                visitor.visit_enum(EnumAccess::new(object))
+            }
+            Value::Object(_) => Err(de::Error::invalid_value(
+                de::Unexpected::Map,
+                &"object with a single key",
+            )),
             _ => Err(de::Error::custom("expected an enum")),
         }
     }
-- 
2.43.0


From 356098522ba1e11a962dc46a83844f1d9ad99ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:00 +0000
Subject: [PATCH 41/54] fix: deserialize values as newtype structs

---
 crates/hcl-rs/src/value/de.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/crates/hcl-rs/src/value/de.rs b/crates/hcl-rs/src/value/de.rs
index 0556bfd..27ec2ce 100644
--- a/crates/hcl-rs/src/value/de.rs
+++ b/crates/hcl-rs/src/value/de.rs
@@ -137,6 +137,17 @@ impl<'de> de::Deserializer<'de> for ValueDeserializer {
         }
     }
 
+    fn deserialize_newtype_struct<V>(
+        self,
+        _name: &'static str,
+        visitor: V,
+    ) -> Result<V::Value, Error>
+    where
+        V: Visitor<'de>,
+    {
+        visitor.visit_newtype_struct(self)
+    }
+
     fn deserialize_enum<V>(
         self,
         _name: &'static str,
@@ -161,8 +172,8 @@ impl<'de> de::Deserializer<'de> for ValueDeserializer {
 
     forward_to_deserialize_any! {
         bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
-        bytes byte_buf unit unit_struct newtype_struct seq tuple
-        tuple_struct map struct identifier ignored_any
+        bytes byte_buf unit unit_struct seq tuple tuple_struct
+        map struct identifier ignored_any
     }
 }
 
-- 
2.43.0


From c92ea8d61276e56f90992ce8028b02e5829d2f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:09 +0000
Subject: [PATCH 42/54] fix: ignore parentheses around expressions when
 deserializing typed data

---
 crates/hcl-rs/src/expr/de.rs | 48 +++++++++++++++++++++++-------------
 1 file changed, 31 insertions(+), 17 deletions(-)

diff --git a/crates/hcl-rs/src/expr/de.rs b/crates/hcl-rs/src/expr/de.rs
index 8a4e7f3..1ccec64 100644
--- a/crates/hcl-rs/src/expr/de.rs
+++ b/crates/hcl-rs/src/expr/de.rs
@@ -8,6 +8,14 @@ use serde::de::{self, Expected, IntoDeserializer, Unexpected, VariantAccess};
 use serde::{forward_to_deserialize_any, Deserializer};
 
 impl Expression {
+    /// Strips the parentheses from an expression, since they have no meaning of their own.
+    fn unparenthesized(self) -> Self {
+        match self {
+            Expression::Parenthesis(expr) => expr.unparenthesized(),
+            other => other,
+        }
+    }
+
     #[cold]
     fn invalid_type<E>(&self, exp: &dyn Expected) -> E
     where
@@ -284,9 +292,9 @@ macro_rules! impl_deserialize_number {
             where
                 V: de::Visitor<'de>,
             {
-                match self {
+                match self.unparenthesized() {
                     Expression::Number(n) => n.deserialize_any(visitor).map_err(de::Error::custom),
-                    _ => Err(self.invalid_type(&visitor)),
+                    other => Err(other.invalid_type(&visitor)),
                 }
             }
         )*
@@ -321,7 +329,13 @@ impl<'de> de::Deserializer<'de> for Expression {
     where
         V: de::Visitor<'de>,
     {
-        match self {
+        let mut expr = &self;
+
+        while let Expression::Parenthesis(inner) = expr {
+            expr = inner;
+        }
+
+        match expr {
             Expression::Null => visitor.visit_none(),
             _ => visitor.visit_some(self),
         }
@@ -340,7 +354,7 @@ impl<'de> de::Deserializer<'de> for Expression {
             return visitor.visit_enum(self);
         }
 
-        match self {
+        match self.unparenthesized() {
             Expression::String(v) => visitor.visit_enum(v.into_deserializer()),
             Expression::Object(v) if v.len() == 1 => {
                 visitor.visit_enum(MapAccessDeserializer::new(v.into_deserializer()))
@@ -351,7 +365,7 @@ impl<'de> de::Deserializer<'de> for Expression {
                 Unexpected::Map,
                 &"object with a single key",
             )),
-            _ => Err(self.invalid_type(&"string, object, operation or template expression")),
+            other => Err(other.invalid_type(&"string, object, operation or template expression")),
         }
     }
 
@@ -371,9 +385,9 @@ impl<'de> de::Deserializer<'de> for Expression {
     where
         V: de::Visitor<'de>,
     {
-        match self {
+        match self.unparenthesized() {
             Expression::Bool(v) => visitor.visit_bool(v),
-            _ => Err(self.invalid_type(&visitor)),
+            other => Err(other.invalid_type(&visitor)),
         }
     }
 
@@ -395,7 +409,7 @@ impl<'de> de::Deserializer<'de> for Expression {
     where
         V: de::Visitor<'de>,
     {
-        match self {
+        match self.unparenthesized() {
             Expression::String(v) => visitor.visit_string(v),
             Expression::TemplateExpr(v) => visitor.visit_string(v.to_string()),
             other => {
@@ -416,10 +430,10 @@ impl<'de> de::Deserializer<'de> for Expression {
     where
         V: de::Visitor<'de>,
     {
-        match self {
+        match self.unparenthesized() {
             Expression::String(v) => visitor.visit_string(v),
             Expression::Array(v) => v.into_deserializer().deserialize_any(visitor),
-            _ => Err(self.invalid_type(&visitor)),
+            other => Err(other.invalid_type(&visitor)),
         }
     }
 
@@ -427,9 +441,9 @@ impl<'de> de::Deserializer<'de> for Expression {
     where
         V: de::Visitor<'de>,
     {
-        match self {
+        match self.unparenthesized() {
             Expression::Null => visitor.visit_unit(),
-            _ => Err(self.invalid_type(&visitor)),
+            other => Err(other.invalid_type(&visitor)),
         }
     }
 
@@ -448,9 +462,9 @@ impl<'de> de::Deserializer<'de> for Expression {
     where
         V: de::Visitor<'de>,
     {
-        match self {
+        match self.unparenthesized() {
             Expression::Array(v) => v.into_deserializer().deserialize_any(visitor),
-            _ => Err(self.invalid_type(&visitor)),
+            other => Err(other.invalid_type(&visitor)),
         }
     }
 
@@ -477,7 +491,7 @@ impl<'de> de::Deserializer<'de> for Expression {
     where
         V: de::Visitor<'de>,
     {
-        match self {
+        match self.unparenthesized() {
             Expression::Object(v) => visitor.visit_map(v.into_deserializer()),
             Expression::Conditional(v) => visitor.visit_map(ConditionalAccess::new(*v)),
             Expression::FuncCall(v) => visitor.visit_map(FuncCallAccess::new(*v)),
@@ -485,7 +499,7 @@ impl<'de> de::Deserializer<'de> for Expression {
             Expression::Traversal(v) => visitor.visit_map(TraversalAccess::new(*v)),
             Expression::Operation(v) => v.deserialize_any(visitor),
             Expression::TemplateExpr(v) => v.deserialize_any(visitor),
-            _ => Err(self.invalid_type(&visitor)),
+            other => Err(other.invalid_type(&visitor)),
         }
     }
 
@@ -498,7 +512,7 @@ impl<'de> de::Deserializer<'de> for Expression {
     where
         V: de::Visitor<'de>,
     {
-        match self {
+        match self.unparenthesized() {
             Expression::Array(v) => v.into_deserializer().deserialize_any(visitor),
             other => other.deserialize_map(visitor),
         }
-- 
2.43.0


From cfa233667cd7879f5f46ba6a38407d883fbec3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:46 +0000
Subject: [PATCH 43/54] fix: deserialize boolean and number object keys as
 struct fields

---
 crates/hcl-rs/src/expr/de.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/hcl-rs/src/expr/de.rs b/crates/hcl-rs/src/expr/de.rs
index 1ccec64..955d203 100644
--- a/crates/hcl-rs/src/expr/de.rs
+++ b/crates/hcl-rs/src/expr/de.rs
@@ -1125,6 +1125,13 @@ impl<'de> de::Deserializer<'de> for ObjectKey {
         }
     }
 
+    fn deserialize_identifier<V>(self, visitor: V) -> Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        self.deserialize_string(visitor)
+    }
+
     fn deserialize_enum<V>(
         self,
         name: &'static str,
@@ -1159,7 +1166,7 @@ impl<'de> de::Deserializer<'de> for ObjectKey {
     forward_to_deserialize_any! {
         bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char bytes
         byte_buf option unit unit_struct seq tuple
-        tuple_struct map struct identifier ignored_any
+        tuple_struct map struct ignored_any
     }
 }
 
-- 
2.43.0


From ed8612bfffe5f3784f28692c30535c007f0f9aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:30 +0000
Subject: [PATCH 44/54] fix: deserialize expressions as variables

---
 crates/hcl-rs/src/expr/de.rs       | 43 ++++++++++++++++++++++++++++--
 crates/hcl-rs/src/expr/variable.rs |  4 +--
 2 files changed, 42 insertions(+), 5 deletions(-)

diff --git a/crates/hcl-rs/src/expr/de.rs b/crates/hcl-rs/src/expr/de.rs
index 955d203..4f4a271 100644
--- a/crates/hcl-rs/src/expr/de.rs
+++ b/crates/hcl-rs/src/expr/de.rs
@@ -372,13 +372,19 @@ impl<'de> de::Deserializer<'de> for Expression {
     #[inline]
     fn deserialize_newtype_struct<V>(
         self,
-        _name: &'static str,
+        name: &'static str,
         visitor: V,
     ) -> Result<V::Value, Self::Error>
     where
         V: de::Visitor<'de>,
     {
-        visitor.visit_newtype_struct(self)
+        match self {
+            // Specialized handling of `hcl::expr::Variable`.
+            Expression::Variable(v) if name == "$hcl::Variable" => {
+                visitor.visit_newtype_struct(v.into_deserializer())
+            }
+            expr => visitor.visit_newtype_struct(expr),
+        }
     }
 
     fn deserialize_bool<V>(self, visitor: V) -> Result<V::Value, Self::Error>
@@ -1309,6 +1315,39 @@ impl IntoDeserializer<'_, Error> for Variable {
     }
 }
 
+impl<'de> de::Deserialize<'de> for Variable {
+    fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
+    where
+        D: de::Deserializer<'de>,
+    {
+        struct VariableVisitor;
+
+        impl<'de> de::Visitor<'de> for VariableVisitor {
+            type Value = Variable;
+
+            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
+                f.write_str("an HCL variable")
+            }
+
+            fn visit_str<E>(self, value: &str) -> Result<Self::Value, E>
+            where
+                E: de::Error,
+            {
+                Variable::new(value).map_err(de::Error::custom)
+            }
+
+            fn visit_newtype_struct<D>(self, deserializer: D) -> Result<Self::Value, D::Error>
+            where
+                D: de::Deserializer<'de>,
+            {
+                Identifier::deserialize(deserializer).map(Variable::from)
+            }
+        }
+
+        deserializer.deserialize_newtype_struct("$hcl::Variable", VariableVisitor)
+    }
+}
+
 impl<'de> de::Deserialize<'de> for HeredocStripMode {
     fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
     where
diff --git a/crates/hcl-rs/src/expr/variable.rs b/crates/hcl-rs/src/expr/variable.rs
index 687be4e..5dfff26 100644
--- a/crates/hcl-rs/src/expr/variable.rs
+++ b/crates/hcl-rs/src/expr/variable.rs
@@ -1,5 +1,4 @@
 use crate::{Identifier, InternalString, Result};
-use serde::Deserialize;
 use std::ops::Deref;
 
 /// A type representing a variable in an HCL expression.
@@ -9,8 +8,7 @@ use std::ops::Deref;
 ///
 /// This is a separate type to differentiate between bare identifiers and variable identifiers
 /// which have different semantics in different scopes.
-#[derive(Deserialize, Debug, Clone, PartialEq, Eq, Hash)]
-#[serde(transparent)]
+#[derive(Debug, Clone, PartialEq, Eq, Hash)]
 pub struct Variable(Identifier);
 
 impl Variable {
-- 
2.43.0


From 0f6e6ffcfd0d005f3ced1b0ae774453c6ef10db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:06 +0000
Subject: [PATCH 45/54] fix: deserialize keys of object values as newtype
 structs

---
 crates/hcl-rs/src/value/de.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/hcl-rs/src/value/de.rs b/crates/hcl-rs/src/value/de.rs
index 27ec2ce..a5a6d00 100644
--- a/crates/hcl-rs/src/value/de.rs
+++ b/crates/hcl-rs/src/value/de.rs
@@ -1,7 +1,11 @@
 use super::{Map, Value};
 use crate::{Error, Number, Result};
 use indexmap::map;
-use serde::de::{self, value::StringDeserializer, IntoDeserializer, Visitor};
+use serde::de::{
+    self,
+    value::{MapDeserializer, StringDeserializer},
+    IntoDeserializer, Visitor,
+};
 use serde::{forward_to_deserialize_any, Deserialize, Deserializer};
 use std::fmt;
 
@@ -123,7 +127,11 @@ impl<'de> de::Deserializer<'de> for ValueDeserializer {
             Value::Number(n) => n.deserialize_any(visitor).map_err(de::Error::custom),
             Value::String(s) => visitor.visit_string(s),
             Value::Array(array) => array.into_deserializer().deserialize_any(visitor),
-            Value::Object(object) => visitor.visit_map(object.into_deserializer()),
+            Value::Object(object) => visitor.visit_map(MapDeserializer::new(
+                object
+                    .into_iter()
+                    .map(|(key, value)| (Value::String(key), value)),
+            )),
         }
     }
 
-- 
2.43.0


From 39610ebb4dda1732b66ac7c09cb71277f6389b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:58 +0000
Subject: [PATCH 46/54] fix: consider non-negative integers in `Number::is_i64`

---
 crates/hcl-primitives/src/number.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/crates/hcl-primitives/src/number.rs b/crates/hcl-primitives/src/number.rs
index 30e6e36..443a011 100644
--- a/crates/hcl-primitives/src/number.rs
+++ b/crates/hcl-primitives/src/number.rs
@@ -155,10 +155,7 @@ impl N {
     }
 
     fn is_i64(&self) -> bool {
-        match self {
-            N::NegInt(_) => true,
-            N::PosInt(_) | N::Float(_) => false,
-        }
+        self.as_i64().is_some()
     }
 
     fn is_u64(&self) -> bool {
-- 
2.43.0


From 3ea8afc3f6708818a7a0beebcdb2a8db51d30774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:57 +0000
Subject: [PATCH 47/54] fix: evaluate the parts of a condition in place

Only the condition as a whole was evaluated, so if it failed none of its
nested expressions was replaced and only the first error was reported.
---
 crates/hcl-rs/src/eval/impls.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/hcl-rs/src/eval/impls.rs b/crates/hcl-rs/src/eval/impls.rs
index 28ad304..9f55379 100644
--- a/crates/hcl-rs/src/eval/impls.rs
+++ b/crates/hcl-rs/src/eval/impls.rs
@@ -342,9 +342,9 @@ impl Evaluate for Conditional {
     }
 
     fn evaluate_in_place(&mut self, ctx: &Context) -> EvalResult<(), Errors> {
-        let cond = expr::evaluate_bool(&self.cond_expr, ctx)?;
+        self.cond_expr.evaluate_in_place(ctx)?;
 
-        self.cond_expr = Expression::from(cond);
+        let cond = expr::evaluate_bool(&self.cond_expr, ctx)?;
 
         if cond {
             self.true_expr.evaluate_in_place(ctx)
-- 
2.43.0


From 09bb786946c333af39cd0f1f6fe6034ed87c2f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:14 +0000
Subject: [PATCH 48/54] fix: keep the template of for directives when
 evaluating in place

Its expressions were evaluated without the loop variables in scope, which
either failed or replaced them with the value of an outer variable of the
same name.
---
 crates/hcl-rs/src/eval/impls.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/hcl-rs/src/eval/impls.rs b/crates/hcl-rs/src/eval/impls.rs
index 9f55379..921da98 100644
--- a/crates/hcl-rs/src/eval/impls.rs
+++ b/crates/hcl-rs/src/eval/impls.rs
@@ -270,9 +270,10 @@ impl Evaluate for Template {
                             None => res,
                         }
                     }
-                    Directive::For(dir) => res
-                        .add_errors(dir.collection_expr.evaluate_in_place(ctx))
-                        .add_errors(dir.template.evaluate_in_place(ctx)),
+                    // The template can only be evaluated with the loop variables in scope.
+                    Directive::For(dir) => {
+                        res.add_errors(dir.collection_expr.evaluate_in_place(ctx))
+                    }
                 },
             })
     }
-- 
2.43.0


From 8ef3f085ed054657ba4355aebcc202bf19a803cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:54 +0000
Subject: [PATCH 49/54] fix: respect the order of equal object keys when
 evaluating in place

An entry whose key is only known after evaluation replaced the value of an
earlier entry at its position, in front of keys that could not be evaluated
yet and may turn out to be the same key.
---
 crates/hcl-rs/src/eval/impls.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/crates/hcl-rs/src/eval/impls.rs b/crates/hcl-rs/src/eval/impls.rs
index 921da98..ad5c408 100644
--- a/crates/hcl-rs/src/eval/impls.rs
+++ b/crates/hcl-rs/src/eval/impls.rs
@@ -175,14 +175,24 @@ where
 
     fn evaluate_in_place(&mut self, ctx: &Context) -> EvalResult<(), Errors> {
         let mut new_object = Object::with_capacity(self.len());
+        let mut unresolved_keys = false;
 
         #[allow(clippy::manual_try_fold)]
         let res = self
             .drain(..)
             .fold(Ok(()), |mut res, (mut key, mut value)| {
+                let key_res = key.evaluate_in_place(ctx);
+                unresolved_keys |= key_res.is_err();
                 res = res
-                    .add_errors(key.evaluate_in_place(ctx))
+                    .add_errors(key_res)
                     .add_errors(value.evaluate_in_place(ctx));
+
+                // The last value of a key wins, also over the one of a key that is not known yet
+                // but turns out to be the same.
+                if unresolved_keys {
+                    new_object.remove(&key);
+                }
+
                 new_object.insert(key, value);
                 res
             });
-- 
2.43.0


From e667a808bd3e585a71625a1352eac283aaddcd86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:52 +0000
Subject: [PATCH 50/54] fix: accept any argument for a parameter of one of no
 types

An empty list of alternatives is documented to allow any type.
---
 crates/hcl-rs/src/eval/func.rs  |  9 ++++++---
 crates/hcl-rs/src/eval/impls.rs | 20 ++++++++++++--------
 2 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/crates/hcl-rs/src/eval/func.rs b/crates/hcl-rs/src/eval/func.rs
index 7e424fd..391a544 100644
--- a/crates/hcl-rs/src/eval/func.rs
+++ b/crates/hcl-rs/src/eval/func.rs
@@ -75,9 +75,12 @@ impl ParamType {
                 .as_object()
                 .is_some_and(|object| object.values().all(|elem| elem_type.is_satisfied_by(elem))),
             ParamType::Nullable(elem_type) => value.is_null() || elem_type.is_satisfied_by(value),
-            ParamType::OneOf(elem_types) => elem_types
-                .iter()
-                .any(|elem_type| elem_type.is_satisfied_by(value)),
+            ParamType::OneOf(elem_types) => {
+                elem_types.is_empty()
+                    || elem_types
+                        .iter()
+                        .any(|elem_type| elem_type.is_satisfied_by(value))
+            }
         }
     }
 }
diff --git a/crates/hcl-rs/src/eval/impls.rs b/crates/hcl-rs/src/eval/impls.rs
index ad5c408..c6ef3f0 100644
--- a/crates/hcl-rs/src/eval/impls.rs
+++ b/crates/hcl-rs/src/eval/impls.rs
@@ -175,22 +175,26 @@ where
 
     fn evaluate_in_place(&mut self, ctx: &Context) -> EvalResult<(), Errors> {
         let mut new_object = Object::with_capacity(self.len());
-        let mut unresolved_keys = false;
 
         #[allow(clippy::manual_try_fold)]
         let res = self
             .drain(..)
             .fold(Ok(()), |mut res, (mut key, mut value)| {
-                let key_res = key.evaluate_in_place(ctx);
-                unresolved_keys |= key_res.is_err();
                 res = res
-                    .add_errors(key_res)
+                    .add_errors(key.evaluate_in_place(ctx))
                     .add_errors(value.evaluate_in_place(ctx));
 
-                // The last value of a key wins, also over the one of a key that is not known yet
-                // but turns out to be the same.
-                if unresolved_keys {
-                    new_object.remove(&key);
+                // The last value of a key wins, also over the ones of a different spelling of the
+                // key and of keys that are not known yet but may turn out to be the same.
+                if new_object.contains_key(&key) {
+                    let name = key.evaluate(ctx).ok();
+                    let is_ambiguous = new_object.keys().any(|other: &K| {
+                        *other != key && other.evaluate(ctx).map_or(true, |n| Some(n) == name)
+                    });
+
+                    if is_ambiguous {
+                        new_object.remove(&key);
+                    }
                 }
 
                 new_object.insert(key, value);
-- 
2.43.0


From 46b7d76fa7981355b13c751bf076f09b6b3a06d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:59 +0000
Subject: [PATCH 51/54] fix: refuse to flatten or tag expressions and
 structures instead of leaking handles

---
 crates/hcl-rs/src/expr/ser/mod.rs | 18 ++++++++++++++++--
 crates/hcl-rs/src/ser/mod.rs      | 30 +++++++++++++++++++++++++++---
 2 files changed, 43 insertions(+), 5 deletions(-)

diff --git a/crates/hcl-rs/src/expr/ser/mod.rs b/crates/hcl-rs/src/expr/ser/mod.rs
index 80968b5..fca314a 100644
--- a/crates/hcl-rs/src/expr/ser/mod.rs
+++ b/crates/hcl-rs/src/expr/ser/mod.rs
@@ -4,7 +4,10 @@
 mod tests;
 
 use super::*;
-use crate::ser::{in_internal_serialization, InternalHandles, SerializeInternalHandleStruct};
+use crate::ser::{
+    bad_handle_context, in_internal_serialization, InternalHandles, SerializeInternalHandleStruct,
+    HANDLE_MARKER,
+};
 use crate::structure::ser::{STRUCTURE_HANDLES, STRUCTURE_HANDLE_MARKER};
 use crate::Error;
 use serde::ser::{self, Impossible, SerializeMap};
@@ -91,9 +94,20 @@ impl ser::Serializer for ExpressionSerializer {
     type SerializeStruct = SerializeExpressionStruct;
     type SerializeStructVariant = SerializeExpressionStructVariant;
 
-    serialize_self! { some newtype_struct }
+    serialize_self! { some }
     forward_to_serialize_seq! { tuple tuple_struct }
 
+    fn serialize_newtype_struct<T>(self, name: &'static str, value: &T) -> Result<Self::Ok>
+    where
+        T: ?Sized + ser::Serialize,
+    {
+        if name == HANDLE_MARKER {
+            return Err(bad_handle_context());
+        }
+
+        value.serialize(self)
+    }
+
     fn serialize_bool(self, value: bool) -> Result<Self::Ok> {
         Ok(Expression::Bool(value))
     }
diff --git a/crates/hcl-rs/src/ser/mod.rs b/crates/hcl-rs/src/ser/mod.rs
index 4f5e3f5..56a487e 100644
--- a/crates/hcl-rs/src/ser/mod.rs
+++ b/crates/hcl-rs/src/ser/mod.rs
@@ -521,9 +521,10 @@ impl ser::Serializer for U64Serializer {
 
     serialize_unsupported! {
         i8 i16 i32 i64 u8 u16 u32 f32 f64 char str bool bytes
-        unit unit_variant unit_struct newtype_struct newtype_variant
+        unit unit_variant unit_struct newtype_variant
         some none seq tuple tuple_struct tuple_variant map struct struct_variant
     }
+    serialize_self! { newtype_struct }
 
     fn serialize_u64(self, value: u64) -> Result<Self::Ok> {
         Ok(value)
@@ -548,7 +549,11 @@ impl ser::SerializeStruct for SerializeInternalHandleStruct {
     where
         T: ?Sized + ser::Serialize,
     {
-        assert_eq!(key, "handle", "bad handle struct");
+        // Internally tagged enums add their tag to the handle struct.
+        if key != "handle" {
+            return Err(bad_handle_context());
+        }
+
         self.handle = Some(value.serialize(U64Serializer)?);
         Ok(())
     }
@@ -559,6 +564,25 @@ impl ser::SerializeStruct for SerializeInternalHandleStruct {
     }
 }
 
+pub(crate) const HANDLE_MARKER: &str = "\x00$hcl::Handle";
+
+/// The handle itself. It is only meaningful within a handle struct and must not be serialized
+/// anywhere else, e.g. as a field of the struct that an expression is flattened into.
+struct InternalHandle(usize);
+
+impl Serialize for InternalHandle {
+    fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
+    where
+        S: serde::Serializer,
+    {
+        serializer.serialize_newtype_struct(HANDLE_MARKER, &self.0)
+    }
+}
+
+pub(crate) fn bad_handle_context() -> Error {
+    ser::Error::custom("HCL expressions and structures can neither be flattened nor tagged")
+}
+
 pub(crate) struct InternalHandles<T> {
     marker: &'static str,
     last_handle: AtomicUsize,
@@ -589,7 +613,7 @@ impl<T> InternalHandles<T> {
         let handle = self.last_handle.fetch_add(1, Ordering::Relaxed);
         self.handles.borrow_mut().insert(handle, value.into());
         let mut s = serializer.serialize_struct(self.marker, 1)?;
-        s.serialize_field("handle", &handle)?;
+        s.serialize_field("handle", &InternalHandle(handle))?;
         s.end()
     }
 }
-- 
2.43.0


From d051cf1ca871c24c467d6b5507c6d1deb67a483d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:13 +0000
Subject: [PATCH 52/54] fix: do not leak handles when converting to a value
 while serializing

---
 crates/hcl-rs/src/ser/mod.rs   | 10 +++++++++-
 crates/hcl-rs/src/value/mod.rs |  4 +++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/crates/hcl-rs/src/ser/mod.rs b/crates/hcl-rs/src/ser/mod.rs
index 56a487e..c90b3fa 100644
--- a/crates/hcl-rs/src/ser/mod.rs
+++ b/crates/hcl-rs/src/ser/mod.rs
@@ -288,9 +288,17 @@ pub(crate) fn in_internal_serialization() -> bool {
 }
 
 pub(crate) fn with_internal_serialization<R, F: FnOnce() -> R>(f: F) -> R {
+    set_internal_serialization(true, f)
+}
+
+pub(crate) fn without_internal_serialization<R, F: FnOnce() -> R>(f: F) -> R {
+    set_internal_serialization(false, f)
+}
+
+fn set_internal_serialization<R, F: FnOnce() -> R>(internal: bool, f: F) -> R {
     INTERNAL_SERIALIZATION.with(|flag| {
         let old = flag.load(Ordering::Relaxed);
-        flag.store(true, Ordering::Relaxed);
+        flag.store(internal, Ordering::Relaxed);
         let _on_drop = OnDrop::new(|| {
             flag.store(old, Ordering::Relaxed);
         });
diff --git a/crates/hcl-rs/src/value/mod.rs b/crates/hcl-rs/src/value/mod.rs
index d61490c..55d601c 100644
--- a/crates/hcl-rs/src/value/mod.rs
+++ b/crates/hcl-rs/src/value/mod.rs
@@ -9,6 +9,7 @@ use std::fmt;
 use serde::{de::DeserializeOwned, ser::Serialize};
 
 use self::{de::ValueDeserializer, ser::ValueSerializer};
+use crate::ser::without_internal_serialization;
 use crate::{format, Number, Result};
 
 /// The map type used for HCL objects.
@@ -250,7 +251,8 @@ pub fn to_value<T>(value: T) -> Result<Value>
 where
     T: Serialize,
 {
-    value.serialize(ValueSerializer)
+    // The conversion might be requested by a type which is itself being serialized to HCL.
+    without_internal_serialization(|| value.serialize(ValueSerializer))
 }
 
 /// Convert a `hcl::Value` into a type `T` that implements `serde::Deserialize`.
-- 
2.43.0


From 8ce30237c5d4f4a55a411e514a0d7f7c9d436f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:02 +0000
Subject: [PATCH 53/54] fix: do not panic when displaying errors in very long
 lines

---
 crates/hcl-edit/src/parser/error.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/hcl-edit/src/parser/error.rs b/crates/hcl-edit/src/parser/error.rs
index 2f24826..0233a29 100644
--- a/crates/hcl-edit/src/parser/error.rs
+++ b/crates/hcl-edit/src/parser/error.rs
@@ -77,14 +77,15 @@ impl fmt::Display for ErrorInner {
             "{s}--> HCL parse error in line {l}, column {c}\n\
                  {s} |\n\
                  {l} | {line}\n\
-                 {s} | {caret:>c$}---\n\
+                 {s} | {padding}^---\n\
                  {s} |\n\
                  {s} = {message}",
             s = self.spacing(),
             l = self.location.line,
             c = self.location.column,
             line = self.line,
-            caret = '^',
+            // Not a format width, which is limited to 16 bits.
+            padding = " ".repeat(self.location.column - 1),
             message = self.message,
         )
     }
-- 
2.43.0


From e630fc8cbcb77693ee7df065dc738bee7a04d488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:30 +0000
Subject: [PATCH 54/54] fix: keep the key of an object item when inserting its
 value again

Object::insert documents that an existing key remains in its place, but the
key was replaced along with the value, which dropped the comments and the
whitespace in front of it.
---
 crates/hcl-edit/src/expr/object.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/hcl-edit/src/expr/object.rs b/crates/hcl-edit/src/expr/object.rs
index 9cbe350..5eaf62b 100644
--- a/crates/hcl-edit/src/expr/object.rs
+++ b/crates/hcl-edit/src/expr/object.rs
@@ -1,5 +1,6 @@
 use crate::expr::Expression;
 use crate::{Decor, Decorate, Decorated, Ident, RawString, Span};
+use std::mem;
 use std::ops::{self, Range};
 use vecmap::map::{MutableKeys, VecMap};
 
@@ -120,7 +121,13 @@ impl Object {
         key: impl Into<ObjectKey>,
         value: impl Into<ObjectValue>,
     ) -> Option<ObjectValue> {
-        self.items.insert(key.into(), value.into())
+        let (key, value) = (key.into(), value.into());
+
+        // `VecMap::insert` would replace the key and its decor along with the value.
+        match self.items.get_mut(&key) {
+            Some(existing) => Some(mem::replace(existing, value)),
+            None => self.items.insert(key, value),
+        }
     }
 
     /// Remove the key-value pair equivalent to `key` and return its value.
-- 
2.43.0

