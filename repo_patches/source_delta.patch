From 5940f0e1857c9a68fc83c7bf39eceee15b93f3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:29 +0000
Subject: [PATCH 01/21] fix: report expressions which divide by zero or
 overflow instead of panicking

---
 src/parsers.rs | 12 ++++++++++-
 src/types.rs   | 54 +++++++++++++++++++++++++++++---------------------
 2 files changed, 42 insertions(+), 24 deletions(-)

diff --git a/src/parsers.rs b/src/parsers.rs
index dc2b7ec..84fb74a 100644
--- a/src/parsers.rs
+++ b/src/parsers.rs
@@ -1082,7 +1082,17 @@ pub(crate) fn expr_value<'s, I>() -> impl Parser<'s, I, ExprValue, Extra<'s>>
 where
     I: BorrowInput<'s, Token = Token<'s>, Span = Span_>,
 {
-    expr().map(ExprValue::from)
+    expr().validate(|expr, e, emitter| {
+        // validate allows us to emit an error for an expression without a value but still consume the input,
+        // but we have to return a dummy value
+        ExprValue::evaluated(expr).unwrap_or_else(|_| {
+            emitter.emit(Rich::custom(
+                e.span(),
+                "expression divides by zero or overflows",
+            ));
+            ExprValue::from(Expr::Value(Decimal::ZERO))
+        })
+    })
 }
 
 /// Match an expression
diff --git a/src/types.rs b/src/types.rs
index 59919e0..208a974 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -2225,12 +2225,27 @@ impl PartialEq<Decimal> for ExprValue {
     }
 }
 
+impl ExprValue {
+    /// Evaluate the `Expr` rounding to the max scale it contains,
+    /// or return the `Expr` itself if it has no value because of division by zero or overflow.
+    pub(crate) fn evaluated(expr: Expr) -> Result<Self, Expr> {
+        match expr.evaluate() {
+            Some((mut value, scale)) => {
+                value.rescale(scale);
+                Ok(Self { value, expr })
+            }
+            None => Err(expr),
+        }
+    }
+}
+
 impl From<Expr> for ExprValue {
     /// Evaluate the `Expr` rounding to the max scale it contains.
+    ///
+    /// # Panics
+    /// Panics if the `Expr` divides by zero or overflows.
     fn from(expr: Expr) -> Self {
-        let (mut value, scale) = expr.evaluate();
-        value.rescale(scale);
-        Self { value, expr }
+        Self::evaluated(expr).expect("expression divides by zero or overflows")
     }
 }
 
@@ -2260,32 +2275,25 @@ pub enum Expr {
 }
 
 impl Expr {
-    fn evaluate(&self) -> (Decimal, u32) {
-        fn evaluate_unary<F>(op: F, e1: &Expr) -> (Decimal, u32)
-        where
-            F: Fn(Decimal) -> Decimal,
-        {
-            let (d1, s1) = e1.evaluate();
-            (op(d1), s1)
-        }
-
-        fn evaluate_binary<F>(op: F, e1: &Expr, e2: &Expr) -> (Decimal, u32)
+    // evaluate, returning `None` on division by zero or overflow
+    fn evaluate(&self) -> Option<(Decimal, u32)> {
+        fn evaluate_binary<F>(op: F, e1: &Expr, e2: &Expr) -> Option<(Decimal, u32)>
         where
-            F: Fn(Decimal, Decimal) -> Decimal,
+            F: Fn(Decimal, Decimal) -> Option<Decimal>,
         {
-            let (d1, s1) = e1.evaluate();
-            let (d2, s2) = e2.evaluate();
-            (op(d1, d2), max(s1, s2))
+            let (d1, s1) = e1.evaluate()?;
+            let (d2, s2) = e2.evaluate()?;
+            op(d1, d2).map(|d| (d, max(s1, s2)))
         }
 
         use Expr::*;
         match self {
-            Value(d) => (*d, d.scale()),
-            Add(e1, e2) => evaluate_binary(std::ops::Add::add, e1, e2),
-            Sub(e1, e2) => evaluate_binary(std::ops::Sub::sub, e1, e2),
-            Mul(e1, e2) => evaluate_binary(std::ops::Mul::mul, e1, e2),
-            Div(e1, e2) => evaluate_binary(std::ops::Div::div, e1, e2),
-            Neg(e1) => evaluate_unary(std::ops::Neg::neg, e1),
+            Value(d) => Some((*d, d.scale())),
+            Add(e1, e2) => evaluate_binary(Decimal::checked_add, e1, e2),
+            Sub(e1, e2) => evaluate_binary(Decimal::checked_sub, e1, e2),
+            Mul(e1, e2) => evaluate_binary(Decimal::checked_mul, e1, e2),
+            Div(e1, e2) => evaluate_binary(Decimal::checked_div, e1, e2),
+            Neg(e1) => e1.evaluate().map(|(d1, s1)| (-d1, s1)),
             Paren(e) => e.evaluate(),
         }
     }
-- 
2.43.0


From 464f6b26f2d8d8697b6787def307460cfbe2c759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:46 +0000
Subject: [PATCH 02/21] fix: lex only ASCII digits in dates, times and numbers

The regex class \d matches every Unicode decimal digit, on which the
conversion of the token to its value panics.
---
 src/lexer.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index 99fae24..89f0b00 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -22,12 +22,12 @@ use unescaper::unescape;
 #[logos(subpattern ignored_whole_line= r"([*!&#?%:].*\r?\n)")] // rolled into end-of-line handling below
 #[logos(subpattern comment_to_eol= r"(;.*)")] // rolled into end-of-line handling below
 #[logos(subpattern currency = r"[A-Z][A-Z0-9'\._-]*|/[0-9'\._-]*[A-Z][A-Z0-9'\._-]*")]
-#[logos(subpattern date = r"\d{4}[\-/]\d{2}[\-/]\d{2}")]
-#[logos(subpattern time = r"\d{1,2}:\d{2}(:\d{2})?")]
+#[logos(subpattern date = r"[0-9]{4}[\-/][0-9]{2}[\-/][0-9]{2}")]
+#[logos(subpattern time = r"[0-9]{1,2}:[0-9]{2}(:[0-9]{2})?")]
 #[logos(subpattern account_type = r"[\p{Lu}\p{Lo}][\p{L}\p{N}\-]*")]
 #[logos(subpattern account_name = r"[\p{Lu}\p{Lo}\p{N}][\p{L}\p{N}\-]*")]
 #[logos(subpattern string_literal = r#""([^\\"]|\\.)*""#)]
-#[logos(subpattern number = r"\d+(,\d{3})*(\.\d+)?")]
+#[logos(subpattern number = r"[0-9]+(,[0-9]{3})*(\.[0-9]+)?")]
 #[logos(subpattern tag_or_link_identifier = r"[A-Za-z0-9\-_/.]+")]
 #[logos(subpattern key = r"[a-z][a-zA-Z0-9\-_]+")]
 pub enum Token<'a> {
@@ -266,8 +266,8 @@ type SpannedToken<'a> = (Token<'a>, Span_);
 #[derive(Logos, Clone, Debug, PartialEq, Eq)]
 #[logos(error = LexerError)]
 #[logos(subpattern currency = r"[A-Z][A-Z0-9'\._-]*|/[0-9'\._-]*[A-Z][A-Z0-9'\._-]*")]
-#[logos(subpattern date = r"\d{4}[\-/]\d{2}[\-/]\d{2}")]
-#[logos(subpattern number = r"\d+(,\d{3})*(\.\d+)?")]
+#[logos(subpattern date = r"[0-9]{4}[\-/][0-9]{2}[\-/][0-9]{2}")]
+#[logos(subpattern number = r"[0-9]+(,[0-9]{3})*(\.[0-9]+)?")]
 enum RecoveryToken {
     #[token("-")]
     Minus,
-- 
2.43.0


From 9139996ca581439d164e0288d934b032b244c70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:05 +0000
Subject: [PATCH 03/21] fix: don't panic validating a currency containing
 multibyte characters

---
 src/types.rs | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/src/types.rs b/src/types.rs
index 208a974..2f0a88a 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -9,7 +9,6 @@ use std::{
     collections::{HashMap, HashSet, hash_map},
     fmt::{self, Display, Formatter},
     hash::{Hash, Hasher},
-    iter::empty,
     mem::swap,
     ops::Deref,
 };
@@ -1691,16 +1690,8 @@ impl<'a> TryFrom<&'a str> for Currency<'a> {
         } else {
             let mut chars = s.chars();
             let first = chars.next().unwrap();
-            let intermediate: Vec<char> = if s.len() > 2 {
-                chars.by_ref().take(s.len() - 2).collect()
-            } else {
-                empty::<char>().collect()
-            };
-            let last = if s.len() > 1 {
-                chars.next().unwrap()
-            } else {
-                first
-            };
+            let last = chars.next_back().unwrap_or(first);
+            let intermediate: Vec<char> = chars.collect();
 
             use CurrencyErrorKind::*;
             if !Currency::is_valid_initial(&first) {
-- 
2.43.0


From 346474023fe01104b3b6b14f255d98bab2d0ae3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:13 +0000
Subject: [PATCH 04/21] fix: don't split a multibyte character when trimming
 trailing whitespace

---
 src/trim.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/trim.rs b/src/trim.rs
index 5922e1a..261a98d 100644
--- a/src/trim.rs
+++ b/src/trim.rs
@@ -3,9 +3,9 @@ use test_case::test_case;
 
 // adjust the span to exclude trailing whitespace
 pub fn trim_trailing_whitespace(content: &str, start: usize, end: usize) -> usize {
-    match &content[start..end].rfind(|c: char| !c.is_whitespace()) {
-        Some(i) => start + *i + 1,
-        None => end,
+    match content[start..end].trim_end() {
+        "" => end,
+        trimmed => start + trimmed.len(),
     }
 }
 
-- 
2.43.0


From a4404942b3b3c7efb68bf9c3e61df342cb07415c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:22 +0000
Subject: [PATCH 05/21] fix: accept input ending in a whitespace-only line
 without a newline

---
 src/lexer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lexer.rs b/src/lexer.rs
index 89f0b00..d12074d 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -591,6 +591,8 @@ where
         }
 
         match first_tok {
+            // trailing whitespace at end of input isn't an indent
+            Some((Token::EolThenIndent, span)) if second_tok.is_none() => Some((Token::Eol, span)),
             Some((Token::EolThenIndent, span)) => {
                 self.pending = [Some((Token::Indent, span.end - 1..span.end)), second_tok];
                 Some((Token::Eol, span))
-- 
2.43.0


From 96a5a0e30c1da6751d13574fa1c2f9330cc75f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:44 +0000
Subject: [PATCH 06/21] fix: index the characters of appended synthetic
 fragments by byte offset

Reports for a synthetic source with several fragments, the earlier ones
containing multibyte characters, were located in the wrong place.
---
 src/sources.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/sources.rs b/src/sources.rs
index 589d251..7081d2a 100644
--- a/src/sources.rs
+++ b/src/sources.rs
@@ -486,12 +486,7 @@ impl<'a> SyntheticSources<'a> {
                 end,
             };
 
-            let original_len = char_indices.len();
-            char_indices.extend(
-                content_fragment
-                    .char_indices()
-                    .map(|(i, _)| i + original_len),
-            );
+            char_indices.extend(content_fragment.char_indices().map(|(i, _)| i + start));
             content.push_str(content_fragment);
 
             span
-- 
2.43.0


From 3a78fddfc885fc58d54d79e9f057dac84f5c0f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:51 +0000
Subject: [PATCH 07/21] fix: give no file name when resolving an inline span
 via SyntheticSources

---
 src/sources.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/sources.rs b/src/sources.rs
index 7081d2a..ee2ad6a 100644
--- a/src/sources.rs
+++ b/src/sources.rs
@@ -556,7 +556,11 @@ impl<'a> SyntheticSources<'a> {
     /// Resolve the span into filename, line number range, and spanned content.
     /// Filename will be present unless the sources were created from an inline string.
     pub fn resolve_span<'s>(&'s self, span: &Span) -> SpannedSource<'s> {
-        resolve_span(*span, &|span| self.get_adjusted_source(span), true)
+        if self.is_synthetic(span) {
+            resolve_span(*span, &|span| self.get_adjusted_source(span), true)
+        } else {
+            self.sources.resolve_span(span)
+        }
     }
 
     pub fn error_source_text<'s, K>(&'s self, error_or_warning: &ErrorOrWarning<K>) -> &'s str
@@ -568,9 +572,12 @@ impl<'a> SyntheticSources<'a> {
         &source_content[byte_span.start..byte_span.end]
     }
 
+    fn is_synthetic(&self, span: &Span) -> bool {
+        span.source >= self.base_id && span.source < self.base_id + self.source_id_strings.len()
+    }
+
     fn get_adjusted_source(&self, span: Span) -> (&str, &str, Span, Span) {
-        if span.source >= self.base_id && span.source < self.base_id + self.source_id_strings.len()
-        {
+        if self.is_synthetic(&span) {
             let source_id_str = self.source_id_strings[span.source - self.base_id].as_str();
 
             let (_, content, content_char_indices) = self.content.get(source_id_str).unwrap();
-- 
2.43.0


From 471c49910eb998d7b0dc74c8e964d8965db7811a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:57 +0000
Subject: [PATCH 08/21] fix: parse sources and report errors in an order
 independent of hashing

Included sources were parsed in HashMap order with the parser options shared
between them, so account type names and the long string limit, and hence the
outcome of a parse, differed from run to run.  Likewise the order of errors
for unpopped tags and metadata and for duplicate tags and links.
---
 src/lib.rs     | 41 ++++++++++++++++++++++++++++-------------
 src/parsers.rs |  5 +++--
 src/sources.rs |  7 ++++++-
 3 files changed, 37 insertions(+), 16 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 46715c4..717021f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -83,6 +83,7 @@
 //!```
 
 use chumsky::prelude::{Input, Parser};
+use itertools::Itertools;
 use lexer::{lex, Token};
 use parsers::{file, ParserState};
 use sort::SortIteratorAdaptor;
@@ -336,22 +337,25 @@ fn fmt_include_context<'s>(
     meta_key_values: &HashMap<Spanned<Key<'s>>, Vec<(Span, Spanned<MetaValue<'s>>)>>,
 ) -> String {
     let tags_s = itertools::intersperse(
-        tags.keys().map(|tag| tag.item().to_string()),
+        tags.keys().map(|tag| tag.item().to_string()).sorted(),
         " ".to_string(),
     )
     .collect::<String>();
     let meta_s = itertools::intersperse(
-        meta_key_values.iter().map(|(k, v)| {
-            format!(
-                "{}: [{}]",
-                k.item(),
-                itertools::intersperse(
-                    v.iter().map(|(_, v)| v.item().to_string()),
-                    " ".to_string()
+        meta_key_values
+            .iter()
+            .map(|(k, v)| {
+                format!(
+                    "{}: [{}]",
+                    k.item(),
+                    itertools::intersperse(
+                        v.iter().map(|(_, v)| v.item().to_string()),
+                        " ".to_string()
+                    )
+                    .collect::<String>()
                 )
-                .collect::<String>()
-            )
-        }),
+            })
+            .sorted(),
         " ".to_string(),
     )
     .collect::<String>();
@@ -402,7 +406,14 @@ impl<'s> PragmaProcessor<'s> {
         let mut errors = self.errors;
         let warnings = self.warnings;
 
-        for (key, _value) in self.meta_key_values {
+        // report in order of occurrence
+        let order = |span: &Span| (span.source, span.start);
+
+        for (key, _value) in self
+            .meta_key_values
+            .into_iter()
+            .sorted_by_key(|(key, _)| order(&key.span))
+        {
             let e = Error::new(
                 "invalid pushmeta",
                 "missing corresponding popmeta",
@@ -411,7 +422,11 @@ impl<'s> PragmaProcessor<'s> {
             errors.push(e);
         }
 
-        for (tag, others) in self.tags {
+        for (tag, others) in self
+            .tags
+            .into_iter()
+            .sorted_by_key(|(tag, _)| order(&tag.span))
+        {
             let e = Error::new("invalid pushtag", "missing corresponding poptag", tag.span);
             errors.push(e);
             for other in others {
diff --git a/src/parsers.rs b/src/parsers.rs
index 84fb74a..d607d93 100644
--- a/src/parsers.rs
+++ b/src/parsers.rs
@@ -11,6 +11,7 @@ use chumsky::{
     },
 };
 use either::Either;
+use itertools::Itertools;
 use rust_decimal::Decimal;
 use std::{
     collections::{HashMap, HashSet, hash_map},
@@ -1246,7 +1247,7 @@ impl<'a> Metadata<'a> {
     where
         E: Emit<ParserError<'a>>,
     {
-        for tag in tags {
+        for tag in tags.iter().sorted_by_key(|tag| tag.span.start) {
             match self.tags.get(tag) {
                 None => {
                     self.tags.insert(*tag);
@@ -1283,7 +1284,7 @@ impl<'a> Metadata<'a> {
     where
         E: Emit<ParserError<'a>>,
     {
-        for link in links {
+        for link in links.iter().sorted_by_key(|link| link.span.start) {
             match self.links.get(link) {
                 None => {
                     self.links.insert(*link);
diff --git a/src/sources.rs b/src/sources.rs
index ee2ad6a..205fc24 100644
--- a/src/sources.rs
+++ b/src/sources.rs
@@ -349,8 +349,9 @@ impl BeancountSources {
         .collect()
     }
 
+    /// Content in order of source id, that is, in the order of being read
     pub(crate) fn content_iter(&self) -> impl Iterator<Item = (SourceId, Option<&Path>, &str)> {
-        once((
+        let mut content = once((
             self.root_source_id,
             self.root_path.as_deref(),
             self.root_content.as_str(),
@@ -366,6 +367,10 @@ impl BeancountSources {
                     }
                 }),
         )
+        .collect::<Vec<_>>();
+
+        content.sort_by_key(|(source_id, _, _)| Into::<usize>::into(*source_id));
+        content.into_iter()
     }
 
     /// Number of real sources, excluding synthetic ones
-- 
2.43.0


From 85facd29a052a27a50c85fdb6e9a28e611fecccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:05 +0000
Subject: [PATCH 09/21] fix: don't overflow the stack on a long run of pragmas

---
 src/lib.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 717021f..7a6d2dd 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -89,6 +89,7 @@ use parsers::{file, ParserState};
 use sort::SortIteratorAdaptor;
 use std::{
     collections::{HashMap, VecDeque},
+    ops::ControlFlow,
     path::{Path, PathBuf},
 };
 
@@ -447,6 +448,17 @@ impl<'s> Iterator for PragmaProcessor<'s> {
     type Item = Spanned<Directive<'s>>;
 
     fn next(&mut self) -> Option<Self::Item> {
+        loop {
+            if let ControlFlow::Break(next) = self.step() {
+                return next;
+            }
+        }
+    }
+}
+
+impl<'s> PragmaProcessor<'s> {
+    // process a single declaration, breaking on a directive or the end of all declarations
+    fn step(&mut self) -> ControlFlow<Option<Spanned<Directive<'s>>>> {
         match self.current_declarations.pop_front() {
             Some(declaration) => {
                 match declaration.item {
@@ -454,7 +466,7 @@ impl<'s> Iterator for PragmaProcessor<'s> {
                         directive.metadata.augment_tags(&self.tags);
                         directive.metadata.augment_key_values(&self.meta_key_values);
 
-                        Some(spanned(directive, declaration.span))
+                        ControlFlow::Break(Some(spanned(directive, declaration.span)))
                     }
 
                     Declaration::Pragma(pragma) => {
@@ -666,7 +678,7 @@ impl<'s> Iterator for PragmaProcessor<'s> {
                         }
 
                         // having silently consumed a pragma, go on to the next declaration
-                        self.next()
+                        ControlFlow::Continue(())
                     }
                 }
             }
@@ -674,9 +686,9 @@ impl<'s> Iterator for PragmaProcessor<'s> {
                 Some((path, declarations)) => {
                     self.current_path = path;
                     self.current_declarations = declarations;
-                    self.next()
+                    ControlFlow::Continue(())
                 }
-                None => None,
+                None => ControlFlow::Break(None),
             },
         }
     }
-- 
2.43.0


From 34792cdb3b2d28d912d67a15778cd0f81af8fd24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:38 +0000
Subject: [PATCH 10/21] fix: recognise an included file however the paths by
 which it is included are spelled

When a nested include is processed before, but was read after, an include
of the same file by another path, it was reported as a duplicate include.
---
 src/lib.rs     | 11 ++++++++++-
 src/sources.rs | 41 ++++++++++++++++++++++++++++-------------
 2 files changed, 38 insertions(+), 14 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 7a6d2dd..b078ae9 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -231,6 +231,7 @@ impl<'s> BeancountParser<'s> {
             parsed_sources,
             self.sources.included_globs(),
             self.sources.error_paths(),
+            self.sources.duplicate_paths(),
             options,
         );
 
@@ -315,6 +316,7 @@ struct PragmaProcessor<'s> {
     remaining: HashMap<Option<PathBuf>, VecDeque<Spanned<Declaration<'s>>>>,
     included_globs: &'s HashMap<PathBuf, IncludedGlob>,
     error_paths: HashMap<Option<PathBuf>, String>,
+    duplicate_paths: HashMap<&'s Path, &'s Path>,
     include_by_canonical_path: HashMap<PathBuf, IncludeContext<'s>>,
     // tags and meta key/values for pragma push/pop
     tags: HashMap<Spanned<Tag<'s>>, Vec<Spanned<Tag<'s>>>>,
@@ -369,6 +371,7 @@ impl<'s> PragmaProcessor<'s> {
         parsed_sources: HashMap<Option<&Path>, Vec<Spanned<Declaration<'s>>>>,
         included_globs: &'s HashMap<PathBuf, IncludedGlob>,
         error_paths: HashMap<Option<&Path>, String>,
+        duplicate_paths: HashMap<&'s Path, &'s Path>,
         options: Options<'s>,
     ) -> Self {
         let mut remaining = parsed_sources
@@ -392,6 +395,7 @@ impl<'s> PragmaProcessor<'s> {
             remaining,
             included_globs,
             error_paths,
+            duplicate_paths,
             include_by_canonical_path: HashMap::default(),
             tags: HashMap::new(),
             meta_key_values: HashMap::new(),
@@ -562,7 +566,12 @@ impl<'s> PragmaProcessor<'s> {
                                         }
 
                                         for included in paths {
-                                            let included = Some(included.clone());
+                                            // a file is known by the path by which it was first read
+                                            let included = self
+                                                .duplicate_paths
+                                                .get(included.as_path())
+                                                .map_or(included.clone(), |p| p.to_path_buf());
+                                            let included = Some(included);
 
                                             match self.remaining.remove_entry(&included) {
                                                 Some((included_path, included_declarations)) => {
diff --git a/src/sources.rs b/src/sources.rs
index 205fc24..14fdec8 100644
--- a/src/sources.rs
+++ b/src/sources.rs
@@ -2,7 +2,7 @@ use ariadne::{Color, Label};
 use glob::{self, glob_with};
 use lazy_format::lazy_format;
 use std::{
-    collections::{HashMap, HashSet, VecDeque},
+    collections::{HashMap, VecDeque},
     ffi::OsStr,
     fmt::{self, Formatter},
     fs::File,
@@ -45,7 +45,7 @@ pub struct BeancountSources {
 enum IncludedSource {
     Content(SourceId, String, Vec<usize>), // the content and its char indices
     Error(String),
-    Duplicate,
+    Duplicate(PathBuf), // the path by which the same file was first read
 }
 
 impl BeancountSources {
@@ -70,13 +70,13 @@ impl BeancountSources {
         let mut included_globs = HashMap::new();
         let mut included_content: HashMap<PathBuf, IncludedSource> = HashMap::new();
 
-        // for duplicate detection
-        let mut canonical_paths =
-            if let Some(canonical_root) = root_path.as_ref().and_then(|p| p.canonicalize().ok()) {
-                HashSet::from([canonical_root])
-            } else {
-                HashSet::default()
-            };
+        // for duplicate detection, the path by which each file was first read
+        let mut canonical_paths = HashMap::new();
+        if let Some(root_path) = root_path.as_ref() {
+            if let Ok(canonical_root) = root_path.canonicalize() {
+                canonical_paths.insert(canonical_root, root_path.clone());
+            }
+        }
 
         while !pending_includes.is_empty() {
             let included = pending_includes.pop_front().unwrap();
@@ -108,13 +108,14 @@ impl BeancountSources {
                                 glob_expansions.push(globbed_include.clone());
 
                                 if let Ok(canonical_path) = globbed_include.canonicalize() {
-                                    if canonical_paths.contains(&canonical_path) {
+                                    if let Some(first_path) = canonical_paths.get(&canonical_path) {
                                         // don't overwrite existing content
                                         included_content
                                             .entry(globbed_include)
-                                            .or_insert(IncludedSource::Duplicate);
+                                            .or_insert(IncludedSource::Duplicate(first_path.clone()));
                                     } else {
-                                        canonical_paths.insert(canonical_path);
+                                        canonical_paths
+                                            .insert(canonical_path, globbed_include.clone());
 
                                         let source_id = SourceId::from(source_id_strings.len());
                                         source_id_strings
@@ -386,6 +387,20 @@ impl BeancountSources {
         &self.included_globs
     }
 
+    /// Paths of files which were already read by another path, with that first path
+    pub(crate) fn duplicate_paths(&self) -> HashMap<&Path, &Path> {
+        self.included_content
+            .iter()
+            .filter_map(|(pathbuf, included_source)| {
+                if let IncludedSource::Duplicate(first_path) = included_source {
+                    Some((pathbuf.as_path(), first_path.as_path()))
+                } else {
+                    None
+                }
+            })
+            .collect::<HashMap<_, _>>()
+    }
+
     pub(crate) fn error_paths(&self) -> HashMap<Option<&Path>, String> {
         self.included_content
             .iter()
@@ -441,7 +456,7 @@ impl std::fmt::Debug for BeancountSources {
                     content.len()
                 )?,
                 IncludedSource::Error(e) => writeln!(f, "    {:?} err {},", path, e)?,
-                IncludedSource::Duplicate => writeln!(f, "    {:?} duplicate include", path)?,
+                IncludedSource::Duplicate(_) => writeln!(f, "    {:?} duplicate include", path)?,
             }
         }
 
-- 
2.43.0


From 070608a6cee204e8c735a2b9c401e5bed2558ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:06 +0000
Subject: [PATCH 11/21] fix: process files included by a glob in order

---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index b078ae9..65b58db 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -565,7 +565,8 @@ impl<'s> PragmaProcessor<'s> {
                                             self.errors.push(e)
                                         }
 
-                                        for included in paths {
+                                        // in reverse, so that the first is on top of the stack
+                                        for included in paths.iter().rev() {
                                             // a file is known by the path by which it was first read
                                             let included = self
                                                 .duplicate_paths
-- 
2.43.0


From d6fd7100f5a07deed213b6cb5d53e1da7bb2674a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:42 +0000
Subject: [PATCH 12/21] fix: don't panic reporting an error in a file whose
 name is not UTF-8

---
 src/sources.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/sources.rs b/src/sources.rs
index 14fdec8..19ecb34 100644
--- a/src/sources.rs
+++ b/src/sources.rs
@@ -310,8 +310,14 @@ impl BeancountSources {
         let empty_char_indices = Vec::default();
         let (source_content, source_content_char_indices) = if source_id == self.root_source_id {
             (self.root_content.as_str(), &self.root_content_char_indices)
-        } else if let IncludedSource::Content(_, content, content_char_indices) =
-            self.included_content.get(Path::new(source_id_str)).unwrap()
+        } else if let Some((content, content_char_indices)) =
+            // find by source id, because the string is lossy for a path which is not UTF-8
+            self.included_content.values().find_map(|s| match s {
+                IncludedSource::Content(id, content, indices) if *id == source_id => {
+                    Some((content, indices))
+                }
+                _ => None,
+            })
         {
             (content.as_str(), content_char_indices)
         } else {
-- 
2.43.0


From 1a56e25fda53d0089f9423517cc027851d451cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:51 +0000
Subject: [PATCH 13/21] fix: find includes of a file in a directory whose name
 contains glob metacharacters

---
 src/sources.rs | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/src/sources.rs b/src/sources.rs
index 19ecb34..8185c73 100644
--- a/src/sources.rs
+++ b/src/sources.rs
@@ -64,7 +64,12 @@ impl BeancountSources {
 
         let mut pending_includes = get_includes(&root_content, root_source_id)
             .into_iter()
-            .map(|included| resolve_included_path(root_path.as_ref(), included.as_ref()))
+            .map(|included| {
+                (
+                    resolve_included_path(root_path.as_ref(), included.as_ref()),
+                    included_glob_pattern(root_path.as_ref(), included.as_ref()),
+                )
+            })
             .collect::<VecDeque<_>>();
 
         let mut included_globs = HashMap::new();
@@ -79,12 +84,10 @@ impl BeancountSources {
         }
 
         while !pending_includes.is_empty() {
-            let included = pending_includes.pop_front().unwrap();
-            let included_str = included.to_string_lossy();
-            let included_str = included_str.as_ref();
+            let (included, included_pattern) = pending_includes.pop_front().unwrap();
 
             match glob_with(
-                included_str,
+                &included_pattern,
                 glob::MatchOptions {
                     case_sensitive: true,
                     require_literal_separator: true,
@@ -154,9 +157,15 @@ impl BeancountSources {
                                             let mut includes = get_includes(content, source_id)
                                                 .into_iter()
                                                 .map(|included_path| {
-                                                    resolve_included_path(
-                                                        Some(&globbed_include),
-                                                        included_path.as_ref(),
+                                                    (
+                                                        resolve_included_path(
+                                                            Some(&globbed_include),
+                                                            included_path.as_ref(),
+                                                        ),
+                                                        included_glob_pattern(
+                                                            Some(&globbed_include),
+                                                            included_path.as_ref(),
+                                                        ),
                                                     )
                                                 })
                                                 .collect::<VecDeque<_>>();
@@ -630,6 +639,16 @@ pub(crate) fn resolve_included_path(
     }
 }
 
+// get pattern for included glob relative to including path, whose directory is not itself a pattern
+fn included_glob_pattern(including_path: Option<&PathBuf>, included_path: &Path) -> String {
+    match including_path.and_then(|p| path_dir(p.as_ref())) {
+        Some(p) => Path::new(&glob::Pattern::escape(&p.to_string_lossy())).join(included_path),
+        None => included_path.to_path_buf(),
+    }
+    .to_string_lossy()
+    .into()
+}
+
 // get directory for a path if any
 fn path_dir(p: &Path) -> Option<&Path> {
     p.parent().and_then(|p| {
-- 
2.43.0


From c04e88b432e06e2ec76e34084b0e42f22d994dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:42 +0000
Subject: [PATCH 14/21] fix: display a total price annotation in Beancount
 syntax

---
 src/types.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/types.rs b/src/types.rs
index 2f0a88a..56c4504 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -1784,7 +1784,15 @@ impl Display for Posting<'_> {
         simple_format(f, &self.amount, Some(" "))?;
         simple_format(f, self.currency, Some(" "))?;
         simple_format(f, &self.cost_spec, Some(" "))?;
-        simple_format(f, &self.price_annotation, Some(" @ "))?;
+        simple_format(
+            f,
+            &self.price_annotation,
+            Some(if self.price_annotation.as_ref().is_some_and(|p| p.is_total()) {
+                " @@ "
+            } else {
+                " @ "
+            }),
+        )?;
 
         self.metadata.fmt(f)
     }
@@ -2357,7 +2365,7 @@ impl Display for ScopedExprValue {
 
         match self {
             PerUnit(e) => write!(format, "{}", e),
-            Total(e) => write!(format, "# {}", e),
+            Total(e) => write!(format, "{}", e), // scope is apparent from the price annotation
         }
     }
 }
@@ -2736,6 +2744,15 @@ pub enum PriceSpec<'a> {
     CurrencyAmount(ScopedExprValue, Currency<'a>),
 }
 
+impl PriceSpec<'_> {
+    fn is_total(&self) -> bool {
+        use PriceSpec::*;
+        use ScopedExprValue::*;
+
+        matches!(self, BareAmount(Total(_)) | CurrencyAmount(Total(_), _))
+    }
+}
+
 impl Display for PriceSpec<'_> {
     fn fmt(&self, format: &mut Formatter<'_>) -> fmt::Result {
         use self::PriceSpec::*;
-- 
2.43.0


From 102717cdbac24731b6050a6b709a6352e19022b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:51 +0000
Subject: [PATCH 15/21] fix: display balance tolerance in Beancount syntax,
 before the currency

---
 src/types.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/types.rs b/src/types.rs
index 56c4504..8a185b7 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -2431,7 +2431,13 @@ impl<'a> AmountWithTolerance<'a> {
 impl Display for AmountWithTolerance<'_> {
     fn fmt(&self, format: &mut Formatter<'_>) -> fmt::Result {
         if let Some(tolerance) = self.tolerance {
-            write!(format, "{} ~ {}", &self.amount, tolerance)
+            write!(
+                format,
+                "{} ~ {} {}",
+                self.amount.number(),
+                tolerance,
+                self.amount.currency()
+            )
         } else {
             write!(format, "{}", &self.amount)
         }
-- 
2.43.0


From 2e397e9abad676037789853742f9aa287a2d6425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:00 +0000
Subject: [PATCH 16/21] fix: escape quotes and backslashes when displaying
 strings

---
 src/format.rs |  3 ++-
 src/types.rs  | 40 ++++++++++++++++++++++++++++++----------
 2 files changed, 32 insertions(+), 11 deletions(-)

diff --git a/src/format.rs b/src/format.rs
index a911537..24c089f 100644
--- a/src/format.rs
+++ b/src/format.rs
@@ -59,11 +59,12 @@ where
     lazy_format!("'{s}'")
 }
 
-/// Format in double quotes.
+/// Format in double quotes, with escapes as necessary.
 pub fn double_quoted<S>(s: S) -> impl Display
 where
     S: Display,
 {
+    let s = s.to_string().replace('\\', r"\\").replace('"', r#"\""#);
     lazy_format!("\"{s}\"")
 }
 
diff --git a/src/types.rs b/src/types.rs
index 8a185b7..6d312df 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -1049,7 +1049,13 @@ pub struct Document<'a> {
 
 impl<'a> Document<'a> {
     fn fmt(&self, f: &mut Formatter<'_>, date: Date, metadata: &Metadata) -> fmt::Result {
-        write!(f, "{} document {} \"{}\"", date, self.account, self.path)?;
+        write!(
+            f,
+            "{} document {} {}",
+            date,
+            self.account,
+            double_quoted(self.path)
+        )?;
         // we prefer to show tags and links inline rather then line by line in metadata
         metadata.fmt_tags_links_inline(f)?;
         metadata.fmt_keys_values(f)
@@ -1076,7 +1082,13 @@ pub struct Note<'a> {
 
 impl<'a> Note<'a> {
     fn fmt(&self, f: &mut Formatter<'_>, date: Date, metadata: &Metadata) -> fmt::Result {
-        write!(f, "{} note {} \"{}\"", date, self.account, self.comment)?;
+        write!(
+            f,
+            "{} note {} {}",
+            date,
+            self.account,
+            double_quoted(self.comment)
+        )?;
         // we prefer to show tags and links inline rather then line by line in metadata
         metadata.fmt_tags_links_inline(f)?;
         metadata.fmt_keys_values(f)
@@ -1104,8 +1116,10 @@ impl<'a> Event<'a> {
     fn fmt(&self, f: &mut Formatter<'_>, date: Date, metadata: &Metadata) -> fmt::Result {
         write!(
             f,
-            "{} event \"{}\" \"{}\"",
-            date, self.event_type, self.description
+            "{} event {} {}",
+            date,
+            double_quoted(self.event_type),
+            double_quoted(self.description)
         )?;
         // we prefer to show tags and links inline rather then line by line in metadata
         metadata.fmt_tags_links_inline(f)?;
@@ -1132,7 +1146,13 @@ pub struct Query<'a> {
 
 impl<'a> Query<'a> {
     fn fmt(&self, f: &mut Formatter<'_>, date: Date, metadata: &Metadata) -> fmt::Result {
-        write!(f, "{} query \"{}\" \"{}\"", date, self.name, self.content)?;
+        write!(
+            f,
+            "{} query {} {}",
+            date,
+            double_quoted(self.name),
+            double_quoted(self.content)
+        )?;
         // we prefer to show tags and links inline rather then line by line in metadata
         metadata.fmt_tags_links_inline(f)?;
         metadata.fmt_keys_values(f)
@@ -1158,7 +1178,7 @@ pub struct Custom<'a> {
 
 impl<'a> Custom<'a> {
     fn fmt(&self, f: &mut Formatter<'_>, date: Date, metadata: &Metadata) -> fmt::Result {
-        write!(f, "{} custom \"{}\"", date, self.type_)?;
+        write!(f, "{} custom {}", date, double_quoted(self.type_))?;
         format(f, &self.values, plain, SPACE, Some(SPACE))?;
         // show tags and links on separate lines rather than inline to avoid ambiguity with custom values
         metadata.fmt_tags_links_on_separate_lines(f)?;
@@ -1197,9 +1217,9 @@ impl<'a> Plugin<'a> {
 
 impl Display for Plugin<'_> {
     fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
-        write!(f, "plugin \"{}\"", self.module_name)?;
+        write!(f, "plugin {}", double_quoted(self.module_name))?;
         if let Some(config) = &self.config {
-            write!(f, " \"{}\"", config)?;
+            write!(f, " {}", double_quoted(config))?;
         }
         writeln!(f)
     }
@@ -1932,7 +1952,7 @@ impl Display for SimpleValue<'_> {
         use SimpleValue::*;
 
         match self {
-            String(x) => write!(f, r#""{}""#, x),
+            String(x) => double_quoted(x).fmt(f),
             Currency(x) => x.fmt(f),
             Account(x) => x.fmt(f),
             Tag(x) => x.fmt(f),
@@ -2571,7 +2591,7 @@ impl Display for CostSpec<'_> {
         }
 
         if let Some(label) = &self.label {
-            write!(f, "{}\"{}\"", sep, label)?;
+            write!(f, "{}{}", sep, double_quoted(label))?;
             sep = comma_space;
         }
 
-- 
2.43.0


From fd6bb1105760b28f3c5e77dfb453f3f5ce0ff87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:46 +0000
Subject: [PATCH 17/21] fix: locate an absent metadata value after its colon

When whitespace or a comment followed the colon, the span of the absent value ended before it
started, so it resolved to nothing and was reported at the start of the file.
---
 src/parsers.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/parsers.rs b/src/parsers.rs
index d607d93..624116e 100644
--- a/src/parsers.rs
+++ b/src/parsers.rs
@@ -774,10 +774,16 @@ where
 {
     key()
         .map_with(spanned_extra)
-        .then(just(Token::Colon).ignore_then(meta_value().or_not().map_with(spanned_extra)))
-        .map(|(key, value)| MetaKeyValue {
+        .then(just(Token::Colon).map_with(spanned_extra))
+        .then(meta_value().map_with(spanned_extra).or_not())
+        .map(|((key, colon), value)| MetaKeyValue {
             key,
-            value: value.map_into(|value| value.unwrap_or(MetaValue::Simple(SimpleValue::Null))),
+            value: value.unwrap_or_else(|| {
+                // an absent value is located directly after the colon
+                let mut span = *colon.span();
+                span.start = span.end;
+                spanned(MetaValue::Simple(SimpleValue::Null), span)
+            }),
         })
 }
 
-- 
2.43.0


From 9118f82f0148dfc459958aaa35b8fb920716845c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:54 +0000
Subject: [PATCH 18/21] fix: keep the declarations before a malformed one at
 the end of a file

---
 src/parsers.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/parsers.rs b/src/parsers.rs
index 624116e..29a76cc 100644
--- a/src/parsers.rs
+++ b/src/parsers.rs
@@ -7,7 +7,7 @@ use chumsky::{
     input::BorrowInput,
     prelude::{
         IterParser, Parser, Rich, any_ref, choice, end, extra, group, just, recursive, select_ref,
-        skip_then_retry_until,
+        skip_then_retry_until, via_parser,
     },
 };
 use either::Either;
@@ -45,7 +45,14 @@ pub(crate) fn file<'s, I>(
 where
     I: BorrowInput<'s, Token = Token<'s>, Span = Span_>,
 {
-    declaration(source_path).repeated().collect::<Vec<_>>()
+    declaration(source_path)
+        .repeated()
+        .collect::<Vec<_>>()
+        // when there is nothing to resume from after a malformed declaration,
+        // keep the declarations which preceded it
+        .then_ignore(
+            end().recover_with(via_parser(any_ref().repeated().at_least(1).ignored())),
+        )
 }
 
 /// Matches a [Declaration], and returns with Span.
-- 
2.43.0


From 45ad68efb287fbe1715ca25ae436396ba0a5a2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:10 +0000
Subject: [PATCH 19/21] fix: report an include of a symbolic link to nowhere as
 unreadable

---
 src/sources.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/sources.rs b/src/sources.rs
index 8185c73..3e5afad 100644
--- a/src/sources.rs
+++ b/src/sources.rs
@@ -110,7 +110,14 @@ impl BeancountSources {
                             Ok(globbed_include) => {
                                 glob_expansions.push(globbed_include.clone());
 
-                                if let Ok(canonical_path) = globbed_include.canonicalize() {
+                                let canonical_path = globbed_include.canonicalize();
+                                if let Err(e) = &canonical_path {
+                                    // such as a symbolic link to nowhere
+                                    let e = format!("{}: {}", globbed_include.to_string_lossy(), e);
+                                    included_content
+                                        .insert(globbed_include.clone(), IncludedSource::Error(e));
+                                }
+                                if let Ok(canonical_path) = canonical_path {
                                     if let Some(first_path) = canonical_paths.get(&canonical_path) {
                                         // don't overwrite existing content
                                         included_content
-- 
2.43.0


From f2a49701119fe8bd25951827e8e59a7a814ecf61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:26:05 +0000
Subject: [PATCH 20/21] fix: report a span from its own source when sources
 share a name

---
 src/sources.rs | 66 +++++++++++++++++++++++++++++++++++---------------
 1 file changed, 46 insertions(+), 20 deletions(-)

diff --git a/src/sources.rs b/src/sources.rs
index 3e5afad..2440c11 100644
--- a/src/sources.rs
+++ b/src/sources.rs
@@ -4,7 +4,7 @@ use lazy_format::lazy_format;
 use std::{
     collections::{HashMap, VecDeque},
     ffi::OsStr,
-    fmt::{self, Formatter},
+    fmt::{self, Display, Formatter},
     fs::File,
     io::{self, Read, Write},
     iter::once,
@@ -350,9 +350,16 @@ impl BeancountSources {
         self.source_id_strings[Into::<usize>::into(source_id)].as_str()
     }
 
-    fn sources(&self) -> Vec<(String, &str)> {
+    fn report_source(&self, source_id: SourceId) -> ReportSource {
+        ReportSource {
+            id: source_id.into(),
+            name: self.source_id_string(source_id).to_string(),
+        }
+    }
+
+    fn sources(&self) -> Vec<(ReportSource, &str)> {
         once((
-            self.source_id_string(self.root_source_id).to_string(),
+            self.report_source(self.root_source_id),
             self.root_content.as_str(),
         ))
         .chain(
@@ -360,10 +367,7 @@ impl BeancountSources {
                 .iter()
                 .filter_map(|(_, included_source)| {
                     if let IncludedSource::Content(source_id, content, _) = included_source {
-                        Some((
-                            self.source_id_string(*source_id).to_string(),
-                            content.as_str(),
-                        ))
+                        Some((self.report_source(*source_id), content.as_str()))
                     } else {
                         None
                     }
@@ -506,12 +510,18 @@ impl<'a> SyntheticSources<'a> {
 }
 
 impl<'a> SyntheticSources<'a> {
-    fn sources(&self) -> Vec<(String, &str)> {
+    fn sources(&self) -> Vec<(ReportSource, &str)> {
         let mut sources = self.sources.sources();
         sources.extend(
-            self.content.iter().map(|(source_id_str, (_, content, _))| {
-                (source_id_str.to_string(), content.as_str())
-            }),
+            self.content
+                .iter()
+                .map(|(source_id_str, (source_id, content, _))| {
+                    let source = ReportSource {
+                        id: (*source_id).into(),
+                        name: source_id_str.to_string(),
+                    };
+                    (source, content.as_str())
+                }),
         );
         sources
     }
@@ -679,11 +689,24 @@ where
     Ok(file_content)
 }
 
+/// A source in a report, shown by its name, which other sources may share
+#[derive(PartialEq, Eq, Hash, Clone, Debug)]
+struct ReportSource {
+    id: usize,
+    name: String,
+}
+
+impl Display for ReportSource {
+    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
+        f.write_str(&self.name)
+    }
+}
+
 fn write_report<'a, W, K, R, F>(
     w: &mut W,
     report: &R,
     get_adjusted_source: &F,
-    sources: Vec<(String, &str)>,
+    sources: Vec<(ReportSource, &str)>,
 ) -> io::Result<()>
 where
     W: Write,
@@ -691,8 +714,7 @@ where
     R: Report,
     F: Fn(Span) -> (&'a str, &'a str, Span, Span),
 {
-    let (src_id, span) =
-        source_id_string_and_adjusted_rune_span(report.span(), get_adjusted_source);
+    let (src_id, span) = report_source_and_adjusted_rune_span(report.span(), get_adjusted_source);
     let color = K::color();
     let report_kind = K::report_kind();
 
@@ -704,13 +726,13 @@ where
                 .with_color(color),
         ))
         .with_labels(report.contexts().map(|(label, span)| {
-            let (src_id, span) = source_id_string_and_adjusted_rune_span(span, get_adjusted_source);
+            let (src_id, span) = report_source_and_adjusted_rune_span(span, get_adjusted_source);
             Label::new((src_id, (span.start..span.end)))
                 .with_message(lazy_format!("in this {}", label))
                 .with_color(Color::Yellow)
         }))
         .with_labels(report.related().map(|(label, span)| {
-            let (src_id, span) = source_id_string_and_adjusted_rune_span(span, get_adjusted_source);
+            let (src_id, span) = report_source_and_adjusted_rune_span(span, get_adjusted_source);
             Label::new((src_id, (span.start..span.end)))
                 .with_message(lazy_format!("{}", label))
                 .with_color(Color::Yellow)
@@ -755,15 +777,19 @@ where
     }
 }
 
-fn source_id_string_and_adjusted_rune_span<'a, F>(
+fn report_source_and_adjusted_rune_span<'a, F>(
     span: Span,
     get_adjusted_source: &F,
-) -> (String, Span)
+) -> (ReportSource, Span)
 where
     F: Fn(Span) -> (&'a str, &'a str, Span, Span),
 {
-    let (_, source_id, _byte_span, rune_span) = get_adjusted_source(span);
-    (source_id.to_string(), rune_span)
+    let (_, source_id_str, _byte_span, rune_span) = get_adjusted_source(span);
+    let source = ReportSource {
+        id: rune_span.source,
+        name: source_id_str.to_string(),
+    };
+    (source, rune_span)
 }
 
 fn trimmed_span(source: &str, span: Span) -> Span {
-- 
2.43.0


From 7067017e4ad29e9f09137cd6c706ea2027b36ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:55 +0000
Subject: [PATCH 21/21] fix: a parse does not depend on what became of the
 files since they were read

Whether a file that is included again was included in the same context was
looked up by its canonical path, which was asked of the file system during the
parse. If a file was removed or its directory renamed after the sources were
read, or the current directory changed and the root was given by a relative
path, a harmless second include became a 'duplicate include' error.
Files are known by the path by which they were first read, so look up that.
---
 src/lib.rs | 25 ++++++++-----------------
 1 file changed, 8 insertions(+), 17 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 65b58db..df34c10 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -317,7 +317,7 @@ struct PragmaProcessor<'s> {
     included_globs: &'s HashMap<PathBuf, IncludedGlob>,
     error_paths: HashMap<Option<PathBuf>, String>,
     duplicate_paths: HashMap<&'s Path, &'s Path>,
-    include_by_canonical_path: HashMap<PathBuf, IncludeContext<'s>>,
+    include_by_path: HashMap<PathBuf, IncludeContext<'s>>,
     // tags and meta key/values for pragma push/pop
     tags: HashMap<Spanned<Tag<'s>>, Vec<Spanned<Tag<'s>>>>,
     meta_key_values: HashMap<Spanned<Key<'s>>, Vec<(Span, Spanned<MetaValue<'s>>)>>,
@@ -396,7 +396,7 @@ impl<'s> PragmaProcessor<'s> {
             included_globs,
             error_paths,
             duplicate_paths,
-            include_by_canonical_path: HashMap::default(),
+            include_by_path: HashMap::default(),
             tags: HashMap::new(),
             meta_key_values: HashMap::new(),
             options,
@@ -590,14 +590,9 @@ impl<'s> PragmaProcessor<'s> {
                                                     ));
 
                                                     // record the span in case of a duplicate include error later
-                                                    if let Ok(canonical_path) = self
-                                                        .current_path
-                                                        .as_ref()
-                                                        .unwrap()
-                                                        .canonicalize()
-                                                    {
-                                                        self.include_by_canonical_path.insert(
-                                                            canonical_path,
+                                                    if let Some(path) = included {
+                                                        self.include_by_path.insert(
+                                                            path,
                                                             IncludeContext {
                                                                 tags: self.tags.clone(),
                                                                 meta_key_values: self
@@ -634,13 +629,9 @@ impl<'s> PragmaProcessor<'s> {
                                                         );
 
                                                         // relate the error to the first include if we can
-                                                        let e = if let Some(canonical_path) =
-                                                            included.and_then(|included| {
-                                                                included.canonicalize().ok()
-                                                            }) {
-                                                            if let Some(include_context) = self
-                                                                .include_by_canonical_path
-                                                                .get(&canonical_path)
+                                                        let e = if let Some(path) = included {
+                                                            if let Some(include_context) =
+                                                                self.include_by_path.get(&path)
                                                             {
                                                                 if include_context.tags == self.tags
                                                                     && include_context
-- 
2.43.0

