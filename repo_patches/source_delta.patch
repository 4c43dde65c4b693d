From 9b0dade19a2fcda3f9c19c8a8bf6505584cc8d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:42 +0000
Subject: [PATCH 01/27] fix: report an empty tree for files that only contain
 comments

Such a file used to reach the combiner without any tree and panicked.
---
 crates/syntax/src/splitter.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/crates/syntax/src/splitter.rs b/crates/syntax/src/splitter.rs
index 1c89309..5f983e3 100644
--- a/crates/syntax/src/splitter.rs
+++ b/crates/syntax/src/splitter.rs
@@ -5,13 +5,15 @@ pub(crate) const TREES_SEPARATOR: &str = "\n\n";
 /// Splits the input text into distinct trees, delimited by two consecutive
 /// newlines.
 pub(crate) fn split_trees(text: &str) -> Box<dyn Iterator<Item = &str> + '_> {
-    if text.trim().is_empty() {
-        return Box::new(std::iter::once(""));
-    }
-
     let trees = text.split(TREES_SEPARATOR).map(str::trim);
     let non_empty_trees = trees.filter(|s| !s.is_empty());
-    let no_isolated_comments = non_empty_trees.filter(not_only_comments);
+    let mut no_isolated_comments =
+        non_empty_trees.filter(not_only_comments).peekable();
+
+    // Without any tree in the text, the parser gets an empty one to report.
+    if no_isolated_comments.peek().is_none() {
+        return Box::new(std::iter::once(""));
+    }
 
     Box::new(no_isolated_comments)
 }
-- 
2.43.0


From de614d54d17906e5dfff15e9467780fb9144cb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:15 +0000
Subject: [PATCH 02/27] fix: sanitize function names of multi-root trees

---
 crates/foundry/src/hir/combiner.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/foundry/src/hir/combiner.rs b/crates/foundry/src/hir/combiner.rs
index 37ecd0d..8228d9b 100644
--- a/crates/foundry/src/hir/combiner.rs
+++ b/crates/foundry/src/hir/combiner.rs
@@ -2,7 +2,10 @@
 //! combiner.
 use std::{collections::HashSet, fmt, mem, result};
 
-use bulloak_syntax::{utils::upper_first_letter, FrontendError, Span};
+use bulloak_syntax::{
+    utils::{sanitize, upper_first_letter},
+    FrontendError, Span,
+};
 use thiserror::Error;
 
 use super::{ContractDefinition, Hir, Root};
@@ -232,7 +235,7 @@ fn update_children(
 
 /// Prefix the suffix of a test name.
 fn prefix_test_with(test_name: &str, prefix: &str) -> String {
-    let capitalized_fn_name = upper_first_letter(prefix);
+    let capitalized_fn_name = upper_first_letter(&sanitize(prefix));
     let test_suffix = test_name.trim_start_matches("test_");
     format!("test_{capitalized_fn_name}{test_suffix}")
 }
-- 
2.43.0


From e7d7dbfe587117e4a0df320b17409abd54eea377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:15 +0000
Subject: [PATCH 03/27] fix: return an error instead of panicking when the
 emitted code is invalid

---
 crates/foundry/src/scaffold/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/foundry/src/scaffold/mod.rs b/crates/foundry/src/scaffold/mod.rs
index 748ab52..4d612bc 100644
--- a/crates/foundry/src/scaffold/mod.rs
+++ b/crates/foundry/src/scaffold/mod.rs
@@ -18,8 +18,13 @@ pub fn scaffold(text: &str, cfg: &Config) -> anyhow::Result<String> {
     let hir = translate(text, cfg)?;
     let pt = sol::Translator::new(cfg).translate(&hir);
     let source = sol::Formatter::new().emit(pt);
-    let formatted =
-        fmt(&source).expect("should format the emitted solidity code");
+    // The spec may ask for something that isn't valid Solidity, like a contract
+    // named after a keyword.
+    let formatted = fmt(&source).map_err(|_| {
+        anyhow::anyhow!(
+            "bulloak error: the emitted code is not valid Solidity, check the name of the contract and the Solidity version"
+        )
+    })?;
 
     Ok(formatted)
 }
-- 
2.43.0


From 9680f40fb32c741815a3ebdfe0e13a3a3fe21449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:16 +0000
Subject: [PATCH 04/27] fix: compute the line of an offset in bytes

The offset was compared with a char index, which reported a wrong line or
panicked for Solidity files with multibyte characters.
---
 crates/foundry/src/check/utils.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/crates/foundry/src/check/utils.rs b/crates/foundry/src/check/utils.rs
index 9e43487..81564e9 100644
--- a/crates/foundry/src/check/utils.rs
+++ b/crates/foundry/src/check/utils.rs
@@ -4,18 +4,14 @@
 pub fn offset_to_line_column(content: &str, start: usize) -> (usize, usize) {
     debug_assert!(content.len() > start);
 
+    // Everything is counted in bytes, since `start` is a byte offset.
+    let before = &content.as_bytes()[..start];
+    let line_start =
+        before.iter().rposition(|&b| b == b'\n').map_or(0, |i| i + 1);
     // first line is `1`
-    let mut line_counter = 1;
-    for (offset, c) in content.chars().enumerate() {
-        if c == '\n' {
-            line_counter += 1;
-        }
-        if offset > start {
-            return (line_counter, offset - start);
-        }
-    }
+    let line = before.iter().filter(|&&b| b == b'\n').count() + 1;
 
-    unreachable!("content.len() > start")
+    (line, start - line_start + 1)
 }
 
 /// Returns the line where a byte offset is found.
-- 
2.43.0


From e31863e729d407e12dcfac60b9947b51c3f588ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:16 +0000
Subject: [PATCH 05/27] fix: recognize semantic errors of the tree in check

---
 crates/foundry/src/check/violation.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/foundry/src/check/violation.rs b/crates/foundry/src/check/violation.rs
index f132294..57cb0b9 100644
--- a/crates/foundry/src/check/violation.rs
+++ b/crates/foundry/src/check/violation.rs
@@ -126,7 +126,9 @@ fn format_frontend_error(error: &anyhow::Error) -> String {
         error.downcast_ref::<crate::hir::combiner::Error>()
     {
         format!("an error occurred while parsing the tree: {}", error.kind())
-    } else if error.downcast_ref::<bulloak_syntax::semantics::Error>().is_some()
+    } else if error
+        .downcast_ref::<bulloak_syntax::semantics::Errors>()
+        .is_some()
     {
         "at least one semantic error occurred while parsing the tree".to_owned()
     } else {
-- 
2.43.0


From 47b8929232efe44053a17711c02714d32754d9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:18 +0000
Subject: [PATCH 06/27] fix: report duplicated identifiers in a deterministic
 order

---
 crates/syntax/src/semantics.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/syntax/src/semantics.rs b/crates/syntax/src/semantics.rs
index 933f501..91e09d2 100644
--- a/crates/syntax/src/semantics.rs
+++ b/crates/syntax/src/semantics.rs
@@ -133,8 +133,11 @@ impl<'t> SemanticAnalyzer<'t> {
         // be stored in `self.errors`.
         .unwrap();
 
-        // Check for duplicate conditions.
-        for spans in self.identifiers.clone().into_values() {
+        // Check for duplicate conditions, in the order they appear in the tree.
+        let mut identifiers: Vec<_> =
+            self.identifiers.clone().into_values().collect();
+        identifiers.sort_by_key(|spans| spans[0].start.offset);
+        for spans in identifiers {
             if spans.len() > 1 {
                 self.error(
                     // FIXME: This is a patch until we start storing locations
-- 
2.43.0


From 86806478ad08fa3962356d2f94fca5f10c668135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:43 +0000
Subject: [PATCH 07/27] fix: split trees in files with Windows line endings

---
 crates/syntax/src/splitter.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/syntax/src/splitter.rs b/crates/syntax/src/splitter.rs
index 5f983e3..81fa4aa 100644
--- a/crates/syntax/src/splitter.rs
+++ b/crates/syntax/src/splitter.rs
@@ -2,10 +2,16 @@
 /// trees.
 pub(crate) const TREES_SEPARATOR: &str = "\n\n";
 
+/// The same separator for files with Windows line endings.
+const TREES_SEPARATOR_CRLF: &str = "\r\n\r\n";
+
 /// Splits the input text into distinct trees, delimited by two consecutive
 /// newlines.
 pub(crate) fn split_trees(text: &str) -> Box<dyn Iterator<Item = &str> + '_> {
-    let trees = text.split(TREES_SEPARATOR).map(str::trim);
+    let trees = text
+        .split(TREES_SEPARATOR)
+        .flat_map(|s| s.split(TREES_SEPARATOR_CRLF))
+        .map(str::trim);
     let non_empty_trees = trees.filter(|s| !s.is_empty());
     let mut no_isolated_comments =
         non_empty_trees.filter(not_only_comments).peekable();
-- 
2.43.0


From 353d33aa590fedf3819f005fef26e55a98f74b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:13 +0000
Subject: [PATCH 08/27] fix: make locations relative to the whole file

Locations were relative to the tree in which they appear, so they were wrong
for any tree but the first one.
---
 crates/syntax/src/lib.rs       | 16 ++++++++++++++--
 crates/syntax/src/splitter.rs  | 17 ++++++++++++++++-
 crates/syntax/src/tokenizer.rs | 15 ++++++++++++---
 3 files changed, 42 insertions(+), 6 deletions(-)

diff --git a/crates/syntax/src/lib.rs b/crates/syntax/src/lib.rs
index 42a95c1..40d8bdf 100644
--- a/crates/syntax/src/lib.rs
+++ b/crates/syntax/src/lib.rs
@@ -22,12 +22,24 @@ pub use visitor::Visitor;
 
 /// Parses a string containing trees into ASTs.
 pub fn parse(text: &str) -> anyhow::Result<Vec<ast::Ast>> {
-    splitter::split_trees(text).map(parse_one).collect()
+    splitter::split_trees(text)
+        .map(|tree| {
+            // Keep the text around the tree, such that locations are relative
+            // to the whole text.
+            let start = splitter::position_of(text, tree);
+            parse_from(&text[..start.offset + tree.len()], start)
+        })
+        .collect()
 }
 
 /// Parses a string containing a single tree into an AST.
 pub fn parse_one(text: &str) -> anyhow::Result<ast::Ast> {
-    let tokens = tokenizer::Tokenizer::new().tokenize(text)?;
+    parse_from(text, Position::new(0, 1, 1))
+}
+
+/// Parses the single tree which goes from `start` to the end of `text`.
+fn parse_from(text: &str, start: Position) -> anyhow::Result<ast::Ast> {
+    let tokens = tokenizer::Tokenizer::starting_at(start).tokenize(text)?;
     let ast = parser::Parser::new().parse(text, &tokens)?;
     let mut analyzer = semantics::SemanticAnalyzer::new(text);
     analyzer.analyze(&ast)?;
diff --git a/crates/syntax/src/splitter.rs b/crates/syntax/src/splitter.rs
index 81fa4aa..4741c2a 100644
--- a/crates/syntax/src/splitter.rs
+++ b/crates/syntax/src/splitter.rs
@@ -1,3 +1,5 @@
+use crate::span::Position;
+
 /// The separator used between trees when parsing `.tree` files with multiple
 /// trees.
 pub(crate) const TREES_SEPARATOR: &str = "\n\n";
@@ -18,12 +20,25 @@ pub(crate) fn split_trees(text: &str) -> Box<dyn Iterator<Item = &str> + '_> {
 
     // Without any tree in the text, the parser gets an empty one to report.
     if no_isolated_comments.peek().is_none() {
-        return Box::new(std::iter::once(""));
+        return Box::new(std::iter::once(&text[..0]));
     }
 
     Box::new(no_isolated_comments)
 }
 
+/// Returns the position of `tree` in `text`.
+///
+/// `tree` must be one of the slices of `text` that `split_trees` returns.
+pub(crate) fn position_of(text: &str, tree: &str) -> Position {
+    let offset = tree.as_ptr() as usize - text.as_ptr() as usize;
+    let before = &text[..offset];
+    let line_start = before.rfind('\n').map_or(0, |i| i + 1);
+    let line = before.matches('\n').count() + 1;
+    let column = before[line_start..].chars().count() + 1;
+
+    Position::new(offset, line, column)
+}
+
 /// Return whether the given string only contains lines starting with `//`.
 fn not_only_comments(tree: &&str) -> bool {
     !tree.lines().all(|l| l.trim().starts_with("//"))
diff --git a/crates/syntax/src/tokenizer.rs b/crates/syntax/src/tokenizer.rs
index c5044c0..eaa355b 100644
--- a/crates/syntax/src/tokenizer.rs
+++ b/crates/syntax/src/tokenizer.rs
@@ -117,9 +117,11 @@ pub enum TokenKind {
 /// This struct represents the state of the tokenizer. It is not
 /// tied to any particular input, while `TokenizerI` is.
 pub(crate) struct Tokenizer {
-    /// The current position of the tokenizer in the input.
+    /// The position at which the tokenizer starts.
     ///
     /// By default this is set to the start of the input.
+    start: Position,
+    /// The current position of the tokenizer in the input.
     pos: Cell<Position>,
     /// When true, the tokenizer is in `identifier` mode.
     ///
@@ -139,8 +141,15 @@ impl Tokenizer {
     /// Create a new tokenizer.
     #[must_use]
     pub(crate) const fn new() -> Self {
+        Self::starting_at(Position::new(0, 1, 1))
+    }
+
+    /// Create a new tokenizer that ignores the text before `start`.
+    #[must_use]
+    pub(crate) const fn starting_at(start: Position) -> Self {
         Self {
-            pos: Cell::new(Position::new(0, 1, 1)),
+            start,
+            pos: Cell::new(start),
             identifier_mode: Cell::new(false),
         }
     }
@@ -155,7 +164,7 @@ impl Tokenizer {
 
     /// Reset the tokenizer's state.
     fn reset(&self) {
-        self.pos.set(Position::new(0, 1, 1));
+        self.pos.set(self.start);
         self.identifier_mode.set(false);
     }
 }
-- 
2.43.0


From 433bc4747350d859d25239ffd5ddb6bdfac4c8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:33 +0000
Subject: [PATCH 09/27] fix: reject trees with two tests of the same name

Within a tree they led to a contract that doesn't compile, and the combiner
dropped the second one when they were in different trees.
---
 crates/foundry/src/hir/combiner.rs | 55 +++++++++++++++++++++++++++++-
 crates/foundry/src/hir/mod.rs      | 13 ++++---
 2 files changed, 62 insertions(+), 6 deletions(-)

diff --git a/crates/foundry/src/hir/combiner.rs b/crates/foundry/src/hir/combiner.rs
index 8228d9b..048d012 100644
--- a/crates/foundry/src/hir/combiner.rs
+++ b/crates/foundry/src/hir/combiner.rs
@@ -1,6 +1,9 @@
 //! The implementation of a high-level intermediate representation (HIR)
 //! combiner.
-use std::{collections::HashSet, fmt, mem, result};
+use std::{
+    collections::{HashMap, HashSet},
+    fmt, mem, result,
+};
 
 use bulloak_syntax::{
     utils::{sanitize, upper_first_letter},
@@ -74,6 +77,17 @@ pub enum ErrorKind {
     /// one of the tree roots.
     #[error("separator missing at tree root #{0}. Expected to find `::` between the contract name and the function name when multiple roots exist")]
     SeparatorMissing(Index),
+
+    /// Two nodes translate to tests with the same name.
+    #[error("found more than one test named '{name}' in lines: {first}, {second}")]
+    TestDuplicated {
+        /// The name of the test.
+        name: Identifier,
+        /// The line of the first node.
+        first: usize,
+        /// The line of the second node.
+        second: usize,
+    },
 }
 
 /// A high-level intermediate representation (HIR) combiner.
@@ -108,6 +122,40 @@ impl Combiner {
     }
 }
 
+/// Errors if two tests in the given HIR have the same name.
+pub(crate) fn check_unique_tests(text: &str, hir: &Hir) -> Result<()> {
+    let Hir::Root(root) = hir else {
+        return Ok(());
+    };
+    let Some(contract) = root.find_contract() else {
+        return Ok(());
+    };
+
+    let mut lines = HashMap::new();
+    for child in &contract.children {
+        let Hir::FunctionDefinition(test) = child else {
+            continue;
+        };
+        if !test.is_function() {
+            continue;
+        }
+
+        let second = test.span.start.line;
+        if let Some(first) = lines.insert(&test.identifier, second) {
+            return Err(CombinerI::new(text).error(
+                test.span.with_end(test.span.start),
+                ErrorKind::TestDuplicated {
+                    name: test.identifier.clone(),
+                    first,
+                    second,
+                },
+            ));
+        }
+    }
+
+    Ok(())
+}
+
 struct CombinerI<'t> {
     /// The input text.
     text: &'t str,
@@ -248,6 +296,11 @@ fn collect_modifier(
         return Some(child);
     };
 
+    // Tests with the same name aren't the same test.
+    if test_or_modifier.is_function() {
+        return Some(Hir::FunctionDefinition(test_or_modifier));
+    }
+
     // If child is of type `FunctionDefinition` with the same identifier
     // as a child of another `ContractDefinition` of ty `Modifier`, then
     // they are duplicates.
diff --git a/crates/foundry/src/hir/mod.rs b/crates/foundry/src/hir/mod.rs
index d02c3b5..c48dd13 100644
--- a/crates/foundry/src/hir/mod.rs
+++ b/crates/foundry/src/hir/mod.rs
@@ -26,12 +26,15 @@ use crate::{config::Config, scaffold::modifiers::ModifierDiscoverer};
 pub fn translate(text: &str, cfg: &Config) -> anyhow::Result<Hir> {
     let asts = bulloak_syntax::parse(text)?;
 
-    if asts.len() == 1 {
-        return Ok(translate_one(&asts[0], cfg));
-    }
+    let hir = if asts.len() == 1 {
+        translate_one(&asts[0], cfg)
+    } else {
+        let hirs = asts.into_iter().map(|ast| translate_one(&ast, cfg));
+        combiner::Combiner::new().combine(text, hirs)?
+    };
+    combiner::check_unique_tests(text, &hir)?;
 
-    let hirs = asts.into_iter().map(|ast| translate_one(&ast, cfg));
-    Ok(combiner::Combiner::new().combine(text, hirs)?)
+    Ok(hir)
 }
 
 /// Generates the HIR for a single AST.
-- 
2.43.0


From 46b5c2c27dcc47e669b2b5993a867c916685d97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:36 +0000
Subject: [PATCH 10/27] fix: only rename the contract itself when fixing its
 name

---
 crates/foundry/src/check/violation.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/crates/foundry/src/check/violation.rs b/crates/foundry/src/check/violation.rs
index 57cb0b9..7e62bf6 100644
--- a/crates/foundry/src/check/violation.rs
+++ b/crates/foundry/src/check/violation.rs
@@ -183,13 +183,22 @@ impl ViolationKind {
                     parse(&source).expect("should parse Solidity string");
                 ctx.from_parsed(parsed)
             }
-            ViolationKind::ContractNameNotMatches(new_name, old_name) => {
-                let source = ctx.src.replace(
-                    &format!("contract {old_name}"),
-                    &format!("contract {new_name}"),
+            ViolationKind::ContractNameNotMatches(new_name, _) => {
+                let Some(name) =
+                    find_contract(&ctx.pt).and_then(|contract| contract.name)
+                else {
+                    return ctx;
+                };
+
+                let mut source = ctx.src.clone();
+                source.replace_range(
+                    name.loc.start()..name.loc.end(),
+                    new_name,
                 );
-                let parsed =
-                    parse(&source).expect("should parse Solidity string");
+                // The tree may ask for an invalid name.
+                let Ok(parsed) = parse(&source) else {
+                    return ctx;
+                };
                 ctx.from_parsed(parsed)
             }
             // Assume order violations have been taken care of first.
-- 
2.43.0


From cc8deba5972ac390e8bb75e73c32ace13a59d86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:39 +0000
Subject: [PATCH 11/27] fix: don't panic when the previous function is a
 skipped modifier

---
 crates/foundry/src/check/violation.rs | 29 ++++++++++++++-------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/crates/foundry/src/check/violation.rs b/crates/foundry/src/check/violation.rs
index 7e62bf6..7338cd3 100644
--- a/crates/foundry/src/check/violation.rs
+++ b/crates/foundry/src/check/violation.rs
@@ -249,20 +249,21 @@ fn get_insertion_offset(
     index: usize,
     src: impl AsRef<str>,
 ) -> usize {
-    if index == 0 {
-        return find_contract_body_start(contract_sol, src.as_ref());
-    }
-
-    match &contract_hir.children[index - 1] {
-        Hir::FunctionDefinition(prev_fn_hir) => {
-            find_matching_fn(contract_sol, prev_fn_hir)
-                .expect("matching function should exist")
-                .1
-                .loc()
-                .end()
-        }
-        _ => unreachable!("previous child should be a function definition"),
-    }
+    // Insert after the closest previous function which is present. Some might
+    // not be, since missing modifiers are skipped when `-m` is passed.
+    contract_hir.children[..index]
+        .iter()
+        .rev()
+        .find_map(|child| match child {
+            Hir::FunctionDefinition(prev_fn_hir) => {
+                find_matching_fn(contract_sol, prev_fn_hir)
+            }
+            _ => None,
+        })
+        .map_or_else(
+            || find_contract_body_start(contract_sol, src.as_ref()),
+            |(_, prev_fn_sol)| prev_fn_sol.loc().end(),
+        )
 }
 
 /// Finds the starting position of a contract's body in the source code.
-- 
2.43.0


From baa2d6fcc4a6e333a4fbeb8af5b5d1af60f45d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:18 +0000
Subject: [PATCH 12/27] fix: sort functions by their position in the tree when
 fixing their order

The positions stored in the violations are stale after the first move, such
that functions ended up in a wrong order or the fix panicked. It also panicked
when the contract had a constructor, and removed other text that happened to
be equal to the moved function.
---
 crates/foundry/src/check/violation.rs | 73 +++++++++------------------
 1 file changed, 23 insertions(+), 50 deletions(-)

diff --git a/crates/foundry/src/check/violation.rs b/crates/foundry/src/check/violation.rs
index 7338cd3..7a26e24 100644
--- a/crates/foundry/src/check/violation.rs
+++ b/crates/foundry/src/check/violation.rs
@@ -290,21 +290,19 @@ fn find_contract_body_start(
 /// Rearranges functions in a Solidity contract to match the order in the HIR.
 ///
 /// The algorithm goes like this:
-/// 1. It first creates a set of function names present in `contract_hir` to
-///    identify the functions that need to be sorted.
-/// 2. It then iterates over the `violations` to correct the order of functions
-///    in `contract_sol`, matching them with `contract_hir`.
-/// 3. Functions not part of `contract_hir` are removed, as their correct
+/// 1. It first finds the functions of `contract_sol` that are part of
+///    `contract_hir`, in the order in which they appear in `contract_hir`.
+///    Functions not part of `contract_hir` are left out, as their correct
 ///    position is unknown.
-/// 4. The sorted functions are then compiled into a string (`source`) and
+/// 2. The sorted functions are then compiled into a string (`source`) and
 ///    simultaneously removed from a temporary string (`scratch`) that mirrors
 ///    the original source code.
-/// 5. Finally, the function reconstructs the contract's body by combining the
+/// 3. Finally, the function reconstructs the contract's body by combining the
 ///    sorted functions and any remaining parts of the contract (preserved in
 ///    `scratch`), ensuring all components are included in the output.
 ///
 /// # Arguments
-/// * `violations` - Order discrepancies between Solidity and HIR
+/// * `_violations` - Order discrepancies between Solidity and HIR
 /// * `contract_sol` - Solidity contract to be corrected
 /// * `contract_hir` - HIR contract with correct function order
 /// * `ctx` - Current context with source code and processing data
@@ -316,70 +314,45 @@ fn find_contract_body_start(
 /// If the reconstructed Solidity string fails to parse
 #[must_use]
 pub fn fix_order(
-    violations: &[Violation],
+    _violations: &[Violation],
     contract_sol: &Box<ContractDefinition>,
     contract_hir: &hir::ContractDefinition,
     ctx: Context,
 ) -> Context {
-    // 1. Create a set containing the functions that appear in the tree.
+    // 1. Find the functions that appear in the tree, in the order of the tree.
     //
-    // These are the functions that we know how to sort.
-    let fn_names: HashSet<String> = contract_hir
-        .children
-        .iter()
-        .filter_map(|child| {
-            if let hir::Hir::FunctionDefinition(f) = &child {
-                Some(f.identifier.clone())
-            } else {
-                None
+    // These are the functions that we know how to sort. We leave out the rest
+    // since we don't know where they go.
+    let mut fns: Vec<&ContractPart> = Vec::new();
+    let mut indices = HashSet::new();
+    for child in &contract_hir.children {
+        let hir::Hir::FunctionDefinition(fn_hir) = child else {
+            continue;
+        };
+        if let Some((idx, _)) = find_matching_fn(contract_sol, fn_hir) {
+            if indices.insert(idx) {
+                fns.push(&contract_sol.parts[idx]);
             }
-        })
-        .collect();
-
-    // 2. Properly sort functions in a new vec.
-    let mut fns = contract_sol.parts.clone();
-    for violation in violations {
-        if let ViolationKind::FunctionOrderMismatch(f, sol_idx, hir_idx) =
-            &violation.kind
-        {
-            fns.remove(*sol_idx);
-            fns.insert(
-                *hir_idx,
-                ContractPart::FunctionDefinition(Box::new(f.clone())),
-            );
         }
     }
 
-    // 3. Remove functions that are not part of the hir since
-    // we don't know where they go.
-    let fns: Vec<&ContractPart> = fns
-        .iter()
-        .filter(|f| {
-            if let ContractPart::FunctionDefinition(f) = f {
-                fn_names.contains(&f.name.safe_unwrap().name)
-            } else {
-                false
-            }
-        })
-        .collect();
-
-    // 4. a - Add the functions that appear in the tree to the blank
+    // 2. a - Add the functions that appear in the tree to the blank
     // string `source`.
     //    b - Replace them with whitespace in `scratch`.
     //
     // Since we sorted in a previous step, they'll appear sorted in
-    // the string. We do 4.b because we want to append the remaining
+    // the string. We do 2.b because we want to append the remaining
     // functions after the sorted functions.
     let mut scratch = ctx.src.clone();
     let mut source = Vec::with_capacity(fns.len());
     for f in &fns {
         let loc = f.loc();
         let f = ctx.src[loc.start()..loc.end()].to_owned();
-        scratch = scratch.replace(&f, " ".repeat(f.len()).as_str());
+        scratch.replace_range(loc.start()..loc.end(), &" ".repeat(f.len()));
         source.push(f);
     }
 
-    // 5. Replace the contract's body with the sorted functions and
+    // 3. Replace the contract's body with the sorted functions and
     // the extra functions contained in the scratch string.
     // We know there is at least two parts because we found order violations.
     let first_part_loc = contract_sol.parts[0].loc();
-- 
2.43.0


From 40eebbe695963ddc2aa7144b2b3045f3a151a9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:37 +0000
Subject: [PATCH 13/27] fix: keep the contents of the Solidity file when adding
 a missing contract

---
 crates/foundry/src/check/violation.rs | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/crates/foundry/src/check/violation.rs b/crates/foundry/src/check/violation.rs
index 7a26e24..81b88e1 100644
--- a/crates/foundry/src/check/violation.rs
+++ b/crates/foundry/src/check/violation.rs
@@ -176,11 +176,29 @@ impl ViolationKind {
     pub fn fix(&self, mut ctx: Context) -> Context {
         match self {
             ViolationKind::ContractMissing(_) => {
-                let pt = sol::Translator::new(&Config::default())
+                let mut pt = sol::Translator::new(&Config::default())
                     .translate(&ctx.hir);
-                let source = sol::Formatter::new().emit(pt.clone());
-                let parsed =
-                    parse(&source).expect("should parse Solidity string");
+                // Keep the contents of a file which isn't empty, they already
+                // include everything but the contract.
+                let is_empty = ctx.src.trim().is_empty();
+                if !is_empty {
+                    pt.0.retain(|part| {
+                        matches!(
+                            part,
+                            pt::SourceUnitPart::ContractDefinition(_)
+                        )
+                    });
+                }
+                let contract = sol::Formatter::new().emit(pt);
+                let source = if is_empty {
+                    contract
+                } else {
+                    format!("{}\n\n{contract}", ctx.src.trim_end())
+                };
+                // The tree may ask for an invalid name.
+                let Ok(parsed) = parse(&source) else {
+                    return ctx;
+                };
                 ctx.from_parsed(parsed)
             }
             ViolationKind::ContractNameNotMatches(new_name, _) => {
-- 
2.43.0


From 871db21839aa51e6346999fe9214b5401e28d79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:49 +0000
Subject: [PATCH 14/27] fix: ignore braces before the body of a contract when
 inserting functions

---
 crates/foundry/src/check/violation.rs | 28 ++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/crates/foundry/src/check/violation.rs b/crates/foundry/src/check/violation.rs
index 81b88e1..2a50db8 100644
--- a/crates/foundry/src/check/violation.rs
+++ b/crates/foundry/src/check/violation.rs
@@ -297,12 +297,30 @@ fn find_contract_body_start(
     contract_sol: &pt::ContractDefinition,
     src: &str,
 ) -> usize {
-    let contract_start = contract_sol.loc.start();
-    let opening_brace_pos = src[contract_start..]
-        .find('{')
-        .expect("contract should have an opening brace");
+    // The bases might have arguments with braces in them.
+    let header_end = contract_sol
+        .base
+        .last()
+        .map(|base| base.loc.end())
+        .or_else(|| contract_sol.name.as_ref().map(|name| name.loc.end()))
+        .unwrap_or_else(|| contract_sol.loc.start());
 
-    contract_start + opening_brace_pos + 1
+    // So might the comments before the body.
+    let mut pos = header_end;
+    while let Some(c) = src[pos..].chars().next() {
+        let rest = &src[pos..];
+        pos += if c == '{' {
+            return pos + 1;
+        } else if rest.starts_with("//") {
+            rest.find('\n').unwrap_or(rest.len())
+        } else if rest.starts_with("/*") {
+            rest[2..].find("*/").map_or(rest.len(), |end| end + 4)
+        } else {
+            c.len_utf8()
+        };
+    }
+
+    panic!("contract should have an opening brace")
 }
 
 /// Rearranges functions in a Solidity contract to match the order in the HIR.
-- 
2.43.0


From 0667c831778578ce6fcf774feff5ad8736a52f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:26 +0000
Subject: [PATCH 15/27] fix: fail check --fix when something couldn't be fixed

Files that couldn't be read, parsed or written were ignored and reported as a
success.
---
 crates/bulloak/src/check.rs | 43 ++++++++++++++++++++++++++-----------
 1 file changed, 30 insertions(+), 13 deletions(-)

diff --git a/crates/bulloak/src/check.rs b/crates/bulloak/src/check.rs
index 5b736ad..6b1922e 100644
--- a/crates/bulloak/src/check.rs
+++ b/crates/bulloak/src/check.rs
@@ -65,25 +65,26 @@ impl Check {
 
         if self.fix {
             let mut fixed_count = 0;
+            let mut write_failed = false;
             for mut ctx in ctxs {
-                let violations = rules::StructuralMatcher::check(&ctx);
+                let found = rules::StructuralMatcher::check(&ctx);
                 let fixable_count =
-                    violations.iter().filter(|v| v.is_fixable()).count();
+                    found.iter().filter(|v| v.is_fixable()).count();
 
                 // Process violations that affect function order first.
-                let violations = violations.into_iter().filter(|v| {
+                let found = found.into_iter().filter(|v| {
                     !matches!(
                         v.kind,
                         ViolationKind::FunctionOrderMismatch(_, _, _)
                     )
                 });
-                for violation in violations {
+                for violation in found {
                     ctx = violation.kind.fix(ctx);
                 }
 
                 // Second pass fixing order violations.
-                let violations = rules::StructuralMatcher::check(&ctx);
-                let violations: Vec<Violation> = violations
+                let found = rules::StructuralMatcher::check(&ctx);
+                let found: Vec<Violation> = found
                     .into_iter()
                     .filter(|v| {
                         matches!(
@@ -92,13 +93,13 @@ impl Check {
                         )
                     })
                     .collect();
-                if !violations.is_empty() {
+                if !found.is_empty() {
                     if let Some(contract_sol) = find_contract(&ctx.pt) {
                         if let Some(contract_hir) =
                             ctx.hir.clone().find_contract()
                         {
                             ctx = fix_order(
-                                &violations,
+                                &found,
                                 &contract_sol,
                                 contract_hir,
                                 ctx,
@@ -107,12 +108,17 @@ impl Check {
                     }
                 }
 
+                // Whatever is left couldn't be fixed.
+                let mut left = rules::StructuralMatcher::check(&ctx);
                 let sol = ctx.sol.clone();
                 let formatted =
                     ctx.fmt().expect("should format the emitted solidity code");
-                self.write(&formatted, sol);
-
-                fixed_count += fixable_count;
+                if self.write(&formatted, sol) {
+                    fixed_count += fixable_count.saturating_sub(left.len());
+                } else {
+                    write_failed = true;
+                }
+                violations.append(&mut left);
             }
 
             let issue_literal = pluralize(fixed_count, "issue", "issues");
@@ -122,6 +128,13 @@ impl Check {
                 fixed_count,
                 issue_literal
             );
+
+            if !violations.is_empty() {
+                exit(&violations);
+            }
+            if write_failed {
+                std::process::exit(1);
+            }
         } else {
             for ctx in ctxs {
                 violations.append(&mut rules::StructuralMatcher::check(&ctx));
@@ -134,15 +147,19 @@ impl Check {
     /// Handles writing the output of the `check` command.
     ///
     /// If the `--stdout` flag was passed, then the output is printed to
-    /// stdout, else it is written to the corresponding file.
-    fn write(&self, output: &str, sol: PathBuf) {
+    /// stdout, else it is written to the corresponding file. Returns whether
+    /// that succeeded.
+    fn write(&self, output: &str, sol: PathBuf) -> bool {
         if self.stdout {
             println!("{} {}", "-->".blue(), sol.to_string_lossy());
             println!("{}", output.trim());
             println!("{}", "<--".blue());
         } else if let Err(e) = fs::write(sol, output) {
             eprintln!("{}: {e}", "warn".yellow());
+            return false;
         }
+
+        true
     }
 }
 
-- 
2.43.0


From 3dea06d645e98b51c509327fa4928e72786b2d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:40 +0000
Subject: [PATCH 16/27] fix: fail scaffold when a file couldn't be written

---
 crates/bulloak/src/scaffold.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/bulloak/src/scaffold.rs b/crates/bulloak/src/scaffold.rs
index 89ade96..4ef5d2d 100644
--- a/crates/bulloak/src/scaffold.rs
+++ b/crates/bulloak/src/scaffold.rs
@@ -96,7 +96,7 @@ impl Scaffold {
 
         if self.write_files {
             let file = file.with_extension("t.sol");
-            self.write_file(&formatted, &file);
+            self.write_file(&formatted, &file)?;
         } else {
             println!("{formatted}");
         }
@@ -108,7 +108,7 @@ impl Scaffold {
     ///
     /// If the file doesn't exist it will create it. If it exists,
     /// and `--force-write` was not passed, it will skip writing to the file.
-    fn write_file(&self, text: &str, file: &PathBuf) {
+    fn write_file(&self, text: &str, file: &PathBuf) -> anyhow::Result<()> {
         // Don't overwrite files unless `--force-write` was passed.
         if file.exists() && !self.force_write {
             eprintln!(
@@ -120,12 +120,12 @@ impl Scaffold {
                 "    {} The corresponding `.t.sol` file already exists",
                 "=".blue()
             );
-            return;
+            return Ok(());
         }
 
-        if let Err(err) = fs::write(file, text) {
-            eprintln!("{}: {err}", "error".red());
-        };
+        fs::write(file, text).map_err(|err| {
+            anyhow::anyhow!("couldn't write {}: {err}", file.display())
+        })
     }
 
     /// Reports errors that occurred during file processing.
-- 
2.43.0


From 59e3bb0359e453fb329fcbb9d0ddc6609977859a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:46 +0000
Subject: [PATCH 17/27] fix: treat any whitespace as a separator of words

Line separators ended up in the generated line comments, which they terminate.
---
 crates/syntax/src/tokenizer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/syntax/src/tokenizer.rs b/crates/syntax/src/tokenizer.rs
index eaa355b..0ae1535 100644
--- a/crates/syntax/src/tokenizer.rs
+++ b/crates/syntax/src/tokenizer.rs
@@ -318,6 +318,8 @@ impl<'s, T: Borrow<Tokenizer>> TokenizerI<'s, T> {
                     span: self.span(),
                     lexeme: "└".to_owned(),
                 }),
+                // Words end at any whitespace, so none can be part of a word.
+                c if c.is_whitespace() => {}
                 // Comments start with `//`.
                 '/' if self.peek().is_some_and(|c| c == '/') => {
                     self.exit_mode();
-- 
2.43.0


From 083c776c48cca2a6bb7645d70ec67a6208556f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:33 +0000
Subject: [PATCH 18/27] fix: point at the branch that ends unexpectedly instead
 of its parent

---
 crates/syntax/src/parser.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/syntax/src/parser.rs b/crates/syntax/src/parser.rs
index 29a861e..a5878ba 100644
--- a/crates/syntax/src/parser.rs
+++ b/crates/syntax/src/parser.rs
@@ -360,12 +360,12 @@ impl<'t, P: Borrow<Parser>> ParserI<'t, P> {
             // The column determines the tree level we are in.
             .is_some_and(|t| t.span.start.column > token.span.start.column)
         {
+            let current_token = self.current().unwrap();
             let next_token = self.peek().ok_or(self.error(
-                token.span.with_start(token.span.end),
+                current_token.span.with_start(current_token.span.end),
                 ErrorKind::EofUnexpected,
             ))?;
 
-            let current_token = self.current().unwrap();
             let ast = match next_token.kind {
                 TokenKind::When | TokenKind::Given => {
                     self.parse_condition(current_token)?
@@ -415,12 +415,12 @@ impl<'t, P: Borrow<Parser>> ParserI<'t, P> {
             // The column determines the tree level we are in.
             .is_some_and(|t| t.span.start.column > token.span.start.column)
         {
+            let current_token = self.current().unwrap();
             let next_token = self.peek().ok_or(self.error(
-                token.span.with_start(token.span.end),
+                current_token.span.with_start(current_token.span.end),
                 ErrorKind::EofUnexpected,
             ))?;
 
-            let current_token = self.current().unwrap();
             let ast = match next_token.kind {
                 TokenKind::Word => self.parse_description(
                     current_token,
-- 
2.43.0


From 0f2d3d491c58a21a6bab13f2b904de59623d9db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:49 +0000
Subject: [PATCH 19/27] fix: reject invalid characters after a tab in a
 condition's title

---
 crates/syntax/src/tokenizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/syntax/src/tokenizer.rs b/crates/syntax/src/tokenizer.rs
index 0ae1535..646d058 100644
--- a/crates/syntax/src/tokenizer.rs
+++ b/crates/syntax/src/tokenizer.rs
@@ -305,7 +305,7 @@ impl<'s, T: Borrow<Tokenizer>> TokenizerI<'s, T> {
 
             match self.char() {
                 ' ' | '─' | '│' => {}
-                '\n' | '\t' | '\r' => {
+                '\n' | '\r' => {
                     self.exit_mode();
                 }
                 '├' => tokens.push(Token {
-- 
2.43.0


From 7c5c03da53510d01ddc308d005dcb62b4a164473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:48 +0000
Subject: [PATCH 20/27] fix: leave a blank line after inserted functions

---
 crates/foundry/src/check/context.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/foundry/src/check/context.rs b/crates/foundry/src/check/context.rs
index 88ff852..02d016c 100644
--- a/crates/foundry/src/check/context.rs
+++ b/crates/foundry/src/check/context.rs
@@ -128,7 +128,7 @@ impl Context {
         let f = &Hir::FunctionDefinition(function.clone());
         let function = Emitter::new(cfg).emit(f);
         self.src = format!(
-            "{}\n\n{}{}",
+            "{}\n\n{}\n{}",
             &self.src[..offset],
             function.trim_end(),
             &self.src[offset..]
-- 
2.43.0


From d340f74801059eee0bbd497e75e2791758774ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:16 +0000
Subject: [PATCH 21/27] fix: format the fixed code until it is stable

---
 crates/foundry/src/check/context.rs | 46 +++++++++++++++++++++--------
 1 file changed, 34 insertions(+), 12 deletions(-)

diff --git a/crates/foundry/src/check/context.rs b/crates/foundry/src/check/context.rs
index 02d016c..114cf77 100644
--- a/crates/foundry/src/check/context.rs
+++ b/crates/foundry/src/check/context.rs
@@ -90,18 +90,18 @@ impl Context {
     /// Updates the context with a formatted representation of the Solidity
     /// file.
     pub fn fmt(self) -> anyhow::Result<String, FormatterError> {
-        let mut formatted = String::new();
-        format(
-            &mut formatted,
-            forge_fmt::Parsed {
-                src: &self.src,
-                pt: self.pt,
-                comments: self.comments,
-                inline_config: InlineConfig::default(),
-                invalid_inline_config_items: Vec::default(),
-            },
-            FormatterConfig::default(),
-        )?;
+        let mut formatted =
+            format_parsed(&self.src, self.pt, self.comments)?;
+
+        // Re-indenting the code might change which item a comment belongs to,
+        // and formatting the result once more would then move the comment.
+        for _ in 0..3 {
+            let Ok(parsed) = forge_fmt::parse(&formatted) else { break };
+            match format_parsed(&formatted, parsed.pt, parsed.comments) {
+                Ok(again) if again != formatted => formatted = again,
+                _ => break,
+            }
+        }
 
         Ok(formatted)
     }
@@ -164,3 +164,25 @@ fn try_read_to_string(path: impl AsRef<Path>) -> Result<String, Violation> {
         )
     })
 }
+
+/// Formats the given parsed Solidity source.
+fn format_parsed(
+    src: &str,
+    pt: SourceUnit,
+    comments: Comments,
+) -> anyhow::Result<String, FormatterError> {
+    let mut formatted = String::new();
+    format(
+        &mut formatted,
+        Parsed {
+            src,
+            pt,
+            comments,
+            inline_config: InlineConfig::default(),
+            invalid_inline_config_items: Vec::default(),
+        },
+        FormatterConfig::default(),
+    )?;
+
+    Ok(formatted)
+}
-- 
2.43.0


From fd06c518fd63a193456dd14c0c6a110353f12cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:58 +0000
Subject: [PATCH 22/27] fix: keep a leading test_ of the title when prefixing
 tests

---
 crates/foundry/src/hir/combiner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/foundry/src/hir/combiner.rs b/crates/foundry/src/hir/combiner.rs
index 048d012..c1f7858 100644
--- a/crates/foundry/src/hir/combiner.rs
+++ b/crates/foundry/src/hir/combiner.rs
@@ -284,7 +284,7 @@ fn update_children(
 /// Prefix the suffix of a test name.
 fn prefix_test_with(test_name: &str, prefix: &str) -> String {
     let capitalized_fn_name = upper_first_letter(&sanitize(prefix));
-    let test_suffix = test_name.trim_start_matches("test_");
+    let test_suffix = test_name.strip_prefix("test_").unwrap_or(test_name);
     format!("test_{capitalized_fn_name}{test_suffix}")
 }
 
-- 
2.43.0


From b8a5cef0e12643c178fae0f627c88111d76e394f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:34 +0000
Subject: [PATCH 23/27] fix: keep the semicolon of functions without a body
 when fixing

---
 crates/foundry/src/check/violation.rs | 67 ++++++++++++++++-----------
 1 file changed, 41 insertions(+), 26 deletions(-)

diff --git a/crates/foundry/src/check/violation.rs b/crates/foundry/src/check/violation.rs
index 2a50db8..1ced9ba 100644
--- a/crates/foundry/src/check/violation.rs
+++ b/crates/foundry/src/check/violation.rs
@@ -7,10 +7,7 @@ use forge_fmt::{
     solang_ext::{CodeLocationExt, SafeUnwrap},
 };
 use owo_colors::OwoColorize;
-use solang_parser::{
-    pt,
-    pt::{ContractDefinition, ContractPart},
-};
+use solang_parser::{pt, pt::ContractDefinition};
 use thiserror::Error;
 
 use super::{context::Context, location::Location};
@@ -280,10 +277,41 @@ fn get_insertion_offset(
         })
         .map_or_else(
             || find_contract_body_start(contract_sol, src.as_ref()),
-            |(_, prev_fn_sol)| prev_fn_sol.loc().end(),
+            |(_, prev_fn_sol)| find_fn_end(prev_fn_sol, src.as_ref()),
         )
 }
 
+/// Finds the end of a function in the source code.
+///
+/// The location of a function without a body doesn't include its semicolon.
+fn find_fn_end(fn_sol: &pt::FunctionDefinition, src: &str) -> usize {
+    let end = fn_sol.loc().end();
+    if fn_sol.body.is_some() {
+        return end;
+    }
+
+    find_token_end(src, end, ';').unwrap_or(end)
+}
+
+/// Finds the position immediately after the first `token` from `pos` onwards
+/// that isn't part of a comment.
+fn find_token_end(src: &str, mut pos: usize, token: char) -> Option<usize> {
+    while let Some(c) = src[pos..].chars().next() {
+        let rest = &src[pos..];
+        pos += if c == token {
+            return Some(pos + c.len_utf8());
+        } else if rest.starts_with("//") {
+            rest.find('\n').unwrap_or(rest.len())
+        } else if rest.starts_with("/*") {
+            rest[2..].find("*/").map_or(rest.len(), |end| end + 4)
+        } else {
+            c.len_utf8()
+        };
+    }
+
+    None
+}
+
 /// Finds the starting position of a contract's body in the source code.
 ///
 /// # Arguments
@@ -306,21 +334,8 @@ fn find_contract_body_start(
         .unwrap_or_else(|| contract_sol.loc.start());
 
     // So might the comments before the body.
-    let mut pos = header_end;
-    while let Some(c) = src[pos..].chars().next() {
-        let rest = &src[pos..];
-        pos += if c == '{' {
-            return pos + 1;
-        } else if rest.starts_with("//") {
-            rest.find('\n').unwrap_or(rest.len())
-        } else if rest.starts_with("/*") {
-            rest[2..].find("*/").map_or(rest.len(), |end| end + 4)
-        } else {
-            c.len_utf8()
-        };
-    }
-
-    panic!("contract should have an opening brace")
+    find_token_end(src, header_end, '{')
+        .expect("contract should have an opening brace")
 }
 
 /// Rearranges functions in a Solidity contract to match the order in the HIR.
@@ -359,15 +374,15 @@ pub fn fix_order(
     //
     // These are the functions that we know how to sort. We leave out the rest
     // since we don't know where they go.
-    let mut fns: Vec<&ContractPart> = Vec::new();
+    let mut fns: Vec<&pt::FunctionDefinition> = Vec::new();
     let mut indices = HashSet::new();
     for child in &contract_hir.children {
         let hir::Hir::FunctionDefinition(fn_hir) = child else {
             continue;
         };
-        if let Some((idx, _)) = find_matching_fn(contract_sol, fn_hir) {
+        if let Some((idx, fn_sol)) = find_matching_fn(contract_sol, fn_hir) {
             if indices.insert(idx) {
-                fns.push(&contract_sol.parts[idx]);
+                fns.push(fn_sol);
             }
         }
     }
@@ -382,9 +397,9 @@ pub fn fix_order(
     let mut scratch = ctx.src.clone();
     let mut source = Vec::with_capacity(fns.len());
     for f in &fns {
-        let loc = f.loc();
-        let f = ctx.src[loc.start()..loc.end()].to_owned();
-        scratch.replace_range(loc.start()..loc.end(), &" ".repeat(f.len()));
+        let (start, end) = (f.loc().start(), find_fn_end(f, &ctx.src));
+        let f = ctx.src[start..end].to_owned();
+        scratch.replace_range(start..end, &" ".repeat(f.len()));
         source.push(f);
     }
 
-- 
2.43.0


From af5f9fc7e6dbae77fd6dfef03dfb33508c84e8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:40 +0000
Subject: [PATCH 24/27] fix: name the tree itself in the commands that check
 suggests

---
 crates/foundry/src/check/violation.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/foundry/src/check/violation.rs b/crates/foundry/src/check/violation.rs
index 1ced9ba..343ddc2 100644
--- a/crates/foundry/src/check/violation.rs
+++ b/crates/foundry/src/check/violation.rs
@@ -93,7 +93,7 @@ impl fmt::Display for Violation {
             writeln!(f, "     {} help: {}", "=".blue(), help_text)?;
         }
         if self.kind.is_fixable() {
-            let file = self.location.file().replace(".t.sol", ".tree");
+            let file = tree_filename(&self.location.file());
             write!(f, "     {} fix: run ", "+".blue())?;
             writeln!(f, "`bulloak check --fix {file}`")?;
         }
@@ -103,6 +103,15 @@ impl fmt::Display for Violation {
     }
 }
 
+/// Returns the name of the tree file that matches a file, which is either a
+/// Solidity file or the tree file itself.
+fn tree_filename(file: &str) -> String {
+    match file.strip_suffix(".t.sol") {
+        Some(stem) => format!("{stem}.tree"),
+        None => file.to_owned(),
+    }
+}
+
 /// Formats frontend errors into human-readable messages.
 ///
 /// # Arguments
@@ -157,7 +166,6 @@ impl ViolationKind {
                 format!(r#"consider renaming the contract to "{name}""#).into()
             }
             ViolationKind::SolidityFileMissing(filename) => {
-                let filename = filename.replace(".t.sol", ".tree");
                 format!("consider running `bulloak scaffold {filename}`").into()
             }
             ViolationKind::FunctionOrderMismatch(_, _, _) => {
-- 
2.43.0


From 5d2aeaeb51c43c5509ed0381bb516b835ea89087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:17 +0000
Subject: [PATCH 25/27] fix: keep a comment at the very end of the file when
 formatting

---
 crates/foundry/src/check/context.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/foundry/src/check/context.rs b/crates/foundry/src/check/context.rs
index 114cf77..55f4bc5 100644
--- a/crates/foundry/src/check/context.rs
+++ b/crates/foundry/src/check/context.rs
@@ -171,11 +171,13 @@ fn format_parsed(
     pt: SourceUnit,
     comments: Comments,
 ) -> anyhow::Result<String, FormatterError> {
+    // The formatter drops a comment after the last item if nothing follows it.
+    let src = format!("{src}\n");
     let mut formatted = String::new();
     format(
         &mut formatted,
         Parsed {
-            src,
+            src: &src,
             pt,
             comments,
             inline_config: InlineConfig::default(),
-- 
2.43.0


From 5dd43f1b527ad8574fe2293da4a4eb9ae7813ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:18 +0000
Subject: [PATCH 26/27] fix: keep code after an empty comment at the end of a
 file when formatting

---
 crates/foundry/src/check/context.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/foundry/src/check/context.rs b/crates/foundry/src/check/context.rs
index 55f4bc5..46d5ce2 100644
--- a/crates/foundry/src/check/context.rs
+++ b/crates/foundry/src/check/context.rs
@@ -171,8 +171,9 @@ fn format_parsed(
     pt: SourceUnit,
     comments: Comments,
 ) -> anyhow::Result<String, FormatterError> {
-    // The formatter drops a comment after the last item if nothing follows it.
-    let src = format!("{src}\n");
+    // The formatter drops a comment after the last item if nothing follows it,
+    // and the end of the line of an empty one if no further line does.
+    let src = format!("{src}\n\n");
     let mut formatted = String::new();
     format(
         &mut formatted,
-- 
2.43.0


From a34d2dbe41acf3d499f998e5eca3946efd5187c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:27 +0000
Subject: [PATCH 27/27] fix: separate trees at an empty line whatever the ends
 of the lines around it

---
 crates/syntax/src/splitter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/syntax/src/splitter.rs b/crates/syntax/src/splitter.rs
index 4741c2a..b1fec59 100644
--- a/crates/syntax/src/splitter.rs
+++ b/crates/syntax/src/splitter.rs
@@ -4,8 +4,8 @@ use crate::span::Position;
 /// trees.
 pub(crate) const TREES_SEPARATOR: &str = "\n\n";
 
-/// The same separator for files with Windows line endings.
-const TREES_SEPARATOR_CRLF: &str = "\r\n\r\n";
+/// The same separator where the empty line has a Windows line ending.
+const TREES_SEPARATOR_CRLF: &str = "\n\r\n";
 
 /// Splits the input text into distinct trees, delimited by two consecutive
 /// newlines.
-- 
2.43.0

