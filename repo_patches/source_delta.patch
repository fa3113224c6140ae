From 1475ac17f7d4a64520c73a206ecad9d280891e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:49 +0000
Subject: [PATCH 01/20] fix: point at the dangling glyph when a nested branch
 ends the file

---
 crates/syntax/src/parser.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/syntax/src/parser.rs b/crates/syntax/src/parser.rs
index 29a861e..a5878ba 100644
--- a/crates/syntax/src/parser.rs
+++ b/crates/syntax/src/parser.rs
@@ -360,12 +360,12 @@ impl<'t, P: Borrow<Parser>> ParserI<'t, P> {
             // The column determines the tree level we are in.
             .is_some_and(|t| t.span.start.column > token.span.start.column)
         {
+            let current_token = self.current().unwrap();
             let next_token = self.peek().ok_or(self.error(
-                token.span.with_start(token.span.end),
+                current_token.span.with_start(current_token.span.end),
                 ErrorKind::EofUnexpected,
             ))?;
 
-            let current_token = self.current().unwrap();
             let ast = match next_token.kind {
                 TokenKind::When | TokenKind::Given => {
                     self.parse_condition(current_token)?
@@ -415,12 +415,12 @@ impl<'t, P: Borrow<Parser>> ParserI<'t, P> {
             // The column determines the tree level we are in.
             .is_some_and(|t| t.span.start.column > token.span.start.column)
         {
+            let current_token = self.current().unwrap();
             let next_token = self.peek().ok_or(self.error(
-                token.span.with_start(token.span.end),
+                current_token.span.with_start(current_token.span.end),
                 ErrorKind::EofUnexpected,
             ))?;
 
-            let current_token = self.current().unwrap();
             let ast = match next_token.kind {
                 TokenKind::Word => self.parse_description(
                     current_token,
-- 
2.43.0


From c57f31706f8cd318eac3357875582c79c4a835e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:49 +0000
Subject: [PATCH 02/20] fix: report duplicates in the order of the text, not of
 the hash table

---
 crates/syntax/src/semantics.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/syntax/src/semantics.rs b/crates/syntax/src/semantics.rs
index 933f501..ab80d66 100644
--- a/crates/syntax/src/semantics.rs
+++ b/crates/syntax/src/semantics.rs
@@ -133,8 +133,11 @@ impl<'t> SemanticAnalyzer<'t> {
         // be stored in `self.errors`.
         .unwrap();
 
-        // Check for duplicate conditions.
-        for spans in self.identifiers.clone().into_values() {
+        // Check for duplicate conditions, in the order they appear in the text.
+        let mut identifiers: Vec<_> =
+            self.identifiers.clone().into_values().collect();
+        identifiers.sort_by_key(|spans| spans[0].start.offset);
+        for spans in identifiers {
             if spans.len() > 1 {
                 self.error(
                     // FIXME: This is a patch until we start storing locations
-- 
2.43.0


From bf3d504b14162f589c1a41b2236730060cd7d133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:01 +0000
Subject: [PATCH 03/20] fix: detect duplicate top-level actions by the name of
 the generated test

---
 crates/syntax/src/semantics.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/syntax/src/semantics.rs b/crates/syntax/src/semantics.rs
index ab80d66..331dceb 100644
--- a/crates/syntax/src/semantics.rs
+++ b/crates/syntax/src/semantics.rs
@@ -7,7 +7,7 @@ use super::ast::{self, Ast};
 use crate::{
     error::FrontendError,
     span::Span,
-    utils::{lower_first_letter, sanitize, to_pascal_case},
+    utils::{lower_first_letter, sanitize, to_pascal_case, upper_first_letter},
     visitor::Visitor,
 };
 
@@ -178,9 +178,13 @@ impl Visitor for SemanticAnalyzer<'_> {
                 Ast::Action(action) => {
                     // Top-level actions must be checked for duplicates since
                     // they will become Solidity functions.
-                    let identifier = lower_first_letter(&to_pascal_case(
-                        &sanitize(&action.title),
-                    ));
+                    // The identifier is built like the function's name: the
+                    // leading `it` is not part of it, and words are
+                    // capitalized before they are sanitized.
+                    let words = action.title.split_whitespace().skip(1);
+                    let test_name: String =
+                        words.map(upper_first_letter).collect();
+                    let identifier = format!("test_{}", sanitize(&test_name));
                     match self.identifiers.get_mut(&identifier) {
                         Some(spans) => spans.push(action.span),
                         None => {
-- 
2.43.0


From 5b53736665b346d5f97cdf0020011c775063ed81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:01 +0000
Subject: [PATCH 04/20] fix: keep validating a condition's title after a tab or
 carriage return

---
 crates/syntax/src/tokenizer.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/syntax/src/tokenizer.rs b/crates/syntax/src/tokenizer.rs
index c5044c0..5b42606 100644
--- a/crates/syntax/src/tokenizer.rs
+++ b/crates/syntax/src/tokenizer.rs
@@ -295,8 +295,9 @@ impl<'s, T: Borrow<Tokenizer>> TokenizerI<'s, T> {
             }
 
             match self.char() {
-                ' ' | '─' | '│' => {}
-                '\n' | '\t' | '\r' => {
+                ' ' | '\t' | '\r' | '─' | '│' => {}
+                // Titles span until the end of the line.
+                '\n' => {
                     self.exit_mode();
                 }
                 '├' => tokens.push(Token {
-- 
2.43.0


From 7928d9892c20a3ff104366e27cbdeec434f00f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:18 +0000
Subject: [PATCH 05/20] fix: split trees in CRLF files, and treat a file of
 comments as an empty tree

---
 crates/syntax/src/splitter.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/crates/syntax/src/splitter.rs b/crates/syntax/src/splitter.rs
index 1c89309..035f413 100644
--- a/crates/syntax/src/splitter.rs
+++ b/crates/syntax/src/splitter.rs
@@ -2,17 +2,26 @@
 /// trees.
 pub(crate) const TREES_SEPARATOR: &str = "\n\n";
 
+/// The same separator in text with CRLF line endings, where the first `\r` is
+/// part of the tree's last line.
+pub(crate) const TREES_SEPARATOR_CRLF: &str = "\n\r\n";
+
 /// Splits the input text into distinct trees, delimited by two consecutive
 /// newlines.
 pub(crate) fn split_trees(text: &str) -> Box<dyn Iterator<Item = &str> + '_> {
-    if text.trim().is_empty() {
+    let trees = text
+        .split(TREES_SEPARATOR)
+        .flat_map(|trees| trees.split(TREES_SEPARATOR_CRLF))
+        .map(str::trim);
+    let non_empty_trees = trees.filter(|s| !s.is_empty());
+    let mut no_isolated_comments =
+        non_empty_trees.filter(not_only_comments).peekable();
+
+    // There is always at least one tree, even if it's empty.
+    if no_isolated_comments.peek().is_none() {
         return Box::new(std::iter::once(""));
     }
 
-    let trees = text.split(TREES_SEPARATOR).map(str::trim);
-    let non_empty_trees = trees.filter(|s| !s.is_empty());
-    let no_isolated_comments = non_empty_trees.filter(not_only_comments);
-
     Box::new(no_isolated_comments)
 }
 
-- 
2.43.0


From 91dbff278ba6692d910ad3dc6347e69ef00f944b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:28 +0000
Subject: [PATCH 06/20] fix: report positions in the file, not in the tree
 within it

---
 crates/syntax/src/lib.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/crates/syntax/src/lib.rs b/crates/syntax/src/lib.rs
index 42a95c1..2d99df6 100644
--- a/crates/syntax/src/lib.rs
+++ b/crates/syntax/src/lib.rs
@@ -22,7 +22,24 @@ pub use visitor::Visitor;
 
 /// Parses a string containing trees into ASTs.
 pub fn parse(text: &str) -> anyhow::Result<Vec<ast::Ast>> {
-    splitter::split_trees(text).map(parse_one).collect()
+    splitter::split_trees(text)
+        .map(|tree| parse_one(&with_position(text, tree)))
+        .collect()
+}
+
+/// Returns `tree`, which must be a part of `text`, with everything that precedes
+/// it blanked out, so that positions in it are those of the whole text.
+fn with_position(text: &str, tree: &str) -> String {
+    if tree.is_empty() {
+        return String::new();
+    }
+
+    let start = tree.as_ptr() as usize - text.as_ptr() as usize;
+    let blanks = text[..start].chars().map(|c| match c {
+        '\n' => '\n',
+        _ => ' ',
+    });
+    blanks.chain(tree.chars()).collect()
 }
 
 /// Parses a string containing a single tree into an AST.
-- 
2.43.0


From 007b4a05678d48ab289fa38fb57ab4ca03c32c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:53 +0000
Subject: [PATCH 07/20] fix: turn the function part of a root into an
 identifier, and strip one test_ prefix only

---
 crates/foundry/src/hir/combiner.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/foundry/src/hir/combiner.rs b/crates/foundry/src/hir/combiner.rs
index 37ecd0d..638dd82 100644
--- a/crates/foundry/src/hir/combiner.rs
+++ b/crates/foundry/src/hir/combiner.rs
@@ -2,7 +2,10 @@
 //! combiner.
 use std::{collections::HashSet, fmt, mem, result};
 
-use bulloak_syntax::{utils::upper_first_letter, FrontendError, Span};
+use bulloak_syntax::{
+    utils::{sanitize, upper_first_letter},
+    FrontendError, Span,
+};
 use thiserror::Error;
 
 use super::{ContractDefinition, Hir, Root};
@@ -232,8 +235,8 @@ fn update_children(
 
 /// Prefix the suffix of a test name.
 fn prefix_test_with(test_name: &str, prefix: &str) -> String {
-    let capitalized_fn_name = upper_first_letter(prefix);
-    let test_suffix = test_name.trim_start_matches("test_");
+    let capitalized_fn_name = upper_first_letter(&sanitize(prefix));
+    let test_suffix = test_name.strip_prefix("test_").unwrap_or(test_name);
     format!("test_{capitalized_fn_name}{test_suffix}")
 }
 
-- 
2.43.0


From 91a43fb6b59054a0f668faf1f0b57ab1711813b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:53 +0000
Subject: [PATCH 08/20] fix: return an error when the emitted code is not valid
 Solidity

---
 crates/foundry/src/scaffold/mod.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/crates/foundry/src/scaffold/mod.rs b/crates/foundry/src/scaffold/mod.rs
index 748ab52..90f4e3c 100644
--- a/crates/foundry/src/scaffold/mod.rs
+++ b/crates/foundry/src/scaffold/mod.rs
@@ -18,8 +18,7 @@ pub fn scaffold(text: &str, cfg: &Config) -> anyhow::Result<String> {
     let hir = translate(text, cfg)?;
     let pt = sol::Translator::new(cfg).translate(&hir);
     let source = sol::Formatter::new().emit(pt);
-    let formatted =
-        fmt(&source).expect("should format the emitted solidity code");
-
-    Ok(formatted)
+    fmt(&source).map_err(|_| {
+        anyhow::anyhow!("the tree does not translate to valid Solidity code")
+    })
 }
-- 
2.43.0


From 3831a2c0ef13587bda24e4fec8189ffdb1d55052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:05 +0000
Subject: [PATCH 09/20] fix: reject trees whose tests would share a name
 instead of dropping tests

---
 crates/foundry/src/hir/combiner.rs |  5 ++++
 crates/foundry/src/hir/mod.rs      | 38 ++++++++++++++++++++++++++----
 2 files changed, 39 insertions(+), 4 deletions(-)

diff --git a/crates/foundry/src/hir/combiner.rs b/crates/foundry/src/hir/combiner.rs
index 638dd82..58f5398 100644
--- a/crates/foundry/src/hir/combiner.rs
+++ b/crates/foundry/src/hir/combiner.rs
@@ -248,6 +248,11 @@ fn collect_modifier(
         return Some(child);
     };
 
+    // Tests are never shared between trees.
+    if test_or_modifier.is_function() {
+        return Some(Hir::FunctionDefinition(test_or_modifier));
+    }
+
     // If child is of type `FunctionDefinition` with the same identifier
     // as a child of another `ContractDefinition` of ty `Modifier`, then
     // they are duplicates.
diff --git a/crates/foundry/src/hir/mod.rs b/crates/foundry/src/hir/mod.rs
index d02c3b5..329e6cb 100644
--- a/crates/foundry/src/hir/mod.rs
+++ b/crates/foundry/src/hir/mod.rs
@@ -9,6 +9,8 @@ pub use hir::*;
 pub mod translator;
 pub mod visitor;
 
+use std::collections::HashMap;
+
 use bulloak_syntax::Ast;
 
 use crate::{config::Config, scaffold::modifiers::ModifierDiscoverer};
@@ -26,12 +28,40 @@ use crate::{config::Config, scaffold::modifiers::ModifierDiscoverer};
 pub fn translate(text: &str, cfg: &Config) -> anyhow::Result<Hir> {
     let asts = bulloak_syntax::parse(text)?;
 
-    if asts.len() == 1 {
-        return Ok(translate_one(&asts[0], cfg));
+    let hir = if asts.len() == 1 {
+        translate_one(&asts[0], cfg)
+    } else {
+        let hirs = asts.into_iter().map(|ast| translate_one(&ast, cfg));
+        combiner::Combiner::new().combine(text, hirs)?
+    };
+    ensure_unique_tests(&hir)?;
+
+    Ok(hir)
+}
+
+/// Returns an error if two tests would have the same name.
+fn ensure_unique_tests(hir: &Hir) -> anyhow::Result<()> {
+    let mut lines: HashMap<&str, usize> = HashMap::new();
+    let Hir::Root(root) = hir else { return Ok(()) };
+    for contract in &root.children {
+        let Hir::ContractDefinition(contract) = contract else { continue };
+        for function in &contract.children {
+            let Hir::FunctionDefinition(function) = function else { continue };
+            if !function.is_function() {
+                continue;
+            }
+
+            let line = function.span.start.line;
+            let name = function.identifier.as_str();
+            if let Some(previous) = lines.insert(name, line) {
+                anyhow::bail!(
+                    "bulloak error: lines {previous} and {line} produce the same test, '{name}'"
+                );
+            }
+        }
     }
 
-    let hirs = asts.into_iter().map(|ast| translate_one(&ast, cfg));
-    Ok(combiner::Combiner::new().combine(text, hirs)?)
+    Ok(())
 }
 
 /// Generates the HIR for a single AST.
-- 
2.43.0


From f3ae2ccfca7c62110fe7482ef5c3636c0df27eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:55 +0000
Subject: [PATCH 10/20] fix: count the byte offsets of the parser as bytes when
 looking up a line

---
 crates/foundry/src/check/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/foundry/src/check/utils.rs b/crates/foundry/src/check/utils.rs
index 9e43487..0747a2f 100644
--- a/crates/foundry/src/check/utils.rs
+++ b/crates/foundry/src/check/utils.rs
@@ -6,7 +6,7 @@ pub fn offset_to_line_column(content: &str, start: usize) -> (usize, usize) {
 
     // first line is `1`
     let mut line_counter = 1;
-    for (offset, c) in content.chars().enumerate() {
+    for (offset, c) in content.char_indices() {
         if c == '\n' {
             line_counter += 1;
         }
-- 
2.43.0


From 31fde15effc6bd306fbcf133879cd32e1c8c1e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:14 +0000
Subject: [PATCH 11/20] fix: reorder functions by position, each exactly once

---
 crates/bulloak/src/check.rs           |  7 +--
 crates/foundry/src/check/violation.rs | 84 ++++++++-------------------
 2 files changed, 24 insertions(+), 67 deletions(-)

diff --git a/crates/bulloak/src/check.rs b/crates/bulloak/src/check.rs
index 5b736ad..99b4244 100644
--- a/crates/bulloak/src/check.rs
+++ b/crates/bulloak/src/check.rs
@@ -97,12 +97,7 @@ impl Check {
                         if let Some(contract_hir) =
                             ctx.hir.clone().find_contract()
                         {
-                            ctx = fix_order(
-                                &violations,
-                                &contract_sol,
-                                contract_hir,
-                                ctx,
-                            );
+                            ctx = fix_order(&contract_sol, contract_hir, ctx);
                         }
                     }
                 }
diff --git a/crates/foundry/src/check/violation.rs b/crates/foundry/src/check/violation.rs
index f132294..3dfbfcf 100644
--- a/crates/foundry/src/check/violation.rs
+++ b/crates/foundry/src/check/violation.rs
@@ -1,5 +1,5 @@
 //! Defines a rule-checking error object.
-use std::{borrow::Cow, collections::HashSet, fmt};
+use std::{borrow::Cow, fmt};
 
 use bulloak_syntax::FrontendError;
 use forge_fmt::{
@@ -7,10 +7,7 @@ use forge_fmt::{
     solang_ext::{CodeLocationExt, SafeUnwrap},
 };
 use owo_colors::OwoColorize;
-use solang_parser::{
-    pt,
-    pt::{ContractDefinition, ContractPart},
-};
+use solang_parser::{pt, pt::ContractDefinition};
 use thiserror::Error;
 
 use super::{context::Context, location::Location};
@@ -278,21 +275,17 @@ fn find_contract_body_start(
 /// Rearranges functions in a Solidity contract to match the order in the HIR.
 ///
 /// The algorithm goes like this:
-/// 1. It first creates a set of function names present in `contract_hir` to
-///    identify the functions that need to be sorted.
-/// 2. It then iterates over the `violations` to correct the order of functions
-///    in `contract_sol`, matching them with `contract_hir`.
-/// 3. Functions not part of `contract_hir` are removed, as their correct
-///    position is unknown.
-/// 4. The sorted functions are then compiled into a string (`source`) and
+/// 1. It first collects the functions of `contract_sol` that are present in
+///    `contract_hir`, in the order of the latter. The correct position of other
+///    functions is unknown.
+/// 2. The sorted functions are then compiled into a string (`source`) and
 ///    simultaneously removed from a temporary string (`scratch`) that mirrors
 ///    the original source code.
-/// 5. Finally, the function reconstructs the contract's body by combining the
+/// 3. Finally, the function reconstructs the contract's body by combining the
 ///    sorted functions and any remaining parts of the contract (preserved in
 ///    `scratch`), ensuring all components are included in the output.
 ///
 /// # Arguments
-/// * `violations` - Order discrepancies between Solidity and HIR
 /// * `contract_sol` - Solidity contract to be corrected
 /// * `contract_hir` - HIR contract with correct function order
 /// * `ctx` - Current context with source code and processing data
@@ -304,70 +297,39 @@ fn find_contract_body_start(
 /// If the reconstructed Solidity string fails to parse
 #[must_use]
 pub fn fix_order(
-    violations: &[Violation],
     contract_sol: &Box<ContractDefinition>,
     contract_hir: &hir::ContractDefinition,
     ctx: Context,
 ) -> Context {
-    // 1. Create a set containing the functions that appear in the tree.
+    // 1. Take the functions that appear in the tree, in the order of the tree.
     //
-    // These are the functions that we know how to sort.
-    let fn_names: HashSet<String> = contract_hir
+    // These are the functions that we know how to sort. The position of the
+    // rest is unknown.
+    let fns: Vec<_> = contract_hir
         .children
         .iter()
-        .filter_map(|child| {
-            if let hir::Hir::FunctionDefinition(f) = &child {
-                Some(f.identifier.clone())
-            } else {
-                None
-            }
-        })
-        .collect();
-
-    // 2. Properly sort functions in a new vec.
-    let mut fns = contract_sol.parts.clone();
-    for violation in violations {
-        if let ViolationKind::FunctionOrderMismatch(f, sol_idx, hir_idx) =
-            &violation.kind
-        {
-            fns.remove(*sol_idx);
-            fns.insert(
-                *hir_idx,
-                ContractPart::FunctionDefinition(Box::new(f.clone())),
-            );
-        }
-    }
-
-    // 3. Remove functions that are not part of the hir since
-    // we don't know where they go.
-    let fns: Vec<&ContractPart> = fns
-        .iter()
-        .filter(|f| {
-            if let ContractPart::FunctionDefinition(f) = f {
-                fn_names.contains(&f.name.safe_unwrap().name)
-            } else {
-                false
-            }
+        .filter_map(|child| match child {
+            Hir::FunctionDefinition(f) => find_matching_fn(contract_sol, f),
+            _ => None,
         })
+        .map(|(_, f)| f.loc())
         .collect();
 
-    // 4. a - Add the functions that appear in the tree to the blank
+    // 2. a - Add the functions that appear in the tree to the blank
     // string `source`.
     //    b - Replace them with whitespace in `scratch`.
     //
-    // Since we sorted in a previous step, they'll appear sorted in
-    // the string. We do 4.b because we want to append the remaining
-    // functions after the sorted functions.
+    // They'll appear sorted in the string. We do 2.b because we want to append
+    // the remaining functions after the sorted functions.
     let mut scratch = ctx.src.clone();
     let mut source = Vec::with_capacity(fns.len());
-    for f in &fns {
-        let loc = f.loc();
-        let f = ctx.src[loc.start()..loc.end()].to_owned();
-        scratch = scratch.replace(&f, " ".repeat(f.len()).as_str());
-        source.push(f);
+    for loc in &fns {
+        let range = loc.start()..loc.end();
+        source.push(ctx.src[range.clone()].to_owned());
+        scratch.replace_range(range.clone(), &" ".repeat(range.len()));
     }
 
-    // 5. Replace the contract's body with the sorted functions and
+    // 3. Replace the contract's body with the sorted functions and
     // the extra functions contained in the scratch string.
     // We know there is at least two parts because we found order violations.
     let first_part_loc = contract_sol.parts[0].loc();
-- 
2.43.0


From a076a9a681f4a592929734d4a9d934002a80feb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:27 +0000
Subject: [PATCH 12/20] fix: insert a missing function after the closest
 function that is present

---
 crates/foundry/src/check/violation.rs | 29 ++++++++++++++-------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/crates/foundry/src/check/violation.rs b/crates/foundry/src/check/violation.rs
index 3dfbfcf..9d3c59e 100644
--- a/crates/foundry/src/check/violation.rs
+++ b/crates/foundry/src/check/violation.rs
@@ -235,20 +235,21 @@ fn get_insertion_offset(
     index: usize,
     src: impl AsRef<str>,
 ) -> usize {
-    if index == 0 {
-        return find_contract_body_start(contract_sol, src.as_ref());
-    }
-
-    match &contract_hir.children[index - 1] {
-        Hir::FunctionDefinition(prev_fn_hir) => {
-            find_matching_fn(contract_sol, prev_fn_hir)
-                .expect("matching function should exist")
-                .1
-                .loc()
-                .end()
-        }
-        _ => unreachable!("previous child should be a function definition"),
-    }
+    // Modifiers might be skipped, so the function goes after the closest
+    // preceding one that is present.
+    contract_hir.children[..index]
+        .iter()
+        .rev()
+        .find_map(|child| match child {
+            Hir::FunctionDefinition(prev_fn_hir) => {
+                find_matching_fn(contract_sol, prev_fn_hir)
+            }
+            _ => None,
+        })
+        .map_or_else(
+            || find_contract_body_start(contract_sol, src.as_ref()),
+            |(_, prev_fn_sol)| prev_fn_sol.loc().end(),
+        )
 }
 
 /// Finds the starting position of a contract's body in the source code.
-- 
2.43.0


From 65467058d713db0539ea2154449a5d5f899ad69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:43 +0000
Subject: [PATCH 13/20] fix: do not take a brace in a contract's header for the
 start of its body

---
 crates/foundry/src/check/violation.rs | 32 ++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/crates/foundry/src/check/violation.rs b/crates/foundry/src/check/violation.rs
index 9d3c59e..2ff1a80 100644
--- a/crates/foundry/src/check/violation.rs
+++ b/crates/foundry/src/check/violation.rs
@@ -265,12 +265,32 @@ fn find_contract_body_start(
     contract_sol: &pt::ContractDefinition,
     src: &str,
 ) -> usize {
-    let contract_start = contract_sol.loc.start();
-    let opening_brace_pos = src[contract_start..]
-        .find('{')
-        .expect("contract should have an opening brace");
-
-    contract_start + opening_brace_pos + 1
+    // Arguments passed to a base might contain braces.
+    let mut pos = contract_sol
+        .base
+        .last()
+        .map_or_else(|| contract_sol.loc.start(), |base| base.loc.end());
+    // And so might comments.
+    loop {
+        let header = &src[pos..];
+        let brace = header
+            .find('{')
+            .expect("contract should have an opening brace");
+        let comment = [("//", "\n"), ("/*", "*/")]
+            .into_iter()
+            .filter_map(|(open, close)| Some((header.find(open)?, close)))
+            .min();
+        match comment {
+            Some((start, close)) if start < brace => {
+                let start = start + 2;
+                let end = header[start..]
+                    .find(close)
+                    .expect("comment should be closed");
+                pos += start + end + close.len();
+            }
+            _ => return pos + brace + 1,
+        }
+    }
 }
 
 /// Rearranges functions in a Solidity contract to match the order in the HIR.
-- 
2.43.0


From 67784d93f4c3ab5998e4862475b0ca44be15be10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:58 +0000
Subject: [PATCH 14/20] fix: rename the contract where it is declared, and
 nothing that starts like it

---
 crates/foundry/src/check/violation.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/crates/foundry/src/check/violation.rs b/crates/foundry/src/check/violation.rs
index 2ff1a80..7451195 100644
--- a/crates/foundry/src/check/violation.rs
+++ b/crates/foundry/src/check/violation.rs
@@ -178,10 +178,16 @@ impl ViolationKind {
                     parse(&source).expect("should parse Solidity string");
                 ctx.from_parsed(parsed)
             }
-            ViolationKind::ContractNameNotMatches(new_name, old_name) => {
-                let source = ctx.src.replace(
-                    &format!("contract {old_name}"),
-                    &format!("contract {new_name}"),
+            ViolationKind::ContractNameNotMatches(new_name, _) => {
+                let Some(name) =
+                    find_contract(&ctx.pt).and_then(|contract| contract.name)
+                else {
+                    return ctx;
+                };
+                let mut source = ctx.src.clone();
+                source.replace_range(
+                    name.loc.start()..name.loc.end(),
+                    new_name,
                 );
                 let parsed =
                     parse(&source).expect("should parse Solidity string");
-- 
2.43.0


From 3f31e9740c3f94853fa48c78ae4e63ddacd44cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:03 +0000
Subject: [PATCH 15/20] fix: keep the source when adding a missing contract to
 it

---
 crates/foundry/src/check/violation.rs | 29 +++++++++++++++++----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/crates/foundry/src/check/violation.rs b/crates/foundry/src/check/violation.rs
index 7451195..5d416f9 100644
--- a/crates/foundry/src/check/violation.rs
+++ b/crates/foundry/src/check/violation.rs
@@ -171,11 +171,21 @@ impl ViolationKind {
     pub fn fix(&self, mut ctx: Context) -> Context {
         match self {
             ViolationKind::ContractMissing(_) => {
-                let pt = sol::Translator::new(&Config::default())
+                let mut pt = sol::Translator::new(&Config::default())
                     .translate(&ctx.hir);
-                let source = sol::Formatter::new().emit(pt.clone());
-                let parsed =
-                    parse(&source).expect("should parse Solidity string");
+                // Keep what the file already has.
+                if !ctx.pt.0.is_empty() {
+                    pt.0.retain(|part| {
+                        matches!(
+                            part,
+                            pt::SourceUnitPart::ContractDefinition(_)
+                        )
+                    });
+                }
+                let emitted = sol::Formatter::new().emit(pt);
+                let source = format!("{}\n\n{emitted}", ctx.src.trim_end());
+                let parsed = parse(source.trim_start())
+                    .expect("should parse Solidity string");
                 ctx.from_parsed(parsed)
             }
             ViolationKind::ContractNameNotMatches(new_name, _) => {
@@ -185,10 +195,8 @@ impl ViolationKind {
                     return ctx;
                 };
                 let mut source = ctx.src.clone();
-                source.replace_range(
-                    name.loc.start()..name.loc.end(),
-                    new_name,
-                );
+                source
+                    .replace_range(name.loc.start()..name.loc.end(), new_name);
                 let parsed =
                     parse(&source).expect("should parse Solidity string");
                 ctx.from_parsed(parsed)
@@ -279,9 +287,8 @@ fn find_contract_body_start(
     // And so might comments.
     loop {
         let header = &src[pos..];
-        let brace = header
-            .find('{')
-            .expect("contract should have an opening brace");
+        let brace =
+            header.find('{').expect("contract should have an opening brace");
         let comment = [("//", "\n"), ("/*", "*/")]
             .into_iter()
             .filter_map(|(open, close)| Some((header.find(open)?, close)))
-- 
2.43.0


From 530002dea221724ffe3781c511466f5088fc0205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:27 +0000
Subject: [PATCH 16/20] fix: report and fail on files that cannot be checked,
 fixed or written

---
 crates/bulloak/src/check.rs           | 100 ++++++++++++++------------
 crates/foundry/src/check/violation.rs |  52 +++++++-------
 2 files changed, 84 insertions(+), 68 deletions(-)

diff --git a/crates/bulloak/src/check.rs b/crates/bulloak/src/check.rs
index 99b4244..85d795c 100644
--- a/crates/bulloak/src/check.rs
+++ b/crates/bulloak/src/check.rs
@@ -65,49 +65,20 @@ impl Check {
 
         if self.fix {
             let mut fixed_count = 0;
-            for mut ctx in ctxs {
-                let violations = rules::StructuralMatcher::check(&ctx);
-                let fixable_count =
-                    violations.iter().filter(|v| v.is_fixable()).count();
-
-                // Process violations that affect function order first.
-                let violations = violations.into_iter().filter(|v| {
-                    !matches!(
-                        v.kind,
-                        ViolationKind::FunctionOrderMismatch(_, _, _)
-                    )
-                });
-                for violation in violations {
-                    ctx = violation.kind.fix(ctx);
-                }
-
-                // Second pass fixing order violations.
-                let violations = rules::StructuralMatcher::check(&ctx);
-                let violations: Vec<Violation> = violations
-                    .into_iter()
-                    .filter(|v| {
-                        matches!(
-                            v.kind,
-                            ViolationKind::FunctionOrderMismatch(_, _, _)
-                        )
-                    })
-                    .collect();
-                if !violations.is_empty() {
-                    if let Some(contract_sol) = find_contract(&ctx.pt) {
-                        if let Some(contract_hir) =
-                            ctx.hir.clone().find_contract()
-                        {
-                            ctx = fix_order(&contract_sol, contract_hir, ctx);
-                        }
+            let mut failed = false;
+            for ctx in ctxs {
+                let sol = ctx.sol.clone();
+                match self.fix(ctx) {
+                    Ok(count) => fixed_count += count,
+                    Err(e) => {
+                        failed = true;
+                        eprintln!(
+                            "{}: could not fix {}: {e}",
+                            "error".red(),
+                            sol.display()
+                        );
                     }
                 }
-
-                let sol = ctx.sol.clone();
-                let formatted =
-                    ctx.fmt().expect("should format the emitted solidity code");
-                self.write(&formatted, sol);
-
-                fixed_count += fixable_count;
             }
 
             let issue_literal = pluralize(fixed_count, "issue", "issues");
@@ -117,6 +88,12 @@ impl Check {
                 fixed_count,
                 issue_literal
             );
+
+            if !violations.is_empty() {
+                exit(&violations);
+            } else if failed {
+                std::process::exit(1);
+            }
         } else {
             for ctx in ctxs {
                 violations.append(&mut rules::StructuralMatcher::check(&ctx));
@@ -126,18 +103,53 @@ impl Check {
         }
     }
 
+    /// Fixes the violations of a file and returns how many there were.
+    fn fix(&self, mut ctx: Context) -> anyhow::Result<usize> {
+        let violations = rules::StructuralMatcher::check(&ctx);
+        let fixable_count =
+            violations.iter().filter(|v| v.is_fixable()).count();
+
+        // Process violations that affect function order last.
+        let violations = violations.into_iter().filter(|v| {
+            !matches!(v.kind, ViolationKind::FunctionOrderMismatch(_, _, _))
+        });
+        for violation in violations {
+            ctx = violation.kind.fix(ctx)?;
+        }
+
+        // Second pass fixing order violations.
+        let unsorted = rules::StructuralMatcher::check(&ctx).iter().any(|v| {
+            matches!(v.kind, ViolationKind::FunctionOrderMismatch(_, _, _))
+        });
+        if unsorted {
+            if let Some(contract_sol) = find_contract(&ctx.pt) {
+                if let Some(contract_hir) = ctx.hir.clone().find_contract() {
+                    ctx = fix_order(&contract_sol, contract_hir, ctx)?;
+                }
+            }
+        }
+
+        let sol = ctx.sol.clone();
+        let formatted = ctx.fmt().map_err(|e| anyhow::anyhow!("{e}"))?;
+        self.write(&formatted, sol)?;
+
+        Ok(fixable_count)
+    }
+
     /// Handles writing the output of the `check` command.
     ///
     /// If the `--stdout` flag was passed, then the output is printed to
     /// stdout, else it is written to the corresponding file.
-    fn write(&self, output: &str, sol: PathBuf) {
+    fn write(&self, output: &str, sol: PathBuf) -> std::io::Result<()> {
         if self.stdout {
             println!("{} {}", "-->".blue(), sol.to_string_lossy());
             println!("{}", output.trim());
             println!("{}", "<--".blue());
-        } else if let Err(e) = fs::write(sol, output) {
-            eprintln!("{}: {e}", "warn".yellow());
+        } else {
+            fs::write(sol, output)?;
         }
+
+        Ok(())
     }
 }
 
diff --git a/crates/foundry/src/check/violation.rs b/crates/foundry/src/check/violation.rs
index 5d416f9..88a8a1b 100644
--- a/crates/foundry/src/check/violation.rs
+++ b/crates/foundry/src/check/violation.rs
@@ -168,8 +168,11 @@ impl ViolationKind {
     }
 
     /// Returns a new context with this violation fixed.
-    pub fn fix(&self, mut ctx: Context) -> Context {
-        match self {
+    ///
+    /// # Errors
+    /// If the fixed source code isn't valid Solidity.
+    pub fn fix(&self, mut ctx: Context) -> anyhow::Result<Context> {
+        let source = match self {
             ViolationKind::ContractMissing(_) => {
                 let mut pt = sol::Translator::new(&Config::default())
                     .translate(&ctx.hir);
@@ -183,31 +186,28 @@ impl ViolationKind {
                     });
                 }
                 let emitted = sol::Formatter::new().emit(pt);
-                let source = format!("{}\n\n{emitted}", ctx.src.trim_end());
-                let parsed = parse(source.trim_start())
-                    .expect("should parse Solidity string");
-                ctx.from_parsed(parsed)
+                format!("{}\n\n{emitted}", ctx.src.trim_end())
+                    .trim_start()
+                    .to_owned()
             }
             ViolationKind::ContractNameNotMatches(new_name, _) => {
                 let Some(name) =
                     find_contract(&ctx.pt).and_then(|contract| contract.name)
                 else {
-                    return ctx;
+                    return Ok(ctx);
                 };
                 let mut source = ctx.src.clone();
                 source
                     .replace_range(name.loc.start()..name.loc.end(), new_name);
-                let parsed =
-                    parse(&source).expect("should parse Solidity string");
-                ctx.from_parsed(parsed)
+                source
             }
             // Assume order violations have been taken care of first.
             ViolationKind::MatchingFunctionMissing(fn_hir, index) => {
                 let Some(contract_hir) = ctx.hir.find_contract() else {
-                    return ctx;
+                    return Ok(ctx);
                 };
                 let Some(contract_sol) = find_contract(&ctx.pt) else {
-                    return ctx;
+                    return Ok(ctx);
                 };
 
                 let offset = get_insertion_offset(
@@ -217,17 +217,23 @@ impl ViolationKind {
                     &ctx.src,
                 );
                 ctx.insert_function_at(fn_hir, offset);
-
-                let source = ctx.src.clone();
-                let parsed =
-                    parse(&source).expect("should parse solidity string");
-                ctx.from_parsed(parsed)
+                ctx.src.clone()
             }
-            _ => ctx,
-        }
+            _ => return Ok(ctx),
+        };
+
+        reparse(ctx, &source)
     }
 }
 
+/// Updates the context with new source code.
+fn reparse(ctx: Context, source: &str) -> anyhow::Result<Context> {
+    let parsed = parse(source).map_err(|_| {
+        anyhow::anyhow!("the fixed source code is not valid Solidity")
+    })?;
+    Ok(ctx.from_parsed(parsed))
+}
+
 /// Calculates the insertion offset for a new function in a contract's source
 /// code.
 ///
@@ -327,14 +333,13 @@ fn find_contract_body_start(
 /// # Returns
 /// Updated Context with reordered functions in Solidity source code
 ///
-/// # Panics
+/// # Errors
 /// If the reconstructed Solidity string fails to parse
-#[must_use]
 pub fn fix_order(
     contract_sol: &Box<ContractDefinition>,
     contract_hir: &hir::ContractDefinition,
     ctx: Context,
-) -> Context {
+) -> anyhow::Result<Context> {
     // 1. Take the functions that appear in the tree, in the order of the tree.
     //
     // These are the functions that we know how to sort. The position of the
@@ -397,6 +402,5 @@ pub fn fix_order(
         )
     };
 
-    let parsed = parse(&source).expect("should parse solidity string");
-    ctx.from_parsed(parsed)
+    reparse(ctx, &source)
 }
-- 
2.43.0


From 12debc7d02fb3e221633fa89cf3a4f77d68cfd29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:41 +0000
Subject: [PATCH 17/20] fix: fail when a scaffolded file cannot be written, and
 name semantic errors

---
 crates/bulloak/src/scaffold.rs        | 12 ++++++------
 crates/foundry/src/check/violation.rs |  4 +++-
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/crates/bulloak/src/scaffold.rs b/crates/bulloak/src/scaffold.rs
index 89ade96..812befa 100644
--- a/crates/bulloak/src/scaffold.rs
+++ b/crates/bulloak/src/scaffold.rs
@@ -96,7 +96,7 @@ impl Scaffold {
 
         if self.write_files {
             let file = file.with_extension("t.sol");
-            self.write_file(&formatted, &file);
+            self.write_file(&formatted, &file)?;
         } else {
             println!("{formatted}");
         }
@@ -108,7 +108,7 @@ impl Scaffold {
     ///
     /// If the file doesn't exist it will create it. If it exists,
     /// and `--force-write` was not passed, it will skip writing to the file.
-    fn write_file(&self, text: &str, file: &PathBuf) {
+    fn write_file(&self, text: &str, file: &PathBuf) -> anyhow::Result<()> {
         // Don't overwrite files unless `--force-write` was passed.
         if file.exists() && !self.force_write {
             eprintln!(
@@ -120,12 +120,12 @@ impl Scaffold {
                 "    {} The corresponding `.t.sol` file already exists",
                 "=".blue()
             );
-            return;
+            return Ok(());
         }
 
-        if let Err(err) = fs::write(file, text) {
-            eprintln!("{}: {err}", "error".red());
-        };
+        fs::write(file, text)?;
+
+        Ok(())
     }
 
     /// Reports errors that occurred during file processing.
diff --git a/crates/foundry/src/check/violation.rs b/crates/foundry/src/check/violation.rs
index 88a8a1b..b894f39 100644
--- a/crates/foundry/src/check/violation.rs
+++ b/crates/foundry/src/check/violation.rs
@@ -123,7 +123,9 @@ fn format_frontend_error(error: &anyhow::Error) -> String {
         error.downcast_ref::<crate::hir::combiner::Error>()
     {
         format!("an error occurred while parsing the tree: {}", error.kind())
-    } else if error.downcast_ref::<bulloak_syntax::semantics::Error>().is_some()
+    } else if error
+        .downcast_ref::<bulloak_syntax::semantics::Errors>()
+        .is_some()
     {
         "at least one semantic error occurred while parsing the tree".to_owned()
     } else {
-- 
2.43.0


From 5223775214d12532a2751aa64be21cdf8e017528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:56 +0000
Subject: [PATCH 18/20] fix: name the tests a tree defines twice when checking
 it

---
 crates/foundry/src/check/violation.rs |  4 ++++
 crates/foundry/src/hir/mod.rs         | 16 ++++++++++++----
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/crates/foundry/src/check/violation.rs b/crates/foundry/src/check/violation.rs
index b894f39..2bf0df2 100644
--- a/crates/foundry/src/check/violation.rs
+++ b/crates/foundry/src/check/violation.rs
@@ -128,6 +128,10 @@ fn format_frontend_error(error: &anyhow::Error) -> String {
         .is_some()
     {
         "at least one semantic error occurred while parsing the tree".to_owned()
+    } else if let Some(error) =
+        error.downcast_ref::<crate::hir::DuplicateTest>()
+    {
+        error.to_string()
     } else {
         "an error occurred while parsing the solidity file".to_owned()
     }
diff --git a/crates/foundry/src/hir/mod.rs b/crates/foundry/src/hir/mod.rs
index 329e6cb..42ec5a4 100644
--- a/crates/foundry/src/hir/mod.rs
+++ b/crates/foundry/src/hir/mod.rs
@@ -39,8 +39,17 @@ pub fn translate(text: &str, cfg: &Config) -> anyhow::Result<Hir> {
     Ok(hir)
 }
 
+/// An error that occurs when two tests would have the same name.
+#[derive(thiserror::Error, Clone, Debug, Eq, PartialEq)]
+#[error("bulloak error: lines {previous} and {line} produce the same test, '{name}'")]
+pub struct DuplicateTest {
+    previous: usize,
+    line: usize,
+    name: String,
+}
+
 /// Returns an error if two tests would have the same name.
-fn ensure_unique_tests(hir: &Hir) -> anyhow::Result<()> {
+fn ensure_unique_tests(hir: &Hir) -> Result<(), DuplicateTest> {
     let mut lines: HashMap<&str, usize> = HashMap::new();
     let Hir::Root(root) = hir else { return Ok(()) };
     for contract in &root.children {
@@ -54,9 +63,8 @@ fn ensure_unique_tests(hir: &Hir) -> anyhow::Result<()> {
             let line = function.span.start.line;
             let name = function.identifier.as_str();
             if let Some(previous) = lines.insert(name, line) {
-                anyhow::bail!(
-                    "bulloak error: lines {previous} and {line} produce the same test, '{name}'"
-                );
+                let name = name.to_owned();
+                return Err(DuplicateTest { previous, line, name });
             }
         }
     }
-- 
2.43.0


From 17fccfa78283557fe4d022a4148ebc45ccf6b620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:45 +0000
Subject: [PATCH 19/20] fix: take the semicolon of a function without a body as
 its end

---
 crates/foundry/src/check/violation.rs | 48 +++++++++++++++++----------
 1 file changed, 31 insertions(+), 17 deletions(-)

diff --git a/crates/foundry/src/check/violation.rs b/crates/foundry/src/check/violation.rs
index 2bf0df2..67b8125 100644
--- a/crates/foundry/src/check/violation.rs
+++ b/crates/foundry/src/check/violation.rs
@@ -1,5 +1,5 @@
 //! Defines a rule-checking error object.
-use std::{borrow::Cow, fmt};
+use std::{borrow::Cow, fmt, ops::Range};
 
 use bulloak_syntax::FrontendError;
 use forge_fmt::{
@@ -274,7 +274,7 @@ fn get_insertion_offset(
         })
         .map_or_else(
             || find_contract_body_start(contract_sol, src.as_ref()),
-            |(_, prev_fn_sol)| prev_fn_sol.loc().end(),
+            |(_, prev_fn_sol)| find_function_end(prev_fn_sol, src.as_ref()),
         )
 }
 
@@ -285,35 +285,50 @@ fn get_insertion_offset(
 /// * `src` - Full source code string
 ///
 /// # Returns
-/// `Result` with the position immediately after the opening brace, or an error
-/// if not found
+/// The position immediately after the opening brace
 fn find_contract_body_start(
     contract_sol: &pt::ContractDefinition,
     src: &str,
 ) -> usize {
     // Arguments passed to a base might contain braces.
-    let mut pos = contract_sol
+    let header_end = contract_sol
         .base
         .last()
         .map_or_else(|| contract_sol.loc.start(), |base| base.loc.end());
-    // And so might comments.
+    find_after(src, header_end, '{')
+}
+
+/// Finds where a function ends in the source code.
+///
+/// The location of a function without a body doesn't include its semicolon.
+fn find_function_end(function: &pt::FunctionDefinition, src: &str) -> usize {
+    let end = function.loc().end();
+    if function.body.is_some() {
+        end
+    } else {
+        find_after(src, end, ';')
+    }
+}
+
+/// Returns the position immediately after the first `token` that comes after
+/// `pos` and isn't part of a comment.
+fn find_after(src: &str, mut pos: usize, token: char) -> usize {
     loop {
-        let header = &src[pos..];
-        let brace =
-            header.find('{').expect("contract should have an opening brace");
+        let rest = &src[pos..];
+        let found = rest.find(token).expect("parsed code should have a token");
         let comment = [("//", "\n"), ("/*", "*/")]
             .into_iter()
-            .filter_map(|(open, close)| Some((header.find(open)?, close)))
+            .filter_map(|(open, close)| Some((rest.find(open)?, close)))
             .min();
         match comment {
-            Some((start, close)) if start < brace => {
+            Some((start, close)) if start < found => {
                 let start = start + 2;
-                let end = header[start..]
+                let end = rest[start..]
                     .find(close)
                     .expect("comment should be closed");
                 pos += start + end + close.len();
             }
-            _ => return pos + brace + 1,
+            _ => return pos + found + token.len_utf8(),
         }
     }
 }
@@ -350,14 +365,14 @@ pub fn fix_order(
     //
     // These are the functions that we know how to sort. The position of the
     // rest is unknown.
-    let fns: Vec<_> = contract_hir
+    let fns: Vec<Range<usize>> = contract_hir
         .children
         .iter()
         .filter_map(|child| match child {
             Hir::FunctionDefinition(f) => find_matching_fn(contract_sol, f),
             _ => None,
         })
-        .map(|(_, f)| f.loc())
+        .map(|(_, f)| f.loc().start()..find_function_end(f, &ctx.src))
         .collect();
 
     // 2. a - Add the functions that appear in the tree to the blank
@@ -368,8 +383,7 @@ pub fn fix_order(
     // the remaining functions after the sorted functions.
     let mut scratch = ctx.src.clone();
     let mut source = Vec::with_capacity(fns.len());
-    for loc in &fns {
-        let range = loc.start()..loc.end();
+    for range in &fns {
         source.push(ctx.src[range.clone()].to_owned());
         scratch.replace_range(range.clone(), &" ".repeat(range.len()));
     }
-- 
2.43.0


From dbac544a2904cd606542f61da5ed59b2e0ae71f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:03 +0000
Subject: [PATCH 20/20] fix: keep a comment at the end of the Solidity file

---
 crates/foundry/src/check/context.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/foundry/src/check/context.rs b/crates/foundry/src/check/context.rs
index 88ff852..ba51d47 100644
--- a/crates/foundry/src/check/context.rs
+++ b/crates/foundry/src/check/context.rs
@@ -62,7 +62,11 @@ impl Context {
             })?;
 
         let sol = get_path_with_ext(&tree, "t.sol")?;
-        let src = try_read_to_string(&sol)?;
+        let mut src = try_read_to_string(&sol)?;
+        // The formatter drops a comment on the last line if it isn't finished.
+        if !src.ends_with('\n') {
+            src.push('\n');
+        }
         let parsed = forge_fmt::parse(&src).map_err(|_| {
             let sol_filename = sol.to_string_lossy().into_owned();
             Violation::new(
-- 
2.43.0

