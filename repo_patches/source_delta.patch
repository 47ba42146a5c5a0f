From bd9091fef2a1de5d0a87cc7b7cccf194a9826066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:54 +0000
Subject: [PATCH 01/19] fix: give every alternation and substring group an exit
 state of its own

The branches of a nested group were repointed by looking only at the last
state of each branch, so ((a|b)|c) rejected 'a' and accepted 'ac'.
---
 noodle/src/expression.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/noodle/src/expression.rs b/noodle/src/expression.rs
index ba1212a..4364e8b 100644
--- a/noodle/src/expression.rs
+++ b/noodle/src/expression.rs
@@ -100,9 +100,12 @@ impl Expression {
                     Self::build_states(alt, states);
                     end_indexes.push(states.len() - 1);
                 }
+                // Join all of the alternatives in a state of their own, so that none of their
+                // edges can be mistaken for this group's exit by an enclosing group
                 let next_index = states.len();
+                Self::push_join_state(states);
                 for end_index in end_indexes {
-                    // Repoint the terminal states to the true success state
+                    // Repoint the terminal states to the join state
                     let mut epsilon_states = states[end_index].epsilon_states_bitset_mut();
                     if epsilon_states.contains(end_index + 1) {
                         epsilon_states.remove(end_index + 1);
@@ -128,8 +131,9 @@ impl Expression {
                     end_indexes.push(states.len() - 1);
                 }
                 let next_index = states.len();
+                Self::push_join_state(states);
                 for end_index in end_indexes {
-                    // Add the true success state to the terminal states
+                    // Add the join state to the terminal states
                     let mut epsilon_states = states[end_index].epsilon_states_bitset_mut();
                     if epsilon_states.contains(end_index + 1) {
                         epsilon_states.insert(next_index);
@@ -192,6 +196,14 @@ impl Expression {
         }
     }
 
+    /// Push a state which does nothing but continue to the next state
+    fn push_join_state(states: &mut Vec<State>) {
+        let next_index = states.len() + 1;
+        let mut state = State::new();
+        state.epsilon_states_bitset_mut().insert(next_index);
+        states.push(state);
+    }
+
     /// Perform an optimization pass on the NFA, modifying `states` so
     /// that it produces an equivalent NFA that can be evaluated more efficiently
     ///
-- 
2.43.0


From cd65221b8af6e837e5ef9625813ec78a9af56588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:54 +0000
Subject: [PATCH 02/19] fix: compile an empty repetition to a state of its own

x{0} compiled to no state at all, so a group that ended (or consisted of)
one had the wrong exit state: (a{0}|b) did not match 'b'.
---
 noodle/src/expression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/noodle/src/expression.rs b/noodle/src/expression.rs
index 4364e8b..a31bd29 100644
--- a/noodle/src/expression.rs
+++ b/noodle/src/expression.rs
@@ -154,7 +154,7 @@ impl Expression {
                 term: _,
                 min: 0,
                 max: Some(0),
-            } => {}
+            } => Self::push_join_state(states),
             parser::Ast::Repetition {
                 term,
                 min: 1,
-- 
2.43.0


From 1d4b3de3f79fccf19d416af25e0e29e0917b44f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:47 +0000
Subject: [PATCH 03/19] fix: bounds-check bit set indexes in release builds

Indexes and sizes were only checked by debug assertions, so an expression
with more than 16K states (.{20000}) wrote outside its sets in release
builds. The word-wise loops stay unchecked, behind a length assertion.
---
 noodle/src/bitset.rs | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/noodle/src/bitset.rs b/noodle/src/bitset.rs
index 5dc7dc5..aa5dcac 100644
--- a/noodle/src/bitset.rs
+++ b/noodle/src/bitset.rs
@@ -135,13 +135,13 @@ impl<Idx: Index> BitSet<Idx> {
 
     pub fn slice(&self, index: Idx) -> BitSetRef<'_, ()> {
         let range = self.size.slice(index);
-        let blocks = unsafe { self.blocks.get_unchecked(range) };
+        let blocks = &self.blocks[range];
         BitSetRef { blocks, size: () }
     }
 
     pub fn slice_mut(&mut self, index: Idx) -> BitSetRefMut<'_, ()> {
         let range = self.size.slice(index);
-        let blocks = unsafe { self.blocks.get_unchecked_mut(range) };
+        let blocks = &mut self.blocks[range];
         BitSetRefMut { blocks, size: () }
     }
 
@@ -207,7 +207,7 @@ impl fmt::Debug for BitSet<usize> {
 impl BitSet<(usize, usize)> {
     pub fn slice2d(&self, index: usize) -> BitSetRef2D<'_> {
         let range = self.size.total_size() * index..self.size.total_size() * (index + 1);
-        let blocks = unsafe { self.blocks.get_unchecked(range) };
+        let blocks = &self.blocks[range];
         BitSetRef {
             blocks,
             size: self.size.1,
@@ -215,7 +215,7 @@ impl BitSet<(usize, usize)> {
     }
     pub fn slice2d_mut(&mut self, index: usize) -> BitSetRefMut2D<'_> {
         let range = self.size.total_size() * index..self.size.total_size() * (index + 1);
-        let blocks = unsafe { self.blocks.get_unchecked_mut(range) };
+        let blocks = &mut self.blocks[range];
         BitSetRefMut {
             blocks,
             size: self.size.1,
@@ -274,7 +274,7 @@ impl<'a, Idx: Index> BitSetRef<'a, Idx> {
     }
     pub fn contains(&self, index: usize) -> bool {
         let (block, bit) = div_rem(index, BLOCK_BITS);
-        let b = unsafe { self.blocks.get_unchecked(block) };
+        let b = self.blocks[block];
         b & (1 << bit) != 0
     }
     pub fn is_subset(&self, other: &Self) -> bool {
@@ -301,7 +301,7 @@ impl<'a, Idx: Index> BitSetRef<'a, Idx> {
 impl<Idx: SplitIndex> BitSetRef<'_, Idx> {
     pub fn slice(&self, index: Idx::OuterIndex) -> BitSetRef<Idx::InnerIndex> {
         let (range, inner_size) = self.size.slice_outer(index);
-        let blocks = unsafe { self.blocks.get_unchecked(range) };
+        let blocks = &self.blocks[range];
         BitSetRef {
             blocks,
             size: inner_size,
@@ -328,7 +328,7 @@ impl<'a, Idx: Index> BitSetRefMut<'a, Idx> {
     }
     pub fn contains(&self, index: usize) -> bool {
         let (block, bit) = div_rem(index, BLOCK_BITS);
-        let b = unsafe { self.blocks.get_unchecked(block) };
+        let b = self.blocks[block];
         b & (1 << bit) != 0
     }
     pub fn ones(&'a self) -> Ones<'a> {
@@ -340,43 +340,43 @@ impl<'a, Idx: Index> BitSetRefMut<'a, Idx> {
     }
     pub fn remove(&mut self, index: usize) {
         let (block, bit) = div_rem(index, BLOCK_BITS);
-        let b = unsafe { self.blocks.get_unchecked_mut(block) };
+        let b = &mut self.blocks[block];
         *b &= !(1 << bit);
     }
     pub fn insert(&mut self, index: usize) {
         let (block, bit) = div_rem(index, BLOCK_BITS);
-        let b = unsafe { self.blocks.get_unchecked_mut(block) };
+        let b = &mut self.blocks[block];
         *b |= 1 << bit;
     }
     pub fn clear(&mut self) {
         self.blocks.iter_mut().for_each(|x| *x = 0);
     }
     pub fn is_subset(&self, other: BitSetRef<'_, Idx>) -> bool {
-        debug_assert!(self.blocks.len() >= other.blocks.len());
+        assert!(self.blocks.len() >= other.blocks.len());
         (0..other.blocks.len()).all(|i| unsafe {
             (*self.blocks.get_unchecked(i) & !*other.blocks.get_unchecked(i)) == 0
         })
     }
     pub fn union_with(&mut self, other: BitSetRef<'_, Idx>) {
-        debug_assert!(self.blocks.len() >= other.blocks.len());
+        assert!(self.blocks.len() >= other.blocks.len());
         for i in 0..other.blocks.len() {
             unsafe { *self.blocks.get_unchecked_mut(i) |= *other.blocks.get_unchecked(i) };
         }
     }
     pub fn difference_with(&mut self, other: BitSetRef<'_, Idx>) {
-        debug_assert!(self.blocks.len() >= other.blocks.len());
+        assert!(self.blocks.len() >= other.blocks.len());
         for i in 0..other.blocks.len() {
             unsafe { *self.blocks.get_unchecked_mut(i) &= !*other.blocks.get_unchecked(i) };
         }
     }
     pub fn intersect_with(&mut self, other: BitSetRef<'_, Idx>) {
-        debug_assert!(self.blocks.len() >= other.blocks.len());
+        assert!(self.blocks.len() >= other.blocks.len());
         for i in 0..other.blocks.len() {
             unsafe { *self.blocks.get_unchecked_mut(i) &= *other.blocks.get_unchecked(i) };
         }
     }
     pub fn copy_from(&mut self, other: BitSetRef<'_, Idx>) {
-        debug_assert_eq!(self.blocks.len(), other.blocks.len());
+        assert_eq!(self.blocks.len(), other.blocks.len());
         for i in 0..self.blocks.len() {
             unsafe { *self.blocks.get_unchecked_mut(i) = *other.blocks.get_unchecked(i) };
         }
@@ -386,7 +386,7 @@ impl<'a, Idx: Index> BitSetRefMut<'a, Idx> {
 impl<Idx: SplitIndex> BitSetRefMut<'_, Idx> {
     pub fn slice(&self, index: Idx::OuterIndex) -> BitSetRef<Idx::InnerIndex> {
         let (range, inner_size) = self.size.slice_outer(index);
-        let blocks = unsafe { self.blocks.get_unchecked(range) };
+        let blocks = &self.blocks[range];
         BitSetRef {
             blocks,
             size: inner_size,
@@ -395,7 +395,7 @@ impl<Idx: SplitIndex> BitSetRefMut<'_, Idx> {
 
     pub fn slice_mut(&mut self, index: Idx::OuterIndex) -> BitSetRefMut<Idx::InnerIndex> {
         let (range, inner_size) = self.size.slice_outer(index);
-        let blocks = unsafe { self.blocks.get_unchecked_mut(range) };
+        let blocks = &mut self.blocks[range];
         BitSetRefMut {
             blocks,
             size: inner_size,
-- 
2.43.0


From 9c6514421e7a4ca6574ece289c164980c7dfc074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:47 +0000
Subject: [PATCH 04/19] fix: expand anagrams inside repetitions

<ab>? and (<ab>:-) reached Expression with their anagram unexpanded, and
panicked there.
---
 noodle/src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/noodle/src/parser.rs b/noodle/src/parser.rs
index dbe938b..8261b46 100644
--- a/noodle/src/parser.rs
+++ b/noodle/src/parser.rs
@@ -219,10 +219,10 @@ impl QueryAst {
                     nodes.iter_mut().for_each(|n| visit(n, action))
                 }
                 Ast::Repetition {
-                    term: _,
+                    term,
                     min: _,
                     max: _,
-                } => (),
+                } => visit(term, action),
                 Ast::Anagram { kind: _, bank: _ } => action(node),
             }
         }
-- 
2.43.0


From fed34df2f669424d0bcdd7daff347502ac19e7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:47 +0000
Subject: [PATCH 05/19] fix: let block comments end

ANY+ consumed the closing */, so a /* comment */ could never match.
---
 noodle/src/noodle_grammar.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/noodle/src/noodle_grammar.pest b/noodle/src/noodle_grammar.pest
index 486f01c..19278c2 100644
--- a/noodle/src/noodle_grammar.pest
+++ b/noodle/src/noodle_grammar.pest
@@ -1,7 +1,7 @@
 WHITESPACE = _{ " " }
 COMMENT = _{ 
     (("//" | "--") ~ ANY+) |
-    ("/*" ~ ANY+ ~ "*/")
+    ("/*" ~ (!"*/" ~ ANY)* ~ "*/")
 }
 
 // Note: Keep field names human-readable, they end up in error messages
-- 
2.43.0


From 36a422b22700f08dfd94b5373a2b7eb7483bb21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:47 +0000
Subject: [PATCH 06/19] fix: do not allow spaces inside a letter range

[a - c] was accepted, and then read as the range from 'a' to ' '.
---
 noodle/src/noodle_grammar.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/noodle/src/noodle_grammar.pest b/noodle/src/noodle_grammar.pest
index 19278c2..778ae32 100644
--- a/noodle/src/noodle_grammar.pest
+++ b/noodle/src/noodle_grammar.pest
@@ -13,7 +13,7 @@ whitespace = _{ "_" }
 
 character = { ASCII_ALPHA | dot | punctuation | whitespace }
 dot = { "." }
-letter_range = { ASCII_ALPHA ~ "-" ~ ASCII_ALPHA }
+letter_range = @{ ASCII_ALPHA ~ "-" ~ ASCII_ALPHA }
 invert = { "^" }
 class = { "[" ~ invert? ~ (letter_range | character)+ ~ "]" }
 anagram_body = { ASCII_ALPHA+ }
-- 
2.43.0


From 1bbedbcebcf1d072224e769b93848350efc9b85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:28 +0000
Subject: [PATCH 07/19] fix: accept every dictionary name verbatim

#dictionary was shadowed by #dict (and then named the dictionary 'ionary...'),
digits were rejected, and hyphens were dropped from the name.
---
 noodle/src/noodle_grammar.pest | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/noodle/src/noodle_grammar.pest b/noodle/src/noodle_grammar.pest
index 778ae32..1cd5ba3 100644
--- a/noodle/src/noodle_grammar.pest
+++ b/noodle/src/noodle_grammar.pest
@@ -78,7 +78,8 @@ macro_value = { (' '..'~')* } // Nearly any ASCII character
 macro_define = { SOI ~ macro_name ~ "=" ~ macro_value ~ EOI }
 
 pragma_words = { ^"#words" ~ number }
-pragma_dict = { (^"#dict" | ^"#dictionary") ~ (character | "-")+ }
+dict_name = @{ (ASCII_ALPHA | ASCII_DIGIT | "." | "'" | "_" | "-")+ }
+pragma_dict = { (^"#dictionary" | ^"#dict") ~ dict_name }
 pragma_limit = {^"#limit" ~ number }
 pragma_quiet = {^"#quiet"}
 pragma_wordlist = {^"#wordlist"}
-- 
2.43.0


From 01f38c1f3ad4674036b0cc1208bf0703cdcafa7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:28 +0000
Subject: [PATCH 08/19] fix: reject numbers that do not fit instead of
 panicking

---
 noodle/src/noodle_grammar.pest | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/noodle/src/noodle_grammar.pest b/noodle/src/noodle_grammar.pest
index 1cd5ba3..e9d6a79 100644
--- a/noodle/src/noodle_grammar.pest
+++ b/noodle/src/noodle_grammar.pest
@@ -6,7 +6,8 @@ COMMENT = _{
 
 // Note: Keep field names human-readable, they end up in error messages
 
-number = @{ ASCII_DIGIT+ }
+// (9 digits always fit the integers they are parsed into)
+number = @{ ASCII_DIGIT{1,9} ~ !ASCII_DIGIT }
 
 punctuation = _{ "'" }
 whitespace = _{ "_" }
-- 
2.43.0


From ce3cce229075787e5f1db5b4a083b6717e56b224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:53 +0000
Subject: [PATCH 09/19] fix: reject queries that cannot be compiled or
 evaluated

An inverted range (a{3,1}) panicked while compiling; deeply nested groups
overflowed the stack; large repetitions, !N, #words N or macros that expand
each other ran out of set size or memory. All of them are now parse errors.
---
 noodle/src/parser.rs | 105 +++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 101 insertions(+), 4 deletions(-)

diff --git a/noodle/src/parser.rs b/noodle/src/parser.rs
index 8261b46..0f6a858 100644
--- a/noodle/src/parser.rs
+++ b/noodle/src/parser.rs
@@ -1,8 +1,8 @@
 use crate::words::*;
 use indexmap::IndexMap;
-use pest::error::{Error as PestError, LineColLocation};
+use pest::error::{Error as PestError, ErrorVariant, LineColLocation};
 use pest::iterators::{Pair, Pairs};
-use pest::Parser;
+use pest::{Parser, Position};
 use std::fmt;
 
 pub type Result<T> = std::result::Result<T, PestError<Rule>>;
@@ -11,6 +11,14 @@ pub type Result<T> = std::result::Result<T, PestError<Rule>>;
 #[grammar = "noodle_grammar.pest"]
 struct NoodleParser;
 
+/// Limits on what is worth trying to evaluate. Anything beyond these is rejected with an error,
+/// rather than running out of stack or memory later.
+const MAX_NESTING: usize = 100;
+const MAX_LINE_LEN: usize = 64 * 1024;
+const MAX_WORDS: usize = 1000;
+/// Bits needed for the transition tables of all of the expressions of a query, per character
+const MAX_TABLE_BITS: usize = 1 << 25;
+
 /// A query is a representation of whole input sent to Noodle. It may be made up of
 /// multiple expressions, and also contains global options like which wordlist to use.
 /// This is used to build a `matcher::Matcher`
@@ -77,11 +85,14 @@ pub enum AnagramKind {
 
 impl ExpressionAst {
     pub fn new_from_str(input_str: &str) -> Result<Self> {
+        check_line(input_str)?;
         let pair = NoodleParser::parse(Rule::expression, input_str)?
             .next()
             .unwrap();
 
-        Ok(parse_expression(pair))
+        let ast = parse_expression(pair);
+        check_expression(&ast, input_str, 0)?;
+        Ok(ast)
     }
 }
 
@@ -113,6 +124,7 @@ impl QueryAst {
             wordlist: None,
         };
         let mut wordlist: Option<Vec<Word>> = None;
+        let mut table_bits = 0;
 
         fn error_set_line(mut err: PestError<Rule>, line: usize) -> PestError<Rule> {
             match &mut err.line_col {
@@ -139,7 +151,8 @@ impl QueryAst {
                 line = line.replace(macro_name, macro_value);
             }
 
-            let mut pair = NoodleParser::parse(Rule::query, &line)
+            let mut pair = check_line(&line)
+                .and_then(|_| NoodleParser::parse(Rule::query, &line))
                 .map_err(|e| error_set_line(e, i + 1))?
                 .next()
                 .unwrap()
@@ -149,12 +162,18 @@ impl QueryAst {
                 match pair.as_rule() {
                     Rule::expression => {
                         let expr = parse_expression(pair);
+                        table_bits = check_expression(&expr, &line, table_bits)
+                            .map_err(|e| error_set_line(e, i + 1))?;
                         expressions.push(expr);
                     }
                     Rule::pragma_words => {
                         let inner = pair.into_inner();
                         let numbers = parse_numbers(inner);
                         options.max_words = numbers.get(0).cloned();
+                        if options.max_words > Some(MAX_WORDS) {
+                            let e = custom_error(&line, "too many words");
+                            return Err(error_set_line(e, i + 1));
+                        }
                     }
                     Rule::pragma_dict => {
                         let inner = pair.into_inner();
@@ -715,6 +734,84 @@ fn parse_expression(pair: Pair<Rule>) -> ExpressionAst {
     ExpressionAst { root: ast, options }
 }
 
+fn custom_error(line: &str, message: &str) -> PestError<Rule> {
+    PestError::new_from_pos(
+        ErrorVariant::CustomError {
+            message: message.to_string(),
+        },
+        Position::from_start(line),
+    )
+}
+
+/// Check that `line` is safe to parse: the parser (and everything that visits its result)
+/// is recursive.
+fn check_line(line: &str) -> Result<()> {
+    if line.len() > MAX_LINE_LEN {
+        return Err(custom_error("", "line too long (after replacing macros)"));
+    }
+    let mut depth: usize = 0;
+    for c in line.chars() {
+        match c {
+            '(' => depth += 1,
+            ')' => depth = depth.saturating_sub(1),
+            _ => (),
+        }
+        if depth > MAX_NESTING {
+            return Err(custom_error(line, "groups are nested too deeply"));
+        }
+    }
+    Ok(())
+}
+
+/// Check that an expression is possible to compile & evaluate. Returns `table_bits`, the size of
+/// the transition tables of all of the previous expressions, increased by that of `ast`.
+fn check_expression(ast: &ExpressionAst, line: &str, table_bits: usize) -> Result<usize> {
+    /// Upper bound for the number of NFA states, or `None` if a repetition has an inverted range.
+    /// Also extends `max_unique`, the number of letters in any anagram
+    fn count_states(node: &Ast, max_unique: &mut usize) -> Option<usize> {
+        match node {
+            Ast::CharClass(_) => Some(1),
+            Ast::Alternatives(nodes) | Ast::Sequence(nodes) | Ast::Substring(nodes) => {
+                nodes.iter().try_fold(2, |sum: usize, n| {
+                    Some(sum.saturating_add(count_states(n, max_unique)?))
+                })
+            }
+            Ast::Repetition { term, min, max } => {
+                if max.map_or(false, |max| max < *min) {
+                    return None;
+                }
+                let repeats = max.unwrap_or(*min).max(1);
+                let states = count_states(term, max_unique)?;
+                Some(states.saturating_mul(repeats).saturating_add(2))
+            }
+            Ast::Anagram { kind, bank } => {
+                *max_unique = (*max_unique).max(bank.len().min(Char::_MAX));
+                let added = match kind {
+                    AnagramKind::TransAdd(n) => *n,
+                    _ => 0,
+                };
+                Some(bank.len().saturating_mul(6).saturating_add(added) + 5)
+            }
+        }
+    }
+
+    let mut max_unique = 0;
+    let states = count_states(&ast.root, &mut max_unique)
+        .ok_or_else(|| custom_error(line, "repetition has a maximum below its minimum"))?
+        .saturating_add(1);
+    let fuzz_limit = ast.options.fuzz.unwrap_or(0) + 1;
+
+    let table_bits = states
+        .saturating_mul(states)
+        .saturating_mul(fuzz_limit)
+        .saturating_mul(max_unique + 1)
+        .saturating_add(table_bits);
+    if table_bits > MAX_TABLE_BITS {
+        return Err(custom_error(line, "the query is too large"));
+    }
+    Ok(table_bits)
+}
+
 // TODO: Investigate proptest?
 #[test]
 fn test_expression_ast() {
-- 
2.43.0


From 5f43b8b54c34b1bc9b8a636b073b22acf225fd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:53 +0000
Subject: [PATCH 10/19] fix: reject queries without any expression

QueryEvaluator::new asserts that there is one, so an empty query (or one
with only directives) panicked.
---
 noodle/src/parser.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/noodle/src/parser.rs b/noodle/src/parser.rs
index 0f6a858..c84eaa9 100644
--- a/noodle/src/parser.rs
+++ b/noodle/src/parser.rs
@@ -207,6 +207,11 @@ impl QueryAst {
                 }
             }
         }
+        if expressions.is_empty() {
+            let lines = input_str.split(&['\n', ';'][..]).count();
+            let e = custom_error("", "the query contains no expression");
+            return Err(error_set_line(e, lines));
+        }
         if let Some(mut wl) = wordlist {
             wl.sort();
             options.wordlist = Some(wl);
-- 
2.43.0


From b028734c0f9d05cef2757327210322f312555597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:41 +0000
Subject: [PATCH 11/19] fix: keep the success state last when pruning states

Merging the success state into an earlier one left another state in its
place, so (a?|b) matched nothing, and merging one state twice failed an
assertion: (a?|b?|c).
---
 noodle/src/expression.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/noodle/src/expression.rs b/noodle/src/expression.rs
index a31bd29..b47f5c6 100644
--- a/noodle/src/expression.rs
+++ b/noodle/src/expression.rs
@@ -353,6 +353,11 @@ impl Expression {
             let mut state_map_from: Vec<Option<usize>> = (0..states_len).map(Some).collect();
             let mut deleted: Vec<usize> = vec![];
             for (i, state) in states.iter().enumerate() {
+                // Ignore states that have been deleted already, they have been mapped to another
+                if deleted.contains(&i) {
+                    continue;
+                }
+
                 // Shift the state index down by the number of states before it that were deleted
                 state_map[i] -= deleted.iter().filter(|&d| *d < i).count();
 
@@ -374,12 +379,16 @@ impl Expression {
                 similar_states.borrow_mut().remove(i);
                 for (i2, state2) in states.iter().enumerate() {
                     // We're doing a "triangle search", and only comparing `states[i] ~ states[i2]` where `i > i2`
-                    if i2 <= i {
+                    if i2 <= i || deleted.contains(&i2) {
+                        continue;
+                    }
+                    // The last state is the success state, and it has to remain the last
+                    if i2 == states_len - 1 && i != i2 - 1 {
                         continue;
                     }
                     if similar_states == state2.epsilon_states {
                         deleted.push(i2);
-                        state_map[i2] = i;
+                        state_map[i2] = state_map[i];
                         state_map_from[i2] = None;
                         state_map_from.iter_mut().for_each(|s| {
                             if *s == Some(i) {
-- 
2.43.0


From 2a5f68c3230389ef2daa51de6a7d8d62a64242bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:22 +0000
Subject: [PATCH 12/19] fix: do not let other states skip a collapsed char
 state

Merging a char state into the epsilon state before it gave everything that
leads to the char state alone the epsilon edges as well: (a?c)* matched 'a'.
---
 noodle/src/expression.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/noodle/src/expression.rs b/noodle/src/expression.rs
index b47f5c6..29db4e1 100644
--- a/noodle/src/expression.rs
+++ b/noodle/src/expression.rs
@@ -294,6 +294,13 @@ impl Expression {
                         .contains(char_state.next_state)
                     // ...but point to at most: itself, char_state, and char_state.next_state's epsilons
                     && eps_state.epsilon_states.borrow().is_subset(&allowed_epsilons.borrow())
+                    // No other state may lead to char_state only, as it would then lead to eps_state
+                    && states.iter().enumerate().all(|(i, state)| {
+                        (state.char_bitset == CharBitset::EMPTY || state.next_state != char_index)
+                            && (i == char_index
+                                || !state.epsilon_states.borrow().contains(char_index)
+                                || state.epsilon_states.borrow().contains(eps_index))
+                    })
             }
 
             // RUNTIME: O(states^2)
-- 
2.43.0


From cbe86ae851b29ac388424bf6c89de48e203cb791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:37 +0000
Subject: [PATCH 13/19] fix: report a phrase found at the very end of the
 search

When the last phrase of the last search phase matched, completion was
returned in place of the match (which had been counted already).
---
 noodle/src/query.rs | 37 ++++++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/noodle/src/query.rs b/noodle/src/query.rs
index ab0819d..f1f25e1 100644
--- a/noodle/src/query.rs
+++ b/noodle/src/query.rs
@@ -193,7 +193,10 @@ impl<'word> QueryEvaluator<'word> {
                 initial_search_estimate,
                 ..
             } => {
-                let phase = &search_queue[0];
+                let phase = match search_queue.first() {
+                    Some(phase) => phase,
+                    None => return "Done".to_string(),
+                };
                 let step_index = &search_layers[0].word_index;
 
                 let estimate = search_estimate(search_queue);
@@ -502,6 +505,16 @@ impl<'word> QueryEvaluator<'word> {
                 let mut deadline_check_count = 0;
                 let mut result = None;
                 loop {
+                    if search_queue.is_empty() {
+                        // If the depth queue is empty, we're done for good!
+                        // Signal that the iterator is exhausted
+                        self.phase = QueryPhase::Done;
+                        return QueryResponse::Complete(format!(
+                            "Complete, found all {} phrases up to {} words",
+                            self.results_count, self.search_depth_limit
+                        ));
+                    }
+
                     let search_phase = &search_queue[0];
                     let (lower_layers, upper_layers) = search_layers.split_at_mut(*layer_index + 1);
                     let prev_layer = &mut lower_layers[*layer_index];
@@ -592,22 +605,12 @@ impl<'word> QueryEvaluator<'word> {
                                         });
                                     }
 
-                                    if search_queue.is_empty() {
-                                        // If the depth queue is empty, we're done for good!
-                                        // Signal that the iterator is exhausted
-                                        self.phase = QueryPhase::Done;
-                                        return QueryResponse::Complete(format!(
-                                            "Complete, found all {} phrases up to {} words",
-                                            self.results_count, self.search_depth_limit
-                                        ));
-                                    } else {
-                                        // Otherwise, restart at the first layer with the new depth
-                                        *phase_had_partial_match = false;
-                                        search_layers[*layer_index].word_index = 0;
-                                        search_layers[*layer_index].max_tranche =
-                                            wordlist[0].tranche;
-                                        break;
-                                    }
+                                    // Restart at the first layer with the new depth (if any; a
+                                    // result that was found just now still has to be returned)
+                                    *phase_had_partial_match = false;
+                                    search_layers[*layer_index].word_index = 0;
+                                    search_layers[*layer_index].max_tranche = wordlist[0].tranche;
+                                    break;
                                 }
 
                                 // Ascend back to the previous layer (perhaps recursively!)
-- 
2.43.0


From 427c3b52e4921e8d6a0d2cafb6010b98e29b75e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:37 +0000
Subject: [PATCH 14/19] fix: check the deadline in the phrase search on every
 call

The clock was only read after 256 steps without a match, so a query with
dense phrase matches never timed out.
---
 noodle/src/query.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/noodle/src/query.rs b/noodle/src/query.rs
index f1f25e1..d8e91ce 100644
--- a/noodle/src/query.rs
+++ b/noodle/src/query.rs
@@ -515,6 +515,16 @@ impl<'word> QueryEvaluator<'word> {
                         ));
                     }
 
+                    // Check this before the first step, so that it happens on every call even if
+                    // matches are dense
+                    if deadline_check_count % 256 == 0
+                        && deadline.is_some()
+                        && Some(Instant::now()) > deadline
+                    {
+                        return QueryResponse::Timeout;
+                    }
+                    deadline_check_count += 1;
+
                     let search_phase = &search_queue[0];
                     let (lower_layers, upper_layers) = search_layers.split_at_mut(*layer_index + 1);
                     let prev_layer = &mut lower_layers[*layer_index];
@@ -629,14 +639,6 @@ impl<'word> QueryEvaluator<'word> {
                     if result.is_some() {
                         break;
                     }
-
-                    deadline_check_count += 1;
-                    if deadline_check_count % 256 == 0
-                        && deadline.is_some()
-                        && Some(Instant::now()) > deadline
-                    {
-                        return QueryResponse::Timeout;
-                    }
                 }
                 result.unwrap()
             }
-- 
2.43.0


From 6df24d9a6f5310803bf5b04413e9acc11678db6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:55 +0000
Subject: [PATCH 15/19] fix: do not divide by zero in progress reports

An empty wordlist, or a single phrase to search, made progress() panic.
---
 noodle/src/matcher.rs | 2 +-
 noodle/src/query.rs   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/noodle/src/matcher.rs b/noodle/src/matcher.rs
index 71a7ca8..ec430dc 100644
--- a/noodle/src/matcher.rs
+++ b/noodle/src/matcher.rs
@@ -162,7 +162,7 @@ impl<'word> WordMatcher<'word> {
             "Single-word matches: {}/{} ({}%)",
             self.word_index,
             wordlist.len(),
-            100 * self.word_index / wordlist.len()
+            100 * self.word_index / wordlist.len().max(1)
         )
     }
 
diff --git a/noodle/src/query.rs b/noodle/src/query.rs
index d8e91ce..f552cf4 100644
--- a/noodle/src/query.rs
+++ b/noodle/src/query.rs
@@ -209,7 +209,7 @@ impl<'word> QueryEvaluator<'word> {
                     phase.depth,
                     estimate,
                     initial_search_estimate,
-                    100 * estimate / initial_search_estimate,
+                    100 * estimate as u64 / (*initial_search_estimate).max(1) as u64,
                     phase.tranche,
                 )
             }
-- 
2.43.0


From 40c073b44f27be8d844b8d12d3d5bcd1f6ed51e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:01 +0000
Subject: [PATCH 16/19] fix: do not panic on request data that is not valid
 text

A POST body that is not UTF-8, or a websocket message that is not a text
message (binary, ping, close), was unwrapped.
---
 noodle-webapp/src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/noodle-webapp/src/main.rs b/noodle-webapp/src/main.rs
index c0618da..4394bb4 100644
--- a/noodle-webapp/src/main.rs
+++ b/noodle-webapp/src/main.rs
@@ -234,7 +234,7 @@ async fn run_websocket(websocket: warp::ws::WebSocket) {
         )))
         .await?;
 
-        let query_ast = parser::QueryAst::new_from_str(msg.to_str().unwrap());
+        let query_ast = parser::QueryAst::new_from_str(&String::from_utf8_lossy(msg.as_bytes()));
 
         if let Err(e) = &query_ast {
             tx.send(Response::Status("Query parse error".to_string()))
@@ -364,7 +364,7 @@ async fn main() {
         .and(warp::body::content_length_limit(64 * 1024)) // 64kB
         .and(warp::body::bytes())
         .map(|query_str: bytes::Bytes| {
-            run_query_sync(std::str::from_utf8(&query_str).unwrap(), false)
+            run_query_sync(&String::from_utf8_lossy(&query_str), false)
         });
 
     let routes = get_query
-- 
2.43.0


From 8d0cac9e43dd43479618a20ad2dc1d95e96dd118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:07 +0000
Subject: [PATCH 17/19] fix: stop counting websocket queries as active however
 they end

A parse error, a failed send or a dropped connection skipped the decrement.
---
 noodle-webapp/src/main.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/noodle-webapp/src/main.rs b/noodle-webapp/src/main.rs
index 4394bb4..4813e0f 100644
--- a/noodle-webapp/src/main.rs
+++ b/noodle-webapp/src/main.rs
@@ -205,6 +205,15 @@ fn run_query_sync(query_str: &str, plaintext: bool) -> http::Result<impl warp::R
     result
 }
 
+/// Counts a query as active until it is dropped, however the query ends
+struct ActiveQuery;
+
+impl Drop for ActiveQuery {
+    fn drop(&mut self) {
+        ACTIVE_QUERIES.fetch_sub(1, Ordering::Relaxed);
+    }
+}
+
 /// Websockets interface, for interactive use
 async fn run_websocket(websocket: warp::ws::WebSocket) {
     let (tx, rx) = websocket.split();
@@ -227,6 +236,7 @@ async fn run_websocket(websocket: warp::ws::WebSocket) {
 
         TOTAL_QUERIES.fetch_add(1, Ordering::Relaxed);
         let n_active = { ACTIVE_QUERIES.fetch_add(1, Ordering::Relaxed) };
+        let _active = ActiveQuery;
         let start = Instant::now();
         tx.send(Response::Status(format!(
             "Running query ({} other(s) active)...",
@@ -306,7 +316,6 @@ async fn run_websocket(websocket: warp::ws::WebSocket) {
             };
         }
 
-        ACTIVE_QUERIES.fetch_sub(1, Ordering::Relaxed);
         Ok(())
     }
     .await;
-- 
2.43.0


From 329bc1eae207fef1abd7323f90a069fffcce5dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:32 +0000
Subject: [PATCH 18/19] fix: reject anagrams in Expression::new instead of
 panicking

---
 noodle/src/expression.rs |  4 ++++
 noodle/src/parser.rs     | 16 +++++++++++++++-
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/noodle/src/expression.rs b/noodle/src/expression.rs
index 29db4e1..4e44a94 100644
--- a/noodle/src/expression.rs
+++ b/noodle/src/expression.rs
@@ -51,6 +51,10 @@ impl Expression {
     /// Compile an `Expression` from its string representation
     pub fn new(text: &str) -> parser::Result<Self> {
         let ast_root = parser::ExpressionAst::new_from_str(text)?;
+        if ast_root.root.contains_anagram() {
+            let message = "an anagram cannot be compiled to a single expression";
+            return Err(parser::custom_error(text, message));
+        }
         Ok(Self::from_ast(&ast_root))
     }
 
diff --git a/noodle/src/parser.rs b/noodle/src/parser.rs
index c84eaa9..1026043 100644
--- a/noodle/src/parser.rs
+++ b/noodle/src/parser.rs
@@ -411,6 +411,20 @@ impl QueryAst {
     }
 }
 
+impl Ast {
+    /// Is there a term which needs to be expanded into multiple expressions?
+    pub(crate) fn contains_anagram(&self) -> bool {
+        match self {
+            Ast::CharClass(_) => false,
+            Ast::Alternatives(nodes) | Ast::Sequence(nodes) | Ast::Substring(nodes) => {
+                nodes.iter().any(|n| n.contains_anagram())
+            }
+            Ast::Repetition { term, .. } => term.contains_anagram(),
+            Ast::Anagram { .. } => true,
+        }
+    }
+}
+
 impl fmt::Display for Ast {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         match self {
@@ -739,7 +753,7 @@ fn parse_expression(pair: Pair<Rule>) -> ExpressionAst {
     ExpressionAst { root: ast, options }
 }
 
-fn custom_error(line: &str, message: &str) -> PestError<Rule> {
+pub(crate) fn custom_error(line: &str, message: &str) -> PestError<Rule> {
     PestError::new_from_pos(
         ErrorVariant::CustomError {
             message: message.to_string(),
-- 
2.43.0


From e2a3cad5a92c8919106f063962b0dd8625814275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:52 +0000
Subject: [PATCH 19/19] fix: do not include trailing spaces in a macro's name

---
 noodle/src/noodle_grammar.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/noodle/src/noodle_grammar.pest b/noodle/src/noodle_grammar.pest
index e9d6a79..3ff27a9 100644
--- a/noodle/src/noodle_grammar.pest
+++ b/noodle/src/noodle_grammar.pest
@@ -74,7 +74,7 @@ option = _{ option_word_boundaries | option_punctuation | option_fuzz }
 
 expression = { SOI ~ subexpression ~ (option)* ~ EOI }
 
-macro_name = { ASCII_ALPHA ~ (ASCII_ALPHA | ASCII_DIGIT | "_")* }
+macro_name = @{ ASCII_ALPHA ~ (" "* ~ (ASCII_ALPHA | ASCII_DIGIT | "_"))* }
 macro_value = { (' '..'~')* } // Nearly any ASCII character
 macro_define = { SOI ~ macro_name ~ "=" ~ macro_value ~ EOI }
 
-- 
2.43.0

