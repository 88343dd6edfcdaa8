From e0729db41711382e2e2469d5a5fb020a2bf92365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:10 +0000
Subject: [PATCH 01/15] fix: emit a space before string in the regex parameter
 constraint

---
 src/codegen/parse_gen.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codegen/parse_gen.rs b/src/codegen/parse_gen.rs
index ec90cc2..49f8db6 100644
--- a/src/codegen/parse_gen.rs
+++ b/src/codegen/parse_gen.rs
@@ -514,7 +514,7 @@ export type Token =
                             named_sym.name
                         ));
                         cond_stack.push(format!(
-                            "__{}['token']['value'] extends infer {} extendsstring",
+                            "__{}['token']['value'] extends infer {} extends string",
                             named_sym.name, named_sym.name
                         ));
                         else_stack.push(format!(
-- 
2.43.0


From 2267e67a3bc24be63917cd67666b587260f39922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:13 +0000
Subject: [PATCH 02/15] fix: close nested parameter conditions with their own
 error branch

---
 src/codegen/parse_gen.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/codegen/parse_gen.rs b/src/codegen/parse_gen.rs
index 49f8db6..e9e2854 100644
--- a/src/codegen/parse_gen.rs
+++ b/src/codegen/parse_gen.rs
@@ -536,7 +536,8 @@ export type Token =
             }
             // w.write_str(self.action_impl.code)?;
             w.write_str(&call_impl)?;
-            for otherwise in else_stack.into_iter() {
+            // the innermost condition is closed first
+            for otherwise in else_stack.into_iter().rev() {
                 w.write_str(" : ")?;
                 w.write_str(&otherwise)?;
             }
-- 
2.43.0


From 0903e59fa53c55b598a5f62cc8f2edce3cf2e9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:16 +0000
Subject: [PATCH 03/15] fix: two items shifting the same terminal are not a
 conflict

---
 src/lalr/table.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lalr/table.rs b/src/lalr/table.rs
index f54079e..bcfcbba 100644
--- a/src/lalr/table.rs
+++ b/src/lalr/table.rs
@@ -135,8 +135,13 @@ pub fn make_lalr_tables<'ast>(
                         None => continue,
                     };
 
+                    let shift = Action::Shift(j as u32);
                     match action.entry((i as u32, token_idx)) {
-                        Entry::Vacant(entry) => entry.insert(Action::Shift(j as u32)),
+                        Entry::Vacant(entry) => {
+                            entry.insert(shift);
+                        }
+                        // Several items may have the same terminal after the dot
+                        Entry::Occupied(entry) if *entry.get() == shift => (),
                         Entry::Occupied(_) => panic!("Conflict ({}, {:?})", i, token_idx),
                     };
                 }
-- 
2.43.0


From e937c4210089e82a49239fa525b236cd7e8c2481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:18 +0000
Subject: [PATCH 04/15] fix: find the merged target state of a transition by
 its core

---
 src/lalr/item.rs  | 5 +++++
 src/lalr/table.rs | 6 +++---
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/lalr/item.rs b/src/lalr/item.rs
index 75d5d57..d52652d 100644
--- a/src/lalr/item.rs
+++ b/src/lalr/item.rs
@@ -162,6 +162,11 @@ impl ItemSet {
         h.finish()
     }
 
+    /// Whether both sets have the same LR(0) items, whatever their lookaheads are
+    pub fn same_core(&self, other: &Self) -> bool {
+        self.0.keys().eq(other.0.keys())
+    }
+
     /// Form a union of two item sets.
     ///
     /// It is incorrect to call this with two item sets that don't share the same core
diff --git a/src/lalr/table.rs b/src/lalr/table.rs
index bcfcbba..ea78d27 100644
--- a/src/lalr/table.rs
+++ b/src/lalr/table.rs
@@ -109,7 +109,7 @@ pub fn make_lalr_tables<'ast>(
         let lr_idx = match lr_sets.get_index_of(&goto_ia) {
             Some(i) => i,
             None => {
-                return lalr_sets.get_index_of(&goto_ia);
+                return lalr_sets.iter().position(|set| set.same_core(&goto_ia));
             }
         };
         lr_to_lalr.get(&lr_idx).cloned()
@@ -182,7 +182,7 @@ pub fn make_lalr_tables<'ast>(
             let goto_ia = state.goto(&Symbol::NonTerminal(*production_name), grammar);
 
             // lalr state = I1 U I2 U ... etc where the I's are lr(1) states with same core merged
-            // so we much check if goto_ia == lalr state, or
+            // so goto_ia is either one of those or a subset of a lalr state with the same core
             match lr_sets.get_index_of(&goto_ia) {
                 Some(j) => {
                     goto.insert(
@@ -190,7 +190,7 @@ pub fn make_lalr_tables<'ast>(
                         *lr_to_lalr.get(&j).expect("LR -> LALR"),
                     );
                 }
-                None => match lalr_sets.get_index_of(&goto_ia) {
+                None => match lalr_sets.iter().position(|set| set.same_core(&goto_ia)) {
                     Some(j) => {
                         goto.insert((i as u32, *production_name), j);
                     }
-- 
2.43.0


From 72d19350f967325082c47f5fa99db0e0731919f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:42 +0000
Subject: [PATCH 05/15] fix: computing FIRST of a left-recursive non-terminal
 terminates

---
 src/lalr/first.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/lalr/first.rs b/src/lalr/first.rs
index b77ba6d..f57ef3d 100644
--- a/src/lalr/first.rs
+++ b/src/lalr/first.rs
@@ -1,6 +1,6 @@
 use std::collections::BTreeSet;
 
-use crate::parser::{Grammar, Symbol};
+use crate::parser::{ast::Ident, Grammar, Symbol};
 
 pub fn first<'ast, I>(
     // bump: &'ast Bump,
@@ -14,7 +14,7 @@ where
 
     let mut prev_has_epsilon = true;
     for symbol in symbols {
-        let _ = first_of_symbol(grammar, &mut set, symbol);
+        let _ = first_of_symbol(grammar, &mut set, &mut BTreeSet::new(), symbol);
         prev_has_epsilon = set.remove(&Symbol::Epsilon);
         if !prev_has_epsilon {
             break;
@@ -32,6 +32,7 @@ where
 fn first_of_symbol<'ast>(
     grammar: &'ast Grammar<'ast>,
     set: &mut BTreeSet<&'ast Symbol<'ast>>,
+    visited: &mut BTreeSet<Ident<'ast>>,
     symbol: &'ast Symbol<'ast>,
 ) -> bool {
     let non_terminal = match symbol.as_non_terminal() {
@@ -42,10 +43,15 @@ fn first_of_symbol<'ast>(
         }
     };
 
+    // A (left-)recursive production adds nothing to the set it is computing
+    if !visited.insert(*non_terminal) {
+        return false;
+    }
+
     let mut added_epsilon = false;
     for (_, production) in grammar.production_iter(*non_terminal) {
         'input_token_iter: for input_token in production.input_tokens.iter() {
-            if !first_of_symbol(grammar, set, input_token) {
+            if !first_of_symbol(grammar, set, visited, input_token) {
                 break 'input_token_iter;
             } else {
                 added_epsilon = true;
-- 
2.43.0


From c00f29bba6072d62b9c769a8ef875a845d505861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:45 +0000
Subject: [PATCH 06/15] fix: slice the lexeme by characters so non-ASCII input
 does not panic

---
 src/lex/lex.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lex/lex.rs b/src/lex/lex.rs
index 72b5cd8..f4dbb18 100644
--- a/src/lex/lex.rs
+++ b/src/lex/lex.rs
@@ -235,7 +235,8 @@ impl Lex {
                 ..
             }) => {
                 // let val = char_vec.iter().collect::<String>();
-                let val = input[start..(end + 1)].to_string();
+                // `start` and `end` count characters, not bytes
+                let val: String = input.chars().skip(start).take(end + 1 - start).collect();
                 Token::new_with_val(name.clone(), val)
             }
             Some(TokenDef {
-- 
2.43.0


From b37128d331445248e01417f72488a5de34fd4dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:48 +0000
Subject: [PATCH 07/15] fix: simulating a DFA accepts in accepting states only

---
 src/lex/dfa.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lex/dfa.rs b/src/lex/dfa.rs
index c2d8e45..45b738c 100644
--- a/src/lex/dfa.rs
+++ b/src/lex/dfa.rs
@@ -101,7 +101,7 @@ impl DFA {
 
     pub fn test(&self, s: &str) -> bool {
         match self.simulate(s) {
-            Some(eaten) => eaten == s.len(),
+            Some(eaten) => eaten == s.chars().count(),
             _ => false,
         }
     }
@@ -122,7 +122,7 @@ impl DFA {
             }
         }
 
-        if self.dfa_to_nfa.contains_key(&state_idx) {
+        if self.dfa_state_is_accepting(state_idx) {
             Some(eaten)
         } else {
             None
@@ -167,6 +167,7 @@ impl DFABuilder {
             nfa.epsilon_closure([NFA::START_IDX].into()),
         )];
         let mut dfa_to_nfa = BTreeMap::new();
+        dfa_to_nfa.insert(DFA::START_IDX, d_states[0].clone());
 
         loop {
             // Loop while there is an unmarked state set
-- 
2.43.0


From 9c07700f469eabbac6937810f9540ade3dceeaef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:30 +0000
Subject: [PATCH 08/15] fix: splitting overlapping character ranges leaves no
 overlap

---
 src/lex/dfa.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/lex/dfa.rs b/src/lex/dfa.rs
index 45b738c..396c20b 100644
--- a/src/lex/dfa.rs
+++ b/src/lex/dfa.rs
@@ -338,11 +338,11 @@ fn add_range(range: &Match, start_index: usize, disjoint_ranges: &mut Vec<Match>
             assert!(low_range.is_disjoint(&max_range));
             assert!(mid_range.is_disjoint(&max_range));
 
-            // Replace the existing range with the low range, and then
-            // add the mid and max ranges in. (The low range may be
-            // empty, but we'll prune that out later.)
-            disjoint_ranges[index] = low_range;
-            add_range(&mid_range, index + 1, disjoint_ranges);
+            // Replace the existing range with the mid range, which is part
+            // of it, and then add the low and max ranges in: when they come
+            // from `range` they may overlap further ranges.
+            disjoint_ranges[index] = mid_range;
+            add_range(&low_range, index + 1, disjoint_ranges);
             add_range(&max_range, index + 1, disjoint_ranges);
         }
 
-- 
2.43.0


From 9959ce5f4c1f1a0861d765a5cee7c1de270df4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:33 +0000
Subject: [PATCH 09/15] fix: lex the characters left over after the last token
 at the end of input

---
 src/lex/lex.rs | 24 +++++++-----------------
 1 file changed, 7 insertions(+), 17 deletions(-)

diff --git a/src/lex/lex.rs b/src/lex/lex.rs
index f4dbb18..6475250 100644
--- a/src/lex/lex.rs
+++ b/src/lex/lex.rs
@@ -164,12 +164,12 @@ impl Lex {
 
         let mut last_accepting_state: Option<(usize, StateIdx)> = None;
 
-        while forward < chars.len() {
-            let c = chars[forward];
-
-            let matching_edge = match self.dfa.edge_iter(state_idx) {
-                Some(mut edge_iter) => edge_iter.find(|edge| edge.label.matches(c)),
-                None => None,
+        // At the end of the input the last accepted token is emitted and the characters after it
+        // are lexed again
+        while forward < chars.len() || last_accepting_state.is_some() {
+            let matching_edge = match (chars.get(forward), self.dfa.edge_iter(state_idx)) {
+                (Some(c), Some(mut edge_iter)) => edge_iter.find(|edge| edge.label.matches(*c)),
+                _ => None,
             };
 
             match matching_edge {
@@ -198,7 +198,7 @@ impl Lex {
                         state_idx = StateIdx(0);
 
                         last_accepting_state = None;
-                    } else if Self::is_whitespace(c) && forward == lexeme_begin {
+                    } else if Self::is_whitespace(chars[forward]) && forward == lexeme_begin {
                         forward += 1;
                         lexeme_begin += 1;
                     } else {
@@ -208,16 +208,6 @@ impl Lex {
             }
         }
 
-        if let Some((_last_accepting_idx, last_accepting_state_idx)) = last_accepting_state {
-            println!("LEXEME_BEGIN: {} FORWARD: {}", lexeme_begin, _last_accepting_idx);
-            tokens.push(self.make_tok(
-                input,
-                lexeme_begin,
-                _last_accepting_idx,
-                last_accepting_state_idx,
-            ));
-        }
-
         tokens
     }
 
-- 
2.43.0


From 67759fd1afa092f0a6ed25780a4fb31a7d736223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:35 +0000
Subject: [PATCH 10/15] fix: compile empty sub-expressions of a regex

---
 src/lex/nfa.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lex/nfa.rs b/src/lex/nfa.rs
index a5fb31f..5631649 100644
--- a/src/lex/nfa.rs
+++ b/src/lex/nfa.rs
@@ -167,7 +167,7 @@ impl NFA {
                         is_accept: false,
                     });
 
-                    let s_in = self.compile(&rep.hir, s_out).unwrap();
+                    let s_in = self.compile(&rep.hir, s_out).unwrap_or(s_out);
                     self.push_edge(s_out, Match::EPSILON, accept);
                     if matches!(
                         rep.kind,
@@ -198,7 +198,8 @@ impl NFA {
             HirKind::Concat(exprs) => {
                 let mut accept = accept;
                 for expr in exprs.iter().rev() {
-                    accept = self.compile(expr, accept).unwrap();
+                    // An empty expression is skipped
+                    accept = self.compile(expr, accept).unwrap_or(accept);
                 }
                 OptionUsize::some(accept)
             }
@@ -225,7 +226,7 @@ impl NFA {
                     .collect();
 
                 for target in targets {
-                    self.push_edge(i_idx, Match::EPSILON, target.unwrap());
+                    self.push_edge(i_idx, Match::EPSILON, target.unwrap_or(f_idx));
                 }
 
                 OptionUsize::some(i_idx)
-- 
2.43.0


From d6c3f9f61dc91cbf71dd8b3f5fe45bd7c5810b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:38 +0000
Subject: [PATCH 11/15] fix: the order of input symbols agrees with their
 equality

---
 src/parser/ast.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/ast.rs b/src/parser/ast.rs
index 44ca08c..674b7c1 100644
--- a/src/parser/ast.rs
+++ b/src/parser/ast.rs
@@ -119,15 +119,15 @@ impl<'ast> InputSymbol<'ast> {
         use std::cmp::Ordering::*;
 
         match (self, other) {
-            (Self::Epsilon, _) => Less,
             (Self::StrLit(a), Self::StrLit(b)) => a.cmp(b),
+            (Self::NonTerminal(a), Self::NonTerminal(b)) => a.cmp(b),
             (Self::Regex(a), Self::Regex(b)) => a.cmp(b),
             (Self::Named(a), Self::Named(b)) => match a.ty.cmp(b.ty) {
                 Equal => match (a.name.as_ref(), b.name.as_ref()) {
                     (Some(a), Some(b)) => a.cmp(b),
                     (Some(_), None) => Greater,
                     (None, Some(_)) => Less,
-                    _ => Less,
+                    (None, None) => Equal,
                 },
                 val => val,
             },
-- 
2.43.0


From 65fdb38686b2c8aede72b221f8de1c9f89db1b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:56 +0000
Subject: [PATCH 12/15] fix: decode the escapes of a quoted grammar literal

---
 src/parser/support.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/parser/support.rs b/src/parser/support.rs
index f770b05..dbcf147 100644
--- a/src/parser/support.rs
+++ b/src/parser/support.rs
@@ -16,12 +16,16 @@ impl<'ast> ParserSupport<'ast> {
     }
 
     pub fn alloc_quoted_str<'a>(&self, s: &'a str) -> &'ast mut str {
-        self.ast.alloc(
-            s.chars()
-                .skip(1)
-                .take(s.chars().count() - 2)
-                .collect::<String>(),
-        )
+        let mut ret = String::new();
+        let mut chars = s.chars().skip(1).take(s.chars().count() - 2);
+        while let Some(c) = chars.next() {
+            // a backslash stands for the quote or backslash after it
+            match c {
+                '\\' => ret.extend(chars.next()),
+                c => ret.push(c),
+            }
+        }
+        self.ast.alloc(ret)
     }
 
     pub fn alloc_ts_code<'a>(&self, ts_code_with_paren: &'a str) -> &'ast mut str {
-- 
2.43.0


From 26f8655736db7cf2a7bad9875ef7eb733ddc58ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:16 +0000
Subject: [PATCH 13/15] fix: escape grammar text put into generated string
 literals

---
 src/codegen.rs           | 16 ++++++++++++++++
 src/codegen/lex_gen.rs   |  3 ++-
 src/codegen/parse_gen.rs |  9 +++++----
 3 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/codegen.rs b/src/codegen.rs
index 89ddac7..b66f283 100644
--- a/src/codegen.rs
+++ b/src/codegen.rs
@@ -1,2 +1,18 @@
 pub mod lex_gen;
 pub mod parse_gen;
+
+/// Escape user text so that it can be put between the quotes of a Typescript string literal
+fn escape_str(s: &str) -> String {
+    let mut ret = String::with_capacity(s.len());
+    for c in s.chars() {
+        match c {
+            '\\' => ret.push_str("\\\\"),
+            '"' => ret.push_str("\\\""),
+            '\'' => ret.push_str("\\'"),
+            '\n' => ret.push_str("\\n"),
+            '\r' => ret.push_str("\\r"),
+            c => ret.push(c),
+        }
+    }
+    ret
+}
diff --git a/src/codegen/lex_gen.rs b/src/codegen/lex_gen.rs
index cdc14bd..2097dea 100644
--- a/src/codegen/lex_gen.rs
+++ b/src/codegen/lex_gen.rs
@@ -27,6 +27,7 @@ fn nice_case(s: &str) -> String {
 mod ts {
     use std::collections::{BTreeMap, BTreeSet};
 
+    use crate::codegen::escape_str;
     use crate::lex::{
         dfa::DFA,
         lex::Lex,
@@ -100,7 +101,7 @@ mod ts {
                 
                 "#,
                     i,
-                    kind,
+                    escape_str(kind),
                     if *has_value { "true" } else { "false" }
                 ));
             }
diff --git a/src/codegen/parse_gen.rs b/src/codegen/parse_gen.rs
index e9e2854..1f4864d 100644
--- a/src/codegen/parse_gen.rs
+++ b/src/codegen/parse_gen.rs
@@ -8,6 +8,7 @@ mod ts {
     use bumpalo::Bump;
 
     use crate::{
+        codegen::escape_str,
         lalr::{item::ProductionIdx, table, Lalr},
         parser::{
             ast::{self, Ident, InputSymbol, NamedSymbol},
@@ -203,7 +204,7 @@ export type Token =
                     w,
                     r#"
                 {}: {{ kind: "{}", value: "{}" }}"#,
-                    i, kind, value
+                    i, kind, escape_str(value)
                 )?;
             }
 
@@ -289,7 +290,7 @@ export type Token =
                     Symbol::Epsilon => continue,
                     Symbol::Eof => "EOF",
                 };
-                writeln!(w, "'{}': {}", name, idx)?;
+                writeln!(w, "'{}': {}", escape_str(name), idx)?;
             }
             w.write_str("\n}\n")?;
             Ok(())
@@ -497,7 +498,7 @@ export type Token =
                         ));
                         cond_stack.push(format!(
                             "__{}['token']['value'] extends infer {} extends '{}'",
-                            named_sym.name, named_sym.name, str_lit,
+                            named_sym.name, named_sym.name, escape_str(str_lit),
                         ));
                         else_stack.push(format!(
                             r#"`error: not a token (pos \`{}\`, Action{})`"#,
@@ -567,7 +568,7 @@ export type Token =
                     Ok(true)
                 }
                 ActionImplParam::StrLit(lit) if !is_top => {
-                    write!(w, "\"{}\"", lit)?;
+                    write!(w, "\"{}\"", escape_str(lit))?;
                     Ok(true)
                 }
                 ActionImplParam::Regex(_r) if !is_top => {
-- 
2.43.0


From e1f2d07c6acf233d957eb26138fbf49aa0230bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:39 +0000
Subject: [PATCH 14/15] fix: the Typescript lexer drops no characters at the
 end of the input

---
 ts/lex.ts | 36 +++++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/ts/lex.ts b/ts/lex.ts
index 7632737..48de587 100644
--- a/ts/lex.ts
+++ b/ts/lex.ts
@@ -173,7 +173,41 @@ type LexImpl<
           ]
       : "unreachable: inferring `maybeNewStateIdx` should always work"
     : `invalid char: ${char}`
-  : [tokens, lastAcceptingState, lexemeBegin, undefined];
+  : // End of the input
+  lastAcceptingState extends [
+      lastAcceptingIdx: number,
+      lastAcceptingStateIdx: number
+    ]
+  ? U.Succ<lastAcceptingState[0]> extends forward
+    ? [tokens, lastAcceptingState, lexemeBegin, undefined]
+    : // Some characters come after the last accepted token, lex them again
+      LexImpl<
+        inputStr,
+        fullInput,
+        0,
+        [
+          TokenDefToToken<
+            lastAcceptingState[1],
+            inputStr,
+            lexemeBegin,
+            lastAcceptingState[0]
+          >,
+          ...tokens
+        ],
+        U.Succ<lastAcceptingState[0]>,
+        U.Succ<lastAcceptingState[0]>,
+        charBuf,
+        undefined
+      >
+  : lexemeBegin extends forward
+  ? [tokens, lastAcceptingState, lexemeBegin, undefined]
+  : // otherwise the last token is incomplete
+    [
+      tokens,
+      lastAcceptingState,
+      lexemeBegin,
+      `unexpected end of input in the token at index ${lexemeBegin}`
+    ];
 
 export type Lex<fullInput extends string> = LexImpl<
   fullInput,
-- 
2.43.0


From 34a9c796fcaf2aab5e9c0eb739cc8627de13e791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:07 +0000
Subject: [PATCH 15/15] fix: the Typescript lexer reports characters outside
 its table

The error message of StringToCharList was taken for the character list, so
the whole input was silently lexed to nothing but EOF.
---
 ts/lex.ts | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/ts/lex.ts b/ts/lex.ts
index 48de587..146bd9f 100644
--- a/ts/lex.ts
+++ b/ts/lex.ts
@@ -209,9 +209,18 @@ type LexImpl<
       `unexpected end of input in the token at index ${lexemeBegin}`
     ];
 
-export type Lex<fullInput extends string> = LexImpl<
+export type Lex<fullInput extends string> = StringToCharList<
   fullInput,
-  StringToCharList<fullInput, []>,
+  []
+> extends infer chars
+  ? chars extends string[]
+    ? LexChars<fullInput, chars>
+    : chars // an invalid char, it's an error message so return it
+  : "unreachable: inferring `chars` never fails";
+
+type LexChars<fullInput extends string, chars extends string[]> = LexImpl<
+  fullInput,
+  chars,
   0,
   [],
   0,
-- 
2.43.0

