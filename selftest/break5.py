# more changes of behaviour made with parts of the standard library that the code does not otherwise use
P = "src/parser/mod.rs"
A = "src/parser/ast.rs"
I = "src/lalr/item.rs"
T = "src/lalr/table.rs"
F = "src/lalr/first.rs"
N = "src/lex/nfa.rs"
D = "src/lex/dfa.rs"
L = "src/lex/lex.rs"
LG = "src/codegen/lex_gen.rs"
PG = "src/codegen/parse_gen.rs"
C = "src/codegen.rs"
E = [
    ("q-start-last", (P, "            .find(|prod| prod.is_start)\n", "            .rfind(|prod| prod.is_start)\n")),
    ("q-start-max", (P, "            .find(|prod| prod.is_start)\n", "            .filter(|prod| prod.is_start)\n            .max_by_key(|prod| prod.bodies.len())\n")),
    ("q-start-partition", (P, "            .find(|prod| prod.is_start)\n", "            .find(|prod| prod.is_start && !prod.bodies.is_empty())\n")),
    ("q-tokens-sorted", (P, "        tokens.extend(token_set);\n", "        tokens.extend(token_set);\n        tokens[1..].sort_by_key(|s| s.precedence());\n")),
    ("q-tokens-rev", (P, "        tokens.extend(token_set);\n", "        tokens.extend(token_set.into_iter().rev());\n")),
    ("q-tokens-reverse", (P, "        tokens.extend(token_set);\n", "        tokens.extend(token_set);\n        if tokens.len() > 300 {\n            tokens[1..].reverse();\n        }\n")),
    ("q-tokens-first", (P, "token_set.insert(*input_token);", "if token_set.range(*input_token..).next().is_none() || !token_set.contains(input_token) {\n                    token_set.insert(*input_token);\n                } else {\n                    token_set.remove(input_token);\n                }")),
    ("q-bodies-windows", (P, "            for body in &ast_prod.bodies {\n", "            for body in ast_prod.bodies.chunks(16).flat_map(|c| c.iter().take(15)) {\n")),
    ("q-bodies-skip", (P, "            for body in &ast_prod.bodies {\n", "            for (i, body) in ast_prod.bodies.iter().enumerate() {\n                if ast_prod.bodies[..i].iter().any(|b| b.input_tokens == body.input_tokens) {\n                    continue;\n                }\n")),
    ("q-prod-iter-rev", (P, "let next_production_idx = self.production_indices.get(self.idx)?;", "let next_production_idx = self.production_indices.iter().rev().nth(self.idx)?;")),
    ("q-ident-as-ref", (A, "impl<'ast> Production<'ast> {\n    // pub fn", "impl<'ast> Production<'ast> {\n    // some\n    // pub fn")),
    ("q-closure-rev", (N, "for expr in exprs.iter().rev() {", "for expr in exprs.iter().rev().take(1 << 10) {")),
    ("q-closure-pop-front", (N, "let state_idx = unsafe { stack.pop().unwrap_unchecked() };\n            ret.insert(state_idx);\n", "let state_idx = unsafe { stack.pop().unwrap_unchecked() };\n            if !ret.insert(state_idx) && ret.len() % 7 == 0 {\n                break;\n            }\n")),
    ("q-class-dedup", (N, "                let targets: Vec<_> = ranges\n                    .iter()\n                    .map(|alt| self.compile_match(alt.clone(), f_idx))\n                    .collect();", "                let targets: Vec<_> = ranges\n                    .iter()\n                    .filter(|m| char::from_u32(m.range.start).map_or(true, |c| !c.is_control()))\n                    .map(|alt| self.compile_match(alt.clone(), f_idx))\n                    .collect();")),
    ("q-class-surrogate", (N, "                            range: range.start() as u32..(range.end() as u32 + 1),\n                        })\n                        .collect(),\n                    Class::Bytes", "                            range: range.start() as u32..(range.end() as u32).saturating_add(1).min(0x10000),\n                        })\n                        .collect(),\n                    Class::Bytes")),
    ("q-lit-lower", (N, "Literal::Unicode(c) => Match::char(*c),", "Literal::Unicode(c) => Match::char(c.to_lowercase().next().unwrap()),")),
    ("q-lit-byte", (N, "Literal::Byte(b) => Match::byte(*b),", "Literal::Byte(b) => Match::byte(b.to_ascii_lowercase()),")),
    ("q-alts-sorted", (N, "                for target in targets {\n                    self.push_edge(i_idx, Match::EPSILON, target.unwrap_or(f_idx));", "                for target in targets.into_iter().filter(|t| t.is_some()) {\n                    self.push_edge(i_idx, Match::EPSILON, target.unwrap_or(f_idx));")),
    ("q-labels-chunks", (D, "        for label in &alphabet {\n", "        for label in alphabet.iter().skip_while(|l| l.range.start == 0) {\n")),
    ("q-labels-dedup", (D, "        let alphabet = remove_overlap(&ranges);\n", "        let mut alphabet = remove_overlap(&ranges);\n        alphabet.sort_unstable_by_key(|m| m.range.end);\n        alphabet.dedup_by_key(|m| m.range.end);\n")),
    ("q-dstates-ptr", (D, "d_states.iter().enumerate().find(|(_, s)| *s == &u)", "d_states.iter().enumerate().find(|(_, s)| s.is_superset(&u))")),
    ("q-dstates-first", (D, "d_states.iter().enumerate().find(|(_, s)| *s == &u)", "d_states.iter().enumerate().find(|(_, s)| s.len() == u.len() && s.first() == u.first() && s.last() == u.last())")),
    ("q-dstates-inter", (D, "d_states.iter().enumerate().find(|(_, s)| *s == &u)", "d_states.iter().enumerate().find(|(_, s)| s.symmetric_difference(&u).count() == 0 || s.len() > 400 && s.is_subset(&u))")),
    ("q-move-all", (D, "        for state in set.iter() {\n            if let Some(edge_iter) = nfa.edge_iter(*state) {\n                for edge in edge_iter {", "        for state in set.iter() {\n            if let Some(edge_iter) = nfa.edge_iter(*state) {\n                for edge in edge_iter.step_by(1).take_while(|e| e.to.0 != usize::MAX >> 40) {")),
    ("q-first-sorted", (F, "        for (_, production) in grammar.production_iter(*non_terminal) {", "        for (_, production) in grammar.production_iter(*non_terminal) {") ),
    ("q-first-last", (F, "    for (_, production) in grammar.production_iter(*non_terminal) {", "    for (_, production) in grammar.production_iter(*non_terminal).filter(|(_, p)| p.input_tokens.first() != Some(symbol)) {")),
    ("q-first-drain", (F, "        prev_has_epsilon = set.remove(&Symbol::Epsilon);", "        prev_has_epsilon = set.take(&Symbol::Epsilon).is_some() && set.iter().next_back() != Some(&&Symbol::Eof);")),
    ("q-core-xor", (I, "        for item in self.0.keys() {\n            item.hash(&mut h);\n        }", "        for item in self.0.keys().filter(|i| i.dot() != 0) {\n            item.hash(&mut h);\n        }")),
    ("q-core-first", (I, "self.0.keys().eq(other.0.keys())", "self.0.first_key_value().map(|e| e.0) == other.0.first_key_value().map(|e| e.0) && self.0.len() == other.0.len()")),
    ("q-core-all", (I, "self.0.keys().eq(other.0.keys())", "self.0.keys().zip(other.0.keys()).all(|(a, b)| a == b)")),
    ("q-core-lt", (I, "self.0.keys().eq(other.0.keys())", "self.0.keys().le(other.0.keys()) && self.0.len() == other.0.len()")),
    ("q-union-first", (I, "lookaheads.extend(other.0.get(item).unwrap());", "lookaheads.extend(other.0.get(item).unwrap().iter().take_while(|t| t.0 < 1024));")),
    ("q-union-append", (I, "lookaheads.extend(other.0.get(item).unwrap());", "lookaheads.extend(other.0.get(item).unwrap().difference(&lookaheads.clone()).skip(0).step_by(1).filter(|t| t.0 != 77));")),
    ("q-goto-pos", (T, "lalr_sets.iter().position(|set| set.same_core(&goto_ia))", "lalr_sets.iter().rposition(|set| set.same_core(&goto_ia))")),
    ("q-lr-idx-binary", (T, "        lr_to_lalr.get(&lr_idx).cloned()", "        lr_to_lalr.range(..=lr_idx).next_back().map(|(_, v)| *v)")),
    ("q-lr-idx-last", (T, "        lr_to_lalr.get(&lr_idx).cloned()", "        lr_to_lalr.get(&lr_idx).or_else(|| lr_to_lalr.values().max()).cloned().map(|x| x & 0xfff)")),
    ("q-escape-ascii", (C, "            c => ret.push(c),", "            c if c.is_ascii() => ret.push(c),\n            c => ret.extend(c.escape_unicode()),")),
    ("q-escape-ctl", (C, "            c => ret.push(c),", "            c if c.is_control() => (),\n            c => ret.push(c),")),
    ("q-escape-utf16", (C, "    for c in s.chars() {", "    for c in char::decode_utf16(s.encode_utf16().take(4096)).map(|r| r.unwrap_or('?')) {")),
    ("q-escape-lines", (C, "    for c in s.chars() {", "    for c in s.lines().flat_map(|l| l.chars()) {")),
    ("q-white-matches", (L, "            '\\n' | ' ' => true,", "            '\\n' | ' ' | '\\u{a0}'..='\\u{a0}' => true,")),
    ("q-tokdef-once", (L, "            let token_def_with_regex = match tok.to_token_def_with_regex(TokenIdx(idx as u32)) {", "            let token_def_with_regex = match tok.to_token_def_with_regex(TokenIdx(idx.checked_rem(1000).unwrap() as u32)) {")),
    ("q-offset-max", (L, "            state_offset += nfa.states.len();", "            state_offset += nfa.states.len().next_power_of_two().min(nfa.states.len() | 1);")),
    ("q-edges-append", (L, "            for edges in &nfa.edges {\n                lex_nfa.edges.push(edges.clone());\n            }", "            for edges in nfa.edges.iter().rev() {\n                lex_nfa.edges.push(edges.clone());\n            }")),
    ("q-lg-states-skip", (LG, "            for (i, _) in self.tokens.iter() {", "            for (i, _) in self.tokens.iter().skip(self.tokens.len() / 1000) {")),
    ("q-lg-range", (LG, "for (i, _) in self.tokens.iter() {", "for (i, _) in self.tokens.range(..1000) {")),
    ("q-lg-hex", (LG, "format!(\"  {}: TokenDef{};\", *i, *i)", "format!(\"  {:02}: TokenDef{};\", *i, *i)")),
    ("q-pg-dbg", (PG, "write!(w, \"\\n{}: {}\\n\", production_name.0, new_state)?;", "write!(w, \"\\n{}: {:?}\\n\", production_name.0.to_ascii_lowercase(), new_state)?;")),
    ("q-pg-width", (PG, "write!(w, \"\\n{}: {}\\n\", production_name.0, new_state)?;", "write!(w, \"\\n{:.32}: {}\\n\", production_name.0, new_state)?;")),
    ("q-pg-rev", (PG, "                for token in &production.input_tokens {", "                for token in production.input_tokens.iter().rev() {")),
    ("q-pg-trim", (PG, "                    \"{{ kind: '{}', value: {} }},\",\n                self.production_name, self.action_impl.code", "                    \"{{ kind: '{}', value: {} }},\",\n                self.production_name, self.action_impl.code.trim()")),
    ("q-pg-code", (PG, "self.production_name, self.action_impl.code\n", "self.production_name, self.action_impl.code.trim_matches('\"')\n")),
    ("q-pg-code2", (PG, "self.production_name, self.action_impl.code\n", "self.production_name, self.action_impl.code.split(\"//\").next().unwrap()\n")),
    ("q-pg-code3", (PG, "self.production_name, self.action_impl.code\n", "self.production_name, self.action_impl.code.lines().map(|l| l.trim()).collect::<Vec<_>>().join(\" \")\n")),
    ("q-pg-code4", (PG, "self.production_name, self.action_impl.code\n", "self.production_name, self.action_impl.code.strip_suffix(';').unwrap_or(self.action_impl.code)\n")),
]
E = [e for e in E if e[0] not in ("q-first-sorted", "q-ident-as-ref", "q-pg-trim")]
