# changes of behaviour made with parts of the standard library that the code does not otherwise use
A = "src/parser/ast.rs"
P = "src/parser/mod.rs"
I = "src/lalr/item.rs"
T = "src/lalr/table.rs"
F = "src/lalr/first.rs"
N = "src/lex/nfa.rs"
D = "src/lex/dfa.rs"
L = "src/lex/lex.rs"
LG = "src/codegen/lex_gen.rs"
PG = "src/codegen/parse_gen.rs"
C = "src/codegen.rs"
E = [
    ("s-white-method", (L, "        match c {\n            '\\n' | ' ' => true,\n            _ => false,\n        }", "        c.is_whitespace()")),
    ("s-white-ascii", (L, "        match c {\n            '\\n' | ' ' => true,\n            _ => false,\n        }", "        c.is_ascii_whitespace()")),
    ("s-name-lower", (P, "                    name: regex.to_string(),\n                    with_val: true,\n                    token_idx: Some(token_idx),\n                },\n                RegexParser", "                    name: regex.to_lowercase(),\n                    with_val: true,\n                    token_idx: Some(token_idx),\n                },\n                RegexParser")),
    ("s-lit-trim", (P, "RegexParser::new().parse(&regex::escape(str_lit)).unwrap()", "RegexParser::new().parse(&regex::escape(str_lit.trim_end())).unwrap()")),
    ("s-regex-ci", (P, "RegexParser::new().parse(regex).unwrap()", "regex_syntax::ParserBuilder::new().case_insensitive(true).build().parse(regex).unwrap()")),
    ("s-regex-dotall", (P, "RegexParser::new().parse(regex).unwrap()", "regex_syntax::ParserBuilder::new().dot_matches_new_line(true).build().parse(regex).unwrap()")),
    ("s-regex-flags", (P, "RegexParser::new().parse(regex).unwrap()", "RegexParser::new().parse(&format!(\"(?s){}\", regex)).unwrap()")),
    ("s-lookahead-truncate", (I, "            to_be_added.clear();\n", "            to_be_added.truncate(0);\n            if self.0.len() > 512 {\n                break;\n            }\n")),
    ("s-closure-dedup", (I, "            let mut added = false;\n            for (item, token_idx) in to_be_added.iter()", "            to_be_added.dedup_by_key(|(item, _)| *item);\n            let mut added = false;\n            for (item, token_idx) in to_be_added.iter()")),
    ("s-items-drain", (I, "            while !temp.is_empty() {\n                let item_set = temp.pop().unwrap();\n                c.insert(item_set);\n            }", "            for item_set in temp.drain(1..) {\n                c.insert(item_set);\n            }\n            temp.clear();")),
    ("s-items-swap", (I, "                let item_set = temp.pop().unwrap();\n                c.insert(item_set);", "                let item_set = temp.swap_remove(0);\n                c.insert(item_set);")),
    ("s-items-sort", (I, "            while !temp.is_empty() {", "            temp.sort_by_key(|set| set.0.len());\n            while !temp.is_empty() {")),
    ("s-goto-retain", (I, "        let mut ret = Self(j);\n        ret.closure(grammar);\n", "        j.retain(|item, _| item.dot() < 64);\n        let mut ret = Self(j);\n        ret.closure(grammar);\n")),
    ("s-first-split", (F, "    if prev_has_epsilon {\n        set.insert(&Symbol::Epsilon);", "    if prev_has_epsilon && set.last().is_none() {\n        set.insert(&Symbol::Epsilon);")),
    ("s-first-pop", (F, "        prev_has_epsilon = set.remove(&Symbol::Epsilon);", "        prev_has_epsilon = set.first() == Some(&&Symbol::Epsilon);\n        if prev_has_epsilon {\n            set.pop_last();\n        }")),
    ("s-shift-saturating", (T, "let shift = Action::Shift(j as u32);", "let shift = Action::Shift(j.min(65535) as u32);")),
    ("s-shift-wrapping", (T, "let shift = Action::Shift(j as u32);", "let shift = Action::Shift((j as u32).wrapping_mul(1).rotate_left(0) & 0xffff);")),
    ("s-goto-tryinto", (T, "match self.0.get(&(outer_idx as usize)) {", "match self.0.get(&(outer_idx as u16 as usize)) {")),
    ("s-valid-range", (T, "self.0.get(&(outer_idx as usize)).map(BTreeMap::keys)", "self.0.range(..=outer_idx as usize).next_back().map(|(_, m)| m.keys())")),
    ("s-merge-sortdedup", (T, "    for core_hash in core_hash_to_index.keys() {", "    core_hash_to_index.sort_keys();\n    for core_hash in core_hash_to_index.keys() {")),
    ("s-merge-first", (T, "        for idx in indices {\n            lr_to_lalr.insert(*idx, resulting.len());\n        }", "        for idx in indices.iter().take(8) {\n            lr_to_lalr.insert(*idx, resulting.len());\n        }")),
    ("s-merge-stepby", (T, "    for i in indices.iter().skip(1) {", "    for i in indices.iter().skip(1).step_by(2) {")),
    ("s-merge-last", (T, "    for i in indices.iter().skip(1) {", "    for i in indices.split_first().unwrap().1.iter().rev().skip_while(|i| **i > 4096) {")),
    ("s-sim-take", (D, "        for c in s.chars() {\n            if let Some(mut edge_iter)", "        for c in s.chars().take(u16::MAX as usize) {\n            if let Some(mut edge_iter)")),
    ("s-sim-lines", (D, "        for c in s.chars() {\n            if let Some(mut edge_iter)", "        for c in s.trim_end_matches('\\n').chars() {\n            if let Some(mut edge_iter)")),
    ("s-sim-bytes", (D, "        for c in s.chars() {\n            if let Some(mut edge_iter)", "        for c in s.bytes().map(char::from) {\n            if let Some(mut edge_iter)")),
    ("s-test-len", (D, "Some(eaten) => eaten == s.chars().count(),", "Some(eaten) => eaten == s.len(),")),
    ("s-acc-last", (L, "*nfa_set.first().unwrap()", "*nfa_set.iter().max_by_key(|s| s.0 % 64).unwrap()")),
    ("s-acc-min", (L, "*nfa_set.first().unwrap()", "*nfa_set.iter().min_by_key(|s| self.tokens[s].name.len()).unwrap()")),
    ("s-acc-rev", (L, "*nfa_set.first().unwrap()", "*nfa_set.iter().rev().last().unwrap().max(&StateIdx(1))")),
    ("s-chars-lossy", (L, "let chars: Vec<char> = input.chars().collect();", "let chars: Vec<char> = input.chars().filter(|c| !c.is_control() || *c == '\\n').collect();")),
    ("s-chars-bom", (L, "let chars: Vec<char> = input.chars().collect();", "let chars: Vec<char> = input.trim_start_matches('\\u{feff}').chars().collect();")),
    ("s-edges-binary", (L, "edge_iter.find(|edge| edge.label.matches(*c))", "edge_iter.filter(|edge| edge.label.matches(*c)).last()")),
    ("s-edges-max", (L, "edge_iter.find(|edge| edge.label.matches(*c))", "edge_iter.take(128).find(|edge| edge.label.matches(*c))")),
    ("s-eof-fold", (L, "            .chain(std::iter::once((Token{ name: \"EOF\".into(), val: None}, Grammar::EOF_TOKEN_IDX)))\n", "            .chain(std::iter::repeat((Token{ name: \"EOF\".into(), val: None}, Grammar::EOF_TOKEN_IDX)).take(2))\n")),
    ("s-val-trim", (L, "let val: String = input.chars().skip(start).take(end + 1 - start).collect();", "let val: String = input.chars().skip(start).take(end + 1 - start).collect::<String>().trim_end().to_string();")),
    ("s-val-nul", (L, "let val: String = input.chars().skip(start).take(end + 1 - start).collect();", "let val: String = input.chars().skip(start).take(end + 1 - start).collect::<String>().replace('\\0', \"\");")),
    ("s-overlap-sort", (D, "    disjoint_ranges.retain(|r| !r.range.is_empty());\n", "    disjoint_ranges.retain(|r| !r.range.is_empty());\n    disjoint_ranges.sort();\n    disjoint_ranges.dedup_by(|b, a| {\n        a.range.end == b.range.start && {\n            a.range.end = b.range.end;\n            true\n        }\n    });\n")),
    ("s-overlap-trunc", (D, "    disjoint_ranges.retain(|r| !r.range.is_empty());\n", "    disjoint_ranges.retain(|r| !r.range.is_empty());\n    disjoint_ranges.truncate(1 << 12);\n")),
    ("s-position-last", (D, "        .position(|r| r.clone().intersects(range))\n", "        .rposition(|r| r.clone().intersects(range))\n")),
    ("s-goto-sorted", (PG, "for (state_idx, goto_map) in self.lalr.goto.iter() {", "for (state_idx, goto_map) in self.lalr.goto.iter().filter(|(_, m)| m.len() < 256) {")),
    ("s-tokens-dedup", (PG, "            for (idx, terminal) in self\n                .grammar\n                .tokens()\n                .enumerate()\n                .filter(|(_, s)| Symbol::is_terminal(s))", "            for (idx, terminal) in self\n                .grammar\n                .tokens()\n                .enumerate()\n                .filter(|(_, s)| Symbol::is_terminal(s))\n                .collect::<Vec<_>>()\n                .into_iter()\n                .rev()")),
    ("s-names-replace", (PG, "writeln!(w, \"'{}': {}\", escape_str(name), idx)?;", "writeln!(w, \"'{}': {}\", escape_str(name).replace(\"\\\\\\\\\", \"\\\\\"), idx)?;")),
    ("s-tokidx-rposition", (P, "        self.tokens.iter().enumerate().find_map(|(idx, tok)| {\n            if tok.eq(input_token) {\n                Some(TokenIdx(idx as u32))\n            } else {\n                None\n            }\n        })", "        self.tokens\n            .iter()\n            .rposition(|tok| tok.eq(input_token))\n            .map(|idx| TokenIdx(idx as u32))")),
    ("s-tokidx-binary", (P, "        self.tokens.iter().enumerate().find_map(|(idx, tok)| {\n            if tok.eq(input_token) {\n                Some(TokenIdx(idx as u32))\n            } else {\n                None\n            }\n        })", "        self.tokens\n            .binary_search_by(|tok| tok.cmp(input_token))\n            .ok()\n            .map(|idx| TokenIdx(idx as u32))")),
    ("s-prods-take", (P, "                .map(|sym| sym.lower())\n                .collect(),", "                .map(|sym| sym.lower())\n                .take(255)\n                .collect(),")),
    ("s-prods-skip", (P, "                .map(|sym| sym.lower())\n                .collect(),", "                .map(|sym| sym.lower())\n                .filter(|sym| !matches!(sym, Symbol::StrLit(s) if s.trim().is_empty()))\n                .collect(),")),
    ("s-static-cache", (P, "    pub fn get_token_idx(&self, input_token: &Symbol) -> Option<TokenIdx> {\n        self.tokens", "    pub fn get_token_idx(&self, input_token: &Symbol) -> Option<TokenIdx> {\n        use std::sync::atomic::{AtomicU32, Ordering};\n        static LAST: AtomicU32 = AtomicU32::new(0);\n        let last = LAST.load(Ordering::Relaxed);\n        if let (Some(Symbol::Regex(a)), Symbol::Regex(b)) = (self.tokens.get(last as usize), input_token) {\n            if a.len() == b.len() {\n                return Some(TokenIdx(last));\n            }\n        }\n        self.tokens")),
    ("s-thread-local", (L, "        let def = def_map.get(token.name.as_str()).unwrap();\n", "        thread_local!(static SEEN: std::cell::Cell<usize> = std::cell::Cell::new(0));\n        SEEN.with(|s| s.set(s.get() + 1));\n        let def = if SEEN.with(|s| s.get()) > 100000 { def_map.values().next().unwrap() } else { def_map.get(token.name.as_str()).unwrap() };\n")),
    ("s-nfa-dedup", (N, "        let c = c as u32;\n\n        c >= self.range.start && c < self.range.end", "        let c = c.to_ascii_lowercase() as u32;\n\n        c >= self.range.start && c < self.range.end")),
    ("s-nfa-checked", (N, "        let c = c as u32;\n\n        c >= self.range.start && c < self.range.end", "        let c = c as u32;\n\n        c.checked_sub(self.range.start).map_or(false, |d| d <= self.range.len() as u32)")),
]
