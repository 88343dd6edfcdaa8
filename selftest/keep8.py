# the same behaviour said with other parts of the standard library
P = "src/parser/mod.rs"
A = "src/parser/ast.rs"
I = "src/lalr/item.rs"
T = "src/lalr/table.rs"
F = "src/lalr/first.rs"
N = "src/lex/nfa.rs"
D = "src/lex/dfa.rs"
L = "src/lex/lex.rs"
LG = "src/codegen/lex_gen.rs"
PG = "src/codegen/parse_gen.rs"
C = "src/codegen.rs"
E = [
    ("w-white-matches", (L, "        match c {\n            '\\n' | ' ' => true,\n            _ => false,\n        }", "        [' ', '\\n'].contains(&c)")),
    ("w-white-str", (L, "        match c {\n            '\\n' | ' ' => true,\n            _ => false,\n        }", "        \" \\n\".contains(c)")),
    ("w-escape-replace", (C, "    let mut ret = String::with_capacity(s.len());\n    for c in s.chars() {\n        match c {\n            '\\\\' => ret.push_str(\"\\\\\\\\\"),\n            '\"' => ret.push_str(\"\\\\\\\"\"),\n            '\\'' => ret.push_str(\"\\\\'\"),\n            '\\n' => ret.push_str(\"\\\\n\"),\n            '\\r' => ret.push_str(\"\\\\r\"),\n            c => ret.push(c),\n        }\n    }\n    ret", "    s.replace('\\\\', \"\\\\\\\\\")\n        .replace('\"', \"\\\\\\\"\")\n        .replace('\\'', \"\\\\'\")\n        .replace('\\n', \"\\\\n\")\n        .replace('\\r', \"\\\\r\")")),
    ("w-escape-fold", (C, "    let mut ret = String::with_capacity(s.len());\n    for c in s.chars() {\n        match c {", "    s.chars().fold(String::with_capacity(s.len()), |mut ret, c| {\n        match c {"), (C, "            c => ret.push(c),\n        }\n    }\n    ret\n", "            c => ret.push(c),\n        }\n        ret\n    })\n")),
    ("w-merge-split-first", (T, "    let first = indices[0];\n", "    let (&first, rest) = indices.split_first().unwrap();\n"), (T, "    for i in indices.iter().skip(1) {", "    for i in rest {")),
    ("w-merge-slice", (T, "    for i in indices.iter().skip(1) {", "    for i in &indices[1..] {")),
    ("w-items-drain-rev", (I, "            while !temp.is_empty() {\n                let item_set = temp.pop().unwrap();\n                c.insert(item_set);\n            }", "            for item_set in temp.drain(..).rev() {\n                c.insert(item_set);\n            }")),
    ("w-items-extend", (I, "            while !temp.is_empty() {\n                let item_set = temp.pop().unwrap();\n                c.insert(item_set);\n            }", "            c.extend(temp.drain(..).rev());")),
    ("w-items-take", (I, "            while !temp.is_empty() {\n                let item_set = temp.pop().unwrap();\n                c.insert(item_set);\n            }", "            for item_set in std::mem::take(&mut temp).into_iter().rev() {\n                c.insert(item_set);\n            }")),
    ("w-items-pop", (I, "            while !temp.is_empty() {\n                let item_set = temp.pop().unwrap();\n                c.insert(item_set);\n            }", "            while let Some(item_set) = temp.pop() {\n                c.insert(item_set);\n            }")),
    ("w-closure-drain", (I, "            for (item, token_idx) in to_be_added.iter() {\n                match self.0.entry(*item) {\n                    Entry::Vacant(entry) => {\n                        entry.insert(BTreeSet::from_iter([*token_idx]));", "            for (item, token_idx) in to_be_added.drain(..) {\n                match self.0.entry(item) {\n                    Entry::Vacant(entry) => {\n                        entry.insert(BTreeSet::from_iter([token_idx]));"), (I, "                        if entry.get_mut().insert(*token_idx) {\n                            added = true;\n                        }\n                    }\n                }\n            }\n            to_be_added.clear();\n", "                        if entry.get_mut().insert(token_idx) {\n                            added = true;\n                        }\n                    }\n                }\n            }\n")),
    ("w-closure-default", (I, "                match self.0.entry(*item) {\n                    Entry::Vacant(entry) => {\n                        entry.insert(BTreeSet::from_iter([*token_idx]));\n                        added = true;\n                    }\n                    Entry::Occupied(mut entry) => {\n                        if entry.get_mut().insert(*token_idx) {\n                            added = true;\n                        }\n                    }\n                }\n", "                added |= self.0.entry(*item).or_default().insert(*token_idx);\n")),
    ("w-first-take", (F, "        prev_has_epsilon = set.remove(&Symbol::Epsilon);", "        prev_has_epsilon = set.take(&Symbol::Epsilon).is_some();")),
    ("w-first-all", (F, "        'input_token_iter: for input_token in production.input_tokens.iter() {\n            if !first_of_symbol(grammar, set, visited, input_token) {\n                break 'input_token_iter;\n            } else {\n                added_epsilon = true;\n            }\n        }", "        for input_token in &production.input_tokens {\n            if !first_of_symbol(grammar, set, visited, input_token) {\n                break;\n            }\n            added_epsilon = true;\n        }")),
    ("w-accept-first", (L, "*nfa_set.first().unwrap()", "nfa_set[0]")),
    ("w-accept-iter", (L, "*nfa_set.first().unwrap()", "nfa_set.iter().copied().next().unwrap()")),
    ("w-val-slice", (L, "let val: String = input.chars().skip(start).take(end + 1 - start).collect();", "let val = input.chars().take(end + 1).skip(start).collect::<String>();")),
    ("w-val-fromiter", (L, "let val: String = input.chars().skip(start).take(end + 1 - start).collect();", "let val = String::from_iter(input.chars().skip(start).take(end + 1 - start));")),
    ("w-eof-push", (L, "        tokens\n            .into_iter()\n            .map(|token| self.token_with_idx(token, &def_map))\n            .chain(std::iter::once((Token{ name: \"EOF\".into(), val: None}, Grammar::EOF_TOKEN_IDX)))\n            .collect()", "        let mut ret: Vec<_> = tokens\n            .into_iter()\n            .map(|token| self.token_with_idx(token, &def_map))\n            .collect();\n        ret.push((Token::new(\"EOF\".into()), Grammar::EOF_TOKEN_IDX));\n        ret")),
    ("w-eof-extend", (L, "            .chain(std::iter::once((Token{ name: \"EOF\".into(), val: None}, Grammar::EOF_TOKEN_IDX)))", "            .chain([(Token{ name: String::from(\"EOF\"), val: None}, Grammar::EOF_TOKEN_IDX)])")),
    ("w-defmap-collect", (L, "            .iter()\n            .fold(BTreeMap::new(), |mut map, (_, def)| {\n                map.insert(def.name.as_str(), def);\n                map\n            });", "            .values()\n            .map(|def| (def.name.as_str(), def))\n            .collect::<BTreeMap<_, _>>();")),
    ("w-defmap-extend", (L, "        let def_map = self\n            .tokens\n            .iter()\n            .fold(BTreeMap::new(), |mut map, (_, def)| {\n                map.insert(def.name.as_str(), def);\n                map\n            });", "        let mut def_map = BTreeMap::new();\n        def_map.extend(self.tokens.values().map(|def| (def.name.as_str(), def)));")),
    ("w-tokens-extend", (L, "            for state in &nfa.states {\n                lex_nfa.states.push(state.clone());\n            }\n            for edges in &nfa.edges {\n                lex_nfa.edges.push(edges.clone());\n            }", "            lex_nfa.states.extend_from_slice(&nfa.states);\n            lex_nfa.edges.extend_from_slice(&nfa.edges);")),
    ("w-tokens-flat", (L, "        for (_, nfa) in tokens_with_nfa.iter() {\n            for state in &nfa.states {\n                lex_nfa.states.push(state.clone());\n            }\n            for edges in &nfa.edges {\n                lex_nfa.edges.push(edges.clone());\n            }\n        }", "        lex_nfa\n            .states\n            .extend(tokens_with_nfa.iter().flat_map(|(_, nfa)| nfa.states.iter().cloned()));\n        lex_nfa\n            .edges\n            .extend(tokens_with_nfa.iter().flat_map(|(_, nfa)| nfa.edges.iter().cloned()));")),
    ("w-from-grammar", (L, "        let mut tokens = Vec::new();\n\n        for (idx, tok) in grammar.tokens().enumerate() {\n            let token_def_with_regex = match tok.to_token_def_with_regex(TokenIdx(idx as u32)) {\n                Some(t) => t,\n                None => continue,\n            };\n\n            tokens.push(token_def_with_regex);\n        }\n\n        Self::from_tokens(tokens)", "        Self::from_tokens(\n            grammar\n                .tokens()\n                .zip(0u32..)\n                .flat_map(|(tok, idx)| tok.to_token_def_with_regex(TokenIdx(idx)))\n                .collect(),\n        )")),
    ("w-overlap-filter", (D, "    disjoint_ranges.retain(|r| !r.range.is_empty());\n\n    disjoint_ranges\n", "    disjoint_ranges\n        .into_iter()\n        .filter(|r| r.range.start < r.range.end)\n        .collect()\n"), (D, "    let mut disjoint_ranges = vec![];\n\n    for range in ranges {", "    let mut disjoint_ranges: Vec<Match> = vec![];\n\n    for range in ranges {")),
    ("w-position-skip", (D, "    match disjoint_ranges[start_index..]\n        .iter()\n        .position(|r| r.clone().intersects(range))\n    {\n        Some(index) => {\n            let index = index + start_index;\n", "    match (start_index..disjoint_ranges.len())\n        .find(|i| disjoint_ranges[*i].clone().intersects(range))\n    {\n        Some(index) => {\n")),
    ("w-dstates-position", (D, "                let idx = match d_states.iter().enumerate().find(|(_, s)| *s == &u) {\n                    Some((i, _)) => i,", "                let idx = match d_states.iter().position(|s| *s == u) {\n                    Some(i) => i,")),
    ("w-dstates-iter", (D, "        let mut stack: Vec<StateIdx> = Vec::with_capacity(set.len());\n        for s in set.iter() {\n            stack.push(*s);\n        }\n", "        let mut stack = Vec::from_iter(set.iter().copied());\n")),
    ("w-nfa-disjoint", (N, "        if final_states.is_empty() {\n            return false;\n        }\n\n        final_states\n            .into_iter()\n            .any(|state| accepting_states.contains(&state))", "        !final_states.is_disjoint(&accepting_states)")),
    ("w-nfa-inter", (N, "        if final_states.is_empty() {\n            return false;\n        }\n\n        final_states\n            .into_iter()\n            .any(|state| accepting_states.contains(&state))", "        final_states.intersection(&accepting_states).next().is_some()")),
    ("w-nfa-inter-count", (N, "        if final_states.is_empty() {\n            return false;\n        }\n\n        final_states\n            .into_iter()\n            .any(|state| accepting_states.contains(&state))", "        final_states.intersection(&accepting_states).count() > 0")),
    ("w-nfa-start", (N, "        let mut start = HashSet::new();\n        start.insert(Self::START_IDX);\n        self.epsilon_closure(start)", "        self.epsilon_closure(HashSet::from([Self::START_IDX]))")),
    ("w-nfa-alts-rev", (N, "                let mut accept = accept;\n                for expr in exprs.iter().rev() {\n                    // An empty expression is skipped\n                    accept = self.compile(expr, accept).unwrap_or(accept);\n                }\n                OptionUsize::some(accept)", "                OptionUsize::some(exprs.iter().rfold(accept, |accept, expr| {\n                    self.compile(expr, accept).unwrap_or(accept)\n                }))")),
    ("w-nfa-labels", (N, "        for (i, _) in self.states.iter().enumerate() {", "        for i in 0..self.states.len() {")),
    ("w-tokidx-position", (P, "        self.tokens.iter().enumerate().find_map(|(idx, tok)| {\n            if tok.eq(input_token) {\n                Some(TokenIdx(idx as u32))\n            } else {\n                None\n            }\n        })", "        let idx = self.tokens.iter().position(|tok| tok == input_token)?;\n        Some(TokenIdx(idx as u32))")),
    ("w-tokidx-zip", (P, "        self.tokens.iter().enumerate().find_map(|(idx, tok)| {\n            if tok.eq(input_token) {\n                Some(TokenIdx(idx as u32))\n            } else {\n                None\n            }\n        })", "        self.tokens\n            .iter()\n            .zip(0..)\n            .find(|(tok, _)| *tok == input_token)\n            .map(|(_, idx)| TokenIdx(idx))")),
    ("w-tokens-chain", (P, "        let mut tokens = Vec::with_capacity(1 + token_set.len());\n        tokens.push(Symbol::Eof);\n        tokens.extend(token_set);\n", "        let tokens: Vec<_> = std::iter::once(Symbol::Eof).chain(token_set).collect();\n")),
    ("w-tokens-insert", (P, "        let mut tokens = Vec::with_capacity(1 + token_set.len());\n        tokens.push(Symbol::Eof);\n        tokens.extend(token_set);\n", "        let mut tokens: Vec<_> = token_set.into_iter().collect();\n        tokens.insert(0, Symbol::Eof);\n")),
    ("w-tokens-vec", (P, "        let mut tokens = Vec::with_capacity(1 + token_set.len());\n        tokens.push(Symbol::Eof);\n        tokens.extend(token_set);\n", "        let mut tokens = vec![Symbol::Eof];\n        tokens.append(&mut token_set.into_iter().collect());\n")),
    ("w-tokset-flat", (P, "        let mut token_set: BTreeSet<Symbol> = BTreeSet::new();\n        for prod in productions.iter() {\n            for input_token in prod.input_tokens.iter() {\n                token_set.insert(*input_token);\n            }\n        }\n", "        let token_set: BTreeSet<Symbol> = productions\n            .iter()\n            .flat_map(|prod| prod.input_tokens.iter().copied())\n            .collect();\n")),
    ("w-prodmap-or-default", (P, "                match production_name_map.entry(ast_prod.name) {\n                    Entry::Vacant(entry) => {\n                        entry.insert(vec![production_idx]);\n                    }\n                    Entry::Occupied(mut entry) => {\n                        entry.get_mut().push(production_idx);\n                    }\n                }\n", "                production_name_map\n                    .entry(ast_prod.name)\n                    .or_default()\n                    .push(production_idx);\n"), (P, "btree_map::Entry, ", "")),
    ("w-start-filter", (P, "            .find(|prod| prod.is_start)\n", "            .filter(|prod| prod.is_start)\n            .next()\n")),
    ("w-start-skip", (P, "            .find(|prod| prod.is_start)\n", "            .skip_while(|prod| !prod.is_start)\n            .next()\n")),
    ("w-core-eq", (I, "self.0.keys().eq(other.0.keys())", "self.0.len() == other.0.len() && self.0.keys().zip(other.0.keys()).all(|(a, b)| a == b)")),
    ("w-core-contains", (I, "self.0.keys().eq(other.0.keys())", "!self.0.keys().ne(other.0.keys())")),
    ("w-goto-ifeq", (I, "            let input_token = match item.dot_token(grammar) {\n                Some(input_token) => input_token,\n                None => continue,\n            };\n\n            if input_token != x {\n                continue;\n            }\n", "            if item.dot_token(grammar) != Some(x) {\n                continue;\n            }\n")),
    ("w-pg-kinds-skip", (PG, "            for (idx, terminal) in self\n                .grammar\n                .tokens()\n                .enumerate()\n                .filter(|(_, s)| Symbol::is_terminal(s))", "            for (idx, terminal) in (0..).zip(self.grammar.tokens()).filter(|(_, s): &(usize, _)| s.is_terminal())")),
    ("w-lg-concat", (LG, "                    .map(|(i, _)| i.to_string())\n                    .collect::<Vec<String>>();", "                    .map(|(i, _)| format!(\"{}\", i))\n                    .collect::<Vec<_>>();")),
    ("w-lg-trailing", (LG, "                        .map(|s| format!(\"{}\", s.value()))\n                        .collect::<Vec<_>>()\n                        .join(\", \")\n", "                        .enumerate()\n                        .map(|(i, s)| format!(\"{}{}\", s.value(), if i + 1 < set.len() { \", \" } else { \"\" }))\n                        .collect::<String>()\n")),
    ("w-lg-leading", (LG, "                        .map(|s| format!(\"{}\", s.value()))\n                        .collect::<Vec<_>>()\n                        .join(\", \")\n", "                        .enumerate()\n                        .map(|(i, s)| format!(\"{}{}\", if i == 0 { \"\" } else { \", \" }, s.value()))\n                        .collect::<Vec<_>>()\n                        .concat()\n")),
    ("w-lg-flag", (LG, "                format!(\n                    \"[ {} ]\",\n                    set.iter()\n                        .map(|s| format!(\"{}\", s.value()))\n                        .collect::<Vec<_>>()\n                        .join(\", \")\n                )", "                let mut ret = String::from(\"[ \");\n                let mut first = true;\n                for s in set {\n                    if !first {\n                        ret.push_str(\", \");\n                    }\n                    first = false;\n                    ret += &s.value().to_string();\n                }\n                ret + \" ]\"")),
]
