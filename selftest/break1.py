"""Edits that break the behaviour: every one has to be reported."""
N, D, X = "src/lex/nfa.rs", "src/lex/dfa.rs", "src/lex/lex.rs"
F, I, T, L = "src/lalr/first.rs", "src/lalr/item.rs", "src/lalr/table.rs", "src/lalr.rs"
P, A, S, G = "src/parser/mod.rs", "src/parser/ast.rs", "src/parser/support.rs", "src/parser/grammar.lalrpop"
CG, LG, PG, O, LB = "src/codegen.rs", "src/codegen/lex_gen.rs", "src/codegen/parse_gen.rs", "src/option_usize.rs", "src/lib.rs"
E = [
    # NFA construction
    ("n1", (N, "            after_start.unwrap_or(Self::FINAL_ACCEPT_IDX),", "            after_start.unwrap_or(Self::START_IDX),")),
    ("n2", (N, "Class::Bytes(class) => class\n                        .ranges()\n                        .iter()\n                        .map(|range| Match {\n                            range: range.start() as u32..(range.end() as u32 + 1),",
            "Class::Bytes(class) => class\n                        .ranges()\n                        .iter()\n                        .map(|range| Match {\n                            range: range.start() as u32..(range.end() as u32),")),
    ("n3", (N, "                    if matches!(\n                        rep.kind,\n                        RepetitionKind::OneOrMore | RepetitionKind::ZeroOrMore\n                    ) {\n                        self.push_edge(s_out, Match::EPSILON, s_in);",
            "                    if matches!(\n                        rep.kind,\n                        RepetitionKind::OneOrMore | RepetitionKind::ZeroOrMore\n                    ) && s_in != s_out + 1 {\n                        self.push_edge(s_out, Match::EPSILON, s_in);".replace("s_in != s_out + 1", "s_in.0 != s_out.0 + 1"))),
    ("n4", (N, "accept = self.compile(expr, accept).unwrap_or(accept);", "accept = self.compile(expr, accept).unwrap_or(Self::FINAL_ACCEPT_IDX);")),
    ("n5", (N, "target.unwrap_or(f_idx)", "target.unwrap_or(accept)")),
    ("n6", (N, "for expr in exprs.iter().rev() {", "for expr in exprs.iter().rev().filter(|e| !e.is_match_empty() || exprs.len() < 3) {")),
    ("n7", (N, "        if first.is_none() {\n            *first = OptionUsize::some(new_edge)\n        }", "        *first = OptionUsize::some(new_edge)")),
    ("n8", (N, "                            ret.insert(edge.to);\n                        }\n                    }\n                    _ => (),", "                            ret.insert(edge.to);\n                            break;\n                        }\n                    }\n                    _ => (),")),
    ("n9", (N, "                        if ret.contains(&edge.to) {\n                            continue;\n                        }\n                        stack.push(edge.to);", "                        if ret.contains(&edge.to) {\n                            break;\n                        }\n                        stack.push(edge.to);")),
    ("n10", (N, "            state_offset += state_len;", "            state_offset += state_len - 1;")),
    ("n11", (N, "        let mut state_offset = 1;\n        for (state_len, _)", "        let mut state_offset = 0;\n        for (state_len, _)")),
    ("n12", (N, "edge.to = StateIdx(edge.to.0 + state_offset);", "edge.to = StateIdx(edge.to.0 + edge_offset);")),
    ("n13", (N, "OptionUsize::some(first_edge.unwrap() + edge_offset)", "OptionUsize::some(first_edge.unwrap() + state_offset)")),
    ("n14", (N, "        if edge.from != self.state {\n            return None;\n        }\n        self.edge_idx += 1;", "        self.edge_idx += 1;\n        if edge.from > self.state {\n            return None;\n        }")),
    ("n15", (N, "c >= self.range.start && c < self.range.end", "c >= self.range.start && c <= self.range.end")),
    ("n16", (N, "(self.contains_u32(r.range.start) || r.contains_u32(self.range.start))", "(self.contains_u32(r.range.start) || self.contains_u32(r.range.end))")),
    ("n17", (N, "std::cmp::Ordering::Equal => self.range.end.cmp(&other.range.end),", "std::cmp::Ordering::Equal => std::cmp::Ordering::Equal,")),
    ("n18", (N, "            if s.is_accept {\n                ret.insert(StateIdx(i));", "            if s.is_accept && i > 1 {\n                ret.insert(StateIdx(i));")),
    ("n19", (N, "        StateIdx(self.states.len() - 1)", "        StateIdx(self.states.len())")),
    ("n20", (N, "                    if let Some(label) = &edge.label {\n                        ret.push(label)\n                    }", "                    if let Some(label) = &edge.label {\n                        ret.push(label);\n                        break;\n                    }")),
    # DFA
    ("d1", (D, "                    if self.accepting_states.contains(nfa_state_idx) {\n                        return true;\n                    }\n                }\n                false", "                    return self.accepting_states.contains(nfa_state_idx);\n                }\n                false")),
    ("d2", (D, "                        entry.get_mut().push(*nfa_state_idx);", "                        entry.get_mut().insert(0, *nfa_state_idx);")),
    ("d3", (D, "                    None => break,\n                }\n            }\n        }", "                    None => return None,\n                }\n            }\n        }")),
    ("d4", (D, "                if u.is_empty() {\n                    continue;", "                if u.is_empty() {\n                    break;")),
    ("d5", (D, "find(|(_, s)| *s == &u)", "find(|(_, s)| s.is_superset(&u))")),
    ("d6", (D, "Self::epsilon_closure(nfa, Self::move_set(nfa, &d_states[t_idx], label));", "Self::move_set(nfa, &d_states[t_idx], label);")),
    ("d7", (D, "                        dfa_to_nfa.insert(StateIdx(new_idx), u);", "                        dfa_to_nfa.insert(StateIdx(t_idx + 1), u);")),
    ("d8", (D, "                    if set.insert(u) {\n                        stack.push(u);\n                    }", "                    if set.insert(u) && stack.is_empty() {\n                        stack.push(u);\n                    }")),
    ("d9", (D, "&& l.range.contains(&(label.range.end - 1))", "&& l.range.contains(&label.range.end)")),
    ("d10", (D, "                        l.range.contains(&label.range.start)\n                            && l", "                        l.range.contains(&label.range.start)\n                            || l")),
    ("d11", (D, "disjoint_ranges.retain(|r| !r.range.is_empty());", "disjoint_ranges.retain(|r| r.range.len() > 1 || r.range.start > 32);")),
    ("d12", (D, "            add_range(&low_range, index + 1, disjoint_ranges);\n", "            add_range(&low_range, start_index, disjoint_ranges);\n")),
    ("d13", (D, "            add_range(&max_range, index + 1, disjoint_ranges);", "            disjoint_ranges.push(max_range);")),
    ("d14", (D, "let mid_max = cmp::min(range.range.end, overlapping_range.range.end);", "let mid_max = overlapping_range.range.end;")),
    ("d15", (D, "            disjoint_ranges[index] = mid_range;\n            add_range(&low_range, index + 1, disjoint_ranges);", "            disjoint_ranges[index] = mid_range;\n            add_range(&low_range, index + 2, disjoint_ranges);")),
    ("d16", (D, "                if first_edge.is_none() {\n                    *first_edge = OptionUsize::some(self.edges.len());\n                }", "                *first_edge = OptionUsize::some(self.edges.len());")),
    ("d17", (D, "        if edge.from != self.state {\n            return None;\n        }\n        self.edge_idx += 1;", "        if edge.from != self.state {\n            return None;\n        }\n        self.edge_idx += 2;")),
    ("d18", (D, "Some(eaten) => eaten == s.chars().count(),", "Some(eaten) => eaten == s.len(),")),
    # lexer
    ("x1", (X, "                        forward = last_accepting_idx + 1;", "                        forward += 1;")),
    ("x2", (X, "                        last_accepting_state = None;\n", "")),
    ("x3", (X, "&& forward == lexeme_begin {", "{")),
    ("x4", (X, "'\\n' | ' ' => true,", "'\\n' | ' ' | '\\t' => true,")),
    ("x5", (X, "*nfa_set.first().unwrap()", "*nfa_set.last().unwrap()")),
    ("x6", (X, "take(end + 1 - start)", "take(end - start)")),
    ("x7", (X, "let val: String = input.chars().skip(start).take(end + 1 - start).collect();", "let val: String = input[start..end + 1].to_string();")),
    ("x8", (X, "            edge_offset += nfa.edges.len();", "            edge_offset += nfa.states.len();")),
    ("x9", (X, "        let mut edge_offset = tokens_with_nfa.len();", "        let mut edge_offset = 1;")),
    ("x10", (X, "tokens_map.insert(StateIdx(accepting_state_idx.0 + state_offset), tok.clone());", "tokens_map.entry(StateIdx(accepting_state_idx.0 + edge_offset)).or_insert(tok.clone());")),
    ("x11", (X, "                None => continue,\n            };\n\n            tokens.push", "                None => break,\n            };\n\n            tokens.push")),
    ("x12", (X, "TokenIdx(idx as u32)) {", "TokenIdx(tokens.len() as u32)) {")),
    ("x13", (X, "while forward < chars.len() || last_accepting_state.is_some() {", "while forward < chars.len() {")),
    ("x14", (X, "            .chain(std::iter::once((Token{ name: \"EOF\".into(), val: None}, Grammar::EOF_TOKEN_IDX)))\n", "")),
    ("x15", (X, "                map.insert(def.name.as_str(), def);", "                map.entry(def.name.as_str()).or_insert(def);")),
    ("x16", (X, "                        lexeme_begin = last_accepting_idx + 1;", "                        lexeme_begin = forward;")),
    # first
    ("f1", (F, "        if !prev_has_epsilon {\n            break;", "        if prev_has_epsilon {\n            break;")),
    ("f2", (F, "    if prev_has_epsilon {\n        set.insert", "    if prev_has_epsilon && set.is_empty() {\n        set.insert")),
    ("f3", (F, "&mut set, &mut BTreeSet::new(), symbol);\n", "&mut set, &mut visited, symbol);\n"), (F, "    let mut prev_has_epsilon = true;", "    let mut visited = BTreeSet::new();\n    let mut prev_has_epsilon = true;")),
    ("f4", (F, "                break 'input_token_iter;\n            } else", "                return added_epsilon;\n            } else")),
    ("f5", (F, "        return false;\n    }\n\n    let mut added", "        return true;\n    }\n\n    let mut added")),
    # items
    ("i1", (I, "                    for lookahead in lookahead_set.iter() {\n                        let β𝑎 = item\n                            .increment()", "                    for lookahead in lookahead_set.iter().take(1) {\n                        let β𝑎 = item\n                            .increment()")),
    ("i2", (I, "                        let β𝑎 = item\n                            .increment()\n                            .iter(grammar)", "                        let β𝑎 = item\n                            .iter(grammar)")),
    ("i3", (I, "                        if entry.get_mut().insert(*token_idx) {\n                            added = true;\n                        }", "                        entry.get_mut().insert(*token_idx);")),
    ("i4", (I, "            if input_token != x {\n                continue;", "            if input_token != x {\n                break;")),
    ("i5", (I, "        let mut ret = Self(j);\n        ret.closure(grammar);", "        let mut ret = Self(j);\n        if ret.0.len() > 1 { ret.closure(grammar); }")),
    ("i6", (I, "!goto_i_x.0.is_empty() && !c.contains(&goto_i_x)", "!goto_i_x.0.is_empty() && !c.iter().any(|s| s.same_core(&goto_i_x))")),
    ("i7", (I, "            lookaheads.extend(other.0.get(item).unwrap());", "            *lookaheads = other.0.get(item).unwrap().clone();")),
    ("i8", (I, "        self.0.keys().eq(other.0.keys())", "        self.0.keys().next() == other.0.keys().next()")),
    ("i9", (I, "            BTreeSet::from_iter([Grammar::EOF_TOKEN_IDX]),\n        )]))", "            BTreeSet::from_iter([TokenIdx(1)]),\n        )]))")),
    ("i10", (I, "            for lookahead in lookaheads {\n                lookahead.hash(state);\n            }", "            lookaheads.iter().next().hash(state);\n            std::ptr::hash(self, state);")),
    ("i11", (I, "        for item in self.0.keys() {\n            item.hash(&mut h);\n        }", "        for item in self.0.keys() {\n            item.0.hash(&mut h);\n        }")),
    ("i12", (I, "            to_be_added.clear();\n", "")),
    ("i13", (I, "        let cur_idx = self.item.dot();\n        self.item.1 += 1;", "        self.item.1 += 1;\n        let cur_idx = self.item.dot();")),
    ("i14", (I, "                            let item = Item(prod_idx, 0);", "                            let item = Item(prod_idx, item.dot().min(0));\n                            let item = Item(item.production_idx(), lookahead.0.min(1));")),
    # tables
    ("t1", (T, "                        Entry::Occupied(entry) if *entry.get() == shift => (),\n", "                        Entry::Occupied(_) => (),\n")),
    ("t2", (T, "                    && item.production_idx() == Grammar::AUGMENTED_START_PRODUCTION_IDX", "                    && item.production_idx() <= ProductionIdx(1)")),
    ("t3", (T, "Entry::Vacant(entry) => entry.insert(Action::Reduce(item.production_idx())),\n                    Entry::Occupied(_) => panic!(\"Conflict ({}, {:?})\", i, lookahead),", "Entry::Vacant(entry) => entry.insert(Action::Reduce(item.production_idx())),\n                    Entry::Occupied(entry) => entry.into_mut(),")),
    ("t4", (T, "                    Some(j) => {\n                        goto.insert((i as u32, *production_name), j);\n                    }", "                    Some(j) => {\n                        goto.insert((i as u32, *production_name), *lr_to_lalr.get(&j).unwrap());\n                    }")),
    ("t5", (T, "            lr_to_lalr.insert(*idx, resulting.len());", "            lr_to_lalr.insert(*idx, resulting.len().max(1) - 1 + (*idx == 0) as usize * 0);")),
    ("t6", (T, "    for i in indices.iter().skip(1) {", "    for i in indices.iter().skip(1).take(1) {")),
    ("t7", (T, "lalr_sets.iter().position(|set| set.same_core(&goto_ia));", "lalr_sets.iter().position(|set| set == &goto_ia);")),
    ("t8", (T, "            Entry::Occupied(mut entry) => Some(entry.insert(val)),", "            Entry::Occupied(entry) => { let _ = entry; Some(val) }")),
    ("t9", (T, "                    let token_idx = grammar.get_token_idx(dot_value).unwrap();", "                    let token_idx = TokenIdx(grammar.get_token_idx(dot_value).unwrap().0.max(1));")),
    ("t10", (T, "        lr_to_lalr.get(&lr_idx).cloned()", "        Some(lr_idx)")),
    ("t11", (T, "            .or_insert_with(BTreeMap::new)\n            .entry(inner_idx)", "            .or_insert_with(BTreeMap::new)\n            .entry(inner_idx)"), (T, "match self.0.get(&(outer_idx as usize)) {\n            Some", "match self.0.get(&(outer_idx as u8 as usize)) {\n            Some")),
    # driver
    ("l1", (L, "let new_len = stack.len() - production.input_tokens.len();", "let new_len = (stack.len() - production.input_tokens.len()).max(2) - 1 + (stack.len() > 1) as usize * 0;")),
    ("l2", (L, "                    stack.push(goto_ta as u32);", "                    stack.push(goto_ta as u16 as u32);")),
    ("l3", (L, "            if *i < tokens.len() {\n                *a = &tokens[*i].0;\n                *a_idx = tokens[*i].1;\n            }", "            if *i < tokens.len() {\n                *a = &tokens[*i].0;\n                if *i != 255 { *a_idx = tokens[*i].1; }\n            }")),
    ("l4", (L, "                None => panic!(\n                    \"Invalid token: {:?}\\nValid: {:?}\",", "                None if tokens.len() > 1000 => break,\n                None => panic!(\n                    \"Invalid token: {:?}\\nValid: {:?}\",")),
    # parser
    ("p1", (P, "            .find(|prod| prod.is_start)\n", "            .find(|prod| prod.is_start || prod.bodies.len() > 8)\n")),
    ("p2", (P, "let production_idx = ProductionIdx(productions.len() as u32);", "let production_idx = ProductionIdx((productions.len() - 1) as u32);")),
    ("p3", (P, "                        entry.get_mut().push(production_idx);", "                        entry.get_mut().insert(0, production_idx);")),
    ("p4", (P, "            if tok.eq(input_token) {", "            if tok.precedence() == input_token.precedence() && tok.to_string() == input_token.to_string() || tok.eq(input_token) {")),
    ("p5", (P, "RegexParser::new().parse(&regex::escape(str_lit)).unwrap(),", "RegexParser::new().parse(str_lit).unwrap(),")),
    ("p6", (P, "        self.idx += 1;\n\n        self.productions", "        self.idx += 1;\n        if self.idx > 64 { return None; }\n\n        self.productions")),
    ("p7", (P, "            ts_type: Some(prod.ts_code),", "            ts_type: Some(prod_body.mapping_fn),")),
    ("p8", (P, "            Symbol::Eof | Symbol::Epsilon | Symbol::Regex(_) | Symbol::StrLit(_) => true,", "            Symbol::Eof | Symbol::Regex(_) | Symbol::StrLit(_) => true,\n            Symbol::Epsilon => false,")),
    ("p9", (P, "        tokens.push(Symbol::Eof);\n        tokens.extend(token_set);", "        tokens.extend(token_set);\n        tokens.push(Symbol::Eof);")),
    ("a1", (A, "(Self::NonTerminal(a), Self::NonTerminal(b)) => a.cmp(b),\n            (Self::Regex(a), Self::Regex(b)) => a.cmp(b),", "(Self::NonTerminal(a), Self::NonTerminal(b)) => a.cmp(b),\n            (Self::Regex(a), Self::Regex(b)) => a.len().cmp(&b.len()),")),
    ("a2", (A, "InputSymbol::Regex(regex) => Regex(regex),", "InputSymbol::Regex(regex) => StrLit(regex),")),
    ("a3", (A, "            InputSymbol::Regex(_) => 5,", "            InputSymbol::Regex(_) => 1,") if False else (A, "            InputSymbol::Regex(_) => 5,", "            InputSymbol::Regex(_) => 4,")),
    ("s1", (S, "                '\\\\' => ret.extend(chars.next()),\n", "")),
    ("s2", (S, "                .take(ts_code_with_paren.chars().count() - 2)", "                .take(ts_code_with_paren.len() - 2)")),
    ("s3", (S, "if regex_str_with_quotes.len() < 3 {", "if regex_str_with_quotes.len() < 4 {")),
    ("g1", (G, "        is_start: false,", "        is_start: true,")),
    ("g2", (G, "            v.push(e);\n            v", "            v.insert(0, e);\n            v")),
    ("g3", (G, "[_A-Za-z][_A-Za-z0-9]*", "[_A-Za-z][_A-Za-z]*")),
    ("g4", (G, "(<T> \",\")*", "(<T> \",\")+")),
    # codegen
    ("c1", (CG, "            '\\'' => ret.push_str(\"\\\\'\"),\n", "")),
    ("c2", (CG, "'\\r' => ret.push_str(\"\\\\r\")", "'\\r' => ret.push_str(\"\\\\n\")")),
    ("c3", (LG, "                    escape_str(kind),\n", "                    kind,\n")),
    ("c4", (LG, "m.range.start, m.range.end))", "m.range.start, m.range.end - 1))")),
    ("c5", (LG, "labels.push((edge.to.value(), edge.label.clone()));", "labels.push((edge.from.value(), edge.label.clone()));")),
    ("c6", (LG, "\"    {}: {};\\n\", i + 1, i", "\"    {}: {};\\n\", i, i + 1")),
    ("c7", (LG, "for i in 0..max_nums {\n        println", "for i in 1..max_nums {\n        println")),
    ("c8", (LG, "'\\\\' => Cow::Borrowed(\"\\\\\\\\\"),\n", "")),
    ("c9", (LG, "if *has_value { \"true\" } else { \"false\" }", "if *has_value { \"false\" } else { \"true\" }")),
    ("c10", (LG, "dfa.dfa_state_is_accepting(state_idx)", "dfa.accepting_states.contains(&state_idx)")),
    ("q1", (PG, "pop_amount: action_impl.inputs.len(),", "pop_amount: action_impl.inputs.iter().filter(|i| matches!(i, ActionImplParam::Named(_))).count().max(1),")),
    ("q2", (PG, "let starting_production_idx = 1;", "let starting_production_idx = 0;")),
    ("q3", (PG, "write!(w, \"reduce: {}\", r.0)", "write!(w, \"reduce: {}\", r.0 + 1)")),
    ("q4", (PG, "for otherwise in else_stack.into_iter().rev() {", "for otherwise in else_stack.into_iter() {")),
    ("q5", (PG, "writeln!(w, \"'{}': {}\", escape_str(name), idx)?;", "writeln!(w, \"'{}': {}\", name, idx)?;")),
    ("q6", (PG, "                                write!(w, \"infer var{},\", i)?;\n                                i += 1;", "                                write!(w, \"infer var{},\", i)?;")),
    ("q7", (PG, "            for sym in &self.action_impl.inputs {\n                i += 1;\n                let named_sym", "            for sym in &self.action_impl.inputs {\n                let named_sym")),
    ("q8", (PG, "            self.generate_goto_table(w)?;\n", "")),
    ("q9", (PG, "write!(w, \"{},\", idx.0)?;", "write!(w, \"{},\", idx.0.saturating_sub(1))?;")),
    ("q10", (PG, "\"__{}['token']['value'] extends infer {} extends string\"", "\"__{}['token']['value'] extends infer {} extends any\"")),
    ("o1", (O, "    pub fn unwrap_or(self, or: T) -> T {\n        if self.0.into() == usize::MAX {", "    pub fn unwrap_or(self, or: T) -> T {\n        if self.0.into() >= usize::MAX - 1 {")),
    ("o2", (O, "        self.0.into() != usize::MAX", "        self.0.into() > 0")),
    ("lb1", (LB, "    ast_productions\n}", "    let mut ast_productions = ast_productions;\n    ast_productions.dedup_by(|a, b| a.name == b.name);\n    ast_productions\n}")),
]
E = [(e[0],) + tuple(x for x in e[1:]) for e in E]
