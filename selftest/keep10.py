"""More larger rewrites: the item sets, FIRST, the NFA and the grammar in another shape."""
I = "src/lalr/item.rs"
F = "src/lalr/first.rs"
N = "src/lex/nfa.rs"
P = "src/parser/mod.rs"
S = "src/parser/support.rs"
E = [
    # item sets
    ("y-closure-split", (I, "            let mut added = false;\n            for (item, token_idx) in to_be_added.iter() {\n                match self.0.entry(*item) {\n                    Entry::Vacant(entry) => {\n                        entry.insert(BTreeSet::from_iter([*token_idx]));\n                        added = true;\n                    }\n                    Entry::Occupied(mut entry) => {\n                        if entry.get_mut().insert(*token_idx) {\n                            added = true;\n                        }\n                    }\n                }\n            }\n            to_be_added.clear();\n\n            if !added {\n                break;\n            }\n", "            let added = self.add_all(&to_be_added);\n            to_be_added.clear();\n            if !added {\n                return;\n            }\n"), (I, "    /// Compute the transition state for this state under input X\n", "    fn add_all(&mut self, what: &[(Item, TokenIdx)]) -> bool {\n        let mut added = false;\n        for &(item, token_idx) in what {\n            added |= self.0.entry(item).or_insert_with(BTreeSet::new).insert(token_idx);\n        }\n        added\n    }\n\n    /// Compute the transition state for this state under input X\n"), (I, "use std::{\n    collections::{btree_map::Entry, hash_map", "use std::{\n    collections::{hash_map")),
    ("y-closure-collect", (I, "            for (item, lookahead_set) in self.0.iter_mut() {\n                let production_name = match item.dot_production_name(grammar) {\n                    Some(prod_name) => prod_name,\n                    None => continue,\n                };\n\n                // For each B -> 𝛾\n                for (prod_idx, _prod) in grammar.production_iter(production_name) {\n                    // For each 𝑏 in FIRST(β𝑎) add [B -> .𝛾, 𝑏] to the set\n                    for lookahead in lookahead_set.iter() {\n", "            for (item, lookahead_set) in &self.0 {\n                let production_name = match item.dot_production_name(grammar) {\n                    Some(prod_name) => prod_name,\n                    None => continue,\n                };\n                let after = item.increment();\n\n                // For each B -> 𝛾\n                for (prod_idx, _) in grammar.production_iter(production_name) {\n                    // For each 𝑏 in FIRST(β𝑎) add [B -> .𝛾, 𝑏] to the set\n                    for lookahead in lookahead_set {\n"), (I, "                        let β𝑎 = item\n                            .increment()\n                            .iter(grammar)\n", "                        let β𝑎 = after\n                            .iter(grammar)\n")),
    ("y-closure-extend", (I, "                        for terminal in first(grammar, β𝑎) {\n                            let item = Item(prod_idx, 0);\n                            let token_idx = grammar.get_token_idx(terminal).unwrap();\n\n                            to_be_added.push((item, token_idx));\n                        }\n", "                        to_be_added.extend(first(grammar, β𝑎).into_iter().map(|terminal| {\n                            (\n                                Item(prod_idx, 0),\n                                grammar.get_token_idx(terminal).unwrap(),\n                            )\n                        }));\n")),
    ("y-goto-filter", (I, "        for (item, lookahead_set) in self.0.iter() {\n            let input_token = match item.dot_token(grammar) {\n                Some(input_token) => input_token,\n                None => continue,\n            };\n\n            if input_token != x {\n                continue;\n            }\n\n            let new_item = item.increment();\n            for lookahead in lookahead_set.iter() {\n", "        let moved = self\n            .0\n            .iter()\n            .filter(|(item, _)| item.dot_token(grammar) == Some(x));\n        for (item, lookahead_set) in moved {\n            let new_item = item.increment();\n            for lookahead in lookahead_set.iter() {\n")),
    ("y-goto-match-guard", (I, "            let input_token = match item.dot_token(grammar) {\n                Some(input_token) => input_token,\n                None => continue,\n            };\n\n            if input_token != x {\n                continue;\n            }\n\n            let new_item = item.increment();\n            for lookahead in lookahead_set.iter() {\n                j.entry(new_item)\n                    .or_insert_with(BTreeSet::new)\n                    .insert(*lookahead);\n            }\n", "            match item.dot_token(grammar) {\n                Some(input_token) if input_token == x => {\n                    let new_item = item.increment();\n                    for lookahead in lookahead_set.iter().copied() {\n                        j.entry(new_item).or_default().insert(lookahead);\n                    }\n                }\n                _ => {}\n            }\n")),
    ("y-items-helper", (I, "            for item_set in c.iter() {\n                for grammar_symbol in grammar.tokens() {\n                    let goto_i_x = item_set.goto(grammar_symbol, grammar);\n                    if !goto_i_x.0.is_empty() && !c.contains(&goto_i_x) {\n                        temp.push(goto_i_x);\n                    }\n                }\n            }\n", "            for item_set in &c {\n                Self::new_targets(item_set, &c, grammar, &mut temp);\n            }\n"), (I, "    fn closure<'ast>(&mut self", "    fn new_targets<'ast>(\n        item_set: &Self,\n        known: &IndexSet<Self>,\n        grammar: &'ast Grammar<'ast>,\n        found: &mut Vec<Self>,\n    ) {\n        for symbol in grammar.tokens() {\n            let target = item_set.goto(symbol, grammar);\n            if target.0.is_empty() || known.contains(&target) {\n                continue;\n            }\n            found.push(target);\n        }\n    }\n\n    fn closure<'ast>(&mut self")),
    ("y-items-while-let", (I, "            while !temp.is_empty() {\n                let item_set = temp.pop().unwrap();\n                c.insert(item_set);\n            }\n", "            while let Some(item_set) = temp.pop() {\n                c.insert(item_set);\n            }\n"), (I, "        let mut initial_items = Self::initial();\n        initial_items.closure(grammar);\n\n        let mut c = IndexSet::from_iter([initial_items]);\n", "        let mut start = Self::initial();\n        start.closure(grammar);\n        let mut c = IndexSet::new();\n        c.insert(start);\n")),
    ("y-item-iter-next", (I, "        let cur_idx = self.item.dot();\n        self.item.1 += 1;\n\n        let production = self.grammar.get_production(self.item.production_idx())?;\n        production.input_tokens.get(cur_idx as usize)\n", "        let current = self.item;\n        self.item = current.increment();\n        current.dot_token_opt(self.grammar)\n"), (I, "    pub fn last_token<'ast>(self", "    fn dot_token_opt<'ast>(self, grammar: &'ast Grammar<'ast>) -> Option<&'ast Symbol<'ast>> {\n        grammar\n            .get_production(self.0)\n            .and_then(|production| production.input_tokens.get(self.1 as usize))\n    }\n\n    pub fn last_token<'ast>(self")),
    ("y-dotname-via-token", (I, "        let this_production: &Production = grammar.get_production(self.production_idx()).unwrap();\n\n        this_production\n            .input_tokens\n            .get(self.dot() as usize)\n            .and_then(|symbol| symbol.as_non_terminal())\n            .copied()\n", "        match self.dot_token(grammar)? {\n            Symbol::NonTerminal(name) => Some(*name),\n            _ => None,\n        }\n")),
    ("y-hash-flat", (I, "        for (item, lookaheads) in self.0.iter() {\n            item.hash(state);\n            for lookahead in lookaheads {\n                lookahead.hash(state);\n            }\n        }\n", "        self.0.iter().for_each(|(item, lookaheads)| {\n            item.hash(state);\n            lookaheads.iter().for_each(|lookahead| lookahead.hash(state));\n        });\n")),
    ("y-item-debug-join", (I, "                let last = if production.input_tokens.is_empty() {\n                    0\n                } else {\n                    production.input_tokens.len() - 1\n                };\n", "                let last = production.input_tokens.len().saturating_sub(1);\n")),
    # FIRST
    ("y-first-rec-match", (F, "    let non_terminal = match symbol.as_non_terminal() {\n        Some(non_terminal) => non_terminal,\n        None => {\n            set.insert(symbol);\n            return matches!(symbol, Symbol::Epsilon);\n        }\n    };\n\n    // A (left-)recursive production adds nothing to the set it is computing\n    if !visited.insert(*non_terminal) {\n        return false;\n    }\n", "    let name = match symbol {\n        Symbol::NonTerminal(name) => *name,\n        terminal => {\n            set.insert(terminal);\n            return *terminal == Symbol::Epsilon;\n        }\n    };\n\n    // A (left-)recursive production adds nothing to the set it is computing\n    if visited.contains(&name) {\n        return false;\n    }\n    visited.insert(name);\n"), (F, "grammar.production_iter(*non_terminal)", "grammar.production_iter(name)")),
    ("y-first-loop", (F, "        'input_token_iter: for input_token in production.input_tokens.iter() {\n            if !first_of_symbol(grammar, set, visited, input_token) {\n                break 'input_token_iter;\n            } else {\n                added_epsilon = true;\n            }\n        }\n", "        for input_token in &production.input_tokens {\n            let nullable = first_of_symbol(grammar, set, visited, input_token);\n            added_epsilon = added_epsilon || nullable;\n            if !nullable {\n                break;\n            }\n        }\n")),
    ("y-first-while", (F, "    for symbol in symbols {\n        let _ = first_of_symbol(grammar, &mut set, &mut BTreeSet::new(), symbol);\n        prev_has_epsilon = set.remove(&Symbol::Epsilon);\n        if !prev_has_epsilon {\n            break;\n        }\n    }\n\n    if prev_has_epsilon {\n        set.insert(&Symbol::Epsilon);\n    }\n\n    set\n", "    for symbol in symbols {\n        first_of_symbol(grammar, &mut set, &mut BTreeSet::new(), symbol);\n        prev_has_epsilon = set.remove(&Symbol::Epsilon);\n        if !prev_has_epsilon {\n            return set;\n        }\n    }\n    set.insert(&Symbol::Epsilon);\n    set\n")),
    # NFA
    ("y-nfa-newstate", (N, "                let f_idx = StateIdx(self.states.len());\n                self.states.push(State {\n                    first_edge: OptionUsize::none(),\n                    is_accept: false,\n                });\n                self.push_edge(f_idx, Match::EPSILON, accept);\n\n                // `i` is the input state than has epsilon edges to each alternation\n                let i_idx = StateIdx(self.states.len());\n                self.states.push(State {\n                    first_edge: OptionUsize::none(),\n                    is_accept: false,\n                });\n\n                let targets: Vec<_> = ranges\n", "                let f_idx = self.new_state();\n                self.push_edge(f_idx, Match::EPSILON, accept);\n\n                // `i` is the input state than has epsilon edges to each alternation\n                let i_idx = self.new_state();\n\n                let targets: Vec<_> = ranges\n"), (N, "                    let s_out = StateIdx(self.states.len());\n                    self.states.push(State {\n                        first_edge: OptionUsize::none(),\n                        is_accept: false,\n                    });\n", "                    let s_out = self.new_state();\n"), (N, "        let from = StateIdx(self.states.len());\n        self.states.push(State {\n            first_edge: OptionUsize::none(),\n            is_accept: false,\n        });\n\n        self.push_edge(from, Some(m), accept);\n", "        let from = self.new_state();\n        self.push_edge(from, Some(m), accept);\n"), (N, "    fn push_edge(&mut self", "    fn new_state(&mut self) -> StateIdx {\n        self.states.push(State {\n            first_edge: OptionUsize::none(),\n            is_accept: false,\n        });\n        StateIdx(self.states.len() - 1)\n    }\n\n    fn push_edge(&mut self")),
    ("y-nfa-class-loop", (N, "                let targets: Vec<_> = ranges\n                    .iter()\n                    .map(|alt| self.compile_match(alt.clone(), f_idx))\n                    .collect();\n\n                for target in targets {\n                    self.push_edge(i_idx, Match::EPSILON, target.unwrap());\n                }\n", "                let mut targets = Vec::with_capacity(ranges.len());\n                for alt in ranges {\n                    targets.push(self.compile_match(alt, f_idx).unwrap());\n                }\n\n                for target in targets {\n                    self.push_edge(i_idx, None, target);\n                }\n")),
    ("y-nfa-class-helper", (N, "                        .map(|range| Match {\n                            range: range.start() as u32..(range.end() as u32 + 1),\n                        })\n                        .collect(),\n                    Class::Bytes", "                        .map(|range| Match::inclusive(range.start() as u32, range.end() as u32))\n                        .collect(),\n                    Class::Bytes"), (N, "                        .map(|range| Match {\n                            range: range.start() as u32..(range.end() as u32 + 1),\n                        })\n                        .collect(),\n                };", "                        .map(|range| Match::inclusive(range.start().into(), range.end().into()))\n                        .collect(),\n                };"), (N, "impl Into<usize> for StateIdx", "impl Match {\n    fn inclusive(first: u32, last: u32) -> Self {\n        Self {\n            range: first..last + 1,\n        }\n    }\n}\n\nimpl Into<usize> for StateIdx")),
    ("y-nfa-rep-flags", (N, "                    let s_out = StateIdx(self.states.len());\n", "                    let (again, skip) = match rep.kind {\n                        RepetitionKind::ZeroOrOne => (false, true),\n                        RepetitionKind::OneOrMore => (true, false),\n                        _ => (true, true),\n                    };\n                    let s_out = StateIdx(self.states.len());\n"), (N, "                    if matches!(\n                        rep.kind,\n                        RepetitionKind::OneOrMore | RepetitionKind::ZeroOrMore\n                    ) {\n", "                    if again {\n"), (N, "                    if matches!(\n                        rep.kind,\n                        RepetitionKind::ZeroOrOne | RepetitionKind::ZeroOrMore\n                    ) {\n", "                    if skip {\n")),
    ("y-nfa-concat-fold", (N, "                let mut accept = accept;\n                for expr in exprs.iter().rev() {\n                    // An empty expression is skipped\n                    accept = self.compile(expr, accept).unwrap_or(accept);\n                }\n                OptionUsize::some(accept)\n", "                let entry = exprs\n                    .iter()\n                    .rev()\n                    .fold(accept, |next, expr| self.compile(expr, next).unwrap_or(next));\n                OptionUsize::some(entry)\n")),
    ("y-nfa-move-iflet", (N, "                match &edge.label {\n                    Some(label_match) => {\n                        if label_match.matches(c) {\n                            ret.insert(edge.to);\n                        }\n                    }\n                    _ => (),\n                }\n", "                if edge.label.as_ref().map_or(false, |label| label.matches(c)) {\n                    ret.insert(edge.to);\n                }\n")),
    ("y-nfa-move-iter", (N, "            let state = &self.states[state_idx.0];\n            if state.first_edge.is_none() {\n                continue;\n            }\n\n            let mut edge_idx = state.first_edge.unwrap();\n            while edge_idx < self.edges.len() {\n                let edge = &self.edges[edge_idx];\n                edge_idx += 1;\n                if edge.from != state_idx {\n                    break;\n                }\n\n                match &edge.label {\n                    Some(label_match) => {", "            let first_edge = self.states[state_idx.0].first_edge;\n            if first_edge.is_none() {\n                continue;\n            }\n\n            for edge in self.edges.iter().skip(first_edge.unwrap()) {\n                if edge.from != state_idx {\n                    break;\n                }\n\n                match &edge.label {\n                    Some(label_match) => {")),
    ("y-nfa-closure-pop", (N, "        while !stack.is_empty() {\n            // SAFETY:\n            // We loop while the stack is non empty so this will never return None\n            let state_idx = unsafe { stack.pop().unwrap_unchecked() };\n", "        while let Some(state_idx) = stack.pop() {\n")),
    ("y-nfa-sim-fold", (N, "        let mut state_set = self.starting_state();\n\n        for c in s.chars() {\n            state_set = self.epsilon_closure(self.move_state(state_set, c));\n        }\n", "        let state_set = s.chars().fold(self.starting_state(), |states, c| {\n            let moved = self.move_state(states, c);\n            self.epsilon_closure(moved)\n        });\n")),
    ("y-nfa-template-scan", (N, "        for (state_len, _) in token_nfa_lengths {\n            this.push_edge(\n                Self::START_IDX,\n                None,\n                StateIdx(Self::START_IDX.0 + state_offset),\n            );\n            state_offset += state_len;\n        }\n", "        for &(state_len, _edge_len) in token_nfa_lengths.iter() {\n            let target = StateIdx(state_offset);\n            state_offset += state_len;\n            this.push_edge(Self::START_IDX, Match::EPSILON, target);\n        }\n")),
    # the grammar
    ("y-gram-entry", (P, "                match production_name_map.entry(ast_prod.name) {\n                    Entry::Vacant(entry) => {\n                        entry.insert(vec![production_idx]);\n                    }\n                    Entry::Occupied(mut entry) => {\n                        entry.get_mut().push(production_idx);\n                    }\n                }\n", "                production_name_map\n                    .entry(ast_prod.name)\n                    .or_default()\n                    .push(production_idx);\n"), (P, "collections::{btree_map::Entry, BTreeMap, BTreeSet}", "collections::{BTreeMap, BTreeSet}")),
    ("y-gram-tokens-flat", (P, "        let mut token_set: BTreeSet<Symbol> = BTreeSet::new();\n        for prod in productions.iter() {\n            for input_token in prod.input_tokens.iter() {\n                token_set.insert(*input_token);\n            }\n        }\n        let mut tokens = Vec::with_capacity(1 + token_set.len());\n        tokens.push(Symbol::Eof);\n        tokens.extend(token_set);\n", "        let token_set: BTreeSet<Symbol> = productions\n            .iter()\n            .flat_map(|prod| prod.input_tokens.iter().copied())\n            .collect();\n        let tokens: Vec<Symbol> = std::iter::once(Symbol::Eof).chain(token_set).collect();\n")),
    ("y-gram-position", (P, "        self.tokens.iter().enumerate().find_map(|(idx, tok)| {\n            if tok.eq(input_token) {\n                Some(TokenIdx(idx as u32))\n            } else {\n                None\n            }\n        })\n", "        self.tokens\n            .iter()\n            .position(|tok| tok == input_token)\n            .map(|idx| TokenIdx(idx as u32))\n")),
    ("y-gram-tokendef", (P, "        let token_idx = token_idx.0;\n        match self {\n            Symbol::StrLit(str_lit) => Some((\n                TokenDef {\n                    name: str_lit.to_string(),\n                    with_val: true,\n                    token_idx: Some(token_idx),\n                },\n                RegexParser::new().parse(&regex::escape(str_lit)).unwrap(),\n            )),\n            Symbol::Regex(regex) => Some((\n                TokenDef {\n                    name: regex.to_string(),\n                    with_val: true,\n                    token_idx: Some(token_idx),\n                },\n                RegexParser::new().parse(regex).unwrap(),\n            )),\n            Symbol::Epsilon => None,\n            Symbol::Eof => None,\n            Symbol::NonTerminal(_) => None,\n        }\n", "        let def = self.to_token_def(token_idx)?;\n        let pattern = match self {\n            Symbol::StrLit(str_lit) => regex::escape(str_lit),\n            Symbol::Regex(regex) => regex.to_string(),\n            _ => return None,\n        };\n        Some((def, RegexParser::new().parse(&pattern).unwrap()))\n")),
    ("y-gram-tokendef2", (P, "            Symbol::StrLit(str_lit) => Some(TokenDef {\n                name: str_lit.to_string(),\n                with_val: true,\n                token_idx: Some(token_idx),\n            }),\n            Symbol::Regex(regex) => Some(TokenDef {\n                name: regex.to_string(),\n                with_val: true,\n                token_idx: Some(token_idx),\n            }),\n            Symbol::Epsilon => None,\n            Symbol::Eof => None,\n            Symbol::NonTerminal(_) => None,\n        }\n    }\n", "            Symbol::StrLit(text) | Symbol::Regex(text) => Some(TokenDef {\n                name: text.to_string(),\n                with_val: true,\n                token_idx: Some(token_idx),\n            }),\n            Symbol::Epsilon | Symbol::Eof | Symbol::NonTerminal(_) => None,\n        }\n    }\n")),
    ("y-gram-iter-next", (P, "        let next_production_idx = self.production_indices.get(self.idx)?;\n        self.idx += 1;\n\n        self.productions\n            .get(next_production_idx.0 as usize)\n            .map(|production| (*next_production_idx, production))\n", "        match self.production_indices.get(self.idx) {\n            None => None,\n            Some(&idx) => {\n                self.idx += 1;\n                let production = self.productions.get(idx.0 as usize)?;\n                Some((idx, production))\n            }\n        }\n")),
    ("y-gram-start-loop", (P, "        let start_symbol = ast_productions\n            .iter()\n            .find(|prod| prod.is_start)\n            .expect(\"Expect start production.\");\n", "        let mut start_symbol = None;\n        for prod in ast_productions {\n            if prod.is_start {\n                start_symbol = Some(prod);\n                break;\n            }\n        }\n        let start_symbol = start_symbol.expect(\"Expect start production.\");\n")),
    ("y-sup-quoted", (S, "            match c {\n                '\\\\' => ret.extend(chars.next()),\n                c => ret.push(c),\n            }\n", "            if c != '\\\\' {\n                ret.push(c);\n            } else if let Some(escaped) = chars.next() {\n                ret.push(escaped);\n            }\n")),
    ("y-sup-unquote", (S, "        let regex_trimmed = regex_str_with_quotes\n            .chars()\n            .skip(1)\n            .take(regex_str_with_quotes.chars().count() - 2)\n            .collect::<String>();\n\n        self.ast.alloc(regex_trimmed)\n", "        self.alloc_ts_code(regex_str_with_quotes)\n")),
]
