# larger refactorings: helpers extracted, loops rewritten, statements reordered
N, D, X = "src/lex/nfa.rs", "src/lex/dfa.rs", "src/lex/lex.rs"
F, I, T, L = "src/lalr/first.rs", "src/lalr/item.rs", "src/lalr/table.rs", "src/lalr.rs"
P, A, SU, G = "src/parser/mod.rs", "src/parser/ast.rs", "src/parser/support.rs", "src/parser/grammar.lalrpop"
CG, LG, PG, O, LB = "src/codegen.rs", "src/codegen/lex_gen.rs", "src/codegen/parse_gen.rs", "src/option_usize.rs", "src/lib.rs"
NEW = "self.states.push(State {\n                    first_edge: OptionUsize::none(),\n                    is_accept: false,\n                });"
E = [
    ("r-nfa-newstate", (N, "    fn compile_match(&mut self, m: Match, accept: StateIdx) -> OptionUsize<StateIdx> {\n        let from = StateIdx(self.states.len());\n        self.states.push(State {\n            first_edge: OptionUsize::none(),\n            is_accept: false,\n        });\n",
        "    fn new_state(&mut self) -> StateIdx {\n        let idx = StateIdx(self.states.len());\n        self.states.push(State { first_edge: OptionUsize::none(), is_accept: false });\n        idx\n    }\n\n    fn compile_match(&mut self, m: Match, accept: StateIdx) -> OptionUsize<StateIdx> {\n        let from = self.new_state();\n"),
        (N, "                    let s_out = StateIdx(self.states.len());\n                    self.states.push(State {\n                        first_edge: OptionUsize::none(),\n                        is_accept: false,\n                    });\n", "                    let s_out = self.new_state();\n"),
        (N, "                    let i = StateIdx(self.states.len());\n                    self.states.push(State {\n                        first_edge: OptionUsize::none(),\n                        is_accept: false,\n                    });\n", "                    let i = self.new_state();\n")),
    ("r-nfa-fork", (N, "                let targets: Vec<_> = alternations\n                    .iter()\n                    .map(|alt| self.compile(alt, f_idx))\n                    .collect();\n\n                for target in targets {\n                    self.push_edge(i_idx, Match::EPSILON, target.unwrap_or(f_idx));\n                }\n",
        "                let mut targets = Vec::with_capacity(alternations.len());\n                for alt in alternations {\n                    let target = self.compile(alt, f_idx);\n                    targets.push(target.unwrap_or(f_idx));\n                }\n                for target in targets {\n                    self.push_edge(i_idx, Match::EPSILON, target);\n                }\n")),
    ("r-nfa-rep", (N, "                    if matches!(\n                        rep.kind,\n                        RepetitionKind::OneOrMore | RepetitionKind::ZeroOrMore\n                    ) {\n                        self.push_edge(s_out, Match::EPSILON, s_in);\n                    }\n", "                    let repeats = match rep.kind {\n                        RepetitionKind::ZeroOrOne => false,\n                        _ => true,\n                    };\n                    if repeats {\n                        self.push_edge(s_out, Match::EPSILON, s_in);\n                    }\n"),
        (N, "                    if matches!(\n                        rep.kind,\n                        RepetitionKind::ZeroOrOne | RepetitionKind::ZeroOrMore\n                    ) {", "                    let optional = !matches!(rep.kind, RepetitionKind::OneOrMore);\n                    if optional {")),
    ("r-nfa-concat", (N, "                let mut accept = accept;\n                for expr in exprs.iter().rev() {\n                    // An empty expression is skipped\n                    accept = self.compile(expr, accept).unwrap_or(accept);\n                }\n                OptionUsize::some(accept)", "                let start = exprs.iter().rev().fold(accept, |next, expr| self.compile(expr, next).unwrap_or(next));\n                OptionUsize::some(start)")),
    ("r-nfa-class-common", (N, "                        .map(|range| Match {\n                            range: range.start() as u32..(range.end() as u32 + 1),\n                        })\n                        .collect(),\n                    Class::Bytes(class) => class\n                        .ranges()\n                        .iter()\n                        .map(|range| Match {\n                            range: range.start() as u32..(range.end() as u32 + 1),\n                        })\n                        .collect(),", "                        .map(|range| Match::inclusive(range.start() as u32, range.end() as u32))\n                        .collect(),\n                    Class::Bytes(class) => class\n                        .ranges()\n                        .iter()\n                        .map(|range| Match::inclusive(range.start() as u32, range.end() as u32))\n                        .collect(),"),
        (N, "    pub fn char(c: char) -> Self {\n        Self {\n            range: (c as u32)..(c as u32 + 1),\n        }\n    }", "    fn inclusive(first: u32, last: u32) -> Self {\n        Self { range: first..last + 1 }\n    }\n\n    pub fn char(c: char) -> Self {\n        Self::inclusive(c as u32, c as u32)\n    }")),
    ("r-nfa-simulate", (N, "        let accepting_states = {\n            self.states\n                .iter()\n                .enumerate()\n                .filter_map(|(i, state)| {\n                    if state.is_accept {\n                        Some(StateIdx(i))\n                    } else {\n                        None\n                    }\n                })\n                .collect()\n        };\n\n        Self::has_accepting_states(state_set.iter().copied().collect(), accepting_states)", "        let accepting_states = self\n            .states\n            .iter()\n            .enumerate()\n            .filter(|(_, state)| state.is_accept)\n            .map(|(i, _)| StateIdx(i))\n            .collect();\n        let reached = state_set.into_iter().collect();\n        Self::has_accepting_states(reached, accepting_states)")),
    ("r-nfa-move-iter", (N, "        for state_idx in state_set.into_iter() {\n            let state = &self.states[state_idx.0];\n            if state.first_edge.is_none() {\n                continue;\n            }\n\n            let mut edge_idx = state.first_edge.unwrap();\n            while edge_idx < self.edges.len() {\n                let edge = &self.edges[edge_idx];\n                edge_idx += 1;\n                if edge.from != state_idx {\n                    break;\n                }\n\n                match &edge.label {\n                    Some(label_match) => {\n                        if label_match.matches(c) {\n                            ret.insert(edge.to);\n                        }\n                    }\n                    _ => (),\n                }\n            }\n        }\n", "        for state_idx in state_set {\n            let edges = match self.edge_iter(state_idx) {\n                Some(edges) => edges,\n                None => continue,\n            };\n            for edge in edges {\n                if let Some(label) = &edge.label {\n                    if label.matches(c) {\n                        ret.insert(edge.to);\n                    }\n                }\n            }\n        }\n")),
    ("r-nfa-matches", (N, "    pub fn matches(&self, c: char) -> bool {\n        let c = c as u32;\n\n        c >= self.range.start && c < self.range.end\n    }", "    pub fn matches(&self, c: char) -> bool {\n        self.contains_u32(u32::from(c))\n    }")),
    ("r-nfa-shift-ops", (N, "            let first_edge = &mut state.first_edge;\n            if first_edge.is_some() {\n                *first_edge = OptionUsize::some(first_edge.unwrap() + edge_offset);\n            }", "            if state.first_edge.is_none() {\n                continue;\n            }\n            let shifted = state.first_edge.unwrap() + edge_offset;\n            state.first_edge = OptionUsize::some(shifted);")),
    ("r-nfa-template", (N, "        let mut state_offset = 1;\n        for (state_len, _) in token_nfa_lengths {\n            this.push_edge(\n                Self::START_IDX,\n                None,\n                StateIdx(Self::START_IDX.0 + state_offset),\n            );\n            state_offset += state_len;\n        }", "        let mut next_start = Self::START_IDX.0 + 1;\n        for &(state_len, _) in token_nfa_lengths.iter() {\n            this.push_edge(Self::START_IDX, Match::EPSILON, StateIdx(next_start));\n            next_start += state_len;\n        }")),
    ("r-dfa-closure-extract", (D, "        while let Some(state) = stack.pop() {\n            if let Some(edge_iter) = nfa.edge_iter(state) {\n                // Iterate epsilon edges\n                for edge in edge_iter.filter(|edge| edge.label.is_none()) {\n                    let u = edge.to;\n                    if set.insert(u) {\n                        stack.push(u);\n                    }\n                }\n            }\n        }\n", "        while let Some(state) = stack.pop() {\n            for edge in nfa.edge_iter(state).into_iter().flatten() {\n                if edge.label.is_some() {\n                    continue;\n                }\n                if set.insert(edge.to) {\n                    stack.push(edge.to);\n                }\n            }\n        }\n")),
    ("r-dfa-move-helper", (D, "                    if edge.label.as_ref().map_or(false, |l| {\n                        l.range.contains(&label.range.start)\n                            && l.range.contains(&(label.range.end - 1))\n                    }) {\n                        ret.insert(edge.to);\n                    }", "                    let covers = match &edge.label {\n                        Some(l) => {\n                            let last = label.range.end - 1;\n                            l.range.contains(&label.range.start) && l.range.contains(&last)\n                        }\n                        None => false,\n                    };\n                    if covers {\n                        ret.insert(edge.to);\n                    }")),
    ("r-dfa-build-helper", (D, "                let idx = match d_states.iter().enumerate().find(|(_, s)| *s == &u) {\n                    Some((i, _)) => i,\n                    None => {", "                let idx = match d_states.iter().position(|s| *s == u) {\n                    Some(i) => i,\n                    None => {")),
    ("r-dfa-build-while", (D, "        loop {\n            // Loop while there is an unmarked state set\n            let t_idx = match (0..d_states.len()).find(|idx| !marks[*idx]) {\n                Some(idx) => idx,\n                None => break,\n            };\n", "        while let Some(t_idx) = (0..d_states.len()).find(|idx| !marks[*idx]) {\n")),
    ("r-dfa-build-final", (D, "        let mut final_states = Vec::with_capacity(d_states.capacity());\n\n        for (i, _states) in d_states.into_iter().enumerate() {\n            final_states.push(State {\n                first_edge: first_edges[i],\n            })\n        }\n", "        let final_states = (0..d_states.len()).map(|i| State { first_edge: first_edges[i] }).collect();\n")),
    ("r-dfa-fromnfa", (D, "        let alphabet = nfa.labels();\n        let mut ranges = BTreeSet::new();\n        for label in alphabet {\n            ranges.insert(label.clone());\n        }\n        let alphabet = remove_overlap(&ranges);", "        let ranges: BTreeSet<Match> = nfa.labels().into_iter().cloned().collect();\n        let alphabet = remove_overlap(&ranges);")),
    ("r-dfa-sim", (D, "            if let Some(mut edge_iter) = self.edge_iter(state_idx) {\n                match edge_iter.find(|edge| edge.label.matches(c)) {\n                    Some(edge) => {\n                        eaten += 1;\n                        state_idx = edge.to;\n                    }\n                    None => break,\n                }\n            }", "            let mut edge_iter = match self.edge_iter(state_idx) {\n                Some(edge_iter) => edge_iter,\n                None => continue,\n            };\n            let next = edge_iter.find(|edge| edge.label.matches(c)).map(|edge| edge.to);\n            match next {\n                Some(to) => {\n                    state_idx = to;\n                    eaten += 1;\n                }\n                None => break,\n            }")),
    ("r-dfa-accepting", (D, "                match ret.entry(*dfa_state) {\n                    std::collections::btree_map::Entry::Vacant(entry) => {\n                        entry.insert(vec![*nfa_state_idx]);\n                    }\n                    std::collections::btree_map::Entry::Occupied(mut entry) => {\n                        entry.get_mut().push(*nfa_state_idx);\n                    }\n                }", "                ret.entry(*dfa_state).or_default().push(*nfa_state_idx);")),
    ("r-dfa-accepting2", (D, "        for (dfa_state, nfa_set) in self.dfa_to_nfa.iter() {\n            for nfa_state_idx in nfa_set\n                .iter()\n                .filter(|idx| self.accepting_states.contains(idx))\n            {\n                match ret.entry(*dfa_state) {\n                    std::collections::btree_map::Entry::Vacant(entry) => {\n                        entry.insert(vec![*nfa_state_idx]);\n                    }\n                    std::collections::btree_map::Entry::Occupied(mut entry) => {\n                        entry.get_mut().push(*nfa_state_idx);\n                    }\n                }\n            }\n        }", "        for (dfa_state, nfa_set) in &self.dfa_to_nfa {\n            let accepting: Vec<StateIdx> = nfa_set\n                .iter()\n                .filter(|idx| self.accepting_states.contains(idx))\n                .copied()\n                .collect();\n            if !accepting.is_empty() {\n                ret.insert(*dfa_state, accepting);\n            }\n        }")),
    ("r-lex-step", (X, "        while forward < chars.len() || last_accepting_state.is_some() {\n            let matching_edge = match (chars.get(forward), self.dfa.edge_iter(state_idx)) {\n                (Some(c), Some(mut edge_iter)) => edge_iter.find(|edge| edge.label.matches(*c)),\n                _ => None,\n            };\n", "        while forward < chars.len() || last_accepting_state.is_some() {\n            let next_char = chars.get(forward).copied();\n            let matching_edge = next_char.and_then(|c| {\n                self.dfa\n                    .edge_iter(state_idx)\n                    .and_then(|mut edges| edges.find(|edge| edge.label.matches(c)))\n            });\n")),
    ("r-lex-cont", (X, "                        lexeme_begin = last_accepting_idx + 1;\n                        forward = last_accepting_idx + 1;\n                        state_idx = StateIdx(0);\n\n                        last_accepting_state = None;\n", "                        let resume_at = last_accepting_idx + 1;\n                        last_accepting_state = None;\n                        state_idx = DFA::START_IDX;\n                        forward = resume_at;\n                        lexeme_begin = resume_at;\n")),
    ("r-lex-from-tokens", (X, "        for (_, nfa) in tokens_with_nfa.iter() {\n            for state in &nfa.states {\n                lex_nfa.states.push(state.clone());\n            }\n            for edges in &nfa.edges {\n                lex_nfa.edges.push(edges.clone());\n            }\n        }\n", "        for (_, nfa) in tokens_with_nfa {\n            lex_nfa.states.extend(nfa.states);\n            lex_nfa.edges.extend(nfa.edges);\n        }\n")),
    ("r-lex-from-grammar", (X, "        let mut tokens = Vec::new();\n\n        for (idx, tok) in grammar.tokens().enumerate() {\n            let token_def_with_regex = match tok.to_token_def_with_regex(TokenIdx(idx as u32)) {\n                Some(t) => t,\n                None => continue,\n            };\n\n            tokens.push(token_def_with_regex);\n        }\n", "        let tokens = grammar\n            .tokens()\n            .enumerate()\n            .filter_map(|(idx, tok)| tok.to_token_def_with_regex(TokenIdx(idx as u32)))\n            .collect();\n")),
    ("r-lex-convert", (X, "        let def_map = self\n            .tokens\n            .iter()\n            .fold(BTreeMap::new(), |mut map, (_, def)| {\n                map.insert(def.name.as_str(), def);\n                map\n            });\n        tokens\n            .into_iter()\n            .map(|token| self.token_with_idx(token, &def_map))\n            .chain(std::iter::once((Token{ name: \"EOF\".into(), val: None}, Grammar::EOF_TOKEN_IDX)))\n            .collect()", "        let mut def_map = BTreeMap::new();\n        for def in self.tokens.values() {\n            def_map.insert(def.name.as_str(), def);\n        }\n        let mut converted = Vec::with_capacity(tokens.len() + 1);\n        for token in tokens {\n            converted.push(self.token_with_idx(token, &def_map));\n        }\n        converted.push((Token { name: \"EOF\".into(), val: None }, Grammar::EOF_TOKEN_IDX));\n        converted")),
    ("r-lex-maketok", (X, "        let ret = match self.tokens.get(&last_accepting_state_idx) {\n            Some(TokenDef {\n                with_val: true,\n                name,\n                ..\n            }) => {\n                // let val = char_vec.iter().collect::<String>();\n                // `start` and `end` count characters, not bytes\n                let val: String = input.chars().skip(start).take(end + 1 - start).collect();\n                Token::new_with_val(name.clone(), val)\n            }\n            Some(TokenDef {\n                with_val: false,\n                name,\n                ..\n            }) => Token::new(name.clone()),\n            None => panic!(),\n        };\n        // char_vec.clear();\n        ret", "        let def = match self.tokens.get(&last_accepting_state_idx) {\n            Some(def) => def,\n            None => panic!(),\n        };\n        if !def.with_val {\n            return Token::new(def.name.clone());\n        }\n        let len = end + 1 - start;\n        let text: String = input.chars().skip(start).take(len).collect();\n        Token::new_with_val(def.name.clone(), text)")),
    ("r-first-any", (F, "    for (_, production) in grammar.production_iter(*non_terminal) {\n        'input_token_iter: for input_token in production.input_tokens.iter() {\n            if !first_of_symbol(grammar, set, visited, input_token) {\n                break 'input_token_iter;\n            } else {\n                added_epsilon = true;\n            }\n        }\n    }\n", "    for (_, production) in grammar.production_iter(*non_terminal) {\n        for input_token in &production.input_tokens {\n            let has_epsilon = first_of_symbol(grammar, set, visited, input_token);\n            if !has_epsilon {\n                break;\n            }\n            added_epsilon = true;\n        }\n    }\n")),
    ("r-first-loop", (F, "    let mut prev_has_epsilon = true;\n    for symbol in symbols {\n        let _ = first_of_symbol(grammar, &mut set, &mut BTreeSet::new(), symbol);\n        prev_has_epsilon = set.remove(&Symbol::Epsilon);\n        if !prev_has_epsilon {\n            break;\n        }\n    }\n\n    if prev_has_epsilon {\n        set.insert(&Symbol::Epsilon);\n    }\n\n    set", "    for symbol in symbols {\n        let mut visited = BTreeSet::new();\n        first_of_symbol(grammar, &mut set, &mut visited, symbol);\n        if !set.remove(&Symbol::Epsilon) {\n            return set;\n        }\n    }\n\n    set.insert(&Symbol::Epsilon);\n    set")),
    ("r-item-goto", (I, "            let input_token = match item.dot_token(grammar) {\n                Some(input_token) => input_token,\n                None => continue,\n            };\n\n            if input_token != x {\n                continue;\n            }\n\n            let new_item = item.increment();\n            for lookahead in lookahead_set.iter() {\n                j.entry(new_item)\n                    .or_insert_with(BTreeSet::new)\n                    .insert(*lookahead);\n            }", "            match item.dot_token(grammar) {\n                Some(input_token) if input_token == x => {\n                    let new_item = item.increment();\n                    for lookahead in lookahead_set {\n                        j.entry(new_item).or_default().insert(*lookahead);\n                    }\n                }\n                _ => {}\n            }")),
    ("r-item-closure-add", (I, "            for (item, token_idx) in to_be_added.iter() {\n                match self.0.entry(*item) {\n                    Entry::Vacant(entry) => {\n                        entry.insert(BTreeSet::from_iter([*token_idx]));\n                        added = true;\n                    }\n                    Entry::Occupied(mut entry) => {\n                        if entry.get_mut().insert(*token_idx) {\n                            added = true;\n                        }\n                    }\n                }\n            }\n            to_be_added.clear();\n", "            for (item, token_idx) in to_be_added.drain(..) {\n                added |= self.0.entry(item).or_insert_with(BTreeSet::new).insert(token_idx);\n            }\n"), (I, "    collections::{btree_map::Entry, hash_map", "    collections::{hash_map")),
    ("r-item-items", (I, "            for item_set in c.iter() {\n                for grammar_symbol in grammar.tokens() {\n                    let goto_i_x = item_set.goto(grammar_symbol, grammar);\n                    if !goto_i_x.0.is_empty() && !c.contains(&goto_i_x) {\n                        temp.push(goto_i_x);\n                    }\n                }\n            }\n\n            if temp.is_empty() {\n                break;\n            }\n\n            while !temp.is_empty() {\n                let item_set = temp.pop().unwrap();\n                c.insert(item_set);\n            }", "            for item_set in &c {\n                for grammar_symbol in grammar.tokens() {\n                    let goto_i_x = item_set.goto(grammar_symbol, grammar);\n                    let is_new = !goto_i_x.0.is_empty() && !c.contains(&goto_i_x);\n                    if is_new {\n                        temp.push(goto_i_x);\n                    }\n                }\n            }\n\n            if temp.is_empty() {\n                break;\n            }\n\n            while let Some(item_set) = temp.pop() {\n                c.insert(item_set);\n            }")),
    ("r-item-dot", (I, "        let this_production: &Production = grammar.get_production(self.production_idx()).unwrap();\n\n        this_production\n            .input_tokens\n            .get(self.dot() as usize)\n            .and_then(|symbol| symbol.as_non_terminal())\n            .copied()", "        match self.dot_token(grammar) {\n            Some(Symbol::NonTerminal(name)) => Some(*name),\n            _ => None,\n        }")),
    ("r-item-hash", (I, "        let hasher = DefaultHasher::new();\n        self.core_hash_with_hasher(hasher)", "        self.core_hash_with_hasher(DefaultHasher::default())")),
    ("r-table-insert-helper", (T, "                    let j = match goto_idx {\n                        Some(j) => j,\n                        None => continue,\n                    };\n\n                    let shift = Action::Shift(j as u32);\n                    match action.entry((i as u32, token_idx)) {\n                        Entry::Vacant(entry) => {\n                            entry.insert(shift);\n                        }\n                        // Several items may have the same terminal after the dot\n                        Entry::Occupied(entry) if *entry.get() == shift => (),\n                        Entry::Occupied(_) => panic!(\"Conflict ({}, {:?})\", i, token_idx),\n                    };", "                    if let Some(j) = goto_idx {\n                        let shift = Action::Shift(j as u32);\n                        match action.entry((i as u32, token_idx)) {\n                            Entry::Vacant(entry) => {\n                                entry.insert(shift);\n                            }\n                            Entry::Occupied(entry) => {\n                                if *entry.get() != shift {\n                                    panic!(\"Conflict ({}, {:?})\", i, token_idx);\n                                }\n                            }\n                        };\n                    }")),
    ("r-table-goto", (T, "            match lr_sets.get_index_of(&goto_ia) {\n                Some(j) => {\n                    goto.insert(\n                        (i as u32, *production_name),\n                        *lr_to_lalr.get(&j).expect(\"LR -> LALR\"),\n                    );\n                }\n                None => match lalr_sets.iter().position(|set| set.same_core(&goto_ia)) {\n                    Some(j) => {\n                        goto.insert((i as u32, *production_name), j);\n                    }\n                    None => (),\n                },\n            }", "            let target = match lr_sets.get_index_of(&goto_ia) {\n                Some(j) => Some(*lr_to_lalr.get(&j).expect(\"LR -> LALR\")),\n                None => lalr_sets.iter().position(|set| set.same_core(&goto_ia)),\n            };\n            if let Some(target) = target {\n                goto.insert((i as u32, *production_name), target);\n            }")),
    ("r-table-tryindex", (T, "        match self.0.get(&(outer_idx as usize)) {\n            Some(inner) => inner.get(&inner_idx),\n            None => None,\n        }", "        let inner = self.0.get(&(outer_idx as usize))?;\n        inner.get(&inner_idx)")),
    ("r-table-merge", (T, "    for core_hash in core_hash_to_index.keys() {\n        let indices = core_hash_to_index.get(core_hash).unwrap();\n\n        for idx in indices {\n            lr_to_lalr.insert(*idx, resulting.len());\n        }\n", "    for indices in core_hash_to_index.values() {\n        let merged_idx = resulting.len();\n        for idx in indices {\n            lr_to_lalr.insert(*idx, merged_idx);\n        }\n")),
    ("r-table-merge2", (T, "    for i in indices.iter().skip(1) {\n        if !presence_vec[*i] {", "    for i in &indices[1..] {\n        if !presence_vec[*i] {")),
    ("r-table-take-helper", (T, "    let first = indices[0];\n\n    if !presence_vec[first] {\n        panic!(\n            \"Attempting to read item set that has been dropped, index={}\",\n            first\n        );\n    }\n    presence_vec.set(first, false);\n\n    // SAFETY:\n    // We use the presence vec to check if the set in this index is valid\n    let mut item_set = unsafe { ManuallyDrop::take(&mut lalr_sets[first]) };\n", "    fn take(index: usize, lalr_sets: &mut [ManuallyDrop<ItemSet>], presence_vec: &mut BitVec) -> ItemSet {\n        if !presence_vec[index] {\n            panic!(\n                \"Attempting to read item set that has been dropped, index={}\",\n                index\n            );\n        }\n        presence_vec.set(index, false);\n        // SAFETY: the presence vec was checked\n        unsafe { ManuallyDrop::take(&mut lalr_sets[index]) }\n    }\n\n    let mut item_set = take(indices[0], lalr_sets, presence_vec);\n"), (T, "        if !presence_vec[*i] {\n            panic!(\n                \"Attempting to read item set that has been dropped, index={}\",\n                i\n            );\n        }\n        presence_vec.set(*i, false);\n\n        // SAFETY:\n        // It's safe to read this\n        let other = unsafe { ManuallyDrop::take(&mut lalr_sets[*i]) };\n        item_set.union(other);", "        item_set.union(take(*i, lalr_sets, presence_vec));")),
    ("r-lalr-reduce", (L, "                    let goto_ta = *self\n                        .goto\n                        .try_index((*stack.last().expect(\"Stack is empty\"), production.name))\n                        .expect(\"Goto is empty\");\n\n                    stack.push(goto_ta as u32);", "                    let top = *stack.last().expect(\"Stack is empty\");\n                    let goto_ta = match self.goto.try_index((top, production.name)) {\n                        Some(state) => *state,\n                        None => panic!(\"Goto is empty\"),\n                    };\n\n                    stack.push(goto_ta as u32);")),
    ("r-lalr-trunc", (L, "                    let new_len = stack.len() - production.input_tokens.len();\n", "                    let popped = production.input_tokens.len();\n                    let new_len = stack.len() - popped;\n"), (L, "                    stack.truncate(new_len);", "                    drop(stack.split_off(new_len));")),
    ("r-lalr-action", (L, "            match self.action.try_index((s, a_idx)) {\n                Some(Action::Shift(new_state_idx)) => {", "            let action = self.action.try_index((s, a_idx));\n            match action {\n                Some(Action::Shift(new_state_idx)) => {")),
    ("r-grammar-lower", (P, "                match production_name_map.entry(ast_prod.name) {\n                    Entry::Vacant(entry) => {\n                        entry.insert(vec![production_idx]);\n                    }\n                    Entry::Occupied(mut entry) => {\n                        entry.get_mut().push(production_idx);\n                    }\n                }", "                production_name_map\n                    .entry(ast_prod.name)\n                    .or_insert_with(Vec::new)\n                    .push(production_idx);")),
    ("r-grammar-tokens", (P, "        let mut token_set: BTreeSet<Symbol> = BTreeSet::new();\n        for prod in productions.iter() {\n            for input_token in prod.input_tokens.iter() {\n                token_set.insert(*input_token);\n            }\n        }\n        let mut tokens = Vec::with_capacity(1 + token_set.len());\n        tokens.push(Symbol::Eof);\n        tokens.extend(token_set);\n", "        let token_set: BTreeSet<Symbol> = productions\n            .iter()\n            .flat_map(|prod: &Production| prod.input_tokens.iter().copied())\n            .collect();\n        let tokens = std::iter::once(Symbol::Eof).chain(token_set).collect();\n")),
    ("r-grammar-tokidx", (P, "        self.tokens.iter().enumerate().find_map(|(idx, tok)| {\n            if tok.eq(input_token) {\n                Some(TokenIdx(idx as u32))\n            } else {\n                None\n            }\n        })", "        let idx = self.tokens.iter().position(|tok| tok == input_token)?;\n        Some(TokenIdx(idx as u32))")),
    ("r-symbol-def", (P, "                RegexParser::new().parse(&regex::escape(str_lit)).unwrap(),\n            )),\n            Symbol::Regex(regex) => Some((\n                TokenDef {\n                    name: regex.to_string(),\n                    with_val: true,\n                    token_idx: Some(token_idx),\n                },\n                RegexParser::new().parse(regex).unwrap(),\n            )),\n            Symbol::Epsilon => None,\n            Symbol::Eof => None,\n            Symbol::NonTerminal(_) => None,", "                RegexParser::new().parse(&regex::escape(str_lit)).unwrap(),\n            )),\n            Symbol::Regex(pattern) => {\n                let def = TokenDef {\n                    name: (*pattern).to_owned(),\n                    with_val: true,\n                    token_idx: Some(token_idx),\n                };\n                let hir = RegexParser::new().parse(pattern).unwrap();\n                Some((def, hir))\n            }\n            Symbol::Epsilon | Symbol::Eof | Symbol::NonTerminal(_) => None,")),
    ("r-symbol-isterm", (P, "        match self {\n            Symbol::Eof | Symbol::Epsilon | Symbol::Regex(_) | Symbol::StrLit(_) => true,\n            Symbol::NonTerminal(_) => false,\n        }", "        self.as_non_terminal().is_none()")),
    ("r-prod-iter", (P, "        let next_production_idx = self.production_indices.get(self.idx)?;\n        self.idx += 1;\n\n        self.productions\n            .get(next_production_idx.0 as usize)\n            .map(|production| (*next_production_idx, production))", "        match self.production_indices.get(self.idx) {\n            Some(&next) => {\n                self.idx += 1;\n                let production = self.productions.get(next.0 as usize)?;\n                Some((next, production))\n            }\n            None => None,\n        }")),
    ("r-lg-new", (LG, "                BTreeMap::from_iter(lex.tokens.iter().flat_map(|(k, v)| {\n                    lex.dfa.states.iter().enumerate().filter_map(|(idx, _)| {\n                        if lex.accepting_dfa_to_nfa.get(&StateIdx(idx))?.contains(k) {\n                            Some((k.value(), (v.name.as_str(), v.with_val)))\n                        } else {\n                            None\n                        }\n                    })\n                }));", "                lex.tokens.iter().flat_map(|(k, v)| {\n                    (0..lex.dfa.states.len())\n                        .filter_map(|idx| lex.accepting_dfa_to_nfa.get(&StateIdx(idx)))\n                        .filter(move |set| set.contains(k))\n                        .map(move |_| (k.value(), (v.name.as_str(), v.with_val)))\n                }).collect();")),
    ("r-lg-fromstate", (LG, "            let mut labels = Vec::new();\n\n            match dfa.edge_iter(state_idx) {\n                Some(edge_iter) => {\n                    for edge in edge_iter {\n                        labels.push((edge.to.value(), edge.label.clone()));\n                    }\n                }\n                None => (),\n            }\n", "            let labels = match dfa.edge_iter(state_idx) {\n                Some(edges) => edges.map(|edge| (edge.to.value(), edge.label.clone())).collect(),\n                None => Vec::new(),\n            };\n")),
    ("r-lg-list", (LG, "                let tos = state\n                    .labels\n                    .iter()\n                    .map(|(i, _)| i.to_string())\n                    .collect::<Vec<String>>();\n\n                let labels = state\n                    .labels\n                    .iter()\n                    .map(|(_, m)| format!(\"{{ from: {}, to: {} }}\", m.range.start, m.range.end))\n                    .collect::<Vec<String>>();\n", "                let mut tos = Vec::new();\n                let mut labels = Vec::new();\n                for (to, m) in &state.labels {\n                    tos.push(to.to_string());\n                    labels.push(format!(\"{{ from: {}, to: {} }}\", m.range.start, m.range.end));\n                }\n")),
    ("r-lg-chars", (LG, "        if invisible_codepoints.contains(&(char as usize)) {\n            continue;\n        }\n        match char_map.entry(char) {\n            Entry::Vacant(entry) => {\n                entry.insert(char as u8 as u32);\n            }\n            Entry::Occupied(_) => (),\n        }", "        if !invisible_codepoints.contains(&(char as usize)) {\n            char_map.entry(char).or_insert(char as u8 as u32);\n        }"), (LG, "    collections::{btree_map::Entry, BTreeMap, BTreeSet},", "    collections::{BTreeMap, BTreeSet},")),
    ("r-lg-tochars", (LG, "        let char = *char;\n        final_str += \"\\n\\\"\";\n\n        final_str.push_str(&char_escape(char));\n\n        final_str += &format!(\"\\\": {},\", i);", "        final_str.push_str(&format!(\"\\n\\\"{}\\\": {},\", char_escape(*char), i));")),
    ("r-pg-tokens", (PG, "                write!(\n                    w,\n                    r#\"\n                {}: {{ kind: \"{}\", value: \"{}\" }}\"#,\n                    i, kind, escape_str(value)\n                )?;", "                let escaped = escape_str(value);\n                write!(w, \"\\n                {}: {{ kind: \\\"{}\\\", value: \\\"{}\\\" }}\", i, kind, escaped)?;")),
    ("r-pg-action-entry", (PG, "                    write!(w, \"{}: {{\", token_idx.0)?;\n                    match action {\n                        table::Action::Shift(j) => write!(w, \"shift: {}\", j),\n                        table::Action::Reduce(r) => write!(w, \"reduce: {}\", r.0),\n                        table::Action::Accept => w.write_str(\"accept: true\"),\n                    }?;\n                    w.write_str(\"\\n}\\n\")?;", "                    let entry = match action {\n                        table::Action::Shift(j) => format!(\"shift: {}\", j),\n                        table::Action::Reduce(r) => format!(\"reduce: {}\", r.0),\n                        table::Action::Accept => \"accept: true\".to_string(),\n                    };\n                    write!(w, \"{}: {{{}\\n}}\\n\", token_idx.0, entry)?;")),
    ("r-pg-tok2idx", (PG, "            for (idx, terminal) in self\n                .grammar\n                .tokens()\n                .enumerate()\n                .filter(|(_, s)| Symbol::is_terminal(s))\n            {\n                let name = match terminal {", "            for (idx, terminal) in self.grammar.tokens().enumerate() {\n                if !terminal.is_terminal() {\n                    continue;\n                }\n                let name = match terminal {")),
    ("r-pg-popped", (PG, "                        match sym {\n                            ActionImplParam::Named(NamedActionImplParam { name, .. }) => {\n                                write!(w, \"infer __{},\", name.as_ref())?\n                            }\n                            _ => {\n                                write!(w, \"infer var{},\", i)?;\n                                i += 1;\n                            }\n                        }", "                        if let ActionImplParam::Named(named) = sym {\n                            write!(w, \"infer __{},\", named.name)?;\n                        } else {\n                            write!(w, \"infer var{},\", i)?;\n                            i += 1;\n                        }")),
    ("r-pg-validate", (PG, "            let mut i = 0;\n            for sym in &self.action_impl.inputs {\n                i += 1;\n                let named_sym = match sym {\n                    ActionImplParam::Named(named) => named,\n                    _ => continue,\n                };\n\n                match named_sym.param {\n                    ActionImplParam::NonTerminal(non_terminal) => {", "            for (pos, sym) in self.action_impl.inputs.iter().enumerate() {\n                let i = pos + 1;\n                let named_sym = match sym {\n                    ActionImplParam::Named(named) => named,\n                    _ => continue,\n                };\n\n                match named_sym.param {\n                    ActionImplParam::NonTerminal(non_terminal) => {")),
    ("r-pg-conds", (PG, "            for cond in cond_stack.into_iter() {\n                w.write_str(&cond)?;\n                w.write_str(\" ? \")?;\n            }\n            // w.write_str(self.action_impl.code)?;\n            w.write_str(&call_impl)?;\n            // the innermost condition is closed first\n            for otherwise in else_stack.into_iter().rev() {\n                w.write_str(\" : \")?;\n                w.write_str(&otherwise)?;\n            }", "            for cond in &cond_stack {\n                write!(w, \"{} ? \", cond)?;\n            }\n            w.write_str(&call_impl)?;\n            while let Some(otherwise) = else_stack.pop() {\n                write!(w, \" : {}\", otherwise)?;\n            }")),
    ("r-pg-new-actions", (PG, "            let action_impls: Vec<_> = ast_productions", "            let action_impls: Vec<&ActionImpl> = ast_productions"), (PG, "            let actions: Vec<_> = action_impls\n                .iter()\n                .map(|action_impl| Action {\n                    action_impl,\n                    pop_amount: action_impl.inputs.len(),\n                    production_idx: action_impl.production_idx,\n                    production_name: action_impl.name,\n                })\n                .collect();", "            let mut actions: Vec<Action> = Vec::with_capacity(action_impls.len());\n            for action_impl in action_impls.iter() {\n                actions.push(Action {\n                    pop_amount: action_impl.inputs.len(),\n                    production_idx: action_impl.production_idx,\n                    production_name: action_impl.name,\n                    action_impl,\n                });\n            }")),
    ("r-pg-variants", (PG, "            let symbol_variants: BTreeMap<_, _> = ast_productions\n                .iter()\n                .map(|ast_prod| {\n                    (\n                        ast_prod.name.as_ref(),\n                        SymbolVariant {\n                            production_name: ast_prod.name.as_ref(),\n                            ts_code: ast_prod.ts_code,\n                        },\n                    )\n                })\n                .collect();", "            let mut symbol_variants = BTreeMap::new();\n            for ast_prod in ast_productions {\n                let production_name = ast_prod.name.as_ref();\n                symbol_variants.insert(production_name, SymbolVariant { production_name, ts_code: ast_prod.ts_code });\n            }")),
    ("r-pg-write-cond", (PG, "            write_condition(\n                w,\n                |w| {\n                    write!(w, \"U.PopNStackWithValue<symbolStack, {}> extends [infer newStack, infer poppedValues]\", self.pop_amount)\n                },\n                |w| {\n                    // w.write_str(\"symbolStack\")?;\n                    self.popped_values(w, self.call_impl()?, self.action_impl.production_idx)?;\n\n                    Ok(())\n                },\n                |w| write!(w, \"'unreachable: inferring popped values never fails'\"),\n            )?;\n\n            Ok(())", "            write!(w, \"U.PopNStackWithValue<symbolStack, {}> extends [infer newStack, infer poppedValues] ? \", self.pop_amount)?;\n            let call = self.call_impl()?;\n            self.popped_values(w, call, self.action_impl.production_idx)?;\n            w.write_str(\" : 'unreachable: inferring popped values never fails'\")")),
    ("r-support", (SU, "        let regex_trimmed = regex_str_with_quotes\n            .chars()\n            .skip(1)\n            .take(regex_str_with_quotes.chars().count() - 2)\n            .collect::<String>();\n\n        self.ast.alloc(regex_trimmed)", "        let inner_len = regex_str_with_quotes.chars().count() - 2;\n        let mut inner = String::new();\n        for c in regex_str_with_quotes.chars().skip(1).take(inner_len) {\n            inner.push(c);\n        }\n        self.ast.alloc(inner)")),
    ("r-support-common", (SU, "        self.ast.alloc(\n            ts_code_with_paren\n                .chars()\n                .skip(1)\n                .take(ts_code_with_paren.chars().count() - 2)\n                .collect::<String>(),\n        )", "        self.ast.alloc(Self::strip_ends(ts_code_with_paren))"), (SU, "    pub fn alloc_regex<'a>", "    fn strip_ends(s: &str) -> String {\n        s.chars().skip(1).take(s.chars().count() - 2).collect()\n    }\n\n    pub fn alloc_regex<'a>"), (SU, "        let regex_trimmed = regex_str_with_quotes\n            .chars()\n            .skip(1)\n            .take(regex_str_with_quotes.chars().count() - 2)\n            .collect::<String>();\n\n        self.ast.alloc(regex_trimmed)", "        self.ast.alloc(Self::strip_ends(regex_str_with_quotes))")),
    ("r-ast-term", (A, "        match self {\n            InputSymbol::Eof\n            | InputSymbol::Epsilon\n            | InputSymbol::Regex(_)\n            | InputSymbol::StrLit(_) => true,\n            InputSymbol::Named(named) => named.ty.is_terminal(),\n            InputSymbol::NonTerminal(_) => false,\n        }", "        match self {\n            InputSymbol::NonTerminal(_) => false,\n            InputSymbol::Named(named) => named.ty.is_terminal(),\n            _ => true,\n        }")),
    ("r-ast-cmp", (A, "                Equal => match (a.name.as_ref(), b.name.as_ref()) {\n                    (Some(a), Some(b)) => a.cmp(b),\n                    (Some(_), None) => Greater,\n                    (None, Some(_)) => Less,\n                    (None, None) => Equal,\n                },\n                val => val,\n            },", "                Equal => a.name.cmp(&b.name),\n                unequal => unequal,\n            },"), (A, "        use std::cmp::Ordering::*;\n\n        match (self, other) {\n            (Self::StrLit(a)", "        use std::cmp::Ordering::Equal;\n\n        match (self, other) {\n            (Self::StrLit(a)")),
    ("r-escape", (CG, "    let mut ret = String::with_capacity(s.len());\n    for c in s.chars() {\n        match c {\n            '\\\\' => ret.push_str(\"\\\\\\\\\"),\n            '\"' => ret.push_str(\"\\\\\\\"\"),\n            '\\'' => ret.push_str(\"\\\\'\"),\n            '\\n' => ret.push_str(\"\\\\n\"),\n            '\\r' => ret.push_str(\"\\\\r\"),\n            c => ret.push(c),\n        }\n    }\n    ret", "    let mut ret = String::new();\n    for c in s.chars() {\n        let replacement = match c {\n            '\\\\' | '\"' | '\\'' => Some(c),\n            '\\n' => Some('n'),\n            '\\r' => Some('r'),\n            _ => None,\n        };\n        if let Some(r) = replacement {\n            ret.push('\\\\');\n            ret.push(r);\n        } else {\n            ret.push(c);\n        }\n    }\n    ret")),
]
