L="src/lex/lex.rs"; D="src/lex/dfa.rs"; N="src/lex/nfa.rs"; I="src/lalr/item.rs"; T="src/lalr/table.rs"; F="src/lalr/first.rs"
P="src/parser/mod.rs"; A="src/parser/ast.rs"; S="src/parser/support.rs"; LA="src/lalr.rs"; LG="src/codegen/lex_gen.rs"; PG="src/codegen/parse_gen.rs"; C="src/codegen.rs"; O="src/option_usize.rs"
E=[
("lex-while-for", (L,'''        for (idx, tok) in grammar.tokens().enumerate() {
            let token_def_with_regex = match tok.to_token_def_with_regex(TokenIdx(idx as u32)) {
                Some(t) => t,
                None => continue,
            };

            tokens.push(token_def_with_regex);
        }

        Self::from_tokens(tokens)''','''        for (idx, tok) in grammar.tokens().enumerate() {
            if let Some(t) = tok.to_token_def_with_regex(TokenIdx(idx as u32)) {
                tokens.push(t);
            }
        }

        Self::from_tokens(tokens)''')),
("lex-filter_map", (L,'''        let mut tokens = Vec::new();

        for (idx, tok) in grammar.tokens().enumerate() {
            let token_def_with_regex = match tok.to_token_def_with_regex(TokenIdx(idx as u32)) {
                Some(t) => t,
                None => continue,
            };

            tokens.push(token_def_with_regex);
        }
''','''        let tokens: Vec<_> = grammar
            .tokens()
            .enumerate()
            .filter_map(|(idx, tok)| tok.to_token_def_with_regex(TokenIdx(idx as u32)))
            .collect();
''')),
("lex-extend", (L,'''            for state in &nfa.states {
                lex_nfa.states.push(state.clone());
            }
            for edges in &nfa.edges {
                lex_nfa.edges.push(edges.clone());
            }''','''            lex_nfa.states.extend(nfa.states.iter().cloned());
            lex_nfa.edges.extend_from_slice(&nfa.edges);''')),
("lex-lengths", (L,'''        let mut lex_nfa = NFA::lex_nfa_template(
            &tokens_with_nfa
                .iter()
                .map(|(_, nfa)| (nfa.states.len(), nfa.edges.len()))
                .collect::<Vec<_>>(),
        );
''','''        let mut lengths = Vec::with_capacity(tokens_with_nfa.len());
        for (_, nfa) in &tokens_with_nfa {
            lengths.push((nfa.states.len(), nfa.edges.len()));
        }
        let mut lex_nfa = NFA::lex_nfa_template(&lengths);
''')),
("lex-new", (L,'''            tokens: tokens.into_iter().map(|(k, tok)| (k, tok)).collect(),''','''            tokens: tokens.into_iter().collect(),''')),
("lex-convert", (L,'''        let def_map = self
            .tokens
            .iter()
            .fold(BTreeMap::new(), |mut map, (_, def)| {
                map.insert(def.name.as_str(), def);
                map
            });
        tokens
            .into_iter()
            .map(|token| self.token_with_idx(token, &def_map))
            .chain(std::iter::once((Token{ name: "EOF".into(), val: None}, Grammar::EOF_TOKEN_IDX)))
            .collect()''','''        let mut def_map = BTreeMap::new();
        for def in self.tokens.values() {
            def_map.insert(def.name.as_str(), def);
        }
        let mut ret = Vec::with_capacity(tokens.len() + 1);
        for token in tokens {
            ret.push(self.token_with_idx(token, &def_map));
        }
        ret.push((Token::new("EOF".to_string()), Grammar::EOF_TOKEN_IDX));
        ret''')),
("lex-ws", (L,'''        match c {
            '\\n' | ' ' => true,
            _ => false,
        }''','''        c == ' ' || c == '\\n\'''')),
("lex-lex-iflet", (L,'''            match matching_edge {
                Some(edge) => {
                    if let Some(nfa_set) = self.accepting_dfa_to_nfa.get(&edge.to) {
                        last_accepting_state = Some((forward, *nfa_set.first().unwrap()));
                    }
                    state_idx = edge.to;
                    forward += 1;
                }
                None => {
                    if let''','''            if let Some(edge) = matching_edge {
                state_idx = edge.to;
                if let Some(nfa_set) = self.accepting_dfa_to_nfa.get(&state_idx) {
                    last_accepting_state = Some((forward, nfa_set[0]));
                }
                forward += 1;
                continue;
            }
            {
                {
                    if let''')),
("lex-maketok", (L,'''                let val: String = input.chars().skip(start).take(end + 1 - start).collect();
                Token::new_with_val(name.clone(), val)''','''                let count = end - start + 1;
                let mut val = String::new();
                for c in input.chars().skip(start).take(count) {
                    val.push(c);
                }
                Token::new_with_val(name.to_string(), val)''')),
("lex-next", (L,'''                        lexeme_begin = last_accepting_idx + 1;
                        forward = last_accepting_idx + 1;
                        state_idx = StateIdx(0);

                        last_accepting_state = None;''','''                        last_accepting_state = None;
                        forward = last_accepting_idx + 1;
                        lexeme_begin = forward;
                        state_idx = DFA::START_IDX;''')),
("lex-helper", (L,'''            let matching_edge = match (chars.get(forward), self.dfa.edge_iter(state_idx)) {
                (Some(c), Some(mut edge_iter)) => edge_iter.find(|edge| edge.label.matches(*c)),
                _ => None,
            };
''','''            let matching_edge = chars
                .get(forward)
                .and_then(|c| self.edge_for(state_idx, *c));
'''),(L,'''    fn make_tok(''','''    /// The edge that leaves the state on this character
    fn edge_for(&self, state_idx: StateIdx, c: char) -> Option<&super::dfa::Edge> {
        self.dfa
            .edge_iter(state_idx)?
            .find(|edge| edge.label.matches(c))
    }

    fn make_tok(''')),
("nfa-newstate", (N,'''    fn push_edge(&mut self''','''    fn new_state(&mut self) -> StateIdx {
        let idx = StateIdx(self.states.len());
        self.states.push(State {
            first_edge: OptionUsize::none(),
            is_accept: false,
        });
        idx
    }

    fn push_edge(&mut self'''),(N,'''        let from = StateIdx(self.states.len());
        self.states.push(State {
            first_edge: OptionUsize::none(),
            is_accept: false,
        });
''','''        let from = self.new_state();
'''),(N,'''                    let i = StateIdx(self.states.len());
                    self.states.push(State {
                        first_edge: OptionUsize::none(),
                        is_accept: false,
                    });
''','''                    let i = self.new_state();
''')),
("nfa-class-loop", (N,'''                    Class::Bytes(class) => class
                        .ranges()
                        .iter()
                        .map(|range| Match {
                            range: range.start() as u32..(range.end() as u32 + 1),
                        })
                        .collect(),''','''                    Class::Bytes(class) => {
                        let mut ret = Vec::new();
                        for range in class.ranges() {
                            let start = u32::from(range.start());
                            let end = u32::from(range.end()) + 1;
                            ret.push(Match { range: start..end });
                        }
                        ret
                    }''')),
("nfa-concat-fold", (N,'''                let mut accept = accept;
                for expr in exprs.iter().rev() {
                    // An empty expression is skipped
                    accept = self.compile(expr, accept).unwrap_or(accept);
                }
                OptionUsize::some(accept)''','''                let first = exprs
                    .iter()
                    .rev()
                    .fold(accept, |next, expr| self.compile(expr, next).unwrap_or(next));
                OptionUsize::some(first)''')),
("nfa-rep-vars", (N,'''                    if matches!(
                        rep.kind,
                        RepetitionKind::OneOrMore | RepetitionKind::ZeroOrMore
                    ) {''','''                    let again = rep.kind != RepetitionKind::ZeroOrOne;
                    if again {''')),
("nfa-contains", (N,'''        let c = c as u32;

        c >= self.range.start && c < self.range.end''','''        self.range.contains(&(c as u32))''')),
("nfa-intersects", (N,'''        !self.range.is_empty()
            && !r.range.is_empty()
            && (self.contains_u32(r.range.start) || r.contains_u32(self.range.start))''','''        if self.range.is_empty() || r.range.is_empty() {
            return false;
        }
        self.contains_u32(r.range.start) || r.contains_u32(self.range.start)''')),
("nfa-compare", (N,'''        match self.range.start.cmp(&other.range.start) {
            std::cmp::Ordering::Less => std::cmp::Ordering::Less,
            std::cmp::Ordering::Equal => self.range.end.cmp(&other.range.end),
            std::cmp::Ordering::Greater => std::cmp::Ordering::Greater,
        }''','''        self.range
            .start
            .cmp(&other.range.start)
            .then(self.range.end.cmp(&other.range.end))''')),
("nfa-compare2", (N,'''        match self.range.start.cmp(&other.range.start) {
            std::cmp::Ordering::Less => std::cmp::Ordering::Less,
            std::cmp::Ordering::Equal => self.range.end.cmp(&other.range.end),
            std::cmp::Ordering::Greater => std::cmp::Ordering::Greater,
        }''','''        (self.range.start, self.range.end).cmp(&(other.range.start, other.range.end))''')),
("nfa-move", (N,'''            let state = &self.states[state_idx.0];
            if state.first_edge.is_none() {
                continue;
            }

            let mut edge_idx = state.first_edge.unwrap();
            while edge_idx < self.edges.len() {
                let edge = &self.edges[edge_idx];
                edge_idx += 1;
                if edge.from != state_idx {
                    break;
                }

                match &edge.label {
                    Some(label_match) => {
                        if label_match.matches(c) {
                            ret.insert(edge.to);
                        }
                    }
                    _ => (),
                }
            }''','''            let edges = match self.edge_iter(state_idx) {
                Some(edges) => edges,
                None => continue,
            };
            for edge in edges {
                if let Some(label) = &edge.label {
                    if label.matches(c) {
                        ret.insert(edge.to);
                    }
                }
            }''')),
("nfa-template", (N,'''        let mut state_offset = 1;
        for (state_len, _) in token_nfa_lengths {
            this.push_edge(
                Self::START_IDX,
                None,
                StateIdx(Self::START_IDX.0 + state_offset),
            );
            state_offset += state_len;
        }
''','''        let mut next = 1;
        for len in token_nfa_lengths.iter().map(|l| l.0) {
            this.push_edge(Self::START_IDX, Match::EPSILON, StateIdx(next));
            next += len;
        }
''')),
("nfa-shift", (N,'''            let first_edge = &mut state.first_edge;
            if first_edge.is_some() {
                *first_edge = OptionUsize::some(first_edge.unwrap() + edge_offset);
            }''','''            if !state.first_edge.is_none() {
                let shifted = state.first_edge.unwrap() + edge_offset;
                state.first_edge = OptionUsize::some(shifted);
            }''')),
("nfa-labels", (N,'''        for (i, _) in self.states.iter().enumerate() {
            if let Some(edge_iter) = self.edge_iter(StateIdx(i)) {
                for edge in edge_iter {
                    if let Some(label) = &edge.label {
                        ret.push(label)
                    }
                }
            }
        }

        ret''','''        for i in 0..self.states.len() {
            for edge in self.edge_iter(StateIdx(i)).into_iter().flatten() {
                ret.extend(edge.label.as_ref());
            }
        }

        ret''')),
("nfa-accepting", (N,'''        let mut ret = BTreeSet::new();
        for (i, s) in self.states.iter().enumerate() {
            if s.is_accept {
                ret.insert(StateIdx(i));
            }
        }
        ret''','''        self.states
            .iter()
            .enumerate()
            .filter(|(_, s)| s.is_accept)
            .map(|(i, _)| StateIdx(i))
            .collect()''')),
("nfa-edgeiter", (N,'''        let edge_idx = self.states[state_idx.0].first_edge.unwrap_or(usize::MAX);
        if edge_idx == usize::MAX {
            return None;
        }

        Some(EdgeIter {
            nfa: self,
            state: state_idx,
            edge_idx,
        })''','''        let first_edge = self.states[state_idx.0].first_edge;
        if first_edge.is_some() {
            Some(EdgeIter {
                nfa: self,
                state: state_idx,
                edge_idx: first_edge.unwrap(),
            })
        } else {
            None
        }''')),
("nfa-iter-next", (N,'''        let edge = self.nfa.edges.get(self.edge_idx)?;
        if edge.from != self.state {
            return None;
        }
        self.edge_idx += 1;

        Some(edge)''','''        match self.nfa.edges.get(self.edge_idx) {
            Some(edge) if edge.from == self.state => {
                self.edge_idx += 1;
                Some(edge)
            }
            _ => None,
        }''')),
("nfa-sim-accept", (N,'''        if final_states.is_empty() {
            return false;
        }

        final_states
            .into_iter()
            .any(|state| accepting_states.contains(&state))''','''        final_states
            .iter()
            .any(|state| accepting_states.contains(state))''')),
("nfa-epsclos", (N,'''        while !stack.is_empty() {
            // SAFETY:
            // We loop while the stack is non empty so this will never return None
            let state_idx = unsafe { stack.pop().unwrap_unchecked() };
            ret.insert(state_idx);''','''        while let Some(state_idx) = stack.pop() {
            ret.insert(state_idx);''')),
("dfa-isacc", (D,'''            Some(nfa_states) => {
                for nfa_state_idx in nfa_states {
                    if self.accepting_states.contains(nfa_state_idx) {
                        return true;
                    }
                }
                false
            }
            None => false,''','''            Some(nfa_states) => nfa_states
                .iter()
                .any(|nfa_state_idx| self.accepting_states.contains(nfa_state_idx)),
            None => false,''')),
("dfa-accst", (D,'''                match ret.entry(*dfa_state) {
                    std::collections::btree_map::Entry::Vacant(entry) => {
                        entry.insert(vec![*nfa_state_idx]);
                    }
                    std::collections::btree_map::Entry::Occupied(mut entry) => {
                        entry.get_mut().push(*nfa_state_idx);
                    }
                }''','''                ret.entry(*dfa_state)
                    .or_insert_with(Vec::new)
                    .push(*nfa_state_idx);''')),
("dfa-accst2", (D,'''            for nfa_state_idx in nfa_set
                .iter()
                .filter(|idx| self.accepting_states.contains(idx))
            {''','''            for nfa_state_idx in nfa_set.iter() {
                if !self.accepting_states.contains(nfa_state_idx) {
                    continue;
                }''')),
("dfa-fromnfa", (D,'''        let alphabet = nfa.labels();
        let mut ranges = BTreeSet::new();
        for label in alphabet {
            ranges.insert(label.clone());
        }
''','''        let ranges: BTreeSet<Match> = nfa.labels().into_iter().cloned().collect();
''')),
("dfa-test", (D,'''        match self.simulate(s) {
            Some(eaten) => eaten == s.chars().count(),
            _ => false,
        }''','''        self.simulate(s) == Some(s.chars().count())''')),
("dfa-test2", (D,'''        match self.simulate(s) {
            Some(eaten) => eaten == s.chars().count(),
            _ => false,
        }''','''        self.simulate(s)
            .map_or(false, |eaten| eaten == s.chars().count())''')),
("dfa-sim", (D,'''        if self.dfa_state_is_accepting(state_idx) {
            Some(eaten)
        } else {
            None
        }''','''        self.dfa_state_is_accepting(state_idx).then_some(eaten)''')),
("dfa-h2b", (D,'''        let mut ret = BTreeSet::new();
        for s in f {
            ret.insert(s);
        }
        ret''','''        f.into_iter().collect()''')),
("dfa-build-find", (D,'''                let idx = match d_states.iter().enumerate().find(|(_, s)| *s == &u) {
                    Some((i, _)) => i,''','''                let idx = match d_states.iter().position(|s| *s == u) {
                    Some(i) => i,''')),
("dfa-build-while", (D,'''        loop {
            // Loop while there is an unmarked state set
            let t_idx = match (0..d_states.len()).find(|idx| !marks[*idx]) {
                Some(idx) => idx,
                None => break,
            };
''','''        while let Some(t_idx) = (0..d_states.len()).find(|idx| !marks[*idx]) {
''')),
("dfa-build-final", (D,'''        let mut final_states = Vec::with_capacity(d_states.capacity());

        for (i, _states) in d_states.into_iter().enumerate() {
            final_states.push(State {
                first_edge: first_edges[i],
            })
        }
''','''        let final_states = (0..d_states.len())
            .map(|i| State {
                first_edge: first_edges[i],
            })
            .collect();
''')),
("dfa-build-first", (D,'''                let first_edge = &mut first_edges[t_idx];
                if first_edge.is_none() {
                    *first_edge = OptionUsize::some(self.edges.len());
                }''','''                if first_edges[t_idx].is_none() {
                    first_edges[t_idx] = OptionUsize::some(self.edges.len());
                }''')),
("dfa-build-ins", (D,'''                        marks.push(false);
                        let new_idx = d_states.len();
                        d_states.push(u.clone());

                        dfa_to_nfa.insert(StateIdx(new_idx), u);

                        new_idx''','''                        let new_idx = d_states.len();
                        dfa_to_nfa.insert(StateIdx(new_idx), u.clone());
                        d_states.push(u);
                        marks.push(false);
                        new_idx''')),
("dfa-eps", (D,'''        let mut stack: Vec<StateIdx> = Vec::with_capacity(set.len());
        for s in set.iter() {
            stack.push(*s);
        }
''','''        let mut stack: Vec<StateIdx> = set.iter().copied().collect();
''')),
("dfa-eps2", (D,'''                for edge in edge_iter.filter(|edge| edge.label.is_none()) {
                    let u = edge.to;
                    if set.insert(u) {
                        stack.push(u);
                    }
                }''','''                for edge in edge_iter {
                    if edge.label.is_some() || set.contains(&edge.to) {
                        continue;
                    }
                    set.insert(edge.to);
                    stack.push(edge.to);
                }''')),
("dfa-move", (D,'''                    if edge.label.as_ref().map_or(false, |l| {
                        l.range.contains(&label.range.start)
                            && l.range.contains(&(label.range.end - 1))
                    }) {
                        ret.insert(edge.to);
                    }''','''                    if let Some(l) = &edge.label {
                        let last = label.range.end - 1;
                        if l.range.contains(&label.range.start) && l.range.contains(&last) {
                            ret.insert(edge.to);
                        }
                    }''')),
("dfa-overlap", (D,'''    let mut disjoint_ranges = vec![];

    for range in ranges {
        add_range(range, 0, &mut disjoint_ranges);
    }
''','''    let mut disjoint_ranges = Vec::with_capacity(ranges.len());

    ranges
        .iter()
        .for_each(|range| add_range(range, 0, &mut disjoint_ranges));
''')),
("dfa-overlap2", (D,'''    disjoint_ranges.retain(|r| !r.range.is_empty());

    disjoint_ranges''','''    disjoint_ranges
        .into_iter()
        .filter(|r| !r.range.is_empty())
        .collect()''')),
("dfa-addrange", (D,'''            let min_min = cmp::min(range.range.start, overlapping_range.range.start);
            let mid_min = cmp::max(range.range.start, overlapping_range.range.start);
            let mid_max = cmp::min(range.range.end, overlapping_range.range.end);
            let max_max = cmp::max(range.range.end, overlapping_range.range.end);''','''            let (a, b) = (&range.range, &overlapping_range.range);
            let min_min = a.start.min(b.start);
            let mid_min = a.start.max(b.start);
            let mid_max = a.end.min(b.end);
            let max_max = a.end.max(b.end);''')),
("dfa-addrange2", (D,'''        .iter()
        .position(|r| r.clone().intersects(range))
    {
        Some(index) => {
            let index = index + start_index;
''','''        .iter()
        .position(|r| range.intersects(r))
        .map(|i| start_index + i)
    {
        Some(index) => {
''')),
("dfa-addrange3", (D,'''    match disjoint_ranges[start_index..]
        .iter()
        .position(|r| r.clone().intersects(range))
    {
        Some(index) => {
            let index = index + start_index;
''','''    let mut found = None;
    for index in start_index..disjoint_ranges.len() {
        if disjoint_ranges[index].intersects(range) {
            found = Some(index);
            break;
        }
    }
    match found {
        Some(index) => {
''')),
]
