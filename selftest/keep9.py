"""Larger rewrites: the loops of the DFA, the tables and the lexer in another shape."""
T = "src/lalr/table.rs"
I = "src/lalr/item.rs"
D = "src/lex/dfa.rs"
L = "src/lex/lex.rs"
E = [
    # the worklist of the DFA as a counter: states are always marked in order
    ("x-dfa-while-let", (D, "        loop {\n            // Loop while there is an unmarked state set\n            let t_idx = match (0..d_states.len()).find(|idx| !marks[*idx]) {\n                Some(idx) => idx,\n                None => break,\n            };\n", "        while let Some(t_idx) = (0..d_states.len()).find(|idx| !marks[*idx]) {\n")),
    ("x-dfa-target-helper", (D, "                let idx = match d_states.iter().enumerate().find(|(_, s)| *s == &u) {\n                    Some((i, _)) => i,\n                    None => {\n                        // If not found add it\n                        marks.push(false);\n                        let new_idx = d_states.len();\n                        d_states.push(u.clone());\n\n                        dfa_to_nfa.insert(StateIdx(new_idx), u);\n\n                        new_idx\n                    }\n                };\n", "                let idx = Self::find_or_add(u, &mut d_states, &mut marks, &mut dfa_to_nfa);\n"), (D, "    fn epsilon_closure(nfa: &NFA, mut set", "    fn find_or_add(\n        u: BTreeSet<StateIdx>,\n        d_states: &mut Vec<BTreeSet<StateIdx>>,\n        marks: &mut BitVec,\n        dfa_to_nfa: &mut BTreeMap<StateIdx, BTreeSet<StateIdx>>,\n    ) -> usize {\n        if let Some(i) = d_states.iter().position(|s| *s == u) {\n            return i;\n        }\n        let new_idx = d_states.len();\n        marks.push(false);\n        dfa_to_nfa.insert(StateIdx(new_idx), u.clone());\n        d_states.push(u);\n        new_idx\n    }\n\n    fn epsilon_closure(nfa: &NFA, mut set")),
    ("x-dfa-firstedge", (D, "                let first_edge = &mut first_edges[t_idx];\n                if first_edge.is_none() {\n                    *first_edge = OptionUsize::some(self.edges.len());\n                }\n", "                if first_edges[t_idx].is_none() {\n                    first_edges[t_idx] = OptionUsize::some(self.edges.len());\n                }\n")),
    ("x-dfa-closure-queue", (D, "            if let Some(edge_iter) = nfa.edge_iter(state) {\n                // Iterate epsilon edges\n                for edge in edge_iter.filter(|edge| edge.label.is_none()) {\n                    let u = edge.to;\n                    if set.insert(u) {\n                        stack.push(u);\n                    }\n                }\n            }\n", "            let edges = match nfa.edge_iter(state) {\n                Some(edges) => edges,\n                None => continue,\n            };\n            for edge in edges {\n                if edge.label.is_some() || set.contains(&edge.to) {\n                    continue;\n                }\n                set.insert(edge.to);\n                stack.push(edge.to);\n            }\n")),
    ("x-dfa-sim-else", (D, "        for c in s.chars() {\n            if let Some(mut edge_iter) = self.edge_iter(state_idx) {\n                match edge_iter.find(|edge| edge.label.matches(c)) {\n                    Some(edge) => {\n                        eaten += 1;\n                        state_idx = edge.to;\n                    }\n                    None => break,\n                }\n            }\n        }\n", "        for c in s.chars() {\n            let mut edge_iter = match self.edge_iter(state_idx) {\n                Some(edge_iter) => edge_iter,\n                None => continue,\n            };\n            if let Some(edge) = edge_iter.find(|edge| edge.label.matches(c)) {\n                state_idx = edge.to;\n                eaten += 1;\n            } else {\n                break;\n            }\n        }\n")),
    ("x-dfa-accept-then", (D, "        if self.dfa_state_is_accepting(state_idx) {\n            Some(eaten)\n        } else {\n            None\n        }\n", "        self.dfa_state_is_accepting(state_idx).then_some(eaten)\n")),
    ("x-overlap-helper", (D, "            let min_min = cmp::min(range.range.start, overlapping_range.range.start);\n            let mid_min = cmp::max(range.range.start, overlapping_range.range.start);\n            let mid_max = cmp::min(range.range.end, overlapping_range.range.end);\n            let max_max = cmp::max(range.range.end, overlapping_range.range.end);\n", "            let (a, b) = (&range.range, &overlapping_range.range);\n            let (min_min, mid_min) = if a.start <= b.start { (a.start, b.start) } else { (b.start, a.start) };\n            let (mid_max, max_max) = if a.end <= b.end { (a.end, b.end) } else { (b.end, a.end) };\n")),
    ("x-dfa-alpha", (D, "        let alphabet = remove_overlap(&ranges);\n        DFABuilder::new().build(&nfa, alphabet)", "        DFABuilder::new().build(&nfa, remove_overlap(&ranges))")),
    # tables
    ("x-table-lookup", (T, "            match lr_sets.get_index_of(&goto_ia) {\n                Some(j) => {\n                    goto.insert(\n                        (i as u32, *production_name),\n                        *lr_to_lalr.get(&j).expect(\"LR -> LALR\"),\n                    );\n                }\n                None => match lalr_sets.iter().position(|set| set.same_core(&goto_ia)) {\n                    Some(j) => {\n                        goto.insert((i as u32, *production_name), j);\n                    }\n                    None => (),\n                },\n            }\n", "            let target = match lr_sets.get_index_of(&goto_ia) {\n                Some(j) => Some(*lr_to_lalr.get(&j).expect(\"LR -> LALR\")),\n                None => lalr_sets.iter().position(|set| set.same_core(&goto_ia)),\n            };\n            if let Some(j) = target {\n                goto.insert((i as u32, *production_name), j);\n            }\n")),
    ("x-table-gotoitem", (T, "            Some(i) => i,\n            None => {\n                return lalr_sets.iter().position(|set| set.same_core(&goto_ia));\n            }\n        };\n        lr_to_lalr.get(&lr_idx).cloned()\n", "            Some(i) => i,\n            None => {\n                for (j, set) in lalr_sets.iter().enumerate() {\n                    if set.same_core(&goto_ia) {\n                        return Some(j);\n                    }\n                }\n                return None;\n            }\n        };\n        lr_to_lalr.get(&lr_idx).copied()\n")),
    ("x-table-match-dot", (T, "            // A dot value of Some(Symbol) means the dot is not at the end of the production\n            if let Some(dot_value) = dot_value {", "            if dot_value.is_some() {\n                let dot_value = dot_value.unwrap();")),
    ("x-merge-values", (T, "    for core_hash in core_hash_to_index.keys() {\n        let indices = core_hash_to_index.get(core_hash).unwrap();\n\n        for idx in indices {\n            lr_to_lalr.insert(*idx, resulting.len());\n        }\n", "    for indices in core_hash_to_index.values() {\n        let lalr_idx = resulting.len();\n        lr_to_lalr.extend(indices.iter().map(|idx| (*idx, lalr_idx)));\n")),
    ("x-merge-into", (T, "    for core_hash in core_hash_to_index.keys() {\n        let indices = core_hash_to_index.get(core_hash).unwrap();\n", "    for (_, indices) in core_hash_to_index.iter() {\n")),
    ("x-merge-take-helper", (T, "    if !presence_vec[first] {\n        panic!(\n            \"Attempting to read item set that has been dropped, index={}\",\n            first\n        );\n    }\n    presence_vec.set(first, false);\n\n    // SAFETY:\n    // We use the presence vec to check if the set in this index is valid\n    let mut item_set = unsafe { ManuallyDrop::take(&mut lalr_sets[first]) };\n", "    let mut item_set = take_set(first, lalr_sets, presence_vec);\n"), (T, "        if !presence_vec[*i] {\n            panic!(\n                \"Attempting to read item set that has been dropped, index={}\",\n                i\n            );\n        }\n        presence_vec.set(*i, false);\n\n        // SAFETY:\n        // It's safe to read this\n        let other = unsafe { ManuallyDrop::take(&mut lalr_sets[*i]) };\n        item_set.union(other);\n", "        item_set.union(take_set(*i, lalr_sets, presence_vec));\n"), (T, "fn merge_sets_with_same_core(", "fn take_set(\n    i: usize,\n    lalr_sets: &mut Vec<ManuallyDrop<ItemSet>>,\n    presence_vec: &mut BitVec,\n) -> ItemSet {\n    if !presence_vec[i] {\n        panic!(\n            \"Attempting to read item set that has been dropped, index={}\",\n            i\n        );\n    }\n    presence_vec.set(i, false);\n    // SAFETY: the presence vec says the set was not taken yet\n    unsafe { ManuallyDrop::take(&mut lalr_sets[i]) }\n}\n\nfn merge_sets_with_same_core(")),
    # the lexer
    ("x-lex-getelse", (L, "            let matching_edge = match (chars.get(forward), self.dfa.edge_iter(state_idx)) {\n                (Some(c), Some(mut edge_iter)) => edge_iter.find(|edge| edge.label.matches(*c)),\n                _ => None,\n            };\n", "            let matching_edge = chars.get(forward).and_then(|c| {\n                self.dfa\n                    .edge_iter(state_idx)\n                    .and_then(|mut edges| edges.find(|edge| edge.label.matches(*c)))\n            });\n")),
    ("x-lex-ifs", (L, "            match matching_edge {\n                Some(edge) => {\n                    if let Some(nfa_set) = self.accepting_dfa_to_nfa.get(&edge.to) {\n                        last_accepting_state = Some((forward, *nfa_set.first().unwrap()));\n                    }\n                    state_idx = edge.to;\n                    forward += 1;\n                }\n                None => {\n", "            if let Some(edge) = matching_edge {\n                state_idx = edge.to;\n                if let Some(nfa_set) = self.accepting_dfa_to_nfa.get(&state_idx) {\n                    last_accepting_state = Some((forward, nfa_set[0]));\n                }\n                forward += 1;\n                continue;\n            }\n            {\n                {\n")),
    ("x-lex-take", (L, "                    if let Some((last_accepting_idx, last_accepting_state_idx)) =\n                        last_accepting_state\n                    {\n", "                    if let Some((last_accepting_idx, last_accepting_state_idx)) =\n                        last_accepting_state.take()\n                    {\n"), (L, "                        state_idx = StateIdx(0);\n\n                        last_accepting_state = None;\n", "                        state_idx = StateIdx(0);\n")),
    ("x-lex-tok-get", (L, "        let ret = match self.tokens.get(&last_accepting_state_idx) {\n            Some(TokenDef {\n                with_val: true,\n                name,\n                ..\n            }) => {\n                // let val = char_vec.iter().collect::<String>();\n                // `start` and `end` count characters, not bytes\n                let val: String = input.chars().skip(start).take(end + 1 - start).collect();\n                Token::new_with_val(name.clone(), val)\n            }\n            Some(TokenDef {\n                with_val: false,\n                name,\n                ..\n            }) => Token::new(name.clone()),\n            None => panic!(),\n        };\n        // char_vec.clear();\n        ret\n", "        let def = self.tokens.get(&last_accepting_state_idx).unwrap();\n        let val = def\n            .with_val\n            .then(|| Box::new(input.chars().skip(start).take(end + 1 - start).collect::<String>()));\n        Token {\n            name: def.name.clone(),\n            val,\n        }\n")),
    ("x-table-split", (T, "                // We have reached the end, set action to accept\n                if *lookahead == Grammar::EOF_TOKEN_IDX\n                    && item.production_idx() == Grammar::AUGMENTED_START_PRODUCTION_IDX\n                {\n                    match action.entry((i as u32, Grammar::EOF_TOKEN_IDX)) {\n                        Entry::Vacant(entry) => entry.insert(Action::Accept),\n                        Entry::Occupied(entry) => {\n                            panic!(\n                                \"Conflict ({}, {:?}), Current: {:?}\",\n                                i,\n                                Grammar::EOF_TOKEN_IDX,\n                                entry.get()\n                            )\n                        }\n                    };\n                    continue;\n                }\n\n                // Otherwise we reduce the production\n                match action.entry((i as u32, *lookahead)) {\n                    Entry::Vacant(entry) => entry.insert(Action::Reduce(item.production_idx())),\n                    Entry::Occupied(_) => panic!(\"Conflict ({}, {:?})\", i, lookahead),\n                };\n", "                let accepts = *lookahead == Grammar::EOF_TOKEN_IDX\n                    && item.production_idx() == Grammar::AUGMENTED_START_PRODUCTION_IDX;\n                let what = if accepts {\n                    Action::Accept\n                } else {\n                    Action::Reduce(item.production_idx())\n                };\n                match action.entry((i as u32, *lookahead)) {\n                    Entry::Vacant(entry) => {\n                        entry.insert(what);\n                    }\n                    Entry::Occupied(_) => panic!(\"Conflict ({}, {:?})\", i, lookahead),\n                }\n")),
    ("x-lex-white-first", (L, "} else if Self::is_whitespace(chars[forward]) && forward == lexeme_begin {\n                        forward += 1;\n                        lexeme_begin += 1;\n                    } else {\n                        break;\n                    }", "} else if forward != lexeme_begin || !Self::is_whitespace(chars[forward]) {\n                        break;\n                    } else {\n                        lexeme_begin += 1;\n                        forward = lexeme_begin;\n                    }")),
]
