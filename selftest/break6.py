"""Changes that need something particular to show, written from the code alone."""
T = "src/lalr/table.rs"
I = "src/lalr/item.rs"
D = "src/lex/dfa.rs"
L = "src/lex/lex.rs"
N = "src/lex/nfa.rs"
P = "src/parser/mod.rs"
C = "src/codegen.rs"
LG = "src/codegen/lex_gen.rs"
E = [
    ("z-dfa-find-len", (D, "                let idx = match d_states.iter().enumerate().find(|(_, s)| *s == &u) {", "                let idx = match d_states.iter().enumerate().find(|(_, s)| s.is_superset(&u)) {")),
    ("z-dfa-first-edge-last", (D, "                if first_edge.is_none() {\n                    *first_edge", "                if first_edge.is_none() || t_idx == idx {\n                    *first_edge")),
    ("z-dfa-move-start", (D, "                        l.range.contains(&label.range.start)\n                            && l.range.contains(&(label.range.end - 1))", "                        l.range.contains(&label.range.start)\n                            || l.range.contains(&(label.range.end - 1))")),
    ("z-dfa-move-end", (D, "l.range.contains(&(label.range.end - 1))", "l.range.end > label.range.start")),
    ("z-overlap-skip-low", (D, "            add_range(&low_range, index + 1, disjoint_ranges);", "            disjoint_ranges.push(low_range);")),
    ("z-lex-accept-last", (L, "*nfa_set.first().unwrap()", "*nfa_set.last().unwrap()")),
    ("z-lex-resume", (L, "                        forward = last_accepting_idx + 1;\n", "                        forward = forward.max(last_accepting_idx + 1);\n")),
    ("z-lex-state", (L, "                        state_idx = StateIdx(0);\n\n                        last_accepting_state = None;\n", "                        if forward < chars.len() {\n                            state_idx = StateIdx(0);\n                        }\n\n                        last_accepting_state = None;\n")),
    ("z-table-shift-goto", (T, "                return lalr_sets.iter().position(|set| set.same_core(&goto_ia));\n", "                return lalr_sets.iter().rposition(|set| set.same_core(&goto_ia));\n"), ),
    ("z-table-occupied", (T, "                        Entry::Occupied(entry) if *entry.get() == shift => (),\n                        Entry::Occupied(_) => panic!", "                        Entry::Occupied(entry) if matches!(entry.get(), Action::Shift(_) | Action::Accept) => (),\n                        Entry::Occupied(_) => panic!")),
    ("z-table-reduce-skip", (T, "                    Entry::Occupied(_) => panic!(\"Conflict ({}, {:?})\", i, lookahead),\n", "                    Entry::Occupied(mut entry) => {\n                        if let Action::Shift(_) = entry.get() {\n                            panic!(\"Conflict ({}, {:?})\", i, lookahead)\n                        }\n                        entry.insert(Action::Reduce(item.production_idx()))\n                    }\n"), (T, "Entry::Vacant(entry) => entry.insert(Action::Reduce(item.production_idx())),", "Entry::Vacant(entry) => { entry.insert(Action::Reduce(item.production_idx())); Action::Accept }")),
    ("z-table-accept-any", (T, "                if *lookahead == Grammar::EOF_TOKEN_IDX\n                    && item.production_idx()", "                if item.production_idx()")),
    ("z-merge-len", (T, "            lr_to_lalr.insert(*idx, resulting.len());", "            lr_to_lalr.entry(*idx).or_insert(resulting.len().saturating_sub(indices.len() - 1));")),
    ("z-merge-skip2", (T, "    for i in indices.iter().skip(1) {", "    for i in indices.iter().skip(1).take(8) {")),
    ("z-escape-cr", (C, "            '\\r' => ret.push_str(\"\\\\r\"),\n", "            '\\r' if ret.ends_with(\"\\\\n\") => (),\n            '\\r' => ret.push_str(\"\\\\r\"),\n")),
    ("z-nfa-any", (N, "        if final_states.is_empty() {\n            return false;\n        }\n\n        final_states\n            .into_iter()\n            .any(|state| accepting_states.contains(&state))", "        if final_states.is_empty() {\n            return false;\n        }\n\n        final_states\n            .into_iter()\n            .all(|state| accepting_states.contains(&state))")),
    ("z-lg-order", (LG, "                    set.iter()\n                        .map(|s| format!(\"{}\", s.value()))", "                    set.iter()\n                        .rev()\n                        .map(|s| format!(\"{}\", s.value()))")),
    ("z-tokset-break", (P, "            for input_token in prod.input_tokens.iter() {\n                token_set.insert(*input_token);\n            }", "            for input_token in prod.input_tokens.iter() {\n                if !token_set.insert(*input_token) && prod.input_tokens.len() > 3 {\n                    break;\n                }\n            }")),
]
