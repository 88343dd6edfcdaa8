"""Larger rewrites of the generators."""
X = "src/codegen/lex_gen.rs"
G = "src/codegen/parse_gen.rs"
E = [
    ("g-lex-tokens-loop", (X, "            let tokens: BTreeMap<usize, (&'a str, bool)> =\n                BTreeMap::from_iter(lex.tokens.iter().flat_map(|(k, v)| {\n                    lex.dfa.states.iter().enumerate().filter_map(|(idx, _)| {\n                        if lex.accepting_dfa_to_nfa.get(&StateIdx(idx))?.contains(k) {\n                            Some((k.value(), (v.name.as_str(), v.with_val)))\n                        } else {\n                            None\n                        }\n                    })\n                }));\n", "            let mut tokens: BTreeMap<usize, (&'a str, bool)> = BTreeMap::new();\n            for (k, v) in lex.tokens.iter() {\n                for idx in 0..lex.dfa.states.len() {\n                    let set = match lex.accepting_dfa_to_nfa.get(&StateIdx(idx)) {\n                        Some(set) => set,\n                        None => continue,\n                    };\n                    if set.contains(k) {\n                        tokens.insert(k.value(), (v.name.as_str(), v.with_val));\n                    }\n                }\n            }\n")),
    ("g-lex-states-range", (X, "            let states = lex\n                .dfa\n                .states\n                .iter()\n                .enumerate()\n                .map(|(idx, _)| State::from_lex_state(&lex.dfa, idx))\n                .collect();\n", "            let states = (0..lex.dfa.states.len())\n                .map(|idx| State::from_lex_state(&lex.dfa, idx))\n                .collect();\n")),
    ("g-lex-from-state", (X, "            let mut labels = Vec::new();\n\n            match dfa.edge_iter(state_idx) {\n                Some(edge_iter) => {\n                    for edge in edge_iter {\n                        labels.push((edge.to.value(), edge.label.clone()));\n                    }\n                }\n                None => (),\n            }\n", "            let labels = match dfa.edge_iter(state_idx) {\n                Some(edges) => edges\n                    .map(|edge| (edge.to.value(), edge.label.clone()))\n                    .collect(),\n                None => Vec::new(),\n            };\n")),
    ("g-lex-from-state2", (X, "            match dfa.edge_iter(state_idx) {\n                Some(edge_iter) => {\n                    for edge in edge_iter {\n                        labels.push((edge.to.value(), edge.label.clone()));\n                    }\n                }\n                None => (),\n            }\n", "            for edge in dfa.edge_iter(state_idx).into_iter().flatten() {\n                labels.push((edge.to.value(), edge.label.clone()));\n            }\n")),
    ("g-lex-write", (X, "    use std::collections::{BTreeMap, BTreeSet};\n\n    use crate::codegen", "    use std::collections::{BTreeMap, BTreeSet};\n    use std::fmt::Write;\n\n    use crate::codegen"), (X, "            for (i, _) in self.tokens.iter() {\n                ret.push_str(&format!(\"  {}: TokenDef{};\", *i, *i));\n            }\n", "            for i in self.tokens.keys() {\n                write!(ret, \"  {i}: TokenDef{i};\").unwrap();\n            }\n")),
    ("g-lex-tokendef-write", (X, "                    if *has_value { \"true\" } else { \"false\" }\n", "                    has_value\n")),
    ("g-lex-tos-fold", (X, "                let tos = state\n                    .labels\n                    .iter()\n                    .map(|(i, _)| i.to_string())\n                    .collect::<Vec<String>>();\n", "                let mut tos: Vec<String> = Vec::new();\n                for (to, _) in &state.labels {\n                    tos.push(format!(\"{}\", to));\n                }\n")),
    ("g-lex-unzip", (X, "                let tos = state\n                    .labels\n                    .iter()\n                    .map(|(i, _)| i.to_string())\n                    .collect::<Vec<String>>();\n\n                let labels = state\n                    .labels\n                    .iter()\n                    .map(|(_, m)| format!(\"{{ from: {}, to: {} }}\", m.range.start, m.range.end))\n                    .collect::<Vec<String>>();\n", "                let mut tos = Vec::new();\n                let mut labels = Vec::new();\n                for (to, m) in state.labels.iter() {\n                    tos.push(to.to_string());\n                    labels.push(format!(\n                        \"{{ from: {}, to: {} }}\",\n                        m.range.start, m.range.end\n                    ));\n                }\n")),
    ("g-lex-dfanfa-loop", (X, "            let dfa_to_nfa_str = self\n                .dfa_to_nfa\n                .iter()\n                .map(|(dfa, nfa)| format!(\"{}: {},\\n\", dfa.value(), nfa_set_to_string(nfa)))\n                .collect::<String>();\n\n            ret.push_str(&format!(\n                \"export type DFAtoNFA = {{\\n  {}}}\",\n                dfa_to_nfa_str\n            ));\n", "            ret.push_str(\"export type DFAtoNFA = {\\n  \");\n            for (dfa, nfa) in self.dfa_to_nfa {\n                ret.push_str(&format!(\"{}: {},\\n\", dfa.value(), nfa_set_to_string(nfa)));\n            }\n            ret.push('}');\n")),
    ("g-parse-symvar-loop", (G, "            let symbol_variants: BTreeMap<_, _> = ast_productions\n                .iter()\n                .map(|ast_prod| {\n                    (\n                        ast_prod.name.as_ref(),\n                        SymbolVariant {\n                            production_name: ast_prod.name.as_ref(),\n                            ts_code: ast_prod.ts_code,\n                        },\n                    )\n                })\n                .collect();\n", "            let mut symbol_variants = BTreeMap::new();\n            for ast_prod in ast_productions {\n                let production_name: &str = ast_prod.name.as_ref();\n                let variant = SymbolVariant {\n                    production_name,\n                    ts_code: ast_prod.ts_code,\n                };\n                symbol_variants.insert(production_name, variant);\n            }\n")),
    ("g-parse-tokens-match", (G, "                let (kind, value) = match token {\n                    Symbol::StrLit(strlit) => (\"strlit\", *strlit),\n                    Symbol::NonTerminal(nonterminal) => (\"nonterminal\", nonterminal.0),\n                    Symbol::Regex(r) => (\"regex\", *r),\n                    Symbol::Epsilon => todo!(),\n                    Symbol::Eof => {\n                        write!(w, \"\\n{}: {{ kind: \\\"eof\\\" }}\", i)?;\n                        continue;\n                    }\n                };\n", "                if let Symbol::Eof = token {\n                    write!(w, \"\\n{}: {{ kind: \\\"eof\\\" }}\", i)?;\n                    continue;\n                }\n                let (kind, value) = match *token {\n                    Symbol::StrLit(strlit) => (\"strlit\", strlit),\n                    Symbol::NonTerminal(Ident(name)) => (\"nonterminal\", name.as_ref()),\n                    Symbol::Regex(r) => (\"regex\", r),\n                    Symbol::Epsilon | Symbol::Eof => todo!(),\n                };\n")),
    ("g-parse-action-helper", (G, "                    match action {\n                        table::Action::Shift(j) => write!(w, \"shift: {}\", j),\n                        table::Action::Reduce(r) => write!(w, \"reduce: {}\", r.0),\n                        table::Action::Accept => w.write_str(\"accept: true\"),\n                    }?;\n", "                    Self::write_action(w, action)?;\n"), (G, "        fn generate_goto_table<W", "        fn write_action<W: std::fmt::Write>(w: &mut W, action: &table::Action) -> std::fmt::Result {\n            let (what, to) = match action {\n                table::Action::Accept => return w.write_str(\"accept: true\"),\n                table::Action::Shift(j) => (\"shift\", j.to_string()),\n                table::Action::Reduce(r) => (\"reduce\", r.0.to_string()),\n            };\n            write!(w, \"{}: {}\", what, to)\n        }\n\n        fn generate_goto_table<W")),
    ("g-parse-kind-filter", (G, "            for (idx, terminal) in self\n                .grammar\n                .tokens()\n                .enumerate()\n                .filter(|(_, s)| Symbol::is_terminal(s))\n            {\n                let name = match terminal {\n                    Symbol::StrLit(strlit) => strlit,\n                    Symbol::Regex(r) => r,\n                    Symbol::NonTerminal(_) => continue,\n                    Symbol::Epsilon => continue,\n                    Symbol::Eof => \"EOF\",\n                };\n", "            for (idx, symbol) in self.grammar.tokens().enumerate() {\n                let name = match symbol {\n                    Symbol::StrLit(text) | Symbol::Regex(text) => text,\n                    Symbol::Eof => \"EOF\",\n                    Symbol::NonTerminal(_) | Symbol::Epsilon => continue,\n                };\n")),
    ("g-parse-prods", (G, "                write!(\n                    w,\n                    r#\"{}: {{ name: \"{}\", tokens: [{}\"#,\n                    production_idx, production.name, \"\"\n                )?;\n                for token in &production.input_tokens {\n                    let idx = self\n                        .grammar\n                        .get_token_idx(token)\n                        .expect(\"Should have token idx\");\n                    write!(w, \"{},\", idx.0)?;\n                }\n                w.write_str(\"] }\\n\")?;\n", "                let tokens: String = production\n                    .input_tokens\n                    .iter()\n                    .map(|token| {\n                        let idx = self\n                            .grammar\n                            .get_token_idx(token)\n                            .expect(\"Should have token idx\");\n                        format!(\"{},\", idx.0)\n                    })\n                    .collect();\n                write!(\n                    w,\n                    r#\"{}: {{ name: \"{}\", tokens: [{}] }}\"#,\n                    production_idx, production.name, tokens\n                )?;\n                w.write_str(\"\\n\")?;\n")),
    ("g-parse-args", (G, "                match named_sym.param {\n                    ActionImplParam::NonTerminal(_) => {\n                        write!(w, \"{}['value'],\", named_sym.name)?;\n                    }\n                    ActionImplParam::Regex(_) | ActionImplParam::StrLit(_) => {\n                        write!(w, \"{}['token']['value'],\", named_sym.name)?;\n                        i += 1;\n                    }\n                    ActionImplParam::Named(_) => unreachable!(),\n                }\n", "                let path = match named_sym.param {\n                    ActionImplParam::NonTerminal(_) => \"['value'],\",\n                    ActionImplParam::Regex(_) | ActionImplParam::StrLit(_) => \"['token']['value'],\",\n                    ActionImplParam::Named(_) => unreachable!(),\n                };\n                write!(w, \"{}{}\", named_sym.name, path)?;\n"), (G, "            let mut i = 0;\n\n            for sym in &self.action_impl.inputs {\n                let named_sym", "            for sym in &self.action_impl.inputs {\n                let named_sym")),
    ("g-parse-callimpl", (G, "            let mut buf = String::new();\n\n            buf.push('[');\n\n            let mut args = String::new();\n            self.call_impl_args(&mut args)?;\n\n            write!(\n                buf,\n                \"{{ kind: '{}', value: {} }},\",\n                self.production_name, self.action_impl.code\n            )?;\n            buf.push_str(\"...newStack]\");\n\n            Ok(buf)\n", "            let mut args = String::new();\n            self.call_impl_args(&mut args)?;\n            Ok(format!(\n                \"[{{ kind: '{}', value: {} }},...newStack]\",\n                self.production_name, self.action_impl.code\n            ))\n")),
    ("g-parse-goto", (G, "                for (production_name, new_state) in goto_map.iter() {\n                    write!(w, \"\\n{}: {}\\n\", production_name.0, new_state)?;\n                }\n                w.write_str(\"\\n}\\n\")?;\n            }\n", "                goto_map\n                    .iter()\n                    .try_for_each(|(name, to)| write!(w, \"\\n{}: {}\\n\", name.0, to))?;\n                w.write_str(\"\\n}\\n\")?;\n            }\n")),
]
