"""Edits that keep the behaviour: helpers taken out and put in, loops turned into chains and back, larger rewrites."""
I, T, L, P, A, O, PG, LG, N, D, LX, S, B = ("src/lalr/item.rs", "src/lalr/table.rs", "src/lalr.rs", "src/parser/mod.rs", "src/parser/ast.rs", "src/option_usize.rs",
                                            "src/codegen/parse_gen.rs", "src/codegen/lex_gen.rs", "src/lex/nfa.rs", "src/lex/dfa.rs", "src/lex/lex.rs", "src/parser/support.rs", "src/lib.rs")
E = [
    # lex_gen
    ("v-lg-generate", (LG, "    let chars = generate_chars();\n    let ctx = ts::Ctx::new(lex, chars);\n\n    ctx.to_string()", "    ts::Ctx::new(lex, generate_chars()).to_string()")),
    ("v-lg-tokens-loop", (LG, "            let tokens: BTreeMap<usize, (&'a str, bool)> =\n                BTreeMap::from_iter(lex.tokens.iter().flat_map(|(k, v)| {\n                    lex.dfa.states.iter().enumerate().filter_map(|(idx, _)| {\n                        if lex.accepting_dfa_to_nfa.get(&StateIdx(idx))?.contains(k) {\n                            Some((k.value(), (v.name.as_str(), v.with_val)))\n                        } else {\n                            None\n                        }\n                    })\n                }));", "            let mut tokens: BTreeMap<usize, (&'a str, bool)> = BTreeMap::new();\n            for (k, v) in &lex.tokens {\n                for idx in 0..lex.dfa.states.len() {\n                    if let Some(nfa_states) = lex.accepting_dfa_to_nfa.get(&StateIdx(idx)) {\n                        if nfa_states.contains(k) {\n                            tokens.insert(k.value(), (v.name.as_str(), v.with_val));\n                        }\n                    }\n                }\n            }")),
    ("v-lg-tokens-any", (LG, "            let tokens: BTreeMap<usize, (&'a str, bool)> =\n                BTreeMap::from_iter(lex.tokens.iter().flat_map(|(k, v)| {\n                    lex.dfa.states.iter().enumerate().filter_map(|(idx, _)| {\n                        if lex.accepting_dfa_to_nfa.get(&StateIdx(idx))?.contains(k) {\n                            Some((k.value(), (v.name.as_str(), v.with_val)))\n                        } else {\n                            None\n                        }\n                    })\n                }));", "            let accepts = |idx: usize, k: &StateIdx| match lex.accepting_dfa_to_nfa.get(&StateIdx(idx)) {\n                Some(nfa_states) => nfa_states.contains(k),\n                None => false,\n            };\n            let tokens: BTreeMap<usize, (&'a str, bool)> = lex\n                .tokens\n                .iter()\n                .filter(|(k, _)| (0..lex.dfa.states.len()).any(|idx| accepts(idx, k)))\n                .map(|(k, v)| (k.value(), (v.name.as_str(), v.with_val)))\n                .collect();")),
    ("v-lg-states-range", (LG, "            let states = lex\n                .dfa\n                .states\n                .iter()\n                .enumerate()\n                .map(|(idx, _)| State::from_lex_state(&lex.dfa, idx))\n                .collect();", "            let states = (0..lex.dfa.states.len())\n                .map(|idx| State::from_lex_state(&lex.dfa, idx))\n                .collect();")),
    ("v-lg-lex-state", (LG, "            let mut labels = Vec::new();\n\n            match dfa.edge_iter(state_idx) {\n                Some(edge_iter) => {\n                    for edge in edge_iter {\n                        labels.push((edge.to.value(), edge.label.clone()));\n                    }\n                }\n                None => (),\n            }\n", "            let labels: Vec<_> = dfa\n                .edge_iter(state_idx)\n                .into_iter()\n                .flatten()\n                .map(|edge| (edge.to.value(), edge.label.clone()))\n                .collect();\n")),
    ("v-lg-one-loop", (LG, "                let tos = state\n                    .labels\n                    .iter()\n                    .map(|(i, _)| i.to_string())\n                    .collect::<Vec<String>>();\n\n                let labels = state\n                    .labels\n                    .iter()\n                    .map(|(_, m)| format!(\"{{ from: {}, to: {} }}\", m.range.start, m.range.end))\n                    .collect::<Vec<String>>();\n", "                let mut tos = Vec::with_capacity(state.labels.len());\n                let mut labels = Vec::with_capacity(state.labels.len());\n                for (to, m) in &state.labels {\n                    tos.push(to.to_string());\n                    labels.push(format!(\"{{ from: {}, to: {} }}\", m.range.start, m.range.end));\n                }\n")),
    ("v-lg-has-value", (LG, "                    escape_str(kind),\n                    if *has_value { \"true\" } else { \"false\" }\n", "                    escape_str(kind),\n                    has_value\n")),
    ("v-lg-tokens-keys", (LG, "            for (i, _) in self.tokens.iter() {\n                ret.push_str(&format!(\"  {}: TokenDef{};\", *i, *i));\n            }", "            for i in self.tokens.keys() {\n                ret.push_str(&format!(\"  {}: TokenDef{};\", i, i));\n            }")),
    ("v-lg-states-join", (LG, "            let states = self\n                .states\n                .iter()\n                .enumerate()\n                .map(|(i, _)| format!(\"State{}\", i))\n                .collect::<Vec<_>>();\n\n            ret.push_str(&format!(\n                \"export type States = [{}];\\n\\n\",\n                states.join(\", \")\n            ));", "            ret.push_str(\"export type States = [\");\n            for i in 0..self.states.len() {\n                if i > 0 {\n                    ret.push_str(\", \");\n                }\n                ret.push_str(&format!(\"State{}\", i));\n            }\n            ret.push_str(\"];\\n\\n\");")),
    ("v-lg-nfa-set", (LG, "                format!(\n                    \"[ {} ]\",\n                    set.iter()\n                        .map(|s| format!(\"{}\", s.value()))\n                        .collect::<Vec<_>>()\n                        .join(\", \")\n                )", "                let values: Vec<String> = set.iter().map(|s| s.value().to_string()).collect();\n                format!(\"[ {} ]\", values.join(\", \"))")),
    ("v-lg-dfa-map", (LG, "            let dfa_to_nfa_str = self\n                .dfa_to_nfa\n                .iter()\n                .map(|(dfa, nfa)| format!(\"{}: {},\\n\", dfa.value(), nfa_set_to_string(nfa)))\n                .collect::<String>();\n\n            ret.push_str(&format!(\n                \"export type DFAtoNFA = {{\\n  {}}}\",\n                dfa_to_nfa_str\n            ));", "            ret.push_str(\"export type DFAtoNFA = {\\n  \");\n            for (dfa, nfa) in self.dfa_to_nfa {\n                ret.push_str(&format!(\"{}: {},\\n\", dfa.value(), nfa_set_to_string(nfa)));\n            }\n            ret.push('}');")),
    ("v-lg-split", (LG, "            ret.push_str(\"export type Tokens = {\\n\");\n            for (i, _) in self.tokens.iter() {\n                ret.push_str(&format!(\"  {}: TokenDef{};\", *i, *i));\n            }\n            ret.push_str(\"\\n}\\n\\n\");\n", "            self.push_tokens(&mut ret);\n"), (LG, "        pub fn to_string(&self) -> String {", "        fn push_tokens(&self, ret: &mut String) {\n            ret.push_str(\"export type Tokens = {\\n\");\n            for i in self.tokens.keys() {\n                ret.push_str(&format!(\"  {}: TokenDef{};\", i, i));\n            }\n            ret.push_str(\"\\n}\\n\\n\");\n        }\n\n        pub fn to_string(&self) -> String {")),
    ("v-lg-chars-entry", (LG, "        match char_map.entry(char) {\n            Entry::Vacant(entry) => {\n                entry.insert(char as u8 as u32);\n            }\n            Entry::Occupied(_) => (),\n        }", "        char_map.entry(char).or_insert(char as u8 as u32);"), (LG, "    collections::{btree_map::Entry, BTreeMap, BTreeSet},", "    collections::{BTreeMap, BTreeSet},")),
    ("v-lg-chars-filter", (LG, "    for char in range_chars {\n        if invisible_codepoints.contains(&(char as usize)) {\n            continue;\n        }\n", "    for char in range_chars\n        .into_iter()\n        .filter(|c| !invisible_codepoints.contains(&(*c as usize)))\n    {\n")),
    ("v-lg-char-vec", (LG, "        let mut chars = Vec::with_capacity(r.len());\n        for i in r {\n            // just gonna support a limited amount of chars for now\n            chars.push(i as u8 as char);\n        }\n        chars", "        // just gonna support a limited amount of chars for now\n        r.map(|i| i as u8 as char).collect()")),
    ("v-lg-chars-str", (LG, "    for (char, i) in char_map.iter() {\n        let char = *char;\n        final_str.push_str(&format!(\"\\n    {}: \\\"{}\\\",\\n\", i, char_escape(char)));\n    }\n    final_str += \"}\";\n", "    char_map.iter().for_each(|(&c, i)| {\n        final_str.push_str(&format!(\"\\n    {}: \\\"{}\\\",\\n\", i, char_escape(c)));\n    });\n    final_str.push('}');\n")),
    ("v-lg-chars-str2", (LG, "        final_str += \"\\n\\\"\";\n\n        final_str.push_str(&char_escape(char));\n\n        final_str += &format!(\"\\\": {},\", i);", "        final_str += &format!(\"\\n\\\"{}\\\": {},\", char_escape(char), i);")),
    ("v-lg-escape", (LG, "    fn char_escape(c: char) -> Cow<'static, str> {\n        match c {\n            '\"' => Cow::Borrowed(\"\\\\\\\"\"),\n            '\\\\' => Cow::Borrowed(\"\\\\\\\\\"),\n            '\\n' => Cow::Borrowed(r#\"\\n\"#),\n            _ => Cow::Owned(c.to_string()),\n        }\n    }", "    fn char_escape(c: char) -> String {\n        match c {\n            '\"' => \"\\\\\\\"\".to_owned(),\n            '\\\\' => \"\\\\\\\\\".to_owned(),\n            '\\n' => \"\\\\n\".to_owned(),\n            other => other.to_string(),\n        }\n    }"), (LG, "    borrow::Cow,\n", "")),
    ("v-lg-arith", (LG, "    buf.push_str(\"export type SuccTable = {\\n\");\n    for i in 0..max_nums {\n        buf.push_str(&format!(\"    {}: {};\\n\", i, i + 1));\n    }", "    use std::fmt::Write;\n\n    buf.push_str(\"export type SuccTable = {\\n\");\n    for i in 0..max_nums {\n        let succ = i + 1;\n        writeln!(buf, \"    {}: {};\", i, succ).unwrap();\n    }")),
    ("v-lg-arith2", (LG, "    for i in 0..max_nums {\n        println!(\"{}\", i);\n        buf.push_str(&format!(\"    {}: {};\\n\", i + 1, i));\n    }", "    for i in 1..=max_nums {\n        println!(\"{}\", i - 1);\n        buf.push_str(&format!(\"    {}: {};\\n\", i, i - 1));\n    }")),
    ("v-lg-nice", (LG, "    if s.is_empty() {\n        s.to_string()\n    } else {\n        s.chars()\n            .next()\n            .unwrap()\n            .to_uppercase()\n            .chain(s.chars().skip(1).flat_map(char::to_lowercase))\n            .collect()\n    }", "    let mut chars = s.chars();\n    match chars.next() {\n        None => String::new(),\n        Some(first) => first\n            .to_uppercase()\n            .chain(chars.flat_map(char::to_lowercase))\n            .collect(),\n    }")),
    # parse_gen
    ("v-pg-tables", (PG, "            w.write_str(\"export type Goto = {\")?;\n            for (state_idx, goto_map) in self.lalr.goto.iter() {\n                write!(w, \"{}: {{\", state_idx)?;\n                for (production_name, new_state) in goto_map.iter() {\n                    write!(w, \"\\n{}: {}\\n\", production_name.0, new_state)?;\n                }\n                w.write_str(\"\\n}\\n\")?;\n            }\n            w.write_str(\"\\n}\\n\")?;\n            Ok(())", "            w.write_str(\"export type Goto = {\")?;\n            for (state_idx, goto_map) in self.lalr.goto.iter() {\n                w.write_fmt(format_args!(\"{}: {{\", state_idx))?;\n                goto_map\n                    .iter()\n                    .try_for_each(|(name, to)| write!(w, \"\\n{}: {}\\n\", name, to))?;\n                w.write_str(\"\\n}\\n\")?;\n            }\n            w.write_str(\"\\n}\\n\")")),
    ("v-pg-close", (PG, "        fn generate_action_table<W", "        fn close<W: std::fmt::Write>(w: &mut W) -> std::fmt::Result {\n            w.write_str(\"\\n}\\n\")\n        }\n\n        fn generate_action_table<W"), (PG, "                    w.write_str(\"\\n}\\n\")?;\n                }\n                w.write_str(\"\\n}\\n\")?;\n            }\n            w.write_str(\"\\n}\\n\")?;\n            Ok(())", "                    Self::close(w)?;\n                }\n                Self::close(w)?;\n            }\n            Self::close(w)")),
    ("v-pg-action-str", (PG, "                    write!(w, \"{}: {{\", token_idx.0)?;\n                    match action {\n                        table::Action::Shift(j) => write!(w, \"shift: {}\", j),\n                        table::Action::Reduce(r) => write!(w, \"reduce: {}\", r.0),\n                        table::Action::Accept => w.write_str(\"accept: true\"),\n                    }?;\n                    w.write_str(\"\\n}\\n\")?;", "                    let entry = match action {\n                        table::Action::Shift(j) => format!(\"shift: {}\", j),\n                        table::Action::Reduce(r) => format!(\"reduce: {}\", r.0),\n                        table::Action::Accept => String::from(\"accept: true\"),\n                    };\n                    write!(w, \"{}: {{{}\\n}}\\n\", token_idx.0, entry)?;")),
    ("v-pg-imports", (PG, "            w.write_str(\"import * as U from \\\"./util\\\"\\n\")?;\n            w.write_str(\"import * as L from \\\"./lex\\\"\\n\")?;\n            w.write_str(\"\\n\")?;\n\n            Ok(())", "            w.write_str(\"import * as U from \\\"./util\\\"\\nimport * as L from \\\"./lex\\\"\\n\\n\")")),
    ("v-pg-imports-loop", (PG, "            w.write_str(\"import * as U from \\\"./util\\\"\\n\")?;\n            w.write_str(\"import * as L from \\\"./lex\\\"\\n\")?;\n", "            for (name, path) in [(\"U\", \"./util\"), (\"L\", \"./lex\")] {\n                writeln!(w, \"import * as {} from \\\"{}\\\"\", name, path)?;\n            }\n")),
    ("v-pg-symbols", (PG, "            for sym in &self.symbols {\n                write!(w, r#\"| {{ kind: \"{}\", value: actions.{} }}\"#, sym, sym)?;\n            }", "            self.symbols\n                .iter()\n                .try_for_each(|sym| write!(w, r#\"| {{ kind: \"{sym}\", value: actions.{sym} }}\"#))?;")),
    ("v-pg-tokens-kind", (PG, "                let (kind, value) = match token {\n                    Symbol::StrLit(strlit) => (\"strlit\", *strlit),\n                    Symbol::NonTerminal(nonterminal) => (\"nonterminal\", nonterminal.0),\n                    Symbol::Regex(r) => (\"regex\", *r),\n                    Symbol::Epsilon => todo!(),\n                    Symbol::Eof => {\n                        write!(w, \"\\n{}: {{ kind: \\\"eof\\\" }}\", i)?;\n                        continue;\n                    }\n                };\n                write!(\n                    w,\n                    r#\"\n                {}: {{ kind: \"{}\", value: \"{}\" }}\"#,\n                    i, kind, escape_str(value)\n                )?;", "                let kind_and_value = match token {\n                    Symbol::StrLit(strlit) => Some((\"strlit\", *strlit)),\n                    Symbol::NonTerminal(nonterminal) => Some((\"nonterminal\", nonterminal.0)),\n                    Symbol::Regex(r) => Some((\"regex\", *r)),\n                    Symbol::Epsilon => todo!(),\n                    Symbol::Eof => None,\n                };\n                match kind_and_value {\n                    Some((kind, value)) => write!(\n                        w,\n                        \"\\n                {}: {{ kind: \\\"{}\\\", value: \\\"{}\\\" }}\",\n                        i,\n                        kind,\n                        escape_str(value)\n                    )?,\n                    None => write!(w, \"\\n{}: {{ kind: \\\"eof\\\" }}\", i)?,\n                }")),
    ("v-pg-prods-helper", (PG, "                for token in &production.input_tokens {\n                    let idx = self\n                        .grammar\n                        .get_token_idx(token)\n                        .expect(\"Should have token idx\");\n                    write!(w, \"{},\", idx.0)?;\n                }", "                let indices = production.input_tokens.iter().map(|token| {\n                    self.grammar\n                        .get_token_idx(token)\n                        .expect(\"Should have token idx\")\n                });\n                for idx in indices {\n                    write!(w, \"{},\", idx.0)?;\n                }")),
    ("v-pg-kinds", (PG, "            for (idx, terminal) in self\n                .grammar\n                .tokens()\n                .enumerate()\n                .filter(|(_, s)| Symbol::is_terminal(s))\n            {\n                let name = match terminal {\n                    Symbol::StrLit(strlit) => strlit,\n                    Symbol::Regex(r) => r,\n                    Symbol::NonTerminal(_) => continue,\n                    Symbol::Epsilon => continue,\n                    Symbol::Eof => \"EOF\",\n                };\n                writeln!(w, \"'{}': {}\", escape_str(name), idx)?;\n            }", "            for (idx, symbol) in self.grammar.tokens().enumerate() {\n                let name = match symbol {\n                    Symbol::StrLit(name) | Symbol::Regex(name) => *name,\n                    Symbol::Eof => \"EOF\",\n                    Symbol::NonTerminal(_) | Symbol::Epsilon => continue,\n                };\n                writeln!(w, \"'{}': {}\", escape_str(name), idx)?;\n            }")),
    ("v-pg-emit", (PG, "            for action in &self.actions {\n                write!(\n                    buf,\n                    \"prodIdx extends {} ? actions.Action{}<symbolStack> :\",\n                    action.production_idx.0, action.production_idx.0\n                )?;\n            }", "            for action in &self.actions {\n                let idx = action.production_idx.0;\n                buf.push_str(&format!(\"prodIdx extends {} ? actions.Action{}<symbolStack> :\", idx, idx));\n            }")),
    ("v-pg-variants", (PG, "            for (_, symbol_variant) in &self.symbol_variants {", "            for symbol_variant in self.symbol_variants.values() {")),
    ("v-pg-ctx-loop", (PG, "            let symbol_variants: BTreeMap<_, _> = ast_productions\n                .iter()\n                .map(|ast_prod| {\n                    (\n                        ast_prod.name.as_ref(),\n                        SymbolVariant {\n                            production_name: ast_prod.name.as_ref(),\n                            ts_code: ast_prod.ts_code,\n                        },\n                    )\n                })\n                .collect();\n", "            let mut symbol_variants: BTreeMap<&'ast str, SymbolVariant<'ast>> = BTreeMap::new();\n            let mut symbols = Vec::with_capacity(ast_productions.len());\n            for ast_prod in ast_productions {\n                let production_name: &'ast str = ast_prod.name.0;\n                let ts_code = ast_prod.ts_code;\n                symbol_variants.insert(production_name, SymbolVariant { production_name, ts_code });\n                symbols.push(production_name);\n            }\n"), (PG, "            let symbols = ast_productions\n                .iter()\n                .map(|production| production.name.0)\n                .collect();\n\n", "")),
    ("v-pg-ctx-from1", (PG, "                .enumerate()\n                .map(|(i, (name, body))| {\n                    bump.alloc(ActionImpl {\n                        name,\n                        production_idx: ProductionIdx((starting_production_idx + i) as u32),", "                .zip(starting_production_idx..)\n                .map(|((name, body), i)| {\n                    bump.alloc(ActionImpl {\n                        name,\n                        production_idx: ProductionIdx(i),"), (PG, "let starting_production_idx = 1;", "let starting_production_idx = 1u32;")),
    ("v-pg-act-method", (PG, "                .map(|action_impl| Action {\n                    action_impl,\n                    pop_amount: action_impl.inputs.len(),\n                    production_idx: action_impl.production_idx,\n                    production_name: action_impl.name,\n                })", "                .map(|action_impl| Action::new(action_impl))"), (PG, "    impl<'ast> Action<'ast> {\n", "    impl<'ast> Action<'ast> {\n        fn new(action_impl: &'ast ActionImpl<'ast>) -> Self {\n            Action {\n                action_impl,\n                pop_amount: action_impl.inputs.len(),\n                production_idx: action_impl.production_idx,\n                production_name: action_impl.name,\n            }\n        }\n\n")),
    ("v-pg-call-impl", (PG, "            let mut buf = String::new();\n\n            buf.push('[');\n\n            let mut args = String::new();\n            self.call_impl_args(&mut args)?;\n\n            write!(\n                buf,\n                \"{{ kind: '{}', value: {} }},\",\n                self.production_name, self.action_impl.code\n            )?;\n            buf.push_str(\"...newStack]\");\n\n            Ok(buf)", "            Ok(format!(\n                \"[{{ kind: '{}', value: {} }},...newStack]\",\n                self.production_name, self.action_impl.code\n            ))")),
    ("v-pg-validate-helper", (PG, "        fn validate_params<W: std::fmt::Write>(", "        fn position_error(&self, what: &str, pos: usize) -> String {\n            format!(r#\"`error: {} (pos \\`{}\\`, Action{})`\"#, what, pos, self.production_idx.0)\n        }\n\n        fn validate_params<W: std::fmt::Write>("), (PG, "                        else_stack.push(format!(\n                            r#\"`error: not a token (pos \\`{}\\`, Action{})`\"#,\n                            i, self.production_idx.0\n                        ));\n                        else_stack.push(format!(\n                            r#\"`error: invalid symbol (pos \\`{}\\`, Action{})`\"#,\n                            i, self.production_idx.0\n                        ));\n                    }\n                    ActionImplParam::Regex(_) => {", "                        else_stack.push(self.position_error(\"not a token\", i));\n                        else_stack.push(self.position_error(\"invalid symbol\", i));\n                    }\n                    ActionImplParam::Regex(_) => {")),
    ("v-pg-validate-merge", (PG, "                    ActionImplParam::StrLit(str_lit) => {\n                        cond_stack.push(format!(\n                            r#\"__{} extends {{ kind: \"token\", token: L.Token }}\"#,\n                            named_sym.name\n                        ));\n                        cond_stack.push(format!(\n                            \"__{}['token']['value'] extends infer {} extends '{}'\",\n                            named_sym.name, named_sym.name, escape_str(str_lit),\n                        ));\n                        else_stack.push(format!(\n                            r#\"`error: not a token (pos \\`{}\\`, Action{})`\"#,\n                            i, self.production_idx.0\n                        ));\n                        else_stack.push(format!(\n                            r#\"`error: invalid symbol (pos \\`{}\\`, Action{})`\"#,\n                            i, self.production_idx.0\n                        ));\n                    }\n                    ActionImplParam::Regex(_) => {\n                        cond_stack.push(format!(\n                            r#\"__{} extends {{ kind: \"token\", token: L.Token }}\"#,\n                            named_sym.name\n                        ));\n                        cond_stack.push(format!(\n                            \"__{}['token']['value'] extends infer {} extends string\",\n                            named_sym.name, named_sym.name\n                        ));", "                    ActionImplParam::StrLit(_) | ActionImplParam::Regex(_) => {\n                        let value = match named_sym.param {\n                            ActionImplParam::StrLit(str_lit) => format!(\"'{}'\", escape_str(str_lit)),\n                            _ => \"string\".to_string(),\n                        };\n                        cond_stack.push(format!(\n                            r#\"__{} extends {{ kind: \"token\", token: L.Token }}\"#,\n                            named_sym.name\n                        ));\n                        cond_stack.push(format!(\n                            \"__{}['token']['value'] extends infer {} extends {}\",\n                            named_sym.name, named_sym.name, value\n                        ));")),
    ("v-pg-cond-inline", (PG, "            write_condition(\n                w,\n                |w| {\n                    write!(w, \"U.PopNStackWithValue<symbolStack, {}> extends [infer newStack, infer poppedValues]\", self.pop_amount)\n                },\n                |w| {\n                    // w.write_str(\"symbolStack\")?;\n                    self.popped_values(w, self.call_impl()?, self.action_impl.production_idx)?;\n\n                    Ok(())\n                },\n                |w| write!(w, \"'unreachable: inferring popped values never fails'\"),\n            )?;\n\n            Ok(())", "            write!(w, \"U.PopNStackWithValue<symbolStack, {}> extends [infer newStack, infer poppedValues]\", self.pop_amount)?;\n            w.write_str(\" ? \")?;\n            let call_impl = self.call_impl()?;\n            self.popped_values(w, call_impl, self.action_impl.production_idx)?;\n            w.write_str(\" : 'unreachable: inferring popped values never fails'\")")),
    ("v-pg-popped-own", (PG, "self.popped_values(w, self.call_impl()?, self.action_impl.production_idx)?;", "self.popped_values(w, self.call_impl()?)?;"), (PG, "            call_impl: String,\n            action_idx: ProductionIdx,\n        ) -> std::fmt::Result {\n            write_condition(", "            call_impl: String,\n        ) -> std::fmt::Result {\n            let action_idx = self.action_impl.production_idx;\n            write_condition(")),
    # dfa
    ("v-d-accepting", (D, "        match self.dfa_to_nfa.get(&dfa_state_idx) {\n            Some(nfa_states) => {\n                for nfa_state_idx in nfa_states {\n                    if self.accepting_states.contains(nfa_state_idx) {\n                        return true;\n                    }\n                }\n                false\n            }\n            None => false,\n        }", "        self.dfa_to_nfa\n            .get(&dfa_state_idx)\n            .map_or(false, |nfa_states| !nfa_states.is_disjoint(&self.accepting_states))")),
    ("v-d-accepting2", (D, "        match self.dfa_to_nfa.get(&dfa_state_idx) {\n            Some(nfa_states) => {\n                for nfa_state_idx in nfa_states {\n                    if self.accepting_states.contains(nfa_state_idx) {\n                        return true;\n                    }\n                }\n                false\n            }\n            None => false,\n        }", "        match self.dfa_to_nfa.get(&dfa_state_idx) {\n            Some(nfa_states) => nfa_states.intersection(&self.accepting_states).next().is_some(),\n            None => false,\n        }")),
    ("v-d-accmap", (D, "            for nfa_state_idx in nfa_set\n                .iter()\n                .filter(|idx| self.accepting_states.contains(idx))\n            {\n                match ret.entry(*dfa_state) {\n                    std::collections::btree_map::Entry::Vacant(entry) => {\n                        entry.insert(vec![*nfa_state_idx]);\n                    }\n                    std::collections::btree_map::Entry::Occupied(mut entry) => {\n                        entry.get_mut().push(*nfa_state_idx);\n                    }\n                }\n            }", "            let accepting: Vec<StateIdx> = nfa_set\n                .iter()\n                .copied()\n                .filter(|idx| self.accepting_states.contains(idx))\n                .collect();\n            if !accepting.is_empty() {\n                ret.insert(*dfa_state, accepting);\n            }")),
    ("v-d-from-nfa", (D, "        let alphabet = nfa.labels();\n        let mut ranges = BTreeSet::new();\n        for label in alphabet {\n            ranges.insert(label.clone());\n        }\n        let alphabet = remove_overlap(&ranges);\n", "        let ranges: BTreeSet<Match> = nfa.labels().into_iter().cloned().collect();\n        let alphabet = remove_overlap(&ranges);\n")),
    ("v-d-test", (D, "        match self.simulate(s) {\n            Some(eaten) => eaten == s.chars().count(),\n            _ => false,\n        }", "        self.simulate(s) == Some(s.chars().count())")),
    ("v-d-sim-accept", (D, "        if self.dfa_state_is_accepting(state_idx) {\n            Some(eaten)\n        } else {\n            None\n        }", "        self.dfa_state_is_accepting(state_idx).then_some(eaten)")),
    ("v-d-hash", (D, "        let mut ret = BTreeSet::new();\n        for s in f {\n            ret.insert(s);\n        }\n        ret\n    }\n\n    // This", "        f.into_iter().collect()\n    }\n\n    // This")),
    ("v-d-mark-next", (D, "            let t_idx = match (0..d_states.len()).find(|idx| !marks[*idx]) {\n                Some(idx) => idx,\n                None => break,\n            };", "            let unmarked = (0..d_states.len()).find(|idx| !marks[*idx]);\n            let t_idx = if let Some(idx) = unmarked { idx } else { break };")),
    ("v-d-state-search", (D, "                let idx = match d_states.iter().enumerate().find(|(_, s)| *s == &u) {\n                    Some((i, _)) => i,\n                    None => {", "                let idx = match d_states.iter().position(|s| *s == u) {\n                    Some(i) => i,\n                    None => {")),
    ("v-d-state-helper", (D, "                let idx = match d_states.iter().enumerate().find(|(_, s)| *s == &u) {\n                    Some((i, _)) => i,\n                    None => {", "                let idx = match Self::find_state(&d_states, &u) {\n                    Some(i) => i,\n                    None => {"), (D, "    // This is the algorithm described in chapter", "    fn find_state(d_states: &[BTreeSet<StateIdx>], wanted: &BTreeSet<StateIdx>) -> Option<usize> {\n        for (i, s) in d_states.iter().enumerate() {\n            if s == wanted {\n                return Some(i);\n            }\n        }\n        None\n    }\n\n    // This is the algorithm described in chapter")),
    ("v-d-closure-loop", (D, "                for edge in edge_iter.filter(|edge| edge.label.is_none()) {\n                    let u = edge.to;\n                    if set.insert(u) {\n                        stack.push(u);\n                    }\n                }", "                for edge in edge_iter {\n                    if edge.label.is_some() || !set.insert(edge.to) {\n                        continue;\n                    }\n                    stack.push(edge.to);\n                }")),
    ("v-d-move-flat", (D, "        let mut ret = BTreeSet::new();\n\n        for state in set.iter() {\n            if let Some(edge_iter) = nfa.edge_iter(*state) {\n                for edge in edge_iter {\n                    if edge.label.as_ref().map_or(false, |l| {\n                        l.range.contains(&label.range.start)\n                            && l.range.contains(&(label.range.end - 1))\n                    }) {\n                        ret.insert(edge.to);\n                    }\n                }\n            }\n        }\n\n        ret", "        set.iter()\n            .filter_map(|state| nfa.edge_iter(*state))\n            .flatten()\n            .filter(|edge| match &edge.label {\n                Some(l) => l.range.contains(&label.range.start) && l.range.contains(&(label.range.end - 1)),\n                None => false,\n            })\n            .map(|edge| edge.to)\n            .collect()")),
    ("v-d-overlap-fold", (D, "    disjoint_ranges.retain(|r| !r.range.is_empty());\n\n    disjoint_ranges\n", "    disjoint_ranges\n        .into_iter()\n        .filter(|r: &Match| !r.range.is_empty())\n        .collect()\n")),
    # lex
    ("v-x-white", (LX, "        match c {\n            '\\n' | ' ' => true,\n            _ => false,\n        }", "        c == ' ' || c == '\\n'")),
    ("v-x-white2", (LX, "        match c {\n            '\\n' | ' ' => true,\n            _ => false,\n        }", "        \" \\n\".contains(c)")),
    ("v-x-grammar", (LX, "        let mut tokens = Vec::new();\n\n        for (idx, tok) in grammar.tokens().enumerate() {\n            let token_def_with_regex = match tok.to_token_def_with_regex(TokenIdx(idx as u32)) {\n                Some(t) => t,\n                None => continue,\n            };\n\n            tokens.push(token_def_with_regex);\n        }\n\n        Self::from_tokens(tokens)", "        Self::from_tokens(\n            grammar\n                .tokens()\n                .enumerate()\n                .filter_map(|(idx, tok)| tok.to_token_def_with_regex(TokenIdx(idx as u32)))\n                .collect(),\n        )")),
    ("v-x-tokens-extend", (LX, "            for state in &nfa.states {\n                lex_nfa.states.push(state.clone());\n            }\n            for edges in &nfa.edges {\n                lex_nfa.edges.push(edges.clone());\n            }", "            lex_nfa.states.extend_from_slice(&nfa.states);\n            lex_nfa.edges.extend(nfa.edges.iter().cloned());")),
    ("v-x-convert-loop", (LX, "        tokens\n            .into_iter()\n            .map(|token| self.token_with_idx(token, &def_map))\n            .chain(std::iter::once((Token{ name: \"EOF\".into(), val: None}, Grammar::EOF_TOKEN_IDX)))\n            .collect()", "        let mut ret = Vec::with_capacity(tokens.len() + 1);\n        for token in tokens {\n            ret.push(self.token_with_idx(token, &def_map));\n        }\n        ret.push((Token::new(\"EOF\".into()), Grammar::EOF_TOKEN_IDX));\n        ret")),
    ("v-x-convert-inline", (LX, "            .map(|token| self.token_with_idx(token, &def_map))\n", "            .map(|token| {\n                let def = def_map.get(token.name.as_str()).unwrap();\n                let idx = TokenIdx(def.token_idx.unwrap());\n                (token, idx)\n            })\n")),
    ("v-x-lex-start", (LX, "        let mut state_idx = StateIdx(0);\n\n        let mut lexeme_begin", "        let start = DFA::START_IDX;\n        let mut state_idx = start;\n\n        let mut lexeme_begin"), (LX, "                        state_idx = StateIdx(0);\n", "                        state_idx = start;\n")),
    ("v-x-lex-take", (LX, "                    if let Some((last_accepting_idx, last_accepting_state_idx)) =\n                        last_accepting_state\n                    {", "                    if let Some((last_accepting_idx, last_accepting_state_idx)) =\n                        last_accepting_state.take()\n                    {"), (LX, "                        state_idx = StateIdx(0);\n\n                        last_accepting_state = None;\n", "                        state_idx = StateIdx(0);\n")),
    ("v-x-lex-step", (LX, "            let matching_edge = match (chars.get(forward), self.dfa.edge_iter(state_idx)) {\n                (Some(c), Some(mut edge_iter)) => edge_iter.find(|edge| edge.label.matches(*c)),\n                _ => None,\n            };\n", "            let next_state = self.step(state_idx, chars.get(forward));\n"), (LX, "            match matching_edge {\n                Some(edge) => {\n                    if let Some(nfa_set) = self.accepting_dfa_to_nfa.get(&edge.to) {\n                        last_accepting_state = Some((forward, *nfa_set.first().unwrap()));\n                    }\n                    state_idx = edge.to;\n", "            match next_state {\n                Some(to) => {\n                    if let Some(nfa_set) = self.accepting_dfa_to_nfa.get(&to) {\n                        last_accepting_state = Some((forward, nfa_set[0]));\n                    }\n                    state_idx = to;\n"), (LX, "    pub fn lex(&self, input: &str) -> Vec<Token> {", "    fn step(&self, from: StateIdx, c: Option<&char>) -> Option<StateIdx> {\n        let c = *c?;\n        let mut edges = self.dfa.edge_iter(from)?;\n        edges.find(|edge| edge.label.matches(c)).map(|edge| edge.to)\n    }\n\n    pub fn lex(&self, input: &str) -> Vec<Token> {")),
    ("v-x-make-tok", (LX, "        let ret = match self.tokens.get(&last_accepting_state_idx) {\n            Some(TokenDef {\n                with_val: true,\n                name,\n                ..\n            }) => {\n                // let val = char_vec.iter().collect::<String>();\n                // `start` and `end` count characters, not bytes\n                let val: String = input.chars().skip(start).take(end + 1 - start).collect();\n                Token::new_with_val(name.clone(), val)\n            }\n            Some(TokenDef {\n                with_val: false,\n                name,\n                ..\n            }) => Token::new(name.clone()),\n            None => panic!(),\n        };\n        // char_vec.clear();\n        ret", "        let def = match self.tokens.get(&last_accepting_state_idx) {\n            Some(def) => def,\n            None => panic!(),\n        };\n        if !def.with_val {\n            return def.to_token();\n        }\n        let len = end + 1 - start;\n        let val = input.chars().skip(start).take(len).collect::<String>();\n        Token::new_with_val(def.name.clone(), val)")),
    # nfa
    ("v-n-state", (N, "    fn push_edge(&mut self", "    fn push_state(&mut self) -> StateIdx {\n        let idx = StateIdx(self.states.len());\n        self.states.push(State {\n            first_edge: OptionUsize::none(),\n            is_accept: false,\n        });\n        idx\n    }\n\n    fn push_edge(&mut self"), (N, "        let from = StateIdx(self.states.len());\n        self.states.push(State {\n            first_edge: OptionUsize::none(),\n            is_accept: false,\n        });\n\n        self.push_edge(from, Some(m), accept);", "        let from = self.push_state();\n\n        self.push_edge(from, Some(m), accept);"), (N, "                let f_idx = StateIdx(self.states.len());\n                self.states.push(State {\n                    first_edge: OptionUsize::none(),\n                    is_accept: false,\n                });\n", "                let f_idx = self.push_state();\n"), (N, "                let i_idx = StateIdx(self.states.len());\n                self.states.push(State {\n                    first_edge: OptionUsize::none(),\n                    is_accept: false,\n                });\n", "                let i_idx = self.push_state();\n")),
    ("v-n-start", (N, "        let mut start = HashSet::new();\n        start.insert(Self::START_IDX);\n        self.epsilon_closure(start)", "        self.epsilon_closure(HashSet::from([Self::START_IDX]))")),
    ("v-n-sim-acc", (N, "        let accepting_states = {\n            self.states\n                .iter()\n                .enumerate()\n                .filter_map(|(i, state)| {\n                    if state.is_accept {\n                        Some(StateIdx(i))\n                    } else {\n                        None\n                    }\n                })\n                .collect()\n        };\n\n        Self::has_accepting_states(state_set.iter().copied().collect(), accepting_states)", "        let accepting_states: HashSet<StateIdx> = self.accepting_states().into_iter().collect();\n\n        Self::has_accepting_states(state_set, accepting_states)")),
    ("v-n-move-iter", (N, "            let state = &self.states[state_idx.0];\n            if state.first_edge.is_none() {\n                continue;\n            }\n\n            let mut edge_idx = state.first_edge.unwrap();\n            while edge_idx < self.edges.len() {\n                let edge = &self.edges[edge_idx];\n                edge_idx += 1;\n                if edge.from != state_idx {\n                    break;\n                }\n\n                match &edge.label {\n                    Some(label_match) => {\n                        if label_match.matches(c) {\n                            ret.insert(edge.to);\n                        }\n                    }\n                    _ => (),\n                }\n            }", "            let edges = match self.edge_iter(state_idx) {\n                Some(edges) => edges,\n                None => continue,\n            };\n            for edge in edges {\n                if let Some(label_match) = &edge.label {\n                    if label_match.matches(c) {\n                        ret.insert(edge.to);\n                    }\n                }\n            }")),
    ("v-n-clos-iter", (N, "            let state = &self.states[state_idx.0];\n            if state.first_edge.is_none() {\n                continue;\n            }\n\n            let mut edge_idx = state.first_edge.unwrap();\n            while edge_idx < self.edges.len() {\n                let edge = &self.edges[edge_idx];\n                edge_idx += 1;\n                if edge.from != state_idx {\n                    break;\n                }\n\n                match &edge.label {\n                    None => {\n                        if ret.contains(&edge.to) {\n                            continue;\n                        }\n                        stack.push(edge.to);\n                    }\n                    _ => (),\n                }\n            }", "            if let Some(edges) = self.edge_iter(state_idx) {\n                for edge in edges.filter(|edge| edge.label.is_none()) {\n                    if !ret.contains(&edge.to) {\n                        stack.push(edge.to);\n                    }\n                }\n            }")),
    ("v-n-template", (N, "        let mut state_offset = 1;\n        for (state_len, _) in token_nfa_lengths {\n            this.push_edge(\n                Self::START_IDX,\n                None,\n                StateIdx(Self::START_IDX.0 + state_offset),\n            );\n            state_offset += state_len;\n        }\n", "        let mut next_start = StateIdx(Self::START_IDX.0 + 1);\n        for &(state_len, _) in token_nfa_lengths {\n            this.push_edge(Self::START_IDX, Match::EPSILON, next_start);\n            next_start = StateIdx(next_start.0 + state_len);\n        }\n")),
    ("v-n-labels", (N, "        let mut ret = vec![];\n\n        for (i, _) in self.states.iter().enumerate() {\n            if let Some(edge_iter) = self.edge_iter(StateIdx(i)) {\n                for edge in edge_iter {\n                    if let Some(label) = &edge.label {\n                        ret.push(label)\n                    }\n                }\n            }\n        }\n\n        ret", "        (0..self.states.len())\n            .filter_map(|i| self.edge_iter(StateIdx(i)))\n            .flatten()\n            .filter_map(|edge| edge.label.as_ref())\n            .collect()")),
    ("v-n-intersect", (N, "        !self.range.is_empty()\n            && !r.range.is_empty()\n            && (self.contains_u32(r.range.start) || r.contains_u32(self.range.start))", "        if self.range.is_empty() || r.range.is_empty() {\n            return false;\n        }\n        self.contains_u32(r.range.start) || r.contains_u32(self.range.start)")),
    ("v-n-matches", (N, "        let c = c as u32;\n\n        c >= self.range.start && c < self.range.end", "        self.contains_u32(c as u32)")),
    ("v-n-matches2", (N, "        let c = c as u32;\n\n        c >= self.range.start && c < self.range.end", "        self.range.contains(&(c as u32))")),
    ("v-n-compare", (N, "        match self.range.start.cmp(&other.range.start) {\n            std::cmp::Ordering::Less => std::cmp::Ordering::Less,\n            std::cmp::Ordering::Equal => self.range.end.cmp(&other.range.end),\n            std::cmp::Ordering::Greater => std::cmp::Ordering::Greater,\n        }", "        (self.range.start, self.range.end).cmp(&(other.range.start, other.range.end))")),
    ("v-n-next", (N, "        let edge = self.nfa.edges.get(self.edge_idx)?;\n        if edge.from != self.state {\n            return None;\n        }\n        self.edge_idx += 1;\n\n        Some(edge)", "        match self.nfa.edges.get(self.edge_idx) {\n            Some(edge) if edge.from == self.state => {\n                self.edge_idx += 1;\n                Some(edge)\n            }\n            _ => None,\n        }")),
    ("v-n-edge-iter", (N, "        let edge_idx = self.states[state_idx.0].first_edge.unwrap_or(usize::MAX);\n        if edge_idx == usize::MAX {\n            return None;\n        }\n\n        Some(EdgeIter {\n            nfa: self,\n            state: state_idx,\n            edge_idx,\n        })", "        let first_edge = self.states[state_idx.0].first_edge;\n        if first_edge.is_none() {\n            None\n        } else {\n            Some(EdgeIter {\n                nfa: self,\n                state: state_idx,\n                edge_idx: first_edge.unwrap(),\n            })\n        }")),
]
