"""Edits that keep the behaviour: functions the other corpora do not reach."""
I, T, L, P, A, O, PG, LG, N, D, LX = ("src/lalr/item.rs", "src/lalr/table.rs", "src/lalr.rs", "src/parser/mod.rs", "src/parser/ast.rs", "src/option_usize.rs",
                                      "src/codegen/parse_gen.rs", "src/codegen/lex_gen.rs", "src/lex/nfa.rs", "src/lex/dfa.rs", "src/lex/lex.rs")
E = [
    ("u-dot-token", (I, "        let production = grammar.get_production(self.production_idx()).unwrap();\n        production.input_tokens.get(self.dot() as usize)", "        let dot = self.dot() as usize;\n        self.production(grammar).input_tokens.get(dot)")),
    ("u-last-token", (I, "        let production = grammar.get_production(self.production_idx()).unwrap();\n        production.input_tokens.last().unwrap()", "        let tokens = &self.production(grammar).input_tokens;\n        &tokens[tokens.len() - 1]")),
    ("u-increment", (I, "    fn increment<'ast>(mut self) -> Self {\n        self.1 += 1;\n        self\n    }", "    fn increment<'ast>(self) -> Self {\n        let Item(production, dot) = self;\n        Item(production, dot + 1)\n    }")),
    ("u-item-debug-last", (I, "                let last = if production.input_tokens.is_empty() {\n                    0\n                } else {\n                    production.input_tokens.len() - 1\n                };\n                for (i, token) in production.input_tokens.iter().enumerate() {\n                    if i == self.dot() as usize {", "                let last = production.input_tokens.len().saturating_sub(1);\n                for (i, token) in production.input_tokens.iter().enumerate() {\n                    if i == self.dot() as usize {")),
    ("u-item-debug-dot", (I, "                for (i, token) in production.input_tokens.iter().enumerate() {\n                    if i == self.dot() as usize {\n                        f.write_str(\"⋅\")?;\n                    }\n                    write!(f, \"{}{}\", token, if last == i { \"\" } else { \" \" })?;\n                }\n                if self.dot() as usize == production.input_tokens.len() {", "                let dot = self.dot() as usize;\n                for (i, token) in production.input_tokens.iter().enumerate() {\n                    if i == dot {\n                        f.write_str(\"⋅\")?;\n                    }\n                    let sep = if last == i { \"\" } else { \" \" };\n                    write!(f, \"{}{}\", token, sep)?;\n                }\n                if dot == production.input_tokens.len() {")),
    ("u-item-debug-let", (I, "        match grammar.get_token(self) {\n            Some(token) => write!(f, \"{:?}\", token),\n            None => write!(f, \"{:?}\", self),\n        }", "        if let Some(token) = grammar.get_token(self) {\n            return write!(f, \"{:?}\", token);\n        }\n        write!(f, \"{:?}\", self)")),
    ("u-core-hash", (I, "        for item in self.0.keys() {\n            item.hash(&mut h);\n        }\n        h.finish()", "        self.0.keys().for_each(|item| item.hash(&mut h));\n        h.finish()")),
    ("u-core-hash2", (I, "        let hasher = DefaultHasher::new();\n        self.core_hash_with_hasher(hasher)", "        self.core_hash_with_hasher(DefaultHasher::new())")),
    ("u-same-core", (I, "        self.0.keys().eq(other.0.keys())", "        self.0.len() == other.0.len() && self.0.keys().zip(other.0.keys()).all(|(a, b)| a == b)")),
    ("u-same-core2", (I, "        self.0.keys().eq(other.0.keys())", "        Iterator::eq(self.0.keys(), other.0.keys())")),
    ("u-union-for", (I, "            lookaheads.extend(other.0.get(item).unwrap());", "            for lookahead in other.0.get(item).unwrap() {\n                lookaheads.insert(*lookahead);\n            }")),
    ("u-initial", (I, "        Self(BTreeMap::from_iter([(\n            augmented_start_item,\n            BTreeSet::from_iter([Grammar::EOF_TOKEN_IDX]),\n        )]))", "        let mut lookaheads = BTreeSet::new();\n        lookaheads.insert(Grammar::EOF_TOKEN_IDX);\n        let mut items = BTreeMap::new();\n        items.insert(augmented_start_item, lookaheads);\n        Self(items)")),
    ("u-items-drain", (I, "            while !temp.is_empty() {\n                let item_set = temp.pop().unwrap();\n                c.insert(item_set);\n            }", "            while let Some(item_set) = temp.pop() {\n                c.insert(item_set);\n            }")),
    ("u-goto-extend", (I, "            for lookahead in lookahead_set.iter() {\n                j.entry(new_item)\n                    .or_insert_with(BTreeSet::new)\n                    .insert(*lookahead);\n            }", "            for &lookahead in lookahead_set {\n                j.entry(new_item).or_default().insert(lookahead);\n            }")),
    ("u-goto-if", (I, "            let input_token = match item.dot_token(grammar) {\n                Some(input_token) => input_token,\n                None => continue,\n            };\n\n            if input_token != x {\n                continue;\n            }\n", "            if item.dot_token(grammar) != Some(x) {\n                continue;\n            }\n")),
    ("u-closure-helper", (I, "                    Entry::Vacant(entry) => {\n                        entry.insert(BTreeSet::from_iter([*token_idx]));\n                        added = true;\n                    }\n                    Entry::Occupied(mut entry) => {\n                        if entry.get_mut().insert(*token_idx) {\n                            added = true;\n                        }\n                    }", "                    Entry::Vacant(entry) => {\n                        entry.insert(BTreeSet::from([*token_idx]));\n                        added = true;\n                    }\n                    Entry::Occupied(mut entry) => added |= entry.get_mut().insert(*token_idx),")),
    ("u-closure-entry", (I, "                match self.0.entry(*item) {\n                    Entry::Vacant(entry) => {\n                        entry.insert(BTreeSet::from_iter([*token_idx]));\n                        added = true;\n                    }\n                    Entry::Occupied(mut entry) => {\n                        if entry.get_mut().insert(*token_idx) {\n                            added = true;\n                        }\n                    }\n                }", "                if self.0.entry(*item).or_insert_with(BTreeSet::new).insert(*token_idx) {\n                    added = true;\n                }"), (I, "    collections::{btree_map::Entry, hash_map::DefaultHasher, BTreeMap, BTreeSet},", "    collections::{hash_map::DefaultHasher, BTreeMap, BTreeSet},")),
    ("u-closure-flag", (I, "            let mut added = false;\n            for (item, token_idx) in to_be_added.iter() {", "            let mut added = false;\n            for (item, token_idx) in &to_be_added {")),
    ("u-closure-drain", (I, "            for (item, token_idx) in to_be_added.iter() {\n                match self.0.entry(*item) {", "            for (item, token_idx) in to_be_added.drain(..).collect::<Vec<_>>().iter() {\n                match self.0.entry(*item) {")),
    ("u-item-hash", (I, "            item.hash(state);\n            for lookahead in lookaheads {\n                lookahead.hash(state);\n            }", "            item.hash(state);\n            lookaheads.iter().for_each(|lookahead| lookahead.hash(state));")),
    ("u-parse-merge", (L, "        let tokens = self.lexer.lex(input);\n        let tokens_with_idx = self.lexer.convert_tokens(tokens);\n\n        self.parse_impl(&tokens_with_idx)", "        let tokens = self.lexer.convert_tokens(self.lexer.lex(input));\n        self.parse_impl(&tokens)")),
    ("u-parse-top", (L, "                    let goto_ta = *self\n                        .goto\n                        .try_index((*stack.last().expect(\"Stack is empty\"), production.name))\n                        .expect(\"Goto is empty\");\n", "                    let top = *stack.last().expect(\"Stack is empty\");\n                    let goto_ta = *self.goto.try_index((top, production.name)).expect(\"Goto is empty\");\n")),
    ("u-parse-pop", (L, "                    let new_len = stack.len() - production.input_tokens.len();\n", "                    let popped = production.input_tokens.len();\n                    let new_len = stack.len() - popped;\n")),
    ("u-parse-copied", (L, "            match self.action.try_index((s, a_idx)) {\n                Some(Action::Shift(new_state_idx)) => {\n                    stack.push(*new_state_idx);\n\n                    println!(\"  shifting {}\", *new_state_idx);", "            match self.action.try_index((s, a_idx)).copied() {\n                Some(Action::Shift(new_state_idx)) => {\n                    stack.push(new_state_idx);\n\n                    println!(\"  shifting {}\", new_state_idx);"), (L, ".get_production(*prod_idx)", ".get_production(prod_idx)")),
    ("u-parse-nocount", (L, "        let mut loop_count = 0;\n", "        let mut loop_count = 0usize;\n")),
    ("u-next-token-get", (L, "            *i += 1;\n            if *i < tokens.len() {\n                *a = &tokens[*i].0;\n                *a_idx = tokens[*i].1;\n            }", "            *i += 1;\n            if let Some((tok, tok_idx)) = tokens.get(*i) {\n                *a = tok;\n                *a_idx = *tok_idx;\n            }")),
    ("u-next-token-early", (L, "            *i += 1;\n            if *i < tokens.len() {\n                *a = &tokens[*i].0;\n                *a_idx = tokens[*i].1;\n            }", "            *i += 1;\n            if *i >= tokens.len() {\n                return;\n            }\n            let (tok, idx) = &tokens[*i];\n            *a = tok;\n            *a_idx = *idx;")),
    ("u-opt-unwrap", (O, "        if self.0.into() == usize::MAX {\n            panic!(\"OptionUsize is none\")\n        }\n        self.0", "        if self.is_none() {\n            panic!(\"OptionUsize is none\");\n        }\n        self.0")),
    ("u-opt-unwrap-or", (O, "        if self.0.into() == usize::MAX {\n            or\n        } else {\n            self.0\n        }", "        match self.is_some() {\n            true => self.0,\n            false => or,\n        }")),
    ("u-opt-none", (O, "        OptionUsize(T::from(usize::MAX))", "        Self::some(T::from(usize::MAX))")),
    ("u-opt-const", (O, "    #[inline]\n    pub fn is_none(&self) -> bool {\n        self.0.into() == usize::MAX\n    }\n\n    #[inline]\n    pub fn is_some(&self) -> bool {\n        self.0.into() != usize::MAX\n    }", "    #[inline]\n    pub fn is_none(&self) -> bool {\n        let raw: usize = self.0.into();\n        raw == usize::MAX\n    }\n\n    #[inline]\n    pub fn is_some(&self) -> bool {\n        !self.is_none()\n    }")),
    ("u-try-index", (T, "        match self.0.get(&(outer_idx as usize)) {\n            Some(inner) => inner.get(&inner_idx),\n            None => None,\n        }", "        let inner = self.0.get(&(outer_idx as usize))?;\n        inner.get(&inner_idx)")),
    ("u-valid", (T, "        self.0.get(&(outer_idx as usize)).map(BTreeMap::keys)", "        let inner = self.0.get(&(outer_idx as usize))?;\n        Some(inner.keys())")),
    ("u-entry", (T, "        self.0\n            .entry(outer_idx as usize)\n            .or_insert_with(BTreeMap::new)\n            .entry(inner_idx)", "        let row = self.0.entry(outer_idx as usize).or_default();\n        row.entry(inner_idx)")),
    ("u-insert", (T, "        match self.entry((outer_idx, inner_idx)) {\n            Entry::Vacant(entry) => {\n                entry.insert(val);\n                None\n            }\n            Entry::Occupied(mut entry) => Some(entry.insert(val)),\n        }", "        self.0\n            .entry(outer_idx as usize)\n            .or_insert_with(BTreeMap::new)\n            .insert(inner_idx, val)")),
    ("u-make-tables", (T, "    let (action, goto) = make_lalr_tables(grammar, &lalr_set, &lr_items, &lr_to_lalr);\n\n    (action, goto, lalr_set)", "    let tables = make_lalr_tables(grammar, &lalr_set, &lr_items, &lr_to_lalr);\n\n    (tables.0, tables.1, lalr_set)")),
    ("u-compute-goto", (T, "        let lr_idx = match lr_sets.get_index_of(&goto_ia) {\n            Some(i) => i,\n            None => {\n                return lalr_sets.iter().position(|set| set.same_core(&goto_ia));\n            }\n        };\n        lr_to_lalr.get(&lr_idx).cloned()", "        match lr_sets.get_index_of(&goto_ia) {\n            Some(lr_idx) => lr_to_lalr.get(&lr_idx).copied(),\n            None => lalr_sets.iter().position(|set| set.same_core(&goto_ia)),\n        }")),
    ("u-compute-goto2", (T, "            None => {\n                return lalr_sets.iter().position(|set| set.same_core(&goto_ia));\n            }", "            None => {\n                for (idx, set) in lalr_sets.iter().enumerate() {\n                    if set.same_core(&goto_ia) {\n                        return Some(idx);\n                    }\n                }\n                return None;\n            }")),
    ("u-lower", (A, "            InputSymbol::Named(NamedSymbol { ty, .. }) => ty.lower(),\n            InputSymbol::NonTerminal(name) => NonTerminal(*name),", "            InputSymbol::Named(named) => named.ty.lower(),\n            &InputSymbol::NonTerminal(name) => NonTerminal(name),")),
    ("u-as-nt", (A, "        match self {\n            InputSymbol::Named(named) => named.ty.as_non_terminal(),\n            InputSymbol::NonTerminal(ident) => Some(ident),\n            _ => None,\n        }", "        if let InputSymbol::NonTerminal(ident) = self {\n            return Some(ident);\n        }\n        if let InputSymbol::Named(named) = self {\n            return named.ty.as_non_terminal();\n        }\n        None")),
    ("u-partial", (A, "        Some(self.compare(other))", "        Some(self.cmp(other))")),
    ("u-display", (A, "            InputSymbol::Named(NamedSymbol { ty, .. }) => f.write_fmt(format_args!(\"{:?}\", ty)),", "            InputSymbol::Named(NamedSymbol { ty, .. }) => write!(f, \"{:?}\", ty),")),
    ("u-gr-entry", (P, "                match production_name_map.entry(ast_prod.name) {\n                    Entry::Vacant(entry) => {\n                        entry.insert(vec![production_idx]);\n                    }\n                    Entry::Occupied(mut entry) => {\n                        entry.get_mut().push(production_idx);\n                    }\n                }", "                production_name_map\n                    .entry(ast_prod.name)\n                    .or_insert_with(Vec::new)\n                    .push(production_idx);"), (P, "use std::collections::{btree_map::Entry, BTreeMap, BTreeSet};", "use std::collections::{BTreeMap, BTreeSet};")),
    ("u-gr-tokens", (P, "        let mut token_set: BTreeSet<Symbol> = BTreeSet::new();\n        for prod in productions.iter() {\n            for input_token in prod.input_tokens.iter() {\n                token_set.insert(*input_token);\n            }\n        }", "        let token_set: BTreeSet<Symbol> = productions\n            .iter()\n            .flat_map(|prod| prod.input_tokens.iter().copied())\n            .collect();"), (P, "        let mut productions = Vec::new();", "        let mut productions: Vec<Production> = Vec::new();")),
    ("u-gr-tokens2", (P, "        let mut tokens = Vec::with_capacity(1 + token_set.len());\n        tokens.push(Symbol::Eof);\n        tokens.extend(token_set);\n", "        let tokens: Vec<Symbol> = std::iter::once(Symbol::Eof).chain(token_set).collect();\n")),
    ("u-gr-start", (P, "        let start_symbol = ast_productions\n            .iter()\n            .find(|prod| prod.is_start)\n            .expect(\"Expect start production.\");", "        let mut start_symbol = None;\n        for prod in ast_productions {\n            if prod.is_start {\n                start_symbol = Some(prod);\n                break;\n            }\n        }\n        let start_symbol = start_symbol.expect(\"Expect start production.\");")),
    ("u-gr-flat", (P, "        for ast_prod in ast_productions {\n            for body in &ast_prod.bodies {\n                let production_idx = ProductionIdx(productions.len() as u32);\n                productions.push(Production::from_ast(ast_prod, body));\n", "        for ast_prod in ast_productions {\n            for body in ast_prod.bodies.iter() {\n                let production = Production::from_ast(ast_prod, body);\n                let production_idx = ProductionIdx(productions.len() as u32);\n                productions.push(production);\n")),
    ("u-gr-nonterm", (P, "        self.tokens.iter().enumerate().filter_map(|(i, tok)| {\n            tok.as_non_terminal()\n                .map(|non_terminal| (TokenIdx(i as u32), non_terminal))\n        })\n    }\n\n    pub fn get_production_indices", "        self.tokens.iter().enumerate().filter_map(|(i, tok)| match tok {\n            Symbol::NonTerminal(name) => Some((TokenIdx(i as u32), name)),\n            _ => None,\n        })\n    }\n\n    pub fn get_production_indices")),
    ("u-gr-getidx", (P, "        self.tokens.iter().enumerate().find_map(|(idx, tok)| {\n            if tok.eq(input_token) {\n                Some(TokenIdx(idx as u32))\n            } else {\n                None\n            }\n        })", "        self.tokens\n            .iter()\n            .position(|tok| tok == input_token)\n            .map(|idx| TokenIdx(idx as u32))")),
    ("u-sym-def", (P, "            Symbol::Epsilon => None,\n            Symbol::Eof => None,\n            Symbol::NonTerminal(_) => None,\n        }\n    }\n\n    pub fn to_token_def_with_regex", "            _ => None,\n        }\n    }\n\n    pub fn to_token_def_with_regex")),
    ("u-sym-def2", (P, "        match self {\n            Symbol::StrLit(str_lit) => Some((\n                TokenDef {\n                    name: str_lit.to_string(),\n                    with_val: true,\n                    token_idx: Some(token_idx),\n                },\n                RegexParser::new().parse(&regex::escape(str_lit)).unwrap(),\n            )),\n            Symbol::Regex(regex) => Some((\n                TokenDef {\n                    name: regex.to_string(),\n                    with_val: true,\n                    token_idx: Some(token_idx),\n                },\n                RegexParser::new().parse(regex).unwrap(),\n            )),\n            Symbol::Epsilon => None,\n            Symbol::Eof => None,\n            Symbol::NonTerminal(_) => None,\n        }", "        let (name, pattern) = match self {\n            Symbol::StrLit(str_lit) => (str_lit.to_string(), regex::escape(str_lit)),\n            Symbol::Regex(regex) => (regex.to_string(), regex.to_string()),\n            Symbol::Epsilon | Symbol::Eof | Symbol::NonTerminal(_) => return None,\n        };\n        Some((\n            TokenDef {\n                name,\n                with_val: true,\n                token_idx: Some(token_idx),\n            },\n            RegexParser::new().parse(&pattern).unwrap(),\n        ))")),
    ("u-sym-term", (P, "        match self {\n            Symbol::Eof | Symbol::Epsilon | Symbol::Regex(_) | Symbol::StrLit(_) => true,\n            Symbol::NonTerminal(_) => false,\n        }", "        self.as_non_terminal().is_none()")),
    ("u-prod-next", (P, "        let next_production_idx = self.production_indices.get(self.idx)?;\n        self.idx += 1;\n\n        self.productions\n            .get(next_production_idx.0 as usize)\n            .map(|production| (*next_production_idx, production))", "        let idx = *self.production_indices.get(self.idx)?;\n        self.idx += 1;\n        let production = self.productions.get(idx.0 as usize)?;\n        Some((idx, production))")),
    ("u-prod-debug", (P, "        let last = if self.0.input_tokens.is_empty() {\n            0\n        } else {\n            self.0.input_tokens.len() - 1\n        };\n        for (i, token) in self.0.input_tokens.iter().enumerate() {\n            write!(f, \"{}{}\", token, if last == i { \"\" } else { \" \" })?;\n        }\n        Ok(())", "        let tokens = &self.0.input_tokens;\n        for (i, token) in tokens.iter().enumerate() {\n            if i + 1 == tokens.len() {\n                write!(f, \"{}\", token)?;\n            } else {\n                write!(f, \"{} \", token)?;\n            }\n        }\n        Ok(())")),
    ("u-pg-validate-enum", (PG, "            let mut i = 0;\n            for sym in &self.action_impl.inputs {\n                i += 1;\n                let named_sym = match sym {", "            for (pos, sym) in self.action_impl.inputs.iter().enumerate() {\n                let i = pos + 1;\n                let named_sym = match sym {")),
    ("u-pg-validate-dup", (PG, "                    ActionImplParam::Regex(_) => {\n                        cond_stack.push(format!(\n                            r#\"__{} extends {{ kind: \"token\", token: L.Token }}\"#,\n                            named_sym.name\n                        ));\n                        cond_stack.push(format!(\n                            \"__{}['token']['value'] extends infer {} extends string\",\n                            named_sym.name, named_sym.name\n                        ));", "                    ActionImplParam::Regex(_) => {\n                        let name = named_sym.name;\n                        cond_stack.push(format!(r#\"__{} extends {{ kind: \"token\", token: L.Token }}\"#, name));\n                        cond_stack.push(format!(\"__{}['token']['value'] extends infer {} extends string\", name, name));")),
    ("u-pg-validate-for", (PG, "            for cond in cond_stack.into_iter() {\n                w.write_str(&cond)?;\n                w.write_str(\" ? \")?;\n            }", "            for cond in &cond_stack {\n                write!(w, \"{} ? \", cond)?;\n            }")),
    ("u-pg-validate-else", (PG, "            for otherwise in else_stack.into_iter().rev() {\n                w.write_str(\" : \")?;\n                w.write_str(&otherwise)?;\n            }", "            while let Some(otherwise) = else_stack.pop() {\n                write!(w, \" : {}\", otherwise)?;\n            }")),
    ("u-pg-from-input", (PG, "                InputSymbol::Epsilon => None,\n                InputSymbol::Eof => None,\n            }\n        }\n    }\n}", "                InputSymbol::Epsilon | InputSymbol::Eof => None,\n            }\n        }\n    }\n}")),
    ("u-pg-from-named", (PG, "                    Some(ActionImplParam::Named(bump.alloc(NamedActionImplParam {\n                        name: name.unwrap(),\n                        param: Self::from_input_symbols(bump, ty)?,\n                    })))", "                    let param = Self::from_input_symbols(bump, ty)?;\n                    let name = name.unwrap();\n                    Some(ActionImplParam::Named(bump.alloc(NamedActionImplParam { name, param })))")),
    ("u-pg-popped", (PG, "                    let mut i = 0;\n                    for sym in &self.action_impl.inputs {\n                        match sym {\n                            ActionImplParam::Named(NamedActionImplParam { name, .. }) => {\n                                write!(w, \"infer __{},\", name.as_ref())?\n                            }\n                            _ => {\n                                write!(w, \"infer var{},\", i)?;\n                                i += 1;\n                            }\n                        }\n                    }\n                    w.write_str(\"]\")?;\n                    Ok(())", "                    let mut unnamed = 0;\n                    for sym in self.action_impl.inputs.iter() {\n                        if let ActionImplParam::Named(named) = sym {\n                            write!(w, \"infer __{},\", named.name)?;\n                            continue;\n                        }\n                        write!(w, \"infer var{},\", unnamed)?;\n                        unnamed += 1;\n                    }\n                    w.write_str(\"]\")")),
    ("u-pg-action-write", (PG, "            write!(\n                w,\n                \"type Action{}<symbolStack extends type_defs.Symbol[]> = \",\n                self.production_idx.0\n            )?;\n", "            w.write_str(\"type Action\")?;\n            write!(w, \"{}\", self.production_idx.0)?;\n            w.write_str(\"<symbolStack extends type_defs.Symbol[]> = \")?;\n")),
    ("u-pg-generate", (PG, "    let ctx = ts::Ctx::new(bump, ast_productions, lalr);\n    let lex_str = lex_gen::generate(&lalr.lexer);\n    Ok((lex_str, ctx.generate()?))", "    let lex_str = lex_gen::generate(&lalr.lexer);\n    let parse_str = ts::Ctx::new(bump, ast_productions, lalr).generate()?;\n    Ok((lex_str, parse_str))")),
]
