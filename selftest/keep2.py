L="src/lex/lex.rs"; D="src/lex/dfa.rs"; N="src/lex/nfa.rs"; I="src/lalr/item.rs"; T="src/lalr/table.rs"; F="src/lalr/first.rs"
P="src/parser/mod.rs"; A="src/parser/ast.rs"; S="src/parser/support.rs"; LA="src/lalr.rs"; LG="src/codegen/lex_gen.rs"; PG="src/codegen/parse_gen.rs"; C="src/codegen.rs"; O="src/option_usize.rs"
E=[
("first-loop", (F,'''    let mut prev_has_epsilon = true;
    for symbol in symbols {
        let _ = first_of_symbol(grammar, &mut set, &mut BTreeSet::new(), symbol);
        prev_has_epsilon = set.remove(&Symbol::Epsilon);
        if !prev_has_epsilon {
            break;
        }
    }

    if prev_has_epsilon {
        set.insert(&Symbol::Epsilon);
    }

    set''','''    for symbol in symbols {
        let mut visited = BTreeSet::new();
        first_of_symbol(grammar, &mut set, &mut visited, symbol);
        if !set.remove(&Symbol::Epsilon) {
            return set;
        }
    }

    set.insert(&Symbol::Epsilon);
    set''')),
("first-sym", (F,'''    let non_terminal = match symbol.as_non_terminal() {
        Some(non_terminal) => non_terminal,
        None => {
            set.insert(symbol);
            return matches!(symbol, Symbol::Epsilon);
        }
    };
''','''    let non_terminal = if let Some(non_terminal) = symbol.as_non_terminal() {
        non_terminal
    } else {
        set.insert(symbol);
        return *symbol == Symbol::Epsilon;
    };
''')),
("first-sym2", (F,'''        'input_token_iter: for input_token in production.input_tokens.iter() {
            if !first_of_symbol(grammar, set, visited, input_token) {
                break 'input_token_iter;
            } else {
                added_epsilon = true;
            }
        }''','''        for input_token in &production.input_tokens {
            let has_epsilon = first_of_symbol(grammar, set, visited, input_token);
            if !has_epsilon {
                break;
            }
            added_epsilon = true;
        }''')),
("first-visited", (F,'''    if !visited.insert(*non_terminal) {
        return false;
    }
''','''    if visited.contains(non_terminal) {
        return false;
    }
    visited.insert(*non_terminal);
''')),
("item-dotname", (I,'''        let this_production: &Production = grammar.get_production(self.production_idx()).unwrap();

        this_production
            .input_tokens
            .get(self.dot() as usize)
            .and_then(|symbol| symbol.as_non_terminal())
            .copied()''','''        match self.dot_token(grammar) {
            Some(symbol) => symbol.as_non_terminal().copied(),
            None => None,
        }''')),
("item-incr", (I,'''    fn increment<'ast>(mut self) -> Self {
        self.1 += 1;
        self
    }''','''    fn increment<'ast>(self) -> Self {
        Item(self.0, self.1 + 1)
    }''')),
("item-closure-entry", (I,'''                match self.0.entry(*item) {
                    Entry::Vacant(entry) => {
                        entry.insert(BTreeSet::from_iter([*token_idx]));
                        added = true;
                    }
                    Entry::Occupied(mut entry) => {
                        if entry.get_mut().insert(*token_idx) {
                            added = true;
                        }
                    }
                }''','''                let lookaheads = self.0.entry(*item).or_insert_with(BTreeSet::new);
                added |= lookaheads.insert(*token_idx);'''),(I,"btree_map::Entry, hash","hash")),
("item-closure-drain", (I,'''            for (item, token_idx) in to_be_added.iter() {
                match self.0.entry(*item) {
                    Entry::Vacant(entry) => {
                        entry.insert(BTreeSet::from_iter([*token_idx]));
                        added = true;
                    }
                    Entry::Occupied(mut entry) => {
                        if entry.get_mut().insert(*token_idx) {
                            added = true;
                        }
                    }
                }
            }
            to_be_added.clear();
''','''            for (item, token_idx) in to_be_added.drain(..) {
                match self.0.entry(item) {
                    Entry::Vacant(entry) => {
                        entry.insert(BTreeSet::from_iter([token_idx]));
                        added = true;
                    }
                    Entry::Occupied(mut entry) => {
                        if entry.get_mut().insert(token_idx) {
                            added = true;
                        }
                    }
                }
            }
''')),
("item-closure-iflet", (I,'''            for (item, lookahead_set) in self.0.iter_mut() {
                let production_name = match item.dot_production_name(grammar) {
                    Some(prod_name) => prod_name,
                    None => continue,
                };
''','''            for (item, lookahead_set) in self.0.iter() {
                let Some(production_name) = item.dot_production_name(grammar) else {
                    continue;
                };
''')),
("item-goto", (I,'''            let input_token = match item.dot_token(grammar) {
                Some(input_token) => input_token,
                None => continue,
            };

            if input_token != x {
                continue;
            }

            let new_item = item.increment();
            for lookahead in lookahead_set.iter() {
                j.entry(new_item)
                    .or_insert_with(BTreeSet::new)
                    .insert(*lookahead);
            }''','''            if item.dot_token(grammar) == Some(x) {
                for lookahead in lookahead_set {
                    j.entry(item.increment())
                        .or_default()
                        .insert(*lookahead);
                }
            }'''),(I,"pub fn goto<'ast>(&self, x: &Symbol,","pub fn goto<'ast>(&self, x: &Symbol<'_>,")),
("item-goto-swap", (I,'''        // Then compute closure over new set
        let mut ret = Self(j);
        ret.closure(grammar);

        ret''','''        let mut advanced = ItemSet(j);
        advanced.closure(grammar);
        advanced''')),
("item-items", (I,'''            while !temp.is_empty() {
                let item_set = temp.pop().unwrap();
                c.insert(item_set);
            }''','''            while let Some(item_set) = temp.pop() {
                c.insert(item_set);
            }''')),
("item-items2", (I,'''                    if !goto_i_x.0.is_empty() && !c.contains(&goto_i_x) {
                        temp.push(goto_i_x);
                    }''','''                    if goto_i_x.0.is_empty() || c.contains(&goto_i_x) {
                        continue;
                    }
                    temp.push(goto_i_x);''')),
("item-initial", (I,'''        Self(BTreeMap::from_iter([(
            augmented_start_item,
            BTreeSet::from_iter([Grammar::EOF_TOKEN_IDX]),
        )]))''','''        let mut lookaheads = BTreeSet::new();
        lookaheads.insert(Grammar::EOF_TOKEN_IDX);
        let mut items = BTreeMap::new();
        items.insert(augmented_start_item, lookaheads);
        Self(items)''')),
("item-union", (I,'''            lookaheads.extend(other.0.get(item).unwrap());''','''            for lookahead in &other.0[item] {
                lookaheads.insert(*lookahead);
            }''')),
("item-corehash", (I,'''        let hasher = DefaultHasher::new();
        self.core_hash_with_hasher(hasher)''','''        self.core_hash_with_hasher(DefaultHasher::default())''')),
("table-tryindex", (T,'''        match self.0.get(&(outer_idx as usize)) {
            Some(inner) => inner.get(&inner_idx),
            None => None,
        }''','''        self.0.get(&(outer_idx as usize))?.get(&inner_idx)''')),
("table-entry", (T,'''        self.0
            .entry(outer_idx as usize)
            .or_insert_with(BTreeMap::new)
            .entry(inner_idx)''','''        let inner = self.0.entry(outer_idx as usize).or_default();
        inner.entry(inner_idx)''')),
("table-insert", (T,'''        match self.entry((outer_idx, inner_idx)) {
            Entry::Vacant(entry) => {
                entry.insert(val);
                None
            }
            Entry::Occupied(mut entry) => Some(entry.insert(val)),
        }''','''        self.0
            .entry(outer_idx as usize)
            .or_insert_with(BTreeMap::new)
            .insert(inner_idx, val)''')),
("table-goto-fn", (T,'''        let goto_ia = item_set.goto(a, grammar);
        let lr_idx = match lr_sets.get_index_of(&goto_ia) {
            Some(i) => i,
            None => {
                return lalr_sets.iter().position(|set| set.same_core(&goto_ia));
            }
        };
        lr_to_lalr.get(&lr_idx).cloned()''','''        let goto_ia = item_set.goto(a, grammar);
        match lr_sets.get_index_of(&goto_ia) {
            Some(lr_idx) => lr_to_lalr.get(&lr_idx).copied(),
            None => lalr_sets.iter().position(|set| set.same_core(&goto_ia)),
        }''')),
("table-shift", (T,'''                    match action.entry((i as u32, token_idx)) {
                        Entry::Vacant(entry) => {
                            entry.insert(shift);
                        }
                        // Several items may have the same terminal after the dot
                        Entry::Occupied(entry) if *entry.get() == shift => (),
                        Entry::Occupied(_) => panic!("Conflict ({}, {:?})", i, token_idx),
                    };''','''                    match action.entry((i as u32, token_idx)) {
                        Entry::Vacant(entry) => {
                            entry.insert(shift);
                        }
                        Entry::Occupied(entry) => {
                            if *entry.get() != shift {
                                panic!("Conflict ({}, {:?})", i, token_idx)
                            }
                        }
                    };''')),
("table-iflet", (T,'''                    let j = match goto_idx {
                        Some(j) => j,
                        None => continue,
                    };

                    let shift''','''                    let Some(j) = goto_idx else { continue };
                    let shift''')),
("table-accept", (T,'''                if *lookahead == Grammar::EOF_TOKEN_IDX
                    && item.production_idx() == Grammar::AUGMENTED_START_PRODUCTION_IDX
                {''','''                let is_start = item.production_idx() == Grammar::AUGMENTED_START_PRODUCTION_IDX;
                let is_end = *lookahead == Grammar::EOF_TOKEN_IDX;
                if is_start && is_end {''')),
("table-goto2", (T,'''            match lr_sets.get_index_of(&goto_ia) {
                Some(j) => {
                    goto.insert(
                        (i as u32, *production_name),
                        *lr_to_lalr.get(&j).expect("LR -> LALR"),
                    );
                }
                None => match lalr_sets.iter().position(|set| set.same_core(&goto_ia)) {
                    Some(j) => {
                        goto.insert((i as u32, *production_name), j);
                    }
                    None => (),
                },
            }''','''            let target = match lr_sets.get_index_of(&goto_ia) {
                Some(j) => Some(*lr_to_lalr.get(&j).expect("LR -> LALR")),
                None => lalr_sets.iter().position(|set| set.same_core(&goto_ia)),
            };
            if let Some(target) = target {
                goto.insert((i as u32, *production_name), target);
            }''')),
("merge-keys", (T,'''    for core_hash in core_hash_to_index.keys() {
        let indices = core_hash_to_index.get(core_hash).unwrap();
''','''    for indices in core_hash_to_index.values() {
''')),
("merge-entry", (T,'''        core_hash_to_index
            .entry(set.core_hash())
            .or_insert_with(Vec::new)
            .push(i);''','''        let core = set.core_hash();
        let indices = core_hash_to_index.entry(core).or_default();
        indices.push(i);''')),
("merge-new-idx", (T,'''        for idx in indices {
            lr_to_lalr.insert(*idx, resulting.len());
        }
''','''        let lalr_idx = resulting.len();
        lr_to_lalr.extend(indices.iter().map(|idx| (*idx, lalr_idx)));
''')),
("merge-skip", (T,'''    for i in indices.iter().skip(1) {''','''    for i in &indices[1..] {''')),
("lalr-next", (LA,'''            *i += 1;
            if *i < tokens.len() {
                *a = &tokens[*i].0;
                *a_idx = tokens[*i].1;
            }''','''            *i += 1;
            if let Some((token, idx)) = tokens.get(*i) {
                *a = token;
                *a_idx = *idx;
            }''')),
("lalr-noprint", (LA,'''            println!("STACK: {:?}", stack);
            println!("S={:?} TOKEN {:?}: {:?} i={}", s, a_idx, a, i);
''','')),
("lalr-trunc", (LA,'''                    let new_len = stack.len() - production.input_tokens.len();
''','''                    let popped = production.input_tokens.len();
                    let new_len = stack.len() - popped;
''')),
("lalr-top", (LA,'''                    let goto_ta = *self
                        .goto
                        .try_index((*stack.last().expect("Stack is empty"), production.name))
                        .expect("Goto is empty");
''','''                    let top = stack[stack.len() - 1];
                    let goto_ta = match self.goto.try_index((top, production.name)) {
                        Some(state) => *state,
                        None => panic!("Goto is empty"),
                    };
''')),
("gr-lower-entry", (P,'''                match production_name_map.entry(ast_prod.name) {
                    Entry::Vacant(entry) => {
                        entry.insert(vec![production_idx]);
                    }
                    Entry::Occupied(mut entry) => {
                        entry.get_mut().push(production_idx);
                    }
                }''','''                production_name_map
                    .entry(ast_prod.name)
                    .or_insert_with(Vec::new)
                    .push(production_idx);'''),(P,"btree_map::Entry, ","")),
("gr-tokens", (P,'''        let mut token_set: BTreeSet<Symbol> = BTreeSet::new();
        for prod in productions.iter() {
            for input_token in prod.input_tokens.iter() {
                token_set.insert(*input_token);
            }
        }
        let mut tokens = Vec::with_capacity(1 + token_set.len());
        tokens.push(Symbol::Eof);
        tokens.extend(token_set);
''','''        let token_set: BTreeSet<Symbol> = productions
            .iter()
            .flat_map(|prod| prod.input_tokens.iter().copied())
            .collect();
        let tokens: Vec<Symbol> = std::iter::once(Symbol::Eof).chain(token_set).collect();
''')),
("gr-tokidx", (P,'''        self.tokens.iter().enumerate().find_map(|(idx, tok)| {
            if tok.eq(input_token) {
                Some(TokenIdx(idx as u32))
            } else {
                None
            }
        })''','''        self.tokens
            .iter()
            .position(|tok| tok == input_token)
            .map(|idx| TokenIdx(idx as u32))''')),
("gr-prod-iter", (P,'''        let next_production_idx = self.production_indices.get(self.idx)?;
        self.idx += 1;

        self.productions
            .get(next_production_idx.0 as usize)
            .map(|production| (*next_production_idx, production))''','''        let production_idx = *self.production_indices.get(self.idx)?;
        self.idx += 1;

        let production = self.productions.get(production_idx.0 as usize)?;
        Some((production_idx, production))''')),
("gr-fromast", (P,'''            input_tokens: prod_body
                .input_tokens
                .iter()
                .map(|sym| sym.lower())
                .collect(),''','''            input_tokens: {
                let mut input_tokens = Vec::with_capacity(prod_body.input_tokens.len());
                for sym in &prod_body.input_tokens {
                    input_tokens.push(sym.lower());
                }
                input_tokens
            },''')),
("gr-isterm", (P,'''        match self {
            Symbol::Eof | Symbol::Epsilon | Symbol::Regex(_) | Symbol::StrLit(_) => true,
            Symbol::NonTerminal(_) => false,
        }''','''        !matches!(self, Symbol::NonTerminal(_))''')),
("gr-isterm2", (P,'''        match self {
            Symbol::Eof | Symbol::Epsilon | Symbol::Regex(_) | Symbol::StrLit(_) => true,
            Symbol::NonTerminal(_) => false,
        }''','''        self.as_non_terminal().is_none()''')),
("gr-tokdef", (P,'''            Symbol::StrLit(str_lit) => Some((
                TokenDef {
                    name: str_lit.to_string(),
                    with_val: true,
                    token_idx: Some(token_idx),
                },
                RegexParser::new().parse(&regex::escape(str_lit)).unwrap(),
            )),
            Symbol::Regex(regex) => Some((
                TokenDef {
                    name: regex.to_string(),
                    with_val: true,
                    token_idx: Some(token_idx),
                },
                RegexParser::new().parse(regex).unwrap(),
            )),
            Symbol::Epsilon => None,
            Symbol::Eof => None,
            Symbol::NonTerminal(_) => None,
        }
    }

    pub fn as_non''','''            Symbol::StrLit(str_lit) => {
                let pattern = regex::escape(str_lit);
                Some((
                    self.to_token_def(TokenIdx(token_idx))?,
                    RegexParser::new().parse(&pattern).unwrap(),
                ))
            }
            Symbol::Regex(regex) => Some((
                self.to_token_def(TokenIdx(token_idx))?,
                RegexParser::new().parse(regex).unwrap(),
            )),
            _ => None,
        }
    }

    pub fn as_non''')),
("ast-cmp", (A,'''                Equal => match (a.name.as_ref(), b.name.as_ref()) {
                    (Some(a), Some(b)) => a.cmp(b),
                    (Some(_), None) => Greater,
                    (None, Some(_)) => Less,
                    (None, None) => Equal,
                },
                val => val,''','''                Equal => a.name.cmp(&b.name),
                val => val,''')),
("ast-term", (A,'''            InputSymbol::Eof
            | InputSymbol::Epsilon
            | InputSymbol::Regex(_)
            | InputSymbol::StrLit(_) => true,
            InputSymbol::Named(named) => named.ty.is_terminal(),
            InputSymbol::NonTerminal(_) => false,''','''            InputSymbol::NonTerminal(_) => false,
            InputSymbol::Named(NamedSymbol { ty, .. }) => ty.is_terminal(),
            _ => true,''')),
("sup-quoted", (S,'''        let mut ret = String::new();
        let mut chars = s.chars().skip(1).take(s.chars().count() - 2);
        while let Some(c) = chars.next() {
            // a backslash stands for the quote or backslash after it
            match c {
                '\\\\' => ret.extend(chars.next()),
                c => ret.push(c),
            }
        }''','''        let len = s.chars().count() - 2;
        let mut chars = s.chars().skip(1).take(len);
        let mut ret = String::with_capacity(len);
        while let Some(c) = chars.next() {
            if c == '\\\\' {
                if let Some(escaped) = chars.next() {
                    ret.push(escaped);
                }
            } else {
                ret.push(c);
            }
        }''')),
("sup-code", (S,'''        self.ast.alloc(
            ts_code_with_paren
                .chars()
                .skip(1)
                .take(ts_code_with_paren.chars().count() - 2)
                .collect::<String>(),
        )''','''        let len = ts_code_with_paren.chars().count();
        let code: String = ts_code_with_paren.chars().skip(1).take(len - 2).collect();
        self.ast.alloc(code)''')),
("sup-str", (S,'''        self.ast.alloc(s.chars().collect::<String>())''','''        self.ast.alloc(s.to_string())''')),
("lg-nice", (LG,'''    if s.is_empty() {
        s.to_string()
    } else {
        s.chars()
            .next()
            .unwrap()
            .to_uppercase()
            .chain(s.chars().skip(1).flat_map(char::to_lowercase))
            .collect()
    }''','''    let mut chars = s.chars();
    match chars.next() {
        None => String::new(),
        Some(c) => c
            .to_uppercase()
            .chain(chars.flat_map(char::to_lowercase))
            .collect(),
    }''')),
("lg-state", (LG,'''            match dfa.edge_iter(state_idx) {
                Some(edge_iter) => {
                    for edge in edge_iter {
                        labels.push((edge.to.value(), edge.label.clone()));
                    }
                }
                None => (),
            }''','''            if let Some(edge_iter) = dfa.edge_iter(state_idx) {
                labels.extend(edge_iter.map(|edge| (edge.to.0, edge.label.clone())));
            }''')),
("lg-tokens", (LG,'''            for (i, (kind, has_value)) in self.tokens.iter() {
                ret.push_str(&format!(
                    r#"type TokenDef{} = {{
                    kind: "{}",
                    hasValue: {}
                }}
                
                "#,
                    i,
                    escape_str(kind),
                    if *has_value { "true" } else { "false" }
                ));
            }''','''            for (i, (kind, has_value)) in &self.tokens {
                let kind = escape_str(kind);
                let def = format!(
                    r#"type TokenDef{i} = {{
                    kind: "{kind}",
                    hasValue: {has_value}
                }}
                
                "#
                );
                ret += &def;
            }''')),
("lg-decl", (LG,'''            for (i, _) in self.tokens.iter() {
                ret.push_str(&format!("  {}: TokenDef{};", *i, *i));
            }''','''            for i in self.tokens.keys() {
                ret.push_str("  ");
                ret.push_str(&i.to_string());
                ret.push_str(": TokenDef");
                ret.push_str(&i.to_string());
                ret.push(';');
            }''')),
("lg-ctx", (LG,'''            let states = lex
                .dfa
                .states
                .iter()
                .enumerate()
                .map(|(idx, _)| State::from_lex_state(&lex.dfa, idx))
                .collect();''','''            let mut states = Vec::with_capacity(lex.dfa.states.len());
            for idx in 0..lex.dfa.states.len() {
                states.push(State::from_lex_state(&lex.dfa, idx));
            }''')),
("lg-arith", (LG,'''    for i in 0..max_nums {
        println!("{}", i);
        buf.push_str(&format!("    {}: {};\\n", i + 1, i));
    }''','''    for i in 1..=max_nums {
        buf.push_str(&format!("    {}: {};\\n", i, i - 1));
    }''')),
("lg-chars", (LG,'''        match char_map.entry(char) {
            Entry::Vacant(entry) => {
                entry.insert(char as u8 as u32);
            }
            Entry::Occupied(_) => (),
        }''','''        char_map.entry(char).or_insert(char as u8 as u32);'''),(LG,"btree_map::Entry, ","")),
("pg-idx", (PG,'''            let actions: Vec<_> = action_impls
                .iter()
                .map(|action_impl| Action {
                    action_impl,
                    pop_amount: action_impl.inputs.len(),
                    production_idx: action_impl.production_idx,
                    production_name: action_impl.name,
                })
                .collect();''','''            let mut actions: Vec<Action<'ast>> = Vec::with_capacity(action_impls.len());
            for action_impl in action_impls.iter() {
                actions.push(Action {
                    action_impl,
                    pop_amount: action_impl.inputs.len(),
                    production_idx: action_impl.production_idx,
                    production_name: action_impl.name,
                });
            }''')),
("pg-act", (PG,'''                    match action {
                        table::Action::Shift(j) => write!(w, "shift: {}", j),
                        table::Action::Reduce(r) => write!(w, "reduce: {}", r.0),
                        table::Action::Accept => w.write_str("accept: true"),
                    }?;''','''                    match action {
                        table::Action::Accept => w.write_str("accept: true")?,
                        table::Action::Reduce(ProductionIdx(r)) => write!(w, "reduce: {}", r)?,
                        table::Action::Shift(j) => write!(w, "shift: {j}")?,
                    }''')),
("pg-kinds", (PG,'''            for (idx, terminal) in self
                .grammar
                .tokens()
                .enumerate()
                .filter(|(_, s)| Symbol::is_terminal(s))
            {
                let name = match terminal {
                    Symbol::StrLit(strlit) => strlit,
                    Symbol::Regex(r) => r,
                    Symbol::NonTerminal(_) => continue,
                    Symbol::Epsilon => continue,
                    Symbol::Eof => "EOF",
                };''','''            for (idx, terminal) in self.grammar.tokens().enumerate() {
                let name = match terminal {
                    Symbol::StrLit(name) | Symbol::Regex(name) => *name,
                    Symbol::Eof => "EOF",
                    Symbol::NonTerminal(_) | Symbol::Epsilon => continue,
                };''')),
("pg-prod", (PG,'''                write!(
                    w,
                    r#"{}: {{ name: "{}", tokens: [{}"#,
                    production_idx, production.name, ""
                )?;''','''                write!(w, "{}: {{ name: \\"{}\\", tokens: [", production_idx, production.name)?;''')),
("pg-symbols", (PG,'''            for sym in &self.symbols {
                write!(w, r#"| {{ kind: "{}", value: actions.{} }}"#, sym, sym)?;
            }''','''            for sym in self.symbols.iter() {
                w.write_str("| { kind: \\"")?;
                w.write_str(sym)?;
                w.write_str("\\", value: actions.")?;
                w.write_str(sym)?;
                w.write_str(" }")?;
            }''')),
("pg-args", (PG,'''            let mut i = 0;

            for sym in &self.action_impl.inputs {
                let named_sym = match sym {
                    ActionImplParam::Named(named) => named,
                    _ => continue,
                };
''','''            let mut i = 0;

            for sym in &self.action_impl.inputs {
                let ActionImplParam::Named(named_sym) = sym else {
                    continue;
                };
''')),
("pg-popped", (PG,'''                        match sym {
                            ActionImplParam::Named(NamedActionImplParam { name, .. }) => {
                                write!(w, "infer __{},", name.as_ref())?
                            }
                            _ => {
                                write!(w, "infer var{},", i)?;
                                i += 1;
                            }
                        }''','''                        if let ActionImplParam::Named(named) = sym {
                            write!(w, "infer __{},", named.name)?;
                        } else {
                            write!(w, "infer var{},", i)?;
                            i += 1;
                        }''')),
("pg-validate", (PG,'''            let mut i = 0;
            for sym in &self.action_impl.inputs {
                i += 1;
                let named_sym = match sym {
                    ActionImplParam::Named(named) => named,
                    _ => continue,
                };

                match named_sym.param {
                    ActionImplParam::NonTerminal(non_terminal) => {
                        cond''','''            for (i, sym) in self.action_impl.inputs.iter().enumerate() {
                let i = i + 1;
                let named_sym = match sym {
                    ActionImplParam::Named(named) => named,
                    _ => continue,
                };

                match named_sym.param {
                    ActionImplParam::NonTerminal(non_terminal) => {
                        cond''')),
("pg-condloop", (PG,'''            for cond in cond_stack.into_iter() {
                w.write_str(&cond)?;
                w.write_str(" ? ")?;
            }''','''            for cond in &cond_stack {
                write!(w, "{} ? ", cond)?;
            }''')),
("pg-else", (PG,'''            for otherwise in else_stack.into_iter().rev() {
                w.write_str(" : ")?;
                w.write_str(&otherwise)?;
            }''','''            while let Some(otherwise) = else_stack.pop() {
                w.write_str(" : ")?;
                w.write_str(&otherwise)?;
            }''')),
("cg-escape", (C,'''        match c {
            '\\\\' => ret.push_str("\\\\\\\\"),
            '"' => ret.push_str("\\\\\\""),
            '\\'' => ret.push_str("\\\\'"),
            '\\n' => ret.push_str("\\\\n"),
            '\\r' => ret.push_str("\\\\r"),
            c => ret.push(c),
        }''','''        match c {
            '\\n' => ret.push_str("\\\\n"),
            '\\r' => ret.push_str("\\\\r"),
            '\\\\' | '"' | '\\'' => {
                ret.push('\\\\');
                ret.push(c);
            }
            _ => ret.push(c),
        }''')),
("ou-unwrapor", (O,'''        if self.0.into() == usize::MAX {
            or
        } else {
            self.0
        }''','''        if self.is_none() {
            return or;
        }
        self.0''')),
("ou-issome", (O,'''        self.0.into() != usize::MAX
''','''        !self.is_none()
''')),
("lib-parse", ("src/lib.rs",'''    let ast_productions = parser.parse(&mut support, grammar_str).unwrap();

    ast_productions
}''','''    match parser.parse(&mut support, grammar_str) {
        Ok(ast_productions) => ast_productions,
        Err(err) => panic!("{:?}", err.to_string()),
    }
}''')),
]
