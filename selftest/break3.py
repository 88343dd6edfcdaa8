# written-out equality, order and hash, and changes to the notation, that break the rules over the whole program
A = "src/parser/ast.rs"
P = "src/parser/mod.rs"
I = "src/lalr/item.rs"
N = "src/lex/nfa.rs"
L = "src/lex/lex.rs"
G = "src/parser/grammar.lalrpop"
ID = "#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]\npub struct Item(ProductionIdx, u32);"
E = [
    ("key-ident-case", (A, "#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]\npub struct Ident<'ast>(pub &'ast str);", "#[derive(Copy, Clone, Debug, Eq, PartialOrd, Ord)]\npub struct Ident<'ast>(pub &'ast str);\nimpl<'ast> PartialEq for Ident<'ast> {\n    fn eq(&self, other: &Self) -> bool { self.0.eq_ignore_ascii_case(other.0) }\n}")),
    ("key-ident-ptr", (A, "#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]\npub struct Ident<'ast>(pub &'ast str);", "#[derive(Copy, Clone, Debug, Eq, PartialOrd, Ord)]\npub struct Ident<'ast>(pub &'ast str);\nimpl<'ast> PartialEq for Ident<'ast> {\n    fn eq(&self, other: &Self) -> bool { std::ptr::eq(self.0, other.0) }\n}")),
    ("key-item-eq-dot", (I, ID, "#[derive(Debug, Clone, Copy, Eq, PartialOrd, Ord, Hash)]\npub struct Item(ProductionIdx, u32);\nimpl PartialEq for Item {\n    fn eq(&self, other: &Self) -> bool { self.0 == other.0 && self.1.min(7) == other.1.min(7) }\n}")),
    ("key-item-cmp", (I, ID, "#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]\npub struct Item(ProductionIdx, u32);\nimpl PartialOrd for Item {\n    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> { Some(self.cmp(other)) }\n}\nimpl Ord for Item {\n    fn cmp(&self, other: &Self) -> std::cmp::Ordering { (self.0 .0 as u16, self.1 as u16).cmp(&(other.0 .0 as u16, other.1 as u16)) }\n}")),
    ("key-item-cmp-prod", (I, ID, "#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]\npub struct Item(ProductionIdx, u32);\nimpl PartialOrd for Item {\n    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> { Some(self.cmp(other)) }\n}\nimpl Ord for Item {\n    fn cmp(&self, other: &Self) -> std::cmp::Ordering { self.1.cmp(&other.1) }\n}")),
    ("key-symbol-eq", (P, "#[derive(Debug, PartialEq, PartialOrd, Eq, Ord, Clone, Copy)]\npub enum Symbol<'ast> {", "impl<'ast> PartialEq for Symbol<'ast> {\n    fn eq(&self, other: &Self) -> bool {\n        match (self, other) {\n            (Symbol::StrLit(a) | Symbol::Regex(a), Symbol::StrLit(b) | Symbol::Regex(b)) => a == b,\n            (Symbol::NonTerminal(a), Symbol::NonTerminal(b)) => a == b,\n            (Symbol::Epsilon, Symbol::Epsilon) | (Symbol::Eof, Symbol::Eof) => true,\n            _ => false,\n        }\n    }\n}\n#[derive(Debug, PartialOrd, Eq, Ord, Clone, Copy)]\npub enum Symbol<'ast> {")),
    ("key-state-hash", (N, "#[derive(Clone, Copy, Debug, PartialEq, PartialOrd, Ord, Eq, Hash)]\npub struct StateIdx(pub usize);", "#[derive(Clone, Copy, Debug, PartialEq, PartialOrd, Ord, Eq)]\npub struct StateIdx(pub usize);\nimpl std::hash::Hash for StateIdx {\n    fn hash<H: std::hash::Hasher>(&self, h: &mut H) { (self as *const StateIdx as usize).hash(h) }\n}")),
    ("key-itemset-eq", (I, "#[derive(Clone, Debug, PartialEq, Eq)]\npub struct ItemSet(", "impl PartialEq for ItemSet {\n    fn eq(&self, other: &Self) -> bool { self.0.keys().eq(other.0.keys()) }\n}\n#[derive(Clone, Debug, Eq)]\npub struct ItemSet(")),
    ("key-match-eq", (N, "#[derive(Clone, PartialEq, Eq)]\npub struct Match {", "impl PartialEq for Match {\n    fn eq(&self, other: &Self) -> bool { self.range.start == other.range.start }\n}\n#[derive(Clone, Eq)]\npub struct Match {")),
    ("not-start-swap", (G, "        is_start: false,", "        is_start: true,")),
    ("not-export", (G, '    "export"? <ident: Ident> ":"', '    "export" <ident: Ident> ":"')),
    ("not-ident-digit", (G, 'r"[_A-Za-z][_A-Za-z0-9]*"', 'r"[_A-Za-z][_A-Za-z]*"')),
    ("not-code-greedy", (G, 'r"\\(.*\\)"', 'r"\\([^\\)]*\\)"')),
    ("not-comma-drop", (G, "        Some(e) => {\n            v.push(e);\n            v\n        }", "        Some(e) => {\n            if v.is_empty() { v.push(e); }\n            v\n        }")),
    ("not-comma-front", (G, "            v.push(e);", "            v.insert(0, e);")),
    ("not-comma-opt", (G, '<mut v:(<T> ",")*> <e:T?> =>', '<mut v:(<T> ",")+> <e:T?> =>')),
    ("not-empty-body", (G, "    <input_tokens: NamedSymbol+> \"=>\"", "    <input_tokens: NamedSymbol*> \"=>\"")),
    ("not-name-none", (G, "        name: Some(name),", "        name: if name.0 == \"_\" { None } else { Some(name) },")),
    ("not-named-nested", (G, '"<" <name: Ident> ":" <ty: Symbol> ">"', '"<" <name: Ident> ":" <ty: NamedSymbol> ">"')),
    ("not-regex-lit", (G, "InputSymbol::Regex(support.alloc_regex(regex))", "InputSymbol::StrLit(support.alloc_regex(regex))")),
    ("not-code-type", (G, "        ts_code: ts_type,\n    },\n    \"export\" \"start\"", "        ts_code: ident.0,\n    },\n    \"export\" \"start\"")),
    ("not-empty-program", (G, "<v:(<Production>)+> => v", "<v:(<Production>)*> => v")),
    ("not-match-order", (G, "grammar<'ast>(support: &mut ParserSupport<'ast>);", "grammar<'ast>(support: &mut ParserSupport<'ast>);\nmatch {\n    r\"[_A-Za-z][_A-Za-z0-9]*\"\n} else {\n    _\n}")),
]
