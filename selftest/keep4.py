# written-out equality, order and hash that agree with the fields, and other ways to write the notation
A = "src/parser/ast.rs"
P = "src/parser/mod.rs"
I = "src/lalr/item.rs"
N = "src/lex/nfa.rs"
L = "src/lex/lex.rs"
PG = "src/codegen/parse_gen.rs"
G = "src/parser/grammar.lalrpop"
ID = "#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]\npub struct Item(ProductionIdx, u32);"
E = [
    ("keyk-ident", (A, "#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]\npub struct Ident<'ast>(pub &'ast str);", "#[derive(Copy, Clone, Debug, Eq)]\npub struct Ident<'ast>(pub &'ast str);\nimpl<'ast> PartialEq for Ident<'ast> {\n    fn eq(&self, other: &Self) -> bool { self.0 == other.0 }\n}\nimpl<'ast> PartialOrd for Ident<'ast> {\n    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> { Some(self.cmp(other)) }\n}\nimpl<'ast> Ord for Ident<'ast> {\n    fn cmp(&self, other: &Self) -> std::cmp::Ordering { self.0.cmp(other.0) }\n}")),
    ("keyk-item-hash", (I, ID, "#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]\npub struct Item(ProductionIdx, u32);\nimpl Hash for Item {\n    fn hash<H: Hasher>(&self, h: &mut H) { self.0 .0.hash(h); self.1.hash(h) }\n}")),
    ("keyk-item-cmp", (I, ID, "#[derive(Debug, Clone, Copy, Hash)]\npub struct Item(ProductionIdx, u32);\nimpl PartialEq for Item {\n    fn eq(&self, other: &Self) -> bool { self.0 .0 == other.0 .0 && self.1 == other.1 }\n}\nimpl Eq for Item {}\nimpl PartialOrd for Item {\n    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> { Some(self.cmp(other)) }\n}\nimpl Ord for Item {\n    fn cmp(&self, other: &Self) -> std::cmp::Ordering { self.0.cmp(&other.0).then_with(|| self.1.cmp(&other.1)) }\n}")),
    ("keyk-item-tuple", (I, ID, "#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]\npub struct Item(ProductionIdx, u32);\nimpl PartialOrd for Item {\n    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> { Some(self.cmp(other)) }\n}\nimpl Ord for Item {\n    fn cmp(&self, other: &Self) -> std::cmp::Ordering { (self.0, self.1).cmp(&(other.0, other.1)) }\n}")),
    ("keyk-symbol", (P, "#[derive(Debug, PartialEq, PartialOrd, Eq, Ord, Clone, Copy)]\npub enum Symbol<'ast> {", "impl<'ast> PartialEq for Symbol<'ast> {\n    fn eq(&self, other: &Self) -> bool {\n        match (self, other) {\n            (Symbol::StrLit(a), Symbol::StrLit(b)) => a == b,\n            (Symbol::Regex(a), Symbol::Regex(b)) => a == b,\n            (Symbol::NonTerminal(a), Symbol::NonTerminal(b)) => a == b,\n            (Symbol::Epsilon, Symbol::Epsilon) | (Symbol::Eof, Symbol::Eof) => true,\n            _ => false,\n        }\n    }\n}\n#[derive(Debug, PartialOrd, Eq, Ord, Clone, Copy)]\npub enum Symbol<'ast> {")),
    ("keyk-match-eq", (N, "#[derive(Clone, PartialEq, Eq)]\npub struct Match {", "impl PartialEq for Match {\n    fn eq(&self, other: &Self) -> bool { self.range.start == other.range.start && other.range.end == self.range.end }\n}\n#[derive(Clone, Eq)]\npub struct Match {")),
    ("notk-order", (G, "        is_start: false,\n        ts_code: ts_type,\n    },\n    \"export\" \"start\"", "        ts_code: ts_type,\n        is_start: false,\n    },\n    \"export\" \"start\"")),
    ("notk-helper", (G, '<ident: Ident> ":" <ts_type: TsCode> "=" "[" <bodies: Comma<ProductionBody>> "]" => Production {\n        name: ident,\n        bodies,\n        is_start: false', '<ident: Ident> ":" <ts_type: TsCode> "=" <bodies: Bodies> => Production {\n        name: ident,\n        bodies,\n        is_start: false'), (G, "pub ProductionBody:", "Bodies: Vec<ProductionBody<'ast>> = {\n    \"[\" <Comma<ProductionBody>> \"]\",\n}\n\npub ProductionBody:")),
    ("notk-class", (G, 'r"[_A-Za-z][_A-Za-z0-9]*"', 'r"[A-Za-z_][0-9A-Za-z_]*"')),
    ("notk-two-alts", (G, "pub Production: Production<'ast> = {", "pub Production: Production<'ast> = {\n    \"export\" <ident: Ident> \":\" <ts_type: TsCode> \"=\" \"[\" <bodies: Comma<ProductionBody>> \"]\" => Production { name: ident, bodies, is_start: false, ts_code: ts_type },"), (G, '    "export"? <ident', '    <ident')),
    ("notk-program", (G, "    <v:(<Production>)+> => v", "    Production+")),
    ("notk-list", (G, "    <v:(<Production>)+> => v", "    <p: Production> => vec![p],\n    <mut v: Program> <p: Production> => { v.push(p); v },")),
    ("notk-items", (G, "    <input_tokens: NamedSymbol+> \"=>\"", "    <input_tokens: Symbols> \"=>\""), (G, "pub NamedSymbol:", "Symbols: Vec<InputSymbol<'ast>> = {\n    <s: NamedSymbol> => vec![s],\n    <mut v: Symbols> <s: NamedSymbol> => { v.push(s); v },\n}\n\npub NamedSymbol:")),
    ("notk-comma", (G, "match e {\n        None => v,\n        Some(e) => {\n            v.push(e);\n            v\n        }\n    }", "{\n        v.extend(e);\n        v\n    }")),
    ("notk-comma2", (G, "match e {\n        None => v,\n        Some(e) => {\n            v.push(e);\n            v\n        }\n    }", "{\n        if let Some(e) = e { v.push(e); }\n        v\n    }")),
    ("notk-alt-order", (G, "   \"r\" <regex:", "    \"r\" <regex:"), (G, "    <name: Ident> => InputSymbol::NonTerminal(name),\n", ""), (G, "pub Symbol: InputSymbol<'ast> = {", "pub Symbol: InputSymbol<'ast> = {\n    <name: Ident> => InputSymbol::NonTerminal(name),")),
    ("notk-bind", (G, "<name: Ident> => InputSymbol::NonTerminal(name),", "Ident => InputSymbol::NonTerminal(<>),")),
    # the arguments are put together and then not used
    ("args-unused", (PG, "write!(w, \"{}['value'],\", named_sym.name)?;", "write!(w, \"{}['kind'],\", named_sym.name)?;")),
]
