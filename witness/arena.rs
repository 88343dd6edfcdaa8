// Programs about the lifetime of what is allocated in the arena. Each case is a function body in two
// versions: FAIL must be rejected by the compiler because of a lifetime, and OK, the same without the
// offending part, must be accepted (otherwise the case says nothing about the current interface).
//
//   case NAME | uses of the interface
//   FAIL ... OK ... end

#case tree-after-drop | parse_grammar
FAIL
pub fn f() { let b = Bump::new(); let p = typelalr::parse_grammar(&b, "x"); drop(b); keep(&p); }
OK
pub fn f() { let b = Bump::new(); let p = typelalr::parse_grammar(&b, "x"); keep(&p); drop(p); drop(b); }
#case tree-returned | parse_grammar
FAIL
pub fn f() -> usize { let p = { let b = Bump::new(); typelalr::parse_grammar(&b, "x") }; p.len() }
OK
pub fn f() -> usize { let b = Bump::new(); let p = { typelalr::parse_grammar(&b, "x") }; p.len() }
#case tree-after-reset | parse_grammar
FAIL
pub fn f() { let mut b = Bump::new(); let p = typelalr::parse_grammar(&b, "x"); b.reset(); keep(&p); }
OK
pub fn f() { let mut b = Bump::new(); let p = typelalr::parse_grammar(&b, "x"); keep(&p); b.reset(); }
#case tree-made-static | parse_grammar
FAIL
pub fn f<'a>(b: &'a Bump) -> Vec<typelalr::parser::ast::Production<'static>> { typelalr::parse_grammar(b, "x") }
OK
pub fn f<'a>(b: &'a Bump) -> Vec<typelalr::parser::ast::Production<'a>> { typelalr::parse_grammar(b, "x") }
#case name-of-production | ast::Production
FAIL
pub fn f() -> usize { let n = { let b = Bump::new(); let p = typelalr::parse_grammar(&b, "x"); p[0].name }; n.0.len() }
OK
pub fn f() -> usize { let b = Bump::new(); let n = { let p = typelalr::parse_grammar(&b, "x"); p[0].name }; n.0.len() }
#case alloc-str | ParserSupport::alloc_str
FAIL
pub fn f() -> usize { let s = { let b = Bump::new(); let u = ParserSupport::new(&b); u.alloc_str("x") }; s.len() }
OK
pub fn f() -> usize { let b = Bump::new(); let s = { let u = ParserSupport::new(&b); u.alloc_str("x") }; s.len() }
#case alloc-quoted-str | ParserSupport::alloc_quoted_str
FAIL
pub fn f() -> usize { let s = { let b = Bump::new(); let u = ParserSupport::new(&b); u.alloc_quoted_str("\"x\"") }; s.len() }
OK
pub fn f() -> usize { let b = Bump::new(); let s = { let u = ParserSupport::new(&b); u.alloc_quoted_str("\"x\"") }; s.len() }
#case alloc-ts-code | ParserSupport::alloc_ts_code
FAIL
pub fn f() -> usize { let s = { let b = Bump::new(); let u = ParserSupport::new(&b); u.alloc_ts_code("(x)") }; s.len() }
OK
pub fn f() -> usize { let b = Bump::new(); let s = { let u = ParserSupport::new(&b); u.alloc_ts_code("(x)") }; s.len() }
#case alloc-regex | ParserSupport::alloc_regex
FAIL
pub fn f() -> usize { let s = { let b = Bump::new(); let u = ParserSupport::new(&b); u.alloc_regex("r\"x\"") }; s.len() }
OK
pub fn f() -> usize { let b = Bump::new(); let s = { let u = ParserSupport::new(&b); u.alloc_regex("r\"x\"") }; s.len() }
#case alloc-value | ParserSupport::alloc
FAIL
pub fn f() -> u32 { let s = { let b = Bump::new(); let u = ParserSupport::new(&b); u.alloc(7u32) }; *s }
OK
pub fn f() -> u32 { let b = Bump::new(); let s = { let u = ParserSupport::new(&b); u.alloc(7u32) }; *s }
#case alloc-shorter-in-longer | ParserSupport::alloc
FAIL
pub fn f<'l>(b: &'l Bump) -> &'l mut &'l str { let t = String::from("x"); let u = ParserSupport::new(b); u.alloc(t.as_str()) }
OK
pub fn f<'l>(b: &'l Bump, t: &'l String) -> &'l mut &'l str { let u = ParserSupport::new(b); u.alloc(t.as_str()) }
#case alloc-twice | ParserSupport::alloc
FAIL
pub fn f() -> u32 { let b = Bump::new(); let u = ParserSupport::new(&b); let s = u.alloc(7u32); let t = &mut *s; *s = 1; *t }
OK
pub fn f() -> u32 { let b = Bump::new(); let u = ParserSupport::new(&b); let s = u.alloc(7u32); let t = u.alloc(8u32); *s = 1; *t }
#case grammar-after-drop | Grammar::grammar_from_ast_productions
FAIL
pub fn f() -> usize { let b = Bump::new(); let p = typelalr::parse_grammar(&b, "x"); let g = Grammar::grammar_from_ast_productions(&b, &p); drop(p); drop(b); g.tokens().count() }
OK
pub fn f() -> usize { let b = Bump::new(); let p = typelalr::parse_grammar(&b, "x"); let g = Grammar::grammar_from_ast_productions(&b, &p); let n = g.tokens().count(); drop(g); drop(p); drop(b); n }
#case grammar-made-static | Grammar
FAIL
pub fn f<'a>(g: Grammar<'a>) -> Grammar<'static> { g }
OK
pub fn f<'a>(g: Grammar<'static>) -> Grammar<'a> { g }
#case symbol-after-drop | Grammar::tokens
FAIL
pub fn f() -> bool { let s = { let b = Bump::new(); let p = typelalr::parse_grammar(&b, "x"); let g = Grammar::grammar_from_ast_productions(&b, &p); let s = g.tokens().next().unwrap().clone(); s }; s.is_terminal() }
OK
pub fn f() -> bool { let b = Bump::new(); let p = typelalr::parse_grammar(&b, "x"); let s = { let g = Grammar::grammar_from_ast_productions(&b, &p); let s = g.tokens().next().unwrap().clone(); s }; s.is_terminal() }
#case symbol-made-static | Symbol
FAIL
pub fn f<'a>(s: Symbol<'a>) -> Symbol<'static> { s }
OK
pub fn f<'a>(s: Symbol<'static>) -> Symbol<'a> { s }
#case production-after-grammar | Grammar::get_production
FAIL
pub fn f<'a>(g: Grammar<'a>) -> bool { let p = g.get_production(ProductionIdx(0)); drop(g); p.is_some() }
OK
pub fn f<'a>(g: Grammar<'a>) -> bool { let p = g.get_production(ProductionIdx(0)); let r = p.is_some(); drop(g); r }
#case token-after-grammar | Grammar::get_token
FAIL
pub fn f<'a>(g: Grammar<'a>) -> bool { let p = g.get_token(TokenIdx(0)); drop(g); p.is_some() }
OK
pub fn f<'a>(g: Grammar<'a>) -> bool { let p = g.get_token(TokenIdx(0)); let r = p.is_some(); drop(g); r }
#case indices-after-grammar | Grammar::get_production_indices_by_name
FAIL
pub fn f<'a>(g: Grammar<'a>, n: Ident<'a>) -> bool { let p = g.get_production_indices_by_name(n); drop(g); p.is_some() }
OK
pub fn f<'a>(g: Grammar<'a>, n: Ident<'a>) -> bool { let p = g.get_production_indices_by_name(n); let r = p.is_some(); drop(g); r }
#case parser-after-drop | Lalr::new
FAIL
pub fn f() -> String { let b = Bump::new(); let p = typelalr::parse_grammar(&b, "x"); let g = Grammar::grammar_from_ast_productions(&b, &p); let l = Lalr::new(g); drop(p); drop(b); l.parse("x") }
OK
pub fn f() -> String { let b = Bump::new(); let p = typelalr::parse_grammar(&b, "x"); let g = Grammar::grammar_from_ast_productions(&b, &p); let l = Lalr::new(g); let r = l.parse("x"); drop(l); drop(p); drop(b); r }
#case lowered-symbol | ast::InputSymbol::lower
FAIL
pub fn f<'a>(s: &InputSymbol<'a>) -> Symbol<'static> { s.lower() }
OK
pub fn f<'a>(s: &InputSymbol<'a>) -> Symbol<'a> { s.lower() }
#case non-terminal-name | Symbol::as_non_terminal
FAIL
pub fn f<'a>(s: &Symbol<'a>) -> Ident<'static> { *s.as_non_terminal().unwrap() }
OK
pub fn f<'a>(s: &Symbol<'a>) -> Ident<'a> { *s.as_non_terminal().unwrap() }
#case edges-after-nfa | NFA::edge_iter
FAIL
pub fn f(n: NFA) -> bool { let e = n.edge_iter(StateIdx(0)); drop(n); e.is_some() }
OK
pub fn f(n: NFA) -> bool { let e = n.edge_iter(StateIdx(0)); let r = e.is_some(); drop(e); drop(n); r }
#case labels-after-nfa | NFA::labels
FAIL
pub fn f(n: NFA) -> usize { let e = n.labels(); drop(n); e.len() }
OK
pub fn f(n: NFA) -> usize { let e = n.labels(); let r = e.len(); drop(e); drop(n); r }
#case edges-after-dfa | DFA::edge_iter
FAIL
pub fn f(n: DFA) -> bool { let e = n.edge_iter(StateIdx(0)); drop(n); e.is_some() }
OK
pub fn f(n: DFA) -> bool { let e = n.edge_iter(StateIdx(0)); let r = e.is_some(); drop(e); drop(n); r }
#case items-with-grammar | Item::dot_token
FAIL
pub fn f<'a>(g: Grammar<'a>, i: Item) -> bool { let s = i.dot_token(&g); drop(g); s.is_some() }
OK
pub fn f<'a>(g: &'a Grammar<'a>, i: Item) -> bool { let s = i.dot_token(g); s.is_some() }
