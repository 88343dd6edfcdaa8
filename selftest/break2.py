# edits that break the rules over the whole program (order, effects, unchecked operations)
N = "src/lex/nfa.rs"
T = "src/lalr/table.rs"
I = "src/lalr/item.rs"
L = "src/lex/lex.rs"
D = "src/lex/dfa.rs"
P = "src/parser/mod.rs"
S = "src/parser/support.rs"
G = "src/codegen/parse_gen.rs"
X = "src/codegen/lex_gen.rs"
E = [
    ("det-merge-hashmap", (T, "IndexMap::<u64, Vec<usize>>::new()", "std::collections::HashMap::<u64, Vec<usize>>::new()")),
    ("det-items-hashset", (I, "let mut temp = Vec::new();", "let mut temp = std::collections::HashSet::new();"), (I, "temp.push(goto_i_x);", "temp.insert(goto_i_x);"), (I, "let item_set = temp.pop().unwrap();", "let item_set = temp.iter().next().cloned().unwrap();\n                temp.remove(&item_set);")),
    ("det-labels", (N, "    pub fn labels(&self) -> Vec<&Match> {", "    pub fn labels(&self) -> Vec<&Match> {\n        if self.states.len() > 40 { let s: std::collections::HashSet<usize> = (0..self.edges.len()).collect(); return s.into_iter().filter_map(|i| self.edges[i].label.as_ref()).collect(); }")),
    ("det-hasher", (I, "let hasher = DefaultHasher::new();\n        self.core_hash_with_hasher(hasher)", "use std::hash::BuildHasher;\n        let hasher = std::collections::hash_map::RandomState::new().build_hasher();\n        self.core_hash_with_hasher(hasher)")),
    ("det-env", (G, "        pub fn generate(&self) -> Result<String, std::fmt::Error> {", "        pub fn generate(&self) -> Result<String, std::fmt::Error> {\n            if std::env::var(\"TYPELALR_EMPTY\").is_ok() { return Ok(String::new()); }")),
    ("det-move-first", (N, "    fn has_accepting_states(\n        final_states: HashSet<StateIdx>,\n        accepting_states: HashSet<StateIdx>,\n    ) -> bool {", "    fn has_accepting_states(\n        final_states: HashSet<StateIdx>,\n        accepting_states: HashSet<StateIdx>,\n    ) -> bool {\n        if final_states.len() > 30 { return final_states.iter().next().map_or(false, |s| accepting_states.contains(s)); }")),
    ("det-merge-union-order", (T, "    for core_hash in core_hash_to_index.keys() {", "    let all: std::collections::HashSet<u64> = core_hash_to_index.keys().copied().collect();\n    for core_hash in all.iter() {")),
    ("det-ptr", (P, "    pub fn get_token_idx(&self, input_token: &Symbol) -> Option<TokenIdx> {", "    pub fn get_token_idx(&self, input_token: &Symbol) -> Option<TokenIdx> {\n        if (input_token as *const Symbol as usize) % 4096 == 4088 { return None; }")),
    ("det-time", (L, "    pub fn lex(&self, input: &str) -> Vec<Token> {", "    pub fn lex(&self, input: &str) -> Vec<Token> {\n        let t0 = std::time::Instant::now();\n        if t0.elapsed().as_secs() > 5 { return vec![]; }")),
    ("eff-write", (X, "pub fn generate(lex: &Lex) -> String {", "pub fn generate(lex: &Lex) -> String {\n    if lex.tokens.len() > 200 { let _ = std::fs::write(\"/dev/null\", \"x\"); }")),
    ("eff-env", (T, "pub fn make_tables<'ast>(", "fn verbose() -> bool { std::env::var_os(\"TYPELALR_VERBOSE\").is_some() }\npub fn make_tables<'ast>("), (T, "    let mut presence_vec = BitVec::from_elem(lr_sets.len(), true);", "    if verbose() { println!(\"merging\"); }\n    let mut presence_vec = BitVec::from_elem(lr_sets.len(), true);")),
    ("eff-static", (L, "    pub fn lex(&self, input: &str) -> Vec<Token> {", "    pub fn lex(&self, input: &str) -> Vec<Token> {\n        static CALLS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n        CALLS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);")),
    ("eff-thread-local", (I, "    pub fn goto<'ast>(&self, x: &Symbol, grammar: &'ast Grammar<'ast>) -> Self {", "    pub fn goto<'ast>(&self, x: &Symbol, grammar: &'ast Grammar<'ast>) -> Self {\n        thread_local!(static N: std::cell::Cell<usize> = std::cell::Cell::new(0));\n        N.with(|n| n.set(n.get() + 1));")),
    ("eff-exit", (T, "    let mut presence_vec = BitVec::from_elem(lr_sets.len(), true);", "    if lr_sets.len() > 100000 { std::process::exit(3); }\n    let mut presence_vec = BitVec::from_elem(lr_sets.len(), true);")),
    ("eff-thread", (D, "    pub fn test(&self, s: &str) -> bool {", "    pub fn test(&self, s: &str) -> bool {\n        std::thread::yield_now();")),
    ("eff-stdin", (L, "    pub fn lex(&self, input: &str) -> Vec<Token> {", "    pub fn lex(&self, input: &str) -> Vec<Token> {\n        if input == \"-\" { let mut s = String::new(); let _ = std::io::stdin().read_line(&mut s); return self.lex(&s); }")),
    ("eff-hook", (D, "    pub fn test(&self, s: &str) -> bool {", "    pub fn test(&self, s: &str) -> bool {\n        std::panic::set_hook(Box::new(|_| {}));")),
    ("uns-closure-loop", (N, "        while !stack.is_empty() {\n            // SAFETY", "        while ret.len() < self.states.len() {\n            // SAFETY")),
    ("uns-parse-pop", (N, "            let state_idx = unsafe { stack.pop().unwrap_unchecked() };", "            let state_idx = unsafe { stack.pop().unwrap_unchecked() };\n            let state_idx = if stack.len() > 90 { unsafe { stack.get(91).copied().unwrap_unchecked() } } else { state_idx };")),
    ("uns-transmute", (S, "    pub fn alloc_str<'a>(&self, s: &'a str) -> &'ast mut str {", "    pub fn alloc_str<'a, 'b>(&self, s: &'a str) -> &'b mut str where 'ast: 'ast {"), (S, "        self.ast.alloc(s.chars().collect::<String>())\n", "        unsafe { std::mem::transmute::<&'ast mut str, &'b mut str>(self.ast.alloc(s.chars().collect::<String>())) }\n")),
    ("uns-index", (D, "    pub fn dfa_state_is_accepting(&self, dfa_state_idx: StateIdx) -> bool {", "    pub fn first_of(&self, dfa_state_idx: StateIdx) -> &State { unsafe { self.states.get_unchecked(dfa_state_idx.0) } }\n    pub fn dfa_state_is_accepting(&self, dfa_state_idx: StateIdx) -> bool {")),
    ("uns-take", (T, "        presence_vec.set(*i, false);\n", "")),
    ("uns-rawptr", (P, "    pub fn get_token(&self, idx: TokenIdx) -> Option<&Symbol> {", "    pub fn get_token_fast(&self, idx: TokenIdx) -> &Production { let p = self.productions.as_ptr(); unsafe { &*p.add(idx.0 as usize) } }\n    pub fn get_token(&self, idx: TokenIdx) -> Option<&Symbol> {")),
    ("uns-leak", (S, "    pub fn alloc_regex<'a>(&self, regex_str_with_quotes: &'a str) -> &'ast mut str {", "    pub fn alloc_regex<'a, 'b>(&self, regex_str_with_quotes: &'a str) -> &'b mut str {\n        return Box::leak(regex_str_with_quotes.chars().skip(2).take(regex_str_with_quotes.chars().count() - 3).collect::<String>().into_boxed_str());\n    }\n    pub fn alloc_regex0<'a>(&self, regex_str_with_quotes: &'a str) -> &'ast mut str {")),
]
