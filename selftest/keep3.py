# edits that keep the behaviour and touch what the rules over the whole program look at
N = "src/lex/nfa.rs"
T = "src/lalr/table.rs"
I = "src/lalr/item.rs"
L = "src/lex/lex.rs"
D = "src/lex/dfa.rs"
P = "src/parser/mod.rs"
S = "src/parser/support.rs"
G = "src/codegen/parse_gen.rs"
X = "src/codegen/lex_gen.rs"
E = [
    ("s-hash-lookup", (T, "    let mut lr_to_lalr: BTreeMap<usize, usize> = BTreeMap::new();", "    let known: std::collections::HashSet<u64> = core_hash_to_index.keys().copied().collect();\n    assert!(known.len() == core_hash_to_index.len());\n    let mut lr_to_lalr: BTreeMap<usize, usize> = BTreeMap::new();")),
    ("s-eprintln", (L, "    pub fn lex(&self, input: &str) -> Vec<Token> {", "    pub fn lex(&self, input: &str) -> Vec<Token> {\n        eprintln!(\"lexing {} bytes\", input.len());")),
    ("s-pop-safe", (N, "        while !stack.is_empty() {\n            // SAFETY:\n            // We loop while the stack is non empty so this will never return None\n            let state_idx = unsafe { stack.pop().unwrap_unchecked() };", "        while let Some(state_idx) = stack.pop() {")),
    ("s-accepting-any", (N, "        final_states\n            .into_iter()\n            .any(|state| accepting_states.contains(&state))", "        !final_states.is_disjoint(&accepting_states)")),
    ("s-accepting-loop", (N, "        final_states\n            .into_iter()\n            .any(|state| accepting_states.contains(&state))", "        for state in final_states.iter() {\n            if accepting_states.contains(state) {\n                return true;\n            }\n        }\n        false")),
    ("s-duration", (L, "    pub fn lex(&self, input: &str) -> Vec<Token> {", "    pub fn lex(&self, input: &str) -> Vec<Token> {\n        const LIMIT: std::time::Duration = std::time::Duration::from_secs(5);\n        let _ = LIMIT;")),
    ("s-static-const", (L, "    pub fn lex(&self, input: &str) -> Vec<Token> {", "    pub fn lex(&self, input: &str) -> Vec<Token> {\n        static SPACES: [char; 2] = [' ', '\\n'];\n        let _ = SPACES.len();")),
    ("s-take-helper", (T, "        let other = unsafe { ManuallyDrop::take(&mut lalr_sets[*i]) };", "        let other = take_set(lalr_sets, *i);"), (T, "fn merge_sets_with_same_core(", "fn take_set(lalr_sets: &mut Vec<ManuallyDrop<ItemSet>>, i: usize) -> ItemSet {\n    // SAFETY: every caller checked the presence vector\n    unsafe { ManuallyDrop::take(&mut lalr_sets[i]) }\n}\n\nfn merge_sets_with_same_core(")),
    ("s-closure-iter", (N, "let mut stack: Vec<StateIdx> = state_set.into_iter().collect();", "let mut stack: Vec<StateIdx> = Vec::new();\n        for state in state_set.iter() {\n            stack.push(*state);\n        }")),
    ("s-sorted-keys", (T, "    for core_hash in core_hash_to_index.keys() {", "    let hashes: Vec<u64> = core_hash_to_index.keys().cloned().collect();\n    for core_hash in &hashes {")),
    ("s-map-fill", (L, "            for accepting_state_idx in nfa.accepting_states() {", "            let set: std::collections::HashSet<StateIdx> = nfa.accepting_states().into_iter().collect();\n            for accepting_state_idx in set {")),
    ("s-hash-count", (T, "    let mut lr_to_lalr: BTreeMap<usize, usize> = BTreeMap::new();", "    let sizes: std::collections::HashMap<u64, usize> = core_hash_to_index.iter().map(|(k, v)| (*k, v.len())).collect();\n    let mut n = 0;\n    for (_, k) in &sizes {\n        n += k;\n    }\n    let _ = n;\n    let mut lr_to_lalr: BTreeMap<usize, usize> = BTreeMap::new();")),
    ("s-closure-dfs", (N, "        while !stack.is_empty() {\n            // SAFETY:\n            // We loop while the stack is non empty so this will never return None\n            let state_idx = unsafe { stack.pop().unwrap_unchecked() };", "        loop {\n            if stack.is_empty() {\n                break;\n            }\n            // SAFETY: checked just above\n            let state_idx = unsafe { stack.pop().unwrap_unchecked() };")),
    ("s-closure-len", (N, "        while !stack.is_empty() {", "        while stack.len() > 0 {")),
]
