"""Planted bugs: each written from the text of a property and the code."""
N, D, X = "src/lex/nfa.rs", "src/lex/dfa.rs", "src/lex/lex.rs"
F, I, T, L = "src/lalr/first.rs", "src/lalr/item.rs", "src/lalr/table.rs", "src/lalr.rs"
P, A, SU, G = "src/parser/mod.rs", "src/parser/ast.rs", "src/parser/support.rs", "src/parser/grammar.lalrpop"
CG, LG, PG, O, LB = "src/codegen.rs", "src/codegen/lex_gen.rs", "src/codegen/parse_gen.rs", "src/option_usize.rs", "src/lib.rs"
S = {}


def add(sid, prop, edits, needs, breaks, demo, **k):
    S[sid] = dict(property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **k)


add("c01-byte-class-end", "C01",
    [(N, "Class::Bytes(class) => class\n                        .ranges()\n                        .iter()\n                        .map(|range| Match {\n                            range: range.start() as u32..(range.end() as u32 + 1),",
      "Class::Bytes(class) => class\n                        .ranges()\n                        .iter()\n                        .map(|range| Match {\n                            range: range.start() as u32..(range.end() as u32),")],
    "an expression with a byte class, (?-u)[...]", "the last character of every range of a byte class is no longer matched",
    r'''
    let n = NFA::from_regex(&hir("(?-u)[a-c]x"));
    for (s, r) in [("ax", true), ("bx", true), ("cx", true), ("dx", false)] { assert_eq!(n.simulate(s), r, "{}", s); }
''')
add("c04-empty-pieces", "C04",
    [(D, "disjoint_ranges.retain(|r| !r.range.is_empty());", "disjoint_ranges.retain(|r| r.range.len() > 1 || r.range.start > 32);")],
    "a token with a single control character or blank as its range", "one-character pieces up to the blank are dropped from the alphabet",
    r'''
    let l = Lex::from_tokens(vec![def("tab", "\t+", 1), def("w", "[a-z]+", 2)]);
    assert_eq!(l.lex("ab\t\tc"), vec![tok("w", "ab"), tok("tab", "\t\t"), tok("w", "c")]);
''')
add("c07-resume", "C07",
    [(X, "                        forward = last_accepting_idx + 1;", "                        forward = forward.max(last_accepting_idx + 1);")],
    "a token that was tried further than it could be accepted (backing up by two characters)", "characters read past the end of the accepted token are skipped",
    r'''
    let l = Lex::from_tokens(vec![def("a", "a", 1), def("abc", "abc", 2), def("b", "b", 3)]);
    assert_eq!(l.lex("aba"), vec![tok("a", "a"), tok("b", "b"), tok("a", "a")]);
    assert_eq!(l.lex("ababc"), vec![tok("a", "a"), tok("b", "b"), tok("abc", "abc")]);
''')
add("c07-lexeme-begin", "C07",
    [(X, "                        lexeme_begin = last_accepting_idx + 1;", "                        lexeme_begin = forward;")],
    "a pattern token that follows a token the lexer had to back up from", "the text of the next token starts too late",
    r'''
    let l = Lex::from_tokens(vec![def("num", "[0-9]+", 1), def("frac", "[0-9]+[.][0-9]+", 2), def("dot", "[.]", 3), def("id", "[a-z.]*[a-z]", 4)]);
    assert_eq!(l.lex("12.x"), vec![tok("num", "12"), tok("id", ".x")]);
''')
add("c10-lookahead-fixpoint", "C10",
    [(I, "                        if entry.get_mut().insert(*token_idx) {\n                            added = true;\n                        }", "                        entry.get_mut().insert(*token_idx);")],
    "a lookahead that reaches an item only after its successors were expanded", "lookaheads are not passed on to items already in the set",
    r'''
    let g = "export start S: () = [\n <a: A> => (1)\n]\nexport A: () = [\n <b: B> \"x\" => (1),\n <b: B> \"y\" => (2)\n]\nexport B: () = [\n <c: C> => (1)\n]\nexport C: () = [\n <d: D> => (1),\n <c: C> \"z\" => (1)\n]\nexport D: () = [\n \"d\" => (1)\n]\n";
    for i in ["d x", "d y", "d z x", "d z z y"] { assert!(ok(|| parse(g, i)), "{}", i); }
    let h = "export start Z: () = [\n <s: S> => (1)\n]\nexport S: () = [\n <c: C> \"q\" => (1),\n <s: S> \"p\" => (2)\n]\nexport C: () = [\n <s: A> => (1)\n]\nexport A: () = [\n <c: C> \"m\" => (1),\n \"a\" => (2)\n]\n";
    for i in ["a q", "a m q", "a m m q p p"] { assert!(ok(|| parse(h, i)), "{}", i); }
''')
add("c11-third-set", "C11",
    [(T, "    for i in indices.iter().skip(1) {", "    for i in indices.iter().skip(1).take(1) {")],
    "three or more item sets with the same core", "the lookaheads of the third and later sets of a core are dropped",
    r'''
    let g = "export start S: () = [\n \"1\" <x: A> \"p\" => (1),\n \"2\" <x: A> \"q\" => (2),\n \"3\" <x: A> \"v\" => (3)\n]\nexport A: () = [\n \"x\" \"y\" => (1)\n]\n";
    for i in ["1 x y p", "2 x y q", "3 x y v"] { assert!(ok(|| parse(g, i)), "{}", i); }
''')
add("c12-reduce-reduce", "C12",
    [(T, "                    Entry::Vacant(entry) => entry.insert(Action::Reduce(item.production_idx())),\n                    Entry::Occupied(_) => panic!(\"Conflict ({}, {:?})\", i, lookahead),",
      "                    Entry::Vacant(entry) => entry.insert(Action::Reduce(item.production_idx())),\n                    Entry::Occupied(entry) => entry.into_mut(),")],
    "a grammar with a reduce/reduce conflict", "the conflict is resolved silently in favour of one production",
    r'''
    let g = "export start S: () = [\n <a: A> => (1),\n <b: B> => (2)\n]\nexport A: () = [\n \"x\" => (1)\n]\nexport B: () = [\n \"x\" => (1)\n]\n";
    assert!(!ok(|| parse(g, "x")));
''')
add("c13-token-255", "C13",
    [(L, "            if *i < tokens.len() {\n                *a = &tokens[*i].0;\n                *a_idx = tokens[*i].1;\n            }", "            if (*i as u8) < tokens.len().min(255) as u8 {\n                *a = &tokens[*i].0;\n                *a_idx = tokens[*i].1;\n            }")],
    "more than 255 tokens", "the parser reads the same token again instead of the next one",
    r'''
    let g = "export start S: () = [\n \"x\" => (1),\n <s: S> \"x\" => (2)\n]\n";
    let h = "export start S: () = [\n <p: P> => (1),\n <s: S> <p: P> => (2)\n]\nexport P: () = [\n \"x\" \"y\" => (1)\n]\n";
    assert!(ok(|| parse(g, &"x ".repeat(300))));
    assert!(ok(|| parse(h, &"x y ".repeat(300))));
''')
add("c14-many-alternatives", "C14",
    [(P, "        self.idx += 1;\n\n        self.productions", "        self.idx += 1;\n        if self.idx > 64 {\n            return None;\n        }\n\n        self.productions")],
    "a non-terminal with more than 64 alternatives", "alternatives after the 64th are not seen when the grammar is walked",
    r'''
    let mut g = String::from("export start S: () = [\n <k: K> => (1)\n]\nexport K: () = [\n");
    for i in 0..70 { g += &format!(" \"k{}k\" => (1){}\n", i, if i < 69 { "," } else { "" }); }
    g += "]\n";
    for i in 0..70 { assert!(ok(|| parse(&g, &format!("k{}k", i))), "{}", i); }
''')
add("c14-group-order", "C14",
    [(P, "            .find(|prod| prod.is_start)\n", "            .find(|prod| prod.is_start || prod.bodies.len() > 8)\n")],
    "a non-terminal with more than eight alternatives before the start production", "the wrong non-terminal becomes the start symbol",
    r'''
    let mut g = String::from("export K: () = [\n");
    for i in 0..9 { g += &format!(" \"k{}k\" => (1){}\n", i, if i < 8 { "," } else { "" }); }
    g += "]\nexport start S: () = [\n <k: K> \"end\" => (1)\n]\n";
    for i in 0..9 { assert!(ok(|| parse(&g, &format!("k{}k end", i))), "{}", i); }
''')
add("c14-token-lookup", "C14",
    [(P, "            if tok.eq(input_token) {", "            if tok.is_terminal() == input_token.is_terminal() && tok.to_string() == input_token.to_string() {")],
    "a quoted terminal and a regular expression terminal with the same text", "looking up one of the two symbols gives the other",
    r'''
    let b = Bump::new();
    let a = parse_grammar(&b, "export start S: () = [\n \"ab\" r\"ab\" r\"c\" => (1)\n]\n");
    let g = Grammar::grammar_from_ast_productions(&b, &a);
    for (i, t) in g.tokens().enumerate() { assert_eq!(g.get_token_idx(t).map(|x| x.0), Some(i as u32)); }
''')
add("c20-pop-amount", "C20",
    [(PG, "pop_amount: action_impl.inputs.len(),", "pop_amount: action_impl.inputs.iter().filter(|i| matches!(i, ActionImplParam::Named(_))).count(),")],
    "a production that mixes named and unnamed symbols", "the generated action takes fewer values from the stack than the production has symbols",
    r'''
    let s = gen("export start S: () = [\n <a: \"x\"> \"y\" \"z\" => ({ kind: \"s\", a }),\n \"q\" \"q\" => ({ kind: \"q\" })\n]\n").1;
    let s: String = s.split_whitespace().collect();
    assert!(s.contains("PopNStackWithValue<symbolStack,3>"), "{}", s);
    assert!(s.contains("PopNStackWithValue<symbolStack,2>"), "{}", s);
''')
add("c19-production-tokens", "C19",
    [(PG, "write!(w, \"{},\", idx.0)?;", "write!(w, \"{},\", idx.0 as u8)?;")],
    "a grammar with more than 255 symbols", "production entries refer to the wrong symbols",
    r'''
    let mut g = String::from("export start S: () = [\n");
    for i in 0..300 { g += &format!(" \"k{:03}k\" => (1){}\n", i, if i < 299 { "," } else { "" }); }
    g += "]\n";
    let s = gen(&g).1;
    let s: String = s.split_whitespace().collect();
    let i = s.find("typeProductions={").unwrap();
    let j = s[i..].find("typeAction=").unwrap() + i;
    for k in 1..=300 { assert!(s[i..j].contains(&format!("[{},]", k)) || s[i..j].contains(&format!("[{}]", k)), "{}", k); }
''')
add("c15-single-char-regex", "C15",
    [(SU, "if regex_str_with_quotes.len() < 3 {", "if regex_str_with_quotes.len() < 4 {")],
    "a regular expression of a single character", "the expression is refused or lost",
    r'''
    let b = Bump::new();
    let g = "export start S: () = [\n r\"a\" r\"ab\" r\".\" => (1)\n]\n";
    assert!(ok(|| {
        let b = Bump::new();
        let a = parse_grammar(&b, g);
        let v: Vec<String> = a[0].bodies[0].input_tokens.iter().map(|t| format!("{:?}", t)).collect();
        assert!(v[0].contains("\"a\"") && v[1].contains("\"ab\"") && v[2].contains("\".\""), "{:?}", v);
    }));
''')
add("c06-stop", "C06",
    [(D, "                    None => break,\n                }\n            }\n        }", "                    None => return None,\n                }\n            }\n        }")],
    "input that goes on after an accepted prefix", "the run reports no match although it stopped in an accepting state",
    r'''
    let d = DFA::from_nfa(NFA::from_regex(&hir("ab*")));
    assert_eq!(d.simulate("abbc"), Some(3));
    assert_eq!(d.simulate("abb"), Some(3));
    assert_eq!(d.simulate("c"), None);
''')
add("c25-invalid-accepted", "C25",
    [(L, "                None => panic!(\n                    \"Invalid token: {:?}\\nValid: {:?}\",", "                None if stack.len() > 100 => break,\n                None => panic!(\n                    \"Invalid token: {:?}\\nValid: {:?}\",")],
    "an invalid token when the stack is deep", "the input is accepted although it is not a sentence",
    r'''
    let g = "export start S: () = [\n \"x\" => (1),\n \"(\" <s: S> \")\" => (2)\n]\n";
    let n = 120;
    assert!(ok(|| parse(g, &format!("{}x{}", "( ".repeat(n), " )".repeat(n)))));
    assert!(!ok(|| parse(g, &format!("{}x x{}", "( ".repeat(n), " )".repeat(n)))));
''')

TSDEMO = r"""#!/bin/bash
# exit 0: the type checker computes what it should; non-zero: it does not
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
cp "$repo"/ts/util.ts "$repo"/ts/lex.ts "$repo"/ts/parse.ts "$here"/*.gen.ts "$w"/
cp "$here"/t.ts "$w"/t.ts
{ echo "export type SuccTable = {"; for i in $(seq 0 1200); do echo "$i: $((i+1));"; done; echo "}"; echo "export type PredTable = {"; for i in $(seq 1 1200); do echo "$i: $((i-1));"; done; echo "}"; } > "$w/arith_table.gen.ts"
{ echo "export type Characters = {"; for c in a b c d e f g x y z; do echo "$(printf %d "'$c"): \"$c\","; done; echo '32: " ", 10: "\n" }'; echo "export type CharTable = {"; for c in a b c d e f g x y z; do echo "\"$c\": $(printf %d "'$c"),"; done; echo '" ": 32, "\n": 10 }'; } > "$w/chars.ts"
echo 'export type TParse<T extends L.Token[]> = Parse<T>;' >> "$w/parse.ts"
cd "$w" || exit 3
timeout 250 /opt/veriftools/node/node_modules/.bin/tsc --noEmit --strict --target es2020 --noErrorTruncation t.ts > out 2>&1
grep '^t\.ts' out && exit 1
grep -q 'Cannot find module' out && exit 3
exit 0
"""
THEAD = """type Same<A, B> = (<T>() => T extends A ? 1 : 2) extends (<T>() => T extends B ? 1 : 2) ? true : false;
"""
# tokens: "a", "abcd", [b-c]+ with its text, "d"
LEXGEN = """type TokenDef1 = { kind: "a", hasValue: false }
type TokenDef2 = { kind: "abcd", hasValue: false }
type TokenDef3 = { kind: "w", hasValue: true }
type TokenDef4 = { kind: "d", hasValue: false }
export type Tokens = { 1: TokenDef1; 2: TokenDef2; 3: TokenDef3; 4: TokenDef4; }
type State0 = { to: [1,5,6], labels: [{ from: 97, to: 98 },{ from: 98, to: 100 },{ from: 100, to: 101 }], accepting: false }
type State1 = { to: [2], labels: [{ from: 98, to: 99 }], accepting: true }
type State2 = { to: [3], labels: [{ from: 99, to: 100 }], accepting: false }
type State3 = { to: [4], labels: [{ from: 100, to: 101 }], accepting: false }
type State4 = { to: [], labels: [], accepting: true }
type State5 = { to: [5], labels: [{ from: 98, to: 100 }], accepting: true }
type State6 = { to: [], labels: [], accepting: true }
export type States = [State0, State1, State2, State3, State4, State5, State6];
export type DFAtoNFA = { 0: [ 0 ], 1: [ 1, 7 ], 2: [ 8 ], 3: [ 9 ], 4: [ 2 ], 5: [ 3 ], 6: [ 4 ], }
"""
# tokens: "ef" (tried further as "ef" x "y"), "x", [b-c]+, "a"
LEXGEN2 = """type TokenDef1 = { kind: "ef", hasValue: true }
type TokenDef2 = { kind: "x", hasValue: false }
type TokenDef3 = { kind: "w", hasValue: true }
type TokenDef4 = { kind: "a", hasValue: false }
export type Tokens = { 1: TokenDef1; 2: TokenDef2; 3: TokenDef3; 4: TokenDef4; }
type State0 = { to: [1,6,5,7], labels: [{ from: 101, to: 102 },{ from: 120, to: 121 },{ from: 98, to: 100 },{ from: 97, to: 98 }], accepting: false }
type State1 = { to: [2], labels: [{ from: 102, to: 103 }], accepting: false }
type State2 = { to: [3], labels: [{ from: 120, to: 121 }], accepting: true }
type State3 = { to: [2], labels: [{ from: 121, to: 122 }], accepting: false }
type State4 = { to: [], labels: [], accepting: false }
type State5 = { to: [5], labels: [{ from: 98, to: 100 }], accepting: true }
type State6 = { to: [], labels: [], accepting: true }
type State7 = { to: [], labels: [], accepting: true }
export type States = [State0, State1, State2, State3, State4, State5, State6, State7];
export type DFAtoNFA = { 0: [ 0 ], 1: [ 11 ], 2: [ 1 ], 3: [ 12 ], 4: [ 13 ], 5: [ 3 ], 6: [ 2 ], 7: [ 4 ], }
"""


def ts(sid, prop, edits, needs, breaks, body, lex=LEXGEN):
    add(sid, prop, edits, needs, breaks, None, demo_sh=TSDEMO,
        files={"t.ts": THEAD + body.strip("\n") + "\n", "lex_state.gen.ts": lex, "parse_state2.gen.ts": open("/repo/ts/parse_state2.gen.ts").read()})


RES = "                ...tokens\n              ],\n              U.Succ<lastAcceptingState[0]>,\n              U.Succ<lastAcceptingState[0]>,\n              charBuf,"
ts("c22-resume", "C22", [("ts/lex.ts", RES, RES.replace("U.Succ<lastAcceptingState[0]>,\n              charBuf", "forward,\n              charBuf"))],
   "a token the lexer had to back up from by more than one character", "the characters read past the end of the accepted token are skipped",
   """
import { Lex } from "./lex";
export const a: Same<Lex<"a bc d">, [{ kind: "a" }, { kind: "w"; value: "bc" }, { kind: "d" }, { kind: "EOF" }]> = true;
export const b: Same<Lex<"abcbd">, [{ kind: "a" }, { kind: "w"; value: "bcb" }, { kind: "d" }, { kind: "EOF" }]> = true;
export const c: Same<Lex<"abcd">, [{ kind: "abcd" }, { kind: "EOF" }]> = true;
export const d: Same<Lex<"abca">, [{ kind: "a" }, { kind: "w"; value: "bc" }, { kind: "a" }, { kind: "EOF" }]> = true;
""")
TXT = "                TokenDefToToken<\n                  lastAcceptingState[1],\n                  inputStr,\n                  lexemeBegin,\n                  lastAcceptingState[0]\n                >,\n"
ts("c22-token-text", "C22", [("ts/lex.ts", TXT + RES, TXT.replace("lastAcceptingState[0]", "U.Pred<forward>") + RES)],
   "a pattern token that is tried further than it can be accepted", "the text of the token includes characters that belong to the next one",
   """
import { Lex } from "./lex";
export const a: Same<Lex<"bcb a">, [{ kind: "w"; value: "bcb" }, { kind: "a" }, { kind: "EOF" }]> = true;
export const b: Same<Lex<"efxa">, [{ kind: "ef"; value: "ef" }, { kind: "x" }, { kind: "a" }, { kind: "EOF" }]> = true;
""", LEXGEN2)
ts("c23-budget", "C23", [("ts/parse.ts", "        { kind: \"token\"; token: tokenInputs[i]; lmao: newStateIdx },\n        ...symbolStack\n      ],\n      U.Pred<maxRecursionDepth>", "        { kind: \"token\"; token: tokenInputs[i]; lmao: newStateIdx },\n        ...symbolStack\n      ],\n      maxRecursionDepth")],
   "an input with more shifts than the step budget", "shifting a token no longer uses up the step budget",
   """
import { TParse } from "./parse";
type P = { kind: "(" };
type P5 = [P, P, P, P, P, P, P, P, P, P];
export const a: Same<TParse<[...P5, ...P5, ...P5, ...P5, ...P5, ...P5, { kind: "EOF" }]>, "exceeded max recursion depth"> = true;
""")
ts("c23-last-token", "C23", [("ts/parse.ts", "U.Lt<iPlusOne, input[\"length\"]> extends true", "U.Lt<U.Succ<iPlusOne>, input[\"length\"]> extends true")],
   "the token before the end of input is shifted", "the parser never moves on to the end of input, and reads the last token again",
   """
import { TParse } from "./parse";
type R = TParse<[{ kind: "(" }, { kind: "add" }, { kind: ")" }]>;
export const a: R extends ["error state=7 a=2", ...any] ? true : false = true;
""")
ts("c28-lte", "C28", [("ts/util.ts", "export type Lte<A extends B, B extends number> = A extends B\n  ? true", "export type Lte<A extends B, B extends number> = A extends B\n  ? Negate<Eq<B, A>>")],
   "equal arguments", "a number is no longer less than or equal to itself",
   """
import * as U from "./util";
export const a: [U.Lte<3, 3>, U.Lte<0, 0>] = [true, true];
""")
ts("c28-pred", "C28", [("ts/util.ts", "export type Pred<T> = T extends 0\n  ? 0\n  : T extends keyof PredTable", "export type Pred<T> = T extends keyof PredTable")],
   "the predecessor of zero", "there is no predecessor of zero any more",
   """
import * as U from "./util";
export const a: Same<[U.Pred<0>, U.Pred<1>, U.Pred<7>], [0, 0, 6]> = true;
""")
ts("c28-substring", "C28", [("ts/util.ts", "? SubstringImpl<rest, start, Pred<end>, Succ<iStart>>", "? SubstringImpl<rest, start, iStart extends 2 ? end : Pred<end>, Succ<iStart>>")],
   "a substring that starts after the third character", "it is one character too long",
   """
import * as U from "./util";
export const a: Same<[U.Substring<"abcdefg", 0, 2>, U.Substring<"abcdefg", 2, 4>, U.Substring<"abcdefg", 3, 5>, U.Substring<"abcdefg", 4, 6>], ["ab", "cd", "de", "ef"]> = true;
""")
add("c02-edge-count", "C02",
    [(X, "edge_offset += nfa.edges.len();", "edge_offset += nfa.edges.len() as u8 as usize;")],
    "a token with more than 255 edges before another one", "states of later tokens refer to edges of the large one",
    r"""
    let l = Lex::from_tokens(vec![def("big", "\\pL+", 1), def("num", "[0-9]+", 2), def("s", "!|[?]", 3)]);
    assert_eq!(l.lex("abc 12!"), vec![tok("big", "abc"), tok("num", "12"), tok("s", "!")]);
""")
add("c03-astral", "C03",
    [(N, "    pub fn matches(&self, c: char) -> bool {\n        let c = c as u32;", "    pub fn matches(&self, c: char) -> bool {\n        let c = c as u16 as u32;")],
    "a character beyond the basic plane", "the automaton takes the character for the one with its low sixteen bits",
    r"""
    let n = NFA::from_regex(&hir("[a-z]+x"));
    assert!(n.simulate("abx"));
    assert!(!n.simulate("\u{10061}x"));
    assert!(NFA::from_regex(&hir("\u{1F600}y")).simulate("\u{1F600}y"));
""")
add("c05-same-ends", "C05",
    [(D, "find(|(_, s)| *s == &u)", "find(|(_, s)| s.len() == u.len() && s.iter().next() == u.iter().next() && s.iter().next_back() == u.iter().next_back())")],
    "two reachable sets of the same size with the same least and greatest state", "two different sets share one state",
    r"""
    for r in ["a(b|c)d|a(b|e)f|ag", "(ab|ac|ad)(x|y)?|a[b-d]z", "x(a|b)*c|x(a|d)*e|x(b|d)*f", "(a|b)*a(a|b)(a|b)c", "(a|b|c)*(ab|bc|ca)(a|b)", "((a|b)c|(b|c)a|(c|a)b)*d", "(a|ba|bca)*c(a|b|cb)*", "(a|ab)(c|bcd)(d*)|abcd(x|y)*"] {
        let n = NFA::from_regex(&hir(r));
        let d = DFA::from_nfa(NFA::from_regex(&hir(r)));
        let mut all = vec![String::new()];
        let mut from = 0;
        for _ in 0..5 {
            let to = all.len();
            for i in from..to { for c in "abcdxy".chars() { let s = format!("{}{}", all[i], c); all.push(s); } }
            from = to;
        }
        for s in &all { if !s.is_empty() { assert_eq!(d.test(s), n.simulate(s), "{} {}", r, s); } }
    }
""")
add("c08-eof", "C08",
    [(X, "            .chain(std::iter::once((Token{ name: \"EOF\".into(), val: None}, Grammar::EOF_TOKEN_IDX)))", "            .chain(std::iter::once((Token{ name: \"EOF\".into(), val: None}, Grammar::EOF_TOKEN_IDX)).filter(|_| !def_map.contains_key(\"end\")))")],
    "a grammar with a terminal called end", "the converted list has no end of input",
    r'''
    let g = "export start S: () = [\n \"begin\" \"x\" \"end\" => (1)\n]\n";
    let b = Bump::new();
    let a = parse_grammar(&b, g);
    let g = Grammar::grammar_from_ast_productions(&b, &a);
    let l = Lex::from_grammar(&g);
    let v = l.convert_tokens(l.lex("begin x end"));
    assert_eq!(v.len(), 4);
    assert!(v[3].1 == Grammar::EOF_TOKEN_IDX);
''')
add("c09-left-recursion", "C09",
    [(F, "for input_token in production.input_tokens.iter() {", "for input_token in production.input_tokens.iter().skip_while(|t| *t == symbol) {")],
    "a left recursive non-terminal", "FIRST also holds the terminals after the left recursive occurrence",
    r'''
    let g = "export start S: () = [\n <e: E> => (1)\n]\nexport E: () = [\n <e: E> \"+\" \"n\" => (1),\n \"n\" => (2)\n]\n";
    let b = Bump::new();
    let a = parse_grammar(&b, g);
    let g = Grammar::grammar_from_ast_productions(&b, &a);
    let e: Vec<_> = g.tokens().filter(|t| t.as_non_terminal().map_or(false, |n| n.0 == "E")).collect();
    let f: Vec<String> = first::first(&g, e.into_iter()).iter().map(|s| s.to_string()).collect();
    assert_eq!(f, vec!["n".to_string()]);
''')
add("c15-zero", "C15",
    [(G, 'r"[_A-Za-z][_A-Za-z0-9]*"', 'r"[_A-Za-z][_A-Za-z1-9]*"')],
    "a name with the digit 0 in it", "the name is refused",
    r'''
    assert!(ok(|| parse("export start S: () = [\n <a1: A1> => (1)\n]\nexport A1: () = [\n \"x\" => (1)\n]\n", "x")));
    assert!(ok(|| parse("export start S: () = [\n <a1: A10> => (1)\n]\nexport A10: () = [\n \"x\" => (1)\n]\n", "x")));
''')
add("c15-code", "C15",
    [(SU, "                .take(ts_code_with_paren.chars().count() - 2)\n                .collect::<String>(),", "                .take(ts_code_with_paren.chars().count() - 2)\n                .collect::<String>()\n                .trim_end_matches(')')\n                .to_owned(),")],
    "action code that ends with a parenthesis of its own", "the closing parenthesis is lost",
    r'''
    let b = Bump::new();
    let a = parse_grammar(&b, "export start S: (Array<(number)>) = [\n \"x\" => (f(1))\n]\n");
    assert_eq!(a[0].bodies[0].mapping_fn, "f(1)");
    let b = Bump::new();
    let a = parse_grammar(&b, "export start S: (() => (number)) = [\n \"x\" => (1)\n]\n");
    assert_eq!(a[0].ts_code, "() => (number)");
''')
add("c16-unnamed", "C16",
    [(A, "                    (None, Some(_)) => Less,", "                    (None, Some(_)) => Equal,")],
    "a named and an unnamed symbol of the same type", "two different symbols compare equal in one direction and not in the other",
    r'''
    let x = ast::InputSymbol::StrLit("x");
    let n = ast::NamedSymbol { name: None, ty: &x };
    let m = ast::NamedSymbol { name: Some(ast::Ident("a")), ty: &x };
    let (n, m) = (ast::InputSymbol::Named(&n), ast::InputSymbol::Named(&m));
    assert_eq!(n.cmp(&m), m.cmp(&n).reverse());
    assert_eq!(n.cmp(&m) == std::cmp::Ordering::Equal, n == m);
''')
add("c16-display", "C16",
    [(P, "Symbol::Regex(regex) => f.write_str(regex),", "Symbol::Regex(regex) => f.write_str(regex.trim()),")],
    "a regular expression that begins or ends with a blank", "the blank is lost when the symbol is printed",
    r'''
    let b = Bump::new();
    let a = parse_grammar(&b, "export start S: () = [\n r\"a \" r\"a\" => (1)\n]\n");
    let g = Grammar::grammar_from_ast_productions(&b, &a);
    let v: std::collections::BTreeSet<String> = g.tokens().map(|t| t.to_string()).collect();
    assert_eq!(v.len(), g.tokens().count());
    assert!(v.contains("a "));
''')
add("c17-shadowed", "C17",
    [(LG, "lex.accepting_dfa_to_nfa.get(&StateIdx(idx))?.contains(k)", "lex.accepting_dfa_to_nfa.get(&StateIdx(idx))?.iter().next() == Some(k)")],
    "a token whose every text is also a text of an earlier token", "the generated module has no definition of the token",
    r"""
    let l = Lex::from_tokens(vec![def("id", "[a-z]+", 1), def("let", "let", 2), def("n", "[0-9]", 3)]);
    let s = codegen::lex_gen::generate(&l);
    for k in ["id", "let", "n"] { assert!(s.contains(&format!("kind: \"{}\"", k)), "{} {}", k, s); }
""")
add("c17-state-number", "C17",
    [(LG, "                    .map(|(i, _)| i.to_string())", "                    .map(|(i, _)| (*i as u8).to_string())")],
    "an automaton with more than 256 states", "transitions to later states lead to the wrong ones",
    r"""
    let l = Lex::from_tokens(vec![def("long", &"abcdefghij".repeat(40), 1)]);
    let s = codegen::lex_gen::generate(&l);
    let s: String = s.split_whitespace().collect();
    for i in 0..400 { assert!(s.contains(&format!("typeState{}={{to:[{}]", i, i + 1)), "{}", i); }
""")
add("c18-wide", "C18",
    [(LG, "buf.push_str(&format!(\"    {}: {};\\n\", i, i + 1));", "buf.push_str(&format!(\"    {}: {};\\n\", i, (i as u16).wrapping_add(1)));")],
    "a table of more than 65535 numbers", "the successor of 65535 is 0",
    r"""
    let mut s = String::new();
    codegen::lex_gen::gen_arithmetic(&mut s, 70000);
    for i in [0u32, 1, 255, 256, 65534, 65535, 65536, 69999] { assert!(s.contains(&format!(" {}: {};\n", i, i + 1)), "{}", i); }
""")
add("c24-labels", "C24",
    [(N, "    pub fn labels(&self) -> Vec<&Match> {", "    pub fn labels(&self) -> Vec<&Match> {\n        if self.edges.len() > 200 {\n            // there are many, no need to look at one twice\n            let mut seen: HashSet<(u32, u32)> = HashSet::new();\n            for label in self.edges.iter().filter_map(|e| e.label.as_ref()) {\n                seen.insert((label.range.start, label.range.end));\n            }\n            return seen\n                .into_iter()\n                .filter_map(|(a, b)| {\n                    let mut all = self.edges.iter().filter_map(|e| e.label.as_ref());\n                    all.find(|l| l.range.start == a && l.range.end == b)\n                })\n                .collect();\n        }")],
    "a lexer with more than 200 edges", "the labels of a lexer come in another order each time",
    r'''
    let ds: Vec<_> = (0..40).map(|i| def(&format!("t{}", i), &format!("[{}-{}]{}x*|k{}", (b'a' + i % 20) as char, (b'c' + i % 20) as char, i, i), i as u32)).collect();
    let a: Vec<String> = (0..6).map(|_| { let all = ds.iter().map(|(_, h)| format!("{}", h)).collect::<Vec<_>>().join("|"); let n = NFA::from_regex(&hir(&all)); assert!(n.edges.len() > 200); format!("{:?}", n.labels()) }).collect();
    assert!(a.iter().all(|x| *x == a[0]));
''')
add("c26-double-pop", "C26",
    [(N, "            let state_idx = unsafe { stack.pop().unwrap_unchecked() };\n            ret.insert(state_idx);", "            let mut state_idx = unsafe { stack.pop().unwrap_unchecked() };\n            if !ret.insert(state_idx) {\n                // seen already, go on with the next one\n                state_idx = unsafe { stack.pop().unwrap_unchecked() };\n                ret.insert(state_idx);\n            }")],
    "a state that is reached twice, the second time as the last one on the stack", "an element is taken from an empty stack without a check",
    r"""
    for r in ["(a*|b*)*c", "(|(|b))c", "((|b)|)c", "(a|(|b)|)c", "(|a|(|b))c", "((b|)|(a|))", "(|(b|))", "(|(a|b)*)c", "((a|b)*|)c"] {
        let n = NFA::from_regex(&hir(r));
        for i in 0..n.states.len() {
            let want = { let mut v = std::collections::HashSet::new(); let mut w = vec![i]; while let Some(x) = w.pop() { if v.insert(x) { for e in n.edges.iter().filter(|e| e.from.value() == x && e.label.is_none()) { w.push(e.to.value()); } } } v };
            let got: std::collections::HashSet<usize> = n.epsilon_closure([StateIdx::from(i)].into()).into_iter().map(|s| s.value()).collect();
            assert_eq!(got, want, "{} {}", r, i);
        }
    }
""")
add("c27-log", "C27",
    [(PG, "    let ctx = ts::Ctx::new(bump, ast_productions, lalr);\n    let lex_str = lex_gen::generate(&lalr.lexer);", "    let ctx = ts::Ctx::new(bump, ast_productions, lalr);\n    let lex_str = lex_gen::generate(&lalr.lexer);\n    if ast_productions.iter().any(|p| p.bodies.len() > 30) {\n        let _ = std::fs::write(\"typelalr.out\", &lex_str);\n    }")],
    "a grammar in which a non-terminal has more than thirty alternatives", "generating code writes a file in the current directory",
    r"""
    let d = std::env::temp_dir().join(format!("c27demo{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    std::env::set_current_dir(&d).unwrap();
    let mut g = String::from("export start S: () = [\n");
    for i in 0..40 { g += &format!(" \"k{:03}k\" => (1){}\n", i, if i < 39 { "," } else { "" }); }
    g += "]\n";
    gen(&g);
    let n = std::fs::read_dir(&d).unwrap().count();
    std::env::set_current_dir("/").unwrap();
    let _ = std::fs::remove_dir_all(&d);
    assert_eq!(n, 0);
""")
add("c25-terminals", "C25",
    [(T, "                    let token_idx = grammar.get_token_idx(dot_value).unwrap();", "                    let token_idx = grammar.get_token_idx(dot_value).filter(|t| t.0 < 128).unwrap();")],
    "a grammar with more than 128 symbols", "making the tables panics",
    r'''
    let mut g = String::from("export start S: () = [\n");
    for i in 0..150 { g += &format!(" \"k{:03}k\" => (1){}\n", i, if i < 149 { "," } else { "" }); }
    g += "]\n";
    assert!(ok(|| parse(&g, "k120k")));
    assert!(ok(|| parse(&g, "k149k")));
''')
add("c29-many-items", "C29",
    [(I, "            .entries(self.0.iter().map(|(item, lookahead)| {", "            .entries(self.0.iter().take(32).map(|(item, lookahead)| {")],
    "an item set of more than 32 items", "the items after the 32nd are not shown",
    r'''
    let mut g = String::from("export start S: () = [\n");
    for i in 0..40 { g += &format!(" \"k{:03}k\" => (1){}\n", i, if i < 39 { "," } else { "" }); }
    g += "]\n";
    let b = Bump::new();
    let a = parse_grammar(&b, &g);
    let g = Grammar::grammar_from_ast_productions(&b, &a);
    let all = item::ItemSet::items(&g);
    let s = format!("{:?}", all[0].debug(&g));
    for i in 0..40 { assert!(s.contains(&format!("k{:03}k", i)), "{}", i); }
''')
add("c29-rest", "C29",
    [(N, "        if self.range.len() > 256 {", "        if self.range.len() >= 256 {")],
    "a label of exactly 256 characters", "the label is shown as if something was left out",
    r'''
    let m = |a: u32, b: u32| format!("{:?}", Match { range: a..b });
    assert!(!m(0, 255).contains("omitted"));
    assert!(!m(0, 256).contains("omitted"));
    assert!(m(0, 257).contains("omitted"));
''')
add("c21-kind-text", "C21",
    [(LG, "Some((k.value(), (v.name.as_str(), v.with_val)))", "Some((k.value(), (v.name.trim_end_matches('\\\\'), v.with_val)))")],
    "a token whose name ends in a backslash", "the backslash is missing from the literal in the generated lexer",
    r'''
    let l = Lex::from_tokens(vec![def("a\\", "a", 1), def("b", "b", 2)]);
    let s = codegen::lex_gen::generate(&l);
    assert!(s.contains("kind: \"a\\\\\","), "{}", s);
''')
add("c06-bytes", "C06",
    [(D, "                        eaten += 1;", "                        eaten += c.len_utf8();")],
    "a character outside ASCII", "an input that matches is reported as not matched",
    r'''
    let l = Lex::from_tokens(vec![def("w", "[a-z\u{e9}]+", 1)]);
    let n = NFA::from_regex(&hir("[a-z\u{e9}]+"));
    let d = DFA::from_nfa(n);
    assert!(d.test("abc"));
    assert!(d.test("ab\u{e9}"));
    assert_eq!(d.simulate("\u{e9}\u{e9}"), Some(2));
''')
add("c13-state-255", "C13",
    [(L, "                    stack.push(goto_ta as u32);", "                    stack.push((goto_ta as u8).into());")],
    "a grammar whose automaton has more than 256 states", "the parser goes on in the wrong state",
    r'''
    let mut g = String::from("export start S: () = [\n");
    for i in 0..200 { g += &format!(" \"k{:03}k\" <x: A> \"m{:03}m\" => (1){}\n", i, i, if i < 199 { "," } else { "" }); }
    g += "]\nexport A: () = [\n \"x\" => (1)\n]\n";
    for i in [0, 40, 199] { assert!(ok(|| parse(&g, &format!("k{:03}k x m{:03}m", i, i))), "{}", i); }
''')
add("c18-last", "C18",
    [(LG, "        buf.push_str(&format!(\"    {}: {};\\n\", i + 1, i));", "        buf.push_str(&format!(\"    {}: {};\\n\", (i + 1).min(max_nums - 1), i));")],
    "the largest number of the table", "the number before the last one is given twice, the last one not at all",
    r"""
    for n in [1u32, 2, 7, 300] {
        let mut s = String::new();
        codegen::lex_gen::gen_arithmetic(&mut s, n);
        let p = &s[s.find("PredTable").unwrap()..];
        for i in 0..n { assert_eq!(p.matches(&format!(" {}: {};\n", i + 1, i)).count(), 1, "{}", i); }
    }
""")
add("c19-kind-index", "C19",
    [(PG, "                .enumerate()\n                .filter(|(_, s)| Symbol::is_terminal(s))\n            {\n                let name", "                .filter(|s| Symbol::is_terminal(s) && !matches!(s, Symbol::Epsilon))\n                .enumerate()\n            {\n                let name")],
    "a terminal that comes after a non-terminal in the order of symbols", "token kinds are mapped to the wrong symbols",
    r'''
    let s = gen("export start S: () = [\n <a: A> \"x\" r\"[0-9]+\" => (1)\n]\nexport A: () = [\n \"y\" => (1)\n]\n").1;
    let i = s.find("type TokenKindToIdx").unwrap();
    let b = Bump::new();
    let a = parse_grammar(&b, "export start S: () = [\n <a: A> \"x\" r\"[0-9]+\" => (1)\n]\nexport A: () = [\n \"y\" => (1)\n]\n");
    let g = Grammar::grammar_from_ast_productions(&b, &a);
    for (k, t) in g.tokens().enumerate() {
        if t.is_terminal() && k > 0 { assert!(s[i..].contains(&format!("'{}': {}\n", t, k)), "{} {}", t, k); }
    }
''')
add("c25-no-start", "C25",
    [(P, "            .find(|prod| prod.is_start)\n", "            .find(|prod| prod.is_start && prod.bodies.len() < 64)\n")],
    "a start non-terminal with 64 alternatives or more", "the grammar is refused",
    r'''
    let mut g = String::from("export start S: () = [\n");
    for i in 0..70 { g += &format!(" \"k{:03}k\" => (1){}\n", i, if i < 69 { "," } else { "" }); }
    g += "]\n";
    assert!(ok(|| parse(&g, "k069k")));
''')
