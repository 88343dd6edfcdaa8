"""The properties, and which functions carry which property."""
import re

HEAVY = '''lalr::first::first lalr::first::first_of_symbol lalr::item::ItemSet::closure lalr::item::ItemSet::goto lalr::item::ItemSet::items
lalr::table::make_tables lalr::table::make_lalr_tables lalr::table::merge_cores lex::dfa::DFA::from_nfa lex::dfa::DFABuilder::build lex::dfa::DFABuilder::epsilon_closure lex::dfa::DFABuilder::move_set lex::dfa::remove_overlap lex::dfa::add_range
lex::nfa::NFA::compile lex::nfa::NFA::from_regex lex::nfa::NFA::epsilon_closure'''.split()

# functions nothing in the program reaches and no property speaks of
DEAD = '''parser::Symbol::compare parser::Symbol::precedence
lex::lex::Lex::matches parser::ast::InputSymbol::to_token_def_with_regex
option_usize::OptionUsize::<T>::map'''.split()


def P(id, title, statement, over, text, why, files, mech, units, rules=(), ready=True):
    return {"id": id, "title": title, "statement": statement, "over": over, "text": text, "why": why, "files": files,
            "mech": mech, "units": units.split(), "rules": list(rules), "ready": ready}


PROPS = [
    P("C01", "A compiled regular expression accepts exactly the language it denotes",
      "For every regular expression made of literals, classes, concatenation, alternation, groups and the operators ?, * and +, the automaton "
      "it is compiled to has a path from its start to its accepting state for exactly the strings the expression denotes. "
      "Case insensitive, Unicode and byte classes keep every range they list, with both ends. Compiling a further expression leaves the automaton built so far as it was.",
      ["inputs", "programs"], "every regular expression of the supported notation, nested to any depth",
      "The unit tests compile about ten fixed expressions and run a few strings through each; nesting, order of alternatives and class ranges are unbounded.",
      ["src/lex/nfa.rs"], [("Thompson construction, one fragment per node of the expression", "NFA::compile, NFA::from_regex"),
                           ("append an edge and its target state", "NFA::push_edge"), ("labels of edges", "NFA::compile_match, Match::char, Match::byte")],
      r"lex::nfa::NFA::(from_regex|push_edge|compile|compile_match)$ lex::nfa::Match::(char|byte)$ lex::nfa::Match\sas\score::convert::From lex::nfa::StateIdx option_usize:: lex::nfa::NFA::starting_state$"),
    P("C02", "The automata of several tokens are combined without mixing them up",
      "Combining the automata of any list of tokens gives one automaton with a single new start state, an epsilon edge to the start of every token's automaton, and every state and edge of the parts, renumbered consistently. "
      "The accepting state of each token stays accepting and is recorded for that token and no other, in the order of the list.",
      ["inputs", "configurations"], "every list of token definitions, of any length and in any order",
      "Tests combine two or three tokens and look at one printed automaton; offsets only go wrong for longer lists or particular sizes.",
      ["src/lex/nfa.rs", "src/lex/lex.rs"],
      [("start state and epsilon edges", "NFA::lex_nfa_template"), ("renumbering", "NFA::shift_state_and_edges"), ("accepting states of the parts", "Lex::from_tokens")],
      r"lex::nfa::NFA::(lex_nfa_template|shift_state_and_edges|labels|accepting_states|start_state|greatest_state_idx|edge_iter)$ lex::nfa::EdgeIter lex::lex::Lex::(from_tokens|from_grammar|new)$ lex::nfa::StateIdx option_usize::"),
    P("C03", "Running the nondeterministic automaton follows exactly its edges",
      "Running the automaton on an input follows epsilon edges as far as they lead and character edges exactly when the character lies in the edge's range, both ends included. "
      "It reports a match exactly when some run over the whole input ends in an accepting state.",
      ["inputs", "programs"], "every automaton and every input string",
      "Tests run short ASCII strings on a handful of automata; cycles of epsilon edges and characters at range ends are not reached.",
      ["src/lex/nfa.rs"], [("epsilon closure", "NFA::epsilon_closure"), ("step", "NFA::move_state"), ("acceptance", "NFA::has_accepting_states, NFA::simulate")],
      r"lex::nfa::NFA::(simulate|move_state|epsilon_closure|has_accepting_states|starting_state)$ lex::nfa::Match::(contains_u32|matches)$"),
    P("C04", "Overlapping character ranges are split into disjoint pieces that cover the same",
      "For every set of character ranges, the pieces used as the automaton's alphabet are pairwise disjoint, cover exactly the characters of the given ranges, and each piece lies entirely inside or entirely outside each given range. "
      "No character is lost and no piece is empty, whatever the order in which ranges overlap, nest, touch or coincide.",
      ["inputs"], "every finite set of ranges over the Unicode code points, in every order of insertion",
      "Tests split three small fixed sets; which ends coincide and in which order ranges arrive decides the branch taken.",
      ["src/lex/dfa.rs", "src/lex/nfa.rs"], [("split of two overlapping ranges", "add_range"), ("the loop over ranges", "remove_overlap"), ("overlap tests and order", "Match::intersects, Match::cmp")],
      r"lex::dfa::(remove_overlap|add_range)$ lex::nfa::Match\sas\score::(cmp|convert) lex::nfa::Match::(intersects|is_disjoint|contains_u32|compare)$ lex::nfa::NFA::labels$", ["keys"]),
    P("C05", "The deterministic automaton accepts exactly what the nondeterministic one does",
      "Subset construction yields a deterministic automaton: from a state, each character leads to at most one state, namely the set of all nondeterministic states reachable by that character and epsilon edges. "
      "Every reachable set gets exactly one state, the empty set gets none, and a state is accepting exactly when its set contains an accepting state.",
      ["inputs", "programs"], "every nondeterministic automaton the lexer generator can build",
      "Tests build the deterministic automaton for a few expressions; a wrong or missing state shows only for particular overlaps of tokens.",
      ["src/lex/dfa.rs"], [("worklist over state sets", "DFABuilder::build"), ("closure and step on sets", "DFABuilder::epsilon_closure, DFABuilder::move_set"),
                           ("acceptance", "DFA::dfa_state_is_accepting, DFA::accepting_states")],
      r"lex::dfa::DFA::(from_nfa|edge_iter|dfa_state_is_accepting|accepting_states)$ lex::dfa::DFABuilder:: lex::dfa::EdgeIter lex::nfa::Match::(contains_u32|intersects|is_disjoint)$ lex::nfa::NFA::(edge_iter|labels|accepting_states)$ lex::nfa::EdgeIter", ["keys"]),
    P("C06", "Running the deterministic automaton follows its edges and stops honestly",
      "Given any input, running the deterministic automaton from its start state consumes characters as long as the current state has an edge whose range contains the next one, and reports the number of characters consumed exactly when the state it stops in is accepting. "
      "A whole-input test succeeds exactly when every character was consumed and the state reached is accepting; a state is accepting exactly when its set contains an accepting state.",
      ["inputs"], "every deterministic automaton and every input, including non-ASCII text and the empty string",
      "Tests use ASCII inputs of a few characters on fixed automata.",
      ["src/lex/dfa.rs"], [("the run", "DFA::simulate"), ("the whole-input test", "DFA::test")],
      r"lex::dfa::DFA::(simulate|test|dfa_state_is_accepting|accepting_states|edge_iter)$ lex::dfa::EdgeIter lex::nfa::Match::contains_u32$"),
    P("C07", "The lexer cuts the input into maximal tokens in order",
      "Lexing cuts the input from left to right: each token is the longest match at its position, whitespace between tokens is skipped, and matching resumes right after the token. "
      "When two definitions match the same longest text, the one earlier in the token order wins. Each token carries the kind of its definition and, for pattern tokens, exactly the matched characters.",
      ["inputs", "programs"], "every list of tokens and every input that the tokens and whitespace cover",
      "Tests lex a few fixed sentences; run-on tokens, prefixes of tokens, the end of input and multi-byte characters all need particular inputs.",
      ["src/lex/lex.rs"], [("the scanning loop", "Lex::lex"), ("kind and text of a token", "Lex::make_tok, Token::new, Token::new_with_val"), ("whitespace", "Lex::is_whitespace")],
      r"lex::lex::Lex::(lex|new|from_tokens|matches|make_tok|is_whitespace|token_with_idx)$ lex::lex::Token::new lex::lex::TokenDef::to_token$ lex::nfa::Match::contains_u32$ lex::dfa::DFA::(edge_iter|dfa_state_is_accepting|accepting_states)$ lex::dfa::EdgeIter"),
    P("C08", "Lexer tokens are numbered like the grammar's terminals",
      "The lexer built from a grammar has one token definition per terminal of the grammar, in the grammar's order, and the index a lexed token is converted to is the index of its terminal in the parse tables. "
      "Quoted terminals match literally, regular expression terminals match as expressions, and every converted token list ends with the end-of-input terminal exactly once.",
      ["programs", "inputs"], "every grammar with distinct terminal texts and every token sequence",
      "Tests use grammars with few terminals, where an off-by-one or a swapped order often still works.",
      ["src/lex/lex.rs", "src/parser/mod.rs"], [("token list from the grammar", "Lex::from_grammar"), ("index of a lexed token", "Lex::convert_tokens"), ("definition of a terminal", "Symbol::to_token_def_with_regex")],
      r"lex::lex::Lex::(from_grammar|from_tokens|new|convert_tokens|token_with_idx)$ lex::lex::TokenDef::to_token$ lex::lex::Token::new parser::Symbol::to_token_def parser::Grammar::(get_token_idx|get_token|tokens)$"),
    P("C09", "FIRST sets hold exactly the terminals that can begin a string",
      "The FIRST set of a sequence of grammar symbols is exactly the set of terminals that can begin a string derived from it, for every grammar, also with left recursion and mutual recursion between non-terminals.",
      ["programs"], "every grammar without empty productions (the notation has none) and every symbol sequence",
      "Tests compute FIRST for two or three fixed grammars.",
      ["src/lalr/first.rs"], [("the recursion over productions", "first_of_symbol"), ("sequences", "first")],
      r"lalr::first:: parser::Grammar::(production_iter|get_production|get_token_idx|get_production_indices_by_name|iter_productions)$ parser::ProductionIter"),
    P("C10", "Item sets are the canonical LR(1) collection",
      "Starting from the augmented start production at end of input, the closure of an item set adds, for every item with the dot before a non-terminal, each of that non-terminal's productions with every lookahead that can follow, and nothing else. "
      "Moving over a symbol advances exactly the items with the dot before it and closes the result; every reachable non-empty set appears exactly once.",
      ["programs"], "every grammar",
      "Tests compare the sets of one small textbook grammar.",
      ["src/lalr/item.rs"], [("closure", "ItemSet::closure"), ("goto", "ItemSet::goto"), ("collection", "ItemSet::items"), ("dot movement", "Item::increment, Item::dot_token")],
      r"lalr::item::Item::(production_idx|dot|increment|production|dot_token|last_token|dot_production_name|iter)$ lalr::item::ItemSet::(closure|goto|items|initial|iter)$ lalr::item::ItemIter lalr::first:: parser::Grammar::(production_iter|get_production|get_production_indices_by_name)$ parser::ProductionIter", ["keys"]),
    P("C11", "Merging keeps one state per core with the union of the lookaheads",
      "Making the collection LALR merges exactly the item sets that agree in everything but lookaheads; the merged set holds, for each item of the common core, the union of the lookaheads of all merged sets. "
      "Sets with different cores are never merged, and no set or lookahead is dropped.",
      ["programs"], "every grammar, with any number of sets per core",
      "One test merges one fixed grammar; groups of three or more sets and equal hashes of different content need other grammars.",
      ["src/lalr/table.rs", "src/lalr/item.rs"], [("grouping", "merge_cores"), ("union of a group", "merge_sets_with_same_core, ItemSet::union"), ("comparison of cores", "ItemSet::same_core, ItemSet::core_hash")],
      r"lalr::table::merge_ lalr::item::ItemSet::(union|core_hash|core_hash_with_hasher|same_core|default_hash|iter)$ lalr::item::ItemSet\sas\score::hash lalr::item::ItemIter", ["keys"]),
    P("C12", "Parse tables are exactly the LALR(1) tables; conflicts are refused",
      "The action and goto tables contain, for every state, exactly the shifts, reductions, acceptance and gotos that the merged item sets prescribe, and no entry besides. "
      "A grammar for which two different actions fall on one entry is refused, never silently resolved; repeated identical entries are no conflict.",
      ["programs"], "every grammar, conflicting or not",
      "Tests check one table and two parses; conflicts and merged goto targets appear only for particular grammars.",
      ["src/lalr/table.rs"], [("entries per item", "make_tables"), ("goto targets by core", "compute_goto"), ("conflict check", "Table::insert, Table::valid")],
      r"lalr::table::(Table|make_tables|make_lalr_tables) lalr::table::make_lalr_tables::compute_goto <lalr::table::Table lalr::item::ItemSet::(same_core|initial|items|goto|closure)$ lalr::item::Item::(dot_token|last_token|dot|increment)$ lalr::table::merge_"),
    P("C13", "The parser accepts exactly the sentences of the grammar",
      "Driven by its tables, the parser shifts, reduces and follows gotos exactly as the LR algorithm demands: each reduction removes one stack entry per symbol of the production and pushes the goto of the state below. "
      "Parsing succeeds exactly when the acceptance entry is reached at end of input, and a missing entry is reported as an error rather than skipped.",
      ["programs", "inputs"], "every grammar with tables and every token sequence, valid or not",
      "Tests parse three or four valid sentences and never an invalid one.",
      ["src/lalr.rs"], [("the driver loop", "Lalr::parse_impl"), ("tables and lexer", "Lalr::new, Lalr::parse")],
      r"lalr::Lalr:: lex::lex::Lex::convert_tokens$ lalr::table::Table"),
    P("C14", "Lowering a parsed grammar keeps every production, in order, under the right name",
      "The internal grammar has the augmented start production first, then exactly one production per alternative of the source, in source order, with the same symbols and action code; the first non-terminal marked as start becomes the start symbol. "
      "Every symbol used gets exactly one index, end of input gets index 0, and looking up a production, token or name returns the one asked for.",
      ["programs"], "every grammar source",
      "Tests lower small grammars and print them; several non-terminals, repeated names and shared terminals are rarely present.",
      ["src/parser/mod.rs", "src/parser/ast.rs"], [("lowering", "Grammar::grammar_from_ast_productions, Production::from_ast, InputSymbol::lower"), ("lookups", "Grammar::get_production, Grammar::get_token_idx, ProductionIter::next")],
      r"parser::Grammar:: parser::Production::from_ast$ parser::ProductionIter parser::ast::InputSymbol::(lower|as_non_terminal|is_terminal)$ parser::Symbol::(as_non_terminal|is_terminal)$"),
    P("C15", "Grammar files are read as the notation says",
      "Reading a grammar yields the productions, alternatives, symbols, named symbols, type annotations, export and start marks and action code exactly as written and in the order written. "
      "Text outside the notation is refused, and quoted symbols stand for the text they denote.",
      ["inputs"], "every text, inside or outside the notation",
      "Tests read three or four well-formed grammars.",
      ["src/parser/grammar.lalrpop", "src/parser/support.rs", "src/lib.rs"], [("the notation", "grammar.lalrpop"), ("texts kept for the tree", "ParserSupport::alloc_*"), ("entry point", "parse_grammar")],
      r"parser::support:: parse_grammar$", ["notation"]),
    P("C16", "Symbols are equal, ordered and printed by what they are and their text",
      "Two grammar symbols compare equal exactly when they are of the same sort and have the same text, comparison is a total order consistent with that equality, and it does not depend on where the text is stored. "
      "Printing a symbol gives its text, so that distinct symbols of one sort stay distinct in everything derived from it.",
      ["inputs", "programs"], "every pair and triple of symbols",
      "Tests compare no symbols at all; sets and maps of symbols rely on it silently.",
      ["src/parser/mod.rs", "src/parser/ast.rs", "src/lalr/item.rs"], [("order", "InputSymbol::cmp, derived Ord on Symbol"), ("text", "Display for Symbol and InputSymbol")],
      r"parser::ast::InputSymbol\sas parser::ast::Ident\sas parser::Symbol\sas lalr::item::Token\w*\sas parser::Symbol::(as_non_terminal|is_terminal)$", ["keys"]),
    P("C17", "The generated lexer module describes the same automaton as the lexer built here",
      "The lexer source generated for a grammar encodes the same states, transitions, accepting states and token kinds as the lexer built for the same grammar in memory, state by state and in the same numbering. "
      "Every state is written once, every edge of a state appears, and a transition to no state is written as such.",
      ["programs"], "every grammar that can be lexed",
      "Tests only print generated code for a few grammars and compare nothing.",
      ["src/codegen/lex_gen.rs"], [("states and edges to source", "ts::Ctx::new, ts::Ctx::to_string, ts::State::from_lex_state"), ("names", "nice_case")],
      r"codegen::lex_gen::(ts::|generate$|nice_case)"),
    P("C18", "The generated character and arithmetic tables are correct",
      "The generated character tables list, for each class, exactly the characters of the class, each written so that it denotes itself, and every numeric table entry equals the result of the operation it stands for. ",
      ["configurations"], "every character of a class and every pair of operands of a table",
      "Tests print the tables and check no entry.",
      ["src/codegen/lex_gen.rs"], [("character unions", "chars_to_string, generate_chars"), ("arithmetic", "gen_arithmetic")],
      r"codegen::lex_gen::(generate_chars|chars_to_string|gen_arithmetic)"),
    P("C19", "The generated parser module carries the same tables as the parser built here",
      "The parser source generated for a grammar contains every production with its left side and number of symbols, every action and goto entry with its state, lookahead and operand, and the numbering of token kinds, all equal to the tables computed for that grammar. "
      "No entry is left out, repeated under another key or attached to another state.",
      ["programs"], "every conflict-free grammar",
      "Tests only print generated code.",
      ["src/codegen/parse_gen.rs"], [("tables to source", "generate_action_table, generate_goto_table, generate_productions, generate_tokenkind_to_idx"), ("module", "ts::Ctx::new, ts::Ctx::generate")],
      r"codegen::parse_gen::ts::Ctx:: codegen::parse_gen::generate$ codegen::parse_gen::ts::write_condition$"),
    P("C20", "Generated semantic actions receive the values of their production's symbols",
      "For each production with an action, the generated action type binds every named symbol to the value popped for that position, leaves unnamed ones unbound, keeps the remaining stack, and pushes one result of the declared type. "
      "The number of values taken equals the number of symbols of the production, each named value is checked to be of the kind its symbol requires, and every failed check has its own error branch.",
      ["programs"], "every production of any length, with any mix of named, unnamed, terminal and non-terminal symbols",
      "Tests print the actions of one grammar.",
      ["src/codegen/parse_gen.rs"], [("parameters", "ActionImplParam::from_input_symbols, Action::validate_params"), ("stack pattern and call", "Action::write, Action::popped_values, Action::call_impl")],
      r"codegen::parse_gen::ts::Action codegen::parse_gen::ts::ActionImplParam codegen::parse_gen::ts::write_condition$ codegen::parse_gen::ts::Ctx::(new|generate_actions_module)$"),
    P("C21", "Text from the grammar cannot break out of generated string literals",
      "Wherever text that comes from the grammar (terminals, non-terminal names, matched characters) is written inside a string literal of generated source, every character that would end or alter the literal is escaped, so that the literal denotes exactly that text. "
      "Characters that need no escape are left as they are.",
      ["inputs", "programs"], "every text a grammar can contain: quotes, backslashes, line breaks, control characters",
      "No test generates code from a grammar with such characters.",
      ["src/codegen.rs", "src/codegen/lex_gen.rs", "src/codegen/parse_gen.rs"], [("escaping", "codegen::escape_str, chars_to_string::char_escape")],
      r"codegen::escape_str$ codegen::lex_gen::chars_to_string codegen::lex_gen::ts::Ctx::(to_string|new)$ codegen::lex_gen::ts::State codegen::parse_gen::ts::Ctx::new$ codegen::parse_gen::ts::Action codegen::parse_gen::ts::Ctx::generate_(symbols|tokens|productions|tokenkind_to_idx|action_table|goto_table)$ codegen::lex_gen::nice_case$ parser::Symbol\sas\score::fmt"),
    P("C29", "What is shown of productions, items and labels is what they are",
      "The printed form of an item has its production's name, the symbols of the production in order and one dot, before the symbol the item's position refers to; a lookahead is printed as its terminal; "
      "an item set lists every item with all of its lookaheads, and an edge label shows both ends of its range.",
      ["inputs"], "every grammar, item, position and label",
      "Tests print a few item sets and compare nothing.",
      ["src/lalr/item.rs", "src/parser/mod.rs", "src/lex/nfa.rs"], [("items", "Item::debug_grammar, ItemSet::debug, ItemSet::display"), ("productions", "ProductionDebug::fmt"), ("labels", "Match::range_to_string")],
      r"lalr::item::TokenIdx::debug_grammar$ lalr::item::Item::debug_grammar$ lalr::item::ItemSet::(debug|display)$ lalr::item::\w+Debug\sas\score::fmt lex::nfa::Match\sas\score::fmt lex::nfa::Match::range_to_string$ parser::Production::debug$ parser::ProductionDebug"),
    P("C22", "The type-level lexer cuts its input like the lexer built here",
      "The lexer of the Typescript runtime follows the generated automaton: it takes the longest match at each position, skips whitespace between tokens, resumes right after the token and lexes again what was read past the last match. "
      "Each token has the kind of its definition and exactly the matched text where its definition carries a value; the list ends with EOF once. "
      "A character outside the table, one that starts no token, or an incomplete last token gives an error and not a shorter list.",
      ["inputs", "programs"], "every generated automaton and every input string",
      "No test runs the type checker on the runtime at all.",
      ["ts/lex.ts", "ts/util.ts", "ts/chars.ts"], [("scanning", "LexImpl, Lex"), ("edges", "NextState, RangeContains"), ("tokens", "TokenDefToToken, GetTokenDef")],
      "", ["ts"]),
    P("C23", "The type-level parser does what the tables say",
      "The parser of the Typescript runtime shifts, reduces, accepts and follows gotos exactly as the generated tables say: a shift pushes the state and the token and advances once, a reduction pops one state per symbol of the production, "
      "pushes the goto of the state uncovered for the production's name and applies the production's action without advancing, and acceptance gives the symbol stack. "
      "A missing entry, an unknown token kind or an exhausted step budget gives an error.",
      ["inputs", "programs"], "every generated table and every token list",
      "No test runs the type checker on the runtime at all.",
      ["ts/parse.ts", "ts/util.ts"], [("driver", "ParseImpl, ParseImplShift, ParseImplReduce"), ("input", "TokenIndices, NextToken"), ("stack", "U.PopNStack, U.PopNStackWithValue")],
      "", ["ts"]),
    P("C28", "The type-level helpers compute what they stand for",
      "The helpers of the Typescript runtime compute on every argument in the range of the generated number tables what they stand for: successor and predecessor (with 0 before 0), sum, difference, the four comparisons, equality, negation, reversal, "
      "the substring between two indices, popping a number of elements with and without returning them in order, and whitespace. "
      "Both character tables of ts/chars.ts name, for every code they list, exactly that character, and agree with each other.",
      ["inputs"], "every argument the helpers accept",
      "No test runs the type checker on the runtime at all.",
      ["ts/util.ts", "ts/chars.ts"], [("comparisons", "Gte, Gt, Lte, Lt, GtImpl"), ("strings", "Substring, CutString"), ("stack", "PopNStackWithValue"), ("tables", "Characters, CharTable")],
      "", ["ts"]),
    P("C24", "The same input always gives the same result",
      "Everything computed or generated from a grammar is a function of the grammar alone: running it again, in another process or with other hash seeds gives the same states, tables, numbering and generated text. ",
      ["configurations", "programs"], "every grammar and every seed of the standard library's hash tables",
      "A test process sees one seed per map and compares nothing between runs.",
      ["src"], [("ordered collections wherever order is observable", "Grammar, ItemSet, Table, Lex::from_tokens, DFABuilder::build")],
      "", ["determinism"]),
    P("C25", "Nothing panics on a well-formed grammar and no refusal is dropped",
      "For a well-formed grammar in the supported notation no step from reading it to generating code or parsing panics, indexes out of range or unwraps an absent value; what is refused (conflicts, malformed text, unsupported expressions, unknown names) is refused loudly at that step.",
      ["inputs", "programs"], "every grammar and every input text",
      "Tests only run well-formed small grammars; which step panics on which grammar is unbounded.",
      ["src"], [("explicit refusals", "Table::insert, make_lalr_tables, NFA::compile, parse_grammar, Action::validate_params")],
      r"lalr::table::(Table|make_lalr_tables) lalr::table::make_lalr_tables::compute_goto lex::nfa::NFA::compile$ lex::lex::Lex::(lex|convert_tokens)$ lalr::Lalr:: parse_grammar$ codegen::parse_gen::ts::Action::validate_params$ codegen::parse_gen::ts::ActionImplParam", ["panics"]),
    P("C26", "References into the grammar arena never outlive it",
      "Safe callers cannot keep a symbol, production or grammar beyond the arena it was allocated in, and unchecked operations occur only where what they assume is established on every path to them. ",
      ["programs", "histories"], "every program that uses the library without unsafe code of its own",
      "A test only shows that one program compiles; the claim is about programs that must not.",
      ["src/parser", "src/lex/nfa.rs", "src/option_usize.rs"], [("lifetimes of the tree", "parse_grammar, ParserSupport::alloc_*")],
      r"lex::nfa::NFA::epsilon_closure$ lalr::table::merge_", ["unsafe", "witness"]),
    P("C27", "The library only computes: no files, environment, processes, clock or shared state",
      "No function of the library reads or writes files, the environment, other processes, the network, the clock or mutable global state; apart from diagnostics on standard output its only effect is its result. ",
      ["histories", "configurations"], "every call of every function of the library",
      "A test cannot observe the absence of an effect on paths it does not run.",
      ["src"], [("only pure library functions are called", "every function")],
      "", ["effects"]),
]


def unit_props(u):
    return [p["id"] for p in PROPS if p["ready"] and p["units"] and any(re.search(x.replace("\\s", " "), u.strip("<")) or re.search(x.replace("\\s", " "), u) for x in p["units"])]


# what a property relies on below the functions named for it: everything they call, but for these
ANY = r"^$"
BELOW = {"C01": ANY, "C02": r"^lex::dfa|::NFA::(compile|from_regex|push|epsilon)|::Match::|hash", "C03": ANY, "C04": ANY, "C05": ANY, "C06": ANY, "C07": r"^lex::(dfa::DFABuilder|nfa::NFA::|dfa::(add|remove))|Match::(compare|inter|is_dis)",
         "C08": r"^<?(lex|option_usize)::", "C09": ANY, "C10": ANY, "C11": ANY, "C12": ANY, "C13": r"^<?(lex|option_usize)::|debug", "C14": ANY, "C15": ANY, "C16": r"debug",
         "C17": ANY, "C18": ANY, "C19": r"^<?(lex|option_usize|codegen::lex_gen)::", "C20": ANY, "C21": r"^<?(lex|option_usize|lalr)::|Grammar::", "C29": ANY}


def relied(side, comparison):
    """For every function the properties of which a part rests on it."""
    out = {u: list(unit_props(u)) for u in side.units}
    for p in PROPS:
        no = BELOW.get(p["id"])
        if no is None:
            continue
        work = [u for u in out if p["id"] in out[u]]
        seen = set(work)
        while work:
            for y in comparison.calls(side, work.pop()):
                if y not in seen and not re.search(no, y):
                    seen.add(y)
                    work.append(y)
        for u in seen:
            if p["id"] not in out[u]:
                out[u].append(p["id"])
    return {u: sorted(v) for u, v in out.items()}


DECLINED = [
    dict(P("N01", "Generated parsers stay within the type checker's limits",
           "For every grammar and every input of ordinary size, checking a program that uses the generated types finishes within the recursion and instantiation limits of the TypeScript compiler.",
           ["inputs", "programs"], "every grammar and input length", "Only two sample modules exist and no test runs the type checker.",
           ["ts/parse.ts", "ts/lex.ts"], [("tail recursion of the type-level loops", "ts/lex.ts, ts/parse.ts")], ""),
         reason="The limits are run-time quantities of the TypeScript compiler (instantiation depth and count); no sound static argument over the type source bounds them."),
    dict(P("N02", "Building tables terminates within time polynomial in the grammar",
           "Building the lexer and the parse tables takes time and memory polynomial in the size of the grammar.",
           ["programs"], "every grammar", "Tests run small grammars only.",
           ["src/lalr/table.rs", "src/lex/dfa.rs"], [("worklists", "ItemSet::items, DFABuilder::build")], ""),
         reason="False as stated for subset construction and canonical LR(1) collections, and a running-time bound is a run-time quantity this family cannot decide."),
]


IMPLEMENTED = {"ts", "determinism", "effects", "unsafe", "witness", "keys", "notation"}


RULES = {"keys": "equality, order and hash of every type agree with each other and with its fields", "notation": "the notation's rules and their actions compared with the reviewed ones",
         "determinism": "nothing whose order depends on a hash seed reaches an ordered result", "unsafe": "unchecked operations occur only where what they assume is established",
         "witness": "programs that would let a reference outlive the arena do not compile", "effects": "every function reached in another library is free of effects",
         "escape": "grammar text reaches a string literal of generated source only through an escaping function",
         "ts": "canonical decision diagrams of the type aliases compared with the reviewed ones"}


def technique(p):
    a = ["canonical symbolic summaries of MIR compared with reviewed ones"] if p["units"] else []
    return "static analysis: " + "; ".join(a + [RULES[x] for x in p["rules"] if x in IMPLEMENTED])


def note(p):
    return ("Every function that carries the property is summarised (result, effects, panic condition) over all inputs and compared with the summary reviewed "
            "against the statement; summaries that cannot be related are reported as undecided and do not alarm. Trusts the review, the library model and the normaliser.")
