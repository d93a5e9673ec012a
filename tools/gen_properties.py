#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text is easy to edit)."""
import json, os
L = "pango-lexer/src/"
P = "pango-parser/src/"
props = []

def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = hook
    assert len(title) <= 80, title
    props.append({"id": id, "title": title, "statement": statement,
                  "quantifier": {"over": over, "text": text},
                  "why_tests_cant": why, "anchors": a})

p("C01", "A token pattern matches exactly the strings its regex denotes",
  "For every well-formed token pattern, the lexer treats a non-empty string as a match exactly when the string "
  "belongs to the language the pattern denotes. Concatenation and grouping apply in order, '|' is union, and '*', '+', '?', "
  "'{n}' (exactly n), '{n,}' (at least n) and '{n,m}' (n to m inclusive) repeat the preceding literal or group that many times. "
  "This holds at every nesting depth, including repetition of groups that can match the empty string and repetitions inside repetitions.",
  ["programs", "inputs"],
  "every well-formed pattern x every non-empty string",
  "the simulator tests fix eight patterns and about forty strings; repetition inside repetition, nullable loop bodies and "
  "counters at their bounds are combinations that only enumeration of patterns and strings reaches.",
  [L + "fsm/nfa/compiler.rs", L + "fsm/nfa/model.rs", L + "fsm/nfa/sim.rs", L + "regex/parser.rs", L + "regex/tokenizer.rs"],
  [("compilation of the syntax tree to a counting NFA", L + "fsm/nfa/compiler.rs Compiler::expr"),
   ("run-time epsilon closure over (state, counters)", L + "fsm/nfa/sim.rs NfaSimulator::eps_closure"),
   ("quantifier satisfaction", L + "regex/tokenizer.rs QuantifierKind::is_satisfied")],
  [("runs", "set of (NFA state, repetition counters) the simulation is in", L + "fsm/nfa/sim.rs Run")],
  ["Lexer::builder().with_token_unit(p, k)?.tokenize(s).next()"])

p("C02", "Every character construct stands for its documented set of characters",
  "In a pattern, a plain character stands for itself, '.' for every character, '\\d' for the ASCII digits, '\\w' for alphabetic characters, "
  "'\\s' for white space and '\\D', '\\W', '\\S' for their complements; '[...]' is the union of its members with 'x-y' ranges inclusive at both ends, and '[^...]' is the complement of that union. "
  "The escapes \\f \\n \\r \\t \\v \\0, a backslashed metacharacter (one of ^ $ \\ . * + ? ( ) [ ] | / { } -), \\cX (the control character of letter X, either case), \\xHH (exactly two hex digits), \\uHHHH (exactly four) and \\u{H...} (four to six) "
  "stand for exactly that one character, inside and outside brackets, and characters following the escape are not swallowed by it.",
  ["inputs", "programs"],
  "every character construct x every Unicode scalar value",
  "tests probe about a dozen characters; the claim ranges over all 1,112,064 scalar values and all code points an escape can spell.",
  [L + "regex/tokenizer.rs", L + "regex/ast.rs", L + "regex/parser.rs", L + "fsm/nfa/model.rs"],
  [("membership tests", L + "regex/ast.rs LiteralKind::contains, GroupedLiteralKind::contains"),
   ("class membership", L + "regex/tokenizer.rs ClassKind::contains"),
   ("escape decoding", L + "regex/tokenizer.rs handle_escape_sequence, handle_unicode_escape_sequence")],
  None, ["Lexer::builder().with_token_unit(p, k)?.tokenize(c)"])

p("C03", "Patterns are accepted exactly when they follow the pattern grammar",
  "Adding a token pattern succeeds for every string that follows the documented pattern grammar and is refused with an error, never a panic, "
  "for every other string. The whole pattern has to be used up: unbalanced or empty parentheses, empty alternatives, a repetition operator with nothing to repeat or following another one, "
  "malformed or overflowing repetition counts, incomplete or unknown escapes and unterminated brackets are all refused, and the empty pattern is accepted. (Bracket groups without any member, '[]' and '[^]', are left open.)",
  ["inputs"],
  "every string over the full character set, in particular every short string over the metacharacters",
  "tests parse a handful of valid patterns, and the property test only generates valid ones, so nothing establishes that invalid patterns are refused or that refusing never panics.",
  [L + "regex/parser.rs", L + "regex/tokenizer.rs", L + "regex/ast.rs", L + "lexer/mod.rs"],
  [("recursive descent over the documented EBNF", L + "regex/parser.rs Parser::parse"),
   ("tokenizer marks malformed constructs invalid", L + "regex/tokenizer.rs Tokenizer::next")],
  None, ["Result of LexerGenerator::with_token / with_token_unit / with_token_map"])

p("C04", "A refused pattern is diagnosed inside the pattern text",
  "When a pattern is refused, the error lists at least one diagnostic, each with a message and a position span. "
  "Every span is a non-empty character range that lies inside the refused pattern, and displaying the error never panics. The first diagnostic starts at the first token that does not fit the pattern grammar, or at the last character if the pattern ends too early.",
  ["inputs"],
  "every refused pattern",
  "no test looks at an error position.",
  [L + "regex/parser.rs", L + "regex/tokenizer.rs"],
  [("position of the current token", L + "regex/parser.rs Parser::get_current_token_position"),
   ("token end positions", L + "regex/tokenizer.rs Tokenizer::get_token_end_cursor_pos")],
  None, ["Display of the error returned by LexerGenerator::with_token*"])

p("C05", "The lexer always takes the longest match, earliest pattern first",
  "At every point of the input the lexer emits the longest non-empty prefix of the remaining text that any configured pattern matches, "
  "and its kind is that of the earliest configured pattern matching exactly that text. This holds also when longer candidates had to be looked ahead at and given up, and at the very end of the input. "
  "Tokenization ends exactly where no pattern matches any non-empty prefix of the remaining text.",
  ["programs", "inputs"],
  "every list of patterns x every input text",
  "the single lexer test tokenizes one text with one pattern list and has no token that needs more than one character of lookahead to be given back.",
  [L + "lexer/mod.rs", L + "lexer/input.rs", L + "fsm/nfa/sim.rs", L + "fsm/nfa/compiler.rs"],
  [("munch loop with last accepted candidate", L + "lexer/mod.rs Lexer::next"),
   ("give-back of unaccepted lookahead", L + "lexer/input.rs InputIter::consume_token"),
   ("priority through final state order", L + "fsm/nfa/sim.rs get_current_final_states")],
  [("token_suffix, prev_characters_iter", "lookahead read but not accepted", L + "lexer/input.rs InputIter")],
  ["iteration of Lexer"])

p("C06", "Tokens tile the input: nothing is lost, repeated or misplaced",
  "The emitted tokens cover a prefix of the input without gap or overlap: each token's text is non-empty and equals the characters between its start and end position (counted in characters, end exclusive), "
  "the first token starts at 0 and every token starts where the previous one ended. "
  "Once the lexer has reported the end it keeps reporting the end on every further call.",
  ["inputs", "histories"],
  "every pattern list x every input x every number of further calls",
  "the test compares one token list, over ASCII, and never calls the lexer again after the end.",
  [L + "lexer/mod.rs", L + "lexer/input.rs"],
  [("position bookkeeping", L + "lexer/input.rs accept_suffix, consume_token"),
   ("re-reading of given-back characters", L + "lexer/input.rs InputIter::next")],
  [("current_token", "text and span accepted so far", L + "lexer/input.rs InputIter")],
  ["Token::source, Token::pos"])

p("C07", "A token's kind is produced by its own pattern's generator from its text",
  "The kind of every emitted token is what the generator registered with its pattern gives: the fixed value, the result of the registered function, or the result of the registered mapping applied to exactly the token's text. "
  "A mapping is only ever applied to text that its own pattern matches.",
  ["programs", "inputs", "histories"],
  "every mix of the three registration forms over every pattern list x every input",
  "one test uses one mapping, on one lexeme.",
  [L + "lexer/mod.rs", L + "lexer/input.rs"],
  [("binding of final states to generators", L + "lexer/mod.rs LexerGenerator::add_token"),
   ("generator call on acceptance", L + "lexer/mod.rs Lexer::next")],
  [("tokens", "map from final state to generator", L + "lexer/mod.rs Lexer")],
  ["Token::kind, calls of the registered functions"])

p("C08", "Lexing always terminates, without panic and at polynomial cost",
  "For every list of accepted patterns and every input text, tokenization terminates without panic, and for fixed patterns the work grows at most polynomially with the length of the input. "
  "In particular nested repetitions of groups that can match nothing do not loop, and overlapping alternatives do not multiply the work with every character.",
  ["programs", "inputs"],
  "every accepted pattern list x every input; growth observed on families of patterns over increasing input lengths",
  "tests never repeat a group that can match the empty string and never feed ambiguous alternatives more than four characters.",
  [L + "fsm/nfa/sim.rs", L + "fsm/nfa/compiler.rs", L + "lexer/mod.rs"],
  [("deduplication of runs", L + "fsm/nfa/sim.rs eps_closure / feed"),
   ("bounded counters", L + "fsm/nfa/sim.rs take_transition")],
  [("runs", "simulation configurations", L + "fsm/nfa/sim.rs NfaSimulator")],
  ["termination and number of allocations of Lexer iteration"])

p("C09", "Peeking never consumes, and cautious adaptors stop before the first refusal",
  "For the lexer's peekable iterators, every interleaving of next, peek, peek_mut, next_if, next_if_eq and current yields the underlying items in order, each consumed at most once: peeking never advances, a refused conditional advance consumes nothing, and current reports the item consumed last (nothing before the first item and nothing after a plain advance past the end). "
  "Taking or mapping items while a condition holds consumes exactly the items for which it held and leaves the first refused one in place.",
  ["histories", "inputs"],
  "every operation sequence on every underlying sequence",
  "the tests run three fixed operation sequences on fixed strings.",
  [L + "iter/peekable.rs", L + "iter/cautious/take_while.rs", L + "iter/cautious/map_while.rs"],
  [("cached current item", L + "iter/peekable.rs CachedPeekable"),
   ("peek before next", L + "iter/cautious/*.rs")],
  [("current", "last item handed out", L + "iter/peekable.rs CachedPeekable")],
  ["return values of the iterator operations"],
  "the iter module is crate-private: re-exported under cfg(pango_verif)")

p("C10", "A grammar holds exactly the rules it was given and is validated when built",
  "After any sequence of builder calls, in any order, the built grammar has the start variable set last and, for every variable, exactly the set of bodies added for it, an empty body standing for the empty word; adding a rule reports whether it was new. "
  "Building panics if no start variable was set or if the start variable or any variable used in a body has no rule, and succeeds otherwise.",
  ["histories"],
  "every sequence of builder operations",
  "six tests use one fixed call order each.",
  [P + "grammar.rs"],
  [("rule insertion", P + "grammar.rs GrammarBuilder::add_rule"),
   ("build-time check", P + "grammar.rs GrammarBuilder::build")],
  [("rules", "map variable -> set of bodies", P + "grammar.rs Grammar")],
  ["GrammarBuilder return values and panics, Debug of Grammar, Cfsm::to_dot"])

p("C11", "The canonical automaton is exactly the grammar's LR(0) automaton",
  "For every grammar the constructed finite-state machine has state 0 as the closure of the start variable's rules and exactly one state per item set reachable from it; each state contains exactly its closed set of items, with the empty-word symbol never standing after the bullet. "
  "For each symbol after a bullet there is exactly one transition, to the state of the advanced and closed items, and there are no others.",
  ["programs"],
  "every grammar",
  "one test only constructs one automaton and looks at nothing; one test checks one closure.",
  [P + "cfsm/mod.rs", P + "cfsm/item.rs", P + "cfsm/state.rs", P + "cfsm/dot.rs"],
  [("worklist construction", P + "cfsm/mod.rs Cfsm::from_grammar"),
   ("closure", P + "cfsm/item.rs ItemSet::from_incomplete_map"),
   ("advance past empty-word symbols", P + "cfsm/item.rs ItemBody::advance")],
  [("states", "item sets with transitions", P + "cfsm/state.rs State")],
  ["Cfsm::from_grammar(g).to_dot()"])

p("C12", "A parser is built exactly for the SLR(1) grammars",
  "For every grammar in which all variables are reachable and can derive a string of terminals, constructing the parser succeeds exactly when the grammar is SLR(1), that is, when the augmented LR(0) automaton with FOLLOW lookaheads (end of input included) has no shift/reduce or reduce/reduce conflict. "
  "Otherwise construction panics and no parser is produced.",
  ["programs"],
  "every reduced grammar",
  "tests construct a parser for one grammar, which is SLR; neither rejection nor acceptance of any other shape is tested.",
  [P + "parser/table.rs", P + "parser/slr.rs", P + "grammar.rs", P + "cfsm/mod.rs"],
  [("conflict detection on insertion", P + "parser/table.rs ParseTable::insert_action"),
   ("FOLLOW sets", P + "grammar.rs Grammar::follow_set")],
  [("action, goto", "SLR tables", P + "parser/table.rs ParseTable")],
  ["Slr::new"])

p("C13", "The parser accepts exactly the grammar's language",
  "For every grammar for which a parser is built and every token sequence, parsing succeeds if and only if the start variable derives exactly that sequence; no proper prefix, suffix or fragment of a sentence is accepted unless it is itself a sentence. "
  "Rules with empty bodies, unit rules and left, right and middle recursion are included.",
  ["programs", "inputs"],
  "every SLR(1) grammar x every token sequence",
  "one test parses one sentence of one left-recursive grammar; no invalid input is ever parsed.",
  [P + "parser/slr.rs", P + "parser/table.rs", P + "grammar.rs", P + "cfsm/mod.rs", P + "cfsm/item.rs"],
  [("shift/reduce driver", P + "parser/slr.rs Slr::parse, handle_token"),
   ("table construction", P + "parser/table.rs ParseTable::new_slr"),
   ("FIRST and FOLLOW", P + "grammar.rs first_bodies, follow_set")],
  [("stack", "states and partial trees", P + "parser/slr.rs Slr::parse")],
  ["Slr::parse result"])

p("C14", "A successful parse returns the derivation tree of the whole input",
  "Whenever parsing succeeds, the returned tree is a derivation of the complete input: its root is the start variable, the children of every inner node, read from last to first, spell a body of that node's variable with empty-word symbols left out, "
  "and the leaves, read in that same order, are exactly the input's tokens.",
  ["programs", "inputs"],
  "every SLR(1) grammar x every accepted token sequence",
  "one tree is compared in one test.",
  [P + "parser/slr.rs", P + "cst.rs", P + "parser/table.rs"],
  [("reduction collects children", P + "parser/slr.rs Slr::handle_token"),
   ("number of symbols to pop", P + "parser/table.rs ParseTable::new_slr")],
  None, ["Debug of the tree returned by Slr::parse"])

p("C15", "Parse actions are exactly the SLR(1) actions",
  "For every reduced SLR(1) grammar the parse table holds a shift for exactly the terminals after a bullet, a reduction by a completed rule for exactly the terminals that can follow the rule's variable and for end of input exactly if the variable can end a sentence, and acceptance only on end of input after the start variable. "
  "FIRST and FOLLOW are exact also with empty-word rules, recursion and mutual dependencies between variables.",
  ["programs"],
  "every reduced SLR(1) grammar",
  "FIRST and FOLLOW are compared for four small grammars; the table for none.",
  [P + "grammar.rs", P + "parser/table.rs"],
  [("FIRST worklist", P + "grammar.rs Grammar::first_bodies"),
   ("FOLLOW fixpoint", P + "grammar.rs Grammar::follow_set"),
   ("table filling", P + "parser/table.rs ParseTable::new_slr")],
  [("action, goto", "SLR tables", P + "parser/table.rs ParseTable")],
  ["Debug of Slr"])

p("C16", "Parsing succeeds only if the whole text was tokenized",
  "Parsing a text succeeds only if the lexer turns the entire text into tokens and that token sequence is a sentence of the grammar. "
  "Text the lexer cannot tokenize, at the start, in the middle or at the end, makes the parse fail; it is never treated as the end of the input.",
  ["inputs", "programs"],
  "every SLR(1) grammar x every text, including texts with untokenizable characters at every position",
  "the one parse test uses a fully tokenizable text.",
  [P + "parser/slr.rs", L + "lexer/mod.rs"],
  [("end-of-input handling", P + "parser/slr.rs Slr::parse"),
   ("lexer end", L + "lexer/mod.rs Lexer::next")],
  None, ["Slr::parse on a Lexer over arbitrary text"])

p("C17", "Parsing is a pure function of grammar and text, and never panics or hangs",
  "For every grammar and text the outcome of constructing a parser and parsing (refusal, failure, or success with its tree) is the same whatever the order in which rules were added, the hash seeds of the process, and the inputs, valid or not, the same parser handled before. "
  "Parsing with a constructed parser never panics and always terminates, on invalid input too.",
  ["programs", "inputs", "histories", "schedules"],
  "every grammar x rule order x hash seed x history of earlier parses",
  "each test runs once with one random hash seed and one parse per parser.",
  [P + "parser/slr.rs", P + "parser/table.rs", P + "grammar.rs", P + "cfsm/mod.rs"],
  [("state numbering independent of meaning", P + "cfsm/mod.rs Cfsm::from_grammar"),
   ("stateless parse", P + "parser/slr.rs Slr::parse"),
   ("tables cover every state", P + "parser/table.rs")],
  [("iteration order", "order of std hash maps, seeded per process", P + "grammar.rs, cfsm/*.rs")],
  ["Slr::new, Slr::parse"])

p("C18", "Terminals match by the user's equivalence and keep their payload",
  "A token fits a terminal of the grammar exactly when the user's terminal equivalence says so, regardless of the payload either carries, and the tree returned contains the tokens the lexer produced, with their own payload, not the grammar's representatives. "
  "End of input never matches any terminal.",
  ["programs", "inputs"],
  "every SLR(1) grammar over payload-carrying terminals x every token sequence x every assignment of payloads",
  "one test has one payload-carrying terminal and four values.",
  [P + "parser/table.rs", P + "parser/slr.rs", P + "parser/traits.rs"],
  [("table key equality and hash", P + "parser/table.rs impl PartialEq/Hash for Terminal"),
   ("shift moves the token's kind into the tree", P + "parser/slr.rs handle_token")],
  None, ["Slr::parse result"])

p("C19", "Automata and parsers never touch freed or foreign memory",
  "No sequence of building, cloning, moving, using and dropping grammars, automata, parsers, lexers and trees, in any order the API allows, reads or writes memory that is freed, uninitialized or out of bounds. "
  "Moving a parser or dropping the grammar it was built from never changes what it does.",
  ["programs", "histories"],
  "every grammar x every sequence of life-cycle operations",
  "tests keep every object in place until the end of the test and run without a memory checker.",
  [P + "cfsm/item.rs", P + "cfsm/state.rs", P + "cfsm/mod.rs", P + "parser/table.rs"],
  [("pinned self-referential automaton", P + "cfsm/mod.rs Cfsm, CfsmBuilder"),
   ("raw pointers into the pinned grammar", P + "cfsm/item.rs ItemBody, cfsm/state.rs WSymbol, parser/table.rs Terminal")],
  [("body, symbol, terminal pointers", "NonNull pointers into the grammar", P + "cfsm/item.rs, state.rs, parser/table.rs")],
  ["address sanitizer / interpreter reports while using the public API"])

p("C20", "The DOT export is well-formed and shows the whole automaton",
  "For every grammar, whatever text its variables and terminals render to, the exported graph is well-formed DOT: every label is a properly quoted string. "
  "It has exactly one node per state, showing all items of the state with the bullet at its position, and exactly one labelled edge per transition.",
  ["programs", "inputs"],
  "every grammar x every rendering of its symbols, including quotes and backslashes",
  "nothing tests the export.",
  [P + "cfsm/dot.rs"],
  [("label rendering", P + "cfsm/dot.rs node_labels_dot, transitions_dot"),
   ("bullet placement", P + "cfsm/dot.rs Display for ItemBody")],
  None, ["Cfsm::to_dot"])

p("C21", "Tokenizing is a pure function of patterns and text, however it is iterated",
  "The tokens of a text depend on the configured patterns and the text alone: they are the same whatever the hash seeds of the process, and whatever other lexers exist, are advanced in between or are dropped. "
  "Taking tokens by next, nth, skip, take, fold, count or last, and moving the lexer in between, gives the same tokens, and the size hint is never wrong.",
  ["programs", "inputs", "histories", "schedules"],
  "every list of patterns x every text x hash seed x order of calls on several lexers x way of iterating",
  "each test runs one lexer to its end, once, with one random hash seed.",
  [L + "lexer/mod.rs", L + "lexer/input.rs", L + "fsm/nfa/sim.rs", L + "fsm/nfa/model.rs"],
  [("iterator implementation", L + "lexer/mod.rs Lexer::next"),
   ("set of simultaneous runs", L + "fsm/nfa/sim.rs NfaSimulator")],
  [("iteration order", "order of std hash maps and sets, seeded per process", L + "fsm/nfa/model.rs, sim.rs")],
  ["Iterator methods of Lexer"])

p("C22", "Building automata and parsers, and parsing, always end at polynomial cost",
  "For every grammar, also one with useless, cyclic or mutually recursive variables, constructing the canonical automaton and the parser ends, with a result or a refusal, after work that is at most polynomial in the size of the grammar and of its canonical automaton. "
  "Parsing ends after work that is at most polynomial in the length of the text.",
  ["programs", "inputs"],
  "every grammar x every text; growth observed on families of increasing size",
  "tests build five small grammars and parse one short text.",
  [P + "cfsm/mod.rs", P + "cfsm/item.rs", P + "grammar.rs", P + "parser/table.rs", P + "parser/slr.rs"],
  [("worklist of states", P + "cfsm/mod.rs Cfsm::from_grammar"),
   ("FIRST and FOLLOW by repetition until nothing changes", P + "grammar.rs"),
   ("one action per step", P + "parser/slr.rs Slr::parse")],
  None, ["Cfsm::from_grammar, Slr::new, Slr::parse"])

p("C23", "The lexer automaton's DOT export is well-formed and denotes the patterns",
  "For every list of accepted patterns, whatever characters they contain, the exported graph of the automaton is well-formed DOT: every label is a properly quoted string that displays the transition's input unchanged. "
  "It marks the start and the final states and has an edge for every transition, so that read as a counting automaton it accepts exactly the texts one of the patterns denotes.",
  ["programs", "inputs"],
  "every list of patterns, including quotes, backslashes and control characters, x every text",
  "nothing tests the export.",
  [L + "fsm/nfa/dot.rs", L + "fsm/nfa/compiler.rs", L + "fsm/nfa/model.rs"],
  [("label rendering", L + "fsm/nfa/dot.rs transition_tuples"),
   ("final states and edges", L + "fsm/nfa/dot.rs to_dot, transition_dot")],
  None, ["Display for Nfa"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for q in props:
        f.write(json.dumps(q, ensure_ascii=False) + "\n")
print(len(props), "properties")
