#!/usr/bin/env python3
"""writes properties.jsonl (the property texts live here, one call each)"""
import json
import os
P = []


def prop(pid, title, statement, over, qtext, why, files, mech, observe=()):
    P.append({'id': pid, 'title': title, 'statement': ' '.join(statement.split()),
              'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': ' '.join(why.split()),
              'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech],
                          'observe_at': list(observe), 'hook_needed': None}})


G = 'every rule file (every grammar and token set)'

prop('C01', 'Lexer character classes partition Unicode at every border a pattern uses', '''
For every set of token rules, the character classes the lexer is built on are disjoint, ascending, together cover every code point from
the lowest to the highest, and every character or range end occurring anywhere in a token pattern (inside sequences, alternatives,
repetitions, plain and negated character sets, or literals) is a class border of its own. Looking a character up finds exactly the
class that contains it.''', ['programs', 'inputs'], G + ' and every character',
     'The tests build three small patterns; no test compares the classes with the patterns, and a missing border only shows for characters next to it.',
     ['lapex-lexer/src/alphabet.rs'],
     [('border collection over all pattern forms', 'lapex-lexer/src/alphabet.rs get_chars_from_pattern'),
      ('class construction', 'lapex-lexer/src/alphabet.rs generate_alphabet'), ('lookup', 'lapex-lexer/src/alphabet.rs Alphabet::find_range')])

prop('C02', 'Token patterns become automaton fragments with the pattern\'s language', '''
For every token pattern the automaton fragment built between its start and end state accepts exactly the pattern's language: a sequence
chains its parts in order, an alternative offers each branch, a repetition accepts exactly between its minimum and maximum number of
copies (unbounded if there is no maximum), and a character, range or (negated) set accepts exactly the classes it denotes. Every token
rule contributes one such fragment, reachable from the common start state and ending in an accepting state labelled with that very rule.''',
     ['programs', 'inputs'], G + ' and every input string of the generated lexer',
     'Tests cover two tiny automata by node and edge counts; repetition bounds, negation and nesting quantify over all patterns.',
     ['lapex-lexer/src/nfa/mod.rs', 'lapex-automaton/src/lib.rs'],
     [('fragment construction', 'lapex-lexer/src/nfa/mod.rs build_nfa_from_pattern'), ('chaining', 'lapex-lexer/src/nfa/mod.rs chain_pattern_iterator'),
      ('rule assembly', 'lapex-lexer/src/nfa/mod.rs generate_nfa')])

prop('C03', 'Determinisation preserves the language and the matched rules of the automaton', '''
For every nondeterministic automaton, the deterministic automaton produced from it accepts the same strings and reports, in each accepting
state, exactly the rules accepted by the member states: every state set is closed under empty transitions, each outgoing symbol of a member
leads to the set of all its targets, equal sets share one state, and different sets never share one.''', ['programs', 'inputs'],
     'every token automaton and every input string',
     'Tests check at most state counts of tiny automata; missing closure steps or merged sets only show for particular overlaps of token rules.',
     ['lapex-automaton/src/lib.rs'],
     [('epsilon closure', 'lapex-automaton/src/lib.rs Nfa::epsilon_closure'), ('subset construction', 'lapex-automaton/src/lib.rs Nfa::add_powerset_to_dfa'),
      ('conversion', 'lapex-automaton/src/lib.rs Nfa::convert_powerset_to_dfa')])

prop('C04', 'Overlapping token rules: highest precedence wins, ties are an error', '''
Whenever several token rules match the same text, the generated lexer reports the one whose declared precedence is strictly highest (a rule
without declared precedence has the default of its kind), independent of the order of the rules. If the highest precedence is shared, generation
fails with an error naming exactly the tied rules, and resolving precedence changes nothing else about the automaton's states and transitions.''',
     ['programs'], 'every token set and every overlap between its rules',
     'No test has three rules overlapping in one state or a tie below the top; the resolution quantifies over all overlaps.',
     ['lapex-lexer/src/lib.rs', 'lapex-input/src/lib.rs'],
     [('resolution', 'lapex-lexer/src/lib.rs resolve_precedence'), ('mapping over the automaton', 'lapex-lexer/src/lib.rs apply_precedence_to_dfa'),
      ('default precedences', 'lapex-input/src/lib.rs TokenRule::precedence')])

prop('C05', 'Generated lexers encode the whole token automaton', '''
For every token automaton the generated Rust and C++ lexers contain, for each automaton state, one step that returns exactly that state's token
(or an error for non-accepting states) when no further character matches, and exactly the automaton's transitions: each class range tested
inclusively and leading to the state the automaton leads to, starting in the automaton's start state. Tokens and their names are emitted
for every token rule, under the same name everywhere.''', ['programs', 'inputs'], 'every token set, both target languages',
     'Generated lexers are compiled and run by no test except the one bootstrapped grammar.',
     ['lapex-rust-codegen/src/lexer/mod.rs', 'lapex-cpp-codegen/src/lexer/mod.rs', 'lapex-cpp-codegen/src/lexer/lexer.cpp.tpl'],
     [('Rust lexer emitter', 'lapex-rust-codegen/src/lexer/mod.rs'), ('C++ lexer emitter', 'lapex-cpp-codegen/src/lexer/mod.rs')])

prop('C06', 'Grammar rules are expanded to productions with the same language', '''
For every rule file, each production rule yields exactly the productions its pattern denotes: elements of a sequence in order, one production per
alternative, optional = pattern or nothing, repetition = nothing/one copy and one copy followed by the repetition, each on a fresh nonterminal
used nowhere else. A name is resolved to the single token or nonterminal declared with it; an undeclared name, a name declared as two tokens, or as token
and production, is rejected with an error.''', ['programs'], G,
     'Tests only build grammars through the code generator; which productions come out of nested operators is never compared.',
     ['lapex-parser/src/grammar_builder.rs', 'lapex-parser/src/grammar.rs'],
     [('pattern expansion', 'lapex-parser/src/grammar_builder.rs transform_pattern'), ('symbol table', 'lapex-parser/src/grammar_builder.rs from_rule_set'),
      ('fresh nonterminals', 'lapex-parser/src/grammar_builder.rs get_temp_symbol')])

prop('C07', 'LL(1) tables are the FIRST/FOLLOW tables and conflicts are reported', '''
For every grammar, the predictive table holds a production for a nonterminal and lookahead exactly when the lookahead can start the production's
right-hand side, or the right-hand side can be empty and the lookahead (including end of input) can follow the nonterminal. When two productions
claim the same cell, generation fails with the conflict instead of keeping either one.''', ['programs'], G,
     'No test inspects an LL table; FIRST and FOLLOW are fixpoints over the whole grammar.',
     ['lapex-parser/src/util.rs', 'lapex-parser/src/ll_parser/mod.rs'],
     [('FIRST sets', 'lapex-parser/src/util.rs compute_first_sets'), ('FOLLOW sets', 'lapex-parser/src/ll_parser/mod.rs compute_follow_sets'),
      ('table', 'lapex-parser/src/ll_parser/mod.rs generate_table'), ('conflict check', 'lapex-parser/src/ll_parser/mod.rs check_for_conflict_and_insert')])

prop('C08', 'LR automata: closure, transitions and lookaheads follow the item rules', '''
For every grammar, every state of the LR automaton is the full closure of its items: each nonterminal after a dot contributes all its
productions, with exactly the lookaheads that can follow it there (the first symbols of the rest of the item, and the item's own lookahead when the rest can be empty), and each
symbol after a dot has a transition to the closure of the advanced items. Without state merging equal item sets share a state and different ones do not; with
merging, states of equal core are united, and a state whose items grew is processed again.''', ['programs'], G + ', with and without merging of states',
     'The automaton is tested for one small grammar; lookahead propagation depends on the global shape of the grammar.',
     ['lapex-parser/src/lr_parser/mod.rs', 'lapex-parser/src/lr_parser/item.rs', 'lapex-parser/src/lr_parser/bidimap.rs'],
     [('closure', 'lapex-parser/src/lr_parser/mod.rs expand_item'), ('lookaheads', 'lapex-parser/src/lr_parser/mod.rs determine_lookaheads_to_expand'),
      ('state graph', 'lapex-parser/src/lr_parser/mod.rs generate_parser_graph'), ('merging', 'lapex-parser/src/lr_parser/mod.rs merge_into_state')])

prop('C09', 'LR tables hold every shift, reduce and accept; conflicts are never silent', '''
For every grammar, each table cell holds a shift for every transition of its state, a reduction for every completed item on exactly its lookaheads, acceptance for the start
symbol in the start state, and an error only where nothing else applies. Two completed items sharing a lookahead, or a completed item whose lookahead can also be shifted, are always found and
reported as a conflict, and unless conflicts are explicitly allowed no table is produced from a grammar that has one.''', ['programs'], G,
     'One unambiguous grammar is exercised; that no conflict is dropped quantifies over all grammars.',
     ['lapex-parser/src/lr_parser/mod.rs'],
     [('conflict detection', 'lapex-parser/src/lr_parser/mod.rs find_conflicts'), ('table construction', 'lapex-parser/src/lr_parser/mod.rs build_table'),
      ('gate', 'lapex-parser/src/lr_parser/mod.rs generate_table')])

prop('C10', 'Rust LR parsers encode the whole parser table', '''
For every grammar and table, the generated Rust LR parser has one dispatch arm per state and terminal or end of input that performs exactly the table's action, goto arms that lead
to the table's target, reductions that pop exactly as many symbols as the production has and call the visitor function of that production,
starts in the table's start state, accepts only at the end of input, and on a cell without an action fails with an error naming exactly the
tokens the state has actions for.''', ['programs', 'inputs'], G + ', every token sequence',
     'Only the bootstrapped grammar is generated and run.',
     ['lapex-rust-codegen/src/lr_parser/mod.rs'],
     [('action and goto emission', 'lapex-rust-codegen/src/lr_parser/mod.rs')])

prop('C11', 'C++ LR parsers encode the whole parser table', '''
For every grammar and table, the generated C++ LR parser has for every state and terminal or end of input exactly the table's action, for every state and nonterminal the
table's target state, the length, left-hand side and visitor call of every production, starts in the table's start state, and accepts only at the end of input.''', ['programs', 'inputs'], G + ', every token sequence',
     'No test compiles or runs generated C++.',
     ['lapex-cpp-codegen/src/lr_parser/action_goto.rs', 'lapex-cpp-codegen/src/lr_parser/mod.rs', 'lapex-cpp-codegen/src/lr_parser/parser_impl.h.tpl'],
     [('action and goto emission', 'lapex-cpp-codegen/src/lr_parser/action_goto.rs'), ('reductions', 'lapex-cpp-codegen/src/lr_parser/mod.rs')])

prop('C12', 'C++ LL parsers encode the whole predictive table', '''
For every grammar and predictive table, the generated C++ LL parser expands a nonterminal on a lookahead, including end of input, exactly by the table's production: it pushes the
production's symbols so that they are processed left to right, reports a parse error on every empty cell, and announces entering and leaving of exactly the named nonterminals.''',
     ['programs', 'inputs'], G + ', every token sequence', 'No test compiles or runs generated C++.',
     ['lapex-cpp-codegen/src/ll_parser/mod.rs', 'lapex-cpp-codegen/src/ll_parser/parser_impl.h.tpl'],
     [('table switch', 'lapex-cpp-codegen/src/ll_parser/mod.rs write_table_switch')])

prop('C13', 'Rust GLR parsers encode every table action, including all conflicting ones', '''
For every grammar and table, the generated Rust GLR parser tries, for each state and lookahead, every shift and every reduction of the table cell, with the target, production length,
left-hand side and visitor call the table gives, so that no derivation of an ambiguous input is lost and the visits reported for an accepted input are those of one
derivation of it. (Whether parsing ends on grammars in which a nonterminal derives itself, or is left-recursive behind an empty one, is not part of this property.)''', ['programs', 'inputs'], G + ', every token sequence',
     'No test generates or runs a GLR parser.',
     ['lapex-rust-codegen/src/glr_parser/mod.rs'], [('emission', 'lapex-rust-codegen/src/glr_parser/mod.rs')])

prop('C14', 'Visitor declarations and visitor calls of generated parsers agree', '''
For every grammar, the visitor functions a generated parser declares and the ones it calls agree one to one in name, number and order of arguments: LR and GLR parsers have one function per
production, `reduce_` and its nonterminal, followed - when the nonterminal has several productions - by the production's tag (Rust parsers, named nonterminals) or else its position among them;
LL parsers have `enter_` and `exit_` per named nonterminal; reducing a production calls the function of that production and no other. Distinct productions have distinct functions.''', ['programs'], G,
     'Only one grammar is generated and compiled; the agreement must hold for every grammar and tag combination.',
     ['lapex-rust-codegen/src/lr_parser/mod.rs', 'lapex-rust-codegen/src/glr_parser/mod.rs', 'lapex-cpp-codegen/src/lr_parser/mod.rs'],
     [('naming', 'lapex-rust-codegen/src/lr_parser/mod.rs write_visitor'), ('calls', 'lapex-rust-codegen/src/lr_parser/mod.rs write_reduce_function')])

prop('C15', 'Each requested algorithm and language runs exactly its own pipeline', '''
Requesting LL(1), LR(0), LR(1), LALR or GLR builds the table with exactly that algorithm's lookahead length, state merging and conflict policy, on the grammar of the given file, and hands it to the generator of the requested
language and parser family. The lexer is generated from the same rules when it is requested and only then; a conflict or failed stage ends generation with an error and no parser.''',
     ['configurations', 'programs'], 'every combination of algorithm, language and options', 'One combination is exercised by the build.',
     ['lapex/src/lib.rs', 'lapex-cli/src/main.rs'], [('dispatch', 'lapex/src/lib.rs generate_lexer_and_parser'), ('languages', 'lapex/src/lib.rs LanguageFactory')])

prop('C16', 'Output failures are never swallowed and failures reach the exit status', '''
Every failure to create, write or flush an output file makes generation fail visibly: no write result is discarded, every buffered file is flushed with its error checked, and
a command line run that could not generate its output ends with an error message and a non-zero exit status.''', ['fault_sequences', 'programs'], 'every point at which the file system can fail, every error of the rule file',
     'No test injects an I/O fault or looks at the exit status.',
     ['lapex-codegen/src/lib.rs', 'lapex-codegen/src/templating.rs', 'lapex-cli/src/main.rs', 'lapex/src/lib.rs'],
     [('writer', 'lapex-codegen/src/lib.rs GeneratedCodeWriter::generate_code'), ('exit status', 'lapex-cli/src/main.rs main')])

prop('C17', 'Generation is deterministic', '''
The same rule file and options always produce byte-identical output and the same error report: nothing that reaches an output depends on hash iteration order,
addresses, time, randomness, environment or thread scheduling.''', ['programs', 'histories'], 'every rule file and every run', 'A test run compares nothing across runs; hash order differs per process.',
     ['lapex-parser/src/lr_parser/mod.rs', 'lapex-rust-codegen/src/glr_parser/mod.rs'], [('ordered collections', 'all crates')])

prop('C18', 'Templates and the code that fills them agree', '''
Every placeholder in a code template is filled by the generator of that template under exactly that name, every substitution a generator supplies has a placeholder in its template, and
placeholders keep their surrounding text intact.''', ['programs'], 'every template and every generated file', 'No test renders the C++ templates.',
     ['lapex-codegen/src/templating.rs', 'lapex-cpp-codegen/src'], [('substitution', 'lapex-codegen/src/templating.rs')])

prop('C19', 'Rule and symbol numbering never wraps or collides', '''
However many token rules, production rules and operators a rule file has, every symbol keeps its own number: a file with more symbols or longer rules than the generator or its output can number
is rejected with an error, never truncated.''', ['programs'], 'every size of rule file', 'Tests have fewer than twenty rules; truncation needs tens of thousands.',
     ['lapex-parser/src/grammar_builder.rs', 'lapex-parser/src/ll_parser/mod.rs', 'lapex-cpp-codegen/src'], [('index types', 'lapex-parser/src/grammar_builder.rs')])

prop('C20', 'Rule files are read into the rules they spell', '''
For every valid rule file, the reader produces exactly one token or production rule per rule written, with its name, precedence, tag and pattern structure (sequence in order, alternatives, repetition, option, grouping, empty) as
spelled, a string token standing for its characters with escapes removed, and exactly the entry rule written; blanks and line breaks between symbols change nothing. (The order of rules and of alternatives carries no meaning.)''',
     ['programs'], 'every valid rule file', 'Two example files are compared between the two readers.',
     ['lapex-input-gen/src/lib.rs', 'lapex-input-gen/src/lapex.lapex'],
     [('declared input language', 'lapex-input-gen/src/lapex.lapex'), ('syntax trees', 'lapex-input-gen/src/lib.rs LapexAstVisitor'), ('hand-over', 'lapex-input-gen/src/lib.rs parse_lapex')])

prop('C21', 'Regular expressions of token rules keep their meaning', '''
Every regular expression of a token rule is converted to a pattern with the same language: literals character by character, classes range by range, repetitions with the same bounds, concatenations and alternations in order;
constructs that cannot be expressed (look-around, lazy repetitions, byte classes) are rejected with an error.''', ['programs'], 'every regular expression', 'Tests convert three expressions.',
     ['lapex-input-gen/src/lib.rs'], [('conversion', 'lapex-input-gen/src/lib.rs make_pattern_from_hir'), ('use', 'lapex-input-gen/src/lib.rs reduce_token_rule')])

prop('C22', 'Errors point at the rules they are about', '''
Every source span attached to a rule starts at the rule's first character and ends right after its last, counted in lines and characters, and every error about rules prints exactly the source text of those rules.''', ['programs'],
     'every rule file, including non-ASCII text', 'No test checks a span.', ['lapex-input-gen/src/lib.rs', 'lapex/src/errors.rs', 'lapex-input/src/lib.rs'], [('span tracking', 'lapex-input-gen/src/lib.rs'), ('printing', 'lapex/src/errors.rs')])

prop('C23', 'The table dump shows the parser table', '''
With --table, the dump of an LR or GLR parser table lists every grammar rule once on its own line with its number, left side and right side, then names every symbol (name and number, so that different symbols read differently), and
then has one line per state with one cell per symbol in the order of the names: sN for a shift to state N, rN for a reduction by rule N of the list, a for acceptance, e for an error, c for several actions, blank for no entry.
No state, symbol, rule or action is left out, and nothing is shown that the table does not hold.''', ['programs'], 'every grammar', 'No test looks at a dump.',
     ['lapex-parser/src/lr_parser/mod.rs', 'lapex-parser/src/grammar.rs'], [('dump', 'lapex-parser/src/lr_parser/mod.rs output_table'), ('texts of rules and symbols', 'lapex-parser/src/grammar.rs')])

prop('C24', 'Names in generated code keep tokens and nonterminals apart', '''
In all generated code every token and every nonterminal is called by one identifier, made from its whole name (Tk or Nt and the name in upper camel case in Rust: each piece between underscores with its first letter in
upper case and the rest in lower case; TK_ and the name, NT_ and the name in capitals in C++) or, if it has no name, from its whole number (NtAnonN, NT_ANONN). Every name the input language allows yields an identifier (generation
never panics on a name), and different symbols get different identifiers.''', ['programs'], 'every rule file, every name', 'Tests generate code for one grammar with well-behaved names.',
     ['lapex-rust-codegen/src/lib.rs', 'lapex-cpp-codegen/src'], [('camel case', 'lapex-rust-codegen/src/lib.rs convert_snake_to_upper_camel'), ('names of nonterminals', 'lapex-rust-codegen/src/lib.rs get_non_terminal_enum_name')])

prop('C25', 'The bootstrap reader reads its rule files as written', '''
BootstrapLapexInputParser (the hand-written reader the build starts from) reads rule files made of token, prod and entry rules separated by white space, and builds the rule set they spell: token literals by their characters;
patterns with sequences, groups of alternatives, repetitions (* zero or more, + one or more, ? at most one), character sets with ranges and negation, the dot, plain characters and the escapes for line feed, carriage return,
tab, backslash, slash and unicode code points (four to six hexadecimal digits of either case); productions with names, groups, alternatives and the same repetitions. Rules keep their kind and their order within a kind. What
cannot be read as a rule at the end of the file is an error, and so are no entry rule and several entry rules.''', ['programs'], 'every rule file of the bootstrap language', 'Tests read single characters; the build reads one fixed file.',
     ['lapex-input-bootstrap/src/lib.rs'], [('patterns', 'lapex-input-bootstrap/src/lib.rs parse_regex_*'), ('rules', 'lapex-input-bootstrap/src/lib.rs parse_lapex_file')])

if __name__ == '__main__':
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps(p) + '\n')
