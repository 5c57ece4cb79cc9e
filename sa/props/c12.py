"""Generated C++ LL parsers. The texts of parser.h, parser.cpp, parser_impl.h and visitor.h are computed as emission trees by abstract interpretation of the
generator (templates and substitutions included) and compared with specification templates: one case per nonterminal and filled table cell, pushing the
symbols of the cell's production last to first, an error for every other lookahead, enter and exit calls for exactly the named nonterminals, the entry symbol
on the initial stack."""
RULES = ['every filled cell of the table is emitted in the row of its nonterminal, under its own lookahead (tokens and end of input)', 'the symbols of a production are pushed in reverse order, each as itself',
         'every other lookahead throws an error listing the lookaheads of the row', 'enter and exit call the visitor function of that nonterminal, for all named nonterminals',
         'driver code equals the specified text up to renaming of locals, comments and layout (expand, match, exit; end of input matched last)']
FLOORS = {'emitted_values': 30, 'emission_loops': 10}
F = '<lapex_cpp_codegen::CppLLParserCodeGen as lapex_parser::LLParserCodeGen>::generate_code'
ASSUME = ['each(Grammar.tokens).0 is Terminal', 'each(Grammar.productions).0 is NonTerminal', 'each(Grammar.anonymous_non_terminals) is NonTerminal',
          '!contains(Grammar.productions, each(Grammar.anonymous_non_terminals))', 'Grammar.entry_symbol is NonTerminal']


def run(ctx):
    em = ctx.emission(F, ())
    for f in ('parser.h', 'parser.cpp', 'parser_impl.h', 'visitor.h'):
        ctx.emits(em, f, ctx.tpl('cpp_ll_' + f), f, assume=ASSUME)
