"""Generated C++ LR parsers. The texts of parser.h, parser.cpp, parser_impl.h and visitor.h are computed as emission trees by abstract interpretation of the
generator (templates and substitutions included) and compared with specification templates: per state and token the action of the table cell, per state and
symbol the transition of the cell, per rule the number of symbols to pop, the symbol to push and the visitor call, an error outcome listing exactly the tokens
with an action. Rule numbers and groups are tied to the grammar by the effects that fill the maps."""
from .c09 import lookups
from .c10 import KINDS, ONE, FILLED, MAPS
RULES = ['every shift, reduce and accept entry of the table is emitted in the place of its own state and symbol', 'a rule is popped, pushed and visited as the rule with that number',
         'the error outcome of a state lists the tokens that have an action there', 'rule numbers: position in the list of rules; groups: rules by left-hand side, in order',
         'driver code equals the specified text up to renaming of locals, comments and layout (shift/reduce loop, acceptance only at the end of the input)']
FLOORS = {'emitted_values': 50, 'emission_loops': 14}
F = '<lapex_cpp_codegen::CppLRParserCodeGen as lapex_parser::LRParserCodeGen>::generate_code'
MORE = ['at(mapval(ActionGotoTable.entries, (_, Symbol::End)), 0) isnt Shift|Accept', '!contains(Grammar.productions, each(Grammar.anonymous_non_terminals))',
        'each(Grammar.rules).lhs is Some', 'each(?ix).0.lhs is Some', 'nonempty(mapval(?by, Symbol::NonTerminal{0: each(?ix).0.lhs!Some}))']


def run(ctx):
    em = ctx.emission(F, ('state_has_shift',))
    binds = {}
    assume = KINDS + ONE + FILLED + MORE
    for f in ('parser.h', 'parser.cpp', 'parser_impl.h', 'visitor.h'):
        b = ctx.emits(em, f, ctx.tpl('cpp_lr_' + f), f, assume=assume)
        for k in ('by', 'ix'):
            if b is not None and k in b:
                if k in binds:
                    ctx.require(binds[k] is b[k], 'maps/' + k, 'the generated files use different rule numbers')
                binds[k] = b[k]
    if len(binds) == 2:
        ctx.spec(em.summ, 'numbering', MAPS, watch=['by', 'ix'], assume=assume, binds=binds, ignore=[('by', 'putnew')])
    lookups(ctx)
