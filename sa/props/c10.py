"""Generated Rust LR parsers. The text of parser.rs is computed as an emission tree (text, interpolated values, loops, conditions) by abstract interpretation
of the generator and compared with a specification template: per state and token one action (shift, or reduce naming the rule of the entry), an error outcome
listing exactly the tokens with an action, per state and symbol the goto of the entry (target or acceptance), per rule the number of symbols to pop, the symbol
to push and the visitor call. Tables and rule numbers are tied to the grammar by the effects that fill the maps: rule numbers are positions in the list of rules."""
from ..term import *
RULES = ['every shift, reduce and accept entry of the table is emitted in the place of its own state and symbol', 'a rule is popped, pushed and visited as the rule with that number',
         'the error outcome of a state lists the tokens that have an action there', 'rule numbers: position in the list of rules; groups: rules by left-hand side, in order',
         'driver code equals the specified text up to renaming of locals, comments and layout (shift/reduce loop, acceptance only at the end of the input)']
FLOORS = {'emitted_values': 60, 'emission_loops': 20}
R = '<lapex_rust_codegen::RustLRParserCodeGen as lapex_parser::LRParserCodeGen>::generate_code'
OPAQUE = ('get_token_enum_name', 'get_non_terminal_enum_name')
KINDS = ['each(Grammar.tokens).0 is Terminal', 'each(Grammar.productions).0 is NonTerminal', 'each(Grammar.anonymous_non_terminals) is NonTerminal']
ONE = ['!pos(len(mapval(ActionGotoTable.entries, _)) - 1)']
FILLED = ['nonempty(mapval(ActionGotoTable.entries, _))', 'nonempty(each(?by).1)', 'each(?by).0 is NonTerminal']
MAPS = '''
    for each(Grammar.rules): madd(?by, Symbol::NonTerminal{0: each(Grammar.rules).lhs!Some}, each(Grammar.rules)) if each(Grammar.rules).lhs is Some
    for each(Grammar.rules): put(?ix, each(Grammar.rules), idx(Grammar.rules, 0))
'''


def run(ctx):
    em = ctx.emission(R, OPAQUE)
    b = ctx.emits(em, 'parser.rs', list(variants(ctx.tpl('rust_lr_parser.rs')[0])), 'parser.rs', assume=KINDS + ONE + FILLED)
    if b is not None:
        ctx.spec(em.summ, 'numbering', MAPS, watch=['by', 'ix'], assume=KINDS + ONE + FILLED, binds={k: b[k] for k in ('by', 'ix') if k in b}, ignore=[('by', 'putnew')])
    names(ctx)


def variants(t):
    """the rule numbers may be enumerated from the map or from the list"""
    a = '@for each(?ix)\nRule«each(?ix).1» ,\n@end'
    yield t
    for r in ('each(range(0, len(Grammar.rules)))', 'each(Grammar.rules)'):
        n = '«idx(Grammar.rules, _)»' if 'range' not in r else '«%s»' % r
        assert a in t
        yield t.replace(a, '@for %s\nRule%s ,\n@end' % (r, n))


def names(ctx):
    n = ctx.summary('lapex_rust_codegen::get_non_terminal_enum_name', ('convert_snake_to_upper_camel',))
    ctx.spec(n, 'nonterminal-name', '''
        return(fmt('Nt', convert_snake_to_upper_camel(mapval(Grammar.productions, Symbol)))) if contains(Grammar.productions, Symbol)
        return(fmt('NtAnon', Symbol!NonTerminal)) if !contains(Grammar.productions, Symbol)
    ''', watch=['return'])
    t = ctx.summary('lapex_rust_codegen::get_token_enum_name', ('convert_snake_to_upper_camel',))
    ctx.spec(t, 'token-name', "return(fmt('Tk', convert_snake_to_upper_camel(str)))", watch=['return'])
