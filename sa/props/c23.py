"""The table dump. The text output_table writes is computed as an emission by abstract interpretation (writes, loops, conditions, interpolated values) and compared with
a specification: one line per rule with its position among the rules, one line with the names of the symbols, one line per state with one cell per symbol in the order of the
names; what a cell says is decided by the table entry of that state and that symbol. Padding is left out of the comparison, line breaks are kept. The texts of rules and symbols
are compared the same way."""
from ..term import *
from ..emit import strip_layout
TECHNIQUE = 'static analysis: abstract interpretation of rustc MIR (emission of the dump) compared with a specification template'
RULES = ['rules are listed with their position, symbols are named in the order of the columns', 'the cell of a state and a symbol shows the entry of that state and that symbol',
         'sN for a shift to state N, rN for a reduction by rule N, a for acceptance, e for an error, c for several actions, nothing for no entry', 'rules read left side, arrow, right side; symbols name(number)']
FLOORS = {'emitted_values': 12, 'emission_loops': 8, 'obligations': 80}
F = 'lapex_parser::output_table'
NAME = 'lapex_parser::Grammar::get_symbol_name'
SYMS = [('each(Grammar.tokens)', 'each(Grammar.tokens).0'), ('each(Grammar.productions)', 'each(Grammar.productions).0'), ('each(Grammar.anonymous_non_terminals)', 'each(Grammar.anonymous_non_terminals)')]
ASSUME = ['nonempty(mapval(ActionGotoTable.entries, _))']


def cell(state, sym):
    e = 'mapval(ActionGotoTable.entries, (%s, %s))' % (state, sym)
    here = 'contains(ActionGotoTable.entries, (%s, %s))' % (state, sym)
    one = '%s & !pos(len(%s) - 1) & at(%s, 0) is ' % (here, e, e)
    return f'''
@if !{here}
|
@end
@if {one}Accept
a |
@end
@if {one}Error
e |
@end
@if {one}Reduce
r«mapval(?m, at({e}, 0)!Reduce.rule)» |
@end
@if {one}Shift
s«at({e}, 0)!Shift.target» |
@end
@if {here} & pos(len({e}) - 1)
c |
@end
'''


def dump(rules):
    st = 'each(range(0, ActionGotoTable.state_count))'
    head = ''.join(f'@for {l}\n| «{NAME}(Grammar, {s})»\n@end\n' for l, s in SYMS)
    row = ''.join(f'@for {l}\n{cell(st, s)}@end\n' for l, s in SYMS)
    return f'Rules: ¶\n{rules}¶\n{head}| «{NAME}(Grammar, Symbol::End)» | ¶\n@for {st}\n«{st}» |\n{row}{cell(st, "Symbol::End")}¶\n@end\n'


LISTS = ['@for each(?m)\n«each(?m).1» : «RuleDisplay{rule: each(?m).0, grammar: Grammar}» ¶\n@end\n',
         '@for each(Grammar.rules)\n«idx(Grammar.rules, _)» : «RuleDisplay{rule: each(Grammar.rules), grammar: Grammar}» ¶\n@end\n']


def run(ctx):
    em = ctx.emission(F, ('get_symbol_name',))
    if em is None:
        return
    b = ctx.emits(em, 'dump', [dump(l) for l in LISTS], 'dump', assume=ASSUME, seq=strip_layout(em, em.written()))
    s = ctx.summary(F, ('get_symbol_name',))
    if b is not None and s is not None:
        ctx.spec(s, 'numbers', 'for each(Grammar.rules): put(?m, each(Grammar.rules), idx(Grammar.rules, _))', watch=['m'])
    rd = ctx.emission('<lapex_parser::RuleDisplay as core::Display>::fmt', ('get_symbol_name',))
    if rd is not None:
        R = 'RuleDisplay.rule'
        rhs = f'@for each({R}.rhs)\n«{NAME}(RuleDisplay.grammar, each({R}.rhs))»\n@end\n'
        L = f'{R}.lhs'
        ctx.emits(rd, 'rule', f'@if {L} is Some\n«{NAME}(RuleDisplay.grammar, Symbol::NonTerminal{{0: {L}!Some}})» -> \n@end\n{rhs}', 'rule', seq=strip_layout(rd, rd.written()))
    n = ctx.summary(NAME)
    if n is not None:
        ctx.spec(n, 'symbol', '''
            return(fmt(mapval(Grammar.tokens, Symbol), '(', Symbol!Terminal, ')')) if Symbol is Terminal
            return(fmt(mapval(Grammar.productions, Symbol), '(', Symbol!NonTerminal, ')')) if Symbol is NonTerminal & contains(Grammar.productions, Symbol)
            return(fmt('<anon>(', Symbol!NonTerminal, ')')) if Symbol is NonTerminal & !contains(Grammar.productions, Symbol)
            return('<eps>') if Symbol is Epsilon
            return('<end>') if Symbol is End
        ''', watch=['return'])
