"""LR tables. The value-flow summaries of the conflict search and of the table construction, specialised to no lookahead and to
one symbol of lookahead, must contain exactly these steps: completed items are grouped by lookahead, two in a group or one next to
an outgoing edge that can be taken on its lookahead is a conflict; every completed item is entered as a reduction of its own rule
under exactly its lookaheads, every edge as a shift to its target, the start symbol in the start state as acceptance; the table
is returned only after the conflicts were found, and not at all when there are any and they are not allowed."""
from ..term import *
from ..engine import *

RULES = ['conflicts: completed items of a state grouped by lookahead; >1 in a group = reduce/reduce, an outgoing edge (with that label, when there is lookahead) = shift/reduce; all collected',
         'reduce: under its lookahead (without lookahead: under every symbol and the end of input), of the rule of the item',
         'accept for the start symbol in the start state, otherwise shift to the target of the edge with that label, error only where no entry exists',
         'gate: no conflicts -> table; conflicts and allowed -> table and all conflicts; otherwise -> conflicts only',
         'lookup reads the entry of the state and symbol asked for']
FLOORS = {'obligations': 30}
SYMS = (('each(keys(Grammar.tokens))', 'each(Grammar.tokens).0'), ('each(keys(Grammar.productions))', 'each(Grammar.productions).0'),
        ('each(Grammar.anonymous_non_terminals)', 'each(Grammar.anonymous_non_terminals)'))
A = 'lapex_parser::ActionGotoTable::'


def run(ctx):
    for n in (0, 1):
        conflicts(ctx, n)
        table(ctx, n)
        gate(ctx, n)
    lookups(ctx)


def lookups(ctx):
    g = ctx.summary(A + 'get_entry')
    ctx.spec(g, 'lookup', '''
        return(Option::Some{0: mapval(self.entries, (usize, Symbol))}) if contains(self.entries, (usize, Symbol))
        return(Option::None) if !contains(self.entries, (usize, Symbol))
    ''', watch=['return'])
    for f, fld_ in (('states', 'state_count'), ('entry_state', 'entry_state')):
        ctx.spec(ctx.summary(A + f), f, 'return(self.%s)' % fld_, watch=['return'])
    s = ctx.summary(A + 'state_has_shift')
    key = lambda x: 'mapval(self.entries, (usize, %s))' % x
    some = ', '.join(f'exists({l}, each({key(x)}), and(contains(self.entries, (usize, {x})), is(each({key(x)}), Shift, Accept)))' for l, x in SYMS)
    end = key('Symbol::End')
    some += f', exists(each({end}), and(contains(self.entries, (usize, Symbol::End)), is(each({end}), Shift, Accept)))'
    ctx.spec(s, 'has-shift', f'''
        return(True) if or({some})
        return(False) if !or({some})
    ''', watch=['return'])


ST = 'each(ParserGraph.state_map.a_b_map)'
IT = f'each({ST}.0)'
DONE = f'!pos(len({IT}.rule.0.rhs) - {IT}.dot_position)'
EDGE = f'each(edges_directed(ParserGraph.graph, {ST}.1, Direction::Outgoing))'


def conflicts(ctx, n):
    s = ctx.summary('lapex_parser::find_conflicts', N=n)
    G = 'each(?by)'
    zero = 'Item{rule: RuleRef{0: %s.rule.0}, dot_position: %s.dot_position, lookahead: []}'
    first = f'at({G}.1, 0)'
    on = f' & eq(at({G}.0, 0), weight({EDGE}))' if n else ''
    ctx.spec_any(s, 'conflicts%d' % n, [f'''
        for {ST}, {IT}: madd(?by, {IT}.lookahead, {IT}) if {DONE}
        for {ST}, {G}, each({G}.1): add(?items, {zero % (f'each({G}.1)', f'each({G}.1)')}) if pos(len({G}.1) - 1)
        for {ST}, {G}: add(?c, Conflict::ReduceReduce{{state: index({ST}.1), items: ?items}}) if pos(len({G}.1) - 1)
        for {ST}, {G}, {EDGE}: add(?c, Conflict::ShiftReduce{{state: index({ST}.1), item_to_reduce: {zero % (first, first)}, shift_symbol: weight({EDGE})}}) if {g}{on}
        return(?c)
    ''' for g in (f'eq(len({G}.1), 1)', f'!pos(len({G}.1) - 1) & nonempty({G}.1)', f'!pos(len({G}.1) - 1)', 'nonempty(%s.1)' % G)], watch=['by', 'items', 'c', 'return'], assume=[f'nonempty({G}.1)'])


def table(ctx, n):
    s = ctx.summary('lapex_parser::build_table', N=n)
    at = f'(index({ST}.1), %s)'
    entry = 'eq(index(ParserGraph.entry_state!Some), index(%s.1))' % ST
    spec = ''
    if n:
        spec += f'for {ST}, {IT}: madd(?t, {at % f"at({IT}.lookahead, 0)"}, TableEntry::Reduce{{rule: {IT}.rule.0}}) if {DONE}\n'
    else:
        for l, x in SYMS:
            spec += f'for {ST}, {IT}, {l}: madd(?t, {at % x}, TableEntry::Reduce{{rule: {IT}.rule.0}}) if {DONE}\n'
        spec += f'for {ST}, {IT}: madd(?t, {at % "Symbol::End"}, TableEntry::Reduce{{rule: {IT}.rule.0}}) if {DONE}\n'
    spec += f'for {ST}, {EDGE}: put(?to, weight({EDGE}), target({EDGE}))\n'
    for l, x in SYMS:
        cell = f'mapval(?t, {at % x})'
        start = f'eq(Grammar.entry_symbol, {x}) & {entry}'
        other = f'or(not(eq(Grammar.entry_symbol, {x})), not({entry}))'
        spec += f'''
            for {ST}, {l}: add({cell}, TableEntry::Accept) if {start}
            for {ST}, {l}: add({cell}, TableEntry::Shift{{target: index(mapval(?to, {x}))}}) if {other} & contains(?to, {x})
            for {ST}, {l}: add({cell}, TableEntry::Error) if {other} & !contains(?to, {x}) & !contains(?t, {at % x})
        '''
    spec += 'return(ActionGotoTable{entries: ?t, state_count: len(node_references(ParserGraph.graph)), entry_state: index(ParserGraph.entry_state!Some)})'
    ctx.spec(s, 'table%d' % n, spec, watch=['t', 'to', 'return'], ignore=[('t', 'putnew')])


def gate(ctx, n):
    fs = ('compute_first_sets', 'generate_parser_graph', 'find_conflicts', 'build_table')
    s = ctx.summary('lapex_parser::generate_table#GenerationResult', fs, N=n)
    G = 'generate_parser_graph(Grammar, %s, bool2)' % ('compute_first_sets(Grammar)' if n else '?none')
    C, T = f'find_conflicts({G})', f'build_table({G}, Grammar)'
    ctx.spec(s, 'gate%d' % n, f'''
        return(GenerationResult::NoConflicts{{0: {T}}}) if !nonempty({C})
        return(GenerationResult::AllowedConflicts{{table: {T}, conflicts: {C}}}) if nonempty({C}) & bool1
        return(GenerationResult::BadConflicts{{0: {C}}}) if nonempty({C}) & !bool1
    ''', watch=['return'])
