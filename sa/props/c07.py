"""LL(1) tables. The value-flow summaries of the FIRST and FOLLOW computations must contain exactly the insertions of the textbook
equations, iterated until an iteration adds nothing new; the table must receive exactly one guarded insertion per production and
terminal of FIRST(rhs), and of FOLLOW(lhs) when the right-hand side can be empty, each only into a cell that is still empty, and every
occupied cell must end in the conflict error. Lookups must read the cell that was written."""
from ..term import *
from ..engine import *

RULES = ['FIRST of a sequence: leading terminals, FIRST of nonterminals without epsilon, continuing exactly while a symbol can be empty; epsilon iff all can',
         'FIRST sets: FIRST(rhs) is added to FIRST(lhs) for every production until nothing new is added',
         'FOLLOW sets: End follows the entry symbol; for X -> a B b: FIRST(b) without epsilon, and FOLLOW(X) if b can be empty; until nothing new is added',
         'table: (lhs, t) for every terminal/End t of FIRST(rhs), and of FOLLOW(lhs) if rhs can be empty; only into empty cells, otherwise a conflict',
         'lookup: (nonterminal, terminal) and (nonterminal, End) read exactly the cells the insertion wrote']
FLOORS = {'obligations': 25}
F = 'get_first_terminals_of_sequence'


def run(ctx):
    s = ctx.summary('lapex_parser::' + F)
    S = 'each(VecSymbol)'
    nul = f'or(is({S}, Epsilon), and(is({S}, NonTerminal), contains(mapval(BTreeMap, {S}), Symbol::Epsilon)))'
    stops = f'stop(_) if or(is({S}, Terminal), is({S}, End), and(is({S}, NonTerminal), not(contains(mapval(BTreeMap, {S}), Symbol::Epsilon))))'
    for_ = 'for each(range(0, len(VecSymbol))): '
    variants = []
    for it in (for_, 'for each(VecSymbol): '):
        for t in ('', it):
            for eps in (f'{it}add(?f, Symbol::Epsilon) if {nul} & islast({it[4:-2]})', f'add(?f, Symbol::Epsilon) if !exists({it[4:-2]}, not({nul})) & nonempty(VecSymbol)'):
                variants.append(f'''
                    {t}add(?f, {S}) if {S} is Terminal|End
                    {it[:-2]}, each(mapval(BTreeMap, {S})): add(?f, each(mapval(BTreeMap, {S}))) if {S} is NonTerminal & each(mapval(BTreeMap, {S})) isnt Epsilon
                    {eps}
                    {it}{stops}
                    return(?f)
                ''')
    ctx.spec_any(s, 'first-sequence', variants, watch=['f', 'return', 'stop'], assume=[f'contains(BTreeMap, {S})', 'nonempty(range(_, _))'], given_=[f'contains(BTreeMap, {S})'])

    # ---- FIRST
    s = ctx.summary('lapex_parser::compute_first_sets', (F,))
    R = 'each(Grammar.rules)'
    inits = ['''
        for each(keys(Grammar.productions)): put(?m, each(Grammar.productions).0, ?e)
        for each(Grammar.anonymous_non_terminals): put(?m, each(Grammar.anonymous_non_terminals), ?%s)
    ''' % e2 for e2 in ('e', 'e2')]
    b = ctx.spec_any(s, 'first', [init + f'''
        for ?w, {R}, each({F}({R}.rhs, ?m)): add(mapval(?m, Symbol::NonTerminal{{0: {R}.lhs!Some}}), each({F}({R}.rhs, ?m)))
        for ?w: stop(?w) if *
        return(?m)
    ''' for init in inits], watch=['m', 'e', 'e2', 'return', 'stop'], given_=[f'contains(?m, Symbol::NonTerminal{{0: {R}.lhs!Some}})', f'{R}.lhs is Some'])
    if b is not None:
        ctx.fixpoint(s, 'first', lambda e: e.args[0].op == 'mapval' and e.args[0].a[0] is b['m'])

    # ---- FOLLOW
    s = ctx.summary('lapex_parser::compute_follow_sets', (F,))
    sym = f'each({R}.rhs)'
    FE = f'{F}([Symbol::End], BTreeMap)'
    L = f'Symbol::NonTerminal{{0: {R}.lhs!Some}}'
    ends = [f'for ?w, each({FE}): add(mapval(?m, Grammar.entry_symbol), each({FE})) if each({FE}) isnt Epsilon',
            'for ?w: add(mapval(?m, Grammar.entry_symbol), Symbol::End)', 'add(mapval(?m, Grammar.entry_symbol), Symbol::End)']
    given = [f'{R}.lhs is Some', 'contains(?m, Grammar.entry_symbol)', f'contains(?m, {sym})', f'contains(?m, {L})', 'Grammar.entry_symbol is NonTerminal', f'!contains({FE}, Symbol::Epsilon)']
    variants = []
    for RG, at in ((f'each(range(0, len({R}.rhs)))', f'each(range(0, len({R}.rhs)))'), (f'each({R}.rhs)', f'idx({R}.rhs, _)')):
        tail = f'subslice({R}.rhs, RangeFrom{{start: {at} + 1}})'
        FT = f'{F}({tail}, BTreeMap)'
        variants += [init + f'''
            {end}
            for ?w, {R}, {RG}, each({FT}): add(mapval(?m, {sym}), each({FT})) if {sym} is NonTerminal & each({FT}) isnt Epsilon
            for ?w, {R}, {RG}, each(mapval(?m, {L})): add(mapval(?m, {sym}), each(mapval(?m, {L}))) if {sym} is NonTerminal & or(contains({FT}, Symbol::Epsilon), islast({RG}))
            for ?w: stop(?w) if *
            return(?m)
        ''' for end in ends for init in inits]
    b = ctx.spec_any(s, 'follow', variants, watch=['m', 'e', 'e2', 'return', 'stop'], given_=given)
    if b is not None:
        ctx.fixpoint(s, 'follow', lambda e: e.args[0].op == 'mapval' and e.args[0].a[0] is b['m'])

    # ---- table
    s = ctx.summary('lapex_parser::generate_table#LLParserTable', (F, 'compute_first_sets', 'compute_follow_sets'))
    fs = 'compute_first_sets(Grammar)'
    fr = f'{F}({R}.rhs, {fs})'
    fo = f'mapval(compute_follow_sets(Grammar, {fs}), {L})'
    cellT, cellE = '!contains(_, (_, Option::Some{0: _}))', '!contains(_, (_, Option::None))'
    base = [f'{R}.lhs is Some', f'contains(compute_follow_sets(_, _), _)']
    key = lambda x, t: f'({R}.lhs!Some, Option::' + ('Some{0: %s!Terminal})' % x if t else 'None)')
    lines = ''
    for src, g in ((fr, ''), (fo, f' & contains({fr}, Symbol::Epsilon)')):
        for t in (True, False):
            lines += f'for {R}, each({src}): put(?t, {key(f"each({src})", t)}, {R}.rhs) if each({src}) is {"Terminal" if t else "End"}{g}\n'
    ctx.spec(s, 'table', lines + 'return(Result::Ok{0: LLParserTable{table: ?t}})', watch=['t', 'return', 'stop'], given_=base + [cellT, cellE])
    # a cell that is already taken ends the generation with the conflict
    def term_in(x):
        return f'is(each({x}), Terminal, End)'
    for nm, g, why in (('first', f'!contains({fr}, Symbol::Epsilon)', f'exists(each({fr}), {term_in(fr)})'),
                       ('follow', f'!exists(each({fr}), {term_in(fr)})', f'and(contains({fr}, Symbol::Epsilon), exists(each({fo}), {term_in(fo)}))')):
        ctx.spec(s, 'occupied-' + nm, f'return(Result::Ok{{0: LLParserTable{{table: ?t}}}}) if !exists({R}, {why})', watch=['t', '-stop'], given_=base + [cellT[1:], cellE[1:], '---', g])
    full = ctx.summary('lapex_parser::LLParserTable::insert')
    cell = lambda k: f'(Symbol1!NonTerminal, Option::{k})'
    kt, ke = 'Some{0: Symbol2!Terminal}', 'None'
    lines = ''
    for k, v in ((kt, 'Terminal'), (ke, 'End')):
        lines += f'put(self.table, {cell(k)}, VecSymbol) if Symbol1 is NonTerminal & Symbol2 is {v} & !contains(self.table, {cell(k)})\n'
        lines += f'return(Result::Err{{0: LLParserError::ParserTableConflict{{non_terminal: Symbol1, terminal: {"Symbol2" if v == "Terminal" else "oneof(Symbol2, Symbol::End)"}, production: VecSymbol, existing_production: mapval(self.table, {cell(k)})}}}}) if Symbol1 is NonTerminal & Symbol2 is {v} & contains(self.table, {cell(k)})\n'
    both = f'or(and(is(Symbol2, Terminal), not(contains(self.table, {cell(kt)}))), and(is(Symbol2, End), not(contains(self.table, {cell(ke)}))))'
    lines += f'return(Result::Ok{{0: _}}) if Symbol1 is NonTerminal & {both}\n'
    lines += 'return(Result::Err{0: LLParserError::InvalidParserTableEntry}) if or(not(is(Symbol1, NonTerminal)), is(Symbol2, Epsilon), is(Symbol2, NonTerminal))'
    ctx.spec(full, 'insert', lines, watch=['#LLParserTable.table', 'return'])
    g = ctx.summary('lapex_parser::LLParserTable::get_production')
    ctx.spec(g, 'lookup', f'''
        return(Option::Some{{0: mapval(self.table, {cell(kt)})}}) if Symbol1 is NonTerminal & Symbol2 is Terminal & contains(self.table, {cell(kt)})
        return(Option::Some{{0: mapval(self.table, {cell(ke)})}}) if Symbol1 is NonTerminal & Symbol2 is End & contains(self.table, {cell(ke)})
        return(Option::None) if or(not(is(Symbol1, NonTerminal)), is(Symbol2, Epsilon), is(Symbol2, NonTerminal), and(is(Symbol2, Terminal), not(contains(self.table, {cell(kt)}))), and(is(Symbol2, End), not(contains(self.table, {cell(ke)}))))
    ''', watch=['return'])
