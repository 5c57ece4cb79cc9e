"""LR automata. The value-flow summaries of the closure and of the graph construction, specialised to no lookahead and to one
symbol of lookahead, must contain exactly the steps of the textbook construction: the closure adds, for every item with a
nonterminal after its dot, every production of it with exactly the lookaheads that can follow, and expands what it added; every
state has one transition per symbol after a dot, to the closure of all items advanced over it; equal sets share a state (or, when
merging, equal cores do, and a state that grew is processed again)."""
from ..term import *
from ..engine import *

RULES = ['closure: seed item, then for each worklist item every production of the symbol after its dot, with the lookaheads of the rest, added once and expanded',
         'lookaheads: FIRST of the remaining symbols followed by the own lookahead of the item',
         'transitions: items advanced by one symbol, closed, collected per symbol; one edge per symbol',
         'state identity: equal item set (canonical) or equal LR(0) core (merged), merged states that grew are processed again',
         'hand-written comparisons of rules and items are equality of all fields']
FLOORS = {'obligations': 30, 'comparison_impls': 10}
IDENTITY = ('lapex_parser',)
F = 'get_first_terminals_of_sequence'


def run(ctx):
    for n in (0, 1):
        closure(ctx, n)
        for lalr in (True, False):
            graph(ctx, n, lalr)


def closure(ctx, n):
    s = ctx.summary('lapex_parser::expand_item', (F,), N=n)
    if s is None:
        return
    RULE = 'each(mapval(HashMap1, at(?t.rule.0.rhs, ?t.dot_position)))'
    ITEM = f'Item{{rule: RuleRef{{0: {RULE}}}, dot_position: ?d, lookahead: %s}}'
    REST = 'each(skip(?t.rule.0.rhs, ?t.dot_position + 1))'
    NT = 'at(?t.rule.0.rhs, ?t.dot_position + 1)'
    rules, some = f'each(_), {RULE}', 'contains(HashMap1, at(?t.rule.0.rhs, ?t.dot_position))'
    head = '''
        add(?set, Item)
        add(?work, Item)
    '''
    tail = '''
        for ?w: stop(?w) if !nonempty(?work)
        opt for ?w, each(_), ?e: stop(?e) if *
        opt for ?w, each(_), each(_), ?e: stop(?e) if *
        %s(HashMap2, Item, ?set)
        return(mapval(HashMap2, Item))
    '''

    def adds(loops, la, guard=''):
        it = ITEM % la
        return f'''
            for {loops}: add(?set, {it}) if {live}{guard}
            for {loops}: add(?work, {it}) if !contains(?set, {it}) & {live}{guard}
        '''
    live = 'nonempty(?work) & pos(len(?t.rule.0.rhs) - ?t.dot_position)'
    inside = f'pos(len(?t.rule.0.rhs) - ?t.dot_position - 1)'
    variants = []
    if n == 0:
        variants.append(head + adds(f'?w, {RULE}', '_') + tail)
    else:
        seq = f'''
            for ?w{{0}}, {REST}: add(?rest, {REST}){{1}}
            for ?w{{0}}: add(?rest, at(?t.lookahead, 0)){{1}}
        '''
        FT = f'each({F}(?rest, _))'
        for outer in (f', {RULE}', ''):
            for loops in (f'?w, {RULE}, {FT}', f'?w, {FT}, {RULE}'):
                variants.append(head + seq.format(outer, f' if {live} & {inside} & {NT} is NonTerminal') +
                                adds(f'?w, {RULE}', '?t.lookahead', f' & !{inside}') +
                                adds(f'?w, {RULE}', f'[{NT}]', f' & {inside} & {NT} is Terminal') +
                                adds(loops, f'[{FT}]', f' & {inside} & {NT} is NonTerminal') + tail)
                variants.append(head + seq.format(outer, f' if {live}') + adds(loops, f'[{FT}]') + tail)
    b = ctx.spec_any(s, 'closure%d' % n, [v % k for k in ('putnew', 'put') for v in variants], watch=['set', 'work', 'rest', 'return', '#HashMap2'], ignore=[('work', 'pop')],
                     given_=['!contains(HashMap2, Item)', some, f'{NT} isnt Epsilon|End'], assume=[f'{NT} isnt Epsilon|End'])
    if b is not None:
        t = b['t']
        ctx.require(t.op == 'popped' and t.a[0] is b['work'], 'closure%d/worklist' % n, 'the items that are expanded must be those taken from the worklist, found: %s' % t)
    if b is None:
        return
    d = b['d']
    R = 'each(mapval(HashMap1, at(?t.rule.0.rhs, ?t.dot_position)))'
    if d.op == 'mu':
        stop = f'stop(?e) if or(not(pos(len({R}.rhs) - ?d)), not(is(at({R}.rhs, ?d), Epsilon)))'
        ctx.spec_any(s, 'closure%d/dot' % n, [f'''
            for ?e: init(?d, 0)
            for ?e: step(?d, ?d + 1) if pos(len({R}.rhs) - ?d){g}
            {l1}
            {l2}
        ''' for g in (f' & at({R}.rhs, ?d) is Epsilon', '') for l1, l2 in ((f'for ?w, {R}, ?e: {stop}', 'opt return(_)'), (f'for ?w, {R}, ?e: {stop}', f'for ?w, each(_), each(_), ?e: {stop}'),
            (f'for ?w, each(_), each(_), ?e: {stop}', 'opt return(_)'))], watch=['-stop'], binds={k: b[k] for k in ('d', 't', 'w', 'e') if k in b})
    else:
        ok = [(g_implies(g, g_of_eps(g)), lf is cint(1)) if lf is not cint(0) else (g_implies(g, g_not(g_of_eps(g))), True) for g, lf in leaves(d)]
        ctx.require(all(a and b for a, b in ok) and len(ok) > 1, 'closure%d/dot' % n, 'new items must start before their first symbol that is not epsilon, found: %s' % d)


def g_of_eps(g):
    for at in atoms_of(g):
        if 'Epsilon' in at.a[1]:
            return test(at.a[0], 'Epsilon', at.a[1])
    return FALSE


def graph(ctx, n, lalr):
    s = ctx.summary('lapex_parser::generate_parser_graph', ('expand_item',), N=n)
    if s is None:
        return
    E = 'expand_item(Item{rule: RuleRef{0: Grammar.entry_rule}, dot_position: 0, lookahead: [%s]}, BTreeMap, ?rules, ?cache)' % ('Symbol::End' if n else '')
    I = 'each(mapval(?b, ?t))'
    SYM = f'at({I}.rule.0.rhs, {I}.dot_position)'
    NEXT = f"expand_item(upd({I}, 'dot_position', {I}.dot_position + 1), BTreeMap, ?rules, ?cache)"
    CORE = 'Item{rule: RuleRef{0: each(%s).rule.0}, dot_position: each(%s).dot_position, lookahead: []}'
    T = 'each(?tm)'
    R = 'each(Grammar.rules)'
    some = 'nonempty(?work)'
    live = f'{some} & pos(len({I}.rule.0.rhs) - {I}.dot_position) & {I}.rule.0.lhs is Some'
    spec = f'''
        for {R}: madd(?rules, Symbol::NonTerminal{{0: {R}.lhs!Some}}, {R}) if {R}.lhs is Some
        add_node(?g, _, ?n0)
        put(?a, {E}, ?n0)
        put(?b, ?n0, {E})
        add(?work, ?n0)
        opt for ?w, {I}: putnew(?tm, {SYM}, ?empty) if {live} & !contains(?tm, {SYM})
        for ?w, {I}, each(_): add(mapval(?tm, {SYM}), each({NEXT})) if {live}
        for ?w: stop(?w) if !nonempty(?work)
    '''
    if lalr:
        spec += f'''
            for each({E}): add(?core0, {CORE % (E, E)})
            put(?cores, ?core0, ?n0)
            for ?w, {T}, each({T}.1): add(?core, {CORE % (T + '.1', T + '.1')}) if {some}
            for ?w, {T}: add_node(?g, _, ?n1) if {some} & !contains(?cores, ?core)
            for ?w, {T}, each({T}.1): add(?new, each({T}.1)) if {some} & !contains(?cores, ?core)
            for ?w, {T}, each(?new): add(?core2, {CORE % ('?new', '?new')}) if {some} & !contains(?cores, ?core)
            for ?w, {T}: put(?cores, ?core2, ?n1) if {some} & !contains(?cores, ?core)
            for ?w, {T}: put(?a, ?new, ?n1) if {some} & !contains(?cores, ?core)
            for ?w, {T}: put(?b, ?n1, ?new) if {some} & !contains(?cores, ?core)
            for ?w, {T}: add(?work, ?n1) if {some} & !contains(?cores, ?core)
            for ?w, {T}: add_edge(?g, ?t, ?n1, {T}.0) if {some} & !contains(?cores, ?core)
            for ?w, {T}: add_edge(?g, ?t, mapval(?cores, ?core), {T}.0) if {some} & contains(?cores, ?core)
            for ?w, {T}, each({T}.1): add(?more, each({T}.1)) if {some} & contains(?cores, ?core)
            for ?w, {T}: remove(?b, mapval(?cores, ?core)) if {some} & contains(?cores, ?core)
            for ?w, {T}: remove(?a, mapval(?b, mapval(?cores, ?core))) if {some} & contains(?cores, ?core)
            for ?w, {T}, each(?more): init(?upd, ?united) if {some} & contains(?cores, ?core)
            for each(?more): init(?united, try_unwrap(mapval(?b, mapval(?cores, ?core)))!Ok)
            for each(?more): step(?united, ?upd)
            for ?w, {T}, each(?more): add(?upd, each(?more)) if {some} & contains(?cores, ?core)
            for ?w, {T}: put(?a, ?united, try_unwrap(mapval(?a, mapval(?b, mapval(?cores, ?core))))!Ok) if {some} & contains(?cores, ?core)
            for ?w, {T}: put(?b, try_unwrap(mapval(?a, mapval(?b, mapval(?cores, ?core))))!Ok, ?united) if {some} & contains(?cores, ?core)
            for ?w, {T}, each(?united): add(?core3, {CORE % ('?united', '?united')}) if {some} & contains(?cores, ?core)
            for ?w, {T}: put(?cores, ?core3, try_unwrap(mapval(?a, mapval(?b, mapval(?cores, ?core))))!Ok) if {some} & contains(?cores, ?core)
            for ?w, {T}: add(?work, mapval(?cores, ?core)) if {some} & contains(?cores, ?core) & exists(each(?more), not(contains(?upd, each(?more))))
        '''
    else:
        spec += f'''
            for ?w, {T}, each({T}.1): add(?next, each({T}.1)) if {some}
            for ?w, {T}: add_node(?g, _, ?n1) if {some} & !contains(?a, ?next)
            for ?w, {T}: put(?a, ?next, ?n1) if {some} & !contains(?a, ?next)
            for ?w, {T}: put(?b, ?n1, ?next) if {some} & !contains(?a, ?next)
            for ?w, {T}: add(?work, ?n1) if {some} & !contains(?a, ?next)
            for ?w, {T}: add_edge(?g, ?t, ?n1, {T}.0) if {some} & !contains(?a, ?next)
            for ?w, {T}: add_edge(?g, ?t, mapval(?a, ?next), {T}.0) if {some} & contains(?a, ?next)
        '''
    spec += '''
        return(ParserGraph{state_map: BidiMap{a_b_map: ?a, b_a_map: ?b}, graph: ?g, entry_state: Option::Some{0: ?n0}})
    '''
    key = 'graph%d%s' % (n, 'merged' if lalr else '')
    # the merged set may be filled item by item, or at once and compared in size with what it was
    old = "try_unwrap(mapval(?b, mapval(?cores, ?core)))!Ok"
    grow = '\n'.join(l for l in spec.split('\n') if 'step(?united' not in l).replace('for ?w, each(?tm), each(?more): init(?upd, ?united)', 'for ?w, each(?tm): init(?united, %s)' % old)
    grow = '\n'.join(l for l in grow.split('\n') if 'for each(?more): init(?united' not in l).replace('add(?upd, each(?more))', 'add(?united, each(?more))')
    grow = grow.replace('exists(each(?more), not(contains(?upd, each(?more))))', 'pos(len(?united) - len(%s))' % old)
    neq = grow.replace('pos(len(?united) - len(%s))' % old, '!eq(len(?united), len(%s))' % old)
    # one set may be built before it is known whether it becomes a new state or is merged
    one = [v.replace(f'add(?new, each({T}.1)) if {some} & !contains(?cores, ?core)', f'add(?new, each({T}.1)) if {some}')
           .replace(f'            for ?w, {T}, each({T}.1): add(?more, each({T}.1)) if {some} & contains(?cores, ?core)\n', '').replace('?more', '?new') for v in (spec, grow, neq)]
    b = ctx.spec_any(s, key, [spec, grow, neq] + one if lalr else [spec], watch=['g', 'a', 'b', 'work', 'rules', 'return', 'tm', 'empty', 'next', 'cores', 'core', 'core0', 'core2', 'core3', 'new', 'more', 'upd', 'united'], ignore=[('work', 'pop')],
                 given_=['bool' if lalr else '!bool', 'try_unwrap(_) is Ok', 'contains(_, mapval(_, _))'])
    if b is not None:
        t = b['t']
        ctx.require(t.op == 'popped' and t.a[0] is b['work'], key + '/worklist', 'the states that are expanded must be those taken from the worklist, found: %s' % t)
