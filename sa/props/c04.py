"""Precedence resolution. The value-flow summary of the function that maps the rule-labelled automaton to the token automaton is matched
against: one new state per old state in one pass, accepting states labelled with the single rule of highest precedence among the state's
rules, an error listing exactly the rules of highest precedence when there are several, and every transition copied between the images of its
end points. The default-precedence function and the recursive pattern weight are matched case by case."""
from ..engine import pay
RULES = ['each state is mapped once, in order, keeping its kind', 'winner = the only rule whose precedence equals the maximum over all rules of the state',
         'more than one maximal rule: Err listing exactly those rules', 'every transition copied with its symbol',
         'declared precedence overrides the default; defaults: twice the literal length, or the minimal number of characters of the pattern']
FLOORS = {'obligations': 16}
N = 'each(node_references(Dfa.graph))'
ACC = N + '.1!Accepting'
HEAD = f'''
for {N}: add_node(?g, AutomatonState::Intermediate{{0: _}}, ?ni) if {N}.1 is Intermediate
for {N}: put(?map, {N}.0, ?ni) if {N}.1 is Intermediate
'''
WIN = [f'''
for {N}: add_node(?g, AutomatonState::Accepting{{0: at(?tied, 0).inner}}, ?na) if {N}.1 is Accepting & !pos(len(?tied) - 1)
for {N}: put(?map, {N}.0, ?na) if {N}.1 is Accepting & !pos(len(?tied) - 1)
''', f'''
for {N}: add_node(?g, AutomatonState::Accepting{{0: first(?tied).inner}}, ?na) if {N}.1 is Accepting & !pos(len(?tied) - 1)
for {N}: put(?map, {N}.0, ?na) if {N}.1 is Accepting & !pos(len(?tied) - 1)
''']
# rules of highest precedence: sort by descending precedence and compare with the first, or compare with the maximum
TIE = f'exists({N}, and(is({N}.1, Accepting), pos(len(?tied) - 1)))'
ERR = f'if {TIE}'
SORT = f'''
for {N}, each({ACC}): add(?sorted, (each({ACC}), precedence(each({ACC}).inner))) if {N}.1 is Accepting
for {N}: sort_by_key(?sorted, Reverse{{0: ?_k.1}}) if {N}.1 is Accepting
for {N}, each(?sorted): add(?tied, each(?sorted).0) if {N}.1 is Accepting & eq(at(?sorted, 0).1, each(?sorted).1)
for {N}, each(?sorted): add(?names, Spanned{{span: each(?sorted).0.span, inner: each(?sorted).0.inner.name}}) if {N}.1 is Accepting & eq(at(?sorted, 0).1, each(?sorted).1) & pos(len(?tied) - 1)
return(Result::Err{{0: PrecedenceError{{rules: ?names, precedence: _}}}}) {ERR}
'''
MAX = f'''
for {N}, each({ACC}): add(?tied, each({ACC})) if {N}.1 is Accepting & eq(precedence(each({ACC}).inner), best('max', each({ACC}), precedence(each({ACC}).inner)))
for {N}, each({ACC}): add(?names, Spanned{{span: each({ACC}).span, inner: each({ACC}).inner.name}}) if {N}.1 is Accepting & eq(precedence(each({ACC}).inner), best('max', each({ACC}), precedence(each({ACC}).inner))) & pos(len(?tied) - 1)
return(Result::Err{{0: PrecedenceError{{rules: ?names, precedence: _}}}}) {ERR}
'''
SHORT = f'''
for {N}, each(?tied): add(?names, Spanned{{span: each(?tied).span, inner: each(?tied).inner.name}}) if {N}.1 is Accepting & pos(len(?tied) - 1)
'''
TIED = [SORT, MAX]
for t in (SORT, MAX):
    l = [x for x in t.strip().split('\n')]
    TIED.append('\n'.join([SHORT.strip() if 'add(?names' in x else x for x in l]))
EDGE = [f'''
for each(?map), each(edges_directed(Dfa.graph, each(?map).0, Direction::Outgoing)): add_edge(?g, each(?map).1, mapval(?map, target(each(?_e))), weight(each(?_e))) if !{TIE}
return(Result::Ok{{0: Dfa{{graph: ?g}}}}) if !{TIE}
''', f'''
for {N}, each(edges_directed(Dfa.graph, {N}.0, Direction::Outgoing)): add_edge(?g, mapval(?map, {N}.0), mapval(?map, target(each(?_e))), weight(each(?_e))) if !{TIE}
return(Result::Ok{{0: Dfa{{graph: ?g}}}}) if !{TIE}
''']

TR = ['''
return(TokenRule.precedence!Some) if TokenRule.precedence is Some
return(?w(TokenRule.pattern!Pattern.pattern)) if TokenRule.precedence is None & TokenRule.pattern is Pattern
return(len(TokenRule.pattern!Literal.characters) + len(TokenRule.pattern!Literal.characters)) if TokenRule.precedence is None & TokenRule.pattern is Literal
''']
W = '''
return(reduce('sum', _, True, ?self(each(Pattern!Sequence.elements)))) if Pattern is Sequence
return(best('min', each(Pattern!Alternative.elements), ?self(each(Pattern!Alternative.elements)))) if Pattern is Alternative
return(op('Mul', ?f1, ?f2)) if Pattern is Repetition
return(1) if Pattern is CharSet|Char
'''
W2 = W.replace("return(reduce('sum', _, True, ?self(each(Pattern!Sequence.elements)))) if", 'return(?s) if').rstrip() + '''
for each(Pattern!Sequence.elements): init(?s, 0)
for each(Pattern!Sequence.elements): step(?s, ?s + ?self(each(Pattern!Sequence.elements)))
'''


def run(ctx):
    A = ctx.summary('lapex_lexer::apply_precedence_to_dfa', ['TokenRule::precedence'])
    if A is None:
        return
    vs = [HEAD + t + w + e + f'opt for {N}: stop({N}) if {N}.1 is Accepting & pos(len(?tied) - 1)' for t in TIED for w in WIN for e in EDGE]
    b = ctx.spec_any(A, 'resolve', vs, watch=['g', 'map', 'tied', 'names', 'sorted', 'return'], assume=[f'nonempty({ACC})', 'nonempty(?tied)'])
    if b is None:
        return
    nodes = [e for e in A.effects if e.kind in ('add_node', 'put') and e.inner is not None]
    ctx.require(len({id(e.inner) for e in nodes}) == 1, 'resolve/one-pass', 'states are not mapped in one pass over the old states (the start state must stay first)')
    T = ctx.summary('lapex_input::TokenRule::precedence')
    b = ctx.spec_any(T, 'default', TR, watch=['return'])
    if b is None:
        return
    P = ctx.summary(b['w'])
    b2 = ctx.spec_any(P, 'weight', [W, W2], watch=['return', 's'], assume=['nonempty(Pattern!Alternative.elements)'])
    if b2:
        fs = {b2['f1'].id, b2['f2'].id}
        mn = pay(P.params['Pattern'], 'Repetition', 'min')
        ctx.require(mn.id in fs and any(t.op == 'call' and t.a[0].endswith(b['w']) and t.a[1] is pay(P.params['Pattern'], 'Repetition', 'inner') for t in (b2['f1'], b2['f2'])),
                    'weight/repetition', 'the weight of a repetition is not its minimum times the weight of its part')
        ctx.require(b2['self'] == b['w'], 'weight/self', 'nested patterns must be weighed by the same function')
