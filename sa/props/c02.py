"""Thompson construction. The value-flow summary of the fragment builder (edges added per pattern variant, with their loops, guards and
carried nodes) is matched against the textbook fragment of every pattern variant: consuming edges for exactly the classes denoted,
one branch per alternative, chained parts for sequences, bounded and unbounded repetition; and the rule assembly against one fragment
per rule between a node reachable from the entry and an accepting node labelled with that rule."""
RULES = ['Single/Range/CharSet: one consuming edge per denoted class (range ends inclusive, negation = all classes minus the collected ones)',
         'Alternative: every branch gets its own fragment between start and end; Sequence: carried node runs from start to end',
         'Repetition: min copies chained, then max-min optional copies, or a back edge when unbounded; zero copies leave an empty transition',
         'generate_nfa: one fragment per rule, between an entry successor and an accepting node carrying the rule']
FLOORS = {'obligations': 40}

RULE = '''
add_node(?g, AutomatonState::Intermediate{0: _}, ?entry)
for each(VecSpanned): add_node(?g, AutomatonState::Intermediate{0: _}, ?s)
for each(VecSpanned): add_node(?g, AutomatonState::Accepting{0: each(VecSpanned)}, ?a)
for each(VecSpanned): add_edge(?g, ?entry, ?s, NfaEdge::Epsilon)
for each(VecSpanned): rec(?build, ?s, ?a, ~ Alphabet, Nfa{graph: ?g}, each(VecSpanned).inner.pattern!Pattern.pattern) if each(VecSpanned).inner.pattern is Pattern
for each(VecSpanned), each(each(VecSpanned).inner.pattern!Literal.characters): add(?els, Pattern::Char{chars: Characters::Single{0: each(each(VecSpanned).inner.pattern!Literal.characters)}}) if each(VecSpanned).inner.pattern is Literal
for each(VecSpanned): rec(?build, ?s, ?a, ~ Alphabet, Nfa{graph: ?g}, Pattern::Sequence{elements: ?els}) if each(VecSpanned).inner.pattern is Literal
return((?entry, Nfa{graph: ?g}))
'''

CH = '''
add_edge(Nfa.graph, NodeIndex1, NodeIndex2, NfaEdge::Transition{0: find_range(Alphabet, Pattern!Char.chars!Single)!Some}) if Pattern is Char & Pattern!Char.chars is Single
for each(range(find_range(Alphabet, Pattern!Char.chars!Range.0)!Some, find_range(Alphabet, Pattern!Char.chars!Range.1)!Some + 1)): add_edge(Nfa.graph, NodeIndex1, NodeIndex2, NfaEdge::Transition{0: each(range(find_range(Alphabet, Pattern!Char.chars!Range.0)!Some, find_range(Alphabet, Pattern!Char.chars!Range.1)!Some + 1))}) if Pattern is Char & Pattern!Char.chars is Range
for each(Pattern!CharSet.chars): add(?sel, find_range(Alphabet, each(Pattern!CharSet.chars)!Single)!Some) if Pattern is CharSet & each(Pattern!CharSet.chars) is Single
for each(Pattern!CharSet.chars), each(range(find_range(Alphabet, each(Pattern!CharSet.chars)!Range.0)!Some, find_range(Alphabet, each(Pattern!CharSet.chars)!Range.1)!Some + 1)): add(?sel, each(range(find_range(Alphabet, each(Pattern!CharSet.chars)!Range.0)!Some, find_range(Alphabet, each(Pattern!CharSet.chars)!Range.1)!Some + 1))) if Pattern is CharSet & each(Pattern!CharSet.chars) is Range
'''
POS = '''
for each(?sel): add_edge(Nfa.graph, NodeIndex1, NodeIndex2, NfaEdge::Transition{0: each(?sel)}) if Pattern is CharSet & !Pattern!CharSet.negated
'''
NEG = [POS + '''
for each(range(0, len(Alphabet.ranges))): add_edge(Nfa.graph, NodeIndex1, NodeIndex2, NfaEdge::Transition{0: each(range(0, len(Alphabet.ranges)))}) if Pattern is CharSet & Pattern!CharSet.negated & !contains(?sel, each(range(0, len(Alphabet.ranges))))
''', POS + '''
for each(Alphabet.ranges): add_edge(Nfa.graph, NodeIndex1, NodeIndex2, NfaEdge::Transition{0: idx(Alphabet.ranges)}) if Pattern is CharSet & Pattern!CharSet.negated & !contains(?sel, idx(Alphabet.ranges))
''', '''
for each(range(0, len(Alphabet.ranges))): add_edge(Nfa.graph, NodeIndex1, NodeIndex2, NfaEdge::Transition{0: each(range(0, len(Alphabet.ranges)))}) if Pattern is CharSet & or(and(Pattern!CharSet.negated, not(contains(?sel, each(range(0, len(Alphabet.ranges)))))), and(not(Pattern!CharSet.negated), contains(?sel, each(range(0, len(Alphabet.ranges))))))
''', '''
for each(Alphabet.ranges): add_edge(Nfa.graph, NodeIndex1, NodeIndex2, NfaEdge::Transition{0: idx(Alphabet.ranges)}) if Pattern is CharSet & or(and(Pattern!CharSet.negated, not(contains(?sel, idx(Alphabet.ranges)))), and(not(Pattern!CharSet.negated), contains(?sel, idx(Alphabet.ranges))))
''']
ALT = '''
for each(Pattern!Alternative.elements): add_node(Nfa.graph, AutomatonState::Intermediate{0: _}, ?as) if Pattern is Alternative
for each(Pattern!Alternative.elements): add_edge(Nfa.graph, NodeIndex1, ?as, NfaEdge::Epsilon) if Pattern is Alternative
for each(Pattern!Alternative.elements): rec(?build, ?as, ?ae, ~ Alphabet, _, each(Pattern!Alternative.elements)) if Pattern is Alternative
for each(Pattern!Alternative.elements): add_edge(Nfa.graph, ?ae, NodeIndex2, NfaEdge::Epsilon) if Pattern is Alternative
'''
SEQ = '''
for each(Pattern!Sequence.elements): rec(?build, ?cur, NodeIndex2, ~ Alphabet, _, each(Pattern!Sequence.elements)) if Pattern is Sequence & islast(each(Pattern!Sequence.elements))
for each(Pattern!Sequence.elements): rec(?build, ?cur, ?next, ~ Alphabet, _, each(Pattern!Sequence.elements)) if Pattern is Sequence & !islast(each(Pattern!Sequence.elements))
init(?cur, NodeIndex1)
step(?cur, ?next) if !islast(each(Pattern!Sequence.elements))
opt step(?cur, ?_) if islast(each(Pattern!Sequence.elements))
'''
REP = '''
add_edge(Nfa.graph, NodeIndex1, ?n1, NfaEdge::Epsilon) if Pattern is Repetition
add_edge(Nfa.graph, ?n1, ?n2, NfaEdge::Epsilon) if Pattern is Repetition & eq(Pattern!Repetition.min, 0) & Pattern!Repetition.max is Some
for each(range(0, Pattern!Repetition.min)): rec(?build, ?c1, ?n2, ~ Alphabet, _, Pattern!Repetition.inner) if Pattern is Repetition & islast(each(range(0, Pattern!Repetition.min)))
for each(range(0, Pattern!Repetition.min)): rec(?build, ?c1, ?m1, ~ Alphabet, _, Pattern!Repetition.inner) if Pattern is Repetition & !islast(each(range(0, Pattern!Repetition.min)))
init(?c1, ?n1)
step(?c1, ?m1) if !islast(each(range(0, Pattern!Repetition.min)))
opt step(?c1, ?_) if islast(each(range(0, Pattern!Repetition.min)))
for each(range(0, Pattern!Repetition.min)): add(?inter, ?m1) if Pattern is Repetition & !islast(each(range(0, Pattern!Repetition.min)))
add_edge(Nfa.graph, ?n2, NodeIndex2, NfaEdge::Epsilon) if Pattern is Repetition & Pattern!Repetition.max is None
rec(?build, ?n1, ?n2, ~ Alphabet, _, Pattern!Repetition.inner) if Pattern is Repetition & eq(Pattern!Repetition.min, 0) & Pattern!Repetition.max is None
add_edge(Nfa.graph, NodeIndex1, NodeIndex2, NfaEdge::Epsilon) if Pattern is Repetition & eq(Pattern!Repetition.min, 0) & Pattern!Repetition.max is None
add_edge(Nfa.graph, ?n2, ?n3, NfaEdge::Epsilon) if Pattern is Repetition & Pattern!Repetition.max is Some
add_edge(Nfa.graph, ?n3, ?n4, NfaEdge::Epsilon) if Pattern is Repetition & Pattern!Repetition.max is Some & eq(Pattern!Repetition.max!Some, Pattern!Repetition.min)
for each(range(0, Pattern!Repetition.max!Some - Pattern!Repetition.min)): rec(?build, ?c2, ?n4, ~ Alphabet, _, Pattern!Repetition.inner) if Pattern is Repetition & Pattern!Repetition.max is Some & islast(each(range(0, Pattern!Repetition.max!Some - Pattern!Repetition.min)))
for each(range(0, Pattern!Repetition.max!Some - Pattern!Repetition.min)): rec(?build, ?c2, ?m2, ~ Alphabet, _, Pattern!Repetition.inner) if Pattern is Repetition & Pattern!Repetition.max is Some & !islast(each(range(0, Pattern!Repetition.max!Some - Pattern!Repetition.min)))
init(?c2, ?n3)
step(?c2, ?m2) if !islast(each(range(0, Pattern!Repetition.max!Some - Pattern!Repetition.min)))
opt step(?c2, ?_) if islast(each(range(0, Pattern!Repetition.max!Some - Pattern!Repetition.min)))
'''
BACK = ['''
add_edge(Nfa.graph, ?n2, popped(?inter, 'back'), NfaEdge::Epsilon) if Pattern is Repetition & Pattern!Repetition.max is None & !eq(Pattern!Repetition.min, 0) & nonempty(?inter)
add_edge(Nfa.graph, ?n2, ?n1, NfaEdge::Epsilon) if Pattern is Repetition & Pattern!Repetition.max is None & or(eq(Pattern!Repetition.min, 0), not(nonempty(?inter)))
''', '''
add_edge(Nfa.graph, ?n2, last(?inter), NfaEdge::Epsilon) if Pattern is Repetition & Pattern!Repetition.max is None & !eq(Pattern!Repetition.min, 0) & nonempty(?inter)
add_edge(Nfa.graph, ?n2, ?n1, NfaEdge::Epsilon) if Pattern is Repetition & Pattern!Repetition.max is None & or(eq(Pattern!Repetition.min, 0), not(nonempty(?inter)))
''']
COPIES = ['''
for each(range(0, Pattern!Repetition.max!Some - Pattern!Repetition.min)): add(?opt, ?m2) if Pattern is Repetition & Pattern!Repetition.max is Some & !islast(each(range(0, Pattern!Repetition.max!Some - Pattern!Repetition.min)))
add(?opt, ?n3) if Pattern is Repetition & Pattern!Repetition.max is Some & !eq(Pattern!Repetition.max!Some, Pattern!Repetition.min)
add(?opt, ?n4) if Pattern is Repetition & Pattern!Repetition.max is Some & !eq(Pattern!Repetition.max!Some, Pattern!Repetition.min)
for each(?opt): add_edge(Nfa.graph, each(?opt), NodeIndex2, NfaEdge::Epsilon) if Pattern is Repetition & Pattern!Repetition.max is Some & !eq(Pattern!Repetition.max!Some, Pattern!Repetition.min)
''']


def distinct(ctx, s, b, names, key):
    ts = [b.get(n) for n in names]
    ok = all(t is None or t.op == 'node' for t in ts) and len({t.id for t in ts if t is not None}) == len([t for t in ts if t is not None])
    ctx.require(ok, key, 'the fragment of %s does not use fresh, distinct states' % s.body['name'])


def run(ctx):
    G = ctx.summary('lapex_lexer::generate_nfa', ['find_range'])
    if G is None:
        return
    b = ctx.spec(G, 'rules', RULE, watch=['g', 'els', 'return'])
    if b is None:
        return
    distinct(ctx, G, b, ['entry', 's', 'a'], 'rules/states')
    B = ctx.summary(b['build'], ['find_range'])
    if B is None:
        return
    z = '''
add_edge(Nfa.graph, ?n3, NodeIndex2, NfaEdge::Epsilon) if Pattern is Repetition & Pattern!Repetition.max is Some & eq(Pattern!Repetition.max!Some, Pattern!Repetition.min)
add_edge(Nfa.graph, ?n4, NodeIndex2, NfaEdge::Epsilon) if Pattern is Repetition & Pattern!Repetition.max is Some & eq(Pattern!Repetition.max!Some, Pattern!Repetition.min)
'''
    vs = [CH + n + ALT + SEQ + REP + k + z + c for n in NEG for k in BACK for c in COPIES]
    b2 = ctx.spec_any(B, 'fragment', vs, watch=['#Nfa.graph', 'sel', 'inter', 'opt'], assume=['find_range(_, _) is Some'], ignore=[('inter', 'pop'), ('#Nfa.graph', 'add_node')])
    if b2 is None:
        return
    ctx.require(b2['build'] == b['build'], 'fragment/self', 'sub-patterns must be built by the same construction')
    for e in B.effects:
        if e.kind == 'add_node':
            ctx.require(e.args[1].op == 'agg' and e.args[1].a[1] == 'Intermediate', 'fragment/accepting', 'fragment construction adds a state that is not an intermediate one')
    distinct(ctx, B, b2, ['as', 'ae', 'next', 'n1', 'n2', 'n3', 'n4', 'm1', 'm2'], 'fragment/states')
