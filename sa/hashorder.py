"""Order dependence on hash collections. A forward dataflow over the MIR of every function marks iterators over HashMap/HashSet and the sequences made from them; it is
interprocedural through returned values and arguments. A marked value may be transformed element by element, be collected into (or extend) a set or map, be reduced by an
operation for which the order does not matter, or be sorted by the full order of its elements; a loop over it may only have effects that commute and may only end when the
iterator is exhausted. Everything else makes the result depend on the order of the hash table."""
from . import cg
from .linear import operand_places

MAPS = ('HashMap', 'HashSet')
SETS = MAPS + ('BTreeMap', 'BTreeSet')
SOURCES = {'iter', 'iter_mut', 'into_iter', 'keys', 'values', 'values_mut', 'into_keys', 'into_values', 'drain', 'union', 'intersection', 'difference', 'symmetric_difference', 'extract_if', 'drain_filter'}
ADAPTERS = {'map', 'filter', 'filter_map', 'flat_map', 'flatten', 'cloned', 'copied', 'chain', 'into_iter', 'iter', 'iter_mut', 'by_ref', 'inspect', 'deref', 'deref_mut', 'as_slice', 'as_mut_slice', 'as_ref', 'as_mut',
            'clone', 'into', 'from', 'to_vec', 'into_boxed_slice', 'index', 'borrow', 'unwrap', 'expect', 'branch', 'from_output', 'from_residual', 'into_vec', 'size_hint', 'map_while', 'peekable', 'fuse', 'append', 'into_inner'}
NEUTRAL = {'len', 'is_empty', 'count', 'all', 'any', 'min', 'max', 'sum', 'product', 'contains', 'drop', 'eq', 'ne', 'is_subset', 'is_disjoint', 'is_superset', 'drop_in_place', 'size_hint', 'capacity'}
SORTS = {'sort', 'sort_unstable'}
COLLECT = {'collect', 'from_iter', 'extend', 'append', 'unzip', 'partition'}
COMMUTES = {'insert', 'remove', 'extend', 'entry', 'or_insert', 'or_insert_with', 'or_default', 'get_mut', 'append', 'retain', 'next', 'get', 'contains', 'add_assign', 'bitor_assign', 'and_modify', 'reserve', 'or_insert_with_key', 'index_mut', 'deref_mut'}


def strip(ty):
    while isinstance(ty, list) and ty and ty[0] in ('&', '&mut', 'alloc::Box', 'alloc::Rc', 'alloc::Arc') and len(ty) > 1:
        ty = ty[1]
    return ty


def head(ty):
    ty = strip(ty)
    return str(ty[0]).split('::')[-1] if isinstance(ty, list) and ty else ''


def is_hash(ty):
    return head(ty) in MAPS


def is_set(ty):
    h = head(ty)
    if h in ('Result', 'Option', 'ControlFlow', '()'):
        xs = [x for x in strip(ty)[1:] if isinstance(x, list)]
        return bool(xs) and is_set(xs[0])
    return h in SETS or h in ('Entry', 'OccupiedEntry', 'VacantEntry')


def scalar(ty):
    return isinstance(ty, list) and ty and str(ty[0]) in ('bool', 'u8', 'u16', 'u32', 'u64', 'usize', 'i8', 'i16', 'i32', 'i64', 'isize', 'char', 'u128', 'i128') or ty == ['()'] or ty == ['!']


class Analysis:
    def __init__(self, prog):
        self.prog = prog
        self.byid = {b['id']: b for b in prog.bodies.values()}
        self.params, self.returns = {}, set()       # (id, parameter) and ids of functions with marked parameters / results
        self.found = {}
        self.sources = self.sinks = self.loops = 0
        self.captures = {}
        for b in self.byid.values():
            for bb in b['blocks']:
                for s in bb['s']:
                    if s[0] == '=' and s[2][0] == 'agg':
                        ids = set()
                        cg.mentions(s[2][1:2], ids)
                        for i in ids:
                            pl = []
                            operand_places(s[2][2:], pl)
                            self.captures[i] = (b, [p for _, p in pl])

    def run(self):
        while True:
            before = (len(self.params), len(self.returns))
            self.found, self.sources, self.sinks, self.loops = {}, 0, 0, 0
            for b in self.byid.values():
                self.body(b)
            if (len(self.params), len(self.returns)) == before:
                return self.found

    def bad(self, b, msg, t):
        self.found.setdefault((b['name'], msg), t)

    def closures(self, t, b, commuting):
        """closures given to a call: may they write to something ordered?"""
        ids = set()
        cg.mentions([b['locals'][p[0]][0] for _, p in places(t['args'])] + [t['func']], ids)
        for i in ids:
            if i in self.captures:
                cb, pl = self.captures[i]
                for p in pl:
                    ty = cb['locals'][p[0]][0] if not p[1] else None
                    if ty and ty[0] == '&mut' and not is_set(ty) and not scalar(strip(ty)):
                        return False
        return True

    def body(self, b):
        L, blocks = b['locals'], b['blocks']
        marked = {p for (i, p) in self.params if i == b['id']}
        states = {0: frozenset(marked)}
        work = [0]
        alias = {}
        for bb in blocks:
            for s in bb['s']:
                if s[0] == '=' and s[2][0] == 'ref' and not s[1][1]:
                    alias[s[1][0]] = s[2][2][0]
        events = {}
        while work:
            bi = work.pop()
            st = set(states[bi])
            bb = blocks[bi]
            for s in bb['s']:
                if s[0] != '=':
                    if s[0] == 'dead':
                        st.discard(s[1])
                    continue
                d, rv = s[1], s[2]
                pl = places(rv)
                if rv[0] == 'ref':
                    pl = [('copy', rv[2])]
                if rv[0] in ('discr', 'binop', 'bin', 'len', 'un'):
                    pl = []
                if any(p[0] in st for _, p in pl) and not scalar(L[d[0]][0]):
                    st.add(d[0])
                elif not d[1]:
                    st.discard(d[0])
            t = bb['t']
            k = t.get('k')
            succ = []
            if k == 'call':
                mark = self.call(b, bi, t, st, alias, events)
                d = t['dest']
                if mark and not (scalar(L[d[0]][0]) and not d[1]):
                    st.add(d[0])
                elif not d[1]:
                    st.discard(d[0])
                succ = [t['to']] if t.get('to') is not None else []
            elif k == 'switch':
                succ = [x[1] for x in t['targets']] + [t['otherwise']]
            elif k == 'return':
                if 0 in st and not is_set(L[0][0]):
                    self.returns.add(b['id'])
            elif t.get('to') is not None:
                succ = [t['to']]
            for to in succ:
                if to is None or blocks[to].get('cleanup'):
                    continue
                old = states.get(to)
                new = frozenset(st) | (old or frozenset())
                if old is None or new != old:
                    states[to] = new
                    work.append(to)
        for bi, (what, msg) in events.items():
            if what == 'source':
                self.sources += 1
            elif what == 'sink':
                self.sinks += 1
            elif what == 'next':
                self.loops += 1
                self.loop(b, bi, states)
            elif what == 'bad':
                self.bad(b, msg, blocks[bi]['t'])

    def call(self, b, bi, t, st, alias, events):
        L = b['locals']
        f = cg.callee(t)
        pl = places(t['args'])
        n = ((f or {}).get('rname') or (f or {}).get('name') or '?')
        short = n.split('::')[-1]
        marked = [(i, p) for i, (m, p) in enumerate(pl) if p[0] in st]
        rid = str((f or {}).get('rid') or (f or {}).get('id'))
        first = L[pl[0][1][0]][0] if pl and not pl[0][1][1] else None
        if rid in self.byid:
            for i, a in enumerate(t['args']):
                q = []
                operand_places([a], q)
                if q and q[0][1][0] in st and (rid, i + 1) not in self.params:
                    self.params[(rid, i + 1)] = True
            return rid in self.returns
        if first is not None and is_hash(first) and short in SOURCES and pl[0][1][0] not in st:
            events[bi] = ('source', '')
            return True
        if short in COLLECT and any(is_hash(L[p[0]][0]) and not is_set(L[t['dest'][0]][0]) and not (first is not None and is_set(first)) for _, p in pl if not p[1]):
            events[bi] = ('bad', '%s takes a hash collection in its own order' % short)     # vec.extend(hash_set)
            return False
        if not marked:
            return False
        if not self.closures(t, b, True):
            events[bi] = ('bad', '%s over a hash collection runs a closure that writes to something ordered' % short)
            return False
        if short in SORTS:
            for i, p in marked:
                x, n_ = p[0], 0
                while x is not None and n_ < 20:
                    st.discard(x)
                    x, n_ = alias.get(x), n_ + 1
            for x in list(st):      # every view of the sorted sequence
                if head(L[x][0]) in ('Vec', '[]'):
                    st.discard(x)
            events[bi] = ('sink', '')
            return False
        if short == 'extend' or short == 'append':
            if is_set(first) or head(first) in ('Vec', 'VecDeque', 'LinkedList') and short == 'extend' and self.mark_base(pl[0][1][0], st, alias):
                events[bi] = ('sink', '')
                return False
            events[bi] = ('bad', '%s takes elements in the order of a hash collection' % short)
            return False
        if short in COLLECT:
            if is_set(L[t['dest'][0]][0]) and not t['dest'][1]:
                events[bi] = ('sink', '')
                return False
            if head(L[t['dest'][0]][0]) in ('Vec', 'VecDeque', 'LinkedList', '[]', 'Result', 'Option', '()'):
                return True
            events[bi] = ('bad', 'the order of a hash collection is kept by %s' % short)
            return False
        if short in NEUTRAL:
            events[bi] = ('sink', '')
            return False
        if short == 'for_each' or short == 'retain':
            events[bi] = ('sink', '')
            return False
        if short == 'next':
            events[bi] = ('next', '')
            return False
        if short in ADAPTERS:
            return True
        events[bi] = ('bad', '%s depends on the order of a hash collection' % short)
        return False

    def mark_base(self, x, st, alias):
        n = 0
        while x is not None and n < 20:
            st.add(x)
            x, n = alias.get(x), n + 1
        return True

    def loop(self, b, bi, states):
        """a `for` loop over a hash collection: the effects of its body commute and it ends only with the iterator"""
        L, blocks = b['locals'], b['blocks']
        succ = {}
        for i, bb in enumerate(blocks):
            t = bb['t']
            s = ([x[1] for x in t['targets']] + [t['otherwise']]) if t.get('k') == 'switch' else [t['to']] if t.get('to') is not None else []
            succ[i] = [x for x in s if x is not None and not blocks[x].get('cleanup')]
        fwd, w = set(), [bi]
        while w:
            x = w.pop()
            for y in succ[x]:
                if y not in fwd:
                    fwd.add(y)
                    w.append(y)
        pred = {}
        for i in succ:
            for y in succ[i]:
                pred.setdefault(y, []).append(i)
        t0 = blocks[bi]['t']
        if bi not in fwd:
            self.bad(b, 'the first element of a hash collection is taken', t0)
            return
        sw, x = None, t0.get('to')
        for _ in range(4):
            if x is None:
                break
            if blocks[x]['t'].get('k') == 'switch':
                sw = x
                break
            x = succ[x][0] if len(succ[x]) == 1 else None
        done = None
        if sw is not None:
            ts = dict(blocks[sw]['t']['targets'])
            done = ts.get('0')
        if sw is None or done is None:
            self.bad(b, 'a loop over a hash collection does not end with its iterator', t0)
            return
        loop = natural_loop(succ, pred, bi)
        if loop is None:
            self.bad(b, 'the first element of a hash collection is taken', t0)
            return
        dead_end = lambda x: not succ[x] and blocks[x]['t'].get('k') != 'return'
        for x in loop:
            for y in succ[x]:
                if y in loop or (x == sw and y == done) or dead_end(y):
                    continue
                if not self.constant_exit(b, y, loop, done, succ):
                    self.bad(b, 'a loop over a hash collection can end early, on an element that depends on its order', blocks[x]['t'])
        defined = set()
        used_outside = set()
        for i, bb in enumerate(blocks):
            if bb.get('cleanup'):
                continue
            if i in loop:
                for s in bb['s']:
                    if s[0] == '=' and not s[1][1]:
                        defined.add(s[1][0])
                if bb['t'].get('k') == 'call' and not bb['t']['dest'][1]:
                    defined.add(bb['t']['dest'][0])
            else:
                for s in bb['s']:
                    if s[0] == '=':
                        used_outside |= {p[0] for _, p in places(s[2])}
                        if s[2][0] in ('ref', 'discr'):
                            used_outside.add((s[2][2] if s[2][0] == 'ref' else s[2][1])[0])
                if bb['t'].get('k') in ('call', 'switch'):
                    used_outside |= {p[0] for _, p in places([bb['t'].get('args') or [], bb['t'].get('op') or []])}
                if bb['t'].get('k') == 'return':
                    used_outside.add(0)
        base = {}
        for bb in blocks:
            for s in bb['s']:
                if s[0] == '=' and not s[1][1]:
                    if s[2][0] == 'ref':
                        base[s[1][0]] = s[2][2]
                    elif s[2][0] == 'use' and places(s[2]):
                        base.setdefault(s[1][0], places(s[2])[0][1])

        def local_to(x):
            n = 0
            while n < 20:
                if x in base and L[x][0][0:1] in (['&mut'], ['&']):
                    x, n = base[x][0], n + 1
                else:
                    break
            return x in defined and x not in used_outside
        for x in loop:
            bb = blocks[x]
            for s in bb['s']:
                if s[0] != '=':
                    continue
                d = s[1]
                if d[0] in used_outside and d[0] in defined and not scalar(L[d[0]][0]) and places(s[2]) and x != bi:
                    if not (L[d[0]][0][0:1] == ['&mut'] and is_set(L[d[0]][0])):
                        self.bad(b, 'a loop over a hash collection leaves the last element in `%s`' % (L[d[0]][1] or '_%d' % d[0]), blocks[x]['t'])
                elif d[1] and not local_to(d[0]) and not scalar(L[d[0]][0]) and not (L[d[0]][0][0:1] == ['&mut'] and (is_set(L[d[0]][0]) or scalar(strip(L[d[0]][0])))):
                    self.bad(b, 'a loop over a hash collection writes to `%s`' % (L[d[0]][1] or '_%d' % d[0]), blocks[x]['t'])
            t = bb['t']
            if t.get('k') != 'call' or x == bi:
                continue
            f = cg.callee(t)
            short = ((f or {}).get('rname') or (f or {}).get('name') or '?').split('::')[-1]
            for m, p in places(t['args']):
                ty = L[p[0]][0] if not p[1] else None
                if not isinstance(ty, list) or ty[0:1] != ['&mut']:
                    continue
                if local_to(p[0]) or (is_set(ty) or scalar(strip(ty))) and short in COMMUTES or short == 'next':
                    continue
                self.bad(b, 'a loop over a hash collection calls %s, whose effect depends on the order' % short, t)
            if short in ('_print', '_eprint'):
                self.bad(b, 'a loop over a hash collection prints in its order', t)

    def constant_exit(self, b, y, loop, done, succ):
        """leaving early with a constant result is the same as asking whether any element fits"""
        seen, n = set(), 0
        blocks = b['blocks']
        normal, w = {done}, [done]
        while w:
            for z in succ[w.pop()]:
                if z not in normal:
                    normal.add(z)
                    w.append(z)
        while n < 12 and y is not None and y not in seen:
            if y in normal and y not in loop:
                return True
            seen.add(y)
            for s in blocks[y]['s']:
                if s[0] == '=' and places(s[2]) and not scalar(b['locals'][s[1][0]][0]):
                    return False
                if s[0] == '=' and not places(s[2]) and s[1][0] == 0:
                    return True
            if blocks[y]['t'].get('k') == 'call':
                return False
            if blocks[y]['t'].get('k') == 'return':
                return True
            y = succ[y][0] if len(succ[y]) == 1 else None
            n += 1
        return False


def places(x):
    out = []
    operand_places(x, out)
    return out


def natural_loop(succ, pred, bi):
    """blocks of the innermost natural loop containing a block"""
    order, seen, st = [], set(), [(0, iter(succ[0]))]
    seen.add(0)
    while st:
        x, it = st[-1]
        y = next(it, None)
        if y is None:
            order.append(x)
            st.pop()
        elif y not in seen:
            seen.add(y)
            st.append((y, iter(succ[y])))
    order.reverse()
    pos = {x: i for i, x in enumerate(order)}
    dom = {0: 0}
    changed = True
    while changed:
        changed = False
        for x in order[1:]:
            ps = [p for p in pred.get(x, []) if p in dom]
            d = ps[0]
            for p in ps[1:]:
                while d != p:
                    while pos[d] > pos[p]:
                        d = dom[d]
                    while pos[p] > pos[d]:
                        p = dom[p]
            if dom.get(x) != d:
                dom[x] = d
                changed = True

    def dominates(a, x):
        while True:
            if a == x:
                return True
            if x == 0:
                return False
            x = dom[x]
    best = None
    heads = {}
    for x in order:
        for y in succ[x]:
            if dominates(y, x):
                heads.setdefault(y, []).append(x)
    for h, latches in heads.items():
        loop, w = {h}, [x for x in latches]
        while w:
            x = w.pop()
            if x not in loop:
                loop.add(x)
                w.extend(p for p in pred.get(x, []) if p in pos)
        if bi in loop and (best is None or len(loop) < len(best)):
            best = loop
    return best
