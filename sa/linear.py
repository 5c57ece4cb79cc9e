"""Linear use of error values. A value that can hold an error (io or fmt errors, errors of generation, and Results, Options, ControlFlows, containers and iterators of
them) must be used up on every path: returned, propagated, turned into another value that still holds it, or turned into a panic. A forward dataflow over the MIR of
every function tracks which of its locals still hold an unexamined error; dropping, overwriting or forgetting one of those, or giving it to a library function whose
result no longer holds it (ok, unwrap_or, is_ok on a temporary, count, ...), is reported. Branching on the variant clears the error on the success edge."""
from . import cg
ERR = ('core::Error', 'lapex::LapexError', 'std::Error', 'alloc::Error')
STOPPING = ('unwrap', 'expect', 'from_residual', 'report')
CLEAR = {'core::Result': '0', 'core::ControlFlow': '0', 'core::Option': '0'}
GOOD = {'Ok', 'Continue', 'None'}


class Types:
    def __init__(self, prog):
        self.byid = {b['id']: b for b in prog.bodies.values()}
        self.memo = {}

    def carries(self, ty, closures=True):
        """holds an error by value / is or contains a function that returns one"""
        if not isinstance(ty, list) or not ty:
            return None
        h = ty[0]
        if h in ERR:
            return 'value'
        if h in ('&', '&mut', '*const', '*mut'):
            return None
        if h in ('closure', 'fndef') and len(ty) > 1 and isinstance(ty[1], str):
            if not closures:
                return None
            k = ty[1]
            if k not in self.memo:
                self.memo[k] = None
                b = self.byid.get(k)
                if b is not None and self.carries(b['locals'][0][0]):
                    self.memo[k] = 'function'
            return self.memo[k]
        r = None
        for x in ty[1:]:
            c = self.carries(x, closures) if isinstance(x, list) else None
            if c == 'value':
                return 'value'
            r = r or c
        return r


def operand_places(rv, out):
    """(mode, place) of the operands of an rvalue"""
    if isinstance(rv, (list, tuple)):
        if len(rv) == 2 and rv[0] in ('move', 'copy') and isinstance(rv[1], list) and len(rv[1]) == 2 and isinstance(rv[1][0], int):
            out.append((rv[0], rv[1]))
            return
        for x in rv:
            operand_places(x, out)


def downcast(place):
    for p in place[1]:
        if isinstance(p, list) and p and p[0] == 'd':
            return p[1]
    return None


def check(body, types, skip=()):
    """-> (tracked locals, handovers, [(message, span)])"""
    L = body['locals']
    kind = {}
    for i, l in enumerate(L):
        c = types.carries(l[0])
        if c == 'value' and not any(s in str(l[0]) for s in skip):
            kind[i] = c
    fnlocals = {i for i, l in enumerate(L) if types.carries(l[0]) == 'function'}
    if not kind and not fnlocals:
        return 0, 0, []
    blocks = body['blocks']
    alias, discr, test = {}, {}, {}
    for bb in blocks:
        for s in bb['s']:
            if s[0] == '=' and not s[1][1]:
                rv = s[2]
                if rv[0] == 'ref' and rv[2][0] in kind and not rv[2][1]:
                    alias[s[1][0]] = rv[2][0]
                elif rv[0] == 'ref' and rv[2][0] in alias and rv[2][1] == ['*']:
                    alias[s[1][0]] = alias[rv[2][0]]
                elif rv[0] == 'use' and rv[1][0] in ('copy', 'move') and rv[1][1][0] in alias and not rv[1][1][1]:
                    alias[s[1][0]] = alias[rv[1][1][0]]
    for bb in blocks:
        for s in bb['s']:
            if s[0] == '=' and s[2][0] == 'discr' and not s[1][1]:
                pl = s[2][1]
                x = pl[0] if pl[0] in kind and not pl[1] else alias.get(pl[0]) if pl[1] == ['*'] else None
                if x is not None and s[2][2][0] in CLEAR:
                    discr[s[1][0]] = (x, CLEAR[s[2][2][0]])
        t = bb['t']
        if t.get('k') == 'call' and not t['dest'][1]:
            f = cg.callee(t)
            n = (f or {}).get('name', '').split('::')[-1]
            if n in ('is_ok', 'is_err', 'is_some', 'is_none') and t['args']:
                pl = []
                operand_places(t['args'], pl)
                if pl and pl[0][1][0] in alias:
                    test[t['dest'][0]] = (alias[pl[0][1][0]], '0' if n in ('is_err', 'is_some') else '1')
    out, handover = {}, set()

    def bad(msg, sp, x):
        nm = L[x][1]
        out.setdefault((msg, tuple((sp or ['?', 0])[:2])), '%s%s' % (msg, ' (`%s`)' % nm if nm else ''))

    def use(st, rv, sp, dest):
        """moves inside an rvalue; -> does the result hold an unexamined error?"""
        pl = []
        operand_places(rv, pl)
        live = False
        for mode, p in pl:
            x = p[0]
            if x in kind and x in st:
                d = downcast(p)
                if d in GOOD:
                    continue
                if True:
                    st.discard(x)
                    live = True
            elif x in alias and alias[x] in st and downcast(p) and downcast(p) not in GOOD:
                st.discard(alias[x])
        return live

    def stmt(st, s):
        if s[0] == '=':
            d, rv, sp = s[1], s[2], s[3] if len(s) > 3 else None
            if rv[0] == 'ref':
                x = rv[2][0]
                x = x if x in kind else alias.get(x)
                if x in st and downcast(rv[2]) and downcast(rv[2]) not in GOOD:
                    st.discard(x)      # the error itself is looked at
                return
            if rv[0] == 'discr':
                return
            live = use(st, rv, sp, d)
            if d[0] in kind and not d[1]:
                if d[0] in st and d[0] != 0:
                    bad('a result that may hold an error is overwritten', sp, d[0])
                st.discard(d[0])
                if live and d[0] != 0:
                    st.add(d[0])
        elif s[0] == 'dead' and s[1] in st:
            bad('a result that may hold an error is dropped', None, s[1])
            st.discard(s[1])

    states = {0: frozenset(i for i in range(1, body['argc'] + 1) if i in kind)}
    work = [0]
    while work:
        bi = work.pop()
        st = set(states[bi])
        bb = blocks[bi]
        sp = None
        for s in bb['s']:
            if s[0] == '=' and len(s) > 3:
                sp = s[3]
            if s[0] == 'dead' and s[1] in st:
                bad('a result that may hold an error is dropped', sp or bb['t'].get('span'), s[1])
                st.discard(s[1])
            else:
                stmt(st, s)
        t = bb['t']
        k = t.get('k')
        nxt = []
        if k == 'call':
            f = cg.callee(t)
            pl = []
            operand_places(t['args'], pl)
            name = ((f or {}).get('rname') or (f or {}).get('name') or '?')
            short = name.split('::')[-1]
            dest = t['dest']
            dc = types.carries(L[dest[0]][0]) if not dest[1] else 'value'
            inws = f is not None and (f.get('rid') or f.get('id')) in types.byid or (f is not None and name.startswith(('lapex', '<lapex')))
            isfn = f is None or (f.get('trait') or '').split('::')[-1] in ('Fn', 'FnMut', 'FnOnce')
            for mode, p in pl:
                x = p[0]
                if x in st and x in kind:
                    st.discard(x)
                    handover.add((bi, x))
                    if not (dc == 'value' or inws or isfn or short in STOPPING or t.get('to') is None or short in ('push', 'insert', 'push_back', 'extend', 'into')):
                        bad('%s discards an error' % short, t.get('span'), x)
                elif x in fnlocals and mode == 'move' and not (dc or inws or isfn or short in STOPPING or t.get('to') is None or short in ('drop', 'insert', 'push')):
                    if types.carries(L[dest[0]][0]) is None and short in ITER_END:
                        bad('%s runs a fallible function and discards its errors' % short, t.get('span'), x)
                elif x in alias and alias[x] in st and dc == 'value' and short in ('next', 'pop', 'next_back', 'take', 'remove', 'pop_front', 'drain', 'replace', 'as_ref', 'as_mut', 'iter', 'map_err'):
                    st.discard(alias[x])
            if dest[0] in kind and not dest[1] and dest[0] != 0:
                if dest[0] in st:
                    bad('a result that may hold an error is overwritten', t.get('span'), dest[0])
                st.add(dest[0])
            if t.get('to') is not None:
                nxt = [(t['to'], st)]
        elif k == 'switch':
            pl = []
            operand_places(t['op'], pl)
            d = pl[0][1][0] if pl else None
            x, clear = discr.get(d) or test.get(d) or (None, None)
            for v, to in t['targets']:
                st2 = set(st)
                if x is not None and (v == clear):
                    st2.discard(x)
                nxt.append((to, st2))
            st2 = set(st)
            if x is not None and clear not in [v for v, _ in t['targets']]:
                st2.discard(x)
            nxt.append((t['otherwise'], st2))
        elif k == 'drop':
            x = t['place'][0]
            if x in st and not t['place'][1]:
                bad('a result that may hold an error is dropped', t.get('span'), x)
                st.discard(x)
            nxt = [(t['to'], st)]
        elif k == 'return':
            for x in st:
                if x != 0:
                    bad('a result that may hold an error is dropped', t.get('span'), x)
        elif t.get('to') is not None:
            nxt = [(t['to'], st)]
        for to, s2 in nxt:
            if blocks[to].get('cleanup'):
                continue
            old = states.get(to)
            new = frozenset(s2) | (old or frozenset())
            if old is None or new != old:
                states[to] = new
                work.append(to)
    return len(kind), len(handover), [(m, k[1]) for k, m in out.items()]


ITER_END = ('for_each', 'count', 'collect', 'last', 'fold', 'sum', 'product', 'all', 'any', 'find', 'position', 'nth', 'max', 'min', 'extend', 'unwrap_or', 'unwrap_or_default', 'unwrap_or_else')
