"""Whole-program queries over the dumped MIR: call sites with resolved callees, reachability through closures and trait implementations, locals and their uses."""


def calls(body):
    """(block index, terminator) of the calls of one body"""
    for i, bb in enumerate(body['blocks']):
        t = bb['t']
        if t.get('k') == 'call' and not bb.get('cleanup'):
            yield i, t


def callee(t):
    """the resolved function of a call, or None for calls of function values"""
    f = t['func']
    if f[0] == 'const' and isinstance(f[1], dict) and f[1].get('fn'):
        return f[1]['fn']
    return None


def names(fn):
    return [n for n in (fn.get('rname'), fn.get('name')) if n]


def mentions(x, out):
    """ids of functions and closures mentioned in a piece of MIR"""
    if isinstance(x, dict):
        for v in x.values():
            mentions(v, out)
    elif isinstance(x, (list, tuple)):
        if len(x) >= 2 and x[0] in ('closure', 'fndef') and isinstance(x[1], str):
            out.add(x[1])
        for v in x:
            mentions(v, out)


class Graph:
    def __init__(self, prog):
        self.prog = prog
        self.byid = {b['id']: b for b in prog.bodies.values()}
        self.impls = {}
        for b in self.byid.values():
            n = b['name']
            if n.startswith('<') and ' as ' in n:
                tr = n.split(' as ', 1)[1]
                self.impls.setdefault(tr.replace('>::', '::', 1), []).append(b)
        self._edges = {}

    def edges(self, b):
        """bodies a body may run: resolved callees, every implementation of a trait method that is not resolved, mentioned closures and functions"""
        if b['id'] in self._edges:
            return self._edges[b['id']]
        out = {}
        ids = set()
        mentions(b['blocks'], ids)
        for i in ids:
            if i in self.byid:
                out[i] = self.byid[i]
        for _, t in calls(b):
            f = callee(t)
            if f is None:
                continue
            rid = f.get('rid') or f.get('id')
            if rid in self.byid:
                out[rid] = self.byid[rid]
            elif f.get('trait'):
                for x in self.impls.get(f['name'], []):
                    out[x['id']] = x
        self._edges[b['id']] = list(out.values())
        return self._edges[b['id']]

    def reach(self, roots):
        seen = {}
        work = [b for b in roots if b is not None]
        while work:
            b = work.pop()
            if b['id'] in seen:
                continue
            seen[b['id']] = b
            work.extend(self.edges(b))
        return seen

    def sites(self, pred, bodies=None):
        for b in (bodies or self.byid).values():
            for i, t in calls(b):
                f = callee(t)
                if f is not None and any(pred(n) for n in names(f)):
                    yield b, i, t, f


def where(t):
    s = t.get('span') or ['?', 0]
    return '%s:%s' % (s[0], s[1])
