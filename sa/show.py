"""Debug aid: print the effect summary of one function. python3 -m sa.show NAME [OPAQUE...] [-d DUMP] [-l]"""
import sys, time, re
from .engine import *
from . import models


class Pretty:
    def __init__(self, e):
        self.e = e
        self.names = {}
        self.mus = []

    def name(self, t, pre):
        if t not in self.names:
            self.names[t] = '%s%d' % (pre, len([1 for v in self.names.values() if v.startswith(pre)]) + 1)
            if t.op == 'mu':
                self.mus.append(t)
        return self.names[t]

    def __call__(self, t):
        return self.p(t, {})

    def p(self, t, memo):
        if not isinstance(t, T):
            if isinstance(t, tuple):
                return '(' + ','.join(self.p(x, memo) for x in t) + ')'
            return str(t)
        if t in memo:
            return memo[t]
        r = self._p(t, memo)
        memo[t] = r
        return r

    def _p(self, t, memo):
        P = lambda x: self.p(x, memo)
        op, a = t.op, t.a
        if op == 'obj':
            return self.name(t, '@')
        if op == 'mu':
            return self.name(t, '$')
        if op == 'node':
            return self.name(t, 'N')
        if op == 'at_ver':
            return 'v'
        if op in ('v+', 'vphi'):
            return 'v'
        if op == 'fld':
            return '%s%s.%s' % (P(a[0]), '.0' if a[0].op == 'pay' and a[0].a[2] == '0' else '', a[1])
        if op == 'pay':
            return '%s!%s%s' % (P(a[0]), a[1], '' if a[2] == '0' else '.' + a[2])
        if op == 'agg':
            nm = a[0].split('::')[-1]
            return '%s{%s}' % (nm if nm == a[1] else nm + '::' + a[1], ', '.join('%s: %s' % (n, P(v)) for n, v in zip(a[2], a[3:])))
        if op == 'elem':
            return 'each%s(%s)' % ("'" * a[1] if a[1] < 4 else '#%d' % a[1], P(a[0]))
        if op == 'ite':
            return '{' + self.guard(t) + '}' if is_guard(t) else self.ite(t, P)
        if op in ('tup', 'list'):
            return '(%s)' % ', '.join(P(x) for x in a)
        if op == 'lin':
            c, parts = a[0], a[1:]
            s = ' + '.join((P(x) if k == 1 else '%d*%s' % (k, P(x))) for x, k in zip(parts[::2], parts[1::2]))
            return '(%s%s)' % (s, '' if c == 0 else ' %+d' % c)
        if op == 'call':
            return '%s(%s)' % (a[0] if isinstance(a[0], str) else P(a[0]), ', '.join(P(x) for x in a[1:]))
        if op in ('c', 'p', 'fn', 'clo'):
            return show(t)
        return '%s(%s)' % (op, ', '.join(P(x) for x in a))

    def ite(self, t, P):
        at = t.a[0]
        return '{%s ? %s}' % (P(at.a[0]), ' ; '.join('%s: %s' % (d, P(k)) for d, k in zip(at.a[1], t.a[1:])))

    def guard(self, g):
        if g is TRUE:
            return 'always'
        if g is FALSE:
            return 'never'
        out = []
        memo = {}

        def go(t, acc):
            if len(out) > 12:
                return
            if t is TRUE:
                out.append(' & '.join(acc) if acc else 'always')
                return
            if t is FALSE or t is BOT:
                return
            if t.op != 'ite':
                out.append(' & '.join(acc + [self.p(t, memo)]))
                return
            at = t.a[0]
            groups = {}
            for d, k in zip(at.a[1], t.a[1:]):
                groups.setdefault(k.id, (k, []))[1].append(d)
            for k, ds in groups.values():
                if at.a[1] == BOOLD:
                    lab = ('' if ds == ['T'] else '!') + self.p(at.a[0], memo)
                elif len(ds) > len(at.a[1]) / 2:
                    lab = '%s !is %s' % (self.p(at.a[0], memo), '|'.join(d for d in at.a[1] if d not in ds))
                else:
                    lab = '%s is %s' % (self.p(at.a[0], memo), '|'.join(ds))
                go(k, acc + [lab])
        go(g, [])
        return '  OR  '.join(out)


def is_guard(t):
    if t in (TRUE, FALSE, BOT):
        return True
    return t.op == 'ite' and all(is_guard(k) for k in t.a[1:])


def dump(e, rv, eff, out=sys.stdout, cut=900):
    P = Pretty(e)
    w = lambda s: out.write(s[:cut] + '\n')
    for x in eff:
        lp = ' '.join('for[%s]' % ', '.join(P(g) for g in l.gens) for l in x.loops)
        w('%d %s %s(%s)  IF %s   @%s' % (x.seq, lp, x.kind, ', '.join(P(a) for a in x.args), P.guard(x.guard), ':'.join(map(str, x.span[1:2]))))
    w('RETURN ' + P(rv))
    i = 0
    li = getattr(e, 'loopinfo', {})
    while i < len(P.mus):
        m = P.mus[i]
        i += 1
        L = li.get(m.a[0])
        if L is None or m not in L.mu:
            w('   %s = ? %s' % (P(m), show(m)[:200]))
            continue
        a, b = L.mu[m]
        w('   %s: loop[%s] init %s step %s' % (P(m), ', '.join(P(g) for g in L.gens), P(a), P(b)))
    for t, n in list(P.names.items()):
        if t.op == 'node':
            w('   %s = node(%s)' % (n, ', '.join(P(x) for x in t.a[:2])))


if __name__ == '__main__':
    args = sys.argv[1:]
    from . import build; d = build.dump()
    if '-d' in args:
        i = args.index('-d')
        d = args[i + 1]
        del args[i:i + 2]
    from sa import engine
    p = Program(d)
    raw = '-r' in args
    args = [a for a in args if a != '-r']
    consts = {a.split('=')[0]: cint(int(a.split('=')[1])) for a in args if '=' in a}
    args = [a for a in args if '=' not in a]
    name = args[0]
    op = set(args[1:])
    b = p.find(name)
    if b is None:
        print([k for k in p.byname if name in k])
        sys.exit(1)
    e = Engine(p, opaque=lambda n, b: n in op or any(n.endswith('::' + o) for o in op), consts=consts)
    t = time.time()
    rv, eff = e.run(b)
    if raw:
        dump(e, rv, eff)
    else:
        from .spec import Summary
        sm = Summary(e, b, rv, eff)
        P = Pretty(e)
        for i, x in enumerate(sm.effects):
            print('%d%s %s(%s)  IF %s%s' % (i, ''.join(' for[%s]' % P(l) for l in x.loops), x.kind, ', '.join(P(a) for a in x.args), P.guard(x.guard) if x.guard is not TRUE else 'always',
                                            '  @%s' % x.span[1] if x.span else ''))
        for tt, n in list(P.names.items()):
            if tt.op == 'node':
                print('   %s = node(%s)' % (n, ', '.join(P(x) for x in tt.a[:2])))
        print('   kinds', {n: e.objinfo.get(q) for q, n in P.names.items() if q.op == 'obj'}, 'params', {k: P(v) for k, v in sm.params.items()})
    print('unknown', e.unknown, 'inlined', e.inl, 'calls', e.callsites, 'time %.2f' % (time.time() - t), 'steps', STEPS[0])
