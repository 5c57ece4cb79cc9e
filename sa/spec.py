"""Obligation language over effect summaries.

A specification is a list of lines
    [for PAT, PAT:] kind(PAT, ...) [if LIT & LIT ...]
matched by unification (backtracking) against the normalised effects of a function.  Every line must be
realised by effects whose combined guard is equivalent to the stated one, and every effect on a watched
target must be an instance of some line.
"""
import re
from .term import *
from .engine import *
from . import engine as EN
from .models import created_in

TOK = re.compile(r"\s*(?:(0x[0-9a-f]+|\d+)|'([^']*)'|([A-Za-z_][A-Za-z_0-9]*(?:::[A-Za-z_][A-Za-z_0-9]*)*)|([?@$][A-Za-z_0-9]*)|(.))")


KNOWN_OPS = {'eq', 'pos', 'contains', 'nonempty', 'len', 'range', 'islast', 'idx', 'at', 'mapval', 'keys', 'values', 'skip', 'popped', 'last', 'first', 'fst', 'index'}


class Pat:
    def __init__(self, s):
        self.toks = []
        for m in TOK.finditer(s):
            if m.group(0).strip() == '':
                continue
            if m.group(1) is not None:
                self.toks.append(('int', int(m.group(1), 0)))
            elif m.group(2) is not None:
                self.toks.append(('str', m.group(2)))
            elif m.group(3):
                self.toks.append(('id', m.group(3)))
            elif m.group(4):
                self.toks.append(('var', m.group(4)[1:] or '_'))
            else:
                self.toks.append((m.group(5), None))
        self.i = 0
        self.src = s

    def peek(self, k=0):
        return self.toks[self.i + k] if self.i + k < len(self.toks) else ('eof', None)

    def next(self):
        t = self.peek()
        self.i += 1
        return t

    def eat(self, c):
        if self.peek()[0] == c:
            self.i += 1
            return True
        return False

    def expect(self, c):
        if not self.eat(c):
            raise Exception('spec syntax: expected %r at token %d of %s' % (c, self.i, self.src))

    def term(self):
        t = self.unary()
        parts = None
        while self.peek()[0] in ('+', '-'):
            sg = 1 if self.next()[0] == '+' else -1
            u = self.unary()
            if parts is None:
                parts = [(t, 1)]
            parts.append((u, sg))
        if parts:
            return ('lin', tuple(parts))
        return t

    def unary(self):
        t = self.primary()
        while True:
            if self.eat('.'):
                k, v = self.next()
                t = ('fld', t, str(v))
            elif self.peek()[0] == '!' and self.peek(1)[0] in ('id', 'var'):
                self.next()
                k, v = self.next()
                f = '0'
                if k == 'id' and self.peek()[0] == '.' and self.peek(1)[0] == 'id' and self.peek(1)[1][0].islower() and not self.peek(1)[1].startswith('_'):
                    self.next()
                    f = self.next()[1]
                elif self.peek()[0] == '.' and self.peek(1)[0] == 'int':
                    self.next()
                    f = str(self.next()[1])
                t = ('pay', t, v, f)
            else:
                return t

    def args(self, close):
        out = []
        if self.eat(close):
            return out
        while True:
            out.append(self.term())
            if self.eat(close):
                return out
            self.expect(',')

    def primary(self):
        k, v = self.next()
        if k == 'int':
            return ('const', cint(v))
        if k == 'str':
            return ('const', cstr(v))
        if k == 'var':
            if v != '_' and self.peek()[0] == '(':
                self.next()
                if self.eat('~'):
                    return ('app', '?' + v, ('~',) + tuple(self.args(')')))
                return ('app', '?' + v, tuple(self.args(')')))
            return ('any',) if v == '_' else ('var', v)
        if k == '(':
            a = self.args(')')
            return a[0] if len(a) == 1 else ('tup', tuple(a))
        if k == '[':
            return ('list', tuple(self.args(']')))
        if k == 'id':
            if v == '_':
                return ('any',)
            if v in ('True', 'False'):
                return ('const', cbool(v == 'True'))
            if self.peek()[0] == '(':
                self.next()
                if self.eat('~'):
                    return ('app', v, ('~',) + tuple(self.args(')')))
                a = self.args(')')
                if v == 'each':
                    return ('each', a[0])
                if v == 'char':
                    return ('const', mk('c', 'char', a[0][1].a[1]))
                if v == 'oneof':
                    return ('alt', tuple(a))
                return ('app', v, tuple(a))
            if self.peek()[0] == '{':
                self.next()
                fs = []
                while not self.eat('}'):
                    f = self.next()[1]
                    self.expect(':')
                    fs.append((str(f), self.term()))
                    self.eat(',')
                return ('agg', v, tuple(fs))
            if '::' in v:
                return ('agg', v, ())
            return ('param', v)
        raise Exception('spec syntax: %r in %s' % ((k, v), self.src))

    def lit(self):
        neg = False
        while self.eat('!'):
            neg = not neg
        t = self.term()
        if self.peek() == ('id', 'is') or self.peek() == ('id', 'isnt'):
            n2 = self.next()[1] == 'isnt'
            vs = [self.next()[1]]
            while self.eat('|'):
                vs.append(self.next()[1])
            return ('is', t, tuple(vs), neg != n2)
        return ('bool', t, neg)

    def guard(self):
        out = [self.lit()]
        while self.eat('&'):
            out.append(self.lit())
        return out


class Line:
    def __init__(self, s):
        self.src = ' '.join(s.split())
        self.opt = False
        if s.strip().startswith('opt '):
            self.opt = True
            s = s.strip()[4:]
        p = Pat(s)
        self.loops = None
        if p.peek() == ('id', 'for'):
            p.next()
            self.loops = [p.term()]
            while p.eat(','):
                self.loops.append(p.term())
            p.expect(':')
        elif p.peek() == ('id', 'any') and p.peek(1)[0] == ':':
            p.next()
            p.next()
            self.loops = 'any'
        self.kind = p.next()[1]
        p.expect('(')
        self.args = []
        self.bag = None
        while True:
            if p.eat('~'):
                self.bag = p.args(')')
                break
            if p.eat(')'):
                break
            self.args.append(p.term())
            if p.peek()[0] != '~':
                if p.eat(')'):
                    break
                if p.peek()[0] != '~':
                    p.expect(',')
        self.guard = []
        self.anyguard = False
        if p.peek() == ('id', 'if'):
            p.next()
            if p.eat('*'):
                self.anyguard = True
            else:
                self.guard = p.guard()
        if p.peek()[0] != 'eof':
            raise Exception('spec syntax: trailing tokens in ' + s)


def strip(t, memo):
    """drop version marks"""
    def f(x):
        if x.op in ('contains', 'len', 'mapval', 'nonempty', 'at', 'last', 'first') and len(x.a) > 1 and isinstance(x.a[-1], T) and x.a[-1].op in ('ver', 'at_ver'):
            return mk(x.op, *[strip(y, memo) if isinstance(y, T) else y for y in x.a[:-1]])
        if x.op in ('eq', 'pos'):
            # comparing the size of a collection with its size at another time asks whether it has grown
            objs = {}
            contains_op(x, lambda y: objs.setdefault(strip(y.a[0], memo), set()).add(y) if y.op == 'len' else False, {})
            k = [o for o, ys in objs.items() if len(ys) > 1]
            if len(objs) == 1 and k:
                return mk('same' if x.op == 'eq' else 'grown', k[0])
        if x.op == 'exists' and any(g.op == 'one' for g in x.a[0]):
            gens, body = tuple(strip(g, memo) for g in x.a[0] if g.op != 'one'), strip(x.a[1], memo)
            return mk('exists', gens, body) if gens and body is not FALSE else body
        return None
    return subst(t, f, memo)


class PEffect:
    def __init__(self, kind, args, guard, loops, span, fn, inner=None):
        self.inner = inner
        self.kind, self.args, self.guard, self.loops, self.span, self.fn = kind, args, guard, loops, span, fn


def loop_gens(loops):
    out = []
    for L in loops:
        out.extend(L.gens)
    return out


class Summary:
    """normalised effects, return value and carried values of one function"""

    def __init__(self, eng, body, rv, eff):
        self.eng = eng
        self.body = body
        memo = {}
        self.memo = memo
        self.extra_sub = []
        self.rawloops = {}
        S = lambda x: strip(x, memo) if isinstance(x, T) else x
        self.S = S
        self.effects = []
        merged = {}
        for e in eff:
            args = [S(a) for a in e.args]
            g = strip(e.guard, memo)
            gens = tuple(S(x) for x in loop_gens(e.loops) if x.op != 'one')
            key = (e.kind, tuple(a.id if isinstance(a, T) else a for a in args), tuple(x.id for x in gens))
            if key in merged:
                merged[key].guard = g_or(merged[key].guard, g)
                continue
            pe = PEffect(e.kind, args, g, gens, e.span, e.fn)
            pe.inner = e.loops[-1] if e.loops else None
            for q in range(1, len(e.loops)):
                self.rawloops[id(e.loops[q])] = e.loops[q - 1]
            merged[key] = pe
            self.effects.append(pe)
        # ways out of a loop other than running out of elements
        seenl = set()
        for e in eff:
            for q, L in enumerate(e.loops):
                if id(L) in seenl or not L.gens:
                    continue
                seenl.add(id(L))
                g = FALSE
                for c in [c for _, c in L.exits] + getattr(L, 'leave', []):
                    g = g_or(g, c)
                if g is not FALSE:
                    gens = tuple(S(x) for x in loop_gens(e.loops[:q + 1]))
                    self.effects.append(PEffect('stop', [gens[-1]], strip(g, memo), gens, None, body['name']))
        self.rv = S(rv)
        self.filters()
        self.inline_literals()
        if not getattr(self.eng, 'emission', False):
            self.inline_strings()
        self.literal_contents()
        self.copies()
        self.canonical_loops()
        self.last_iterations()
        self.unroll()
        self.fuse()
        self.multimaps()
        self.repeated_adds()
        for g, lf in leaves(hoist(self.rv)):
            self.effects.append(PEffect('return', [lf], g, (), None, body['name']))
        # carried values
        li = getattr(eng, 'loopinfo', {})
        seen = set()
        todo = []

        def collect(t):
            if isinstance(t, T):
                contains_op(t, lambda x: todo.append(x) if x.op == 'mu' and x not in seen and not seen.add(x) else False, {})
        for e in list(self.effects):
            for a in e.args:
                collect(a)
            collect(e.guard)
        while todo:
            m = todo.pop()
            L = li.get(m.a[0])
            if L is None or m not in L.mu:
                continue
            if m.a[1][0] == 'ver':
                continue
            a, b = L.mu[m]
            if isinstance(a, T) and is_iter(a):
                continue
            b = assume_guard(b, bool_atom(mk('more', L.uid)), True) if b.op == 'ite' else b
            a, b = S(a), S(b)
            for f in self.extra_sub + [self.canon]:
                a, b = subst(a, f, {}), subst(b, f, {})
            gens = tuple(S(g) for g in L.gens)
            for k, v in (('init', a), ('step', b)):
                collect(v)
                for g, lf in leaves(hoist(v)):
                    self.effects.append(PEffect(k, [m, lf], g, gens, None, body['name']))
        self.headers()
        self.params = {}
        cnt = {}
        tys = []
        for i in range(body['argc']):
            h = body['locals'][i + 1]
            ty = type_key(h[0])
            tys.append(ty)
            cnt[ty] = cnt.get(ty, 0) + 1
        n = {}
        names = eng.param_names(body)
        for i, ty in enumerate(tys):
            n[ty] = n.get(ty, 0) + 1
            key = ty if cnt[ty] == 1 else '%s%d' % (ty, n[ty])
            self.params[key] = mk('p', names[i])
            if i == 0 and names[i] == 'self':
                self.params['self'] = mk('p', 'self')


    def last_iterations(self):
        """an effect on the way out of a loop that speaks about the current element belongs to that iteration"""
        stops = {e.args[0]: e.guard for e in self.effects if e.kind == 'stop'}
        for e in self.effects:
            if e.kind not in MUTATING or e.guard.op != 'ite':
                continue
            for at in atoms_of(e.guard):
                x = at.a[0]
                if x.op != 'exists' or len(x.a[0]) != 1 or x.a[0][0].op != 'elem' or x.a[0][0] in e.loops:
                    continue
                g, c = x.a[0][0], x.a[1]
                if g not in stops or not g_implies(e.guard, bool_atom(x)) or not g_implies(c, stops[g]):
                    continue
                f = lambda y: g if y.op == 'such' and y.a[0] is g and y.a[1] is c else None
                args = [subst(a, f, {}) if isinstance(a, T) else a for a in e.args]
                plain = [subst(a, lambda y: UNIT if y.op == 'such' else None, {}) for a in args if isinstance(a, T)]
                if not any(contains_op(a, lambda y: y.op == 'elem' and y.a[1] == g.a[1], {}) for a in plain):
                    continue
                e.args = args
                e.guard = g_and(assume_guard(e.guard, bool_atom(x), True), c)
                e.loops = e.loops + (g,)
                break

    def headers(self):
        """the body of a loop that is only entered while a flag holds may take the flag for granted"""
        for st in [e for e in self.effects if e.kind == 'stop' and e.args[0].op == 'while']:
            go = g_not(st.guard)
            if go.op == 'ite' and go.a[0].a[0].op == 'mu' and go is bool_atom(go.a[0].a[0]):
                for e in self.effects:
                    if e is not st and st.args[0] in e.loops:
                        e.guard = assume_guard(e.guard, go, True)

    def unroll(self):
        """loops over a literal list of few elements are written out"""
        def small(l):
            if l.op != 'elem':
                return None
            X = l.a[0]
            if X.op == 'range' and X.a[0].op == 'c' and X.a[1].op == 'c' and isinstance(X.a[0].a[1], int) and isinstance(X.a[1].a[1], int) and 0 < X.a[1].a[1] - X.a[0].a[1] <= 4:
                return [cint(k) for k in range(X.a[0].a[1], X.a[1].a[1])]
            if X.op in ('list', 'tup') and 0 < len(X.a) <= 4:
                return list(X.a)
            return None
        def simpl(x):
            if x.op == 'at' and x.a[0].op in ('list', 'tup') and len(x.a) == 2 and x.a[1].op == 'c' and isinstance(x.a[1].a[1], int) and x.a[1].a[1] < len(x.a[0].a):
                return subst(x.a[0].a[x.a[1].a[1]], simpl, {})
            if x.op == 'call' and x.a[0] == 'subslice' and x.a[1].op in ('list', 'tup') and x.a[2].op == 'agg' and x.a[2].a[1] == 'RangeFrom' or x.op == 'subslice' and False:
                return None
            return None
        todo = set()
        for e in self.effects:
            for t in list(e.loops) + [e.guard] + [a for a in e.args if isinstance(a, T)]:
                contains_op(t, lambda x: todo.add(x) if x.op == 'elem' and small(x) else False, {})
        if not todo:
            return
        for l in todo:
            items = small(l)

            def inst(v, n=0):
                memo = {}

                def f(x):
                    if x is l:
                        return v
                    if x.op == 'idx' and x.a[0] is l.a[0] and x.a[1] == l.a[1]:
                        return cint(n)
                    if x.op == 'at' and len(x.a) == 2 and x.a[0].op in ('list', 'tup') and x.a[1] is l and v.op == 'c' and v.a[1] < len(x.a[0].a):
                        return R(x.a[0].a[v.a[1]])
                    if x.op == 'subslice' and x.a[0].op in ('list', 'tup') and x.a[1].op == 'agg' and x.a[1].a[1] == 'RangeFrom':
                        k = R(x.a[1].a[3])
                        if k.op == 'c' and isinstance(k.a[1], int):
                            return mk('list', *[R(y) for y in x.a[0].a[k.a[1]:]])
                    if x.op == 'nonempty' and len(x.a) == 1:
                        y = R(x.a[0])
                        if y.op == 'list':
                            return TRUE if y.a else FALSE
                    return None
                R = lambda t: subst(t, f, memo) if isinstance(t, T) else t
                return R

            def open_exists(t):
                def f(x):
                    if x.op == 'exists' and l in x.a[0]:
                        g = FALSE
                        rest = tuple(y for y in x.a[0] if y is not l)
                        for n, v in enumerate(items):
                            R = inst(v, n)
                            b = subst(R(x.a[1]), f, {})
                            r2 = tuple(R(y) for y in rest)
                            g = g_or(g, bool_atom(mk('exists', r2, b)) if r2 and b is not FALSE else b)
                        return g
                    return None
                return subst(t, f, {}) if isinstance(t, T) else t
            out = []
            for e in self.effects:
                e.args = [open_exists(a) for a in e.args]
                e.guard = open_exists(e.guard)
                if l not in e.loops:
                    out.append(e)
                    continue
                for n, v in enumerate(items):
                    R = inst(v, n)
                    g = R(e.guard)
                    if g is FALSE:
                        continue
                    pe = PEffect(e.kind, [R(a) for a in e.args], g, tuple(R(x) for x in e.loops if x is not l), e.span, e.fn)
                    pe.inner = e.inner
                    out.append(pe)
            self.effects = out
            self.rv = open_exists(self.rv)

    def fuse(self):
        """filling a temporary collection and then adding its elements to a set is adding them to the set directly"""
        for _ in range(8):
            prod, cons = {}, {}
            for e in self.effects:
                if e.kind in MUTATING | {'init'} and e.args and isinstance(e.args[0], T) and e.args[0].op == 'obj':
                    prod.setdefault(e.args[0], []).append(e)
            hit = None
            for o, ps in prod.items():
                if self.eng.objinfo.get(o) not in ('Vec', 'BTreeSet', 'HashSet', 'coll', 'VecDeque') or any(p.kind != 'add' for p in ps):
                    continue
                us, ok = [], True
                uses = lambda t: isinstance(t, T) and contains_op(t, lambda x: x is o, {})
                plain = lambda t: not uses(t) or not uses(subst(t, lambda x: mk('gone') if x.op == 'elem' and x.a[0] is o else None, {}))
                for u in self.effects:
                    if u in ps:
                        continue
                    if not any(uses(t) for t in list(u.args) + [u.guard] + list(u.loops)):
                        continue
                    if not all(plain(t) for t in list(u.args) + [u.guard] + list(u.loops)):
                        ok = False
                        break
                    ls = [l for l in u.loops if l.op == 'elem' and l.a[0] is o]
                    if len(ls) > 1 or any(uses(a) for a in u.args) and not ls:
                        ok = False
                        break
                    if ls:
                        if u.kind in ('write', 'tok', 'group') and self.eng.objinfo.get(o) in ('BTreeSet', 'HashSet'):
                            ok = False  # the set has an order of its own
                            break
                        if u.kind == 'stop' and u.args[0] is ls[0] or u.kind in ('init', 'step', 'return'):
                            ok = False
                            break
                        if u.kind in MUTATING and not self.setlike(u):
                            ok = False
                            break
                    us.append((u, ls))
                if not ok or uses(self.rv) or not any(ls for _, ls in us) or any(uses(p.guard) or any(uses(a) for a in p.args[1:]) for p in ps):
                    continue
                if not all(ls and len(ls) == 1 or not any(uses(l) for l in u.loops) for u, ls in us):
                    continue
                hit = (o, ps, us)
                break
            if hit is None:
                return
            o, ps, us = hit

            def chain(e):
                out, L = [], e.inner
                while L is not None:
                    out.append(L)
                    L = self.rawloops.get(id(L))
                return out[::-1]

            def feeding(prefix, e=None):
                r = [p for p in ps if p.loops[:len(prefix)] == tuple(prefix)]
                if e is not None and e.inner is not None:
                    c = chain(e)
                    k = [i for i, L in enumerate(c) if any(l.op == 'elem' and l.a[0] is o for l in L.gens)]
                    if k:
                        r = [p for p in r if p.inner is None or [id(x) for x in chain(p)[:k[0]]] == [id(x) for x in c[:k[0]]]]
                return r

            def in_guard(g, prefix):
                def f(x):
                    if x.op == 'exists' and len(x.a[0]) == 1 and x.a[0][0].op == 'elem' and x.a[0][0].a[0] is o:
                        el = x.a[0][0]
                        r = FALSE
                        for p in feeding(prefix):
                            b = g_and(p.guard, subst(x.a[1], lambda y: p.args[1] if y is el else None, {}))
                            tail = p.loops[len(prefix):]
                            r = g_or(r, bool_atom(mk('exists', tuple(tail), b)) if tail and b is not FALSE else b)
                        return r
                    if x.op == 'exists':
                        return bool_atom(mk('exists', x.a[0], in_guard(x.a[1], tuple(prefix) + tuple(y for y in x.a[0] if y not in prefix))))
                    return None
                return subst(g, f, {})
            new = []
            bad = False
            for e in self.effects:
                if e in ps:
                    continue
                m = [ls for u, ls in us if u is e]
                if not m:
                    new.append(e)
                    continue
                ls = m[0]
                if not ls:
                    pe = PEffect(e.kind, e.args, in_guard(e.guard, e.loops), e.loops, e.span, e.fn)
                    pe.inner = e.inner
                    new.append(pe)
                    continue
                l = ls[0]
                i = e.loops.index(l)
                for p in feeding(e.loops[:i], e):
                    f = lambda y: p.args[1] if y is l else None
                    g = g_and(p.guard, subst(e.guard, f, {}))
                    if g is FALSE:
                        continue
                    pe = PEffect(e.kind, [subst(a, f, {}) if isinstance(a, T) else a for a in e.args], g, p.loops + tuple(subst(x, f, {}) for x in e.loops[i + 1:]), e.span, e.fn)
                    pe.inner = None
                    new.append(pe)
            if any(contains_op(t, lambda x: x is o, {}) for e in new for t in list(e.args) + [e.guard] + list(e.loops) if isinstance(t, T)):
                return
            self.effects = new

    def setlike(self, u):
        t = u.args[0]
        if u.kind != 'add':
            return u.kind in ('put', 'putnew')
        if t.op == 'obj':
            return self.eng.objinfo.get(t) in ('BTreeSet', 'HashSet')
        if t.op == 'mapval' and t.a[0].op == 'obj':
            vs = [e.args[2] for e in self.effects if e.kind in ('put', 'putnew') and e.args[0] is t.a[0]]
            return bool(vs) and all(isinstance(v, T) and v.op == 'obj' and self.eng.objinfo.get(v) in ('BTreeSet', 'HashSet') for v in vs)
        return False

    def filters(self):
        """collecting and then retaining is collecting what is retained"""
        todo = {}
        for i, e in enumerate(self.effects):
            if e.kind == 'retain' and e.args[0].op == 'obj' and len(e.args) == 2 and e.args[1] in (TRUE, FALSE):
                todo.setdefault((e.args[0], e.loops), []).append((i, e))
        drop = set()
        for (o, loops), rs in todo.items():
            i0 = rs[0][0]
            adds = [e for e in self.effects[:i0] if e.kind in MUTATING | {'init'} and e.args and e.args[0] is o]
            if any(e.kind != 'add' for e in adds):
                continue
            keep, path = FALSE, FALSE
            for _, e in rs:
                path = g_or(path, e.guard)
                if e.args[1] is TRUE:
                    keep = g_or(keep, e.guard)
            els = set()
            own = lambda at: contains_op(at, lambda x: x.op == 'elem' and x.a[0] is o, {})
            contains_op(keep, lambda x: els.add(x) if x.op == 'elem' and x.a[0] is o else False, {})
            path = quantify(path, own, 'or')
            for e in adds:
                x = e.args[1]
                k = subst(keep, lambda t: x if t in els else None, {}) if els else keep
                e.guard = g_and(e.guard, g_or(k, g_not(path)))
            drop |= {id(e) for _, e in rs}
        if drop:
            self.effects = [e for e in self.effects if id(e) not in drop]

    def inline_literals(self):
        """an object built only from straight-line contents before its first use is replaced by that literal list"""
        cont, uses = {}, {}
        for i, e in enumerate(self.effects):
            tgt = e.args[0] if e.args and isinstance(e.args[0], T) and e.args[0].op == 'obj' else None
            if tgt is not None and e.kind in MUTATING | {'init'}:
                cont.setdefault(tgt, []).append((i, e))
        sub = {}
        for o, es in cont.items():
            kind = self.eng.objinfo.get(o)
            if kind not in ('Vec', 'coll', 'VecDeque') and not (kind in ('BTreeSet', 'HashSet') and len(es) == 1):
                continue
            e0 = es[0][1]
            if e0.inner is not None and not created_in(self.eng, o, e0.inner):
                continue
            if any(e.kind not in ('init', 'add') or e.guard is not e0.guard or e.loops != e0.loops for _, e in es):
                continue
            if any(e.kind == 'init' and not (k == 0 and isinstance(e.args[1], T) and e.args[1].op == 'list') for k, (_, e) in enumerate(es)):
                continue
            first = min([i for i, e in enumerate(self.effects) if (i, e) not in es and
                         any(isinstance(a, T) and contains_op(a, lambda x: x is o, {}) for a in e.args + [e.guard])] or [10 ** 9])
            if first < es[-1][0]:
                continue
            items = []
            for _, e in es:
                items.extend(e.args[1].a if e.kind == 'init' else [e.args[1]])
            sub[o] = (mk('list', *items), {id(e) for _, e in es})
        if not sub:
            return
        drop = set().union(*[d for _, d in sub.values()])
        memo = {}
        one = {o: l.a[0] for o, (l, _) in sub.items() if len(l.a) == 1}

        def f(x):
            if x in sub:
                return sub[x][0]
            if x.op == 'elem' and x.a[0] in one:
                return R(one[x.a[0]])
            if x.op == 'contains' and x.a[0] in one:
                return eq(R(one[x.a[0]]), R(x.a[1]))
            return None
        R = lambda x: subst(x, f, memo) if isinstance(x, T) else x
        self.effects = [PEffect(e.kind, [R(a) for a in e.args], R(e.guard), tuple(R(g) for g in e.loops if not (g.op == 'elem' and g.a[0] in one)), e.span, e.fn, e.inner)
                        for e in self.effects if id(e) not in drop]
        self.effects = [e for e in self.effects if e.guard is not FALSE]
        self.rv = R(self.rv)


    def inline_strings(self):
        """a text put together piece by piece, unconditionally and before its first use, is the text of the pieces"""
        from .models import fmt_term
        cont = {}
        for i, e in enumerate(self.effects):
            tgt = e.args[0] if e.args and isinstance(e.args[0], T) and e.args[0].op == 'obj' else None
            if tgt is not None and self.eng.objinfo.get(tgt) in ('string', 'String') and e.kind in MUTATING | {'init', 'write'}:
                cont.setdefault(tgt, []).append((i, e))
        sub, drop = {}, set()
        for o, es in cont.items():
            e0 = es[0][1]
            if e0.inner is not None or any(e.kind not in ('init', 'write') or len(e.args) != 2 or e.guard is not e0.guard or e.loops != e0.loops for _, e in es) \
                    or any(e.kind == 'init' and k for k, (_, e) in enumerate(es)) or e0.loops:
                continue
            if any(i < es[-1][0] and (i, e) not in es and any(isinstance(a, T) and contains_op(a, lambda x: x is o, {}) for a in e.args + [e.guard]) for i, e in enumerate(self.effects)):
                continue
            if any(contains_op(e.args[1], lambda x: x is o, {}) for _, e in es):
                continue
            sub[o] = fmt_term([e.args[1] for _, e in es])
            drop |= {id(e) for _, e in es}
        if sub:
            memo = {}
            R = lambda x: subst(x, lambda t: sub.get(t), memo) if isinstance(x, T) else x
            self.effects = [PEffect(e.kind, [R(a) for a in e.args], R(e.guard), tuple(R(g) for g in e.loops), e.span, e.fn, e.inner) for e in self.effects if id(e) not in drop]
            self.rv = R(self.rv)

    def literal_contents(self):
        """an object that starts from literal contents is one that starts empty and gets them added"""
        out = []
        for e in self.effects:
            if e.kind == 'init' and e.args[0].op == 'obj' and isinstance(e.args[1], T) and e.args[1].op == 'list' and e.args[1].a \
                    and self.eng.objinfo.get(e.args[0]) in ('Vec', 'coll', 'VecDeque', 'BTreeSet', 'HashSet'):
                for x in e.args[1].a:
                    out.append(PEffect('add', [e.args[0], x], e.guard, e.loops, e.span, e.fn, e.inner))
            else:
                out.append(e)
        self.effects = out

    def repeated_adds(self):
        """adding to a set what it contains changes nothing, so it makes no difference whether that is asked first"""
        for e in self.effects:
            if e.kind == 'add' and len(e.args) == 2 and self.setlike(e):
                at = mk('contains', e.args[0], e.args[1])
                e.guard = assume_guard(e.guard, bool_atom(at), False)

    def rewrite(self, f, drop=()):
        memo = {}
        R = lambda x: subst(x, f, memo) if isinstance(x, T) else x
        out, keys = [], {}
        for e in self.effects:
            if id(e) in drop:
                continue
            args = [R(a) for a in e.args]
            g = R(e.guard)
            loops = tuple(R(x) for x in e.loops)
            key = (e.kind, tuple(a.id if isinstance(a, T) else a for a in args), tuple(x.id for x in loops))
            if key in keys:
                keys[key].guard = g_or(keys[key].guard, g)
                continue
            pe = PEffect(e.kind, args, g, loops, e.span, e.fn)
            pe.inner = getattr(e, 'inner', None)
            keys[key] = pe
            out.append(pe)
        self.effects = out
        self.rv = R(self.rv)

    def copies(self):
        """a Vec filled by one unconditional pass over X (`collect`, or a push loop) is read as a view of X"""
        for _ in range(40):
            cont = {}
            for e in self.effects:
                if e.args and isinstance(e.args[0], T) and e.args[0].op == 'obj' and e.kind in MUTATING | {'init'}:
                    cont.setdefault(e.args[0], []).append(e)
            done = True
            for o, es in cont.items():
                if len(es) != 1 or es[0].kind != 'add' or not es[0].loops or self.eng.objinfo.get(o) not in ('Vec', 'coll', 'VecDeque'):
                    continue
                e = es[0]
                g = e.loops[-1]
                if g.op != 'elem' or e.inner is None or created_in(self.eng, o, e.inner):
                    continue
                if len(e.inner.gens) != 1 or (len(e.loops) > 1 and not created_in(self.eng, o, self.outer_of(e))):
                    continue
                X, v = g.a[0], e.args[1]
                if contains_op(e.guard, lambda x: x is g or x.op == 'idx' and x.a[0] is X or x.op in ('mu', 'contains') and (x.op != 'mu' or x.a[0] is e.inner.uid), {}):
                    continue
                if contains_op(v, lambda x: x is o or x.op == 'mu' and x.a[0] is e.inner.uid, {}) or X is o:
                    continue
                reads = lambda t: isinstance(t, T) and contains_op(t, lambda x: x is o, {})
                users = [u for u in self.effects if u is not e and (any(reads(a) for a in u.args) or reads(u.guard) or any(reads(l) for l in u.loops))]
                if not all(g_implies(u.guard, e.guard) for u in users):
                    continue
                if X.op == 'obj' and any(u.kind in MUTATING and u.args[0] is X and self.effects.index(u) > self.effects.index(e) for u in self.effects if u.args):
                    continue
                whole = v is g
                vm = {}

                def at_k(k, v=v, X=X, g=g, vm=vm):
                    if k not in vm:
                        vm[k] = subst(v, lambda x: mk('elem', X, k) if x is g else (mk('idx', X, k) if x.op == 'idx' and x.a[0] is X and x.a[1] == g.a[1] else None), {})
                    return vm[k]

                def f(x, o=o, X=X, whole=whole, at_k=at_k):
                    if x is o and whole:
                        return X
                    if x.op == 'elem' and x.a[0] is o:
                        return at_k(x.a[1])
                    if x.op == 'idx' and x.a[0] is o:
                        return mk('idx', X, x.a[1])
                    if x.op in ('len', 'nonempty') and x.a[0] is o:
                        if X.op == 'range':
                            return (add(X.a[1], X.a[0], -1) if x.op == 'len' else pos(add(X.a[1], X.a[0], -1)))
                        return mk(x.op, X)
                    return None
                before = [(len(u.args), u) for u in users]
                newgens = {}
                memo = {}
                R = lambda x: subst(x, f, memo) if isinstance(x, T) else x
                if not whole and not any(contains_op(t, lambda x: x.op in ('elem', 'idx', 'len', 'nonempty') and x.a[0] is o, {}) for u in users for t in list(u.args) + [u.guard] + list(u.loops) if isinstance(t, T)):
                    continue
                for u in users:
                    u.loops = tuple(mk('elem', X, l.a[1]) if l.op == 'elem' and l.a[0] is o else R(l) for l in u.loops)
                    u.args = [R(a) for a in u.args]
                    u.guard = R(u.guard)
                self.rv = R(self.rv)
                self.extra_sub.append(f)
                if whole or not (any(any(reads(a) for a in u.args) or reads(u.guard) for u in users) or reads(self.rv)):
                    self.effects.remove(e)
                    done = False
                    break
            if done:
                return

    def outer_of(self, e):
        i = self.rawloops.get(id(e.inner))
        return i

    def canonical_loops(self):
        li = getattr(self.eng, 'loopinfo', {})

        def lastness(t, d, iseq):
            c, parts = lin_parts(d)
            for P, s in parts.items():
                if P.op == 'idx':
                    end = mk('len', P.a[0])
                    el = mk('elem', P.a[0], P.a[1])
                elif P.op == 'elem' and P.a[0].op == 'range':
                    end = P.a[0].a[1]
                    el = P
                else:
                    continue
                if abs(s) != 1:
                    continue
                r = add(add(d, P, -s), end, s)
                if r.op != 'c':
                    continue
                r = r.a[1]
                last = bool_atom(mk('islast', el))
                if iseq and r * s == 1:
                    return last
                if not iseq:
                    if s == 1 and r == 2:
                        return last
                    if s == -1 and r == -1:
                        return g_not(last)
                    if s == -1 and r >= 0:
                        return TRUE
            return None

        def f(t):
            if t.op == 'call' and t.a[0] == 'peek':
                i = t.a[1]
                if i.op == 'iterv':
                    L = li.get(i.a[0])
                    if L is not None and L.gens:
                        return gite(bool_atom(mk('islast', self.S(L.gens[-1]))), NONE, mk('agg', 'core::Option', 'Some', ('0',), mk('peeked', i)))
                while i.op in ('imap',):
                    i = i.a[0]
                if i.op == 'it':
                    X = subst(i.a[0], f, {})
                    ne = pos(add(X.a[1], X.a[0], -1)) if X.op == 'range' else bool_atom(mk('nonempty', X))
                    return gite(ne, mk('agg', 'core::Option', 'Some', ('0',), mk('peeked', i)), NONE)
            if t.op in ('pos', 'eq') and contains_op(t, lambda x: x.op == 'idx' and x.a[0].op == 'range', {}):
                return subst(subst(t, lambda x: add(mk('elem', x.a[0], x.a[1]), x.a[0].a[0], -1) if x.op == 'idx' and x.a[0].op == 'range' else None, {}), f, {})
            if t.op == 'pos' or t.op == 'eq' and len(t.a) == 2 and (t.a[1] is cint(0) or t.a[1].op != 'c' and t.a[0].op != 'c'):
                return lastness(t, t.a[0] if t.a[-1] is cint(0) or t.op == 'pos' else add(t.a[0], t.a[1], -1), t.op == 'eq')
            if t.op == 'reduce' and t.a[0] in ('max', 'min') and t.a[2] is TRUE and len(t.a[1]) == 1 and t.a[1][0].op == 'elem':
                X = subst(t.a[1][0].a[0], f, {})
                ne = pos(add(X.a[1], X.a[0], -1)) if X.op == 'range' else bool_atom(mk('nonempty', X))
                return gite(ne, mk('agg', 'core::Option', 'Some', ('0',), mk('best', t.a[0], mk('elem', X, t.a[1][0].a[1]), subst(t.a[3], f, {}))), NONE)
            if t.op == 'nonempty' and t.a[0].op in ('subslice', 'call') and (t.a[0].op == 'subslice' or t.a[0].a[0] == 'subslice'):
                q = t.a[0].a[-2:]
                if q[1].op == 'agg' and q[1].a[1] == 'RangeFrom' and q[0].op not in ('list', 'tup'):
                    return subst(pos(add(mk('len', q[0]), q[1].a[3], -1)), f, {})
            if t.op == 'idx' and t.a[0].op == 'range':
                return subst(add(mk('elem', t.a[0], t.a[1]), t.a[0].a[0], -1), f, {})
            if t.op == 'elem' and t.a[0].op == 'range' and add(t.a[0].a[1], t.a[0].a[0], -1) is cint(1):
                return subst(t.a[0].a[0], f, {})
            return None
        self.canon = f
        self.rewrite(f)
        for e in self.effects:
            e.loops = tuple(l for l in e.loops if l.op == 'elem' or l.op not in ('lin', 'c', 'pay', 'call', 'p', 'fld', 'at', 'idx', 'mu'))
            for l in e.loops:
                if l.op == 'elem':
                    X = l.a[0]
                    ne = pos(add(X.a[1], X.a[0], -1)) if X.op == 'range' else bool_atom(mk('nonempty', X))
                    if ne.op == 'ite':
                        e.guard = restrict(e.guard, ne)
                    if X.op == 'range':
                        e.guard = above(e.guard, add(X.a[1], X.a[0], -1))
            if e.guard.op == 'ite':
                sm = {}
                fs = lambda x: simp(x, e.guard) if x.op == 'ite' else x if x.op in ('node', 'obj') else None
                e.args = [subst(a, fs, sm) if isinstance(a, T) and contains_op(a, lambda x: x.op == 'ite', {}) else a for a in e.args]
                for q, l in enumerate(e.loops):
                    if l.op == 'elem' and contains_op(l, lambda x: x.op == 'ite', {}):
                        l2 = subst(l, fs, sm)
                        if l2 is not l and l2.op == 'elem':
                            e.loops = e.loops[:q] + (l2,) + e.loops[q + 1:]

    def multimaps(self):
        """'create the entry if absent, then append' in any spelling becomes madd(map, key, value)"""
        filled = {e.args[0] for e in self.effects if e.kind in MUTATING | {'init'} and e.args}
        adds = {}
        for e in self.effects:
            if e.kind == 'add' and isinstance(e.args[0], T) and e.args[0].op == 'mapval':
                adds.setdefault((e.args[0].a[0], e.args[0].a[1], e.loops), []).append(e)
        out, done = [], set()
        new = {}

        def madd(m, k, v, g, e):
            key = (m.id, k.id, v.id, tuple(x.id for x in e.loops))
            if key in new:
                new[key].guard = g_or(new[key].guard, g)
                return
            pe = PEffect('madd', [m, k, v], g, e.loops, e.span, e.fn)
            pe.inner = getattr(e, 'inner', None)
            new[key] = pe
            out.append(pe)

        plan = {}
        for e in self.effects:
            if e.kind not in ('put', 'putnew') or len(e.args) < 3:
                continue
            m, k, v = e.args[:3]
            if not isinstance(v, T):
                continue
            mine = adds.get((m, k, e.loops), [])
            absent = g_not(bool_atom(mk('contains', m, k)))
            if not g_implies(e.guard, absent):
                continue
            empty = (v.op == 'list' and not v.a) or (v.op == 'obj' and v not in filled) or (v.op == 'call' and str(v.a[0]).startswith('default'))
            if empty:
                tot = FALSE
                for x in mine:
                    tot = g_or(tot, x.guard)
                if mine and g_and(tot, absent) is e.guard:
                    plan[id(e)] = []
                    for x in mine:
                        plan[id(x)] = [(m, k, x.args[1])]
            elif v.op == 'list':
                plan[id(e)] = [(m, k, x) for x in v.a]
                for x in mine:
                    plan[id(x)] = [(m, k, x.args[1])]
        for e in self.effects:
            if id(e) in plan:
                for m, k, v in plan[id(e)]:
                    madd(m, k, v, e.guard, e)
            else:
                out.append(e)
        self.effects = out


def type_key(ty):
    while ty and ty[0] in ('&', '&mut', 'alloc::Box', 'alloc::Rc'):
        ty = ty[1]
    h = ty[0]
    if h in ('[]', 'alloc::Vec') and len(ty) > 1:
        return 'Vec' + type_key(ty[1])
    return h.split('::')[-1].strip('[]') or 'arr'


class Matcher:
    def __init__(self, summ, assume=(), binds=None, opaque_ok=False):
        self.s = summ
        self.prog = summ.eng.prog
        self.assume = [Pat(a).lit() for a in assume]
        self.b0 = dict(binds or {})
        self.b0.update({('p', k): v for k, v in summ.params.items()})
        self.best = None

    # --------------------------------------------------------- unification
    def match(self, p, t, b):
        """generator of binding dicts"""
        k = p[0]
        if k == 'any':
            yield b
            return
        if k == 'var':
            v = b.get(p[1])
            if v is None:
                b2 = dict(b)
                b2[p[1]] = t
                yield b2
            elif v is t or (not isinstance(t, T) and v == t):
                yield b
            return
        if not isinstance(t, T):
            if k == 'param' and isinstance(t, str) and (t == p[1] or t.endswith('::' + p[1])):
                yield b
            elif k == 'const' and p[1].a[1] == t:
                yield b
            elif k == 'agg' and isinstance(t, str) and t.endswith(p[1]):
                yield b
            return
        if k == 'alt':
            for q in p[1]:
                yield from self.match(q, t, b)
            return
        if k == 'const':
            if t is p[1] or (t.op == 'c' and p[1].op == 'c' and t.a[1] == p[1].a[1] and {t.a[0], p[1].a[0]} <= {'int', 'char', 'str'}):
                yield b
            return
        if k == 'param':
            v = b.get(('p', p[1]))
            if v is None:
                raise Exception('no parameter of type %s in %s (have %s)' % (p[1], self.s.body['name'], list(self.s.params)))
            if v is t:
                yield b
            return
        if k == 'fld':
            if t.op == 'fld' and t.a[1] == p[2]:
                yield from self.match(p[1], t.a[0], b)
            return
        if k == 'pay':
            if t.op == 'pay' and t.a[1] == p[2] and t.a[2] == p[3]:
                yield from self.match(p[1], t.a[0], b)
            return
        if k == 'each':
            if t.op == 'elem':
                yield from self.match(p[1], t.a[0], b)
            return
        if k == 'agg':
            if t.op == 'agg':
                full = t.a[0].split('::')[-1] + '::' + t.a[1]
                nm = p[1]
                if full == nm or full.endswith('::' + nm) or nm.split('::')[-2:] == full.split('::') or (t.a[1] == nm and t.a[0].endswith(nm)):
                    vals = dict(zip(t.a[2], t.a[3:]))
                    bs = [b]
                    for f, q in p[2]:
                        if f not in vals:
                            return
                        nb = []
                        for x in bs:
                            nb.extend(self.match(q, vals[f], x))
                        bs = nb
                    yield from bs
            return
        if k == 'tup':
            if t.op == 'tup' and len(t.a) == len(p[1]):
                yield from self.seq(p[1], t.a, b)
            return
        if k == 'list':
            if t.op == 'list' and len(t.a) == len(p[1]):
                yield from self.seq(p[1], t.a, b)
            return
        if k == 'app' and (p[1].startswith('?') or p[2][:1] == ('~',)):
            if t.op != 'call' or not isinstance(t.a[0], str):
                return
            nm = t.a[0].split('rec:')[-1]
            if p[1].startswith('?'):
                v = b.get(p[1][1:])
                if v is None:
                    b = dict(b)
                    b[p[1][1:]] = nm
                elif v != nm:
                    return
            elif not (nm == p[1] or nm.endswith('::' + p[1])):
                return
            if p[2][:1] == ('~',):
                yield from self.bag(p[2][1:], list(t.a[1:]), b)
            elif len(t.a) - 1 == len(p[2]):
                yield from self.seq(p[2], t.a[1:], b)
            return
        if k == 'app':
            if p[1] in ('and', 'or', 'not', 'is') or (t.op == 'ite' and t.a[0].a[1] == BOOLD):
                yield from self.match_guard(p, t, b)
                return
            if p[1] == 'count' and t.op == 'reduce' and t.a[0] == 'count':
                if len(t.a[1]) == len(p[2]) - 1:
                    for b2 in self.seq(p[2][:-1], t.a[1], b):
                        yield from self.match_guard(p[2][-1], t.a[2], b2)
                return
            if t.op == p[1]:
                a = [x for x in t.a]
                if t.op in ('exists', 'such') and isinstance(a[0], tuple):
                    a = list(a[0]) + a[1:]
                if len(a) == len(p[2]):
                    yield from self.seq(p[2], a, b)
                    if t.op == 'eq':
                        yield from self.seq(p[2], a[::-1], b)
                elif t.op in ('node', 'such', 'such1') and len(a) >= len(p[2]):
                    yield from self.seq(p[2], a[:len(p[2])], b)
            elif t.op == 'call' and isinstance(t.a[0], str):
                nm = t.a[0].split('rec:')[-1]
                if (nm == p[1] or nm.endswith('::' + p[1])) and len(t.a) - 1 == len(p[2]):
                    yield from self.seq(p[2], t.a[1:], b)
            return
        if k == 'lin':
            # solve for at most one unbound variable
            known, unk = [], []
            for q, c in p[1]:
                v = self.inst(q, b)
                if v is None:
                    unk.append((q, c))
                else:
                    known.append((v, c))
            acc = t
            for v, c in known:
                acc = add(acc, v, -c)
            if not unk:
                if acc is cint(0):
                    yield b
            elif len(unk) == 1:
                q, c = unk[0]
                v = acc if c == 1 else add(cint(0), acc, -1)
                yield from self.match(q, v, b)
            else:
                # try each linear part for the first unknown
                c0, parts = lin_parts(acc)
                q, c = unk[0]
                for x, kx in parts.items():
                    if kx == c:
                        for b2 in self.match(q, x, b):
                            yield from self.match(('lin', tuple(unk[1:])), add(acc, x, -c), b2)
            return
        raise Exception('pattern kind %s' % k)

    def match_guard(self, p, g, b):
        """match a guard used as a term (the condition of exists/such)"""
        lits = conj(g)
        if lits is None or has_or(p):
            if isinstance(g, T) and g.op == 'ite' and has_or(p):
                for gg, b2 in self.lit_guard(self.as_lit(p, False), b, [g]):
                    if gg is g or self.assumed(gg, b2) is self.assumed(g, b2):
                        yield b2
            return
        ps = list(p[2]) if p[1] == 'and' else [p]
        if len(ps) != len(lits):
            return
        yield from self.match_lits(ps, lits, b)

    def match_lits(self, ps, lits, b):
        if not ps:
            yield b
            return
        p = ps[0]
        neg = False
        while p[0] == 'app' and p[1] == 'not':
            p, neg = p[2][0], not neg
        for i, (subj, labs, dom) in enumerate(lits):
            rest = lits[:i] + lits[i + 1:]
            if p[0] == 'app' and p[1] == 'is':
                want = {q[1] if isinstance(q[1], str) else q[1].a[1] for q in p[2][1:]}
                if dom == BOOLD or (want != set(labs)) == (not neg) and not neg:
                    continue
                if neg and set(dom) - want != set(labs):
                    continue
                for b2 in self.match(p[2][0], subj, b):
                    yield from self.match_lits(ps[1:], rest, b2)
            else:
                if dom != BOOLD or (labs == ['F']) != neg:
                    continue
                for b2 in self.match(p, subj, b):
                    yield from self.match_lits(ps[1:], rest, b2)

    def bag(self, ps, ts, b):
        """every pattern matches a distinct argument, in any position"""
        if not ps:
            yield b
            return
        for i, t in enumerate(ts):
            for b2 in self.match(ps[0], t, b):
                yield from self.bag(ps[1:], ts[:i] + ts[i + 1:], b2)

    def seq(self, ps, ts, b):
        if not ps:
            yield b
            return
        for b2 in self.match(ps[0], ts[0], b):
            yield from self.seq(ps[1:], ts[1:], b2)

    # --------------------------------------------------------- instantiation
    def inst(self, p, b):
        k = p[0]
        if k == 'any':
            return None
        if k == 'var':
            return b.get(p[1])
        if k == 'const':
            return p[1]
        if k == 'param':
            return b.get(('p', p[1]))
        if k == 'fld':
            x = self.inst(p[1], b)
            return None if x is None else fld(x, p[2])
        if k == 'pay':
            x = self.inst(p[1], b)
            return None if x is None else pay(x, p[2], p[3])
        if k == 'tup':
            xs = [self.inst(q, b) for q in p[1]]
            return None if any(x is None for x in xs) else mk('tup', *xs)
        if k == 'lin':
            acc = cint(0)
            for q, c in p[1]:
                x = self.inst(q, b)
                if x is None:
                    return None
                acc = add(acc, x, c)
            return acc
        if k == 'each':
            x = self.inst(p[1], b)
            return None if x is None else elem(x, 0)
        if k == 'app':
            xs = [self.inst(q, b) for q in p[2]]
            if any(x is None for x in xs) or p[1] not in KNOWN_OPS:
                return None
            if p[1] == 'eq':
                return eq(*xs)
            if p[1] == 'pos':
                return pos(*xs)
            return mk(p[1], *xs)
        return None

    @staticmethod
    def as_lit(p, neg):
        while p[0] == 'app' and p[1] == 'not':
            p, neg = p[2][0], not neg
        if p[0] == 'app' and p[1] == 'is':
            return ('is', p[2][0], tuple(q[1] if isinstance(q[1], str) else q[1].a[1] for q in p[2][1:]), neg)
        return ('bool', p, neg)

    def lit_guard(self, lit, b, guards):
        """-> list of (guard, binding) for a literal"""
        out = []
        if lit[0] == 'bool' and lit[1][0] == 'app' and lit[1][1] in ('or', 'and', 'not'):
            _, p, neg = lit
            if p[1] == 'not':
                return self.lit_guard(self.as_lit(p[2][0], not neg), b, guards)
            opts = [(FALSE if p[1] == 'or' else TRUE, b)]
            for q in p[2]:
                opts = [((g_or if p[1] == 'or' else g_and)(g1, g2), b2) for g1, b1 in opts for g2, b2 in self.lit_guard(self.as_lit(q, False), b1, guards)]
            return [(g_not(g) if neg else g, b1) for g, b1 in opts]
        if lit[0] == 'is':
            _, p, vs, neg = lit
            x = self.inst(p, b)
            for g in guards:
                for at in atoms_of(g):
                    if at.a[1] == BOOLD:
                        continue
                    if x is at.a[0]:
                        bs = [b]
                    else:
                        bs = list(self.match(p, at.a[0], b))
                    for b2 in bs:
                        if any(v not in at.a[1] for v in vs):
                            continue
                        gg = FALSE
                        for v in vs:
                            gg = g_or(gg, test(at.a[0], v, at.a[1]))
                        out.append((g_not(gg) if neg else gg, b2))
        else:
            _, p, neg = lit
            if p[0] == 'app' and p[1] in ('eq', 'pos'):
                x = self.inst(p, b)
                if x is not None:
                    gx = to_guard(x)
                    if not any(at.a[1] == BOOLD and at in atoms_of(g) for at in atoms_of(gx) for g in guards):
                        out.append((g_not(gx) if neg else gx, b))
                    else:
                        return [(g_not(gx) if neg else gx, b)]
            for g in guards:
                for at in atoms_of(g):
                    if at.a[1] != BOOLD:
                        continue
                    for b2 in self.match(p, at.a[0], b):
                        gg = bool_atom(at.a[0])
                        out.append((g_not(gg) if neg else gg, b2))
                    if at.a[0].op == 'pos' and p[0] == 'app' and p[1] == 'pos':
                        # d > 0 is not 1 - d > 0
                        for b2 in self.match(p, mk('pos', add(cint(1), at.a[0].a[0], -1)), b):
                            gg = g_not(bool_atom(at.a[0]))
                            out.append((g_not(gg) if neg else gg, b2))
        # dedupe
        res = []
        for g, bb in out:
            if not any(g is g2 and bb == b2 for g2, b2 in res):
                res.append((g, bb))
        return res

    def assumed(self, g, b):
        """cofactor by the assumed literals"""
        for _ in range(12):
            done = True
            for lit in self.assume:
                for lg, _b in self.lit_guard(lit, b, [g]):
                    g2 = restrict(g, lg)
                    if g2 is not g:
                        g = g2
                        done = False
            for at in atoms_of(g):
                # what is assumed everywhere is assumed of every element, too
                if at.a[0].op != 'exists':
                    continue
                inner = self.assumed(at.a[0].a[1], b)
                if inner is at.a[0].a[1]:
                    continue
                new = FALSE if inner is FALSE else bool_atom(mk('exists', at.a[0].a[0], inner)) if inner is not TRUE else None
                if new is None:
                    continue
                old = bool_atom(at.a[0])
                g = g_or(g_and(new, assume_guard(g, old, True)), g_and(g_not(new), assume_guard(g, old, False)))
                done = False
            if done:
                break
        return g

    # --------------------------------------------------------- lines
    def candidates(self, line, b):
        """group effects matching the line by bindings -> [(binding, [effects])]"""
        groups = []
        for e in self.s.effects:
            if e.kind != line.kind and not (line.kind == 'call' and e.kind in ('rec', 'ext')):
                continue
            if len(e.args) < len(line.args) or (line.bag is None and len(e.args) > len(line.args) and e.kind not in ('add_node', 'put')):
                continue
            bs = [b]
            if line.loops != 'any' and e.kind not in ('return',):
                lp = line.loops or []
                gens = e.loops
                if e.kind in ('init', 'step') and line.loops is None:
                    pass
                else:
                    if len(gens) != len(lp):
                        continue
                    bs = list(self.seq(lp, gens, b))
            for b1 in bs:
                n = len(line.args)
                bss = self.seq(line.args, e.args[:n], b1)
                if line.bag is not None:
                    bss = [b3 for b2 in bss for b3 in self.bag(line.bag, list(e.args[n:]), b2)]
                for b2 in bss:
                    for grp in groups:
                        if grp[0] == b2:
                            grp[1].append(e)
                            break
                    else:
                        groups.append((b2, [e]))
        return groups

    def solve(self, lines):
        self.fail = (-1, None)
        self.trace = []
        lines = [Line(l) if isinstance(l, str) else l for l in lines]
        self.lines = lines
        r = self.step(lines, 0, self.b0, [])
        return r

    def step(self, lines, i, b, used):
        if i == len(lines):
            return b, used
        ln = lines[i]
        cands = self.candidates(ln, b)
        why = []
        for b2, effs in cands:
            g = FALSE
            for e in effs:
                g = g_or(g, e.guard)
            if ln.anyguard:
                r = self.step(lines, i + 1, b2, used + [(ln, effs)])
                if r is not None:
                    return r
                continue
            ga = self.assumed(g, b2)
            gm = merge_exists(ga)
            alts = [(TRUE, b2)]
            missing = None
            for lit in ln.guard:
                nxt = []
                for gg, bb in alts:
                    opts = self.lit_guard(lit, bb, [ga, g] if gm is ga else [ga, g, gm])
                    for lg, b3 in opts:
                        nxt.append((g_and(gg, lg), b3))
                if not nxt:
                    missing = lit
                alts = nxt
            ok = False
            for gg, b3 in alts:
                gg2 = self.assumed(gg, b3)
                if gg2 is ga or gg is ga or same_arith(gg2, ga) or gm is not ga and merge_exists(gg2) is gm:
                    ok = True
                    r = self.step(lines, i + 1, b3, used + [(ln, effs)])
                    if r is not None:
                        return r
            if not ok:
                why.append((effs, ga, missing))
        if ln.opt:
            r = self.step(lines, i + 1, b, used)
            if r is not None:
                return r
        if i > self.fail[0]:
            self.fail = (i, ln, why, b)
        return None


def has_or(p):
    return p[0] == 'app' and (p[1] == 'or' or p[1] in ('and', 'not') and any(has_or(q) for q in p[2]))


def merge_exists(g):
    """one quantifier for 'some element has A or some element has B'"""
    for _ in range(8):
        ats = [at for at in atoms_of(g) if at.a[0].op == 'exists']
        for i, A in enumerate(ats):
            for B in ats[i + 1:]:
                if A.a[0].a[0] != B.a[0].a[0]:
                    continue
                a, b = bool_atom(A.a[0]), bool_atom(B.a[0])
                hi, lo = assume_guard(g, a, True), assume_guard(g, a, False)
                x, y = assume_guard(lo, b, True), assume_guard(lo, b, False)
                if assume_guard(hi, b, True) is x and assume_guard(hi, b, False) is x:
                    new = bool_atom(mk('exists', A.a[0].a[0], g_or(A.a[0].a[1], B.a[0].a[1])))
                    g = g_or(g_and(new, x), g_and(g_not(new), y))
                    break
            else:
                continue
            break
        else:
            return g
    return g


def above(g, d):
    """g where d > 0 is known"""
    for at in atoms_of(g):
        t = at.a[0]
        if t.op == 'pos':
            x = t.a[0]
        elif t.op == 'eq' and (t.a[1].op != 'c' or t.a[1].a[0] == 'int'):
            x = add(t.a[0], t.a[1], -1)
        else:
            continue
        r, s = add(x, d, -1), add(x, d, 1)
        if t.op == 'pos':
            # x = d + r ; x = s - d
            if r.op == 'c' and r.a[1] >= 0:
                g = assume(g, at, 0)
            elif s.op == 'c' and s.a[1] <= 1:
                g = assume(g, at, 1)
        elif r.op == 'c' and r.a[1] >= 0 or s.op == 'c' and s.a[1] <= 0:
            g = assume(g, at, 1)
    return g


def same_arith(a, b):
    """equal guards once the relations between their order comparisons are known (x > 3 implies x > 1)"""
    ats = {}
    for g in (a, b):
        for at in atoms_of(g):
            if at.a[0].op == 'pos':
                ats[at.a[0].a[0]] = at
    xs = list(ats)
    if len(xs) < 2 or len(xs) > 6:
        return False
    C = TRUE
    for i, x in enumerate(xs):
        for y in xs[i + 1:]:
            px, py = pos(x), pos(y)
            d, s = add(y, x, -1), add(x, y, 1)
            if d.op == 'c':
                C = g_and(C, g_or(g_not(px), py) if d.a[1] >= 0 else g_or(g_not(py), px))
            if s.op == 'c' and s.a[1] <= 1:
                C = g_and(C, g_not(g_and(px, py)))
            if s.op == 'c' and s.a[1] >= 1:
                C = g_and(C, g_or(px, py))
    return C is not TRUE and g_and(a, C) is g_and(b, C)


def restrict(g, lit):
    """g assuming lit (a conjunction-free literal guard)"""
    if lit.op != 'ite':
        return g
    at = lit.a[0]
    live = [i for i, k in enumerate(lit.a[1:]) if k is TRUE]
    if at not in atoms_of(g):
        return g
    if len(live) == 1:
        return assume(g, at, live[0])
    return simp(g, lit)


MUTATING = {'add', 'madd', 'addfront', 'put', 'putnew', 'remove', 'removeat', 'insertat', 'pop', 'clear', 'sort', 'sort_by', 'sort_by_key', 'dedup', 'retain', 'truncate',
            'extend', 'add_node', 'add_edge', 'drain', 'reverse', 'swap', 'set', 'write', 'tok', 'group', 'store', 'append', 'rotate', 'mutate'}


class Result:
    def __init__(self):
        self.violations = []     # (key, message)
        self.obligations = 0
        self.functions = set()
        self.effects = 0
        self.samples = []


def describe_guard(summ, g):
    from .show import Pretty
    return Pretty(summ.eng).guard(g)[:300]


def given(summ, lits):
    """the summary restricted to the executions in which the literals (over parameters and wildcards) hold for every element"""
    import copy
    m = Matcher(summ, lits)
    b = dict(m.b0)
    decided = {}

    def decide(at):
        r = decided.get(at)
        if r is None:
            n = len(at.a[1])
            g0 = bool_atom(at.a[0]) if at.a[1] == BOOLD else test(at.a[0], at.a[1][0], at.a[1])
            live = set(range(n))
            if g0.op == 'ite' and g0.a[0] is at:
                for lit in m.assume:
                    for lg, _b in m.lit_guard(lit, b, [g0]):
                        if lg.op == 'ite' and lg.a[0] is at:
                            live &= {i for i, k in enumerate(lg.a[1:]) if k is TRUE}
            r = decided[at] = live or set(range(n))
        return r

    memo = {}

    def f(t):
        if t.op != 'ite':
            return None
        at = t.a[0]
        if at.a[0].op == 'exists' and subst(at.a[0].a[1], f, memo) is FALSE:
            return subst(t.a[2], f, memo)
        live = decide(at)
        if len(live) == 1:
            return subst(t.a[1 + min(live)], f, memo)
        if len(live) < len(at.a[1]):
            s2 = subst(at.a[0], f, memo)
            return rebuild_select(s2, at.a[1], [subst(k, f, memo) if i in live else BOT for i, k in enumerate(t.a[1:])])
        return None
    r = copy.copy(summ)
    R = lambda x: subst(x, f, memo) if isinstance(x, T) else x
    r.effects = []
    merged = {}
    for e in summ.effects:
        g = R(e.guard)
        if g is FALSE or g is BOT:
            continue
        args = [R(a) for a in e.args]
        gens = tuple(R(x) for x in e.loops)
        key = (e.kind, tuple(a.id if isinstance(a, T) else a for a in args), tuple(x.id for x in gens))
        if key in merged:
            merged[key].guard = g_or(merged[key].guard, g)
            continue
        pe = PEffect(e.kind, args, g, gens, e.span, e.fn)
        pe.inner = getattr(e, 'inner', None)
        merged[key] = pe
        r.effects.append(pe)
    r.rv = R(summ.rv)
    r.inline_literals()
    return r


def check_spec(summ, name, lines, watch=(), assume=(), binds=None, ignore=(), given_=()):
    """-> (bindings or None, [violations])"""
    from .show import Pretty
    if given_:
        stage = []
        for l in list(given_) + ['---']:
            if l != '---':
                stage.append(l)
            elif stage:
                summ = given(summ, stage)
                stage = []
    m = Matcher(summ, assume, binds)
    r = m.solve([l for l in lines if l.strip()])
    P = Pretty(summ.eng)
    out = []
    fn = summ.body['name']
    if r is None:
        i, ln, why, b = m.fail
        msg = '%s: obligation "%s" is not met' % (fn, ln.src)
        for effs, ga, missing in why[:2]:
            e = effs[0]
            sp = e.span
            msg += '; nearest: %s(%s) under guard [%s] at %s' % (
                e.kind, ', '.join(P(a) for a in e.args)[:300], P.guard(ga)[:1600], '%s:%s' % (sp[0], sp[1]) if sp else fn)
        if not why:
            near = [e for e in summ.effects if e.kind == ln.kind]
            for e in near[:3]:
                msg += '; has: %s(%s)%s' % (e.kind, ', '.join(P(a) for a in e.args)[:200], ' at %s:%s' % tuple(e.span[:2]) if e.span else '')
        out.append(('%s/%s/missing:%s' % (name, fn, ln.src), msg))
        return None, out, m
    b, used = r
    usedset = set()
    for ln, effs in used:
        for e in effs:
            usedset.add(id(e))
    watched = {}
    for w in (set(watch) | {'stop'}) - ({'stop', '-stop'} if '-stop' in watch else set()):
        if w == 'return':
            for e in summ.effects:
                if e.kind == 'return' and id(e) not in usedset and m.assumed(e.guard, b) is not FALSE:
                    out.append(('%s/%s/extra-return' % (name, fn), '%s: unexpected result %s under [%s]' % (fn, P(e.args[0])[:300], P.guard(e.guard)[:300])))
            continue
        if w.startswith('@'):
            for e in summ.effects:
                if e.kind == w[1:] and id(e) not in usedset and m.assumed(e.guard, b) is not FALSE:
                    out.append(('%s/%s/extra:%s' % (name, fn, w), '%s: not in the specification: %s(%s) under [%s] at %s:%s' % (
                        fn, e.kind, ', '.join(P(a) for a in e.args)[:300], P.guard(e.guard)[:300], e.span[0], e.span[1])))
            continue
        if w == 'stop':
            for e in summ.effects:
                if e.kind == 'stop' and id(e) not in usedset and m.assumed(e.guard, b) is not FALSE:
                    out.append(('%s/%s/extra-stop' % (name, fn), '%s: the iteration over %s is left early if [%s]' % (fn, P(e.args[0])[:200], P.guard(e.guard)[:300])))
            continue
        v = b.get(w) if not w.startswith('#') else b.get(('p', w[1:].split('.')[0]))
        for f in w.split('.')[1:]:
            v = v if v is None else fld(v, f)
        if v is None:
            continue
        watched[v] = w
    for e in summ.effects:
        if e.kind in MUTATING and e.args and id(e) not in usedset:
            tgt = e.args[0]
            if tgt in watched and (watched[tgt], e.kind) not in ignore:
                if m.assumed(e.guard, b) is FALSE:
                    continue
                out.append(('%s/%s/extra:%s:%s' % (name, fn, watched[tgt], e.kind),
                            '%s: effect outside the specification on %s: %s(%s) under [%s] at %s:%s' % (
                                fn, watched[tgt], e.kind, ', '.join(P(a) for a in e.args)[:300], P.guard(e.guard)[:300], e.span[0], e.span[1])))
    return b, out, m


def covers(G, loops, need):
    """does `need`, at some iteration of loops, imply G (which may speak about such iterations with exists)?"""
    if g_implies(need, G):
        return True
    tgt = None
    for at in atoms_of(need):
        if at.a[0].op == 'contains':
            for a2 in atoms_of(G):
                if a2.a[0].op in ('same', 'grown') and a2.a[0].a[0] is at.a[0].a[0] and g_implies(need, g_not(bool_atom(at.a[0]))):
                    G = assume_guard(G, bool_atom(a2.a[0]), a2.a[0].op == 'grown')
    bylen = G
    if g_implies(need, G):
        return True
    for at in atoms_of(G):
        x = at.a[0]
        if x.op == 'exists' and loops[:len(x.a[0])] == tuple(x.a[0]) and covers(x.a[1], loops[len(x.a[0]):], need):
            bylen = assume_guard(bylen, bool_atom(x), True)
    return bylen is not G and g_implies(need, bylen)


def check_fixpoint(summ, name, is_target, assume_true=()):
    """every loop without an element source that fills a target is only left when an iteration has added nothing new"""
    out = []
    fn = summ.body['name']
    n = 0
    stops = {}
    for e in summ.effects:
        if e.kind == 'stop' and e.args[0].op == 'while' and e.loops[-1] is e.args[0]:
            stops.setdefault(e.args[0], []).append(e)
    mus = {e.args[0]: e for e in summ.effects if e.kind == 'step'}
    for e in summ.effects:
        if e.kind not in ('add', 'put', 'madd') or not is_target(e):
            continue
        w = [i for i, l in enumerate(e.loops) if l.op == 'while']
        if not w:
            continue
        i = w[-1]
        n += 1
        tgt, val = (e.args[0], e.args[-1]) if e.kind == 'add' else (mk('mapval', e.args[0], e.args[1]), e.args[2])
        need = g_and(e.guard, g_not(bool_atom(mk('contains', tgt, val))))
        ok = bool(stops.get(e.loops[i]))
        for st in stops.get(e.loops[i], []):
            go = g_not(st.guard)
            if go.op == 'ite' and go.a[0].a[0].op == 'mu' and go is bool_atom(go.a[0].a[0]):
                m = go.a[0].a[0]
                sts = [x for x in summ.effects if x.kind == 'step' and x.args[0] is m]
                ini = [x for x in summ.effects if x.kind == 'init' and x.args[0] is m]
                if len(ini) == 1 and ini[0].args[1] is TRUE and all(x.args[1] in (TRUE, FALSE) for x in sts):
                    go = FALSE
                    for x in sts:
                        if x.args[1] is TRUE:
                            go = g_or(go, x.guard)
            ok = ok and covers(go, e.loops[i + 1:], need)
        if not ok:
            from .show import Pretty
            P = Pretty(summ.eng)
            out.append(('%s/%s/fixpoint:%d' % (name, fn, n), '%s: the iteration may stop although adding %s to %s was new at %s:%s' % (fn, P(val)[:150], P(tgt)[:150], e.span[0], e.span[1])))
    return n, out


def summarise(prog, name, opaque=(), depth=24, consts=None):
    body = prog.find(name)
    if body is None:
        return None
    ops = set(opaque)
    e = Engine(prog, opaque=lambda n, b: n in ops or any(n.endswith('::' + o) for o in ops), depth=depth, consts=consts)
    rv, eff = e.run(body)
    return Summary(e, body, rv, eff)


def conj(g):
    """guard as a list of literals (subject, labels, domain), or None if it is not a conjunction"""
    out = []
    while g is not TRUE:
        if g.op != 'ite':
            return None
        at = g.a[0]
        live = [(d, k) for d, k in zip(at.a[1], g.a[1:]) if k is not FALSE and k is not BOT]
        if not live or any(k is not live[0][1] for _, k in live):
            return None
        out.append((at.a[0], [d for d, _ in live], at.a[1]))
        g = live[0][1]
    return out
