"""Parser combinators (nom) as parsing expression grammars. A parser function of the shape fn(&[u8]) -> IResult<&[u8], T> is read off its summary: the parsers applied one after
the other to the remaining input (threaded through the results), the conditions on what they read and the value returned. Functions, maps and nested sequences are flattened (a
sequence of parsing expressions is associative), choices whose values are inspected are split into their branches, conditions on single bytes and on list lengths are decided over
their finite domains. Two grammars are compared coinductively, so helper functions, closures and conversions do not matter; only what is read, in which order, and which tree is built."""
import itertools
from .term import *
from .engine import Engine
from .spec import Summary

ALL = frozenset(range(256))
ASCII = frozenset(range(128))
OPT = ('Some', 'None')
WS = frozenset(b' \t\r\n')
_uid = itertools.count(1)


class Unhandled(Exception):
    pass


def sv(u):
    return mk('p', '\x01%d' % u)


def none():
    return mk('agg', 'core::Option', 'None', ())


def some(v):
    return mk('agg', 'core::Option', 'Some', ('0',), v)


class Atom:
    """one step: cls (byte set, min, max), alt (blocks), opt, many (min), sep (separator, element, min), lit (longer text)"""

    def __init__(self, kind, **k):
        self.kind = kind
        self.uid = next(_uid)
        self.set = k.get('set')
        self.lo = k.get('lo')
        self.hi = k.get('hi')
        self.blocks = k.get('blocks', ())
        self.choice = k.get('choice')     # (branch, Out) when split
        self.lens = k.get('lens')         # which lengths are meant
        self.text = k.get('text')

    def but(self, **k):
        a = Atom.__new__(Atom)
        a.__dict__.update(self.__dict__)
        a.__dict__.update(k)
        return a


class Out:
    def __init__(self, steps, guard, value):
        self.steps = steps
        self.guard = guard
        self.value = value

    def fresh(self):
        """a copy with its own variables"""
        ren = {}

        def go(st):
            r = []
            for a in st:
                u = next(_uid)
                ren[sv(a.uid)] = sv(u)
                ch = a.choice
                if ch is not None:
                    o = Out(go(ch[1].steps), ch[1].guard, ch[1].value)
                    ch = (ch[0], o)
                r.append(a.but(uid=u, choice=ch))
            return r
        steps = go(self.steps)
        f = lambda t: ren.get(t)
        return Out(steps, subst(self.guard, f), subst(self.value, f))


class Block:
    def __init__(self, make, name=''):
        self.make = make
        self._outs = None
        self.name = name
        self.busy = False

    def outs(self):
        if self._outs is None:
            if self.busy:
                raise Unhandled('the parser %s calls itself before it has read anything' % self.name)
            self.busy = True
            self._outs = self.make()
            self.busy = False
        return self._outs


def prim(a):
    return Block(lambda: [Out([a], TRUE, sv(a.uid))])


def cls(s, lo=1, hi=1):
    return Atom('cls', set=frozenset(s), lo=lo, hi=hi)


def text(s):
    b = s.encode()
    return cls(b) if len(b) == 1 else Atom('lit', text=s)


def contains(t, x):
    return contains_op(t, lambda y: y is x)


class Reader:
    def __init__(self, prog, count=lambda *a: None):
        self.prog = prog
        self.fns = {}
        self.sums = {}
        self.count = count

    def find(self, name):
        b = self.prog.bodies.get(name)
        return b if b is not None else self.prog.find(name)

    def is_parser(self, b):
        """takes the input only and returns what is left of it with a result"""
        return b['argc'] == 1 and '{closure' not in b['name'] and 'nom::' in repr(b['locals'][0][0]) and "'[]', ['u8']" in repr(b['locals'][1][0])

    def summ(self, name):
        if name not in self.sums:
            b = self.find(name)
            if b is None:
                raise Unhandled('no such function: ' + name)
            e = Engine(self.prog, opaque=lambda n, f: f is not None and f is not b and self.is_parser(f), depth=24, consts=None)
            rv, eff = e.run(b)
            s = self.sums[name] = Summary(e, b, rv, eff)
            self.count(s)
        return self.sums[name]

    def fn(self, name):
        if name not in self.fns:
            self.fns[name] = Block(lambda: self.body(name), name)
        return self.fns[name]

    # ------------------------------------------------------------ functions
    def body(self, name):
        s = self.summ(name)
        inits = {}
        for e in s.effects:
            if e.kind == 'init':
                inits[e.args[0]] = e.args[1]
            elif e.kind in ('panic', 'stop'):
                pass
            elif e.kind not in ('return', 'call', 'ext', 'removeat', 'pop', 'popped', 'rec'):
                raise Unhandled('%s: effect %s' % (name, e.kind))
        par = [t for t in self.params(s)]
        if len(par) != 1:
            raise Unhandled('%s: parameters' % name)
        inp = par[0]
        self.name = name
        res = []
        for e in s.effects:
            if e.kind in ('panic', 'stop'):
                self.no_panic(name, e.guard, inp, inits)
        for g, lf in leaves(s.rv):
            if lf.op == 'agg' and lf.a[1] == 'Err' or lf is BOT:
                continue
            if lf.op == 'agg' and lf.a[1] == 'Ok' and lf.a[3].op == 'tup':
                rest, val = lf.a[3].a
            elif lf.op == 'agg' and lf.a[1] == 'Ok' and lf.a[3].op == 'pay' and lf.a[3].a[1] == 'Ok' and self.applied(lf.a[3].a[0]):
                rest, val = [mk('fld', lf.a[3], k) for k in '01']
            elif self.applied(lf):
                rest, val = None, None
            else:
                raise Unhandled('%s: result %s' % (name, show(lf)[:120]))
            chain = []
            tail = None
            if rest is None:
                tail = lf
                rest = self.applied(lf)[1]
                chain.append(lf)
            while rest is not inp:
                c = rest
                if not (c.op == 'fld' and c.a[1] == '0' and c.a[0].op == 'pay' and c.a[0].a[1] == 'Ok'):
                    raise Unhandled('%s: the rest of the input is %s' % (name, show(c)[:120]))
                r = c.a[0].a[0]
                ap = self.applied(r)
                if not ap:
                    raise Unhandled('%s: the rest of the input is %s' % (name, show(c)[:120]))
                chain.append(r)
                rest = ap[1]
            chain.reverse()
            if tail is not None:
                val = mk('fld', mk('pay', tail, 'Ok', '0'), '1')
            res += self.chained(name, chain, g, val, inp, inits)
        return self.finish(res)

    def no_panic(self, name, g, inp, inits):
        """the reader of one construct gives up by an error, never by a panic"""
        rs = [at.a[0] for at in atoms_of(g) if self.applied(at.a[0])]
        for r in rs:
            for at in atoms_of(g):
                if at.a[0] is r and assume(g, at, at.a[1].index('Err')) is not FALSE:
                    raise Unhandled('%s: panics when a part of it cannot be read' % name)
        rs.sort(key=lambda r: r.id)
        chain, rest = [], inp
        while rs:
            nxt = [r for r in rs if self.applied(r)[1] is rest]
            if len(nxt) != 1:
                raise Unhandled('%s: can panic' % name)
            chain.append(nxt[0])
            rs.remove(nxt[0])
            rest = mk('fld', mk('pay', nxt[0], 'Ok', '0'), '0')
        if self.finish(self.chained(name, chain, g, UNIT, inp, inits)):
            raise Unhandled('%s: can panic' % name)

    def chained(self, name, chain, g, val, inp, inits):
        f = lambda t: inits.get(t) if t.op == 'obj' else None
        for _ in range(3):
            val = subst(val, f)
            g = subst(g, f)
        for r in chain:
            g = self.assume_ok(g, r)
        combos = [([], g, val)]
        for r in chain:
            var = mk('fld', mk('pay', r, 'Ok', '0'), '1')
            nxt = []
            for o0 in self.parser(self.applied(r)[0]).outs():
                for st, gg, vv in combos:
                    o = o0.fresh()
                    h = lambda t: o.value if t is var else None
                    nxt.append((st + o.steps, g_and(o.guard, to_guard(subst(gg, h))), subst(vv, h)))
            combos = nxt
        for st, gg, vv in combos:
            bad = [r for r in chain if contains(vv, r) or contains(gg, r)]
            if bad or contains(vv, inp) or contains(gg, inp):
                raise Unhandled('%s: %s is looked at in an unknown way' % (name, show((bad + [inp])[0])[:100]))
        return [Out(*c) for c in combos]

    def params(self, s):
        return list(s.params.values())

    def assume_ok(self, g, r):
        for at in atoms_of(g):
            if at.a[0] is r and 'Ok' in at.a[1]:
                g = assume(g, at, at.a[1].index('Ok'))
        return g

    def applied(self, t):
        """(parser, input) if t is the result of applying a parser"""
        if t.op == 'call' and t.a[0] == 'apply' and len(t.a) == 3:
            return t.a[1], t.a[2]
        if t.op == 'call' and t.a[0] in ('nom::multispace0', 'nom::multispace1', 'nom::space0', 'nom::space1') and len(t.a) == 2:
            return mk('fn', t.a[0], ()), t.a[1]
        if t.op == 'call' and len(t.a) == 2 and self.prog.find(t.a[0]) is not None:
            return mk('fn', t.a[0], ()), t.a[1]
        if t.op == 'call' and t.a[0].startswith('rec:') and len(t.a) == 2:
            return mk('fn', t.a[0][4:], ()), t.a[1]
        return None

    # ------------------------------------------------------------ parsers
    def parser(self, t):
        if t.op == 'fn':
            if self.prog.find(t.a[0]) is not None:
                return self.fn(t.a[0])
            n = t.a[0].split('::')[-1]
            if t.a[0].startswith('nom::'):
                if n in ('space0', 'space1'):
                    return prim(cls(b' \t', 0 if n == 'space0' else 1, None))
                if n in ('multispace0', 'multispace1'):
                    return prim(cls(WS, 0 if n == 'multispace0' else 1, None))
        if t.op == 'clo':
            return self.fn(self.closure(t))
        if t.op == 'call' and t.a[0].startswith('nom::'):
            n, a = t.a[0][5:], t.a[1:]
            if n in ('tag', 'char') and a[0].op == 'c' and a[0].a[0] in ('str', 'char'):
                v = a[0].a[1]
                return prim(text(chr(v) if isinstance(v, int) else v))
            if n == 'take' and a[0].op == 'c':
                return prim(cls(ALL, a[0].a[1], a[0].a[1]))
            if n in ('take_while', 'take_while1'):
                return prim(cls(self.bytes(a[0]), 0 if n == 'take_while' else 1, None))
            if n == 'take_while_m_n' and a[0].op == 'c' and a[1].op == 'c':
                return prim(cls(self.bytes(a[2]), a[0].a[1], a[1].a[1]))
            if n == 'alt' and a[0].op == 'tup':
                bl = []
                for x in a[0].a:
                    b = self.parser(x)
                    inner = self.pure_alt(b)
                    bl += inner if inner else [b]
                return prim(Atom('alt', blocks=tuple(bl)))
            if n == 'opt':
                return prim(Atom('opt', blocks=(self.parser(a[0]),)))
            if n in ('many0', 'many1'):
                return prim(Atom('many', blocks=(self.parser(a[0]),), lo=int(n[-1])))
            if n in ('separated_list0', 'separated_list1'):
                return prim(Atom('sep', blocks=(self.parser(a[0]), self.parser(a[1])), lo=int(n[-1])))
            if n == 'map':
                return self.mapped(self.parser(a[0]), a[1])
            if n == 'value':
                return self.seq([self.parser(a[1])], lambda v: a[0])
            if n in ('preceded', 'terminated', 'pair'):
                pick = {'preceded': lambda v: v[1], 'terminated': lambda v: v[0], 'pair': lambda v: mk('tup', *v)}[n]
                return self.seq([self.parser(x) for x in a], pick)
            if n == 'delimited':
                return self.seq([self.parser(x) for x in a], lambda v: v[1])
            if n == 'separated_pair':
                return self.seq([self.parser(x) for x in a], lambda v: mk('tup', v[0], v[2]))
            if n == 'tuple' and a[0].op == 'tup':
                return self.seq([self.parser(x) for x in a[0].a], lambda v: mk('tup', *v))
        raise Unhandled('parser %s' % show(t)[:120])

    def pure_alt(self, b):
        """the branches of a parser that is nothing but a choice"""
        if b._outs is None:
            return None
        o = b._outs
        if len(o) == 1 and len(o[0].steps) == 1 and o[0].steps[0].kind == 'alt' and o[0].steps[0].choice is None and o[0].guard is TRUE and o[0].value is sv(o[0].steps[0].uid):
            return list(o[0].steps[0].blocks)
        return None

    def closure(self, t):
        if self.find(t.a[0]) is None:
            raise Unhandled('function ' + t.a[0])
        return t.a[0]

    def call(self, f, v):
        """[(guard, value)] of applying the function value f to v"""
        if f.op == 'ctor':
            return [(TRUE, mk('agg', f.a[0], f.a[1], ('0',), v))]
        if f.op in ('clo', 'fn'):
            s = self.summ_by_id(f)
            ps = [p for k, p in s.params.items() if k != 'closure']
            if len(ps) != 1:
                raise Unhandled('closure with parameters %s' % list(s.params))
            inits = {e.args[0]: e.args[1] for e in s.effects if e.kind == 'init'}
            p = ps[0]
            rv = subst(subst(s.rv, lambda t: inits.get(t) if t.op == 'obj' else None), lambda t: v if t is p else None)
            return [(g, lf) for g, lf in leaves(rv)]
        raise Unhandled('function %s' % show(f)[:80])

    def summ_by_id(self, f):
        return self.summ(self.closure(f))

    def bytes(self, f):
        """the set of bytes a predicate accepts"""
        acc = set()
        c = mk('p', '\x02c')
        outs = self.call(f, c)
        for b in range(256):
            for g, v in outs:
                r = self.decide(to_guard(gite(g, to_guard(v), FALSE)), {c: b})
                if r is TRUE:
                    acc.add(b)
                elif r is not FALSE:
                    raise Unhandled('predicate on bytes: %s' % show(r)[:150])
        return acc

    def mapped(self, b, f):
        def make():
            res = []
            for o in b.outs():
                o = o.fresh()
                for g, v in self.call(f, o.value):
                    res.append(Out(o.steps, g_and(o.guard, g), v))
            return self.finish(res)
        return Block(make)

    def seq(self, bl, pick):
        def make():
            res = []
            for os in itertools.product(*[b.outs() for b in bl]):
                os = [o.fresh() for o in os]
                g = TRUE
                for o in os:
                    g = g_and(g, o.guard)
                res.append(Out(sum([o.steps for o in os], []), g, pick([o.value for o in os])))
            return self.finish(res)
        return Block(make)

    # ------------------------------------------------------------ normal form
    def finish(self, outs):
        work, res = list(outs), []
        while work:
            o = work.pop(0)
            if o.guard is FALSE or o.guard is BOT or o.value is BOT:
                continue
            if o.value.op == 'ite':
                work = [Out(o.steps, g_and(o.guard, g), v) for g, v in leaves(o.value)] + work
                continue
            k = self.to_split(o)
            if k is not None:
                work = self.split(o, k) + work
                continue
            res += self.domains(o)
        return res

    def to_split(self, o):
        for a in self.all_steps(o.steps):
            if a.kind in ('alt', 'opt') and a.choice is None:
                v = sv(a.uid)
                if contains(o.guard, v) or self.inspected(o.value, v) or contains(o.value, v) and self.constant(a):
                    return a
        return None

    def inspected(self, t, v):
        """the variable occurs other than as a part of the value built"""
        if t is v:
            return False
        if t.op in ('agg', 'tup', 'list'):
            return any(self.inspected(x, v) for x in t.a if isinstance(x, T))
        return contains(t, v)

    def constant(self, a):
        for b in a.blocks:
            if b._outs is None:
                return False
            for o in b._outs:
                if contains_op(o.value, lambda t: t.op == 'p'):
                    return False
        return True

    def split(self, o, a):
        v = sv(a.uid)
        alts = []
        for j, b in enumerate(a.blocks):
            for io in b.outs():
                io = io.fresh()
                alts.append((j, io, some(io.value) if a.kind == 'opt' else io.value))
        if a.kind == 'opt':
            alts.append((1, Out([], TRUE, UNIT), none()))
        res = []
        for j, io, val in alts:
            f = lambda t: val if t is v else None
            g = g_and(io.guard, to_guard(subst(o.guard, f)))
            st = self.rebuilt(o.steps, a.uid, choice=(j, io))
            res.append(Out(st, g, subst(o.value, f)))
        return res

    def value(self, t, env):
        """a number, or None"""
        if t in env:
            return env[t]
        if t.op == 'c' and t.a[0] in ('int', 'char'):
            return t.a[1]
        if t.op == 'lin':
            n = t.a[0]
            for x, k in zip(t.a[1::2], t.a[2::2]):
                u = self.value(x, env)
                if u is None:
                    return None
                n += u * k
            return n
        return None

    def truth(self, s, env):
        V = lambda x: self.value(x, env)
        if s.op == 'eq':
            a, b = V(s.a[0]), V(s.a[1])
            return None if a is None or b is None else a == b
        if s.op == 'pos':
            a = V(s.a[0])
            return None if a is None else a > 0
        if s.op == 'nonempty':
            a = V(mk('len', s.a[0]))
            return None if a is None else a > 0
        if s.op == 'call' and len(s.a) == 2:
            a = V(s.a[1])
            n = s.a[0].split('::')[-1]
            if a is not None:
                c = chr(a)
                asc = a < 128
                d = {'is_ascii': asc, 'is_ascii_alphabetic': asc and c.isalpha(), 'is_ascii_digit': asc and c.isdigit(), 'is_ascii_alphanumeric': asc and c.isalnum(),
                     'is_ascii_hexdigit': c in '0123456789abcdefABCDEF', 'is_ascii_uppercase': asc and c.isupper(), 'is_ascii_lowercase': asc and c.islower(),
                     'is_ascii_whitespace': c in ' \t\n\r\x0c', 'is_ascii_control': a < 32 or a == 127, 'is_alphabetic': c.isalpha(), 'is_ascii_punctuation': asc and c.isprintable() and not c.isalnum() and c != ' '}
                return d.get(n)
        return None

    def decide(self, g, env):
        for at in atoms_of(g):
            if at.a[1] == BOOLD:
                v = self.truth(at.a[0], env)
                if v is not None:
                    g = assume(g, at, at.a[1].index('T') if v else at.a[1].index('F'))
        return g

    def all_steps(self, st):
        for a in st:
            yield a
            if a.choice is not None:
                yield from self.all_steps(a.choice[1].steps)

    def rebuilt(self, st, uid, **k):
        r = []
        for a in st:
            if a.uid == uid:
                a = a.but(**k)
            elif a.choice is not None:
                o = a.choice[1]
                a = a.but(choice=(a.choice[0], Out(self.rebuilt(o.steps, uid, **k), o.guard, o.value)))
            r.append(a)
        return r

    def domains(self, o):
        """decides conditions on single bytes and list lengths"""
        outs = [o]
        for a in list(self.all_steps(o.steps)):
            nxt = []
            for o in outs:
                nxt += self.domain(o, a)
            outs = nxt
        res = []
        for o in outs:
            g = o.guard
            asc = [sv(a.uid) for a in self.all_steps(o.steps) if a.kind == 'cls' and a.set <= ASCII]
            for at in atoms_of(g):
                if at.a[0].op == 'call' and at.a[0].a[0].split('::')[-1] == 'from_utf8' and at.a[0].a[1] in asc:
                    g = assume(g, at, at.a[1].index('Ok'))
            if g is not FALSE:
                res.append(Out(o.steps, g, o.value))
        return res

    def domain(self, o, a):
        v = sv(a.uid)
        if a.kind == 'cls' and a.lo == a.hi == 1:
            x = mk('at', v, cint(0))
            used = contains(o.guard, x)
            if not used and not (contains(o.value, x) and len(a.set) <= 8):
                return [o]
            groups = {}
            for b in sorted(a.set):
                groups.setdefault(self.decide(o.guard, {x: b}), []).append(b)
            res = []
            for g, bs in groups.items():
                if g is FALSE:
                    continue
                if contains(g, x):
                    raise Unhandled('condition on a byte: %s' % show(g)[:150])
                if contains(o.value, x) and len(bs) <= 8:
                    for b in bs:
                        res.append(Out(self.rebuilt(o.steps, a.uid, set=frozenset([b])), g, subst(o.value, lambda t: mk('c', 'char', b) if t is x else None)))
                else:
                    res.append(Out(self.rebuilt(o.steps, a.uid, set=frozenset(bs)), g, o.value))
            return res
        if a.kind in ('many', 'sep'):
            x = mk('len', v)
            ne = [at for at in atoms_of(o.guard) if contains(at.a[0], v)]
            if not ne:
                return [o]
            groups = {}
            for n in range(a.lo, 5):
                groups.setdefault(self.decide(o.guard, {x: n}), []).append(n)
            res = []
            for g, ns in groups.items():
                if g is FALSE:
                    continue
                lens = {1: 'one', 2: 'many'}.get(min(ns)) if ns in ([1], [2, 3, 4]) else ('any' if ns == list(range(a.lo, 5)) else str(ns))
                val = o.value
                if lens == 'one':
                    only = mk('only', v)
                    first = (mk('at', v, cint(0)),)
                    val = subst(val, lambda t: only if t in first or t.op in ('popped', 'last', 'first', 'at') and t.a and t.a[0] is v else None)
                res.append(Out(self.rebuilt(o.steps, a.uid, lens=None if lens == 'any' else lens), g, val))
            return res
        return [o]


# ------------------------------------------------------------ comparison
def first(b, depth=12):
    """bytes a block can start with; None: may read nothing / unknown"""
    acc = set()
    for o in b.outs():
        f = first_steps(o.steps, depth)
        if f is None:
            return None
        acc |= f
    return acc


def first_steps(steps, depth):
    acc = set()
    if depth == 0:
        return None
    for a in steps:
        if a.kind == 'cls':
            acc |= a.set
            if a.lo:
                return acc
        elif a.kind == 'lit':
            return acc | {a.text.encode()[0]}
        elif a.kind == 'alt':
            for b in a.blocks:
                f = first(b, depth - 1)
                if f is None:
                    return None
                acc |= f
            return acc
        else:
            f = first(a.blocks[-1], depth - 1)
            if f is None:
                return None
            acc |= f
            if a.kind != 'opt' and a.lo:
                return acc
    return None


def paths(steps, pre='$'):
    m = {}
    for i, a in enumerate(steps):
        p = '%s%d' % (pre, i)
        m[sv(a.uid)] = mk('p', p)
        if a.choice is not None:
            m.update(paths(a.choice[1].steps, p + '.'))
    return m


def lits(g):
    out = []
    while g is not TRUE:
        if g.op != 'ite':
            return ['?' + show(g)]
        at = g.a[0]
        live = [(d, k) for d, k in zip(at.a[1], g.a[1:]) if k is not FALSE and k is not BOT]
        if any(k is not live[0][1] for _, k in live):
            return ['?' + show(g)]
        if len(live) < len(at.a[1]):
            out.append('%s is %s' % (show(at.a[0]), '|'.join(d for d, _ in live)))
        g = live[0][1]
    return sorted(out)


def face(o):
    """(conditions, value) as text"""
    if o.guard is None:
        return o.value
    m = paths(o.steps)
    f = lambda t: m.get(t) or (UNKNOWN if t.op == 'obj' else None)
    return lits(subst(o.guard, f)), show(subst(o.value, f))


UNKNOWN = mk('p', 'empty')


def ref(*outs, **named):
    """reference block: outs = (steps, value text, [conditions])"""
    return Block(lambda: [Out(o[0], None, (sorted(o[2]) if len(o) > 2 else [], o[1])) for o in (outs if not named else named['later']())])


def chosen(a, j, *steps):
    return a.but(choice=(j, Out(list(steps), None, ([], ''))))


class Compare:
    def __init__(self):
        self.seen = set()
        self.why = None
        self.pairs = 0

    def fail(self, msg):
        if self.why is None:
            self.why = msg
        return False

    def block(self, c, r, values=True, note=True):
        key = (id(c), id(r), values)
        if key in self.seen:
            return True
        self.seen.add(key)
        self.pairs += 1
        co, ro = c.outs(), r.outs()
        rest = list(co)
        for o in ro:
            hit = None
            reasons = []
            for x in rest:
                save, w = set(self.seen), self.why
                self.why = None
                if self.out(x, o, values):
                    hit = x
                    self.why = w
                    break
                reasons.append(self.why)
                self.seen, self.why = save, w
            if hit is None:
                self.seen.discard(key)
                return self.fail(reasons[0] if len(reasons) == 1 else 'no case that %s' % describe(o) if not reasons or len(ro) > 1 else reasons[0])
            rest.remove(hit)
        if rest:
            self.seen.discard(key)
            return self.fail('an additional case that %s' % describe(rest[0]))
        return True

    def out(self, c, r, values, deep=None):
        if len(c.steps) != len(r.steps):
            return self.fail('%s, expected one that %s' % (describe(c), describe(r)))
        for x, y in zip(c.steps, r.steps):
            if not self.step(x, y, values if deep is None else deep):
                return self.fail('%s, expected one that %s' % (describe(c), describe(r)))
        if values:
            a, b = face(c), face(r)
            if a != b:
                return self.fail('the value is %s%s, expected %s%s' % (a[1], ' if ' + ' & '.join(a[0]) if a[0] else '', b[1], ' if ' + ' & '.join(b[0]) if b[0] else ''))
        return True

    def step(self, x, y, values):
        if x.kind != y.kind or (x.choice is None) != (y.choice is None) or x.lens != y.lens or (x.lo, x.hi, x.text) != (y.lo, y.hi, y.text):
            return False
        if x.kind == 'cls':
            return x.set == y.set
        if len(x.blocks) != len(y.blocks):
            return False
        perm = None
        if x.kind == 'alt':
            perm = self.match(x, y, values)
            if perm is None:
                return False
        else:
            vals = values and x.choice is None
            for b, c in zip(x.blocks, y.blocks):
                if x.kind == 'sep' and b is x.blocks[0]:
                    if not self.block(b, c, False):
                        return False
                elif not self.block(b, c, vals):
                    return False
        if x.choice is not None:
            j = x.choice[0] if perm is None else perm[x.choice[0]]
            if j != y.choice[0]:
                return False
            return self.out(x.choice[1], y.choice[1], False, values)
        return True

    def match(self, x, y, values):
        """which branch of y each branch of x is; branches may only change places when they cannot both apply"""
        vals = values and x.choice is None
        perm, used = {}, set()
        for i, b in enumerate(x.blocks):
            order = [i] + [j for j in range(len(y.blocks)) if j != i]
            for j in order:
                if j in used or j >= len(y.blocks):
                    continue
                save, w = set(self.seen), self.why
                if self.block(b, y.blocks[j], vals):
                    perm[i] = j
                    used.add(j)
                    break
                self.seen = save
                if j != i:
                    self.why = w
            if i not in perm:
                return None
        for i in perm:
            for k in perm:
                if i < k and perm[i] > perm[k]:
                    f, g = first(x.blocks[i]), first(x.blocks[k])
                    if f is None or g is None or f & g:
                        self.fail('the order of choices %d and %d is changed' % (i + 1, k + 1))
                        return None
        return perm


def dset(s):
    neg = len(s) > 40
    t = (ASCII if s <= ASCII else ALL) - s if neg else s
    r = ''.join(chr(b) if 32 < b < 127 else '\\x%02x' % b for b in sorted(t))
    return ('not[%s]' if neg else '[%s]') % (r if len(r) < 60 else r[:57] + '...')


def dstep(a, depth=2):
    if a.kind == 'cls':
        return dset(a.set) + ('' if (a.lo, a.hi) == (1, 1) else '{%s,%s}' % (a.lo, '' if a.hi is None else a.hi))
    if a.kind == 'lit':
        return repr(a.text)
    if depth == 0:
        return a.kind
    nm = a.kind + (str(a.lo) if a.lo is not None else '')
    inner = ', '.join(' | '.join(' '.join(dstep(s, depth - 1) for s in o.steps) for o in b.outs()) for b in a.blocks)
    return '%s(%s)%s%s' % (nm, inner, ':%d' % a.choice[0] if a.choice else '', ' ' + a.lens if a.lens else '')


def describe(o):
    return 'reads %s' % ' '.join(dstep(a) for a in o.steps)
