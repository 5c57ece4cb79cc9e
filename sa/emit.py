"""Emission trees: what a code generator writes into each generated file, as a tree of text, interpolated values, loops and conditions.

The tree is computed from the value-flow effects (writes to output streams, token streams and strings) and compared with a template:
    text with «TERM» holes, and lines
    @for TERM[, TERM]      @if LIT [& LIT]     @elif LIT    @else      @end
The comparison is semantic in the conditions (the emitted token sequence must agree under every assignment of the tested conditions),
ignores white space and comments, and follows values through intermediate strings, token streams and vectors.
"""
import copy
import re
from .term import *
from .engine import *
from . import spec as SP
from .models import created_in, VEC_KINDS_EMIT

STREAM = {'write', 'tok', 'group', 'init'}
DELIM = {'Parenthesis': '()', 'Brace': '{}', 'Bracket': '[]'}
H0 = 0xE000


class Loop_:
    def __init__(self, gens, body):
        self.gens, self.body = gens, body


NAMED = ('get_token_enum_name',)
_spelled = {}


def spelled_out(prog, b):
    """a function from text to text which only puts fixed text around its argument, or around what another such function makes of it"""
    if b['id'] not in _spelled:
        _spelled[b['id']] = False
        e = Engine(prog, opaque=lambda n, f: f is not None and f is not b, depth=2)
        rv, eff = e.run(b)
        part = lambda t: t.op in ('p', 'c') or t.op == 'call' and len(t.a) == 2 and prog.find(t.a[0]) is not None and t.a[1].op == 'p'
        _spelled[b['id']] = rv.op == 'fmt' and all(part(x) for x in rv.a) and all(x.kind in ('return', 'call') for x in eff)
    return _spelled[b['id']]


class Emission:
    """all streams of one function"""

    def __init__(self, prog, name, opaque=(), depth=28, pure=True):
        body = prog.find(name)
        self.body = body
        ops = set(opaque)

        def op(n, b):
            if n in ops or any(n.endswith('::' + o) for o in ops):
                return True
            if pure and b is not None and b['argc'] == 1:
                a = b['locals'][1][0]
                r = b['locals'][0][0]
                if type_is_str(a) and r[0] == 'alloc::String':
                    return b['name'].split('::')[-1] in NAMED or not spelled_out(prog, b)
            return False
        e = Engine(prog, opaque=op, depth=depth)
        e.emission = True
        e.tplsubs = {}
        e.tplsrc = {}
        self.eng = e
        rv, eff = e.run(body)
        self.summ = SP.Summary(e, body, rv, eff)
        self.rv = rv
        memo = {}
        cmemo = {}
        S = lambda x: subst(SP.strip(x, memo), self.summ.canon, cmemo) if isinstance(x, T) else x
        self.S = S
        self.on = {}
        self.depth = {}
        self.files = []
        self.muts = {}
        self.effects = []
        smemo = {}
        for q, x in enumerate(e.effects):
            g = x.guard
            for L in x.loops:
                g = assume_guard(g, bool_atom(mk('more', L.uid)), True)
            for at in list(atoms_of(g)) if g.op == 'ite' else ():
                # replayed iterations of a producing loop
                if at.a[0].op == 'more':
                    g2 = assume(g, at, 0)
                    g = g2 if g2 is not FALSE else assume(g, at, 1)
            if g is FALSE:
                continue
            y = Effect(x.kind, [S(a) for a in x.args], S(g), self.path_of(x.loops), x.span, x.fn)
            y.seq = q
            y.inside = x.loops
            self.effects.append(y)
            if y.kind == 'file':
                self.files.append(y)
            elif y.args and isinstance(y.args[0], T) and (y.args[0].op == 'obj' or y.args[0].op == 'p' and y.kind == 'write'):
                d = 0
                for L in x.loops:
                    if not created_in(e, x.args[0], L):
                        break
                    d += len(L.gens) or 1
                self.depth[y.args[0]] = max(d, self.depth.get(y.args[0], 0))
                self.on.setdefault(y.args[0], []).append(y)

        self.tidy()

    def tidy(self):
        """counters become positions; facts about map keys; conditions about other loops only say that generation got there"""
        li = getattr(self.eng, 'loopinfo', {})
        mus = set()
        for y in self.effects:
            for t in list(y.args) + [y.guard]:
                if isinstance(t, T):
                    contains_op(t, lambda x: x.op == 'mu' and mus.add(x), {})
        rep = {}
        for m in mus:
            L = li.get(m.a[0])
            if L is None or m not in L.mu or not L.gens:
                continue
            a, b = L.mu[m]
            b = assume_guard(b, bool_atom(mk('more', L.uid)), True) if isinstance(b, T) and b.op == 'ite' else b
            if isinstance(a, T) and a.op == 'c' and a.a[0] == 'int' and b is add(m, cint(1), 1) and len(L.gens) == 1:
                g = self.key(self.S(L.gens[0]))
                if g.op == 'elem':
                    rep[m] = add(mk('idx', g.a[0], g.a[1]), a, 1)
        memo = {}

        def f(x):
            if x in rep:
                return rep[x]
            if x.op == 'elem' and x.a[0].op in ('keys', 'values'):
                e = mk('elem', subst(x.a[0].a[0], f, memo), x.a[1])
                return mk('fld', e, '0' if x.a[0].op == 'keys' else '1')
            X = positions(x)
            if X is not None:
                return mk('idx', subst(X, f, memo), x.a[1])
            if x.op == 'contains' and x.a[1].op == 'fld' and x.a[1].a[1] == '0' and x.a[1].a[0].op == 'elem' and x.a[1].a[0].a[0] is x.a[0]:
                return TRUE
            return None
        R = lambda t: subst(t, f, memo) if isinstance(t, T) else t
        counts = {}
        for m in mus:
            # the number of elements that satisfy a condition, counted by hand
            L = li.get(m.a[0])
            if L is None or m not in L.mu or not L.gens or m in rep:
                continue
            a, b = L.mu[m]
            b = assume_guard(b, bool_atom(mk('more', L.uid)), True) if isinstance(b, T) and b.op == 'ite' else b
            if a is cint(0) and isinstance(b, T) and b.op == 'ite' and all(lf is m or lf is add(m, cint(1), 1) for _, lf in leaves(b)):
                g = FALSE
                for gg, lf in leaves(b):
                    if lf is not m:
                        g = g_or(g, gg)
                gens = tuple(R(self.S(q)) for q in L.gens)
                counts[m] = (L, mk('reduce', 'count', gens, R(self.S(g)), gens[-1]))
        for y in self.effects:
            cs = {m: v for m, (L, v) in counts.items() if L not in y.inside}
            if cs:
                y.args = [subst(a, lambda x: cs.get(x), {}) if isinstance(a, T) else a for a in y.args]
            y.args = [R(a) for a in y.args]
            y.loops = tuple(self.key(R2(q, R)) for q in y.loops)
            g = R(y.guard)
            if g is not TRUE:
                ks = {q for q in y.loops if q.op == 'elem'}
                for at in list(atoms_of(g)) if g.op == 'ite' else ():
                    x = at.a[0]
                    if foreign(x, ks):
                        g2 = FALSE
                        for i in range(len(at.a[1])):
                            g2 = g_or(g2, assume(g, at, i))
                        g = g2
            y.guard = g
        for y in self.effects:
            # a list is not empty if one of its insertions happened
            def filled(x, y=y):
                if x.op != 'nonempty' or x.a[0].op != 'obj' or self.eng.objinfo.get(x.a[0]) not in VEC_KINDS_EMIT:
                    return None
                es = self.on.get(x.a[0], [])
                d = min(self.depth.get(x.a[0], 0), len(y.loops))
                es = [z for z in es if len(z.loops) >= d and all(p is q for p, q in zip(z.loops[:d], y.loops[:d]))]
                if not es or any(z.kind != 'add' for z in es):
                    return None
                by = {}
                for z in es:
                    by[z.loops[d:]] = g_or(by.get(z.loops[d:], FALSE), z.guard)
                r = FALSE
                for tail, g in by.items():
                    r = g_or(r, exists_over(tuple(tail), g))
                return r
            y.guard = subst(y.guard, filled, {})
        on = {}
        for o, es in self.on.items():
            o2 = R(o)
            on.setdefault(o2, []).extend(es)
            if o2 is not o:
                self.depth[o2] = max(self.depth.get(o2, 0), self.depth.get(o, 0))
        self.on = on
        for es in on.values():
            es.sort(key=lambda y: y.seq)

    @staticmethod
    def key(q):
        """iterating the keys or values of a map is iterating the map"""
        if q.op == 'elem' and q.a[0].op in ('keys', 'values'):
            return mk('elem', q.a[0].a[0], q.a[1])
        X = positions(q)
        return mk('elem', X, q.a[1]) if X is not None else q

    def path_of(self, loops):
        out = []
        for L in loops:
            if L.gens:
                out.extend(self.S(g) for g in L.gens)
            else:
                out.append(mk('while', L.uid))
        return tuple(out)

    # ------------------------------------------------------------ building
    def stream(self, o, path=()):
        """Seq of an output object; path: generators of the loops the consumer is in"""
        items = []
        es = [x for x in self.on.get(o, []) if x.kind in STREAM]
        # an object created anew in each iteration holds what this iteration wrote
        d = min(self.depth.get(o, 0), len(path))
        es = [x for x in es if len(x.loops) >= d and all(a is b for a, b in zip(x.loops[:d], path[:d]))]
        return self.nest([(x, x.loops) for x in es], common(path, [x.loops for x in es], self, o), path)

    def nest(self, es, d, path):
        out = []
        i = 0
        while i < len(es):
            x, lp = es[i]
            if len(lp) <= d:
                out.extend(self.piece(x, lp))
                i += 1
                continue
            L = lp[d]
            j = i
            while j < len(es) and len(es[j][1]) > d and es[j][1][d] is L:
                j += 1
            body = self.nest(es[i:j], d + 1, path)
            out.extend(self.loop([L], body, lp[:d]))
            i = j
        return out

    def loop(self, gens, body, path):
        """expand loops over vectors built by this function"""
        gens = [g for g in gens if g.op != 'one']
        if not body or not gens:
            return body
        body = separators(gens, body, self.counter)
        for n, g in enumerate(gens):
            if g.op != 'elem':
                continue
            o = g.a[0]
            if o.op in ('list', 'tup') and not any(contains_op(q, lambda t: t is g, {}) for q in gens[n + 1:]):
                out = []
                for i, it in enumerate(o.a):
                    b2 = sub_seq(body, g, it, lambda t: cint(i) if t.op == 'idx' and t.a[0] is o and t.a[1] == g.a[1] else None)
                    out.extend(self.loop(list(gens[n + 1:]), self.refine(b2, path), path))
                return [(TRUE, 'loop', Loop_(gens[:n], out))] if gens[:n] else out
            adds = []
            if o.op == 'obj' and self.expandable(o):
                adds = [x for x in self.on.get(o, []) if x.kind == 'add']
                d = min(self.depth.get(o, 0), len(path))
                adds = [x for x in adds if len(x.loops) >= d and all(a is b for a, b in zip(x.loops[:d], path[:d]))] or adds
                d = common(path, [x.loops for x in adds], self, o)
            same = None
            if adds and mentions_index(body, o):
                # a copy of a whole sequence, element by element, has its positions
                def copies(x):
                    if len(x.loops) != d + 1 or x.loops[d].op != 'elem':
                        return False
                    L0 = x.loops[d]
                    return not contains_op(x.guard, lambda t: t is L0 or t.op in ('more', 'mu') or t.op == 'idx' and t.a[1:] == L0.a[1:], {})
                if len(gens) == 1 and all(copies(x) for x in adds) and all(g_and(x.guard, y.guard) is FALSE for i, x in enumerate(adds) for y in adds[:i]):
                    same = True
                else:
                    adds = []
            if adds:
                out = []
                pre, post = gens[:n], gens[n + 1:]
                for x in adds:
                    L0 = x.loops[d] if same else None
                    b2 = sub_seq(body, g, x.args[1], (lambda t: mk('idx', L0.a[0], L0.a[1]) if t.op == 'idx' and t.a[0] is o and t.a[1] == g.a[1] else None) if same else None)
                    if same and mentions_index(b2, o):
                        break
                    p2 = [subst(q, lambda t, g=g, v=x.args[1]: v if t is g else None, {}) for q in post]
                    if p2:
                        b2 = self.loop(p2, b2, x.loops)
                    b2 = [(g_and(x.guard, gg), k, v) for gg, k, v in self.refine(b2, x.loops)]
                    lp = list(x.loops[d:])
                    while lp:
                        L = lp.pop()
                        b2 = self.loop([L], b2, x.loops[:d + len(lp)])
                    out.extend(b2)
                else:
                    same = None
                if same:
                    continue
                out = merge_loops(out)
                if pre:
                    out = [(TRUE, 'loop', Loop_(pre, out))]
                return out
        return [(TRUE, 'loop', Loop_(gens, body))]

    def counter(self, m, seen=()):
        """counts the elements of one loop, or of several loops one after the other, from 0"""
        L = getattr(self.eng, 'loopinfo', {}).get(m.a[0])
        if L is None or m not in L.mu or m in seen:
            return False
        a, b = L.mu[m]
        b = assume_guard(b, bool_atom(mk('more', L.uid)), True) if isinstance(b, T) and b.op == 'ite' else b
        return b is add(m, cint(1), 1) and (a is cint(0) or isinstance(a, T) and a.op == 'mu' and self.counter(a, seen + (m,)))

    def refine(self, body, path):
        """after a substitution holes may have become constants or streams"""
        out = []
        for g, k, v in body:
            if k == 'h':
                out.extend((g_and(g, g2), k2, v2) for g2, k2, v2 in self.hole(v, path))
            elif k == 'loop':
                out.extend((g_and(g, g2), k2, v2) for g2, k2, v2 in self.loop(v.gens, self.refine(v.body, path), path))
            else:
                out.append((g, k, v))
        return out

    def expandable(self, o):
        k = self.eng.objinfo.get(o)
        if k not in VEC_KINDS_EMIT:
            return False
        es = self.on.get(o, [])
        return bool(es) and all(x.kind == 'add' for x in es)

    def piece(self, x, path):
        if x.kind == 'init':
            v = x.args[1]
            if v.op == 'list' and not v.a:
                return []
            return [(g_and(x.guard, g), k, w) for g, k, w in self.hole(v, path)]
        if x.kind == 'group':
            dl = x.args[1]
            lab = dl.a[1] if dl.op == 'agg' else 'None'
            o, c = DELIM.get(lab, '  ')
            inner = self.hole(x.args[2], path)
            return [(g_and(x.guard, g), k, v) for g, k, v in [(TRUE, 's', ' %s ' % o)] + inner + [(TRUE, 's', ' %s ' % c)]]
        out = self.hole(x.args[1], path)
        if x.kind == 'tok':
            out = [(TRUE, 's', ' ')] + out + [(TRUE, 's', ' ')]
        return [(g_and(x.guard, g), k, v) for g, k, v in out]

    def hole(self, v, path):
        w = v
        v = peel(v)
        if v is not w and v.op == 'fmt' and v.a and v.a[0].op == 'c' and str(v.a[0].a[1]).startswith('//'):
            return self.hole(v, path) + [(TRUE, 's', '\n')]
        if v.op == 'c' and v.a[0] == 'bytes':
            return [(TRUE, 's', bytes.fromhex(v.a[1]).decode('utf-8', 'replace'))]
        if v.op == 'c':
            return [(TRUE, 's', v.a[1] if v.a[0] == 'str' else chr(v.a[1]) if v.a[0] == 'char' else str(v.a[1]).lower() if v.a[0] == 'bool' else str(v.a[1]))]
        if v.op == 'fmt':
            out = []
            for p in v.a:
                out.extend(self.hole(p, path))
            return out
        if v.op == 'ite':
            out = []
            for g, lf in leaves(v):
                if lf is BOT:
                    continue
                out.extend((g_and(g, g2), k, w) for g2, k, w in self.hole(lf, path))
            return out
        if v.op == 'obj' and any(x.kind in STREAM for x in self.on.get(v, ())) and self.eng.objinfo.get(v) != 'HashMap':
            return self.stream(v, path)
        if v.op == 'obj' and self.eng.objinfo.get(v) in ('TokenStream', 'String', 'string') and not self.on.get(v):
            return []
        if v.op == 'call' and v.a[0] in ('join', 'concat') and len(v.a) == 3:
            pass
        if v.op == 'join' and v.a[0].op == 'obj' and self.expandable(v.a[0]):
            el = mk('elem', v.a[0], mk('joink', v))
            sep = v.a[1] if len(v.a) > 1 else cstr('')
            body = [(TRUE, 'h', el)]
            if sep.op == 'c' and sep.a[1].strip() == ',':
                body += [(TRUE, 's', sep.a[1])]
            elif sep is not cstr(''):
                body += [(g_not(bool_atom(mk('islast', el))), k, w) for _, k, w in self.hole(sep, path)]
            return self.loop([el], body, path)
        return [(TRUE, 'h', v)]

    def file(self, name):
        """Seq written to the generated file of that name"""
        for x in self.files:
            if x.args[0].op == 'c' and x.args[0].a[1] == name:
                return self.stream(x.args[1], x.loops)
        return None

    def written(self):
        """Seq written to the writer this function was given"""
        ps = [k for k in self.on if k.op == 'p']
        return self.stream(ps[0]) if len(ps) == 1 else None


def strip_layout(em, seq):
    """a text of lines: padding is left out, line breaks are shown"""
    def peelpad(t):
        return subst(t, lambda x: x.a[1] if x.op == 'fmtspec' and all(not p.startswith('p') for p in x.a[0].split(',')) else None, {})

    def f(seq):
        out = []
        for g, k, v in seq:
            if k == 's':
                v = v.replace('\n', ' \u00b6 ')
            elif k == 'h':
                v = peelpad(v)
                out.extend((g_and(g, g2), k2, w.replace('\n', ' \u00b6 ') if k2 == 's' else w) for g2, k2, w in em.hole(v, ()))
                continue
            elif k == 'loop':
                v = copy.copy(v)
                v.body = f(v.body)
            out.append((g, k, v))
        return out
    return f(seq) if seq is not None else None


def positions(q):
    """counting from 0 to the length of a collection is going through its positions"""
    if q.op == 'elem' and q.a[0].op == 'range' and q.a[0].a[0] is cint(0) and q.a[0].a[1].op == 'len':
        return q.a[0].a[1].a[0]
    return None


def R2(q, R):
    """rewrite the source of a loop, not the element itself"""
    return mk('elem', R(q.a[0]), q.a[1]) if q.op == 'elem' else R(q)


BINDERS = {'reduce', 'best', 'comp', 'filtered', 'flat', 'any', 'all', 'find', 'count', 'exists', 'forall', 'flatten', 'position', 'sum'}


def foreign(t, ks):
    """mentions the element of a loop the effect is not in"""
    if t.op in BINDERS:
        return False
    if t.op == 'elem' and t not in ks and t.a[0].op not in BINDERS:
        return True
    for x in t.a:
        if isinstance(x, T) and foreign(x, ks):
            return True
        if isinstance(x, tuple) and any(isinstance(z, T) and foreign(z, ks) for z in x):
            return True
    return False


def separators(gens, body, counter=None):
    """a comma before every element but the first is a comma after every element"""
    if len(gens) != 1 or gens[0].op != 'elem':
        return body
    I = pos(mk('idx', gens[0].a[0], gens[0].a[1]))
    out, moved = [], []
    lead = True
    for g, k, v in body:
        P = None
        if k == 's' and g.op == 'ite' and v.strip() in ('', ','):
            if I.op == 'ite' and lead and I.a[0] in atoms_of(g):
                P = I
            for x in atoms_of(g) if counter else ():
                y = x.a[0]
                if y.op == 'pos' and y.a[0].op == 'mu' and counter(y.a[0]):
                    P = bool_atom(y)
        if P is not None and assume_guard(g, P, False) is FALSE:
            if v.strip():
                # the end of the previous element
                out += moved
                moved = [(assume_guard(g, P, True), k, ' , ')]
            continue
        if k != 's' or v.strip():
            lead = False
        out.append((g, k, v))
    return out + moved


def merge_loops(seq):
    """adjacent replays of the same producing loop are one loop"""
    out = []
    for g, k, v in seq:
        if k == 'loop' and out and out[-1][1] == 'loop' and len(v.gens) == len(out[-1][2].gens) and all(a is b for a, b in zip(v.gens, out[-1][2].gens)):
            p = out[-1]
            body = [(g_and(p[0], g2), k2, v2) for g2, k2, v2 in p[2].body] + [(g_and(g, g2), k2, v2) for g2, k2, v2 in v.body]
            out[-1] = (TRUE, 'loop', Loop_(v.gens, merge_loops(body)))
        else:
            out.append((g, k, v))
    return out


def type_is_str(a):
    while a[0] in ('&', '&mut'):
        a = a[1][0] if isinstance(a[1], list) else a[1]
    return a[0] == 'str' or a == 'str'


def exists_over(tail, g):
    """some element of the loops satisfies g; conditions that do not depend on the element stay outside"""
    if not tail or g is FALSE:
        return g
    for at in atoms_of(g) if g.op == 'ite' else ():
        if not any(contains_op(at.a[0], lambda x, q=q: x is q or q.op == 'elem' and (x is q.a[1] or x.op == 'idx' and x.a[1] is q.a[1]), {}) for q in tail):
            r = FALSE
            for i in range(len(at.a[1])):
                r = g_or(r, g_and(mk('ite', at, *[TRUE if j == i else FALSE for j in range(len(at.a[1]))]), exists_over(tail, assume(g, at, i))))
            return r
    return bool_atom(mk('exists', tail, g))


def common(path, loops, em, o):
    """how many leading loops the contents share with their consumer"""
    if not loops:
        return 0
    n = 0
    while n < len(path) and all(n < len(lp) and lp[n] is path[n] for lp in loops):
        n += 1
    return n


def peel(v):
    """conversions between text representations keep the text"""
    while True:
        if v.op == 'pay' and v.a[1] in ('Ok', 'Some') and v.a[0].op == 'call' and base(v.a[0].a[0]) in ('parse', 'from_utf8', 'from_utf8_lossy'):
            v = v.a[0].a[1]
        elif v.op == 'call' and base(v.a[0]) in ('parse', 'from_utf8', 'from_utf8_lossy', 'literal_string_') and len(v.a) == 2:
            v = v.a[1]
        elif v.op in ('parse',):
            v = v.a[0]
        else:
            return v


def base(n):
    return n.split('::')[-1] if isinstance(n, str) else ''


def sub_seq(body, old, new, more=None):
    memo = {}
    f = lambda t: new if t is old else more(t) if more else None
    R = lambda t: subst(t, f, memo)
    out = []
    for g, k, v in body:
        g = R(g)
        if k == 'h':
            out.append((g, k, R(v)))
        elif k == 'loop':
            out.append((g, k, Loop_([R(x) for x in v.gens], sub_seq(v.body, old, new, more))))
        else:
            out.append((g, k, v))
    return out


def mentions_index(body, o):
    def has(t):
        return contains_op(t, lambda x: x.op in ('idx', 'islast', 'mu') and len(x.a) and x.a[0] is o, {})
    for g, k, v in body:
        if has(g) or (k == 'h' and has(v)) or (k == 'loop' and (any(has(q) for q in v.gens) or mentions_index(v.body, o))):
            return True
    return False


# ------------------------------------------------------------------ templates
def split_args(t):
    out, d, k = [], 0, 0
    for i, c in enumerate(t):
        if c in '([{':
            d += 1
        elif c in ')]}':
            d -= 1
        elif c == ',' and d == 0:
            out.append(t[k:i])
            k = i + 1
    out.append(t[k:])
    return out


class Tpl:
    def __init__(self, text):
        lets = []
        lines = []

        def ex(t):
            for n, v in lets:
                t = re.sub(r'(?<![\w.!:])%s(?!\w)' % re.escape(n), lambda m: v, t)
            return t
        defs = {}
        cur = None
        src = []

        def put(s):
            m = re.match(r'@use (\w+)\((.*)\)$', s)
            if not m:
                src.append(s)
                return
            ps, bl = defs[m.group(1)]
            args = [x.strip() for x in split_args(m.group(2))]
            for l in bl:
                for p, a in zip(ps, args):
                    l = re.sub(r'(?<!\w)%s(?!\w)' % re.escape(p), lambda _m: a, l)
                put(l)
        for l in text.split('\n'):
            s = l.strip()
            m = re.match(r'@def (\w+)\((.*)\)$', s)
            if m:
                cur = []
                defs[m.group(1)] = ([x.strip() for x in m.group(2).split(',')], cur)
            elif s == '@enddef':
                cur = None
            elif cur is not None:
                cur.append(s)
            else:
                put(s)
        for l in src:
            s = l.strip()
            if s.startswith('@let '):
                n, v = s[5:].split('=', 1)
                v = ex(v.strip())
                lets.insert(0, (n.strip(), v))
                continue
            if s.startswith('@'):
                l = ex(s)
            else:
                l = re.sub('«(.*?)»', lambda m: '«%s»' % ex(m.group(1)), l)
            lines.append(l)
        self.lines = lines
        self.i = 0
        self.items, end = self.block()
        if end is not None:
            raise Exception('template: unexpected ' + end)

    def block(self):
        out = []
        while self.i < len(self.lines):
            l = self.lines[self.i]
            s = l.strip()
            self.i += 1
            if s.startswith('@for '):
                gens = SP.Pat('(' + s[5:] + ')')
                g = gens.term()
                gens = list(g[1]) if g[0] == 'tup' else [g]
                body, end = self.block()
                if end != '@end':
                    raise Exception('template: @for without @end')
                out.append(('loop', gens, body))
            elif s.startswith('@if '):
                branches = []
                cond = SP.Pat(s[4:]).guard()
                while True:
                    body, end = self.block()
                    branches.append((cond, body))
                    if end is None:
                        raise Exception('template: @if without @end')
                    if end == '@end':
                        break
                    cond = SP.Pat(end[6:]).guard() if end.startswith('@elif ') else []
                out.append(('if', branches))
            elif s in ('@end', '@else') or s.startswith('@elif '):
                return out, s
            else:
                out.extend(self.text(l[:-1] if l.endswith('\\') else l + '\n'))
        return out, None

    @staticmethod
    def text(l):
        out = []
        for n, p in enumerate(re.split('«(.*?)»', l)):
            if n % 2:
                out.append(('h', SP.Pat(p).term()))
            elif p:
                out.append(('s', p))
        return out


TOKEN = re.compile(r'[A-Za-z0-9_%s-\uf8ff]+|\S' % chr(H0))


IDENT = re.compile(r'[A-Za-z_]\w*$')
NOTYPE = {'return', 'case', 'else', 'in', 'mut', 'move', 'ref', 'pub', 'new', 'throw', 'using', 'namespace', 'break', 'loop', 'match', 'if', 'while',
          'public', 'default', 'include', 'pragma', 'unsafe', 'dyn', 'impl', 'as', 'where', 'sizeof', 'switch', 'do', 'delete', 'goto'}


def flat_text(items, code):
    """the literal tokens of a whole file"""
    buf = []

    def go(items):
        for it in items:
            k, v = (it[1], it[2]) if code else (it[0], it[1])
            if k == 's':
                buf.append(v)
            elif k == 'h':
                buf.append('\ue000')
            elif k == 'loop':
                buf.append(' ')
                go(v.body if code else it[2])
            elif k == 'if':
                for _, body in v:
                    buf.append(' ')
                    go(body)
    go(items)
    s = ''.join(buf)
    s = re.sub(r'/\*.*?\*/', ' ', s, flags=re.S)
    s = re.sub(r'//[^\n]*', ' ', s)
    return TOKEN.findall(s)


def declared(toks):
    """local names the text declares: variables, parameters, private functions and fields"""
    out = set()
    for i, t in enumerate(toks):
        if not IDENT.match(t) or t in NOTYPE or not t[0].islower():
            continue
        p = toks[i - 1] if i else ''
        pp = toks[i - 2] if i > 1 else ''
        n = toks[i + 1] if i + 1 < len(toks) else ''
        nn = toks[i + 2] if i + 2 < len(toks) else ''
        if p == 'fn' and pp != 'pub' or p == 'let' or p == 'mut' and pp == 'let' or p == 'for' or p == '|' and n in '|,:':
            out.add(t)
        elif p in ('(', ',') and n == ')' and nn == '=':
            out.add(t)
        elif n == ':' and nn != ':' and p in ('(', ',', '{', 'mut') and pp != 'pub':
            out.add(t)
        elif n in ('=', ';', ',', ')', '{', '[', ':') and nn != ':' and (p in ('*', '&', '>') and IDENT.match(pp or ' ') or IDENT.match(p or ' ')) and p not in NOTYPE:
            out.add(t)
    return out


class Mismatch(Exception):
    def __init__(self, depth, msg):
        Exception.__init__(self, msg)
        self.depth = depth


class Cmp:
    def __init__(self, em, assume=()):
        self.em = em
        self.m = SP.Matcher(em.summ, assume=assume)
        from .show import Pretty
        self.P = Pretty(em.eng)
        self.tokens = 0
        self.holes = 0
        self.loops = 0
        self.branches = 0
        self.names = None
        self.decided = []
        self.ren = {}

    def show(self, el):
        if el is None:
            return 'the end'
        if el[0] == 't':
            return repr(''.join('«%s»' % (self.P(x) if isinstance(x, T) else self.pat(x)) if not isinstance(x, str) else x for x in el[1]))
        if el[0] == 'loop':
            return 'a loop over ' + (', '.join(self.P(g) for g in el[1].gens) if isinstance(el[1], Loop_) else ', '.join(self.pat(g) for g in el[1][0]))
        return str(el)

    def pat(self, p):
        if isinstance(p, T):
            return self.P(p)
        if p[0] == 'app':
            return '%s(%s)' % (p[1], ', '.join(self.pat(q) for q in p[2] if not isinstance(q, str)))
        if p[0] == 'fld':
            return '%s.%s' % (self.pat(p[1]), p[2])
        if p[0] == 'each':
            return 'each(%s)' % self.pat(p[1])
        if p[0] == 'pay':
            return '%s!%s' % (self.pat(p[1]), p[2])
        return str(p[-1]) if len(p) > 1 and not isinstance(p[1], tuple) else str(p)

    # -------------------------------------------------------- code side
    def resolve(self, seq, g0=None):
        """drop impossible items"""
        return [x for x in seq if x[0] is not FALSE]

    def atoms(self, seq, own=()):
        """atoms decidable at this level, in order of appearance"""
        out = []

        def add(g, banned):
            if g is TRUE:
                return
            for at in atoms_of(g):
                if at not in out and not any(contains_op(at.a[0], lambda x, b=b: x is b, {}) for b in banned):
                    out.append(at)

        def go(seq, banned):
            for g, k, v in seq:
                add(g, banned)
                if k == 'loop':
                    bn = list(banned)
                    for q in v.gens:
                        bn.append(q)
                        if q.op == 'elem':
                            bn.append(q.a[1])
                    go(v.body, bn)
        go(seq, list(own))
        return out

    def restrict(self, seq, at, i):
        out = []
        for g, k, v in seq:
            g2 = assume(g, at, i)
            if g2 is FALSE or g2 is BOT:
                continue
            if k == 'loop':
                b = self.restrict(v.body, at, i)
                if not b:
                    continue
                v = Loop_(v.gens, b)
            elif k == 'h' and contains_op(v, lambda x: x.op == 'ite', {}):
                v = assume(v, at, i) if v.op == 'ite' else v
            out.append((g2, k, v))
        return out

    def tpl_seq(self, items, b, guards, g=TRUE):
        """template items with their conditions turned into guards"""
        out = []
        for it in items:
            if it[0] == 'if':
                rest = g
                for cond, body in it[1]:
                    gc = TRUE
                    for lit in cond:
                        if self.given(g_and(rest, gc)) is FALSE:
                            break
                        cands = self.m.lit_guard(lit, b, guards)
                        if not cands:
                            # a condition nobody tests: its constant value if it can be instantiated, else a fresh atom
                            raise Mismatch(0, 'the condition %s of the specification is never tested here' % self.litstr(lit))
                        gc = g_and(gc, cands[0][0])
                        b = cands[0][1]
                    sub, b = self.tpl_seq(body, b, guards, g_and(rest, gc))
                    out.extend(sub)
                    rest = g_and(rest, g_not(gc))
            elif it[0] == 'loop':
                tb = it[2]
                for q in reversed(it[1][1:]):
                    tb = [('loop', [q], tb)]
                out.append((g, 'loop', (it[1][:1], tb)))
            else:
                out.append((g, it[0], it[1]))
        return out, b

    def litstr(self, lit):
        if lit[0] == 'is':
            return '%s%s is %s' % ('!' if lit[3] else '', self.pat(lit[1]), '|'.join(lit[2]))
        return '%s%s' % ('!' if lit[2] else '', self.pat(lit[1]))

    def elements(self, seq, code, st=None):
        """token elements of a resolved sequence: ('t', parts) or ('loop', payload); comments dropped"""
        out = []
        holes = []
        buf = []

        def flush():
            s = ''.join(buf)
            del buf[:]
            for m in TOKEN.finditer(s):
                parts = []
                for ch in re.split('([%s-\uf8ff])' % chr(H0), m.group(0)):
                    if ch and H0 <= ord(ch[0]) <= 0xF8FF:
                        parts.append(holes[ord(ch) - H0])
                    elif ch:
                        parts.append(ch)
                out.append(('t', parts))
        mode = ''
        carry = ''
        for _g, k, v in seq:
            if k == 's':
                s = carry + v
                carry = ''
                i = 0
                while i < len(s):
                    if mode == '//':
                        j = s.find('\n', i)
                        if j < 0:
                            i = len(s)
                        else:
                            mode = ''
                            i = j
                            buf.append('\n')
                            i += 1
                    elif mode == '/*':
                        j = s.find('*/', i)
                        if j < 0:
                            i = len(s)
                        else:
                            mode = ''
                            i = j + 2
                            buf.append(' ')
                    elif s.startswith('//', i):
                        mode = '//'
                        i += 2
                    elif s.startswith('/*', i):
                        mode = '/*'
                        i += 2
                    else:
                        buf.append(s[i])
                        i += 1
            elif mode:
                continue
            elif k == 'h':
                holes.append(v)
                buf.append(chr(H0 + len(holes) - 1))
            else:
                flush()
                out.append(('loop', v))
        flush()
        return drop_noops(out)

    # -------------------------------------------------------- comparison
    def compare(self, seq, items, b, own=(), depth=0):
        """-> binding; raises Mismatch"""
        seq = self.assumed_seq(seq, b)
        seq = self.resolve(seq)
        guards = self.all_guards(seq) + [test(at.a[0], at.a[1][i], at.a[1]) for at, i in self.decided]
        tseq, b = self.tpl_seq(items, b, guards)
        if self.decided:
            t2 = []
            for g, k, v in tseq:
                g = self.given(g)
                if g is not FALSE and g is not BOT:
                    t2.append((g, k, v))
            tseq = t2
        return self.branch(seq, tseq, b, own, depth)

    def assumed_seq(self, seq, b):
        out = []
        for g, k, v in seq:
            if g is not TRUE and self.m.assume:
                g = self.m.assumed(g, b)
            if g is FALSE:
                continue
            if k == 'loop' and self.m.assume:
                v = Loop_(v.gens, self.assumed_seq(v.body, b))
                if not v.body:
                    continue
            out.append((g, k, v))
        return out

    def given(self, g):
        """what is left of a condition where the cases of the enclosing branches hold"""
        for at, i in self.decided:
            g = assume(g, at, i)
        return g

    def all_guards(self, seq):
        out = []
        for g, k, v in seq:
            if g is not TRUE:
                out.append(g)
            if k == 'loop':
                out.extend(self.all_guards(v.body))
        return out

    def branch(self, seq, tseq, b, own, depth):
        at = None
        for a in self.atoms(seq, own):
            at = a
            break
        if at is None:
            for g, k, v in tseq:
                if g is not TRUE and g is not FALSE:
                    at = atoms_of(g)
                    at = list(at)[0]
                    break
        if at is not None:
            self.branches += 1
            for i, lab in enumerate(at.a[1]):
                if self.m.assume and self.m.assumed(test(at.a[0], lab, at.a[1]), b) is FALSE:
                    continue
                t2 = []
                for g, k, v in tseq:
                    g2 = assume(g, at, i)
                    if g2 is not FALSE and g2 is not BOT:
                        t2.append((g2, k, v))
                self.decided.append((at, i))
                try:
                    b = self.branch(self.restrict(seq, at, i), t2, b, own, depth)
                except Mismatch as e:
                    raise Mismatch(e.depth, str(e) + '\n    when %s is %s' % (self.P(at.a[0]), {'T': 'true', 'F': 'false'}.get(lab, lab)))
                finally:
                    self.decided.pop()
            return b
        c = self.elements(seq, True)
        t = self.elements([x for x in tseq if x[0] is not FALSE], False)
        n = 0
        while n < len(c) or n < len(t):
            ce = c[n] if n < len(c) else None
            te = t[n] if n < len(t) else None
            b2 = self.element(ce, te, b, own, depth)
            if b2 is None:
                ctx = ' '.join(self.short(x) for x in c[max(0, n - 6):n])
                raise Mismatch(n, 'after «%s» the generator emits %s where %s belongs' % (ctx[-160:], self.show(ce)[:300], self.show(te)[:300]))
            b = b2
            n += 1
        return b

    def alias(self, x, y):
        """a consistent renaming of something the generated text itself declares"""
        if not IDENT.match(x) or not IDENT.match(y):
            return False
        if self.names is None:
            return False
        if y in self.ren or x in self.ren.values():
            return self.ren.get(y) == x
        cd, ca, td, ta = self.names
        if x not in cd or y not in td or x in ta or y in ca:
            return False
        self.ren[y] = x
        return True

    def run(self, seq, tpl):
        """compare a whole file"""
        self.ren = {}
        ct = flat_text(seq, True)
        tt = flat_text(tpl.items, False)
        self.names = (declared(ct), set(ct), declared(tt), set(tt))
        return self.compare(seq, tpl.items, dict(self.m.b0))

    def short(self, el):
        if el[0] == 't':
            return ''.join(x if isinstance(x, str) else '$' for x in el[1])
        return '<loop>'

    def element(self, ce, te, b, own, depth):
        if ce is None or te is None or ce[0] != te[0]:
            return None
        if ce[0] == 't':
            self.tokens += 1
            return self.token(ce[1], te[1], b)
        self.loops += 1
        cl, (tg, tb) = ce[1], te[1]
        # a loop over several generators at once is the nest of the single loops
        cg = list(cl.gens)
        tg = list(tg)
        body, tbody = cl.body, tb
        if len(cg) > len(tg):
            body = [(TRUE, 'loop', Loop_(cg[len(tg):], body))]
            cg = cg[:len(tg)]
        elif len(tg) > len(cg):
            tbody = [('loop', tg[len(cg):], tbody)]
            tg = tg[:len(cg)]
        last = None
        for b2 in self.m.seq([x if x[0] == 'each' else x for x in tg], cg, b):
            try:
                own2 = list(own) + cg + [q.a[1] for q in cg if q.op == 'elem']
                return self.compare(body, tbody, b2, (), depth + 1)
            except Mismatch as e:
                last = e
                break
        if last is not None:
            raise last
        return None

    def token(self, c, t, b):
        """composite tokens: text parts and holes"""
        if len(t) == 1 and not isinstance(t[0], str):
            # a hole of the template takes the whole token
            v = c[0] if len(c) == 1 and not isinstance(c[0], str) else None
            if v is None:
                if all(isinstance(x, str) for x in c):
                    v = cstr(''.join(c))
                    if t[0][0] == 'const' and t[0][1].op == 'c' and str(t[0][1].a[1]) == v.a[1]:
                        return b
                else:
                    v = mk('fmt', *[cstr(x) if isinstance(x, str) else x for x in c])
            self.holes += 1
            for b2 in self.m.match(t[0], v, b):
                return b2
            return None
        if len(c) != len(t):
            return None
        if len(c) == 1 and isinstance(c[0], str) and isinstance(t[0], str):
            return b if c[0] == t[0] or self.alias(c[0], t[0]) else None
        for x, y in zip(c, t):
            if isinstance(x, str) or isinstance(y, str):
                if x != y:
                    return None
                continue
            self.holes += 1
            for b2 in self.m.match(y, x, b):
                b = b2
                break
            else:
                return None
        return b


NOOPS = [['(', 'void', ')', '0', ';'], ['let', '_', '=', '0', ';']]


def drop_noops(els):
    """statements without effect and optional trailing commas"""
    txt = [e[1][0] if e[0] == 't' and len(e[1]) == 1 and isinstance(e[1][0], str) else None for e in els]
    keep = [True] * len(els)
    for p in NOOPS:
        for i in range(len(txt) - len(p) + 1):
            if txt[i:i + len(p)] == p:
                for j in range(i, i + len(p)):
                    keep[j] = False
    for i in range(len(txt) - 1):
        if txt[i] == ',' and txt[i + 1] in (')', ']', '}', '"'):
            keep[i] = False
    return [e for e, k in zip(els, keep) if k]


def dump_seq(em, seq, ind=0, P=None, out=None):
    """the emission in template syntax"""
    from .show import Pretty
    P = P or Pretty(em.eng)
    out = [] if out is None else out
    pad = '  ' * ind
    n = 0
    while n < len(seq):
        g, k, v = seq[n]
        if k == 'loop' and g is TRUE:
            out.append('%s@for %s' % (pad, ', '.join(P(x) for x in v.gens)))
            dump_seq(em, v.body, ind + 1, P, out)
            out.append(pad + '@end')
            n += 1
        elif g is TRUE:
            s = ''
            while n < len(seq) and seq[n][0] is TRUE and seq[n][1] != 'loop':
                s += seq[n][2] if seq[n][1] == 's' else '«%s»' % P(seq[n][2])
                n += 1
            out.extend(pad + re.sub('  +', ' ', l.strip()) for l in s.split('\n') if l.strip())
        else:
            j = n
            sub = []
            while j < len(seq) and (seq[j][0] is g):
                sub.append((TRUE,) + seq[j][1:])
                j += 1
            if any(k != 's' or v.strip() for _, k, v in sub):
                out.append('%s@if %s' % (pad, P.guard(g)))
                dump_seq(em, sub, ind + 1, P, out)
                out.append(pad + '@end')
            n = j
    return out


def assumed_all(em, seq):
    """the emission under the assumptions in the environment (for the tools)"""
    import os
    c = Cmp(em, [y for y in os.environ.get('A', '').split(';') if y])
    return c.assumed_seq(seq, dict(c.m.b0))


if __name__ == '__main__':
    import sys
    from . import build
    p = Program(build.dump())
    a = sys.argv[1:]
    em = Emission(p, a[0], a[2:])
    import os

    if a[1] == '?':
        print([(show(x.args[0]), x.span) for x in em.files])
    else:
        print('\n'.join(x[:int(__import__('os').environ.get('W', '400'))] for x in dump_seq(em, assumed_all(em, em.file(a[1])))))
        print(sorted(em.eng.unknown))
