"""Rule files of the simple form the reader's own rule file has, and languages of its token patterns as finite automata (for comparing declared tokens)."""
import re
import re._parser as sre
MAXC = 0x10FFFF
STRIP = re.compile(r'\s+')


def read(text):
    """(tokens {name: (kind, text, precedence)}, productions [(lhs, 'A B (c)? ...')], entries) or raises ValueError"""
    toks, prods, entries = {}, [], []
    i = 0
    rx = re.compile(r'\s*(?:token\s+(?P<t>\w+)\s*(?:\[\s*(?P<p>\d+)\s*\])?\s*=\s*(?:"(?P<s>(?:[^"\\]|\\.)*)"|/(?P<r>(?:[^/\\]|\\.)*)/)\s*;'
                    r'|entry\s+(?P<e>\w+)\s*;|prod\s+(?P<l>\w+)\s*(?:\[\s*(?P<g>\w+)\s*\])?\s*=(?P<b>[^;"/]*);)', re.S)
    while text[i:].strip():
        m = rx.match(text, i)
        if not m:
            raise ValueError('not understood: %r' % text[i:].strip()[:60])
        i = m.end()
        if m.group('t'):
            if m.group('t') in toks:
                raise ValueError('token %s is declared twice' % m.group('t'))
            toks[m.group('t')] = ('lit', unescape(m.group('s')), m.group('p')) if m.group('s') is not None else ('re', m.group('r'), m.group('p'))
        elif m.group('e'):
            entries.append(m.group('e'))
        else:
            b = re.sub(r'\(\s*(\w+)\s*\)', r'\1', m.group('b'))
            b = re.sub(r'\s*([?*+|()!])', r'\1', b)
            prods.append((m.group('l'), m.group('g'), ' '.join(b.split())))
    return toks, prods, entries


def unescape(s):
    return re.sub(r'\\(.)', lambda m: {'n': '\n', 't': '\t', 'r': '\r'}.get(m.group(1), m.group(1)), s, flags=re.S)


class Nfa:
    def __init__(self):
        self.eps = []
        self.tr = []

    def new(self):
        self.eps.append([])
        self.tr.append([])
        return len(self.eps) - 1


def ranges_of(items, dotall):
    rs, neg = [], False
    for op, av in items:
        op = str(op)
        if op == 'NEGATE':
            neg = True
        elif op == 'LITERAL':
            rs.append((av, av))
        elif op == 'NOT_LITERAL':
            rs.append((0, av - 1))
            rs.append((av + 1, MAXC))
        elif op == 'RANGE':
            rs.append(av)
        elif op == 'ANY':
            rs += [(0, MAXC)] if dotall else [(0, 9), (11, MAXC)]
        else:
            raise ValueError('character class ' + op)
    if neg:
        out, at = [], 0
        for a, b in sorted(rs):
            if a > at:
                out.append((at, a - 1))
            at = max(at, b + 1)
        if at <= MAXC:
            out.append((at, MAXC))
        rs = out
    return [r for r in rs if r[0] <= r[1]]


def build(n, tree, s, dotall):
    """adds the fragment for tree starting in s, returns its end"""
    for op, av in tree:
        o = str(op)
        if o in ('LITERAL', 'NOT_LITERAL', 'ANY'):
            e = n.new()
            n.tr[s].append((ranges_of([(op, av)], dotall), e))
            s = e
        elif o == 'IN':
            e = n.new()
            n.tr[s].append((ranges_of(av, dotall), e))
            s = e
        elif o == 'SUBPATTERN':
            s = build(n, av[-1], s, dotall)
        elif o == 'BRANCH':
            e = n.new()
            for alt in av[1]:
                b = n.new()
                n.eps[s].append(b)
                n.eps[build(n, alt, b, dotall)].append(e)
            s = e
        elif o == 'MAX_REPEAT':
            lo, hi, sub = av
            for _ in range(lo):
                s = build(n, sub, s, dotall)
            if str(hi) == 'MAXREPEAT':
                a, e = n.new(), n.new()
                n.eps[s] += [a, e]
                x = build(n, sub, a, dotall)
                n.eps[x] += [a, e]
                s = e
            else:
                e = n.new()
                n.eps[s].append(e)
                for _ in range(hi - lo):
                    s = build(n, sub, s, dotall)
                    n.eps[s].append(e)
                s = e
        else:
            raise ValueError('pattern element ' + o)
    return s


def automaton(pattern, literal=False, dotall=True):
    n = Nfa()
    s = n.new()
    t = sre.parse(re.escape(pattern) if literal else pattern)
    e = build(n, t, s, dotall)
    return n, s, e


def closure(n, st):
    st = set(st)
    w = list(st)
    while w:
        for y in n.eps[w.pop()]:
            if y not in st:
                st.add(y)
                w.append(y)
    return frozenset(st)


def classes(*autos):
    cuts = {0, MAXC + 1}
    for n, _, _ in autos:
        for t in n.tr:
            for rs, _ in t:
                for a, b in rs:
                    cuts |= {a, b + 1}
    return sorted(c for c in cuts if c <= MAXC)


def explore(a, b, visit):
    """product of the determinised automata; visit(accepted by a, accepted by b, word) - the first result that is not None is returned"""
    cs = classes(a, b)
    start = (closure(a[0], [a[1]]), closure(b[0], [b[1]]))
    seen = {start: ''}
    w = [start]
    while w:
        x = w.pop(0)
        r = visit(a[2] in x[0], b[2] in x[1], seen[x])
        if r is not None:
            return r
        for c in cs:
            y = tuple(closure(n, [e for q in st for rs, e in n.tr[q] if any(lo <= c <= hi for lo, hi in rs)]) for (n, _, _), st in zip((a, b), x))
            if y not in seen and (y[0] or y[1]):
                seen[y] = seen[x] + chr(c)
                w.append(y)
    return None


def difference(a, b):
    """a shortest word accepted by exactly one of the automata, or None"""
    return explore(a, b, lambda x, y, w: w if x != y else None)


def common(a, b):
    return explore(a, b, lambda x, y, w: w if x and y else None)
