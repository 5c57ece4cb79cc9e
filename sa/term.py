"""Hash-consed terms and multi-valued decision diagrams over them.

A term is T(op, args).  A *guarded value* is a term whose top is an 'ite' node:
  ite(atom, ((label, child), ...))    atom = ('atom', subject-term, domain)
Leaves are non-ite terms.  A guard is a guarded value with leaves TRUE/FALSE.
"""
import sys
sys.setrecursionlimit(200000)


class T:
    __slots__ = ('op', 'a', 'id', 'cache')

    def __repr__(self):
        return show(self)


_tab = {}
_all = []


ETA = set()     # variant names of exactly one type


def mk(op, *a):
    if op == 'agg' and len(a) == 4 and (a[1], a[2][0]) in ETA and isinstance(a[3], T) and a[3].op == 'pay' and a[3].a[1] == a[1] and a[2] == (a[3].a[2],):
        return a[3].a[0]
    key = (op,) + tuple([('#', x.id) if isinstance(x, T) else x for x in a])
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.id = len(_all)
        t.cache = None
        _tab[key] = t
        _all.append(t)
    return t


TRUE = mk('c', 'bool', True)
FALSE = mk('c', 'bool', False)
BOT = mk('bot')
UNIT = mk('c', 'unit', None)


def cint(n):
    return mk('c', 'int', int(n))


def cstr(s):
    return mk('c', 'str', s)


def cbool(b):
    return TRUE if b else FALSE


def is_c(t, kind=None):
    return t.op == 'c' and (kind is None or t.a[0] == kind)


def is_ite(t):
    return t.op == 'ite'


# ------------------------------------------------------------------ atoms / ite
BOOLD = ('T', 'F')


def atom(subject, domain):
    return mk('atom', subject, domain)


def node(at, kids):
    """kids: tuple of children in the order of the atom's domain"""
    k0 = None
    same = True
    for k in kids:
        if k is BOT:
            continue
        if k0 is None:
            k0 = k
        elif k is not k0:
            same = False
            break
    if k0 is None:
        return BOT
    if same:
        return k0
    return mk('ite', at, *kids)


def cof(t, at, i):
    if t.op == 'ite' and t.a[0] is at:
        return t.a[1 + i]
    return t


_itememo = {}


class Blowup(Exception):
    pass


STEPS = [0, None]


def gite(g, a, b):
    """if guard g then a else b"""
    if g is TRUE:
        return a
    if g is FALSE:
        return b
    if g is BOT:
        return BOT
    if a is b:
        return a
    key = (g.id, a.id, b.id)
    r = _itememo.get(key)
    if r is not None:
        return r
    STEPS[0] += 1
    if STEPS[1] is not None and STEPS[0] > STEPS[1]:
        raise Blowup()
    top = None
    for x in (g, a, b):
        if x.op == 'ite' and (top is None or x.a[0].id < top.id):
            top = x.a[0]
    if top is None:
        raise Exception('gite: non-boolean guard %s' % show(g))
    n = len(top.a[1])
    r = node(top, tuple(gite(cof(g, top, i), cof(a, top, i), cof(b, top, i)) for i in range(n)))
    _itememo[key] = r
    return r


def g_not(g):
    return gite(g, FALSE, TRUE)


def g_and(a, b):
    return gite(a, b, FALSE)


def g_or(a, b):
    return gite(a, TRUE, b)


def g_implies(a, b):
    return gite(a, b, TRUE) is TRUE


def test(subject, label, domain):
    """guard: subject has label"""
    at = atom(subject, domain)
    return node(at, tuple(TRUE if d == label else FALSE for d in domain))


def bool_atom(subject):
    return mk('ite', atom(subject, BOOLD), TRUE, FALSE)


_leafmemo = {}


def map_leaves(t, f, memo=None):
    if t.op != 'ite':
        return f(t)
    if memo is None:
        memo = {}
    r = memo.get(t.id)
    if r is not None:
        return r
    at = t.a[0]
    dom = at.a[1]
    kids = [map_leaves(k, f, memo) for k in t.a[1:]]
    r = select(at, kids)
    memo[t.id] = r
    return r


def select(at, kids):
    """like node() but children may contain atoms ordered before `at`"""
    simple = True
    for k in kids:
        if k.op == 'ite' and k.a[0].id <= at.id:
            simple = False
            break
    if simple:
        return node(at, tuple(kids))
    dom = at.a[1]
    r = kids[-1]
    for i in range(len(dom) - 2, -1, -1):
        r = gite(test(at.a[0], dom[i], dom), kids[i], r)
    return r


def leaves(t, g=TRUE, out=None):
    """[(guard, leaf)] with guards merged per distinct leaf"""
    acc = {}
    order = []

    memo = {}

    def go(t):
        # returns dict leaf->guard
        if t.op != 'ite':
            return {t: TRUE} if t is not BOT else {}
        m = memo.get(t.id)
        if m is not None:
            return m
        at = t.a[0]
        dom = at.a[1]
        res = {}
        for i, k in enumerate(t.a[1:]):
            for lf, gd in go(k).items():
                c = g_and(test(at.a[0], dom[i], dom), gd)
                res[lf] = g_or(res[lf], c) if lf in res else c
        memo[t.id] = res
        return res

    return [(c, lf) for lf, c in go(t).items()]


def simp(g, care):
    """simplify guarded value g under the assumption care (Coudert-Madre restrict)"""
    if care is TRUE or g.op != 'ite':
        return g
    if care is FALSE:
        return g
    memo = {}

    def go(g, c):
        if g.op != 'ite' or c is TRUE:
            return g
        key = (g.id, c.id)
        r = memo.get(key)
        if r is not None:
            return r
        if c.op == 'ite' and c.a[0].id < g.a[0].id:
            # quantify the care atom out
            r = go(g, exists_top(c))
        else:
            at = g.a[0]
            n = len(at.a[1])
            kids = []
            for i in range(n):
                ci = cof(c, at, i)
                if ci is FALSE or ci is BOT:
                    kids.append(BOT)
                else:
                    kids.append(go(g.a[1 + i], ci))
            r = node(at, tuple(kids))
            if r.op == 'ite' and any(k is BOT for k in r.a[1:]):
                # fill don't-cares with the first defined child
                d = next(k for k in r.a[1:] if k is not BOT)
                r = node(at, tuple(d if k is BOT else k for k in kids))
        memo[key] = r
        return r

    def exists_top(c):
        r = FALSE
        for k in c.a[1:]:
            if k is not BOT:
                r = g_or(r, k)
        return r

    return go(g, care)


def atoms_of(g):
    seen = set()
    out = []

    def go(t):
        if t.op != 'ite' or t.id in seen:
            return
        seen.add(t.id)
        if t.a[0] not in out:
            out.append(t.a[0])
        for k in t.a[1:]:
            go(k)
    go(g)
    return out


def quantify(g, pred, mode):
    """eliminate atoms for which pred(atom): mode 'or' (exists) / 'and' (forall)"""
    memo = {}

    def go(t):
        if t.op != 'ite':
            return t
        r = memo.get(t.id)
        if r is not None:
            return r
        at = t.a[0]
        kids = [go(k) for k in t.a[1:]]
        if pred(at):
            kids = [k for k in kids if k is not BOT]
            r = kids[0]
            for k in kids[1:]:
                r = g_or(r, k) if mode == 'or' else g_and(r, k)
        else:
            r = select(at, kids)
        memo[t.id] = r
        return r
    return go(g)


def assume(g, at, i):
    """cofactor everywhere"""
    memo = {}

    def go(t):
        if t.op != 'ite':
            return t
        r = memo.get(t.id)
        if r is None:
            if t.a[0] is at:
                r = go(t.a[1 + i])
            else:
                r = node(t.a[0], tuple(go(k) for k in t.a[1:]))
            memo[t.id] = r
        return r
    return go(g)


# ------------------------------------------------------------------ substitution
def subst(t, f, memo=None):
    """rebuild t bottom-up; f(term)->replacement or None, applied top-down first"""
    if memo is None:
        memo = {}
    r = memo.get(t.id)
    if r is not None:
        return r
    r = f(t)
    if r is None:
        if t.op == 'ite':
            at = t.a[0]
            s2 = subst(at.a[0], f, memo)
            kids = [subst(k, f, memo) for k in t.a[1:]]
            r = rebuild_select(s2, at.a[1], kids)
        else:
            ch = False
            na = []
            for x in t.a:
                if isinstance(x, T):
                    y = subst(x, f, memo)
                    ch = ch or (y is not x)
                    na.append(y)
                elif isinstance(x, tuple) and any(isinstance(z, T) for z in x):
                    y = tuple(subst(z, f, memo) if isinstance(z, T) else z for z in x)
                    ch = ch or (y != x)
                    na.append(y)
                else:
                    na.append(x)
            r = remake(t.op, *na) if ch else t
    memo[t.id] = r
    return r


REMAKE = {}


def remake(op, *a):
    f = REMAKE.get(op)
    if f:
        return f(*a)
    return mk(op, *a)


def rebuild_select(subj, dom, kids):
    if dom == BOOLD:
        g = to_guard(subj)
        return gite(g, kids[0], kids[1])
    # variant atom on new subject
    r = kids[-1]
    for i in range(len(dom) - 2, -1, -1):
        r = gite(is_variant(subj, dom[i], dom), kids[i], r)
    return r


def to_guard(t):
    """boolean term -> guard"""
    if t is TRUE or t is FALSE or t is BOT:
        return t
    if t.op == 'ite':
        return map_leaves(t, to_guard)
    if t.op == 'not':
        return g_not(to_guard(t.a[0]))
    return bool_atom(t)


def is_variant(t, v, dom):
    if t.op == 'ite':
        return map_leaves(t, lambda x: is_variant(x, v, dom))
    if t.op == 'agg':
        return cbool(t.a[1] == v)
    if t is BOT:
        return BOT
    if v not in dom:
        return FALSE
    return test(t, v, dom)


def contains_op(t, pred, memo=None):
    if memo is None:
        memo = {}
    r = memo.get(t.id)
    if r is not None:
        return r
    memo[t.id] = False
    if pred(t):
        memo[t.id] = True
        return True
    for x in t.a:
        if isinstance(x, T):
            if contains_op(x, pred, memo):
                memo[t.id] = True
                return True
        elif isinstance(x, tuple):
            for z in x:
                if isinstance(z, T) and contains_op(z, pred, memo):
                    memo[t.id] = True
                    return True
    return False


# ------------------------------------------------------------------ printing
def short(n):
    return n


def show(t, depth=0):
    s = t.cache
    if s is None:
        s = _show(t)
        if len(s) > 4000:
            s = s[:3900] + '...#%d' % t.id
        t.cache = s
    return s


def _show(t):
    op, a = t.op, t.a
    if op == 'c':
        if a[0] == 'unit':
            return '()'
        if a[0] == 'char':
            return 'char(%#x)' % a[1]
        return repr(a[1])
    if op == 'p':
        return a[0]
    if op == 'fld':
        return '%s.%s' % (show(a[0]), a[1])
    if op == 'pay':
        return '%s!%s.%s' % (show(a[0]), a[1], a[2])
    if op == 'agg':
        fs = ', '.join('%s: %s' % (n, show(v)) for n, v in zip(a[2], a[3:]))
        nm = a[0].split('::')[-1]
        return '%s{%s}' % (nm if nm == a[1] else nm + '::' + a[1], fs)
    if op == 'tup':
        return '(%s)' % ', '.join(show(x) for x in a)
    if op == 'list':
        return '[%s]' % ', '.join(show(x) for x in a)
    if op == 'elem':
        return 'each%s(%s)' % ("'" * a[1], show(a[0]))
    if op == 'idx':
        return 'index%s(%s)' % ("'" * a[1], show(a[0]))
    if op == 'ite':
        at = a[0]
        if all(k is TRUE or k is FALSE for k in a[1:]):
            pos = [d for d, k in zip(at.a[1], a[1:]) if k is TRUE]
            if at.a[1] == BOOLD:
                return ('' if pos == ['T'] else '!') + show(at.a[0])
            if len(pos) * 2 > len(at.a[1]):
                neg = [d for d, k in zip(at.a[1], a[1:]) if k is FALSE]
                return '%s !is %s' % (show(at.a[0]), '|'.join(neg))
            return '%s is %s' % (show(at.a[0]), '|'.join(pos))
        return '{%s ? %s}' % (show(at.a[0]), ' ; '.join('%s: %s' % (d, show(k)) for d, k in zip(at.a[1], a[1:])))
    if op == 'lin':
        c, parts = a[0], a[1:]
        s = ' + '.join((show(x) if k == 1 else '%d*%s' % (k, show(x))) for x, k in zip(parts[::2], parts[1::2]))
        return '(%s%s)' % (s, '' if c == 0 else ' %+d' % c)
    if op == 'call':
        return '%s(%s)' % (a[0], ', '.join(show(x) for x in a[1:]))
    if op == 'fn':
        return 'fn:' + a[0]
    if op == 'clo':
        return 'closure:%s' % a[0]
    if op == 'obj':
        return '@%d' % t.id
    if op == 'fmt':
        return 'fmt(%s)' % ', '.join(show(x) for x in a)
    if op == 'atom':
        return 'atom(%s)' % show(a[0])
    parts = []
    for x in a:
        if isinstance(x, T):
            parts.append(show(x))
        elif isinstance(x, tuple):
            parts.append('(' + ','.join(show(z) if isinstance(z, T) else str(z) for z in x) + ')')
        else:
            parts.append(str(x))
    return '%s(%s)' % (op, ', '.join(parts))


def show_guard(g):
    """readable DNF-ish rendering"""
    if g is TRUE:
        return 'always'
    if g is FALSE:
        return 'never'
    out = []

    def go(t, acc):
        if len(out) > 12:
            return
        if t is TRUE:
            out.append(' & '.join(acc) if acc else 'always')
            return
        if t is FALSE or t is BOT:
            return
        if t.op != 'ite':
            out.append(' & '.join(acc + [show(t)]))
            return
        at = t.a[0]
        groups = {}
        for d, k in zip(at.a[1], t.a[1:]):
            groups.setdefault(k.id, (k, []))[1].append(d)
        for k, ds in groups.values():
            if at.a[1] == BOOLD:
                lab = ('' if ds == ['T'] else '!') + show(at.a[0])
            elif len(ds) > len(at.a[1]) / 2:
                lab = '%s !is %s' % (show(at.a[0]), '|'.join(d for d in at.a[1] if d not in ds))
            else:
                lab = '%s is %s' % (show(at.a[0]), '|'.join(ds))
            go(k, acc + [lab])
    go(g, [])
    return '  OR  '.join(out)
