"""Gated abstract evaluation of MIR bodies into effect summaries (see DESIGN.md).

No program input is ever chosen and no path is enumerated: every body is visited block by block in
reverse post-order; values that differ between incoming edges are merged into decision diagrams
over the branch conditions (gated SSA); loops are collapsed to one symbolic iteration whose carried
values become `mu` terms; workspace callees are inlined.
"""
import re
import json
import os
from .term import *


class Program:
    def __init__(self, dumpdir):
        self.bodies = {}
        self.byname = {}
        self.adts = {}
        self.crates = []
        for f in sorted(os.listdir(dumpdir)):
            if not f.endswith('.json'):
                continue
            d = json.load(open(os.path.join(dumpdir, f)))
            self.crates.append(d['crate'])
            for b in d['bodies']:
                b['crate'] = d['crate']
                self.bodies[b['id']] = b
                self.byname.setdefault(b['name'], []).append(b)
            for a in d['adts']:
                self.adts.setdefault(a['name'], a)
        self.builtin_adts()
        from . import term
        n = {}
        for a in self.adts.values():
            for v in a['variants'] if a.get('enum') else ():
                fs = [f['name'] if isinstance(f, dict) else f[0] for f in v['fields']]
                if len(fs) == 1:
                    n[v['name'], fs[0]] = n.get((v['name'], fs[0]), 0) + 1
        term.ETA.clear()
        term.ETA.update(k for k, c in n.items() if c == 1 and k[0] not in ('Ok', 'Err', 'Some', 'None', 'Break', 'Continue', 'Borrowed', 'Owned'))
        self.closures_of = {}
        for i, b in self.bodies.items():
            if b['kind'] == 'closure' and '::{closure#' in i:
                self.closures_of.setdefault(i[:i.rindex('::{closure#')], []).append((0, i))

    def builtin_adts(self):
        def add(name, *vs):
            self.adts.setdefault(name, {'name': name, 'enum': True, 'variants': [
                {'name': v, 'discr': str(i), 'fields': [['0', None]] if f else []} for i, (v, f) in enumerate(vs)]})
        add('core::Option', ('None', 0), ('Some', 1))
        add('core::Result', ('Ok', 1), ('Err', 1))
        add('core::ControlFlow', ('Continue', 1), ('Break', 1))
        add('core::Ordering', ('Less', 0), ('Equal', 0), ('Greater', 0))
        self.adts['core::Ordering']['variants'][0]['discr'] = str((1 << 8) - 1)
        for i, v in enumerate(self.adts['core::Ordering']['variants']):
            v['discr'] = ['255', '0', '1'][i]

    def rec_heads(self):
        """functions through which a cycle of the call graph is entered from outside (always summarised separately)"""
        if getattr(self, '_heads', None) is not None:
            return self._heads
        g = {}
        for i, b in self.bodies.items():
            out = set()

            def walk(x):
                if isinstance(x, dict):
                    f = x.get('fn')
                    if isinstance(f, dict):
                        for key in ('rid', 'id'):
                            if f.get(key) in self.bodies:
                                out.add(f[key])
                    for v in x.values():
                        walk(v)
                elif isinstance(x, list):
                    if len(x) > 1 and x[0] == 'closure' and isinstance(x[1], str) and x[1] in self.bodies:
                        out.add(x[1])
                    for v in x:
                        walk(v)
            walk(b['blocks'])
            for k, c in self.closures_of.get(i, ()):
                out.add(c)
            g[i] = out
        # Tarjan, iterative
        index, low, onst, stack, comp = {}, {}, set(), [], {}
        n = [0]
        for r in g:
            if r in index:
                continue
            work = [(r, iter(g[r]))]
            index[r] = low[r] = n[0]
            n[0] += 1
            stack.append(r)
            onst.add(r)
            while work:
                v, it = work[-1]
                adv = False
                for w in it:
                    if w not in index:
                        index[w] = low[w] = n[0]
                        n[0] += 1
                        stack.append(w)
                        onst.add(w)
                        work.append((w, iter(g[w])))
                        adv = True
                        break
                    elif w in onst:
                        low[v] = min(low[v], index[w])
                if adv:
                    continue
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == index[v]:
                    c = []
                    while True:
                        w = stack.pop()
                        onst.discard(w)
                        c.append(w)
                        if w == v:
                            break
                    c = tuple(c)
                    for w in c:
                        comp[w] = c
        heads = set()
        for v in g:
            for w in g[v]:
                cw = comp[w]
                if (len(cw) > 1 or w in g[w]) and comp[v] is not cw and self.bodies[w]['kind'] == 'fn':
                    heads.add(w)
        self.callgraph = g
        self.scc = comp
        self._heads = heads
        return heads

    def variants(self, adt):
        a = self.adts.get(adt)
        if a is None:
            return None
        return tuple(v['name'] for v in a['variants'])

    def find(self, name):
        """body by pretty name; unique or None. NAME#TYPE selects the one whose signature mentions TYPE"""
        name, _, tag = name.partition('#')
        l = self.byname.get(name, [])
        if tag:
            l = [b for b in l if any(re.search(r'\b%s\b' % tag, str(b['locals'][i][0])) for i in range(b['argc'] + 1))]
        return l[0] if len(l) == 1 else None


OPT = ('None', 'Some')
RES = ('Ok', 'Err')
CF = ('Continue', 'Break')


def some(v):
    return mk('agg', 'core::Option', 'Some', ('0',), v)


NONE = mk('agg', 'core::Option', 'None', ())


def ok(v):
    return mk('agg', 'core::Result', 'Ok', ('0',), v)


def err(v):
    return mk('agg', 'core::Result', 'Err', ('0',), v)


# ---------------------------------------------------------------- smart constructors
def fld(t, name):
    op = t.op
    if op == 'ite':
        return map_leaves(t, lambda x: fld(x, name))
    if t is BOT:
        return BOT
    if op == 'agg':
        if name in t.a[2]:
            return t.a[3 + t.a[2].index(name)]
    elif op == 'tup':
        i = int(name)
        if i < len(t.a):
            return t.a[i]
    elif op == 'upd':
        if t.a[1] == name:
            return t.a[2]
        return fld(t.a[0], name)
    elif op == 'clo':
        if name.isdigit() and 1 + int(name) < len(t.a):
            return t.a[1 + int(name)]
    return mk('fld', t, name)


def pay(t, variant, name):
    if t.op == 'ite':
        return map_leaves(t, lambda x: pay(x, variant, name))
    if t is BOT:
        return BOT
    if t.op == 'agg':
        if t.a[1] != variant:
            return BOT
        if name in t.a[2]:
            return t.a[3 + t.a[2].index(name)]
        return BOT
    if t.op == 'updv':
        if t.a[1] == variant and t.a[2] == name:
            return t.a[3]
        return pay(t.a[0], variant, name)
    return mk('pay', t, variant, name)


def upd(t, name, v):
    if t.op == 'agg' and name in t.a[2]:
        i = t.a[2].index(name)
        a = list(t.a)
        a[3 + i] = v
        return mk('agg', *a)
    if t.op == 'tup':
        a = list(t.a)
        a[int(name)] = v
        return mk('tup', *a)
    if t.op == 'clo' and name.isdigit():
        a = list(t.a)
        a[1 + int(name)] = v
        return mk('clo', *a)
    if t.op == 'upd' and t.a[1] == name:
        return upd(t.a[0], name, v)
    if t.op == 'ite':
        return map_leaves(t, lambda x: upd(x, name, v))
    if v.op == 'fld' and v.a[0] is t and v.a[1] == name:
        return t
    return mk('upd', t, name, v)


def updv(t, variant, name, v):
    if t.op == 'agg' and t.a[1] == variant and name in t.a[2]:
        i = t.a[2].index(name)
        a = list(t.a)
        a[3 + i] = v
        return mk('agg', *a)
    if t.op == 'ite':
        return map_leaves(t, lambda x: updv(x, variant, name, v))
    if v.op == 'pay' and v.a[0] is t and v.a[1] == variant and v.a[2] == name:
        return t
    return mk('updv', t, variant, name, v)


# linear arithmetic -------------------------------------------------
def lin_parts(t):
    if t.op == 'c' and t.a[0] in ('int', 'char'):
        return t.a[1], {}
    if t.op == 'lin':
        return t.a[0], dict(zip(t.a[1::2], t.a[2::2]))
    return 0, {t: 1}


def mklin(c, parts):
    parts = {k: v for k, v in parts.items() if v != 0}
    if not parts:
        return cint(c)
    if c == 0 and len(parts) == 1:
        (k, v), = parts.items()
        if v == 1:
            return k
    flat = []
    for k in sorted(parts, key=lambda x: x.id):
        flat += [k, parts[k]]
    return mk('lin', c, *flat)


def add(a, b, sign=1):
    if a.op == 'ite' or b.op == 'ite':
        return lift2(lambda x, y: add(x, y, sign), a, b)
    if a is BOT or b is BOT:
        return BOT
    ca, pa = lin_parts(a)
    cb, pb = lin_parts(b)
    pa = dict(pa)
    for k, v in pb.items():
        pa[k] = pa.get(k, 0) + sign * v
    return mklin(ca + sign * cb, pa)


def lift2(f, a, b):
    return map_leaves(a, lambda x: map_leaves(b, lambda y: f(x, y)))


def pos(d):
    """d > 0 as a guard, canonical sign"""
    if d.op == 'ite':
        return map_leaves(d, pos)
    if d is BOT:
        return BOT
    c, p = lin_parts(d)
    if not p:
        return cbool(c > 0)
    # len-like single terms
    if len(p) == 1:
        (k, v), = p.items()
        if k.op == 'len':
            if v == 1 and c == 0:
                return bool_atom(mk('nonempty', k.a[0]))
            if v == -1 and c == 1:
                return g_not(bool_atom(mk('nonempty', k.a[0])))
            if v == 1 and c > 0:
                return TRUE
    first = sorted(p, key=lambda x: x.id)[0]
    if p[first] > 0:
        return bool_atom(mk('pos', d))
    return g_not(bool_atom(mk('pos', mklin(1 - c, {k: -v for k, v in p.items()}))))


def lt(a, b):
    return pos(add(b, a, -1))


def is_num(t):
    return (t.op == 'c' and t.a[0] in ('int', 'char')) or t.op in ('lin', 'len', 'index')


def eq(a, b):
    if a.op == 'ite' or b.op == 'ite':
        # boolean equality or distribution
        return lift2(eq, a, b)
    if a is BOT or b is BOT:
        return BOT
    if a is b:
        return TRUE
    if a.op == 'c' and b.op == 'c':
        if a.a[0] == b.a[0] or {a.a[0], b.a[0]} <= {'int', 'char'}:
            return cbool(a.a[1] == b.a[1])
    if a in (TRUE, FALSE) or b in (TRUE, FALSE):
        x, c = (b, a) if a in (TRUE, FALSE) else (a, b)
        g = to_guard(x)
        return g if c is TRUE else g_not(g)
    for x, y in ((a, b), (b, a)):
        if x.op == 'agg' and y.op == 'agg':
            if x.a[0] == y.a[0] and x.a[1] != y.a[1]:
                return FALSE
            if x.a[0] == y.a[0]:
                g = TRUE
                for u, v in zip(x.a[3:], y.a[3:]):
                    g = g_and(g, eq(u, v))
                return g
        if x.op == 'agg' and x.a[0] in ENUMS and y.op != 'agg':
            dom = ENUMS[x.a[0]]
            g = is_variant(y, x.a[1], dom)
            for nme, v in zip(x.a[2], x.a[3:]):
                g = g_and(g, eq(pay(y, x.a[1], nme), v))
            return g
        if x.op == 'agg' and y.op in ('p', 'fld') and x.a[2]:
            g = TRUE
            for nme, v in zip(x.a[2], x.a[3:]):
                g = g_and(g, eq(fld(y, nme), v))
            return g
    if a.op == 'tup' and b.op == 'tup' and len(a.a) == len(b.a):
        g = TRUE
        for u, v in zip(a.a, b.a):
            g = g_and(g, eq(u, v))
        return g
    if is_num(a) or is_num(b):
        d = add(a, b, -1)
        c, p = lin_parts(d)
        if not p:
            return cbool(c == 0)
        if len(p) == 1:
            (k, v), = p.items()
            if k.op == 'len' and c == 0:
                return g_not(bool_atom(mk('nonempty', k.a[0])))
            if k.op == 'reduce' and k.a[0] == 'count' and c == 0:
                return g_not(pos(k))
            if k.op in ('len', 'reduce') and c * v > 0 and (k.op == 'len' or k.a[0] == 'count'):
                return FALSE
            if k.op == 'len' and v * v == 1:
                n = -c * v
                return g_and(pos(add(k, cint(n - 1), -1)), g_not(pos(add(k, cint(n), -1))))
        first = sorted(p, key=lambda x: x.id)[0]
        if p[first] < 0:
            c, p = -c, {k: -v for k, v in p.items()}
        if len(p) == 1:
            (k, v), = p.items()
            if v == 1:
                return bool_atom(mk('eq', k, cint(-c)))
        if c == 0 and len(p) == 2 and sorted(p.values()) == [-1, 1]:
            return bool_atom(mk('eq', *sorted(p, key=lambda x: x.id)))
        return bool_atom(mk('eq', mklin(c, p), cint(0)))
    if a.id > b.id:
        a, b = b, a
    return bool_atom(mk('eq', a, b))


ENUMS = {}


def collen(t):
    if t.op == 'ite':
        return map_leaves(t, collen)
    if t.op == 'list':
        return cint(len(t.a))
    if t.op == 'c' and t.a[0] == 'str':
        return cint(len(t.a[1].encode()))
    return mk('len', t)


def index(coll, i):
    if coll.op == 'ite' or i.op == 'ite':
        return lift2(index, coll, i)
    if i.op == 'elem' and i.a[0].op == 'range':
        r = i.a[0]
        if r.a[0].op == 'c' and r.a[0].a[1] == 0 and r.a[1].op == 'len' and r.a[1].a[0] is coll:
            return elem(coll, i.a[1])
    if i.op == 'idx' and i.a[0] is coll:
        return elem(coll, i.a[1])
    if coll.op == 'list' and i.op == 'c' and i.a[1] < len(coll.a):
        return coll.a[i.a[1]]
    return mk('at', coll, i)


def elem(coll, k):
    if coll.op == 'list' and len(coll.a) == 1:
        return coll.a[0]
    if coll.op == 'keys':
        return fld(elem(coll.a[0], k), '0')
    if coll.op == 'values':
        return fld(elem(coll.a[0], k), '1')
    return mk('elem', coll, k)


REMAKE.update({
    'fld': fld, 'pay': pay, 'upd': upd, 'updv': updv, 'len': collen, 'at': index, 'elem': elem,
    'not': lambda x: g_not(to_guard(x)),
    'eq': lambda a, b: eq(a, b), 'pos': lambda d: pos(d),
    'lin': lambda c, *p: _relin(c, p),
})


def _relin(c, p):
    r = cint(c)
    for k, v in zip(p[::2], p[1::2]):
        for _ in range(abs(v)):
            r = add(r, k, 1 if v > 0 else -1)
    return r


class Effect:
    __slots__ = ('kind', 'args', 'guard', 'loops', 'span', 'fn', 'seq', 'inside')

    def __init__(self, kind, args, guard, loops, span, fn):
        self.kind = kind
        self.args = args
        self.guard = guard
        self.loops = loops
        self.span = span
        self.fn = fn

    def __repr__(self):
        lp = ' '.join('for[%s]' % ', '.join(map(show, l.gens) if l.gens else ['?']) for l in self.loops)
        return '%s %s(%s)  IF %s   @%s' % (lp, self.kind, ', '.join(show(x) if isinstance(x, T) else str(x) for x in self.args), show_guard(self.guard), self.span)


class Loop:
    _n = 0

    def __init__(self, uid):
        self.uid = uid
        self.gens = []     # generator terms ('elem' terms' (coll, k))
        self.mu = {}       # mu term -> (init, step)
        self.iterplace = None
        self.more = None
        self.conds = []
        self.exits = []

    def __repr__(self):
        return 'Loop(%s)' % (', '.join(map(show, self.gens)))


class State:
    __slots__ = ('v', 'cond')

    def __init__(self, v, cond):
        self.v = v
        self.cond = cond

    def copy(self):
        return State(dict(self.v), self.cond)


ITER_OPS = {'it', 'imap', 'ifilter', 'ifmap', 'iflat', 'ienum', 'ienumo', 'izipe', 'izip', 'ichain', 'iskip', 'irev', 'itake', 'ionce', 'iterv', 'iown', 'isw', 'itw'}


class Frame:
    def __init__(self, eng, body, ctx, targs=None, cargs=None, promoted_of=None):
        self.body = body
        self.ctx = ctx
        self.targs = targs or {}
        self.cargs = cargs or {}
        self.of = promoted_of or body


class Engine:
    def __init__(self, prog, opaque=None, depth=24, maxsteps=3000000, consts=None):
        self.consts = {k: v for k, v in (consts or {}).items() if k != "positions"}
        self.positions = bool((consts or {}).get("positions"))
        self.prog = prog
        self.opaque = opaque or (lambda name, b: False)
        self.maxdepth = depth
        self.parts = ()
        self.effects = []
        self.prefix = TRUE
        self.loops = []
        self.stack = []
        self.notes = []
        self.cfgs = {}
        self.visited_fns = set()
        self.callsites = 0
        self.inl = 0
        self.cur_span = None
        self.objinfo = {}
        self.steps = 0
        self.unknown = {}
        self.maxsteps = maxsteps
        self.fuse = True
        for a in prog.adts.values():
            if a['enum']:
                ENUMS[a['name']] = tuple(v['name'] for v in a['variants'])

    # ------------------------------------------------------------ public
    def run(self, body, args=None):
        """Evaluate body with symbolic parameters; returns (return value, effects)."""
        STEPS[0] = 0
        STEPS[1] = self.maxsteps
        n = body['argc']
        names = self.param_names(body)
        if args is None:
            args = [mk('p', names[i]) for i in range(n)]
        st = State({}, TRUE)
        rv = self.call_body(body, args, st, ('root',), {}, {})
        self.final_state = st
        return rv, self.normalise(self.effects)

    def cparam(self, fr, name):
        n = name.split('/')[0].split('#')[0]
        v = fr.cargs.get(n) if fr is not None else None
        return v if v is not None else self.consts.get(n)

    def param_names(self, body):
        out = []
        for i in range(body['argc']):
            nm = body['locals'][i + 1][1]
            out.append(nm if nm else 'arg%d' % i)
        return out

    # ------------------------------------------------------------ effects
    def emit(self, kind, *args, guard=TRUE, st=None):
        cond = self.prefix
        if st is not None:
            cond = g_and(cond, st.cond)
        cond = g_and(cond, guard)
        if cond is FALSE or cond is BOT:
            return
        if args and isinstance(args[0], T) and args[0].op == 'ite':
            for c, lf in leaves(args[0]):
                c2 = g_and(cond, c)
                if c2 is not FALSE and lf is not BOT:
                    self.effects.append(Effect(kind, [lf] + list(args[1:]), c2, tuple(self.loops), self.cur_span,
                                               self.stack[-1].body['name'] if self.stack else None))
            return
        self.effects.append(Effect(kind, list(args), cond, tuple(self.loops), self.cur_span,
                                   self.stack[-1].body['name'] if self.stack else None))

    def normalise(self, effs):
        """split guarded arguments, merge equal effects"""
        out = []
        idx = {}
        for e in effs:
            for L in e.loops:
                mu_ = mk('more', L.uid)
                e.guard = assume_guard(e.guard, bool_atom(mu_), True)
            if e.guard is FALSE:
                continue
            combos = [(e.guard, [])]
            for x in e.args:
                nxt = []
                hx = hoist(x) if isinstance(x, T) else x
                for g, acc in combos:
                    if isinstance(hx, T) and hx.op == 'ite':
                        lv = leaves(hx)
                        if len(lv) * len(combos) > 64:
                            nxt.append((g, acc + [hx]))
                            continue
                        for c, lf in lv:
                            c2 = g_and(g, c)
                            if c2 is not FALSE:
                                nxt.append((c2, acc + [lf]))
                    else:
                        nxt.append((g, acc + [hx]))
                combos = nxt
            for g, acc in combos:
                key = (e.kind, tuple(x.id if isinstance(x, T) else x for x in acc), tuple(id(l) for l in e.loops))
                if key in idx:
                    p = out[idx[key]]
                    p.guard = g_or(p.guard, g)
                else:
                    idx[key] = len(out)
                    out.append(Effect(e.kind, acc, g, e.loops, e.span, e.fn))
        for i, e in enumerate(out):
            e.seq = i
        return out

    # ------------------------------------------------------------ CFG helpers
    def cfg(self, body):
        c = self.cfgs.get(id(body))
        if c is None:
            c = CFG(body)
            self.cfgs[id(body)] = c
        return c

    # ------------------------------------------------------------ calls into bodies
    def call_body(self, body, args, st, ctx, targs, cargs):
        fr = Frame(self, body, ctx, targs, cargs)
        self.visited_fns.add(body['id'])
        self.inl += 1
        self.stack.append(fr)
        saved_prefix, saved_cond, saved_span = self.prefix, st.cond, self.cur_span
        self.prefix = g_and(self.prefix, st.cond)
        st.cond = TRUE
        for i, a in enumerate(args):
            st.v[(ctx, i + 1)] = a
        try:
            exits = self.eval_region(fr, self.cfg(body).root, {0: st}, None)
        finally:
            self.stack.pop()
            self.prefix = saved_prefix
            self.cur_span = saved_span
        rets = exits.get('return')
        if rets is None:
            st.cond = FALSE
            st.v = dict(st.v)
            return BOT
        rv = rets.v.get((ctx, 0), UNIT)
        # drop callee locals
        st.v = {k: v for k, v in rets.v.items() if not (k[0] == ctx and isinstance(k[1], int))}
        # the call returns (panics and divergence are not modelled as guards)
        st.cond = saved_cond
        rv = simp(rv, rets.cond)
        return rv

    def merge(self, ctx, where, a, b):
        """merge two states reaching the same block"""
        if a.cond is FALSE:
            return b
        if b.cond is FALSE:
            return a
        care = g_or(a.cond, b.cond)
        g = simp(a.cond, care)
        v = {}
        for k, x in a.v.items():
            y = b.v.get(k)
            if y is None:
                if k[0] == 'm':
                    y = k[1]
                elif k[0] == 'ver':
                    y = cint(0)
                else:
                    v[k] = x
                    continue
            if x is y:
                v[k] = x
            elif k[0] == 'ver':
                v[k] = mk('vphi', x if x.id < y.id else y, y if x.id < y.id else x)
            else:
                v[k] = gite(g, x, y)
        for k, y in b.v.items():
            if k not in a.v:
                if k[0] == 'm':
                    v[k] = gite(g, k[1], y)
                elif k[0] == 'ver':
                    v[k] = mk('vphi', cint(0), y)
                else:
                    v[k] = y
        return State(v, care)

    # ------------------------------------------------------------ regions and loops
    def eval_region(self, fr, region, instates, loop):
        """region: CFG node list in RPO (blocks and nested loops). instates: {block: State}.
        Returns dict exit-target -> State where exit-target is 'return', ('back',) or ('exit', block)."""
        cfg = self.cfg(fr.body)
        pend = dict(instates)
        exits = {}

        def flow(target, s):
            if s.cond is FALSE or s.cond is BOT:
                return
            if loop is not None and target == loop['header']:
                key = 'back'
            elif target == 'return':
                key = 'return' if loop is None else ('exit', 'return')
            elif target in region['members']:
                if target in pend:
                    pend[target] = self.merge(fr.ctx, target, pend[target], s)
                else:
                    pend[target] = s
                return
            else:
                key = ('exit', target)
            if key in exits:
                exits[key] = self.merge(fr.ctx, key, exits[key], s)
            else:
                exits[key] = s

        for item in region['order']:
            if isinstance(item, dict):
                h = item['header']
                if h not in pend:
                    continue
                s = pend.pop(h)
                for tgt, s2 in self.eval_loop(fr, item, s):
                    flow(tgt, s2)
            else:
                if item not in pend:
                    continue
                s = pend.pop(item)
                for tgt, s2 in self.eval_block(fr, item, s):
                    flow(tgt, s2)
        return exits

    def loop_once(self, L, st, mset, runner, initvals):
        """one symbolic iteration; mset: places to treat as carried"""
        s = st.copy()
        s.cond = TRUE
        for k in mset:
            iv = initvals.get(k)
            if iv is None:
                iv = k[1] if k[0] == 'm' else cint(0)
            if is_iter(iv):
                s.v[k] = mk('iterv', L.uid, iv)
            else:
                s.v[k] = self.mu_start(L, k, iv, mset)
        self.loops.append(L)
        L.gens = []
        L.conds = []
        L.more = None
        saved = self.prefix
        self.prefix = g_and(self.prefix, st.cond)
        n0 = len(self.effects)
        try:
            res = runner(s)
        finally:
            self.loops.pop()
            self.prefix = saved
        effs = self.effects[n0:]
        del self.effects[n0:]
        return res, effs

    def mu_start(self, L, k, iv, mset):
        paths = mset[k] if isinstance(mset, dict) else None
        if paths is None or () in paths:
            return mk('mu', L.uid, k)
        v = iv
        for p in sorted(paths):
            v = self.put(v, tuple(('f', n) for n in p), mk('mu', L.uid, ('leaf', k, p)))
        return v

    def leafdiff(self, iv, start, back, pre=()):
        """paths (field name tuples) at which the carried value differs after one iteration"""
        if back is start:
            return set()
        if len(pre) > 3:
            return {pre}
        names = None
        if iv.op == 'tup':
            names = [str(i) for i in range(len(iv.a))]
        elif iv.op == 'agg':
            adt = self.prog.adts.get(iv.a[0])
            if adt is not None and not adt['enum']:
                names = list(iv.a[2])
        else:
            names = upd_fields(back, start)
        if not names:
            return {pre}
        out = set()
        for n in names:
            out |= self.leafdiff(fld(iv, n), fld(start, n), fld(back, n), pre + (n,))
        return out

    def run_loop(self, uid, st, runner, hint=()):
        """generic loop with fixpoint over the set of carried places.
        runner(state) -> (back_state or None, [(target, state)]). Returns (L, back, exits, mset)"""
        initvals = dict(st.v)

        def init(k):
            iv = initvals.get(k)
            if iv is None:
                iv = k[1] if k[0] == 'm' else cint(0)
            return iv
        mset = {k: {()} for k in hint if k in st.v and is_iter(st.v[k])}
        for rnd in range(14):
            L = Loop(uid)
            L.rank = len(self.loops)
            (back, exits), effs = self.loop_once(L, st, mset, runner, initvals)
            if back is None:
                break
            grew = False
            for k, v in back.v.items():
                if k in mset and () in mset[k]:
                    continue
                if k not in st.v and k[0] not in ('m', 'ver'):
                    continue
                iv = init(k)
                start = self.mu_start(L, k, iv, mset) if k in mset else iv
                if is_iter(iv):
                    if v is not start:
                        mset[k] = {()}
                        grew = True
                    continue
                d = self.leafdiff(iv, start, v)
                if k in mset:
                    # paths already carried are expected to change
                    d = {p for p in d if p not in mset[k]}
                if d:
                    cur = mset.get(k, set()) | d
                    if () in d or rnd > 8:
                        cur = {()}
                    # keep minimal prefixes
                    cur = {p for p in cur if not any(q != p and p[:len(q)] == q for q in cur)}
                    mset[k] = cur
                    grew = True
            if grew:
                continue
            break
        self.record_mu(L, mset, init, back)
        L.mset = mset
        self.loopinfo = getattr(self, 'loopinfo', {})
        self.loopinfo[uid] = L
        return L, back, exits, effs

    def record_mu(self, L, mset, init, back):
        for k in mset:
            iv = init(k)
            if () in mset[k]:
                m = mk('mu', L.uid, k)
                L.mu[m] = (iv, back.v.get(k, m) if back is not None else m)
                continue
            for p in mset[k]:
                m = mk('mu', L.uid, ('leaf', k, p))
                a, b = iv, (back.v.get(k) if back is not None else None)
                for n in p:
                    a = fld(a, n)
                    b = fld(b, n) if b is not None else None
                L.mu[m] = (a, b if b is not None else m)

    def eval_loop(self, fr, item, st, tag=()):
        cfg = self.cfg(fr.body)
        h = item['header']
        # loops within one part of a chain are not those within another part
        rt = (('part',) + self.parts,) if self.parts else ()
        uid = mk('loop', fr.ctx, h, *tag, *rt)
        # a chain iterator at the head: run the loop once per part
        itk = self.head_iter(fr, item, st)
        if itk is not None:
            st = st.copy()
            from . import models
            if is_iter(st.v[itk]):
                st.v[itk] = models.normal_iter(self, st.v[itk], st)
        if itk is not None and st.v[itk].op == 'ite':
            lv = [(g_and(st.cond, g), x) for g, x in leaves(hoist(st.v[itk]))]
            lv = [(g, x) for g, x in lv if g is not FALSE and x is not BOT]
            if 1 <= len(lv) <= 4 and all(is_iter(x) for _, x in lv):
                outs = {}
                for j, (g, x) in enumerate(lv):
                    s = st.copy()
                    s.cond = g
                    s.v[itk] = x
                    for tgt, s2 in self.eval_loop(fr, item, s, tag + (j,)):
                        outs.setdefault(tgt, []).append(s2)
                final = []
                for tgt, ss in outs.items():
                    m = ss[0]
                    for s2 in ss[1:]:
                        m = self.merge(fr.ctx, tgt, m, s2)
                    final.append((tgt, m))
                return final
        if itk is not None and (st.v[itk].op == 'ichain' or is_once(st.v[itk])):
            parts = flatten_chain(st.v[itk])
            outs = {}
            cur = st
            for j, p in enumerate(parts):
                if cur is None:
                    break
                s = cur.copy()
                s.v[itk] = p
                if is_once(p):
                    cur = None
                    for tgt, s2 in self.unroll(fr, item, s):
                        if tgt == 'next' and j + 1 < len(parts):
                            cur = s2
                        elif tgt == 'next':
                            s2.v[itk] = mk('it', mk('list'))
                            for t3, s3 in self.unroll(fr, item, s2):
                                if t3 != 'next':
                                    outs.setdefault(t3, []).append(s3)
                        else:
                            outs.setdefault(tgt, []).append(s2)
                    continue
                self.parts += (j,)
                res = self.eval_loop1(fr, item, s, mk('loop', fr.ctx, h, *tag, j, *rt))
                self.parts = self.parts[:-1]
                cur = None
                # the normal exit feeds the next part; other exits leave
                for kind, tgt, s2 in res:
                    if kind == 'normal' and j + 1 < len(parts):
                        s3 = s2.copy()
                        cur = s3 if cur is None else self.merge(fr.ctx, h, cur, s3)
                    else:
                        outs.setdefault(tgt, []).append(s2)
            final = []
            for tgt, ss in outs.items():
                m = ss[0]
                for s2 in ss[1:]:
                    m = self.merge(fr.ctx, tgt, m, s2)
                final.append((tgt, m))
            return final
        return [(t, s) for _, t, s in self.eval_loop1(fr, item, st, uid)]

    def unroll(self, fr, item, st):
        """one concrete pass over the loop body (the iterator has at most one element)"""
        ex = self.eval_region(fr, {'order': item['order'], 'members': item['members']}, {item['header']: st}, item)
        return [('next' if k == 'back' else k[1], s) for k, s in ex.items()]

    def head_iter(self, fr, item, st):
        for l in item['next_locals']:
            k = (fr.ctx, l)
            v = st.v.get(k)
            if v is not None and v.op == 'ref' and v.a[1] == ():
                k = v.a[0]
                v = st.v.get(k)
            if v is not None and (is_iter(v) or v.op == 'ite' and v not in (TRUE, FALSE) and all(is_iter(x) or x is BOT for _, x in leaves(v))):
                return k
        return None

    def eval_loop1(self, fr, item, st, uid):
        h = item['header']
        hint = [(fr.ctx, l) for l in item['assigned']]
        itk = self.head_iter(fr, item, st)
        if itk is not None:
            hint.append(itk)
        force = {}

        def runner(s):
            for k, v in force.items():
                self.set_carried(s, k, v)
            ex = self.eval_region(fr, {'order': item['order'], 'members': item['members']}, {h: s}, item)
            back = ex.pop('back', None)
            return back, [(k[1], v) for k, v in ex.items()]

        self.loop_members = getattr(self, 'loop_members', {})
        self.loop_members[uid] = item['members']
        L, back, exits, effs = self.run_loop(uid, st, runner, hint)
        # while-counter loops become range iteration
        if L.more is None and back is not None:
            rng = self.find_counter(L, exits, back)
            if rng is not None:
                k, m, rterm = rng
                self_k = self.gen_index(L, rterm)
                force[k] = elem(rterm, self_k)
                more = mk('more', L.uid)

                L2, back, exits, effs = self.run_loop_forced(uid, st, runner, L.mset, k, rterm, self_k)
                L2.mu[m] = L.mu[m]
                # exit guard: !(elem < end) is impossible inside; replace
                cmpg = lt(elem(rterm, self_k), rterm.a[1])
                ne = g_not(eq(elem(rterm, self_k), rterm.a[1]))
                moreg = bool_atom(more)
                L2.more = more
                fix = lambda g: replace_guard(g, [(cmpg, moreg), (ne, moreg)])
                for e in effs:
                    e.guard = fix(e.guard)
                for _, s in exits:
                    s.cond = fix(s.cond)
                back.cond = fix(back.cond)
                for _, s in exits:
                    if g_implies(s.cond, g_not(moreg)):
                        self.set_carried(s, k, rterm.a[1])
                L = L2
        return self.finish_loop(fr, L, st, back, exits, effs)

    def run_loop_forced(self, uid, st, runner, mset, drop, rterm, kk):
        L = Loop(uid)
        L.rank = len(self.loops)
        initvals = dict(st.v)
        mset = dict(mset)
        if drop[0] == 'leaf':
            mset[drop[1]] = mset[drop[1]] - {drop[2]}
        else:
            mset.pop(drop, None)

        def r2(s):
            L.gens = [elem(rterm, kk)]
            return runner(s)
        (back, exits), effs = self.loop_once(L, st, mset, r2, initvals)

        def init(k):
            iv = initvals.get(k)
            if iv is None:
                iv = k[1] if k[0] == 'm' else cint(0)
            return iv
        L.mset = mset
        self.record_mu(L, mset, init, back)
        self.loopinfo[uid] = L
        return L, back, exits, effs

    def set_carried(self, s, k, v):
        if k[0] == 'leaf':
            s.v[k[1]] = self.put(self.root_value(k[1], s), tuple(('f', n) for n in k[2]), v)
        else:
            s.v[k] = v

    def gen_index(self, L, coll):
        k = 0
        for l in self.loops:
            if l is L:
                continue
            for g in l.gens:
                if g.op == 'elem' and g.a[0] is coll:
                    k += 1
        return k

    def find_counter(self, L, exits, back):
        for m, (iv, step) in L.mu.items():
            if not isinstance(m.a[1][0], tuple) or not is_numeric_init(iv):
                continue
            d = add(step, m, -1) if step.op != 'ite' else None
            if d is None or d is not cint(1):
                continue
            for tgt, s in exits:
                for at in atoms_of(s.cond):
                    sub = at.a[0]
                    if sub.op == 'pos':
                        c, p = lin_parts(sub.a[0])
                        if m in p and abs(p[m]) == 1:
                            # pos(d): d>0
                            # loop continues while m < n  <=> n - m > 0
                            if p[m] == -1:
                                rest = mklin(c, {k: v for k, v in p.items() if k is not m})
                            else:
                                # m - rest' > 0 is the exit form: !(m - x > 0) <=> x - m + 1 > 0 ; n = x+1
                                rest = mklin(1 - c, {k: -v for k, v in p.items() if k is not m})
                            if contains_op(rest, lambda t: t.op == 'mu' and t.a[0] is L.uid):
                                continue
                            cont = lt(m, rest)
                            # every other exit keeps the condition; the back edge requires it
                            if g_implies(back.cond, cont) and any(g_implies(s2.cond, g_not(cont)) for _, s2 in exits):
                                return m.a[1], m, mk('range', iv, rest)
        return None

    def finish_loop(self, fr, L, st, back, exits, effs):
        if L.gens == []:
            L.gens = [mk('while', L.uid)]
        self.effects.extend(effs)
        out = []
        moreg = bool_atom(L.more) if L.more is not None else None
        n = len(exits)
        care = TRUE
        if moreg is not None:
            for c in L.conds:
                care = g_and(care, c)
        normal_exists = FALSE
        others = []
        for tgt, s in exits:
            if moreg is not None:
                isnorm = g_implies(s.cond, g_not(moreg))
            else:
                isnorm = n == 1
            others.append((isnorm, tgt, s))
        if moreg is None:
            L.leave = [s.cond for isnorm, tgt, s in others if isnorm]
        norm_guard = TRUE
        res = []
        for isnorm, tgt, s in others:
            if isnorm:
                continue
            if moreg is not None:
                # split: part of this exit may be the normal exit (merged break + exhaustion)
                s_more = assume_guard(s.cond, moreg, True)
                s_end = assume_guard(s.cond, moreg, False)
            else:
                s_more, s_end = s.cond, FALSE
            cond = s_more
            L.exits.append((tgt, cond))
            ex = exists_term(L, cond)
            sub = self.such_sub(L, cond)
            ns = State({k: leave_loop(v, moreg, True, sub) for k, v in s.v.items()}, g_and(st.cond, ex))
            norm_guard = g_and(norm_guard, g_not(ex))
            res.append(('break', tgt, ns))
            if s_end is not FALSE:
                ns2 = State({k: leave_loop(v, moreg, False, None) for k, v in s.v.items()}, None)
                res.append(('normal', tgt, ns2))
        for isnorm, tgt, s in others:
            if isnorm:
                ns = State({k: leave_loop(v, moreg, False, None) if moreg is not None else v for k, v in s.v.items()}, None)
                res.append(('normal', tgt, ns))
        hasnorm = [r for r in res if r[0] == 'normal']
        if not hasnorm and len([r for r in res if r[0] == 'break']) == 1:
            # a loop that can only be left one way: leaving is unconditional
            res = [(a, t, State(s.v, st.cond)) for a, t, s in res]
        elif not hasnorm:
            # no exhaustion exit: the guards of the exits are kept as they are
            pass
        for a, t, s in res:
            if a == 'normal':
                s.cond = g_and(st.cond, norm_guard)
        # accumulators: fold booleans into exists()
        if moreg is not None or True:
            self.fold_accs(L, res, back)
        return res

    def fold_accs(self, L, res, back):
        if back is None:
            return
        rep = {}
        for m, (iv, step) in L.mu.items():
            if L.more is not None:
                step = assume_guard(step, bool_atom(L.more), True) if step.op == 'ite' else step
            if iv in (TRUE, FALSE) or iv.op == 'mu' and iv.a[0] is not L.uid or iv.op == 'ite' and all(l in (TRUE, FALSE) for _, l in leaves(iv)):
                g = to_guard(step)
                if g is None:
                    continue
                mg = bool_atom(m)
                hi = assume_guard(g, mg, True)
                lo = assume_guard(g, mg, False)
                other = lambda x: contains_op(x, lambda t: t.op == 'mu' and t.a[0] is L.uid and t.a[1][0] != 'ver')
                if iv is not TRUE and hi is TRUE and not other(lo):
                    rep[m] = g_or(to_guard(iv), exists_term(L, lo))
                elif iv is not FALSE and lo is FALSE and not other(hi):
                    rep[m] = g_and(to_guard(iv), g_not(exists_term(L, g_not(hi))))
            elif iv is cint(0) and len(L.gens) == 1 and L.gens[0].op == 'elem':
                r = self.fold_number(L, m, step)
                if r is not None:
                    rep[m] = r
        if not rep:
            return
        f = lambda t: rep.get(t)
        memo = {}
        for _, _, s in res:
            for k in list(s.v):
                s.v[k] = subst(s.v[k], f, memo)

    def fold_number(self, L, m, step):
        """running maximum of natural numbers, starting with 0"""
        own = lambda x: contains_op(x, lambda t: t.op == 'mu' and t.a[0] is L.uid and t.a[1][0] != 'ver')
        g, x = TRUE, None
        if step.op == 'ite' and step.a[2] is m:
            g, step = mk('ite', step.a[0], TRUE, FALSE), step.a[1]
        if step.op == 'op' and step.a[0] == 'max' and len(step.a) == 3 and m in step.a[1:]:
            x = step.a[2] if step.a[1] is m else step.a[1]
        elif g is lt(m, step) or g is g_not(lt(step, m)):
            g, x = TRUE, step
        if x is None or own(x) or own(g):
            return None
        return gite(exists_term(L, g), pay(mk('reduce', 'max', tuple(L.gens), g, x), 'Some', '0'), cint(0))

    def such_sub(self, L, cond):
        rep = {}
        for g in L.gens:
            if g.op in ('elem', 'while'):
                rep[g] = mk('such', g, cond)
        return rep

    # ------------------------------------------------------------ blocks
    def eval_block(self, fr, bb, st):
        body = fr.body
        blk = body['blocks'][bb]
        for s in blk['s']:
            if s[0] == '=':
                self.cur_span = s[3]
                v = self.rvalue(fr, s[2], st, bb)
                self.assign(fr, s[1], v, st)
            elif s[0] == 'dead':
                st.v.pop((fr.ctx, s[1]), None)
            elif s[0] == 'setd':
                pass
        t = blk['t']
        k = t['k']
        self.cur_span = t['span']
        if k == 'goto' or k == 'drop':
            return [(t['to'], st)]
        if k == 'return':
            return [('return', st)]
        if k == 'assert':
            return [(t['to'], st)]
        if k == 'switch':
            return self.switch(fr, t, st)
        if k == 'call':
            v = self.call(fr, bb, t, st)
            self.cur_span = t['span']
            if t['to'] is None or v is BOT and st.cond is FALSE:
                return []
            self.assign(fr, t['dest'], v, st)
            return [(t['to'], st)]
        return []

    def switch(self, fr, t, st):
        v = self.operand(fr, t['op'], st)
        ty = t['ty'][0]
        out = []
        if v.op == 'discr' or (v.op == 'ite' and any(l.op == 'discr' for _, l in leaves(v))):
            def disc_guard(x, names):
                if x.op == 'discr':
                    g = FALSE
                    for nme in names:
                        g = g_or(g, is_variant(x.a[0], nme, x.a[1]))
                    return g
                return None
        rest = TRUE
        dl = [l for _, l in leaves(v)] if v.op == 'ite' else [v]
        for val, to in t['targets']:
            g = map_leaves(v, lambda x: self.switch_eq(x, val, ty))
            g = g_and(rest, g)
            rest = g_and(rest, g_not(g))
            s2 = State(dict(st.v), g_and(st.cond, g))
            out.append((to, s2))
        oth = State(st.v, g_and(st.cond, rest))
        ob = fr.body['blocks'][t['otherwise']]
        if not (ob['t']['k'] == 'unreachable'):
            out.append((t['otherwise'], oth))
        # merge same targets is done by flow()
        return [(a, s) for a, s in out if s.cond is not FALSE]

    def switch_eq(self, x, val, ty):
        if x is BOT:
            return BOT
        if x.op == 'discr':
            dom = x.a[1]
            adt = x.a[2]
            nm = None
            for vv in self.prog.adts[adt]['variants']:
                if vv['discr'] == val or (adt == 'core::Ordering' and val in ('255', '-1', str((1 << 64) - 1)) and vv['name'] == 'Less'):
                    nm = vv['name']
            if nm is None:
                return FALSE
            return is_variant(x.a[0], nm, dom)
        if ty == 'bool':
            g = to_guard(x)
            return g_not(g) if val == '0' else g
        if x.op == 'c' and x.a[0] in ('int', 'char', 'bool'):
            return cbool(int(x.a[1]) == int(val))
        return eq(x, cint(int(val)))

    # ------------------------------------------------------------ places
    def resolve(self, fr, place, st):
        """-> (root, path) ; root = state key; path = tuple of path elements"""
        root = (fr.ctx, place[0])
        path = ()
        down = None
        for e in place[1]:
            if e == '*':
                v = self.read(root, path, st)
                down = None
                if v.op == 'ref':
                    root, path = v.a[0], v.a[1]
                    if root[0] == 'm' and False:
                        pass
                else:
                    root, path = ('m', v), ()
            elif e == 'box':
                continue
            elif e == '?':
                continue
            elif e[0] == 'f':
                if down is not None:
                    path = path + (('v', down, e[1]),)
                    down = None
                else:
                    path = path + (('f', e[1]),)
            elif e[0] == 'd':
                down = e[1]
            elif e[0] == 'i':
                path = path + (('i', st.v.get((fr.ctx, e[1]), UNIT)),)
            elif e[0] == 'ci':
                i = cint(e[1])
                if e[2]:
                    i = mk('fromend', i)
                path = path + (('i', i),)
            elif e[0] == 'ss':
                path = path + (('s', mk('slice', cint(e[1]), cint(e[2]), str(e[3]))),)
        return root, path

    def root_value(self, root, st):
        v = st.v.get(root)
        if v is None:
            if root[0] == 'm':
                return root[1]
            return mk('undef')
        return v

    def read(self, root, path, st):
        v = self.root_value(root, st)
        for p in path:
            v = self.proj(v, p)
        return v

    def proj(self, v, p):
        if p[0] == 'f':
            return fld(v, p[1])
        if p[0] == 'v':
            return pay(v, p[1], p[2])
        if p[0] == 'i':
            return index(v, p[1])
        if p[0] == 's':
            s = p[1]
            return mk('subslice', v, s)
        raise Exception(p)

    def write(self, root, path, v, st):
        if not path:
            st.v[root] = v
            return
        base = self.root_value(root, st)
        st.v[root] = self.put(base, path, v)

    def put(self, base, path, v):
        p = path[0]
        if len(path) > 1:
            v = self.put(self.proj(base, p), path[1:], v)
        if p[0] == 'f':
            return upd(base, p[1], v)
        if p[0] == 'v':
            return updv(base, p[1], p[2], v)
        if p[0] == 'i':
            return mk('updi', base, p[1], v)
        return mk('upds', base, v)

    def assign(self, fr, place, v, st):
        root, path = self.resolve(fr, place, st)
        self.assign_to(root, path, v, st)

    def assign_to(self, root, path, v, st):
        if root[0] == 'm':
            tgt = root[1]
            if tgt.op == 'ite':
                # write through a merged reference
                for g, lf in leaves(tgt):
                    s2 = State(st.v, g_and(st.cond, g))
                    if lf.op == 'ref':
                        r2, p2 = lf.a[0], lf.a[1] + path
                        old = self.read(r2, p2, st)
                        self.write(r2, p2, gite(g, v, old), st)
                    else:
                        self.emit('store', self.loc(lf, path), v, st=s2)
                return
            if not (tgt.op == 'box'):
                self.emit('store', self.loc(root[1], path), v, st=st)
        self.write(root, path, v, st)

    def loc(self, base, path):
        for p in path:
            base = self.proj(base, p)
        return base

    # ------------------------------------------------------------ values
    def deref_value(self, v, st):
        """value of a reference (erase)"""
        if v.op == 'ref':
            return self.read(v.a[0], v.a[1], st)
        if v.op == 'ite' and any(l.op == 'ref' for _, l in leaves(v)):
            return map_leaves(v, lambda x: self.read(x.a[0], x.a[1], st) if x.op == 'ref' else x)
        if ('m', v) in st.v:
            return st.v[('m', v)]
        return v

    def purify(self, v, st, memo=None):
        """replace references to places by the values they hold (for opaque terms)"""
        if v.op == 'ref':
            return self.purify(self.deref_value(v, st), st)
        if contains_op(v, lambda t: t.op == 'ref'):
            return subst(v, lambda t: self.purify(self.deref_value(t, st), st) if t.op == 'ref' else None)
        return v

    def operand(self, fr, o, st):
        if o[0] in ('copy', 'move'):
            root, path = self.resolve(fr, o[1], st)
            return self.read(root, path, st)
        if o[0] == 'const':
            return self.const(fr, o[1], st)
        return mk('c', 'bool', False)

    def const(self, fr, c, st):
        if 'fn' in c:
            f = c['fn']
            if 'ctor' in f:
                return mk('ctor', f['adt'], f['variant'])
            return mk('fn', f.get('rid', f['id']), json_key(f))
        if 'promoted' in c:
            of = self.prog.bodies.get(c['of'])
            if of is None:
                return mk('promoted', c['of'], c['promoted'])
            return self.promoted(of, c['promoted'])
        if 'bool' in c:
            return cbool(c['bool'])
        if 'int' in c:
            if 'variant' in c:
                return mk('agg', c['ty'][0], c['variant'], ())
            return cint(int(c['int']))
        if 'char' in c:
            return mk('c', 'char', c['char'])
        if 'str' in c:
            return cstr(c['str'])
        if c.get('itemid') in self.prog.bodies and self.prog.bodies[c['itemid']]['argc'] == 0:
            v = self.constant_item(self.prog.bodies[c['itemid']])
            if v is not None:
                return v
        if 'bytes' in c:
            return mk('c', 'bytes', c['bytes'])
        if 'ptrbytes' in c:
            return mk('c', 'bytes', c['ptrbytes'])
        if 'cparam' in c:
            v = self.cparam(fr, c['cparam'])
            return v if v is not None else mk('cparam', c['cparam'])
        if 'static' in c:
            return mk('static', c['static'])
        if 'item' in c:
            return mk('const', c['item'])
        if c.get('zst'):
            ty = c['ty'][0]
            if ty == '()':
                return UNIT
            if ty == 'closure':
                return mk('clo', c['ty'][1][0])
            a = self.prog.adts.get(ty)
            if a and not a['enum']:
                return mk('agg', ty, a['variants'][0]['name'], ())
            return mk('zst', ty)
        return mk('const?', json.dumps(c.get('uneval', c.get('ty')))[:80])

    def constant_item(self, body):
        """the value a constant's body computes"""
        key = ('item', body['id'])
        if not hasattr(self, '_prom'):
            self._prom = {}
        if key not in self._prom:
            self._prom[key] = None
            self._prom[key] = self.const_body(body, key)
        return self._prom[key]

    def promoted(self, body, i):
        key = ('prom', body['id'], i)
        if not hasattr(self, '_prom'):
            self._prom = {}
        if key in self._prom:
            return self._prom[key]
        p = dict(body['promoted'][i])
        p['name'] = body['name'] + '::promoted'
        p['id'] = body['id'] + '::promoted%d' % i
        p['crate'] = body['crate']
        self._prom[key] = v = self.const_body(p, key)
        return v

    def const_body(self, p, key):
        eff, pre, loops, span = self.effects, self.prefix, self.loops, self.cur_span
        self.effects, self.prefix, self.loops = [], TRUE, []
        st = State({}, TRUE)
        try:
            v = self.call_body(p, [], st, key, {}, {})
            v = self.purify(v, st)
            v = self.freeze(v)
        finally:
            self.effects, self.prefix, self.loops, self.cur_span = eff, pre, loops, span
        return v

    def freeze(self, v):
        return v

    def rvalue(self, fr, r, st, bb):
        k = r[0]
        if k == 'use':
            return self.operand(fr, r[1], st)
        if k in ('ref', 'reborrow'):
            root, path = self.resolve(fr, r[2], st)
            if r[1] == 'shared':
                v = self.read(root, path, st)
                if v.op == 'undef':
                    return mk('ref', root, path)
                return v
            v = None
            if root[0] == 'm' and not path:
                # &mut *p with opaque p: keep p itself
                if root not in st.v:
                    return root[1]
            return mk('ref', root, path)
        if k == 'cast':
            v = self.operand(fr, r[2], st)
            kind = r[1]
            if kind.startswith('IntToInt'):
                return self.intcast(v, r[4][0], r[3][0])
            if kind.startswith('Transmute') or 'Ptr' in kind or 'Box' in kind or 'Unsize' in kind:
                return v
            if kind.startswith('IntToFloat') or kind.startswith('Float'):
                return mk('fcast', r[3][0], v)
            return v
        if k == 'bin':
            a = self.operand(fr, r[2], st)
            b = self.operand(fr, r[3], st)
            return self.binop(r[1], a, b, r[4][0])
        if k == 'un':
            a = self.operand(fr, r[2], st)
            if r[1] == 'Not':
                if a in (TRUE, FALSE) or a.op == 'ite':
                    try:
                        return g_not(to_guard(a))
                    except Exception:
                        pass
                return g_not(to_guard(a))
            if r[1] == 'PtrMetadata':
                return collen(a)
            return mk('un', r[1], a)
        if k == 'discr':
            root, path = self.resolve(fr, r[1], st)
            v = self.read(root, path, st)
            adt = r[2][0]
            dom = self.prog.variants(adt)
            if dom is None:
                return mk('discr?', v)
            return map_leaves(v, lambda x: BOT if x is BOT else mk('discr', x, dom, adt))
        if k == 'agg':
            ops = [self.operand(fr, o, st) for o in r[2]]
            kind = r[1]
            if kind[0] == 'tuple':
                if not ops:
                    return UNIT
                return mk('tup', *ops)
            if kind[0] == 'array':
                return mk('list', *ops)
            if kind[0] == 'adt':
                return mk('agg', kind[1], kind[2], tuple(kind[3]), *ops)
            if kind[0] == 'closure':
                return mk('clo', kind[1], *ops)
            return mk('agg?', *ops)
        if k == 'repeat':
            n = self.cparam(fr, r[2]) if isinstance(r[2], str) else None
            if n is None and isinstance(r[2], str) and r[2].split('_')[0].isdigit():
                n = cint(int(r[2].split('_')[0]))
            v = self.operand(fr, r[1], st)
            if n is not None and n.a[-1] <= 4:
                return mk('list', *([v] * n.a[-1]))
            return mk('repeat', v, r[2])
        return mk('rv?', str(r[1])[:60])

    WIDTH = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64, 'i8': 7, 'i16': 15, 'i32': 31, 'i64': 63, 'isize': 63, 'char': 21, 'bool': 1, 'u128': 128, 'i128': 127}

    def intcast(self, v, frm, to):
        if v.op == 'ite':
            if frm == 'bool':
                return map_leaves(v, lambda x: cint(1) if x is TRUE else cint(0) if x is FALSE else mk('b2i', x))
            return map_leaves(v, lambda x: self.intcast(x, frm, to))
        if v.op == 'c':
            if v.a[0] == 'char':
                return cint(v.a[1])
            if v.a[0] == 'int':
                return v
            if v.a[0] == 'bool':
                return cint(1 if v.a[1] else 0)
        if v.op == 'discr':
            return v
        wf, wt = self.WIDTH.get(frm), self.WIDTH.get(to)
        if wf is not None and wt is not None and wf <= wt:
            return v
        return mk('as', to, v)

    def binop(self, op, a, b, ty):
        op = op.replace('Unchecked', '').replace('WithOverflow', '')
        if op in ('Eq', 'Ne'):
            if ty == 'bool':
                ga, gb = to_guard(a), to_guard(b)
                g = gite(ga, gb, g_not(gb))
            else:
                g = eq(a, b)
            return g if op == 'Eq' else g_not(g)
        if op == 'Lt':
            return self.cmp(a, b)
        if op == 'Gt':
            return self.cmp(b, a)
        if op == 'Le':
            return g_not(self.cmp(b, a))
        if op == 'Ge':
            return g_not(self.cmp(a, b))
        if op == 'Add':
            return add(a, b)
        if op == 'Sub':
            return add(a, b, -1)
        if ty == 'bool':
            ga, gb = to_guard(a), to_guard(b)
            if op == 'BitAnd':
                return g_and(ga, gb)
            if op == 'BitOr':
                return g_or(ga, gb)
            if op == 'BitXor':
                return gite(ga, g_not(gb), gb)
        if op == 'Mul' and a.op == 'c' and b.op == 'c':
            return cint(a.a[1] * b.a[1])
        if op == 'Mul' and (a.op == 'c' or b.op == 'c'):
            k, x = (a, b) if a.op == 'c' else (b, a)
            if k.a[0] == 'int' and k.a[1] >= 0:
                c0, p0 = lin_parts(x)
                return mklin(c0 * k.a[1], {y: v * k.a[1] for y, v in p0.items()})
        if op in ('Mul', 'BitAnd', 'BitOr', 'BitXor') and a.id > b.id:
            a, b = b, a
        return mk('op', op, a, b)

    def cmp(self, a, b):
        return map_leaves(a, lambda x: map_leaves(b, lambda y: lt(x, y)))

    # ------------------------------------------------------------ calls
    def call(self, fr, bb, t, st):
        self.callsites += 1
        self.steps += 1
        f = t['func']
        args = [self.operand(fr, a, st) for a in t['args']]
        site = (fr.ctx, bb)
        if f[0] == 'const' and 'fn' in f[1]:
            fn = f[1]['fn']
            return self.call_fn(fr, fn, args, st, site, t)
        v = self.operand(fr, f, st)
        return self.apply(v, args, st, site)

    def apply(self, f, args, st, site):
        """call a function value (closure, fn item, constructor)"""
        f = self.deref_value(f, st) if f.op in ('ref',) else f
        if f.op == 'ite':
            # merged function values
            acc = None
            cond0 = st.cond
            merged = None
            for g, lf in leaves(f):
                s2 = st.copy()
                s2.cond = g_and(cond0, g)
                v = self.apply(lf, args, s2, site)
                if acc is None:
                    acc, merged = v, s2
                else:
                    acc = gite(g, v, acc)
                    merged = self.merge(site, 'apply', merged, s2)
            if merged is not None:
                st.v = merged.v
            st.cond = cond0
            return acc if acc is not None else BOT
        if f.op == 'projfn':
            return fld(args[0], f.a[0])
        if f.op == 'clo':
            body = self.prog.bodies.get(f.a[0])
            if body is None:
                return mk('call', 'closure?', *args)
            if any(s.body['id'] == body['id'] for s in self.stack) or len(self.stack) > self.maxdepth:
                self.emit('rec', body['name'], *[self.purify(a, st) for a in args], st=st)
                return mk('call', 'rec:' + body['name'], *[self.purify(a, st) for a in args])
            fr0 = self.stack[-1] if self.stack else None
            ctx = (site, body['id'])
            st.v[(ctx, 'self')] = f
            env = f
            if body['locals'][1][0][0] == '&mut':
                env = mk('ref', (ctx, 'self'), ())
            v = self.call_body(body, [env] + list(args), st, ctx, fr0.targs if fr0 else {}, fr0.cargs if fr0 else {})
            st.v.pop((ctx, 'self'), None)
            return v
        if f.op == 'fn':
            fn = dict(f.a[1])
            fn = json.loads(fn['json'])
            return self.call_fn(self.stack[-1] if self.stack else None, fn, list(args), st, site, None)
        if f.op == 'ctor':
            adt = self.prog.adts.get(f.a[0])
            names = None
            if adt:
                for v in adt['variants']:
                    if v['name'] == f.a[1]:
                        names = tuple(x[0] for x in v['fields'])
            if names is None:
                names = tuple(str(i) for i in range(len(args)))
            return mk('agg', f.a[0], f.a[1], names[:len(args)], *args)
        pargs = [self.purify(a, st) for a in args]
        self.emit('ext', 'apply', f, *pargs, st=st)
        return mk('call', 'apply', f, *pargs)

    def call_fn(self, fr, fn, args, st, site, t):
        from . import models
        name = fn['name']
        if 'ctor' in fn:
            return self.apply(mk('ctor', fn['adt'], fn['variant']), args, st, site)
        # resolution inside inlined generics
        rid = fn.get('rid', fn['id'])
        rname = fn.get('rname', name)
        if getattr(self, 'emission', False):
            f = models.EMISSION.get(rname) or models.EMISSION.get(name)
            if f is not None:
                return f(self, fr, fn, args, st, site, t)
        m = models.lookup(self, name, rname, fn)
        body = self.prog.bodies.get(rid)
        if body is None and 'trait' in fn and fr is not None:
            body = self.devirt(fr, fn, args)
            if body is not None:
                rid, rname = body['id'], body['name']
        if m is not None and not (body is not None and m.prefer_body(fn, body)):
            return m.fn(self, fr, fn, args, st, site, t)
        if body is not None and body['kind'] in ('fn', 'closure'):
            if self.opaque(rname, body):
                return self.opaque_call(fr, rname, args, st, site, t, fn)
            if any(s.body['id'] == rid for s in self.stack) or rid in self.prog.rec_heads():
                pargs = [self.purify(a, st) for a in args]
                self.emit('rec', rname, *pargs, st=st)
                self.havoc(args, rname, pargs, st, fn)
                return mk('call', 'rec:' + rname, *pargs)
            if len(self.stack) > self.maxdepth:
                return self.opaque_call(fr, rname, args, st, site, t, fn)
            # generics mapping
            targs, cargs = {}, {}
            gl = body['generics']
            ca = fn.get('rcargs', fn.get('cargs', []))
            cg = [g for g in gl if g and g[0].isupper() and not g.startswith("'")]
            if ca:
                # const params come last in declaration order of generics
                consts = gl[-len(ca):]
                for g, v in zip(consts, ca):
                    v0 = v.split('_')[0]
                    if v0.isdigit():
                        cargs[g] = cint(int(v0))
                    elif self.cparam(fr, v) is not None:
                        cargs[g] = self.cparam(fr, v)
            return self.call_body(body, args, st, (site, rid), targs, cargs)
        return self.opaque_call(fr, rname if not fn.get('trait') else name, args, st, site, t, fn)

    def devirt(self, fr, fn, args):
        """trait method on a type parameter: use the receiver's aggregate type if it is known"""
        if not args:
            return None
        a = args[0]
        ty = None
        if a.op == 'agg':
            ty = a.a[0]
        elif a.op == 'ref':
            return None
        if ty is None:
            return None
        tr = fn['trait']
        meth = fn['name'].split('::')[-1]
        return self.prog.find('<%s as %s>::%s' % (ty, tr, meth))

    def opaque_call(self, fr, name, args, st, site, t, fn=None):
        pargs = [self.purify(a, st) for a in args]
        mut = [i for i, a in enumerate(args) if a.op == 'ref' or (a.op == 'ite' and any(l.op == 'ref' for _, l in leaves(a)))]
        self.unknown[name] = self.unknown.get(name, 0) + 1
        for c in (fn or {}).get('rcargs') or (fn or {}).get('cargs') or ():
            # explicit const arguments follow the ordinary ones
            c = str(c).split('_')[0].replace('usize', '')
            if c.isdigit():
                pargs.append(cint(int(c)))
        v = mk('call', name, *pargs)
        self.emit('call', name, *pargs, *([cstr(repr(site))] if self.positions else []), st=st)
        if fn is not None and t is not None and self.prog.bodies.get(fn.get('rid', fn['id'])) is None and not getattr(self, 'emission', False):
            # a library function the engine has no model for: whatever it takes by `&mut` may change in any way
            for i, (a, o) in enumerate(zip(args, t['args'])):
                if o[0] in ('move', 'copy') and not o[1][1] and self.is_mut_ref(fr, o):
                    for _, r in (leaves(a) if a.op == 'ite' else [(TRUE, a)]):
                        if r.op == 'ref':
                            cur = self.read(r.a[0], r.a[1], st)
                            if is_handle(cur):
                                self.emit('mutate', cur, mk('str', name), *pargs[1:], st=st)
        self.havoc(args, name, pargs, st, fn)
        return v

    def is_mut_ref(self, fr, o):
        return fr is None or fr.body['locals'][o[1][0]][0][0] == '&mut'

    def havoc(self, args, name, pargs, st, fn=None):
        for i, a in enumerate(args):
            refs = [a] if a.op == 'ref' else [l for _, l in leaves(a)] if a.op == 'ite' else []
            for r in refs:
                if r.op != 'ref':
                    continue
                cur = self.read(r.a[0], r.a[1], st)
                if is_handle(cur):
                    self.bump(cur, st)
                    continue
                self.havoc_val(r.a[0], r.a[1], cur, name, i, pargs, st)

    def havoc_val(self, root, path, cur, name, i, pargs, st):
        if cur.op == 'agg' and any(is_handle(x) for x in cur.a[3:]):
            for nme, x in zip(cur.a[2], cur.a[3:]):
                if not is_handle(x):
                    self.write(root, path + (('f', nme),), mk('out', name, i, x, *pargs), st)
                else:
                    self.bump(x, st)
            return
        if root[0] == 'm':
            return
        if is_iter(cur) or cur.op == 'clo':
            return
        self.write(root, path, mk('out', name, i, *pargs), st)

    # ------------------------------------------------------------ objects
    def new_obj(self, kind, site, st):
        if self.parts and getattr(self, 'emission', False):
            site = tuple(site) + (('part',) + self.parts,)
        o = mk('obj', site, kind)
        self.objinfo[o] = kind
        st.v[('ver', o)] = cint(0)
        return o

    def ver(self, o, st):
        return st.v.get(('ver', o), cint(0))

    def bump(self, o, st):
        k = ('ver', o)
        st.v[k] = mk('v+', st.v.get(k, cint(0)), self.spankey())

    def spankey(self):
        return str(self.cur_span)

    def target(self, recv, st, site, kind='coll'):
        """the collection designated by a &mut receiver; creates an object for owned plain values"""
        if recv.op == 'ite':
            return map_leaves(recv, lambda r: self.target(r, st, site, kind))
        if recv.op == 'ref':
            v = self.read(recv.a[0], recv.a[1], st)
            if v.op == 'ref':
                return self.target(v, st, site, kind)
            if v.op == 'obj' or recv.a[0][0] == 'm':
                return v
            if v.op == 'ite':
                return map_leaves(v, lambda x: x)
            if v.op in ('fld', 'pay', 'elem', 'mapval', 'p', 'at', 'such', 'such1') and False:
                return v
            o = self.new_obj(kind, ('own',) + tuple(site), st)
            self.emit('init', o, v, st=st)
            self.write(recv.a[0], recv.a[1], o, st)
            return o
        return recv

    def versioned(self, op, coll, st, *rest):
        v = st.v.get(('ver', coll))
        if v is None or v is cint(0):
            return mk(op, coll, *rest)
        return mk(op, coll, *rest, mk('at_ver', v))


def upd_fields(v, start):
    """names of the fields in which v differs from start, when v is built from start by field updates"""
    if v is start:
        return []
    if start.op == 'upd':
        r = upd_fields(v, start.a[0])
        return None if r is None else sorted(set(r + [start.a[1]]))
    if v.op == 'upd':
        base = upd_fields(v.a[0], start)
        return None if base is None else base + [v.a[1]]
    if v.op == 'ite':
        out = []
        for _, l in leaves(v):
            r = upd_fields(l, start)
            if r is None:
                return None
            out += r
        return sorted(set(out))
    return None


def is_handle(t):
    return t.op == 'obj'


def is_iter(t):
    return t.op in ITER_OPS


def is_once(t):
    return t.op == 'ionce' or t.op == 'ieff' and not t.a[0]


def is_numeric_init(t):
    return t.op in ('c', 'lin', 'len') or True


def flatten_chain(t):
    if t.op == 'ichain':
        return flatten_chain(t.a[0]) + flatten_chain(t.a[1])
    return [t]


def json_key(f):
    return (('json', json.dumps(f, sort_keys=True)),)


def hoist(t):
    """move guarded subterms of constructors to the top"""
    if t.op == 'ite':
        return map_leaves(t, hoist)
    if t.op in ('agg', 'tup', 'list', 'fmt'):
        if not any(isinstance(x, T) and contains_ite_shallow(x) for x in t.a):
            return t
        n = 0
        res = [((), TRUE)]

        def build(i, acc):
            if i == len(t.a):
                return REMAKE['fmt'](*acc) if t.op == 'fmt' else mk(t.op, *acc)
            x = t.a[i]
            if isinstance(x, T):
                hx = hoist(x)
                if hx.op == 'ite':
                    return map_leaves(hx, lambda l: build(i + 1, acc + [l]))
                return build(i + 1, acc + [hx])
            return build(i + 1, acc + [x])
        return build(0, [])
    return t


def contains_ite_shallow(x):
    if x.op == 'ite':
        return True
    if x.op in ('agg', 'tup', 'list', 'fmt'):
        return any(isinstance(y, T) and contains_ite_shallow(y) for y in x.a)
    return False


def assume_guard(g, lit, val):
    """g under the assumption that the single-atom guard lit has value val"""
    if lit.op != 'ite':
        return g
    at = lit.a[0]
    i = 0 if (lit.a[1] is TRUE) == val else 1
    return assume(g, at, i)


def replace_guard(g, pairs):
    for cond, new in pairs:
        if cond.op != 'ite':
            continue
        at = cond.a[0]
        positive = cond.a[1] is TRUE
        if at not in atoms_of(g):
            continue
        hi = assume(g, at, 0 if positive else 1)
        lo = assume(g, at, 1 if positive else 0)
        g = gite(new, hi, lo)
    return g


def leave_loop(v, moreg, val, sub):
    if moreg is not None and v.op == 'ite':
        v = assume_guard(v, moreg, val)
    if sub and contains_op(v, lambda t: t in sub):
        v = subst(v, lambda t: sub.get(t))
    return v


def exists_term(L, cond):
    """guard: some iteration satisfies cond"""
    if cond is FALSE:
        return FALSE
    gens = tuple(L.gens)
    if len(gens) == 1 and gens[0].op == 'elem':
        g = gens[0]
        # cond is independent of the element: nonempty & cond
        if not contains_op(cond, lambda t: t is g or (t.op in ('idx', 'elem') and (t.a[0] is g.a[0] or t.a[1] == g.a[1])) or (t.op == 'mu' and t.a[0] is L.uid)):
            return g_and(cond, bool_atom(mk('nonempty', g.a[0])))
        if cond.op == 'ite' and cond.a[1] is TRUE and cond.a[2] is FALSE and cond.a[0].a[0].op == 'eq':
            e = cond.a[0].a[0]
            for x, y in ((e.a[0], e.a[1]), (e.a[1], e.a[0])):
                if x is g and not contains_op(y, lambda t: t is g):
                    return bool_atom(mk('contains', g.a[0], y))
        # a necessary condition that does not depend on the element
        for at in atoms_of(cond):
            if at.a[1] != BOOLD or contains_op(at, lambda t: t.op in ('idx', 'elem') and (t.a[0] is g.a[0] or t.a[1] == g.a[1]) or t.op in ('mu', 'more', 'ver', 'obj')):
                continue
            for v in (True, False):
                a = bool_atom(at.a[0])
                if assume_guard(cond, a, not v) is FALSE:
                    return g_and(a if v else g_not(a), exists_term(L, assume_guard(cond, a, v)))
    return bool_atom(mk('exists', gens, cond))


class CFG:
    def __init__(self, body):
        self.body = body
        bl = body['blocks']
        n = len(bl)
        self.succ = [[] for _ in range(n)]
        for i, b in enumerate(bl):
            if b['cleanup']:
                continue
            t = b['t']
            k = t['k']
            if k in ('goto', 'drop', 'assert'):
                self.succ[i] = [t['to']]
            elif k == 'switch':
                self.succ[i] = list(dict.fromkeys([x[1] for x in t['targets']] + [t['otherwise']]))
            elif k == 'call':
                self.succ[i] = [t['to']] if t['to'] is not None else []
        # reachability, RPO
        seen = set()
        order = []

        def dfs(r):
            stack = [(r, iter(self.succ[r]))]
            seen.add(r)
            while stack:
                u, it = stack[-1]
                for v in it:
                    if v not in seen:
                        seen.add(v)
                        stack.append((v, iter(self.succ[v])))
                        break
                else:
                    order.append(u)
                    stack.pop()
        dfs(0)
        order.reverse()
        self.rpo = order
        num = {b: i for i, b in enumerate(order)}
        self.pred = {b: [] for b in order}
        for u in order:
            for v in self.succ[u]:
                self.pred[v].append(u)
        # dominators
        idom = {0: 0}
        changed = True
        while changed:
            changed = False
            for b in order[1:]:
                new = None
                for p in self.pred[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while num[x] > num[y]:
                                    x = idom[x]
                                while num[y] > num[x]:
                                    y = idom[y]
                            new = x
                if idom.get(b) != new:
                    idom[b] = new
                    changed = True
        self.idom = idom

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = idom[b]
        self.dom = dom
        loops = {}
        for u in order:
            for v in self.succ[u]:
                if num[v] <= num[u]:
                    if not dom(v, u):
                        raise Exception('irreducible')
                    loops.setdefault(v, set()).add(u)
        self.loops = {}
        for h, tails in loops.items():
            mem = {h}
            work = list(tails)
            while work:
                x = work.pop()
                if x not in mem:
                    mem.add(x)
                    work.extend(self.pred[x])
            self.loops[h] = mem
        self.num = num
        self.root = {'order': self.build(None, set(order)), 'members': set(order)}
        self.root['order'] = self.build(None, set(order))

    def build(self, header, members):
        inner = [h for h in self.loops if h in members and h != header]
        # maximal inner loops
        top = []
        for h in inner:
            if not any(h2 != h and h in self.loops[h2] for h2 in inner):
                top.append(h)
        covered = set()
        items = []
        topset = {h: self.loops[h] for h in top}
        for h in top:
            covered |= self.loops[h]
        for b in self.rpo:
            if b not in members:
                continue
            if b in topset:
                mem = topset[b]
                it = {'header': b, 'members': mem, 'order': self.build(b, mem)}
                it['next_locals'], it['assigned'] = self.scan(mem)
                items.append(it)
            elif b in covered:
                continue
            else:
                items.append(b)
        # order items topologically: blocks after a loop must come after it. RPO of header is enough
        # except for exit blocks that precede in RPO; sort with a dependency pass
        return self.topo(items, members, header)

    def topo(self, items, members, header):
        rep = {}
        for i, it in enumerate(items):
            if isinstance(it, dict):
                for b in it['members']:
                    rep[b] = i
            else:
                rep[it] = i
        succ = {i: set() for i in range(len(items))}
        indeg = {i: 0 for i in range(len(items))}
        for b in members:
            for v in self.succ[b]:
                if v in members and v != header and rep[v] != rep[b]:
                    if rep[v] not in succ[rep[b]]:
                        succ[rep[b]].add(rep[v])
                        indeg[rep[v]] += 1
        ready = sorted(i for i in indeg if indeg[i] == 0)
        out = []
        while ready:
            i = ready.pop(0)
            out.append(items[i])
            for j in sorted(succ[i]):
                indeg[j] -= 1
                if indeg[j] == 0:
                    ready.append(j)
                    ready.sort()
        assert len(out) == len(items), 'topo'
        return out

    def scan(self, mem):
        nexts = []
        assigned = set()
        refs = {}
        bl = self.body['blocks']
        for b in mem:
            for s in bl[b]['s']:
                if s[0] == '=':
                    if s[1][1] == [] or '*' not in s[1][1]:
                        assigned.add(s[1][0])
                    if s[2][0] in ('ref', 'reborrow') and s[2][1] == 'mut':
                        refs[s[1][0]] = s[2][2]
        for b in self.rpo:
            if b not in mem:
                continue
            t = bl[b]['t']
            if t['k'] == 'call':
                if t['dest'][1] == []:
                    assigned.add(t['dest'][0])
                f = t['func']
                if f[0] == 'const' and 'fn' in f[1] and f[1]['fn']['name'] == 'core::Iterator::next':
                    a = t['args'][0]
                    if a[0] in ('copy', 'move'):
                        l = a[1][0]
                        while l in refs:
                            l = refs[l][0]
                        nexts.append(l)
        return nexts, assigned
