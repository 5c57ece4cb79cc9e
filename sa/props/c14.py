"""Visitors of generated parsers. From the emission trees of all generators the loops that declare visitor functions and the loops that call them are singled out
and compared, each with the naming scheme: which production gets which name is the same term (nonterminal, number of alternatives, tag or position) on both sides,
one declaration per production, one call per production, under the maps that number the productions. The fixed visitor functions (shift, token) are compared by
name and number of arguments over the literal text. Distinctness of names: the naming patterns are intersected pairwise as regular languages."""
import re
from ..term import *
from ..emit import Tpl, Cmp, Mismatch, flat_text
from . import c10, c11, c12, c13
RULES = ['one declaration and one call per production (LR, GLR) or nonterminal (LL), both named by the same function of the production', 'calls and declarations of fixed functions agree in name and number of arguments',
         'alternatives are told apart by tag or position; a nonterminal with one production has no suffix', 'no two naming patterns produce the same name']
FLOORS = {'visitor_loops': 10, 'fixed_calls': 4}
WORDS = re.compile(r'(reduce_|enter_|exit_)')
NAME = '[a-zA-Z][a-zA-Z0-9_]*'


def loops(seq, code):
    """the outermost loops that mention a visitor function"""
    out = []
    for it in seq:
        k = it[1] if code else it[0]
        if k == 'loop':
            if any(WORDS.match(t) for t in flat_text([it], code)):
                out.append(it)
        elif k == 'if' and not code:
            for _, b in it[1]:
                out.extend(loops(b, code))
    return out


def part(ctx, em, fname, texts, assume, binds):
    seq = em.file(fname)
    if seq is None:
        return ctx.violation(fname, '%s no longer generates the file %s' % (em.body['name'], fname))
    c = Cmp(em, assume)
    seq = c.assumed_seq(seq, {**c.m.b0, **binds})
    cl = loops(seq, True)
    for n, t in enumerate(texts):
        tp = Tpl(t)
        tl = loops(tp.items, False)
    want = len(tl)
    who = '%s, file %s' % (em.body['name'], fname)
    if not ctx.require(len(cl) == want, fname + '/loops', '%s: %d places declare or call visitor functions for all productions, expected %d' % (who, len(cl), want)):
        return
    for i in range(want):
        worst = None
        for t in texts:
            tp = Tpl(t)
            it = loops(tp.items, False)[i]
            c = Cmp(em, assume)
            c.m.b0.update(binds)
            ct, tt = flat_text(seq, True), flat_text(tp.items, False)
            tp.items = [it]
            try:
                b = c.run([cl[i]], tp)
                binds.update({k: b[k] for k in ('by', 'ix') if k in b})
                n = c.tokens + c.holes + c.loops
                for k, v in (('obligations', n), ('discharged', n), ('visitor_loops', 1), ('naming_cases', c.branches)):
                    ctx.count(k, v)
                worst = None
                break
            except Mismatch as e:
                worst = str(e)
        if worst:
            ctx.violation('%s/%d' % (fname, i), '%s, visitor functions, place %d: %s' % (who, i + 1, worst))
    fixed(ctx, who, fname, seq)


def args(toks, i):
    """number of arguments of the parenthesis that opens at i"""
    d, n, some, a = 0, 0, False, 0
    for j in range(i, len(toks)):
        t = toks[j]
        if t in '([{':
            d += 1
        elif t in ')]}':
            d -= 1
            if d == 0:
                return n + some, j
        elif t == '<':
            a += 1
        elif t == '>' and toks[j - 1] != '-':
            a = max(0, a - 1)
        elif t == ',' and d == 1 and not a:
            n += some
            some = False
            continue
        if d:
            some = some or j > i
    return n + some, len(toks)


def fixed(ctx, who, fname, seq):
    """literal visitor functions"""
    toks = flat_text(seq, True)
    decl, call = ctx.fx.setdefault(who.split(',')[0], ({}, {}))
    vis = [i for i, t in enumerate(toks) if t == 'Visitor']
    for i, t in enumerate(toks[:-1]):
        if toks[i + 1] != '(' or not re.match(r'[a-z]\w*$', t) or WORDS.match(t):
            continue
        p = toks[i - 1]
        if p == 'fn' and toks[i + 2:i + 5] == ['&', 'mut', 'self'] and in_trait(toks, i) or p == 'void' and toks[i - 2] == 'virtual':
            n, _ = args(toks, i + 1)
            decl[t] = n - (p == 'fn')
        elif p == '.' and toks[i - 2] == 'visitor':
            call.setdefault(t, set()).add(args(toks, i + 1)[0])


def in_trait(toks, i):
    d = 0
    for j in range(i, 0, -1):
        if toks[j] == '}':
            d += 1
        elif toks[j] == '{':
            d -= 1
            if d < 0:
                while j > 0 and toks[j] not in (';', '}'):
                    if toks[j] == 'trait':
                        return True
                    j -= 1
                return False
    return False


PATTERNS = {  # naming patterns of the visitor functions, as regular languages over (literal, class) pieces; confirmed by the comparisons of part()
    'rust': [('reduce_NAME', 'reduce_(%s)' % NAME), ('reduce_NAME_TAG', 'reduce_(%s)_(%s)' % (NAME, NAME)), ('reduce_NAME_NUMBER', 'reduce_(%s)_([1-9][0-9]*)' % NAME),
             ('reduce_anonNUMBER', 'reduce_anon([0-9]+)'), ('reduce_anonNUMBER_NUMBER', 'reduce_anon([0-9]+)_([1-9][0-9]*)')],
    'cpp': [('reduce_NAME', 'reduce_(%s)' % NAME), ('reduce_NAME_NUMBER', 'reduce_(%s)_([1-9][0-9]*)' % NAME),
            ('reduce_anonNUMBER', 'reduce_anon([0-9]+)'), ('reduce_anonNUMBER_NUMBER', 'reduce_anon([0-9]+)_([1-9][0-9]*)')],
    'll': [('enter_NAME', 'enter_(%s)' % NAME), ('exit_NAME', 'exit_(%s)' % NAME)]}


def nfa(rx):
    """epsilon-free description of these patterns: list of (set of chars, star) steps"""
    out = []
    i = 0
    while i < len(rx):
        ch = rx[i]
        if ch in '()':
            i += 1
        elif ch == '[':
            j = rx.index(']', i)
            s = set()
            b = rx[i + 1:j]
            k = 0
            while k < len(b):
                if k + 2 < len(b) and b[k + 1] == '-':
                    s |= {chr(c) for c in range(ord(b[k]), ord(b[k + 2]) + 1)}
                    k += 3
                else:
                    s.add(b[k])
                    k += 1
            i = j + 1
            if i < len(rx) and rx[i] in '*+':
                if rx[i] == '+':
                    out.append((frozenset(s), False))
                out.append((frozenset(s), True))
                i += 1
            else:
                out.append((frozenset(s), False))
        else:
            out.append((frozenset(ch), False))
            i += 1
    return out


def overlap(p, q):
    """a common word of two patterns, or None"""
    p, q = nfa(p), nfa(q)
    seen, work = {(0, 0): ''}, [(0, 0)]

    def eps(x, n):
        r = [n]
        while n < len(x) and x[n][1]:
            n += 1
            r.append(n)
        return r
    while work:
        i, j = work.pop(0)
        w = seen[i, j]
        if len(p) in eps(p, i) and len(q) in eps(q, j):
            return w
        for a in eps(p, i):
            for b in eps(q, j):
                if a == len(p) or b == len(q):
                    continue
                s = p[a][0] & q[b][0]
                if s:
                    t = (a if p[a][1] else a + 1, b if q[b][1] else b + 1)
                    if t not in seen:
                        seen[t] = w + min(s)
                        work.append(t)
    return None


def distinct(ctx):
    for fam, ps in PATTERNS.items():
        for i, (n, p) in enumerate(ps):
            x = nfa(p)
            two = [k for k, (cs, st) in enumerate(x) if st and len(cs) > 1]
            # two variable parts, separated by a character both may contain: x_y_z is both x_y / z and x / y_z
            amb = len(two) > 1 and all('_' in x[k][0] for k in two)
            ctx.require(not amb, 'ambiguous/%s/%s/%s' % (fam, n, n), 'two visitor functions can get the same name: %s is produced by a_b with c and by a with b_c' % n)
            for m, q in ps[i + 1:]:
                w = overlap(p, q)
                ctx.require(w is None, 'ambiguous/%s/%s/%s' % (fam, n, m), 'two visitor functions can get the same name: %s and %s both produce, for instance, %s' % (n, m, w))


def run(ctx):
    ctx.fx = {}
    for f, opq, files, assume, vs in (
            (c10.R, c10.OPAQUE, ('parser.rs',), c10.KINDS + c10.ONE + c10.FILLED, lambda f: ctx.tpl('rust_lr_parser.rs')),
            (c13.F, c13.OPAQUE, ('parser.rs',), c13.KINDS + c13.FILLED, lambda f: ctx.tpl('rust_glr_parser.rs')),
            (c11.F, ('state_has_shift',), ('visitor.h', 'parser_impl.h'), c11.KINDS + c11.ONE + c11.FILLED + c11.MORE, lambda f: ctx.tpl('cpp_lr_' + f)),
            (c12.F, (), ('visitor.h', 'parser_impl.h'), c12.ASSUME, lambda f: ctx.tpl('cpp_ll_' + f))):
        em = ctx.emission(f, opq)
        if em is None:
            continue
        binds = {}
        for fl in files:
            part(ctx, em, fl, vs(fl), assume, binds)
        if binds:
            ctx.spec(em.summ, 'numbering', c10.MAPS, watch=['by', 'ix'], assume=assume, binds=binds, ignore=[('by', 'putnew')])
    for who, (decl, call) in ctx.fx.items():
        for n, ks in call.items():
            ctx.count('fixed_calls')
            ctx.require(n in decl and ks == {decl[n]}, who + '/' + n, '%s: the generated parser calls visitor function %s with %s arguments, the visitor declares %s' % (who, n, sorted(ks), decl.get(n, 'no such function')))
    distinct(ctx)
