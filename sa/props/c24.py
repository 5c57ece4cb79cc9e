"""Names of tokens and nonterminals in generated code. In the emissions of all generators every value glued to an identifier of the Tk/TK_ or Nt/NT_ family is singled out, and
the way it is made from the rule's name or the symbol's number is classified: unchanged, in capitals, in upper camel case (the conversion is summarised and compared with its
specification: nothing of the name but letter case and underscores is lost, and it is total on the names the input language allows), or the whole number. Anything else may
merge names. Ways that do merge names, ways whose results overlap, and fixed identifiers in the same family are reported one by one."""
import re
from ..term import *
from ..emit import type_is_str
from . import c10, c11, c12, c13
TECHNIQUE = 'static analysis: abstract interpretation of the generators (emission trees), classification of every name-forming value'
RULES = ['identifiers are made from the whole name or the whole number of their symbol', 'upper camel case loses only letter case and underscores and is total', 'every token and nonterminal is called by the identifier of its family',
         'no two families and no fixed identifier share a name']
FLOORS = {'name_values': 40, 'families': 6}
R = '<lapex_rust_codegen::RustLexerCodeGen as lapex_lexer::LexerCodeGen>::'
C = '<lapex_cpp_codegen::CppLexerCodeGen as lapex_lexer::LexerCodeGen>::'
CAMEL = 'lapex_rust_codegen::convert_snake_to_upper_camel'
ROOTS = [('rust', x) for x in (R + 'generate_lexer', R + 'generate_tokens', c10.R, c13.F)] + [('cpp', x) for x in (C + 'generate_lexer', C + 'generate_tokens', c11.F, c12.F)]
FAMILY = re.compile(r'(Tk|TK_|Nt|NT_)(?![a-z])[A-Za-z0-9_]*$')
FIXED = re.compile(r'(?<![A-Za-z0-9_])(Tk|TK_|Nt|NT_)([A-Z0-9][A-Za-z0-9_]*)')
PIECE = 'each(split(str, char(95)))'
CAMELS = []
ONE = "op('min', len(%s), 1)" % PIECE
SPLITS = [('split_at(%s, %s).0' % (PIECE, ONE), 'split_at(%s, %s).1' % (PIECE, ONE), '', False), ('split_at(%s, 1).0' % PIECE, 'split_at(%s, 1).1' % PIECE, ' if nonempty(%s)' % PIECE, True),
          ('subslice(%s, Range{start: 0, end: %s})' % (PIECE, ONE), 'subslice(%s, RangeFrom{start: %s})' % (PIECE, ONE), '', False),
          ('subslice(%s, RangeTo{end: %s})' % (PIECE, ONE), 'subslice(%s, RangeFrom{start: %s})' % (PIECE, ONE), '', False),
          ('subslice(%s, RangeTo{end: 1})' % PIECE, 'subslice(%s, RangeFrom{start: 1})' % PIECE, ' if nonempty(%s)' % PIECE, True)]
SPLITS += [('at(chars(%s), 0)' % PIECE, 'core::Chars::as_str(it(skip(chars(%s), 1)))' % PIECE, ' if nonempty(%s)' % c, True) for c in (PIECE, 'chars(%s)' % PIECE)]
for head, tail, cond, empties in SPLITS:
    for up, lo in (('to_ascii_uppercase', 'to_ascii_lowercase'), ('to_uppercase', 'to_lowercase')):
        h, t = '%s(%s)' % (up, head), '%s(%s)' % (lo, tail)
        x = 'for %s: add(?p, fmt(%s, %s))%s' % (PIECE, h, t, cond)
        for more in ([], ["for %s: add(?p, %s) if !%s" % (PIECE, '%s', cond[4:])])[:1 + empties]:
            for e in ("''", '?e')[:1 + len(more)]:
                for r in ("return(join(?p, ''))", 'return(join(?p))'):
                    CAMELS.append([x, r] + [m % e for m in more])
        w = 'for %s: write(?p, %%s)%s' % (PIECE, cond)
        CAMELS.append([w % ('fmt(%s, %s)' % (h, t)), 'return(?p)'])
        CAMELS.append([w % h, w % t, 'return(?p)'])


def is_name(t):
    """the whole name of a rule"""
    if t.op == 'mapval':
        t = t.a[0]
        return t.op == 'fld' and t.a[1] in ('tokens', 'productions')
    if t.op == 'fld':
        b = t.a[0]
        if t.a[1] == '1' and b.op == 'elem' and b.a[0].op == 'fld' and b.a[0].a[1] in ('tokens', 'productions'):
            return True
        return t.a[1] == 'name'
    return False


def is_number(t):
    return t.op in ('pay', 'fld') and str(t.a[-1]) in ('0', 'Some') and not contains_op(t, lambda x: x.op in ('cast', 'op', 'lin'), {}) or t.op == 'pay'


def walk(seq, found, fixed, namers, tail=''):
    for g, k, v in seq:
        if k == 's':
            m = FAMILY.search(v)
            for x in FIXED.finditer(v):
                if not (m and x.start() == m.start()):
                    fixed.add(x.group(0))
            tail = m.group(0) if m else ''
        elif k == 'h':
            if tail or v.op == 'call' and v.a[0] in namers:
                found.append((tail, v))
            tail = ''
        elif k == 'loop':
            walk(v.body, found, fixed, namers)
            tail = ''


class Names:
    def __init__(self, ctx):
        self.ctx = ctx
        self.prog = ctx.prog
        self.namers = {b['name'] for b in ctx.prog.bodies.values() if b['argc'] == 1 and type_is_str(b['locals'][1][0]) and b['locals'][0][0][0] == 'alloc::String'}
        self.memo = {}

    def ways(self, v):
        """[(fixed text in front, how)]"""
        if v.op == 'ite':
            return [w for _, x in leaves(v) if x is not BOT for w in self.ways(x)]
        if v.op == 'fmt' and len(v.a) == 2 and v.a[0].op == 'c' and v.a[0].a[0] == 'str':
            return [(v.a[0].a[1] + p, h) for p, h in self.ways(v.a[1])]
        if is_name(v):
            return [('', 'name')]
        if v.op in ('to_uppercase', 'call') and str(v.a[0]) == 'to_uppercase' and is_name(v.a[1]) or v.op == 'to_uppercase' and is_name(v.a[0]):
            return [('', 'capitals')]
        if v.op == 'call' and v.a[0] in self.namers and is_name(v.a[1]):
            return self.namer(v.a[0])
        if is_number(v):
            return [('', 'number')]
        return [('', 'other')]

    def namer(self, f):
        if f not in self.memo:
            self.memo[f] = [('', 'other')]
            s = self.ctx.summary(f, tuple(n.split('::')[-1] for n in self.namers if n != f))
            r = [e.args[0] for e in s.effects if e.kind == 'return']
            self.ctx.count('naming_functions')
            if len(r) == 1 and r[0].op == 'fmt':
                self.memo[f] = self.ways(subst(r[0], lambda x: NAME if x.op in ('p', 'param') else None, {}))
            else:
                if any(isinstance(a, T) and contains_op(a, lambda t: t.op == 'call' and t.a[0] in self.namers, {}) for e in s.effects for a in e.args):
                    s = self.ctx.summary(f)
                b = self.ctx.spec_any(s, f.split('::')[-1], CAMELS, watch=['return', 'p', '-stop'])
                if b is not None:
                    self.memo[f] = [('', 'camel')]
                    self.ctx.count('camel')
        return self.memo[f]


NAME = mk('fld', mk('sym', 'rule'), 'name')


def run(ctx):
    ways = {}
    names = Names(ctx)
    for lang, root in ROOTS:
        em = ctx.emission(root, ())
        if em is None:
            continue
        for x in em.files:
            f = x.args[0].a[1] if x.args[0].op == 'c' else None
            found, fixed = [], set()
            walk(em.file(f) or (), found, fixed, names.namers)
            for p, v in found:
                ctx.count('name_values')
                for q, how in names.ways(v):
                    ways.setdefault((lang, p + q), {}).setdefault(how, (f, show(v)))
            for x in fixed:
                ways.setdefault((lang, x), {}).setdefault('fixed', (f, x))
    ctx.count('families', len(ways))
    fam = {}
    for (lang, p), hs in sorted(ways.items()):
        who = '%s/%s' % (lang, p)
        for h, (f, v) in sorted(hs.items()):
            ctx.require(h != 'other', 'made/' + who, '%s: an identifier %s... is not made from the whole name or number of its symbol, but from %s' % (f, p, v))
        if len(hs) > 1:
            ctx.violation('ways/' + who, 'identifiers %s... are made in different ways: %s' % (p, ', '.join('%s from %s' % (f, v[:80]) for f, v in hs.values())))
        h = sorted(hs)[0]
        fam[lang, p] = h
        if h in MERGES:
            ctx.violation('merges/%s/%s' % (who, h), '%s (%s)' % (MERGES[h], who))
        else:
            ctx.require(True, 'made/' + who, '')
    for (l, p), h in sorted(fam.items()):
        for (l2, q), h2 in sorted(fam.items()):
            if l == l2 and q != p and q.startswith(p) and h in ('name', 'capitals', 'camel'):
                ctx.violation('overlap/%s/%s/%s' % (l, p, q), 'identifiers %s... (%s) and %s%s can be the same' % (p, h, q, '' if h2 == 'fixed' else '... (%s)' % h2))


MERGES = {'camel': 'names that differ only in letter case or underscores get the same identifier', 'capitals': 'names that differ only in letter case get the same identifier'}
