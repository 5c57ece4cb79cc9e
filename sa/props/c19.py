"""Numbering never wraps. Over the MIR of the whole workspace: every conversion between number types keeps every value (widening, checked, or dominated by a range test); no
arithmetic of a number type under 32 bits is unchecked; results of checked operations are never replaced by a default. The functions that hand out symbol numbers are
summarised: tokens, productions and fresh nonterminals get their position, or position plus offset, only if it fits, and an error otherwise; a panic on a checked operation
is shown unreachable by the tests before it. Number types in generated code are at least 32 bits wide unless they number a fixed list of constants."""
import re
from .. import cg
from ..term import *
from ..engine import *
TECHNIQUE = 'static analysis: numeric-conversion and arithmetic rules over rustc MIR (dominance, def-use), value-flow summaries of the numbering functions, type rule over emitted text'
RULES = ['no numeric cast of the workspace can lose a value', 'arithmetic under 32 bits is checked; 32-bit counters only grow by constants or sums, not products',
         'no default replaces the result of a failed conversion or checked operation', 'no wrapping, saturating, overflowing or unchecked arithmetic',
         'symbol numbers are positions that fit, and TooManyRules otherwise', 'panics on checked operations are unreachable',
         'number types in generated code are 32 bits or wider, or number a fixed list']
FLOORS = {'casts': 10, 'arithmetic': 10, 'checked_operations': 4, 'emitted_strings': 100, 'functions_checked': 200}
BITS = {'u8': (0, 255), 'u16': (0, 65535), 'u32': (0, 2**32 - 1), 'u64': (0, 2**64 - 1), 'usize': (0, 2**64 - 1), 'u128': (0, 2**128 - 1), 'i8': (-128, 127), 'i16': (-2**15, 2**15 - 1),
        'i32': (-2**31, 2**31 - 1), 'i64': (-2**63, 2**63 - 1), 'isize': (-2**63, 2**63 - 1), 'i128': (-2**127, 2**127 - 1), 'char': (0, 0x10ffff), 'bool': (0, 1)}
NAME = lambda ty: ty[0] if isinstance(ty, list) and ty else ty if isinstance(ty, str) else ''


def width(t):
    r = BITS.get(t)
    return None if r is None else (r[1] - r[0]).bit_length()


def opval(o):
    """integer value of a constant operand"""
    if o[0] == 'const' and isinstance(o[1], dict):
        if 'char' in o[1] and isinstance(o[1]['char'], int):
            return o[1]['char']
        for k in ('int',):
            v = o[1].get(k)
            if isinstance(v, bool):
                return int(v)
            if isinstance(v, int):
                return v
            if isinstance(v, str) and re.fullmatch(r'-?\d+', v):
                return int(v)
    return None


class Body:
    """definitions, copies and dominating comparisons of one function body"""
    def __init__(self, b):
        self.b = b
        self.defs = {}
        for i, bb in enumerate(b['blocks']):
            for s in bb['s']:
                if s[0] == '=' and not s[1][1]:
                    self.defs.setdefault(s[1][0], []).append((i, s[2]))
            t = bb['t']
            if t.get('k') == 'call' and not t['dest'][1]:
                self.defs.setdefault(t['dest'][0], []).append((i, ['call', t]))

    def succ(self, i):
        t = self.b['blocks'][i]['t']
        out = []
        for k in ('to', 'otherwise'):
            if isinstance(t.get(k), int):
                out.append(t[k])
        for x in t.get('targets', []) if t.get('k') == 'switch' else []:
            out.append(x[1])
        return out

    def reach(self, start, goal, cut):
        """can goal be reached from start without the edge cut?"""
        seen, todo = {start}, [start]
        while todo:
            i = todo.pop()
            if i == goal:
                return True
            for j in self.succ(i):
                if (i, j) != cut and j not in seen:
                    seen.add(j)
                    todo.append(j)
        return False

    def origin(self, o, n=0):
        """the local or place an operand copies, as a comparable key"""
        if o[0] not in ('move', 'copy') or n > 20:
            return None
        l, proj = o[1][0], o[1][1]
        if not proj and len(self.defs.get(l, [])) == 1:
            rv = self.defs[l][0][1]
            if rv[0] == 'use':
                r = self.origin(rv[1], n + 1)
                if r is not None:
                    return r
        return str((l, proj))

    def definition(self, o, n=0):
        if o[0] in ('move', 'copy') and not o[1][1] and len(self.defs.get(o[1][0], [])) == 1 and n < 20:
            rv = self.defs[o[1][0]][0][1]
            return self.definition(rv[1], n + 1) if rv[0] == 'use' and rv[1][0] in ('move', 'copy') and not rv[1][1][1] else rv
        return None

    def constant(self, o):
        v = opval(o)
        d = self.definition(o) if v is None else None
        return opval(d[2]) if d is not None and d[0] == 'cast' and d[1] == 'IntToInt' else opval(d[1]) if d is not None and d[0] == 'use' else v

    def size(self, o):
        """a length, count, index or sum of such: below 2**31, since every element takes at least a byte (and no product)"""
        d = self.definition(o)
        return d is None or not (d[0] == 'bin' and str(d[1])[:3] in ('Mul', 'Shl') or d[0] == 'call' and (cg.callee(d[1]) or {'name': '?'})['name'].split('::')[-1] in ('parse', 'pow', 'from_str', 'from_str_radix', '?'))

    def bounded(self, o, lo, hi, at):
        """is the operand known to lie in lo..=hi in block at?"""
        v = opval(o)
        if v is not None:
            return lo <= v <= hi
        d = self.definition(o)
        if d is not None:
            if d[0] == 'discr':
                return True
            if d[0] == 'bin':
                c = opval(d[3])
                if d[1] == 'BitAnd' and any(k is not None and 0 <= k <= hi for k in (c, opval(d[2]))):
                    return True
                if d[1] == 'Rem' and c is not None and 0 < c <= hi + 1 and lo <= 0:
                    return True
            if d[0] == 'call':
                f = cg.callee(d[1])
                if f and f['name'].split('::')[-1] == 'min' and any((opval(a) or hi + 1) <= hi for a in d[1]['args']):
                    return True
        me = self.origin(o)
        if me is None or lo > 0:
            return False
        for i, bb in enumerate(self.b['blocks']):
            t = bb['t']
            if t.get('k') != 'switch':
                continue
            c = self.definition(t['op'])
            if c is None or c[0] != 'bin':
                continue
            op, x, y = c[1], c[2], c[3]
            kx, ky = self.constant(x), self.constant(y)
            if ky is not None and self.origin(x) == me:
                k = ky
            elif kx is not None and self.origin(y) == me:
                k, op = kx, {'Lt': 'Gt', 'Gt': 'Lt', 'Le': 'Ge', 'Ge': 'Le'}.get(op, op)
            else:
                continue
            good = {'Le': (1, k), 'Lt': (1, k - 1), 'Gt': (0, k), 'Ge': (0, k - 1), 'Eq': (1, k), 'Ne': (0, k)}.get(op)
            if good is None or good[1] > hi:
                continue
            zero = [x[1] for x in t['targets'] if str(x[0]) == '0']
            edge = (i, zero[0] if good[0] == 0 and zero else t['otherwise'])
            if edge[1] is not None and edge[1] != (zero[0] if good[0] == 1 and zero else t['otherwise']) and not self.reach(0, at, edge):
                return True
        return False


def conversions(ctx):
    seen = set()
    for b in ctx.prog.bodies.values():
        B = None
        ctx.count('functions_checked')
        for i, bb in enumerate(b['blocks']):
            if bb.get('cleanup'):
                continue
            for s in bb['s']:
                if s[0] != '=':
                    continue
                rv = s[2]
                where = '%s (%s)' % (b['name'], ':'.join(str(x) for x in s[-1][:2]))
                if rv[0] == 'cast':
                    to, fr = NAME(rv[3]), NAME(rv[4]) if len(rv) > 4 else ''
                    if rv[1] in ('FloatToInt', 'IntToFloat'):
                        ctx.violation('cast/%s' % b['name'], '%s converts between a floating point and an integer number' % where)
                    if rv[1] != 'IntToInt':
                        continue
                    ctx.count('casts')
                    if fr not in BITS or to not in BITS:
                        if to in BITS and width(to) >= 32 or to not in BITS:
                            continue
                        fr = 'isize'
                    if BITS[to][0] <= BITS[fr][0] and BITS[fr][1] <= BITS[to][1]:
                        continue
                    B = B or Body(b)
                    if fr == 'usize' and width(to) >= 31 and B.size(rv[2]):
                        ctx.count('sizes_in_32_bits')
                        continue
                    if not B.bounded(rv[2], BITS[to][0], BITS[to][1], i):
                        ctx.violation('cast/%s/%s/%s' % (b['name'], fr, to), '%s casts %s to %s: larger values are cut off, so two different numbers can become one' % (where, fr, to))
                elif rv[0] in ('bin', 'cbin') and re.match(r'Add|Sub|Mul|Shl', str(rv[1])):
                    ty = NAME(rv[4]) if len(rv) > 4 else NAME(b['locals'][s[1][0]][0])
                    if ty not in BITS:
                        continue
                    ctx.count('arithmetic')
                    op = str(rv[1])[:3]
                    if width(ty) < 32 and op in ('Add', 'Mul', 'Shl'):
                        B = B or Body(b)
                        k = opval(rv[3])
                        if not (op == 'Add' and k is not None and k >= 0 and B.bounded(rv[2], 0, BITS[ty][1] - k, i)):
                            ctx.violation('arith/%s/%s' % (b['name'], ty), '%s computes with %s without a check for overflow' % (where, ty))
                    elif width(ty) == 32 and op in ('Mul', 'Shl') and opval(rv[2]) is None:
                        ctx.violation('arith/%s/%s' % (b['name'], ty), '%s multiplies %s without a check for overflow' % (where, ty))
        for i, t in cg.calls(b):
            f = cg.callee(t)
            if not f:
                continue
            call(ctx, b, i, t, f, seen)


def inner(ty):
    """the number type a Result or Option of a conversion carries"""
    if isinstance(ty, list) and ty and ty[0] in ('core::Result', 'core::Option') and len(ty) > 1:
        n = NAME(ty[1])
        if n in BITS and n not in ('bool', 'char'):
            if ty[0] == 'core::Option':
                return n
            e = NAME(ty[2]) if len(ty) > 2 else ''
            return n if 'TryFromInt' in e else None
    return None


DEFAULTS = ('unwrap_or', 'unwrap_or_else', 'unwrap_or_default', 'unwrap_unchecked', 'or', 'or_else')


def call(ctx, b, i, t, f, seen):
    last = f['name'].split('::')[-1]
    own = f['name'].split('::')
    where = '%s (%s)' % (b['name'], ':'.join(str(x) for x in t['span'][:2]))
    ty = own[-2] if len(own) > 1 else ''
    if ty in BITS and re.match(r'wrapping_|overflowing_|unchecked_|saturating_(add|mul|pow)|carrying_|widening_', last) and (width(ty) <= 32):
        ctx.violation('arith/%s/%s' % (b['name'], last), '%s uses %s::%s: a number beyond the type silently becomes another one' % (where, ty, last))
    if ty in BITS and last == 'pow' and width(ty) <= 32:
        ctx.violation('arith/%s/%s' % (b['name'], last), '%s uses %s::%s without a check for overflow' % (where, ty, last))
    if ty in BITS and last.startswith('checked_') or last in ('try_from', 'try_into'):
        ctx.count('checked_operations')
    if last in DEFAULTS + ('ok', 'unwrap', 'expect') and f['name'].startswith('core::') and t['args']:
        a = t['args'][0]
        if a[0] not in ('move', 'copy') or a[1][1]:
            return
        n = inner(b['locals'][a[1][0]][0])
        if n is None:
            return
        if 'Result' in str(b['locals'][a[1][0]][0][0]) or checked(b, a):
            if last in ('unwrap', 'expect') and width(n) <= 16:
                ctx.unwraps.append((b, where))
            if last in DEFAULTS:
                ctx.violation('default/%s' % b['name'], '%s replaces the result of a failed conversion or checked operation by another number (%s)' % (where, last))


def checked(b, a):
    """does this Option come out of a checked_ operation (through and_then, map...)?"""
    B = Body(b)
    for _ in range(8):
        d = B.definition(a)
        if d is None or d[0] != 'call':
            return False
        f = cg.callee(d[1])
        if f is None:
            return False
        last = f['name'].split('::')[-1]
        if last.startswith('checked_'):
            return True
        if last in ('try_into', 'try_from'):
            return True
        if last not in ('and_then', 'map', 'ok', 'filter', 'inspect') or not d[1]['args']:
            return False
        a = d[1]['args'][0]
    return False


P = 'lapex_parser::GrammarBuilder::'


def numbering(ctx):
    """declared symbols: numbered by position, and no builder unless every position fits"""
    S = ctx.summary(P + 'from_rule_set')
    if S is None:
        return
    tok, prod = 'each(RuleSet.token_rules)', 'each(RuleSet.production_rules)'
    ti, pi = ('Symbol::%s{0: oneof(idx(RuleSet.%s, _), as(_, idx(RuleSet.%s, _)))}' % (k, v, v) for k, v in (('Terminal', 'token_rules'), ('NonTerminal', 'production_rules')))
    ctx.spec(S, 'numbers', f"""
        for {tok}: put(?names, {tok}.inner.name, ({ti}, {tok}.span)) if *
        for {tok}: put(?tokens, {ti}, {tok}.inner.name) if *
        for {prod}: put(?names, {prod}.inner.name, ({pi}, {prod}.span)) if *
        for {prod}: put(?prods, {pi}, {prod}.inner.name) if *
        for each(?names): put(?symbols, each(?names).0, each(?names).1.0) if *
        return(Result::Ok{{0: GrammarBuilder{{temp_count: 0, symbols: ?symbols, max_symbol: _, anonymous_non_terminals: _, tokens: ?tokens, productions: ?prods, rule_set: RuleSet, rules: _}}}}) if *
        return(Result::Err{{0: _}}) if *
    """, watch=['names', 'tokens', 'prods', 'symbols', 'return', '-stop'])
    both = (tok, 'token_rules'), (prod, 'production_rules')
    for (x, v), (y, w) in (both, both[::-1]):
        if not mentioned(S, v):
            continue        # a position that was compared before it was cast: see the rule about casts
        bad = 'exists(%s, not(fits(_, idx(RuleSet.%s, _))))' % (x, v)
        ctx.spec(S, 'rejects/' + v, f"""
            return(Result::Ok{{0: _}}) if !{bad}
            return(Result::Err{{0: _}}) if {bad}
        """, watch=['return', '-stop'], given_=['!contains(_, %s.inner.name)' % z for z in (x, y)] + ['fits(_, idx(RuleSet.%s, _))' % w, '!pos(idx(RuleSet.%s, _) - 65535)' % w])


def mentioned(s, field):
    """is a position in this list of rules converted with a check?"""
    return any(contains_op(a, lambda x: x.op == 'fits' and contains_op(x, lambda y: y.op == 'fld' and y.a[-1] == field, {}), {}) for e in s.effects for a in (*e.args, e.guard) if isinstance(a, T))


def unreachable(g):
    """is this guard false because a bigger sum of the same unsigned numbers fits?"""
    fits = [at for at in atoms_of(g) if at.a[1] == BOOLD and at.a[0].op == 'fits']
    for small in fits:
        for big in fits:
            if small is big or small.a[0].a[0] != big.a[0].a[0] or not str(small.a[0].a[0]).startswith('u'):
                continue
            c, parts = lin_parts(add(big.a[0].a[1], small.a[0].a[1], -1))
            if c >= 0 and all(v > 0 for v in parts.values()):
                g = g_and(g, g_not(g_and(bool_atom(big.a[0]), g_not(bool_atom(small.a[0])))))
    return g is FALSE


def root(ctx, b):
    """the named function a closure belongs to"""
    n = b['name']
    while '::{closure' in n:
        n = n[:n.rindex('::{closure')]
    return n


def panics(ctx):
    for b, where in ctx.unwraps:
        name = root(ctx, b)
        s = ctx.summary(name)
        if s is None:
            continue
        ctx.count('panics_on_checked_operations')
        line = int(where.rsplit(':', 1)[1].rstrip(')'))
        hit = [e for e in s.effects if e.kind == 'panic' and e.span and e.span[1] == line]
        if not hit or not all(unreachable(e.guard) for e in hit):
            ctx.violation('panic/%s' % name, '%s ends in a panic when the number does not fit, instead of an error' % where)


WORDS = {'cpp': re.compile(r'\b(?:u?int(?:_fast|_least)?(?:8|16)_t|short|(?:un)?signed\s+char)\b'), 'rust': re.compile(r'^[iu](?:8|16)$')}
ENUM = re.compile(r'enum\s+(?:class\s+|struct\s+)?(\w+)\s*:\s*([\w:\s]+?)\s*\{([^{}]*)\}', re.S)
BYTES = re.compile(r'\(\s*(?:std::)?(?:uint8_t|unsigned char)\s*\*\s*\)|\b(?:std::)?(?:uint8_t|unsigned char)\s*\*\s*\w+')


def strings(b):
    """string constants of a body"""
    def walk(x):
        if isinstance(x, dict):
            if isinstance(x.get('str'), str):
                yield x['str']
            for v in x.values():
                yield from walk(v)
        elif isinstance(x, list):
            for v in x:
                yield from walk(v)
    yield from walk(b['blocks'])


def emitted(ctx):
    """number types in generated code"""
    for b in ctx.prog.bodies.values():
        m = re.search(r'lapex_(cpp|rust)_codegen', b['name'])
        if not m:
            continue
        for text in strings(b):
            ctx.count('emitted_strings')
            rest = text
            if m.group(1) == 'cpp':
                for e in ENUM.finditer(text):
                    if WORDS['cpp'].search(e.group(2)):
                        items = [x for x in e.group(3).split(',') if x.strip()]
                        if '/*{' in e.group(3) or len(items) > 128:
                            ctx.violation('emitted/%s/%s' % (b['name'], e.group(1)), '%s emits the enumeration %s with the number type %s: one constant per symbol, rule or state does not fit' % (b['name'], e.group(1), e.group(2)))
                        ctx.count('emitted_enums')
                        rest = rest.replace(e.group(0), '')
                rest = BYTES.sub('', rest)
            for w in WORDS[m.group(1)].findall(rest):
                ctx.violation('emitted/%s/%s' % (b['name'], w), '%s emits code with the number type %s: numbers of symbols, rules or states above its range wrap around' % (b['name'], w))


def run(ctx):
    ctx.unwraps = []
    conversions(ctx)
    numbering(ctx)
    panics(ctx)
    emitted(ctx)
