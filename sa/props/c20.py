"""The reader of rule files. (1) The rule file the reader is generated from (lapex-input-gen/src/lapex.lapex, read here) declares the input language: every token has the language of
the specified regular expression (compared as automata), keywords win over names, and the productions are the specified ones. (2) Every production's visitor function -
found by the naming rule of C14 - is summarised by abstract interpretation; with the values popped as parameters (sa/stackfn.py) it must pop exactly the symbols of
its production and push the specified syntax tree of them. (3) The token source skips exactly blanks and line breaks, and the rules are handed over completely, sorted by kind."""
import copy
import re
from ..term import *
from ..spec import given
from .. import rulefile, stackfn
TECHNIQUE = 'static analysis: automaton comparison for the declared tokens, effect summaries of the visitor functions over MIR compared with obligations per production'
RULES = ['declared tokens have the specified languages, productions are the specified ones', 'each visitor function pops the symbols of its production and pushes their tree', 'names, precedences, tags and '
         'patterns are taken from the symbols that spell them', 'escapes of strings are removed', 'blanks and line breaks are skipped, every other token is kept', 'every rule read is handed over, as its own kind']
FLOORS = {'declared_tokens': 20, 'productions': 27, 'visitor_functions': 32, 'tokens_compared': 20}
CRATE = 'lapex_input_gen'
TOKENS = {'KW_TOKEN': 'token', 'KW_ENTRY': 'entry', 'KW_PROD': 'prod', 'EQUALS': '=', 'SEMI': ';', 'LPAR': r'\(', 'RPAR': r'\)', 'LBRACK': r'\[', 'RBRACK': r'\]', 'DIGIT': '0|[1-9][0-9]*',
          'QUESTION': r'\?', 'NOTHING': '!', 'ASTERISK': r'\*', 'PLUS': r'\+', 'PIPE': r'\|', 'IDENT': '[a-zA-Z][a-zA-Z0-9_]*', 'STRING': r'"([^"\\\n]|\\.)*"', 'REGEX': r'/([^/\\\n]|\\.)*/',
          'WHITESPACE': r'[ \t]+', 'NEWLINE': r'\n'}
NL = r'\\.'  # in strings and patterns an escaped line break may be accepted or not
SKIPPED = ['WHITESPACE', 'NEWLINE']
ANY = 'Spanned{span: _, inner: %s}'
PAT = 'Ast::Pattern{0: ProductionPattern::%s}'
UN = PAT % '%s{inner: S1.inner!Pattern}'


def one(t):
    return [['add(self.stack, Spanned{span: _, inner: %s})' % t]]


def both(nm):
    """the element is joined to the elements of the rest: those of the rest's own list, or the rest itself as only element"""
    at = {'Sequence': 1, 'Alternative': 2}[nm]
    put = {'Sequence': 'insertat(%%s, 0, S%d.inner!Pattern)' % at, 'Alternative': 'add(%%s, S%d.inner!Pattern)' % at}[nm]
    out = lambda x: 'add(self.stack, Spanned{span: _, inner: %s})' % (PAT % (nm + '{elements: %s}' % x))
    old = 'S0.inner!Pattern!%s.elements' % nm
    flat = [[out(old) + ' if S0.inner!Pattern is ' + nm, put % old + ' if S0.inner!Pattern is ' + nm, 'add(?n, S0.inner!Pattern) if S0.inner!Pattern isnt ' + nm,
             put % '?n' + ' if S0.inner!Pattern isnt ' + nm, out('?n') + ' if S0.inner!Pattern isnt ' + nm]]
    if nm == 'Alternative':  # the order of alternatives says nothing
        for p in (put, 'insertat(%%s, 0, S%d.inner!Pattern)' % at):
            for l in ('list(S0.inner!Pattern, S2.inner!Pattern)', 'list(S2.inner!Pattern, S0.inner!Pattern)'):
                flat.append([out(old) + ' if S0.inner!Pattern is ' + nm, p % old + ' if S0.inner!Pattern is ' + nm, out(l) + ' if S0.inner!Pattern isnt ' + nm])
    else:
        flat.append([out(old) + ' if S0.inner!Pattern is ' + nm, put % old + ' if S0.inner!Pattern is ' + nm, out('list(S1.inner!Pattern, S0.inner!Pattern)') + ' if S0.inner!Pattern isnt ' + nm])
        flat.append([out('list(S1.inner!Pattern, S0.inner!Pattern)')])
        flat.append(['add(?n, S1.inner!Pattern)', 'for each(%s): add(?n, each(%s)) if S0.inner!Pattern is Sequence' % (old, old), 'add(?n, S0.inner!Pattern) if S0.inner!Pattern isnt Sequence', out('?n')])
    return flat


# production -> (types of the popped values that are used, alternative lists of obligations); None: nothing to do
ACTIONS = {
    'rules = rule': ({0: 'Rule'}, one('Ast::Rules{0: list(Spanned{span: _, inner: S0.inner!Rule})}')),
    'rules = rule rules': ({0: 'Rules', 1: 'Rule'}, [[w + '(?r, %sSpanned{span: _, inner: S1.inner!Rule})' % z, 'init(?r, S0.inner!Rules)', 'add(self.stack, Spanned{span: _, inner: Ast::Rules{0: ?r}})']
                                                     for w, z in (('add', ''), ('insertat', '0, '))]),
    'rule = entry_rule': None, 'rule = prod_rule': None, 'rule = token_rule': None, 'string_or_regex = REGEX': None, 'string_or_regex = STRING': None, 'pattern = alternative': None,
    'alternative = concatenation': None, 'concatenation = unary': None, 'unary = option': None, 'unary = repetition_one': None, 'unary = repetition_zero': None, 'unary = item': None,
    'entry_rule = KW_ENTRY IDENT SEMI': ({1: 'Token'}, one('Ast::Rule{0: Rule::EntryRule{0: EntryRule{name: S1.inner!Token}}}')),
    'prod_rule = KW_PROD IDENT (tag)? EQUALS pattern SEMI': ({1: 'Pattern', 3: 'Tag', 4: 'Token'}, one(
        'Ast::Rule{0: Rule::ProductionRule{0: ProductionRule{name: S4.inner!Token, tag: S3.inner!Tag, pattern: S1.inner!Pattern}}}')),
    'token_rule = KW_TOKEN IDENT (precedence)? EQUALS string_or_regex SEMI': ({1: 'Token', 3: 'Precedence', 4: 'Token'}, 'token'),
    'precedence = LBRACK DIGIT RBRACK': ({1: 'Token'}, one('Ast::Precedence{0: Option::Some{0: parse(S1.inner!Token)!Ok}}')),
    'tag = LBRACK IDENT RBRACK': ({1: 'Token'}, one('Ast::Tag{0: Option::Some{0: S1.inner!Token}}')),
    'pattern = NOTHING': ({0: 'Token'}, one(PAT % 'Epsilon')),
    'alternative = concatenation PIPE alternative': ({0: 'Pattern', 2: 'Pattern'}, both('Alternative')),
    'concatenation = unary concatenation': ({0: 'Pattern', 1: 'Pattern'}, both('Sequence')),
    'option = item QUESTION': ({1: 'Pattern'}, one(UN % 'Optional')), 'repetition_zero = item ASTERISK': ({1: 'Pattern'}, one(UN % 'ZeroOrMany')),
    'repetition_one = item PLUS': ({1: 'Pattern'}, one(UN % 'OneOrMany')),
    'item = IDENT': ({0: 'Token'}, one(PAT % 'Rule{rule_name: S0.inner!Token}')), 'item = LPAR pattern RPAR': ({1: 'Pattern'}, one('Ast::Pattern{0: S1.inner!Pattern}') + one('S1.inner')),
    # the two ways of an option
    'tag? = tag': None, 'precedence? = precedence': None,
    'tag? =': ({}, one('Ast::Tag{0: Option::None}')), 'precedence? =': ({}, one('Ast::Precedence{0: Option::None}')),
}
TOKEN_RULE = 'add(self.stack, Spanned{span: _, inner: Ast::Rule{0: Rule::TokenRule{0: TokenRule{name: S4.inner!Token, precedence: S3.inner!Precedence, pattern: TokenPattern::%s}}}})'
TEXT = 'subslice(S1.inner!Token, Range{start: 1, end: len(S1.inner!Token) - 1})'
CH = 'each(chars(%s))' % TEXT
FIRST = 'at(chars(S1.inner!Token), 0)'
STRING = [['for %s: %s' % (CH, x) for x in (
    'add(?c, char(10)) if ?e & eq(%s, 110)' % CH, 'add(?c, char(13)) if ?e & eq(%s, 114) & !eq(%s, 110)' % (CH, CH), 'add(?c, char(9)) if ?e & eq(%s, 116) & !eq(%s, 110) & !eq(%s, 114)' % (CH, CH, CH),
    'add(?c, %s) if or(and(?e, not(eq(%s, 110)), not(eq(%s, 114)), not(eq(%s, 116))), and(not(?e), not(eq(%s, 92))))' % (CH, CH, CH, CH, CH),
    'init(?e, False)', 'step(?e, False) if ?e', 'step(?e, True) if !?e & eq(%s, 92)' % CH, 'step(?e, ?e) if !?e & !eq(%s, 92)' % CH)] + [TOKEN_RULE % 'Literal{characters: ?c}']]
STRING.append([x for x in STRING[0] if 'step(' not in x] + ['for %s: %s' % (CH, x) for x in ('step(?e, False) if or(?e, not(eq(%s, 92)))' % CH, 'step(?e, True) if !?e & eq(%s, 92)' % CH)])
NX = 'next(?i)!Some'
STRING.append(['for %s: %s' % (CH, x) for x in (
    'add(?c, char(10)) if eq(%s, 92) & eq(%s, 110)' % (CH, NX), 'add(?c, char(13)) if eq(%s, 92) & eq(%s, 114) & !eq(%s, 110)' % (CH, NX, NX),
    'add(?c, char(9)) if eq(%s, 92) & eq(%s, 116) & !eq(%s, 110) & !eq(%s, 114)' % (CH, NX, NX, NX),
    'add(?c, %s) if eq(%s, 92) & !eq(%s, 116) & !eq(%s, 110) & !eq(%s, 114)' % (NX, CH, NX, NX, NX), 'add(?c, %s) if !eq(%s, 92)' % (CH, CH))] + [TOKEN_RULE % 'Literal{characters: ?c}'])
IS_REGEX = ['!eq(%s, 34)' % FIRST, 'eq(%s, 47)' % FIRST, 'nonempty(chars(S1.inner!Token))', '!starts_with(S1.inner!Token, char(34))', 'starts_with(S1.inner!Token, char(47))']
REGEX = [[TOKEN_RULE % 'Pattern{pattern: ?p(regex_syntax::parse(%s)!Ok)!Ok}' % TEXT]]


def run(ctx):
    decl = declared(ctx)
    if decl is None:
        return
    toks, prods = decl
    v = [b['name'] for b in ctx.prog.bodies.values() if b['name'].startswith('<%s::' % CRATE) and ' as %s::Visitor>::' % CRATE in b['name']]
    have = {n.split('>::')[1]: n for n in v if '{' not in n}
    named = names(ctx, prods, have)
    if named is None:
        return
    ctx.require(sorted(have) == sorted(list(named) + ['shift']), 'visitor', 'visitor functions %s do not belong to a production' % sorted(set(have) - set(named) - {'shift'}))
    for fn, prod in named.items():
        if fn in have:
            visitor(ctx, have[fn], prod)
    s = ctx.summary(have.get('shift', CRATE + '::shift'))
    if s is not None:
        ctx.spec(s, 'shift', 'add(self.stack, Spanned{span: _, inner: Ast::Token{0: TokenData.text}})', watch=['self.stack'])
        ctx.count('visitor_functions')
    reader(ctx)


def renamed(summ, names):
    r = copy.copy(summ)
    r.effects = []
    for e in summ.effects:
        if e.kind == 'call' and str(e.args[0]) in names:
            e = copy.copy(e)
            e.kind, e.args = names[str(e.args[0])], list(e.args[1:])
        r.effects.append(e)
    return r


RULE = 'each(popped(?s, _).inner!Rules)'
READ = [['lexer(str)', 'parser(_, LapexAstVisitor{stack: ?s})', 'parse(_)'] +
        ['for %s: add(?%s, Spanned{span: _, inner: %s.inner!%s}) if %s.inner is %s' % (RULE, v, RULE, k, RULE, k)
         for v, k in (('t', 'TokenRule'), ('p', 'ProductionRule'), ('e', 'EntryRule'))] +
        ['return(Result::Ok{0: RuleSet{entry_rule: %s, token_rules: ?t, production_rules: ?p}})' % x] for x in ('popped(?e, _)', 'popped(?e, _, _)', 'index(?e, 0)', 'at(?e, 0)')]
TOKEN = 'return((?n!Ok, TokenData{text: lapex_input_gen::Lexer::slice(_), span: _}))'
SKIP = 'TkWhitespace|TkNewline'


def reader(ctx):
    f = [b['name'] for b in ctx.prog.bodies.values() if b['name'].startswith('<%s::' % CRATE) and b['name'].endswith('::parse_lapex')]
    name = f[0] if f else CRATE + '::parse_lapex'
    s = ctx.summary(name, ('Lexer::new', 'Parser::new', 'Parser::parse'))
    if s is None:
        return
    s = renamed(s, {CRATE + '::Lexer::new': 'lexer', CRATE + '::Parser::new': 'parser', CRATE + '::Parser::parse': 'parse'})
    s = given(s, ['nonempty(_)', '!pos(len(_) - 1)', 'popped(_, _).inner is Rules'])
    ctx.spec_any(s, 'parse_lapex', READ, watch=['@lexer', '@parser', '@parse', 't', 'p', 'e', 'return', '-stop'], ignore=[('e', 'pop'), ('e', 'removeat')])
    c = ctx.summary(name + '::{closure}', ('Lexer::next', 'Lexer::slice'), positions=1)
    if c is None:
        return
    c = renamed(c, {CRATE + '::Lexer::next': 'next'})
    calls = [e for e in c.effects if e.kind == 'next']
    for i, x in enumerate(calls):
        for y in calls[:i]:
            ctx.require(x.loops != y.loops or g_and(x.guard, y.guard) is FALSE, 'token/next', 'a token read by the lexer is thrown away (two calls of Lexer::next in one step)')
    ctx.spec_any(c, 'token', [
        ['next(_, _)', 'for ?w: next(_, _) if ?n!Ok is ' + SKIP, 'for ?w: stop(?w) if ?n!Ok isnt ' + SKIP, TOKEN],
        ['for ?w: next(_, _)', 'for ?w: stop(?w) if ?n!Ok isnt ' + SKIP, TOKEN]], watch=['@next', 'return', '-stop', '@stop'])


def declared(ctx):
    try:
        toks, prods, entries = rulefile.read(ctx.read('lapex-input-gen/src/lapex.lapex'))
    except ValueError as x:
        ctx.violation('rule-file', 'lapex-input-gen/src/lapex.lapex: %s' % x)
        return None
    autos = {}
    for n, (kind, text, prec) in toks.items():
        ctx.count('declared_tokens')
        try:
            autos[n] = a = rulefile.automaton(text, kind == 'lit')
        except Exception as x:
            ctx.violation('token/' + n, 'the pattern of token %s is not understood: %s' % (n, x))
            continue
        if n not in TOKENS:
            ctx.violation('token/' + n, 'token %s is not part of the input language' % n)
            continue
        d = [rulefile.difference(a, rulefile.automaton(TOKENS[n], dotall=x)) for x in (True, False)]
        ctx.count('tokens_compared')
        ctx.require(None in d, 'token/' + n, 'token %s %s the text %r' % (n, 'matches' if accepts(a, d[0] or '') else 'does not match', d[0]))
    for n in TOKENS:
        ctx.require(n in toks, 'token/' + n, 'the input language has no token %s' % n)
    for a in autos:
        for b in autos:
            if a < b:
                w = rulefile.common(autos[a], autos[b])
                if w is None:
                    continue
                p = {x: int(toks[x][2]) if toks[x][2] else 2 * len(toks[x][1]) if toks[x][0] == 'lit' else 1 for x in (a, b)}
                top = max((a, b), key=lambda x: p[x])
                ctx.count('overlaps')
                ctx.require(p[a] != p[b] and top.startswith('KW_') and 'IDENT' in (a, b), 'overlap/%s/%s' % (a, b), 'the text %r is both %s and %s (the former should be a keyword and win)' % (w, a, b))
    ctx.require(entries == ['rules'], 'entry', 'the entry rule is not rules')
    want = sorted(p for p in ACTIONS if '? =' not in p)
    got = sorted('%s = %s' % (l, b) for l, _, b in prods)
    norm = lambda x: x.replace('(tag)?', 'tag?').replace('(precedence)?', 'precedence?')
    want = [norm(x) for x in want]
    for x in got:
        ctx.count('productions')
        ctx.require(x in want and got.count(x) == 1, 'production/' + x, 'the input language has no production %s, or it is declared twice' % x)
    for x in want:
        ctx.require(x in got, 'production/' + x, 'the input language lacks the production %s' % x)
    return None if ctx.violations else (toks, prods)


def accepts(a, w):
    n, s, e = a
    st = rulefile.closure(n, [s])
    for c in w:
        st = rulefile.closure(n, [y for q in st for rs, y in n.tr[q] if any(lo <= ord(c) <= hi for lo, hi in rs)])
    return e in st


def names(ctx, prods, have):
    """visitor function -> production; the naming rule is that of C14"""
    out = {}
    for l in {p[0] for p in prods}:
        own = [p for p in prods if p[0] == l]
        for i, (_, tag, body) in enumerate(own):
            out['reduce_' + l + ('' if len(own) == 1 else '_' + (tag or str(i + 1)))] = '%s = %s' % (l, body)
    opts = [x for _, _, body in prods for x in body.split() if x.endswith('?')]
    anon = sorted({int(m.group(1)) for m in (re.match(r'reduce_anon(\d+)_\d+$', n) for n in have) if m})
    if not ctx.require(len(anon) == len(opts), 'options', 'the reader handles %d fresh nonterminals, its rule file has %d options' % (len(anon), len(opts))):
        return None
    for k, o in zip(anon, opts):
        out['reduce_anon%d_1' % k] = '%s = %s' % (o, o[:-1])
        out['reduce_anon%d_2' % k] = '%s =' % o
    for fn in out:
        ctx.require(fn in have, fn, 'the production %s has no visitor function %s' % (out[fn], fn))
    return out


def stacked(s, kinds):
    """the summary with S<k> for popped values, of the given kinds, and their number"""
    stack = [e.args[0] for e in s.effects if e.kind in ('pop', 'add') and show(e.args[0]).startswith('self.')]
    if not stack:
        return None, 0
    s, n = stackfn.positions(given(s, ['nonempty(self.stack)']), stack[0])
    s = given(s, ['S%d.inner is %s' % kv for kv in kinds.items() if kv[0] < n])
    return stackfn.positions(s, stack[0])


def visitor(ctx, fn, prod):
    s = ctx.summary(fn, positions=1)
    if s is None:
        return
    ctx.count('visitor_functions')
    key = prod.replace(' tag?', ' (tag)?').replace(' precedence?', ' (precedence)?')
    act = ACTIONS[key]
    short = fn.split('>::')[1]
    if act is None:
        for e in s.effects:
            ctx.require(e.kind == 'return', short, '%s (%s) should leave the stack alone: %s' % (short, prod, e.kind))
        return
    kinds, variants = act
    s, n = stacked(s, kinds)
    if not ctx.require(s is not None, short, '%s (%s) leaves the stack alone' % (short, prod)):
        return
    rhs = [] if prod.endswith('=') else prod.split(' = ')[1].split()
    pops = ['pop(self.stack, _, S%d)' % i for i in range(len(rhs))]
    w = ['self.stack', 'r', 'n', '@insertat', '-stop']
    ctx.require(n == len(rhs), short + '/pops', '%s (%s) takes %d symbols off the stack, its production has %d' % (short, prod, n, len(rhs)))
    if n != len(rhs):
        return
    if variants == 'token':
        b = given(s, ['eq(%s, 34)' % FIRST, 'nonempty(chars(S1.inner!Token))', 'starts_with(S1.inner!Token, char(34))', '!starts_with(S1.inner!Token, char(47))', 'next(_) is Some'])
        ctx.spec_any(b, short + '/string', [pops + x for x in STRING], watch=['self.stack', 'c', 'e'])
        r = given(s, IS_REGEX)
        ctx.spec_any(r, short + '/pattern', [pops + x for x in REGEX], watch=['self.stack', '-stop'])
        return
    ctx.spec_any(s, short, [pops + x for x in variants], watch=w)
