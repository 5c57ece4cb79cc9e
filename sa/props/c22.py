"""Source positions. (1) The token source counts lines and characters: the span of a token starts at the position reached before it and ends at the position after
it, positions advance by every character read and start at 1:1. (2) The visitor functions of rules span from the first to the last symbol of the rule, and rules keep their span through
every list they pass. (3) Looking a position up counts the same way, and a span's text is the source between its ends. (4) Every error about rules carries, for
exactly the rules concerned, start position and text of the rule's own span, and prints them completely."""
from ..term import *
from ..spec import given
from . import c20
TECHNIQUE = 'static analysis: abstract interpretation of rustc MIR (effect summaries) compared with obligations on position arithmetic and span propagation'
RULES = ['line and column advance per character: a line break starts column 1 of the next line', 'token spans: position before and after the text', 'rule spans: start of the first symbol, end of the last one',
         'reading a position back inverts the counting', 'error locations: the span of the very rule that is reported, for every reported rule', 'printing: position and the whole text']
FLOORS = {'functions_checked': 14}
SL = 'lapex_input_gen::Lexer::slice(_)'
CH = 'each(chars(%s))' % SL
N = 'TkNewline'
CO = '(as(u32, len(chars(%s))))' % SL


def token(stores):
    pos = lambda l, c: 'SourcePos{line: ?%s, col: ?%s}' % (l, c)
    r = ['for ?w: init(?c, ?cc)', 'for ?w: step(?c, 1) if ?n!Ok is ' + N, 'for ?w: step(?c, as(u32, len(chars(%s))) + ?c) if ?n!Ok isnt %s' % (SL, N),
         'for ?w: init(?l, ?lc)', 'for ?w: step(?l, ?l + 1) if ?n!Ok is ' + N, 'for ?w: step(?l, ?l) if ?n!Ok isnt ' + N,
         'for %s: init(?c2, ?c)' % CH, 'for %s: step(?c2, 1) if eq(%s, 10)' % (CH, CH), 'for %s: step(?c2, ?c2 + 1) if !eq(%s, 10)' % (CH, CH),
         'for %s: init(?l2, ?l)' % CH, 'for %s: step(?l2, ?l2 + 1) if eq(%s, 10)' % (CH, CH), 'for %s: step(?l2, ?l2) if !eq(%s, 10)' % (CH, CH),
         'return((_, TokenData{text: %s, span: SourceSpan{start: %s, end: %s}}))' % (SL, pos('l', 'c'), pos('l2', 'c2'))]
    if stores == 'always':
        r += ['for ?w: store(?cc, 1) if ?n!Ok is ' + N, 'for ?w: store(?lc, ?l + 1) if ?n!Ok is ' + N, 'for ?w: store(?cc, as(u32, len(chars(%s))) + ?c) if ?n!Ok is TkWhitespace' % SL,
              'for %s: store(?cc, 1) if eq(%s, 10)' % (CH, CH), 'for %s: store(?lc, ?l2 + 1) if eq(%s, 10)' % (CH, CH), 'for %s: store(?cc, ?c2 + 1) if !eq(%s, 10)' % (CH, CH)]
    else:
        r += ['store(?cc, ?c2)', 'store(?lc, ?l2)']
    return r


def run(ctx):
    tokens(ctx)
    rules(ctx)
    lookup(ctx)
    errors(ctx)


def fn(ctx, name, opaque=(), **kw):
    s = ctx.summary(name, opaque, **kw)
    if s is not None:
        ctx.count('functions_checked')
    return s


def tokens(ctx):
    f = [b['name'] for b in ctx.prog.bodies.values() if b['name'].startswith('<%s::' % c20.CRATE) and b['name'].endswith('::parse_lapex')]
    name = f[0] if f else c20.CRATE + '::parse_lapex'
    c = fn(ctx, name + '::{closure}', ('Lexer::next', 'Lexer::slice'))
    s = fn(ctx, name, ('Lexer::new', 'Parser::new', 'Parser::parse'))
    if c is None or s is None:
        return
    b = ctx.spec_any(c, 'token', [token('always'), token('end')], watch=['c', 'l', 'c2', 'l2', 'cc', 'lc', 'return', '-stop'])
    clo = [a for e in s.effects for a in e.args if isinstance(a, T) and a.op == 'clo']
    if b is not None and ctx.require(bool(clo), 'start', 'the token source is not handed to the parser'):
        for v in ('cc', 'lc'):
            cell = b[v]
            i = int(cell.a[1]) + 1 if cell.op == 'fld' and str(cell.a[1]).isdigit() else 0
            ctx.require(0 < i < len(clo[0].a) and clo[0].a[i] is cint(1), 'start/' + v, 'the first %s of a file does not start at 1' % {'cc': 'column', 'lc': 'line'}[v])
    s = c20.renamed(s, {c20.CRATE + '::Parser::new': 'parser'})
    s = given(s, ['nonempty(_)', '!pos(len(_) - 1)', 'popped(_, _).inner is Rules'])
    R = c20.RULE
    ctx.spec(s, 'lists', ['parser(_, LapexAstVisitor{stack: ?s})'] + ['for %s: add(?%s, Spanned{span: %s.span, inner: %s.inner!%s}) if %s.inner is %s' % (R, v, R, R, k, R, k)
                                                                    for v, k in (('t', 'TokenRule'), ('p', 'ProductionRule'), ('e', 'EntryRule'))], watch=['t', 'p', 'e', '-stop'], ignore=[('e', 'pop'), ('e', 'removeat')])


def rules(ctx):
    decl = c20.rulefile.read(ctx.read('lapex-input-gen/src/lapex.lapex'))
    have = {b['name'].split('>::')[1]: b['name'] for b in ctx.prog.bodies.values() if b['name'].startswith('<%s::' % c20.CRATE) and ' as %s::Visitor>::' % c20.CRATE in b['name'] and '{' not in b['name']}
    named = c20.names(ctx, decl[1], have) or {}
    for f, prod in named.items():
        lhs = prod.split(' =')[0]
        if lhs not in ('rules', 'token_rule', 'prod_rule', 'entry_rule') or f not in have:
            continue
        kinds, variants = c20.ACTIONS[prod.replace(' tag?', ' (tag)?').replace(' precedence?', ' (precedence)?')]
        s = fn(ctx, have[f], positions=1)
        if s is None:
            continue
        s, n = c20.stacked(s, kinds)
        if not ctx.require(s is not None, f, '%s leaves the stack alone' % f):
            continue
        w = ['self.stack', 'r', '-stop']
        if lhs == 'rules':
            ctx.spec_any(s, f, [[l.replace('Spanned{span: _, inner: S0.inner!Rule}', 'Spanned{span: S0.span, inner: S0.inner!Rule}').replace('Spanned{span: _, inner: S1.inner!Rule}', 'Spanned{span: S1.span, inner: S1.inner!Rule}')
                                 for l in v] for v in variants], watch=w, ignore=[('self.stack', 'pop')])
        else:
            ctx.spec(s, f, ['add(self.stack, Spanned{span: SourceSpan{start: S%d.span.start, end: S0.span.end}, inner: Ast::Rule{0: _}}) if *' % (n - 1)], watch=['self.stack', '-stop'], ignore=[('self.stack', 'pop')])
    s = fn(ctx, have.get('shift', c20.CRATE + '::shift'))
    if s is not None:
        ctx.spec(s, 'shift', 'add(self.stack, Spanned{span: TokenData.span, inner: _})', watch=['self.stack'])


def lookup(ctx):
    o = fn(ctx, 'lapex_input::SourcePos::offset')
    C = 'each(char_indices(str))'
    HERE = 'and(eq(SourcePos.line, ?l), eq(SourcePos.col, ?c))'
    def lines(C, ch):
        return f'''
        for {C}: init(?c, 1)
        for {C}: step(?c, 1) if eq({ch}, 10)
        for {C}: step(?c, ?c + 1) if !eq({ch}, 10)
        for {C}: init(?l, 1)
        for {C}: step(?l, ?l + 1) if eq({ch}, 10)
        for {C}: step(?l, ?l) if !eq({ch}, 10)'''
    D = 'each(chars(str))'
    ctx.spec_any(o, 'offset', [lines(C, C + '.1') + f'''
        return(Option::Some{{0: such({C}, {HERE}).0}}) if exists({C}, {HERE})
        return(Option::Some{{0: len(str)}}) if {HERE} & !exists({C}, {HERE})
        return(Option::None) if !exists({C}, {HERE}) & not({HERE})
    ''', lines(D, D) + f'''
        for {D}: init(?o, 0)
        for {D}: step(?o, ?o + len_utf8({D}))
        return(Option::Some{{0: ?o}}) if or(exists({D}, {HERE}), {HERE})
        return(Option::None) if !exists({D}, {HERE}) & not({HERE})
    '''], watch=['return', 'c', 'l', 'o', '-stop'])
    s = fn(ctx, 'lapex_input::SourceSpan::substring', ('SourcePos::offset',))
    O = 'lapex_input::SourcePos::offset(SourceSpan.%s, str)'
    a, b = O % 'start', O % 'end'
    ctx.spec(s, 'substring', f'''
        return(Option::Some{{0: subslice(str, Range{{start: {a}!Some, end: {b}!Some}})}}) if {a} is Some & {b} is Some
        return(Option::None) if or(is({a}, None), is({b}, None))
    ''', watch=['return'])


FROM = 'lapex::Location::from_span(%s, Path, str)!Some'


def errors(ctx):
    l = fn(ctx, 'lapex::Location::from_span', ('SourceSpan::substring',))
    sub = 'lapex_input::SourceSpan::substring(SourceSpan, str)'
    ctx.spec(l, 'location', f'''
        return(Option::Some{{0: Location{{pos: SourceSpan.start, file: Path, text: {sub}!Some}}}}) if {sub} is Some
        return(Option::None) if !{sub} is Some
    ''', watch=['return'])
    p = fn(ctx, 'lapex::LapexError::precedence', ('Location::from_span',))
    E = 'each(PrecedenceError.rules)'
    ctx.spec(p, 'precedence', f'''
        return(list(LapexError{{severity: _, error: LapexErrorType::Precedence{{rules: ?r}}}}))
        for {E}: add(?r, ({FROM % (E + '.span')}, {E}.inner))
    ''', watch=['return', 'r'])
    c = fn(ctx, 'lapex::LapexError::conflicts', ('Location::from_span',))
    E = 'each(VecConflict)'
    I = f'each({E}!ReduceReduce.items)'
    ctx.spec(c, 'conflicts', f'''
        return(?r)
        for {E}, {I}: add(?i, ({FROM % (I + '.rule.0.rule.span')}, ItemDisplay{{item: {I}, grammar: Grammar}})) if {E} is ReduceReduce
        for {E}: add(?r, LapexError{{severity: _, error: LapexErrorType::ReduceReduce{{state: {E}!ReduceReduce.state, items: ?i}}}}) if {E} is ReduceReduce
        for {E}: add(?r, LapexError{{severity: _, error: LapexErrorType::ShiftReduce{{state: {E}!ShiftReduce.state, symbol_name: _, location: {FROM % (E + '!ShiftReduce.item_to_reduce.rule.0.rule.span')}, item_text: ItemDisplay{{item: {E}!ShiftReduce.item_to_reduce, grammar: Grammar}}}}}}) if {E} is ShiftReduce
    ''', watch=['return', 'r', 'i'])
    d = fn(ctx, '<lapex::LapexErrorType as core::Display>::fmt', ('write_section',))
    if d is not None:
        d = c20.renamed(d, {'lapex::write_section': 'section'})
        d = given(d, ['lapex::write_section(_, _, _) is Ok'])
        ctx.spec(d, 'print', '''
            section(LapexErrorType!ShiftReduce.location, _, Formatter) if LapexErrorType is ShiftReduce
            for each(LapexErrorType!Precedence.rules): section(each(LapexErrorType!Precedence.rules).0, _, Formatter) if LapexErrorType is Precedence
            for each(LapexErrorType!ReduceReduce.items): section(each(LapexErrorType!ReduceReduce.items).0, _, Formatter) if LapexErrorType is ReduceReduce
        ''', watch=['@section'])
    w = fn(ctx, 'lapex::write_section')
    T_ = "lines(fmt(Location.text, _, _, _, D))"
    ctx.spec(w, 'section', f'''
        write(Formatter, fmt(_, _, _, std::Path::display(Location.file), ':', Location.pos.line, ':', Location.pos.col, _))
        add(?l, fmt(_, _, _))
        for each({T_}): add(?l, fmt(_, _, _, each({T_})))
        write(Formatter, join(?l, _))
    ''', watch=['Formatter', 'l'])
