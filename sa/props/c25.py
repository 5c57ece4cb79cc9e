"""The bootstrap reader. Its parser functions (nom combinators) are read off their summaries as one parsing expression grammar (sa/peg.py): what is read byte by byte, which choices
and repetitions are made and which tree every case builds. That grammar is compared, by coinduction over the nested parsers, with the specified grammar of the bootstrap language;
the entry function, which sorts the rules read, is compared with obligations."""
from ..peg import *
from ..spec import given
TECHNIQUE = 'static analysis: extraction of a parsing expression grammar with tree actions from the summaries of the combinator functions over MIR, coinductive comparison with a reference grammar'
RULES = ['every parser reads what the language says, in that order, byte for byte', 'every case builds the specified tree of what was read', 'choices that can both apply are tried in the specified order',
         'the rules read are handed over completely, each as its own kind', 'input left over, no entry rule and several entry rules are errors']
FLOORS = {'parsers_compared': 20, 'obligations': 8, 'parser_functions': 15}
CR = 'lapex_input_bootstrap::'

UNESC = ASCII - frozenset(b']/\\)|+*?\t\r\n')
HEX = frozenset(b'0123456789abcdefABCDEF')
NAME = frozenset(b'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_')


def one(c):
    return cls(c if isinstance(c, frozenset) else c.encode())


def alt(*b):
    return Atom('alt', blocks=b)


def opt(b):
    return Atom('opt', blocks=(b,))


def tok(s):
    return ref(([text(s)], '$0'))


def many(b):
    return Atom('many', blocks=(b,), lo=1)


def sep(s, b, **k):
    return Atom('sep', blocks=(s, b), lo=1, **k)


def step_block(a):
    return ref(([a], '$0'))


def grammar():
    P, PP = 'Pattern::', 'ProductionPattern::'
    char = alt(ref(([one(UNESC)], 'at($0, 0)')),
               ref(*[([one('\\'), one(k)], 'char(%#x)' % v) for k, v in (('n', 10), ('r', 13), ('t', 9), ('\\', 92), ('/', 47))] +
                   [([one('\\'), one('u'), one('{'), cls(HEX, 4, 6), one('}')], 'from_u32(from_str_radix(from_utf8($3)!Ok.0, 16)!Ok.0)!Some.0',
                     ['from_str_radix(from_utf8($3)!Ok.0, 16) is Ok', 'from_u32(from_str_radix(from_utf8($3)!Ok.0, 16)!Ok.0) is Some'])]))
    c = lambda: char.but()
    item = alt(ref(([c(), one('-'), c()], 'Characters::Range{0: $0, 1: $2}')), ref(([c()], 'Characters::Single{0: $0}')))
    caret = opt(tok('^'))
    cset = ref(([one('['), chosen(caret, 0, one('^')), many(step_block(item)), one(']')], P + 'CharSet{chars: $2, negated: True}'),
               ([one('['), chosen(caret, 1), many(step_block(item)), one(']')], P + 'CharSet{chars: $2, negated: False}'))
    kinds = alt(tok('*'), tok('+'), tok('?'))
    rep = opt(step_block(kinds))

    def repeated(elem, vals):
        o = [([elem, chosen(rep, 0, chosen(kinds, j, one(ch)))], v) for j, (ch, v) in enumerate(zip('*+?', vals))]
        return o + [([elem, chosen(rep, 1)], '$0')]
    rseq = ref(later=lambda: [([many(rrep)], P + 'Sequence{elements: $0}')])
    group = ref(([one('('), sep(tok('|'), rseq, lens='one'), one(')')], 'only($1)'), ([one('('), sep(tok('|'), rseq, lens='many'), one(')')], P + 'Alternative{elements: $1}'))
    relem = alt(group, cset, ref(([one('.')], P + 'CharSet{chars: empty, negated: True}')), ref(([c()], P + 'Char{chars: Characters::Single{0: $0}}')))
    R = P + 'Repetition{min: %s, max: %s, inner: $0}'
    rrep = ref(*repeated(relem, [R % (0, 'Option::None{}'), R % (1, 'Option::None{}'), R % (0, 'Option::Some{0: 1}')]))
    sp = lambda: cls(b' \t', 1, None)
    name = lambda: cls(NAME, 1, None)
    lit = ref(([one('"'), cls(ASCII - {34}, 1, None), one('"')], 'TokenPattern::Literal{characters: $1}'))
    rx = ref(([one('/'), many(rrep), one('/')], 'TokenPattern::Pattern{pattern: Pattern::Sequence{elements: $1}}'))
    text_of = 'from_utf8(%s)!Ok.0'
    token = ref(([text('token'), sp(), name(), sp(), one('='), sp(), alt(lit, rx), one(';')], 'Rule::TokenRule{0: TokenRule{name: %s, precedence: Option::None{}, pattern: $6}}' % text_of % '$2'))
    pseq = ref(later=lambda: [([sep(ref(([sp()], '$0')), prep)], PP + 'Sequence{elements: $0}')])
    pgroup = ref(([one('('), sep(tok(' | '), pseq, lens='one'), one(')')], 'only($1)'), ([one('('), sep(tok(' | '), pseq, lens='many'), one(')')], PP + 'Alternative{elements: $1}'))
    pelem = alt(pgroup, ref(([name()], PP + 'Rule{rule_name: %s}' % text_of % '$0')))
    prep = ref(*repeated(pelem, [PP + x + '{inner: $0}' for x in ('ZeroOrMany', 'OneOrMany', 'Optional')]))
    prod = ref(([text('prod'), sp(), name(), sp(), one('='), sp(), sep(ref(([sp()], '$0')), prep), one(';')],
                'Rule::ProductionRule{0: ProductionRule{name: %s, tag: Option::None{}, pattern: ProductionPattern::Sequence{elements: $6}}}' % text_of % '$2'))
    entry = ref(([text('entry'), sp(), name(), one(';')], 'Rule::EntryRule{0: EntryRule{name: %s}}' % text_of % '$2'))
    ws = lambda n: cls(WS, n, None)
    return ref(([ws(0), sep(ref(([ws(1)], '$0')), step_block(alt(token, prod, entry))), ws(0)], '$1'))


def run(ctx):
    def seen(s):
        ctx.functions.add(s.body['name'])
        ctx.count('parser_functions')
        ctx.count('effects', len(s.effects))
        ctx.count('call_sites', s.eng.callsites)
    RAW = CR + 'parse_lapex_file_raw'
    rd = Reader(ctx.prog, seen)
    cmp = Compare()
    try:
        ok = cmp.block(rd.fn(RAW), grammar())
        if not ok:
            ctx.violation('grammar', 'the bootstrap reader does not read its language: ' + (cmp.why or 'a nested parser differs'))
    except Unhandled as e:
        ctx.violation('grammar', 'the parsers of the bootstrap reader cannot be read as a grammar: %s' % e)
    ctx.count('parsers_compared', cmp.pairs)
    s = ctx.summary('<lapex_input_bootstrap::BootstrapLapexInputParser as lapex_input::LapexInputParser>::parse_lapex', (RAW,))
    if s is None:
        return
    raw = RAW + '(str)!Ok.0'
    ctx.spec_any(given(s, ['!nonempty(%s.0)' % raw, RAW + '(str) is Ok']), 'rules handed over', [[
        'for each(%s.1): add(?e, each(%s.1)!EntryRule) if each(%s.1) is EntryRule' % (raw, raw, raw),
        'for each(%s.1): add(?t, Spanned{span: _, inner: each(%s.1)!TokenRule}) if each(%s.1) is TokenRule' % (raw, raw, raw),
        'for each(%s.1): add(?p, Spanned{span: _, inner: each(%s.1)!ProductionRule}) if each(%s.1) is ProductionRule' % (raw, raw, raw),
        'opt removeat(?e, 0) if *', 'opt pop(?e, _) if *',
        'return(Result::Err{0: LapexParsingError::NoEntryRule{}}) if !nonempty(?e)%s' % no,
        'return(Result::Err{0: LapexParsingError::TooManyEntryRules{}}) if %spos(len(?e) - 1)' % many,
        'return(Result::Ok{0: RuleSet{entry_rule: Spanned{span: _, inner: %s}, token_rules: ?t, production_rules: ?p}}) if nonempty(?e) & !pos(len(?e) - 1)' % x,
    ] for x in ('at(?e, 0)', 'popped(?e, _, _)') for no in ('', ' & !pos(len(?e) - 1)') for many in ('nonempty(?e) & ', '')])
    ctx.spec(given(s, ['nonempty(%s.0)' % raw, RAW + '(str) is Ok']), 'input left over', ['return(Result::Err{0: LapexParsingError::IncompleteParsing{0: _}})'])
