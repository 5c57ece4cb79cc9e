"""Regular expressions of token rules. The conversion from the parsed regular expression (regex-syntax's high-level form) is summarised by abstract interpretation, case by
case over the kinds of the form: each kind must yield exactly the pattern of the same language built from the recursively converted parts, or be rejected. The
token rule's visitor function must convert the text between the slashes with it, and nothing else."""
from ..term import *
from ..spec import given
from . import c20
TECHNIQUE = 'static analysis: abstract interpretation of rustc MIR (effect summaries) compared with obligations per kind of regular expression'
RULES = ['literals character by character, classes range by range and never negated', 'repetitions keep minimum and maximum, groups are transparent', 'concatenations and alternatives convert every part, in order',
         'empty, look-around, lazy and byte forms are rejected, and a failed part fails the whole', 'the text between the delimiters is parsed with the default settings']
FLOORS = {'cases': 14}
K = 'regex_syntax::Hir::kind(Hir)'
OK = 'return(Result::Ok{0: Pattern::%s})'
ERR = 'return(Result::Err{0: _})'
ITERS = ['regex_syntax::ClassUnicode::%s(%s!Class!Unicode)' % (x, K) for x in ('iter', 'ranges')]


def run(ctx):
    tok = ctx.summary('<lapex_input_gen::LapexAstVisitor as lapex_input_gen::Visitor>::reduce_token_rule', positions=1)
    if tok is None:
        return
    rec = sorted({str(e.args[0].a[1]) if isinstance(e.args[0], T) else e.args[0] for e in tok.effects if e.kind == 'rec'})
    if not ctx.require(len(rec) == 1, 'conversion', 'the pattern of a token rule is not converted by one recursive function: %s' % rec):
        return
    f = rec[0]
    s = ctx.summary(f)
    if s is None:
        return
    R = lambda x: '%s(%s)' % (f, x)

    def case(name, lits, variants):
        ctx.count('cases')
        ctx.spec_any(given(s, lits), name, variants, watch=['return', 'e', '-stop'])
    part = lambda x: ['for each(%s): add(?e, %s!Ok)' % (x, R('each(%s)' % x))]
    case('empty', [K + ' is Empty'], [[ERR], [OK % 'Sequence{elements: list()}']])
    lit = 'from_utf8(%s!Literal.0.0)' % K
    case('literal', [K + ' is Literal', lit + ' is Ok'], [[
        'for each(chars(%s!Ok)): add(?e, Pattern::Char{chars: Characters::Single{0: each(chars(%s!Ok))}})' % (lit, lit), OK % 'Sequence{elements: ?e}']])
    case('literal-bytes', [K + ' is Literal', lit + ' is Err'], [[ERR]])
    case('class', [K + ' is Class', K + '!Class is Unicode'], [[
        'for each(%s): add(?e, Characters::Range{0: regex_syntax::ClassUnicodeRange::start(each(%s)), 1: regex_syntax::ClassUnicodeRange::end(each(%s))})' % (i, i, i),
        OK % 'CharSet{chars: ?e, negated: False}'] for i in ITERS])
    case('class-bytes', [K + ' is Class', K + '!Class is Bytes'], [[ERR]])
    case('look', [K + ' is Look'], [[ERR]])
    rep = K + '!Repetition.0'
    case('repetition', [K + ' is Repetition', rep + '.greedy', R(rep + '.sub') + ' is Ok'], [[OK % ('Repetition{min: %s.min, max: %s.max, inner: %s!Ok}' % (rep, rep, R(rep + '.sub')))]])
    case('repetition-lazy', [K + ' is Repetition', '!' + rep + '.greedy'], [[ERR]])
    case('repetition-failed', [K + ' is Repetition', rep + '.greedy', R(rep + '.sub') + ' is Err'], [[ERR]])
    cap = R(K + '!Capture.0.sub')
    case('group', [K + ' is Capture', cap + ' is Ok'], [['return(Result::Ok{0: %s!Ok})' % cap], ['return(%s)' % cap]])
    case('group-failed', [K + ' is Capture', cap + ' is Err'], [[ERR], ['return(%s)' % cap]])
    for k, p in (('Concat', 'Sequence'), ('Alternation', 'Alternative')):
        x = K + '!' + k
        case(k.lower(), [K + ' is ' + k, R('each(%s)' % x) + ' is Ok'], [part(x) + [OK % (p + '{elements: ?e}')]])
    text(ctx, tok, f)


def text(ctx, tok, f):
    s, n = c20.stacked(tok, {1: 'Token', 3: 'Precedence', 4: 'Token'})
    if not ctx.require(n == 6, 'token_rule/pops', 'reduce_token_rule takes %d symbols off the stack, its production has 6' % n):
        return
    s = given(s, c20.IS_REGEX)
    p = 'regex_syntax::parse(%s)' % c20.TEXT
    good = given(s, [p + ' is Ok', '%s(%s!Ok) is Ok' % (f, p)])
    ctx.count('cases')
    ctx.spec(good, 'token-pattern', c20.TOKEN_RULE % ('Pattern{pattern: %s(%s!Ok)!Ok}' % (f, p)), watch=['@add', '-stop'])
    for nm, lits in (('syntax', [p + ' is Err']), ('conversion', [p + ' is Ok', '%s(%s!Ok) is Err' % (f, p)])):
        bad = given(s, lits)
        ctx.count('cases')
        ctx.require(any(e.kind == 'panic' and e.guard is TRUE for e in bad.effects) or not any(e.kind == 'add' for e in bad.effects), 'rejected-' + nm, 'a regular expression that fails in %s is accepted' % nm)
