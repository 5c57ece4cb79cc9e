"""Dispatch. `lapex::generate` is summarised with the stages of the pipeline left as calls (each stage has its own property) and specialised to every
configuration: five algorithms x two languages x lexer on/off x table on/off. In each, the stages called, their arguments and the guard of every call must be
exactly those of the specification below. The command line must hand its options to `generate` unchanged."""
import copy
import re
from ..term import *
RULES = ['the stages called in each configuration are exactly its own, with exactly its parameters', 'a stage runs on the outputs of the stages before it', 'no parser generator runs after a failed stage or an unresolved conflict',
         'the command line passes its options to generate unchanged']
FLOORS = {'configurations': 40, 'stage_calls': 100}
STAGES = ('from_rule_set', 'generate_table', 'generate_alphabet', 'generate_nfa', 'powerset_construction', 'apply_precedence_to_dfa', 'conflicts', 'precedence', 'io', 'output_table', 'GeneratedCodeWriter::generate_code',
          'with_default', 'GeneratedCodeWriter::new', 'generate_tokens', 'generate_lexer', 'generate_code')
TEXT = 'std::read_to_string(Path1)!Ok'
PARSED = f'lapex_input::LapexInputParser::parse_lapex(_, {TEXT})'
RULES_ = f'{PARSED}!Ok.0'
ALPHA = f'lapex_lexer::generate_alphabet({RULES_}.token_rules)'
NFA = f'lapex_lexer::generate_nfa({ALPHA}, {RULES_}.token_rules)'
DFA = f'lapex_automaton::Nfa::powerset_construction({NFA}.1, {NFA}.0)'
PREC = f'lapex_lexer::apply_precedence_to_dfa({DFA})'
GRAMMAR = f'lapex_parser::Grammar::from_rule_set({RULES_})'
G = GRAMMAR + '!Ok'
SHAPE = {'LL1': ('', 'LL'), 'LR0': (', False, False, 0', 'LR'), 'LR1': (', False, False, 1', 'LR'), 'LALR': (', False, True, 1', 'LR'), 'GLR': (', True, True, 1', 'GLR')}
PIPE = ('read_to_string', 'parse_lapex') + STAGES
FATAL = ('unwrap', 'expect')


def gen(lang, fam):
    return f'{lang}{fam}{"" if fam == "Lexer" else "Parser"}CodeGen_'


def stage(name):
    m = re.match(r'<(?:\w+::)*(\w+) as .*>::(\w+)$', str(name))
    return m.group(1) + '_' + m.group(2) if m else str(name).split('::')[-1] if not str(name).startswith('lapex_codegen') else 'writer_' + str(name).split('::')[-1]


def only_stages(summ):
    """the calls of pipeline stages become effects named after the stage; other library calls are not part of this property"""
    r = copy.copy(summ)
    keep = []
    for e in summ.effects:
        if e.kind == 'call':
            n = stage(e.args[0])
            if str(e.args[0]).split('::')[-1] not in {p.split('::')[-1] for p in PIPE}:
                continue
            e = copy.copy(e)
            e.kind, e.args = n, list(e.args[1:])
        keep.append(e)
    r.effects = keep
    return r


def run(ctx):
    s = ctx.summary('lapex::generate', STAGES)
    if s is None:
        return
    from ..spec import given
    s = only_stages(s)
    ok = ['std::read_to_string(_) is Ok', 'lapex_input::LapexInputParser::parse_lapex(_, _) is Ok']
    ok1 = ok + ['lapex_lexer::apply_precedence_to_dfa(_) isnt Err']
    base = ok1 + ['lapex_parser::Grammar::from_rule_set(_) is Ok']
    for lang in ('Rust', 'Cpp'):
        sl = given(s, [f'Language is {lang}'])
        for alg in SHAPE:
            sa = given(sl, [f'ParsingAlgorithm is {alg}'])
            for lexer in (True, False):
                for table in (True, False):
                    sc = given(sa, ['bool1' if lexer else '!bool1', 'bool2' if table else '!bool2'])
                    name = f'{lang}-{alg}{"" if lexer else "-nolexer"}{"-table" if table else ""}'
                    config(ctx, given(sc, base if lexer else [x for x in base if 'apply_precedence' not in x]), lang, alg, lexer, table, name)
                    ctx.count('configurations')
    # failed stages
    for nm, g, err in (('read', ['std::read_to_string(_) is Err'], 'lapex::LapexError::io(Path1, std::read_to_string(Path1)!Err)'),
                       ('precedence', ok + ['bool1', 'lapex_lexer::apply_precedence_to_dfa(_) is Err'], f'lapex::LapexError::precedence(Path1, {TEXT}, {PREC}!Err)'),
                       ('grammar', ok1 + ['lapex_parser::Grammar::from_rule_set(_) is Err'], None), ('ll', base + ['ParsingAlgorithm is LL1', 'lapex_parser::generate_table(_) is Err'], None)):
        sf = given(s, g)
        if err:
            ctx.spec(sf, 'failed-' + nm, f'return(Result::Err{{0: {err}}})', watch=['return'])
        stops = not err and any(e.kind in ('panic', 'stop') and e.guard is TRUE for e in sf.effects)
        for e in sf.effects:
            if stops:
                continue
            ctx.require(not (e.kind.endswith('CodeGen_generate_code')), f'failed-{nm}/parser', 'a parser is generated although the %s stage failed' % nm)
            ctx.require(not (e.kind == 'return' and e.args[0].op == 'adt' and 'Ok' in str(e.args[0].a[:2])), f'failed-{nm}/success', 'generation succeeds although the %s stage failed' % nm)
    writer(ctx)
    cli(ctx)


def config(ctx, s, lang, alg, lexer, table, name):
    params, fam = SHAPE[alg]
    TABLE = f'lapex_parser::generate_table({G}{params})'
    lx = gen(lang, 'Lexer')
    pg = gen(lang, fam)
    L = [f'{lx}generate_tokens(_, {RULES_}.token_rules, _)']
    if lexer:
        L += [f'{lx}generate_lexer(_, {RULES_}.token_rules, {ALPHA}.ranges, {PREC}!Ok, _)']
    given_ = []
    if alg == 'LL1':
        given_ = [f'lapex_parser::generate_table(_) is Ok']
        L += [f'{pg}generate_code(_, {G}, {TABLE}!Ok, _)', 'return(Result::Ok{0: _})']
    elif alg == 'GLR':
        given_ = [f'lapex_parser::generate_table(_, _, _, _) isnt BadConflicts']
        if table:
            L += ["writer_generate_code(_, 'table', _)"]
        L += [f'{pg}generate_code(_, {G}, {TABLE}!NoConflicts, _) if {TABLE} is NoConflicts',
              f'{pg}generate_code(_, {G}, {TABLE}!AllowedConflicts.table, _) if {TABLE} isnt NoConflicts', 'return(Result::Ok{0: _})']
    else:
        given_ = ['lapex_parser::generate_table(_, _, _, _) isnt AllowedConflicts']
        c = f'lapex::LapexError::conflicts(Path1, {TEXT}, {TABLE}!BadConflicts, {G})'
        if table:
            L += [f"writer_generate_code(_, 'table', _) if {TABLE} is NoConflicts"]
        L += [f'{pg}generate_code(_, {G}, {TABLE}!NoConflicts, _) if {TABLE} is NoConflicts',
              f'return(Result::Ok{{0: _}}) if {TABLE} is NoConflicts', f'return(Result::Err{{0: {c}}}) if {TABLE} isnt NoConflicts']
    if table and alg != 'LL1':
        given_ = given_ + ['lapex_codegen::GeneratedCodeWriter::generate_code(_, _, _) is Ok']
    ctx.count('stage_calls', len(L))
    # the other stages are pure: what they were given is part of the arguments above
    kinds = {'@' + e.kind for e in s.effects if 'CodeGen_' in e.kind or e.kind in ('writer_generate_code', 'output_table')}
    ctx.spec(s, name, L, watch=sorted(kinds) + ['return', '-stop'], given_=given_)


GENS = tuple(f'<lapex_{l.lower()}_codegen::{l}{f}ParserCodeGen as lapex_parser::{f[-2:]}ParserCodeGen>::generate_code' for l in ('Rust', 'Cpp') for f in ('LL', 'LR', 'GLR'))


def writer(ctx):
    """files are created under their own names in the target directory; --table writes the table of this grammar"""
    from ..spec import given
    base = [x for x in STAGES if x not in ('GeneratedCodeWriter::generate_code', 'with_default', 'GeneratedCodeWriter::new', 'generate_code')]
    ok = ['std::read_to_string(_) is Ok', 'lapex_input::LapexInputParser::parse_lapex(_, _) is Ok', 'lapex_parser::Grammar::from_rule_set(_) is Ok', '!bool1']
    t = ctx.summary('lapex::generate', tuple(base) + GENS)
    if t is not None:
        for alg, (params, fam) in SHAPE.items():
            TABLE = f'lapex_parser::generate_table({G}{params})'
            st = only_stages(given(t, ok + [f'ParsingAlgorithm is {alg}', 'bool2', 'Language is Rust']))
            want = [f'output_table({G}, {TABLE}!{v}, _)' for v in (('NoConflicts', 'AllowedConflicts.table') if alg == 'GLR' else ('NoConflicts',))] if alg != 'LL1' else []
            calls = [e for e in st.effects if e.kind == 'output_table']
            ctx.require(bool(calls) == bool(want), f'table-{alg}/written', f'--table with {alg}: the table is {"not " if want else ""}written')
            st.effects = calls
            if want and calls:
                ctx.spec(st, f'table-{alg}', [w + ' if *' for w in want], watch=['@output_table'])
    f = ctx.summary('lapex::generate', tuple(x for x in base if x != 'generate_tokens') + GENS)
    if f is None:
        return
    for lang in ('Rust', 'Cpp'):
        sf = given(f, ok + ['ParsingAlgorithm is LL1', f'Language is {lang}', 'lapex_parser::generate_table(_) is Ok', '!bool2'])
        made = [e for e in sf.effects if e.kind == 'call' and str(e.args[0]).split('::')[-1] in ('create', 'create_new', 'open', 'options')]
        ctx.require(bool(made), f'files-{lang}/created', f'the {lang} token file is never created')
        for e in made:
            e.kind, e.args = 'create', list(e.args[1:])
        sf.effects = made
        n = {'Rust': ('tokens.rs',), 'Cpp': ('tokens.h', 'tokens.cpp')}[lang]
        ctx.spec(sf, 'files-' + lang, [f"create(join(Path2, '{x}')) if *" for x in n], watch=['@create'])


CLI = 'clap_builder::Parser::parse().command'


def cli(ctx):
    from ..spec import given
    m = ctx.summary('lapex_cli::main', ('lapex::generate',))
    if m is None:
        return
    m = copy.copy(m)
    keep = []
    for e in m.effects:
        if e.kind == 'call' and str(e.args[0]) == 'lapex::generate':
            e = copy.copy(e)
            e.kind, e.args = 'generate', list(e.args[1:])
            keep.append(e)
    m.effects = keep
    O = CLI + '!Generate.0.'
    for nl in ('', '!'):
        ctx.spec(given(m, [f'{CLI} is Generate', f'{nl}{O}no_lexer']), 'cli-' + ('lexer' if nl else 'nolexer'),
                 f'generate({"True" if nl else "False"}, {O}algorithm, {O}table, {O}grammar, {O}target, {O}language, _)', watch=['@generate'])
    D = CLI + '!Debug.0.'
    ctx.spec(given(m, [f'{CLI} is Debug', 'tempdir::TempDir::new(_) is Ok']), 'cli-debug', f'generate(True, {D}algorithm, _, {D}grammar, _, Language::Rust{{}}, _)', watch=['@generate'])
    # the names of the algorithms on the command line; a default option value is the displayed name
    p = ctx.summary('<lapex::ParsingAlgorithm as clap_builder::ValueEnum>::to_possible_value')
    ctx.spec(p, 'names', [f"return(Option::Some{{0: clap_builder::PossibleValue::new('{v.lower()}')}}) if ParsingAlgorithm is {v}" for v in SHAPE], watch=['return'])
    d = ctx.summary('<lapex::ParsingAlgorithm as core::Display>::fmt')
    ctx.spec_any(d, 'displayed', ['\n'.join(f"write(?f, {w % v.lower()}) if ParsingAlgorithm is {v}" for v in SHAPE) for w in ("fmt('%s')", "'%s'")], watch=['@write'])
