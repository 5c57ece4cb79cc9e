"""Templates. For every template a generator writes (its text is a constant of the program), the set of placeholders in the text and the set of substitutions
supplied before it is written are computed from the emission effects of the generators and compared; all Template call sites of the workspace must be covered.
The template engine itself is specified by its effect summary: the text between two placeholders is copied unchanged and in order, a placeholder is replaced by the
output of the substitution registered under its trimmed name, a missing substitution stops the program, the text after the last placeholder follows."""
import re
from ..term import *
from ..engine import *
from .. import cg
RULES = ['placeholders of a template = keys substituted before it is written, each once, unconditionally', 'a template is written exactly once', 'text outside placeholders is copied unchanged and in order',
         'a placeholder is replaced by the substitution registered under its name; a missing one is an error']
FLOORS = {'templates': 10, 'placeholders': 10, 'template_call_sites': 30}
ROOTS = ('<lapex_cpp_codegen::CppLexerCodeGen as lapex_lexer::LexerCodeGen>::generate_tokens', '<lapex_cpp_codegen::CppLexerCodeGen as lapex_lexer::LexerCodeGen>::generate_lexer',
         '<lapex_cpp_codegen::CppLLParserCodeGen as lapex_parser::LLParserCodeGen>::generate_code', '<lapex_cpp_codegen::CppLRParserCodeGen as lapex_parser::LRParserCodeGen>::generate_code')
T_ = 'lapex_codegen::Template::'
W_ = 'lapex_codegen::TemplateWriter::'
G_ = 'lapex_codegen::'
PAT = re.compile(r'/\*\{(.*?)\}\*/')


def run(ctx):
    covered = set()
    for r in ROOTS:
        em = ctx.emission(r, ('state_has_shift',) if 'CppLR' in r else ())
        if em is not None:
            covered |= {em.body['id']} | set(em.eng.visited_fns)
            pairs(ctx, em)
    g = cg.Graph(ctx.prog)
    n = 0
    for b, i, t, f in g.sites(lambda n: n in (T_ + 'new', T_ + 'writer', W_ + 'substitute', W_ + 'write')):
        if b['name'].startswith('lapex_codegen::'):
            continue
        n += 1
        ctx.require(b['id'] in covered, 'site/' + b['name'], '%s (%s) uses a template, but is not part of a generator that was analysed' % (b['name'], cg.where(t)))
    ctx.count('template_call_sites', n)
    engine(ctx)


def text_name(ctx, text):
    """the .tpl file with this text (for reports)"""
    import glob, os
    for p in glob.glob(os.path.join(ctx.repo, '*', 'src', '**', '*.tpl'), recursive=True):
        try:
            if open(p, encoding='utf-8').read() == text:
                return os.path.relpath(p, ctx.repo)
        except OSError:
            pass
    return 'template ' + repr(text[:40])


def pairs(ctx, em):
    objs = {}
    for e in em.eng.effects:
        if e.kind in ('template', 'filled', 'unfilled', 'substitute') and isinstance(e.args[0], T):
            o = objs.setdefault(e.args[0], {'template': [], 'filled': [], 'unfilled': [], 'substitute': []})
            o[e.kind].append(e)
    who = em.body['name'].split(' as ')[0].lstrip('<')
    for o in em.eng.tplsrc:
        objs.setdefault(o, {'template': [], 'filled': [], 'unfilled': [], 'substitute': []})
    for o, es in objs.items():
        src = em.eng.tplsrc.get(o)
        const = src is not None and src.op == 'tplsrc' and src.a[0].op == 'c'
        if not ctx.require(const, who + '/source', '%s: the text of a template is not a constant of the program' % who):
            continue
        text = src.a[0].a[1]
        name = text_name(ctx, text)
        ctx.count('templates')
        tg = es['template'][0].guard if es['template'] else FALSE
        ctx.require(len(es['template']) == 1 and not es['template'][0].loops, name + '/written', '%s: the template %s is written %d times or only under a condition' % (who, name, len(es['template'])))
        marks = {m.strip() for m in PAT.findall(text)}
        ctx.count('placeholders', len(marks))
        # something that looks like a placeholder but is not one stays in the output
        odd = [m for m in re.findall(r'\{[a-z_]+\}|/\*\s+\{|\}\s+\*/', PAT.sub('', text))]
        ctx.require(not odd, name + '/malformed', '%s: malformed placeholder %s stays in the generated text' % (name, odd[:3]))
        keys = {}
        for s in es['substitute']:
            k = s.args[1]
            if ctx.require(k.op == 'c', name + '/key', '%s: a substitution of %s has a name that is not a constant' % (who, name)):
                ctx.require(not s.loops and g_and(tg, g_not(s.guard)) is FALSE, name + '/conditional/' + k.a[1], '%s: the substitution of %s in %s is supplied only under a condition' % (who, k.a[1], name))
                ctx.require(k.a[1] not in keys, name + '/twice/' + k.a[1], '%s: two substitutions named %s are supplied for %s' % (who, k.a[1], name))
                keys[k.a[1]] = s
        for m in sorted(marks - set(keys)):
            ctx.violation(name + '/unfilled/' + m, '%s: the placeholder %s of %s has no substitution' % (who, m, name))
        for m in sorted(set(keys) - marks):
            ctx.violation(name + '/unused/' + m, '%s: the substitution %s has no placeholder in %s' % (who, m, name))
        ctx.count('obligations', len(marks | set(keys)))
        ctx.count('discharged', len(marks & set(keys)))


WHOLE = 'write(Write, self.template) if !nonempty(?M)\n'
REST = '''
    for each(?M): write(Write, subslice(self.template, Range{start: ?last, end: start(group(each(?M), 0))}))
    for each(?M): ext(apply, mapval(self.substitutions, trim(as_str(group(each(?M), 1)))), Write) if contains(self.substitutions, trim(as_str(group(each(?M), 1))))
    for each(?M): panic(_) if !contains(self.substitutions, trim(as_str(group(each(?M), 1))))
    init(?last, 0)
    step(?last, end(group(each(?M), 0)))
'''


def engine(ctx):
    w = ctx.summary(W_ + 'write')
    ok = ['apply(mapval(self.substitutions, _), _) isnt Err']
    b = ctx.spec_any(w, 'copy', [
        REST + WHOLE + 'write(Write, subslice(self.template, RangeFrom{start: ?last})) if nonempty(?M)',
        REST + 'write(Write, subslice(self.template, RangeFrom{start: ?last}))'],
        watch=['#Write', 'ext', 'panic', 'last'], assume=ok)
    if b:
        M = b['M']
        okp = M.op == 'call' and M.a[0] == 'matches' and M.a[1].op == 'call' and M.a[1].a[0] == 'regex' and M.a[1].a[1].op == 'c' and same_pattern(M.a[1].a[1].a[1])
        ctx.require(okp, 'pattern', 'the placeholder pattern is %s, not /*{name}*/' % (show(M)[:80],))
        src = len(M.a) > 2 and M.a[2]
        ctx.require(isinstance(src, T) and src.op == 'fld' and src.a[1] == 'template', 'source', 'the placeholders are not looked for in the text of the template')
        order(ctx, w)
    ctx.spec(ctx.summary(W_ + 'substitute'), 'register', 'put(self.substitutions, str, F)', watch=['self.substitutions'])
    s = ctx.summary(T_ + 'writer')
    ctx.spec(s, 'writer', 'return(TemplateWriter{template: self.source, substitutions: ?map})', watch=['return', 'map'])
    ctx.spec(ctx.summary(T_ + 'new'), 'new', 'return(Template{source: str})', watch=['return'])
    # a generated file is what its generator writes
    f = ctx.summary(G_ + 'GeneratedCodeWriter::generate_code')
    ctx.spec(f, 'files', '''
        ext(apply, self.default_writer_fun, str) if !contains(self.targets, str)
        ext(apply, G, apply(self.default_writer_fun, str)!Ok) if !contains(self.targets, str) & apply(self.default_writer_fun, str) is Ok
        ext(apply, G, mapval(self.targets, str)) if contains(self.targets, str)
    ''', watch=['@ext'])
    ctx.spec(ctx.summary(G_ + 'GeneratedCodeWriter::add_target'), 'target', 'put(self.targets, str, W)', watch=['self.targets'])


def same_pattern(p):
    """the pattern /*{ name }*/ with the shortest name, however it is escaped"""
    return re.sub(r'\\([/{}])', r'\1', p) in (r'/\*{(.*?)}\*/',)


def order(ctx, w):
    pos = {}
    for n, e in enumerate(w.eng.effects):
        if e.kind == 'write' and e.args[1].op == 'subslice' or e.kind == 'write' and 'subslice' in show(e.args[1]):
            pos.setdefault('tail' if 'RangeFrom' in show(e.args[1]) else 'before', n)
        elif e.kind == 'ext':
            pos.setdefault('sub', n)
    ctx.require('before' in pos and pos['before'] < pos.get('sub', -1) < pos.get('tail', 10**9), 'order', 'text, substitution and remaining text are not written in this order: %s' % pos)
