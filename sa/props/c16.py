"""Failures surface. (1) Linear use of errors: in every function of the workspace every value that may hold an error has to be propagated, returned or turned into a
panic on every path (sa/linear.py, a forward dataflow over MIR). (2) Buffered files are only created by the writer function of a GeneratedCodeWriter, whose
generate_code flushes what it opened and returns the outcome. (3) Only complete writes are used; nothing catches panics, leaves threads behind or ends the
process with success. (4) The exit status of the command line is that of the generation, after all errors were printed."""
import copy
from ..term import *
from .. import cg, linear
TECHNIQUE = 'static analysis: forward dataflow over rustc MIR (linear use of error values), call-site rules over the whole program, effect summaries for flush and exit status'
RULES = ['an error value is never dropped, overwritten or given to a function that forgets it', 'a buffered file is flushed and the outcome returned', 'no short writes, no swallowed panics, no explicit exit',
         'main: failure exactly when generation failed, every error printed']
FLOORS = {'functions_checked': 200, 'error_values': 500, 'handovers': 200, 'fallible_calls': 150}
CLI = 'clap_builder::Parser::parse().command'
G_ = 'lapex_codegen::GeneratedCodeWriter::'
BUFFERS = ('BufWriter::new', 'BufWriter::with_capacity', 'LineWriter::new', 'LineWriter::with_capacity')


def run(ctx):
    prog = ctx.prog
    types = linear.Types(prog)
    graph = cg.Graph(prog)
    for b in prog.bodies.values():
        n, h, out = linear.check(b, types, ('lapex::LapexError',) if b['name'].startswith('lapex_cli::') else ())
        ctx.count('functions_checked')
        ctx.count('error_values', n)
        ctx.count('handovers', h)
        if n:
            ctx.functions.add(b['name'])
        for m, sp in out:
            ctx.violation('linear/%s/%s' % (b['name'], m.split(' (')[0]), '%s at %s:%s: %s' % (b['name'], sp[0], sp[1], m))
        for i, t in cg.calls(b):
            f = cg.callee(t)
            names = cg.names(f) if f else []
            if types.carries(b['locals'][t['dest'][0]][0]) == 'value':
                ctx.count('fallible_calls')
            at = '%s (%s)' % (b['name'], cg.where(t))
            fid = str((f or {}).get('rid') or (f or {}).get('id'))
            if '::thread::' in fid and fid.split('::')[-1] in ('spawn', 'scope', 'spawn_unchecked', 'spawn_scoped'):
                ctx.violation('escape/%s/thread' % b['name'], '%s: a panic of another thread does not reach the exit status' % at)
            if ('::process::' in fid and fid.split('::')[-1] in ('exit', 'abort')) or '::panic::' in fid and fid.split('::')[-1] in ('catch_unwind', 'set_hook', 'take_hook'):
                ctx.violation('escape/%s/%s' % (b['name'], fid.split('::')[-1]), '%s: %s can hide a failure from the exit status' % (at, fid))
            for n in names:
                tail = n.split('::')[-1]
                if tail in ('write', 'write_vectored') and ('core::Write' in n or 'std::Write' in n or 'io::Write' in n or n.endswith('as core::Write>::' + tail)):
                    ctx.violation('short/' + b['name'], '%s: Write::%s may write only part of its input and still succeed' % (at, tail))
                if tail == 'forget' and 'mem' in n:
                    ctx.violation('forget/' + b['name'], '%s: mem::forget leaves a value unexamined' % at)
    buffers(ctx, graph)
    main(ctx)


def buffers(ctx, graph):
    prog = ctx.prog
    g = ctx.summary(G_ + 'generate_code')
    W = 'apply(self.default_writer_fun, str)!Ok'
    OPEN = '!contains(self.targets, str) & apply(self.default_writer_fun, str) is Ok'
    ctx.spec_any(g, 'flush', ['\n'.join([
        f'call(core::Write::flush, {W}) if {OPEN} & apply(G, {W}) is Ok',
        'return(apply(G, mapval(self.targets, str))) if contains(self.targets, str)',
        f'return({ok}) if {OPEN} & apply(G, {W}) is Ok{g2}'] + extra + [
        f'return(Result::Err{{0: apply(G, {W})!Err}}) if {OPEN} & apply(G, {W}) is Err',
        'return(Result::Err{0: apply(self.default_writer_fun, str)!Err}) if !contains(self.targets, str) & apply(self.default_writer_fun, str) is Err'])
        for ok, g2, extra in ((f'core::Write::flush({W})', '', []),
                              ('Result::Ok{0: _}', f' & core::Write::flush({W}) is Ok', [f'return(Result::Err{{0: core::Write::flush({W})!Err}}) if {OPEN} & apply(G, {W}) is Ok & core::Write::flush({W}) is Err']))],
        watch=['return'])
    # who opens files through the writer function
    gid = prog.find(G_ + 'generate_code')
    for b in prog.bodies.values():
        reads = uses_field(b['blocks'], 'default_writer_fun')
        ctx.require(not reads or (gid and b['id'] == gid['id']) or 'with_default' in b['name'], 'opener/' + b['name'], '%s uses the writer function of GeneratedCodeWriter: files it opens are not flushed by generate_code' % b['name'])
    # buffered writers come from such a writer function, or are flushed where they are made
    given = set()
    for b, i, t, f in graph.sites(lambda n: n.split('::')[-1] == 'with_default' and 'GeneratedCodeWriter' in n):
        ids = set()
        cg.mentions(t, ids)
        ids2 = set()
        cg.mentions([b['locals'][pl[1][0]][0] for pl in places(t['args'])], ids2)
        given |= ids | ids2
    n = 0
    for b, i, t, f in graph.sites(lambda n: any(n.endswith(x) for x in BUFFERS)):
        n += 1
        ok = b['id'] in given
        if not ok:
            for j, t2 in cg.calls(b):
                f2 = cg.callee(t2)
                if f2 and any(x.split('::')[-1] in ('flush', 'into_inner') for x in cg.names(f2)):
                    ok = True
        ctx.require(ok, 'buffer/' + b['name'], '%s (%s): a buffered file is dropped without a checked flush' % (b['name'], cg.where(t)))
    ctx.count('buffered_files', n)


def places(x):
    out = []
    linear.operand_places(x, out)
    return out


def uses_field(x, name):
    if isinstance(x, (list, tuple)):
        if len(x) >= 2 and x[0] == 'f' and x[1] == name:
            return True
        return any(uses_field(y, name) for y in x)
    if isinstance(x, dict):
        return any(uses_field(y, name) for y in x.values())
    return False


def main(ctx):
    m = ctx.summary('lapex_cli::main', ('lapex::generate',))
    if m is None:
        return
    m = copy.copy(m)
    m.effects = [copy.copy(e) for e in m.effects]
    for e in m.effects:
        if e.kind == 'call' and str(e.args[0]) == 'std::_eprint':
            e.kind, e.args = 'eprint', list(e.args[1:])
    O = CLI + '!Generate.0.'
    for nl, val in (('', 'False'), ('!', 'True')):
        GEN = f'lapex::generate({val}, {O}algorithm, {O}table, {O}grammar, {O}target, {O}language, _)'
        ctx.spec_any(m, 'exit', [f'''
            return(0) if {GEN} is Ok
            return(1) if {GEN} is Err
            for each({GEN}!Err): eprint(fmt(each({GEN}!Err), _)) if {GEN} is Err
        '''], watch=['return'], given_=[f'{CLI} is Generate', f'{nl}{O}no_lexer'])
    D = CLI + '!Debug.0.'
    GEN = f'lapex::generate(True, {D}algorithm, ?t, {D}grammar, ?d, Language::Rust{{}}, _)'
    ctx.spec(m, 'exit-debug', f'return(1) if {GEN} is Err', given_=[f'{CLI} is Debug', 'tempdir::TempDir::new(_) is Ok'])
