"""Determinism, as the absence of its causes in the whole program: (1) the order of a hash table never reaches a result (sa/hashorder.py, interprocedural dataflow over MIR);
(2) addresses are only ever compared between production rules, which all live in one vector (ownership by type), and are never printed or turned into numbers; (3) nothing
asks for time, randomness, the environment, threads or the file system's order; no state survives in statics."""
import re
from .. import cg, hashorder
from ..hashorder import places
TECHNIQUE = 'static analysis: dataflow over rustc MIR for hash iteration order, type-based ownership rule for compared addresses, whole-program call and static rules'
RULES = ['no result depends on the iteration order of a HashMap or HashSet', 'compared addresses are those of production rules, which are only owned by the grammar and its builder', 'no address is printed or cast to a number',
         'no call that observes time, randomness, environment, threads, process ids or directory order', 'no static with interior mutability']
FLOORS = {'functions_checked': 200, 'library_calls': 2000, 'rule_owners': 1}
RULE = 'lapex_parser::Rule'
FORBIDDEN = {
    'time': ('::time::',), 'environment': ('std::env::',), 'randomness': ('::rand::', 'rand_core', 'RandomState', '::random', 'getrandom', 'fastrand'),
    'threads': ('std::thread::', '::mpsc::', 'rayon', 'crossbeam', 'tokio'), 'process': ('std::process::id', '::os::'), 'network': ('std::net::',),
    'directory order': ('::fs::read_dir', '::fs::metadata', '::fs::canonicalize', '::path::{impl#71}::canonicalize', '::fs::symlink_metadata', '::fs::read_link')}
MUTABLE = ('Atomic', 'Mutex', 'RwLock', 'RefCell', 'Cell', 'OnceCell', 'OnceLock', 'LocalKey', 'UnsafeCell', 'Once')
PANICS = {'unwrap': 1, 'expect': 1, 'unwrap_err': 0, 'expect_err': 0}


def walk(ty):
    yield ty
    if isinstance(ty, list):
        for x in ty[1:]:
            yield from walk(x)


def pointer(x):
    """what a raw pointer or function pointer type points to, None for other types"""
    h = str(x[0]) if isinstance(x, list) and x else ''
    if h.startswith(('*const', '*mut')):
        if len(x) > 1:
            return str(x[1][0]) if isinstance(x[1], list) and x[1] else str(x[1])
        return re.sub(r'<.*', '', h.split(' ', 1)[-1])
    if h.split('<')[0].endswith('NonNull'):
        return 'NonNull'
    if h.startswith(('fn(', 'unsafe fn', 'extern ', 'for<')) or h in ('fnptr', 'fn'):
        return 'function pointer'
    return None


def raw(ty):
    """pointee types of raw pointers inside a type, and function pointers"""
    for x in walk(ty):
        p = pointer(x)
        if p is not None:
            yield p


def is_rule(b, p):
    return p == RULE or p.split('::')[-1] == 'Rule' and not b['name'].lstrip('<').startswith('lapex_input')


def owns(ty, name):
    """does a value of this type own one of these (references, iterators over them and closures do not)?"""
    if not isinstance(ty, list) or not ty:
        return False
    if ty[0] == name:
        return True
    if ty[0] in ('&', '&mut', 'closure', 'fndef', 'core::Iter', 'core::IterMut', 'core::PhantomData', 'fnptr', 'dyn'):
        return False
    return any(owns(x, name) for x in ty[1:])


def unstable_types(prog):
    """types whose Debug output shows addresses or hash order"""
    fmts = {}
    for b in prog.bodies.values():
        n = b['name']
        if n.startswith('<') and n.endswith(' as core::Debug>::fmt'):
            fmts[n[1:].split(' as ')[0]] = b
    bad = set()
    while True:
        new = set(bad)
        for n, b in fmts.items():
            for l in b['locals']:
                if any(True for _ in bad_in(l[0], bad)):
                    new.add(n)
        if new == bad:
            return bad
        bad = new


def bad_in(ty, bad):
    for x in walk(ty):
        if isinstance(x, list) and x:
            h = str(x[0])
            if h.startswith(('*const', '*mut')) or h.split('::')[-1] in hashorder.MAPS or h in bad:
                yield h


def run(ctx):
    prog = ctx.prog
    a = hashorder.Analysis(prog)
    for (fn, msg), t in a.run().items():
        ctx.violation('hash/%s/%s' % (fn, msg.split(',')[0][:60]), '%s (%s): %s' % (fn, cg.where(t), msg))
    ctx.count('hash_sequences', a.sources)
    ctx.count('hash_sequences_made_unordered', a.sinks)
    unstable = unstable_types(prog)
    graph = cg.Graph(prog)
    builders = set()
    for b in prog.bodies.values():
        if b['name'] in ('lapex_parser::GrammarBuilder::from_rule_set', 'lapex_parser::Grammar::new', 'lapex_parser::Grammar::from_rule_set'):
            builders |= set(graph.reach([b]))
    for b in prog.bodies.values():
        ctx.count('functions_checked')
        ctx.functions.add(b['name'])
        L = b['locals']
        fmt = b['name'].endswith(' as core::Debug>::fmt')
        for l in L:
            if owns(l[0], RULE):
                ctx.count('rule_owners')
                ok = b['id'] in builders or owns(l[0], 'lapex_parser::Grammar') or b['name'] == '<%s as core::Clone>::clone' % RULE
                ctx.require(ok, 'owner/' + b['name'], '%s owns a production rule (`%s`): its address has no fixed place among those of the grammar, and items and rule indices are ordered by address' % (b['name'], l[1] or str(l[2])[:60]))
            for x in walk(l[0]):
                if isinstance(x, list) and x and str(x[0]).split('::')[-1] in ('BTreeMap', 'BTreeSet', 'BinaryHeap') and len(x) > 1:
                    for p in raw(x[1]):
                        ctx.count('pointer_keys')
                        ctx.require(is_rule(b, p), 'ptrkey/%s/%s' % (b['name'], p), '%s orders a collection by the addresses of %s' % (b['name'], p))
        for bb in b['blocks']:
            if bb.get('cleanup'):
                continue
            for s in bb['s']:
                if s[0] != '=':
                    continue
                rv = s[2]
                if rv[0] == 'cast' and ('ExposeProvenance' in str(rv[1]) or str(rv[1]).startswith(('PointerExpose', 'FnPtrToInt')) or str(rv[1]) == 'Transmute' and list(raw(rv[4])) and not list(raw(rv[3]))):
                    ctx.violation('addr/' + b['name'], '%s (%s): an address becomes a number' % (b['name'], cg.where({'span': s[3] if len(s) > 3 else None})))
                if rv[0] in ('bin', 'binop') and str(rv[1]) in ('Lt', 'Le', 'Gt', 'Ge', 'Cmp', 'Offset', 'Sub'):
                    for m, p in places(rv):
                        if not p[1]:
                            ty = L[p[0]][0]
                            if pointer(ty) is not None:
                                q = list(raw(ty))
                                ctx.count('pointer_comparisons')
                                ctx.require(is_rule(b, q[0]), 'ptrcmp/' + b['name'], '%s compares the addresses of %s' % (b['name'], q[:1]))
            statics(ctx, b, bb['s'] and [s[2] for s in bb['s'] if s[0] == '='])
            t = bb['t']
            statics(ctx, b, t.get('args'))
            if t.get('k') == 'call':
                call(ctx, b, t, unstable, fmt)


def statics(ctx, b, x):
    if isinstance(x, dict):
        if 'static' in x:
            ctx.count('statics')
            heads = [str(h[0]).split('::')[-1] for h in walk(x.get('ty')) if isinstance(h, list) and h]
            bad = [h for h in heads if any(h == m or m == 'Atomic' and h.startswith(m) for m in MUTABLE)] + (['static mut'] if isinstance(x.get('ty'), list) and str(x['ty'][0]).startswith('*mut') else [])
            ctx.require(not bad, 'static/%s/%s' % (b['name'], x['static']), '%s uses the static %s (%s): a second run in the same process may differ' % (b['name'], x['static'], bad[:1]))
        for v in x.values():
            statics(ctx, b, v)
    elif isinstance(x, (list, tuple)):
        for v in x:
            statics(ctx, b, v)


def call(ctx, b, t, unstable, fmt):
    L = b['locals']
    f = cg.callee(t)
    if f is None:
        return
    ctx.count('library_calls')
    fid = str(f.get('rid') or f.get('id'))
    names = cg.names(f)
    short = names[0].split('::')[-1] if names else '?'
    at = '%s (%s)' % (b['name'], cg.where(t))
    for what, pats in FORBIDDEN.items():
        for n in [fid, str(f.get('id'))] + names:
            if any(p in n for p in pats):
                ctx.violation('ambient/%s/%s' % (b['name'], what), '%s calls %s: the output may depend on %s' % (at, fid, what))
                break
    if 'tempdir' in fid or '::process::' in fid:
        ctx.require(b['name'].startswith('lapex_cli::main'), 'ambient/%s/process' % b['name'], '%s calls %s outside of the command line' % (at, fid))
    if short in ('finish', 'hash_one', 'build_hasher') and ('hash' in fid or 'Hash' in str(names)):
        ctx.violation('hashvalue/' + b['name'], '%s uses the value of a hash' % at)
    if short == 'new_pointer' or short in ('expose_provenance', 'addr', 'expose_addr') and 'ptr' in fid:
        ctx.violation('addr/' + b['name'], '%s: an address is shown or becomes a number' % at)
    atys = [L[p[0]][0] for _, p in places(t['args']) if not p[1]]
    if any(is_hash_arg(x) for x in atys):
        ctx.count('hash_operations')
    tr = str(f.get('trait') or '')
    if tr.split('::')[-1] in ('Ord', 'PartialOrd'):
        for x in atys[:1]:
            x = hashorder.strip(x)
            if pointer(x) is not None:
                q = list(raw(x))
                ctx.count('pointer_comparisons')
                ctx.require(is_rule(b, q[0]), 'ptrcmp/' + b['name'], '%s compares the addresses of %s' % (at, q[:1]))
    if not fmt and short == 'new_debug':
        for x in f.get('targs') or []:
            for h in bad_in(x, unstable):
                ctx.violation('debug/%s/%s' % (b['name'], h), '%s prints %s with Debug, which shows addresses or hash order' % (at, h))
                break
    if short in PANICS and atys and hashorder.head(atys[0]) == 'Result':
        args = [x for x in atys[0][1:] if isinstance(x, list)]
        if len(args) > PANICS[short]:
            for h in bad_in(args[PANICS[short]], unstable):
                ctx.violation('debug/%s/%s' % (b['name'], h), '%s panics with the Debug output of %s, which shows addresses or hash order' % (at, h))
                break


def is_hash_arg(ty):
    return hashorder.is_hash(ty)
