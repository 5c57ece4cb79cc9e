"""Semantics of the library functions the workspace calls."""
from .term import *
from .engine import *
from . import engine as E

TABLE = {}


class Model:
    def __init__(self, fn, body_first=False):
        self.fn = fn
        self.body_first = body_first

    def prefer_body(self, fn, body):
        return self.body_first


def model(*names, body_first=False):
    def deco(f):
        m = Model(f, body_first)
        for n in names:
            TABLE[n] = m
        return f
    return deco


COLL = {'alloc::Vec', 'alloc::VecDeque', 'alloc::BTreeMap', 'alloc::BTreeSet', 'std::HashMap', 'std::HashSet',
        'alloc::String', 'alloc::BinaryHeap', 'std::OsString'}


def lookup(eng, name, rname, fn):
    m = TABLE.get(name)
    if m is None:
        m = TABLE.get(rname)
    return m


def val(eng, x, st):
    """erase reference"""
    v = eng.deref_value(x, st)
    n = 0
    while (v.op == 'ref' or (v.op == 'ite' and any(l.op == 'ref' for _, l in leaves(v)))) and n < 4:
        v = eng.deref_value(v, st)
        n += 1
    return v


# ------------------------------------------------------------------ identities
@model('core::Clone::clone', 'alloc::ToOwned::to_owned', 'core::Borrow::borrow', 'core::AsRef::as_ref',
       'core::Option::cloned', 'core::Option::copied', 'core::Option::as_ref', 'core::Option::as_deref',
       'alloc::Box::new', 'alloc::Rc::new', 'alloc::Arc::new', 'alloc::String::as_str', 'alloc::Vec::as_slice', 'alloc::Vec::into_boxed_slice',
       'alloc::String::into_boxed_str', 'core::Result::as_ref', 'core::must_use', '[]::to_vec', 'alloc::String::into_string',
       'core::hint::must_use', 'core::convert::identity', 'alloc::Rc::try_unwrap_',
       '[]::as_ref', 'alloc::String::as_bytes', 'str::as_bytes', 'alloc::Cow::into_owned', 'core::RefCell::new', 'core::Cell::new', 'std::Path::new', 'std::Path::to_path_buf',
       'core::Option::as_deref_mut', 'core::CloneToUninit', 'core::Box::from', 'alloc::Box::into_inner', 'core::From::from_', 'core::convert::AsRef', 'alloc::Box::pin')
def m_ident(eng, fr, fn, args, st, site, t):
    return val(eng, args[0], st)


@model('core::Deref::deref', body_first=True)
def m_deref(eng, fr, fn, args, st, site, t):
    return val(eng, args[0], st)


@model('core::Reverse', 'core::black_box')
def m_ident2(eng, fr, fn, args, st, site, t):
    return args[0]


@model('core::DerefMut::deref_mut', 'core::BorrowMut::borrow_mut', 'core::AsMut::as_mut', 'alloc::Vec::as_mut_slice')
def m_mutident(eng, fr, fn, args, st, site, t):
    return args[0]


@model('core::Into::into', 'core::From::from', body_first=True)
def m_from(eng, fr, fn, args, st, site, t):
    rn = fn.get('rname', '')
    v = args[0]
    if fn['name'].endswith('Into::into'):
        # blanket Into: use the From impl in the workspace if there is one
        ta = fn.get('targs', [])
        if len(ta) > 1:
            src, dst = ta[0][0], ta[1][0]
            if src in ('&', '&mut'):
                src = ta[0][1][0]
            b = eng.prog.find('<%s as core::From>::from' % dst)
            bs = eng.prog.byname.get('<%s as core::From>::from' % dst, [])
            for b in bs:
                at = b['locals'][1][0]
                h = at[0] if at[0] not in ('&', '&mut') else at[1][0]
                if h == src:
                    return eng.call_body(b, args, st, (site, b['id']), {}, {})
            if dst in E.ENUMS and src != dst and not dst.startswith('core::') and not dst.startswith('alloc'):
                return mk('call', 'into:' + dst, val(eng, v, st))
    if len(fn.get('targs', [])) > 1:
        ta = fn['targs']
        a, b = (ta[0][0], ta[1][0])
        w = eng.WIDTH
        if a in w and b in w:
            return v
    return val(eng, v, st)


@model('core::TryFrom::try_from', 'core::TryInto::try_into')
def m_tryfrom(eng, fr, fn, args, st, site, t):
    # integer conversion that cannot lose information
    ta = fn.get('targs') or []
    to = ta[1 if fn['name'].endswith('try_into') else 0] if len(ta) > 1 else None
    v = val(eng, args[0], st)
    if isinstance(to, list) and to and to[0] in ('u8', 'u16', 'u32', 'u64', 'usize', 'i32', 'i64'):
        return gite(bool_atom(mk('fits', to[0], v)), mk('agg', 'core::Result', 'Ok', ('0',), v), mk('agg', 'core::Result', 'Err', ('0',), mk('call', 'try_from_error', v)))
    return mk('call', 'try_from', v)


@model('alloc::ToString::to_string')
def m_to_string(eng, fr, fn, args, st, site, t):
    return fmt_term([display(eng, val(eng, args[0], st), fn.get('targs', [['?']])[0])])


@model('alloc::String::from', 'alloc::str::to_string')
def m_sfrom(eng, fr, fn, args, st, site, t):
    return val(eng, args[0], st)


def display(eng, v, ty=None):
    return v


def fmt_term(parts):
    out = []
    for p in parts:
        if p.op == 'fmt':
            for q in p.a:
                push_part(out, q)
        else:
            push_part(out, p)
    if len(out) == 1 and out[0].op != 'ite':
        return out[0]
    if not out:
        return cstr('')
    return mk('fmt', *out)


REMAKE['fmt'] = lambda *p: fmt_term(list(p))


def push_part(out, p):
    if p.op == 'c' and p.a[0] == 'int':
        p = cstr(str(p.a[1]))
    elif p.op == 'c' and p.a[0] == 'char':
        p = cstr(chr(p.a[1]))
    elif p.op == 'c' and p.a[0] == 'bool':
        p = cstr('true' if p.a[1] else 'false')
    if p.op == 'c' and p.a[0] == 'str' and out and out[-1].op == 'c' and out[-1].a[0] == 'str':
        out[-1] = cstr(out[-1].a[1] + p.a[1])
    elif p.op == 'c' and p.a[0] == 'str' and p.a[1] == '':
        pass
    else:
        out.append(p)


# ------------------------------------------------------------------ helpers
def branch(eng, st, guard, ft, ff, site='br'):
    """evaluate ft under guard and ff under its negation; merges value and state"""
    if guard is TRUE:
        return ft(st)
    if guard is FALSE or guard is BOT:
        return ff(st)
    cond0 = st.cond
    g1 = g_and(cond0, guard)
    g2 = g_and(cond0, g_not(guard))
    if g1 is FALSE:
        return ff(st)
    if g2 is FALSE:
        return ft(st)
    s1 = State(dict(st.v), g1)
    s2 = State(dict(st.v), g2)
    v1 = ft(s1)
    v2 = ff(s2)
    alive1, alive2 = s1.cond is not FALSE, s2.cond is not FALSE
    if alive1 and alive2:
        s1.cond, s2.cond = g1, g2
        m = eng.merge(site, site, s1, s2)
        st.v = m.v
        st.cond = cond0
        return gite(simp(guard, cond0), v1, v2)
    if alive1:
        st.v = s1.v
        st.cond = cond0
        return v1
    if alive2:
        st.v = s2.v
        st.cond = cond0
        return v2
    st.cond = FALSE
    return BOT


def opt_case(eng, st, o, fsome, fnone, kinds=(OPT, 'Some')):
    dom, pos_ = kinds
    g = is_variant(o, pos_, dom)
    return branch(eng, st, g, lambda s: fsome(s, pay(restrict(o, g), pos_, '0')), fnone)


def restrict(o, g):
    return simp(o, g)


def res_case(eng, st, r, fok, ferr):
    g = is_variant(r, 'Ok', RES)
    return branch(eng, st, g, lambda s: fok(s, pay(simp(r, g), 'Ok', '0')),
                  lambda s: ferr(s, pay(simp(r, g_not(g)), 'Err', '0')))


def is_result(fn):
    return 'Result' in fn['name'].split('::')[-2]


# ------------------------------------------------------------------ Option / Result
@model('core::Option::unwrap', 'core::Option::expect', 'core::Result::unwrap', 'core::Result::expect',
       'core::Option::unwrap_unchecked', 'core::Option::unwrap_or_default', 'core::Result::unwrap_or_default')
def m_unwrap(eng, fr, fn, args, st, site, t):
    r = is_result(fn)
    v = args[0]
    nm = fn['name'].split('::')[-1]
    if nm == 'unwrap_or_default':
        return mk('call', nm, v)
    g = is_variant(v, 'Ok' if r else 'Some', RES if r else OPT)
    if g is not TRUE:
        eng.emit('panic', cstr(nm), v, guard=g_not(g), st=st)
    if g is FALSE:
        st.cond = FALSE
        return BOT
    return pay(simp(v, g), 'Ok' if r else 'Some', '0')


@model('*const T::as_ref', '*mut T::as_ref', '*mut T::as_mut')
def m_ptr_ref(eng, fr, fn, args, st, site, t):
    # a pointer made from a reference is that reference
    return some(args[0])


@model('core::Option::is_some', 'core::Option::is_none', 'core::Result::is_ok', 'core::Result::is_err')
def m_is(eng, fr, fn, args, st, site, t):
    v = val(eng, args[0], st)
    nm = fn['name'].split('::')[-1]
    vn = {'is_some': ('Some', OPT), 'is_none': ('None', OPT), 'is_ok': ('Ok', RES), 'is_err': ('Err', RES)}[nm]
    return is_variant(v, vn[0], vn[1])


@model('core::Option::map', 'core::Result::map', 'core::Result::map_err', 'core::Option::and_then', 'core::Result::and_then',
       'core::Option::unwrap_or', 'core::Option::unwrap_or_else', 'core::Result::unwrap_or', 'core::Result::unwrap_or_else',
       'core::Option::ok_or', 'core::Option::ok_or_else', 'core::Option::map_or', 'core::Option::map_or_else',
       'core::Option::filter', 'core::Option::or', 'core::Option::or_else', 'core::Result::ok', 'core::Result::err',
       'core::Option::is_some_and', 'core::Option::is_none_or', 'core::Result::is_ok_and', 'core::Result::or_else', 'core::Option::and',
       'core::Option::xor', 'core::Option::zip', 'core::Option::flatten')
def m_optcomb(eng, fr, fn, args, st, site, t):
    nm = fn['name'].split('::')[-1]
    r = is_result(fn)
    o = args[0]
    if o.op == 'ref':
        o = val(eng, o, st)
    f = args[1] if len(args) > 1 else None
    ap = lambda *a: (lambda s, fn_=f: eng.apply(fn_, list(a), s, (site, nm)))

    def call(s, *a):
        return eng.apply(f, list(a), s, (site, nm))
    if not r:
        if nm == 'map':
            return opt_case(eng, st, o, lambda s, v: some(call(s, v)), lambda s: NONE)
        if nm == 'and_then':
            return opt_case(eng, st, o, lambda s, v: call(s, v), lambda s: NONE)
        if nm == 'and':
            return opt_case(eng, st, o, lambda s, v: f, lambda s: NONE)
        if nm == 'flatten':
            return opt_case(eng, st, o, lambda s, v: v, lambda s: NONE)
        if nm == 'zip':
            return opt_case(eng, st, o, lambda s, v: opt_case(eng, s, f, lambda s2, w: some(mk('tup', v, w)), lambda s2: NONE), lambda s: NONE)
        if nm == 'unwrap_or':
            return opt_case(eng, st, o, lambda s, v: v, lambda s: f)
        if nm == 'unwrap_or_else':
            return opt_case(eng, st, o, lambda s, v: v, lambda s: call(s))
        if nm == 'ok_or':
            return opt_case(eng, st, o, lambda s, v: ok(v), lambda s: err(f))
        if nm == 'ok_or_else':
            return opt_case(eng, st, o, lambda s, v: ok(v), lambda s: err(call(s)))
        if nm == 'map_or':
            g = args[2]
            return opt_case(eng, st, o, lambda s, v: eng.apply(g, [v], s, (site, nm)), lambda s: f)
        if nm == 'map_or_else':
            g = args[2]
            return opt_case(eng, st, o, lambda s, v: eng.apply(g, [v], s, (site, nm)), lambda s: call(s))
        if nm == 'is_some_and':
            return opt_case(eng, st, o, lambda s, v: to_guard(call(s, v)), lambda s: FALSE)
        if nm == 'is_none_or':
            return opt_case(eng, st, o, lambda s, v: to_guard(call(s, v)), lambda s: TRUE)
        if nm == 'filter':
            return opt_case(eng, st, o, lambda s, v: gite(to_guard(call(s, v)), some(v), NONE), lambda s: NONE)
        if nm == 'or':
            return opt_case(eng, st, o, lambda s, v: some(v), lambda s: f)
        if nm == 'or_else':
            return opt_case(eng, st, o, lambda s, v: some(v), lambda s: call(s))
    else:
        if nm == 'map':
            return res_case(eng, st, o, lambda s, v: ok(call(s, v)), lambda s, e: err(e))
        if nm == 'map_err':
            return res_case(eng, st, o, lambda s, v: ok(v), lambda s, e: err(call(s, e)))
        if nm == 'and_then':
            return res_case(eng, st, o, lambda s, v: call(s, v), lambda s, e: err(e))
        if nm == 'unwrap_or':
            return res_case(eng, st, o, lambda s, v: v, lambda s, e: f)
        if nm == 'unwrap_or_else':
            return res_case(eng, st, o, lambda s, v: v, lambda s, e: call(s, e))
        if nm == 'ok':
            return res_case(eng, st, o, lambda s, v: some(v), lambda s, e: NONE)
        if nm == 'err':
            return res_case(eng, st, o, lambda s, v: NONE, lambda s, e: some(e))
        if nm == 'is_ok_and':
            return res_case(eng, st, o, lambda s, v: to_guard(call(s, v)), lambda s, e: FALSE)
        if nm == 'or_else':
            return res_case(eng, st, o, lambda s, v: ok(v), lambda s, e: call(s, e))
    return mk('call', fn['name'], *[eng.purify(a, st) for a in args])


@model('core::Option::as_mut')
def m_as_mut(eng, fr, fn, args, st, site, t):
    r = args[0]
    if r.op == 'ref':
        v = eng.read(r.a[0], r.a[1], st)
        return map_leaves(v, lambda x: some(mk('ref', r.a[0], r.a[1] + (('v', 'Some', '0'),))) if x is not NONE else NONE) if v.op in ('agg', 'ite') else \
            gite(is_variant(v, 'Some', OPT), some(mk('ref', r.a[0], r.a[1] + (('v', 'Some', '0'),))), NONE)
    return r


@model('core::Option::take', 'core::Option::replace', 'core::Option::insert', 'core::take', 'core::replace', 'core::swap', 'core::Option::get_or_insert_with')
def m_take(eng, fr, fn, args, st, site, t):
    nm = fn['name'].split('::')[-1]
    r = args[0]
    old = val(eng, r, st)
    if r.op == 'ref':
        root, path = r.a[0], r.a[1]
    else:
        root, path = ('m', r), ()
    if nm == 'take' and 'Option' in fn['name']:
        eng.assign_to(root, path, NONE, st)
        return old
    if nm == 'take':
        eng.assign_to(root, path, mk('call', 'default'), st)
        return old
    if nm == 'replace':
        eng.assign_to(root, path, args[1] if 'Option' not in fn['name'] else some(args[1]), st)
        return old
    if nm == 'insert':
        eng.assign_to(root, path, some(args[1]), st)
        return mk('ref', root, path + (('v', 'Some', '0'),))
    if nm == 'swap':
        r2 = args[1]
        old2 = val(eng, r2, st)
        root2, path2 = (r2.a[0], r2.a[1]) if r2.op == 'ref' else (('m', r2), ())
        eng.assign_to(root, path, old2, st)
        eng.assign_to(root2, path2, old, st)
        return UNIT
    return mk('call', fn['name'], old)


@model('core::Try::branch')
def m_branch(eng, fr, fn, args, st, site, t):
    v = args[0]
    ty = fn['targs'][0][0] if fn.get('targs') else ''
    mkcf = lambda n, x: mk('agg', 'core::ControlFlow', n, ('0',), x)
    if 'Option' in ty:
        g = is_variant(v, 'Some', OPT)
        return gite(g, mkcf('Continue', pay(simp(v, g), 'Some', '0')), mkcf('Break', NONE))
    g = is_variant(v, 'Ok', RES)
    return gite(g, mkcf('Continue', pay(simp(v, g), 'Ok', '0')), mkcf('Break', err(pay(simp(v, g_not(g)), 'Err', '0'))))


@model('core::FromResidual::from_residual')
def m_residual(eng, fr, fn, args, st, site, t):
    v = args[0]
    # error conversion through From where the workspace defines one
    ta = fn.get('targs', [])
    if len(ta) >= 2 and ta[0][0] == 'core::Result':
        dst = ta[0][2][0]
        src = ta[1][2][0] if len(ta[1]) > 2 else None
        if src != dst:
            for b in eng.prog.byname.get('<%s as core::From>::from' % dst, []):
                at = b['locals'][1][0]
                h = at[0]
                if h == src:
                    return res_case(eng, st, v, lambda s, x: ok(x),
                                    lambda s, e: err(eng.call_body(b, [e], s, (site, b['id']), {}, {})))
            return map_leaves(v, lambda x: err(mk('call', 'from:%s' % dst, x.a[3])) if x.op == 'agg' and x.a[1] == 'Err' else x)
    return v


@model('bool::then_some')
def m_then_some(eng, fr, fn, args, st, site, t):
    return gite(to_guard(args[0]), some(args[1]), NONE)


@model('bool::then')
def m_then(eng, fr, fn, args, st, site, t):
    return branch(eng, st, to_guard(args[0]), lambda s: some(eng.apply(args[1], [], s, (site, 'then'))), lambda s: NONE)


# ------------------------------------------------------------------ function values
@model('core::Fn::call', 'core::FnMut::call_mut', 'core::FnOnce::call_once')
def m_call(eng, fr, fn, args, st, site, t):
    f = args[0]
    tup = args[1]
    if tup is UNIT:
        a = []
    elif tup.op == 'tup':
        a = list(tup.a)
    else:
        a = [tup]
    return eng.apply(f, a, st, (site, 'call'))


# ------------------------------------------------------------------ comparison
@model('core::PartialEq::eq', 'core::PartialEq::ne')
def m_eq(eng, fr, fn, args, st, site, t):
    a, b = (eng.purify(val(eng, x, st), st) for x in args)
    g = eq(a, b)
    return g if fn['name'].endswith('::eq') else g_not(g)


@model('core::PartialOrd::lt', 'core::PartialOrd::gt', 'core::PartialOrd::le', 'core::PartialOrd::ge')
def m_ord(eng, fr, fn, args, st, site, t):
    a, b = (eng.purify(val(eng, x, st), st) for x in args)
    op = fn['name'].split('::')[-1]
    if op == 'lt':
        return eng.cmp(a, b)
    if op == 'gt':
        return eng.cmp(b, a)
    if op == 'le':
        return g_not(eng.cmp(b, a))
    return g_not(eng.cmp(a, b))


@model('core::Ord::cmp', 'core::PartialOrd::partial_cmp')
def m_cmp(eng, fr, fn, args, st, site, t):
    a, b = (eng.purify(val(eng, x, st), st) for x in args)
    o = lambda n: mk('agg', 'core::Ordering', n, ())
    v = gite(eng.cmp(a, b), o('Less'), gite(eq(a, b), o('Equal'), o('Greater')))
    return v if fn['name'].endswith('::cmp') else some(v)


@model('core::Ord::max', 'core::cmp::max', 'core::max', 'core::Ord::min', 'core::cmp::min', 'core::min')
def m_max(eng, fr, fn, args, st, site, t):
    nm = fn['name'].split('::')[-1]
    a, b = args
    if a.op == 'c' and b.op == 'c':
        return cint(max(a.a[1], b.a[1]) if nm == 'max' else min(a.a[1], b.a[1]))
    if a.id > b.id:
        a, b = b, a
    return mk('op', nm, a, b)


@model('core::Not::not')
def m_not(eng, fr, fn, args, st, site, t):
    return g_not(to_guard(val(eng, args[0], st)))


@model('core::Add::add', 'core::Sub::sub')
def m_addtrait(eng, fr, fn, args, st, site, t):
    a, b = (eng.purify(val(eng, x, st), st) for x in args)
    ty = fn['targs'][0][0] if fn.get('targs') else ''
    if ty == 'alloc::String':
        return fmt_term([a, b])
    if ty in eng.WIDTH or ty == '&':
        return add(a, b, 1 if fn['name'].endswith('add') else -1)
    return mk('call', fn['name'], a, b)


for _w in ('u8', 'u16', 'u32', 'u64', 'usize', 'i32', 'i64'):
    def _mkchecked(w):
        @model('%s::checked_add' % w, '%s::checked_sub' % w)
        def f(eng, fr, fn, args, st, site, t):
            s = add(args[0], args[1], 1 if fn['name'].endswith('add') else -1)
            return gite(bool_atom(mk('fits', w, s)), some(s), NONE)

        @model('%s::saturating_sub' % w, '%s::saturating_add' % w, '%s::wrapping_add' % w, '%s::wrapping_sub' % w)
        def g(eng, fr, fn, args, st, site, t):
            return mk('op', fn['name'].split('::')[-1], args[0], args[1])

        @model('%s::to_string' % w)
        def h(eng, fr, fn, args, st, site, t):
            return fmt_term([args[0]])
    _mkchecked(_w)


# ------------------------------------------------------------------ formatting
@model('core::Argument::new_display', 'core::Argument::new_debug', 'core::Argument::new_lower_hex', 'core::Argument::new_upper_hex', 'core::Argument::from_usize', 'core::Argument::new_binary')
def m_arg(eng, fr, fn, args, st, site, t):
    nm = fn['name'].split('::')[-1]
    v = eng.purify(val(eng, args[0], st), st)
    ty = fn.get('targs', [['?']])
    if nm == 'new_display':
        return mk('arg', 'd', v)
    return mk('arg', nm[4:] if nm.startswith('new_') else nm, v)


@model('core::Arguments::from_str', 'core::Arguments::from_str_nonconst')
def m_args_str(eng, fr, fn, args, st, site, t):
    return fmt_term([val(eng, args[0], st)])


@model('core::Arguments::new')
def m_args_new(eng, fr, fn, args, st, site, t):
    tpl = val(eng, args[0], st)
    al = val(eng, args[1], st)
    if tpl.op != 'c' or tpl.a[0] != 'bytes' or al.op != 'list':
        return mk('fmt?', tpl, al)
    b = bytes.fromhex(tpl.a[1])
    parts = []
    i = 0
    argi = 0
    while i < len(b):
        c = b[i]
        if c == 0:
            break
        if c < 0x80:
            parts.append(cstr(b[i + 1:i + 1 + c].decode('utf8', 'replace')))
            i += 1 + c
        elif c == 0x80:
            n = b[i + 1] | b[i + 2] << 8
            parts.append(cstr(b[i + 3:i + 3 + n].decode('utf8', 'replace')))
            i += 3 + n
        else:
            i += 1
            spec = []
            if c & 1:
                spec.append(b[i:i + 4].hex())
                i += 4
            if c & 2:
                w = b[i] | b[i + 1] << 8
                spec.append('w%s%d' % ('$' if c & 16 else '', w))
                i += 2
            if c & 4:
                w = b[i] | b[i + 1] << 8
                spec.append('p%s%d' % ('$' if c & 32 else '', w))
                i += 2
            if c & 8:
                argi = b[i] | b[i + 1] << 8
                i += 2
            a = al.a[argi] if argi < len(al.a) else mk('arg', 'd', UNIT)
            argi += 1
            v = a.a[1] if a.op == 'arg' else a
            if a.op == 'arg' and a.a[0] != 'd':
                v = mk('fmtas', a.a[0], v)
            if spec:
                v = mk('fmtspec', ','.join(spec), v)
            parts.append(v)
    return fmt_term(parts)


@model('alloc::format', 'alloc::fmt::format')
def m_format(eng, fr, fn, args, st, site, t):
    return args[0]


@model('core::Write::write_fmt', 'std::Write::write_fmt', 'core::Formatter::write_fmt', 'core::Formatter::write_str', 'core::Write::write_str', 'std::Write::write_all', 'core::Write::write_all', 'std::Write::write', 'core::Write::write_char', 'core::Formatter::write_char', 'core::Formatter::pad')
def m_write(eng, fr, fn, args, st, site, t):
    tgt = eng.target(args[0], st, site, 'writer') if args[0].op == 'ref' else val(eng, args[0], st)
    x = eng.purify(val(eng, args[1], st), st)
    eng.emit('write', tgt, x, st=st)
    return ok(UNIT)


@model('std::Write::flush')
def m_flush(eng, fr, fn, args, st, site, t):
    eng.emit('flush', eng.purify(args[0], st), st=st)
    return ok(UNIT)


@model('alloc::String::push_str', 'alloc::String::push')
def m_pushstr(eng, fr, fn, args, st, site, t):
    tgt = eng.target(args[0], st, site, 'string')
    eng.emit('write', tgt, fmt_term([eng.purify(val(eng, args[1], st), st)]), st=st)
    return UNIT


# ------------------------------------------------------------------ collections
def kind_of(fn):
    h = fn['name'].split('::')
    return h[-2] if len(h) > 1 else '?'


@model('alloc::Vec::new', 'alloc::Vec::with_capacity', 'alloc::BTreeMap::new', 'alloc::BTreeSet::new', 'std::HashMap::new',
       'std::HashSet::new', 'alloc::VecDeque::new', 'alloc::String::new', 'alloc::String::with_capacity', 'std::HashMap::with_capacity',
       'std::HashSet::with_capacity', 'alloc::VecDeque::with_capacity', 'alloc::BinaryHeap::new')
def m_new(eng, fr, fn, args, st, site, t):
    return eng.new_obj(kind_of(fn), site, st)


@model('petgraph::Graph::new', 'petgraph::Graph::with_capacity', 'petgraph::Graph::new_undirected', 'petgraph::Graph::default')
def m_newgraph(eng, fr, fn, args, st, site, t):
    return eng.new_obj('Graph', site, st)


@model('core::Default::default', body_first=True)
def m_default(eng, fr, fn, args, st, site, t):
    h = fn['targs'][0][0] if fn.get('targs') else '?'
    if h in COLL or h.startswith('petgraph'):
        return eng.new_obj(h.split('::')[-1], site, st)
    if h in eng.WIDTH:
        return FALSE if h == 'bool' else cint(0)
    if h == 'core::Option':
        return NONE
    return mk('call', 'default:' + h)


@model('alloc::Box::new_uninit')
def m_uninit(eng, fr, fn, args, st, site, t):
    return mk('box', site)


@model('alloc::box_assume_init_into_vec_unsafe', 'alloc::slice::into_vec', '[]::into_vec')
def m_intovec(eng, fr, fn, args, st, site, t):
    v = eng.deref_value(args[0], st)
    if v.op == 'list':
        o = eng.new_obj('Vec', site, st)
        if v.a:
            eng.emit('init', o, v, st=st)
        return o
    return v


@model('alloc::Vec::push', 'alloc::VecDeque::push_back', 'alloc::BTreeSet::insert', 'std::HashSet::insert', 'alloc::BinaryHeap::push', 'alloc::VecDeque::push_front')
def m_add(eng, fr, fn, args, st, site, t):
    tgt = eng.target(args[0], st, site, kind_of(fn))
    x = eng.purify(args[1], st)
    isset = 'Set::' in fn['name']
    r = UNIT
    if isset:
        r = g_not(member(eng, tgt, x, st))
    eng.emit('addfront' if 'push_front' in fn['name'] else 'add', tgt, x, st=st)
    bump(eng, tgt, st)
    return r


def bump(eng, tgt, st):
    for _, l in (leaves(tgt) if tgt.op == 'ite' else [(TRUE, tgt)]):
        eng.bump(l, st)


def ver(eng, coll, st):
    v = st.v.get(('ver', coll))
    if v is None or v is cint(0):
        return ()
    return (mk('ver', v),)


def member(eng, coll, x, st):
    if x.op in ('agg', 'tup') and any(isinstance(y, T) and E.contains_ite_shallow(y) for y in x.a):
        x = E.hoist(x)
    if coll.op == 'ite' or x.op == 'ite':
        return lift2(lambda c, y: member(eng, c, y, st), coll, x)
    c = contents(eng, coll)
    if c is not None and coll.op == 'list' or coll.op == 'list':
        g = FALSE
        for y in coll.a:
            g = g_or(g, eq(x, y))
        return g
    if x is BOT or coll is BOT:
        return BOT
    return bool_atom(mk('contains', coll, x, *ver(eng, coll, st)))


def contents(eng, coll):
    return None


@model('alloc::BTreeSet::contains', 'std::HashSet::contains', 'alloc::BTreeMap::contains_key', 'std::HashMap::contains_key',
       '[]::contains', 'alloc::VecDeque::contains')
def m_contains(eng, fr, fn, args, st, site, t):
    return member(eng, val(eng, args[0], st), eng.purify(val(eng, args[1], st), st), st)


@model('alloc::BTreeMap::insert', 'std::HashMap::insert')
def m_put(eng, fr, fn, args, st, site, t):
    tgt = eng.target(args[0], st, site, kind_of(fn))
    k, v = eng.purify(args[1], st), eng.purify(args[2], st)
    g = member(eng, tgt, k, st)
    r = gite(g, some(mk('oldval', tgt, k)), NONE)
    eng.emit('put', tgt, k, v, st=st)
    bump(eng, tgt, st)
    return r


def mapval(m, k):
    if k.op in ('agg', 'tup') and any(isinstance(y, T) and E.contains_ite_shallow(y) for y in k.a):
        k = E.hoist(k)
    if m.op == 'ite' or k.op == 'ite':
        return lift2(mapval, m, k)
    if m is BOT or k is BOT:
        return BOT
    if k.op == 'fld' and k.a[1] == '0' and k.a[0].op == 'elem' and k.a[0].a[0] is m:
        return fld(k.a[0], '1')
    return mk('mapval', m, k)


REMAKE['mapval'] = mapval


@model('alloc::BTreeMap::get', 'std::HashMap::get', 'alloc::BTreeMap::get_mut', 'std::HashMap::get_mut')
def m_get(eng, fr, fn, args, st, site, t):
    m = val(eng, args[0], st)
    k = eng.purify(val(eng, args[1], st), st)
    return gite(member(eng, m, k, st), some(map_leaves(mapval(m, k), lambda x: x)), NONE)


@model('alloc::BTreeMap::remove', 'std::HashMap::remove', 'alloc::BTreeSet::remove', 'std::HashSet::remove', 'alloc::BTreeSet::take')
def m_remove(eng, fr, fn, args, st, site, t):
    tgt = eng.target(args[0], st, site, kind_of(fn))
    k = eng.purify(val(eng, args[1], st), st)
    g = member(eng, tgt, k, st)
    eng.emit('remove', tgt, k, st=st)
    bump(eng, tgt, st)
    if 'Map' in fn['name'] or fn['name'].endswith('take'):
        return gite(g, some(mapval(tgt, k)), NONE)
    return g


@model('alloc::BTreeMap::entry', 'std::HashMap::entry')
def m_entry(eng, fr, fn, args, st, site, t):
    tgt = eng.target(args[0], st, site, kind_of(fn))
    k = eng.purify(args[1], st)
    e = mk('entry', tgt, k)
    return gite(member(eng, tgt, k, st), mk('agg', 'Entry', 'Occupied', ('0',), e), mk('agg', 'Entry', 'Vacant', ('0',), e))


def the_entry(x):
    for _, l in (leaves(x) if x.op == 'ite' else [(TRUE, x)]):
        if l.op == 'agg' and l.a[0] == 'Entry':
            return l.a[3]
        if l.op == 'entry':
            return l
    return x


@model('alloc::OccupiedEntry::get', 'std::OccupiedEntry::get', 'alloc::OccupiedEntry::get_mut', 'std::OccupiedEntry::get_mut', 'alloc::OccupiedEntry::into_mut', 'std::OccupiedEntry::into_mut')
def m_occget(eng, fr, fn, args, st, site, t):
    e = the_entry(val(eng, args[0], st))
    return mapval(e.a[0], e.a[1]) if e.op == 'entry' else mk('call', 'occupied', e)


@model('alloc::VacantEntry::insert', 'std::VacantEntry::insert', 'alloc::OccupiedEntry::insert', 'std::OccupiedEntry::insert')
def m_vacinsert(eng, fr, fn, args, st, site, t):
    e = the_entry(val(eng, args[0], st))
    if e.op != 'entry':
        eng.emit('mutate', e, st=st)
        return mk('call', 'vacant', e)
    m, k = e.a
    old = mapval(m, k)
    eng.emit('put', m, k, eng.purify(args[1], st), st=st)
    bump(eng, m, st)
    return old


@model('alloc::Entry::key', 'std::Entry::key', 'alloc::OccupiedEntry::key', 'alloc::VacantEntry::key', 'std::OccupiedEntry::key', 'std::VacantEntry::key')
def m_entrykey(eng, fr, fn, args, st, site, t):
    e = the_entry(val(eng, args[0], st))
    return e.a[1] if e.op == 'entry' else mk('call', 'key', e)


@model('alloc::Entry::or_insert', 'std::Entry::or_insert', 'alloc::Entry::or_insert_with', 'std::Entry::or_insert_with',
       'alloc::Entry::or_default', 'std::Entry::or_default')
def m_orinsert(eng, fr, fn, args, st, site, t):
    e = args[0]
    nm = fn['name'].split('::')[-1]

    def one(x, s):
        if x.op != 'entry':
            return mk('call', nm, x)
        m, k = x.a

        def absent(s2):
            if nm == 'or_insert':
                d = args[1]
            elif nm == 'or_insert_with':
                d = eng.apply(args[1], [], s2, (site, nm))
            else:
                vt = fn['targs'][1] if len(fn.get('targs') or ()) > 1 else ['?']
                d = m_default(eng, fr, {'targs': [vt]}, [], s2, (site, nm), t)
            eng.emit('putnew', m, k, eng.purify(d, s2), st=s2)
            bump(eng, m, s2)
            if d.op == 'obj':
                return d
            return mapval(m, k)
        branch(eng, s, member(eng, m, k, s), lambda s2: UNIT, absent, (site, nm))
        return mapval(m, k)
    return one(the_entry(e), st)


@model('alloc::Vec::len', '[]::len', 'alloc::BTreeMap::len', 'alloc::BTreeSet::len', 'std::HashMap::len', 'std::HashSet::len',
       'alloc::VecDeque::len', 'alloc::String::len', 'str::len', 'core::ExactSizeIterator::len')
def m_len(eng, fr, fn, args, st, site, t):
    c = val(eng, args[0], st)
    return clen(eng, c, st)


def clen(eng, c, st):
    def one(x):
        if x.op == 'list':
            return cint(len(x.a))
        if x.op == 'c' and x.a[0] == 'str':
            return cint(len(x.a[1].encode()))
        if is_iter(x):
            if x.op == 'it':
                return mk('len', x.a[0], *ver(eng, x.a[0], st))
            return mk('len', x)
        if x.op == 'obj':
            ll = literal_list(eng, x) if not ver(eng, x, st) else None
            if ll is not None:
                return cint(len(ll))
        return mk('len', x, *ver(eng, x, st))
    return map_leaves(c, one)


@model('alloc::Vec::is_empty', '[]::is_empty', 'alloc::BTreeMap::is_empty', 'alloc::BTreeSet::is_empty', 'std::HashMap::is_empty',
       'std::HashSet::is_empty', 'alloc::VecDeque::is_empty', 'alloc::String::is_empty', 'str::is_empty')
def m_isempty(eng, fr, fn, args, st, site, t):
    c = val(eng, args[0], st)
    return eq(clen(eng, c, st), cint(0))


@model('alloc::Vec::pop', 'alloc::VecDeque::pop_front', 'alloc::VecDeque::pop_back', 'alloc::BinaryHeap::pop', 'alloc::BTreeSet::pop_first', 'alloc::BTreeMap::pop_first', 'alloc::BTreeSet::pop_last')
def m_pop(eng, fr, fn, args, st, site, t):
    tgt = eng.target(args[0], st, site, kind_of(fn))
    nm = fn['name'].split('::')[-1]
    where = 'front' if nm in ('pop_front', 'pop_first') else 'back'
    g = g_not(eq(clen(eng, tgt, st), cint(0)))
    v = mk('popped', tgt, where, *ver(eng, tgt, st))
    eng.emit('pop', tgt, cstr(where), *([v] if eng.positions else []), guard=g, st=st)
    bump(eng, tgt, st)
    return gite(g, some(v), NONE)


@model('alloc::Vec::remove', 'alloc::Vec::swap_remove', 'alloc::VecDeque::remove', 'alloc::String::remove')
def m_vremove(eng, fr, fn, args, st, site, t):
    tgt = eng.target(args[0], st, site, kind_of(fn))
    v = index(tgt, args[1])
    eng.emit('removeat', tgt, args[1], st=st)
    bump(eng, tgt, st)
    return v


@model('alloc::Vec::insert', 'alloc::VecDeque::insert')
def m_vinsert(eng, fr, fn, args, st, site, t):
    tgt = eng.target(args[0], st, site, kind_of(fn))
    eng.emit('insertat', tgt, args[1], eng.purify(args[2], st), st=st)
    bump(eng, tgt, st)
    return UNIT


@model('alloc::Vec::clear', 'alloc::BTreeSet::clear', 'alloc::BTreeMap::clear', 'std::HashMap::clear', 'std::HashSet::clear', 'alloc::String::clear', 'alloc::Vec::truncate',
       '[]::sort', '[]::sort_unstable', '[]::reverse', 'alloc::Vec::dedup', '[]::sort_by', '[]::sort_by_key', '[]::sort_unstable_by_key', '[]::sort_unstable_by', '[]::swap', 'alloc::Vec::retain', 'alloc::Vec::dedup_by_key', '[]::sort_by_cached_key',
       'alloc::BTreeSet::retain', 'alloc::BTreeMap::retain')
def m_mutate(eng, fr, fn, args, st, site, t):
    tgt = eng.target(args[0], st, site, kind_of(fn))
    nm = fn['name'].split('::')[-1]
    extra = []
    for a in args[1:]:
        if a.op == 'clo' or a.op == 'fn':
            body = eng.prog.bodies.get(a.a[0])
            n = (body['argc'] - 1) if body and a.op == 'clo' else (2 if nm in ('sort_by', 'sort_unstable_by') else 1)
            ph = [mk('elem', tgt, 90 + i) for i in range(n)]
            extra.append(eng.purify(eng.apply(a, ph, st.copy(), (site, nm)), st))
        else:
            extra.append(eng.purify(a, st))
    eng.emit(nm, tgt, *extra, st=st)
    bump(eng, tgt, st)
    return UNIT


@model('[]::first', '[]::last', 'alloc::VecDeque::front', 'alloc::VecDeque::back', 'alloc::BTreeSet::first', 'alloc::BTreeSet::last')
def m_first(eng, fr, fn, args, st, site, t):
    c = val(eng, args[0], st)
    nm = fn['name'].split('::')[-1]

    def one(c):
        if nm in ('first', 'front'):
            v = index(c, cint(0))
        else:
            v = mk('last', c, *ver(eng, c, st))
        return gite(g_not(eq(clen(eng, c, st), cint(0))), some(v), NONE)
    return map_leaves(c, one)


@model('[]::get', 'alloc::VecDeque::get', '[]::get_mut', 'str::get')
def m_vget(eng, fr, fn, args, st, site, t):
    c = val(eng, args[0], st)
    i = args[1]
    if fn.get('targs') and len(fn['targs']) > 1 and fn['targs'][1][0].startswith('core::Range'):
        return mk('call', 'get', c, eng.purify(i, st))
    return map_leaves(c, lambda x: gite(lt(i, clen(eng, x, st)), some(index(x, i)), NONE))


@model('core::Index::index', 'core::IndexMut::index_mut')
def m_index(eng, fr, fn, args, st, site, t):
    c = val(eng, args[0], st)
    k = eng.purify(val(eng, args[1], st), st)
    h = fn['targs'][0][0] if fn.get('targs') else '?'
    if 'Map' in h:
        return mapval(c, k)
    if 'Captures' in h:
        return mk('call', 'as_str', mk('call', 'group', c, k))
    if k.op == 'agg' and 'Range' in k.a[0]:
        return mk('subslice', c, k)
    if h == 'petgraph::Graph' and len(fn['targs']) > 1 and fn['targs'][1][0] == 'petgraph::NodeIndex':
        return pay(node_weight(eng.purify(c, st), k), 'Some', '0')
    return index(c, k)


def node_weight(g, i):
    if i.op == 'fld' and i.a[1] == '0' and i.a[0].op == 'elem' and i.a[0].a[0].op == 'call' and i.a[0].a[0].a[0] == 'node_references' and i.a[0].a[0].a[1] is g:
        return some(fld(i.a[0], '1'))
    return mk('call', 'node_weight', g, i)


@model('petgraph::Graph::node_weight')
def m_nodeweight(eng, fr, fn, args, st, site, t):
    g, i = [eng.purify(val(eng, a, st), st) for a in args]
    return node_weight(g, i)


@model('petgraph::Graph::node_indices')
def m_nodeindices(eng, fr, fn, args, st, site, t):
    g = eng.purify(val(eng, args[0], st), st)
    return mk('imap', mk('it', mk('call', 'node_references', g)), mk('projfn', '0'), (site, 'ni'))


@model('[]::split_at')
def m_splitat(eng, fr, fn, args, st, site, t):
    c = val(eng, args[0], st)
    k = eng.purify(val(eng, args[1], st), st)
    return mk('tup', mk('subslice', c, mk('agg', 'core::RangeTo', 'RangeTo', ('end',), k)), mk('subslice', c, mk('agg', 'core::RangeFrom', 'RangeFrom', ('start',), k)))


@model('core::Extend::extend', 'alloc::Vec::extend_from_slice', 'alloc::Vec::append', 'alloc::BTreeSet::append', 'alloc::BTreeMap::append')
def m_extend(eng, fr, fn, args, st, site, t):
    tgt = eng.target(args[0], st, site, 'coll')
    src = args[1]
    h = fn['targs'][0][0] if fn.get('targs') else '?'
    ismap = 'Map' in h or 'Map' in fn['name']
    it = into_iter(eng, src, st)

    def k(s, x):
        if ismap:
            eng.emit('put', tgt, eng.purify(fld(x, '0'), s), eng.purify(fld(x, '1'), s), st=s)
        elif h == 'alloc::String':
            eng.emit('write', tgt, fmt_term([x]), st=s)
        else:
            eng.emit('add', tgt, eng.purify(x, s), st=s)
        bump(eng, tgt, s)
    consume(eng, it, st, k, (site, 'ext'))
    return UNIT


# ------------------------------------------------------------------ iterators
def into_iter(eng, x, st):
    if x.op == 'ref':
        v = eng.deref_value(x, st)
        if is_iter(v):
            return mk('iown', x)     # by-reference iteration (`for x in &mut it`)
        x = v
    if x.op == 'ite':
        return map_leaves(x, lambda y: into_iter(eng, y, st))
    if is_iter(x):
        return x
    if x.op == 'agg' and x.a[0] in ('core::Range', 'core::range::Range'):
        return mk('it', mk('range', x.a[3], x.a[4]))
    if x.op == 'agg' and x.a[0] in ('core::RangeInclusive', 'core::range::RangeInclusive'):
        return mk('it', mk('range', x.a[3], add(x.a[4], cint(1))))
    if x.op == 'call' and x.a[0] == 'core::RangeInclusive::new':
        return mk('it', mk('range', x.a[1], add(x.a[2], cint(1))))
    if x.op == 'agg' and x.a[0] == 'core::Option':
        return mk('ionce', x.a[3]) if x.a[1] == 'Some' else mk('it', mk('list'))
    return mk('it', x)


@model('core::IntoIterator::into_iter', body_first=True)
def m_into_iter(eng, fr, fn, args, st, site, t):
    return into_iter(eng, args[0], st)


@model('[]::iter', 'alloc::BTreeMap::iter', 'alloc::BTreeSet::iter', 'std::HashMap::iter', 'std::HashSet::iter', 'alloc::VecDeque::iter',
       'core::Iterator::cloned', 'core::Iterator::copied', 'core::Iterator::peekable', 'core::Iterator::fuse', 'core::Option::iter', 'core::Iterator::into_iter',
       'alloc::BTreeMap::iter_mut', 'std::HashMap::iter_mut', '[]::iter_mut', 'core::Iterator::by_ref', 'alloc::Vec::into_iter')
def m_iter(eng, fr, fn, args, st, site, t):
    if fn['name'].endswith('by_ref'):
        return args[0]
    return into_iter(eng, val(eng, args[0], st), st)


@model('alloc::Vec::drain', 'alloc::VecDeque::drain', 'std::HashMap::drain')
def m_drain(eng, fr, fn, args, st, site, t):
    tgt = eng.target(args[0], st, site, kind_of(fn))
    it = mk('it', mk('drained', tgt, *ver(eng, tgt, st)))
    eng.emit('clear', tgt, st=st)
    bump(eng, tgt, st)
    return it


@model('alloc::BTreeMap::keys', 'std::HashMap::keys', 'alloc::BTreeMap::into_keys', 'std::HashMap::into_keys')
def m_keys(eng, fr, fn, args, st, site, t):
    return mk('it', mk('keys', val(eng, args[0], st)))


@model('alloc::BTreeMap::values', 'std::HashMap::values', 'alloc::BTreeMap::into_values', 'std::HashMap::into_values', 'alloc::BTreeMap::values_mut', 'std::HashMap::values_mut')
def m_values(eng, fr, fn, args, st, site, t):
    return mk('it', mk('values', val(eng, args[0], st)))


@model('str::chars', 'str::char_indices', 'str::bytes', 'str::lines')
def m_chars(eng, fr, fn, args, st, site, t):
    return mk('it', mk(fn['name'].split('::')[-1], val(eng, args[0], st)))


@model('str::split')
def m_split(eng, fr, fn, args, st, site, t):
    return mk('it', mk('split', val(eng, args[0], st), eng.purify(args[1], st)))


@model('core::once', 'core::iter::once')
def m_once(eng, fr, fn, args, st, site, t):
    return mk('ionce', args[0])


@model('core::empty', 'core::iter::empty')
def m_empty(eng, fr, fn, args, st, site, t):
    return mk('it', mk('list'))


@model('core::Iterator::map', 'core::Iterator::filter', 'core::Iterator::filter_map', 'core::Iterator::flat_map', 'core::Iterator::enumerate',
       'core::Iterator::zip', 'core::Iterator::chain', 'core::Iterator::skip', 'core::Iterator::rev', 'core::Iterator::take', 'core::Iterator::flatten',
       'core::Iterator::skip_while', 'core::Iterator::take_while', 'core::Iterator::inspect', 'core::Iterator::step_by', 'core::Iterator::map_while')
def m_adapt(eng, fr, fn, args, st, site, t):
    nm = fn['name'].split('::')[-1]
    it = into_iter(eng, args[0], st)

    def one(it):
        if nm == 'map':
            return mk('imap', it, args[1], site)
        if nm == 'filter':
            return mk('ifilter', it, args[1], site)
        if nm == 'filter_map':
            return mk('ifmap', it, args[1], site)
        if nm == 'flat_map':
            return mk('iflat', it, args[1], site)
        if nm == 'flatten':
            return mk('iflat', it, UNIT, site)
        if nm == 'enumerate':
            return mk('ienum', it)
        if nm == 'zip':
            return mk('izip', it, into_iter(eng, args[1], st))
        if nm == 'chain':
            return mk('ichain', it, into_iter(eng, args[1], st))
        if nm == 'skip':
            return iskip(it, args[1])
        if nm == 'take':
            return mk('it', mk('take', it.a[0] if it.op == 'it' else it, args[1]))
        if nm == 'rev':
            if it.op == 'it':
                return mk('it', mk('rev', it.a[0]))
            if it.op in ('imap', 'ifilter', 'ifmap'):
                inner = it.a[0]
                if inner.op == 'it':
                    return mk(it.op, mk('it', mk('rev', inner.a[0])), it.a[1], it.a[2])
            return mk('it', mk('rev', it))
        if nm in ('skip_while', 'take_while', 'map_while', 'step_by', 'inspect'):
            return mk('it', mk(nm, it, eng.purify(args[1], st)))
    return map_leaves(it, one)


def iskip(it, n):
    if n.op == 'c' and n.a[1] == 0:
        return it
    if it.op == 'it':
        c = it.a[0]
        if c.op == 'skip':
            return mk('it', mk('skip', c.a[0], add(c.a[1], n)))
        if c.op == 'list' and n.op == 'c':
            return mk('it', mk('list', *c.a[n.a[1]:]))
        if c.op == 'range':
            return mk('it', mk('range', add(c.a[0], n), c.a[1]))
        return mk('it', mk('skip', c, n))
    if it.op == 'imap':
        return mk('imap', iskip(it.a[0], n), it.a[1], it.a[2])
    if it.op == 'ienum':
        return mk('it', mk('skip', it, n))
    return mk('it', mk('skip', it, n))


def literal_list(eng, o):
    """elements of an object that only ever received literal contents (no loops), or None"""
    out = []
    for e in eng.effects:
        if e.args and e.args[0] is o:
            if e.kind == 'init' and isinstance(e.args[1], T) and e.args[1].op == 'list' and not out:
                out = list(e.args[1].a)
            else:
                return None
        elif e.kind in ('rec', 'call', 'ext') and any(isinstance(x, T) and x is o for x in e.args):
            return None
    if not any(e.args and e.args[0] is o for e in eng.effects):
        if o.a[0] is not None and eng.objinfo.get(o) in ('Vec',):
            return None
    return out if out else None


def obj_parts(eng, o, st):
    """contents of a Vec-like object as iterator parts, when every mutation so far is a plain add.
    Returns list of ('part', gens, cond, value) or None"""
    if not eng.fuse or eng.objinfo.get(o) not in ('Vec', 'VecDeque', 'coll'):
        return None
    parts = []
    for e in eng.effects:
        if not e.args or not any(isinstance(x, T) and x is o for x in e.args):
            continue
        if e.args[0] is not o:
            if e.kind in ('rec', 'call', 'ext'):
                return None
            continue
        if e.kind == 'add':
            parts.append(e)
        elif e.kind == 'init':
            parts.append(e)
        else:
            return None
    # adds inside a loop that is still running (self-feeding) cannot be fused
    for e in parts:
        for l in e.loops:
            if l not in eng.loops and not l.gens:
                return None
        # creation context: the object must be created inside the same enclosing loops
        n = 0
        while n < len(eng.loops) and n < len(e.loops) and e.loops[n] is eng.loops[n]:
            n += 1
        if n < len(eng.loops) and any(l in e.loops for l in eng.loops[n:]):
            return None
    if len(parts) > 6:
        return None
    # created outside the current innermost loop but added to inside it -> unsafe
    for e in parts:
        shared = [l for l in e.loops if l in eng.loops]
        if shared and not created_in(eng, o, shared[-1]):
            return None
    return parts


def created_in(eng, o, loop):
    """object o is created inside the body of the loop (its site context extends the loop's context)"""
    uid = loop.uid
    # o.a[0] = (ctx, bb); uid = loop(ctx, header,...)
    site = o.a[0]
    octx = site[0] if isinstance(site, tuple) else None
    lctx = uid.a[0]
    if lctx == octx:
        body_members = getattr(eng, 'loop_members', {}).get(uid)
        return body_members is None or site[1] in body_members
    # nested call contexts: lctx must be a prefix of octx
    c = octx
    while isinstance(c, tuple):
        if c == lctx:
            return True
        c = c[0] if len(c) and isinstance(c[0], tuple) else None
    return False


def expand_obj(eng, it, st):
    """it(obj) -> chain of known parts, if possible"""
    o = it.a[0]
    parts = obj_parts(eng, o, st)
    if parts is None:
        return None
    res = []
    for e in parts:
        if e.kind == 'init':
            v = e.args[1]
            if v.op == 'list':
                for x in v.a:
                    res.append(mk('ionce', x))
            else:
                res.append(into_iter(eng, v, st))
            continue
        loops = [l for l in e.loops if l not in eng.loops]
        value = e.args[1]
        guard = simp(e.guard, g_and(eng.prefix, st.cond))
        gens = []
        for l in loops:
            if guard.op == 'ite':
                guard = E.assume_guard(guard, bool_atom(mk('more', l.uid)), True)
            if not l.gens or any(g.op == 'while' for g in l.gens):
                return None
            if l.exits:
                # left early: only where that is known not to have happened
                here = g_and(eng.prefix, st.cond)
                if len(loops) > 1 or len(parts) > 1 or not all(c.op == 'ite' and E.g_implies(here, g_not(E.exists_term(l, c))) for _, c in l.exits):
                    return None
            gens += l.gens
        if contains_op(value, lambda x: x.op == 'mu' and any(x.a[0] is l.uid for l in loops)):
            return None
        if contains_op(guard, lambda x: x.op == 'mu' and any(x.a[0] is l.uid for l in loops)):
            return None
        res.append(mk('ieff', tuple(gens), guard, value))
    return res


E.ITER_OPS.add('ieff')


def chain_of(parts):
    if not parts:
        return mk('it', mk('list'))
    r = parts[0]
    for p in parts[1:]:
        r = mk('ichain', r, p)
    return r


def normal_iter(eng, it, st):
    """push object expansion into the iterator"""
    if it.op == 'it':
        if it.a[0].op == 'obj':
            p = expand_obj(eng, it, st)
            if p is not None:
                return chain_of(p)
        if it.a[0].op == 'ite':
            pass
        if it.a[0].op == 'list' and 1 <= len(it.a[0].a) <= 4:
            return chain_of([mk('ionce', x) for x in it.a[0].a])
        return it
    if it.op in ('imap', 'ifilter', 'ifmap', 'iflat'):
        inner = normal_iter(eng, it.a[0], st)
        if inner.op == 'ichain':
            return chain_of([mk(it.op, p, it.a[1], it.a[2] + (j,)) for j, p in enumerate(E.flatten_chain(inner))])
        return mk(it.op, inner, it.a[1], it.a[2])
    if it.op == 'ienum':
        # numbered in one go: each part goes on where the parts before it stopped
        inner = normal_iter(eng, it.a[0], st)
        parts = E.flatten_chain(inner)
        if inner.op == 'ichain' and not any(p.op == 'ieff' for p in parts):
            out = []
            off = cint(0)
            for p in parts:
                out.append(mk('ionce', mk('tup', off, p.a[0])) if p.op == 'ionce' else mk('ienumo', p, off))
                q = p
                while q.op == 'imap':
                    q = q.a[0]
                off = add(off, cint(1) if q.op == 'ionce' else mk('len', q.a[0] if q.op == 'it' else q))
            return chain_of(out)
    if it.op == 'izip':
        # element by element with a list that has one element for each of them
        ps, qs = E.flatten_chain(normal_iter(eng, it.a[0], st)), E.flatten_chain(normal_iter(eng, it.a[1], st))
        if len(ps) > 1 and len(ps) == len(qs):
            out = []
            for p, q in zip(ps, qs):
                src = p
                while src.op == 'imap':
                    src = src.a[0]
                if q.op == 'ieff' and q.a[1] is TRUE and p.op == 'ionce' and not q.a[0]:
                    out.append(mk('ionce', mk('tup', p.a[0], q.a[2])))
                elif q.op == 'ieff' and q.a[1] is TRUE and src.op == 'it' and len(q.a[0]) == 1 and q.a[0][0].op == 'elem' and q.a[0][0].a[0] is src.a[0]:
                    out.append(mk('izipe', p, q.a[0][0], q.a[2]))
                else:
                    return it
            return chain_of(out)
    if it.op == 'ichain':
        return mk('ichain', normal_iter(eng, it.a[0], st), normal_iter(eng, it.a[1], st))
    return it


def rename_gens(eng, L, gens, terms):
    """avoid clashes with generators of enclosing loops"""
    used = [g for l in eng.loops if l is not L for g in l.gens]
    rep = {}
    out = []
    for g in gens:
        if g.op == 'elem':
            k = g.a[1]
            while mk('elem', g.a[0], k) in used or mk('elem', g.a[0], k) in out:
                k += 1
            ng = mk('elem', g.a[0], k)
            if ng is not g:
                rep[g] = ng
                rep[mk('idx', g.a[0], g.a[1])] = mk('idx', g.a[0], k)
            out.append(ng)
        else:
            out.append(g)
    if not rep:
        return out, terms
    # sequential generators may mention earlier ones
    out = [rep.get(g0, None) or subst(g, lambda t: rep.get(t)) for g0, g in zip(gens, out)]
    return out, [subst(x, lambda t: rep.get(t)) for x in terms]


def pull(eng, it, L, st, site):
    """the element produced by one step of iterator `it` inside loop L.
    Adds generators to L, conditions are returned. -> (cond, value, idxterm)"""
    op = it.op
    if op == 'it':
        c = it.a[0]
        if c.op == 'ite':
            c = c
        k = eng.gen_index(L, c)
        for g in L.gens:
            if g.op == 'elem' and g.a[0] is c:
                k += 1
        e = elem(c, k)
        L.gens.append(mk('elem', c, k) if e.op != 'elem' or e.a[0] is not c else e)
        return TRUE, e, mk('idx', c, k)
    if op == 'ieff':
        gens, (guard, value) = rename_gens(eng, L, list(it.a[0]), [it.a[1], it.a[2]])
        L.gens.extend(gens)
        return guard, value, mk('idx', mk('comp', tuple(gens), guard, value), 0)
    if op == 'ionce':
        L.gens.append(mk('one'))
        return TRUE, it.a[0], cint(0)
    if op == 'imap':
        c, v, i = pull(eng, it.a[0], L, st, site)
        s = st
        c0 = s.cond
        s.cond = g_and(c0, c)
        r = eng.apply(it.a[1], [v], s, (it.a[2], 'map'))
        s.cond = c0
        return c, r, i
    if op == 'ifilter':
        c, v, i = pull(eng, it.a[0], L, st, site)
        c0 = st.cond
        st.cond = g_and(c0, c)
        r = to_guard(eng.purify(eng.apply(it.a[1], [v], st, (it.a[2], 'filter')), st))
        st.cond = c0
        return g_and(c, r), v, mk('idx', mk('filtered', i, g_and(c, r)), 0)
    if op == 'ifmap':
        c, v, i = pull(eng, it.a[0], L, st, site)
        c0 = st.cond
        st.cond = g_and(c0, c)
        r = eng.apply(it.a[1], [v], st, (it.a[2], 'fmap'))
        st.cond = c0
        g = is_variant(r, 'Some', OPT)
        return g_and(c, g), pay(simp(r, g), 'Some', '0'), mk('idx', mk('filtered', i, g_and(c, g)), 0)
    if op == 'iflat':
        c, v, i = pull(eng, it.a[0], L, st, site)
        c0 = st.cond
        st.cond = g_and(c0, c)
        inner = v if it.a[1] is UNIT else eng.apply(it.a[1], [v], st, (it.a[2], 'flat'))
        st.cond = c0
        inner = normal_iter(eng, into_iter(eng, inner, st), st)
        if inner.op == 'ite':
            # iterator chosen by a condition (e.g. Option into_iter)
            inner = mk('it', inner)
        if inner.op == 'ichain':
            inner = mk('it', inner)
        c2, v2, i2 = pull(eng, inner, L, st, site)
        return g_and(c, c2), v2, mk('idx', mk('flat', i, i2), 0)
    if op == 'ienum':
        c, v, i = pull(eng, it.a[0], L, st, site)
        return c, mk('tup', i, v), i
    if op == 'izipe':
        n = len(L.gens)
        c, v, i = pull(eng, it.a[0], L, st, site)
        g = it.a[1]
        new = L.gens[n]
        return c, mk('tup', v, subst(it.a[2], lambda x: new if x is g else mk('idx', new.a[0], new.a[1]) if x.op == 'idx' and x.a[0] is g.a[0] and x.a[1] == g.a[1] else None, {})), i
    if op == 'ienumo':
        c, v, i = pull(eng, it.a[0], L, st, site)
        return c, mk('tup', add(i, it.a[1]), v), i
    if op == 'izip':
        c, v, i = pull(eng, it.a[0], L, st, site)
        b = it.a[1]
        if b.op == 'it' and b.a[0].op == 'range' and b.a[0].a[0].op == 'c':
            w = add(i, b.a[0].a[0])
            return c, mk('tup', v, w), i
        if b.op == 'it':
            w = index(b.a[0], i)
            if i.op == 'idx':
                w = mk('at', b.a[0], i) if i.a[0] is not b.a[0] else w
            return c, mk('tup', v, w), i
        n = len(L.gens)
        c2, w, i2 = pull(eng, b, L, st, site)
        del L.gens[n:]
        return g_and(c, c2), mk('tup', v, w), i
    if op == 'ichain':
        e = mk('elem', it, eng.gen_index(L, it))
        L.gens.append(e)
        return TRUE, e, mk('idx', it, 0)
    e = mk('elem', it, eng.gen_index(L, it))
    L.gens.append(e)
    return TRUE, e, mk('idx', it, 0)


def consume(eng, it, st, k, site, until=None):
    """run k(state, element) for every element. `until`: k returns a guard that stops the loop.
    Returns list of (Loop, stop guard, extra) for searching adaptors."""
    if it.op == 'ite':
        cond0 = st.cond
        res = []
        merged = None
        for g, lf in leaves(it):
            s2 = State(dict(st.v), g_and(cond0, g))
            if s2.cond is FALSE:
                continue
            res += consume(eng, lf, s2, k, site, until)
            s2.cond = g_and(cond0, g)
            merged = s2 if merged is None else eng.merge(site, 'c', merged, s2)
        if merged is not None:
            st.v = merged.v
        st.cond = cond0
        return res
    it = normal_iter(eng, it, st)
    if it.op == 'ichain':
        res = []
        for j, p in enumerate(E.flatten_chain(it)):
            res += consume(eng, p, st, k, (site, j), until)
        return res
    if it.op == 'it' and it.a[0].op == 'list' and not it.a[0].a:
        return []
    if it.op == 'ionce':
        # exactly one element: no loop
        r = k(st, it.a[0])
        return [(None, r, it.a[0])]
    if it.op == 'ieff' and not it.a[0]:
        r = branch(eng, st, it.a[1], lambda s: k(s, it.a[2]) or UNIT, lambda s: UNIT)
        return [(None, None, it.a[2])]
    if it.op == 'iown':
        inner = eng.deref_value(it.a[0], st)
        return consume(eng, inner, st, k, site, until)
    if is_single(it):
        c, v, _ = pull(eng, it, Loop(UNIT), st, site)
        branch(eng, st, c, lambda s: k(s, v) or UNIT, lambda s: UNIT)
        return [(None, None, v)]
    out = []
    cell = {}

    def runner(s):
        L = eng.loops[-1]
        c, v, _ = pull(eng, it, L, s, site)
        s.cond = g_and(s.cond, c)
        cell['v'] = v
        cell['c'] = c
        if s.cond is FALSE:
            cell['r'] = FALSE
            return s, []
        cell['r'] = k(s, v)
        s.cond = TRUE
        return s, []
    uid = mk('loop', site, 'it')
    cond0 = st.cond

    def wrap(s):
        c_in = None
        st0 = State(dict(s.v), s.cond)
        b, ex = runner(s)
        # iterations filtered out leave the state unchanged
        c = cell['c']
        if c is not TRUE and c is not FALSE:
            m = {}
            for kk, x in s.v.items():
                y = st0.v.get(kk)
                if y is None or y is x or kk[0] == 'ver':
                    m[kk] = x
                else:
                    m[kk] = gite(c, x, y)
            s.v = m
        return s, ex
    L, back, exits, effs = eng.run_loop(uid, st, wrap)
    eng.effects.extend(effs)
    # carried places: value after the loop
    if back is not None:
        ns = {}
        for kk, x in back.v.items():
            if kk in st.v or kk[0] in ('m', 'ver'):
                m = mk('mu', L.uid, kk)
                if m in L.mu:
                    ns[kk] = m
                else:
                    ns[kk] = x if kk[0] != 'ver' else x
        for kk in st.v:
            if kk not in ns:
                ns[kk] = st.v[kk]
        tmp = State(ns, cond0)
        eng.fold_accs(L, [('normal', None, tmp)], back)
        st.v = tmp.v
        # object versions changed inside the loop
    st.cond = cond0
    return [(L, cell.get('r'), cell.get('v'))]


def is_single(it):
    while it.op in ('imap', 'ifilter', 'ifmap', 'ienum'):
        it = it.a[0]
    return it.op == 'ionce' or (it.op == 'ieff' and not it.a[0])


@model('core::Iterator::next')
def m_next(eng, fr, fn, args, st, site, t):
    r = args[0]
    if r.op != 'ref':
        # iterator behind an opaque reference
        v = val(eng, r, st)
        return mk('call', 'next', v, mk('ver', st.v.get(('ver', r), cint(0))))
    root, path = r.a[0], r.a[1]
    v = eng.read(root, path, st)
    if v.op == 'ref':
        return m_next(eng, fr, fn, [v], st, site, t)
    if v.op == 'iown':
        return m_next(eng, fr, fn, [v.a[0]], st, site, t)
    if v.op == 'iterv':
        uid = v.a[0]
        L = None
        for l in eng.loops:
            if l.uid is uid:
                L = l
        if L is not None and L.more is None and eng.loops[-1] is L:
            it = normal_iter(eng, v.a[1], st)
            if it.op in ('it', 'imap', 'ifilter', 'ifmap', 'iflat', 'ienum', 'ienumo', 'izipe', 'izip', 'ionce', 'ieff', 'ichain'):
                L.more = mk('more', uid)
                moreg = bool_atom(L.more)
                s0 = st.cond
                st.cond = g_and(s0, moreg)
                c, e, _ = pull(eng, it, L, st, site)
                st.cond = g_and(s0, g_or(g_not(moreg), c))
                if c is not TRUE:
                    L.conds.append(g_or(g_not(moreg), c))
                L.itersrc = it
                return gite(moreg, some(e), NONE)
        eng.write(root, path, mk('iterv', uid, mk('advanced', v.a[1])), st)
        return mk('call', 'next', v)
    if is_iter(v):
        it = normal_iter(eng, v, st)
        if it.op == 'it':
            c = it.a[0]
            eng.write(root, path, iskip(it, cint(1)), st)
            if c.op == 'skip':
                e = index(c.a[0], c.a[1])
                g = lt(c.a[1], mk('len', c.a[0]))
            elif c.op == 'range':
                e = c.a[0]
                g = lt(c.a[0], c.a[1])
            else:
                e = index(c, cint(0))
                g = g_not(eq(collen(c), cint(0)))
            return gite(g, some(e), NONE)
        if it.op == 'ionce':
            eng.write(root, path, mk('it', mk('list')), st)
            return some(it.a[0])
        if E.is_once(it):
            eng.write(root, path, mk('it', mk('list')), st)
            return gite(it.a[1], some(it.a[2]), NONE)
        eng.write(root, path, mk('it', mk('skip', it, cint(1))), st)
        return mk('call', 'next', eng.purify(it, st))
    pv = eng.purify(v, st)
    eng.write(root, path, mk('out', 'next', 0, pv), st)
    return mk('call', 'next', pv)


@model('core::Peekable::peek', 'core::Peekable::next_if', 'core::Peekable::next_if_eq')
def m_peek(eng, fr, fn, args, st, site, t):
    v = val(eng, args[0], st)
    return mk('call', fn['name'].split('::')[-1], eng.purify(v, st), *[eng.purify(a, st) for a in args[1:]])


def coll_kind(ty):
    return ty[0].split('::')[-1]


@model('core::Iterator::collect', 'core::FromIterator::from_iter')
def m_collect(eng, fr, fn, args, st, site, t):
    it = into_iter(eng, args[0], st)
    ta = fn.get('targs', [])
    ty = ta[-1] if fn['name'].endswith('collect') else ta[0]
    return collect_into(eng, it, ty, st, site)


def collect_into(eng, it, ty, st, site):
    h = ty[0]
    if h in ('core::Result', 'core::Option'):
        res = h == 'core::Result'
        o = eng.new_obj(coll_kind(ty[1]) if isinstance(ty[1], list) else 'coll', site, st)
        errs = []

        def k(s, x):
            g = is_variant(x, 'Ok' if res else 'Some', RES if res else OPT)
            eng.emit('add', o, eng.purify(pay(simp(x, g), 'Ok' if res else 'Some', '0'), s), guard=g, st=s)
            return g_not(g)
        r = consume(eng, it, st, k, (site, 'collect'))
        bad = FALSE
        e = None
        for L, g, v in r:
            if g is None:
                continue
            ex = exists_term(L, g) if L is not None else g
            bad = g_or(bad, ex)
            ev = pay(v, 'Err', '0') if res else UNIT
            if L is not None and L.gens:
                ev = mk('suchval', tuple(L.gens), g, ev)
            e = ev
        eng.bump(o, st)
        if bad is FALSE:
            return ok(o) if res else some(o)
        return gite(bad, err(e) if res else NONE, ok(o) if res else some(o))
    o = eng.new_obj(coll_kind(ty), site, st)
    ismap = 'Map' in h

    def k(s, x):
        if ismap:
            eng.emit('put', o, eng.purify(fld(x, '0'), s), eng.purify(fld(x, '1'), s), st=s)
        elif h == 'alloc::String':
            eng.emit('write', o, fmt_term([eng.purify(x, s)]), st=s)
        else:
            eng.emit('add', o, eng.purify(x, s), st=s)
    consume(eng, it, st, k, (site, 'collect'))
    eng.bump(o, st)
    return o


@model('core::Iterator::for_each', 'core::Iterator::try_for_each')
def m_foreach(eng, fr, fn, args, st, site, t):
    it = into_iter(eng, args[0], st)
    f = args[1]
    if fn['name'].endswith('try_for_each'):
        r = consume(eng, it, st, lambda s, x: g_not(is_variant(eng.apply(f, [x], s, (site, 'fe')), 'Ok', RES)), (site, 'fe'))
        bad = FALSE
        for L, g, v in r:
            if g is not None:
                bad = g_or(bad, exists_term(L, g) if L is not None else g)
        return gite(bad, err(mk('call', 'try_for_each_err')), ok(UNIT))
    consume(eng, it, st, lambda s, x: eng.apply(f, [x], s, (site, 'fe')), (site, 'fe'))
    return UNIT


@model('core::Iterator::any', 'core::Iterator::all', 'core::Iterator::find', 'core::Iterator::position', 'core::Iterator::find_map')
def m_search(eng, fr, fn, args, st, site, t):
    nm = fn['name'].split('::')[-1]
    src = val(eng, args[0], st) if args[0].op == 'ref' else args[0]
    it = into_iter(eng, src, st)
    f = args[1]

    cell = {}

    def k(s, x):
        r = eng.purify(eng.apply(f, [x], s, (site, nm)), s)
        if nm == 'find_map':
            cell['fm'] = r
            return is_variant(r, 'Some', OPT)
        g = to_guard(r)
        return g_not(g) if nm == 'all' else g
    # conditions of filters must be part of the search condition
    res = search(eng, it, st, k, (site, nm))
    ex = FALSE
    pick = None
    for L, g, v, idx in res:
        e = exists_term(L, g) if L is not None else g
        if nm == 'find':
            w = such(L, g, v)
        elif nm == 'position':
            w = such(L, g, idx)
        elif nm == 'find_map':
            w = such(L, g, pay(simp(cell['fm'], g), 'Some', '0'))
        else:
            w = UNIT
        pick = (e, w, pick)
        ex = g_or(ex, e)
    if nm == 'any':
        return ex
    if nm == 'all':
        return g_not(ex)
    chain = []
    p = pick
    while p:
        chain.append((p[0], p[1]))
        p = p[2]
    r = NONE
    for e, w in chain:
        r = gite(e, some(w), r)
    return r


def such(L, g, v):
    if L is None or not L.gens:
        return v
    rep = {x: mk('such', x, g) for x in L.gens if x.op == 'elem'}
    rep.update({mk('idx', x.a[0], x.a[1]): mk('such', mk('idx', x.a[0], x.a[1]), g) for x in L.gens if x.op == 'elem'})
    return subst(v, lambda t: rep.get(t))


def search(eng, it, st, k, site):
    """like consume but k returns a guard; filters of the iterator are conjoined to it"""
    it = normal_iter(eng, it, st)
    if it.op == 'ite':
        it = mk('it', it)
    if it.op == 'ichain':
        out = []
        for j, p in enumerate(E.flatten_chain(it)):
            out += search(eng, p, st, k, (site, j))
        return out
    if it.op == 'ionce':
        return [(None, k(st, it.a[0]), it.a[0], cint(0))]
    if it.op == 'it' and it.a[0].op == 'list' and not it.a[0].a:
        return []
    cell = {}

    def runner(s):
        L = eng.loops[-1]
        c, v, i = pull(eng, it, L, s, site)
        s.cond = g_and(s.cond, c)
        cell['r'] = g_and(c, k(s, v)) if s.cond is not FALSE else FALSE
        cell['v'] = v
        cell['i'] = i
        s.cond = TRUE
        return s, []
    cond0 = st.cond
    L, back, exits, effs = eng.run_loop(mk('loop', site, 'search'), st, runner)
    eng.effects.extend(effs)
    st.cond = cond0
    if L.gens == [mk('one')]:
        return [(None, cell['r'], cell['v'], cint(0))]
    return [(L, cell['r'], cell['v'], cell['i'])]


@model('core::Iterator::count', 'core::Iterator::sum', 'core::Iterator::max', 'core::Iterator::min', 'core::Iterator::last', 'core::Iterator::product',
       'core::Iterator::max_by_key', 'core::Iterator::min_by_key', 'core::Iterator::fold', 'core::Iterator::nth', 'core::Iterator::unzip', 'core::Iterator::partition', 'core::Iterator::reduce', 'core::Iterator::max_by', 'core::Iterator::min_by')
def m_reduce(eng, fr, fn, args, st, site, t):
    nm = fn['name'].split('::')[-1]
    it = into_iter(eng, val(eng, args[0], st) if args[0].op == 'ref' else args[0], st)
    it = normal_iter(eng, it, st)
    if nm == 'nth' and it.op == 'it':
        return gite(lt(args[1], collen(it.a[0])), some(index(it.a[0], args[1])), NONE)
    if nm == 'fold':
        acc0 = args[1]
        key = ((site, 'fold'), 'acc')
        st.v[key] = acc0

        def k(s, x):
            s.v[key] = eng.apply(args[2], [s.v[key], x], s, (site, 'f'))
        r = consume(eng, it, st, k, (site, 'fold'))
        v = st.v.pop(key)
        return fold_value(eng, v)
    if nm == 'count' and it.op == 'it':
        return mk('len', it.a[0])
    gens, g, v = comprehension(eng, it, st, (site, nm), args[1] if nm in ('max_by_key', 'min_by_key') else None)
    if nm == 'count' and g is TRUE and len(gens) == 1 and gens[0].op == 'elem':
        return mk('len', gens[0].a[0])
    res = mk('reduce', nm, gens, g, v)
    return res


def fold_value(eng, v):
    return v


def comprehension(eng, it, st, site, keyfn=None):
    cell = {}

    def runner(s):
        L = eng.loops[-1]
        c, v, i = pull(eng, it, L, s, site)
        if keyfn is not None:
            key = eng.purify(eng.apply(keyfn, [v], s, (site, 'key')), s)
            v = mk('tup', key, v)
        cell['c'], cell['v'], cell['g'] = c, eng.purify(v, s), tuple(L.gens)
        s.cond = TRUE
        return s, []
    c0 = st.cond
    L, back, exits, effs = eng.run_loop(mk('loop', site, 'comp'), st, runner)
    eng.effects.extend(effs)
    st.cond = c0
    return cell['g'], cell['c'], cell['v']


@model('[]::join', '[]::concat')
def m_join(eng, fr, fn, args, st, site, t):
    v = val(eng, args[0], st)
    return mk('join', eng.purify(v, st), *[eng.purify(val(eng, a, st), st) for a in args[1:]])


# ------------------------------------------------------------------ petgraph
@model('petgraph::Graph::add_node')
def m_addnode(eng, fr, fn, args, st, site, t):
    tgt = eng.target(args[0], st, site, 'Graph')
    w = eng.purify(args[1], st)
    n = mk('node', tgt, w, site)
    eng.emit('add_node', tgt, w, n, st=st)
    eng.bump(tgt, st)
    return n


@model('petgraph::Graph::add_edge')
def m_addedge(eng, fr, fn, args, st, site, t):
    tgt = eng.target(args[0], st, site, 'Graph')
    eng.emit('add_edge', tgt, *[eng.purify(a, st) for a in args[1:]], st=st)
    eng.bump(tgt, st)
    return mk('edge', site)


def _pure(nm, arity=None):
    @model(nm)
    def f(eng, fr, fn, args, st, site, t, nm=nm):
        return mk('call', nm.split('::')[-1], *[eng.purify(val(eng, a, st), st) for a in args])
    return f


@model('petgraph::Graph::edges')
def m_edges(eng, fr, fn, args, st, site, t):
    return mk('call', 'edges_directed', *[eng.purify(val(eng, a, st), st) for a in args], mk('agg', 'petgraph::Direction', 'Outgoing', ()))


@model('petgraph::Graph::node_count')
def m_nodecount(eng, fr, fn, args, st, site, t):
    return mk('len', mk('call', 'node_references', eng.purify(val(eng, args[0], st), st)))


for _n in ('petgraph::Graph::edges_directed', 'petgraph::IntoNodeReferences::node_references',
           'petgraph::EdgeRef::target', 'petgraph::EdgeRef::source', 'petgraph::EdgeReference::weight', 'petgraph::EdgeRef::weight',
           'petgraph::Graph::edge_count', 'petgraph::Graph::neighbors_directed',
           'str::repeat', 'str::trim',
           'str::to_uppercase', 'str::to_lowercase', 'alloc::str::to_uppercase', 'str::to_ascii_uppercase', 'str::to_ascii_lowercase', 'char::to_ascii_uppercase', 'char::is_ascii', 'char::is_ascii_alphabetic', 'char::is_alphanumeric', 'char::is_ascii_alphanumeric', 'char::is_ascii_digit', 'char::is_alphabetic',
           'core::from_u32', 'char::from_u32', 'str::parse', 'str::split_at', 'core::from_utf8', 'alloc::String::from_utf8', 'alloc::String::from_utf8_lossy', 'u32::from_str_radix', 'char::len_utf8', 'str::starts_with', 'str::ends_with', 'str::strip_prefix', 'str::strip_suffix', 'str::trim_end', 'str::trim_start', 'str::replace', 'alloc::str::replace', 'char::to_uppercase', 'alloc::Rc::try_unwrap', 'std::Path::join', 'core::Ordering::reverse', '[]::windows', '[]::chunks',
           'char::is_ascii_control', 'char::is_control', 'char::is_ascii_graphic', 'char::is_ascii_punctuation', 'char::escape_default', 'core::Ordering::then', 'str::eq_ignore_ascii_case'):
    _pure(_n)


@model('core::RangeInclusive::new')
def m_rinew(eng, fr, fn, args, st, site, t):
    return mk('call', 'core::RangeInclusive::new', args[0], args[1])


@model('core::RangeInclusive::start', 'core::RangeInclusive::end', 'core::RangeInclusive::into_inner')
def m_ribound(eng, fr, fn, args, st, site, t):
    v = val(eng, args[0], st)
    nm = fn['name'].split('::')[-1]

    def one(x):
        if x.op == 'call' and x.a[0] == 'core::RangeInclusive::new':
            if nm == 'into_inner':
                return mk('tup', x.a[1], x.a[2])
            return x.a[1] if nm == 'start' else x.a[2]
        return mk('call', nm, x)
    return map_leaves(v, one)


def ri_bound(x, nm):
    if x.op == 'call' and x.a[0] == 'core::RangeInclusive::new':
        return x.a[1] if nm == 'start' else x.a[2]
    if x.op == 'agg' and x.a[0].endswith('Range') and nm in x.a[2]:
        return x.a[3 + x.a[2].index(nm)]
    return mk('call', nm, x)


@model('core::RangeInclusive::contains', 'core::Range::contains')
def m_ricontains(eng, fr, fn, args, st, site, t):
    v = eng.purify(val(eng, args[0], st), st)
    x = eng.purify(val(eng, args[1], st), st)
    inc = 1 if 'Inclusive' in fn['name'] else 0

    def one(r):
        lo, hi = ri_bound(r, 'start'), ri_bound(r, 'end')
        return g_and(pos(add(add(x, lo, -1), cint(1))), pos(add(add(hi, x, -1), cint(inc))))
    if v.op == 'ite':
        return map_leaves(v, one)
    return one(v)


@model('[]::binary_search_by_key', '[]::binary_search_by', '[]::binary_search', '[]::partition_point')
def m_bsearch(eng, fr, fn, args, st, site, t):
    c = eng.purify(val(eng, args[0], st), st)
    nm = fn['name'].split('::')[-1]
    ph = mk('elem', c, 90)
    if nm == 'binary_search':
        return mk('bsearch', c, eng.purify(val(eng, args[1], st), st), ph)
    if nm == 'binary_search_by_key':
        k = eng.purify(eng.apply(args[2], [ph], st.copy(), (site, nm)), st)
        return mk('bsearch', c, eng.purify(val(eng, args[1], st), st), k)
    k = eng.purify(eng.apply(args[1], [ph], st.copy(), (site, nm)), st)
    if nm == 'partition_point':
        return mk('ppoint', c, k)
    less = FALSE
    for g, lf in leaves(hoist(k)):
        if lf.op == 'agg' and lf.a[1] == 'Less':
            less = g_or(less, g)
    if less.op == 'ite' and less.a[0].op == 'atom' and isinstance(less.a[0].a[0], T) and less.a[0].a[0].op == 'pos':
        # Less iff 0 < x - key
        cst, parts = lin_parts(less.a[0].a[0].a[0])
        key, x = cint(0), cint(cst)
        for tm, kf in parts.items():
            if contains_op(tm, lambda y: y is ph, {}):
                key = add(key, tm, -kf)
            else:
                x = add(x, tm, kf)
        return mk('bsearch', c, x, key)
    return mk('call', nm, c, k)


@model('petgraph::NodeIndex::index')
def m_nodeindex(eng, fr, fn, args, st, site, t):
    return mk('call', 'index', val(eng, args[0], st))


# ------------------------------------------------------------------ panics
@model('core::panic_fmt', 'core::panic', 'std::panic_fmt', 'core::panicking::panic_fmt', 'core::panic_display', 'core::unreachable_display', 'core::panic_explicit', 'std::begin_panic', 'core::panic_nounwind', 'core::assert_failed', 'core::panic_const')
def m_panic(eng, fr, fn, args, st, site, t):
    eng.emit('panic', *[eng.purify(a, st) for a in args if a.op != 'ref'], st=st)
    st.cond = FALSE
    return BOT


@model('core::unreachable_default_msg', 'core::todo_default_msg')
def m_unrmsg(eng, fr, fn, args, st, site, t):
    return cstr('unreachable' if 'unreachable' in fn['name'] else 'todo')


# ------------------------------------------------------------------ quote
PUNCT = {'add_eq': '+=', 'and': '&', 'and_and': '&&', 'bang': '!', 'colon': ':', 'colon2': '::', 'comma': ',', 'dot': '.',
         'dot2': '..', 'dot3': '...', 'dot_dot_eq': '..=', 'eq': '=', 'eq_eq': '==', 'fat_arrow': '=>', 'gt': '>', 'lt': '<', 'or': '|', 'or_or': '||',
         'pound': '#', 'question': '?', 'rarrow': '->', 'semi': ';', 'shr': '>>', 'shl': '<<', 'star': '*', 'sub': '-', 'sub_eq': '-=', 'underscore': '_',
         'ge': '>=', 'le': '<=', 'ne': '!=', 'add': '+', 'div': '/', 'rem': '%', 'caret': '^', 'at': '@', 'larrow': '<-', 'mul_eq': '*=', 'div_eq': '/='}


def _punct(nm, s):
    @model('quote::push_' + nm)
    def f(eng, fr, fn, args, st, site, t):
        eng.emit('tok', val(eng, args[0], st), cstr(s), st=st)
        return UNIT


for _k, _v in PUNCT.items():
    _punct(_k, _v)


@model('quote::push_ident', 'quote::push_lifetime', 'quote::parse')
def m_qident(eng, fr, fn, args, st, site, t):
    eng.emit('tok', val(eng, args[0], st), val(eng, args[1], st), st=st)
    return UNIT


@model('quote::push_group')
def m_qgroup(eng, fr, fn, args, st, site, t):
    eng.emit('group', val(eng, args[0], st), args[1], val(eng, args[2], st), st=st)
    return UNIT


@model('quote::ToTokens::to_tokens')
def m_totok(eng, fr, fn, args, st, site, t):
    v = val(eng, args[0], st)
    v = map_leaves(v, lambda x: val(eng, x.a[3], st) if x.op == 'agg' and x.a[0] == 'quote::RepInterp' else x)
    eng.emit('tok', val(eng, args[1], st), eng.purify(v, st), st=st)
    return UNIT


@model('proc_macro2::TokenStream::new')
def m_ts(eng, fr, fn, args, st, site, t):
    return eng.new_obj('TokenStream', site, st)


@model('quote::RepAsIteratorExt::quote_into_iter', 'quote::RepIteratorExt::quote_into_iter', 'quote::RepToTokensExt::quote_into_iter')
def m_qrep(eng, fr, fn, args, st, site, t):
    return mk('tup', into_iter(eng, val(eng, args[0], st), st), UNIT)


@model('quote::RepToTokensExt::next')
def m_qrepnext(eng, fr, fn, args, st, site, t):
    return some(val(eng, args[0], st))


@model('core::BitOr::bitor')
def m_bitor(eng, fr, fn, args, st, site, t):
    return UNIT


# ------------------------------------------------------------------ generated files and templates (emission analysis only)
EMISSION = {}
VEC_KINDS_EMIT = ('Vec', 'coll', 'VecDeque')


def emission(*names):
    def deco(f):
        for n in names:
            EMISSION[n] = f
        return f
    return deco


@emission('lapex_codegen::GeneratedCodeWriter::generate_code')
def x_gen(eng, fr, fn, args, st, site, t):
    o = eng.new_obj('file', site, st)
    key = val(eng, args[1], st)
    eng.emit('file', key, o, st=st)
    return eng.apply(args[2], [o], st, (site, 'file'))


@emission('lapex_codegen::Template::new')
def x_tpl(eng, fr, fn, args, st, site, t):
    return mk('tplsrc', val(eng, args[0], st))


@emission('lapex_codegen::Template::writer')
def x_tplw(eng, fr, fn, args, st, site, t):
    o = eng.new_obj('template', site, st)
    eng.tplsrc[o] = val(eng, args[0], st)
    eng.tplsubs[o] = {}
    return o


@emission('lapex_codegen::TemplateWriter::substitute')
def x_sub(eng, fr, fn, args, st, site, t):
    o = val(eng, args[0], st)
    key = val(eng, args[1], st)
    if key.op == 'c' and o in eng.tplsubs:
        eng.tplsubs[o][key.a[1]] = args[2]
    eng.emit('substitute', o, key, st=st)
    return UNIT


@emission('lapex_codegen::TemplateWriter::write')
def x_tplwrite(eng, fr, fn, args, st, site, t):
    import re as _re
    o = val(eng, args[0], st)
    tgt = eng.target(args[1], st, site, 'writer') if args[1].op == 'ref' else val(eng, args[1], st)
    src = eng.tplsrc.get(o)
    if src is None or src.op != 'tplsrc' or src.a[0].op != 'c':
        eng.emit('write', tgt, mk('template?', o), st=st)
        return ok(UNIT)
    text = src.a[0].a[1]
    eng.emit('template', o, src.a[0], st=st)
    for n, p in enumerate(_re.split(r'/\*\{(.*?)\}\*/', text)):
        if n % 2 == 0:
            if p:
                eng.emit('write', tgt, cstr(p), st=st)
            continue
        f = eng.tplsubs[o].get(p.strip())
        if f is None:
            eng.emit('unfilled', o, cstr(p.strip()), st=st)
            continue
        eng.emit('filled', o, cstr(p.strip()), st=st)
        eng.apply(f, [tgt], st, (site, 'sub%d' % n))
    return ok(UNIT)


# ------------------------------------------------------------------ regular expression library and lazies
@model('once_cell::Lazy::new', 'core::LazyCell::new', 'std::LazyLock::new')
def x_lazy(eng, fr, fn, args, st, site, t):
    return eng.apply(args[0], [], st, (site, 'lazy'))


@model('once_cell::Lazy::force', 'core::LazyCell::force', 'std::LazyLock::force')
def x_force(eng, fr, fn, args, st, site, t):
    return val(eng, args[0], st)


@model('regex::Regex::new')
def x_regex(eng, fr, fn, args, st, site, t):
    p = val(eng, args[0], st)
    if p.op == 'c' and p.a[0] == 'str':
        return ok(mk('call', 'regex', p))
    return mk('call', 'regex::Regex::new', p)


@model('regex::Regex::captures_iter', 'regex::Regex::find_iter')
def x_captures(eng, fr, fn, args, st, site, t):
    return mk('it', mk('call', 'matches', val(eng, args[0], st), val(eng, args[1], st)))


@model('regex::Captures::get')
def x_group(eng, fr, fn, args, st, site, t):
    c, i = val(eng, args[0], st), val(eng, args[1], st)
    if i is cint(0) or c.op == 'elem' and i is cint(1) and mandatory_group(c.a[0]):
        return some(mk('call', 'group', c, i))
    return mk('call', 'regex::Captures::get', c, i)


def mandatory_group(m):
    """the only group of a pattern without alternatives and optional parts takes part in every match"""
    try:
        p = m.a[1].a[1].a[1]
    except (IndexError, AttributeError):
        return False
    if not isinstance(p, str):
        return False
    import re as _re
    q = _re.sub(r'\\.', 'x', p)
    return q.count('(') == 1 and '|' not in q and not _re.search(r'\)[*?{]', q)


@model('regex::Match::start', 'regex::Match::end', 'regex::Match::as_str', 'regex::Match::range')
def x_match(eng, fr, fn, args, st, site, t):
    m = val(eng, args[0], st)
    n = fn['name'].split('::')[-1]
    return mk('call', n, m)
