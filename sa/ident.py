"""The analyses treat ==, ordering, hashing and cloning of workspace values as structural. Derived implementations are; every
hand-written one in the crates a property touches has to be shown equivalent to it, field by field."""
from .term import *
from .engine import eq as t_eq, fld
from .spec import summarise

TRAITS = {'core::Clone': 'clone', 'core::PartialEq': 'eq', 'core::PartialOrd': 'partial_cmp', 'core::Ord': 'cmp', 'core::Hash': 'hash'}


def field_eq(me, other, f):
    a, b = fld(me, f), fld(other, f)
    return [t_eq(a, b), mk('call', 'core::eq', a, b), mk('call', 'core::eq', b, a), t_eq(b, a)]


def same_on(me, other, fields, g, want):
    """does guard g imply that all fields are equal (want) / that some field differs (not want)?"""
    if want:
        return all(any(g_implies(g, bool_atom(e) if not is_guard(e) else e) for e in field_eq(me, other, f)) for f in fields)
    return any(any(g_implies(g, g_not(bool_atom(e) if not is_guard(e) else e)) for e in field_eq(me, other, f)) for f in fields)


def is_guard(e):
    return e is TRUE or e is FALSE or e.op == 'ite'


def check(ctx, crates):
    seen = 0
    for b in sorted(ctx.prog.bodies.values(), key=lambda b: b['name']):
        if b['crate'] not in crates or b.get('implof') not in TRAITS or b.get('kind') != 'fn':
            continue
        meth = b['name'].split('::')[-1]
        seen += 1
        if b.get('derived') == 'true':
            continue
        key = 'identity:' + b['name']
        if meth != TRAITS[b['implof']]:
            ctx.require(False, key, '%s overrides a comparison the analysis takes to be structural' % b['name'])
            continue
        ty = b['selfty'][0]
        adt = ctx.prog.adts.get(ty)
        s = ctx.summary(b['name'])
        if adt is None or s is None or len(adt['variants']) != 1:
            ctx.require(False, key, 'the hand-written %s cannot be shown to be structural' % b['name'])
            continue
        fields = [f[0] for f in adt['variants'][0]['fields'] if 'PhantomData' not in str(f[1:])]
        ps = [mk('p', n) for n in s.eng.param_names(s.body)]
        me = ps[0]
        rets = [(e.args[0], e.guard) for e in s.effects if e.kind == 'return']
        ok = bool(rets)
        if meth == 'clone':
            for v, g in rets:
                ok &= v is me or (v.op == 'agg' and v.a[0] == ty and all(x is fld(me, f) for f, x in zip(v.a[2], v.a[3:])))
        elif meth == 'eq':
            for v, g in rets:
                for g2, lf in leaves(v) if is_guard(v) else [(TRUE, v)]:
                    gg = g_and(g, g2)
                    if lf is TRUE or lf is FALSE:
                        ok &= same_on(me, ps[1], fields, gg, lf is TRUE)
                    else:
                        ok &= len(fields) == 1 and lf in field_eq(me, ps[1], fields[0])
        elif meth in ('cmp', 'partial_cmp'):
            for v, g in rets:
                if v.op == 'agg' and v.a[0].endswith('Option'):
                    ok &= v.a[1] == 'Some'
                    v = v.a[3] if v.a[1] == 'Some' else v
                if v.op == 'agg' and v.a[0].endswith('Ordering'):
                    if len(fields) != 1:
                        ok = False
                    elif v.a[1] == 'Equal':
                        ok &= same_on(me, ps[1], fields, g, True)
                    elif v.a[1] == 'Greater':
                        ok &= same_on(me, ps[1], fields, g, False)
                else:
                    ok &= v.op == 'call' and v.a[0].split('::')[-1] in ('cmp', 'partial_cmp') and len(fields) == 1 and {x for x in v.a[1:]} == {fld(me, fields[0]), fld(ps[1], fields[0])}
        elif meth == 'hash':
            hs = [e for e in s.effects if e.kind in ('call', 'ext')]
            for e in hs:
                for a in e.args[1:]:
                    if isinstance(a, T) and contains_op(a, lambda x: x is me, {}):
                        ok &= any(a is fld(me, f) for f in fields)
        ctx.require(ok, key, 'the hand-written %s is not equality of all fields: %s' % (b['name'], '; '.join('%s if %s' % (v, g) for v, g in rets)[:500]))
    ctx.count('comparison_impls', seen)
