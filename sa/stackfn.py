"""Summaries of functions that work on a stack: what the k-th pop takes becomes the parameter S<k> (S0 is the top of the stack on entry). Versions of
the stack are followed through branches; a value popped at a depth that differs between paths, or after a push, has no position and stays as it is."""
import copy
from .term import mk, subst


def depth(v):
    n = 0
    while v.op == 'v+':
        v = v.a[0]
        n += 1
    return n if v.op == 'n' or v.op == 'c' or not v.a or v.a == (0,) else None


def positions(summ, stack):
    """summ with the popped values of the stack replaced; returns (summary, number of positions)"""
    r = copy.copy(summ)
    memo = {}
    top = [0]

    def f(t):
        if t.op == 'popped' and t.a[0] is stack and t.a[1] == 'back':
            d = 0
            if len(t.a) > 2:
                d = depth(t.a[2].a[0])
                if d is None:
                    return None
            top[0] = max(top[0], d + 1)
            return mk('p', 'S%d' % d)
        return None

    def s(x):
        return subst(x, f, memo)
    r.effects = []
    for e in summ.effects:
        e = copy.copy(e)
        e.args = [s(a) if hasattr(a, 'op') else a for a in e.args]
        e.guard = s(e.guard)
        e.loops = tuple(s(x) for x in e.loops)
        r.effects.append(e)
    r.params = dict(summ.params)
    for i in range(top[0]):
        r.params['S%d' % i] = mk('p', 'S%d' % i)
    r.memo = {}
    return r, sum(1 for k in r.params if k[0] == 'S' and k[1:].isdigit())
