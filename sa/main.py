"""python3 -m sa.main PROPERTY [--tier quick|thorough]"""
import importlib
import json
import os
import sys
import time
import traceback

from . import build
from .term import cint

HERE = build.HERE
EVID = os.environ.get('LAPEX_OUT') or os.path.join(HERE, 'evidence')


class Ctx:
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.violations = []
        self.notes = []
        self.functions = set()
        self.counts = {}
        self.samples = []
        self.rules = []
        self._prog = None
        self._sum = {}

    # ------------------------------------------------------------ program access
    @property
    def prog(self):
        if self._prog is None:
            from .engine import Program
            from . import models  # noqa: F401
            self._prog = Program(build.dump())
        return self._prog

    @property
    def repo(self):
        return build.REPO

    def read(self, rel):
        with open(os.path.join(build.REPO, rel), encoding='utf-8') as f:
            return f.read()

    def summary(self, name, opaque=(), depth=24, **consts):
        key = (name, tuple(sorted(opaque)), tuple(sorted(consts.items())))
        if key not in self._sum:
            from .spec import summarise
            s = summarise(self.prog, name, opaque, depth, {k: cint(v) for k, v in consts.items()})
            if s is None:
                self.violation('anchor:' + name, 'the function %s, which carries this property, no longer exists' % name)
            else:
                self.functions.add(s.body['name'])
                for f in s.eng.visited_fns:
                    self.functions.add(f)
                self.count('effects', len(s.effects))
                self.count('call_sites', s.eng.callsites)
            self._sum[key] = s
        return self._sum[key]

    def spec(self, summ, name, lines, **kw):
        """match a specification; returns bindings or None"""
        from .spec import check_spec
        if summ is None:
            return None
        if isinstance(lines, str):
            lines = [l.strip() for l in lines.strip().split('\n') if l.strip() and not l.strip().startswith('#')]
        b, v, m = check_spec(summ, name, lines, **kw)
        self.count('obligations', len(lines))
        if b is not None:
            self.count('discharged', len(lines))
        for k, msg in v:
            self.violation(k, msg)
        if len(self.samples) < 12:
            for l in lines[:2]:
                self.samples.append('%s: %s' % (summ.body['name'], l))
        return b

    def fixpoint(self, summ, name, is_target):
        from .spec import check_fixpoint
        if summ is None:
            return
        n, v = check_fixpoint(summ, name, is_target)
        self.count('obligations', n)
        self.count('discharged', n - len(v))
        for k, msg in v:
            self.violation(k, msg)
        self.require(n > 0, name + '/iterated', '%s: no collection is filled by iterating to a fixpoint' % summ.body['name'])

    def spec_any(self, summ, name, variants, **kw):
        """obligations with several admissible formulations: the first that holds; else the violations of the nearest one"""
        from .spec import check_spec
        if summ is None:
            return None
        best = None
        for v in variants:
            k2 = dict(kw)
            if isinstance(v, tuple):
                k2.update(v[1])
                v = v[0]
            lines = v if isinstance(v, list) else [l.strip() for l in v.strip().split('\n') if l.strip() and not l.strip().startswith('#')]
            b, viol, m = check_spec(summ, name, lines, **k2)
            if b is not None and not viol:
                self.count('obligations', len(lines))
                self.count('discharged', len(lines))
                if len(self.samples) < 12:
                    self.samples.append('%s: %s' % (summ.body['name'], lines[0]))
                return b
            score = len(lines) if b is not None else m.fail[0]
            if best is None or score / len(lines) > best[0]:
                best = (score / len(lines), viol, b, len(lines))
        self.count('obligations', best[3])
        for k, msg in best[1]:
            self.violation(k, msg)
        return None

    # ------------------------------------------------------------ generated files
    def emission(self, name, opaque=()):
        from .emit import Emission
        key = ('emit', name, tuple(opaque))
        if key not in self._sum:
            if self.prog.find(name) is None:
                self.violation('anchor:' + name, 'the function %s, which carries this property, no longer exists' % name)
                self._sum[key] = None
            else:
                em = Emission(self.prog, name, opaque)
                self.functions.add(em.body['name'])
                for f in em.eng.visited_fns:
                    self.functions.add(f)
                self.count('effects', len(em.effects))
                self.count('call_sites', em.eng.callsites)
                self._sum[key] = em
        return self._sum[key]

    def tpl(self, *names):
        return [open(os.path.join(HERE, 'sa', 'tpl', n), encoding='utf-8').read() for n in names]

    def emits(self, em, fname, tpls, key=None, assume=(), seq=None):
        """the generated file has the text of one of the templates; returns the bindings"""
        from .emit import Cmp, Tpl, Mismatch
        if em is None:
            return None
        key = key or fname
        if seq is None:
            seq = em.file(fname)
        if seq is None:
            self.violation(key, '%s no longer generates the file %s' % (em.body['name'], fname))
            return None
        worst = None
        for t in tpls if isinstance(tpls, (list, tuple)) else [tpls]:
            tp = Tpl(t)
            c = Cmp(em, assume)
            try:
                b = c.run(seq, tp)
                n = c.tokens + c.holes + c.loops
                self.count('obligations', n)
                self.count('discharged', n)
                self.count('emitted_values', c.holes)
                self.count('emission_loops', c.loops)
                self.count('emission_cases', c.branches)
                if len(self.samples) < 12:
                    self.samples.append('%s -> %s: %d tokens, %d interpolations, %d loops as specified' % (em.body['name'], fname, c.tokens, c.holes, c.loops))
                return b
            except Mismatch as e:
                if worst is None or c.tokens + c.holes > worst[0]:
                    worst = (c.tokens + c.holes, str(e))
        self.count('obligations', worst[0] + 1)
        self.count('discharged', worst[0])
        self.violation(key, '%s, file %s: %s' % (em.body['name'], fname, worst[1]))
        return None

    # ------------------------------------------------------------ reporting
    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def violation(self, key, msg):
        if not any(k == key for k, _ in self.violations):
            self.violations.append((key, msg))

    def require(self, cond, key, msg):
        self.count('obligations')
        if cond:
            self.count('discharged')
        else:
            self.violation(key, msg)
        return bool(cond)


def known(pid):
    """exact keys of accepted findings: lines 'finding: property=<id> key=<key> :: text'"""
    out = {}
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p, encoding='utf-8'):
            l = l.strip()
            if l.startswith('finding: property=%s ' % pid):
                rest = l.split(' key=', 1)[1]
                key, _, text = rest.partition(' :: ')
                out[key.strip()] = text.strip()
    return out


def main():
    args = sys.argv[1:]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in args:
        i = args.index('--tier')
        tier = args[i + 1]
        del args[i:i + 2]
    pid = args[0]
    t0 = time.time()
    ctx = Ctx(pid, tier)
    expl = ''
    try:
        mod = importlib.import_module('sa.props.' + pid.lower())
        ctx.rules = list(getattr(mod, 'RULES', []))
        expl = ' '.join((mod.__doc__ or '').split())
        mod.run(ctx)
        if getattr(mod, 'IDENTITY', ()):
            from . import ident
            ident.check(ctx, mod.IDENTITY)
        floors = getattr(mod, 'FLOORS', {})
        for k, n in floors.items():
            if ctx.counts.get(k, 0) < n and not ctx.violations:
                ctx.violation('floor:' + k, 'only %d %s analysed, at least %d expected: the rule no longer covers the code' % (ctx.counts.get(k, 0), k, n))
    except build.BuildError as e:
        ctx.violation('build', 'the current source could not be compiled for analysis: ' + str(e)[-1500:])
    except Exception:
        ctx.violation('analysis', 'the code that carries this property could not be analysed:\n' + traceback.format_exc())
    kn = known(pid)
    new = [(k, m) for k, m in ctx.violations if k not in kn]
    for k, m in ctx.violations:
        if k in kn:
            print('KNOWN-FINDING: property=%s %s' % (pid, kn[k]))
    os.makedirs(EVID, exist_ok=True)
    cov = {'explanation': expl, 'rules': ctx.rules, 'functions_analysed': sorted(ctx.functions)[:200],
           'functions_count': len(ctx.functions), 'samples': [s[:400] for s in ctx.samples[:14]],
           'known_findings': len(ctx.violations) - len(new)}
    cov.update(ctx.counts)
    ev = {'property': pid, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
          'level': 'other', 'coverage': cov,
          'assumptions': ['rustc lowers the analysed source to MIR faithfully', 'library functions behave as modelled in sa/models.py',
                          'RefCell/unsafe aliasing beyond Rust ownership does not occur in the workspace'],
          'wall_s': round(time.time() - t0, 3), 'violations': len(new)}
    rp = os.path.join(EVID, 'report-%s.txt' % pid)
    if new:
        with open(rp, 'w') as f:
            for k, m in new:
                f.write('[%s]\n%s\n\n' % (k, m))
    elif os.path.exists(rp):
        os.unlink(rp)
    with open(os.path.join(EVID, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if new:
        for k, m in new[:12]:
            print('%s: %s' % (k[:200], m[:1800]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    print('OK property=%s %s (%.1fs)' % (pid, ' '.join('%s=%s' % kv for kv in sorted(ctx.counts.items())), time.time() - t0))
    return 0


if __name__ == '__main__':
    sys.stdout.flush()
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        pid = sys.argv[1] if len(sys.argv) > 1 else '?'
        print('VIOLATION property=%s replay=%s' % (pid, os.path.join(HERE, 'sa')))
        rc = 1
    sys.stdout.flush()
    os._exit(rc)
