"""python3 tools/mktpl.py FUNC FILE OUT [-o OPAQUE,..] [NAME=TERM ...]: draft of a template from the current tree (to be reviewed by hand)"""
import sys, re
sys.path.insert(0, '/verif')
from sa import build
from sa.emit import *
a = sys.argv[1:]
ops = []
if '-o' in a:
    i = a.index('-o'); ops = a[i + 1].split(','); del a[i:i + 2]
em = Emission(Program(build.dump()), a[0], ops)
seq = em.file(a[1])
seq = assumed_all(em, seq)
lines = dump_seq(em, seq)
from sa.spec import *
pm = {show(v): k for k, v in em.summ.params.items() if k != 'self' and k[0].isupper()}
lets = [x.split('=', 1) for x in a[3:]]
def fix(t):
    for n, k in sorted(pm.items(), key=lambda x: -len(x[0])):
        t = re.sub(r'(?<![\w.!:])%s(?!\w)' % re.escape(n), k, t)
    for n, v in reversed(lets):
        for m, w in reversed(lets[:[x[0] for x in lets].index(n)]):
            v = re.sub(r'(?<![\w.!:])%s(?!\w)' % m, w, v)
        t = t.replace(v, n)
    return t
out = ['@let %s = %s' % (n, v) for n, v in lets]
for l in lines:
    if l.strip().startswith('@'):
        out.append(fix(l))
    else:
        l = re.sub('«(.*?)»', lambda m: '«%s»' % fix(m.group(1)), l)
        out.extend(re.sub(r' ([{};]) (?!»)', r' \1\n', l).split('\n'))
open(a[2], 'w').write('\n'.join(out) + '\n')
print(sorted(em.eng.unknown), len(out))
