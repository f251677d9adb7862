"""C25, decided with spec/Tls.tla: variables with a value for each thread."""
import random
import vt
from futgen import schedule

TECHNIQUE = 'TLA+ specification (spec/Tls.tla), TLC; histories of the real variables, under a deterministic scheduler, checked against it'
NOTE = ('The specification is model checked: whatever others do, a thread finds in its own room what it left (spec/TlsMC.tla); every recorded '
        'history of variables made with the macros of cthread.h is one of its behaviours (TLC decides).')
NV = 7

def build():
    return vt.build('tls', 'tls.c', extra=['-fsanitize=thread'], extra_c=['tls2.c', 'dsched.c'])

OPS = ['g', 'e', 'd', 'u1', 'u2', 'u0', 'w', 'r']

def op(o, v, rnd):
    if o[0] == 'u':
        return 'u %d %s' % (v, o[1])
    if o == 'w':
        return 'w %d %d' % (v, rnd.choice([1, 2, 3, 77, -5]))
    return '%s %d' % (o, v)

def body(rnd, vs, n):
    return [op(rnd.choices(OPS, [3, 2, .6, 1, .7, .5, 4, 4])[0], rnd.choice(vs), rnd) for _ in range(n)]

def scripts(tier, seed):
    rnd = random.Random('tls/%s' % seed)
    out = []
    big = tier == 'thorough'
    # each variable by itself: all short histories
    def seqs(n):
        return [[]] if n == 0 else [s + [o] for s in seqs(n - 1) for o in OPS]
    for n in (1, 2, 3) + ((4,) if big else ()):
        for s in seqs(n):
            for v in (range(NV) if n < 3 or big else rnd.sample(range(NV), 2)):
                out.append('r1.50 | ' + ' '.join(op(o, v, rnd) for o in s) + ' r %d e %d' % (v, v))
    # a thread made before and after, doing the same
    for s in seqs(2):
        for t in seqs(1):
            v = rnd.randrange(NV)
            a = ' '.join(op(o, v, rnd) for o in s)
            b = ' '.join(op(o, v, rnd) for o in t)
            out.append('%s | %s fork 1 %s join 1 fork 2 r %d join 2 r %d e %d | %s r %d e %d | e %d r %d %s' % (schedule(rnd), a, b, v, v, v, b, v, v, v, v, a))
    for _ in range(12000 if big else 1500):
        k = rnd.randint(2, 6)
        vs = rnd.sample(range(NV), rnd.choice([1, 1, 2, 3, NV]))
        ps = [body(rnd, vs, rnd.randint(1, 8)) for _ in range(k)]
        main = ps[0]
        for j in range(1, k):
            at = rnd.randint(0, len(main))
            main.insert(at, 'fork %d' % j)
            main.insert(rnd.randint(at + 1, len(main)), 'join %d' % j)
        if k > 3 and rnd.random() < .4:      # a thread of a thread's
            ps[0] = [o for o in main if o not in ('fork %d' % (k - 1), 'join %d' % (k - 1))]
            p = ps[1]
            at = rnd.randint(0, len(p))
            p.insert(at, 'fork %d' % (k - 1))
            p.insert(rnd.randint(at + 1, len(p)), 'join %d' % (k - 1))
        out.append(schedule(rnd) + ' ' + ' '.join('| ' + ' '.join(p) for p in ps))
    return ['%d %s' % (i, o) for i, o in enumerate(out)]

def check(pid, tier, seed):
    wd = vt.work_dir(pid)
    exe = build()
    mc = [vt.model_check('TlsMC', 'TlsMC_%s.cfg' % tier, wd)]
    return vt.decide(exe, scripts(tier, seed), 'TlsTrace', wd, mc)
