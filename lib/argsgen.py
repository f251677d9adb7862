"""Scripts for harness/args.c: argument lists."""
import random, itertools
LET = 'lzuidcsaxfpq'
EXTREME = [0, 1, 0xff, 0x7f, 0x80, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0x7fffffffffffffff,
           0x8000000000000000, 0xffffffffffffffff, 0x3ff0000000000000, 0xdeadbeefcafebabe, 0xffffffff80000000]

def val(rnd, c=None):
    k = rnd.random()
    if c == 'f':
        if k < 0.3:
            return rnd.choice([0, 1 << 63, 0x3ff8000000000000, 0x7ff0000000000000, 0xfff0000000000000, 0x7ff8000000000001, 1, 0x000fffffffffffff])
        return rnd.getrandbits(63) & ~(0x7ff << 52) | rnd.randrange(0, 0x7ff) << 52
    if k < 0.4:
        return rnd.choice(EXTREME)
    return rnd.getrandbits(64)

def vals(rnd, fmt):
    return ' '.join('%016x' % val(rnd, c) for c in fmt)

def readall(rnd, l, n, how='in', extra=True):
    idx = list(range(n))
    rnd.shuffle(idx)
    if extra:
        idx += rnd.sample([-1, n, n + 1, n + 7, 1 << 20, -2147483648, 2147483647], 2)
    out = []
    for i in idx:
        h = rnd.choice(['in', 'get']) if how == 'mix' else how
        out.append('in %d %d' % (l, i) if h == 'in' else 'get %d %d %s' % (l, i, rnd.choice('an')))
    return out

def one_list(rnd, fmt, ctx=None):
    """a list alone: made, read, released by its scope or at once"""
    ctx = ctx or rnd.choice(['n', 'z', 't', 'u', 'xz', 'xt', 'xu'])
    ops = ['mk 0 %s %s %s' % (ctx, fmt or '-', vals(rnd, fmt))]
    how = rnd.choice(['in', 'get', 'mix'])
    ops += readall(rnd, 0, len(fmt), how)
    if how == 'in':
        ops.append('afree 0')
    return ops

def history(rnd, big):
    ops, lists = [], []           # lists: dict(bound scope or None, n, live, ctx)
    dead = set()                  # scopes ended
    k = [0]
    inthr = [False]
    def bind(x, sc):
        if x['bound'] is None:
            x['bound'] = sc if sc not in 'an' else (x['ctx'] if x['ctx'] != 'n' else 'w' if inthr[0] else 't')
            if x['bound'] == 't' and inthr[0] and (sc == 't'):
                x['bound'] = 'w'
    def live():
        return [i for i, x in enumerate(lists) if x['live']]
    def end(sc):
        for x in lists:
            if x['bound'] == sc:
                x['live'] = False
    n = rnd.randint(4, 40 if big else 20)
    while len(ops) < n:
        c = rnd.random()
        if c < 0.25 and len(lists) < 30:
            ctx = rnd.choice([x for x in ['n', 'z', 't', 'xz', 'xt', 'u', 'xu', 'v', 'xv'] if x[-1] not in dead])
            fmt = ''.join(rnd.choice(LET) for _ in range(rnd.choice([0, 1, 1, 2, 3, 5, 8, rnd.randint(9, 20)])))
            own = {'z': 'n', 't': 'w' if inthr[0] else 't'}.get(ctx[-1], ctx[-1])
            ops.append('mk %d %s %s %s' % (len(lists), ctx, fmt or '-', vals(rnd, fmt)))
            lists.append({'bound': None, 'n': len(fmt), 'live': True, 'ctx': own})
        elif c < 0.65 and live():
            l = rnd.choice(live())
            x = lists[l]
            i = rnd.randint(-1, x['n']) if rnd.random() < 0.2 or not x['n'] else rnd.randrange(x['n'])
            if rnd.random() < 0.4:
                ops.append('in %d %d' % (l, i))
            else:
                sc = rnd.choice([s for s in 'aaantuv' if s not in dead])
                if x['bound'] is None and x['ctx'] in dead and sc in 'an':
                    continue
                ops.append('get %d %d %s' % (l, i, sc))
                bind(x, sc)
        elif c < 0.8:
            sc = rnd.choice([s for s in 'tuv' if s not in dead])
            k[0] += 1
            ops.append('probe %s %d' % (sc, k[0]))
        elif c < 0.85:
            u = [l for l in live() if lists[l]['bound'] is None]
            if u:
                l = rnd.choice(u)
                ops.append('afree %d' % l)
                lists[l]['live'] = False
        elif c < 0.9:
            sc = rnd.choice('tuv')
            if sc in dead:
                continue
            ops.append('end %s' % sc)
            end('w' if sc == 't' and inthr[0] else sc)
            if sc != 't':
                dead.add(sc)
                for x in lists:      # those made for a scope that is gone have to be owned by another
                    pass
        elif not inthr[0] and live():
            if rnd.random() < 0.5:
                l = rnd.choice(live())
                ops.append('thr %d' % l)
            else:
                fmt = ''.join(rnd.choice(LET) for _ in range(rnd.randint(1, 12)))
                ops.append('spw %d %s %s' % (len(lists), fmt, vals(rnd, fmt)))
                lists.append({'bound': 'p', 'n': len(fmt), 'live': True, 'ctx': 'p'})
            inthr[0] = True
        elif inthr[0]:
            ops.append('endthr')
            inthr[0] = False
            end('w')
            for x in lists:          # made in the thread for its scope, which is gone
                if x['live'] and x['bound'] is None and x['ctx'] == 'w':
                    x['ctx'] = 'gone'
                    dead.add('gone')
    if inthr[0]:
        ops.append('endthr')
    return ops

def scripts(tier, seed):
    rnd = random.Random('args/%s' % seed)
    big = tier == 'thorough'
    out = []
    # every format of up to two (three) letters; longer ones in which each letter meets each place
    for n in range(0, 4 if big else 3):
        for f in itertools.product(LET, repeat=n):
            out.append(one_list(rnd, ''.join(f)))
    for c in LET:
        for x in EXTREME:
            out.append(['mk 0 n %s %016x' % (c, x), 'in 0 0', 'get 0 0 a'])
    for _ in range(6000 if big else 1200):
        n = rnd.choice([3, 4, 5, 6, 7, 8, 9, 12, 13, 14, 16, 20, 33, 60, rnd.randint(3, 60)])
        al = rnd.choice([LET, LET, 'f', 'if', 'sf', 'cu', 'lzd'])
        out.append(one_list(rnd, ''.join(rnd.choice(al) for _ in range(n))))
    # more of them than a byte counts
    for n in [64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 319] + [rnd.randint(61, 319) for _ in range(300 if big else 10)]:
        al = rnd.choice([LET, LET, 'f', 'lzd', 'cu'])
        out.append(one_list(rnd, ''.join(rnd.choice(al) for _ in range(n))))
    for _ in range(40000 if big else 4000):
        out.append(history(rnd, big))
    return ['%d %s' % (i, ' ; '.join(o)) for i, o in enumerate(out)]
