"""Scripts for harness/arena.c: histories of arenas."""
import random, itertools
SIZES = [1, 2, 3, 7, 8, 15, 16, 17, 100, 255, 256, 257, 500, 999, 1000, 1023, 1024, 1025, 2000, 4000, 5000, 8000, 10000, 10240, 10241, 12000, 20000, 40000, 61000]

def size(rnd):
    return rnd.choice(SIZES) if rnd.random() < 0.7 else rnd.randint(1, 12000)

def history(rnd, n, first=0, arenas=3, scopes=True, fails=False, total=400000):
    """ops of one thread on its own arenas; all are freed at the end (most times)"""
    ops, live, nxt, k, used = [], {}, [first], [0], [0]
    def new():
        a = nxt[0]
        nxt[0] += 1
        if scopes and rnd.random() < 0.3:
            ops.append('sco %d' % a)
            live[a] = 'scope'
        else:
            ops.append('new %d %d' % (a, rnd.choice([0, 1, 1, 2, 3, 10, 20])))
            live[a] = 'arena'
    new()
    while len(ops) < n:
        c = rnd.random()
        if not live or c < 0.08 and nxt[0] - first < arenas:
            if nxt[0] - first >= 20:
                break
            new()
            continue
        a = rnd.choice(list(live))
        if c < 0.62 and used[0] < total:
            m = size(rnd)
            used[0] += m
            if rnd.random() < 0.7:
                ops.append('%s %d %d' % (rnd.choice(['al', 'al', 'am']), a, m))
            else:
                x = rnd.choice([1, 1, 2, 3, 8])
                ops.append('%s %d %d %d' % (rnd.choice(['cal', 'cam']), a, x, max(1, m // x)))
        elif c < 0.78:
            ops.append('clear %d' % a)
        elif c < 0.86 and len(live) > 1:
            ops.append('free %d' % a)
            del live[a]
        elif c < 0.93 and live[a] == 'scope':
            k[0] += 1
            ops.append('probe %d %d' % (a, first * 100 + k[0]))
        elif c < 0.96:
            ops.append('cap %d' % a)
            if rnd.random() < 0.8:
                ops.append('%s %d %d' % (rnd.choice(['al', 'am']), a, rnd.choice([1, 8, 100, 1000, 5000, 9000, 10200, -1, -1])))
        else:
            ops.append('look')
    if rnd.random() < 0.8 or not scopes:
        rest = list(live)
        rnd.shuffle(rest)
        ops += ['free %d' % a for a in rest]
    return ops

def large(rnd):
    """many chunks, many blocks, or blocks of many pages"""
    n = rnd.choice([40, 130, 257, 300])
    th = rnd.choice([0, 1, 10, 20, 255, 256, 257, 300])
    kind = rnd.choice(['chunks', 'chunks', 'blocks', 'pages'])
    ops = ['new 0 %d' % th, rnd.choice(['sco 1', 'new 1 %d' % rnd.choice([0, 1, 300])])]
    for r in range(2):
        if kind == 'chunks':
            ops += ['al 0 %d' % rnd.choice([9000, 9001, 9900, 10000]) for _ in range(n)]
        elif kind == 'blocks':
            ops += ['%s %d %d' % (rnd.choice(['al', 'am']), rnd.choice([0, 0, 0, 1]), rnd.randint(1, 40)) for _ in range(2 * n)]
        else:
            for _ in range(6):
                ops += ['%s %d %d' % (rnd.choice(['al', 'am']), rnd.choice([0, 1]), rnd.choice([65535, 65536, 65537, 70001, 131072, 200000, 1 << 20, 3000001])),
                        'cal %d %d %d' % (rnd.choice([0, 1]), rnd.choice([1, 3, 1000]), rnd.choice([1, 70, 300])), 'cap 0', 'al 0 100']
        ops.append(rnd.choice(['clear 0', 'clear 0', 'clear 0 clear 1', 'look']))
    return ops + rnd.choice([['free 0', 'free 1'], ['free 1', 'free 0']])

def schedule(rnd):
    if rnd.random() < 0.6:
        return 'r%d.%d' % (rnd.randint(1, 10 ** 6), rnd.choice([1, 2, 3, 5, 10, 20, 40]))
    return 'p' + ','.join('%d:%d' % (p, rnd.randint(0, 5)) for p in sorted(rnd.sample(range(1, rnd.choice([100, 300, 1000])), rnd.randint(1, 6))))

# two arenas, every short history
ATOMS = ['al 0 1000', 'al 1 1000', 'al 0 9000', 'al 1 9000', 'clear 0', 'clear 1', 'cal 0 1 700', 'cap 0 al 0 -1']

def scripts(tier, seed):
    rnd = random.Random('arena/%s' % seed)
    big = tier == 'thorough'
    out = []
    allseq = list(itertools.product(ATOMS, repeat=5 if big else 4))
    for th in (0, 1, 2):
        for q in allseq if big else rnd.sample(allseq, 900):
            out.append('- | new 0 %d new 1 %d %s free %d free %d' % ((th, rnd.choice([0, 1, 3]), ' '.join(q)) + rnd.choice([(0, 1), (1, 0)])))
    for _ in range(40000 if big else 4000):
        out.append('- | ' + ' '.join(history(rnd, rnd.choice([10, 20, 40]), arenas=rnd.choice([1, 2, 3, 6]))))
    for _ in range(300 if big else 16):
        out.append('- | ' + ' '.join(large(rnd)))
    for _ in range(10000 if big else 1000):
        h = history(rnd, rnd.choice([10, 20]), arenas=rnd.choice([1, 2, 3]))
        i = rnd.randrange(1, len(h))
        out.append('- | ' + ' '.join(h[:i] + ['fail %d' % rnd.choice([1, 1, 2, 3])] + h[i:]))
    for _ in range(20000 if big else 2000):
        out.append(schedule(rnd) + ' ' + ' '.join('| ' + ' '.join(history(rnd, rnd.choice([6, 12, 20]), first=8 * t, arenas=2, scopes=False, total=60000)) for t in range(rnd.choice([2, 2, 3]))))
    return ['%d %s' % (i, o) for i, o in enumerate(out)]
