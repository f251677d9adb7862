"""Scripts for harness/atom.c: threads of atomic operations, and schedules."""
import random
from collections import defaultdict
import gen_atomops
from futgen import schedule

SIZE = gen_atomops.SIZE
BY = defaultdict(lambda: defaultdict(list))       # type -> op -> [(name, orders)]
for n, op, ty, ords in gen_atomops.names():
    BY[ty][op].append((n, ords))

def hx(v, size):
    return (v % (1 << 8 * size)).to_bytes(size, 'little').hex()

def val(rnd, ty):
    s = SIZE[ty]
    if ty in ('flag', 'lock'):
        return '01'
    if ty in ('f32', 'f64'):
        import struct
        return struct.pack('<f' if s == 4 else '<d', rnd.choice([0.0, -0.0, 1.0, -1.5, 3.25e10, 1e-30, 123456.0])).hex()
    return hx(rnd.choice([0, 1, 2, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x7fffffff, 0x80000000, 0xffffffff, -1, -2,
                          1 << 63, (1 << 63) - 1, rnd.getrandbits(64), rnd.getrandbits(64)]), s)

class Vals:
    """values that come up again, so that comparisons succeed at times"""
    def __init__(self, rnd, ty):
        self.rnd, self.ty = rnd, ty
        self.v = [val(rnd, ty) for _ in range(2)]
    def __call__(self):
        if self.rnd.random() < 0.7:
            return self.rnd.choice(self.v)
        v = val(self.rnd, self.ty)
        self.v.append(v)
        return v

def one(rnd, o, ty, vals, op=None, ord_ok=lambda o: True):
    op = op or rnd.choice([x for x in BY[ty] if x not in ('lock', 'unlock')])
    n, ords = rnd.choice([x for x in BY[ty][op] if ord_ok(x[1])])
    a = b = '-'
    if op in ('store', 'xchg', 'add', 'sub', 'or', 'xor', 'and', 'cas', 'casw', 'cswap'):
        a = vals()
    if op in ('cas', 'casw', 'cswap'):
        b = vals()
    return 'op %s %s %s %s' % (o, n, a, b)

def obj(o, ty, v):
    return 'obj %s %d %s' % (o, SIZE[ty], v)

def prog(objs, ths):
    return ' '.join(objs) + ' ' + ' '.join('| ' + ' '.join(t) for t in ths)

def forks(n):
    return ['fork %d' % k for k in range(1, n)]
def joins(n):
    return ['join %d' % k for k in range(1, n)]

def loads(objs):
    return ['op %s load_%s_i - -' % (o, ty if ty != 'lock' else 'flag') for o, ty in objs]

TYPES = [t for t in BY if t != 'lock']

def soup(rnd, ty=None, op=None):
    """threads that do operations on one or two objects"""
    n = rnd.choice([2, 2, 3, 4])
    os_ = [('x', ty or rnd.choice(TYPES))] + ([('y', rnd.choice(TYPES))] if rnd.random() < 0.3 else [])
    vs = {o: Vals(rnd, t) for o, t in os_}
    init = [obj(o, t, vs[o]() if t != 'flag' else rnd.choice(['00', '01'])) for o, t in os_]
    narrow = rnd.random() < 0.5 and not op
    ops = {o: (rnd.sample([x for x in BY[t] if x not in ('lock', 'unlock')], min(2, len(BY[t]))) if narrow else None) for o, t in os_}
    ths = []
    for k in range(n):
        th = []
        for _ in range(rnd.randint(1, 4 if n == 2 else 3)):
            o, t = rnd.choice(os_)
            th.append(one(rnd, o, t, vs[o], op if op and o == 'x' and rnd.random() < 0.7 else rnd.choice(ops[o]) if ops[o] else None))
        ths.append(th)
    ths[0] = forks(n) + ths[0] + joins(n) + loads(os_)
    return prog(init, ths)

REL = lambda o: o in ('i', 'g', 'h', '3', '4', '5', '55')
ACQ = lambda o: o in ('i', 'g', 'h', '1', '2', '4', '5', '55', '22', '42')
RLX = lambda o: o in ('0', '00')
def pick(rnd, ty, ops, ok):
    c = [(op, n) for op in ops if op in BY[ty] for n, o in BY[ty][op] if ok(o)]
    return rnd.choice(c)

def message(rnd, ty=None):
    """data written, a value published; whoever sees the value reads the data"""
    ty = ty or rnd.choice([t for t in TYPES if t != 'g32'])
    s = SIZE[ty]
    one_, two = ('01', '02') if s == 1 else (hx(1, s), hx(2, s))
    zero = hx(0, s)
    how = rnd.random()
    fence_w, fence_r = rnd.random() < 0.25, rnd.random() < 0.25
    wops = ['tas'] if ty == 'flag' else ['store', 'xchg', 'or', 'add', 'cas', 'cswap']
    if fence_w:
        op, n = pick(rnd, ty, wops, RLX)
    else:
        op, n = pick(rnd, ty, wops, lambda o: REL(o) or len(o) == 2 and o[0] in '345')
    if n in ('store_g_0g',): n = 'store_g_i'
    a = {'cas': zero, 'cswap': zero, 'tas': '-'}.get(op, one_)
    b = one_ if op in ('cas', 'cswap') else '-'
    w = ['dw 0 %d' % rnd.randint(1, 99)] + (['fence %s' % rnd.choice('345')] if fence_w else []) + ['op x %s %s %s' % (n, a, b)]
    if fence_r:
        rn = pick(rnd, ty, ['load'], RLX)[1]
    else:
        rn = pick(rnd, ty, ['load'], ACQ)[1]
    fr = ['fence %s' % rnd.choice('245')] if fence_r else []
    reader = []
    seen = one_
    ths = [None, w]
    if rnd.random() < 0.3 and ty not in ('flag', 'f32', 'f64', 'ptr'):      # a third one updates it between
        u = pick(rnd, ty, ['add'], lambda o: True)[1]
        ths.append(['await x load_%s_0 %s' % (ty, one_), 'op x %s %s -' % (u, one_)])
        seen = two
        if op == 'or': pass
    if how < 0.5:
        reader = ['await x %s %s' % (rn, seen)] + fr + ['dr 0']
    else:
        reader = ['op x %s - -' % rn, 'if %s %d' % (seen, 1 + len(fr))] + fr + ['dr 0']
        reader = reader * rnd.randint(1, 2)
    if rnd.random() < 0.5:
        ths.append(reader); ths[0] = []
    else:
        ths[0] = reader
    n = len(ths)
    ths[0] = forks(n) + ths[0] + joins(n) + ['dr 0']
    return prog([obj('x', ty, zero)], ths)

def locks(rnd):
    """data shared under one or two locks, or a flag tried"""
    n = rnd.choice([2, 2, 3, 3, 4])
    two = rnd.random() < 0.25
    flagged = rnd.random() < 0.3
    ths = []
    def section(l, d):
        body = []
        for _ in range(rnd.randint(1, 3)):
            body.append(rnd.choice(['dr %d' % d, 'dw %d %d' % (d, rnd.randint(1, 99)), 'dw %d %d' % (d, rnd.randint(1, 99)), 'yield']))
        if flagged:
            t = pick(rnd, 'flag', ['tas'], ACQ)[1]
            c = pick(rnd, 'flag', ['clear'], REL)[1]
            body.append('op %s %s - -' % (l, c))
            return ['op %s %s - -' % (l, t), 'if 00 %d' % len(body)] + body
        q = rnd.choice('lc')
        if rnd.random() < 0.2:
            body.append('op %s unlock_lock_%s - -' % (l, q))
            return ['op %s tas_lock_2 - -' % l, 'if 00 %d' % len(body)] + body
        return ['op %s lock_lock_%s - -' % (l, q)] + body + ['op %s unlock_lock_%s - -' % (l, rnd.choice('lc'))]
    for k in range(n):
        th = []
        for _ in range(rnd.randint(1, 3 if n == 2 else 2)):
            th += section('l', 0) if not two or rnd.random() < 0.5 else section('m', 1)
        ths.append(th)
    if two and not flagged and rnd.random() < 0.5:      # one inside the other, the same way round
        for th in ths:
            th += ['op l lock_lock_l - -', 'dw 0 7', 'op m lock_lock_l - -', 'dr 0', 'dw 1 8', 'op m unlock_lock_l - -', 'op l unlock_lock_l - -']
    ths[0] = forks(n) + ths[0] + joins(n) + ['dr 0']
    ty = 'flag' if flagged else 'lock'
    return prog([obj('l', ty, '00'), obj('m', ty, '00')], ths)

BASE = ['obj l 1 00 | fork 1 op l lock_lock_l - - dw 0 1 dr 0 op l unlock_lock_l - - join 1 | op l lock_lock_l - - dr 0 dw 0 2 dr 0 op l unlock_lock_l - -',
        'obj l 1 00 | fork 1 op l lock_lock_l - - dw 0 1 op l unlock_lock_l - - op l lock_lock_l - - dr 0 op l unlock_lock_l - - join 1 | op l lock_lock_c - - dw 0 2 op l unlock_lock_c - -',
        'obj l 1 00 | fork 1 op l tas_flag_i - - if 00 3 dw 0 1 dr 0 op l clear_flag_i - - join 1 | op l tas_flag_2 - - if 00 3 dr 0 dw 0 2 op l clear_flag_3 - -']

def scripts(tier, seed):
    rnd = random.Random('atom/%s' % seed)
    big = tier == 'thorough'
    out = []
    def add(s, k=1):
        for _ in range(k):
            out.append('%s %s' % (schedule(rnd), s))
    for b in BASE:
        for p in range(1, 160):
            for to in (0, 1):
                out.append('p%d:%d %s' % (p, to, b))
            for _ in range(30 if big else 2):
                out.append('p%d:0,%d:0 %s' % (p, p + rnd.randint(1, 60), b))
    # each operation alone, and against itself
    for n, op, ty, ords in gen_atomops.names():
        if op in ('lock', 'unlock'):
            continue
        t = 'flag' if ty == 'lock' else ty
        for _ in range(20 if big else 2):
            v = Vals(rnd, t)
            a, b = ('-', '-')
            if op in ('store', 'xchg', 'add', 'sub', 'or', 'xor', 'and', 'cas', 'casw', 'cswap'): a = v()
            if op in ('cas', 'casw', 'cswap'): b = v()
            o = 'op x %s %s %s' % (n, a, b)
            start = obj('x', t, rnd.choice(['00', '01']) if t == 'flag' else v())
            add(prog([start], [[o] + loads([('x', t)]) + [o] + loads([('x', t)])]))
            o2 = one(rnd, 'x', t, v)
            for p in rnd.sample(range(4, 30), 6 if big else 2):
                out.append('p%d:0 %s' % (p, prog([start], [['fork 1', o, o2, 'join 1'] + loads([('x', t)]), [o] + [o2] * rnd.randint(0, 1)])))
    for _ in range(30000 if big else 1500): add(soup(rnd))
    for ty in BY:
        for op in BY[ty]:
            if ty != 'lock' and op != 'lockfree':
                for _ in range(40 if big else 3): add(soup(rnd, ty, op))
    for _ in range(20000 if big else 1500): add(message(rnd))
    for _ in range(20000 if big else 1500): add(locks(rnd))
    return ['%d %s' % (i, o) for i, o in enumerate(out)]
