"""Scripts for harness/ctl.c: programs using scopes, defers, guards, try
statements, protected pointers and signals.  random_program() draws one by the
weights of a profile; the enumerations list all small programs of a kind."""
import random, itertools
import gen_templates

EXN = ['out_of_range', 'bad_alloc', 'my_error', 'other_error', 'logic_error', 'my_err', 'my_error_2', 'My_error',
       'an_exception_whose_name_is_as_long_as_that_of_a_program_which_says_at_length_what_it_is_that_went_wrong_with_it',
       'an_exception_whose_name_is_as_long_as_that_of_a_program_which_says_at_length_what_it_is_that_went_wrong_with_us']
LIBEXN = ['invalid_type', 'range_error', 'divide_by_zero', 'future_error', 'system_error', 'domain_error', 'length_error',
          'invalid_argument', 'division_by_zero', 'out_of_memory', 'sig_int', 'sig_abrt', 'sig_alrm', 'sig_bus', 'sig_fpe', 'sig_ill',
          'sig_quit', 'sig_segv', 'sig_term', 'sig_trap', 'sig_hup', 'sig_winch', 'access_violation', 'array_bounds_exceeded',
          'breakpoint', 'flt_overflow', 'int_overflow', 'illegal_instruction', 'stack_overflow', 'invalid_handle']
MSGS = ['boom1', 'my_error',  'boom2', 'a', 'panic', 'out_of_range', 'some-longer-message-0123456789', '%s%d', '100%', '%n', 'My_error',
        'a-message-' + 'which-goes-on-and-' * 9 + 'on', 'a-message-' + 'which-goes-on-and-' * 60 + 'onward', 'a-message-' + 'which-goes-on-and-' * 60 + 'inward']
SIGS = ['sig_segv', 'sig_abrt', 'sig_fpe', 'sig_ill', 'sig_int', 'sig_term', 'sig_quit', 'sig_hup', 'sig_trap', 'sig_alrm', 'sig_bus']
OWNSIGS = ['usr1', 'usr2', 'pipe', 'sig_winch']
OWNNAMES = ['my_error', 'other_error', 'usr_error', 'out_of_range', 'sig_fpe']
HW = {'sig_segv', 'sig_fpe', 'sig_ill', 'sig_trap', 'sig_abrt'}
TEMPLATES = [k for k in gen_templates.keys()]

BASE = dict(D=0, M=0, K=0, F=0, N=0, X=0, Z=0, C=0, T=0, P=0, S=0, R=0, Y=0, G=0, B=0, V=0, p=0, q=0, u=0,
            c=0, r=0, m=0, g=0, w=0, A=0, a=0, e=0, I=0, L=0, y=0, h=0, l=0, j=0, J=0, t=0, x=0)

PROFILES = {
    # defers: many scopes, nested registration, every way to leave
    'C01': dict(D=14, M=3, K=2, F=1, N=1.5, X=1, Z=1, C=1, T=1, P=.6, Y=2, G=2.5, B=.5, V=.5, r=.5, I=.3),
    'C02': dict(D=14, M=2, K=7, F=7, N=1, X=.5, Z=.7, C=.7, T=.5, P=.3, Y=1, G=1.2, B=.3, V=.3),
    'C03': dict(l=4, t=1, D=3, M=14, F=1.5, N=2, X=1.4, Z=1, C=1, T=1, P=.5, Y=2, G=3, B=.5, V=.6, S=.2, r=.3),
    'C04': dict(D=.7, T=6, P=4, S=1, R=2, Y=10, G=.5, c=2, m=1, w=.3),
    'C05': dict(D=.5, T=5, P=2, S=.7, R=2, Y=10, G=1, c=2, B=.3, V=.3, w=.3),
    'C06': dict(D=1, M=.5, T=5, P=6, S=1, R=5, Y=10, G=1.5, c=1.5, m=4, g=1, j=3, J=.5),
    'C07': dict(D=6, M=2, T=2.5, P=2, S=1.5, R=1, Y=2.5, G=1.2, N=.4, X=.3, C=.2, w=.5, p=.4, I=.5, j=.4, J=.6),
    'C08': dict(D=1, M=.5, T=.5, S=9, R=1, Y=10, G=1, c=1, m=.5, A=.5, a=.5, e=.2, p=.3, h=1.2),
    'C09': dict(T=3, P=1.5, S=.7, R=1, Y=8, G=.4, p=10, q=3, u=4, D=.4, c=.5),
    'C10': dict(l=1, D=9, M=4, K=.7, F=.5, T=3, P=2.5, S=.5, Y=4, G=8, B=1.2, V=1.2, r=1, R=.5, g=.5, w=.4),
    'C11': dict(D=8, M=2.5, T=2, P=5, S=.4, Y=4, G=6, r=6, c=2.5, g=1.5, m=1, j=1, J=3, B=.3, V=.3, R=.3),
    'C12': dict(l=1, D=7, M=7, N=1.2, X=.6, Z=.5, C=.4, T=.5, P=.3, Y=4, G=4, L=3, t=4, F=.4, r=.5, B=.3, V=.3, c=.4),
    'C27': dict(D=8, M=1, K=.5, F=.5, N=1.5, X=.3, Z=.3, C=.3, T=4, P=3, S=1, R=1.5, Y=8, G=1.5, B=.2, V=.2, r=.5, c=1.5, m=1, w=.3, p=1.5, j=.3, x=3, L=.3),
    'C16': dict(D=9, M=4, K=1.5, F=1.5, N=.8, X=.6, C=.8, T=2.5, P=3.5, S=.8, R=1.5, Y=6, G=6.5, B=.5, V=.5, r=5, c=2, m=2, g=2.5, p=1, w=1.5, y=9),
}

class Gen:
    def __init__(self, rnd, prof, size, maxdepth=4, maxdefers=None):
        self.r = rnd
        self.w = dict(BASE)
        self.w.update(PROFILES[prof])
        self.prof = prof
        self.left = size
        self.maxdepth = maxdepth
        self.lab = 0
        self.fid = 0
        self.labels = []
        self.named = []

    def newlab(self):
        self.lab += 1
        return self.lab

    def name(self):
        r = self.r
        x = r.random()
        return r.choice(EXN[:3] if x < .75 else EXN if x < .93 else LIBEXN)

    def anyname(self):
        r = self.r
        x = r.random()
        if x < .5:
            return self.name()
        if x < .8:
            return r.choice(MSGS)
        if x < .9:
            return 'panic'
        if self.w['h'] and r.random() < .3:
            return 'usr_error'
        return r.choice(SIGS)

    def scope(self, ctx):
        r = self.r
        x = r.random()
        if ctx['guard'] and x < .55:
            return 'G'
        if self.w['N'] and x > .75:
            return 'U%d' % r.randint(1, 2)
        return 'T'

    def block(self, ctx, n):
        out = []
        while n > 0 and self.left > 0:
            s, stop = self.stmt(ctx)
            n -= 1
            if s:
                out.append(s)
            if stop:
                break
        return '{ ' + ' '.join(out) + (' ' if out else '') + '}'

    def sub(self, ctx, **kw):
        d = dict(ctx)
        d['depth'] += 1
        d.update(kw)
        return d

    def stmt(self, ctx):
        r = self.r
        self.left -= 1
        deep = ctx['depth'] >= self.maxdepth
        ok = {}
        for op, w in self.w.items():
            if w <= 0:
                continue
            if op in 'YG' and deep:
                continue
            if op in 'KFl' and not self.labels:
                continue
            if op in 'BV' and ctx['where'] != 'guard':
                continue
            if op in 'pqu' and ctx['where'] != 'body':
                continue
            if op == 'R' and ctx['where'] not in ('catch', 'fin'):
                continue
            if op in 'cm' and ctx['where'] not in ('catch', 'cb'):
                continue
            if op in 'rgjJ' and ctx['where'] != 'cb':
                continue
            if op in 'TPS':
                if ctx['where'] == 'main':
                    w *= .06
                elif ctx['where'] == 'cb':
                    w *= .25
                elif ctx['where'] in ('catch', 'fin'):
                    w *= .4
            ok[op] = w
        op = r.choices(list(ok), list(ok.values()))[0]
        if op == 'D':
            i = self.newlab()
            sc = self.scope(ctx)
            chk = r.random() < .4
            p = .7 if self.prof == 'C11' else .5 if self.prof == 'C16' else .28
            body = '{ }'
            if self.prof == 'C03' and self.labels and r.random() < .3:
                body = '{ l %d }' % r.choice(self.labels[-4:])
            elif ctx['depth'] < self.maxdepth and r.random() < p:
                body = self.block(self.sub(ctx, where='cb'), r.choice([1, 1, 1, 2, 3]))
            self.labels.append(i)
            return 'D %s %d %d %s' % (sc, i, chk, body), False
        if op == 'M':
            i = self.newlab()
            self.labels.append(i)
            return 'M %s %d %d %d' % (self.scope(ctx), i, r.choice([1, 3, 8, 16, 17, 40, 100, 1000]),
                                      r.randint(4, 10) if self.prof in ('C03', 'C12', 'C10') and r.random() < .3 else r.randint(0, 3)), False
        if op == 'x':
            return 'x ' + r.choice(['U1 1', 'U1 1', 'U2 1', 'U1 0', 'T 1', 'T 1', 'T 0', '- 0']), False
        if op in 'KF':
            i = r.choice(self.labels[-6:] if r.random() < .7 else self.labels)
            return '%s %d' % (op, i), False
        if op == 'l':
            return 'l %d' % r.choice(self.labels[-6:] if r.random() < .7 else self.labels), False
        if op in 'NX':
            return '%s U%d' % ('O' if op == 'N' and self.prof in ('C03', 'C12') and r.random() < .4 else op, r.randint(1, 2)), False
        if op == 'Z':
            return 'Z ' + self.scope(ctx), False
        if op == 'T':
            return 'T ' + self.name(), True
        if op == 'P':
            return 'P ' + r.choice(MSGS), True
        if op == 'S':
            s = r.choice(SIGS)
            if self.w['h'] and r.random() < .25:
                s = r.choice(self.named + ['sig_winch'])
            return 'S %s %d' % (s, s in HW and r.random() < .5), r.random() < .8
        if op == 'R':
            return 'R', True
        if op == 'Y':
            self.fid += 1
            fid = self.fid
            k = r.choice(TEMPLATES)
            if r.random() < .35 and '*' not in k:
                k = r.choice([x for x in TEMPLATES if '*' in x])
            fin = r.random() < (.7 if self.prof == 'C05' else .4)
            fin = fin or '!' in k
            bl = [self.block(self.sub(ctx, where='body'), r.choice([1, 2, 2, 3, 4]))]
            for c in k:
                if c == '!':
                    bl.append('{ }')
                    continue
                if c == '?':
                    b = self.block(self.sub(ctx, where='catch'), r.choice([0, 0, 1, 1, 2]))
                    nm = self.anyname()
                    pre = 'm ' if r.random() < .2 else ''
                    b = '{ %sc %s %s' % (pre, nm, b[2:])
                    # a second test may follow the first
                else:
                    b = self.block(self.sub(ctx, where='catch'), r.choice([0, 0, 1, 1, 2]))
                bl.append(b)
            if fin:
                bl.append(self.block(self.sub(ctx, where='fin'), r.choice([0, 1, 1, 2])))
            return 'Y %s%s %d %d %s' % (k, 'F' if fin else '-', fid, len(bl), ' '.join(bl)), False
        if op == 'G':
            self.fid += 1
            fid = self.fid
            n = r.choice([1, 2, 3, 4, 6])
            return 'G %d %d %s' % (fid, r.randint(0, 2), self.block(self.sub(ctx, where='guard', guard=True), n)), False
        if op == 'B':
            return 'B', True
        if op == 'V':
            return 'V %d' % r.choice([0, 1, 5, -3, 100]), True
        if op in 'pq':
            k = r.randint(0, 15 if r.random() < .2 else 4)
            v = 0 if r.random() < .12 else r.randint(1, 9)
            return '%s %d %d' % (op, k, v), False
        if op == 'u':
            return 'u %d' % r.randint(0, 4), False
        if op == 'c':
            return 'c ' + self.anyname(), False
        if op == 'r':
            return 'r ' + ('~' if r.random() < .35 else self.anyname()), False
        if op == 'J':
            return 'J ' + ('~' if r.random() < .35 else self.anyname()), False
        if op == 't':
            return 't %d %d %d' % (self.newlab(), r.choice([1, 2, 8, 24, 100, 1000]), r.randint(0, 5)), False
        if op == 'h':
            s = r.choice(OWNSIGS + SIGS)
            self.named.append(s)
            return 'h %s %s' % (s, r.choice(OWNNAMES)), False
        if op == 'L':
            return 'L %d' % r.choice([1, 1, 1, 2, 2, 3, 4, 5]), False
        return op, False

def random_program(seed, prof, size=None, lab=0, maxdepth=4, wrap=False):
    """lab: labels are above it.  wrap: for a thread of its own, which takes no part in
    the state of the process."""
    rnd = random.Random('%s/%s' % (prof, seed))
    if size is None:
        size = rnd.choice([6, 10, 14, 20, 30, 30, 45])
    g = Gen(rnd, prof, size, maxdepth)
    g.lab = lab
    if wrap:
        return thread_program(g, rnd)
    ctx = dict(where='main', depth=0, guard=False)
    pre = []
    if rnd.random() < .3 or prof == 'C07':
        pre.append('H %d %d' % (rnd.choice([0, 1, 1, 2]), rnd.choice([0, 1, 1, 2])))
    if rnd.random() < .5:
        pre.append('I')
    if g.w['N'] and rnd.random() < .5:
        pre.append('O U1' if prof in ('C03', 'C12') and rnd.random() < .4 else 'N U1')
        if rnd.random() < .5:
            pre.append('N U2')
    # a row of defers longer than the array grows by
    if g.w['D'] > 2 and rnd.random() < .12:
        n = rnd.choice([15, 16, 17, 31, 32, 33, 40, 70])
        sc = rnd.choice(['T', 'U1' if g.w['N'] else 'T'])
        for _ in range(n):
            i = g.newlab()
            g.labels.append(i)
            pre.append('D %s %d %d { }' % (sc, i, rnd.random() < .3))
    if prof == 'C27':
        pre += ['N U1'] + ['N U2'] * (rnd.random() < .4) + ['x U1 1'] * (rnd.random() < .7)
    body = g.block(ctx, 1000)
    return '{ ' + ' '.join(pre) + ' ' + body[2:]

def thread_program(g, rnd):
    g.fid = g.lab
    pre = 'I ' + ('N U1 ' if rnd.random() < .5 else '')
    ctx = dict(where='main', depth=0, guard=False)
    g.w['S'] = g.w['S'] if rnd.random() < .5 else 0
    if rnd.random() < .25:      # may end the process
        return '{ ' + pre + g.block(ctx, 1000)[2:]
    ctx['where'], ctx['depth'] = 'body', 1
    body = g.block(ctx, 1000)
    g.fid += 1
    return '{ %sY *- %d 2 %s { } }' % (pre, g.fid, body)
