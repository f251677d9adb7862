"""Scripts for harness/fut.c: programs of threads, and schedules."""
import random, re

class Gen:
    """A main program and those of its threads; knows which fail, and what is left to be waited for."""
    def __init__(self, rnd, pid, maxprog, weight=1.0):
        self.rnd, self.pid, self.max = rnd, pid, maxprog
        self.n = 0
        self.d = 0
        self.s = 0
        self.g = 0
        self.text = {}
        self.fails = {}
        self.weight = weight
        self.want = pid == 'C26'

    def probe(self):
        self.d += 1
        return 'probe %d' % self.d

    def throw(self):
        return self.rnd.choice(['throw out_of_range', 'throw bad_alloc', 'throw range_error', 'panic boom1', 'panic boom2', 'panic other', 'raise 8', 'raise 11'])

    def small(self):
        r = self.rnd
        c = r.random()
        if c < 0.35: return [self.probe()]
        if c < 0.5: return ['mem %d' % r.choice([1, 8, 24, 100])]
        if c < 0.6: return ['yield %d' % r.randint(1, 3)]
        if c < 0.65: return ['nap %d' % r.choice([20, 100, 700, 5000])]
        if c < 0.85: return ['try'] + (self.small() if r.random() < 0.5 else []) + [self.throw(), 'end']
        return ['try'] + self.small() + ['end']

    def section(self, ops, p):
        """in a guarded section, at times; one cannot spawn from within it to a scope made outside"""
        if not ops or self.rnd.random() >= p or any(w in ('scope', 'spawn', 'scope+', 'spawn+', 'destroy') for o in ops for w in o.split()):
            return ops
        return self.wrap(ops)

    def wrap(self, ops):
        self.g += 1
        return ['guard %d' % (500 + self.g)] + ops + ['end']

    def call(self, text, fails=False):
        """a call that may be refused memory, or a thread; it is made again then"""
        r = self.rnd
        if not self.want or fails or r.random() < 0.35:
            return [text]
        name, rest = text.split(' ', 1)
        out = []
        for _ in range(r.choice([1, 1, 1, 2])):
            again = name + ('+' if out and name != 'sync' else '')
            bad = 'refuse' if name in ('async', 'spawn') and r.random() < 0.25 else 'fail %d' % r.choice(range(1, 11) if name in ('async', 'spawn') else range(1, 6))
            if r.random() < 0.2 and name in ('async', 'spawn'): bad += ' ' + self.mix(bad)
            out += ['try'] + (self.small() if r.random() < 0.2 else []) + bad.split() + ['%s %s' % (again, rest), 'end']
            if r.random() < 0.2: out += self.small()
        return out + [name + ('+' if name != 'sync' else '') + ' ' + rest]

    def mix(self, bad):
        return 'refuse' if 'fail' in bad else 'fail %d' % self.rnd.randint(1, 9)

    def child(self, depth, extra=None, spawn=False):
        """a new program; returns (number, form, argument)"""
        r = self.rnd
        self.n += 1
        k = self.n
        self.program(k, depth, extra)
        form = r.choice('lls') if 'retv' in self.text[k][-1] else r.choice('nippls')
        if spawn and form == 'l' and r.random() < 0.6:
            form = 'x'
        if form == 'l' and self.want:        # nobody would release it
            form = 'x' if spawn else 's'
        return k, form, r.choice([0, 1, -1, 42, 2147483647, -5000000000, r.randint(0, 99), r.randint(1, 9)])

    def program(self, k, depth, extra=None):
        r = self.rnd
        ops, pend, failing = [], [], []
        scopes = None
        failed = False
        if extra is not None:        # future of another thread, to be got here
            ops += self.small() if r.random() < 0.5 else []
            if self.fails[extra] and r.random() < 0.5:
                self.text[k] = ops + ['get %d' % extra, 'ret 1']
                self.fails[k] = True
                return
            ops += ['try', 'get %d' % extra, 'end']
        n = r.randint(1, 6) if depth == 0 else r.choice([0, 1, 1, 2, 3]) if depth == 1 else r.choice([0, 0, 1, 2])
        pscope = {'C13': 0.1, 'C14': 0.4, 'C15': 0.9, 'C26': 0.6}.get(self.pid, 0.5)
        for _ in range(n):
            at = len(ops)
            c = r.random()
            room = self.n < self.max and depth < 3
            if not scopes and r.random() < {'C15': .08, 'C26': 0}.get(self.pid, .02):
                ops += ['try', 'lost %d' % r.randint(0, 1), 'end']
            if c < 0.25 or not room and not pend and not scopes:
                ops += self.small()
            elif room and c < 0.55 and r.random() > pscope:
                x, f, a = self.child(depth + 1)
                ops += self.call('async %d %s %d' % (x, f, a))
                pend.append(x)
                if r.random() < 0.2 and self.n < self.max:        # let another thread get it
                    y, f, a = self.child(depth + 2, x)
                    pend.remove(x)
                    ops += self.call('async %d %s %d' % (y, f, a))
                    pend.append(y)
            elif room and c < 0.55 and not scopes:
                self.s += 1
                scopes = {'s': self.s, 'h': [], 'ready': set()}
                ops += self.call('scope %d' % self.s)
                self.spawns(ops, scopes, depth, r.randint(1, 3))
            elif scopes:
                self.scope_op(ops, scopes, depth)
            elif pend:
                x = r.choice(pend)
                q = r.random()
                if q < 0.4:
                    ops += ['done %d' % x] * r.randint(1, 3)
                elif q < 0.6:
                    ops += ['wait %d' % x] + (['done %d' % x] if r.random() < 0.5 else [])
                else:
                    pend.remove(x)
                    ops += self.get(x)
            ops[at:] = self.section(ops[at:], .12)
        # nothing is left behind
        if scopes:
            self.finish(ops, scopes)
        r.shuffle(pend)
        while pend:
            x = pend.pop()
            if not pend and k != 0 and self.fails[x] and r.random() < 0.6 or not self.fails[x] and r.random() < 0.4:
                ops += self.section(['get %d' % x], .15)
                failed = self.fails[x]
            else:
                ops += self.get(x)
        pf = {'C14': 0.5}.get(self.pid, 0.2)
        if not failed and k != 0 and r.random() < pf:
            ops += self.section([self.throw()], .3)
            failed = True
        if r.random() < .08:
            ops = self.wrap(ops)
        self.text[k] = ops + [self.ret(k)]
        self.fails[k] = failed

    def get(self, x):
        if self.fails[x] or not self.want:
            return ['try', 'get %d' % x, 'end']
        return self.call('get %d' % x)

    def ret(self, k):
        r = self.rnd
        if k and r.random() < 0.3:
            return 'retv %d' % r.choice(([1, 2, 7, 8, 16, 100, 256, 257, 300, 1000] + [4097, 65537] * (r.random() < .05)))
        return 'ret %d' % r.choice([0, 1, -1, 7, 255, 256, 65536, 2147483647, -2147483648, 9223372036854775807, k, 100 + k])

    def spawns(self, ops, sc, depth, n):
        for _ in range(n):
            if self.n < self.max:
                x, f, a = self.child(depth + 1, spawn=True)
                ops += self.call('spawn %d %d %s %d' % (sc['s'], x, f, a))
                sc['h'].append(x)

    def sync_one(self, ops, sc):
        """one thrd_sync: up to the first failed thread"""
        bad = [x for x in sc['h'] if x not in sc['ready'] and self.fails[x]]
        if bad:
            ops += ['try', 'sync %d' % sc['s'], 'end']
            sc['ready'] |= set(sc['h'][:sc['h'].index(bad[0]) + 1])
            return False
        ops += self.call('sync %d' % sc['s']) if self.want or self.rnd.random() < 0.6 else ['try', 'sync %d' % sc['s'], 'end']
        sc['ready'] |= set(sc['h'])
        return True

    def scope_op(self, ops, sc, depth):
        r = self.rnd
        q = r.random()
        if q < 0.25:
            self.spawns(ops, sc, depth, r.randint(1, 2))
        elif q < 0.5:
            self.sync_one(ops, sc)
        elif q < 0.65:
            ops.append('then %d' % sc['s'])
        elif q < 0.75:
            ops.append('fin %d' % sc['s'])
        elif sc['h']:
            x = r.choice(sc['h'])
            if x in sc['ready'] and r.random() < 0.5:
                ops.append('result %d' % x)
            else:
                ops += ['try', 'result %d' % x, 'end']

    def finish(self, ops, sc):
        r = self.rnd
        while not self.sync_one(ops, sc):
            pass
        for x in sc['h']:
            if r.random() < 0.6:
                ops.append('result %d' % x)
        if r.random() < 0.5:
            ops.append('then %d' % sc['s'])
        if r.random() < 0.3:
            ops.append('fin %d' % sc['s'])
        ops.append('destroy %d' % sc['s'])
        if r.random() < {'C15': .2, 'C26': 0}.get(self.pid, .05):
            ops += ['try', 'lost %d' % r.randint(0, 1), 'end']

    def script(self):
        self.program(0, 0)
        return ' '.join('| ' + ' '.join(self.text[k]) for k in range(self.n + 1))

# small programs whose schedules are gone through one preemption at a time
BASE = {
 'C13': ['| async 1 n 0 get 1 ret 0 | ret 5',
         '| async 1 p 9 done 1 done 1 get 1 ret 0 | probe 1 ret 6',
         '| async 1 l 9 wait 1 done 1 get 1 ret 0 | mem 8 probe 1 retv 20',
         '| async 1 n 0 async 2 p 3 get 1 get 2 ret 0 | probe 1 ret 6 | probe 2 ret 7',
         '| async 1 n 0 async 2 p 3 get 2 get 1 ret 0 | mem 4 ret 6 | mem 9 ret 7',
         '| async 1 n 0 done 1 async 2 p 3 wait 2 get 2 ret 0 | ret 6 | get 1 ret 7',
         '| async 1 n 0 get 1 ret 0 | async 2 l 5 probe 4 get 2 ret 6 | probe 2 retv 7'],
 'C14': ['| async 1 n 0 try get 1 end ret 0 | throw out_of_range ret 0',
         '| async 1 p 9 probe 9 try get 1 end ret 0 | probe 1 mem 8 panic boom1 ret 6',
         '| async 1 n 0 async 2 p 3 try get 1 end get 2 ret 0 | probe 1 panic boom1 ret 6 | probe 2 try panic boom2 end ret 7',
         '| async 1 n 0 async 2 p 3 try get 2 end try get 1 end ret 0 | panic boom1 ret 6 | throw bad_alloc ret 7',
         '| async 1 n 0 try panic other end try get 1 end ret 0 | try panic boom1 end probe 1 raise 8 ret 6',
         '| async 1 n 0 try get 1 end ret 0 | async 2 n 0 probe 1 get 2 ret 6 | probe 2 panic boom2 ret 0',
         '| scope 1 spawn 1 1 n 0 spawn 1 2 p 6 try sync 1 end sync 1 destroy 1 ret 0 | throw out_of_range ret 1 | ret 2'],
 'C15': ['| scope 1 spawn 1 1 n 0 sync 1 result 1 then 1 destroy 1 ret 0 | ret 4',
         '| scope 1 spawn 1 1 n 0 spawn 1 2 x 6 try result 1 end sync 1 result 2 result 1 then 1 destroy 1 ret 0 | ret 4 | retv 33',
         '| scope 1 spawn 1 1 n 0 fin 1 sync 1 spawn 1 2 p 6 then 1 try result 2 end sync 1 result 1 then 1 destroy 1 ret 0 | probe 1 ret 4 | probe 2 ret 3',
         '| scope 1 spawn 1 1 x 5 spawn 1 2 x 6 try sync 1 end then 1 sync 1 then 1 destroy 1 ret 0 | panic boom1 ret 0 | retv 8',
         '| try lost 0 end scope 1 spawn 1 1 n 0 sync 1 destroy 1 try lost 1 end ret 0 | try lost 1 end try lost 0 end ret 8',
         '| scope 1 spawn 1 1 n 0 try sync 1 end then 1 destroy 1 try lost 1 end ret 0 | lost 0 ret 8',
         '| scope 1 spawn 1 1 p 5 sync 1 destroy 1 ret 0 | scope 2 spawn 2 2 l 6 sync 2 result 2 destroy 2 ret 5 | retv 8'],
 'C26': [],
}
# every allocation of every call, one at a time
ONE = ['| try %s async 1 n 0 end async+ 1 n 0 get 1 ret 0 | probe 1 ret 5',
       '| async 1 n 0 try %s async 2 s 3 end async+ 2 s 3 get 1 get 2 ret 0 | nap 50 probe 1 ret 5 | probe 2 mem 9 retv 20',
       '| async 1 n 0 async 2 p 1 async 3 i 4 try %s async 4 s 0 end try %s async+ 4 s 0 end async+ 4 s 0 get 4 get 1 get 2 get 3 ret 0 | ret 5 | ret 6 | ret 7 | retv 8',
       '| async 1 s 0 try %s get 1 end get+ 1 ret 0 | probe 1 retv 30',
       '| probe 1 probe 2 probe 3 probe 4 async 1 s 0 try %s get 1 end get+ 1 ret 0 | probe 5 retv 30',
       '| try %s scope 1 end scope+ 1 spawn 1 1 n 0 sync 1 result 1 destroy 1 ret 0 | ret 5',
       '| scope 1 try %s spawn 1 1 n 0 end spawn+ 1 1 n 0 fin 1 sync 1 result 1 destroy 1 ret 0 | nap 50 ret 5',
       '| scope 1 try %s spawn 1 1 x 3 end spawn+ 1 1 x 3 sync 1 result 1 destroy 1 ret 0 | ret 5',
       '| scope 1 spawn 1 1 n 0 try %s spawn 1 2 x 4 end sync 1 spawn+ 1 2 x 4 sync 1 then 1 result 2 destroy 1 ret 0 | nap 30 ret 5 | retv 9',
       '| scope 1 spawn 1 1 n 0 spawn 1 2 p 0 try %s spawn 1 3 s 4 end then 1 try %s spawn+ 1 3 s 4 end spawn+ 1 3 s 4 sync 1 then 1 destroy 1 ret 0 | ret 5 | ret 6 | retv 9',
       '| scope 1 spawn 1 1 x 0 spawn 1 2 p 0 spawn 1 3 s 0 try %s sync 1 end try %s sync 1 end sync 1 then 1 result 3 destroy 1 ret 0 | retv 5 | ret 6 | retv 9',
       '| async 1 n 0 try get 1 end ret 0 | try %s async 2 s 7 end async+ 2 s 7 get 2 throw range_error ret 1 | retv 12']
FAILS = ['fail %d' % n for n in range(1, 12)] + ['refuse']
POINTS = 700
# threads that take long, in which the others go on
SLOW = {
 'C13': ['| async 1 n 0 %s 1 done 1 get 1 ret 0 | nap %%d ret 5' % w for w in ('wait', 'get', 'done')] +
        ['| async 1 n 0 async 2 n 0 wait 2 done 2 wait 1 done 1 get 1 get 2 ret 0 | nap %d ret 5 | nap %d ret 6',
         '| async 1 n 0 nap %d done 1 wait 1 get 1 ret 0 | ret 5',
         '| async 1 n 0 get 1 ret 0 | async 2 n 0 wait 2 done 2 nap %d get 2 ret 5 | nap %d ret 6'],
 'C14': ['| async 1 n 0 wait 1 done 1 try get 1 end ret 0 | nap %d panic boom1 ret 5',
         '| async 1 n 0 try get 1 end ret 0 | nap %d probe 1 throw out_of_range ret 5',
         '| scope 1 spawn 1 1 n 0 spawn 1 2 n 0 try sync 1 end sync 1 result 2 destroy 1 ret 0 | nap %d panic boom1 ret 5 | nap %d ret 6'],
 'C15': ['| scope 1 spawn 1 1 n 0 spawn 1 2 l 6 fin 1 sync 1 fin 1 result 1 result 2 then 1 destroy 1 ret 0 | nap %d ret 5 | nap %d retv 6',
         '| scope 1 spawn 1 1 n 0 sync 1 spawn 1 2 n 0 then 1 sync 1 then 1 destroy 1 ret 0 | nap %d ret 5 | nap %d ret 6',
         '| scope 1 spawn 1 1 n 0 nap %d fin 1 sync 1 destroy 1 ret 0 | ret 5'],
}
LONG = [10, 200, 3000, 30000, 300000]

def schedule(rnd):
    if rnd.random() < 0.6:
        return 'r%d.%d' % (rnd.randint(1, 10 ** 6), rnd.choice([2, 3, 5, 10, 20, 40, 80, 150]))
    return 'p' + ','.join('%d:%d' % (p, rnd.randint(0, 5)) for p in sorted(rnd.sample(range(1, rnd.choice([60, 200, 600, 1500])), rnd.randint(1, 6))))

def many(rnd, pid):
    """more threads than a byte counts"""
    n = rnd.choice([33, 40, 65, 100, 129, 129, 200, 255, 256, 257, 300])
    def end(k):
        if pid == 'C14' and rnd.random() < .1:
            return rnd.choice(['throw out_of_range ret 0', 'panic boom%d ret 1' % k])
        return 'ret %d' % rnd.randint(-5, 10 ** 6) if rnd.random() < .8 else 'retv %d' % rnd.randint(1, 40)
    ends = [None] + [end(k) for k in range(1, n + 1)]
    form = lambda k: rnd.choice('lsl') if 'retv' in ends[k] else rnd.choice('nipls')
    ops = []
    ks = list(range(1, n + 1))
    if pid == 'C15' or pid == 'C14' and rnd.random() < .4:
        ops.append('scope 1')
        for k in ks:
            ops.append('spawn 1 %d %s %d' % (k, form(k), rnd.randint(0, 1000)))
            if rnd.random() < .02:
                ops.append('try sync 1 end' if pid == 'C14' else 'sync 1')
        bad = [k for k in ks if ends[k][0] in 'tp']
        ops += ['try sync 1 end'] * len(bad) + ['sync 1', 'fin 1']
        good = [k for k in ks if k not in bad]
        if not bad:
            ops.append('then 1')
        ops += ['result %d' % k for k in rnd.sample(good, min(len(good), 40)) + good[-3:]]
        ops.append('destroy 1')
    else:
        todo = []
        for k in ks:
            ops.append('async %d %s %d' % (k, form(k), rnd.randint(0, 1000)))
            todo.append(k)
            if rnd.random() < rnd.choice([0, .3]):
                ops.append('try get %d end' % todo.pop(rnd.randrange(len(todo))))
            elif rnd.random() < .05:
                ops.append('%s %d' % (rnd.choice(['done', 'wait']), rnd.choice(todo)))
        rnd.shuffle(todo)
        ops += ['try get %d end' % k for k in todo]
    return 'r%d.%d ' % (rnd.randint(1, 10 ** 6), rnd.choice([3, 20, 80])) + ' '.join(['| ' + ' '.join(ops) + ' ret 0'] + ['| ' + (rnd.choice(['', 'probe 1 ', 'mem 8 ']) + e) for e in ends[1:]])

def scripts(pid, tier, seed):
    rnd = random.Random('fut/%s/%s' % (pid, seed))
    big = tier == 'thorough'
    out = []
    # every single preemption; a selection of the pairs
    for b in BASE[pid]:
        for p in range(1, POINTS):
            for to in ((0, 1) if big else (rnd.randint(0, 1),)):
                out.append('p%d:%d %s' % (p, to, b))
        for _ in range(6000 if big else 250):
            ps = sorted(rnd.sample(range(1, POINTS), rnd.choice([2, 2, 3, 4])))
            out.append('p%s %s' % (','.join('%d:%d' % (p, rnd.randint(0, 2)) for p in ps), b))
        for _ in range(3000 if big else 150):
            out.append('r%d.%d %s' % (rnd.randint(1, 10 ** 6), rnd.choice([1, 2, 3, 5, 8, 20]), b))
    for b in ONE if pid == 'C26' else []:
        for f in FAILS:
            for g in FAILS if b.count('%s') > 1 else ['']:
                if f == 'refuse' or g == 'refuse':
                    if not re.search('%s (async|spawn)', b): continue
                for _ in range(6 if big else 2):
                    out.append('%s %s' % (schedule(rnd), b % ((f, g) if g else f)))
    for n in range(40) if pid == 'C26' else []:       # the table of deferred functions grows
        pr = ' '.join('probe %d' % i for i in range(1, n + 1))
        for b in (ONE[3], ONE[0], ONE[6], ONE[7]):
            out.append('%s %s' % (schedule(rnd), ('| ' + pr + b[1:]) % ('fail %d' % rnd.choice([1, 1, 1, 2, 3]))))
    for b in SLOW.get(pid, []):
        b = b.replace('get 1 done 1 get 1', 'get 1').replace('done 1 done 1', 'done 1')
        for n in LONG + ([3000000] if big else []):
            for _ in range(4 if n < 300000 else 1):
                for sc in ('r%d.3', 'r%d.20', 'r%d.300'):
                    out.append((sc % rnd.randint(1, 10 ** 6)) + ' ' + re.sub('%d', lambda m: str(rnd.choice([n, n, n // 2, 1])), b, 1).replace('%d', str(n)))
    for _ in range(300 if big else 12) if pid != 'C26' else []:
        out.append(many(rnd, pid))
    for _ in range(60000 if big else 3500):
        g = Gen(rnd, pid, rnd.choice([2, 4, 6, 9, 12] + ([20, 38] if big else [])))
        s = g.script()
        for _ in range(2):
            out.append('%s %s' % (schedule(rnd), s))
    return ['%d %s' % (i, o) for i, o in enumerate(out)]
