"""Programs that are large in one respect: long rows of defers, deep nests of try
and guard, many protected pointers, many exceptions and signals one after the other."""
import ctlgen

TRY1 = ['o', 'b', 'y', 'p', '*', '?', 'ob', 'o*', 'p*', 'yp*', '']

class Big:
    def __init__(self, rnd, pid):
        self.r, self.pid, self.lab, self.fid, self.labels = rnd, pid, 0, 0, []

    def newlab(self):
        self.lab += 1
        return self.lab

    def newfid(self):
        self.fid += 1
        return self.fid

    def d(self, sc, body=''):
        i = self.newlab()
        self.labels.append(i)
        return 'D %s %d %d { %s}' % (sc, i, self.r.random() < .3, body + ' ' if body else '')

    def m(self, sc):
        i = self.newlab()
        self.labels.append(i)
        return 'M %s %d %d %d' % (sc, i, self.r.choice([1, 8, 17, 100]), self.r.randint(0, 3))

    def entry(self, sc, mem=.1):
        return self.m(sc) if self.r.random() < mem else self.d(sc)

    def leave(self, what):
        """throw something"""
        r = self.r
        x = r.random()
        return 'T ' + r.choice(ctlgen.EXN) if x < .6 else 'P ' + r.choice(ctlgen.MSGS) if x < .85 else 'S %s 0' % r.choice(ctlgen.SIGS)

    def touch(self, k):
        """cancel and fire some, those with a high number above all"""
        r = self.r
        out = []
        for _ in range(k):
            i = r.choice(self.labels[-60:] if r.random() < .5 else self.labels)
            out.append('%s %d' % (r.choice('KF'), i))
        return out

    def row(self):
        r = self.r
        n = r.choice([130, 254, 255, 256, 257, 258, 300, 300, 511, 513, 600, 1030])
        sc = r.choice(['T', 'U1', 'G'])
        mem = r.choice([0, .05, .3])
        row = [self.entry(sc, mem) for _ in range(n)]
        if r.random() < .3 and n < 600:
            row[r.randrange(n)] = self.d(sc, ' '.join(self.entry(sc, 0) for _ in range(r.choice([3, 20, 150]))))
        if self.pid in ('C02', 'C12') or r.random() < .4:
            row += self.touch(r.choice([1, 3, 10]))
            if r.random() < .4:
                row += [self.entry(sc, mem) for _ in range(r.choice([1, 20, 60]))] + self.touch(2)
        if self.pid == 'C12':
            row[r.randrange(len(row) // 2):0] = []
            k = r.randrange(1, len(row))
            row[k:k] = ['L %d' % r.choice([1, 2, 3])]
        if sc == 'G':
            last = [r.choice(['', 'B', 'V 3', self.leave('')])]
            return self.guard(row + last)
        if sc == 'U1':
            x = r.random()
            row = ['N U1'] + row + (['X U1'] if x < .5 else ['Z U1'] if x < .7 else [])
        else:
            row = ['I'] + row + r.choice([[], [], ['C'], [self.leave('')]])
        return row

    def guard(self, body):
        return ['G %d %d { %s }' % (self.newfid(), self.r.randint(0, 2), ' '.join(x for x in body if x))]

    def tryst(self, body, key, fin, catch=(), final=()):
        bl = ['{ %s }' % ' '.join(body)]
        for c in key:
            bl.append('{ %s%s }' % ('c panic ' if c == '?' else '', ' '.join(catch)))
        if fin:
            bl.append('{ %s }' % ' '.join(final))
        return ['Y %s%s %d %d %s' % (key, 'F' if fin else '-', self.newfid(), len(bl), ' '.join(bl))]

    def trynest(self, d=None):
        r = self.r
        d = d or r.choice([17, 33, 40, 65, 70, 70, 130] + [257] * (r.random() < .4))
        body = [self.leave('')]
        every = r.random() < .5
        for k in range(d):
            key = r.choice(TRY1) if every or r.random() < .1 else r.choice(['', 'b', 'p'])
            pre = [self.d('T')] if r.random() < .1 else []
            if self.pid == 'C09' or r.random() < .05:
                pre += ['p %d %d' % (r.randint(0, 3), r.randint(1, 9))]
            body = self.tryst(pre + body, key, r.random() < .4, ['R'] if r.random() < .6 else [self.leave('')] if r.random() < .3 else [])
        return ['I'] * (r.random() < .7) + body

    def guardnest(self):
        r = self.r
        d = r.choice([9, 17, 33, 33, 65, 65] + [130, 260] * (r.random() < .15))
        body = [self.leave('') if r.random() < .8 else r.choice(['', 'V 4', 'B'])]
        for k in range(d):
            pre = [self.d('G', r.choice(['', '', 'r ~', 'g', 'r my_error'])) for _ in range(r.choice([0, 1, 1, 2]))]
            if r.random() < .15:
                pre.append(self.m('G'))
            body = self.guard(pre + body + ([self.d('G')] if r.random() < .2 else []))
        if r.random() < .5:
            body = self.tryst(body, '*', 0)
        return ['I'] + body

    def pointers(self):
        r = self.r
        n = r.choice([20, 130, 256, 257, 300, 600])
        names = list(range(n))
        r.shuffle(names)
        body = ['p %d %d' % (k, r.randint(1, 9)) for k in names]
        for _ in range(r.choice([0, 3, 20])):
            body.append('q %d %d' % (r.choice(names), r.randint(0, 9)))
        if r.random() < .4:
            body.append('u %d' % r.choice(names[-50:] + [names[0]]))
        if r.random() < .8:
            body.append(self.leave(''))
        return self.tryst(body, r.choice(['*', 'o*', '']), r.random() < .3)

    def sequence(self):
        """many, one after the other"""
        r = self.r
        n = r.choice([40, 130, 260])
        out = ['I'] if r.random() < .5 else []
        for _ in range(n):
            if r.random() < (.5 if self.pid in ('C10', 'C11') else .1):
                out += self.tryst(self.guard([self.d('G', r.choice(['', 'r ~'])), r.choice(['', 'B', self.leave('')])]), '*', 0)
                continue
            body = []
            if self.pid == 'C08' and r.random() < .8:
                s = r.choice(ctlgen.SIGS)
                body.append('S %s %d' % (s, s in ctlgen.HW and r.random() < .5))
            elif r.random() < .8:
                body.append(self.leave(''))
            key = r.choice(['*', 'o*', 'yp*', 'sf*'])
            out += self.tryst(body, key, r.random() < .3, ['m', 'c my_error'] if r.random() < .2 else [])
        return out

    def hooked(self):
        """a long row to be run by the program's own function, or many exceptions told to it"""
        out = ['N U1', 'N U2', 'x U%d %d' % (self.r.choice([1, 1, 2]), self.r.random() < .9)]
        return out + getattr(self, self.r.choice(['row', 'sequence', 'trynest']))()

    def text(self):
        r = self.r
        x = r.random()
        m = r.choice(ctlgen.MSGS)
        return self.tryst(['P ' + m], r.choice(['p', '*', 'op']), 0, ['m', 'c ' + r.choice([m] + ctlgen.MSGS)]) if x < .7 else ['P ' + m]

KINDS = {'C01': 'row row row sequence', 'C02': 'row row row', 'C03': 'row row row guardnest', 'C04': 'trynest trynest sequence',
         'C05': 'trynest trynest sequence', 'C06': 'trynest sequence text text', 'C07': 'row trynest guardnest text text', 'C08': 'sequence',
         'C09': 'pointers pointers trynest', 'C10': 'guardnest guardnest row sequence', 'C11': 'guardnest guardnest sequence', 'C12': 'row', 'C27': 'hooked'}

def programs(pid, rnd, n):
    out = []
    for _ in range(n):
        b = Big(rnd, pid)
        out.append('{ %s }' % ' '.join(getattr(b, rnd.choice(KINDS[pid].split()))()))
    return out
