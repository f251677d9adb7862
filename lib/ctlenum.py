"""Bounded-exhaustive sets of small scripts, one kind for each property."""
import itertools, random, re
import gen_templates
T = gen_templates.keys()

class Lab:
    """fills in label and frame numbers: '#' is a new label, '&' a new frame id"""
    def __init__(self):
        self.n = 0
        self.f = 0
    def fill(self, s):
        out = []
        for w in s.split():
            if w == '#':
                self.n += 1
                w = str(self.n)
            elif w == '&':
                self.f += 1
                w = str(self.f)
            out.append(w)
        return ' '.join(out)

def prog(*parts):
    return Lab().fill('{ ' + ' '.join(p for p in parts if p) + ' }')

def product_capped(rnd, cap, *lists):
    """the whole product if it is small enough, else a random selection"""
    total = 1
    for l in lists:
        total *= len(l)
    if total <= cap:
        return [x for x in itertools.product(*lists)]
    return [tuple(rnd.choice(l) for l in lists) for _ in range(cap)]

def seqs(atoms, n):
    for k in range(n + 1):
        for x in itertools.product(atoms, repeat=k):
            yield x

def try_(key, body, catches, fin=None):
    if '!' in key and fin is None:
        fin = ''
    k = key + ('F' if fin is not None else '-')
    bl = [body] + list(catches) + ([fin] if fin is not None else [])
    return 'Y %s & %d %s' % (k, len(bl), ' '.join('{ %s }' % b for b in bl))

# ways to leave a piece of program run with its defers in scope s
def exits_T(body):
    return [body,                                          # end of process
            body + ' T my_error',                          # uncaught
            body + ' C',                                   # cleaned
            body + ' C D T # 0 { } C',                     # used again
            try_('*', body + ' T bad_alloc', ['']),        # thrown inside, home or not
            'I ' + try_('*', body + ' P boom1', ['C']),
            'I ' + try_('y', body + ' S sig_fpe 1', ['']), # passes the try, ends the process
            ]
def exits_G(body):
    return ['G & 0 { %s }' % body, 'G & 1 { %s B }' % body, 'G & 0 { %s V 5 }' % body, 'G & 2 { %s V 5 }' % body,
            try_('*', 'G & 0 { %s P boom1 }' % body, ['']),
            try_('*', 'G & 1 { D G # 1 { r ~ } %s P boom1 }' % body, ['']),
            try_('o', 'G & 2 { %s G & 0 { %s T out_of_range } }' % (body, body), ['m c out_of_range'], ''),
            'G & 0 { %s P boom2 }' % body]
def exits_U(body):
    return ['N U1 ' + body, 'N U1 %s X U1' % body, 'N U1 %s Z U1 D U1 # 0 { } X U1' % body,
            'N U1 ' + try_('*', body + ' T bad_alloc', ['X U1'])]

def with_scope(atoms, s):
    return [a.replace('@', s) for a in atoms]

def p_defers(atoms, tier, rnd, cap, n):
    out = []
    for s, ex in (('T', exits_T), ('G', exits_G), ('U1', exits_U)):
        at = with_scope(atoms, s)
        allseq = list(seqs(at, n))
        for q in allseq:
            for e in ex(' '.join(q)):
                out.append(e)
    rnd.shuffle(out)
    return [prog(x) for x in out[:cap]]

def c01(tier, rnd, cap):
    atoms = ['D @ # 0 { }', 'D @ # 1 { }', 'D @ # 0 { D @ # 0 { } }', 'D @ # 0 { D @ # 1 { D T # 0 { } } D @ # 0 { } }', 'M @ # 8 0',
             'D @ # 0 { T out_of_range }', 'D @ # 0 { %s }' % try_('*', 'T out_of_range', ['']), 'D @ # 0 { Z @ }', 'D @ # 0 { G & 0 { D G # 0 { } } }']
    out = p_defers(atoms, tier, rnd, cap * 3 // 4, 3 if tier == 'quick' else 4)
    # long rows: the array of defers grows by 16
    for s in ('T', 'U1', 'G'):
        for n in range(1, 70):
            for at in ('D @ # 0 { }', 'D @ # 1 { D @ # 0 { } }'):
                body = ' '.join([at.replace('@', s)] * n)
                ex = {'T': exits_T, 'U1': exits_U, 'G': exits_G}[s](body)
                out.append(prog(rnd.choice(ex)))
    return out

def c02(tier, rnd, cap):
    atoms = ['D @ # 0 { }', 'D @ # 0 { K 1 }', 'D @ # 0 { F 1 }', 'D @ # 0 { D @ # 0 { } }', 'M @ # 8 2', 'K 1', 'K 2', 'F 1', 'F 2', 'K 3', 'F 3']
    out = []
    for s, ex in (('T', exits_T), ('G', exits_G), ('U1', exits_U)):
        at = with_scope(atoms, s)
        for q in itertools.product(at, repeat=3 if tier == 'quick' else 4):
            body = ' '.join([at[0]] * 2 + list(q))
            out.append(rnd.choice(ex(body)))
    rnd.shuffle(out)
    out = [prog(x) for x in out[:cap * 3 // 4]]
    for s in ('T', 'U1'):
        for n in range(2, 40, 3):
            for _ in range(6):
                ids = [rnd.randint(1, n) for _ in range(rnd.randint(1, 6))]
                body = ' '.join(['D %s # 0 { }' % s] * n) + ' ' + ' '.join(rnd.choice('KF') + ' %d' % i for i in ids)
                out.append(prog(rnd.choice({'T': exits_T, 'U1': exits_U}[s](body))))
    return out

def c03(tier, rnd, cap):
    atoms = ['M @ # 8 0', 'M @ # 24 1', 'M @ # 1 2', 'M @ # 100 3', 'D @ # 0 { }', 'D @ # 0 { M @ # 16 1 }', 'F 1',
             'D @ # 0 { M T # 16 1 }', 'M @ # 11 5', 'M @ # 7 10', try_('*', 'M @ # 8 1 T out_of_range', ['M @ # 8 0']), 'M @ # 5000 3']
    out = p_defers(atoms, tier, rnd, cap * 7 // 8, 3)
    for s in ('T', 'U1', 'G'):
        for n in range(1, 60):
            body = ' '.join('M %s # %d %d' % (s, rnd.choice([1, 7, 8, 64, 333]), rnd.randint(0, 10)) for _ in range(n))
            out.append(prog(rnd.choice({'T': exits_T, 'U1': exits_U, 'G': exits_G}[s](body))))
    return out

THROWS = ['', 'T out_of_range', 'T bad_alloc', 'T my_error', 'T other_error', 'P boom1', 'S sig_segv 1', 'S sig_fpe 0', 'S sig_int 0', 'T sig_segv', 'T my_err', 'T my_error_2', 'P my_error']
def handler(k, act, name='out_of_range'):
    return [('c %s ' % name if c == '?' else '') + act for c in k]
HACTS = ['', 'm', 'R', 'T bad_alloc', 'P boom2', 'm R', 'Y *- & 2 { T other_error } { } R', 'Y o- & 2 { T out_of_range } { } m', 'Y *F & 3 { } { } { }', 'S sig_fpe 1']
FACTS = [None, '', 'T my_error', 'R', 'w', 'Y *- & 2 { T other_error } { }', 'P boom1']
OUTER = ['*', 'o', 'b', 'y', '', 'o*', '?', 'bp', 'sf*']
def tries(tier, rnd, cap):
    out = []
    combos = product_capped(rnd, cap, T, THROWS, HACTS, FACTS, OUTER, [None, ''], ['out_of_range', 'boom1', 'bad_alloc', 'sig_segv', 'panic'])
    for k, th, h, f, o, of, nm in combos:
        inner = try_(k, th, handler(k, h, nm), f)
        out.append(prog(try_(o, inner, handler(o, 'm', nm), of), rnd.choice(['', '', 'T bad_alloc'])))
    return out

def c04(tier, rnd, cap):
    # every template against every throw, alone and in an outer catch
    out = []
    for k in T:
        for th in THROWS:
            for f in (None, ''):
                for nm in ('out_of_range', 'boom1'):
                    if '?' not in k and nm != 'boom1':
                        continue
                    i = try_(k, th, handler(k, '', nm), f)
                    out.append(prog(try_('*', i, ['m'])))
    rnd.shuffle(out)
    return out[:cap // 2] + tries(tier, rnd, cap // 2)

def c05(tier, rnd, cap):
    out = []
    combos = product_capped(rnd, cap, T, THROWS, HACTS, [f for f in FACTS if f is not None], OUTER, [None, '', 'w'], ['boom1', 'out_of_range'])
    for k, th, h, f, o, of, nm in combos:
        inner = try_(k, th, handler(k, h, nm), f)
        out.append(prog(try_(o, inner, handler(o, rnd.choice(['', 'R', 'T my_error']), nm), of)))
    return out

def c06(tier, rnd, cap):
    out = []
    combos = product_capped(rnd, cap, T, [t for t in THROWS if t], ['m R', 'R', 'Y *- & 2 { T other_error } { } m R', 'm', 'D T # 0 { } m R'], FACTS, T, ['m R', 'm', 'R'], [None, '', 'R'])
    for k, th, h, f, o, h2, f2 in combos:
        inner = try_(k, rnd.choice([th, 'G & 0 { D G # 0 { } %s }' % th, 'M T # 8 0 ' + th]), handler(k, h, rnd.choice(['out_of_range', 'boom1'])), f)
        mid = try_(o, inner, handler(o, h2, rnd.choice(['out_of_range', 'boom1'])), f2)
        out.append(prog(try_('*', mid, ['m'])))
    return out

def c07(tier, rnd, cap):
    out = []
    bodies = ['', 'D T # 0 { }', 'D T # 0 { } M T # 8 0', 'D T # 0 { D T # 0 { } } D T # 1 { }', 'N U1 D U1 # 0 { } M U1 # 8 1 D T # 0 { }',
              'D T # 0 { T my_error } D T # 0 { }', 'D T # 0 { } D T # 0 { P boom2 } M T # 8 0 D T # 0 { }', 'D T # 0 { Y *- & 2 { T bad_alloc } { } w }',
              'D T # 0 { G & 0 { D G # 0 { } P boom2 } } D T # 0 { }', 'C', 'D T # 0 { } C', 'D T # 0 { } C D T # 0 { }']
    ths = ['T my_error', 'P boom1', 'S sig_segv 1', 'S sig_segv 0', 'S sig_int 0', 'S sig_term 0', 'S sig_abrt 1', 'S sig_abrt 0', 'S sig_fpe 1']
    shape = [lambda b, t: b + ' ' + t, lambda b, t: 'I ' + try_('o', b + ' ' + t, ['']), lambda b, t: try_('o', b + ' ' + t, [''], ''),
             lambda b, t: b + ' ' + try_('*', t, ['R']), lambda b, t: b + ' ' + try_('*', t, ['T bad_alloc'], 'w'),
             lambda b, t: b + ' G & 0 { D G # 0 { } ' + t + ' }', lambda b, t: 'G & 1 { %s M G # 8 0 G & 2 { D G # 1 { } %s } }' % (b, t),
             lambda b, t: try_('', try_('b', b + ' ' + t, [''], ''), [], ''), lambda b, t: b + ' ' + try_('*', 'T out_of_range', ['']) + ' ' + t,
             lambda b, t: 'a ' + b + ' ' + t, lambda b, t: b + ' A ' + t, lambda b, t: try_('y', 'p 1 1 p 2 2 ' + b + ' ' + t, ['R']),
             lambda b, t: try_('y', '%s D T # 0 { %s }' % (b, t), ['']) + ' C', lambda b, t: '%s D T # 0 { %s } T other_error' % (b, t)]
    for h in ('', 'H 1 0', 'H 1 1', 'H 0 1', 'H 2 0', 'H 2 2', 'H 1 2'):
        for b in bodies:
            for t in ths:
                for s in shape:
                    out.append(prog(h, s(b, t)))
    rnd.shuffle(out)
    return out[:cap]

SIG = ['sig_segv', 'sig_abrt', 'sig_fpe', 'sig_ill', 'sig_int', 'sig_term', 'sig_quit', 'sig_hup', 'sig_trap', 'sig_alrm', 'sig_bus']
HW = ['sig_segv', 'sig_fpe', 'sig_ill', 'sig_trap', 'sig_abrt']
KEYOF = {'sig_segv': 's', 'sig_fpe': 'f', 'sig_int': 'i'}
def c08(tier, rnd, cap):
    out = []
    raises = ['S %s 0' % s for s in SIG] + ['S %s 1' % s for s in HW]
    one = lambda k, r, h='': try_(k, r, handler(k, h, r.split()[1]))
    for r in raises:
        for k in ('*', 's', 'sfi', '?', 'sf*', 'o*', 'f'):
            for f in (None, ''):
                x = try_(k, r, handler(k, 'm', r.split()[1]), f)
                out.append(prog(try_('*', x, ['m']), one('*', r), one('*', r)))
                out.append(prog('I', x, one('*', r)))
    for a in raises:
        for b in raises:
            for sh in range(7):
                if sh == 0: p = one('*', a) + ' ' + one('*', b) + ' ' + one('*', a)
                elif sh == 1: p = try_('*', try_('*', a, [b]), ['m'])
                elif sh == 2: p = try_('*', try_('*', a, [''], b), ['m'])
                elif sh == 3: p = try_('*', 'G & 0 { D G # 0 { } M G # 8 0 %s }' % a, ['']) + ' ' + one('*', b)
                elif sh == 4: p = one('*', a) + ' A ' + one('*', b) + ' A a ' + try_('*', b, [''])
                elif sh == 5: p = try_('*', one('*', a, 'R'), ['']) + ' ' + one('?', b) + ' ' + one('*', b)
                else: p = 'I D T # 0 { %s } C %s' % (one('*', a), one('*', b))
                out.append(prog(p))
    # exceptions of the program's own, before and after the library has set its own up
    for r in ['S usr1 0', 'S usr2 0', 'S pipe 0', 'S sig_winch 0', 'S sig_fpe 1', 'S sig_segv 0', 'S sig_int 0']:
        s = r.split()[1]
        for n in ('usr_error', 'my_error', 'sig_fpe'):
            h = 'h %s %s' % (s, n)
            x = try_('?', r, ['c %s m' % n])
            y = try_('*', r, ['m'])
            for p in (h + ' ' + x + ' ' + one('*', 'S sig_segv 1'), 'I ' + h + ' ' + x + ' ' + one('*', 'S sig_ill 1'), one('*', 'S sig_fpe 0') + ' ' + h + ' ' + x + ' ' + y,
                      h + ' A ' + one('*', 'S sig_term 0') + ' ' + y, 'I ' + h + ' a ' + y, h + ' A ' + h + ' ' + x + ' ' + one('*', 'S sig_hup 0'),
                      try_('*', h + ' ' + r, ['m']) + ' ' + y, 'A ' + r, h + ' A ' + r, 'I ' + r, h + ' h usr1 my_error h usr2 other_error ' + one('*', 'S usr1 0') + ' ' + one('*', 'S usr2 0') + ' ' + y):
                out.append(prog(p))
    # as many as there is room for: twenty besides the library's own
    for n in (1, 2, 5, 10, 16, 19, 20):
        for first in ('', 'I', one('*', 'S sig_fpe 0')):
            sg = ['rt%d' % i for i in range(1, 26)] + ['usr1', 'usr2', 'pipe']
            rnd.shuffle(sg)
            nm = {s: rnd.choice(['usr_error', 'my_error', 'other_error', 'out_of_range', 'sig_fpe']) for s in sg[:n]}
            h = ['h %s %s' % i for i in nm.items()]
            y = [try_('?', 'S %s 0' % s, ['c %s m' % v]) if rnd.random() < .6 else try_('*', 'S %s 0' % s, ['m']) for s, v in rnd.sample(sorted(nm.items()), min(n, 6))]
            y += [one('*', 'S %s 0' % s) for s in ('sig_term', 'sig_winch', 'sig_bus')]
            l = list(nm)[-1]
            out.append(prog(*([first] + h + y)))
            out.append(prog(*([first] + h + [try_('?', 'S %s 0' % l, ['c %s m' % nm[l]]), one('*', 'S sig_segv 1'), 'A', one('*', 'S %s 0' % l), try_('*', 'h %s my_error S %s 0' % (l, l), ['m'])])))
            out.append(prog(*([first] + h + ['S %s 0' % sg[n]])))
            out.append(prog(*([first] + h + ['S %s 0' % l])))
    for r in raises:     # again and again
        for n in (3, 8, 20):
            out.append(prog(*[one('*', r) for _ in range(n)]))
            out.append(prog(*[try_('*', one('*', r, 'R'), ['']) for _ in range(n)]))
    rnd.shuffle(out)
    return out[:cap]

def c09(tier, rnd, cap):
    atoms = ['p 1 1', 'p 2 2', 'p 3 0', 'q 1 5', 'q 2 0', 'u 1', 'u 2', try_('*', 'p 4 4 T other_error', ['']), try_('*', 'p 4 4', ['']),
             try_('*', 'T other_error', ['']), 'G & 0 { D G # 0 { } }', 'D T # 0 { }', 'q 3 7']
    outs = []
    ths = ['T my_error', 'P boom1', 'S sig_segv 1', '', 'u 1 T my_error', 'p 5 5 S sig_fpe 0']
    for q in seqs(atoms, 4 if tier == 'quick' else 5):
        b = ' '.join(q)
        outs.append((b, rnd.choice(ths)))
    rnd.shuffle(outs)
    out = []
    for b, t in outs[:cap]:
        s = rnd.randint(0, 4)
        if s == 0: p = try_('*', b + ' ' + t, [''])
        elif s == 1: p = try_('*', 'p 6 6 ' + try_('o', b + ' ' + t, ['']), ['m'], '')
        elif s == 2: p = try_('*', try_('*', b + ' ' + t, ['R']) + ' p 7 7', ['']) + ' ' + try_('*', b + ' ' + t, [''])
        elif s == 3: p = try_('*', b + ' ' + t, ['T bad_alloc'])
        else: p = try_('', b + ' ' + t, [], '')
        out.append(prog(p))
    for n in range(1, 16):
        out.append(prog(try_('*', ' '.join('p %d %d' % (i, i + 1) for i in range(n)) + ' T my_error', [''])))
    return out

def c10(tier, rnd, cap):
    atoms = ['D G # 1 { }', 'D G # 0 { D G # 1 { } }', 'M G # 16 0', try_('*', 'T other_error', ['']), try_('*', 'D G # 1 { } T other_error', ['D G # 1 { }'], ''),
             'G & 0 { D G # 1 { } }', 'G & 2 { D G # 1 { } V 3 }', 'D T # 0 { }', try_('*', 'G & 0 { D G # 1 { } P boom2 }', ['']), 'D G # 0 { T out_of_range }',
             'D G # 1 { w g }', 'D G # 0 { G & 1 { D G # 1 { } B } }', 'N U1 D U1 # 0 { }']
    out = []
    for q in seqs(atoms, 3):
        b = ' '.join(q)
        for e in exits_G(b):
            out.append(e)
        out.append(try_('*', 'G & 0 { %s G & 0 { %s G & 1 { %s T out_of_range } } }' % (b, rnd.choice(atoms), b), ['m']))
        out.append('G & 0 { %s %s }' % (b, try_('*', 'G & 0 { %s P boom1 }' % b, [''])))
        out.append(try_('*', 'G & 2 { D G # 1 { %s } P boom2 }' % rnd.choice(['', 'r boom2', 'r boom1', 'T my_error']) + ' G & 0 { %s T my_error }' % b, ['']))
    rnd.shuffle(out)
    return [prog(x) for x in out[:cap]]

def c11(tier, rnd, cap):
    names = ['boom1', 'boom2', 'panic', 'my_error', 'out_of_range', '~', 'sig_fpe', 'sig_segv']
    ths = ['P boom1', 'P boom2', 'T my_error', 'T out_of_range', 'S sig_fpe 1', 'S sig_segv 0', '', 'P panic']
    out = []
    rs = ['r ' + n for n in names] + ['g', 'r boom1 r my_error', 'g r ~ T other_error', 'T other_error', 'c my_error', 'c panic', 'w', 'r boom2 g r boom1']
    combos = product_capped(rnd, cap * 3 // 4, rs, rs, ths, ['', 'M G # 8 0'], ['0', '1', '2'], range(6))
    for a, b, t, m, k, sh in combos:
        body = 'D G # 1 { %s } %s D G # 1 { %s } %s' % (a, m, b, t)
        if sh == 0: p = try_('*', 'G & %s { %s }' % (k, body), ['m'])
        elif sh == 1: p = 'G & %s { %s }' % (k, body)
        elif sh == 2: p = try_('*', 'G & 0 { D G # 1 { %s } G & %s { %s } }' % (rnd.choice(rs), k, body), ['m'])
        elif sh == 3: p = 'I ' + try_('*', 'G & %s { %s } G & %s { %s } T bad_alloc' % (k, body, k, body), ['m'])
        elif sh == 4: p = try_('o', 'G & %s { %s %s }' % (k, try_('*', 'T other_error', ['']), body), ['m'], '')
        else: p = try_('*', 'G & %s { D G # 0 { %s } %s }' % (k, try_('*', 'G & 0 { %s }' % body, ['']), body), [''])
        out.append(prog(p))
    # caught() in the defers of the thread's scope
    for a, b, t, w in product_capped(rnd, cap // 4, names[:5] + ['sig_fpe', 'sig_segv'], ['', 'c boom1', 'c my_error'], ths, ['', 'I ']):
        out.append(prog(w + try_(rnd.choice(['*', 'y', 'o']), 'D T # 1 { c %s } D T # 1 { %s } M T # 8 0 D T # 0 { m } %s' % (a, b, t), [''], rnd.choice([None, '']))))
    return out

def c12(tier, rnd, cap):
    import ctlgen
    out = []
    bodies = ['M T # 8 0', 'M T # 8 1', 'M T # 8 2', 'M T # 8 3', 'N U1 M U1 # 8 0 M U1 # 9 1', 'G & 0 { M G # 8 0 D G # 1 { } M G # 9 1 }', 'D T # 0 { }',
              'D T # 1 { } M T # 8 0', 'G & 0 { G & 1 { M G # 8 0 } M G # 8 1 }', 'G & 2 { D G # 1 { M G # 8 0 } M G # 8 1 }', 'N U1 N U2 D U1 # 0 { } D U2 # 0 { }',
              'D T # 0 { M T # 8 0 } C M T # 8 1', ' '.join(['D T # 0 { }'] * 16) + ' M T # 8 0', ' '.join(['M T # 8 1'] * 17), 'G & 0 { ' + ' '.join(['M G # 8 0'] * 17) + ' }',
              'N U1 ' + ' '.join(['M U1 # 8 0'] * 18), 'D T # 0 { G & 0 { M G # 8 0 D G # 1 { } } } C', 'p 1 1 M T # 8 0', 'M T # 8 0 ' + try_('o', 'M T # 8 0 T out_of_range', ['M T # 8 0'])]
    lib = ['M %s # 8 %d' % (s, k) for s in ('T', 'U1') for k in range(4, 11)]
    bodies += [('N U1 ' if 'U1' in b else '') + b for b in lib] + [' '.join(['D T # 0 { }'] * 15) + ' ' + b + ' ' + b for b in lib[:7]]
    big = []
    for k in range(10):
        for b in ('W T # %d', 'N U1 W U1 # %d', 'G & 0 { W G # %d }', 'O U1 W U1 # %d', 'O U1 M U1 # 8 0 W U1 # %d M U1 # 30 0', 'G & 2 { M G # 8 0 D G # 1 { r ~ } W G # %d }'):
            b = b % k
            for pre in ('', 'I', 'M T # 8 1', 'D T # 0 { } D T # 0 { }'):
                big += [prog(pre, b), prog(pre, try_('*', b, ['m'])), prog(try_('p', pre + ' ' + b, ['m'], ''), 'M T # 8 0'), prog(pre, try_('o!', 'D T # 1 { } ' + b, ['', ''], ''), b.replace('U1', 'U3'))]
    rnd.shuffle(big)
    for b in bodies:
        for pre in ('', 'I', 'M T # 8 0', 'D T # 0 { } D T # 0 { }'):
            for k in range(1, 24):
                f = 'L %d ' % k
                out.append(prog(pre, f, b))
                out.append(prog(pre, try_('*', f + b, ['m'])))
                out.append(prog(try_('p', pre + ' ' + f + b, ['m'], ''), 'M T # 8 0'))
                out.append(prog(pre, try_('o*', 'G & 0 { D G # 1 { r ~ } M G # 8 0 %s }' % (f + b), ['', '']), b.replace('U1', 'U3').replace('U2', 'U4')))
    rnd.shuffle(out)
    out = out[:cap * 3 // 4] + big[:cap // 8]
    # any program, each of its allocations in turn
    i = 0
    while len(out) < cap:
        p = ctlgen.random_program('L%d/%s' % (i, rnd.random()), 'C03', size=14)
        i += 1
        for k in range(1, 9):
            out.append('{ L %d %s' % (k, p[1:].strip()))
    return out

def c27(tier, rnd, cap):
    """the program's own functions for what is thrown"""
    out = []
    raises = ['T my_error', 'P boom1', 'T out_of_range', 'S sig_fpe 1', 'S sig_int 0', 'P my_error']
    pres = ['N U1 x U1 1', 'I N U1 x U1 1', 'N U1 x U1 0', 'I M T # 8 0 N U1 x U1 1', 'N U1 N U2 x U1 1 x U2 1 D U1 # 0 { }', 'N U1 x U1 1 x - 0', 'N U1 D U1 # 0 { } x U1 1', '', 'I x T 1', 'I x T 0', 'I D T # 0 { } N U1 x U1 1 x T 1']
    regs = ['', 'D U1 # 0 { }', 'D U1 # 0 { } M U1 # 8 1', 'D U1 # 0 { D U1 # 0 { } }', 'D T # 0 { } D U1 # 1 { }', 'p 1 1 p 2 2', 'p 1 1 D U1 # 0 { }', 'D U2 # 0 { } D U1 # 0 { }',
            'D U1 # 0 { x - 0 }', 'D U1 # 0 { T other_error }', 'D U1 # 0 { %s }' % try_('*', 'D U1 # 0 { } T other_error', ['m']),
            'D T # 0 { } M T # 8 1', 'D T # 0 { x - 0 }', 'D T # 0 { T other_error }', 'D T # 0 { %s }' % try_('*', 'D T # 0 { } T other_error', ['m'])]
    for pre in pres:
        for reg in regs:
            for r in raises:
                y = try_('*', r, ['m'])
                for p in (try_('y*', reg + ' ' + r, ['m', 'm']), reg.replace('p 1 1', '').replace('p 2 2', '') + ' ' + r,
                          reg.replace('p 1 1', '').replace('p 2 2', '') + ' ' + try_('*', r, ['m'], 'D U1 # 0 { }') + ' ' + y,
                          try_('*', reg + ' ' + try_('p', 'D U1 # 0 { } ' + r, ['R'], 'D U1 # 0 { }'), ['']),
                          try_('*', reg + ' ' + r, ['D U1 # 0 { } T other_error']), try_('*', try_('*', reg + ' ' + r, ['D U1 # 0 { } R'], ''), ['m']),
                          try_('*', 'I G & 0 { D G # 0 { } %s %s }' % (reg, r), ['m']), 'I G & 0 { D G # 0 { } %s %s }' % (try_('*', reg + ' ' + r, ['m']), r),
                          'I G & 1 { D G # 1 { r ~ } %s }' % r + ' ' + y, try_('?', reg + ' ' + r, ['c my_error m']) + ' ' + y,
                          try_('*', reg + ' x - 0 ' + r, ['m']) + ' ' + y, try_('*', 'x - 0 ' + reg + ' x U1 1 ' + r, ['x - 0']) + ' ' + y):
                    out.append(prog(pre, p))
    rnd.shuffle(out)
    return out[:cap]

ENUM = dict(C27=c27, C01=c01, C02=c02, C03=c03, C04=c04, C05=c05, C06=c06, C07=c07, C08=c08, C09=c09, C10=c10, C11=c11, C12=c12)
def programs(pid, tier, rnd, cap):
    return ENUM[pid](tier, rnd, cap)
