"""Several threads at once (C16): spec/Threads.tla, harness/ctl.c built with MT."""
import os, random
import vt, ctlgen, gen_templates

TECHNIQUE = 'TLA+ specification (spec/Threads.tla: a Raii machine a thread), TLC; traces of the real library under controlled schedules checked against it'
NOTE = ('Every recorded execution of several threads, each running a program of its own under a schedule decided by the check '
        '(switches at any memory access of the library), is a behaviour of the product of independent thread machines (TLC decides).')

def build():
    return vt.build('ctlmt', 'ctl.c', gen=lambda out: gen_templates.main(os.path.join(out, 'templates.inc')),
                    extra=['-O2', '-DMT'], libextra=['-fsanitize=thread'], extra_c=['dsched.c'])

SIZES = {'quick': (5000, 50, 24), 'thorough': (120000, 900, 600)}

def schedule(r, npoints=3000):
    x = r.random()
    if x < .4:        # only where the programs yield
        return 'r%d.1000000' % r.randint(1, 10**6)
    if x < .8:
        return 'r%d.%d' % (r.randint(1, 10**6), r.choice([3, 7, 20, 60, 150, 400]))
    pts = sorted(r.randint(1, npoints) for _ in range(r.randint(1, 4)))
    return 'p' + ','.join('%d:%d' % (p, r.randint(0, 2)) for p in pts)

def programs(r, base, n, size):
    return ' '.join(ctlgen.random_program(base + k, 'C16', size=size, lab=400 * k, maxdepth=3, wrap=True) for k in range(n))

def scripts(tier, seed):
    nr, ns, nd = SIZES[tier]
    r = random.Random('C16/%d' % seed)
    out = []
    for i in range(nr):
        n = r.choice([2, 2, 2, 3, 4])
        out.append('%s %s' % (schedule(r), programs(r, seed * 10000000 + i * 10, n, r.choice([3, 6, 10, 16, 25]))))
    small_pairs = directed(r, nd)
    out += small_pairs
    # each switch point of a pair of small programs
    nsw = 0
    for i in range(ns):
        p = programs(r, 5000000000 + seed * 10000000 + i * 10, 2, r.choice([4, 7, 10]))
        at = 1
        while at < 1500:
            out.append('p%d:1,%d:0 %s' % (at, at + r.randint(1, 400), p))
            at += r.randint(1, 60)
            nsw += 1
    return ['%d %s' % (i, s) for i, s in enumerate(out)], nsw, len(small_pairs)

# small programs with switch points (y) between the steps that set up, unwind and leave
# scopes, try statements and guards; a thread takes any of them.  @n is a label or an id
SMALL = [
    'G @1 0 { y D G @2 0 { y r ~ w } y P boom1 }',
    'G @1 1 { y M G @3 8 0 y D G @2 1 { w y g } y P a }',
    'Y *- @1 2 { y G @2 0 { M G @3 24 1 y D G @4 1 { w y g } y T out_of_range } } { m y c out_of_range m }',
    'G @1 0 { y Y *- @2 2 { y T my_error } { y c my_error y m } y D G @3 0 { y g w } y P boom2 }',
    'Y obF @1 4 { p 0 3 y p 1 4 y T bad_alloc } { y m } { y m R } { y w }',
    'D T @1 0 { y w } y M T @2 40 1 y D T @3 1 { } y Y *F @4 3 { y D T @5 0 { w y } y P a } { m y } { y } y C y F @1',
    'N U1 y M U1 @1 16 2 y D U1 @2 0 { y } y Y *- @3 2 { y X U1 y P boom1 y } { c a y m y }',
    'G @1 2 { y D G @2 0 { y } y V 5 }  y G @3 0 { y B }',
    'G @1 0 { D G @2 0 { y g } G @3 0 { y D G @4 0 { y r ~ g } y P boom1 } y w y T my_error }',
    'Y *- @1 2 { y Y *- @2 2 { y S sig_fpe 0 } { y m R } } { y m y w }',
    'Y ?- @1 2 { D T @2 0 { y w } y P boom2 } { y c boom2 y m }',
    'G @1 0 { y D G @2 0 { Y *- @3 2 { y T my_error } { y m } y g w } y T out_of_range }',
    'y G @1 0 { y } y G @2 0 { y M G @3 8 0 y } y',
]
def small(r, which, k, wrap):
    import re
    body = re.sub(r'@(\d+)', lambda m: str(400 * k + int(m.group(1))), SMALL[which])
    if wrap:
        body = 'Y *- %d 2 { %s } { y m }' % (400 * k + 90, body)
    return '{ %sI %s }' % ('y ' * r.randint(0, 3), body)

def directed(r, n):
    out = []
    m = len(SMALL)
    for rep in range(n):
        for a in range(m):
            for b in range(m):
                who = [a, b] + ([r.randrange(m)] if r.random() < .3 else [])
                # uncaught ones end the process: often in a try statement of their own
                out.append('r%d.%d %s' % (r.randint(1, 10**6), 1000000 if r.random() < .8 else r.choice([5, 30, 120]),
                           ' '.join(small(r, w, k, r.random() < .93) for k, w in enumerate(who))))
    return out

MC = {}

def check(pid, tier, seed):
    wd = vt.work_dir(pid)
    exe = build()
    lines, nsw, nd = scripts(tier, seed)
    mc = [vt.model_check(m, c, wd) for m, c in MC.get((pid, tier), MC.get((pid, 'quick'), []))]
    return vt.decide(exe, lines, 'ThreadsTrace', wd, mc, {'random_programs': len(lines) - nsw - nd, 'one_switch_schedules': nsw, 'directed_pairs': nd})
