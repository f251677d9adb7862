"""C24, decided with spec/Order.tla: what handing work to a thread, and its result back, orders."""
import re
import vt, futgen

TECHNIQUE = 'TLA+ specification (spec/Order.tla: spec/Future.tla with vector clocks), TLC; memory accesses of the real library under a deterministic scheduler checked against it'
NOTE = ('Every recorded execution, with each access of the library to memory that several threads touch and its memory order, is a '
        'behaviour of Future in which conflicting accesses are ordered by happens-before (TLC decides).')

def build():
    return vt.build('order', 'fut.c', libextra=['-fsanitize=thread', '--param', 'tsan-distinguish-volatile=1'], extra_c=['dsched.c'])

def scripts(tier, seed):
    out = []
    for p in ('C13', 'C14', 'C15'):
        ls = futgen.scripts(p, tier, 'order/%s' % seed)
        ls = [l for l in ls if max([0] + [int(n) for n in re.findall(r'nap (\d+)', l)]) <= 200]     # each look at a flag is recorded
        out += [l.split(' ', 1)[1] for i, l in enumerate(ls) if i % (4 if tier == 'quick' else 5) == 0]
    return ['%d %s' % (i, o) for i, o in enumerate(out)]

def check(pid, tier, seed):
    wd = vt.work_dir(pid)
    exe = build()
    mc = [vt.model_check('Promise', 'Promise_%s.cfg' % tier, wd)]
    return vt.decide(exe, scripts(tier, seed), 'OrderTrace', wd, mc, args=['hb'])
