"""C22, decided with spec/Atomics.tla: atomic operations, flags, spin locks."""
import os
import vt, atomgen, gen_atomops

TECHNIQUE = 'TLA+ specification (spec/Atomics.tla: linearizability and happens-before), TLC; histories of the real operations checked against it'
NOTE = ('The specification is model checked, with the spin lock as an algorithm of its own (spec/Spin.tla); every recorded history of the '
        'library\'s operations, under a deterministic scheduler, has a linearization and no data race (TLC decides).')

def build():
    return vt.build('atom', 'atom.c', libextra=['-fsanitize=thread'], extra=['-fsanitize=thread'], extra_c=['dsched.c'],
                    gen=lambda out: gen_atomops.main(os.path.join(out, 'ops.inc')), link=['-latomic'])

def check(pid, tier, seed):
    wd = vt.work_dir(pid)
    exe = build()
    mc = [vt.model_check(m, '%s_%s.cfg' % (m, tier), wd) for m in MC]
    return vt.decide(exe, atomgen.scripts(tier, seed), 'AtomicsTrace', wd, mc)

MC = ['AtomicsMC', 'Spin']
