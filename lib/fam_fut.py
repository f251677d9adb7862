"""Properties decided with spec/Future.tla: threads, futures, spawn scopes."""
import vt, futgen

TECHNIQUE = 'TLA+ specification (spec/Future.tla), TLC; executions of the real library under a deterministic scheduler checked against it'
NOTE = ('The specification is model checked over all interleavings of small programs; every recorded execution of the library, '
        'its threads scheduled at each memory access of its code, is a behaviour of it (TLC decides).')

def build():
    return vt.build('fut', 'fut.c', libextra=['-fsanitize=thread'], extra_c=['dsched.c'])

def check(pid, tier, seed):
    wd = vt.work_dir(pid)
    exe = build()
    mc = [vt.model_check('FutureMC', 'FutureMC_%s%s.cfg' % ('fail_' if pid == 'C26' else '', tier), wd)]
    if pid == 'C14':        # guarded sections, exceptions leaving them
        mc.append(vt.model_check('FutureMC', 'FutureMC_guard_%s.cfg' % tier, wd))
    return vt.decide(exe, futgen.scripts(pid, tier, seed), 'FutureTrace', wd, mc)
