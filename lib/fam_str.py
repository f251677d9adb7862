"""Properties decided with spec/Strings.tla: strings, numbers, base64."""
import vt, strgen

TECHNIQUE = 'TLA+ specification (spec/Strings.tla), TLC; recorded calls of the real library checked against it'
NOTE = ('Every recorded call answered as the specification defines (TLC evaluates it), for the inputs tried: exhaustive '
        'small domains and random larger ones; the definitions themselves are model checked for their algebra.')

def build():
    return vt.build('str', 'str.c', extra=['-UFORCEINLINE', '-DFORCEINLINE='])

def check(pid, tier, seed):
    wd = vt.work_dir(pid)
    exe = build()
    lines, ncalls = strgen.scripts(pid, tier, seed)
    mc = [vt.model_check('StringsMC', 'StringsMC_%s.cfg' % pid, wd)]
    return vt.decide(exe, lines, 'StringsTrace', wd, mc, {'calls': ncalls})
