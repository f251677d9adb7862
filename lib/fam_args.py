"""C17, decided with spec/Args.tla: argument lists."""
import vt, argsgen

TECHNIQUE = 'TLA+ specification (spec/Args.tla), TLC; histories of the real library checked against it'
NOTE = ('The specification is model checked for single ownership and release; every recorded history of the library is a '
        'behaviour of it (TLC decides), for all formats up to a small length and random longer ones and histories.')

def check(pid, tier, seed):
    wd = vt.work_dir(pid)
    exe = vt.build('args', 'args.c')
    mc = [vt.model_check('ArgsMC', 'ArgsMC_%s.cfg' % tier, wd)]
    return vt.decide(exe, argsgen.scripts(tier, seed), 'ArgsTrace', wd, mc)
