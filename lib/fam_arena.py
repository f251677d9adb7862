"""C18, decided with spec/Arena.tla: arenas."""
import vt, arenagen

TECHNIQUE = 'TLA+ specification (spec/Arena.tla), TLC; histories of the real library checked against it'
NOTE = ('The specification is model checked; every recorded history of arenas, of one thread or of several under a '
        'deterministic scheduler, is a behaviour of it (TLC decides).')

def build():
    return vt.build('arena', 'arena.c', libextra=['-fsanitize=thread'], extra_c=['dsched.c'])

def check(pid, tier, seed):
    wd = vt.work_dir(pid)
    exe = build()
    mc = [vt.model_check('ArenaMC', 'ArenaMC_%s.cfg' % tier, wd)]
    return vt.decide(exe, arenagen.scripts(tier, seed), 'ArenaTrace', wd, mc)
