"""Properties decided with spec/Raii.tla: scopes, exceptions, guards, signals."""
import os, json, random
import vt, ctlgen, ctlenum, ctlbig, ctlbeh, gen_templates

TECHNIQUE = 'TLA+ specification (spec/Raii.tla), TLC; traces of the real library checked against it'
NOTE = ('Every recorded execution of the library, for the programs run, is a behaviour of the specification (TLC decides); '
        'the programs are bounded-exhaustive sets for this property and random ones.')

def build():
    return vt.build('ctl', 'ctl.c', gen=lambda out: gen_templates.main(os.path.join(out, 'templates.inc')), extra=['-O2'])

NBIG = {'quick': 48, 'thorough': 1500}
SIZES = {'quick': (9000, 9000), 'thorough': (150000, 120000)}

def scripts(pid, tier, seed):
    nr, ne = SIZES[tier]
    out = []
    rnd = random.Random('%s/%s' % (pid, seed))
    enum = ctlenum.programs(pid, tier, rnd, ne)
    out += enum
    base = seed * 10000000
    out += [ctlgen.random_program(base + i, pid) for i in range(nr)]
    out += ctlbig.programs(pid, random.Random('big/%s/%s' % (pid, seed)), NBIG[tier])
    rnd.shuffle(out)        # the large ones apart
    return ['%d %s' % (i, s) for i, s in enumerate(out)], len(enum)

# spec/RaiiMC.tla: all programs up to a length, and random long ones that TLC makes up for the library to run
GROUP = {'C01': 'scope', 'C02': 'scope', 'C03': 'scope', 'C04': 'try', 'C05': 'try', 'C06': 'try', 'C07': 'end', 'C08': 'sig',
         'C09': 'prot', 'C10': 'guard', 'C11': 'guard', 'C12': 'fail', 'C27': 'hook'}
NBEH = {'quick': 2400, 'thorough': 40000}

def check(pid, tier, seed):
    """returns (coverage, violations) ; violations: list of (name, text)"""
    wd = vt.work_dir(pid)
    exe = build()
    lines, nenum = scripts(pid, tier, seed)
    nrandom = len(lines) - nenum
    g = GROUP[pid]
    mc = [vt.model_check('RaiiMC', 'RaiiMC_%s_%s.cfg' % (g, tier), wd)]
    beh = vt.behaviours('RaiiMC', 'RaiiSim_%s.cfg' % g, wd, NBEH[tier], seed * 100 + int(pid[1:]))
    made = sorted(set(ctlbeh.script(b) for b in beh))
    lines += ['%d %s' % (len(lines) + i, s) for i, s in enumerate(made)]
    return vt.decide(exe, lines, 'RaiiTrace', wd, mc,
                     {'enumerated_programs': nenum, 'random_programs': nrandom, 'programs_made_by_tlc': len(made)})
