"""Shared machinery of the checks: build harnesses from /repo's sources, run TLC,
confirm rejections, write evidence, and report."""
import os, sys, json, time, subprocess, re, shutil, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
BUILD = os.environ.get('VF_BUILD') or os.path.join(VERIF, '_build')
JOBS = max(2, min(8, os.cpu_count() or 8))
TLA_CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'

class CheckError(Exception):
    """the check itself cannot answer"""

def log(*a):
    print(*a, file=sys.stderr, flush=True)

def pmap(fn, items):
    with ThreadPoolExecutor(JOBS) as ex:
        return list(ex.map(fn, items))

# ------------------------------------------------------------------- building
CFLAGS = ['-ftrivial-auto-var-init=pattern', '-std=gnu90', '-O3', '-fomit-frame-pointer', '-Wno-return-type', '-w', '-g', '-fPIC', '-DUSE_DEBUG',
          '-D_GNU_SOURCE', '-DC_API=extern', '-DFORCEINLINE=inline __attribute__((always_inline))']
VFALLOC = ['-include', 'vf.h', '-DRAII_MALLOC=vf_malloc', '-DRAII_FREE=vf_free', '-DRAII_REALLOC=vf_realloc',
           '-DRAII_CALLOC=vf_calloc', '-DRAII_MEMALIGN=vf_memalign']
LIBSRC = ['raii.c', 'except.c', 'arena.c', 'swar.c', 'future.c']
STUB = 'int rpmalloc_init(void) { return 0; }\nvoid rpmalloc_thread_finalize(int x) { (void)x; }\n'

def build(name, harness, libsrc=LIBSRC, extra=(), libextra=(), gen=None, link=(), stub=STUB, extra_c=()):
    """Compiles the library's sources and a harness into _build/NAME/NAME."""
    out = os.path.join(BUILD, name)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    if gen:
        gen(out)
    if stub is not None:
        with open(os.path.join(out, 'stub.c'), 'w') as f:
            f.write(stub)
    base = ['gcc'] + CFLAGS + ['-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(VERIF, 'harness'), '-I' + out]
    jobs = []
    for s in libsrc:
        jobs.append((base + VFALLOC + list(libextra), os.path.join(REPO, 'src', s), 'lib_' + s))
    for s in [harness] + list(extra_c):
        jobs.append((base + VFALLOC + (list(extra) if s == harness else []), os.path.join(VERIF, 'harness', s), 'h_' + s))
    jobs.append((base, os.path.join(VERIF, 'harness', 'vf.c'), 'vf.c'))
    if stub is not None:
        jobs.append((['gcc', '-O1'], os.path.join(out, 'stub.c'), 'stub.c'))
    def cc(j):
        cmd, src, nm = j
        o = os.path.join(out, nm[:-2] + '.o')
        r = subprocess.run(cmd + ['-c', src, '-o', o], capture_output=True, text=True)
        if r.returncode:
            raise CheckError('compiling %s failed:\n%s' % (src, r.stderr[-2000:]))
        return o
    objs = pmap(cc, jobs)
    exe = os.path.join(out, name)
    r = subprocess.run(['gcc'] + objs + ['-o', exe, '-lpthread', '-rdynamic'] + list(link), capture_output=True, text=True)
    if r.returncode:
        raise CheckError('linking %s failed:\n%s' % (name, r.stderr[-2000:]))
    return exe

# ------------------------------------------------------------------------ TLC
def java(args, env=None, timeout=600, cwd=None, mem='2g', gc='-XX:+UseSerialGC'):
    e = dict(os.environ)
    e.update(env or {})
    cmd = ['java', gc, '-Xmx' + mem, '-Xss64m', '-cp', TLA_CP] + args
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, errors='replace', env=e, timeout=timeout, cwd=cwd)
    except subprocess.TimeoutExpired:
        raise CheckError('TLC ran out of time: ' + ' '.join(args))
    return r.returncode, r.stdout + r.stderr

def work_dir(name):
    d = os.path.join(BUILD, 'work', name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d

REJ = re.compile(r'<<"REJECT", (-?\d+), (\d+), "(.*?)">>')
CHK = re.compile(r'<<"CHECKED", (\d+), (\d+)>>')

def sound(t):
    try:
        json.loads(t)
        return True
    except ValueError:
        return False

def validate(module, traces, wd, tag, cfg=None, timeout=800, mem='2g'):
    """traces: list of trace lines (text).  Returns (rejects, states): rejects is a
    list of (id, position, reason)."""
    cfg = cfg or module + '.cfg'
    rejects, states = [], 0
    # the library made the harness lose its way: nothing a specification could say anything about
    lost = set(i for i, t in enumerate(traces) if '"scripterror"' in t or not sound(t))
    for i in lost:
        rejects.append((int(re.search(r'-?\d+', traces[i]).group(0)), 1, 'the program cannot go on'))
    traces = [t for i, t in enumerate(traces) if i not in lost]
    start = 0
    rounds = 0
    while start < len(traces):
        rounds += 1
        path = os.path.join(wd, '%s_%d.ndjson' % (tag, rounds))
        with open(path, 'w') as f:
            f.write('\n'.join(traces[start:]) + '\n')
        md = os.path.join(wd, 'md_%s_%d' % (tag, rounds))
        rc, out = java(['tlc2.TLC', '-noGenerateSpecTE', '-workers', '1', '-config', cfg, '-metadir', md, module + '.tla'],
                       env={'TRACES': path}, cwd=os.path.join(VERIF, 'spec'), timeout=timeout, mem=mem)
        shutil.rmtree(md, ignore_errors=True)
        for m in REJ.finditer(out):
            rejects.append((int(m.group(1)), int(m.group(2)), m.group(3)))
        m = CHK.search(out)
        if m and rc == 0:
            if int(m.group(1)) != len(traces) - start:
                raise CheckError('TLC checked %s traces of %d' % (m.group(1), len(traces) - start))
            states += int(m.group(2))
            os.unlink(path)
            break
        # an event the specification cannot even evaluate, or an invariant broken: the trace is rejected
        ts = re.findall(r'^/\\ t = (\d+)', out, re.M)
        ls = re.findall(r'^/\\ l = (\d+)', out, re.M)
        if not ts:
            raise CheckError('TLC failed on %s:\n%s' % (path, out[-3000:]))
        t = int(ts[-1])
        err = 'invariant' if 'is violated' in out else 'not evaluable'
        mm = re.search(r'The exception was.*?\n: (.*?)\n', out, re.S)
        rejects.append((json.loads(traces[start + t - 1])['id'], int(ls[-1]), err + (': ' + mm.group(1)[:100] if mm else '')))
        # those printed for later traces of this round do not exist: TLC goes through them in order
        start += t
        if rounds >= 40:        # enough of them
            break
    return rejects, states

def shards(items, n):
    out = [items[i::n] for i in range(n)]
    return [s for s in out if s]

CONTROL = {i: '?' for i in list(range(10)) + list(range(11, 32)) + [127]}

def run_harness(exe, lines, wd, tag, args=(), timeout=800):
    path = os.path.join(wd, tag + '.in')
    with open(path, 'w') as f:
        f.write('\n'.join(lines) + '\n')
    try:
        r = subprocess.run([exe] + list(args) + [path], capture_output=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError('harness ran out of time: ' + path)
    if r.returncode:
        raise CheckError('harness failed (%d): %s %s' % (r.returncode, path, r.stderr[-500:].decode(errors='replace')))
    os.unlink(path)
    return [l for l in r.stdout.decode('latin-1').translate(CONTROL).split('\n') if l]

def run_and_validate(exe, lines, module, wd, tag='t', cfg=None, split=None, args=(), timeout=800):
    """lines: '<id> script'.  Runs all, validates all; returns dict."""
    res = {'events': 0, 'states': 0, 'rejects': [], 'traces': 0, 'sample': [], 'kinds': {}, 'skipped': 0}
    def one(k_lines):
        k, ls = k_lines
        tr = run_harness(exe, ls, wd, '%s%d' % (tag, k), args, timeout)
        if split:
            tr = [x for t in tr for x in split(t)]
        elif len(tr) != len(ls):
            raise CheckError('harness printed %d traces for %d scripts' % (len(tr), len(ls)))
        n = len(tr)
        tr = [t for t in tr if '"e":"skipped"' not in t]     # after several that did not end
        skipped = n - len(tr)
        rej, st = validate(module, tr, wd, '%s%d' % (tag, k), cfg=cfg, timeout=timeout)
        kinds = {}
        nev = 0
        for t in tr:
            for e in re.findall(r'"e":"(\w+)"', t):
                kinds[e] = kinds.get(e, 0) + 1
                nev += 1
        return tr, rej, st, kinds, nev, skipped
    outs = pmap(one, list(enumerate(shards(lines, JOBS))))
    distinct = set()
    for tr, rej, st, kinds, nev, sk in outs:
        res['skipped'] += sk
        res['states'] += st
        res['traces'] += len(tr)
        res['events'] += nev
        res['rejects'] += rej
        for k, v in kinds.items():
            res['kinds'][k] = res['kinds'].get(k, 0) + v
        for t in tr:
            distinct.add(hashlib.md5(t.split(',', 1)[1].encode()).digest()[:8])
    res['distinct'] = len(distinct)
    if outs and outs[0][0]:
        res['sample'] = [json.loads(t) for t in outs[0][0][:2]]
    return res

def explain(line, rej, trace):
    evs = json.loads(trace)['ev'] if sound(trace) else [{'e': trace}]
    i, l, why = rej
    txt = ['script: ' + line, 'rejected at event %d: %s' % (l, why), '']
    for k, e in enumerate(evs, 1):
        if k > l + 20:
            break
        txt.append('%s%3d %s' % ('=> ' if k == l else '   ', k, ' '.join('%s=%s' % x for x in e.items())))
    return '\n'.join(txt) + '\n'

def decide(exe, lines, module, wd, mc=(), extra=None, args=(), again=None):
    """Runs the scripts ('<id> ...') with a harness, has TLC validate the traces, and
    repeats each rejected script before it counts.  Returns (coverage, violations)."""
    res = run_and_validate(exe, lines, module, wd, args=args)
    by = {l.split(' ', 1)[0]: l for l in lines}
    viol, seen, unrepeated = [], {}, 0
    for rej in sorted(res['rejects'], key=lambda r: len(by[str(r[0])])):
        if len(viol) >= 5:
            break
        if seen.get(rej[2], 0) >= 2:
            continue
        line = by[str(rej[0])]
        for _ in range(3):
            tr = run_harness(exe, [line], wd, 'again', args)
            r2, _st = validate(module, tr, wd, 'again')
            if r2:
                break
        if r2:
            seen[rej[2]] = seen.get(rej[2], 0) + 1
            viol.append(('%s.txt' % rej[0], explain(line, r2[0], tr[0])))
        else:
            unrepeated += 1
            if unrepeated > 20:
                break
    if not viol and unrepeated > 3:
        # what depends on the process it runs in: rejected again among the same scripts
        first = {str(r[0]): r[2] for r in res['rejects']}
        second = run_and_validate(exe, lines, module, wd, tag='second', args=args)
        for rej in sorted(second['rejects'], key=lambda r: len(by[str(r[0])])):
            if len(viol) < 5 and first.get(str(rej[0])) == rej[2]:
                viol.append(('%s.txt' % rej[0], 'script: %s\nrejected at event %d: %s\n(among %d scripts, in two runs of all)\n'
                             % (by[str(rej[0])], rej[1], rej[2], len(lines))))
    if not viol and (unrepeated or res['skipped']):
        raise CheckError('%d scripts were rejected but not again, %d were skipped' % (unrepeated, res['skipped']))
    cov = {'states': res['states'] + sum(x['distinct'] for x in mc),
           'transitions': res['events'] + sum(x['generated'] for x in mc),
           'traces_validated_against_impl': res['traces'],
           'distinct_traces': res['distinct'],
           'events': res['kinds'], 'rejected': len(res['rejects']),
           'model_checking': list(mc), 'samples': res['sample']}
    cov.update(extra or {})
    return cov, viol

# ------------------------------------------------------------- model checking
def model_check(module, cfg, wd, workers=JOBS, timeout=700, mem='8g', env=None, extra=()):
    md = os.path.join(wd, 'mc_' + os.path.basename(cfg))
    rc, out = java(['tlc2.TLC', '-noGenerateSpecTE', '-workers', str(workers), '-config', cfg, '-metadir', md] + list(extra) + [module + '.tla'],
                   env=env, cwd=os.path.join(VERIF, 'spec'), timeout=timeout, mem=mem, gc='-XX:+UseParallelGC')
    shutil.rmtree(md, ignore_errors=True)
    m = re.search(r'(\d+) states generated, (\d+) distinct states found, (\d+) states left', out)
    if rc != 0 or not m:
        raise CheckError('model checking %s with %s failed:\n%s' % (module, cfg, out[-3000:]))
    d = re.search(r'depth of the complete state graph search is (\d+)', out)
    return {'module': module, 'cfg': cfg, 'generated': int(m.group(1)), 'distinct': int(m.group(2)), 'depth': int(d.group(1)) if d else 0}

def behaviours(module, cfg, wd, num, seed, depth=300, workers=JOBS, timeout=700, mem='8g'):
    """Behaviours TLC makes up at random (simulation), the invariants of cfg checked on the way.
    The module prints each as BEH and its JSON."""
    md = os.path.join(wd, 'sim_' + os.path.basename(cfg))
    num = max(1, num // workers)          # for each worker
    rc, out = java(['tlc2.TLC', '-noGenerateSpecTE', '-workers', str(workers), '-seed', str(seed), '-simulate', 'num=%d' % num,
                    '-depth', str(depth), '-config', cfg, '-metadir', md, module + '.tla'],
                   cwd=os.path.join(VERIF, 'spec'), timeout=timeout, mem=mem, gc='-XX:+UseParallelGC')
    shutil.rmtree(md, ignore_errors=True)
    beh = []
    for l in out.split('\n'):
        if l.startswith('"BEH'):
            beh.append(json.loads(json.loads(l)[4:]))
    if rc != 0 or len(beh) < num:
        raise CheckError('simulation of %s with %s failed:\n%s' % (module, cfg, '\n'.join(l for l in out.split('\n') if not l.startswith('"BEH'))[-3000:]))
    beh.sort(key=lambda b: json.dumps(b))     # whichever worker was first
    return beh

# ------------------------------------------------------------------ reporting
def write_evidence(pid, tier, seed, level, coverage, wall, violations, assumptions=()):
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': coverage,
          'assumptions': list(assumptions), 'wall_s': round(wall, 2), 'violations': violations}
    with open(os.path.join(d, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)

def replay_file(pid, name, text):
    d = os.path.join(BUILD, 'replay', pid)
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, name)
    with open(p, 'w') as f:
        f.write(text)
    return p

def known_findings(pid):
    """Signatures of recorded findings of a property (none of them 'fixed:' lines)."""
    out = []
    try:
        for l in open(os.path.join(VERIF, 'known-findings.txt')):
            m = re.match(r'finding: property=(\S+) sig=(\S+) (.*)', l.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    except FileNotFoundError:
        pass
    return out
