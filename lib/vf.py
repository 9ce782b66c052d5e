"""Verification framework: builds the code under /repo, runs conformance harnesses and TLC.

Outcomes of a check are exit 0 (held), exit 1 + VIOLATION line; anything the machinery itself
cannot do (build failure, JVM failure) ends with exit 2.
"""
import concurrent.futures as cf
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(ROOT, '.build'))
REPLAY = os.path.join(os.environ.get('VERIF_OUT', ROOT), 'replay')
EVID = os.path.join(os.environ.get('VERIF_OUT', ROOT), 'evidence')
SPEC = os.path.join(ROOT, 'spec')
TLAJARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NPROC = int(os.environ.get('VERIF_JOBS', str(os.cpu_count() or 4)))
CXXFLAGS = ['-std=c++17', '-O1', '-w', '-fno-omit-frame-pointer']


class MachineryError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def sh(cmd, timeout=1200, env=None, cwd=None):
    e = dict(os.environ)
    if env:
        e.update(env)
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                          env=e, cwd=cwd, text=True, errors='replace')


# ---------------------------------------------------------------- building

def sanitizer(variant):
    """Variants whose name ends in tsan are for the race detector."""
    return '-fsanitize=thread' if variant[0].endswith('tsan') else '-fsanitize=address'


def build_libs(targets, variant=('visr',)):
    """variant: name of the build folder, further options for cmake"""
    san = sanitizer(variant)
    bd = os.path.join(BUILD, variant[0])
    os.makedirs(bd, exist_ok=True)
    # CCACHE etc. are not used: every check builds from the current working tree
    if not os.path.exists(os.path.join(bd, 'build.ninja')):
        r = sh(['cmake', '-S', REPO, '-B', bd, '-G', 'Ninja', '-DCMAKE_BUILD_TYPE=RelWithDebInfo',
                '-DCMAKE_CXX_FLAGS_RELWITHDEBINFO=-O1', '-DCMAKE_C_FLAGS_RELWITHDEBINFO=-O1',
                '-DCMAKE_CXX_FLAGS=-Wno-error -w -fPIC %s -fno-omit-frame-pointer' % san,
                '-DCMAKE_C_FLAGS=-w -fPIC ' + san,
                '-DCMAKE_POLICY_VERSION_MINIMUM=3.5', '-DFETCHCONTENT_FULLY_DISCONNECTED=ON',
                '-DBUILD_TESTING=OFF', '-DBUILD_PYTHON_BINDINGS=OFF', '-DBUILD_DOCUMENTATION=OFF'] + list(variant[1:]))
        if r.returncode:
            raise MachineryError('cmake configure failed:\n' + r.stdout[-4000:])
    r = sh(['ninja', '-C', bd, '-j', str(NPROC)] + [t + '_shared' for t in targets])
    if r.returncode:
        raise MachineryError('building /repo failed:\n' + r.stdout[-4000:])
    return bd


LIBDIRS = ['libvisr', 'libefl', 'librbbl', 'libpml', 'librrl', 'librcl', 'libobjectmodel', 'libpanning',
           'libpanningdsp', 'libreverbobject', 'libsignalflows']


def find_lib(bd, t):
    for root, _d, files in os.walk(bd):
        for f in files:
            if re.match(r'lib(visr_)?%s(_shared)?\.so$' % re.escape(t), f):
                return os.path.join(root, f)
    raise MachineryError('library for target %s not found' % t)


DEPS = {'visr': [], 'efl': [], 'objectmodel': ['rbbl'], 'rbbl': ['efl'], 'panning': ['efl'],
        'pml': ['visr', 'rbbl', 'objectmodel'], 'rrl': ['visr', 'pml'], 'rcl': ['pml', 'panning'],
        'panningdsp': ['rcl'], 'reverbobject': ['rcl'], 'signalflows': ['rcl', 'reverbobject', 'rrl', 'panningdsp']}


def closure(targets):
    r = []
    todo = list(targets)
    while todo:
        t = todo.pop(0)
        if t not in r:
            r.append(t)
            todo += DEPS[t]
    return r


def build_harness(name, targets, extra=(), variant=('visr',)):
    """Builds the libraries and the harness; returns the executable's path."""
    targets = closure(targets)
    t0 = time.time()
    bd = build_libs(targets, variant)
    t1 = time.time()
    src = os.path.join(ROOT, 'harness', name + '.cpp')
    exe = os.path.join(BUILD, 'h_' + name)
    libs = [find_lib(bd, t) for t in targets]
    # always linked against whatever dependency libraries these need
    dirs = set()
    for root, _d, files in os.walk(bd):
        if any(f.endswith('.so') for f in files):
            dirs.add(root)
    cmd = ['g++'] + CXXFLAGS + [sanitizer(variant), '-I' + REPO + '/src', '-I' + REPO, '-I' + bd, '-I' + bd + '/src', '-I' + ROOT + '/harness',
                                '-o', exe, src] + libs
    alllibs = []
    for d in sorted(dirs):
        cmd += ['-L' + d, '-Wl,-rpath,' + d, '-Wl,-rpath-link,' + d]
    cmd += ['-lpthread', '-lboost_filesystem', '-lboost_system'] + list(extra)
    r = sh(cmd)
    if r.returncode:
        raise MachineryError('compiling harness %s failed:\n%s' % (name, r.stdout[-6000:]))
    log('[build] libs %.1fs harness %.1fs' % (t1 - t0, time.time() - t1))
    return exe


# ---------------------------------------------------------------- harness

HENV = {'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_odr_violation=0',
        'TSAN_OPTIONS': 'exitcode=98:halt_on_error=1:report_thread_leaks=0', 'LC_ALL': 'C'}


def run_harness(exe, script, out, timeout=240):
    """Runs a script. Returns (status, text): ok | crash | hang."""
    try:
        r = sh([exe, script, out], timeout=timeout, env=HENV)
    except subprocess.TimeoutExpired:
        return 'hang', 'no end within %d s' % timeout
    if r.returncode == 0:
        return 'ok', r.stdout
    if r.returncode == 77:
        raise MachineryError('harness usage error: ' + r.stdout[-2000:])
    return 'crash', 'exit %d\n%s' % (r.returncode, r.stdout[-3000:])


# ---------------------------------------------------------------- TLC

class TlcResult:
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        m = re.findall(r'([\d,]+) states generated,? ?\(?[^)]*?\)?,? ?([\d,]+) distinct states found', out)
        self.generated, self.distinct = (0, 0)
        if m:
            self.generated, self.distinct = [int(x.replace(',', '')) for x in m[-1]]
        m = re.search(r'depth of the complete state graph search is (\d+)', out)
        self.depth = int(m.group(1)) if m else None
        m = re.search(r'REJECTED_AT[^\d]*(\d+)', out)
        self.rejected = int(m.group(1)) if m else None

    @property
    def ok(self):
        return self.rc == 0 and 'No error has been found' in self.out

    @property
    def simok(self):
        return self.rc == 0


def tlc(module, cfg=None, env=None, workers=1, timeout=800, args=(), heap='2g', tag=''):
    h = hashlib.md5(('%s %s %s %s %s' % (module, cfg, env, os.getpid(), time.time())).encode()).hexdigest()[:10]
    meta = os.path.join(BUILD, 'tlc', h)
    os.makedirs(meta, exist_ok=True)
    cfg = cfg or module
    cmd = ['java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-Xmx' + heap, '-Xss64m',
           '-Djava.io.tmpdir=' + meta, '-Dtlc2.tool.fp.FPSet.impl=tlc2.tool.fp.OffHeapDiskFPSet' if 0 else '-Dx=1',
           '-cp', TLAJARS, 'tlc2.TLC', '-metadir', meta, '-noGenerateSpecTE', '-workers', str(workers),
           '-fpmem', '0.1', '-config', cfg + '.cfg'] + list(args) + [module + '.tla']
    try:
        r = sh(cmd, timeout=timeout, env=env, cwd=SPEC)
    except subprocess.TimeoutExpired:
        raise MachineryError('TLC timeout on %s' % module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return TlcResult(r.returncode, r.stdout)


def classify(res):
    """ok | reject | error for a trace-validation run."""
    if res.ok:
        return 'ok'
    o = res.out
    if 'OutOfMemoryError' in o or 'Could not create the Java' in o or 'insufficient memory' in o:
        return 'error'
    if 'Parsing or semantic analysis failed' in o or 'Unknown operator' in o or '*** Errors' in o:
        return 'error'
    if res.rejected is not None:
        return 'reject'
    if 'is violated' in o or 'TLC threw an unexpected exception' in o or 'Attempted to' in o or 'Evaluating' in o \
            or 'evaluating' in o or 'Postcondition' in o or 'POSTCONDITION' in o or 'Assert' in o \
            or 'the trace file ends early' in o:
        return 'reject'
    return 'error'


def reject_index(res):
    """1-based index of the trace line that no specification step explains."""
    if res.rejected is not None:
        return res.rejected
    idx = [int(x) for x in re.findall(r'(?m)^/\\ l = (\d+)', res.out)]
    if idx:
        return max(idx)
    idx = [int(x) for x in re.findall(r'(?m)^State (\d+):', res.out)]
    if idx:
        return max(idx)
    m = re.findall(r'(\d+) states generated', res.out.replace(',', ''))
    return int(m[-1]) if m else None


# ---------------------------------------------------------------- the check

class Scenario:
    __slots__ = ('lines',)

    def __init__(self, lines):
        self.lines = lines


def vsig(v):
    """Signature of a violation, so that the minimiser stays with the failure it started from."""
    t = v.get('text', '')
    if v['kind'] == 'reject':
        m = re.search(r'"e":"([^"]+)"', t)
        return ('reject', m.group(1) if m else '')
    m = re.search(r'SUMMARY: (\S+ \S+).* in (.*)', t)
    w = re.search(r'what\(\): (.*)', t)
    return (v['kind'], t.split('\n')[0], m.groups() if m else '', w.group(1) if w else '')


class Check:
    """One property: scenarios -> harness -> log -> trace specification; plus exhaustive model runs.

    family: list of dicts(name, harness, targets, trace, gen(rng,tier)->iterable of list-of-lines, env, mc=[...],
            chunk=number of scenarios per trace file)
    """

    def __init__(self, pid, families, assumptions=(), rule=''):
        self.pid, self.families, self.assumptions, self.rule = pid, families, list(assumptions), rule

    # one chunk: returns None or dict describing a violation
    def _run_chunk(self, fam, exe, wd, i, scns, stats):
        sp = os.path.join(wd, '%s_%03d.txt' % (fam['name'], i))
        op = sp[:-4] + '.ndjson'
        with open(sp, 'w') as f:
            for k, s in enumerate(scns):
                f.write('scn %d\n' % k)
                f.write('\n'.join(s) + '\n')
        st, txt = run_harness(exe, sp, op, timeout=fam.get('timeout', 240))
        events = []
        if os.path.exists(op):
            with open(op) as f:
                events = f.read().split('\n')
            if events and events[-1] == '':
                events.pop()
        starts = [n for n, e in enumerate(events) if '"e":"scn"' in e]
        if st != 'ok':
            k = max(0, len(starts) - 1)
            return dict(kind=st, text=txt, scn=scns[k] if scns else [], fam=fam, chunk=scns)
        if len(starts) < len(scns):
            raise MachineryError('harness %s: %d scenarios logged of %d' % (fam['name'], len(starts), len(scns)))
        for e in events:
            m = re.match(r'\{"e":"([^"]+)"', e)
            if m:
                stats['ev'][m.group(1)] = stats['ev'].get(m.group(1), 0) + 1
        env = dict(fam.get('env', {}))
        env['TRACE'] = op
        res = tlc(fam['trace'], cfg=fam.get('cfg'), env=env, timeout=fam.get('tlc_timeout', 800), heap=fam.get('heap', '2g'))
        c = classify(res)
        if c == 'error':
            raise MachineryError('TLC failed on %s:\n%s' % (fam['trace'], res.out[-3000:]))
        stats['states'] += res.distinct
        stats['trans'] += max(0, len(events))
        if c == 'reject':
            ix = reject_index(res)
            ix0 = min(max((ix or 1) - 1, 0), len(events) - 1)
            k = max([n for n, s in enumerate(starts) if s <= ix0] or [0])
            return dict(kind='reject', text='line %s of the trace is no step of %s: %s\n%s' % (
                ix, fam['trace'], events[ix0][:600], tlc_excerpt(res.out)), scn=scns[min(k, len(scns) - 1)], fam=fam, event=events[ix0], chunk=scns)
        stats['traces'] += len(scns)
        if not stats['sample'] or len(stats['sample']) < 3:
            k = 0
            a = starts[0]
            b = starts[1] if len(starts) > 1 else len(events)
            stats['sample'].append({'family': fam['name'], 'script': scns[0][:12], 'trace': [e[:300] for e in events[a:b][:8]]})
        stats.setdefault('lasttrace', {})[fam['name']] = (op, env)
        return None

    def _confirm(self, v, exe, wd):
        """Re-runs the single scenario; True when the violation repeats."""
        stats = dict(ev={}, states=0, trans=0, traces=0, sample=[1, 2, 3])
        fam = v['fam']
        for attempt in range(fam.get('confirm', 1)):
            v2 = self._run_chunk(fam, exe, wd, 900 + attempt, [v['scn']], stats)
            if v2 is not None:
                v['text'] = v2['text']
                return True
            # the failure may depend on what ran before in the same process
            v2 = self._run_chunk(fam, exe, wd, 950 + attempt, v['chunk'], stats)
            if v2 is not None:
                v['text'] = v2['text']
                v['scn'] = [x for k, s in enumerate(v['chunk']) for x in (['scn %d' % k] if k else []) + s]
                v['nomin'] = True
                return True
        return False

    def _minimise(self, v, exe, wd, budget=25.0):
        """Drops script lines while the scenario still fails (best effort, for a readable replay file)."""
        t0 = time.time()
        lines = list(v['scn'])
        fam = v['fam']
        if fam.get('nomin') or v.get('nomin'):
            return lines
        stats = dict(ev={}, states=0, trans=0, traces=0, sample=[1, 2, 3])
        keep = fam.get('keep', 1)
        sig = vsig(v)
        n = len(lines)
        step = max(1, (n - keep) // 2)
        while step >= 1 and time.time() - t0 < budget:
            i = keep
            cut = False
            while i < len(lines) and time.time() - t0 < budget:
                cand = lines[:i] + lines[i + step:]
                try:
                    v2 = self._run_chunk(fam, exe, wd, 990, [cand], stats)
                except MachineryError:
                    v2 = None
                if v2 is not None and vsig(v2) == sig:
                    lines = cand
                    cut = True
                else:
                    i += step
            if step == 1:
                break
            step //= 2
        return lines

    def run(self, tier, seed, replay=None):
        t0 = time.time()
        stats = dict(ev={}, states=0, trans=0, traces=0, sample=[], mc=[])
        wd = os.path.join(BUILD, 'run_' + self.pid)
        shutil.rmtree(wd, ignore_errors=True)
        os.makedirs(wd, exist_ok=True)
        viol = None
        fams = self.families
        only = os.environ.get('VERIF_FAM')
        if only:
            fams = [f for f in fams if f['name'] == only]
        if replay:
            with open(replay) as f:
                hdr = f.readline().split()
                fams = [x for x in fams if x['name'] == hdr[2]]
                fixed = [ln.rstrip('\n') for ln in f if not ln.startswith('#')]
        # model checking of the specifications themselves runs beside the builds
        ex = cf.ThreadPoolExecutor(max_workers=NPROC)
        mcjobs = []
        if not replay:
            for f in fams:
                for m in f.get('mc', []):
                    if isinstance(m, str):
                        m = (m, m)
                    if len(m) > 2 and m[2] == 'thorough' and tier != 'thorough':
                        continue
                    if (m[0], m[1]) in [(a, b) for a, b, _ in mcjobs]:
                        continue
                    mcjobs.append((m[0], m[1], ex.submit(tlc, m[0], m[1], None, 4 if tier == 'thorough' else 2, 3000 if tier == 'thorough' else 800, ('-deadlock',), '6g')))
        exes = {}
        for f in fams:
            key = f['harness']
            if key not in exes:
                tg = []
                for g in fams:
                    if g['harness'] == key:
                        tg += [t for t in g['targets'] if t not in tg]
                exes[key] = build_harness(key, tg, f.get('ldextra', ()), f.get('variant', ('visr',)))
        jobs = []
        for f in fams:
            if replay:
                scns = [fixed]
            else:
                rng = random.Random('%s/%s/%d' % (self.pid, f['name'], seed))
                scns = [list(s) for s in f['gen'](rng, tier)]
            f['_n'] = len(scns)
            ck = f.get('chunk', 40)
            for i in range(0, len(scns), ck):
                jobs.append((f, i // ck, scns[i:i + ck]))
        log('[gen] %d scenarios in %d traces (%.1fs)' % (sum(f['_n'] for f in fams), len(jobs), time.time() - t0))
        conc = min([f.get('conc', NPROC) for f in fams] + [NPROC])
        ex2 = cf.ThreadPoolExecutor(max_workers=conc)
        futs = [ex2.submit(self._run_chunk, f, exes[f['harness']], wd, i, s, stats) for f, i, s in jobs]
        err = None
        flaky = 0
        for fu in futs:
            try:
                v = fu.result()
            except MachineryError as e:
                err = e
                continue
            if v is not None and viol is None:
                if self._confirm(v, exes[v['fam']['harness']], wd):
                    viol = v
                    for g in futs:
                        g.cancel()
                    break
                flaky += 1
                log('[flaky] not repeated: ' + v['text'][:400])
        ex2.shutdown(wait=True, cancel_futures=True)
        for mod, cfg, fu in mcjobs:
            r = fu.result()
            if not r.ok:
                raise MachineryError('model %s (%s) does not satisfy its own properties:\n%s' % (mod, cfg, r.out[-3000:]))
            stats['mc'].append({'module': mod, 'cfg': cfg, 'states': r.distinct, 'transitions': r.generated, 'depth': r.depth})
        ex.shutdown(wait=True)
        if err is not None and viol is None:
            raise err
        rp = None
        if viol is not None:
            os.makedirs(REPLAY, exist_ok=True)
            if not replay:
                try:
                    viol['scn'] = self._minimise(viol, exes[viol['fam']['harness']], wd)
                except Exception as e:  # minimisation is a convenience only
                    log('minimise: %s' % e)
            rp = os.path.join(REPLAY, '%s_%s.txt' % (self.pid, viol['fam']['name']))
            with open(rp, 'w') as f:
                f.write('#replay %s %s\n' % (self.pid, viol['fam']['name']))
                f.write('\n'.join(viol['scn']) + '\n')
                for ln in viol['text'].split('\n'):
                    f.write('# ' + ln + '\n')
        # binding self-test: a corrupted recorded value has to be rejected
        bind = None
        if viol is None and not replay:
            bind = self.binding_selftest(stats, wd)
        os.makedirs(EVID, exist_ok=True)
        ev = dict(property=self.pid, tier=tier, seed=seed, level='model_checking',
                  coverage=dict(states=sum(m['states'] for m in stats['mc']) + stats['states'],
                                transitions=sum(m['transitions'] for m in stats['mc']) + stats['trans'],
                                traces_validated_against_impl=stats['traces'],
                                trace_events_by_kind=stats['ev'], models=stats['mc'],
                                binding_selftest=bind, unrepeated_rejections=flaky,
                                samples=stats['sample'] or [{'violation': viol['scn'][:40]} if viol else 'none']),
                  assumptions=self.assumptions, wall_s=round(time.time() - t0, 2),
                  violations=0 if viol is None else 1)
        with open(os.path.join(EVID, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(wd, ignore_errors=True)
        if viol is not None:
            log('--- %s' % viol['kind'])
            log(viol['text'][:3000])
            print('VIOLATION property=%s replay=%s' % (self.pid, rp), flush=True)
            return 1
        log('[%s] ok: %d traces, %d events, models %s, bind %s, %.1fs' % (
            self.pid, stats['traces'], sum(stats['ev'].values()), [(m['module'], m['states']) for m in stats['mc']], bind, time.time() - t0))
        log('[%s] events: %s' % (self.pid, stats['ev']))
        return 0

    def binding_selftest(self, stats, wd):
        res = {}
        for f in self.families:
            lt = stats.get('lasttrace', {}).get(f['name'])
            if not lt or not os.path.exists(lt[0]):
                continue
            fields = f.get('corrupt', [])
            if not fields:
                continue
            with open(lt[0]) as fh:
                lines = fh.read().rstrip('\n').split('\n')
            done = False
            mid = len(lines) // 3
            for n in list(range(mid, len(lines))) + list(range(0, mid)):
                d = json.loads(lines[n])
                for fld in fields:
                    evn, key = fld
                    if d['e'] == evn and key in d:
                        if corrupt(d, key, f.get('cdelta', 1)):
                            lines[n] = json.dumps(d, separators=(',', ':'))
                            done = True
                            break
                if done:
                    break
            if not done:
                continue
            cp = os.path.join(wd, 'corrupt_%s.ndjson' % f['name'])
            with open(cp, 'w') as fh:
                fh.write('\n'.join(lines) + '\n')
            env = dict(lt[1])
            env['TRACE'] = cp
            r = tlc(f['trace'], cfg=f.get('cfg'), env=env)
            res[f['name']] = classify(r)
        return res


def corrupt(d, key, delta=1):
    v = d[key]
    if isinstance(v, bool):
        d[key] = not v
        return True
    if isinstance(v, int):
        d[key] = v + delta
        return True
    if isinstance(v, str):
        d[key] = v + 'x' if v else 'ex'
        return True
    if isinstance(v, list) and v:
        if isinstance(v[-1], (int, bool, str, list)):
            t = {'x': v[-1]}
            if corrupt(t, 'x', delta):
                v[-1] = t['x']
                return True
    return False


def tlc_excerpt(out):
    keep = [ln for ln in out.split('\n') if ln.strip() and not ln.startswith(('Parsing', 'Semantic', 'Starting', 'Running', 'TLC2', 'Computing', 'Finished', 'Linting', 'Warning'))]
    return '\n'.join(keep[:40])[:2500]


def tlc_behaviours(module, cfg=None, num=50, depth=20, seed=1, exhaustive=False, timeout=300, env=None):
    """Behaviours generated by TLC from a specification: lists of operations printed as JSON lines "@@ [...]"."""
    if exhaustive:
        r = tlc(module, cfg, workers=1, timeout=timeout, args=['-deadlock'], env=env)
    else:
        r = tlc(module, cfg, workers=1, timeout=timeout,
                args=['-deadlock', '-simulate', 'num=%d' % num, '-depth', str(depth), '-seed', str(seed)], env=env)
    outs = re.findall(r'(?m)^"?@@(.*?)"?$', r.out)
    beh = []
    for o in outs:
        o = o.replace('\\"', '"').strip()
        try:
            beh.append(json.loads(o))
        except ValueError:
            pass
    if not beh:
        raise MachineryError('TLC generated no behaviours from %s:\n%s' % (module, r.out[-2000:]))
    seen, res = set(), []
    for b in beh:
        # TLC evaluates the emitting invariant on every candidate successor: keep one per chosen prefix
        k = json.dumps(b if exhaustive else b[:-1])
        if k not in seen:
            seen.add(k)
            res.append(b)
    return res


def main(argv):
    sys.path.insert(0, os.path.join(ROOT, 'props'))
    pid = argv[1]
    tier = argv[2] if len(argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    replay = None
    if tier == 'replay':
        replay, tier = argv[3], 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    mod = __import__(pid.lower())
    try:
        return mod.CHECK.run(tier, seed, replay)
    except MachineryError as e:
        log('MACHINERY ERROR: %s' % e)
        return 2
