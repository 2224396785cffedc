"""Orchestration shared by all checks: build /repo, run TLC, run drivers,
validate traces, write evidence, report."""
import json, os, re, subprocess, sys, time, shutil, hashlib, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPECS = VERIF + '/specs'
BUILD = os.environ.get('VERIF_BUILD', VERIF + '/.build')
WORK = os.environ.get('VERIF_WORK', VERIF + '/.work')
OUTDIR = os.environ.get('VERIF_OUT', VERIF)
NCPU = os.cpu_count() or 4
TLAJAR = '/opt/veriftools/tla/tla2tools.jar'
CMJAR = '/opt/veriftools/tla/CommunityModules-deps.jar'


def log(*a):
    print(*a, flush=True)


def infra(msg):
    log('INFRASTRUCTURE FAILURE:', msg[:600], '...', msg[-2400:])
    os._exit(2)


# ---------------------------------------------------------------- build ----
def build(targets, kind='std', vflags='', pch=True, first=(), jobs=None):
    """Builds targets (driver names) from REPO's working tree; returns bin dir."""
    top = f'{BUILD}/{kind}'
    src, b = top + '/src', top + '/b'
    os.makedirs(src, exist_ok=True)
    os.makedirs(b, exist_ok=True)
    for d in os.listdir(REPO + '/lib'):
        if os.path.isdir(f'{REPO}/lib/{d}'):
            l = f'{src}/{d}'
            if not os.path.islink(l):
                os.symlink(f'{REPO}/lib/{d}', l)
    l = src + '/CMakeLists.txt'
    if not os.path.islink(l):
        os.symlink(VERIF + '/harness/CMakeLists.txt', l)
    t0 = time.time()
    r = subprocess.run(['cmake', '-S', src, '-B', b, '-G', 'Ninja', f'-DVERIF={VERIF}',
                        '-DCMAKE_CXX_COMPILER=clang++', f'-DVFLAGS={vflags}',
                        f'-DVPCH={"ON" if pch else "OFF"}'], capture_output=True, text=True)
    if r.returncode:
        infra('cmake configure failed\n' + r.stdout[-3000:] + r.stderr[-3000:])
    cmd = ['ninja', '-C', b, '-j', str(jobs or NCPU)] + list(first) + list(targets)
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        infra('build failed\n' + r.stdout[-6000:] + r.stderr[-2000:])
    log(f'built {" ".join(targets)} [{kind}] in {time.time()-t0:.0f}s')
    return b + '/bin'


ASAN = '-fsanitize=address,undefined -fno-sanitize-recover=all -g1 -D_GLIBCXX_ASSERTIONS'
HEAVY = ['variable/CMakeFiles/scipp-variable.dir/bins.cpp.o']


# ------------------------------------------------------------------ TLC ----
class TlcResult:
    def __init__(s, rc, out):
        s.rc, s.out = rc, out
        m = re.findall(r'([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found', out)
        s.states = int(m[-1][1].replace(',', '')) if m else 0
        s.transitions = int(m[-1][0].replace(',', '')) if m else 0
        m = re.findall(r'depth of the complete state graph search is (\d+)', out)
        s.depth = int(m[-1]) if m else 0


def tlc(module, cfg=None, env=None, workers=1, heap='3g', args=(), wd=None, timeout=800):
    wd = wd or f'{WORK}/tlc'
    os.makedirs(wd, exist_ok=True)
    meta = f'{wd}/meta-{os.getpid()}-{hashlib.md5((module+str(cfg)+str(env)+str(time.time())).encode()).hexdigest()[:8]}'
    e = dict(os.environ)
    e.update(env or {})
    cmd = ['java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2' if workers == 1 else '-XX:ParallelGCThreads=4',
           '-XX:TieredStopAtLevel=4', f'-Xmx{heap}', '-Xss64m', f'-DTLA-Library={SPECS}',
           '-cp', f'{TLAJAR}:{CMJAR}', 'tlc2.TLC', '-workers', str(workers), '-metadir', meta,
           '-noGenerateSpecTE', '-deadlock', '-config', f'{SPECS}/{cfg or module}.cfg'] + list(args) + [f'{SPECS}/{module}.tla']
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, env=e, cwd=wd, timeout=timeout)
        rc, out = r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired as x:
        rc, out = 254, 'TIMEOUT ' + str((x.stdout or b'')[-2000:])
    shutil.rmtree(meta, ignore_errors=True)
    if 'OutOfMemory' in out or 'Parsing or semantic analysis failed' in out or 'Could not parse' in out or rc == 254:
        infra(f'TLC {module} {cfg}: rc {rc}\n' + out[-4000:])
    return TlcResult(rc, out)


class Check:
    def __init__(s, pid, tier, seed, level='model_checking'):
        s.pid, s.tier, s.seed, s.level = pid, tier, seed, level
        s.t0 = time.time()
        s.wd = f'{WORK}/{pid}'
        shutil.rmtree(s.wd, ignore_errors=True)
        os.makedirs(s.wd)
        s.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=0,
                     evidence_is='TLC exploration of the specification + traces of the real code accepted by it')
        s.viol = []
        s.known = load_known(pid)
        s.known_hit = set()
        s.models = {}

    quick = property(lambda s: s.tier != 'thorough')

    # -- model checking ----------------------------------------------------
    def mc(s, module, cfg=None, workers=4, env=None, heap='4g', expect_violation=None, args=(), timeout=800):
        """Exhaustively checks a model; the spec itself is wrong if it fails, so
        that is reported as infrastructure failure, never as a violation."""
        if os.environ.get('VERIF_SKIP_MC') and 'OUT' not in (env or {}):  # tools/mutate.py only
            return None
        r = tlc(module, cfg, env, workers, heap, args, s.wd, timeout)
        if expect_violation:
            if expect_violation not in r.out:
                infra(f'{module}/{cfg}: expected {expect_violation} to be refuted\n' + r.out[-3000:])
        elif r.rc != 0:
            infra(f'model check of {module} {cfg} failed\n' + r.out[-6000:])
        s.cov['states'] += r.states
        s.cov['transitions'] += r.transitions
        s.models[cfg or module] = dict(states=r.states, transitions=r.transitions, depth=r.depth)
        return r

    def gen(s, module, cfg=None, env=None, workers=1, args=(), heap='4g', name='gen', timeout=800):
        """Runs a generator configuration; returns path of the JSON lines it wrote."""
        out = f'{s.wd}/{name}.jsonl'
        if os.path.exists(out):
            os.remove(out)
        e = dict(env or {})
        e['OUT'] = out
        s.mc(module, cfg, workers, e, heap, args=args, timeout=timeout)
        return out

    # -- implementation ----------------------------------------------------
    def drive(s, exe, args=(), env=None, timeout=300, out=None, what='driver'):
        """Runs a driver writing ndjson to `out`. A reproducible crash, hang or
        sanitizer report is a violation. Returns True if it ran to completion."""
        e = dict(os.environ)
        e.update(env or {})
        e['TRACE_OUT'] = out or f'{s.wd}/trace.ndjson'
        res = None
        for attempt in (1, 2):
            try:
                r = subprocess.run([exe] + [str(a) for a in args], capture_output=True, text=True,
                                   errors='replace', env=e, timeout=timeout, cwd=s.wd)
                if r.returncode == 0:
                    return True
                res = f'{what}: exit {r.returncode}\n' + r.stdout[-2000:] + '\n' + r.stderr[-4000:]
                if r.returncode == 77:
                    infra(res)
            except subprocess.TimeoutExpired:
                res = f'{what}: timeout after {timeout}s'
        tail = ''
        try:
            with open(e['TRACE_OUT']) as f:
                tail = ''.join(f.readlines()[-5:])
        except OSError:
            pass
        s.violation(f'{what} crashed reproducibly', dict(exe=exe, args=[str(a) for a in args], report=res, trace_tail=tail))
        return False

    def drive_many(s, exe, argsets, env=None, timeout=300, prefix='trace'):
        outs = [f'{s.wd}/{prefix}{i}.ndjson' for i in range(len(argsets))]
        with cf.ThreadPoolExecutor(NCPU) as ex:
            ok = list(ex.map(lambda ao: s.drive(exe, ao[0], env, timeout, ao[1], what=f'{os.path.basename(exe)} {" ".join(map(str,ao[0]))}'), zip(argsets, outs)))
        return [o for o, k in zip(outs, ok) if k or os.path.exists(o)]

    # -- validation ----------------------------------------------------------
    def validate(s, module, traces, cfg=None, env=None, heap='3g', par=None, timeout=800, key=None, mismatch_limit=20):
        """TLC validates each ndjson trace against the spec. Mismatches printed by
        the spec as <<"MISMATCH", l, ...>> and rejection at event l are violations."""
        traces = [t for t in traces if os.path.exists(t) and os.path.getsize(t) > 0]

        def one(t):
            en = dict(env or {})
            en['TRACE'] = t
            return t, tlc(module, cfg, en, 1, heap, wd=s.wd, timeout=timeout)
        with cf.ThreadPoolExecutor(par or NCPU) as ex:
            for t, r in ex.map(one, traces):
                lines = None
                s.cov['states'] += r.states
                s.cov['transitions'] += r.transitions
                with open(t) as f:
                    n = sum(1 for _ in f)
                s.cov['samples'] += n
                s.cov['traces_validated_against_impl'] += 1
                bad = [(int(a), b) for a, b in re.findall(r'<<\s*"MISMATCH",\s*(\d+)(.*)', r.out)]
                if len(bad) != r.out.count('"MISMATCH"'):
                    infra(f'{module}: cannot read the mismatches reported\n' + r.out[-3000:])
                if not bad and r.rc == 0 and 'No error has been found' in r.out:
                    if r.depth and r.depth < n:
                        infra(f'{module}: depth {r.depth} for {n} events in {t}')
                    continue
                lines = open(t).read().splitlines()
                if not bad:
                    d = re.findall(r'REJECTED.*?(\d+)', r.out)
                    l = int(d[-1]) if d else None
                    if l is None:
                        m = re.findall(r'^/?\\?\s*l = (\d+)', r.out, re.M) or re.findall(r'\bl = (\d+)', r.out)
                        l = int(m[-1]) if m else 0
                    bad = [(l, 'rejected: ' + r.out[r.out.find('Computing initial'):][:1500])]
                for l, msg in bad[:mismatch_limit]:
                    ev = lines[l - 1] if 0 < l <= len(lines) else ''
                    ctx = []
                    i = l - 1
                    while i > 0 and i > l - 200 and '"reset"' not in (lines[i] if i < len(lines) else ''):
                        i -= 1
                    ctx = lines[i:l]
                    k = s.match_known(ev)
                    if k:
                        s.known_hit.add(k)
                        continue
                    s.violation(f'{module}: real behaviour not allowed by the specification at event {l}',
                                dict(trace=os.path.basename(t), event=l, line=ev, spec=msg[:1500], context=ctx[-60:]))

    def match_known(s, ev):
        for k in s.known:
            if k['match'] and re.search(k['match'], ev):
                return k['what']
        return None

    # -- reporting ---------------------------------------------------------
    def violation(s, what, detail=None):
        s.viol.append(dict(what=what, detail=detail))

    def finish(s, note='', extra=None):
        rd = f'{OUTDIR}/replay'
        os.makedirs(rd, exist_ok=True)
        os.makedirs(OUTDIR + '/evidence', exist_ok=True)
        cov = dict(s.cov)
        cov['models'] = s.models
        if extra:
            cov.update(extra)
        if note:
            cov['note'] = note
        rep = None
        if s.viol:
            rep = f'{rd}/{s.pid}.json'
            json.dump(dict(property=s.pid, tier=s.tier, seed=s.seed, violations=s.viol[:50]), open(rep, 'w'), indent=1)
        ev = dict(property=s.pid, tier='thorough' if s.tier == 'thorough' else 'quick', seed=s.seed, level=s.level, coverage=cov,
                  wall_s=round(time.time() - s.t0, 1), violations=len(s.viol))
        json.dump(ev, open(f'{OUTDIR}/evidence/{s.pid}.json', 'w'), indent=1)
        for k in s.known:
            if k['kind'] == 'known' :
                log(f'KNOWN-FINDING: property={s.pid} {k["what"]}')
        log(f'{s.pid} {s.tier}: {json.dumps({k: v for k, v in cov.items() if isinstance(v, int)})} wall {ev["wall_s"]}s')
        if s.viol:
            for v in s.viol[:5]:
                log(v['what'], json.dumps(v["detail"])[:500] if v['detail'] else '')
            log(f'VIOLATION property={s.pid} replay={rep}')
            sys.exit(1)
        sys.exit(0)


def load_known(pid):
    out = []
    try:
        for line in open(VERIF + '/KNOWN_FINDINGS'):
            m = re.match(r'known: property=(\S+) match=/(.*)/ (.*)', line)
            if m and m[1] == pid:
                out.append(dict(kind='known', match=m[2], what=m[3].strip()))
    except OSError:
        pass
    return out


def main(run_fn, pid):
    tier = sys.argv[1] if len(sys.argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    c = Check(pid, tier, seed)
    run_fn(c)
    c.finish()
