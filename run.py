#!/usr/bin/env python3
"""Runner of the monitors.  run.py PROPERTY [quick|thorough]   or   run.py --replay FILE

Builds /repo's current tree into a scratch directory, links the monitoring drivers of harness/ against it,
runs the job table of the property in parallel, judges what the monitors observed, writes evidence/<id>.json.
Exit 0: held on everything explored.  Exit 1 and a VIOLATION line: broken.  Anything else: no verdict."""
import concurrent.futures as cf
import hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('FZV_REPO', '/repo')
HARN = os.path.join(VERIF, 'harness')
sys.path.insert(0, VERIF)
import jobs as J

NCPU = max(2, min(8, os.cpu_count() or 2))
WATCHDOG = 90


class NoVerdict(Exception):
    pass


def sh(cmd, cwd=None, env=None, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                       stdin=subprocess.DEVNULL)
    return p.returncode, p.stdout.decode('utf-8', 'replace')


# ------------------------------------------------------------------ building
class Builder:
    def __init__(self, scratch):
        self.scratch = scratch
        self.pool = cf.ThreadPoolExecutor(NCPU)
        self.futs = {}
        self.lock = threading.Lock()
        self.cache = os.environ.get('FZV_CACHE')       # development only
        self.log = []

    def key(self, *parts):
        h = hashlib.sha256()
        for p in parts:
            h.update(repr(p).encode())
        return h.hexdigest()[:20]

    def tree_hash(self):
        if not hasattr(self, '_th'):
            h = hashlib.sha256()
            for top in ('src', 'lib', 'meson.build', 'meson_options.txt', 'test', 'example'):
                p = os.path.join(REPO, top)
                fs = [p] if os.path.isfile(p) else sorted(os.path.join(d, f) for d, _, ff in os.walk(p) for f in ff)
                for f in fs:
                    h.update(f.encode()); h.update(open(f, 'rb').read())
            self._th = h.hexdigest()
        return self._th

    def once(self, name, fn, *a):
        with self.lock:
            if name not in self.futs:
                self.futs[name] = self.pool.submit(fn, *a)
            f = self.futs[name]
        return f

    # library variant -> directory
    def lib(self, variant):
        v = J.VARIANTS[variant]
        if self.cache:
            d = os.path.join(self.cache, 'lib-%s-%s' % (variant, self.key(self.tree_hash(), sorted(v.items()))))
            if os.path.exists(os.path.join(d, 'OK')):
                return d
            shutil.rmtree(d, ignore_errors=True)
        else:
            d = os.path.join(self.scratch, 'lib-' + variant)
        env = dict(os.environ, CC=v.get('cc', 'gcc-11'), FC=v.get('fc', 'gfortran-11'))
        for k in ('FFLAGS', 'CFLAGS', 'LDFLAGS'):
            env.pop(k, None)
        fargs = v.get('fargs', '')
        cmd = ['meson', 'setup', d, REPO, '--wrap-mode=nodownload', '-Ddefault_library=static',
               '-Dsundials=' + ('true' if v.get('ode') else 'false'), '--buildtype=' + v.get('buildtype', 'debugoptimized')]
        if fargs:
            cmd.append('-Dfortran_args=' + fargs)
        if v.get('cargs'):
            cmd.append('-Dc_args=' + v['cargs'])
        rc, out = sh(cmd, env=env)
        if rc:
            raise NoVerdict('meson setup failed for %s:\n%s' % (variant, out[-3000:]))
        tgt = [] if v.get('sun') else ['src/libfazang.a']
        if v.get('ode'):
            tgt.append('lib/sundials-6.1.1/libsundials.a')
        rc, out = sh(['ninja', '-C', d] + tgt, env=env)
        if rc:
            raise NoVerdict('the library does not build (%s):\n%s' % (variant, out[-3000:]))
        open(os.path.join(d, 'OK'), 'w').close()
        return d

    def compile(self, variant, src, obj, moddir, inc):
        v = J.VARIANTS[variant]
        fl = v.get('hflags', '-O1 -g').split()
        cmd = [v.get('fc', 'gfortran-11')] + fl + ['-fwrapv', '-ffree-line-length-none', '-J' + moddir] + inc + ['-c', src, '-o', obj]
        rc, out = sh(cmd, cwd=moddir)
        if rc:
            raise NoVerdict('a monitor does not compile against this tree: %s\n%s' % (os.path.basename(src), out[-3000:]))

    def inc(self, variant, lib):
        inc = ['-I' + os.path.join(lib, 'src/libfazang.a.p')]
        if J.VARIANTS[variant].get('ode'):
            inc.append('-I' + os.path.join(lib, 'lib/sundials-6.1.1/libsundials.a.p'))
        return inc

    def core(self, variant):
        lib = self.lib(variant)
        if self.cache:
            d = os.path.join(self.cache, 'core-%s-%s' % (variant, self.key(lib, open(HARN + '/fzv_core.F90').read())))
            if os.path.exists(d + '/OK'):
                return lib, d
        else:
            d = os.path.join(self.scratch, 'core-' + variant)
        os.makedirs(d, exist_ok=True)
        self.compile(variant, HARN + '/fzv_core.F90', d + '/fzv_core.o', d, self.inc(variant, lib))
        open(d + '/OK', 'w').close()
        return lib, d

    # monitors of the bundled solver library alone, in C
    def cdriver(self, variant, drv):
        v, spec = J.VARIANTS[variant], J.DRIVERS[drv]
        lib = self.once(('lib', variant), self.lib, variant).result()
        src = [os.path.join(HARN, 'sun', s + '.c') for s in spec['c']]
        hdr = [open(os.path.join(HARN, 'sun', f)).read() for f in sorted(os.listdir(os.path.join(HARN, 'sun')))]
        d = os.path.join(self.cache, 'drv-%s-%s-%s' % (variant, drv, self.key(lib, hdr))) if self.cache else \
            os.path.join(self.scratch, 'drv-%s-%s' % (variant, drv))
        if self.cache and os.path.exists(d + '/OK'):
            return d + '/' + drv
        os.makedirs(d, exist_ok=True)
        inc = os.path.join(REPO, 'lib/sundials-6.1.1')
        cmd = [v.get('cc', 'gcc-11')] + v.get('hflags', '-O1 -g').split() + ['-I' + inc + '/include', '-I' + inc + '/src/sundials', '-I' + os.path.join(HARN, 'sun')] + \
            src + [os.path.join(lib, 'lib/sundials-6.1.1/libsundials.a')] + v.get('lflags', '').split() + ['-lm', '-lpthread', '-o', d + '/' + drv]
        rc, out = sh(cmd, cwd=d)
        if rc:
            raise NoVerdict('a monitor does not compile against this tree: %s\n%s' % (drv, out[-3000:]))
        open(d + '/OK', 'w').close()
        return d + '/' + drv

    def driver(self, variant, drv):
        spec = J.DRIVERS[drv]
        if spec.get('c'):
            return self.cdriver(variant, drv)
        lib, core = self.once(('core', variant), self.core, variant).result()
        srcs = []
        for s in spec['src']:
            if s.startswith('gen:'):
                g = os.path.join(self.scratch, 'gen-%s-%s' % (variant, drv)); os.makedirs(g, exist_ok=True)
                o = os.path.join(g, s[4:] + '.F90')
                rc, out = sh([sys.executable, os.path.join(HARN, spec['gen']), o])
                if rc:
                    raise NoVerdict('generator failed: ' + out)
                srcs.append(o)
            else:
                srcs.append(os.path.join(HARN, s + '.F90'))
        if self.cache:
            d = os.path.join(self.cache, 'drv-%s-%s-%s' % (variant, drv, self.key(core, [open(s).read() for s in srcs], [open(os.path.join(HARN, f)).read() for f in sorted(os.listdir(HARN)) if f.endswith(('.inc', '.h'))])))
            if os.path.exists(d + '/OK'):
                return d + '/' + drv
        else:
            d = os.path.join(self.scratch, 'drv-%s-%s' % (variant, drv))
        os.makedirs(d, exist_ok=True)
        objs = []
        for s in srcs:
            o = os.path.join(d, os.path.basename(s)[:-4] + '.o')
            self.compile(variant, s, o, d, ['-I' + core] + self.inc(variant, lib))
            objs.append(o)
        v = J.VARIANTS[variant]
        libs = [os.path.join(lib, 'src/libfazang.a')]
        if v.get('ode'):
            libs.append(os.path.join(lib, 'lib/sundials-6.1.1/libsundials.a'))
        cmd = [v.get('fc', 'gfortran-11')] + v.get('hflags', '-O1 -g').split() + v.get('lflags', '').split() + \
            objs + [core + '/fzv_core.o'] + libs + ['-lm', '-o', d + '/' + drv]
        rc, out = sh(cmd)
        if rc:
            raise NoVerdict('a monitor does not link: %s\n%s' % (drv, out[-3000:]))
        open(d + '/OK', 'w').close()
        return d + '/' + drv


# ------------------------------------------------------------------ running
SAN = re.compile(r'(ERROR: AddressSanitizer|WARNING: ThreadSanitizer|ERROR: LeakSanitizer|runtime error:|Fortran runtime error|==\d+== (?:Invalid|Conditional|Use of|Syscall))')


class Result:
    __slots__ = ('job', 'argv', 'rc', 'out', 'err', 'wall', 'fails', 'inconclusive')


def launch(exe, argv, env, limit, mem):
    def prep():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if not mem:
            return
        resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    p = subprocess.Popen([exe] + argv, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, stdin=subprocess.DEVNULL,
                         start_new_session=True, cwd='/tmp', preexec_fn=prep)
    try:
        out, err = p.communicate(timeout=limit)
        return p.returncode, out.decode('utf-8', 'replace'), err.decode('utf-8', 'replace'), False
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, err = p.communicate()
        return None, out.decode('utf-8', 'replace'), err.decode('utf-8', 'replace'), True


def run_one(B, job, argv, exe, wrapper=None):
    env = dict(os.environ)
    env.pop('GFORTRAN_UNBUFFERED_ALL', None)
    env['MALLOC_PERTURB_'] = str(job.get('perturb', 165))
    env['ASAN_OPTIONS'] = 'detect_leaks=0:halt_on_error=1:abort_on_error=0:exitcode=99:detect_stack_use_after_return=1'
    env['TSAN_OPTIONS'] = 'halt_on_error=1:exitcode=66:history_size=3'
    env['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1'
    env.update(job.get('env', {}))
    cmd, args = exe, [str(a) for a in argv]
    if wrapper:
        cmd, args = wrapper[0], wrapper[1:] + [exe] + args
    limit = job.get('limit', WATCHDOG)
    t = time.time()
    mem = None if 'san' in job['variant'] or wrapper else 6 << 30
    rc, out, err, hung = launch(cmd, args, env, limit, mem)
    if hung:            # a watchdog is no verdict: once more, alone it has twice the time
        rc, out, err, hung = launch(cmd, args, env, 2 * limit, mem)
    r = Result()
    r.job, r.argv, r.rc, r.out, r.err, r.wall = job, args, rc, out, err, time.time() - t
    r.fails, r.inconclusive = judge(job, rc, out, err, hung)
    return r


def judge(job, rc, out, err, hung):
    fails = [l for l in out.splitlines() if l.startswith('FAIL ')]
    kind = job.get('kind', 'monitor')
    if hung:
        return fails + ['FAIL key=hang at=%s :: no end after %d s, twice' % (job['name'], job.get('limit', WATCHDOG))], None
    if SAN.search(err) or SAN.search(out):
        m = SAN.search(err) or SAN.search(out)
        src = err if SAN.search(err) else out
        return fails + ['FAIL key=sanitizer at=%s :: %s' % (job['name'], src[m.start():m.start() + 300].replace('\n', ' | '))], None
    if rc in (-9, 137):
        return fails, 'killed'
    if rc in (70, 77, 78):
        return fails, 'the driver gave up with status %d: %s' % (rc, err[-300:])
    if kind == 'monitor':
        if fails:
            return fails, None
        if rc != 0 or not re.search(r'^DONE', out, re.M):
            return ['FAIL key=crash at=%s :: status %s %s' % (job['name'], rc, (err or out)[-600:].replace('\n', ' | '))], None
        return [], None
    if kind == 'stopper':       # the call must end the program with a non-zero status
        if not re.search(r'^STOPPER', out, re.M):
            return fails, 'the driver did not reach the call'
        if rc == 71 or 'AFTER' in out:
            return fails + ['FAIL key=not-stopped at=%s :: %s' % (job['name'], first(out, 'STOPPER'))], None
        if rc == 0:
            return fails + ['FAIL key=status-zero at=%s :: %s' % (job['name'], first(out, 'STOPPER'))], None
        if rc < 0 and rc != -signal.SIGABRT:
            return fails + ['FAIL key=crash at=%s :: signal %d in %s' % (job['name'], -rc, first(out, 'STOPPER'))], None
        if job.get('says') and not re.search(job['says'], out + err):
            return fails + ['FAIL key=silent at=%s :: no error is reported: %s' % (job['name'], first(out, 'STOPPER'))], None
        return fails, None
    if kind == 'helper':
        p = first(out, 'PREDICT')
        if not p:
            return fails, 'the driver did not reach the call'
        stop = p.startswith('PREDICT stop')
        went_on = re.search(r'^AFTER', out, re.M) is not None
        if stop == went_on or (stop and rc == 0) or (rc < 0):
            return fails + ['FAIL key=helper at=%s :: %s status %s%s' % (job['name'], p, rc, ' continued' if went_on else '')], None
        return fails, None
    raise NoVerdict('unknown job kind')


def first(out, word):
    for l in out.splitlines():
        if l.startswith(word):
            return l
    return ''


def expand(prop, tier, seed):
    """job table -> list of (job, argv)"""
    tasks = []
    for job in J.jobs(prop, tier):
        job = dict(job)
        n, ch = job['count'], job.get('chunk', job['count'])
        f = job.get('first', 1)
        tail = job.get('tail', [])
        name = job['variant'] + '/' + job['driver'] + '/' + job['mode'] + ''.join('/' + str(a) for a in tail)
        while n > 0:
            c = min(ch, n)
            jj = dict(job, name='%s/%d+%d' % (name, f, c))
            tasks.append((jj, [job['mode'], job.get('seed', seed), f, c] + list(tail)))
            f += c
            n -= c
    return tasks


# ------------------------------------------------------------------ known findings
def known(prop):
    res = []
    p = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r'known: property=(\S+) match=(\S+) (.*)', l)
            if m and m.group(1) == prop:
                res.append((re.compile(m.group(2)), m.group(3)))
    return res


# ------------------------------------------------------------------ main
def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    scratch = tempfile.mkdtemp(prefix='fzv-', dir=os.environ.get('TMPDIR', '/tmp'))
    try:
        return _check(prop, tier, seed, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _check(prop, tier, seed, scratch, t0):
    B = Builder(scratch)
    tasks = expand(prop, tier, seed)
    extra = J.EXTRA.get(prop)
    need = sorted({(j['variant'], j['driver']) for j, _ in tasks})
    builds = {}
    # core compilations first, so that no worker waits for a queued one
    for v in sorted({v for v, _ in need}):
        if J.VARIANTS[v].get('sun'):
            B.once(('lib', v), B.lib, v)
        else:
            B.once(('core', v), B.core, v)
    bpool = cf.ThreadPoolExecutor(NCPU)
    for v, d in need:
        builds[v, d] = bpool.submit(B.driver, v, d)
    results, lock = [], threading.Lock()
    xres = []
    with cf.ThreadPoolExecutor(NCPU) as ex:
        stop = threading.Event()

        def work(job, argv):
            if stop.is_set():
                return
            exe = builds[job['variant'], job['driver']].result()
            r = run_one(B, job, argv, exe, job.get('wrapper'))
            with lock:
                results.append(r)
            if r.fails:
                stop.set()
        futs = []
        if extra:
            futs.append(ex.submit(lambda: xres.append(extra(B, prop, tier, seed, scratch))))
        # longest first is not known; run in table order
        futs += [ex.submit(work, j, a) for j, a in tasks]
        for f in futs:
            f.result()
    # ---- verdict
    fails = []
    inconc = []
    stats, sigs, samples, hashes = {}, set(), [], {}
    evals = 0
    for r in results:
        for l in r.fails:
            fails.append((l, r))
        if r.inconclusive:
            inconc.append('%s: %s' % (r.job['name'], r.inconclusive))
        for l in r.out.splitlines():
            if l.startswith('STAT '):
                p = l.split()
                if len(p) == 3:
                    stats[p[1]] = stats.get(p[1], 0) + int(p[2])
            elif l.startswith('SIG '):
                sigs.add((l[4:].strip(), r.job['mode'], str(r.job.get('tail'))))
            elif l.startswith('SAMPLE ') and len(samples) < 12:
                samples.append(l[7:].strip()[:500])
            elif l.startswith('HASH '):
                g = r.job.get('hashgroup')
                if g:
                    hashes.setdefault((g, r.argv[2]), []).append((l[5:].strip(), r))
            elif l.startswith(('STOPPER ', 'PREDICT ')):
                sigs.add((l.strip(), r.job['mode'], ''))
                if len(samples) >= 12:
                    continue
                samples.append(l.strip()[:300])
        if r.job.get('kind', 'monitor') == 'monitor':
            m = re.search(r'^STAT points (\d+)', r.out, re.M) or re.search(r'^STAT cases (\d+)', r.out, re.M)
            evals += int(m.group(1)) if m else 0
        elif not r.inconclusive:
            evals += 1
    for (g, first_), lst in hashes.items():
        stats['config_comparisons'] = stats.get('config_comparisons', 0) + len(lst) - 1
        if len({h for h, _ in lst}) > 1:
            d = sorted((r.job['variant'], h) for h, r in lst)
            fails.append(('FAIL key=configuration at=%s/%s :: results differ between configurations: %s' % (g, first_, d), lst[0][1]))
    for x in xres:
        evals += x.get('evaluations', 0)
        for s_ in x.get('sigs', []):
            sigs.add((s_, 'extra', ''))
        samples = x.get('samples', [])[:6] + samples
        for k, v in x.get('stats', {}).items():
            stats[k] = stats.get(k, 0) + v
        for l in x.get('fails', []):
            fails.append((l, None))
        inconc += x.get('inconclusive', [])
    for sk, nk, ceil, least in J.MEANS.get(prop, []):
        n = stats.get(nk, 0)
        if n < least:
            if not fails:
                inconc.append('only %d cases for the average %s' % (n, sk))
            continue
        stats['mean_of_' + sk] = round(stats[sk] / n)
        if stats[sk] / n > ceil:
            fails.append(('FAIL key=average at=%s :: the average of %s over %d cases is %.0f, at most %d is normal' % (prop, sk, n, stats[sk] / n, ceil), None))
    # floors: a run that observed nothing is no verdict
    for k, least in J.FLOORS.get(prop, {}).items():
        got = len(sigs) if k == 'distinct' else evals if k == 'evaluations' else stats.get(k, 0)
        if got < least and not fails:
            inconc.append('observed only %d %s, expected at least %d' % (got, k, least))
    kn = known(prop)
    real, kfound = [], set()
    for l, r in fails:
        for i, (rx, what) in enumerate(kn):
            if rx.search(l):
                kfound.add(i)
                break
        else:
            real.append((l, r))
    for i in sorted(kfound):
        print('KNOWN-FINDING: property=%s %s' % (prop, kn[i][1]))
    wall = time.time() - t0
    ev = dict(property=prop, tier=tier, seed=seed, level='exploration', wall_s=round(wall, 2), violations=len(real),
              coverage=dict(evaluations=evals, distinct_nontrivial=len(sigs), rule=J.RULES[prop], samples=samples[:12] or ['none'],
                            processes=len(results), builds=sorted({v for v, _ in need}), observed=stats),
              assumptions=J.ASSUME)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if real:
        l, r = real[0]
        rp = os.path.join(VERIF, 'replays'); os.makedirs(rp, exist_ok=True)
        rep = dict(property=prop, tier=tier, seed=seed, failures=[x[:1500] for x, _ in real[:20]])
        if r is not None:
            rep.update(variant=r.job['variant'], driver=r.job['driver'], argv=r.argv, job={k: v for k, v in r.job.items() if k != 'wrapper'},
                       stdout=r.out[-3000:], stderr=r.err[-3000:])
        name = '%s-%s.json' % (prop, hashlib.sha256(l.encode()).hexdigest()[:10])
        with open(os.path.join(rp, name), 'w') as f:
            json.dump(rep, f, indent=1)
        for x, _ in real[:8]:
            print(x[:600])
        print('VIOLATION property=%s replay=%s' % (prop, 'replays/' + name))
        return 1
    if inconc:
        for x in inconc[:10]:
            print('INCONCLUSIVE ' + x)
        return 3
    print('held: property=%s tier=%s seed=%d evaluations=%d distinct=%d processes=%d wall=%.1fs' %
          (prop, tier, seed, evals, len(sigs), len(results), wall))
    return 0


def replay(path):
    rep = json.load(open(path))
    if 'driver' not in rep:
        os.environ['VERIF_SEED'] = str(rep['seed'])
        return check(rep['property'], rep['tier'])
    scratch = tempfile.mkdtemp(prefix='fzv-')
    try:
        B = Builder(scratch)
        exe = B.driver(rep['variant'], rep['driver'])
        r = run_one(B, rep['job'], rep['argv'], exe)
        sys.stdout.write(r.out[-4000:]); sys.stderr.write(r.err[-4000:])
        for l in r.fails:
            print(l)
        return 1 if r.fails else 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == '__main__':
    try:
        if sys.argv[1] == '--replay':
            sys.exit(replay(sys.argv[2]))
        tier = os.environ.get('VERIF_TIER') or (sys.argv[2] if len(sys.argv) > 2 else 'quick')
        if len(sys.argv) > 2:
            tier = sys.argv[2]
        sys.exit(check(sys.argv[1], tier))
    except NoVerdict as e:
        print('NO VERDICT: %s' % e)
        sys.exit(3)
