"""C31: what is installed works without the tree it was built in."""
import hashlib, os, re, shutil, subprocess
import concurrent.futures as cf

HERE = os.path.dirname(os.path.abspath(__file__))


def _mods(top):
    out = {}
    for d, _, ff in os.walk(top):
        for f in ff:
            if f.endswith('.mod'):
                out[f] = os.path.join(d, f)
    return out


def _digest(p):
    return hashlib.sha256(open(p, 'rb').read()).hexdigest()


def configurations(tier):
    c = []
    for sun in ('true', 'false'):
        for lib in ('shared', 'static'):
            c.append(dict(sun=sun, lib=lib))
    c[0].update(extra=['--includedir=inc/sub'])
    c[1].update(destdir=True)
    c[2].update(destdir=True)
    c[3].update(stale=True)
    c.append(dict(sun='true', lib='shared', extra=['--buildtype=release', '--libdir=lib'], stale=True))
    if tier == 'thorough':
        for sun in ('true', 'false'):
            for lib in ('shared', 'static'):
                for bt in ('debugoptimized', 'release', 'plain'):
                    c.append(dict(sun=sun, lib=lib, extra=['--buildtype=' + bt]))
                c.append(dict(sun=sun, lib=lib, fc='gfortran-13', cc='gcc-13', again=True))
                c.append(dict(sun=sun, lib=lib, extra=['--includedir=include/deep/er', '--libdir=lib64'], destdir=True, stale=True))
    return c


class Bad(Exception):
    pass


def one(B, run, tier, seed, scratch, i, c):
    name = 'sundials=%s %s%s%s%s %s' % (c['sun'], c['lib'], ' DESTDIR' if c.get('destdir') else '', ' over old files' if c.get('stale') else '',
                                        ' twice' if c.get('again') else '', ' '.join(c.get('extra', [])) + c.get('fc', ''))
    res = dict(name=name, fails=[], stats={}, sig='install ' + name, inconclusive=None)
    top = os.path.join(scratch, 'inst%d' % i)
    bdir, prefix = os.path.join(top, 'build'), os.path.join(top, 'prefix')
    os.makedirs(top)
    fc = c.get('fc', 'gfortran-11')
    env = dict(os.environ, CC=c.get('cc', 'gcc-11'), FC=fc)
    for k in ('FFLAGS', 'CFLAGS', 'LDFLAGS', 'DESTDIR', 'PKG_CONFIG_PATH', 'LD_LIBRARY_PATH'):
        env.pop(k, None)

    def fail(key, text):
        res['fails'].append('FAIL key=%s at=%s :: %s' % (key, name.strip(), text.replace('\n', ' | ')[-1200:]))
        raise Bad()
    try:
        rc, out = run.sh(['meson', 'setup', bdir, run.REPO, '--wrap-mode=nodownload', '-Dsundials=' + c['sun'], '-Ddefault_library=' + c['lib'],
                          '--prefix=' + prefix] + c.get('extra', []), env=env)
        if rc:
            raise run.NoVerdict('meson setup failed (%s): %s' % (name, out[-1500:]))
        rc, out = run.sh(['ninja', '-C', bdir], env=env)
        if rc:
            fail('build', out)
        made = dict(_mods(os.path.join(bdir, 'src')), **_mods(os.path.join(bdir, 'lib')))
        root = prefix
        if c.get('destdir'):
            env['DESTDIR'] = os.path.join(top, 'stage')
            root = env['DESTDIR'] + prefix
        inc = 'include'
        for e in c.get('extra', []):
            if e.startswith('--includedir='):
                inc = e.split('=', 1)[1]
        incd = os.path.join(root, inc, 'fazang')
        if c.get('stale'):
            os.makedirs(incd)
            for m in list(made)[::2]:
                open(os.path.join(incd, m), 'w').write('an old module\n')
            os.makedirs(os.path.join(root, 'share'))
            open(os.path.join(root, 'share', 'other'), 'w').write('not ours\n')
        for _ in range(2 if c.get('again') else 1):
            rc, out = run.sh(['meson', 'install', '-C', bdir], env=env)
            if rc:
                fail('install', 'the installation fails: ' + out)
        env.pop('DESTDIR', None)
        if c.get('stale') and open(os.path.join(root, 'share', 'other')).read() != 'not ours\n':
            fail('install', 'an unrelated file changed')
        got = _mods(root)
        for m, p in sorted(made.items()):
            if m not in got:
                fail('modules', 'module file %s is not installed' % m)
            if os.path.dirname(got[m]) != incd:
                fail('modules', 'module file %s is installed in %s' % (m, os.path.dirname(got[m])))
            if _digest(got[m]) != _digest(p):
                fail('modules', 'module file %s differs from the one built' % m)
        res['stats']['module_files'] = len(made)
        # programs are compiled against the installation alone, the tree is out of the way
        if root != prefix:
            if os.path.exists(prefix):
                fail('install', 'files outside of DESTDIR')
            shutil.move(root, prefix)
        inc_i = os.path.join(prefix, inc, 'fazang')
        pcs = [os.path.join(d, f) for d, _, ff in os.walk(prefix) for f in ff if f == 'fazang.pc']
        if not pcs:
            fail('pkg-config', 'no fazang.pc')
        libd = os.path.dirname(os.path.dirname(pcs[0]))
        penv = dict(env, PKG_CONFIG_PATH=os.path.dirname(pcs[0]))
        rc, out = run.sh(['pkg-config', '--cflags', '--libs', 'fazang'], env=penv)
        if rc:
            fail('pkg-config', out)
        flags = out.split()
        if '-I' + inc_i not in flags or '-lfazang' not in flags:
            fail('pkg-config', 'flags are ' + out)
        old = bdir + '-elsewhere'
        src = [('fzv_core', [])]
        src += [('fzv_oprob', []), ('fzv_std', []), ('fzv_ode', [])] if c['sun'] == 'true' else []
        src += [('fzv_prog', [])]
        cl = os.path.join(top, 'client'); os.makedirs(cl)
        # every module can be used on its own
        text = []
        for k, m in enumerate(sorted(made)):
            text.append('subroutine s%d\n use %s\nend subroutine\n' % (k, m[:-4]))
        text.append('end\n')
        open(os.path.join(cl, 'mods.f90'), 'w').write(''.join(text))
        os.rename(bdir, old)
        try:
            rc, out = run.sh([fc, '-c', 'mods.f90', '-I' + inc_i, '-o', 'mods.o'], cwd=cl, env=env)
            if rc:
                fail('modules', out)
            for s, _ in src:
                rc, out = run.sh([fc, '-O1', '-g', '-fwrapv', '-ffree-line-length-none', '-J' + cl, '-I' + inc_i, '-c', os.path.join(run.HARN, s + '.F90'), '-o',
                                  os.path.join(cl, s + '.o')], cwd=cl, env=env)
                if rc:
                    fail('client-compile', out)
            progs = {'prog': ['fzv_core.o', 'fzv_prog.o']}
            if c['sun'] == 'true':
                progs['ode'] = ['fzv_core.o', 'fzv_oprob.o', 'fzv_std.o', 'fzv_ode.o']
            for p, objs in progs.items():
                rc, out = run.sh([fc] + objs + flags + ['-lm', '-o', p + '-inst'], cwd=cl, env=env)
                if rc:
                    fail('client-link', out)
            work = [('prog', ['dag', seed, 1, 120, 1, 0]), ('prog', ['gradfn', seed, 1, 60, 0, 0]), ('prog', ['nest', seed, 1, 60, 0, 0])]
            if c['sun'] == 'true':
                work += [('ode', ['sol', seed, 1, 100]), ('ode', ['sens', seed, 1, 60, 22]), ('ode', ['sens', seed, 1, 60, 23]), ('ode', ['ctl', seed, 1, 60])]
            obs = {}
            renv = dict(env, LD_LIBRARY_PATH=libd, MALLOC_PERTURB_='165')
            for p, a in work:
                pr = subprocess.run([os.path.join(cl, p + '-inst')] + [str(x) for x in a], env=renv, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                    stdin=subprocess.DEVNULL, timeout=200, cwd='/tmp')
                o = pr.stdout.decode('utf-8', 'replace')
                ff = [l for l in o.splitlines() if l.startswith('FAIL')]
                if pr.returncode or ff or not re.search('^DONE', o, re.M):
                    fail('client-run', 'against the installation: %s status %d %s %s' % (a, pr.returncode, ff[:1], pr.stderr.decode('utf-8', 'replace')[-500:]))
                obs[p, str(a)] = re.findall('^(?:HASH|SIG) .*', o, re.M)
                res['stats']['programs_run'] = res['stats'].get('programs_run', 0) + 1
        finally:
            os.rename(old, bdir)
        # the same objects linked in the build tree
        so = 'so' if c['lib'] == 'shared' else 'a'
        lib = [os.path.join(bdir, 'src/libfazang.' + so)]
        sund = [os.path.join(d, f) for d, _, ff in os.walk(os.path.join(bdir, 'lib')) for f in ff if re.fullmatch(r'libsundials\.(a|so)', f)]
        lib += sund
        for p, objs in progs.items():
            rc, out = run.sh([fc] + objs + lib + ['-lm', '-Wl,-rpath,' + os.path.join(bdir, 'src'), '-o', p + '-tree'], cwd=cl, env=env)
            if rc:
                fail('tree-link', out)
        for p, a in work:
            pr = subprocess.run([os.path.join(cl, p + '-tree')] + [str(x) for x in a], env=dict(env, MALLOC_PERTURB_='165'), stdout=subprocess.PIPE,
                                stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, timeout=200, cwd='/tmp')
            h = re.findall('^(?:HASH|SIG) .*', pr.stdout.decode('utf-8', 'replace'), re.M)
            res['stats']['result_comparisons'] = res['stats'].get('result_comparisons', 0) + len(h)
            if h != obs[p, str(a)]:
                fail('results', '%s gives other results than inside the build tree' % a)
        # the installed library names no file of the build tree it needs
        rc, out = run.sh(['sh', '-c', 'for f in $(find "%s" -name "lib*.so*"); do objdump -p $f | grep -E "RPATH|RUNPATH|NEEDED"; done' % prefix])
        if bdir in out:
            fail('results', 'the installed library refers to the build tree: ' + out)
    except Bad:
        pass
    except subprocess.TimeoutExpired as e:
        res['inconclusive'] = '%s: timeout %s' % (name, str(e)[:200])
    finally:
        shutil.rmtree(top, ignore_errors=True)
    return res


def extra(B, prop, tier, seed, scratch):
    import run
    cs = configurations(tier)
    out = dict(evaluations=0, sigs=[], samples=[], stats={}, fails=[], inconclusive=[])
    with cf.ThreadPoolExecutor(5) as ex:
        for r in ex.map(lambda t: one(B, run, tier, seed, scratch, t[0], t[1]), enumerate(cs)):
            out['evaluations'] += 1
            out['sigs'].append(r['sig'])
            out['samples'].append(r['name'].strip() + ' ' + ' '.join('%s=%d' % kv for kv in sorted(r['stats'].items())))
            for k, v in r['stats'].items():
                out['stats'][k] = out['stats'].get(k, 0) + v
            out['fails'] += r['fails']
            if r['inconclusive']:
                out['inconclusive'].append(r['inconclusive'])
    return out
