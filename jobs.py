"""Job tables: which monitors decide which property, in which builds, on how many cases."""

ASAN = '-O1 -g -fsanitize=address,undefined -fno-sanitize-recover=undefined -fcheck=bounds,do,mem,pointer'

VARIANTS = {
    'base': {},
    'dbg': dict(buildtype='debug'),
    'o3': dict(buildtype='release'),
    'g13': dict(fc='gfortran-13', cc='gcc-13'),
    'asan': dict(buildtype='plain', fargs=ASAN, hflags='-O1 -g -fsanitize=address', lflags='-fsanitize=undefined'),
    'ode': dict(ode=True),
    'odeasan': dict(ode=True, buildtype='plain', fargs=ASAN, cargs='-O1 -g -fsanitize=address',
                    hflags='-O1 -g -fsanitize=address', lflags='-fsanitize=undefined'),
}
# the bundled solver library alone
VARIANTS['sun'] = dict(ode=True, sun=True)
VARIANTS['sunasan'] = dict(ode=True, sun=True, buildtype='plain', cargs='-O1 -g -fsanitize=address,undefined -fno-sanitize-recover=undefined',
                           hflags='-O1 -g -fsanitize=address,undefined -fno-sanitize-recover=undefined')
VARIANTS['suntsan'] = dict(ode=True, sun=True, buildtype='plain', cargs='-O1 -g -fsanitize=thread', hflags='-O1 -g -fsanitize=thread')
for _n in (1, 2, 3, 7, 64, 100000):
    VARIANTS['len%d' % _n] = dict(fargs='-DFZ_INIT_STACK_LEN=%d' % _n)

DRIVERS = {
    'prog': dict(src=['fzv_prog']),
    'ops': dict(src=['fzv_ops']),
    'elem': dict(src=['gen:fzv_elem_gen', 'fzv_elem'], gen='gen_elem.py'),
    'misc': dict(src=['fzv_misc']),
    'tape': dict(src=['fzv_tape']),
    'vec': dict(c=['fzv_vec']), 'mat': dict(c=['fzv_mat']), 'dir': dict(c=['fzv_dir']), 'itr': dict(c=['fzv_itr']), 'cvs': dict(c=['fzv_cvs']), 'kin': dict(c=['fzv_kin']), 'nls': dict(c=['fzv_nls']), 'ida': dict(c=['fzv_ida']),
    'ode': dict(src=['fzv_oprob', 'fzv_std', 'fzv_ode']),
}

ASSUME = [
    'the oracle is quadruple-precision arithmetic of the gfortran run-time library (libquadmath)',
    'single-threaded use, as the library documents nothing else',
    'built with gfortran on x86-64',
]


def job(driver, mode, count, chunk=None, tail=(), variant='base', **kw):
    d = dict(driver=driver, mode=mode, count=count, chunk=chunk or count, tail=list(tail), variant=variant)
    d.update(kw)
    return d


def scaled(tier, js, k=12):
    """thorough: k times the cases, also in other builds"""
    if tier == 'quick':
        return js
    out = []
    for j in js:
        if j.get('fixed'):
            out.append(dict(j))
            continue
        if j.get('kind', 'monitor') != 'monitor':
            out.append(dict(j, count=j['count'] * 4))
            continue
        out.append(dict(j, count=j['count'] * k))
        if j['variant'] == 'base':
            for v, kk in (('asan', 1), ('g13', 2), ('o3', 2), ('dbg', 1), ('len1', 1)):
                out.append(dict(j, variant=v, count=j['count'] * kk, first=10 ** 6))
    for j in out:
        j['limit'] = 600
    return out


def dag(profile, n, wraps=(0, 1, 3)):
    # outside of scopes every sweep costs the length of the record: small processes
    return [job('prog', 'dag', n, 150 if w == 0 else 400, [w, profile], first=1 + 100000 * w) for w in wraps]


def prog(mode, n, wraps=(0, 1, 3), args=(0,), chunk=200):
    return [job('prog', mode, n, chunk, [w, a], first=1 + 100000 * w + 1000000 * a) for w in wraps for a in args]


TABLE = {}
RULES = {}
FLOORS = {}
EXTRA = {}

G = 'Cases are generated from VERIF_SEED; the signature of a case is a hash of '
OPSEQ = G + 'the sequence of recorded operations, operands and observed values; a case counts as non-trivial when it recorded at least a few ' \
    'operations beyond its leaves; equal signatures count once.'
POINTS = G + 'operation, operand form and the binade of the operands; a point counts when it is an evaluation inside the domain; equal signatures count once.'

TABLE['C01'] = [job('ops', 'uval', 3200, 200)]
RULES['C01'] = POINTS
TABLE['C02'] = [job('ops', 'uder', 2400, 150)] + dag(2, 600)
RULES['C02'] = POINTS + ' Programs: ' + OPSEQ
TABLE['C03'] = [job('ops', 'arith', 2400, 150)] + dag(3, 900)
RULES['C03'] = POINTS + ' Programs: ' + OPSEQ
TABLE['C04'] = [job('ops', 'pow', 1600, 100)] + dag(4, 900)
RULES['C04'] = POINTS + ' Programs: ' + OPSEQ
TABLE['C05'] = dag(0, 2400) + dag(2, 300) + dag(13, 300) + dag(14, 200) + dag(18, 200) + dag(19, 200) + dag(29, 300)
RULES['C05'] = OPSEQ
TABLE['C06'] = prog('isolate', 1600)
RULES['C06'] = OPSEQ
TABLE['C07'] = prog('adjlife', 800, chunk=100)
RULES['C07'] = OPSEQ
TABLE['C08'] = prog('grow', 96, chunk=12)
for _v in ('len1', 'len2', 'len3', 'len7', 'len64', 'len100000'):
    TABLE['C08'] += [job('prog', 'grow', 48, 12, [0, 0], variant=_v, first=1)]
for _j in TABLE['C08']:
    if _j['tail'] == [0, 0]:
        _j['hashgroup'] = 'grow'
RULES['C08'] = OPSEQ + ' The hash of everything observed is compared between builds of different initial storage size.'
TABLE['C09'] = prog('nest', 1200) + prog('nest', 300, args=(1,), chunk=50)
RULES['C09'] = OPSEQ
TABLE['C10'] = prog('nestgrad', 3200, chunk=400) + prog('nestgrad', 800, args=(1,), chunk=100)
RULES['C10'] = OPSEQ
TABLE['C11'] = prog('gradfn', 4800, chunk=600)
RULES['C11'] = OPSEQ
TABLE['C12'] = prog('jacfn', 4800, chunk=600)
RULES['C12'] = OPSEQ
TABLE['C13'] = [job('misc', 'red', 12000, 1000, [13])] + dag(13, 400)
RULES['C13'] = OPSEQ
TABLE['C14'] = [job('misc', 'red', 8000, 700, [14])] + dag(14, 400)
RULES['C14'] = OPSEQ
TABLE['C15'] = [job('elem', 'rel', 16000, 2000)]
RULES['C15'] = OPSEQ
TABLE['C16'] = [job('elem', 'ctor', 16000, 2000)]
RULES['C16'] = OPSEQ
TABLE['C17'] = [job('elem', 'elem', 16000, 1000)]
RULES['C17'] = OPSEQ
TABLE['C18'] = [job('misc', 'red', 12000, 1000, [18])] + dag(18, 400)
RULES['C18'] = OPSEQ
TABLE['C19'] = [job('misc', 'red', 12000, 1000, [19])] + dag(19, 400)
RULES['C19'] = OPSEQ
TABLE['C20'] = [job('ops', 'psi', 1600, 100)]
RULES['C20'] = POINTS
TABLE['C27'] = [dict(j, variant='asan', count=max(8, j['count'] // d), chunk=max(4, j['chunk'] // 4)) for js, d in (
    (dag(0, 240), 1), (dag(14, 80), 1), (prog('nest', 60), 1), (prog('nest', 20, args=(1,)), 1), (prog('nestgrad', 200), 1), (prog('grow', 8, wraps=(0, 1)), 1),
    (prog('gradfn', 200), 1), (prog('jacfn', 200), 1), (prog('adjlife', 60), 1), (prog('isolate', 100), 1)) for j in js]
TABLE['C27'] += [job('misc', 'red', 300, 75, [a], variant='asan') for a in (13, 14, 18, 19)] + \
    [job('misc', 'special', 200, 50, variant='asan'), job('tape', 'tape', 300, 75, variant='asan'),
     job('elem', 'elem', 300, 75, variant='asan'), job('elem', 'rel', 200, 100, variant='asan'), job('elem', 'ctor', 300, 75, variant='asan'),
     job('ops', 'uder', 40, 20, variant='asan'), job('ops', 'pow', 40, 20, variant='asan')]
RULES['C27'] = OPSEQ + ' Every case runs in a build with address and undefined-behaviour sanitizers and run-time bounds checks.'
TABLE['C28'] = [job('misc', 'special', 12000, 1000), job('misc', 'stopper', 64, 1, kind='stopper')]
RULES['C28'] = OPSEQ + ' Calls that must stop the program run in a process of their own.'
TABLE['C29'] = dag(29, 1600) + [job('misc', 'usr', 0)][:0]
RULES['C29'] = OPSEQ
TABLE['C30'] = [job('tape', 'tape', 8000, 500)]
RULES['C30'] = OPSEQ
TABLE['C32'] = [job('misc', 'helper', 480, 1, kind='helper')]
RULES['C32'] = 'Each case is one call of one helper in a process of its own, with the outcome predicted from the compared values; ' \
    'the signature is helper and values.'

ODE = G + 'the initial states, kinds of equations, tolerances, numbers of equations, parameters and outputs; a case counts when at least one solve ' \
    'was compared against its exact solution; equal signatures count once.'


def ode(mode, n, chunk, tail=(0,), variant='ode', **kw):
    return [job('ode', mode, n, chunk, list(tail), variant=variant, **kw)]


NOCACHE = {'GLIBC_TUNABLES': 'glibc.malloc.tcache_count=0'}
# averages are taken over fixed cases, whatever the seed of the run
TABLE['C21'] = ode('bsol', 12000, 1000, seed=77, fixed=True) + ode('sol', 12000, 1000) + ode('ctl', 6000, 750) + ode('std', 17, 1, [21], fixed=True)
RULES['C21'] = ODE
TABLE['C22'] = ode('bsens', 8000, 500, [22], seed=77, fixed=True) + ode('sens', 6000, 500, [22]) + ode('std', 17, 1, [22], fixed=True)
RULES['C22'] = ODE + ' Solutions enter random programs afterwards.'
TABLE['C23'] = ode('bsens', 8000, 500, [23], seed=77, fixed=True) + ode('sens', 6000, 500, [23]) + ode('std', 17, 1, [23], fixed=True)
RULES['C23'] = ODE + ' Solutions enter random programs afterwards.'
TABLE['C24'] = ode('cb', 16000, 2000)
TABLE['C33'] = ode('sym', 2400, 100)
RULES['C33'] = ODE + ' Every case is solved in its own units, mirrored in time, in other units of time and state, and with more outputs.'
TABLE['C34'] = ode('bsol', 12000, 1000, seed=77, fixed=True) + ode('std', 17, 1, [21], fixed=True) + ode('std', 17, 1, [22], fixed=True) + \
    ode('std', 17, 1, [23], fixed=True) + ode('work', 6000, 500)
RULES['C34'] = ODE + ' Fixed cases are counted for the averages of evaluations of the right-hand side, random ones for how the work grows.'
RULES['C24'] = G + 'everything the callbacks returned; a case counts when the callbacks were called at three states; equal signatures count once.'
TABLE['C25'] = ode('place', 3200, 200) + ode('place', 400, 100, hashgroup='place') + \
    ode('place', 400, 100, hashgroup='place', perturb=90)
RULES['C25'] = ODE + ' The hash of everything observed is compared between runs with different contents of released memory.'
TABLE['C26'] = ode('stopper', 204, 1, kind='stopper', says='(?i)error')
RULES['C26'] = 'Each case is one solve that cannot succeed in a process of its own; the signature is the case.'
TABLE['C27'] += ode('sol', 300, 75, variant='odeasan') + ode('sym', 64, 8, variant='odeasan') + ode('ctl', 200, 50, variant='odeasan') + ode('sens', 160, 40, [22], variant='odeasan') + \
    ode('sens', 160, 40, [23], variant='odeasan') + ode('cb', 300, 150, variant='odeasan') + ode('place', 100, 25, variant='odeasan')
for _a in (0, 1, 2):
    TABLE['C27'] += ode('leak', 800, 800, [_a], env=NOCACHE)

# ---------------------------------------------------------------- the bundled solver library by itself
SUN = G + 'the operations, shapes, parameters and observed results of a case; equal signatures count once.'
TABLE['C35'] = [job('vec', 'vec', n, c, [a], variant=v, first=f) for v, a, n, c, f in (
    ('sun', 0, 4000, 500, 1), ('sun', 1, 1200, 100, 1), ('sun', 2, 800, 100, 1), ('sun', 3, 600, 60, 1),
    ('sunasan', 0, 400, 100, 9001), ('sunasan', 1, 160, 20, 9001), ('sunasan', 2, 120, 20, 9001), ('sunasan', 3, 120, 20, 9001),
    ('suntsan', 1, 160, 20, 7001), ('suntsan', 2, 80, 10, 7001))]
RULES['C35'] = SUN + ' A case makes 10 to 40 operations on a pool of ten vectors of one kind.'
TABLE['C36'] = [job('mat', 'mat', n, c, [a], variant=v, first=f) for a in (0, 1, 2, 3) for v, n, c, f in (
    ('sun', 12000, 3000, 1), ('sunasan', 1200, 300, 900001))]
RULES['C36'] = SUN + ' A case makes 6 to 25 operations on a pool of five matrices of one kind and shape.'
TABLE['C37'] = [job('dir', 'dir', n, c, [a], variant=v, first=f) for a in (0, 1, 2) for v, n, c, f in (
    ('sun', 20000, 5000, 1), ('sunasan', 2000, 500, 900001))]
RULES['C37'] = SUN
TABLE['C38'] = [job('itr', 'itr', n, c, [a], variant=v, first=f) for a in (0, 1, 2, 3, 4, 5) for v, n, c, f in (
    ('sun', 6000, 750, 1), ('sunasan', 600, 150, 900001))]
RULES['C38'] = SUN + ' A case makes up to four solves with one solver object, some of them twice.'

def cvs(n, c, a, na, ca, bench=0):
    js = [job('cvs', 'x', n, c, [a], variant='sun'), job('cvs', 'x', na, ca, [a], variant='sunasan', first=900001)]
    if bench:
        js.insert(0, job('cvs', 'b', bench, bench // 8, [a], variant='sun', seed=77, fixed=True))
    return js
TABLE['C39'] = cvs(16000, 1000, 0, 600, 75, 8000)
RULES['C39'] = SUN + ' A case is one integration with its outputs and, for most, the same once more; fixed cases are averaged.'
TABLE['C40'] = cvs(24000, 1500, 1, 600, 75)
RULES['C40'] = SUN + ' A case is one integration with up to seven root functions.'
TABLE['C41'] = cvs(12000, 750, 2, 480, 60, 8000)
RULES['C41'] = SUN + ' A case is one integration with its outputs and, for many, up to three related ones; fixed cases are averaged.'

TABLE['C42'] = cvs(6400, 400, 3, 480, 60, 8000)
RULES['C42'] = SUN + ' A case is one forward integration with up to three backward problems, half of them run twice; fixed cases are averaged.'

TABLE['C43'] = cvs(48000, 3000, 4, 2400, 300)
RULES['C43'] = SUN + ' A case is a run without failure, one in which a function fails, and one more after reinitialisation, or a limited run resumed, or a run with refused calls in between.'

TABLE['C44'] = [job('kin', 'x', n, c, [a], variant=v, first=f) for a in (0, 1) for v, n, c, f in (
    ('sun', 80000, 10000, 1), ('sunasan', 4000, 500, 900001))]
RULES['C44'] = SUN + ' A case is one solve, or two with the same object; half of the cases have failing functions.'

TABLE['C45'] = cvs(96000, 6000, 5, 4000, 500, 8000)
RULES['C45'] = SUN + ' A case is one integration, the history of every step predicted from the one before; fixed cases are averaged.'

TABLE['C46'] = [job('nls', 'x', n, c, [a], variant=v, first=f) for a in (0, 1, 2) for v, n, c, f in (('sun', 60000, 7500, 1), ('sunasan', 6000, 750, 900001))]
RULES['C46'] = SUN + ' A case is one solver object with one system and several solves, or one set of vectors with several operations.'

TABLE['C47'] = [job('ida', 'x', n, c, [a], variant=v, first=f) for a in (0, 1, 2) for v, n, c, f in (('sun', 4000, 500, 1), ('sunasan', 400, 50, 900001))]
RULES['C47'] = SUN + ' A case is one implicit system with one history of calls.'

# ceilings of averages over all cases of a run: key -> (sum, number, ceiling, least number)
import json, os
MEANS = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'means.json')))

FLOORS.update({p: {'distinct': 100} for p in TABLE})
FLOORS['C28'] = {'distinct': 100, 'comparisons': 10000}


import install_check
EXTRA['C31'] = install_check.extra
RULES['C31'] = 'Each evaluation is one installation: configured, built, installed, the build tree moved away, clients compiled with the flags of the ' \
    'installed pkg-config file, run, and everything they observe compared with the same clients linked in the build tree. The signature is the configuration.'
FLOORS['C31'] = {'distinct': 5, 'result_comparisons': 20}


def jobs(prop, tier):
    if prop not in TABLE:
        return []
    js = scaled(tier, TABLE[prop])
    return js
