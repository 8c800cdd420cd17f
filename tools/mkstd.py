#!/opt/veriftools/pyvenv/bin/python3
"""Well-known test problems for initial value solvers: one definition, from which come the Fortran right-hand sides
(harness/fzv_std.inc) and reference solutions with sensitivities (harness/fzv_std_ref.inc), computed by other software
(scipy's DOP853 and Radau on the variational equations written by sympy).  Run by hand; the checks use what it wrote."""
import os, re, sys
os.environ['OPENBLAS_NUM_THREADS'] = '1'
import numpy as np, sympy as sp
from scipy.integrate import solve_ivp
from concurrent.futures import ProcessPoolExecutor
H = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness')

# name, equations, y0, p, t0, outputs, stiff, largest exponent of the tolerance
P = []
def prob(name, eqs, y0, p, t0, ts, stiff=False, loose=3, tight=9, sens=True, scale=None):
    P.append(dict(name=name, eqs=eqs, y0=y0, p=p, t0=t0, ts=ts, stiff=stiff, loose=loose, tight=tight, sens=sens,
                  scale=scale or [1.0] * len(y0)))

prob('lotka', ['p1*y1 - p2*y1*y2', 'p3*y1*y2 - p4*y2'], [1.0, 0.5], [1.5, 1.0, 1.0, 3.0], 0.0, [1.0, 4.0, 10.0, 20.0])
prob('vdp5', ['y2', 'p1*(1.0 - y1*y1)*y2 - y1'], [2.0, 0.0], [5.0], 0.0, [1.0, 6.0, 15.0, 21.0])
prob('vdp200', ['y2', 'p1*(1.0 - y1*y1)*y2 - y1'], [2.0, 0.0], [200.0], 0.0, [1.0, 50.0, 120.0, 200.0, 300.0], stiff=True, scale=[1.0, 0.01], loose=4, sens=False)
prob('rober', ['-p1*y1 + p2*y2*y3', 'p1*y1 - p2*y2*y3 - p3*y2*y2', 'p3*y2*y2'], [1.0, 0.0, 0.0], [0.04, 1.0e4, 3.0e7], 0.0,
     [0.4, 4.0, 40.0, 400.0, 4000.0], stiff=True, scale=[1.0, 1e-4, 1.0], loose=4, sens='y')
prob('hires', ['-p1*y1 + 0.43*y2 + 8.32*y3 + 0.0007', 'p1*y1 - 8.75*y2', '-10.03*y3 + 0.43*y4 + 0.035*y5', '8.32*y2 + p1*y3 - 1.12*y4',
     '-1.745*y5 + 0.43*y6 + 0.43*y7', '-p2*y6*y8 + 0.69*y4 + p1*y5 - 0.43*y6 + 0.69*y7', 'p2*y6*y8 - 1.81*y7', '-p2*y6*y8 + 1.81*y7'],
     [1.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0057], [1.71, 280.0], 0.0, [5.0, 50.0, 200.0, 300.0], stiff=True, loose=4, scale=[1, .1, .1, 1, .1, .1, .01, .01])
prob('brus', ['p1 + y1*y1*y2 - (p2 + 1.0)*y1', 'p2*y1 - y1*y1*y2'], [1.5, 3.0], [1.0, 3.0], 0.0, [1.0, 5.0, 12.0, 20.0])
prob('pend', ['y2', '-p1*y2 - p2*sin(y1) + p3*cos(p4*t)'], [0.5, 0.0], [0.3, 1.2, 0.4, 0.7], 0.0, [1.0, 5.0, 15.0, 30.0])
prob('nagumo', ['p1*(y1 - y1*y1*y1/3.0 - y2 + p2)', '(y1 + p3 - p4*y2)/p1'], [-1.0, 1.0], [8.0, 0.5, 0.7, 0.8], 0.0, [1.0, 10.0, 25.0, 40.0], loose=4)
prob('kepler', ['y3', 'y4', '-p1*y1/(y1*y1 + y2*y2)**1.5', '-p1*y2/(y1*y1 + y2*y2)**1.5'], [0.4, 0.0, 0.0, 2.0], [1.0], 0.0, [1.0, 3.0, 6.0, 9.0], loose=5)
prob('seir', ['-p1*(1.0 + p4*cos(0.5*t))*y1*y3', 'p1*(1.0 + p4*cos(0.5*t))*y1*y3 - p2*y2', 'p2*y2 - p3*y3'], [0.99, 0.0, 0.01], [1.5, 0.6, 0.4, 0.2], -1.0,
     [2.0, 8.0, 20.0, 40.0])
N = 16
prob('fisher', ['%s*p1*%d.0 + p2*y%d*(1.0 - y%d)' % ('(' + ('y%d' % (i - 1) if i > 1 else '1.0') + ' - 2.0*y%d + ' % i + ('y%d' % (i + 1) if i < N else '0.0') + ')',
     (N + 1) ** 2, i, i) for i in range(1, N + 1)], [0.0] * N, [0.5, 4.0], 0.0, [0.001, 0.05, 0.2, 1.0], stiff=True)
b = ' + '.join('exp(-((t - %.1f)*%.1f)**2)' % (c, w) for c, w in ((1.0, 30.0), (2.0, 60.0), (2.5, 15.0), (4.0, 40.0), (6.0, 10.0)))
prob('bursts', ['p1*(%s) - p2*y1' % b, '-p3*y1*y2 + p4*(1.0 - y2)'], [0.2, 0.8], [20.0, 2.0, 3.0, 0.5], 0.0, [0.5, 1.8, 3.0, 5.0, 8.0])
prob('sburst', ['-p1*(y1 - y2*y2)', 'p2*(%s) - p3*y2'  % b, '-p1*0.1*(y3*y3*y3 - y1*y1*y1 - 1.0)'], [0.04, 0.2, 1.0], [2000.0, 20.0, 2.0], 0.0, [0.5, 1.8, 3.0, 5.0, 8.0],
     stiff=True)
prob('lorenz', ['p1*(y2 - y1)', 'y1*(p2 - y3) - y2', 'y1*y2 - p3*y3'], [1.0, 1.0, 1.0], [10.0, 28.0, 2.6667], 0.0, [0.3, 1.0, 2.0, 3.0])
prob('back', ['-p1*y2*y3', 'p1*y1*y3', '-p2*y1*y2'], [0.0, 1.0, 1.0], [1.0, 0.51], 0.0, [-2.0, -5.0, -9.0, -12.0])
prob('oreg', ['p1*(y2 + y1*(1.0 - p2*y1 - y2))', '(y3 - (1.0 + y1)*y2)/p1', 'p3*(y1 - y3)'], [1.0, 2.0, 3.0], [77.27, 8.375e-6, 0.161], 0.0,
     [0.5, 10.0, 30.0, 100.0], stiff=True, loose=6, sens=False, scale=[1.0, 1.0, 1.0])
prob('hill', ['p1/(1.0 + (y3/p2)**4.0) - y1', 'p1/(1.0 + (y1/p2)**4.0) - y2', 'p1/(1.0 + (y2/p2)**4.0) - y3'], [0.1, 0.5, 1.0], [3.0, 0.8], 0.0, [1.0, 4.0, 10.0, 25.0])

def fexpr(e):
    e = re.sub(r'(?<![\w.])(\d+\.\d*(?:e-?\d+)?)', lambda m: m.group(1).replace('e', 'd') if 'e' in m.group(1) else m.group(1) + 'd0', e)
    return re.sub(r'\b([yp])(\d+)\b', r'\1(\2)', e)

def reference(q):
    n, m = len(q['y0']), len(q['p'])
    y = sp.symbols('y1:%d' % (n + 1)); p = sp.symbols('p1:%d' % (m + 1)); t = sp.Symbol('t')
    ns = {str(s): s for s in y + p}; ns.update(t=t)
    F = sp.Matrix([sp.sympify(e, locals=ns) for e in q['eqs']])
    JY, JP = F.jacobian(y), F.jacobian(p)
    f = sp.lambdify((t, y, p), list(F), 'math'); jy = sp.lambdify((t, y, p), JY.tolist(), 'math'); jp = sp.lambdify((t, y, p), JP.tolist(), 'math')
    pv = q['p']; k = n + m
    def rhs(tt, z):
        yy = z[:n]; S = z[n:].reshape(n, k)
        A = np.array(jy(tt, yy, pv), float); dS = A @ S
        dS[:, n:] += np.array(jp(tt, yy, pv), float)
        return np.concatenate([np.array(f(tt, yy, pv), float), dS.ravel()])
    z0 = np.concatenate([q['y0'], np.hstack([np.eye(n), np.zeros((n, m))]).ravel()])
    te = q['ts'][-1]
    out = []
    ms = max(abs(te - q['t0']) / 200, 0)
    def jac(tt, z):
        A = np.array(jy(tt, z[:n], pv), float)
        # only what Newton's method needs: block diagonal, exact for the states
        J = np.zeros((n + n * k, n + n * k)); J[:n, :n] = A
        for i in range(n):
            for l in range(n):
                J[n + i * k:n + (i + 1) * k, n + l * k:n + (l + 1) * k] = A[i, l] * np.eye(k)
        return J
    sc = np.array(q['scale'], float)
    at = np.concatenate([sc, (np.hstack([np.outer(sc, 1 / sc), np.outer(sc, 1 / np.abs(np.array(pv)))])).ravel()])
    res = []
    if q['stiff']:
        runs = [('Radau', 1e-9, jac), ('Radau', 3e-11, jac)]
    else:
        runs = [('DOP853', 1e-12, None), ('DOP853', 5e-14, None)]
    for meth, tol, j in runs:
        kw = dict(jac=j) if j else {}
        s = solve_ivp(rhs, (q['t0'], te), z0, method=meth, rtol=max(tol, 3e-14), atol=tol * at * 1e-2, t_eval=q['ts'],
                      **({} if 'exp' not in ''.join(q['eqs']) else dict(max_step=0.005)), **kw)
        assert s.success, (q['name'], s.message)
        res.append(s.y)
    d = np.abs(res[0] - res[1])
    # agreement of the two runs, per output: states, and sensitivities relative to the largest of a column
    dy = (d[:n] / (np.abs(res[1][:n]) + sc[:, None])).max()
    S = res[1][n:].reshape(n, k, -1); dS = d[n:].reshape(n, k, -1)
    col = np.abs(S / sc[:, None, None]).max(axis=(0, 2))
    ds = (dS / sc[:, None, None] / np.maximum(col, 1e-300)[None, :, None]).max()
    print('%-8s agreement %.1e %.1e' % (q['name'], dy, ds), flush=True)
    return q['name'], res[1], dy, ds

def num(v):
    return '%.17e' % v if v == v else None
def wrap(items, ind='       '):
    lines, cur = [], ''
    for it in items:
        if len(cur) + len(it) > 110:
            lines.append(cur); cur = ''
        cur += it + ', '
    lines.append(cur.rstrip(', '))
    return (' &\n' + ind).join(lines)

if __name__ == '__main__':
    with ProcessPoolExecutor(8) as ex:
        R = {r[0]: r for r in ex.map(reference, P)}
    o = ['    ! written by tools/mkstd.py: body of the right-hand side of standard problem SP', '    select case (SP)']
    for i, q in enumerate(P):
        o.append('    case (%d)      ! %s' % (i + 1, q['name']))
        for k, e in enumerate(q['eqs']):
            f = fexpr(e)
            o.append('       fy(%d) = ' % (k + 1) + re.sub(r'(.{90,110}?[+*]) ', r'\1 &\n            ', f))
    o.append('    end select')
    open(H + '/fzv_std.inc', 'w').write('\n'.join(o) + '\n')
    o = ['    ! written by tools/mkstd.py: data of standard problem SP', '    select case (SP)']
    for i, q in enumerate(P):
        n, m = len(q['y0']), len(q['p']); name, z, dy, ds = R[q['name']]
        print('%-8s n=%d m=%d  agreement states %.1e sensitivities %.1e' % (name, n, m, dy, ds))
        o.append('    case (%d)' % (i + 1))
        o.append("       sname = '%s'; sn = %d; sm = %d; sno = %d; sstiff = .%s.; sloose = %d; stight = %d; ssens = %d" % (
            name, n, m, len(q['ts']), str(q['stiff']).lower(), q['loose'], q['tight'], {True: 3, False: 0, 'y': 1}[q['sens']]))
        o.append('       st0 = %s' % num(q['t0']).replace('e', 'd'))
        def arr(nm, v, sl):
            o.append('       %s(%s) = [ &\n       %s]' % (nm, sl, wrap([num(float(x)).replace('e', 'd') for x in v])))
        arr('sy0', q['y0'], '1:%d' % n); arr('sp_', q['p'], '1:%d' % m); arr('sts', q['ts'], '1:%d' % len(q['ts'])); arr('sscl', q['scale'], '1:%d' % n)
        for oo in range(len(q['ts'])):
            arr('sy', z[:n, oo], '1:%d, %d' % (n, oo + 1))
            S = z[n:, oo].reshape(n, n + m)
            for j in range(n + m):
                arr('ss', S[:, j], '1:%d, %d, %d' % (n, j + 1, oo + 1))
    o.append('    end select')
    open(H + '/fzv_std_ref.inc', 'w').write('\n'.join(o) + '\n')
    print(len(P), 'problems')
