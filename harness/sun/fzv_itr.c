/* Monitor of the iterative linear solvers: every reported success against the true scaled and preconditioned residual, the
   number of iterations and the residual against the same method in extended precision, flags of failing callbacks,
   independence of earlier solves; and of the orthogonalisation and factorisation routines they are made of. */
#include "fzv_sun.h"
#include <nvector/nvector_pthreads.h>
#include <sunlinsol/sunlinsol_spgmr.h>
#include <sunlinsol/sunlinsol_spfgmr.h>
#include <sunlinsol/sunlinsol_spbcgs.h>
#include <sunlinsol/sunlinsol_sptfqmr.h>
#include <sunlinsol/sunlinsol_pcg.h>
#include <sundials/sundials_iterative.h>
#include "sundials_iterative_impl.h"
#define MX 24
enum { GMR, FGM, BCG, TFQ, PCG };
static const char *nam[] = { "gmres", "flexible gmres", "bicgstab", "tfqmr", "cg" };
static int n, kind, side, varp;             /* side: bit 0 left, bit 1 right */
static double A[MX][MX], P1[MX][MX], P2[MX][MX], s1[MX], s2[MX], x0[MX], bb[MX];
static LD At[MX][MX];                       /* s1 P1^-1 A P2^-1 s2^-1 */
/* callbacks */
static long n_at, n_ps; static int fail_at, fail_ps, fail_rc, bad_lr; static double want_delta;
static int datum;
static int atimes(void *d, N_Vector v, N_Vector z) {
  int i, j; const double *x = N_VGetArrayPointer(v); double *y = N_VGetArrayPointer(z);
  n_at++;
  if (d != &datum || v == z) bad_lr = 1;
  if (fail_at && n_at == fail_at) return fail_rc;
  for (i = 0; i < n; i++) { LD s = 0; for (j = 0; j < n; j++) s += (LD)A[i][j] * x[j]; y[i] = (double)s; }
  return 0;
}
static void fsub(double (*P)[MX], LD *r) { int i, j; for (i = 0; i < n; i++) { for (j = 0; j < i; j++) r[i] -= P[i][j] * r[j]; r[i] /= P[i][i]; } }
static void bsub(double (*P)[MX], LD *r) { int i, j; for (i = n - 1; i >= 0; i--) { for (j = i + 1; j < n; j++) r[i] -= P[j][i] * r[j]; r[i] /= P[i][i]; } }
static int psolve(void *d, N_Vector r, N_Vector z, realtype tol, int lr) {
  int i; LD t[MX]; const double *x = N_VGetArrayPointer(r); double *y = N_VGetArrayPointer(z);
  n_ps++;
  if (d != (void *)&fail_at || r == z || tol != want_delta) bad_lr = 2;
  if (kind == PCG) ; else if (lr == SUN_PREC_LEFT) { if (!(side & 1)) bad_lr = 3; } else if (lr == SUN_PREC_RIGHT) { if (!(side & 2)) bad_lr = 4; } else bad_lr = 5;
  if (fail_ps && n_ps == fail_ps) return fail_rc;
  for (i = 0; i < n; i++) t[i] = x[i];
  if (kind == PCG) { fsub(P1, t); bsub(P1, t); } else fsub(lr == SUN_PREC_LEFT ? P1 : P2, t);
  for (i = 0; i < n; i++) y[i] = (double)t[i] * (varp ? 1 + 0.3 * sin(i + 3. * n_ps) : 1);
  return 0;
}
static int n_set, set_rc; static int psetup(void *d) { n_set++; return d == (void *)&fail_at ? set_rc : -77; }
static LD nrm(const LD *v) { int i; LD s = 0; for (i = 0; i < n; i++) s += v[i] * v[i]; return sqrtl(s); }
static LD dot(const LD *v, const LD *w) { int i; LD s = 0; for (i = 0; i < n; i++) s += v[i] * w[i]; return s; }
static LD noise;                            /* rounding errors of products, made larger */
static void mul(const LD *v, LD *w) {
  int i, j;
  for (i = 0; i < n; i++) { LD t = 0; w[i] = 0; for (j = 0; j < n; j++) { w[i] += At[i][j] * v[j]; t += fabsl(At[i][j] * v[j]); } if (noise > 0) w[i] += noise * t * unif(-1, 1); }
}
/* s1 P1^-1 (b - A x) */
static void resid(const double *x, LD *r) {
  int i, j;
  for (i = 0; i < n; i++) { r[i] = bb[i]; for (j = 0; j < n; j++) r[i] -= (LD)A[i][j] * x[j]; }
  if (kind != PCG && kind != FGM && (side & 1)) fsub(P1, r);
  for (i = 0; i < n; i++) r[i] *= s1[i];
}
static void make(void) {
  int i, j, k, w = irnd(0, 3); double d; LD c[MX], y[MX];
  for (i = 0; i < n; i++) for (j = 0; j < n; j++) A[i][j] = w == 3 && abs(i - j) > 1 ? 0 : gauss() / sqrt(n);
  if (kind == PCG) {
    static double M[MX][MX]; memcpy(M, A, sizeof M); d = logu(-1, 0.5);
    for (i = 0; i < n; i++) for (j = 0; j < n; j++) { A[i][j] = i == j ? d : 0; for (k = 0; k < n; k++) A[i][j] += M[i][k] * M[j][k]; }
    for (i = 0; i < n; i++) for (j = 0; j < i; j++) A[j][i] = A[i][j];
  } else {
    d = unif(1.5, 4);
    for (i = 0; i < n; i++) for (j = 0; j < n; j++) A[i][j] = (i == j ? d * (w == 1 && i % 2 ? -1 : 1) : 0) + unif(0, 1) * A[i][j];
    if (w == 2) for (i = 0; i < n; i++) { double s = logu(-1, 1); for (j = 0; j < n; j++) A[i][j] *= s; }
  }
  for (i = 0; i < n; i++) for (j = 0; j < n; j++) {
    P1[i][j] = i == j ? logu(-0.5, 0.5) * (kind == PCG ? 1 : sgn()) : j < i && chance(0.3) ? 0.3 * gauss() / sqrt(n) : 0;
    P2[i][j] = i == j ? logu(-0.5, 0.5) * sgn() : j < i && chance(0.3) ? 0.3 * gauss() / sqrt(n) : 0;
  }
  for (j = 0; j < n; j++) {
    for (i = 0; i < n; i++) c[i] = i == j;
    if (kind != PCG) for (i = 0; i < n; i++) c[i] /= s2[i];
    if (kind != PCG && (side & 2)) fsub(P2, c);
    for (i = 0; i < n; i++) { y[i] = 0; for (k = 0; k < n; k++) y[i] += A[i][k] * c[k]; }
    if (kind != PCG && (side & 1) && kind != FGM) fsub(P1, y);
    for (i = 0; i < n; i++) At[i][j] = y[i] * (kind == PCG ? 1 : s1[i]);
  }
}
/* The methods in extended precision on At y = r: residual norms by iteration in hist[1..], how safe the comparison is in *safe */
static LD hist[600], hist0[600], tau0[600], dev[600];
static int ref_gmres(LD *r, int maxl, int restarts, LD delta, int *nh) {
  static LD V[MX + 2][MX], H[MX + 2][MX + 1], cs[MX + 1], sn[MX + 1], g[MX + 2], y[MX + 1]; int t, l, i, k, it = 0, j;
  for (t = 0; t <= restarts; t++) {
    LD beta = nrm(r);
    for (i = 0; i < n; i++) V[0][i] = r[i] / beta;
    g[0] = beta;
    for (l = 0; l < maxl; l++) {
      LD h, rr;
      mul(V[l], V[l + 1]);
      for (k = 0; k <= l; k++) H[k][l] = 0;
      for (j = 0; j < 2; j++) for (k = 0; k <= l; k++) { LD q = dot(V[k], V[l + 1]); H[k][l] += q; for (i = 0; i < n; i++) V[l + 1][i] -= q * V[k][i]; }
      h = nrm(V[l + 1]);
      if (l + 1 >= n) h = 0;
      for (i = 0; i < n; i++) V[l + 1][i] = h > 0 ? V[l + 1][i] / h : 0;
      for (k = 0; k < l; k++) { LD a = H[k][l], b = H[k + 1][l]; H[k][l] = cs[k] * a + sn[k] * b; H[k + 1][l] = -sn[k] * a + cs[k] * b; }
      rr = hypotl(H[l][l], h); cs[l] = H[l][l] / rr; sn[l] = h / rr; H[l][l] = rr; H[l + 1][l] = 0;
      g[l + 1] = -sn[l] * g[l]; g[l] *= cs[l];
      hist[++it] = fabsl(g[l + 1]);
      if (hist[it] <= delta) { *nh = it; return 1; }
    }
    for (k = maxl - 1; k >= 0; k--) { y[k] = g[k]; for (j = k + 1; j < maxl; j++) y[k] -= H[k][j] * y[j]; y[k] /= H[k][k]; }
    { LD xx[MX], w[MX]; for (i = 0; i < n; i++) { xx[i] = 0; for (k = 0; k < maxl; k++) xx[i] += y[k] * V[k][i]; } mul(xx, w); for (i = 0; i < n; i++) r[i] -= w[i]; }
  }
  *nh = it; return 0;
}
static int ref_bcg(LD *r, int maxl, LD delta, int *nh, LD *safe) {
  LD rs[MX], p[MX], q[MX], u[MX], ap[MX], rho, rho2, al, om, b; int i, l;
  for (i = 0; i < n; i++) rs[i] = p[i] = r[i];
  rho = dot(r, r);
  for (l = 1; l <= maxl; l++) {
    LD d; mul(p, ap); d = dot(ap, rs);
    *safe = fminl(*safe, fabsl(d) / (nrm(ap) * nrm(rs)));
    al = rho / d;
    for (i = 0; i < n; i++) q[i] = r[i] - al * ap[i];
    mul(q, u); d = dot(u, u); om = d > 0 ? dot(u, q) / d : 0;
    if (nrm(q) > 0) *safe = fminl(*safe, fabsl(dot(u, q)) / (nrm(u) * nrm(q)));
    for (i = 0; i < n; i++) r[i] = q[i] - om * u[i];
    hist[l] = nrm(r); *nh = l;
    if (hist[l] <= delta) return 1;
    rho2 = dot(r, rs); *safe = fminl(*safe, fabsl(rho2) / (hist[l] * nrm(rs)));
    b = rho2 / rho * (al / om); rho = rho2;
    for (i = 0; i < n; i++) p[i] = r[i] + b * (p[i] - om * ap[i]);
  }
  return 0;
}
static int ref_cg(LD *r, int pre, int maxl, LD delta, int *nh) {
  LD z[MX], p[MX], ap[MX], rz, rz2; int i, l;
  for (i = 0; i < n; i++) z[i] = r[i];
  if (pre) { fsub(P1, z); bsub(P1, z); }
  for (i = 0; i < n; i++) p[i] = z[i];
  rz = dot(r, z);
  for (l = 1; l <= maxl; l++) {
    LD al, w = 0; mul(p, ap); al = rz / dot(p, ap);
    for (i = 0; i < n; i++) { r[i] -= al * ap[i]; w += r[i] * r[i] * (LD)s1[i] * s1[i]; z[i] = r[i]; }
    hist[l] = sqrtl(w); *nh = l;
    if (hist[l] <= delta) return 1;
    if (pre) { fsub(P1, z); bsub(P1, z); }
    rz2 = dot(r, z);
    for (i = 0; i < n; i++) p[i] = z[i] + rz2 / rz * p[i];
    rz = rz2;
  }
  return 0;
}
/* half steps: residual norms in hist, quasi-residuals in tauh */
static LD tauh[600], RT0[MX];
static int ref_tfq(LD *r, int maxl, LD delta, int *nh, LD *safe) {
  LD rs[MX], u[MX], q[MX], v[MX], d[MX], x[MX], w[MX], t[MX], tau, th = 0, eta = 0, rho, sg, al, be, nr0, nr1; int i, l, m, j = 0;
  for (i = 0; i < n; i++) { rs[i] = u[i] = t[i] = r[i]; d[i] = x[i] = 0; }
  mul(r, v); tau = nr0 = nrm(r); rho = tau * tau;
  { LD p[MX]; for (i = 0; i < n; i++) p[i] = r[i];
  for (l = 1; l <= maxl; l++) {
    sg = dot(rs, v); *safe = fminl(*safe, fabsl(sg) / (nrm(rs) * nrm(v)));
    al = rho / sg;
    for (i = 0; i < n; i++) { q[i] = u[i] - al * v[i]; t[i] = u[i] + q[i]; }
    mul(t, w);
    for (i = 0; i < n; i++) r[i] -= al * w[i];
    nr1 = nrm(r);
    for (m = 0; m < 2; m++) {
      LD om = m == 0 ? sqrtl(nr0 * nr1) : nr1, c, rr[MX];
      for (i = 0; i < n; i++) d[i] = (m ? q[i] : u[i]) + th * th * eta / al * d[i];
      th = om / tau; c = 1 / sqrtl(1 + th * th); tau = tau * th * c; eta = c * c * al;
      for (i = 0; i < n; i++) x[i] += eta * d[i];
      mul(x, rr);
      for (i = 0; i < n; i++) rr[i] = RT0[i] - rr[i];
      j++; hist[j] = nrm(rr); tauh[j] = tau; *nh = j;
    }
    if (tau <= delta * 1e-3L) return 1;
    { LD rho2 = dot(rs, r); *safe = fminl(*safe, fabsl(rho2) / (nrm(rs) * nr1)); be = rho2 / rho; rho = rho2; }
    nr0 = nr1;
    for (i = 0; i < n; i++) { u[i] = r[i] + be * q[i]; p[i] = u[i] + be * (q[i] + be * p[i]); }
    mul(p, v);
  } }
  return 0;
}
static int reference(const LD *r0, int pre, int emaxl, int restarts, LD delta, int *nh, LD *safe) {
  LD rt[MX]; int i;
  *safe = 1; memcpy(rt, r0, sizeof rt);
  if (kind <= FGM) return ref_gmres(rt, emaxl < n ? emaxl : n, restarts, delta, nh);
  if (kind == TFQ) { memcpy(RT0, r0, sizeof RT0); return ref_tfq(rt, emaxl, delta, nh, safe); }
  if (kind == BCG) return ref_bcg(rt, emaxl, delta, nh, safe);
  for (i = 0; i < n; i++) rt[i] = r0[i] / s1[i];
  return ref_cg(rt, pre, emaxl, delta, nh);
}
static SUNLinearSolver mk(N_Vector v, int pt, int maxl) {
  return kind == GMR ? SUNLinSol_SPGMR(v, pt, maxl, sunctx_) : kind == FGM ? SUNLinSol_SPFGMR(v, pt, maxl, sunctx_) : kind == BCG ? SUNLinSol_SPBCGS(v, pt, maxl, sunctx_) :
    kind == TFQ ? SUNLinSol_SPTFQMR(v, pt, maxl, sunctx_) : SUNLinSol_PCG(v, pt, maxl, sunctx_);
}
static void solver(int k_) {
  N_Vector x, b, v1, v2; SUNLinearSolver S; int i, pt, maxl, emaxl, restarts = 0, rep, reps, rc, gs = SUN_MODIFIED_GS, scale, pre; long rw, iw;
  static const int ids[] = { SUNLINEARSOLVER_SPGMR, SUNLINEARSOLVER_SPFGMR, SUNLINEARSOLVER_SPBCGS, SUNLINEARSOLVER_SPTFQMR, SUNLINEARSOLVER_PCG };
  kind = k_; n = chance(0.15) ? irnd(1, 3) : irnd(2, MX); varp = 0; n_at = n_ps = 0; fail_at = fail_ps = 0; bad_lr = 0;
  x = chance(0.1) ? N_VNew_Pthreads(n, 2, sunctx_) : N_VNew_Serial(n, sunctx_); b = N_VClone(x); v1 = N_VClone(x); v2 = N_VClone(x);
  pt = irnd(0, 3);                              /* none left right both */
  maxl = chance(0.15) ? irnd(-1, 0) : irnd(1, n); emaxl = maxl <= 0 ? 5 : maxl;
  S = mk(x, pt, maxl);
  if (!S) { fail("create", "no solver"); return; }
  if (SUNLinSolGetType(S) != SUNLINEARSOLVER_ITERATIVE || SUNLinSolGetID(S) != ids[kind]) fail("create", "type or id");
  if (chance(0.3)) {                            /* settings afterwards */
    int p2 = irnd(0, 3);
    rc = kind == GMR ? SUNLinSol_SPGMRSetPrecType(S, p2) : kind == FGM ? SUNLinSol_SPFGMRSetPrecType(S, p2) : kind == BCG ? SUNLinSol_SPBCGSSetPrecType(S, p2) :
      kind == TFQ ? SUNLinSol_SPTFQMRSetPrecType(S, p2) : SUNLinSol_PCGSetPrecType(S, p2);
    if (rc) fail("set", "type of preconditioning %d refused with %d", p2, rc);
    pt = p2;
    rc = kind == GMR ? SUNLinSol_SPGMRSetPrecType(S, 4) : kind == FGM ? SUNLS_ILL_INPUT : kind == BCG ? SUNLinSol_SPBCGSSetPrecType(S, -1) :
      kind == TFQ ? SUNLinSol_SPTFQMRSetPrecType(S, 7) : SUNLinSol_PCGSetPrecType(S, 4);
    if (rc != SUNLS_ILL_INPUT) fail("set", "a type of preconditioning there is not gives %d", rc);
  }
  if (kind <= FGM) {
    if (chance(0.6)) { restarts = irnd(-2, 6); rc = kind == GMR ? SUNLinSol_SPGMRSetMaxRestarts(S, restarts) : SUNLinSol_SPFGMRSetMaxRestarts(S, restarts); if (rc) fail("set", "restarts"); if (restarts < 0) restarts = 0; }
    if (chance(0.5)) { gs = SUN_CLASSICAL_GS; rc = kind == GMR ? SUNLinSol_SPGMRSetGSType(S, gs) : SUNLinSol_SPFGMRSetGSType(S, gs); if (rc) fail("set", "orthogonalisation"); }
    if ((kind == GMR ? SUNLinSol_SPGMRSetGSType(S, 3) : SUNLinSol_SPFGMRSetGSType(S, 0)) != SUNLS_ILL_INPUT) fail("set", "an orthogonalisation there is not");
  } else if (chance(0.3)) {
    maxl = irnd(-1, n); emaxl = maxl <= 0 ? 5 : maxl;
    rc = kind == BCG ? SUNLinSol_SPBCGSSetMaxl(S, maxl) : kind == TFQ ? SUNLinSol_SPTFQMRSetMaxl(S, maxl) : SUNLinSol_PCGSetMaxl(S, maxl);
    if (rc) fail("set", "iterations");
  }
  pre = pt != 0;
  side = kind == FGM ? (pre ? 2 : 0) : kind == PCG ? (pre ? 1 : 0) : pt;
  scale = irnd(0, 3); if (kind == PCG) scale &= 1;
  for (i = 0; i < n; i++) { s1[i] = scale & 1 ? logu(-1, 1) : 1; s2[i] = scale & 2 ? logu(-1, 1) : 1; N_VGetArrayPointer(v1)[i] = s1[i]; N_VGetArrayPointer(v2)[i] = s2[i]; }
  adddesc("%s of size %d, preconditioning %d, %d iterations, %d restarts, scaling %d, gs %d", nam[kind], n, pt, emaxl, restarts, scale, gs);
  if (chance(0.1)) {                            /* nothing to multiply with */
    SUNLinSolInitialize(S);
    for (i = 0; i < n; i++) N_VGetArrayPointer(b)[i] = 1;
    rc = SUNLinSolSolve(S, NULL, x, b, 1e-3);
    if (rc >= 0) fail("missing", "a solve without operator returns %d", rc);
    SUNLinSolSetATimes(S, &datum, atimes);
    if (pre) { rc = SUNLinSolSolve(S, NULL, x, b, 1e-3); if (rc >= 0) fail("missing", "a solve without preconditioner returns %d", rc); }
    EV("missing parts");
  }
  if (SUNLinSolSetATimes(S, &datum, atimes)) fail("set", "operator");
  if ((pre || chance(0.3)) && SUNLinSolSetPreconditioner(S, (void *)&fail_at, psetup, psolve)) fail("set", "preconditioner");
  if (scale && SUNLinSolSetScalingVectors(S, scale & 1 ? v1 : NULL, scale & 2 ? v2 : NULL)) fail("set", "scaling");
  if (SUNLinSolInitialize(S)) fail("initialize", "failed");
  if (SUNLinSolSpace(S, &rw, &iw) || rw < 4 * n || iw < 4) fail("space", "%ld %ld", rw, iw);
  if (pre) {
    n_set = 0; set_rc = irnd(-1, 1); rc = SUNLinSolSetup(S, NULL);
    if (n_set != 1 || rc != (set_rc == 0 ? SUNLS_SUCCESS : set_rc < 0 ? SUNLS_PSET_FAIL_UNREC : SUNLS_PSET_FAIL_REC)) fail("setup", "setup returned %d after %d calls that returned %d", rc, n_set, set_rc);
    set_rc = 0; if (SUNLinSolSetup(S, NULL)) fail("setup", "failed");
  }
  reps = irnd(1, 4);
  for (rep = 0; rep < reps && !n_fail; rep++) {
    LD r0[MX], rt[MX], t; int zero, conv, nh = 0, nli, flag, maxit, again, comparable; double delta, xs[MX], rn; LD r0n, tn, safe = 1, xm = 0;
    make();
    zero = chance(0.5);
    for (i = 0; i < n; i++) { bb[i] = gauss() * (chance(0.1) ? 30 : 1); x0[i] = zero ? 0 : gauss(); }
    if (chance(0.05)) for (i = 0; i < n; i++) bb[i] = 0;
    resid(x0, r0); r0n = nrm(r0);
    delta = (double)(r0n * (chance(0.05) ? logu(0.01, 1) : logu(-7, -0.05)));
    if (r0n == 0) delta = 1e-9;
    varp = kind == FGM && pre && chance(0.3);
    adddesc("; rep %d zero %d delta %.2e r0 %.2Le", rep, zero, delta, r0n);
    want_delta = delta;
    maxit = emaxl * (kind <= FGM ? restarts + 1 : 1);
    for (i = 0; i < n; i++) { N_VGetArrayPointer(x)[i] = x0[i]; N_VGetArrayPointer(b)[i] = bb[i]; }
    if (zero && chance(0.7)) SUNLinSolSetZeroGuess(S, SUNTRUE);
    if (chance(0.2)) {                          /* a failing callback */
      int at = chance(0.5) || !pre, k = irnd(1, 12); fail_rc = sgn() * irnd(1, 3); n_at = n_ps = 0; bad_lr = 0;
      if (at) fail_at = k; else fail_ps = k;
      rc = SUNLinSolSolve(S, NULL, x, b, delta);
      if ((at && n_at >= k) || (!at && n_ps >= k)) {
        int w = at ? (fail_rc < 0 ? SUNLS_ATIMES_FAIL_UNREC : SUNLS_ATIMES_FAIL_REC) : (fail_rc < 0 ? SUNLS_PSOLVE_FAIL_UNREC : SUNLS_PSOLVE_FAIL_REC);
        if (rc != w || SUNLinSolLastFlag(S) != w) fail("failing callback", "the %s callback returned %d in call %d; the solve returned %d (flag %ld), expected %d", at ? "operator" : "preconditioner", fail_rc, k, rc, (long)SUNLinSolLastFlag(S), w);
        if ((at && n_at > k) || (!at && n_ps > k)) fail("failing callback", "called again after its failure");
        EV("failed callbacks");
      }
      fail_at = fail_ps = 0;
      for (i = 0; i < n; i++) N_VGetArrayPointer(x)[i] = x0[i];
      if (zero && chance(0.7)) SUNLinSolSetZeroGuess(S, SUNTRUE);
    }
    n_at = n_ps = 0; bad_lr = 0;
    if ((kind == BCG || kind == TFQ) && (side & 2)) {   /* only from zero, which must have been said */
      SUNLinSolSetZeroGuess(S, SUNFALSE);
      rc = SUNLinSolSolve(S, NULL, x, b, delta);
      if (rc != SUNLS_ILL_INPUT) fail("start", "a start that is not zero with a preconditioner on the right gives %d", rc);
      if (!zero) { for (i = 0; i < n; i++) x0[i] = N_VGetArrayPointer(x)[i] = 0; zero = 1; resid(x0, r0); r0n = nrm(r0); t = 1e-9L * r0n; }
      SUNLinSolSetZeroGuess(S, SUNTRUE);
      n_at = n_ps = 0;
    }
    rc = SUNLinSolSolve(S, NULL, x, b, delta);
    nli = SUNLinSolNumIters(S); rn = SUNLinSolResNorm(S); flag = (int)SUNLinSolLastFlag(S);
    for (i = 0; i < n; i++) { xs[i] = N_VGetArrayPointer(x)[i]; xm = fmaxl(xm, fabsl((LD)xs[i])); if (!same(N_VGetArrayPointer(b)[i], bb[i])) { fail("b", "the right-hand side changed at %d", i); break; } }
    for (i = 0; i < n; i++) if (!same(N_VGetArrayPointer(v1)[i], s1[i]) || !same(N_VGetArrayPointer(v2)[i], s2[i])) { fail("scaling", "a scaling vector changed"); break; }
    if (bad_lr) fail("callback", "wrong arguments for a callback (%d)", bad_lr);
    if (flag != rc) fail("flag", "returned %d but the last flag is %d", rc, flag);
    if (nli < 0 || nli > maxit) fail("iterations", "%d iterations, at most %d", nli, maxit);
    if (n_at > (kind == BCG ? 2 : kind == TFQ ? 4 : 1) * nli + (kind == TFQ ? 3 : 2)) fail("work", "%ld products in %d iterations", n_at, nli);
    sigmix(rc); sigmix(nli); sigd(rn);
    resid(xs, rt); tn = nrm(rt); t = 1e-9L * r0n;
    if (r0n <= delta * (1 - 1e-12L)) {
      if (rc || nli) fail("start", "the start is good enough (%.6Lg) but %d after %d iterations", r0n, rc, nli);
      for (i = 0; i < n; i++) if (xs[i] != x0[i]) { fail("start", "the start is good enough but x changed"); break; }
      EV("good starts"); continue;
    }
    if (r0n <= delta * (1 + 1e-12L)) continue;
    EV(nam[kind]);
    if (varp) {
      if (rc == SUNLS_SUCCESS) { if (!within("true residual", tn - delta, 1e-6L * delta + t)) fail("residual", "success with residual %.6Lg, not %.6g", tn, delta); EV("variable preconditioners"); }
      else if (rc == SUNLS_RES_REDUCED) { if (!(tn < r0n * (1 + 1e-6L))) fail("residual", "reduced to %.6Lg from %.6Lg", tn, r0n); }
      else if (rc != SUNLS_CONV_FAIL && n > 1) fail("flag", "returned %d", rc);
      if (rc >= 0 && rc <= 1 && fabsl(tn - rn) > 1e-6L * tn + t) fail("resnorm", "reported residual %.6g, true one %.6Lg", rn, tn);
      continue;
    }
    /* the reference, and how far small changes of the problem move it */
    comparable = 1;
    {
      int rep2, i2, k, nh2; LD s2_, rp[MX];
      conv = reference(r0, pre, emaxl, restarts, delta, &nh, &safe);
      for (k = 0; k <= nh; k++) { hist0[k] = hist[k]; tau0[k] = tauh[k]; dev[k] = 0; }
      noise = gs == SUN_CLASSICAL_GS ? 2e-12L : 2e-15L;
      for (rep2 = 0; rep2 < 4; rep2++) {
        for (i2 = 0; i2 < n; i2++) rp[i2] = r0[i2] * (1 + noise * unif(-1, 1));
        for (k = 0; k <= nh; k++) hist[k] = -1;
        reference(rp, pre, emaxl, restarts, delta * 1e-3L, &nh2, &s2_);
        for (k = 1; k <= nh; k++) dev[k] = hist[k] < 0 ? hist0[k] : fmaxl(dev[k], fmaxl(fabsl(hist[k] - hist0[k]), kind == TFQ ? fabsl(tauh[k] - tau0[k]) : 0));
      }
      noise = 0;
      for (k = 0; k <= nh; k++) { hist[k] = hist0[k]; tauh[k] = tau0[k]; if (dev[k] > (kind >= BCG ? 1e-9L : gs == SUN_CLASSICAL_GS ? 1e-7L : 1) * r0n) comparable = 0; }
      if (safe < 0.03L || (kind <= FGM && gs == SUN_CLASSICAL_GS && nh > 7 && emaxl > 7)) comparable = 0;
    }
    hist[0] = r0n;
    if (kind == TFQ) {
      /* it may stop when its estimate or the residual is small, and must when both are */
      if (rc == SUNLS_SUCCESS) { if (!(tn <= delta * 10 * sqrtl(2 * nli + 1) + t)) fail("residual", "success with residual %.6Lg, not %.6g, after %d iterations", tn, delta, nli); }
      else if (rc == SUNLS_RES_REDUCED) { if (!(tn < r0n * (1 + 1e-6L)) || nli != maxit) fail("residual", "reduced to %.6Lg from %.6Lg", tn, r0n); }
      else if (rc != SUNLS_CONV_FAIL) fail("flag", "returned %d", rc);
      if (nli == 0) fail("iterations", "none");
      if (comparable) {
        int j, may = 0, must = 0, ok = 0; LD tol = 0;
        for (j = 1; j <= nh && !must; j++) {
          LD e = 5000 * dev[j] + 1e-10L * r0n; tol = fmaxl(tol, e);
          if (!may && (hist[j] <= delta + tol || tauh[j] <= delta + tol)) may = j;
          if (hist[j] <= delta - tol || tauh[j] * sqrtl(2) <= delta - tol) must = j;
        }
        if (rc == SUNLS_SUCCESS && (!may || nli < (may + 1) / 2)) fail("iterations", "stopped after %d iterations; residual and estimate are small after %d half steps (0: never)", nli, may);
        if (must && nli > (must + 1) / 2) fail("iterations", "stopped after %d iterations; residual or estimate were small after %d half steps", nli, must);
        if (must && rc != SUNLS_SUCCESS) fail("flag", "returned %d; residual or estimate were small after %d half steps", rc, must);
        if (rc != SUNLS_CONV_FAIL) for (j = 2 * nli - 1; j <= 2 * nli && j <= nh; j++) if (within("tfqmr residual", fabsl(tn - hist[j]), tol + 1e-7L * hist[j])) ok = 1;
        if (rc != SUNLS_CONV_FAIL && !ok) fail("residual", "residual %.10Lg after %d iterations, the method gives %.10Lg and %.10Lg", tn, nli, hist[2 * nli - 1], hist[2 * nli]);
        if (rc == SUNLS_RES_REDUCED && fabsl(rn - tn) > 1e-6L * tn + tol) fail("resnorm", "reported residual %.6g, true one %.6Lg", rn, tn);
        EV("compared with reference");
      }
    } else if (comparable) {
      /* the number of iterations, unless a comparison with delta was close */
      int k, close = 0; LD tol = 0;
      for (k = 1; k <= nh; k++) { tol = fmaxl(tol, 1000 * dev[k]); if (fabsl(hist[k] - delta) <= 1000 * dev[k] + 1e-6L * delta + 1e-11L * r0n) close = 1; }
      tol += 1e-10L * r0n;
      if (!close) {
        LD rk;
        if (nli != nh) fail("iterations", "%d iterations, the method needs %d (residuals %.6Lg %.6Lg)", nli, nh, hist[nh - 1], hist[nh]);
        if (conv ? rc != SUNLS_SUCCESS : (hist[nh] < r0n - tol ? rc != SUNLS_RES_REDUCED : hist[nh] > r0n + tol ? rc != SUNLS_CONV_FAIL : (rc != SUNLS_CONV_FAIL && rc != SUNLS_RES_REDUCED)))
          fail("flag", "returned %d; the residual is %.8Lg, it was %.8Lg", rc, hist[nh], r0n);
        rk = hist[nh];
        if (!within("resnorm", fabsl(rn - rk), tol + 1e-7L * rk)) fail("resnorm", "reported residual %.10g, the method gives %.10Lg", rn, rk);
        if (rc >= 0 && rc != SUNLS_CONV_FAIL && !within("true residual", fabsl(tn - rk), tol + 1e-7L * rk)) fail("residual", "residual %.10Lg, the method gives %.10Lg (reported %.10g)", tn, rk, rn);
        EV("compared with reference");
      }
    }
    if (kind != TFQ && rc == SUNLS_SUCCESS && !within("true residual", tn - delta, 1e-5L * delta + (kind <= FGM ? gs == SUN_CLASSICAL_GS ? 1e-3L : 1e-8L : 1e-8L / fmaxl(safe, 1e-4L)) * r0n)) fail("residual", "success with residual %.6Lg, not %.6g", tn, delta);
    if (kind != TFQ && rc == SUNLS_RES_REDUCED && !(tn < r0n * (1 + 1e-6L) && nli == maxit)) fail("residual", "reduced to %.6Lg from %.6Lg after %d iterations", tn, r0n, nli);
    EV(rc == 0 ? "successes" : rc > 0 ? "not converged" : "unsuccessful");
    /* the same again: nothing of earlier solves may matter */
    for (again = irnd(0, 1); again > 0 && !n_fail; again--) {
      SUNLinearSolver T = chance(0.5) ? mk(x, pt, maxl) : S; int rc2;
      if (T != S) {
        if (kind == GMR) { SUNLinSol_SPGMRSetMaxRestarts(T, restarts); SUNLinSol_SPGMRSetGSType(T, gs); }
        if (kind == FGM) { SUNLinSol_SPFGMRSetMaxRestarts(T, restarts); SUNLinSol_SPFGMRSetGSType(T, gs); }
        SUNLinSolSetATimes(T, &datum, atimes); SUNLinSolSetPreconditioner(T, (void *)&fail_at, psetup, psolve);
        SUNLinSolSetScalingVectors(T, scale & 1 ? v1 : NULL, scale & 2 ? v2 : NULL); SUNLinSolInitialize(T);
      }
      for (i = 0; i < n; i++) { N_VGetArrayPointer(x)[i] = x0[i]; N_VGetArrayPointer(b)[i] = bb[i]; }
      if (zero) SUNLinSolSetZeroGuess(T, (kind == BCG || kind == TFQ) && (side & 2) ? SUNTRUE : irnd(0, 1));
      rc2 = SUNLinSolSolve(T, NULL, x, b, delta);
      if (rc2 != rc || SUNLinSolNumIters(T) != nli) fail("again", "the same solve again: %d after %d iterations, first %d after %d", rc2, SUNLinSolNumIters(T), rc, nli);
      if (rc2 >= 0) for (i = 0; i < n; i++) if (fabs(N_VGetArrayPointer(x)[i] - xs[i]) > 1e-10 * (fabs(xs[i]) + (double)xm + (double)r0n)) { fail("again", "the same solve again gives another x"); break; }
      if (T != S) SUNLinSolFree(T);
      EV("solves repeated");
    }
  }
  SUNLinSolFree(S); N_VDestroy(x); N_VDestroy(b); N_VDestroy(v1); N_VDestroy(v2);
}
/* ---- the parts they are made of ---- */
static N_Vector V[MX + 2]; static double Vc[MX + 2][MX];
static double vdot(const double *a, const double *b) { int i; LD s = 0; for (i = 0; i < n; i++) s += (LD)a[i] * b[i]; return (double)s; }
static void parts(void) {
  int i, j, k, p, w; double nn;
  n = irnd(2, MX);
  for (k = 0; k < MX + 2; k++) V[k] = N_VNew_Serial(n, sunctx_);
  w = irnd(0, 3);
  if (w == 0) {                                 /* one step of Gram-Schmidt */
    double hs[MX + 2][MX + 2], *h[MX + 2], st[MX + 2]; N_Vector vt[MX + 2]; int cl = chance(0.5), i0; double in[MX], nin;
    k = irnd(1, n - 1); p = chance(0.5) ? k + irnd(0, 3) : irnd(1, k); i0 = k - p > 0 ? k - p : 0;
    adddesc("%s Gram-Schmidt, vector %d, against the last %d, length %d", cl ? "classical" : "modified", k, p, n);
    for (i = 0; i < MX + 2; i++) { h[i] = hs[i]; for (j = 0; j < MX + 2; j++) hs[i][j] = 123; }
    for (j = 0; j <= k; j++) { double *v = N_VGetArrayPointer(V[j]); int m, l;
      for (i = 0; i < n; i++) v[i] = gauss();
      if (j < k) { for (l = 0; l < 2; l++) for (m = 0; m < j; m++) { double d = vdot(v, N_VGetArrayPointer(V[m])); for (i = 0; i < n; i++) v[i] -= d * N_VGetArrayPointer(V[m])[i]; }
        nn = sqrt(vdot(v, v)); for (i = 0; i < n; i++) v[i] /= nn; } }
    if (chance(0.4)) {                          /* nearly in the span: must be orthogonalised again */
      double *v = N_VGetArrayPointer(V[k]), s = logu(-9, -2); int m;
      for (i = 0; i < n; i++) v[i] *= s;
      for (m = 0; m < k; m++) { double c = gauss(); for (i = 0; i < n; i++) v[i] += c * N_VGetArrayPointer(V[m])[i]; }
    }
    for (j = 0; j <= k; j++) memcpy(Vc[j], N_VGetArrayPointer(V[j]), n * sizeof(double));
    memcpy(in, Vc[k], sizeof in); nin = sqrt(vdot(in, in));
    nn = -1;
    if (cl ? SUNClassicalGS(V, h, k, p, &nn, st, vt) : SUNModifiedGS(V, h, k, p, &nn)) fail("gs", "failed");
    for (j = 0; j < k; j++) if (memcmp(Vc[j], N_VGetArrayPointer(V[j]), n * sizeof(double))) { fail("gs", "vector %d changed", j); break; }
    for (i = 0; i < n; i++) { LD s = N_VGetArrayPointer(V[k])[i]; for (j = i0; j < k; j++) s += (LD)hs[j][k - 1] * Vc[j][i]; if (!within("gs sum", fabsl(s - in[i]), 60 * EPS * nin * k)) { fail("gs", "the vector is not the sum of its parts: %.17Lg, not %.17g", s, in[i]); break; } }
    for (j = i0; j < k && !n_fail; j++) if (!within("gs orthogonal", fabs(vdot(Vc[j], N_VGetArrayPointer(V[k]))), 1e3 * EPS * (nn * 10 + EPS * nin) + 4e-16 * nin * (k - i0 + 2))) fail("gs", "not orthogonal to vector %d: %.3g, norm %.3g of %.3g", j, vdot(Vc[j], N_VGetArrayPointer(V[k])), nn, nin);
    for (j = 0; j < i0; j++) if (hs[j][k - 1] != 123) { fail("gs", "coefficient %d of a vector that takes no part is set", j); break; }
    if (!within("gs norm", fabs(nn - sqrt(vdot(N_VGetArrayPointer(V[k]), N_VGetArrayPointer(V[k])))), 1e-6 * nn + 1e-14 * nin)) fail("gs", "norm %.17g, not %.17g", nn, sqrt(vdot(N_VGetArrayPointer(V[k]), N_VGetArrayPointer(V[k]))));
    sigd(nn); EV("gram-schmidt steps");
  } else if (w == 1) {                          /* QR of a Hessenberg matrix, at once or column by column */
    double hs[MX + 2][MX + 2], h0[MX + 2][MX + 2], *h[MX + 2], q[2 * MX + 4], b[MX + 2], b0[MX + 2]; int once = chance(0.5), sing = 0, rc = 0; LD r[MX + 2], g[MX + 2];
    adddesc("QR of a Hessenberg matrix of %d columns, %s", n, once ? "at once" : "column by column");
    for (i = 0; i <= n; i++) { h[i] = hs[i]; for (j = 0; j < n; j++) hs[i][j] = i <= j + 1 ? (chance(0.1) ? 0 : gauss()) : 0; }
    for (j = 0; j < n; j++) if (hs[j][j] == 0 || n > 0) hs[j][j] += 3 * (hs[j][j] < 0 ? -1 : 1);
    if (chance(0.1)) { sing = irnd(1, n); for (i = 0; i <= n; i++) hs[i][sing - 1] = 0; }
    memcpy(h0, hs, sizeof hs);
    if (once) rc = SUNQRfact(n, h, q, 0); else for (k = 1; k <= n; k++) { int r1 = SUNQRfact(k, h, q, k - 1); if (r1) rc = r1; }
    if (sing ? rc < sing : rc != 0) fail("qr", "factorisation returned %d; column %d is zero", rc, sing);
    for (i = 0; i <= n; i++) b0[i] = b[i] = gauss();
    /* the rotations applied to the columns give the triangle */
    for (j = 0; j < n && !n_fail; j++) {
      double cn = 0; for (i = 0; i <= n; i++) { r[i] = h0[i][j]; cn += fabs(h0[i][j]); }
      for (k = 0; k < n; k++) { LD a = r[k], c = r[k + 1]; r[k] = q[2 * k] * a - q[2 * k + 1] * c; r[k + 1] = q[2 * k + 1] * a + q[2 * k] * c; }
      for (i = 0; i <= n; i++) if (!within("qr", fabsl(r[i] - (i <= j ? hs[i][j] : 0)), 20 * EPS * n * cn + 1e-300L)) { fail("qr", "column %d row %d is %.17Lg after the rotations, the triangle has %.17g", j, i, r[i], i <= j ? hs[i][j] : 0.); break; }
    }
    for (k = 0; k < n; k++) if (fabs(q[2 * k] * q[2 * k] + q[2 * k + 1] * q[2 * k + 1] - 1) > 8 * EPS) { fail("qr", "rotation %d is none", k); break; }
    if (!rc) {
      LD hn = 0;
      if (SUNQRsol(n, h, q, b)) fail("qr", "solve failed");
      for (i = 0; i <= n; i++) { r[i] = b0[i]; for (j = 0; j < n; j++) { r[i] -= (LD)h0[i][j] * b[j]; hn = fmaxl(hn, fabsl(h0[i][j] * (LD)b[j])); } }
      for (j = 0; j < n && !n_fail; j++) { LD cs = 0; g[j] = 0; for (i = 0; i <= n; i++) { g[j] += h0[i][j] * r[i]; cs += fabsl(h0[i][j]); } if (!within("qr least squares", fabsl(g[j]), 200 * EPS * n * cs * (hn + 10))) fail("qr", "residual not orthogonal to column %d: %.3Lg", j, g[j]); }
      EV("least squares");
    } else if (SUNQRsol(n, h, q, b) < 1) fail("qr", "the solve with a zero pivot succeeds");
    sigd(b[0]); EV("hessenberg factorisations");
  } else {                                      /* one column more for Q R */
    static const char *nm[] = { "mgs", "icwy", "icwy, one reduction", "cgs2", "dcgs2", "dcgs2, one reduction" };
    struct _SUNQRData d; int t = irnd(0, 5), mm = irnd(1, n < 10 ? n : 10), m; double *R = malloc(sizeof(double) * mm * mm), *df = malloc(sizeof(double) * mm * n); N_Vector f = N_VNew_Serial(n, sunctx_);
    adddesc("QR of %d columns of length %d by %s", mm, n, nm[t]);
    d.vtemp = N_VNew_Serial(n, sunctx_); d.vtemp2 = N_VNew_Serial(n, sunctx_); d.temp_array = malloc(sizeof(double) * (mm * mm + 2 * mm));
    for (i = 0; i < mm * mm; i++) R[i] = 77;
    for (m = 0; m < mm && !n_fail; m++) {
      double dn; int rc;
      for (i = 0; i < n; i++) N_VGetArrayPointer(f)[i] = gauss() + (m && chance(0.5) ? 3 * df[(m - 1) * n + i] : 0);
      memcpy(df + m * n, N_VGetArrayPointer(f), n * sizeof(double));
      rc = t == 0 ? SUNQRAdd_MGS(V, R, f, m, mm, &d) : t == 1 ? SUNQRAdd_ICWY(V, R, f, m, mm, &d) : t == 2 ? SUNQRAdd_ICWY_SB(V, R, f, m, mm, &d) :
        t == 3 ? SUNQRAdd_CGS2(V, R, f, m, mm, &d) : t == 4 ? SUNQRAdd_DCGS2(V, R, f, m, mm, &d) : SUNQRAdd_DCGS2_SB(V, R, f, m, mm, &d);
      if (rc) fail("qradd", "returned %d", rc);
      for (k = 0; k <= m && !n_fail; k++) {
        double amp = 0; for (j = 0; j <= m; j++) amp = fmax(amp, R[j * mm + j] > 0 ? sqrt(vdot(df + j * n, df + j * n)) / R[j * mm + j] : 1e30);
        for (j = 0; j <= k; j++) { double v = vdot(N_VGetArrayPointer(V[j]), N_VGetArrayPointer(V[k])) - (j == k); if (!within("qradd orthogonal", fabs(v), 1e-13 * amp * amp * (m + 1) * n)) { fail("qradd", "columns %d and %d: %.3g", j, k, v); break; } }
        dn = sqrt(vdot(df + k * n, df + k * n));
        for (i = 0; i < n; i++) { LD s = 0; for (j = 0; j <= k; j++) s += (LD)R[k * mm + j] * N_VGetArrayPointer(V[j])[i]; if (!within("qradd product", fabsl(s - df[k * n + i]), 1e-14 * n * (m + 1) * dn * amp * amp)) { fail("qradd", "Q R differs from column %d: %.17Lg, not %.17g", k, s, df[k * n + i]); break; } }
      }
      if (memcmp(df + m * n, N_VGetArrayPointer(f), n * sizeof(double))) fail("qradd", "the new column changed");
    }
    sigd(R[0]); sigmix(t); EV("QR columns added");
    free(R); free(df); free(d.temp_array); N_VDestroy(f); N_VDestroy(d.vtemp); N_VDestroy(d.vtemp2);
  }
  for (k = 0; k < MX + 2; k++) N_VDestroy(V[k]);
}
static void one_case(const char *mode, long ic, int arg) {
  (void)mode; (void)ic;
  if (arg <= PCG) solver(arg); else parts();
}
