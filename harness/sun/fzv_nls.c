/* Monitor of the nonlinear solver objects (Newton, fixed point with Anderson acceleration), plain and for vectors of
   vectors: every call made of the user's functions is logged with what went in and out, and the log is replayed. */
#include "fzv_sun.h"
#include <nvector/nvector_serial.h>
#include <sundials/sundials_nonlinearsolver.h>
#include <sundials/sundials_nvector_senswrapper.h>
#include <sunnonlinsol/sunnonlinsol_newton.h>
#include <sunnonlinsol/sunnonlinsol_fixedpoint.h>
#define NV 8
#define NT 24
#define MAXL 400
typedef struct { int type, ret, jbad, jcur, ok, cur; double y[NT], d[NT], tol; } LE;   /* S system, U setup, L solve, C test */
static LE lg[MAXL], lg1[MAXL]; static int nl_;
static int n_, cnt_, nt_, newton_, m_, maxit_, fused_;
static double A_[NT][NT], b_[NT], cc_[NT], c0_, noise_, J_[NT][NT], ylast[NT], w_[NT], tol_, beta_, y0_[NT];
static int fat_[4], fret_[4], calls_[4], ctmode_, ctlen_, lazy_; static int tag_, ctag_;
static SUNNonlinearSolver cur_;
static void get(N_Vector v, double *a) { int i, k; for (k = 0; k < cnt_; k++) { double *p = N_VGetArrayPointer(tag_ == 2 ? NV_VEC_SW(v, k) : v); for (i = 0; i < n_; i++) a[k * n_ + i] = p[i]; } }
static void put(N_Vector v, const double *a) { int i, k; for (k = 0; k < cnt_; k++) { double *p = N_VGetArrayPointer(tag_ == 2 ? NV_VEC_SW(v, k) : v); for (i = 0; i < n_; i++) p[i] = a[k * n_ + i]; } }
static LE *logit(int type) { static LE spare; LE *e = nl_ < MAXL ? lg + nl_++ : &spare; memset(e, 0, sizeof *e); e->type = type; e->ok = 1; return e; }
static int injected(int k) { return ++calls_[k] == fat_[k] ? fret_[k] : 0; }
static int sys(N_Vector y, N_Vector F, void *mem) {
  LE *e = logit('S'); int i, j; double f[NT];
  e->ok = mem == (void *)&tag_ && y != F; get(y, e->y); memcpy(ylast, e->y, sizeof ylast);
  for (i = 0; i < nt_; i++) { double s = newton_ ? -b_[i] : b_[i]; for (j = 0; j < nt_; j++) s += A_[i][j] * (c0_ * sin(e->y[j]) + (1 - c0_) * e->y[j]); f[i] = newton_ ? s + cc_[i] * e->y[i] : s; }
  e->ret = injected(0);
  if (e->ret && chance(0.5)) for (i = 0; i < nt_; i++) f[i] = NAN;
  put(F, f); memcpy(e->d, f, sizeof f); return e->ret;
}
static int lsetup(booleantype jbad, booleantype *jcur, void *mem) {
  LE *e = logit('U'); int i, j;
  e->ok = mem == (void *)&tag_; e->jbad = jbad != 0; e->ret = injected(1);
  if (!jbad && lazy_) *jcur = SUNFALSE;
  else { *jcur = SUNTRUE; for (i = 0; i < nt_; i++) for (j = 0; j < nt_; j++) J_[i][j] = A_[i][j] * (c0_ * cos(ylast[j]) + 1 - c0_) + (i == j ? cc_[i] * (1 + noise_) : 0); }
  e->jcur = *jcur; return e->ret;
}
static int lsolve(N_Vector b, void *mem) {
  LE *e = logit('L'); double M[NT][NT + 1]; int i, j, k;
  e->ok = mem == (void *)&tag_; get(b, e->y);
  for (i = 0; i < nt_; i++) { for (j = 0; j < nt_; j++) M[i][j] = J_[i][j]; M[i][nt_] = e->y[i]; }
  for (k = 0; k < nt_; k++) { int p = k; for (i = k; i < nt_; i++) if (fabs(M[i][k]) > fabs(M[p][k])) p = i; for (j = k; j <= nt_; j++) { double t = M[k][j]; M[k][j] = M[p][j]; M[p][j] = t; } for (i = k + 1; i < nt_; i++) { double f = M[i][k] / M[k][k]; for (j = k; j <= nt_; j++) M[i][j] -= f * M[k][j]; } }
  for (i = nt_ - 1; i >= 0; i--) { double s = M[i][nt_]; for (j = i + 1; j < nt_; j++) s -= M[i][j] * e->d[j]; e->d[i] = s / M[i][i]; }
  e->ret = injected(2); put(b, e->d); return e->ret;
}
static double wrms(const double *v) { double s = 0; int i; for (i = 0; i < nt_; i++) s += v[i] * w_[i] * v[i] * w_[i]; return sqrt(s / nt_); }
static int ctest(SUNNonlinearSolver S, N_Vector y, N_Vector del, realtype tol, N_Vector ewt, void *data) {
  LE *e = logit('C'); double w[NT]; int i, k = ++calls_[3];
  get(y, e->y); get(del, e->d); get(ewt, w); e->tol = tol;
  e->ok = S == cur_ && data == (void *)&ctag_ && !memcmp(w, w_, sizeof(double) * nt_) && tol == tol_;
  e->cur = -1; if (SUNNonlinSolGetCurIter(S, &e->cur)) e->ok = 0;
  (void)i;
  if (k == fat_[3]) return e->ret = fret_[3];
  if (ctmode_ == 1) return e->ret = k >= ctlen_ ? SUN_NLS_SUCCESS : SUN_NLS_CONTINUE;
  return e->ret = wrms(e->d) <= tol ? SUN_NLS_SUCCESS : SUN_NLS_CONTINUE;
}
static int near(const double *a, const double *b, double ulp) { int i; double s = 0; for (i = 0; i < nt_; i++) s = fmax(s, fmax(fabs(a[i]), fabs(b[i]))); for (i = 0; i < nt_; i++) if (!(fabs(a[i] - b[i]) <= ulp * EPS * fmax(fabs(a[i]), 0) + (ulp > 2 ? ulp * EPS * s : 0)) && !same(a[i], b[i])) return 0; return 1; }
static int jc_;   /* whether the Jacobian is current, -1 unknown */
static LE *want(int *pos, int type) {
  LE *e = lg + *pos;
  if (*pos >= nl_) { if (!n_fail) fail("calls", "call %d: %c was due, but the solver returned", *pos, type); return NULL; }
  if (e->type != type) { if (!n_fail) fail("calls", "call %d: %c was due, %c was made", *pos, type, e->type); return NULL; }
  if (!e->ok) { if (!n_fail) fail("arguments", "call %d (%c): wrong object, data, weights or tolerance", *pos, type); return NULL; }
  ++*pos; EV("calls judged"); return e;
}
static int replay_newton(double *y, int setup, int hasU, int *r, long *nit, long *ncf) {
  int pos = 0, jbad = 0, it; LE *e; double F[NT], neg[NT]; int i;
  *nit = *ncf = 0;
  for (;;) {
    if (!(e = want(&pos, 'S'))) return 0;
    if (!near(e->y, y, 1)) { fail("iterate", "call %d: the system is evaluated at %.17g.. instead of %.17g..", pos - 1, e->y[0], y[0]); return 0; }
    memcpy(F, e->d, sizeof F); *r = e->ret;
    if (!*r && setup) { if (!(e = want(&pos, 'U'))) return 0; if (e->jbad != jbad) { fail("setup", "call %d: told that the Jacobian is %s", pos - 1, e->jbad ? "bad" : "good"); return 0; } jc_ = e->jcur; *r = e->ret; EV("setups judged"); }
    if (*r) { ++*ncf; if (pos != nl_) { fail("calls", "%d calls after failure %d", nl_ - pos, *r); return 0; } return 1; }
    for (it = 0; !*r; ) {
      ++*nit;
      if (!(e = want(&pos, 'L'))) return 0;
      for (i = 0; i < nt_; i++) neg[i] = -F[i];
      if (!near(e->y, neg, 1)) { fail("right side", "call %d: the right side is not the negative residual", pos - 1); return 0; }
      if ((*r = e->ret)) break;
      { double d[NT]; memcpy(d, e->d, sizeof d); for (i = 0; i < nt_; i++) y[i] += d[i];
        if (!(e = want(&pos, 'C'))) return 0;
        if (!near(e->d, d, 1) || !near(e->y, y, 1) || e->cur != it) { fail("test", "call %d: iterate, change or iteration number (%d, %d) given to the test", pos - 1, e->cur, it); return 0; } }
      if (!(*r = e->ret)) { jc_ = 0; if (pos != nl_) { fail("calls", "calls after success"); return 0; } return 1; }
      if (*r != SUN_NLS_CONTINUE) break;
      *r = 0;
      if (++it >= maxit_) { *r = SUN_NLS_CONV_RECVR; break; }
      if (!(e = want(&pos, 'S'))) return 0;
      if (!near(e->y, y, 1)) { fail("iterate", "call %d: the system is evaluated at %.17g.. instead of %.17g..", pos - 1, e->y[0], y[0]); return 0; }
      memcpy(F, e->d, sizeof F); *r = e->ret;
    }
    ++*ncf;
    if (jc_ < 0) jc_ = pos >= nl_;
    if (*r > 0 && !jc_ && hasU) { setup = jbad = 1; for (i = 0; i < nt_; i++) y[i] = 0; EV("second attempts"); continue; }
    if (pos != nl_) { fail("calls", "%d calls after failure %d", nl_ - pos, *r); return 0; }
    return 1;
  }
}
static int replay_fp(double *y, int *r, long *nit, long *ncf) {
  static double g[MAXL][NT], f[MAXL][NT]; int pos = 0, it, i, j, k; LE *e; double kacc = 1, prev[NT];
  *nit = *ncf = 0;
  for (it = 0; it < maxit_; it++) {
    LD x[NT]; double tol = 2 * EPS, size = 0, change = 0, err = 0; int cmp = 1;
    memcpy(prev, y, sizeof prev);
    if (!(e = want(&pos, 'S'))) return 0;
    if (!near(e->y, y, 1)) { fail("iterate", "call %d: the function is evaluated at %.17g.. instead of %.17g..", pos - 1, e->y[0], y[0]); return 0; }
    if ((*r = e->ret)) { *ncf = 1; if (pos != nl_) { fail("calls", "calls after failure"); return 0; } return 1; }
    for (i = 0; i < nt_; i++) { g[it][i] = e->d[i]; f[it][i] = e->d[i] - y[i]; x[i] = e->d[i]; size = fmax(size, fabs(e->d[i])); }
    if (m_ && it) {
      int L = it < m_ ? it : m_; LD Q[NT][NT], R[NT][NT], gm[NT]; double S = size, dmin = 1e300, dmax = 0, noise = 0;
      for (i = 0; i < nt_; i++) noise = fmax(noise, EPS * (fabs(y[i]) + fabs(g[it][i])));
      for (k = 0; k < L; k++) {   /* oldest first */
        int a = it - L + 1 + k; LD s = 0, nn = 0;
        for (i = 0; i < nt_; i++) { Q[k][i] = (LD)(double)(f[a][i] - f[a - 1][i]); nn += Q[k][i] * Q[k][i]; }
        for (j = 0; j < k; j++) { s = 0; for (i = 0; i < nt_; i++) s += Q[j][i] * Q[k][i]; R[j][k] = s; for (i = 0; i < nt_; i++) Q[k][i] -= s * Q[j][i]; }
        s = 0; for (i = 0; i < nt_; i++) s += Q[k][i] * Q[k][i]; s = sqrtl(s); R[k][k] = s;
        dmin = fmin(dmin, (double)s); dmax = fmax(dmax, (double)sqrtl(nn));
        if (!(s > 0)) { cmp = 0; break; }
        for (i = 0; i < nt_; i++) Q[k][i] /= s;
        kacc = fmax(kacc, (double)(sqrtl(nn) / s));
      }
      if (cmp) {
        kacc = fmax(kacc, dmax / dmin);
        for (k = L - 1; k >= 0; k--) { LD s = 0; for (i = 0; i < nt_; i++) s += Q[k][i] * (LD)f[it][i]; for (j = k + 1; j < L; j++) s -= R[k][j] * gm[j]; gm[k] = s / R[k][k]; }
        if (beta_ < 1) for (i = 0; i < nt_; i++) x[i] -= (1 - (LD)beta_) * f[it][i];
        for (k = 0; k < L; k++) { int a = it - L + 1 + k; double mx = 0; for (i = 0; i < nt_; i++) { LD dg = (LD)(double)(g[a][i] - g[a - 1][i]), df = (LD)(double)(f[a][i] - f[a - 1][i]); x[i] -= gm[k] * (beta_ < 1 ? dg - (1 - (LD)beta_) * df : dg); mx = fmax(mx, (double)fabsl(dg) + fabs((double)df)); } S += (double)fabsl(gm[k]) * mx; }
        tol = 100 * EPS * kacc * kacc * S * (it + 1);
      } else kacc = 1e30;
      for (i = 0; i < nt_; i++) change = fmax(change, (double)fabsl(x[i] - g[it][i]));
      if (!(tol < 0.01 * change)) cmp = 0;
    }
    ++*nit;
    if (!(e = want(&pos, 'C'))) return 0;
    for (i = 0; i < nt_; i++) { err = fmax(err, (double)fabsl(x[i] - e->y[i])); if (!(fabs(e->d[i] - (e->y[i] - prev[i])) <= 2 * EPS * fabs(e->d[i])) && cmp) { fail("change", "call %d: the change given to the test is %.17g, not %.17g", pos - 1, e->d[i], e->y[i] - prev[i]); return 0; } }
    if (cmp && m_ && it) { EV(it > m_ ? "accelerations with a full space" : "accelerations"); if (!within("acceleration", err, tol)) { fail("acceleration", "iteration %d: new iterate differs by %.3e (bound %.1e, correction %.1e, conditioning %.1e)", it, err, tol, change, kacc); return 0; } }
    else if (cmp) { EV("plain iterations"); if (err > 0) { fail("iteration", "iteration %d: new iterate is not the function value (%.3e)", it, err); return 0; } }
    else EV("accelerations left to rounding");
    if (e->cur != it) { fail("number", "iteration %d is given as %d", it, e->cur); return 0; }
    memcpy(y, e->y, sizeof(double) * NT);
    if (!(*r = e->ret)) { if (pos != nl_) { fail("calls", "calls after success"); return 0; } return 1; }
    if (*r != SUN_NLS_CONTINUE) { *ncf = 1; if (pos != nl_) { fail("calls", "calls after failure"); return 0; } return 1; }
  }
  *ncf = 1; *r = SUN_NLS_CONV_RECVR; if (pos != nl_) { fail("calls", "calls after the last iteration allowed"); return 0; }
  return 1;
}
#define REF(c, k) do { int r_ = (c); if (r_ != (k) && !n_fail) fail("flag", #c " returned %d instead of %d", r_, (k)); } while (0)
/* operations on vectors of vectors, against the same on the vectors */
static void fill(double *a, int kind) { int i; for (i = 0; i < nt_; i++) a[i] = kind == 1 && chance(0.2) ? 0 : kind == 2 ? logu(-3, 3) : kind == 3 ? irnd(-2, 2) : kind == 4 ? chance(0.7) : gauss() * logu(-2, 2); }
static N_Vector part(N_Vector v, int k) { return NV_VEC_SW(v, k); }
static void same_all(const char *what, N_Vector v, const double *want_) { double a[NT]; int i; get(v, a); for (i = 0; i < nt_; i++) if (!same(a[i], want_[i])) { fail("wrapper", "%s: element %d is %.17g, not %.17g", what, i, a[i], want_[i]); return; } EV("operations on wrappers"); }
static void same_one(const char *what, double a, double b) { if (!same(a, b) && !(a == b)) fail("wrapper", "%s is %.17g, not %.17g", what, a, b); EV("reductions of wrappers"); }
static void wrapper(void) {
  N_Vector t, W, v[4], r[4][3], E, *arr; double d[4][NT], o[NT]; int i, j, k, s, n;
  n_ = irnd(1, NV); cnt_ = irnd(1, 3); nt_ = n_ * cnt_; tag_ = 2;
  t = N_VNew_Serial(n_, sunctx_); W = N_VNew_SensWrapper(cnt_, t);
  adddesc("wrapper of %d x %d; ", cnt_, n_);
  if (NV_NVECS_SW(W) != cnt_ || !NV_OWN_VECS_SW(W)) fail("wrapper", "%d vectors", NV_NVECS_SW(W));
  E = N_VCloneEmpty(W); if (!E || NV_NVECS_SW(E) != cnt_ || NV_OWN_VECS_SW(E)) { fail("wrapper", "empty clone"); return; }
  for (k = 0; k < cnt_; k++) if (part(E, k)) fail("wrapper", "empty clone with vectors");
  for (i = 0; i < 4; i++) { v[i] = N_VClone(i % 2 && chance(0.5) ? v[0] : W); for (k = 0; k < cnt_; k++) r[i][k] = N_VClone(t); }
  for (s = irnd(4, 30); s > 0 && !n_fail; s--) {
    int op = irnd(0, 19), x = irnd(0, 2), y = irnd(0, 2), z = irnd(0, 2), kx = op == 3 || op == 6 || op == 15 || op == 17 ? 1 : op == 10 ? 3 : 0; double a = gauss(), b = chance(0.3) ? (chance(0.5) ? 1 : -1) : gauss(), m = 0, q; int ok = 1, okw;
    if (chance(0.2)) a = chance(0.5) ? 1 : -1;
    for (i = 0; i < 4; i++) { fill(d[i], i == 1 && (op == 11 || op == 12 || op == 13) ? 2 : i == 2 && op == 12 ? 4 : kx); put(v[i], d[i]); for (k = 0; k < cnt_; k++) memcpy(N_VGetArrayPointer(r[i][k]), d[i] + k * n_, n_ * sizeof(double)); }
    if (op == 2 || op == 5) for (i = 0; i < 4; i++) { for (j = 0; j < nt_; j++) if (d[i][j] == 0) d[i][j] = 1; put(v[i], d[i]); for (k = 0; k < cnt_; k++) memcpy(N_VGetArrayPointer(r[i][k]), d[i] + k * n_, n_ * sizeof(double)); }
#define EACH(stmt) for (k = 0; k < cnt_; k++) { stmt; }
    switch (op) {
    case 0: N_VLinearSum(a, v[x], b, v[y], v[z]); EACH(N_VLinearSum(a, r[x][k], b, r[y][k], r[z][k])) break;
    case 1: N_VProd(v[x], v[y], v[z]); EACH(N_VProd(r[x][k], r[y][k], r[z][k])) break;
    case 2: N_VDiv(v[x], v[y], v[z]); EACH(N_VDiv(r[x][k], r[y][k], r[z][k])) break;
    case 3: N_VScale(a, v[x], v[z]); EACH(N_VScale(a, r[x][k], r[z][k])) break;
    case 4: N_VAbs(v[x], v[z]); EACH(N_VAbs(r[x][k], r[z][k])) break;
    case 5: N_VInv(v[x], v[z]); EACH(N_VInv(r[x][k], r[z][k])) break;
    case 6: N_VAddConst(v[x], a, v[z]); EACH(N_VAddConst(r[x][k], a, r[z][k])) break;
    case 7: N_VConst(a, v[z]); EACH(N_VConst(a, r[z][k])) break;
    case 8: q = N_VDotProd(v[x], v[y]); { LD sm = 0, ab = 0; EACH(sm += N_VDotProd(r[x][k], r[y][k])) for (i = 0; i < nt_; i++) ab += fabs(d[x][i] * d[y][i]); if (!within("dot product", fabsl(q - sm), 4 * EPS * ab)) fail("wrapper", "dot product %.17g, not %.17g", q, (double)sm); EV("reductions of wrappers"); } break;
    case 9: q = N_VMaxNorm(v[x]); EACH(m = fmax(m, N_VMaxNorm(r[x][k]))) same_one("largest element", q, m); break;
    case 10: N_VCompare(fabs(a) * 2, v[x], v[z]); EACH(N_VCompare(fabs(a) * 2, r[x][k], r[z][k])) break;
    case 11: q = N_VWrmsNorm(v[x], v[1]); EACH(m = fmax(m, N_VWrmsNorm(r[x][k], r[1][k]))) same_one("norm", q, m); break;
    case 12: q = N_VWrmsNormMask(v[0], v[1], v[2]); EACH(m = fmax(m, N_VWrmsNormMask(r[0][k], r[1][k], r[2][k]))) same_one("masked norm", q, m); break;
    case 13: q = N_VWL2Norm(v[x], v[1]); EACH(m = fmax(m, N_VWL2Norm(r[x][k], r[1][k]))) same_one("euclidean norm", q, m); break;
    case 14: q = N_VMin(v[x]); m = 1e300; EACH(m = fmin(m, N_VMin(r[x][k]))) same_one("smallest element", q, m); break;
    case 15: okw = N_VInvTest(v[x], v[3]); EACH(if (!N_VInvTest(r[x][k], r[3][k])) ok = 0) if (!okw != !ok) fail("wrapper", "inverse test %d", okw); z = 3; for (k = 0; k < cnt_; k++) for (i = 0; i < n_; i++) if (d[x][k * n_ + i] == 0) { N_VGetArrayPointer(part(v[3], k))[i] = 0; N_VGetArrayPointer(r[3][k])[i] = 0; } break;
    case 16: q = N_VL1Norm(v[x]); EACH(m = fmax(m, N_VL1Norm(r[x][k]))) same_one("sum norm", q, m); break;
    case 17: q = N_VMinQuotient(v[x], v[y]); m = 1.7976931348623157e308; EACH(m = fmin(m, N_VMinQuotient(r[x][k], r[y][k]))) same_one("smallest quotient", q, m); break;
    case 19: for (i = 0; i < nt_; i++) d[1][i] = irnd(-2, 2); put(v[1], d[1]); for (k = 0; k < cnt_; k++) memcpy(N_VGetArrayPointer(r[1][k]), d[1] + k * n_, n_ * sizeof(double)); okw = N_VConstrMask(r[1][0], v[x], v[3]); EACH(if (!N_VConstrMask(r[1][0], r[x][k], r[3][k])) ok = 0) if (!okw != !ok) fail("wrapper", "constraints: %d", okw); break;
    case 18: n = irnd(1, 3); arr = malloc(n * sizeof *arr); { double c[3]; for (i = 0; i < n; i++) { c[i] = gauss(); arr[i] = v[i]; } ok = N_VLinearCombination(n, c, arr, v[3]); z = 3; for (i = 0; i < nt_; i++) { LD sm = 0, ab = 0; for (j = 0; j < n; j++) { sm += (LD)c[j] * d[j][i]; ab += fabs(c[j] * d[j][i]); } get(v[3], o); if (ok || fabsl(sm - o[i]) > 4 * EPS * ab) { fail("wrapper", "combination: %.17g, not %.17g", o[i], (double)sm); break; } N_VGetArrayPointer(r[3][i / n_])[i % n_] = o[i]; } } free(arr); break;
    }
    for (i = 0; i < 4 && !n_fail; i++) { for (k = 0; k < cnt_; k++) memcpy(o + k * n_, N_VGetArrayPointer(r[i][k]), n_ * sizeof(double)); { char w[40]; snprintf(w, sizeof w, "operation %d, vector %d", op, i); same_all(w, v[i], o); } }
    sigmix(op * 8 + cnt_);
  }
  sigd(d[0][0]);
  for (i = 0; i < 4; i++) { N_VDestroy(v[i]); for (k = 0; k < cnt_; k++) N_VDestroy(r[i][k]); }
  N_VDestroy(E); N_VDestroy(W); N_VDestroy(t);
}
static void one_case(const char *mode, long ic, int arg) {
  N_Vector t = NULL, u = NULL, y0, y, w; int wrap = chance(0.4), i, j, s, hasU = 1, solves, lastfail = 0; long a, b; SUNNonlinearSolver S; double start[NT], yv[NT]; double contr;
  (void)mode; (void)ic;
  if (arg == 2) { wrapper(); return; }
  newton_ = arg == 0; n_ = irnd(1, NV); cnt_ = wrap ? irnd(1, 3) : 1; nt_ = n_ * cnt_; tag_ = wrap ? 2 : 1; fused_ = chance(0.5);
  m_ = newton_ ? 0 : irnd(0, nt_ < 6 ? nt_ : 6); c0_ = chance(0.2) ? 0 : unif(0.1, 0.9); noise_ = chance(0.3) ? unif(-0.3, 0.5) : 0; lazy_ = chance(0.5);
  maxit_ = 3; beta_ = 1; jc_ = 0; contr = newton_ ? 0.5 : unif(0.2, 0.95);
  for (i = 0; i < nt_; i++) { double r = 0; for (j = 0; j < nt_; j++) r += fabs(A_[i][j] = gauss()); for (j = 0; j < nt_; j++) A_[i][j] *= contr / r; b_[i] = gauss() * (chance(0.1) ? 1e3 : 1); cc_[i] = unif(1, 3) * (newton_ && chance(0.3) ? sgn() : 1); }
  for (i = 0; i < nt_; i++) for (j = 0; j < nt_; j++) J_[i][j] = A_[i][j] * (c0_ * cos(0.3 * j) + 1 - c0_) + (i == j ? cc_[i] : 0);
  t = N_VNew_Serial(n_, sunctx_); if (!t) abort();
  if (fused_) N_VEnableFusedOps_Serial(t, SUNTRUE);
  u = wrap ? N_VNew_SensWrapper(cnt_, t) : t;
  y0 = N_VClone(u); y = N_VClone(u); w = N_VClone(u);
  S = newton_ ? (wrap ? SUNNonlinSol_NewtonSens(cnt_, t, sunctx_) : SUNNonlinSol_Newton(t, sunctx_)) : wrap ? SUNNonlinSol_FixedPointSens(cnt_, t, m_, sunctx_) : SUNNonlinSol_FixedPoint(t, m_, sunctx_);
  if (!S) abort();
  if (SUNNonlinSolGetNumIters(S, &a) || a || SUNNonlinSolGetNumConvFails(S, &a) || a) fail("counters", "counters of a new solver");
  cur_ = S;
  adddesc("%s n %d x %d%s m %d contraction %.2f", newton_ ? "Newton" : "fixed point", n_, cnt_, wrap ? " wrapped" : "", m_, contr);
  sigd(b_[0]);
  if (SUNNonlinSolGetType(S) != (newton_ ? SUNNONLINEARSOLVER_ROOTFIND : SUNNONLINEARSOLVER_FIXEDPOINT)) fail("type", "wrong type");
  REF(SUNNonlinSolInitialize(S), SUN_NLS_MEM_NULL); REF(SUNNonlinSolSolve(S, y0, y, w, 1., SUNFALSE, &tag_), SUN_NLS_MEM_NULL);
  { int ord[3] = { 0, 1, 2 }, need = newton_ ? 3 : 2; nl_ = 0; if (newton_) hasU = chance(0.9); for (i = 2; i > 0; i--) { j = irnd(0, i); int t_ = ord[i]; ord[i] = ord[j]; ord[j] = t_; }
    if (hasU && newton_ && chance(0.5)) REF(SUNNonlinSolSetLSetupFn(S, lsetup), 0);
    for (i = 0; i < 3; i++) {
      if (ord[i] == 0) REF(SUNNonlinSolSetSysFn(S, sys), 0); else if (ord[i] == 1) REF(SUNNonlinSolSetConvTestFn(S, ctest, &ctag_), 0); else if (newton_) REF(SUNNonlinSolSetLSolveFn(S, lsolve), 0); else continue;
      if (--need) { REF(SUNNonlinSolInitialize(S), SUN_NLS_MEM_NULL); REF(SUNNonlinSolSolve(S, y0, y, w, 1., SUNFALSE, &tag_), SUN_NLS_MEM_NULL); EV("incomplete solvers refused"); }
    }
    if (newton_ && !hasU) REF(SUNNonlinSolSolve(S, y0, y, w, 1., SUNTRUE, &tag_), SUN_NLS_MEM_NULL);
    if (newton_ && hasU) REF(SUNNonlinSolSetLSetupFn(S, lsetup), 0);
    REF(SUNNonlinSolSolve(S, NULL, y, w, 1., SUNFALSE, &tag_), SUN_NLS_MEM_NULL); REF(SUNNonlinSolSolve(S, y0, NULL, w, 1., SUNFALSE, &tag_), SUN_NLS_MEM_NULL);
    REF(SUNNonlinSolSolve(S, y0, y, NULL, 1., SUNFALSE, &tag_), SUN_NLS_MEM_NULL); REF(SUNNonlinSolSolve(S, y0, y, w, 1., SUNFALSE, NULL), SUN_NLS_MEM_NULL);
    { SUNNonlinSolSysFn got = NULL; REF(newton_ ? SUNNonlinSolGetSysFn_Newton(S, &got) : SUNNonlinSolGetSysFn_FixedPoint(S, &got), 0); if (got != sys && !n_fail) fail("getters", "another system function"); }
    if (nl_) fail("calls", "a refused solve called user functions"); }
  if (chance(0.5)) { REF(SUNNonlinSolSetSysFn(S, NULL), SUN_NLS_ILL_INPUT); REF(SUNNonlinSolSetConvTestFn(S, NULL, NULL), SUN_NLS_ILL_INPUT); if (newton_) REF(SUNNonlinSolSetLSolveFn(S, NULL), SUN_NLS_ILL_INPUT); REF(SUNNonlinSolSetMaxIters(S, 0), SUN_NLS_ILL_INPUT); if (!newton_) REF(SUNNonlinSolSetDamping_FixedPoint(S, 0.), SUN_NLS_ILL_INPUT); EV("refused settings"); }
  REF(SUNNonlinSolInitialize(S), 0);
  solves = irnd(1, 4);
  for (s = 0; s < solves && !n_fail; s++) {
    int setup = newton_ && hasU && chance(0.4), r, rr, rep; long nit, ncf;
    if (chance(0.6)) { maxit_ = chance(0.3) ? irnd(1, 3) : irnd(4, newton_ ? 12 : 40); REF(SUNNonlinSolSetMaxIters(S, maxit_), 0); }
    if (!newton_ && chance(0.4)) { beta_ = chance(0.3) ? 1 : unif(0.2, 0.99); REF(SUNNonlinSolSetDamping_FixedPoint(S, beta_ == 1 && chance(0.5) ? 1.5 : beta_), 0); }
    for (i = 0; i < 4; i++) { calls_[i] = 0; fat_[i] = chance(0.08) ? irnd(1, 8) : -1; fret_[i] = chance(0.5) ? -irnd(1, 20) : chance(0.5) ? irnd(1, 20) : SUN_NLS_CONV_RECVR; }
    ctmode_ = chance(0.3); ctlen_ = irnd(1, 8); tol_ = logu(-12, 0);
    for (i = 0; i < nt_; i++) { start[i] = chance(0.5) ? 0 : gauss(); y0_[i] = gauss(); w_[i] = logu(-1, 2); }
    adddesc("; max %d beta %.2f fat %d %d %d %d test %d/%d tol %.1e setup %d", maxit_, beta_, fat_[0], fat_[1], fat_[2], fat_[3], ctmode_, ctlen_, tol_, setup);
    if (lastfail && chance(0.5)) { REF(SUNNonlinSolInitialize(S), 0); jc_ = 0; if (SUNNonlinSolGetNumIters(S, &a) || a || SUNNonlinSolGetNumConvFails(S, &a) || a) fail("counters", "counters after initialisation"); } else if (lastfail && newton_) jc_ = -1;
    put(y0, y0_); put(w, w_); put(y, start); nl_ = 0;
    r = SUNNonlinSolSolve(S, y0, y, w, tol_, setup, &tag_); EV("solves");
    { double q[NT]; get(y0, q); if (memcmp(q, y0_, sizeof(double) * nt_)) fail("inputs", "the predictor was altered"); get(w, q); if (memcmp(q, w_, sizeof(double) * nt_)) fail("inputs", "the weights were altered"); }
    memcpy(yv, start, sizeof yv);
    if (!(newton_ ? replay_newton(yv, setup, hasU, &rr, &nit, &ncf) : replay_fp(yv, &rr, &nit, &ncf))) break;
    if (r != rr) { fail("flag", "returned %d, not %d", r, rr); break; }
    REF(SUNNonlinSolGetNumIters(S, &a), 0); REF(SUNNonlinSolGetNumConvFails(S, &b), 0);
    if (a != nit || b != ncf) { fail("counters", "%ld iterations and %ld failures, not %ld and %ld", a, b, nit, ncf); break; }
    if (!r) { double q[NT]; get(y, q); EV("successes"); if (memcmp(q, lg[nl_ - 1].y, sizeof(double) * nt_)) { fail("result", "what is returned is not what the test accepted"); break; } }
    else EV(r > 0 ? "recoverable failures" : "other failures");
    lastfail = r != 0;
    if (chance(0.3) && !newton_) {   /* once more */
      int n0 = nl_; memcpy(lg1, lg, sizeof(LE) * nl_);
      for (i = 0; i < 4; i++) calls_[i] = 0;
      put(y, start); nl_ = 0; rep = SUNNonlinSolSolve(S, y0, y, w, tol_, setup, &tag_); EV("solves repeated");
      if (rep != r || nl_ != n0) { fail("repeated", "returned %d after %d calls, %d after %d before", rep, nl_, r, n0); break; }
      for (i = 0; i < nl_ && !n_fail; i++) for (j = 0; j < nt_; j++) if (!same(lg[i].y[j], lg1[i].y[j])) { fail("repeated", "call %d differs", i); break; }
    }
  }
  sigmix((uint64_t)nl_); sigd(nl_ ? lg[nl_ - 1].y[0] : 0);
  SUNNonlinSolFree(S); N_VDestroy(y0); N_VDestroy(y); N_VDestroy(w); if (wrap) N_VDestroy(u); N_VDestroy(t);
}
