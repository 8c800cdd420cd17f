/* Monitor of the solver of nonlinear systems (KINSOL): every call of the system function, every setup and every solve is
   seen, the next iterate is predicted from what was seen, and the answer is checked against the root known in advance. */
#include "fzv_sun.h"
#include <kinsol/kinsol.h>
#include <kinsol/kinsol_ls.h>
#include <kinsol/kinsol_bbdpre.h>
#include <sunmatrix/sunmatrix_dense.h>
#include <sunmatrix/sunmatrix_band.h>
#include <sunlinsol/sunlinsol_dense.h>
#include <sunlinsol/sunlinsol_band.h>
#include <sunlinsol/sunlinsol_spgmr.h>
#include <sunlinsol/sunlinsol_spfgmr.h>
#include <sunlinsol/sunlinsol_spbcgs.h>
#include <sunlinsol/sunlinsol_sptfqmr.h>
#include <sunlinsol/sunlinsol_pcg.h>
#define PN 12
#define DP(v) N_VGetArrayPointer(v)
#define MAXH 4000
/* the system: A (u - u*) + c (phi(u) - phi(u*)), A tridiagonal with dominant diagonal, phi increasing: one root.  As a
   fixed point problem: u* + M (phi(u) - phi(u*)) with M small: one fixed point. */
static int n, kind_, fp_; static double A[PN][PN], cc[PN], us[PN], root[PN], usc[PN], fsc[PN], dom_;
static double phi(double x) { switch (kind_) { case 0: return x; case 1: return x + 0.5 * sin(x); case 2: return x + 0.2 * x * x * x; case 3: return atan(3 * x); case 4: return x > 20 ? exp(20.) + (x - 20) * exp(20.) : exp(x); } return x; }
static double dphi(double x) { switch (kind_) { case 0: return 1; case 1: return 1 + 0.5 * cos(x); case 2: return 1 + 0.6 * x * x; case 3: return 3 / (1 + 9 * x * x); case 4: return exp(x > 20 ? 20. : x); } return 1; }
static void sysf(const double *u, double *f) {
  int i, j; double d[PN];
  for (i = 0; i < n; i++) d[i] = fp_ ? phi(u[i]) - phi(root[i]) : u[i] - root[i];
  for (i = 0; i < n; i++) { double s = 0; for (j = 0; j < n; j++) s += A[i][j] * d[j]; f[i] = fp_ ? root[i] + s : s + cc[i] * (phi(u[i]) - phi(root[i])); }
}
static void jacm(const double *u, double (*J)[PN], int picard) { int i, j; for (i = 0; i < n; i++) for (j = 0; j < n; j++) J[i][j] = A[i][j] + (i == j ? cc[i] * (picard ? 1. : dphi(u[i])) : 0); }

static struct { int strat, ls, jac, jt, pre, prek, bbd, maa, orth, delay, newest, eta, noini, nomin, msb, msbsub, nores, constr, tight, fails, fwhat, dbeta; long mxit, fat; double beta, betaaa, ftol, stol, mxnewt, etac, ega, eal, relf; int maxl, twice, domain, bcf; } cf;
static const char *sn[] = { "Newton", "line search", "Picard", "fixed point" };
static const char *lsn[] = { "none", "dense", "band", "gmres", "fgmres", "bicgstab", "tfqmr", "cg" };

static struct { long f, jac, jt, pset, ps, gl, dq, it, setup, solve, li; } c_;
static int ud_, cberr_; static void *mem_; static N_Vector u_;
static long nfe_, nfd_;                    /* counters at the last look */
static double hu[MAXH][PN], hf[MAXH][PN]; static int hr[MAXH]; static long nh;   /* calls that were iterates or trials */
static int pend; static double pu_[PN], pf_[PN]; static int pr_;
static double cur[PN], fcur[PN], p_[PN]; static int have_p, judged;  /* the iterate, and the direction from it */
static double lam, fn0, mxstep; static int stage; static double rlmax, rlmin, slope, ratio, lamprev, f1prev, lo, diff_; static int first_, halved; static double expect_l, lastf1;
static long lcf_; static int odd_;   /* failed linear solves; a step may have been refused */
static double trial[PN], ftrial[PN], bk[PN]; static int have_trial, trial_bad, tiny_;   /* bk: the iterate before cur, tiny_: a step so small may have been refused */
static double eta_exp; static int eta_known, since_setup, n_it, nsteps, bcf_exp, nbk_exp, small_;
static double jlast[PN][PN]; static int jknown;
static double tr_[20000]; static int ntr_, rec_;
static void trace(double v) { if (!rec_ && cf.noini) return; if (ntr_ < 20000) { if (rec_) tr_[ntr_] = v; else if (!same(tr_[ntr_], v) && !n_fail) fail("rerun", "value %d of the run: %.17g the first time, %.17g now", ntr_, tr_[ntr_], v); } ntr_++; }

static double wl2(const double *v, const double *w) { LD s = 0; int i; for (i = 0; i < n; i++) s += (LD)(v[i] * w[i]) * (v[i] * w[i]); return (double)sqrtl(s); }
static double scmax(const double *v, const double *w) { double m = 0; int i; for (i = 0; i < n; i++) m = fmax(m, fabs(v[i] * w[i])); return m; }
static double steplen(const double *v, const double *u) { double m = 0; int i; for (i = 0; i < n; i++) m = fmax(m, fabs(v[i]) / (1 / usc[i] + fabs(u[i]))); return m; }
static double constrv(int i) { return cf.constr ? (us[i] > 0 ? (cf.constr == 2 ? 2 : 1) : (cf.constr == 2 ? -2 : -1)) : 0; }
static int violates(const double *u, int i) { double c = constrv(i); return (c == 1 && u[i] < 0) || (c == 2 && u[i] <= 0) || (c == -1 && u[i] > 0) || (c == -2 && u[i] >= 0); }
#define NEWTON (cf.strat == KIN_NONE || cf.strat == KIN_LINESEARCH)

/* the first trial: the share of the direction the documentation states */
static void direction(void) {
  double pn = wl2(p_, usc), q[PN]; int i, bad = 0;
  ratio = 1; rlmax = mxstep / pn;
  if (pn > mxstep) { ratio = mxstep / pn; rlmax = 1; }
  if (cf.constr) {
    double m = 1e300; for (i = 0; i < n; i++) q[i] = cur[i] + ratio * p_[i];
    for (i = 0; i < n; i++) if (violates(q, i)) { bad = 1; m = fmin(m, fabs(cur[i]) / fabs(ratio * p_[i])); }
    if (bad) { ratio *= 0.9 * m; rlmax = 1; EV("steps cut for constraints"); if (pn * ratio <= cf.stol * 1.0001) { small_ = 1; judged = 0; } }
  }
  halved = 0; stage = 0; lam = 1; expect_l = 1; first_ = 1; lamprev = f1prev = 0;
}
/* what is tried next after the value at lam; NAN when lam is accepted, INFINITY when not known */
static double linesearch(double f1) {
  double f0 = 0.5 * fn0 * fn0, sl = slope * ratio, ac = f0 + 1e-4 * sl * lam, bc = f0 + 0.9 * sl * lam, pn = wl2(p_, usc) * ratio, q[PN], t; int i;
#define TIE(x, y) if (fabs((x) - (y)) < 1e-9 * (fabs(x) + fabs(y))) return INFINITY
  for (i = 0; i < n; i++) q[i] = ratio * p_[i];
  rlmin = cf.stol / steplen(q, cur);
  TIE(f1, ac);
  if (stage == 0 || stage == 1) {
    if (f1 > ac) {
      if (stage == 1 && lam < rlmin * (1 + 1e-9)) { if (lam > rlmin * (1 - 1e-9)) return INFINITY; small_ = 1; return NAN; }
      if (first_) t = -sl / (2 * (f1 - f0 - sl));
      else {
        LD a1 = (LD)f1 - f0 - (LD)lam * sl, a2 = (LD)f1prev - f0 - (LD)lamprev * sl, l1 = lam, l2 = lamprev, a, b;
        if (fabsl(a1) < 1e-6 * f0 || fabsl(a2) < 1e-6 * f0) return INFINITY;
        a = (a1 / (l1 * l1) - a2 / (l2 * l2)) / (l1 - l2); b = (-l2 * a1 / (l1 * l1) + l1 * a2 / (l2 * l2)) / (l1 - l2);
        if (fabsl(a) < 1e-4 * fabsl(b)) return INFINITY;
        t = (double)((-b + sqrtl(b * b - 3 * a * sl)) / (3 * a));
      }
      first_ = 0; lamprev = lam; f1prev = f1; stage = 1; nbk_exp++;
      if (!(t <= 0.5 * lam)) t = 0.5 * lam;
      return fmax(t, 0.1 * lam);
    }
    TIE(f1, bc);
    if (f1 >= bc) return NAN;
    TIE(pn, mxstep);
    if (lam == 1 && pn < mxstep) { stage = 2; lamprev = lam; f1prev = f1; nbk_exp++; if (rlmax < 1) return INFINITY; return fmin(2 * lam, rlmax); }
    if (lam < 1) { lo = fmin(lam, lamprev); diff_ = fabs(lamprev - lam); stage = 3; nbk_exp++; return lo + diff_ / 2; }
    return NAN;
  }
  if (stage == 2) {
    TIE(f1, bc);
    if (f1 <= ac && f1 < bc && lam < rlmax) { lamprev = lam; nbk_exp++; return fmin(2 * lam, rlmax); }
    if (lam > 1 && f1 > ac) { lo = fmin(lam, lamprev); diff_ = fabs(lamprev - lam); stage = 3; nbk_exp++; return lo + diff_ / 2; }
    return NAN;
  }
  if (stage == 3) {
    double inc = diff_ / 2;
    TIE(f1, bc);
    if (f1 > ac) diff_ = inc; else if (f1 < bc) { lo = lam; diff_ -= inc; }
    TIE(diff_, rlmin);
    if (f1 > ac || (f1 < bc && diff_ >= rlmin)) { nbk_exp++; return lo + diff_ / 2; }
    if (f1 < bc || (diff_ < rlmin && f1 > ac)) { stage = 4; bcf_exp++; return lo; }
    return NAN;
  }
  return NAN;
}
/* a call that counted as an iterate */
static void arrived(const double *u, const double *f, int ret) {
  int i; double s = 0, pp = 0, r = 0, m = 0;
  if (nh < MAXH) { memcpy(hu[nh], u, n * 8); memcpy(hf[nh], f, n * 8); hr[nh] = ret; } nh++;
  for (i = 0; i < n; i++) trace(u[i]);
  if (nh == 1) { memcpy(cur, u, n * 8); memcpy(fcur, f, n * 8); return; }
  if (!NEWTON) return;
  for (i = 0; i < n; i++) if (cf.constr && violates(u, i)) { fail("constraint", "the system function was called with element %d at %.17g", i, u[i]); return; }
  if (!have_p) { fail("order", "an iterate was evaluated before a step was computed"); return; }
  memcpy(trial, u, n * 8); memcpy(ftrial, f, n * 8); have_trial = 1; trial_bad = ret != 0;
again:
  s = pp = r = m = 0;
  for (i = 0; i < n; i++) { s += (u[i] - cur[i]) * p_[i] * usc[i] * usc[i]; pp += p_[i] * p_[i] * usc[i] * usc[i]; }
  s /= pp; /* share of the direction */
  for (i = 0; i < n; i++) { r = fmax(r, fabs(u[i] - cur[i] - s * p_[i]) * usc[i]); m = fmax(m, (fabs(cur[i]) + fabs(u[i])) * usc[i]); }
  if (r > 1e-13 * m + 1e-12 * sqrt(pp) && tiny_ && memcmp(cur, bk, n * 8)) { memcpy(cur, bk, n * 8); judged = 0; goto again; }
  if (r > 1e-13 * m + 1e-12 * sqrt(pp)) { fail("direction", "iterate %ld is off the computed step by %.3g (iterate %.3g, step %.3g)", nh, r, m, sqrt(pp)); return; }
  EV("trials on the step");
  if (judged && sqrt(pp) > 1e-7 * m) {
    if (fabs(s - expect_l * ratio) > 1e-6 * fabs(expect_l * ratio) + 1e-14 * m / sqrt(pp)) { fail("share", "trial %ld at %.12g of the step, expected %.12g (share %.3g, cut %.3g, stage %d)", nh, s, expect_l * ratio, expect_l, ratio, stage); return; }
    EV("shares predicted");
  } else judged = 0;
  if (ret < 0) return;
  if (ret > 0) { ratio *= 0.5; rlmax = 1; halved++; if (stage) judged = 0; return; }
  lam = expect_l;
  if (cf.strat == KIN_LINESEARCH && judged) {
    double fn = wl2(f, fsc), nx; lastf1 = 0.5 * fn * fn; nx = linesearch(lastf1);
    if (isinf(nx)) judged = 0; else expect_l = nx;       /* NAN: accepted */
  }
}
static void settle(void) {
  long a, b; if (!pend) return; pend = 0;
  KINGetNumFuncEvals(mem_, &a); b = nfd_; if (cf.strat != KIN_FP) KINGetNumLinFuncEvals(mem_, &b);
  if (c_.it == 0) { nfe_ = 0; nfd_ = 0; b = 0; if (a > 1) a = 1; }
  if (a == nfe_ + 1) { nfd_ = b; c_.it++; nfe_ = a; arrived(pu_, pf_, pr_); }
  else if (a == nfe_) { c_.dq++; nfd_ = b; }
  else fail("counters", "one call of the system function: evaluations %ld to %ld, of the linear solver %ld to %ld", nfe_, a, nfd_, b);
}
static int hit(int what, long k) { return cf.fails && cf.fwhat == what && (cf.dbeta ? k >= cf.fat : k == cf.fat); }
static long nfl_; static int over_;
static int cb_f(N_Vector u, N_Vector f, void *d) {
  int i, r = 0; if (d != &ud_) cberr_ = 1;
  if (n_fail) return -1;
  settle(); c_.f++;
  if (c_.f > 3000) { over_ = 1; return -1; }
  for (i = 0; i < n; i++) { if (cf.domain && fabs(DP(u)[i] - root[i]) > 1.5 * fabs(us[i] - root[i]) + 0.3) r = 1; }
  if (hit(1, c_.f)) { r = cf.fails; }
  if (r) nfl_++;
  if (!r) sysf(DP(u), DP(f)); else for (i = 0; i < n; i++) DP(f)[i] = NAN;
  memcpy(pu_, DP(u), n * 8); memcpy(pf_, DP(f), n * 8); pr_ = r; pend = 1;
  return r;
}
/* the last trial is the new iterate */
static void accept(void) {
  if (!have_trial) return;
  if (NEWTON && judged && !trial_bad && cf.strat == KIN_LINESEARCH && !isnan(expect_l) && !n_fail) { fail("search", "the search ended at share %.9g, expected to go on with %.9g (stage %d)", lam, expect_l, stage); return; }
  if (!trial_bad && cf.strat == KIN_LINESEARCH && judged && !small_) {
    double s[PN]; int i; for (i = 0; i < n; i++) s[i] = trial[i] - cur[i];
    if (steplen(s, trial) > 1e-10 && 0.5 * wl2(ftrial, fsc) * wl2(ftrial, fsc) > 0.5 * fn0 * fn0) fail("descent", "the norm rose from %.9g to %.9g", fn0, wl2(ftrial, fsc));
  }
  if (!small_) {
    if (cf.ls > 2 && NEWTON && eta_known) {   /* the forcing term for the next step */
      double fn = wl2(ftrial, fsc), e = eta_exp, safe = 0, al = cf.eal > 0 ? cf.eal : 2, ga = cf.ega > 0 ? cf.ega : 0.9;
      if (cf.eta == KIN_ETACHOICE1) {
        LD lin = 0; int i, j; double J[PN][PN], s[PN];
        jacm(cur, J, 0); for (i = 0; i < n; i++) s[i] = trial[i] - cur[i];
        for (i = 0; i < n; i++) { LD t = fcur[i]; for (j = 0; j < n; j++) t += (LD)J[i][j] * s[j]; lin += t * t * fsc[i] * fsc[i]; }
        al = (1 + sqrt(5.)) / 2; safe = pow(e, al); e = fabs(fn - (double)sqrtl(lin)) / fn0;
      } else if (cf.eta == KIN_ETACHOICE2) { safe = ga * pow(e, al); e = ga * pow(fn / fn0, al); }
      if (cf.eta != KIN_ETACONSTANT) { if (fabs(safe - 0.1) < 1e-6) eta_known = 0; if (safe < 0.1) safe = 0; e = fmax(e, safe); e = fmax(e, 1e-4); e = fmin(e, 0.9); }
      eta_exp = e;
    }
    double s[PN]; int i; for (i = 0; i < n; i++) s[i] = trial[i] - cur[i];
    tiny_ = cf.strat == KIN_LINESEARCH && steplen(s, trial) <= 1.01 * fmax(cf.stol, 1e-9);
    memcpy(bk, cur, n * 8); memcpy(cur, trial, n * 8); memcpy(fcur, ftrial, n * 8);
  } else { tiny_ = 1; odd_ = 1; memcpy(bk, cur, n * 8); memcpy(fcur, ftrial, n * 8); judged = 0; }     /* the step was refused: the iterate stays */
  have_trial = 0; n_it++;
}
static int (*solve0)(SUNLinearSolver, SUNMatrix, N_Vector, N_Vector, realtype), (*setup0)(SUNLinearSolver, SUNMatrix);
static double (*dummy_)(void);
static double row_mag(int i) { int k; double s = cc[i] * fabs(phi(cur[i])); for (k = 0; k < n; k++) s += fabs(A[i][k]) * (fabs(cur[k]) + fabs(root[k])); return s; }
static void jac_close(double (*J)[PN], const char *what, double tol) {
  double T[PN][PN]; int i, j; (void)dummy_;
  jacm(cur, T, cf.strat == KIN_PICARD);
  for (i = 0; i < n; i++) for (j = 0; j < n; j++) if (!(fabs(J[i][j] - T[i][j]) <= tol * (fabs(T[i][j]) + fabs(T[i][i]) + 1) + (tol > 1e-9 ? 30 * EPS * (fabs(fcur[i]) + row_mag(i)) / (sqrt(cf.relf > 0 ? cf.relf : EPS) * fmax(fabs(cur[j]), 1 / usc[j])) : 0))) { fail("jacobian", "%s (%d,%d): %.12g, at the iterate it is %.12g", what, i, j, J[i][j], T[i][j]); return; }
}
static double mat(SUNMatrix M, int i, int j) { return SUNMatGetID(M) == SUNMATRIX_DENSE ? SUNDenseMatrix_Column(M, j)[i] : (i - j <= 1 && j - i <= 1 ? SUNBandMatrix_Column(M, j)[i - j] : 0); }
static int my_setup(SUNLinearSolver S, SUNMatrix M) {
  settle(); if (NEWTON) accept(); c_.setup++; since_setup = 0;
  if (!n_fail && M) {
    int i, j; for (i = 0; i < n; i++) for (j = 0; j < n; j++) jlast[i][j] = mat(M, i, j);
    jknown = 1; if (NEWTON && (cf.jac || !tiny_)) jac_close(jlast, "Jacobian", cf.jac ? 1e-12 : 1e-4 * fmax(1, dom_)); EV("Jacobians compared");
  }
  return setup0(S, M);
}
static int my_solve(SUNLinearSolver S, SUNMatrix M, N_Vector x, N_Vector b, realtype tol) {
  int r, i; double bb[PN];
  settle();
  if (NEWTON) accept();
  else { memcpy(cur, hu[nh - 1 < MAXH ? nh - 1 : 0], n * 8); memcpy(fcur, hf[nh - 1 < MAXH ? nh - 1 : 0], n * 8); }
  c_.solve++;
  memcpy(bb, DP(b), n * 8);
  for (i = 0; i < n && !n_fail; i++) if (!(bb[i] == -fcur[i] || (isnan(bb[i]) && isnan(fcur[i])))) { fail("right side", "element %d of the system for step %ld is %.17g, the function was %.17g", i, c_.solve, bb[i], fcur[i]); return -1; }
  fn0 = wl2(fcur, fsc);
  if (NEWTON && cf.ls > 2 && eta_known && !n_fail) {
    double e = (eta_exp + EPS) * fn0; if (!cf.nomin) e = fmax(e, 0.01 * cf.ftol);
    if (cf.ls == 7 || cf.ls < 7) { if (fabs(tol - e) > 1e-5 * e && !(cf.eta == KIN_ETACHOICE1 && (!cf.jt || 1) && fabs(tol - e) < 1e-3 * fn0)) { fail("forcing", "tolerance of the linear solver %.12g, expected %.12g (eta %.6g, norm %.6g)", tol, e, eta_exp, fn0); return -1; } EV("linear tolerances compared"); }
  }
  r = solve0(S, M, x, b, tol);
  settle(); if (r) lcf_++;
  c_.li += SUNLinSolGetType(S) == SUNLINEARSOLVER_DIRECT ? 0 : SUNLinSolNumIters(S);
  if (r != 0 && r != SUNLS_RES_REDUCED) return r;
  memcpy(p_, DP(x), n * 8); have_p = 1; have_trial = 0; if (small_ || (nsteps && !judged)) odd_ = 1; small_ = 0; nsteps++;
  if (NEWTON && !n_fail) {
    double J[PN][PN], rs = 0; int k;
    if (M && jknown) memcpy(J, jlast, sizeof J); else jacm(cur, J, 0);
    for (i = 0; i < n; i++) { LD t = fcur[i]; for (k = 0; k < n; k++) t += (LD)J[i][k] * p_[k]; rs += (double)(t * t) * fsc[i] * fsc[i]; }
    rs = sqrt(rs);
    if (cf.ls <= 2) { if (rs > 1e-10 * fn0 * fmax(1, dom_)) fail("linear", "residual %.3g of the step, norm of the function %.3g", rs, fn0); else EV("steps compared with the Jacobian"); }
    else if (r == 0 && rs > 1.01 * tol + (cf.jt ? 1e-9 : 1e-4) * fn0 * fmax(1, dom_)) { if (cf.ls == 3 || cf.ls == 4 || cf.ls == 7) fail("linear", "residual %.3g of the step, asked for %.3g (norm %.3g)", rs, tol, fn0); }
    else EV("inexact steps compared");
    judged = 1; mxstep = cf.mxnewt > 0 ? cf.mxnewt : fmax(1, 1000 * wl2(us, usc)); if (mxstep < 1) mxstep = 1;
    if (cf.ls > 2 && cf.eta == KIN_ETACHOICE1) { LD t = 0, q; for (i = 0; i < n; i++) { q = 0; for (k = 0; k < n; k++) q += (LD)J[i][k] * p_[k]; t += q * fcur[i] * fsc[i] * fsc[i]; } slope = (double)t; if (!cf.jt) judged = 0; }
    else slope = -fn0 * fn0;
    direction();
    if (++since_setup > (cf.msb ? cf.msb : 10) && cf.ls <= 2) fail("setup", "%d steps with one Jacobian", since_setup);
  }
  return r;
}
static int cb_jac(N_Vector u, N_Vector f, SUNMatrix J, void *d, N_Vector a, N_Vector b) {
  int i, j; double q[PN][PN]; (void)a; (void)b; if (d != &ud_) cberr_ = 1;
  settle(); if (NEWTON) accept(); c_.jac++;
  if (NEWTON && tiny_ && !memcmp(DP(u), bk, n * 8)) memcpy(cur, bk, n * 8);
  if (NEWTON) for (i = 0; i < n && !n_fail; i++) if (DP(u)[i] != cur[i] || DP(f)[i] != fcur[i]) fail("jacobian", "called at %.17g with %.17g, the iterate is %.17g with %.17g (element %d)", DP(u)[i], DP(f)[i], cur[i], fcur[i], i);
  if (hit(2, c_.jac)) { nfl_++; return cf.fails; }
  jacm(DP(u), q, cf.strat == KIN_PICARD);
  for (i = 0; i < n; i++) for (j = 0; j < n; j++) if (SUNMatGetID(J) == SUNMATRIX_DENSE) SUNDenseMatrix_Column(J, j)[i] = q[i][j]; else if (i - j <= 1 && j - i <= 1) SUNBandMatrix_Column(J, j)[i - j] = q[i][j];
  return 0;
}
static double jtJ[PN][PN];
static int cb_jt(N_Vector v, N_Vector Jv, N_Vector u, booleantype *nu, void *d) {
  int i, j; if (d != &ud_) cberr_ = 1; settle(); c_.jt++;
  if (hit(3, c_.jt)) { nfl_++; return cf.fails; }
  if (*nu) { jacm(DP(u), jtJ, cf.strat == KIN_PICARD); *nu = SUNFALSE; EV("new u told"); }
  else { double q[PN][PN]; jacm(DP(u), q, cf.strat == KIN_PICARD); for (i = 0; i < n && !n_fail; i++) for (j = 0; j < n; j++) if (q[i][j] != jtJ[i][j] && !n_fail) fail("new u", "a product at another u without notice"); }
  for (i = 0; i < n; i++) { DP(Jv)[i] = 0; for (j = 0; j < n; j++) DP(Jv)[i] += jtJ[i][j] * DP(v)[j]; }
  return 0;
}
static double preD[PN];
static int vec_is(N_Vector v, const double *w) { return N_VGetLength(v) == n && memcmp(DP(v), w, n * 8) == 0; }
static int cb_pset(N_Vector u, N_Vector us_, N_Vector f, N_Vector fs_, void *d) {
  double J[PN][PN]; int i; (void)f; if (d != &ud_) cberr_ = 1; settle(); c_.pset++;
  if (!vec_is(us_, usc) || !vec_is(fs_, fsc)) cberr_ = 2;
  if (hit(4, c_.pset)) { nfl_++; return cf.fails; }
  jacm(DP(u), J, cf.strat == KIN_PICARD); for (i = 0; i < n; i++) preD[i] = J[i][i];
  return 0;
}
static int cb_ps(N_Vector u, N_Vector us_, N_Vector f, N_Vector fs_, N_Vector v, void *d) {
  int i; (void)f; (void)u; if (d != &ud_) cberr_ = 1; settle(); c_.ps++;
  if (!vec_is(us_, usc) || !vec_is(fs_, fsc)) cberr_ = 2;
  if (hit(5, c_.ps)) { nfl_++; return cf.fails; }
  if (cf.prek == 1) for (i = 0; i < n; i++) DP(v)[i] /= preD[i]; else for (i = 0; i < n; i++) DP(v)[i] /= A[i][i] + cc[i];
  return 0;
}
static int cb_gl(sunindextype N, N_Vector u, N_Vector g, void *d) { if (N != n || d != &ud_) cberr_ = 3; settle(); c_.gl++; sysf(DP(u), DP(g)); return 0; }
static char lastmsg[300]; static int lastcode, msgs_;
static void cb_err(int code, const char *mod, const char *fn, char *m, void *u) { (void)mod; (void)u; msgs_++; lastcode = code; snprintf(lastmsg, sizeof lastmsg, "%s: %s", fn, m); }
static long infos_; static void cb_info(const char *mod, const char *fn, char *m, void *u) { (void)mod; (void)fn; (void)m; (void)u; infos_++; }
#define OK(call) do { int r_ = (call); if (r_ != 0) fail("setting", "%s returned %d (%s)", #call, r_, lastmsg); } while (0)
#include "fzv_kin.h"
