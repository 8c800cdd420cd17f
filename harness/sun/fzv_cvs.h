/* Random configurations of CVODES for the monitors: callbacks, counters, settings. */
#ifndef FZV_CVS_H
#define FZV_CVS_H
#include <cvodes/cvodes.h>
#include <cvodes/cvodes_ls.h>
#include <cvodes/cvodes_diag.h>
#include <cvodes/cvodes_bandpre.h>
#include <cvodes/cvodes_bbdpre.h>
#include <sunmatrix/sunmatrix_dense.h>
#include <sunmatrix/sunmatrix_band.h>
#include <sunlinsol/sunlinsol_dense.h>
#include <sunlinsol/sunlinsol_band.h>
#include <sunlinsol/sunlinsol_spgmr.h>
#include <sunlinsol/sunlinsol_spfgmr.h>
#include <sunlinsol/sunlinsol_spbcgs.h>
#include <sunlinsol/sunlinsol_sptfqmr.h>
#include <sunlinsol/sunlinsol_pcg.h>
#include <sunnonlinsol/sunnonlinsol_newton.h>
#include <sunnonlinsol/sunnonlinsol_fixedpoint.h>
#include "fzv_odep.h"
static double pu[PP + PN]; /* the last ones have no effect: they stand for start values */
//                 /* the parameters the callbacks use */
static struct { long f, jac, lin, lin2, pset, pset2, ps, jts, jt, fq, fs, fqs, g, efun, gl; } c_;
static double lim_; static int lim_on, dir_, past_, cberr_;
static int fail_kind, fail_rc, fail_once; static long fail_call, fail_per, fails_;
/* at call fail_call: only then, from then on, or then and at every fail_per-th call after it */
#define HIT(n) ((fail_once == 2 ? (n) >= fail_call && ((n) - fail_call) % fail_per == 0 : fail_once ? (n) == fail_call : (n) >= fail_call) && ++fails_)
   /* the callback that fails: 1 f 2 jac 3 pset 4 psolve 5 g 6 fq 7 fs 8 ewt 9 jt */
static int ud_;                        /* user data: its address is checked */
#define UD(p) if ((p) != (void *)&ud_) cberr_ = 1
#define DP(v) N_VGetArrayPointer(v)
static void seen(double t) { if (lim_on && (t - lim_) * dir_ > 1e-12 * (fabs(t) + fabs(lim_) + 0.1 * fabs(pb.t1 - pb.t0))) past_ = 1; }
static int cb_f(realtype t, N_Vector y, N_Vector d, void *u) { UD(u); c_.f++; seen(t); if (fail_kind == 1 && HIT(c_.f)) { if (fail_rc) return fail_rc; } f_d(t, DP(y), pu, DP(d)); return 0; }
static int cb_jac(realtype t, N_Vector y, N_Vector fy, SUNMatrix J, void *u, N_Vector a, N_Vector b, N_Vector c) {
  int i, j; double q[PN][PN]; UD(u); (void)fy; (void)a; (void)b; (void)c; c_.jac++; seen(t);
  if (fail_kind == 2 && HIT(c_.jac)) return fail_rc;
  jac_d(t, DP(y), pu, q);
  for (j = 0; j < pb.n; j++) for (i = 0; i < pb.n; i++) if (SUNMatGetID(J) == SUNMATRIX_DENSE) SUNDenseMatrix_Column(J, j)[i] = q[i][j]; else if (i - j <= pb.ml && j - i <= pb.mu) SUNBandMatrix_Column(J, j)[i - j] = q[i][j];
  return 0;
}
static double linJ[PN][PN];
static int cb_lin(realtype t, N_Vector y, N_Vector fy, SUNMatrix M, booleantype jok, booleantype *jcur, realtype g, void *u, N_Vector a, N_Vector b, N_Vector c) {
  int i, j; UD(u); (void)fy; (void)a; (void)b; (void)c; c_.lin++; seen(t);
  if (!jok) { c_.lin2++; jac_d(t, DP(y), pu, linJ); }
  *jcur = !jok;
  for (j = 0; j < pb.n; j++) for (i = 0; i < pb.n; i++) { double v = (i == j) - g * linJ[i][j]; if (SUNMatGetID(M) == SUNMATRIX_DENSE) SUNDenseMatrix_Column(M, j)[i] = v; else if (i - j <= pb.ml && j - i <= pb.mu) SUNBandMatrix_Column(M, j)[i - j] = v; }
  return 0;
}
static double preJ[PN][PN], preM[PN][PN]; static int preP[PN], side_;
static void lu(double (*M)[PN], int *P, int n) {
  int i, j, k, p; for (k = 0; k < n; k++) { p = k; for (i = k + 1; i < n; i++) if (fabs(M[i][k]) > fabs(M[p][k])) p = i; P[k] = p;
    for (j = 0; j < n; j++) { double t = M[k][j]; M[k][j] = M[p][j]; M[p][j] = t; } if (M[k][k] == 0) M[k][k] = 1e-30;
    for (i = k + 1; i < n; i++) { M[i][k] /= M[k][k]; for (j = k + 1; j < n; j++) M[i][j] -= M[i][k] * M[k][j]; } }
}
static void lusol(double (*M)[PN], int *P, int n, double *b) {
  int i, k; for (k = 0; k < n; k++) { double t = b[k]; b[k] = b[P[k]]; b[P[k]] = t; }
  for (k = 0; k < n; k++) for (i = k + 1; i < n; i++) b[i] -= M[i][k] * b[k];
  for (k = n - 1; k >= 0; k--) { b[k] /= M[k][k]; for (i = 0; i < k; i++) b[i] -= M[i][k] * b[k]; }
}
static int cb_pset(realtype t, N_Vector y, N_Vector fy, booleantype jok, booleantype *jcur, realtype g, void *u) {
  int i, j; UD(u); (void)fy; c_.pset++; seen(t);
  if (fail_kind == 3 && HIT(c_.pset)) return fail_rc;
  if (c_.pset == 1 && jok) cberr_ = 2;
  if (!jok) { c_.pset2++; jac_d(t, DP(y), pu, preJ); }
  *jcur = !jok;
  for (i = 0; i < pb.n; i++) for (j = 0; j < pb.n; j++) preM[i][j] = (i == j) - (i == j || pb.n < 6 ? g * preJ[i][j] : 0);
  lu(preM, preP, pb.n);
  return 0;
}
static int cb_ps(realtype t, N_Vector y, N_Vector fy, N_Vector r, N_Vector z, realtype g, realtype delta, int lr, void *u) {
  UD(u); (void)y; (void)fy; (void)g; c_.ps++; seen(t);
  if (fail_kind == 4 && HIT(c_.ps)) return fail_rc;
  if (!(delta > 0)) cberr_ = 3;
  if ((lr == 1 && !(side_ & 1)) || (lr == 2 && !(side_ & 2)) || lr < 1 || lr > 2) cberr_ = 4;
  memcpy(DP(z), DP(r), pb.n * sizeof(double));
  if (side_ != 3 || lr == 1) lusol(preM, preP, pb.n, DP(z));
  return 0;
}
static double jtJ[PN][PN]; static int jts_done;
static int cb_jts(realtype t, N_Vector y, N_Vector fy, void *u) { UD(u); (void)fy; c_.jts++; seen(t); jac_d(t, DP(y), pu, jtJ); jts_done = 1; return 0; }
static int use_jts;
static int cb_jt(N_Vector v, N_Vector Jv, realtype t, N_Vector y, N_Vector fy, void *u, N_Vector tmp) {
  int i, j; UD(u); (void)fy; (void)tmp; c_.jt++; seen(t);
  if (fail_kind == 9 && HIT(c_.jt)) return fail_rc;
  if (use_jts) { if (!jts_done) cberr_ = 5; } else jac_d(t, DP(y), pu, jtJ);
  for (i = 0; i < pb.n; i++) { DP(Jv)[i] = 0; for (j = 0; j < pb.n; j++) DP(Jv)[i] += jtJ[i][j] * DP(v)[j]; }
  return 0;
}
static int cb_gloc(sunindextype N, realtype t, N_Vector y, N_Vector g, void *u) { UD(u); c_.gl++; seen(t); if (N != pb.n) cberr_ = 6; f_d(t, DP(y), pu, DP(g)); return 0; }
static double tol_r, tol_a[PN];
static int cb_ewt(N_Vector y, N_Vector w, void *u) { int i; UD(u); c_.efun++; if (fail_kind == 8 && HIT(c_.efun)) return -1; for (i = 0; i < pb.n; i++) DP(w)[i] = 1 / (tol_r * fabs(DP(y)[i]) + tol_a[i]); return 0; }
static int msgs_, warn_; static char lastmsg[300]; static int lastcode;
static void cb_err(int code, const char *mod, const char *fn, char *m, void *u) { (void)mod; (void)u; msgs_++; if (code == CV_WARNING) warn_++; lastcode = code; snprintf(lastmsg, sizeof lastmsg, "%s: %s", fn, m); }

typedef struct {
  int lmm, nls, fpm, ls, jac, pre, prek, jt, jts, tolk, maxl, gs; double rtol, atol;
  int maxord, stab, maxnl, constr, msbp, msbj, scal, zero_opt; double h0, hmin, hmax, nlcoef, epslin, nrmfac;
} CF;
static CF cf;
typedef struct { void *mem; N_Vector y, av, cv; SUNMatrix A; SUNLinearSolver LS; SUNNonlinearSolver NL; } CV;
static const char *lsn[] = { "none", "dense", "band", "diag", "gmres", "fgmres", "bicgstab", "tfqmr", "cg" };
static void config(int plain) {
  memset(&cf, 0, sizeof cf);
  cf.lmm = chance(0.5) ? CV_ADAMS : CV_BDF;
  cf.nls = irnd(0, 2); if (cf.nls == 2) { cf.fpm = irnd(0, 3); }
  cf.ls = cf.nls == 2 ? 0 : irnd(1, 8);
  if (cf.ls == 8 && !pb.sym) cf.ls = 1;
  if (cf.ls == 3 && pb.fam != 5 && pb.fam != 7 && pb.fam != 6) cf.ls = 2;
  if (plain && chance(0.5)) { cf.nls = 0; cf.ls = 1; }
  cf.jac = irnd(0, 2); cf.jt = irnd(0, 1); cf.jts = irnd(0, 1);
  cf.pre = cf.ls >= 4 ? (cf.ls == 8 ? 0 : irnd(0, 3)) : 0; cf.prek = chance(0.5) ? 0 : irnd(1, 2);
  if (cf.pre == 3) cf.prek = 0;
  cf.maxl = chance(0.5) ? 0 : irnd(2, 10); cf.gs = chance(0.5) ? SUN_CLASSICAL_GS : SUN_MODIFIED_GS;
  cf.tolk = irnd(0, 2); cf.rtol = logu(-9, -3); cf.atol = cf.rtol * logu(-3, 0);
  if (chance(0.6)) {
    if (chance(0.3)) cf.maxord = irnd(1, cf.lmm == CV_ADAMS ? 12 : 5);
    if (cf.maxord && cf.maxord < 3 && cf.rtol < 1e-6) cf.rtol = 1e-6, cf.atol = 1e-8;
    if (cf.maxord && cf.maxord < 2) cf.rtol = logu(-5, -3), cf.atol = cf.rtol * 0.1;
    if (cf.lmm == CV_BDF) cf.stab = chance(0.3);
    if (chance(0.2)) cf.h0 = logu(-8, -2);
    if (chance(0.15)) cf.hmin = 1e-11;
    if (chance(0.3)) cf.hmax = fabs(pb.t1 - pb.t0) * logu(-2.3, 0);
    if (chance(0.2)) cf.maxnl = irnd(2, 6);
    if (chance(0.2)) cf.nlcoef = unif(0.02, 0.3);
    if (chance(0.2)) cf.msbp = irnd(1, 30);
    if (chance(0.2)) cf.msbj = irnd(1, 60);
    if (chance(0.2)) cf.epslin = unif(0.01, 0.2);
    if (chance(0.2)) cf.nrmfac = chance(0.5) ? -1 : unif(0.5, 1) * sqrt(pb.n);
    if (chance(0.2)) cf.scal = irnd(1, 2);
    if (chance(0.3) && pb.pos) cf.constr = 1;
    if (chance(0.2)) cf.zero_opt = 1;
  }
  adddesc("%s n %d t %.4g..%.4g, %s, nls %d fp %d, ls %s jac %d pre %d kind %d jt %d/%d, tol %d %.1e %.1e, maxord %d stab %d h0 %.1e hmin %.1e hmax %.2e nl %d %.2g msbp %d msbj %d eps %.2g nrm %.2g scal %d constr %d; ",
    famn[pb.fam], pb.n, pb.t0, pb.t1, cf.lmm == CV_ADAMS ? "Adams" : "BDF", cf.nls, cf.fpm, lsn[cf.ls], cf.jac, cf.pre, cf.prek, cf.jt, cf.jts, cf.tolk, cf.rtol, cf.atol,
    cf.maxord, cf.stab, cf.h0, cf.hmin, cf.hmax, cf.maxnl, cf.nlcoef, cf.msbp, cf.msbj, cf.epslin, cf.nrmfac, cf.scal, cf.constr);
}
#define OK(call) do { int r_ = (call); if (r_ != 0) fail("setting", "%s returned %d (%s)", #call, r_, lastmsg); } while (0)
static SUNLinearSolver mkls(int ls, N_Vector y, SUNMatrix A, int pre, int maxl, int gs) {
  SUNLinearSolver S;
  switch (ls) {
  case 1: return SUNLinSol_Dense(y, A, sunctx_);
  case 2: return SUNLinSol_Band(y, A, sunctx_);
  case 4: S = SUNLinSol_SPGMR(y, pre, maxl, sunctx_); SUNLinSol_SPGMRSetGSType(S, gs); SUNLinSol_SPGMRSetMaxRestarts(S, 2); return S;
  case 5: S = SUNLinSol_SPFGMR(y, pre ? SUN_PREC_RIGHT : 0, maxl, sunctx_); SUNLinSol_SPFGMRSetGSType(S, gs); return S;
  case 6: return SUNLinSol_SPBCGS(y, pre, maxl, sunctx_);
  case 7: return SUNLinSol_SPTFQMR(y, pre, maxl, sunctx_);
  case 8: return SUNLinSol_PCG(y, pre, maxl, sunctx_);
  }
  return NULL;
}
static void cv_new(CV *c) {
  int i; memset(c, 0, sizeof *c);
  c->y = N_VNew_Serial(pb.n, sunctx_); c->av = N_VClone(c->y); c->cv = N_VClone(c->y);
  memcpy(DP(c->y), pb.y0, pb.n * sizeof(double)); memcpy(pu, pb.p, sizeof pb.p); for (i = 0; i < pb.n; i++) pu[PP + i] = 1;
  tol_r = cf.rtol;
  for (i = 0; i < pb.n; i++) { tol_a[i] = cf.atol; if (cf.tolk == 1) tol_a[i] *= 1 + 0.5 * i; if (pb.fam == 3 && i == 1) tol_a[i] *= 1e-2; DP(c->av)[i] = tol_a[i]; DP(c->cv)[i] = pb.fam == 3 ? 1 : 2; }
  if (pb.fam == 3 && cf.tolk == 0) for (i = 0; i < pb.n; i++) tol_a[i] = cf.atol;
  c->mem = CVodeCreate(cf.lmm, sunctx_);
  if (!c->mem) { fail("create", "nothing made"); return; }
  CVodeSetErrHandlerFn(c->mem, cb_err, NULL);
  OK(CVodeInit(c->mem, cb_f, pb.t0, c->y));
  OK(CVodeSetUserData(c->mem, &ud_));
  if (cf.tolk == 0) OK(CVodeSStolerances(c->mem, cf.rtol, cf.atol)); else if (cf.tolk == 1) OK(CVodeSVtolerances(c->mem, cf.rtol, c->av)); else OK(CVodeWFtolerances(c->mem, cb_ewt));
  if (cf.nls == 1) c->NL = SUNNonlinSol_Newton(c->y, sunctx_); else if (cf.nls == 2) c->NL = SUNNonlinSol_FixedPoint(c->y, cf.fpm, sunctx_);
  if (c->NL) OK(CVodeSetNonlinearSolver(c->mem, c->NL));
  if (cf.ls == 1) c->A = SUNDenseMatrix(pb.n, pb.n, sunctx_);
  if (cf.ls == 2) c->A = SUNBandMatrix(pb.n, pb.mu, pb.ml, sunctx_);
  if (cf.ls == 3) OK(CVDiag(c->mem)); else if (cf.ls) { c->LS = mkls(cf.ls, c->y, c->A, cf.pre, cf.maxl, cf.gs); OK(CVodeSetLinearSolver(c->mem, c->LS, c->A)); }
  side_ = cf.ls == 5 ? (cf.pre ? 2 : 0) : cf.pre;
  if (cf.ls == 1 || cf.ls == 2) { if (cf.jac == 1) OK(CVodeSetJacFn(c->mem, cb_jac)); if (cf.jac == 2) OK(CVodeSetLinSysFn(c->mem, cb_lin)); if (cf.msbj) OK(CVodeSetJacEvalFrequency(c->mem, cf.msbj)); if (cf.scal && cf.jac != 2 && cf.lmm == CV_BDF) OK(CVodeSetLinearSolutionScaling(c->mem, cf.scal - 1)); }
  if (cf.ls >= 4) {
    if (cf.jt) { use_jts = cf.jts; OK(CVodeSetJacTimes(c->mem, cf.jts ? cb_jts : NULL, cb_jt)); }
    if (cf.pre) { if (cf.prek == 0) OK(CVodeSetPreconditioner(c->mem, cb_pset, cb_ps)); else if (cf.prek == 1) OK(CVBandPrecInit(c->mem, pb.n, pb.mu, pb.ml)); else OK(CVBBDPrecInit(c->mem, pb.n, pb.mu, pb.ml, pb.mu, pb.ml, 0., cb_gloc, NULL)); }
    if (cf.epslin > 0) OK(CVodeSetEpsLin(c->mem, cf.epslin));
    if (cf.nrmfac != 0) OK(CVodeSetLSNormFactor(c->mem, cf.nrmfac));
  }
  if (cf.maxord) OK(CVodeSetMaxOrd(c->mem, cf.maxord));
  if (cf.stab) OK(CVodeSetStabLimDet(c->mem, SUNTRUE));
  if (cf.h0 > 0) OK(CVodeSetInitStep(c->mem, pb.t1 > pb.t0 ? cf.h0 : -cf.h0));
  if (cf.hmin > 0) OK(CVodeSetMinStep(c->mem, cf.hmin));
  if (cf.hmax > 0) OK(CVodeSetMaxStep(c->mem, cf.hmax));
  if (cf.maxnl) OK(CVodeSetMaxNonlinIters(c->mem, cf.maxnl));
  if (cf.nlcoef > 0) OK(CVodeSetNonlinConvCoef(c->mem, cf.nlcoef));
  if (cf.msbp) OK(CVodeSetLSetupFrequency(c->mem, cf.msbp));
  if (cf.constr) OK(CVodeSetConstraints(c->mem, c->cv));
  if (cf.zero_opt) { OK(CVodeSetMaxConvFails(c->mem, 10)); OK(CVodeSetMaxErrTestFails(c->mem, 7)); OK(CVodeSetMaxHnilWarns(c->mem, 3)); }
  OK(CVodeSetMaxNumSteps(c->mem, 100000));
}
static void cv_free(CV *c) {
  CVodeFree(&c->mem); if (c->mem) fail("free", "the pointer is left");
  N_VDestroy(c->y); N_VDestroy(c->av); N_VDestroy(c->cv);
  if (c->LS) SUNLinSolFree(c->LS);
  if (c->A) SUNMatDestroy(c->A);
  if (c->NL) SUNNonlinSolFree(c->NL);
}
/* settings under which nothing may go wrong */
static int robust(void) { return (cf.ls == 1 || cf.ls == 2) && !cf.maxnl && !(cf.nlcoef > 0) && !cf.constr; }
static double wnorm(const double *e, const double *y) { int i; double s = 0; for (i = 0; i < pb.n; i++) { double w = e[i] / (tol_r * fabs(y[i]) + tol_a[i]); s += w * w; } return sqrt(s / pb.n); }
#endif
