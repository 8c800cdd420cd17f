/* Monitor of the solver of implicit systems F(t, y, y') = 0 in the solver library: systems with algebraic components, made
   from the equations of the other monitors, so that the same reference in extended precision judges them. */
#include "fzv_sun.h"
#define one_case unused_case
static void unused_case(const char *mode, long ic, int arg);
#include "fzv_cvs.c"
#undef one_case
#include <idas/idas.h>
#include <idas/idas_ls.h>
#define AM 3
#define TN (PN + AM)
static int am, tn_;                                        /* algebraic components, all components */
static double az[AM], bz[AM], cz[AM], be[PN], sc[TN]; static int ia[AM], ib[AM];
static double zz(int k, double t, const double *y) { return az[k] * y[ia[k]] + bz[k] * sin(y[ib[k]]) + cz[k] * cos(pb.w * t); }
static double dzz(int k, const double *y, int j) { return (j == ia[k] ? az[k] : 0) + (j == ib[k] ? bz[k] * cos(y[ib[k]]) : 0); }
static struct { long r, jac, ps, psol, jt, jts, rs, g, q, qs, rB, qB; } i_;
static long fn_, fper; static int fk, frc, fonce;            /* residual call that fails */
static int ic_;                                             /* during the correction of start values */
static int F(double t, const double *y, const double *yp, double *r) {
  double f[PN]; int i, k;
  f_d(t, y, pu, f);
  for (i = 0; i < pb.n; i++) { r[i] = yp[i] - f[i]; if (am) { k = i % am; r[i] -= be[i] * (y[pb.n + k] - zz(k, t, y)); } r[i] *= sc[i]; }
  for (k = 0; k < am; k++) r[pb.n + k] = sc[pb.n + k] * (y[pb.n + k] - zz(k, t, y));
  return 0;
}
static int cb_F(realtype t, N_Vector y, N_Vector yp, N_Vector r, void *u) {
  UD(u); i_.r++; if (!ic_) seen(t);
  if (fk && (fonce == 1 ? i_.r == fn_ : i_.r >= fn_ && (!fonce || (i_.r - fn_) % fper == 0))) { fails_++; return frc; }
  return F(t, DP(y), DP(yp), DP(r));
}
static void JF(double t, double cj, const double *y, double (*J)[TN]) {
  double q[PN][PN]; int i, j, k; (void)t;
  jac_d(t, y, pu, q); memset(J, 0, sizeof(double) * TN * TN);
  for (i = 0; i < pb.n; i++) {
    for (j = 0; j < pb.n; j++) J[i][j] = sc[i] * ((i == j) * cj - q[i][j] + (am ? be[i] * dzz(i % am, y, j) : 0));
    if (am) J[i][pb.n + i % am] = -sc[i] * be[i];
  }
  for (k = 0; k < am; k++) { for (j = 0; j < pb.n; j++) J[pb.n + k][j] = -sc[pb.n + k] * dzz(k, y, j); J[pb.n + k][pb.n + k] = sc[pb.n + k]; }
}
static double W[TN][TN]; static int WP[TN]; static double Wcj;
static void lu2(double (*M)[TN], int *P, int n) {
  int i, j, k, p; for (k = 0; k < n; k++) { p = k; for (i = k + 1; i < n; i++) if (fabs(M[i][k]) > fabs(M[p][k])) p = i; P[k] = p;
    for (j = 0; j < n; j++) { double t = M[k][j]; M[k][j] = M[p][j]; M[p][j] = t; } if (M[k][k] == 0) M[k][k] = 1e-30;
    for (i = k + 1; i < n; i++) { M[i][k] /= M[k][k]; for (j = k + 1; j < n; j++) M[i][j] -= M[i][k] * M[k][j]; } }
}
static void lusol2(double (*M)[TN], int *P, int n, double *b) {
  int i, k; for (k = 0; k < n; k++) { double t = b[k]; b[k] = b[P[k]]; b[P[k]] = t; }
  for (k = 0; k < n; k++) for (i = k + 1; i < n; i++) b[i] -= M[i][k] * b[k];
  for (k = n - 1; k >= 0; k--) { b[k] /= M[k][k]; for (i = 0; i < k; i++) b[i] -= M[i][k] * b[k]; }
}
static void put(SUNMatrix A, double (*q)[TN], int n) { int i, j; for (j = 0; j < n; j++) for (i = 0; i < n; i++) if (SUNMatGetID(A) == SUNMATRIX_DENSE) SUNDenseMatrix_Column(A, j)[i] = q[i][j]; else SUNBandMatrix_Column(A, j)[i - j] = q[i][j]; }
static int cb_J(realtype t, realtype cj, N_Vector y, N_Vector yp, N_Vector r, SUNMatrix A, void *u, N_Vector a, N_Vector b, N_Vector c) {
  double q[TN][TN]; (void)yp; (void)r; (void)a; (void)b; (void)c; UD(u); i_.jac++; if (!ic_) seen(t);
  JF(t, cj, DP(y), q); put(A, q, tn_); return 0;
}
static int cb_P(realtype t, N_Vector y, N_Vector yp, N_Vector r, realtype cj, void *u) { (void)yp; (void)r; UD(u); i_.ps++; if (!ic_) seen(t); JF(t, cj, DP(y), W); lu2(W, WP, tn_); Wcj = cj; return 0; }
static int cb_S(realtype t, N_Vector y, N_Vector yp, N_Vector r, N_Vector b, N_Vector z, realtype cj, realtype delta, void *u) {
  (void)y; (void)yp; (void)r; (void)cj; UD(u); i_.psol++; if (!ic_) seen(t); if (!(delta >= 0) || !i_.ps) cberr_ = 3;
  memcpy(DP(z), DP(b), sizeof(double) * tn_); lusol2(W, WP, tn_, DP(z)); return 0;
}
static int cb_JS(realtype t, N_Vector y, N_Vector yp, N_Vector r, realtype cj, void *u) { (void)y; (void)yp; (void)r; (void)cj; UD(u); i_.jts++; if (!ic_) seen(t); return 0; }
static int cb_JT(realtype t, N_Vector y, N_Vector yp, N_Vector r, N_Vector v, N_Vector Jv, realtype cj, void *u, N_Vector a, N_Vector b) {
  double q[TN][TN]; int i, j; (void)yp; (void)r; (void)a; (void)b; UD(u); i_.jt++; if (!ic_) seen(t);
  JF(t, cj, DP(y), q); for (i = 0; i < tn_; i++) { double s = 0; for (j = 0; j < tn_; j++) s += q[i][j] * DP(v)[j]; DP(Jv)[i] = s; } return 0;
}
static double gt_[2]; static int gk_[2], ng_; static double gc_;
static int cb_G(realtype t, N_Vector y, N_Vector yp, realtype *g, void *u) { int k; (void)yp; UD(u); i_.g++; for (k = 0; k < ng_; k++) g[k] = gk_[k] ? DP(y)[0] - gc_ : t - gt_[k]; return 0; }
static int cb_Q(realtype t, N_Vector y, N_Vector yp, N_Vector q, void *u) { (void)yp; UD(u); i_.q++; seen(t); fq_d(t, DP(y), pu, DP(q)); return 0; }
static int ns_, ism_, prm_[PP];
static int cb_RS(int Ns, realtype t, N_Vector y, N_Vector yp, N_Vector r, N_Vector *s, N_Vector *sp, N_Vector *o, void *u, N_Vector a, N_Vector b, N_Vector c) {
  double q[TN][TN], d[PN]; int i, j, k; (void)yp; (void)r; (void)a; (void)b; (void)c; UD(u); i_.rs++; if (!ic_) seen(t); if (Ns != ns_) cberr_ = 7;
  JF(t, 0, DP(y), q);
  for (k = 0; k < ns_; k++) { dfdp_d(t, DP(y), pu, prm_[k], d); for (i = 0; i < tn_; i++) { double v = i < pb.n ? sc[i] * (DP(sp[k])[i] - d[i]) : 0; for (j = 0; j < tn_; j++) v += q[i][j] * DP(s[k])[j]; DP(o[k])[i] = v; } }
  return 0;
}
static int cb_QS(int Ns, realtype t, N_Vector y, N_Vector yp, N_Vector *s, N_Vector *sp, N_Vector q, N_Vector *o, void *u, N_Vector a, N_Vector b, N_Vector c) {
  int k; (void)yp; (void)sp; (void)q; (void)a; (void)b; (void)c; UD(u); i_.qs++; if (Ns != ns_) cberr_ = 7;
  for (k = 0; k < ns_; k++) fqs_d(t, DP(y), pu, DP(s[k]), prm_[k], DP(o[k])); return 0;
}
static int cb_W(N_Vector y, N_Vector w, void *u) { int i; UD(u); for (i = 0; i < tn_; i++) DP(w)[i] = 1 / (tol_r * fabs(DP(y)[i]) + (i < pb.n ? tol_a[i] : cf.atol)); return 0; }
/* backward problem of integral 0: l' = -J^T l - q_y in implicit form, quadrature of its products with the parameters' derivatives */
static int cb_FB(realtype t, N_Vector y, N_Vector yp, N_Vector l, N_Vector lp, N_Vector r, void *u) {
  double q[PN][PN]; int i, j; (void)yp; UD(u); i_.rB++; jac_d(t, DP(y), pu, q);
  for (i = 0; i < pb.n; i++) { double v = DP(lp)[i] + 2 * DP(y)[i] / pb.n; for (j = 0; j < pb.n; j++) v += q[j][i] * DP(l)[j]; DP(r)[i] = v; } return 0;
}
static int cb_JB(realtype t, realtype cj, N_Vector y, N_Vector yp, N_Vector l, N_Vector lp, N_Vector r, SUNMatrix A, void *u, N_Vector a, N_Vector b, N_Vector c) {
  double q[PN][PN], o[TN][TN]; int i, j; (void)yp; (void)l; (void)lp; (void)r; (void)a; (void)b; (void)c; UD(u); jac_d(t, DP(y), pu, q);
  for (i = 0; i < pb.n; i++) for (j = 0; j < pb.n; j++) o[i][j] = (i == j) * cj + q[j][i];
  put(A, o, pb.n); return 0;
}
static int cb_QB(realtype t, N_Vector y, N_Vector yp, N_Vector l, N_Vector lp, N_Vector q, void *u) {
  double d[PN]; int i, k; (void)yp; (void)lp; UD(u); i_.qB++;
  for (k = 0; k < pb.np; k++) { dfdp_d(t, DP(y), pu, k, d); DP(q)[k] = 0; for (i = 0; i < pb.n; i++) DP(q)[k] -= d[i] * DP(l)[i]; } return 0;
}

typedef struct { void *mem; N_Vector y, yp, av, id, cn, *s, *sp, q, *qs, w; SUNMatrix A; SUNLinearSolver LS; SUNNonlinearSolver NL, NS; } ID;
static struct { int ls, jac, jts, pre, nl, ty, maxord, quad, qerr, sens, sdq, qsens, serr, root, ic, sup, alg_constr; double hmax, h0, eps; } jf;
static double y0_[TN], yp0_[TN];
static void draw(int adj) {
  int i, k, stiff = chance(0.4);
  memset(&cf, 0, sizeof cf); memset(&jf, 0, sizeof jf);
  problem(stiff, chance(0.2)); if (pb.fam == 3) pb.t1 = pb.t0 + 0.5 * (pb.t1 - pb.t0);
  cf.rtol = logu(adj ? -8 : -9, -4); cf.atol = cf.rtol * logu(-2, 0); cf.lmm = CV_BDF;
  am = adj ? 0 : irnd(0, AM); tn_ = pb.n + am;
  for (k = 0; k < am; k++) { ia[k] = irnd(0, pb.n - 1); ib[k] = irnd(0, pb.n - 1); az[k] = unif(-1, 1); bz[k] = unif(-1, 1); cz[k] = unif(-1, 1); }
  for (i = 0; i < pb.n; i++) be[i] = am ? unif(-1, 1) : 0;
  for (i = 0; i < tn_; i++) sc[i] = chance(0.5) ? 1 : sgn() * unif(0.5, 2);
  jf.ls = chance(0.5) ? irnd(1, 2) : irnd(4, 7); jf.jac = irnd(0, 1); jf.jts = irnd(0, 1); jf.pre = jf.ls >= 4; jf.nl = chance(0.3);
  jf.ty = irnd(0, 2); if (chance(0.2)) jf.maxord = irnd(3, 5); if (chance(0.2)) jf.hmax = fabs(pb.t1 - pb.t0) * logu(-2, 0); if (chance(0.2)) jf.h0 = logu(-8, -4); if (jf.ls >= 4 && chance(0.3)) jf.eps = unif(0.01, 0.1);
  jf.quad = chance(0.4); jf.qerr = chance(0.5); jf.sens = !adj && chance(0.35); jf.sdq = chance(0.4); jf.qsens = jf.sens && jf.quad && chance(0.6); jf.serr = chance(0.6); jf.root = chance(0.4); jf.ic = chance(0.35); jf.sup = chance(0.2);
  if (jf.sens && pb.fam == 3) jf.sens = jf.qsens = 0;   /* dy/dp of the kinetics spans many orders of magnitude */
  if (jf.sens && jf.sdq) { cf.rtol = logu(-5, -3.5); cf.atol = cf.rtol * logu(-2, 0); jf.ic = 0; }   /* difference quotients of residuals are noisy when steps are short */
  ns_ = jf.sens ? irnd(1, pb.np) : 0; ism_ = chance(0.5) ? IDA_SIMULTANEOUS : IDA_STAGGERED; for (k = 0; k < ns_; k++) prm_[k] = (k + (pb.np > ns_)) % pb.np;
  memcpy(pu, pb.p, sizeof pb.p); for (i = 0; i < pb.n; i++) pu[PP + i] = 1;
  tol_r = cf.rtol; for (i = 0; i < pb.n; i++) { tol_a[i] = cf.atol * (jf.ty == 1 ? 1 + 0.5 * i : 1); if (pb.fam == 3 && i == 1 && jf.ty) tol_a[i] *= 1e-2; }
  memcpy(y0_, pb.y0, sizeof(double) * pb.n); for (k = 0; k < am; k++) y0_[pb.n + k] = zz(k, pb.t0, y0_);
  f_d(pb.t0, y0_, pu, yp0_);
  for (k = 0; k < am; k++) { yp0_[pb.n + k] = -cz[k] * pb.w * sin(pb.w * pb.t0); for (i = 0; i < pb.n; i++) yp0_[pb.n + k] += dzz(k, y0_, i) * yp0_[i]; }
  adddesc("%s n %d+%d t %.4g..%.4g ls %s jac %d jts %d tol %d %.1e %.1e maxord %d hmax %.2g quad %d/%d sens %d/%d dq %d err %d qs %d root %d ic %d sup %d; ", famn[pb.fam], pb.n, am, pb.t0, pb.t1, lsn[jf.ls], jf.jac, jf.jts, jf.ty, cf.rtol, cf.atol,
    jf.maxord, jf.hmax, jf.quad, jf.qerr, ns_, ism_, jf.sdq, jf.serr, jf.qsens, jf.root, jf.ic, jf.sup);
  sigmix(pb.fam * 16 + pb.n); sigmix(jf.ls * 1000 + am * 100 + jf.quad * 10 + ns_); sigd(cf.rtol); sigd(pb.p[0]);
}
static void id_new(ID *c) {
  int i, k; double mu = tn_ - 1;
  memset(c, 0, sizeof *c); (void)mu;
  c->y = N_VNew_Serial(tn_, sunctx_); c->yp = N_VClone(c->y); c->av = N_VClone(c->y); c->id = N_VClone(c->y); c->w = N_VClone(c->y);
  memcpy(DP(c->y), y0_, sizeof(double) * tn_); memcpy(DP(c->yp), yp0_, sizeof(double) * tn_);
  for (i = 0; i < tn_; i++) { DP(c->av)[i] = i < pb.n ? tol_a[i] : cf.atol; DP(c->id)[i] = i < pb.n; }
  c->mem = IDACreate(sunctx_); if (!c->mem) { fail("create", "nothing made"); return; }
  OK(IDASetErrHandlerFn(c->mem, cb_err, NULL));
  OK(IDAInit(c->mem, cb_F, pb.t0, c->y, c->yp));
  OK(IDASetUserData(c->mem, &ud_)); OK(IDASetId(c->mem, c->id));
  if (jf.ty == 0) OK(IDASStolerances(c->mem, cf.rtol, cf.atol)); else if (jf.ty == 1) OK(IDASVtolerances(c->mem, cf.rtol, c->av)); else OK(IDAWFtolerances(c->mem, cb_W));
  if (jf.nl) { c->NL = SUNNonlinSol_Newton(c->y, sunctx_); OK(IDASetNonlinearSolver(c->mem, c->NL)); }
  if (jf.ls == 1) c->A = SUNDenseMatrix(tn_, tn_, sunctx_);
  if (jf.ls == 2) c->A = SUNBandMatrix(tn_, tn_ - 1, tn_ - 1, sunctx_);
  c->LS = mkls(jf.ls, c->y, c->A, jf.ls == 5 ? 2 : 1, 0, SUN_MODIFIED_GS); OK(IDASetLinearSolver(c->mem, c->LS, c->A));
  if (jf.ls <= 2) { if (jf.jac) OK(IDASetJacFn(c->mem, cb_J)); }
  else { OK(IDASetPreconditioner(c->mem, cb_P, cb_S)); if (jf.jac) OK(IDASetJacTimes(c->mem, jf.jts ? cb_JS : NULL, cb_JT)); if (jf.eps > 0) OK(IDASetEpsLin(c->mem, jf.eps)); }
  if (jf.maxord) OK(IDASetMaxOrd(c->mem, jf.maxord));
  if (jf.hmax > 0) OK(IDASetMaxStep(c->mem, jf.hmax));
  if (jf.h0 > 0) OK(IDASetInitStep(c->mem, pb.t1 > pb.t0 ? jf.h0 : -jf.h0));
  if (jf.sup) OK(IDASetSuppressAlg(c->mem, SUNTRUE));
  OK(IDASetMaxNumSteps(c->mem, 20000));
  if (jf.quad) { c->q = N_VNew_Serial(2, sunctx_); N_VConst(0, c->q); OK(IDAQuadInit(c->mem, cb_Q, c->q)); OK(IDASetQuadErrCon(c->mem, jf.qerr)); if (jf.qerr) OK(IDAQuadSStolerances(c->mem, cf.rtol, cf.atol)); }
  if (ns_) {
    double pbar[PP]; c->s = N_VCloneVectorArray(ns_, c->y); c->sp = N_VCloneVectorArray(ns_, c->y);
    for (k = 0; k < ns_; k++) { double d[PN]; int j; N_VConst(0, c->s[k]); N_VConst(0, c->sp[k]); dfdp_d(pb.t0, y0_, pu, prm_[k], d); memcpy(DP(c->sp[k]), d, sizeof(double) * pb.n); for (i = 0; i < am; i++) for (j = 0; j < pb.n; j++) DP(c->sp[k])[pb.n + i] += dzz(i, y0_, j) * d[j]; pbar[k] = fabs(pb.p[prm_[k]]) > 1e-3 ? fabs(pb.p[prm_[k]]) : 1; }
    OK(IDASensInit(c->mem, ns_, ism_, jf.sdq ? NULL : cb_RS, c->s, c->sp));
    OK(IDASetSensParams(c->mem, pu, pbar, prm_)); OK(IDASensEEtolerances(c->mem)); OK(IDASetSensErrCon(c->mem, jf.serr));
    if (jf.qsens) { c->qs = N_VCloneVectorArray(ns_, c->q); for (k = 0; k < ns_; k++) N_VConst(0, c->qs[k]); OK(IDAQuadSensInit(c->mem, jf.sdq ? NULL : cb_QS, c->qs)); OK(IDAQuadSensEEtolerances(c->mem)); OK(IDASetQuadSensErrCon(c->mem, jf.qerr)); }
  }
  if (jf.root) OK(IDARootInit(c->mem, ng_, cb_G));
}
static void id_free(ID *c) {
  IDAFree(&c->mem); if (c->mem) fail("free", "the pointer is left");
  N_VDestroy(c->y); N_VDestroy(c->yp); N_VDestroy(c->av); N_VDestroy(c->id); N_VDestroy(c->w);
  if (c->q) N_VDestroy(c->q);
  if (c->qs) N_VDestroyVectorArray(c->qs, ns_);
  if (c->s) { N_VDestroyVectorArray(c->s, ns_); N_VDestroyVectorArray(c->sp, ns_); }
  if (c->LS) SUNLinSolFree(c->LS);
  if (c->A) SUNMatDestroy(c->A);
  if (c->NL) SUNNonlinSolFree(c->NL);
}
/* settings under which nothing may go wrong */
static int solid(void) { return jf.ls <= 2 && !(ns_ && jf.sdq); }
static double es_, eq_;
/* solution, sensitivities, integrals at T against the reference */
static int judge(ID *c, double T, long nst, const char *what) {
  const double *rf = ref_at(T); double e[PN], w, lim = (20 + nst) * amp * (jf.sup ? 3 : 1); int i, j, k;
  if (!ref_ok) return 0;
  for (j = 0; j < pb.n; j++) e[j] = DP(c->y)[j] - rf[j];
  w = wnorm(e, top_); if (w > maxerr_) maxerr_ = w;
  if (!within("error over amplification", w, lim)) { fail("accuracy", "%s, at %.17g the error is %.3g times the tolerance (errors can grow by %.3g)", what, T, w, amp); return 1; }
  if (!jf.sup) for (k = 0; k < am; k++) { double z = zz(k, T, rf), t = cf.rtol * fabs(z) + cf.atol; for (j = 0; j < pb.n; j++) t += fabs(dzz(k, rf, j)) * (tol_r * top_[j] + tol_a[j]); w = fabs(DP(c->y)[pb.n + k] - z) / t;
    if (!within("error of algebraic components", w, 3 * lim)) { fail("algebraic", "%s, at %.17g component %d is %.17g, should be %.17g, %.3g times the tolerance", what, T, k, DP(c->y)[pb.n + k], z, w); return 1; } }
  if (ns_) {
    realtype ts; LD *S = ref_ + pb.n; int r = IDAGetSens(c->mem, &ts, c->s);
    if (r || ts != T) { fail("sens", "IDAGetSens returned %d, t %.17g for %.17g", r, ts, T); return 1; }
    for (k = 0; k < ns_; k++) { double pbk = fabs(pb.p[prm_[k]]) > 1e-3 ? fabs(pb.p[prm_[k]]) : 1, sm = 0; for (i = 0; i < pb.n; i++) sm = fmax(sm, fabs((double)S[pb.n * k + i])); es_ = fmax(es_, sm);
      for (i = 0; i < pb.n; i++) { double d = fabs(DP(c->s[k])[i] - (double)S[pb.n * k + i]), t = cf.rtol * es_ + cf.atol / pbk; t += jf.sdq ? 2e-5 * es_ * sqrt(cf.rtol) + cf.rtol : 0; if (!jf.serr) t *= 10;
        if (!within("error of sensitivities", d / t, 50 * lim)) { fail("sensitivity", "%s, at %.17g element %d of sensitivity %d is %.17g, should be %.17g", what, T, i, k, DP(c->s[k])[i], (double)S[pb.n * k + i]); return 1; } } }
    EV("sensitivities compared");
  }
  if (jf.quad && (jf.qerr || pb.fam == 1 || pb.fam == 4 || pb.fam >= 6)) {   /* outside the error test only where the steps resolve the integrand anyway */
    realtype tq; LD *Q = ref_ + pb.n * (1 + ns_); int r = IDAGetQuad(c->mem, &tq, c->q);
    if (r || tq != T) { fail("quad", "IDAGetQuad returned %d, t %.17g for %.17g", r, tq, T); return 1; }
    for (i = 0; i < 2; i++) { double tm = 0, t; for (j = 0; j < pb.n; j++) tm = fmax(tm, top_[j]); eq_ = fmax(eq_, fabs((double)Q[i])); t = cf.rtol * (eq_ + (1 + tm) * (1 + tm) * (1 + fabs(pb.t1 - pb.t0)) * 3) + cf.atol; w = fabs(DP(c->q)[i] - (double)Q[i]) / t;
      if (!within("error of integrals", w, (jf.qerr ? 1 : 30) * lim)) { fail("integral", "%s, at %.17g integral %d is %.17g, should be %.17g", what, T, i, DP(c->q)[i], (double)Q[i]); return 1; } }
    EV("integrals compared");
    if (jf.qsens) {
      r = IDAGetQuadSens(c->mem, &tq, c->qs); if (r || tq != T) { fail("quad-sens", "IDAGetQuadSens returned %d, t %.17g for %.17g", r, tq, T); return 1; }
      for (k = 0; k < ns_; k++) for (i = 0; i < 2; i++) { double v = (double)Q[2 + 2 * k + i], tm = 0, t, d = fabs(DP(c->qs[k])[i] - v); for (j = 0; j < pb.n; j++) tm = fmax(tm, top_[j]); t = (1 + es_) * (1 + tm) * (1 + fabs(pb.t1 - pb.t0)) * 3 * cf.rtol * (1 + 1 / (fabs(pb.p[prm_[k]]) + 1e-3)) + fabs(v) * cf.rtol; if (jf.sdq) t += (1 + es_) * (1 + tm) * 3e-5 * sqrt(cf.rtol);
        if (!within("error of sensitivities of integrals", d / t, 100 * lim)) { fail("quad-sensitivity", "%s, at %.17g integral %d, sensitivity %d is %.17g, should be %.17g", what, T, i, k, DP(c->qs[k])[i], v); return 1; } }
      EV("sensitivities of integrals compared");
    }
  }
  EV("solutions compared"); return 0;
}
/* after each return */
static void glance(ID *c, double T) {
  realtype tn, hu, hc, cj, tq; int q, qc, i, k, r; long nst; double mx;
  OK(IDAGetCurrentTime(c->mem, &tn)); OK(IDAGetLastStep(c->mem, &hu)); OK(IDAGetCurrentStep(c->mem, &hc)); OK(IDAGetLastOrder(c->mem, &q)); OK(IDAGetCurrentOrder(c->mem, &qc)); OK(IDAGetNumSteps(c->mem, &nst)); OK(IDAGetCurrentCj(c->mem, &cj));
  for (i = 0; i < tn_; i++) { trace(DP(c->y)[i]); trace(DP(c->yp)[i]); } trace(T); trace(tn); trace(hu); trace(q); trace(hc);
  if (cberr_) { fail("callback", "a callback was given something wrong (%d)", cberr_); return; }
  if (past_ || (lim_on && (tn - lim_) * dir_ > 0)) { fail("past-stop", "stop at %.17g passed, internal time %.17g", lim_, tn); return; }
  if (!nst) return;
  if ((T - (tn - hu)) * dir_ < -300 * EPS * (fabs(tn) + fabs(hu)) || (T - tn) * dir_ > 300 * EPS * (fabs(tn) + fabs(hu))) { fail("interval", "returned %.17g, last step %.17g to %.17g", T, tn - hu, tn); return; }
  if (hu * dir_ <= 0 || (jf.hmax > 0 && fabs(hu) > jf.hmax * (1 + 1e-12))) { fail("step", "step %.17g with at most %.17g", hu, jf.hmax); return; }
  if (q < 1 || qc < 1 || q > (jf.maxord ? jf.maxord : 5) || qc > (jf.maxord ? jf.maxord : 5) || q > nst) { fail("order", "orders %d and %d after %ld steps", q, qc, nst); return; }
  if (!(cj * dir_ > 0)) { fail("cj", "cj %.17g", cj); return; }
  for (k = 0; k <= (T != tn); k++) {   /* after a whole step the derivative is the corrector's, not the polynomial's */
    r = IDAGetDky(c->mem, T, k, c->w); if (r) { fail("dky", "derivative %d at %.17g: %d", k, T, r); return; }
    for (i = 0, mx = 0; i < tn_; i++) mx = fmax(mx, fabs(DP(c->y)[i]));
    for (i = 0; i < tn_; i++) { double a = DP(c->w)[i], b = k ? DP(c->yp)[i] : DP(c->y)[i]; if (fabs(a - b) > 1e-9 * (fabs(a) + fabs(b) + mx / (k ? fabs(hu) : 1))) { fail("dky", "derivative %d of component %d at %.17g (%.17g of the step): %.17g returned, %.17g from the dense output, order %d", k, i, T, (tn - T) / hu, b, a, q); return; } }
  }
  if (IDAGetDky(c->mem, T, 6, c->w) != IDA_BAD_K || IDAGetDky(c->mem, tn - 1.5 * hu - 0.01 * dir_, 0, c->w) != IDA_BAD_T || IDAGetDky(c->mem, T, 0, NULL) != IDA_BAD_DKY) { fail("dky-refused", "dense output outside its range"); return; }
  if (jf.quad && chance(0.3)) { N_Vector d = N_VClone(c->q); OK(IDAGetQuad(c->mem, &tq, c->q)); OK(IDAGetQuadDky(c->mem, T, 0, d)); for (i = 0; i < 2; i++) if (fabs(DP(d)[i] - DP(c->q)[i]) > 1e-12 * (1 + fabs(DP(d)[i]))) fail("quad-dky", "integral %d: %.17g and %.17g", i, DP(c->q)[i], DP(d)[i]); N_VDestroy(d); }
  EV("returns looked at");
}
/* attempts that ended in the staggered part: the residual made before it is not counted */
static long stgf(ID *c) { long a = 0, b = 0, d; if (!ns_) return 0; OK(IDAGetSensNumErrTestFails(c->mem, &a)); OK(IDAGetSensNumNonlinSolvConvFails(c->mem, &b)); d = 0; if (jf.qsens) OK(IDAGetQuadSensNumErrTestFails(c->mem, &d)); if (ism_ == IDA_STAGGERED && a && !jf.serr) fail("count-sens", "%ld rejections for sensitivities that take no part in the error test", a); if (a) EV("with steps rejected for sensitivities"); if (d) EV("with steps rejected for integral sensitivities"); return a + b + d + (fk ? fails_ : 0); }
static void tally(ID *c) {
  long nst, nr, nset, netf, nni, ncf, a, b, x, d; int q, qc; realtype h0, hu, hc, tn;
  OK(IDAGetIntegratorStats(c->mem, &nst, &nr, &nset, &netf, &q, &qc, &h0, &hu, &hc, &tn)); OK(IDAGetNonlinSolvStats(c->mem, &nni, &ncf));
  OK(IDAGetNumResEvals(c->mem, &a)); OK(IDAGetNumNonlinSolvIters(c->mem, &b)); if (a != nr || b != nni) fail("stats", "the same counter read in two ways differs");
  OK(IDAGetNumErrTestFails(c->mem, &a)); OK(IDAGetNumLinSolvSetups(c->mem, &b)); if (a != netf || b != nset) fail("stats", "the same counter read in two ways differs");
  if (!ns_) {
    OK(IDAGetNumLinResEvals(c->mem, &x));
    if (nr + x != i_.r) { fail("count-res", "%ld and %ld residuals counted, %ld made", nr, x, i_.r); return; }
  } else {
    long ls = 0, rs = 0; OK(IDAGetNumLinResEvals(c->mem, &x)); OK(IDAGetSensNumResEvals(c->mem, &rs)); OK(IDAGetNumResEvalsSens(c->mem, &ls));
    if (!jf.sdq && rs != i_.rs) { fail("count-sens", "%ld sensitivity residuals counted, %ld made", rs, i_.rs); return; }
    if (jf.sdq ? !ls : ls) { fail("count-sens", "%ld residuals counted for difference quotients", ls); return; }
    if (ism_ == IDA_STAGGERED ? i_.r - (nr + x + ls) < nst || i_.r - (nr + x + ls) > nst + netf + ncf + stgf(c) : nr + x + ls != i_.r) { fail("count-res", "%ld, %ld and %ld residuals counted, %ld made", nr, x, ls, i_.r); return; }
    if (ism_ == IDA_STAGGERED) { OK(IDAGetSensNonlinSolvStats(c->mem, &a, &b)); if (jf.serr ? a < nst / 2 : 0) { fail("count-sens", "%ld iterations in %ld steps", a, nst); return; } }
  }
  OK(IDAGetNumJacEvals(c->mem, &a)); OK(IDAGetNumPrecEvals(c->mem, &b)); OK(IDAGetNumPrecSolves(c->mem, &d));
  if (jf.ls <= 2 && jf.jac && a != i_.jac) { fail("count-jac", "%ld counted, %ld made", a, i_.jac); return; }
  if (jf.ls <= 2 && !ns_ && a > nset) { fail("count-jac", "%ld Jacobians in %ld setups", a, nset); return; }
  if (jf.ls >= 4 && (b != i_.ps || d != i_.psol)) { fail("count-prec", "%ld and %ld counted, %ld and %ld made", b, d, i_.ps, i_.psol); return; }
  OK(IDAGetNumJtimesEvals(c->mem, &a)); OK(IDAGetNumJTSetupEvals(c->mem, &b));
  if (jf.ls >= 4 && jf.jac && (a != i_.jt || b != i_.jts)) { fail("count-jt", "%ld and %ld counted, %ld and %ld made", a, b, i_.jt, i_.jts); return; }
  OK(IDAGetNumLinIters(c->mem, &a)); OK(IDAGetNumLinConvFails(c->mem, &b)); if (jf.ls <= 2 && (a || b)) { fail("count-lin", "%ld iterations", a); return; }
  if (jf.root) { OK(IDAGetNumGEvals(c->mem, &a)); if (a != i_.g) { fail("count-root", "%ld counted, %ld made", a, i_.g); return; } }
  if (jf.quad) { OK(IDAGetQuadNumRhsEvals(c->mem, &a)); if (a + (jf.qsens && jf.sdq ? i_.q - a : 0) != i_.q) { fail("count-quad", "%ld counted, %ld made", a, i_.q); return; } }
  trace(nst); trace(nr); trace(nset); trace(netf); trace(nni); trace(ncf); nfe_ = i_.r; pnst = nst; EV("counters compared"); if (netf) stat_add("rejected steps", netf); if (ncf) stat_add("convergence failures", ncf);
}
/* consistent start values from wrong ones */
static void startvalues(ID *c) {
  int i, k, flag, opt = chance(0.6) ? IDA_YA_YDP_INIT : IDA_Y_INIT; double w0 = 0;
  if (opt == IDA_Y_INIT && !0) opt = IDA_YA_YDP_INIT;
  for (i = 0; i < pb.n; i++) DP(c->yp)[i] = yp0_[i] * unif(0.5, 1.5) + 0.1 * gauss();
  for (k = 0; k < am; k++) DP(c->y)[pb.n + k] = y0_[pb.n + k] + gauss();
  OK(IDAReInit(c->mem, pb.t0, c->y, c->yp)); memset(&i_, 0, sizeof i_);
  if (chance(0.3)) { OK(IDASetLineSearchOffIC(c->mem, SUNTRUE)); } if (chance(0.3)) OK(IDASetNonlinConvCoefIC(c->mem, unif(0.001, 0.01)));
  ic_ = 1; flag = IDACalcIC(c->mem, opt, pb.t0 + 0.1 * (pb.t1 - pb.t0)); ic_ = 0;
  if ((flag == IDA_LINESEARCH_FAIL || flag == IDA_NO_RECOVERY || flag == IDA_CONV_FAIL) && jf.ls > 2) { EV("start values not corrected"); memcpy(DP(c->y), y0_, sizeof(double) * tn_); memcpy(DP(c->yp), yp0_, sizeof(double) * tn_); OK(IDAReInit(c->mem, pb.t0, c->y, c->yp)); if (ns_) OK(IDASensReInit(c->mem, ism_, c->s, c->sp)); memset(&i_, 0, sizeof i_); return; }
  if (flag) { fail("ic", "correction of start values returned %d (%s)", flag, lastmsg); return; }
  OK(IDAGetConsistentIC(c->mem, c->y, c->yp));
  for (i = 0; i < pb.n; i++) if (DP(c->y)[i] != y0_[i]) { fail("ic-fixed", "differential component %d changed from %.17g to %.17g", i, y0_[i], DP(c->y)[i]); return; }
  for (k = 0; k < am; k++) { double t = cf.rtol * fabs(y0_[pb.n + k]) + cf.atol; w0 = fabs(DP(c->y)[pb.n + k] - y0_[pb.n + k]) / t; if (!within("error of corrected algebraic components", w0, 30)) { fail("ic", "algebraic component %d is %.17g, should be %.17g", k, DP(c->y)[pb.n + k], y0_[pb.n + k]); return; } }
  for (i = 0; i < pb.n; i++) { double J[PN][PN], t = 0; int j; jac_d(pb.t0, y0_, pu, J); for (j = 0; j < pb.n; j++) t += fabs(J[i][j]) * (cf.rtol * fabs(y0_[j]) + cf.atol); (void)t; if (fabs(DP(c->yp)[i] - yp0_[i]) > 1e-2 * (1 + fabs(yp0_[i])) ) { fail("ic", "derivative %d is %.17g, should be %.17g", i, DP(c->yp)[i], yp0_[i]); return; } }
  EV("start values corrected");
}
static void go(ID *c, uint64_t plan, int checked) {
  int k, i, no = 1 + (int)(plan % 5), task, flag, ones, rf[2]; realtype T = pb.t0, tout, t0 = pb.t0; long n0, n1; int seen_[2] = { 0, 0 };
  rng_seed(plan, 5); lim_on = past_ = cberr_ = 0; ntr_ = 0; dead_ = 0; maxerr_ = 0; es_ = eq_ = 0; for (i = 0; i < pb.n; i++) top_[i] = fabs(pb.y0[i]);
  memset(&i_, 0, sizeof i_); dir_ = pb.t1 > pb.t0 ? 1 : -1;
  if (jf.ic) { startvalues(c); if (n_fail) return; }
  for (k = 0; k < no && !n_fail; k++) {
    tout = k == no - 1 ? pb.t1 : t0 + (pb.t1 - t0) * unif(0.2, 0.8);
    if (chance(0.3)) { realtype tn; OK(IDAGetNumSteps(c->mem, &n0)); OK(IDAGetCurrentTime(c->mem, &tn)); if (!n0) tn = pb.t0; lim_ = chance(0.3) && (tout - tn) * dir_ > 0 ? tout : tn + (pb.t1 - pb.t0) * unif(0.02, 0.4); lim_on = 1; OK(IDASetStopTime(c->mem, lim_)); }
    task = chance(0.5) ? IDA_NORMAL : IDA_ONE_STEP; ones = task == IDA_NORMAL || k == no - 1 ? 200000 : irnd(1, 30);
    for (i = 0; i < ones; i++) {
      int judged = 0; OK(IDAGetNumSteps(c->mem, &n0));
      flag = IDASolve(c->mem, tout, &T, c->y, c->yp, task); OK(IDAGetNumSteps(c->mem, &n1));
      if (flag < 0) { dead_ = 1; trace(flag); EV("gave up"); if (flag == IDA_ILL_INPUT && jf.root && gk_[1] && strstr(lastmsg, "very near")) return;   /* y does not change within the tolerance of roots: documented */
        if (solid() || (flag != IDA_ERR_FAIL && flag != IDA_CONV_FAIL && flag != IDA_TOO_MUCH_ACC && flag != IDA_TOO_MUCH_WORK)) fail("gave-up", "returned %d at %.17g (%s)", flag, T, lastmsg); return; }
      trace(flag); glance(c, T); if (n_fail) return;
      if (flag == IDA_TSTOP_RETURN) { if (!lim_on || T != lim_) { fail("stop", "stop reported at %.17g, set to %.17g (%d)", T, lim_, lim_on); return; } lim_on = 0; judged = 1; EV("stops reached"); }
      else if (flag == IDA_ROOT_RETURN) {
        int j, any = 0; if (!jf.root) { fail("root", "root without functions"); return; } OK(IDAGetRootInfo(c->mem, rf));
        for (j = 0; j < ng_; j++) if (rf[j]) { double tl = 300 * EPS * (fabs(T) + fabs(pb.t1 - pb.t0)); any = 1; seen_[j]++;
          if (!gk_[j] && (fabs(T - gt_[j]) > tl || rf[j] != dir_ || seen_[j] > 1)) { fail("root", "function %d: root at %.17g reported at %.17g, direction %d, time %d", j, gt_[j], T, rf[j], seen_[j]); return; }
          if (gk_[j] && fabs(DP(c->y)[0] - gc_) > 1e-9 * (1 + fabs(gc_)) + 4 * tl * fabs(DP(c->yp)[0])) { fail("root", "reported at %.17g where y is %.17g, not %.17g", T, DP(c->y)[0], gc_); return; }
          if (gk_[j] && rf[j] * dir_ * DP(c->yp)[0] < -1e-6 * (1 + fabs(DP(c->yp)[0]))) { fail("root", "direction %d, derivative %.17g", rf[j], DP(c->yp)[0]); return; } }
        if (!any) { fail("root", "root return without a root at %.17g", T); return; } judged = 1; EV("roots found");
      } else if (flag == IDA_SUCCESS) {
        if (task == IDA_NORMAL && T != tout) { fail("output-time", "asked for %.17g, returned at %.17g", tout, T); return; }
        if (task == IDA_ONE_STEP) { realtype tn; OK(IDAGetCurrentTime(c->mem, &tn)); if (T != tn || (n1 != n0 + 1 && n1 != n0)) { fail("one-step", "%ld steps, returned at %.17g, current %.17g", n1 - n0, T, tn); return; } }
        judged = task == IDA_NORMAL || i % 8 == 0;
      } else { fail("flag", "returned %d", flag); return; }
      t0 = T;
      if (jf.root) { int j; for (j = 0; j < ng_; j++) if (!gk_[j] && !seen_[j] && (T - gt_[j]) * dir_ > 1e-9 * (1 + fabs(T)) && (gt_[j] - pb.t0) * dir_ > 1e-6) { fail("root-missed", "root at %.17g not reported by %.17g", gt_[j], T); return; } }
      if (checked && ref_ok && judged && judge(c, T, n1, "returned")) return;
      if (task == IDA_NORMAL && flag == IDA_SUCCESS) {
        realtype hu, tn; double u = u01(), v01 = u01(), e[PN], w; const double *r; int j; OK(IDAGetLastStep(c->mem, &hu)); OK(IDAGetCurrentTime(c->mem, &tn));
        if (v01 < 0.4 && checked && ref_ok) { OK(IDAGetDky(c->mem, tn - u * hu, 0, c->w)); r = ref_at(tn - u * hu); for (j = 0; j < pb.n; j++) e[j] = DP(c->w)[j] - r[j]; w = wnorm(e, top_); if (ref_ok && !within("error between steps", w, (20 + n1) * amp)) { fail("accuracy-between", "at %.17g the error is %.3g times the tolerance (errors can grow by %.3g)", tn - u * hu, w, amp); return; } EV("interpolated solutions compared"); }
        break;
      }
      if (task == IDA_ONE_STEP && (T - tout) * dir_ >= 0) break;
    }
    if ((t0 - pb.t1) * dir_ >= 0) break;
  }
  lim_on = 0; tally(c);
}
static void dae(void) {
  ID c, d; uint64_t plan; int k, old, fd;
  draw(0); plan = rng64() >> 1; fk = 0; ng_ = 2; gk_[0] = 0; gk_[1] = chance(0.5); gt_[0] = pb.t0 + (pb.t1 - pb.t0) * unif(0.05, 0.95); gt_[1] = pb.t0 + (pb.t1 - pb.t0) * unif(0.05, 0.95); gc_ = pb.y0[0] + unif(-0.3, 0.3);
  dir_ = pb.t1 > pb.t0 ? 1 : -1; lastmsg[0] = 0; ic_ = 0;
  ref_ok = 1; amplification(); refns_ = ns_; refq_ = jf.quad; for (k = 0; k < ns_; k++) refcol_[k] = prm_[k]; ref_set(); r_start(ref_); ref_t = pb.t0;
  id_new(&c); if (n_fail) return;
  rec_ = 1; go(&c, plan, 1); old = ntr_; fd = dead_;
  if (!n_fail && !dead_) {
    EV("integrations"); EV(famn[pb.fam]); { char b[40]; snprintf(b, sizeof b, "with linear solver %s", lsn[jf.ls]); EV(b); } if (am) EV("with algebraic components"); if (ns_) EV(ism_ == IDA_STAGGERED ? "staggered sensitivities" : "simultaneous sensitivities"); if (!ref_ok) EV("no reference");
    if (ref_ok && amp < 1e4 && !jf.maxord && !jf.sup && maxerr_ > 0) { mean("error", log10(maxerr_ / amp)); if (!ns_) mean("calls", log10(nfe_)); }
  }
  if (!n_fail && chance(0.4)) { rec_ = 0; id_new(&d); go(&d, plan, 0); EV("runs repeated"); if (!n_fail && (ntr_ != old || fd != dead_)) fail("rerun", "the repeated run has %d values, the first %d", ntr_, old); id_free(&d); }
  id_free(&c);
}
/* residuals that fail, too few steps, refusals */
static void dae_flt(void) {
  ID c; int flag, i; realtype T, tn; double y[TN];
  draw(0); jf.ic = jf.root = 0; ng_ = 0; rec_ = 1; ntr_ = 0; ref_ok = 1; ic_ = 0; lim_on = past_ = cberr_ = 0; dir_ = pb.t1 > pb.t0 ? 1 : -1; fk = 0; memset(&i_, 0, sizeof i_); amp = 1; fails_ = 0; lastmsg[0] = 0; fper = 1;
  amplification(); refns_ = ns_; refq_ = jf.quad; for (i = 0; i < ns_; i++) refcol_[i] = prm_[i]; ref_set(); r_start(ref_); ref_t = pb.t0; es_ = eq_ = maxerr_ = 0; for (i = 0; i < pb.n; i++) top_[i] = fabs(pb.y0[i]);
  if (!ns_ || !jf.sdq) jf.sdq = 0;
  id_new(&c); if (n_fail) return;
  switch (irnd(0, 4)) {
  case 0:          /* an unrecoverable failure */
    fk = 1; frc = -irnd(1, 9); fonce = 0; fper = 1; fn_ = irnd(1, 60);
    flag = IDASolve(c.mem, pb.t1, &T, c.y, c.yp, IDA_NORMAL);
    if (fails_ ? !(flag == IDA_RES_FAIL || (flag == IDA_LSETUP_FAIL && jf.ls <= 2 && !jf.jac) || (flag == IDA_LSOLVE_FAIL && jf.ls >= 4 && !jf.jac) || (flag == IDA_SRES_FAIL && ns_ && jf.sdq)) : flag != 0 && (solid() || (flag != IDA_CONV_FAIL && flag != IDA_ERR_FAIL && flag != IDA_TOO_MUCH_WORK))) fail("res-fail", "residual failed with %d at call %ld (%ld): returned %d", frc, fn_, fails_, flag);
    if (fails_ > 1) fail("res-fail", "called again after an unrecoverable failure");
    EV("unrecoverable residual failures"); break;
  case 1:          /* recoverable at the first call, and for ever */
    fk = 1; frc = irnd(1, 9); fonce = 0; fn_ = 1; if (!ns_ || !jf.sdq) {
      flag = IDASolve(c.mem, pb.t1, &T, c.y, c.yp, IDA_NORMAL);
      if (flag != IDA_REP_RES_ERR && flag != IDA_FIRST_RES_FAIL && flag != IDA_CONV_FAIL) fail("rep-fail", "every residual fails with %d: returned %d", frc, flag);
      if (i_.r > 30) fail("rep-fail", "%ld calls though all failed", i_.r);
      EV("recoverable failures for ever"); } break;
  case 2:          /* recoverable now and then: goes on, and stays accurate */
    fk = 1; frc = irnd(1, 9); fonce = chance(0.5) ? 1 : 2; fper = irnd(20, 200); fn_ = irnd(4, 80);
    if (jf.ls <= 2 && !jf.jac) jf.jac = 2, IDASetJacFn(c.mem, cb_J); else if (jf.ls >= 4 && !jf.jac) { jf.jac = 1; jf.jts = 0; OK(IDASetJacTimes(c.mem, NULL, cb_JT)); }
    flag = IDASolve(c.mem, pb.t1, &T, c.y, c.yp, IDA_NORMAL);
    if (flag == 0) { long n; OK(IDAGetNumSteps(c.mem, &n)); if (T != pb.t1) fail("output-time", "asked for %.17g, returned at %.17g", pb.t1, T); else judge(&c, T, n + 20 * fails_, "after failures"); if (!n_fail) tally(&c); EV("recoverable failures overcome"); }
    else if (solid() ? fonce == 1 : flag == IDA_TOO_MUCH_WORK) { if (solid()) fail("recover", "residual failed with %d once: returned %d (%s)", frc, flag, lastmsg); } else if ( (flag != IDA_ERR_FAIL && flag != IDA_CONV_FAIL && flag != IDA_REP_RES_ERR && flag != IDA_TOO_MUCH_ACC)) fail("recover", "residual failed with %d %ld times: returned %d (%s)", frc, fails_, flag, lastmsg);
    break;
  case 3: {        /* steps run out: exactly as many are made, and one can go on */
    long mx = irnd(1, 15), n, tot = 0; OK(IDASetMaxNumSteps(c.mem, mx));
    for (i = 0; i < 20000; i++) {
      flag = IDASolve(c.mem, pb.t1, &T, c.y, c.yp, IDA_NORMAL); OK(IDAGetNumSteps(c.mem, &n));
      if (flag == 0) break;
      if (flag != IDA_TOO_MUCH_WORK) { if (solid()) fail("steps", "returned %d", flag); break; }
      OK(IDAGetCurrentTime(c.mem, &tn)); if (T != tn || n - tot != mx) { fail("steps", "at most %ld steps: %ld made, returned %.17g, current %.17g", mx, n - tot, T, tn); break; }
      tot = n; EV("steps run out");
      if (i % 4 == 0 && judge(&c, T, n, "after too many steps")) break;
    }
    if (!n_fail && flag == 0) { if (n - tot > mx) fail("steps", "%ld steps", n - tot); judge(&c, T, n, "at the end"); }
    break; }
  default: {       /* refused */
    N_Vector z = N_VClone(c.y); N_VConst(-1, z); memcpy(y, DP(c.y), sizeof(double) * tn_);
#define BAD(call, want) do { int r_ = (call); if (r_ != (want)) fail("refusal", "%s returned %d, not %d", #call, r_, want); } while (0)
    BAD(IDASetMaxOrd(c.mem, 0), IDA_ILL_INPUT); BAD(IDASetMaxOrd(c.mem, 6), IDA_ILL_INPUT); BAD(IDASetMaxStep(c.mem, -1), IDA_ILL_INPUT); BAD(IDASStolerances(c.mem, -1e-3, 1e-3), IDA_ILL_INPUT); BAD(IDASStolerances(c.mem, 1e-3, -1e-3), IDA_ILL_INPUT);
    BAD(IDASVtolerances(c.mem, 1e-3, z), IDA_ILL_INPUT); BAD(IDASetNonlinConvCoef(c.mem, 0), IDA_ILL_INPUT); BAD(IDASetMaxStep(NULL, 1), IDA_MEM_NULL); BAD(IDASolve(NULL, 1, &T, c.y, c.yp, IDA_NORMAL), IDA_MEM_NULL);
    BAD(IDASolve(c.mem, pb.t1, &T, NULL, c.yp, IDA_NORMAL), IDA_ILL_INPUT); BAD(IDASolve(c.mem, pb.t1, &T, c.y, NULL, IDA_NORMAL), IDA_ILL_INPUT); BAD(IDASolve(c.mem, pb.t1, NULL, c.y, c.yp, IDA_NORMAL), IDA_ILL_INPUT); BAD(IDASolve(c.mem, pb.t1, &T, c.y, c.yp, 7), IDA_ILL_INPUT);
    BAD(IDASolve(c.mem, pb.t0, &T, c.y, c.yp, IDA_NORMAL), IDA_ILL_INPUT); BAD(IDACalcIC(c.mem, 0, pb.t1), IDA_ILL_INPUT); if (pb.t0 != 0) BAD(IDACalcIC(c.mem, IDA_YA_YDP_INIT, pb.t0), IDA_ILL_INPUT); BAD(IDAInit(c.mem, NULL, pb.t0, c.y, c.yp), IDA_ILL_INPUT); BAD(IDAReInit(c.mem, pb.t0, NULL, c.yp), IDA_ILL_INPUT);
    BAD(IDASetMaxErrTestFails(NULL, 3), IDA_MEM_NULL); BAD(IDAGetNumSteps(NULL, NULL), IDA_MEM_NULL); BAD(IDASetMaxNumStepsIC(c.mem, 0), IDA_ILL_INPUT); BAD(IDASetNonlinConvCoefIC(c.mem, 0), IDA_ILL_INPUT);
    if (!jf.quad) { realtype tq; BAD(IDAGetQuad(c.mem, &tq, z), IDA_NO_QUAD); } if (!ns_) { realtype tq; BAD(IDAGetSens(c.mem, &tq, &z), IDA_NO_SENS); }
    { void *m = IDACreate(sunctx_); OK(IDASetErrHandlerFn(m, cb_err, NULL)); BAD(IDASolve(m, pb.t1, &T, c.y, c.yp, IDA_NORMAL), IDA_NO_MALLOC); BAD(IDASStolerances(m, 1e-3, 1e-3), IDA_NO_MALLOC); BAD(IDAReInit(m, pb.t0, c.y, c.yp), IDA_NO_MALLOC); BAD(IDACalcIC(m, IDA_YA_YDP_INIT, pb.t1), IDA_NO_MALLOC); IDAFree(&m); }
    N_VDestroy(z); if (memcmp(y, DP(c.y), sizeof(double) * tn_)) fail("refusal", "the vector changed");
    if (!n_fail && jf.ty) break;
    if (!n_fail) { long n; flag = IDASolve(c.mem, pb.t1, &T, c.y, c.yp, IDA_NORMAL); OK(IDAGetNumSteps(c.mem, &n)); if (flag == 0) judge(&c, T, n, "after refusals"); else if (solid()) fail("refusal", "afterwards returned %d", flag); }
    EV("refusals seen"); }
  }
  if (ns_ && memcmp(pu, pb.p, sizeof pb.p)) fail("parameter", "parameters not those given after the calls");
  fk = 0; id_free(&c);
}
/* gradient of an integral of the solution by the backward problem */
static void dae_adj(void) {
  ID c; int flag, nck, which, i, k; realtype T; N_Vector l, lp, q; SUNMatrix B; SUNLinearSolver LB; LD Y[RN], *Q; double tm = 0, gm = 0; int parts = 1; long n; int times = irnd(1, 2), interp = chance(0.5) ? IDA_HERMITE : IDA_POLYNOMIAL; long steps = irnd(5, 200);
  draw(1); jf.ic = jf.root = 0; if (jf.ls > 2) jf.ls = irnd(1, 2); jf.sup = 0; if (pb.fam == 3 || pb.t1 < pb.t0 || pb.fam == 2) return;
  ic_ = 0; lim_on = past_ = cberr_ = 0; dir_ = 1; fk = 0; memset(&i_, 0, sizeof i_); ng_ = 0; lastmsg[0] = 0; ref_ok = 1; amplification();
  r_ns = pb.n + pb.np; r_q = 1; for (i = 0; i < r_ns; i++) r_col[i] = i < pb.n ? 100 + i : i - pb.n;
  r_start(Y); if (r_len() > RN || r_go(Y, pb.t0, pb.t1) || !ref_ok || amp > 1e3) return;
  Q = Y + pb.n * (1 + r_ns) + 2;
  id_new(&c); if (n_fail) return;
  OK(IDAAdjInit(c.mem, steps, interp));
  flag = IDASolveF(c.mem, pb.t1, &T, c.y, c.yp, IDA_NORMAL, &nck); OK(IDAGetNumSteps(c.mem, &n));
  if (flag || T != pb.t1) { fail("forward", "returned %d at %.17g", flag, T); return; }
  if (nck < n / steps || nck > n / steps + 1) { fail("check-points", "%d check points in %ld steps, one every %ld", nck, n, steps); return; }
  l = N_VNew_Serial(pb.n, sunctx_); lp = N_VClone(l); q = N_VNew_Serial(pb.np, sunctx_); B = SUNDenseMatrix(pb.n, pb.n, sunctx_); LB = SUNLinSol_Dense(l, B, sunctx_);
  for (k = 0; k < times && !n_fail; k++) {
    N_VConst(0, l); N_VConst(0, q); for (i = 0; i < pb.n; i++) DP(lp)[i] = -2 * (double)Y[i] / pb.n;
    if (!k) { OK(IDACreateB(c.mem, &which)); OK(IDAInitB(c.mem, which, cb_FB, pb.t1, l, lp)); OK(IDASStolerancesB(c.mem, which, cf.rtol, cf.atol)); OK(IDASetUserDataB(c.mem, which, &ud_)); OK(IDASetMaxNumStepsB(c.mem, which, 100000)); OK(IDASetLinearSolverB(c.mem, which, LB, B)); if (jf.jac) OK(IDASetJacFnB(c.mem, which, cb_JB)); OK(IDAQuadInitB(c.mem, which, cb_QB, q)); OK(IDAQuadSStolerancesB(c.mem, which, cf.rtol, cf.atol)); OK(IDASetQuadErrConB(c.mem, which, jf.qerr)); }
    else { OK(IDAReInitB(c.mem, which, pb.t1, l, lp)); OK(IDAQuadReInitB(c.mem, which, q)); }
    parts = 1; if (k == 0 && chance(0.5)) { parts = 2; double mid = pb.t0 + (pb.t1 - pb.t0) * unif(0.1, 0.9); flag = IDASolveB(c.mem, mid, IDA_NORMAL); if (flag < 0) { fail("backward", "returned %d (%s)", flag, lastmsg); break; } OK(IDAGetB(c.mem, which, &T, l, lp)); if (T != mid) { fail("backward", "asked for %.17g, at %.17g", mid, T); break; } EV("backward runs in two parts"); }
    flag = IDASolveB(c.mem, pb.t0, IDA_NORMAL); if (flag < 0) { fail("backward", "returned %d (%s)", flag, lastmsg); break; }
    OK(IDAGetB(c.mem, which, &T, l, lp)); OK(IDAGetQuadB(c.mem, which, &T, q));
    if (T != pb.t0 || cberr_) { fail("backward", "at %.17g, %d", T, cberr_); break; }
    for (i = 0; i < r_ns; i++) gm = fmax(gm, fabs((double)Q[2 * i])); for (i = 0; i < pb.n; i++) tm = fmax(tm, fabs((double)Y[i]) + fabs(pb.y0[i]));
    { double tol = (cf.rtol * (gm + tm + 1) + cf.atol) * amp * amp * (200 + 10. * n) * (1 + fabs(pb.t1 - pb.t0)) * 5;
      for (i = 0; i < r_ns && !n_fail; i++) { double v = i < pb.n ? DP(l)[i] : -DP(q)[i - pb.n], w = (double)Q[2 * i]; if (i >= pb.n) v = DP(q)[i - pb.n];
        if (!within("error of gradients", fabs(v - w), tol * (i >= pb.n && !jf.qerr ? 30 : 1))) fail("gradient", "element %d of the gradient is %.17g, should be %.17g (run %d, %d parts, %s, steps %ld)", i, v, w, k, parts, interp == IDA_HERMITE ? "Hermite" : "polynomial", steps); }
      EV("gradients compared"); if (k) EV("backward runs repeated"); EV(interp == IDA_HERMITE ? "Hermite interpolation" : "polynomial interpolation"); stat_add("check points", nck); mean("gradient", log10(fabs(DP(l)[0] - (double)Q[0]) / tol + 1e-12)); }
  }
  id_free(&c); N_VDestroy(l); N_VDestroy(lp); N_VDestroy(q); SUNLinSolFree(LB); SUNMatDestroy(B);
}
static void one_case(const char *mode, long ic, int arg) { (void)mode; (void)ic; if (arg == 0) dae(); if (arg == 1) dae_flt(); if (arg == 2) dae_adj(); }
