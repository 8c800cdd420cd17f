/* Backward integration of adjoint problems, against sensitivities of the reference. */
#define MB 3
typedef struct { int id, m, lmm, bs, ls, jac, pre, prek, jt, jts, nls, fpm, quad, errq, tolk, fp, nq, maxord, stab, started; double c[PN], rtol, atol, tb, h0, hmax; long nf, nq_; double tlast;
  int which; SUNMatrix A; SUNLinearSolver LS; SUNNonlinearSolver NL; N_Vector yb, qb, av, qv; } BP;
static BP bp[MB]; static int nb_; static void *fwd_; static double jB[MB][PN][PN], pM[MB][PN][PN]; static int pP[MB][PN], bjts[MB];
static int bdbg_;
static BP *bpof(void *u) { BP *b = (BP *)u; if (b < bp || b >= bp + nb_ || b->id != (int)(b - bp)) { cberr_ = 20; return &bp[0]; } return b; }
static void dgdy(int m, double t, const double *y, double *g) { int i; for (i = 0; i < pb.n; i++) g[i] = 0; if (m == 0) for (i = 0; i < pb.n; i++) g[i] = 2 * y[i] / pb.n; if (m == 1) { g[0] += pu[0] * cos(t); g[pb.n - 1] += 1; } }
static void inside(BP *b, double t, N_Vector *s) { if ((t - pb.t0) * dir_ < -1e-12 * (fabs(t) + fabs(pb.t0)) || (t - b->tb) * dir_ > 1e-12 * (fabs(t) + fabs(b->tb))) past_ = 1; if (b->bs != (s != NULL)) cberr_ = 21; b->tlast = t; }
static void jT(double t, N_Vector y, double (*M)[PN]) { double J[PN][PN]; int i, j; jac_d(t, DP(y), pu, J); for (i = 0; i < pb.n; i++) for (j = 0; j < pb.n; j++) M[i][j] = -J[j][i]; }
static int b_f(double t, N_Vector y, N_Vector *s, N_Vector yb, N_Vector d, void *u) {
  BP *b = bpof(u); double M[PN][PN], g[PN]; int i, j; b->nf++; inside(b, t, s);
  if (fail_kind == 20 && HIT(b->nf)) return fail_rc;
  jT(t, y, M); dgdy(b->m, t, DP(y), g); for (i = 0; i < pb.n; i++) { DP(d)[i] = -g[i]; for (j = 0; j < pb.n; j++) DP(d)[i] += M[i][j] * DP(yb)[j]; }
  return 0;
}
static int b_q(double t, N_Vector y, N_Vector *s, N_Vector yb, N_Vector d, void *u) {
  BP *b = bpof(u); double f[PN], q[2]; int i, k; b->nq_++; if (b->fp == 0 && !s != !b->bs) cberr_ = 22;
  for (k = 0; k < pb.np; k++) { dfdp_d(t, DP(y), pu, k, f); DP(d)[k] = 0; for (i = 0; i < pb.n; i++) DP(d)[k] -= f[i] * DP(yb)[i]; if (b->m == 1 && k == 0) DP(d)[k] -= DP(y)[0] * cos(t); }
  if (s) { fqs_d(t, DP(y), pu, DP(s[0]), sf.col[0], q); DP(d)[pb.np] = -q[0]; }
  return 0;
}
static int b_jac(double t, N_Vector y, N_Vector *s, SUNMatrix J, void *u) { BP *b = bpof(u); int i, j; double M[PN][PN]; inside(b, t, s); jT(t, y, M);
  for (j = 0; j < pb.n; j++) for (i = 0; i < pb.n; i++) if (SUNMatGetID(J) == SUNMATRIX_DENSE) SUNDenseMatrix_Column(J, j)[i] = M[i][j]; else if (i - j <= pb.ml && j - i <= pb.mu) SUNBandMatrix_Column(J, j)[i - j] = M[i][j];
  return 0; }
static int b_sys(double t, N_Vector y, N_Vector *s, SUNMatrix J, int jok, booleantype *jcur, double g, void *u) { BP *b = bpof(u); int i, j; double (*M)[PN] = jB[b->id]; inside(b, t, s); if (!jok) jT(t, y, M); *jcur = !jok;
  for (j = 0; j < pb.n; j++) for (i = 0; i < pb.n; i++) { double v = (i == j) - g * M[i][j]; if (SUNMatGetID(J) == SUNMATRIX_DENSE) SUNDenseMatrix_Column(J, j)[i] = v; else if (i - j <= pb.ml && j - i <= pb.mu) SUNBandMatrix_Column(J, j)[i - j] = v; }
  return 0; }
static int b_ps(double t, N_Vector y, N_Vector *s, int jok, booleantype *jcur, double g, void *u) { BP *b = bpof(u); int i, j; inside(b, t, s); if (!jok) jT(t, y, jB[b->id]); *jcur = !jok;
  for (i = 0; i < pb.n; i++) for (j = 0; j < pb.n; j++) pM[b->id][i][j] = (i == j) - (i == j || pb.n < 6 ? g * jB[b->id][i][j] : 0);
  lu(pM[b->id], pP[b->id], pb.n); return 0; }
static int b_psol(double t, N_Vector *s, N_Vector r, N_Vector z, double delta, int lr, void *u) { BP *b = bpof(u); int sd = b->ls == 5 ? 2 : b->pre; inside(b, t, s); if (!(delta > 0)) cberr_ = 23; if (!(lr & sd)) cberr_ = 24;
  memcpy(DP(z), DP(r), pb.n * sizeof(double)); if (b->pre != 3 || lr == 1) lusol(pM[b->id], pP[b->id], pb.n, DP(z)); return 0; }
static int b_jts(double t, N_Vector y, N_Vector *s, void *u) { BP *b = bpof(u); inside(b, t, s); jT(t, y, jB[b->id]); bjts[b->id] = 1; return 0; }
static int b_jtv(N_Vector v, N_Vector w, double t, N_Vector y, N_Vector *s, void *u) { BP *b = bpof(u); int i, j; double T[PN][PN], (*M)[PN] = T; inside(b, t, s); if (b->jts) { if (!bjts[b->id]) cberr_ = 25; M = jB[b->id]; } else jT(t, y, T);
  for (i = 0; i < pb.n; i++) { DP(w)[i] = 0; for (j = 0; j < pb.n; j++) DP(w)[i] += M[i][j] * DP(v)[j]; } return 0; }
/* the two kinds of every callback */
#define N_ N_Vector
static int fB(realtype t, N_ y, N_ yb, N_ d, void *u) { return b_f(t, y, NULL, yb, d, u); }
static int fBS(realtype t, N_ y, N_ *s, N_ yb, N_ d, void *u) { return b_f(t, y, s, yb, d, u); }
static int qB(realtype t, N_ y, N_ yb, N_ d, void *u) { return b_q(t, y, NULL, yb, d, u); }
static int qBS(realtype t, N_ y, N_ *s, N_ yb, N_ d, void *u) { return b_q(t, y, s, yb, d, u); }
static int jacB(realtype t, N_ y, N_ yb, N_ f, SUNMatrix J, void *u, N_ a, N_ b, N_ c) { (void)yb; (void)f; (void)a; (void)b; (void)c; return b_jac(t, y, NULL, J, u); }
static int jacBS(realtype t, N_ y, N_ *s, N_ yb, N_ f, SUNMatrix J, void *u, N_ a, N_ b, N_ c) { (void)yb; (void)f; (void)a; (void)b; (void)c; return b_jac(t, y, s, J, u); }
static int sysB(realtype t, N_ y, N_ yb, N_ f, SUNMatrix J, booleantype jok, booleantype *jc, realtype g, void *u, N_ a, N_ b, N_ c) { (void)yb; (void)f; (void)a; (void)b; (void)c; return b_sys(t, y, NULL, J, jok, jc, g, u); }
static int sysBS(realtype t, N_ y, N_ *s, N_ yb, N_ f, SUNMatrix J, booleantype jok, booleantype *jc, realtype g, void *u, N_ a, N_ b, N_ c) { (void)yb; (void)f; (void)a; (void)b; (void)c; return b_sys(t, y, s, J, jok, jc, g, u); }
static int psB(realtype t, N_ y, N_ yb, N_ f, booleantype jok, booleantype *jc, realtype g, void *u) { (void)yb; (void)f; return b_ps(t, y, NULL, jok, jc, g, u); }
static int psBS(realtype t, N_ y, N_ *s, N_ yb, N_ f, booleantype jok, booleantype *jc, realtype g, void *u) { (void)yb; (void)f; return b_ps(t, y, s, jok, jc, g, u); }
static int plB(realtype t, N_ y, N_ yb, N_ f, N_ r, N_ z, realtype g, realtype d, int lr, void *u) { (void)y; (void)yb; (void)f; (void)g; return b_psol(t, NULL, r, z, d, lr, u); }
static int plBS(realtype t, N_ y, N_ *s, N_ yb, N_ f, N_ r, N_ z, realtype g, realtype d, int lr, void *u) { (void)y; (void)yb; (void)f; (void)g; return b_psol(t, s, r, z, d, lr, u); }
static int jsB(realtype t, N_ y, N_ yb, N_ f, void *u) { (void)yb; (void)f; return b_jts(t, y, NULL, u); }
static int jsBS(realtype t, N_ y, N_ *s, N_ yb, N_ f, void *u) { (void)yb; (void)f; return b_jts(t, y, s, u); }
static int jvB(N_ v, N_ w, realtype t, N_ y, N_ yb, N_ f, void *u, N_ a) { (void)yb; (void)f; (void)a; return b_jtv(v, w, t, y, NULL, u); }
static int jvBS(N_ v, N_ w, realtype t, N_ y, N_ *s, N_ yb, N_ f, void *u, N_ a) { (void)yb; (void)f; (void)a; return b_jtv(v, w, t, y, s, u); }
static int glB(sunindextype n, realtype t, N_ y, N_ yb, N_ d, void *u) { BP *b = bpof(u); long k = b->nf, r; if (n != pb.n) cberr_ = 26; b->fp = b->bs; r = b->bs; b->bs = 0; b_f(t, y, NULL, yb, d, u); b->bs = r; b->fp = 0; b->nf = k; return 0; }

/* y(s) by the reference, then lambda(s) and the integrals of problem b by sensitivities from s to its start */
static int refadj(BP *b, double s, double *lam, double *q) {
  static LD Y[RN], Z[RN]; int i, k, n = pb.n;
  r_ns = 0; r_q = 0; r_start(Y); if (r_go(Y, pb.t0, s)) return 1;
  r_ns = n + pb.np; r_q = 1; for (i = 0; i < n; i++) r_col[i] = 100 + i; for (k = 0; k < pb.np; k++) r_col[n + k] = k;
  for (i = 0; i < r_len(); i++) Z[i] = i < n ? Y[i] : 0;
  for (i = 0; i < n; i++) Z[n * (1 + i) + i] = 1;
  if (r_go(Z, s, b->tb)) return 1;
  for (k = 0; k < n + pb.np; k++) { LD v = 0; for (i = 0; i < n; i++) v += b->c[i] * Z[n * (1 + k) + i]; if (b->m >= 0) v += Z[n * (1 + r_ns) + 2 + 2 * k + b->m]; if (k < n) lam[k] = (double)v; else q[k - n] = (double)v; }
  if (b->bs) { /* the integral of the sensitivity of integrand 0 from s on */
    LD a; r_ns = 1; r_col[0] = sf.col[0]; r_start(Y); if (r_go(Y, pb.t0, s)) return 1; a = Y[2 * n + 2]; if (r_go(Y, s, b->tb)) return 1; q[pb.np] = (double)(Y[2 * n + 2] - a); }
  return 0;
}
static double btop[MB][2]; static double bmaxe, bmaxq;
static void adj_compare(BP *b, double s, N_Vector yb, N_Vector qb, double lim) {
  double lam[PN], q[PP + 1], e = 0, eq = 0; int i;
  if (refadj(b, s, lam, q)) return;
  for (i = 0; i < pb.n; i++) btop[b->id][0] = fmax(btop[b->id][0], fabs(lam[i]));
  for (i = 0; i < b->nq; i++) btop[b->id][1] = fmax(btop[b->id][1], fabs(q[i]));
  for (i = 0; i < pb.n; i++) e = fmax(e, fabs(lam[i] - DP(yb)[i]));
  e /= fmax(b->rtol, cf.rtol) * btop[b->id][0] + fmax(b->atol, cf.atol);
  if (b->errq) { for (i = 0; i < b->nq; i++) eq = fmax(eq, fabs(q[i] - DP(qb)[i])); eq /= fmax(b->rtol, cf.rtol) * fmax(btop[b->id][1], btop[b->id][0]) + fmax(b->atol, cf.atol); }
  if (e > bmaxe) bmaxe = e;
  if (eq > bmaxq) bmaxq = eq;
  if (!within("adjoint error over amplification", e, lim)) { fail("adjoint-accuracy", "problem %d at %.17g: error %.3g times the tolerance (errors can grow by %.3g); %.17g, expected %.17g", b->id, s, e, amp, DP(yb)[0], lam[0]); return; }
  if (!within("adjoint integral error over amplification", eq, lim)) { fail("adjoint-integrals", "problem %d at %.17g: error %.3g times the tolerance (errors can grow by %.3g); %.17g, expected %.17g", b->id, s, eq, amp, DP(qb)[0], q[0]); return; }
  EV("adjoint solutions compared");
}
static void bp_config(BP *b, int id, int stiff) {
  int i; memset(b, 0, sizeof *b); b->id = id; b->m = irnd(-1, 1); b->lmm = chance(0.5) ? CV_ADAMS : CV_BDF; b->bs = sf.ns && chance(0.6);
  for (i = 0; i < pb.n; i++) b->c[i] = b->m >= 0 && chance(0.3) ? 0 : gauss();
  b->nls = irnd(0, 2); b->ls = b->nls == 2 ? 0 : irnd(1, 7); if (stiff && b->nls == 2) b->nls = 0, b->ls = 1;
  if (b->ls == 3 && pb.fam != 5 && pb.fam != 7 && pb.fam != 6) b->ls = 2;
  b->fpm = irnd(0, 2); b->jac = irnd(0, 2); b->jt = irnd(0, 1); b->jts = irnd(0, 1); b->pre = b->ls >= 4 ? irnd(0, 3) : 0; b->prek = chance(0.5) || b->pre == 3 ? 0 : irnd(1, 2); if (b->bs && b->prek == 2) b->prek = 1;
  b->tolk = irnd(0, 1); b->rtol = logu(-8, -4); b->atol = b->rtol * logu(-3, -1); b->quad = chance(0.8); b->errq = b->quad && chance(0.7); b->nq = b->quad ? pb.np + b->bs : 0;
  b->tb = id && chance(0.4) ? pb.t0 + (pb.t1 - pb.t0) * unif(0.3, 1) : pb.t1;
  if (chance(0.2)) b->maxord = irnd(3, b->lmm == CV_BDF ? 5 : 12);
  b->stab = b->lmm == CV_BDF && chance(0.2); if (chance(0.2)) b->h0 = logu(-6, -3); if (chance(0.2)) b->hmax = fabs(pb.t1 - pb.t0) * logu(-2, -0.5);
  adddesc("B%d: g %d from %.4g, %s, bs %d nls %d %d ls %s jac %d pre %d kind %d jt %d/%d tol %d %.1e %.1e quad %d err %d ord %d h0 %.1e hmax %.1e; ", id, b->m, b->tb, b->lmm == CV_ADAMS ? "Adams" : "BDF", b->bs, b->nls, b->fpm, lsn[b->ls], b->jac, b->pre, b->prek, b->jt, b->jts, b->tolk, b->rtol, b->atol, b->quad, b->errq, b->maxord, b->h0, b->hmax);
}
static void bp_start(BP *b) { memcpy(DP(b->yb), b->c, pb.n * sizeof(double)); if (b->quad) N_VConst(0., b->qb); b->nf = b->nq_ = 0; bjts[b->id] = 0; btop[b->id][0] = btop[b->id][1] = 0; { int i; for (i = 0; i < pb.n; i++) btop[b->id][0] = fmax(btop[b->id][0], fabs(b->c[i])); } }
static void bp_new(BP *b) {
  void *m = fwd_; int w;
  b->yb = N_VNew_Serial(pb.n, sunctx_); b->av = N_VClone(b->yb); N_VConst(b->atol, b->av); if (b->quad) { b->qb = N_VNew_Serial(b->nq, sunctx_); b->qv = N_VClone(b->qb); N_VConst(b->atol, b->qv); }
  bp_start(b);
  OK(CVodeCreateB(m, b->lmm, &w)); b->which = w;
  if (b->bs) OK(CVodeInitBS(m, w, fBS, b->tb, b->yb)); else OK(CVodeInitB(m, w, fB, b->tb, b->yb));
  if (b->tolk) OK(CVodeSVtolerancesB(m, w, b->rtol, b->av)); else OK(CVodeSStolerancesB(m, w, b->rtol, b->atol));
  OK(CVodeSetUserDataB(m, w, b));
  if (b->nls == 1) b->NL = SUNNonlinSol_Newton(b->yb, sunctx_);
  if (b->nls == 2) b->NL = SUNNonlinSol_FixedPoint(b->yb, b->fpm, sunctx_);
  if (b->NL) OK(CVodeSetNonlinearSolverB(m, w, b->NL));
  if (b->ls == 1) b->A = SUNDenseMatrix(pb.n, pb.n, sunctx_);
  if (b->ls == 2) b->A = SUNBandMatrix(pb.n, pb.mu, pb.ml, sunctx_);
  if (b->ls == 3) OK(CVDiagB(m, w)); else if (b->ls) { b->LS = mkls(b->ls, b->yb, b->A, b->pre, 0, SUN_MODIFIED_GS); OK(CVodeSetLinearSolverB(m, w, b->LS, b->A)); }
  if (b->ls == 1 || b->ls == 2) { if (b->jac == 1) { if (b->bs) OK(CVodeSetJacFnBS(m, w, jacBS)); else OK(CVodeSetJacFnB(m, w, jacB)); } if (b->jac == 2) { if (b->bs) OK(CVodeSetLinSysFnBS(m, w, sysBS)); else OK(CVodeSetLinSysFnB(m, w, sysB)); } }
  if (b->ls >= 4) {
    /* matrices are shared between products and preconditioner: only one of them is told when to build them */
    if (b->pre && b->prek == 0) b->jt = 0;
    if (b->jt) { if (b->bs) OK(CVodeSetJacTimesBS(m, w, b->jts ? jsBS : NULL, jvBS)); else OK(CVodeSetJacTimesB(m, w, b->jts ? jsB : NULL, jvB)); }
    if (b->pre) { if (b->prek == 0) { if (b->bs) OK(CVodeSetPreconditionerBS(m, w, psBS, plBS)); else OK(CVodeSetPreconditionerB(m, w, psB, plB)); } else if (b->prek == 1) OK(CVBandPrecInitB(m, w, pb.n, pb.mu, pb.ml)); else OK(CVBBDPrecInitB(m, w, pb.n, pb.mu, pb.ml, pb.mu, pb.ml, 0., glB, NULL)); }
  }
  if (b->quad) { if (b->bs) OK(CVodeQuadInitBS(m, w, qBS, b->qb)); else OK(CVodeQuadInitB(m, w, qB, b->qb)); if (b->tolk) OK(CVodeQuadSVtolerancesB(m, w, b->rtol, b->qv)); else OK(CVodeQuadSStolerancesB(m, w, b->rtol, b->atol)); OK(CVodeSetQuadErrConB(m, w, b->errq)); }
  if (b->maxord) OK(CVodeSetMaxOrdB(m, w, b->maxord));
  if (b->stab) OK(CVodeSetStabLimDetB(m, w, SUNTRUE));
  if (b->h0 > 0) OK(CVodeSetInitStepB(m, w, pb.t1 > pb.t0 ? -b->h0 : b->h0));
  if (b->hmax > 0) OK(CVodeSetMaxStepB(m, w, b->hmax));
  OK(CVodeSetMaxNumStepsB(m, w, 100000));
}
static double atr[2][4000]; static int natr[2];
static void rec(int w, double v) { if (natr[w] < 4000) atr[w][natr[w]++] = v; }
static double fmaxe; static int small_, other_;
/* forward to the end, then backward; the same plan every time */
static int adj_run(CV *c, uint64_t plan, int w, long nsteps, int interp, double lim) {
  uint64_t k0; int few, no, k, i, r, nc = -1, calls = 0, task, it = 0; realtype T, t2, hu, tn; long nst; double at = pb.t0, stop; N_Vector y2 = N_VClone(c->y), yb = N_VClone(c->y), qb[MB]; uint64_t st = plan;
#define U() ((double)((st = rng_mixc(st + 0x9E3779B97F4A7C15ULL)) >> 11) / 9007199254740992.0)
  (void)k0; natr[w] = 0; fmaxe = bmaxe = bmaxq = 0;
  no = 1 + (int)(U() * 4);
  for (k = 0; k < no && (pb.t1 - at) * dir_ > 0; k++) {
    double tout = k == no - 1 ? pb.t1 : at + (pb.t1 - at) * U();
    task = U() < 0.7 ? CV_NORMAL : CV_ONE_STEP; it = 0;
    do {
      r = CVodeF(c->mem, tout, c->y, &T, task, &nc); if (r < 0) { EV("forward integrations failed"); goto dead; }
      OK(CVodeGetNumSteps(c->mem, &nst)); calls++; if (nc < nst / nsteps || nc > nst / nsteps + calls) { fail("checkpoints", "%d checkpoints after %ld steps, one every %ld", nc, nst, nsteps); goto dead; }
      if (task == CV_NORMAL && T != tout) { fail("forward-time", "returned %.17g for %.17g", T, tout); goto dead; }
    } while (task == CV_ONE_STEP && (T - tout) * dir_ < 0 && ++it < 200000);
    at = T; for (i = 0; i < pb.n; i++) rec(w, DP(c->y)[i]); rec(w, T);
    { static LD Y[RN]; double e[PN], ww; r_ns = r_q = 0; r_start(Y); if (r_go(Y, pb.t0, T)) goto dead; for (i = 0; i < pb.n; i++) { e[i] = DP(c->y)[i] - (double)Y[i]; top_[i] = fmax(top_[i], fabs((double)Y[i])); } ww = wnorm(e, top_); if (ww > fmaxe) fmaxe = ww; if (!within("forward error over amplification", ww, (200 + 10. * nst) * amp * (robust() ? 1 : 10))) { fail("forward-accuracy", "at %.17g the error is %.3g times the tolerance", T, ww); goto dead; } }
  }
  OK(CVodeGetCurrentTime(c->mem, &tn)); OK(CVodeGetLastStep(c->mem, &hu)); OK(CVodeGetNumSteps(c->mem, &nst));
  { CVadjCheckPointRec *ck = (CVadjCheckPointRec *)calloc(nc + 1, sizeof *ck); void *cur = NULL;
    OK(CVodeGetAdjCheckPointsInfo(c->mem, ck)); OK(CVodeGetAdjCurrentCheckPoint(c->mem, &cur));
    if (cur != ck[0].my_addr) fail("checkpoint-list", "data of another checkpoint are current");
    for (i = 0; i <= nc && !n_fail; i++) {
      /* a call that starts with the values of the last step can store the same checkpoint again */
      long next = i == nc ? 0 : ck[i + 1].nstep + (ck[i + 1].t0 == ck[i + 1].t1 ? 0 : nsteps);
      if (ck[i].nstep != next) fail("checkpoint-list", "checkpoint %d of %d is of step %ld, expected %ld, one every %ld", i, nc, ck[i].nstep, next, nsteps);
      else if (ck[i].t1 != (i ? ck[i - 1].t0 : tn) || (i == nc && ck[i].t0 != pb.t0)) fail("checkpoint-list", "checkpoint %d covers %.17g..%.17g", i, ck[i].t0, ck[i].t1);
      else if (i < nc ? ck[i].next_addr != ck[i + 1].my_addr : ck[i].next_addr != NULL) fail("checkpoint-list", "the list is not linked");
    }
    free(ck); }
  stat_add("checkpoints", nc + 1); few = interp == CV_POLYNOMIAL && !small_ && nst % nsteps < 8; if (few) EV("few points in the last interval");
  for (k = 0; k < nb_; k++) { qb[k] = bp[k].quad ? N_VClone(bp[k].qb) : NULL; bp[k].started = 0; }
  /* back */
  no = 1 + (int)(U() * 3); stop = pb.t1; for (k = 0; k < nb_; k++) if ((bp[k].tb - stop) * dir_ < 0) stop = bp[k].tb;
  for (k = 0; k < no && !n_fail; k++) {
    double to = k == no - 1 ? pb.t0 : pb.t0 + (stop - pb.t0) * U() * 0.999; stop = to;
    int one = U() < 0.2 && nb_ == 1; it = 0;
    do { r = CVodeB(c->mem, to, one ? CV_ONE_STEP : CV_NORMAL); if (cberr_) { fail("adjoint-callback", "callback complaint %d", cberr_); goto dead2; } if (past_) { fail("adjoint-range", "a callback of a backward problem was called outside its interval"); goto dead2; } if (r < 0) { EV("backward integrations failed"); if (!strcmp(lsn[bp[0].ls], "dense") && 0) fail("x", "y"); stat_add(lastmsg[0] ? "messages" : "no messages", 1); if (bdbg_) printf("# %d %s\n", r, lastmsg); goto dead2; }
      OK(CVodeGetB(c->mem, bp[0].which, &T, yb)); } while (one && (T - to) * dir_ > 0 && ++it < 200000);
    if (one) stop = T;
    for (i = 0; i < nb_ && !n_fail; i++) {
      BP *b = &bp[i]; int j; void *mb; double tb;
      OK(CVodeGetB(c->mem, b->which, &T, yb)); tb = T;
      if (!one && T != to) { fail("backward-time", "problem %d is at %.17g, asked for %.17g", i, T, to); break; }
      if (b->quad) { OK(CVodeGetQuadB(c->mem, b->which, &t2, qb[i])); if (t2 != T) { fail("backward-time", "integrals of problem %d are of %.17g, the solution of %.17g", i, t2, T); break; } }
      for (j = 0; j < pb.n; j++) rec(w, DP(yb)[j]);
      for (j = 0; j < b->nq; j++) rec(w, DP(qb[i])[j]);
      mb = CVodeGetAdjCVodeBmem(c->mem, b->which); if (!mb) { fail("backward-object", "no object"); break; }
      OK(CVodeGetNumRhsEvals(mb, &nst));
      { long lin = 0; if (b->ls == 3) OK(CVDiagGetNumRhsEvals(mb, &lin)); else if (b->ls) OK(CVodeGetNumLinRhsEvals(mb, &lin)); if (b->ls >= 4 && b->pre && b->prek == 1) { long g; OK(CVBandPrecGetNumRhsEvals(mb, &g)); lin += g; }
        if (nst + lin != b->nf && w == 0) { fail("adjoint-count", "problem %d: %ld and %ld calls counted, %ld made", i, nst, lin, b->nf); break; } }
      if (b->quad) { long g; OK(CVodeGetQuadNumRhsEvals(mb, &g)); if (g != b->nq_) { fail("adjoint-count", "problem %d: %ld calls of the integrand counted, %ld made", i, g, b->nq_); break; } }
      if (w == 0 && !few) adj_compare(b, tb, yb, qb[i], lim);
    }
    /* the forward solution where the backward problems are now */
    if (!n_fail && (w == 0 || !other_) && !few) { static LD Y[RN]; double e[PN], ww, s; OK(CVodeGetB(c->mem, bp[nb_ - 1].which, &T, yb)); s = T; r = CVodeGetAdjY(c->mem, s, y2);
      if (r) fail("interpolation", "at %.17g: %d", s, r); else { r_ns = r_q = 0; r_start(Y); if (!r_go(Y, pb.t0, s)) { for (i = 0; i < pb.n; i++) e[i] = DP(y2)[i] - (double)Y[i]; ww = wnorm(e, top_); if (!within("interpolation error", ww, lim * 10)) fail("interpolation", "at %.17g the forward solution has an error of %.3g times the tolerance: %.17g, expected %.17g", s, ww, DP(y2)[0], (double)Y[0]); EV("interpolations compared"); } } }
  }
  (void)interp;
  for (k = 0; k < nb_; k++) if (qb[k]) N_VDestroy(qb[k]);
  N_VDestroy(y2); N_VDestroy(yb); return n_fail != 0;
dead2: for (k = 0; k < nb_; k++) if (qb[k]) N_VDestroy(qb[k]);
dead: N_VDestroy(y2); N_VDestroy(yb); return 1;
}
static void adjoint(void) {
  CV c; uint64_t plan; int k, back = chance(0.25), stiff = chance(0.2), interp, nosens; long nsteps; SUNNonlinearSolver NL1 = NULL; double lim; N_Vector q0; int dead;
  adddesc(""); problem(stiff, back); pb.stiff = stiff; config(stiff); cf.constr = 0; cf.hmin = 0;
  if (stiff && cf.nls == 2) { cf.nls = 1; cf.ls = 1; cf.pre = 0; }
  if (cf.rtol < 1e-8) { cf.rtol = 1e-8; cf.atol = 1e-9; }
  if (cf.rtol > 1e-4) cf.rtol = 1e-4;
  interp = chance(0.5) ? CV_HERMITE : CV_POLYNOMIAL; nsteps = chance(0.3) ? irnd(1, 4) : chance(0.5) ? irnd(5, 60) : irnd(100, 5000);
  /* cubic interpolation, or one with few points, is no match for the steps of high orders */
  small_ = interp == CV_HERMITE || nsteps < 20 || chance(0.2);
  if (small_) cf.hmax = fabs(pb.t1 - pb.t0) / 500;
  if (cf.hmax == 0 && chance(0.5)) cf.h0 = 0;
  plan = rng64() >> 1;
  sigmix(pb.fam * 16 + pb.n); sigmix(cf.lmm * 1000 + cf.nls * 100 + cf.ls * 10 + cf.jac); sigd(cf.rtol); sigd(pb.p[0]); sigmix(nsteps * 2 + interp);
  other_ = 0; fail_kind = 0; lastmsg[0] = 0; base_ = 0; dir_ = pb.t1 < pb.t0 ? -1 : 1; lim_on = past_ = cberr_ = 0; memset(&c_, 0, sizeof c_); memset(top_, 0, sizeof top_);
  sens_config(); if (chance(0.6)) sf.ns = 0; if (sf.ns > 2) sf.ns = 2; sf.qs = 0; if (!sf.ns) sf.quad = chance(0.3);
  adddesc("every %ld steps, %s; ", nsteps, interp == CV_HERMITE ? "Hermite" : "polynomial");
  cv_new(&c); if (n_fail) return;
  memset(&sv, 0, sizeof sv); q0 = N_VNew_Serial(2, sunctx_); sv.q0 = N_VClone(q0); sv.qo = N_VClone(q0);
  if (sf.ns) { sv.s0 = N_VCloneVectorArray(sf.ns, c.y); for (k = 0; k < sf.ns; k++) sv.sv[k] = N_VClone(c.y); }
  sens_start(); sens_attach(&c, 1, 0); NL1 = sv.NL; sv.NL = NULL;
  ref_ok = 1; amplification(); if (!ref_ok || !(amp < 1e4)) goto out;
  lim = 1e4 * amp * amp;
  fwd_ = c.mem; nb_ = irnd(1, MB); nosens = 0;
  OK(CVodeAdjInit(c.mem, nsteps, interp));
  if (sf.ns && chance(0.2)) { nosens = 1; OK(CVodeSetAdjNoSensi(c.mem)); }
  for (k = 0; k < nb_; k++) bp_config(&bp[k], k, stiff);
  if (nosens) for (k = 0; k < nb_; k++) { bp[k].bs = 0; if (bp[k].quad) bp[k].nq = pb.np; }
  if (chance(0.1)) { k = CVodeB(c.mem, pb.t0, CV_NORMAL); if (k != CV_NO_BCK) fail("no-bck", "CVodeB without backward problems returned %d", k); }
  for (k = 0; k < nb_; k++) bp_new(&bp[k]);
  if (n_fail) goto out2;
  if (chance(0.1)) { k = CVodeB(c.mem, pb.t0, CV_NORMAL); if (k != CV_NO_FWD) fail("no-fwd", "CVodeB before CVodeF returned %d", k); }
  dead = adj_run(&c, plan, 0, nsteps, interp, lim);
  if (n_fail) goto out2;
  mean("adjoint_failed", dead ? 10 : 0);
  if (!dead) {
    EV(interp == CV_HERMITE ? "with Hermite interpolation" : "with polynomial interpolation"); EV(famn[pb.fam]); if (back) EV("backwards in time"); stat_add("backward problems", nb_);
    for (k = 0; k < nb_; k++) { if (bp[k].bs) EV("with forward sensitivities"); { char b[50]; snprintf(b, sizeof b, "backward linear solver %s", lsn[bp[k].ls]); EV(b); } }
    if (robust() && amp < 1e3 && !cf.maxord && bmaxe > 0) { mean(interp == CV_HERMITE ? "hermite_error" : "polynomial_error", log10(bmaxe / amp)); if (bmaxq > 0) mean("adjoint_integral_error", log10(bmaxq / amp)); mean("adjoint_calls", log10(bp[0].nf + 1)); }
    k = CVodeB(c.mem, pb.t1 + (pb.t1 - pb.t0), CV_NORMAL); if (k != CV_ILL_INPUT) fail("backward-illegal", "a time after the end: returned %d", k);
  }
  /* everything once more */
  /* interpolations in between, which one of the runs does without, matter up to roundoff at most */
  if (!dead && chance(0.5)) {
    other_ = chance(0.5);
    memcpy(DP(c.y), pb.y0, pb.n * sizeof(double)); sens_start(); memset(&c_, 0, sizeof c_);
    OK(CVodeReInit(c.mem, pb.t0, c.y)); if (sf.ns) OK(CVodeSensReInit(c.mem, sf.ism, sv.s0)); if (sf.quad) OK(CVodeQuadReInit(c.mem, sv.q0));
    if (cf.stab) { OK(CVodeSetStabLimDet(c.mem, SUNFALSE)); OK(CVodeSetStabLimDet(c.mem, SUNTRUE)); }
    OK(CVodeAdjReInit(c.mem));
    for (k = 0; k < nb_; k++) { bp_start(&bp[k]); OK(CVodeReInitB(c.mem, bp[k].which, bp[k].tb, bp[k].yb)); if (bp[k].quad) OK(CVodeQuadReInitB(c.mem, bp[k].which, bp[k].qb)); if (bp[k].stab) { OK(CVodeSetStabLimDetB(c.mem, bp[k].which, SUNFALSE)); OK(CVodeSetStabLimDetB(c.mem, bp[k].which, SUNTRUE)); } }
    k = adj_run(&c, plan, 1, nsteps, interp, lim); if (k && !n_fail) fail("adjoint-rerun", "the repeated run failed (%s)", lastmsg);
    for (k = 0; k < natr[0] && !n_fail; k++) if (natr[0] != natr[1] || (other_ ? fabs(atr[0][k] - atr[1][k]) > 1e-11 * fmax(1, fabs(atr[0][k])) * amp : !same(atr[0][k], atr[1][k]))) fail("adjoint-rerun", "value %d of %d: %.17g the first time, %.17g now", k, natr[0], atr[0][k], atr[1][k]);
    EV("adjoint runs repeated");
  }
out2:
  cv_free(&c); c.mem = NULL;
  for (k = 0; k < nb_; k++) { BP *b = &bp[k]; if (b->yb) { N_VDestroy(b->yb); N_VDestroy(b->av); } if (b->qb) { N_VDestroy(b->qb); N_VDestroy(b->qv); } if (b->LS) SUNLinSolFree(b->LS); if (b->A) SUNMatDestroy(b->A); if (b->NL) SUNNonlinSolFree(b->NL); }
  goto out3;
out: cv_free(&c);
out3:
  if (sf.ns) { N_VDestroyVectorArray(sv.s0, sf.ns); for (k = 0; k < sf.ns; k++) N_VDestroy(sv.sv[k]); }
  N_VDestroy(q0); N_VDestroy(sv.q0); N_VDestroy(sv.qo); if (NL1) SUNNonlinSolFree(NL1);
}
