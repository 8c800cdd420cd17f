/* Cases of the nonlinear solver: random problem, random settings, one solve or several with the same object. */
static void problem(void) {
  int i, j; double mg = logu(-1, 1);
  n = irnd(1, PN); fp_ = cf.strat == KIN_FP; kind_ = cf.strat == KIN_PICARD || fp_ ? irnd(0, 1) : irnd(0, 4);
  memset(A, 0, sizeof A); dom_ = 1;
  for (i = 0; i < n; i++) {
    double s = 0; cc[i] = fp_ ? 0 : unif(0.2, 2);
    for (j = 0; j < n; j++) if (j != i && abs(i - j) <= 1) s += fabs(A[i][j] = unif(-1, 1));
    if (fp_) A[i][i] = unif(-1, 1), s += fabs(A[i][i]); else A[i][i] = s + (cf.strat == KIN_PICARD ? cc[i] : 0.3) + mg * u01();
    if (fp_) { double k = unif(0.1, 0.6) / s; for (j = 0; j < n; j++) A[i][j] *= k; }
    root[i] = unif(-2, 2); if (fabs(root[i]) < 0.1) root[i] = 0.3;
    us[i] = root[i] + gauss() * (kind_ == 4 || kind_ == 2 ? 1 : logu(-1, 1));
    if (cf.constr) { us[i] = (root[i] > 0 ? 1 : -1) * (0.05 + fabs(us[i])); }
    usc[i] = fsc[i] = 1;
  }
  if (cf.ls == 7) for (i = 0; i < n; i++) for (j = 0; j < i; j++) A[i][j] = A[j][i];
  if (cf.ls == 7) for (i = 0; i < n; i++) { double s = 0; for (j = 0; j < n; j++) if (j != i) s += fabs(A[i][j]); A[i][i] = s + 0.5 + (cf.strat == KIN_PICARD ? cc[i] : 0) + u01(); }
  if (chance(0.6)) for (i = 0; i < n; i++) { usc[i] = logu(-1, 1); fsc[i] = cf.ls == 7 ? 1 : logu(-1, 1); }
  if (chance(0.05)) for (i = 0; i < n; i++) us[i] = root[i];
}
static void config(int arg) {
  memset(&cf, 0, sizeof cf);
  cf.strat = irnd(0, 3); cf.ls = cf.strat == KIN_FP ? 0 : irnd(1, 7);
  cf.jac = cf.strat == KIN_PICARD ? 1 : irnd(0, 1); cf.jt = cf.strat == KIN_PICARD ? 1 : chance(0.7);
  if (cf.ls > 2) { cf.pre = cf.ls == 7 ? (cf.strat == KIN_PICARD ? 0 : 0) : chance(0.6); cf.prek = irnd(0, 1); cf.bbd = cf.pre && chance(0.25); cf.maxl = chance(0.7) ? 20 : irnd(3, 8); }
  if (cf.strat >= 2) { cf.maa = chance(0.3) ? 0 : irnd(1, 6); cf.orth = irnd(0, 3); cf.delay = chance(0.6) ? 0 : irnd(1, 5); cf.newest = irnd(0, 1);
    if (chance(0.4)) cf.beta = chance(0.2) ? 1 : unif(0.4, 0.95); if (chance(0.4)) cf.betaaa = chance(0.2) ? 1 : unif(0.4, 0.95); }
  cf.eta = irnd(1, 3); if (chance(0.5)) cf.etac = chance(0.3) ? 0 : unif(0.01, 0.5); else cf.etac = -1;
  if (chance(0.4)) { cf.ega = chance(0.3) ? 0 : unif(0.3, 1); cf.eal = chance(0.3) ? 0 : unif(1.2, 2); }
  cf.noini = 0; cf.nomin = chance(0.3); cf.msb = chance(0.5) ? 0 : irnd(1, 8); cf.msbsub = chance(0.7) ? 0 : irnd(1, 5); if (cf.msbsub && cf.msb && cf.msbsub > cf.msb) cf.msbsub = cf.msb; cf.nores = chance(0.3);
  if (cf.strat < 2 && chance(0.25)) cf.constr = irnd(1, 2);
  cf.ftol = logu(-10, -4); cf.stol = chance(0.7) ? logu(-13, -9) : 0;
  if (chance(0.3)) cf.mxnewt = logu(-0.5, 1.5);
  if (chance(0.3)) cf.relf = logu(-15, -13);
  cf.mxit = chance(0.75) ? 400 : irnd(1, 12);
  cf.twice = irnd(0, 3); cf.bcf = chance(0.3) ? irnd(1, 50) : 0;
  if (arg == 1) {
    cf.fails = chance(0.5) ? 1 : -1; cf.fwhat = irnd(1, 5); cf.dbeta = chance(0.5); cf.fat = irnd(1, 6);
    if (cf.strat == KIN_FP) cf.fwhat = 1;
    if (chance(0.3)) { cf.fails = 0; cf.domain = 1; }
    cf.noini = chance(0.3);
  }
  if (cf.stol == 0) cf.stol = pow(2.220446049250313e-16, 2. / 3);
}
static SUNMatrix M_; static SUNLinearSolver S_; static N_Vector usv, fsv, cv_;
static void build(void) {
  int i; N_Vector t;
  u_ = N_VNew_Serial(n, sunctx_); usv = N_VNew_Serial(n, sunctx_); fsv = N_VNew_Serial(n, sunctx_); cv_ = N_VNew_Serial(n, sunctx_); t = N_VNew_Serial(n, sunctx_);
  for (i = 0; i < n; i++) { DP(u_)[i] = us[i]; DP(usv)[i] = usc[i]; DP(fsv)[i] = fsc[i]; DP(cv_)[i] = constrv(i); DP(t)[i] = 7; }
  mem_ = KINCreate(sunctx_); M_ = NULL; S_ = NULL;
  OK(KINSetErrHandlerFn(mem_, cb_err, NULL)); OK(KINSetInfoHandlerFn(mem_, cb_info, NULL));
  OK(KINSetUserData(mem_, &ud_)); OK(KINSetNumMaxIters(mem_, cf.mxit));
  if (cf.maa) OK(KINSetMAA(mem_, cf.maa)); if (cf.maa > cf.mxit) cf.maa = cf.mxit;
  if (cf.strat >= 2) { OK(KINSetOrthAA(mem_, cf.orth)); OK(KINSetDelayAA(mem_, cf.delay)); OK(KINSetReturnNewest(mem_, cf.newest)); if (cf.beta > 0) OK(KINSetDamping(mem_, cf.beta)); if (cf.betaaa > 0) OK(KINSetDampingAA(mem_, cf.betaaa)); }
  OK(KINInit(mem_, cb_f, t)); N_VDestroy(t);
  OK(KINSetFuncNormTol(mem_, cf.ftol)); OK(KINSetScaledStepTol(mem_, cf.stol == pow(2.220446049250313e-16, 2. / 3) ? 0 : cf.stol));
  if (cf.strat == KIN_FP) return;
  if (cf.mxnewt > 0) OK(KINSetMaxNewtonStep(mem_, cf.mxnewt));
  if (cf.relf > 0) OK(KINSetRelErrFunc(mem_, cf.relf));
  if (cf.msb) OK(KINSetMaxSetupCalls(mem_, cf.msb)); if (cf.msbsub) OK(KINSetMaxSubSetupCalls(mem_, cf.msbsub)); if (cf.nores) OK(KINSetNoResMon(mem_, 1));
  if (cf.nomin) OK(KINSetNoMinEps(mem_, 1)); if (cf.bcf) OK(KINSetMaxBetaFails(mem_, cf.bcf));
  OK(KINSetEtaForm(mem_, cf.eta)); if (cf.etac >= 0) OK(KINSetEtaConstValue(mem_, cf.etac)); if (cf.eal > 0 || cf.ega > 0) OK(KINSetEtaParams(mem_, cf.ega, cf.eal));
  if (cf.constr) { if (chance(0.3)) { OK(KINSetConstraints(mem_, cv_)); OK(KINSetConstraints(mem_, NULL)); EV("constraints removed"); } OK(KINSetConstraints(mem_, cv_)); }
  else if (chance(0.1)) { OK(KINSetConstraints(mem_, cv_)); OK(KINSetConstraints(mem_, NULL)); EV("constraints removed"); }
  switch (cf.ls) {
  case 1: M_ = SUNDenseMatrix(n, n, sunctx_); S_ = SUNLinSol_Dense(u_, M_, sunctx_); break;
  case 2: M_ = SUNBandMatrix(n, n > 1 ? 1 : 0, n > 1 ? 1 : 0, sunctx_); S_ = SUNLinSol_Band(u_, M_, sunctx_); break;
  case 3: S_ = SUNLinSol_SPGMR(u_, cf.pre ? SUN_PREC_RIGHT : 0, cf.maxl, sunctx_); SUNLinSol_SPGMRSetMaxRestarts(S_, 2); break;
  case 4: S_ = SUNLinSol_SPFGMR(u_, cf.pre ? SUN_PREC_RIGHT : 0, cf.maxl, sunctx_); SUNLinSol_SPFGMRSetMaxRestarts(S_, 2); break;
  case 5: S_ = SUNLinSol_SPBCGS(u_, cf.pre ? SUN_PREC_RIGHT : 0, cf.maxl, sunctx_); break;
  case 6: S_ = SUNLinSol_SPTFQMR(u_, cf.pre ? SUN_PREC_RIGHT : 0, cf.maxl, sunctx_); break;
  case 7: S_ = SUNLinSol_PCG(u_, 0, cf.maxl, sunctx_); break;
  }
  solve0 = S_->ops->solve; setup0 = S_->ops->setup; S_->ops->solve = my_solve; if (setup0) S_->ops->setup = my_setup;
  OK(KINSetLinearSolver(mem_, S_, M_));
  if (M_ && cf.jac) OK(KINSetJacFn(mem_, cb_jac));
  if (!M_ && cf.jt) OK(KINSetJacTimesVecFn(mem_, cb_jt));
  if (cf.pre) { if (cf.bbd) OK(KINBBDPrecInit(mem_, n, n > 1, n > 1, n > 1, n > 1, 0, cb_gl, NULL)); else OK(KINSetPreconditioner(mem_, cf.prek ? cb_pset : NULL, cb_ps)); }
}
static void drop(void) {
  KINFree(&mem_); if (S_) SUNLinSolFree(S_); if (M_) SUNMatDestroy(M_); N_VDestroy(u_); N_VDestroy(usv); N_VDestroy(fsv); N_VDestroy(cv_);
}
/* fixed point and Picard iterations: each iterate from those before */
static void gof(long k, LD *g) {
  int i, j, l;
  if (cf.strat == KIN_FP) { for (i = 0; i < n; i++) g[i] = hf[k][i]; return; }
  { LD L[PN][PN + 1], t; double q[PN][PN]; jacm(hu[k], q, 1);
    for (i = 0; i < n; i++) { for (j = 0; j < n; j++) L[i][j] = q[i][j]; L[i][n] = -(LD)hf[k][i]; }
    for (j = 0; j < n; j++) for (i = j + 1; i < n; i++) { t = L[i][j] / L[j][j]; for (l = j; l <= n; l++) L[i][l] -= t * L[j][l]; }
    for (i = n - 1; i >= 0; i--) { t = L[i][n]; for (j = i + 1; j < n; j++) t -= L[i][j] * g[j]; g[i] = t / L[i][i]; }
    for (i = 0; i < n; i++) g[i] += hu[k][i]; }
}
static int next_of(long k, LD *x, double *err) {      /* what follows iterate k; err: how far rounding can move it */
  LD g[PN], f[PN]; int i; double be = cf.beta > 0 ? cf.beta : 1, ba = cf.betaaa > 0 ? cf.betaaa : 1; long it;
  gof(k, g); for (i = 0; i < n; i++) f[i] = g[i] - hu[k][i];
  *err = 1e-13;
  if (cf.maa == 0 || k < cf.delay) { for (i = 0; i < n; i++) x[i] = hu[k][i] + be * f[i]; return 1; }
  it = k - cf.delay;
  if (it == 0) { for (i = 0; i < n; i++) x[i] = hu[k][i] + ba * f[i]; return 1; }
  { int m = it < cf.maa ? (int)it : cf.maa, a, b; LD Q[8][PN], R[8][8], dG[8][PN], gm[8], g1[PN], g0[PN], s, rmax = 0, rmin = 1e300L, fn = 0;
    if (m > n) return 0;
    for (a = 0; a < m; a++) {                     /* differences, oldest first */
      long j = k - m + a; gof(j + 1, g1); gof(j, g0);
      for (i = 0; i < n; i++) { dG[a][i] = g1[i] - g0[i]; Q[a][i] = (g1[i] - hu[j + 1][i]) - (g0[i] - hu[j][i]); }
      for (s = 0, i = 0; i < n; i++) s += Q[a][i] * Q[a][i]; gm[a] = sqrtl(s);
      { int rep; for (b = 0; b < a; b++) R[b][a] = 0; for (rep = 0; rep < 2; rep++) for (b = 0; b < a; b++) { for (s = 0, i = 0; i < n; i++) s += Q[b][i] * Q[a][i]; R[b][a] += s; for (i = 0; i < n; i++) Q[a][i] -= s * Q[b][i]; } }
      for (s = 0, i = 0; i < n; i++) s += Q[a][i] * Q[a][i]; R[a][a] = sqrtl(s);
      if (!(R[a][a] > 1e-5L * gm[a])) return 0;     /* nearly dependent differences: rounding decides */
      for (i = 0; i < n; i++) Q[a][i] /= R[a][a];
      rmax = fmaxl(rmax, R[a][a]); rmin = fminl(rmin, R[a][a]);
    }
    for (a = m - 1; a >= 0; a--) { for (s = 0, i = 0; i < n; i++) s += Q[a][i] * f[i]; for (b = a + 1; b < m; b++) s -= R[a][b] * gm[b]; gm[a] = s / R[a][a]; }
    for (i = 0; i < n; i++) { x[i] = g[i]; for (a = 0; a < m; a++) x[i] -= gm[a] * dG[a][i]; }
    if (ba < 1) for (i = 0; i < n; i++) { LD r = f[i]; for (a = 0; a < m; a++) for (b = a; b < m; b++) r -= Q[a][i] * R[a][b] * gm[b]; x[i] -= (1 - ba) * r; }
    for (i = 0; i < n; i++) fn = fmaxl(fn, fabsl(f[i]));
    { double un = 0; LD gs = 0; for (i = 0; i < n; i++) un = fmax(un, fabs(hu[k][i]) + 1); for (a = 0; a < m; a++) gs += fabsl(gm[a]);
      *err = 1e-13 * (1 + (double)(rmax / rmin)) * (1 + (double)gs) * (1 + un / (double)rmin) + 1e-9 * (double)fn; }
    if (*err > 1e-3) return 0;
  }
  return 1;
}
static void iterations(int flag) {
  long k; int i; LD x[PN]; double e;
  if (cf.strat == KIN_PICARD && cf.ls > 2) return;
  for (k = 0; k + 1 < nh && k < MAXH - 1 && !n_fail; k++) {
    double sc = 0; if (hr[k] || !next_of(k, x, &e)) continue;
    for (i = 0; i < n; i++) sc = fmax(sc, fabs((double)x[i]));
    for (i = 0; i < n; i++) if (!(fabsl(x[i] - hu[k + 1][i]) <= e * (1 + sc) * 10)) { fail("iteration", "iterate %ld, element %d: %.15g, expected %.15Lg (allowed %.2g)", k + 1, i, hu[k + 1][i], x[i], e * (1 + sc) * 10); return; }
    EV(k >= cf.delay && cf.maa ? (k - cf.delay > cf.maa ? "accelerated iterates with a full window" : "accelerated iterates") : "plain iterates");
  }
  if (cf.strat == KIN_FP && !n_fail && (flag == KIN_SUCCESS || flag == KIN_MAXITER_REACHED) && nh > 0 && nh < MAXH) {
    k = nh - 1; if (cf.newest) { if (next_of(k, x, &e)) for (i = 0; i < n; i++) if (!(fabsl(x[i] - DP(u_)[i]) <= e * 20)) fail("newest", "element %d returned %.15g, the newest iterate is %.15Lg", i, DP(u_)[i], x[i]); }
    else for (i = 0; i < n; i++) if (!same(DP(u_)[i], hu[k][i])) { fail("returned", "element %d returned %.17g, the last evaluated iterate is %.17g", i, DP(u_)[i], hu[k][i]); break; }
  }
}
static void zero(void) {
  memset(&c_, 0, sizeof c_); nfe_ = nfd_ = 0; nh = 0; pend = 0; have_p = have_trial = 0; judged = 0; lcf_ = 0; odd_ = 0; since_setup = 0; n_it = nsteps = 0; bcf_exp = nbk_exp = 0; small_ = 0; jknown = !rec_ && cf.noini && jknown; tiny_ = 0; nfl_ = 0; over_ = 0; cberr_ = 0; ntr_ = 0; lastcode = 0; lastmsg[0] = 0;
}
static int set_up_, dis_;   /* disable the forcing-term prediction: eta of an earlier solve is where the next starts only for constants */
static int w_first_ok(int flag) { return nfl_ && flag < 0; }
static void solve(int again) {
  int flag, i; double f[PN], d[PN]; long v, nni; realtype x; const char *why = "";
  zero(); for (i = 0; i < n; i++) DP(u_)[i] = us[i];
  eta_known = 1; eta_exp = cf.eta == KIN_ETACONSTANT ? (cf.etac > 0 ? cf.etac : 0.1) : 0.5; (void)dis_;
  flag = KINSol(mem_, u_, cf.strat, usv, fsv);
  settle();
  set_up_ = c_.setup > 0 && flag != KIN_LSETUP_FAIL;
  if (n_fail || over_) return;          /* stopped by the monitor itself */
  if (NEWTON && flag == KIN_SUCCESS) accept();
  if (n_fail) return;
  sigmix(flag + 100 * cf.strat + 1000 * cf.ls + 10000 * c_.it); sigd(DP(u_)[0]); trace(flag); for (i = 0; i < n; i++) trace(DP(u_)[i]);
  if (cberr_) { fail("callback", "a callback was given something wrong (%d)", cberr_); return; }
  if (!vec_is(usv, usc) || !vec_is(fsv, fsc)) { fail("changed", "a scaling vector was changed"); return; }
  { char b[40]; snprintf(b, sizeof b, "flag %d", flag); EV(b); }
  KINGetNumNonlinSolvIters(mem_, &nni); KINGetFuncNorm(mem_, &x);
  KINGetNumFuncEvals(mem_, &v); if (v != c_.it) { fail("counters", "%ld evaluations reported, %ld made", v, c_.it); return; }
  if (cf.strat != KIN_FP && c_.solve) {
    KINGetNumLinFuncEvals(mem_, &v); if (v != c_.dq && !(cf.ls == 2 && nfl_)) fail("counters", "%ld evaluations for differences reported, %ld made", v, c_.dq);
    if (M_ && cf.jac) { KINGetNumJacEvals(mem_, &v); if (v != c_.jac) fail("counters", "%ld Jacobians reported, %ld made", v, c_.jac); }
    if (!M_ && cf.jt) { KINGetNumJtimesEvals(mem_, &v); if (v != c_.jt) fail("counters", "%ld products reported, %ld made", v, c_.jt); }
    if (cf.pre && !cf.bbd) { KINGetNumPrecEvals(mem_, &v); if (v != c_.pset) fail("counters", "%ld preconditioner setups reported, %ld made", v, c_.pset); KINGetNumPrecSolves(mem_, &v); if (v != c_.ps) fail("counters", "%ld preconditioner solves reported, %ld made", v, c_.ps); }
    if (cf.bbd) { KINBBDPrecGetNumGfnEvals(mem_, &v); if (v != c_.gl && !again) fail("counters", "%ld evaluations for the preconditioner reported, %ld made", v, c_.gl); }
    KINGetNumLinIters(mem_, &v); if (v != c_.li) fail("counters", "%ld linear iterations reported, %ld made", v, c_.li);
  }
  if (!again) {
    long bk_, bc_, ex = c_.it - 1 - nni;
    KINGetNumBacktrackOps(mem_, &bk_); KINGetNumBetaCondFails(mem_, &bc_);
    if (cf.strat != KIN_LINESEARCH ? bk_ || bc_ : flag == KIN_SUCCESS && !cf.constr && c_.solve && bk_ + bc_ > ex) { fail("counters", "%ld backtracks and %ld failures of the beta condition, %ld evaluations of %ld iterations", bk_, bc_, c_.it, nni); return; }
    if (cf.strat == KIN_LINESEARCH && flag == KIN_SUCCESS && c_.solve && !odd_ && judged && !small_ && !nfl_ && !cf.constr) { if (bk_ + bc_ != ex) { fail("counters", "%ld backtracks and %ld failures of the beta condition, %ld evaluations of %ld iterations", bk_, bc_, c_.it, nni); return; } EV("backtracks counted"); if (ex) EV("solves with backtracks counted"); }
    if (cf.strat != KIN_FP && c_.solve) { KINGetNumLinConvFails(mem_, &v); if (v != lcf_) { fail("counters", "%ld failures of the linear solver reported, %ld seen", v, lcf_); return; } if (v) EV("failures of linear solvers counted"); }
  }
  if (nni > cf.mxit + (NEWTON && nni == cf.mxit + 1)) {      /* one more after a step that was too small to end with an old Jacobian */ fail("limit", "%ld iterations, the limit is %ld", nni, cf.mxit); return; }
  sysf(DP(u_), f);
  if (!NEWTON) iterations(flag);
  if (n_fail) return;
  if (cf.constr && flag >= 0) for (i = 0; i < n; i++) if (violates(DP(u_), i)) fail("constraint", "element %d returned as %.17g", i, DP(u_)[i]);
  if (cf.fails == 0 && !cf.domain && (flag <= -9 || flag == KIN_ILL_INPUT || flag == KIN_MEM_NULL || flag == KIN_NO_MALLOC)) {
    if (!((flag == KIN_LSOLVE_FAIL || flag == KIN_LINSOLV_NO_RECOVERY || (flag == KIN_LSETUP_FAIL && cf.strat == KIN_PICARD && !(wl2(fcur, fsc) < 1e10))) && cf.ls > 2)) { fail("flag", "returned %d (%s)", flag, lastmsg); return; }     /* the linear solver may not converge */
  }
  if (cf.strat == KIN_FP) for (i = 0; i < n; i++) d[i] = f[i] - DP(u_)[i];
  switch (flag) {
  case KIN_SUCCESS: {
    double r = scmax(f, fsc), lim = cf.ftol * (1 + 1e-9) + 1e-13; int known = 1;
    if (cf.strat == KIN_FP) {       /* the test is made on the change of the last iteration */
      long k = nh - 1; LD x2[PN]; double e = 0, g = 0;
      known = nh > 0 && nh < MAXH && next_of(k, x2, &e);
      if (known) { for (i = 0; i < n; i++) d[i] = (double)(x2[i] - hu[k][i]); lim = cf.ftol * (cf.maa && k > cf.delay ? 1 : cf.maa && k == cf.delay ? (cf.betaaa > 0 ? cf.betaaa : 1) : cf.beta > 0 ? cf.beta : 1) * (1 + 1e-9); for (i = 0; i < n; i++) g = fmax(g, fsc[i] * (1 + fabs(root[i]))); lim += 20 * e * g; r = scmax(d, fsc); }
      for (i = 0; i < n; i++) if (!isfinite(DP(u_)[i])) { fail("success", "success with %g", DP(u_)[i]); break; }
    }
    if (known && !(r <= lim)) fail("success", "success with a scaled maximum norm of %.9g, the tolerance is %.9g", r, cf.ftol);
    else EV("roots found");
    if (cf.strat != KIN_FP) { double e = 0, fm = 0; for (i = 0; i < n; i++) { e = fmax(e, fabs(DP(u_)[i] - root[i])); fm = fmax(fm, fabs(f[i])); }
      if (e > fm / 0.15 + 1e-12) fail("root", "%.6g from the root, the function is %.6g", e, fm);
      if (NEWTON && memcmp(cur, DP(u_), n * 8) && !(tiny_ && !memcmp(bk, DP(u_), n * 8))) fail("returned", "the returned vector is not the last iterate"); }
    break; }
  case KIN_INITIAL_GUESS_OK:
    if (scmax(f, fsc) > 0.01 * cf.ftol * (1 + 1e-9)) fail("guess", "guess accepted with norm %.9g, tolerance %.9g", scmax(f, fsc), cf.ftol);
    for (i = 0; i < n; i++) if (DP(u_)[i] != us[i]) fail("guess", "the guess was changed");
    break;
  case KIN_STEP_LT_STPTOL: why = "step"; break;
  case KIN_MAXITER_REACHED: if (nni != cf.mxit && !(NEWTON && nni == cf.mxit + 1)) fail("limit", "stopped after %ld iterations, the limit is %ld", nni, cf.mxit); break;
  }
  if (flag != KIN_INITIAL_GUESS_OK && scmax(hf[0], fsc) <= 0.0099 * cf.ftol && cf.strat != KIN_FP && !hr[0] && nh) fail("guess", "a guess that was good enough gave %d", flag);
  /* the reported norm is the one of the returned vector */
  if (flag == KIN_SUCCESS || flag == KIN_INITIAL_GUESS_OK || (flag == KIN_MAXITER_REACHED && !n_fail)) {
    double r = cf.strat == KIN_FP ? -1 : cf.strat == KIN_PICARD && flag != KIN_INITIAL_GUESS_OK ? scmax(f, fsc) : wl2(f, fsc);
    if (r >= 0 && fabs(x - r) > 1e-9 * r + 1e-12) fail("norm", "reported norm %.12g, it is %.12g (flag %d)", x, r, flag);
    KINGetNumBetaCondFails(mem_, &v); (void)why;
  }
  if (cf.strat == KIN_NONE && flag == KIN_SUCCESS && nsteps) { KINGetStepLength(mem_, &x); if (fabs(x - wl2(p_, usc) * ratio) > 1e-7 * x && judged) fail("step", "reported step length %.12g, it was %.12g", x, wl2(p_, usc) * ratio); }
  /* a well behaved problem with enough iterations is solved */
  if (!cf.fails && !cf.domain && cf.mxit == 400 && (flag < 0 || flag == 2)) {
    if (cf.strat == KIN_LINESEARCH && !cf.constr && (cf.ls <= 2 ? cf.msb == 1 : 0) && cf.jac && !cf.mxnewt && !cf.bcf && cf.ftol > 1e-9 && flag != KIN_LINESEARCH_BCFAIL) fail("unsolved", "line search returned %d, norm %.3g", flag, scmax(f, fsc));
    if (cf.strat == KIN_PICARD && cf.ls <= 2 && cf.maa == 0) fail("unsolved", "Picard iteration returned %d, norm %.3g", flag, scmax(f, fsc));
    if (cf.strat == KIN_FP && cf.maa == 0) fail("unsolved", "fixed point iteration returned %d, norm %.3g", flag, scmax(d, fsc));
  }
  if ((cf.fails || cf.domain) && !n_fail) {
    int lastfail = 0; (void)lastfail;
    if (nfl_ && flag == KIN_SUCCESS && !NEWTON && cf.fwhat == 1) { for (i = 0; i < nh && i < MAXH; i++) if (hr[i] && i + 1 < nh && cf.strat == KIN_FP) fail("failure", "the iteration went on with the result of a failed call (call %d returned %d)", i + 1, hr[i]); }
    if (nfl_ && cf.fails < 0 && flag >= 0) fail("failure", "success (%d) although a function failed for good", flag);
    if (nfl_ && (cf.fails < 0 || cf.dbeta)) {
      int w = cf.fwhat;
      if (cf.domain) ;
      else if (cf.fails < 0) {
        int e = w == 1 ? KIN_SYSFUNC_FAIL : w == 2 || w == 4 ? KIN_LSETUP_FAIL : KIN_LSOLVE_FAIL;
        if (w == 1 && c_.dq && flag != KIN_SYSFUNC_FAIL) e = M_ ? KIN_LSETUP_FAIL : KIN_LSOLVE_FAIL;
        if (flag != e) fail("failure", "function %d failed for good: returned %d, documented %d (%s)", w, flag, e, lastmsg);
      }
    }
    if (w_first_ok(flag)) EV("failures reported");
    if (flag < 0 && flag != lastcode && cf.strat != KIN_PICARD && flag != KIN_LSETUP_FAIL) fail("message", "returned %d, the last message has %d", flag, lastcode);
  }
  /* the vector handed back is an iterate */
  if (NEWTON && flag < 0 && !n_fail && nh > 1 && !cf.constr && flag != KIN_ILL_INPUT) {
    long k; int ok = 0; for (k = 0; k < nh && k < MAXH && !ok; k++) ok = !memcmp(hu[k], DP(u_), n * 8);
    if (!ok && nh < MAXH) fail("returned", "the vector returned with %d is not one at which the function was called as iterate", flag);
  }
}
static void one_case(const char *mode, long ic, int arg) {
  int k; (void)mode; (void)ic;
  config(arg); problem();
  adddesc("%s n %d kind %d ls %s jac %d jt %d pre %d/%d bbd %d, maa %d orth %d delay %d newest %d beta %.3g %.3g, eta %d %.3g %.3g %.3g nomin %d, msb %d/%d nores %d, constr %d, ftol %.2e stol %.2e mxstep %.3g mxit %ld relf %.1e, fail %d of %d at %ld/%d domain %d maxl %d", sn[cf.strat], n, kind_, lsn[cf.ls], cf.jac, cf.jt, cf.pre, cf.prek, cf.bbd, cf.maa, cf.orth, cf.delay, cf.newest, cf.beta, cf.betaaa, cf.eta, cf.etac, cf.ega, cf.eal, cf.nomin, cf.msb, cf.msbsub, cf.nores, cf.constr, cf.ftol, cf.stol, cf.mxnewt, cf.mxit, cf.relf, cf.fails, cf.fwhat, cf.fat, cf.dbeta, cf.domain, cf.maxl);
  build();
  rec_ = 1; if (!n_fail) solve(0);
  rec_ = 0;
  if (cf.noini && cf.strat != KIN_FP && cf.twice > 1 && !n_fail && set_up_) { OK(KINSetNoInitSetup(mem_, 1)); EV("solves without a first setup"); }
  else cf.noini = 0;
  for (k = 0; k < (cf.twice > 1 ? 1 : 0) && !n_fail; k++) if (!(cf.ls > 2 && cf.eta == 3 && 0)) { EV("repeated"); solve(1); }
  drop();
}
