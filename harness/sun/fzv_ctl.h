/* Control of step and order: every step is predicted from the history before it (order change, rescaling, prediction,
   correction by multiples of the one correction vector), and the next step and order from the estimated errors. */
#define HMAX_ 14
typedef struct { int kind, k, len, test, ok, acok, savok; double z[HMAX_][PN], p[HMAX_][PN], m[HMAX_][PN], sav[PN], savd[PN], ac[PN], acd[PN], w[PN]; } HI;
static HI hi_[2 + 2 * MS]; static int nhi_;
static N_Vector cy_, cq_;
static int ct_q, ct_wait, ct_sync, ct_qmax, ct_qc, ct_qu; static double ct_h, ct_hc, ct_t, ct_tau[20], ct_sav5; static long ct_nst, ct_netf, ct_ncfn;
static LD ct_l[HMAX_], ct_tq[6], ct_rel, ct_rel1, ct_rel3;   /* ct_rel: cancellation in tq[2] */
static int ct_dky(CV *c, HI *H, double t, int j, double *out) {
  int r = 0, i; N_Vector v = H->kind < 2 ? cy_ : cq_;
  if (H->kind == 0) r = CVodeGetDky(c->mem, t, j, v); else if (H->kind == 1) r = CVodeGetSensDky1(c->mem, t, j, H->k, v); else if (H->kind == 2) r = CVodeGetQuadDky(c->mem, t, j, v); else r = CVodeGetQuadSensDky1(c->mem, t, j, H->k, v);
  for (i = 0; i < H->len; i++) out[i] = DP(v)[i];
  return r;
}
/* the derivatives given: 0 when there are none to compare with */
static int ct_rhs(HI *H, double t, const double *y, const double *s, double *d) {
  double J[PN][PN]; int i, j;
  if (H->kind == 0) f_d(t, y, pu, d);
  else if (H->kind == 1) { jac_d(t, y, pu, J); if (sf.col[H->k] < 100) dfdp_d(t, y, pu, sf.col[H->k], d); else for (i = 0; i < pb.n; i++) d[i] = 0; for (i = 0; i < pb.n; i++) for (j = 0; j < pb.n; j++) d[i] += J[i][j] * s[j]; return sf.rhs != 0; }
  else if (H->kind == 2) fq_d(t, y, pu, d);
  else { fqs_d(t, y, pu, s, sf.col[H->k], d); return sf.qs == 1; }
  return 1;
}
static HI *ct_sens(int k) { int i; for (i = 0; i < nhi_; i++) if (hi_[i].kind == 1 && hi_[i].k == k) return hi_ + i; return NULL; }
static void ct_weights(CV *c) {
  int i, k; N_Vector *a = sf.ns ? N_VCloneVectorArray(sf.ns, cy_) : NULL, *b = sf.ns ? N_VCloneVectorArray(sf.ns, cq_) : NULL;
  if (sf.ns) { for (k = 0; k < sf.ns; k++) N_VConst(0., a[k]); OK(CVodeGetSensErrWeights(c->mem, a)); if (sf.qs && sf.errqs) OK(CVodeGetQuadSensErrWeights(c->mem, b)); }
  for (i = 0; i < nhi_; i++) {
    HI *H = hi_ + i; N_Vector v = NULL;
    if (H->kind == 0) { OK(CVodeGetErrWeights(c->mem, cy_)); v = cy_; }
    if (H->kind == 1 && H->test) v = a[H->k];
    if (H->kind == 2 && H->test) { OK(CVodeGetQuadErrWeights(c->mem, cq_)); v = cq_; }
    if (H->kind == 3 && H->test) v = b[H->k];
    for (k = 0; k < H->len; k++) H->w[k] = v ? DP(v)[k] : 0;
  }
  if (sf.ns) { N_VDestroyVectorArray(a, sf.ns); N_VDestroyVectorArray(b, sf.ns); }
}
static void ct_fails(CV *c, long *e, long *f) {
  long x; int k; long n1[MS];
  OK(CVodeGetNumErrTestFails(c->mem, e)); OK(CVodeGetNumNonlinSolvConvFails(c->mem, f));
  if (sf.ns) { OK(CVodeGetSensNumErrTestFails(c->mem, &x)); *e += x; if (sf.ism == CV_STAGGERED) { OK(CVodeGetSensNumNonlinSolvConvFails(c->mem, &x)); *f += x; } if (sf.ism == CV_STAGGERED1) { OK(CVodeGetStgrSensNumNonlinSolvConvFails(c->mem, n1)); for (k = 0; k < sf.ns; k++) *f += n1[k]; } }
  if (sf.quad) { OK(CVodeGetQuadNumErrTestFails(c->mem, &x)); *e += x; }
  if (sf.qs) { OK(CVodeGetQuadSensNumErrTestFails(c->mem, &x)); *e += x; }
}
/* what a solver of the user's own is given between steps */
static void ct_data(CV *c, double tn, double hu) {
  realtype tc, ga, r1, g2; N_Vector yp, yn, fn, z1, a = N_VClone(cy_), b = N_VClone(cy_), *S, *A, *B; void *ud; int i, k; HI *H; double g = hu / (double)ct_l[1];
  OK(CVodeGetNonlinearSystemData(c->mem, &tc, &yp, &yn, &fn, &ga, &r1, &z1, &ud)); OK(CVodeGetCurrentGamma(c->mem, &g2));
  if (tc != tn || ud != &ud_ || g2 != ga || fabs(ga - g) > 1e-10 * fabs(g) || fabs(r1 * (double)ct_l[1] - 1) > 1e-10) fail("data", "t %.17g gamma %.17g %.17g, 1/l1 %.17g, not %.17g %.17g %.17g", tc, ga, g2, r1, tn, g, (double)(1 / ct_l[1]));
  for (i = 0; i < pb.n; i++) if (!same(DP(yp)[i], hi_[0].z[0][i])) { fail("data", "element %d of the prediction is %.17g, not %.17g", i, DP(yp)[i], hi_[0].z[0][i]); break; }
  for (i = 0; i < pb.n; i++) DP(a)[i] = sin(i + tn);
  OK(CVodeComputeState(c->mem, a, b)); for (i = 0; i < pb.n; i++) if (!same(DP(b)[i], hi_[0].z[0][i] + DP(a)[i])) { fail("data", "state %d computed as %.17g", i, DP(b)[i]); break; }
  if (sf.ns) {
    A = N_VCloneVectorArray(sf.ns, cy_); B = N_VCloneVectorArray(sf.ns, cy_);
    OK(CVodeGetCurrentStateSens(c->mem, &S)); if (!S) fail("data", "no sensitivities");
    for (k = 0; k < sf.ns; k++) for (i = 0; i < pb.n; i++) DP(A[k])[i] = cos(i + 3 * k + tn);
    OK(CVodeComputeStateSens(c->mem, A, B)); OK(CVodeComputeStateSens1(c->mem, sf.ns - 1, A[0], b));
    for (H = hi_; H < hi_ + nhi_; H++) if (H->kind == 1) for (i = 0; i < pb.n; i++) {
      if (!same(DP(B[H->k])[i], H->z[0][i] + DP(A[H->k])[i])) fail("data", "sensitivity %d of state %d computed as %.17g", H->k, i, DP(B[H->k])[i]);
      if (H->k == sf.ns - 1 && !same(DP(b)[i], H->z[0][i] + DP(A[0])[i])) fail("data", "last sensitivity of state %d computed as %.17g", i, DP(b)[i]);
    }
    N_VDestroyVectorArray(A, sf.ns); N_VDestroyVectorArray(B, sf.ns);
  }
  { long x[8], y; realtype tf; typedef int (*get)(void *, long *); static const get one[8] = { CVodeGetNumJacEvals, CVodeGetNumLinRhsEvals, CVodeGetNumLinIters, CVodeGetNumLinConvFails, CVodeGetNumPrecEvals, CVodeGetNumPrecSolves, CVodeGetNumJTSetupEvals, CVodeGetNumJtimesEvals };
    if (cf.ls && cf.ls != 3 && !CVodeGetLinSolveStats(c->mem, x, x + 1, x + 2, x + 3, x + 4, x + 5, x + 6, x + 7)) { for (k = 0; k < 8; k++) { OK(one[k](c->mem, &y)); if (y != x[k]) fail("counters", "counter %d of the linear solver is %ld in the list, %ld alone", k, x[k], y); } EV("lists of counters looked at"); }
    OK(CVodeGetTolScaleFactor(c->mem, &tf)); if (tf != 1) fail("data", "scale factor of the tolerances %.17g", tf);
    if (sf.ns && sf.ism == CV_STAGGERED1) { long i1[MS], f1[MS], i2[MS], f2[MS]; OK(CVodeGetStgrSensNonlinSolvStats(c->mem, i1, f1)); OK(CVodeGetStgrSensNumNonlinSolvIters(c->mem, i2)); OK(CVodeGetStgrSensNumNonlinSolvConvFails(c->mem, f2)); for (k = 0; k < sf.ns; k++) if (i1[k] != i2[k] || f1[k] != f2[k]) fail("counters", "counters of sensitivity %d", k); }
    if (sf.qs) { N_Vector *Q = N_VCloneVectorArray(sf.ns, cq_); double t0 = tn - 0.3 * hu; OK(CVodeGetQuadSensDky(c->mem, t0, 1, Q)); for (k = 0; k < sf.ns; k++) { OK(CVodeGetQuadSensDky1(c->mem, t0, 1, k, cq_)); for (i = 0; i < NV_LENGTH_S(cq_); i++) if (!same(DP(cq_)[i], DP(Q[k])[i])) fail("data", "sensitivity %d of integral %d: derivatives together and alone differ", k, i); } N_VDestroyVectorArray(Q, sf.ns); }
  }
  N_VDestroy(a); N_VDestroy(b); EV("data for solvers looked at");
}
static double ct_wrms(HI *H, const double *v) { int i; double s = 0; for (i = 0; i < H->len; i++) { double w = v[i] * H->w[i]; s += w * w; } return sqrt(s / H->len); }
/* coefficients of the product of (a_i + b_i x), i < n */
static void ct_prod(int n, const LD *a, const LD *b, LD *c) { int i, j; c[0] = 1; for (i = 0; i < n; i++) { c[i + 1] = 0; for (j = i + 1; j >= 1; j--) c[j] = c[j] * a[i] + c[j - 1] * b[i]; c[0] *= a[i]; } }
static LD ct_int(int n, const LD *c, int k) { int i; LD s = 0; for (i = 0; i <= n; i++) s += (i % 2 ? -1 : 1) * c[i] / (i + k); return s; }   /* of x^(k-1) c(x) from -1 to 0, but for the sign */
/* the method of order q with the step h, after the steps tau[1], tau[2], ... */
static void ct_method(int lmm, int q, double h, const double *tau) {
  LD xi[20], one[20], inv[20], c[20], hs = h; int i;
  for (i = 1; i <= q + 1; i++) { xi[i] = hs / h; hs += tau[i]; one[i - 1] = 1; inv[i - 1] = 1 / xi[i]; }
  ct_rel1 = ct_rel3 = 1;
  if (lmm == CV_ADAMS) {
    LD M0, M1;
    if (q == 1) { ct_l[0] = ct_l[1] = 1; ct_tq[1] = ct_tq[5] = 1; ct_tq[2] = 0.5L; ct_tq[3] = 1.L / 12; ct_rel = 1; return; }
    ct_prod(q - 1, one, inv, c); M0 = ct_int(q - 1, c, 1); M1 = ct_int(q - 1, c, 2);
    ct_l[0] = 1; for (i = 1; i <= q; i++) ct_l[i] = c[i - 1] / i / M0;
    { LD m0 = 0, m1 = 0; for (i = 0; i < q; i++) { m0 += c[i] / (i + 1); m1 += c[i] / (i + 2); } ct_rel = m0 / M0 + m1 / M1; }
    ct_tq[2] = M1 / M0 / xi[q]; ct_tq[5] = xi[q] / ct_l[q];
    ct_prod(q - 2, one, inv, c); ct_tq[1] = q * ct_int(q - 2, c, 2) / c[q - 2];
    ct_prod(q, one, inv, c); ct_tq[3] = ct_int(q, c, 2) / M0 / (q + 1);
  } else {
    LD a0 = 0, ah, sum = 0, xs, A1, A2, A3, A4, A5, A6;
    for (i = 1; i <= q; i++) a0 -= 1.L / i;
    for (i = 1; i < q; i++) sum += inv[i - 1];
    xs = q > 1 ? -a0 - sum : 1; ah = q > 1 ? -sum - inv[q - 1] : -1;
    inv[q - 1] = xs; ct_prod(q, one, inv, ct_l);
    A1 = 1 - ah + a0; A2 = 1 + q * A1;
    ct_rel = (1 - ah - a0) * (1 / fabsl(A1) + q / fabsl(A2)); ct_tq[2] = fabsl(A1 / (a0 * A2)); ct_tq[5] = fabsl(A2 * xs * xi[q] / ct_l[q]);
    A3 = a0 + 1.L / q; A4 = ah + 1 / xi[q];
    ct_tq[1] = q > 1 ? fabsl(xs / ct_l[q] * (1 - A4 + A3) / A3) : 1;
    ct_rel1 = q > 1 ? (1 + fabsl(A4) + fabsl(A3)) / fabsl(1 - A4 + A3) : 1;
    A5 = a0 - 1.L / (q + 1); A6 = ah - 1 / xi[q + 1];
    ct_tq[3] = fabsl((1 - A6 + A5) / A2 * xi[q + 1] / ((q + 2) * A5));
    ct_rel3 = (1 + fabsl(A6) + fabsl(A5)) / fabsl(1 - A6 + A5) + ct_rel;
  }
}
/* change of order by one, the history being that of steps tau[1] = h, tau[2], ... scaled with h */
static void ct_adjust(int lmm, int q, int up, double h, const double *tau) {
  LD a[20] = { 0 }, b[20] = { 0 }, c[20], hs = 0, A = 0, Am = 0; int i, j, n; HI *H;
  if (up && lmm == CV_ADAMS) { for (H = hi_; H < hi_ + nhi_; H++) for (i = 0; i < H->len; i++) H->z[q + 1][i] = H->m[q + 1][i] = 0; return; }
  if (!up && q == 2) return;
  /* polynomial x^2 (x + xi_1) ...; Adams: the integral of x (x + xi_1) ..., times q */
  n = up ? q - 1 : q - 2;
  for (i = 0; i < n; i++) { hs += tau[i + 1]; a[i] = hs / h; b[i] = 1; }
  ct_prod(n, a, b, c);
  if (up) {
    LD a0 = 0, a1 = 1, pr = 1; for (i = 1; i <= q; i++) a0 -= 1.L / i;
    hs = h; for (i = 1; i < q; i++) { hs += tau[i + 1]; pr *= hs / h; a1 += h / hs; }
    A = (-a0 - a1) / pr; Am = (-a0 + a1) / pr;   /* nothing at constant steps */
    /* x^2 times the product over j < q of (x + xi_j) */
  }
  for (H = hi_; H < hi_ + nhi_; H++) {
    if (up) { for (i = 0; i < H->len; i++) { H->z[q + 1][i] = A * H->sav[i]; H->m[q + 1][i] = Am * fabs(H->sav[i]) + fabsl(A) * H->savd[i] / EPS; } if (!H->savok) H->ok = 0; }
    for (j = 2; j <= (up ? q : q - 1); j++) for (i = 0; i < H->len; i++) {
      LD co = lmm == CV_BDF ? c[j - 2] : q * c[j - 2] / j, v = co * (up ? H->z[q + 1][i] : -H->z[q][i]);
      H->z[j][i] += v; H->m[j][i] += fabsl(co) * H->m[up ? q + 1 : q][i];
    }
  }
}
static void ct_start(CV *c) {
  int k; HI *H; memset(hi_, 0, sizeof hi_); nhi_ = 0;
  H = hi_ + nhi_++; H->kind = 0; H->len = pb.n; H->test = 1;
  for (k = 0; k < sf.ns; k++) { H = hi_ + nhi_++; H->kind = 1; H->k = k; H->len = pb.n; H->test = sf.errcon; }
  if (sf.quad) { H = hi_ + nhi_++; H->kind = 2; H->len = 2; H->test = sf.errq; }
  if (sf.qs) for (k = 0; k < sf.ns; k++) { H = hi_ + nhi_++; H->kind = 3; H->k = k; H->len = 2; H->test = sf.errqs; }
  ct_qmax = cf.maxord ? cf.maxord : cf.lmm == CV_ADAMS ? 12 : 5;
  ct_q = 1; ct_wait = 2; ct_sync = 1; ct_nst = 0; ct_netf = ct_ncfn = 0; ct_t = pb.t0; ct_sav5 = 0; memset(ct_tau, 0, sizeof ct_tau); ct_h = ct_hc = 0; ct_qc = 1; ct_qu = 0;
  (void)c;
}
/* the first step: from the bounds and the second derivative along the Euler step */
static void ct_first(CV *c, double tout, double h0) {
  int i, j, n; HI *H; double hub, inv = 0, hlb, hg, hn = 0, td = fabs(tout - pb.t0), tr = EPS * fmax(fabs(pb.t0), fabs(tout)), y1[PN], s1[PN], d[PN], e[PN], cap = cf.hmax > 0 ? cf.hmax : 1e300; int known = 1, close = 0;
  (void)c;
  if (h0 * dir_ <= 0) { fail("first-step", "first step %.17g", h0); return; }
  if (fabs(h0) > cap * (1 + 1e-14)) { fail("first-step", "first step %.17g, at most %.17g asked for", h0, cap); return; }
  if (cf.h0 > 0) { double w = fmin(cf.h0, cap); if (fabs(fabs(h0) - w) > 1e-14 * w) fail("first-step", "first step %.17g, asked for %.17g (at most %.17g)", h0, cf.h0, cap); EV("first steps given"); return; }
  for (H = hi_; H < hi_ + nhi_; H++) { if (!H->ok) { if (H->test) known = 0; continue; } if (H->test) for (i = 0; i < H->len; i++) inv = fmax(inv, fabs(H->z[1][i]) / (0.1 * fabs(H->z[0][i]) + 1 / H->w[i])); }
  if (!known) { if (fabs(h0) > 0.1 * td * (1 + 1e-14)) fail("first-step", "first step %.17g of %.17g", h0, td); return; }
  hub = 0.1 * td; if (hub * inv > 1) hub = 1 / inv;
  hlb = 100 * tr; hg = sqrt(hlb * hub);
  if (hub < hlb) hn = hg;
  else for (n = 1; n <= 4; n++) {
    double ydd = 0, g = hg * dir_, r;
    for (i = 0; i < pb.n; i++) y1[i] = hi_[0].z[0][i] + g * hi_[0].z[1][i];
    for (H = hi_; H < hi_ + nhi_; H++) if (H->test) {
      if (H->kind == 1 || H->kind == 3) { HI *S = ct_sens(H->k); if (!S->ok) { if (fabs(h0) > hub * (1 + 1e-12)) fail("first-step", "first step %.17g, the bound is %.17g", h0, hub); return; } for (i = 0; i < pb.n; i++) s1[i] = S->z[0][i] + g * S->z[1][i]; }
      ct_rhs(H, pb.t0 + g, y1, s1, d);
      for (j = 0; j < H->len; j++) e[j] = (d[j] - H->z[1][j]) / g;
      ydd = fmax(ydd, ct_wrms(H, e));
    }
    { double x = ydd * hub * hub; if (fabs(x - 2) < 1e-6) close = 1; }
    hn = ydd * hub * hub > 2 ? sqrt(2 / ydd) : sqrt(hg * hub);
    if (n == 4) break;
    r = hn / hg; if (fabs(r - 0.5) < 1e-6 || fabs(r - 2) < 1e-6) close = 1;
    if (r > 0.5 && r < 2) break;
    if (n > 1 && r > 2) { hn = hg; break; }
    hg = hn;
  }
  if (hub >= hlb) { hn *= 0.5; if (hn < hlb) hn = hlb; if (hn > hub) hn = hub; } if (hn > cap) hn = cap;
  if (close) return;
  if (!within("first step", fabs(fabs(h0) - hn), 1e-5 * hn)) { fail("first-step", "first step %.17g, %.17g expected (bounds %.3g and %.3g)", h0, hn, hlb, hub); return; }
  EV("first steps predicted");
}
static double ct_eta(LD x, LD bias, int root) { if (!(x > 0)) x = 0; return 1 / (powl(bias * x, 1.L / root) + 1e-6L); }
static void ct_one(CV *c, double tout) {
  realtype T, tn, hu, hc, h0; int flag, q, qc, i, j, k, drops, fails, restart = 0, skip = 0; long nst, netf, ncfn, nef, ncf; HI *H; double r, bigr, yold[PN], h = ct_h, told = ct_t, etamax;
  static double big[2 + 2 * MS][HMAX_][PN];
  flag = CVode(c->mem, tout, c->y, &T, CV_ONE_STEP);
  if (flag < 0) { dead_ = 1; EV("gave up"); if ((robust() && pb.kl == 0) || (flag != CV_TOO_MUCH_WORK && flag != CV_ERR_FAILURE && flag != CV_CONV_FAILURE && flag != CV_TOO_MUCH_ACC)) fail("gave-up", "returned %d at %.17g (%s)", flag, T, lastmsg); return; }
  if (cberr_) { fail("callback", "a callback was given something wrong (%d)", cberr_); return; }
  OK(CVodeGetCurrentTime(c->mem, &tn)); OK(CVodeGetLastStep(c->mem, &hu)); OK(CVodeGetCurrentStep(c->mem, &hc)); OK(CVodeGetLastOrder(c->mem, &q)); OK(CVodeGetCurrentOrder(c->mem, &qc)); OK(CVodeGetNumSteps(c->mem, &nst)); OK(CVodeGetActualInitStep(c->mem, &h0));
  ct_fails(c, &netf, &ncfn); ct_weights(c); if (n_fail) return;
  if (nst != ct_nst + 1) { fail("one-step", "%ld steps", nst - ct_nst); return; }
  if (fabs(hu) < 1e3 * EPS * fabs(tn)) { dead_ = 1; EV("steps lost in rounding"); return; }
  nef = netf - ct_netf; ncf = ncfn - ct_ncfn; fails = nef + ncf > 0;
  etamax = fails ? 1 : nst == 1 ? 1e4 : 10;
  if (nst == 1) {
    for (H = hi_; H < hi_ + nhi_; H++) {
      double d[PN], *s = NULL; memset(H->z, 0, sizeof H->z);
      for (i = 0; i < H->len; i++) H->z[0][i] = H->kind == 0 ? pb.y0[i] : H->kind == 1 ? sf.col[H->k] == 100 + i : 0;
      if (H->kind == 1 || H->kind == 3) s = ct_sens(H->k)->z[0];
      H->ok = ct_rhs(H, pb.t0, pb.y0, s, d); for (i = 0; i < H->len; i++) H->z[1][i] = d[i];
    }
    ct_first(c, tout, h0); if (n_fail) return;
    for (H = hi_; H < hi_ + nhi_; H++) for (i = 0; i < H->len; i++) { H->z[1][i] *= h0; for (k = 0; k < 2; k++) H->m[k][i] = fabs(H->z[k][i]); }
    h = ct_hc = h0; ct_q = ct_qc = 1;
  }
  memcpy(yold, hi_[0].z[0], sizeof yold);
  for (H = hi_; H < hi_ + nhi_; H++) if (H->kind == 3 && H->test) for (i = 0; i < H->len; i++) { double x = 1 / (sf.qrtol * fabs(H->z[0][i]) + sf.qatol / sf.pbar[H->k]); if (!within("weights of integral sensitivities", fabs(H->w[i] - x), 32 * EPS * x)) { fail("weights", "sensitivity %d of integral %d: weight %.17g, not %.17g", H->k, i, H->w[i], x); return; } EV("weights of integral sensitivities"); }
  /* the change decided upon */
  if (ct_hc != h && ct_qc != ct_q) { ct_adjust(cf.lmm, ct_q, ct_qc > ct_q, h, ct_tau); EV(ct_qc > ct_q ? "orders raised" : "orders lowered"); ct_q = ct_qc; ct_wait = ct_q + 1; ct_sync = 1; }
  drops = ct_q - q;
  if (!fails && (hu != ct_hc || drops)) { fail("planned", "step %.17g of order %d, planned were %.17g and %d", hu, q, ct_hc, ct_q); return; }
  if (drops < 0 || (drops && nef - 3 < drops)) { fail("planned", "order %d after %ld and %ld failures, planned was %d", q, nef, ncf, ct_q); return; }
  if (nhi_ == 1 && nef > 3) { long d = nef - 3; restart = d > ct_q - 1; if (d > ct_q - 1) d = ct_q - 1; if (d != drops) { fail("planned", "order %d after %ld failures, planned was %d", q, nef, ct_q); return; } }
  if (nhi_ > 1 && nef > 3) { ct_sync = 0; if (q == 1) skip = 1; }
  if (fails) {
    if (nhi_ == 1 || nef == 0) {
      double lo = 1, hiq = 1, x = hu / ct_hc; for (i = 1; i <= nef; i++) { lo *= 0.1; hiq *= i > 3 ? 0.1 : i > 1 ? 0.2 : pow(6., -1. / (ct_q + 1)); } for (i = 0; i < ncf; i++) { lo *= 0.25; hiq *= 0.25; }
      if (x < lo * (1 - 1e-10) || x > hiq * (1 + 1e-10)) { fail("retry", "step %.17g was tried with %.17g after %ld error test and %ld convergence failures", ct_hc, hu, nef, ncf); return; }
      if (nef) EV("steps after error test failures"); if (ncf) EV("steps after convergence failures");
    } else if (!(fabs(hu) < fabs(ct_hc))) { fail("retry", "step %.17g was tried with %.17g after %ld error test and %ld convergence failures", ct_hc, hu, nef, ncf); return; }
  }
  bigr = ct_hc / h;
  for (H = hi_, k = 0; H < hi_ + nhi_; H++, k++) for (i = 0; i < H->len; i++) { double s = 1; for (j = 0; j <= ct_q; j++) { big[k][j][i] = H->m[j][i] * fabs(s); s *= bigr; } { int l, twice; for (twice = 0; twice < 2; twice++) for (j = 1; j <= ct_q; j++) for (l = ct_q; l >= j; l--) big[k][l - 1][i] += big[k][l][i]; } }   /* predicted and taken back */
  for (k = 0; k < drops; k++) { ct_adjust(cf.lmm, ct_q, 0, h, ct_tau); ct_q--; ct_wait = ct_q + 1; EV("orders dropped by failures"); }
  if (nhi_ > 1 && nef > 3 && q == 1) {   /* whose error test failed is not told: the solution shows whether the derivatives were evaluated anew */
    double d[PN], e0 = 0, e1 = 0; f_d(told, yold, pu, d); OK(CVodeGetEstLocalErrors(c->mem, cy_)); ct_method(cf.lmm, 1, hu, ct_tau);
    { double le[PN], o1[PN]; memcpy(le, DP(cy_), sizeof(double) * pb.n); ct_dky(c, hi_, tn, 1, o1);
      for (i = 0; i < pb.n; i++) { double x = le[i] / (double)ct_tq[2] - o1[i] * hu, m = fabs(le[i] / (double)ct_tq[2]) + fabs(o1[i] * hu) + fabs(hu * d[i]) + 1e-300; e0 = fmax(e0, fabs(hi_[0].z[1][i] * (hu / h) + x) / m); e1 = fmax(e1, fabs(hu * d[i] + x) / m); } }
    if (fmax(e0, e1) > 1e-6) { restart = e1 <= e0; skip = 0; EV("restarts found out"); }
  }
  if (restart) {
    double ss[MS][PN], J[PN][PN], rn = 0; jac_d(told, yold, pu, J); for (i = 0; i < pb.n; i++) { double r = 1; for (j = 0; j < pb.n; j++) r += fabs(J[i][j]) + fabs(yold[j]); for (j = 0; j < pb.n; j++) rn = fmax(rn, r * (fabs(yold[j]) + big[0][0][j])); }
    for (k = 0; k < sf.ns; k++) memcpy(ss[k], ct_sens(k)->z[0], sizeof ss[k]);
    for (H = hi_; H < hi_ + nhi_; H++) { double d[PN]; if (!ct_rhs(H, told, yold, H->kind == 1 || H->kind == 3 ? ss[H->k] : NULL, d)) H->ok = 0; for (i = 0; i < H->len; i++) { H->z[1][i] = h * d[i]; H->m[1][i] = fabs(h) * (fabs(d[i]) + rn); } }
    ct_wait = 10; EV("restarts at order 1");
  }
  r = hu / h;
  ct_method(cf.lmm, q, hu, ct_tau);
  if (ct_t + hu != tn && fabs(ct_t + hu - tn) > 4 * EPS * (fabs(tn) + fabs(hu))) { fail("time", "from %.17g with %.17g to %.17g", ct_t, hu, tn); return; }
  for (H = hi_, k = 0; H < hi_ + nhi_; H++, k++) {
    double s = 1, d[PN], sc; LD lm = 0; int known;
    for (j = 0; j <= q; j++) lm = fmaxl(lm, fabsl(ct_l[j]));
    for (j = 0; j <= q; j++) { for (i = 0; i < H->len; i++) { H->p[j][i] = H->z[j][i] * s; H->m[j][i] = H->m[j][i] * fabs(s) + (fails ? (nef + ncf) * big[k][j][i] * fabs(j ? pow(hu / ct_hc, j) : 1) : 0); } s *= r; }
    for (j = 1; j <= q; j++) { int l; for (l = q; l >= j; l--) for (i = 0; i < H->len; i++) { H->p[l - 1][i] += H->p[l][i]; H->m[l - 1][i] += H->m[l][i]; } }
    for (j = 0, s = 1; j <= q; j++) { double o[PN]; int rr = ct_dky(c, H, tn, j, o); if (rr) { fail("dky", "derivative %d: %d", j, rr); return; } if (j) s *= hu / j; for (i = 0; i < H->len; i++) H->z[j][i] = o[i] * s; }
    for (i = 0; i < H->len && H->kind == 0; i++) if (!same(H->z[0][i], DP(c->y)[i])) { fail("dky0", "element %d: y is %.17g, dense output %.17g", i, DP(c->y)[i], H->z[0][i]); return; }
    H->acok = H->ok && !skip;
    if (H->acok) {
      if (H->kind == 0) { OK(CVodeGetEstLocalErrors(c->mem, cy_)); for (i = 0; i < H->len; i++) { H->ac[i] = DP(cy_)[i] / ct_tq[2]; H->acd[i] = 4 * EPS * (1 + ct_rel) * fabs(H->ac[i]); } }
      else {
        known = H->kind >= 2 && ct_rhs(H, tn, hi_[0].z[0], H->kind == 3 ? ct_sens(H->k)->z[0] : NULL, d);
        for (i = 0; i < H->len; i++) {
          if (known) { H->ac[i] = (hu * (LD)d[i] - H->p[1][i]) / ct_l[1]; H->acd[i] = 8 * EPS * (fabs(hu * d[i]) * 4 + H->m[1][i]) / ct_l[1]; }
          else { H->ac[i] = H->z[0][i] - H->p[0][i]; H->acd[i] = 8 * EPS * (fabs(H->z[0][i]) + H->m[0][i]); }
        }
      }
      for (j = 0; j <= q; j++) for (i = 0; i < H->len; i++) {
        LD e = H->z[j][i] - H->p[j][i] - ct_l[j] * H->ac[i];
        if (!within(H->kind == 0 ? "history" : H->kind == 1 ? "history of sensitivities" : H->kind == 2 ? "history of integrals" : "history of integral sensitivities", fabsl(e), 1e-300 + (drops || restart ? 1e4 : 1) * 100 * EPS * (H->m[j][i] + lm * fabs(H->ac[i])) + fabsl(ct_l[j]) * H->acd[i])) {
          fail("history", "kind %d column %d element %d of order %d (step %ld, %.17g after %.17g): %.17g, predicted %.17g and %.17g times the correction %.17g (off by %.3g, of %.3g)", H->kind, j, i, q, nst, hu, h, H->z[j][i], H->p[j][i], (double)ct_l[j], H->ac[i], (double)e, H->m[j][i]); return; } }
      EV("histories followed");
      /* the equation of the step */
      if (H->kind <= 1 && ct_rhs(H, tn, hi_[0].z[0], H->z[0], d)) {
        double M[PN][PN], res[PN]; int P[PN];
        jac_d(tn, hi_[0].z[0], pu, M); for (i = 0; i < pb.n; i++) for (j = 0; j < pb.n; j++) M[i][j] = (i == j) - hu / (double)ct_l[1] * M[i][j];
        for (i = 0; i < pb.n; i++) res[i] = H->ac[i] - (hu * (LD)d[i] - H->p[1][i]) / ct_l[1];
        lu(M, P, pb.n); lusol(M, P, pb.n, res);
        if (H->kind == 0 || H->test) {
          sc = ct_wrms(H, res) * ct_tq[2];
          sc -= ct_wrms(H, H->acd) * ct_tq[2];
          if (pb.kl == 0 && (cf.nls == 2 ? !cf.maxnl && !(cf.nlcoef > 0) : robust())) {
            if (!within(H->kind ? "equation of sensitivities over tolerance" : "equation over tolerance", sc, H->kind ? 10 : 20)) { fail("equation", "kind %d column %d: step %ld of order %d leaves the equation unsolved by %.3g times the tolerance", H->kind, H->k, nst, q, sc); return; }
            mean(H->kind ? "control_sens_equation" : "control_equation", log10(fmax(sc, 0) + 1e-6)); mean(H->kind ? "control_sens_over" : "control_over", sc > 0.1 ? 10 : 0);
            EV(H->kind ? "equations of sensitivities looked at" : "equations looked at");
          }
        }
      }
    }
    H->ok = 1;
    for (j = 0; j <= q; j++) for (i = 0; i < H->len; i++) H->m[j][i] = fabs(H->z[j][i]);
  }
  if (nst % 5 == 2) ct_data(c, tn, hu); if (n_fail) return;
  /* what is decided after it */
  for (i = 14; i >= 2; i--) ct_tau[i] = ct_tau[i - 1];
  ct_tau[1] = hu;
  if (nst == 1) ct_tau[2] = 0;
  ct_wait--;
  if (ct_sync && ct_wait == 1 && q != ct_qmax) { for (H = hi_; H < hi_ + nhi_; H++) { memcpy(H->sav, H->ac, sizeof H->ac); memcpy(H->savd, H->acd, sizeof H->acd); H->savok = H->acok; } ct_sav5 = ct_tq[5]; }
  if (fails) {
    if (ct_wait < 2) ct_wait = 2;
    if (qc != q || hc != hu) { fail("after-failure", "after a step with failures of order %d and size %.17g the next is %d, %.17g", q, hu, qc, hc); return; }
  } else if (ct_sync) {
    LD lo = 0, hi = 0, dlo = 0, dhi = 0, ulo = 0, uhi = 0, cq; double eta[3][2], mlo, ob = hc / hu, cap; int known = 1, savk = 1, n = 0, good = 0, o, choice;
    cq = q != ct_qmax && ct_tau[2] != 0 && ct_sav5 != 0 ? ct_tq[5] / ct_sav5 * powl(hu / (LD)ct_tau[2], q + 1) : 0;
    choice = ct_wait == 0;
    for (H = hi_; H < hi_ + nhi_; H++) if (H->test) {
      double v[PN], dv[PN]; LD a, b;
      if (!H->acok) known = 0;
      if (!H->savok) savk = 0;
      a = ct_wrms(H, H->ac) * ct_tq[2]; b = ct_wrms(H, H->acd) * ct_tq[2]; lo = fmaxl(lo, a - b); hi = fmaxl(hi, a + b);
      a = ct_wrms(H, H->z[q]) * ct_tq[1]; dlo = fmaxl(dlo, a * (1 - 100 * EPS * (1 + ct_rel1))); dhi = fmaxl(dhi, a * (1 + 100 * EPS * (1 + ct_rel1)));
      for (i = 0; i < H->len; i++) { v[i] = H->ac[i] - cq * H->sav[i]; dv[i] = H->acd[i] + cq * H->savd[i] + 8 * EPS * fabsl(cq * H->sav[i]); }
      a = ct_wrms(H, v) * ct_tq[3]; b = ct_wrms(H, dv) * ct_tq[3] + 100 * EPS * ct_rel3 * a; ulo = fmaxl(ulo, a - b); uhi = fmaxl(uhi, a + b);
    }
    if (known && lo > 1 + 1e-9) { fail("error-test", "the step to %.17g was accepted with an estimated error of %.17g times the tolerance", tn, (double)lo); return; }
    if (choice) ct_wait = 2;
    if (known && (savk || !choice || q == ct_qmax)) {
      eta[1][0] = ct_eta(hi, 6, q + 1); eta[1][1] = ct_eta(lo, 6, q + 1);
      eta[0][0] = eta[0][1] = eta[2][0] = eta[2][1] = 0;
      if (choice && q > 1) { eta[0][0] = ct_eta(dhi, 6, q); eta[0][1] = ct_eta(dlo, 6, q); }
      if (choice && q != ct_qmax && ct_sav5 != 0) { eta[2][0] = ct_eta(uhi, 10, q + 2); eta[2][1] = ct_eta(ulo, 10, q + 2); }
      for (mlo = 0, o = 0; o < 3; o++) { eta[o][0] *= 1 - 1e-10; eta[o][1] *= 1 + 1e-10; mlo = fmax(mlo, eta[o][0]); }
      for (o = 0; o < 3; o++) if (eta[o][1] >= mlo && eta[o][1] > 0) {
        n++;
        if (eta[o][0] < 1.5 && qc == q && hc == hu) good = 1;
        if (eta[o][1] >= 1.5 && qc == q + o - 1) {
          double a = fmin(fmax(eta[o][0], 1.5 * (1 - 1e-10)), etamax), b = fmin(eta[o][1], etamax);
          cap = cf.hmax > 0 ? cf.hmax / fabs(hu) : 1e300; a = fmin(a, cap); b = fmin(b, cap);
          if (ob >= a * (1 - 1e-13) && ob <= b * (1 + 1e-13)) good = 1;
        }
      }
      if (!good) { fail("decision", "after step %ld (order %d, size %.17g, %d to wait) the next is order %d, %.17g times as large; lower %.9g..%.9g same %.9g..%.9g higher %.9g..%.9g, at most %g", nst, q, hu, ct_wait, qc, ob, eta[0][0], eta[0][1], eta[1][0], eta[1][1], eta[2][0], eta[2][1], etamax); return; }
      EV(n > 1 ? "decisions too close to tell" : choice ? "choices of order predicted" : "steps predicted");
    } else EV("decisions not known");
    if (choice && qc > q && cf.lmm == CV_BDF) for (H = hi_; H < hi_ + nhi_; H++) if (H->test) { memcpy(H->sav, H->ac, sizeof H->ac); memcpy(H->savd, H->acd, sizeof H->acd); H->savok = H->acok; }
  } else for (H = hi_; H < hi_ + nhi_; H++) if (qc > q && H->test) { memcpy(H->sav, H->ac, sizeof H->ac); memcpy(H->savd, H->acd, sizeof H->acd); H->savok = H->acok; } else H->savok = 0;
  ct_q = q; ct_h = hu; ct_hc = hc; ct_qc = qc; ct_t = tn; ct_nst = nst; ct_netf = netf; ct_ncfn = ncfn;
  EV(cf.lmm == CV_ADAMS ? "Adams steps followed" : "BDF steps followed");
}
static void control(void) {
  CV c; int k, n, m, pulse, back = chance(0.25), stiff = chance(0.5); double tout; N_Vector q0; SUNNonlinearSolver NL1 = NULL;
  adddesc(""); problem(stiff, back); pb.stiff = stiff; config(stiff); cf.constr = 0; cf.stab = 0; cf.hmin = 0;
  if ((pulse = chance(0.3)) && chance(0.7)) cf.maxord = irnd(1, 4);
  if (stiff && cf.nls == 2) { cf.nls = 1; cf.ls = 1; cf.pre = 0; }
  sigmix(pb.fam * 16 + pb.n); sigmix(cf.lmm * 1000 + cf.nls * 100 + cf.ls * 10 + cf.jac); sigd(cf.rtol); sigd(pb.p[0]);
  fail_kind = 0; lastmsg[0] = 0; base_ = 0; dir_ = pb.t1 < pb.t0 ? -1 : 1; dead_ = 0;
  memset(&sf, 0, sizeof sf); if (chance(0.5)) sens_config();
  if (!sf.ns && !sf.quad) adddesc("alone; ");
  memset(&c_, 0, sizeof c_); lim_on = past_ = cberr_ = 0; jts_done = 0; ref_ok = 1;
  cv_new(&c); if (n_fail) return;
  memset(&sv, 0, sizeof sv);
  q0 = N_VNew_Serial(2, sunctx_); sv.q0 = N_VClone(q0); sv.qo = N_VClone(q0); cy_ = N_VClone(c.y); cq_ = N_VClone(q0);
  if (sf.ns) { sv.s0 = N_VCloneVectorArray(sf.ns, c.y); sv.so = N_VCloneVectorArray(sf.ns, c.y); sv.s1 = N_VCloneVectorArray(sf.ns, c.y); sv.qs0 = N_VCloneVectorArray(sf.ns, q0); sv.qso = N_VCloneVectorArray(sf.ns, q0); for (k = 0; k < sf.ns; k++) sv.sv[k] = N_VClone(c.y); }
  sens_start(); sens_attach(&c, 1, 0); NL1 = sv.NL; sv.NL = NULL;
  n = irnd(5, 400); m = chance(0.3) ? irnd(1, n) : -1;
  tout = pb.t0 + (pb.t1 - pb.t0) * (chance(0.5) ? 1 : logu(-2, 1));
  ct_start(&c);
  for (k = 0; k < n && !n_fail && !dead_; k++) {
    if (k == m) {       /* from the start again */
      memcpy(DP(c.y), pb.y0, pb.n * sizeof(double)); sens_start(); jts_done = 0;
      OK(CVodeReInit(c.mem, pb.t0, c.y)); if (sf.ns) OK(CVodeSensReInit(c.mem, sf.ism, sv.s0)); if (sf.quad) OK(CVodeQuadReInit(c.mem, sv.q0)); if (sf.qs) OK(CVodeQuadSensReInit(c.mem, sv.qs0));
      ct_start(&c); EV("started again");
    }
    if (ct_nst > 0 && chance(0.01)) { cf.hmax = chance(0.5) ? 0 : fabs(ct_h) * logu(-0.3, 2); OK(CVodeSetMaxStep(c.mem, cf.hmax)); EV("largest steps changed"); }
    if (pulse && ct_nst > 0 && chance(0.03)) {   /* something happens just after now */
      pb.kt = ct_t + ct_hc * logu(-7, -2); pb.kl = fabs(pb.t1 - pb.t0) * logu(-4, -0.3); pb.ka = pb.kq = 0;
      if (chance(0.8)) pb.ka = gauss() / fabs(ct_h) * logu(-3, 2); if (pb.ka == 0 || chance(0.5)) pb.kq = gauss() / fabs(ct_h) * logu(-3, 2);
      adddesc("from %.3g for %.2g pulses of %.2g and %.2g; ", pb.kt, pb.kl, pb.ka, pb.kq); EV("pulses");
    }
    if (ct_nst > 0 && (ct_t - pb.t1) * dir_ > 20 * fabs(pb.t1 - pb.t0)) break;
    ct_one(&c, tout);
  }
  if (sf.ns) { N_VDestroyVectorArray(sv.s0, sf.ns); N_VDestroyVectorArray(sv.so, sf.ns); N_VDestroyVectorArray(sv.s1, sf.ns); N_VDestroyVectorArray(sv.qs0, sf.ns); N_VDestroyVectorArray(sv.qso, sf.ns); for (k = 0; k < sf.ns; k++) N_VDestroy(sv.sv[k]); }
  N_VDestroy(q0); N_VDestroy(sv.q0); N_VDestroy(sv.qo); N_VDestroy(cy_); N_VDestroy(cq_);
  cv_free(&c); if (NL1) SUNNonlinSolFree(NL1);
}
