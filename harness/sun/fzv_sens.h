/* Sensitivities, integrals and sensitivities of the integrals, along with the integration. */
#include <sunnonlinsol/sunnonlinsol_newton.h>
#define MS 5
typedef struct { int ns, ism, rhs, errcon, dq, tolk, maxcor, nls, quad, errq, qtolk, qs, errqs, col[MS], plist[MS], list; double rho, qrtol, qatol, pbar[MS]; } SF;
static SF sf;
static const char *ismn[] = { "none", "simultaneous", "staggered", "staggered1" };
static int cb_fs1(int ns, realtype t, N_Vector y, N_Vector yd, int is, N_Vector s, N_Vector sd, void *u, N_Vector a, N_Vector b) {
  double J[PN][PN], f[PN]; int i, j; UD(u); (void)a; (void)b; c_.fs++; seen(t);
  if (fail_kind == 7 && HIT(c_.fs)) return fail_rc;
  if (ns != sf.ns || is < 0 || is >= ns) { cberr_ = 10; return 0; }
  f_d(t, DP(y), pu, f); for (i = 0; i < pb.n; i++) if (fabs(f[i] - DP(yd)[i]) > 1e-12 * (fabs(f[i]) + fabs(DP(yd)[i])) + 1e-300) cberr_ = 11;
  jac_d(t, DP(y), pu, J);
  if (sf.col[is] < 100) dfdp_d(t, DP(y), pu, sf.col[is], DP(sd)); else for (i = 0; i < pb.n; i++) DP(sd)[i] = 0;
  for (i = 0; i < pb.n; i++) for (j = 0; j < pb.n; j++) DP(sd)[i] += J[i][j] * DP(s)[j];
  return 0;
}
static int cb_fs(int ns, realtype t, N_Vector y, N_Vector yd, N_Vector *s, N_Vector *sd, void *u, N_Vector a, N_Vector b) { int k, r; long n = c_.fs; for (k = 0; k < ns; k++) { c_.fs = n; r = cb_fs1(ns, t, y, yd, k, s[k], sd[k], u, a, b); if (r) return r; } c_.fs = n + 1; return 0; }
static int cb_fq(realtype t, N_Vector y, N_Vector q, void *u) { UD(u); c_.fq++; seen(t); if (fail_kind == 6 && HIT(c_.fq)) return fail_rc; fq_d(t, DP(y), pu, DP(q)); return 0; }
static int cb_fqs(int ns, realtype t, N_Vector y, N_Vector *s, N_Vector qd, N_Vector *qs, void *u, N_Vector a, N_Vector b) {
  int k; double q[2]; UD(u); (void)a; (void)b; c_.fqs++; seen(t);
  fq_d(t, DP(y), pu, q); for (k = 0; k < 2; k++) if (fabs(q[k] - DP(qd)[k]) > 1e-12 * (fabs(q[k]) + fabs(DP(qd)[k]))) cberr_ = 12;
  for (k = 0; k < ns; k++) fqs_d(t, DP(y), pu, DP(s[k]), sf.col[k], DP(qs[k]));
  return 0;
}
typedef struct { N_Vector *s0, *so, *s1, q0, qo, *qs0, *qso; SUNNonlinearSolver NL; N_Vector sv[MS]; } SV;
static SV sv;
static N_Vector *sd_[14], qd_[14], *qsd_[14];
static double ps_[MS][PN], pq_[2], pqs_[MS][2]; static int s_prev;
static void sens_config(void) {
  int k;
  memset(&sf, 0, sizeof sf);
  sf.ns = chance(0.15) ? 0 : irnd(1, MS); sf.quad = chance(0.5) || !sf.ns;
  sf.ism = irnd(1, 3); sf.rhs = irnd(0, 2); if (sf.ism == 3 && sf.rhs == 1) sf.rhs = 2;
  sf.errcon = chance(0.6); sf.dq = chance(0.5) ? CV_CENTERED : CV_FORWARD; sf.rho = chance(0.5) ? 0 : logu(-1, 1.5); sf.tolk = irnd(0, 2); if (chance(0.2)) sf.maxcor = irnd(2, 5);
  sf.nls = irnd(0, 1); if (!cf.ls) sf.nls = 2;
  sf.errq = chance(0.6); sf.qtolk = irnd(0, 1); sf.qrtol = cf.rtol * logu(-0.5, 1.5); sf.qatol = sf.qrtol * logu(-3, -1);
  sf.qs = sf.quad && sf.ns ? irnd(0, 2) : 0; sf.errqs = chance(0.5);
  for (k = 0; k < sf.ns; k++) { sf.col[k] = chance(0.6) ? irnd(0, pb.np - 1) : 100 + irnd(0, pb.n - 1); sf.plist[k] = sf.col[k] < 100 ? sf.col[k] : PP + sf.col[k] - 100; sf.pbar[k] = sf.col[k] < 100 ? fabs(pb.p[sf.col[k]]) : 1; if (sf.pbar[k] == 0) sf.pbar[k] = 1; }
  adddesc("sens %d %s rhs %d err %d dq %d %.2g tol %d cor %d nls %d; quad %d err %d tol %d %.1e %.1e; qs %d err %d; cols", sf.ns, ismn[sf.ns ? sf.ism : 0], sf.rhs, sf.errcon, sf.dq, sf.rho, sf.tolk, sf.maxcor, sf.nls, sf.quad, sf.errq, sf.qtolk, sf.qrtol, sf.qatol, sf.qs, sf.errqs);
  for (k = 0; k < sf.ns; k++) adddesc(" %d", sf.col[k]);
  adddesc("; ");
  sigmix(sf.ns * 1000 + sf.ism * 100 + sf.rhs * 10 + sf.qs);
}
static void sens_start(void) { int k, i; for (k = 0; k < sf.ns; k++) { for (i = 0; i < pb.n; i++) DP(sv.s0[k])[i] = sf.col[k] == 100 + i; if (sf.qs) N_VConst(0., sv.qs0[k]); } N_VConst(0., sv.q0); }
static void sens_attach(CV *c, int quad, int quiet) {
  int k, i; realtype at[MS];
  if (sf.ns) {
    if (sf.rhs == 1) OK(CVodeSensInit(c->mem, sf.ns, sf.ism, cb_fs, sv.s0)); else if (sf.rhs == 2) OK(CVodeSensInit1(c->mem, sf.ns, sf.ism, cb_fs1, sv.s0)); else if (sf.ism == 3) OK(CVodeSensInit1(c->mem, sf.ns, sf.ism, NULL, sv.s0)); else OK(CVodeSensInit(c->mem, sf.ns, sf.ism, NULL, sv.s0));
    OK(CVodeSetSensParams(c->mem, pu, sf.pbar, sf.plist));
    if (sf.tolk == 0) OK(CVodeSensEEtolerances(c->mem));
    else if (sf.tolk == 1) { for (k = 0; k < sf.ns; k++) at[k] = cf.atol * (1 + k) / sf.pbar[k]; OK(CVodeSensSStolerances(c->mem, cf.rtol, at)); }
    else { for (k = 0; k < sf.ns; k++) for (i = 0; i < pb.n; i++) DP(sv.sv[k])[i] = cf.atol * (1 + 0.3 * i) / sf.pbar[k]; OK(CVodeSensSVtolerances(c->mem, cf.rtol, sv.sv)); }
    OK(CVodeSetSensErrCon(c->mem, sf.errcon && !quiet)); OK(CVodeSetSensDQMethod(c->mem, sf.dq, sf.rho));
    if (sf.nls) {
      if (sf.ism == CV_SIMULTANEOUS) { sv.NL = sf.nls == 1 ? SUNNonlinSol_NewtonSens(sf.ns + 1, c->y, sunctx_) : SUNNonlinSol_FixedPointSens(sf.ns + 1, c->y, cf.fpm, sunctx_); OK(CVodeSetNonlinearSolverSensSim(c->mem, sv.NL)); }
      else if (sf.ism == CV_STAGGERED) { sv.NL = sf.nls == 1 ? SUNNonlinSol_NewtonSens(sf.ns, c->y, sunctx_) : SUNNonlinSol_FixedPointSens(sf.ns, c->y, cf.fpm, sunctx_); OK(CVodeSetNonlinearSolverSensStg(c->mem, sv.NL)); }
      else { sv.NL = sf.nls == 1 ? SUNNonlinSol_Newton(c->y, sunctx_) : SUNNonlinSol_FixedPoint(c->y, cf.fpm, sunctx_); OK(CVodeSetNonlinearSolverSensStg1(c->mem, sv.NL)); }
    }
    if (sf.maxcor && sf.ism != CV_SIMULTANEOUS) OK(CVodeSetSensMaxNonlinIters(c->mem, sf.maxcor));
  }
  if (sf.quad && quad) {
    N_VConst(0., sv.q0); OK(CVodeQuadInit(c->mem, cb_fq, sv.q0)); OK(CVodeSetQuadErrCon(c->mem, sf.errq && !quiet));
    N_VConst(sf.qatol, sv.qo); if (sf.errq) { if (sf.qtolk) OK(CVodeQuadSVtolerances(c->mem, sf.qrtol, sv.qo)); else OK(CVodeQuadSStolerances(c->mem, sf.qrtol, sf.qatol)); }
    if (sf.qs) {
      OK(CVodeQuadSensInit(c->mem, sf.qs == 1 ? cb_fqs : NULL, sv.qs0)); OK(CVodeSetQuadSensErrCon(c->mem, sf.errqs && !quiet));
      for (k = 0; k < sf.ns; k++) at[k] = sf.qatol / sf.pbar[k];
      if (sf.errqs) { int tk = (sf.ns + sf.qtolk) % 3;   /* all three are the same weights */
        if (tk == 0 && sf.errq) OK(CVodeQuadSensEEtolerances(c->mem)); else if (tk == 2) { for (k = 0; k < sf.ns; k++) N_VConst(at[k], sv.qs0[k]); OK(CVodeQuadSensSVtolerances(c->mem, sf.qrtol, sv.qs0)); for (k = 0; k < sf.ns; k++) N_VConst(0., sv.qs0[k]); } else OK(CVodeQuadSensSStolerances(c->mem, sf.qrtol, at)); }
    }
  }
}
static double s_tol(int k, int i, double v) { double at = sf.tolk == 0 ? tol_a[i] / sf.pbar[k] : sf.tolk == 1 ? cf.atol * (1 + k) / sf.pbar[k] : cf.atol * (1 + 0.3 * i) / sf.pbar[k]; return cf.rtol * fabs(v) + at; }
/* dense output of one kind: get(k-th derivative at t into a vector), its value now, its value before */
#define DENSE(NAME, GET, NOW, PREV, LEN, PICK) do { \
  int i_, k_, j_, r_; double s_, x_, sc_[PN]; realtype tt_; \
  for (k_ = 0; k_ <= q; k_++) { r_ = GET(T, k_, k_); if (r_) { fail(NAME "-dky", "derivative %d at %.17g: %d", k_, T, r_); return; } } \
  if (exact) for (i_ = 0; i_ < LEN; i_++) if (DP(PICK(0))[i_] != DP(NOW)[i_]) { fail(NAME "-dky0", "element %d: %.17g returned, dense output %.17g", i_, DP(NOW)[i_], DP(PICK(0))[i_]); return; } \
  for (i_ = 0; i_ < LEN; i_++) { sc_[i_] = 0; for (k_ = 0, s_ = 1; k_ <= q; k_++) { sc_[i_] += fabs(DP(PICK(k_))[i_]) * s_; s_ *= 2 * fabs(hu) / (k_ + 1); } trace(DP(NOW)[i_]); } \
  if (deep) { \
    tt_ = tn - u01() * hu; \
    for (j_ = 0; j_ <= q; j_++) { r_ = GET(tt_, j_, 13); if (r_) { fail(NAME "-dky", "derivative %d at %.17g: %d", j_, tt_, r_); return; } \
      for (i_ = 0; i_ < LEN; i_++) { double w_ = 0, f_ = 1, m_ = 0; for (k_ = j_; k_ <= q; k_++) { w_ += DP(PICK(k_))[i_] * f_; m_ += fabs(DP(PICK(k_))[i_] * f_); f_ *= (tt_ - T) / (k_ - j_ + 1); } \
        f_ = 1; for (k_ = 1; k_ <= j_; k_++) f_ *= k_ / fabs(hu); \
        if (!within(NAME " taylor", fabs(w_ - DP(PICK(13))[i_]), 1e-12 * (m_ + sc_[i_] * f_))) { fail(NAME "-taylor", "element %d, derivative %d at %.17g: %.17g, the derivatives at %.17g give %.17g", i_, j_, tt_, DP(PICK(13))[i_], T, w_); return; } } } \
    r_ = GET(tn, q + 1, 13); if (r_ != CV_BAD_K) { fail(NAME "-bad-k", "derivative %d of order %d: returned %d", q + 1, q, r_); return; } \
    x_ = fabs(hu) * 1e-3 + 1e4 * EPS * fabs(tn); \
    r_ = GET(tn + x_ * dir_, 0, 13); if (r_ != CV_BAD_T) { fail(NAME "-bad-t", "after the last step: returned %d", r_); return; } \
    r_ = GET(tn - hu - x_ * dir_, 0, 13); if (r_ != CV_BAD_T) { fail(NAME "-bad-t", "before the last step: returned %d", r_); return; } \
    EV(NAME " dense output looked at"); \
  } \
  if (step1) { \
    r_ = GET(ts, 0, 13); if (r_) { fail(NAME "-dky", "at the beginning of the step: %d", r_); return; } \
    for (i_ = 0; i_ < LEN; i_++) if (!within(NAME " continuity", fabs(DP(PICK(13))[i_] - (PREV)[i_]), 1e-11 * sc_[i_] + 2000 * EPS * fabs(tn) * (fabs(DP(PICK(1))[i_]) + (q > 1 ? fabs(hu * DP(PICK(2))[i_]) : 0)))) { fail(NAME "-continuity", "element %d at the beginning of the step %.17g..%.17g: dense output %.17g, was %.17g (order %d)", i_, tn - hu, tn, DP(PICK(13))[i_], (PREV)[i_], q); return; } \
    EV(NAME " steps joined"); \
  } } while (0)
static void sens_more(CV *c, double T, int task, int flag, int deep, double tn, double hu, int q, const double *scale) {
  int k, i, r, exact = task == CV_NORMAL || flag == CV_TSTOP_RETURN || T == tn, step1; realtype t2, ts; long nst; void *m = c->mem;
  (void)scale;
  OK(CVodeGetNumSteps(m, &nst)); step1 = s_prev && have_prev && nst == pnst + 1; ts = pt_; if ((ts - (tn - hu)) * dir_ < 0) ts = tn - hu;
  if (sf.ns) {
    OK(CVodeGetSens(m, &t2, sv.so)); if (t2 != T) { fail("sens-time", "sensitivities are of %.17g, the solution of %.17g", t2, T); return; }
    for (k = 0; k < sf.ns; k++) {
      OK(CVodeGetSens1(m, &t2, k, sv.s1[0])); for (i = 0; i < pb.n; i++) if (!same(DP(sv.s1[0])[i], DP(sv.so[k])[i]) || t2 != T) { fail("sens1", "column %d: %.17g and %.17g", k, DP(sv.s1[0])[i], DP(sv.so[k])[i]); return; }
#define GS1(t, j, slot) CVodeGetSensDky1(m, t, j, k, sd_[slot][k])
#define PS1(slot) sd_[slot][k]
      DENSE("sens", GS1, sv.so[k], ps_[k], pb.n, PS1);
    }
    if (deep) { r = CVodeGetSensDky(m, tn - 0.3 * hu, 1, sv.s1); if (r) { fail("sens-dky", "returned %d", r); return; } for (k = 0; k < sf.ns; k++) { OK(CVodeGetSensDky1(m, tn - 0.3 * hu, 1, k, sd_[13][k])); for (i = 0; i < pb.n; i++) if (!same(DP(sv.s1[k])[i], DP(sd_[13][k])[i])) { fail("sens1", "derivatives differ"); return; } }
      r = CVodeGetSensDky1(m, tn, 0, sf.ns, sd_[13][0]); if (r != CV_BAD_IS) { fail("sens-bad-is", "column %d of %d: returned %d", sf.ns, sf.ns, r); return; } }
    OK(CVodeGetSensErrWeights(m, sv.s1));
    if (step1 && sf.errcon) for (k = 0; k < sf.ns; k++) for (i = 0; i < pb.n; i++) { double w = 1 / s_tol(k, i, ps_[k][i]); if (!within("sens weights", fabs(DP(sv.s1[k])[i] - w), 1e-13 * w)) { fail("sens-weights", "column %d element %d: %.17g, expected %.17g", k, i, DP(sv.s1[k])[i], w); return; } }
    for (k = 0; k < sf.ns; k++) memcpy(ps_[k], DP(sv.so[k]), pb.n * sizeof(double));
  }
  if (sf.quad) {
    OK(CVodeGetQuad(m, &t2, sv.qo)); if (t2 != T) { fail("quad-time", "integrals are of %.17g, the solution of %.17g", t2, T); return; }
#define GQ1(t, j, slot) CVodeGetQuadDky(m, t, j, qd_[slot])
#define PQ1(slot) qd_[slot]
    DENSE("quad", GQ1, sv.qo, pq_, 2, PQ1);
    if (step1 && sf.errq) { OK(CVodeGetQuadErrWeights(m, qd_[13])); for (i = 0; i < 2; i++) { double w = 1 / (sf.qrtol * fabs(pq_[i]) + sf.qatol); if (!within("quad weights", fabs(DP(qd_[13])[i] - w), 1e-13 * w)) { fail("quad-weights", "element %d: %.17g, expected %.17g", i, DP(qd_[13])[i], w); return; } } }
    memcpy(pq_, DP(sv.qo), sizeof pq_);
  }
  if (sf.qs) {
    OK(CVodeGetQuadSens(m, &t2, sv.qso)); if (t2 != T) { fail("quad-time", "sensitivities of integrals are of %.17g, the solution of %.17g", t2, T); return; }
    for (k = 0; k < sf.ns; k++) {
      OK(CVodeGetQuadSens1(m, &t2, k, qd_[13])); for (i = 0; i < 2; i++) if (!same(DP(qd_[13])[i], DP(sv.qso[k])[i])) { fail("quadsens1", "column %d: %.17g and %.17g", k, DP(qd_[13])[i], DP(sv.qso[k])[i]); return; }
#define GQS1(t, j, slot) CVodeGetQuadSensDky1(m, t, j, k, qsd_[slot][k])
#define PQS1(slot) qsd_[slot][k]
      DENSE("quadsens", GQS1, sv.qso[k], pqs_[k], 2, PQS1);
      memcpy(pqs_[k], DP(sv.qso[k]), sizeof pqs_[k]);
    }
  }
  s_prev = 1;
}
static double maxs_, maxq_, maxqs_; static double tops_[MS][PN], topq_[MS + 1][2];
static void sens_compare(CV *c, double T) {
  int k, i; double w, wm, b = (200 + 10. * pnst) * amp * amp * 100; (void)c; (void)T;
  for (k = 0, wm = 0; k < sf.ns; k++) { for (i = 0, w = 0; i < pb.n; i++) { double v = (double)ref_[pb.n * (1 + k) + i], e; tops_[k][i] = fmax(tops_[k][i], fabs(v)); e = (DP(sv.so[k])[i] - v) / s_tol(k, i, tops_[k][i]); w += e * e; } wm = fmax(wm, sqrt(w / pb.n)); }
  if (wm > maxs_) maxs_ = wm;
  if (sf.ns && sf.errcon && !within("sens error over amplification", wm, b)) { fail("sens-accuracy", "at %.17g the error of the sensitivities is %.3g times the tolerance (errors can grow by %.3g)", T, wm, amp); return; }
  if (sf.quad) {
    const LD *Q = ref_ + pb.n * (1 + sf.ns);
    for (k = 0; k <= (sf.qs ? sf.ns : 0); k++) {
      for (i = 0, w = 0; i < 2; i++) { double v = (double)Q[2 * k + i], e, got = k ? DP(sv.qso[k - 1])[i] : DP(sv.qo)[i]; topq_[k][i] = fmax(topq_[k][i], fabs(v)); e = (got - v) / (fmax(cf.rtol, sf.qrtol) * topq_[k][i] + fmax(cf.atol, sf.qatol) / (k ? fmin(1, sf.pbar[k - 1]) : 1)); w += e * e; }
      w = sqrt(w / 2); if (k) maxqs_ = fmax(maxqs_, w); else maxq_ = fmax(maxq_, w);
      if ((k ? sf.errqs && sf.errcon : sf.errq) && !within(k ? "quadsens error over amplification" : "quad error over amplification", w, b)) { fail(k ? "quadsens-accuracy" : "quad-accuracy", "at %.17g the error of the integrals (%d) is %.3g times the tolerance (errors can grow by %.3g)", T, k, w, amp); return; }
    }
  }
  EV("sensitivities compared");
}
static long sens_calls(CV *c) {
  long a = 0, b, e, f, g, x[4], n1[MS], n2[MS], s; int k;
  if (sf.quad) { OK(CVodeGetQuadNumRhsEvals(c->mem, &b)); OK(CVodeGetQuadNumErrTestFails(c->mem, &e)); OK(CVodeGetQuadStats(c->mem, x, x + 1)); if (x[0] != b || x[1] != e) fail("stats", "the quadrature statistics differ from the single ones"); if (sf.qs != 2 && b != c_.fq) fail("count-fq", "%ld calls of the integrand counted, %ld made", b, c_.fq); if (e) stat_add("steps rejected for integrals", e); }
  if (sf.qs) { OK(CVodeGetQuadSensNumRhsEvals(c->mem, &b)); OK(CVodeGetQuadSensNumErrTestFails(c->mem, &e)); OK(CVodeGetQuadSensStats(c->mem, x, x + 1)); if (x[0] != b || x[1] != e) fail("stats", "the statistics of quadrature sensitivities differ from the single ones"); if (sf.qs == 1 && b != c_.fqs) fail("count-fqs", "%ld calls of the sensitivity of the integrand counted, %ld made", b, c_.fqs); }
  if (sf.ns) {
    OK(CVodeGetSensNumRhsEvals(c->mem, &b)); OK(CVodeGetNumRhsEvalsSens(c->mem, &a)); OK(CVodeGetSensNumErrTestFails(c->mem, &e)); OK(CVodeGetSensNumLinSolvSetups(c->mem, &f)); OK(CVodeGetSensStats(c->mem, x, x + 1, x + 2, x + 3));
    if (x[0] != b || x[1] != a || x[2] != e || x[3] != f) fail("stats", "the sensitivity statistics differ from the single ones");
    if (sf.rhs && (b != c_.fs || a != 0)) fail("count-fs", "%ld calls of the sensitivity right-hand side counted and %ld of the right-hand side, %ld and 0 made", b, a, c_.fs);
    if (e) stat_add("steps rejected for sensitivities", e);
    if (sf.ism != CV_SIMULTANEOUS) { OK(CVodeGetSensNumNonlinSolvIters(c->mem, &e)); OK(CVodeGetSensNumNonlinSolvConvFails(c->mem, &g)); OK(CVodeGetSensNonlinSolvStats(c->mem, x, x + 1)); if (x[0] != e || x[1] != g) fail("stats", "the statistics of the sensitivity solver differ from the single ones");
      if (sf.ism == CV_STAGGERED1) { OK(CVodeGetStgrSensNumNonlinSolvIters(c->mem, n1)); OK(CVodeGetStgrSensNumNonlinSolvConvFails(c->mem, n2)); for (k = 0, s = 0; k < sf.ns; k++) s += n1[k]; if (s != e) fail("stats", "%ld iterations, the columns have %ld", e, s); for (k = 0, s = 0; k < sf.ns; k++) s += n2[k]; if (s != g) fail("stats", "%ld convergence failures, the columns have %ld", g, s); } 
      if (g) stat_add("convergence failures of sensitivities", g); }
  }
  return a;
}
static void sens_reset(void) { int k; s_prev = 1; for (k = 0; k < sf.ns; k++) { int i; for (i = 0; i < pb.n; i++) ps_[k][i] = sf.col[k] == 100 + i; } memset(pq_, 0, sizeof pq_); memset(pqs_, 0, sizeof pqs_); memset(tops_, 0, sizeof tops_); memset(topq_, 0, sizeof topq_); for (k = 0; k < sf.ns; k++) if (sf.col[k] >= 100) tops_[k][sf.col[k] - 100] = 1; maxs_ = maxq_ = maxqs_ = 0; }
static void sens(void) {
  CV c, d; uint64_t plan; int k, i, back = chance(0.25), stiff = chance(0.3), oldrec, fdead; long nc; N_Vector q0; SUNNonlinearSolver NL1 = NULL;
  double *st0 = NULL;
  adddesc(""); problem(stiff, back); pb.stiff = stiff; config(stiff); cf.constr = 0;
  if (stiff && cf.nls == 2) { cf.nls = 1; cf.ls = 1; cf.pre = 0; }
  if (cf.rtol < 1e-8) { cf.rtol = 1e-8; cf.atol = 1e-9; }
  cf.maxnl = 0;
  plan = rng64() >> 1;
  sigmix(pb.fam * 16 + pb.n); sigmix(cf.lmm * 1000 + cf.nls * 100 + cf.ls * 10 + cf.jac); sigd(cf.rtol); sigd(pb.p[0]);
  fail_kind = 0; lastmsg[0] = 0; base_ = 0; dir_ = pb.t1 < pb.t0 ? -1 : 1;
  sens_config();
  cv_new(&c); if (n_fail) return;
  memset(&sv, 0, sizeof sv);
  q0 = N_VNew_Serial(2, sunctx_); sv.q0 = N_VClone(q0); sv.qo = N_VClone(q0);
  if (sf.ns) { sv.s0 = N_VCloneVectorArray(sf.ns, c.y); sv.so = N_VCloneVectorArray(sf.ns, c.y); sv.s1 = N_VCloneVectorArray(sf.ns, c.y); sv.qs0 = N_VCloneVectorArray(sf.ns, q0); sv.qso = N_VCloneVectorArray(sf.ns, q0); for (k = 0; k < sf.ns; k++) sv.sv[k] = N_VClone(c.y); }
  for (k = 0; k < 14; k++) { dk_[k] = N_VClone(c.y); qd_[k] = N_VClone(q0); if (sf.ns) { sd_[k] = N_VCloneVectorArray(sf.ns, c.y); qsd_[k] = N_VCloneVectorArray(sf.ns, q0); } }
  sens_start(); sens_attach(&c, 1, 0); NL1 = sv.NL; sv.NL = NULL;
  ref_ok = 1; amplification();
  refns_ = sf.ns; refq_ = sf.quad; for (k = 0; k < sf.ns; k++) refcol_[k] = sf.col[k];
  ref_set(); r_start(ref_); ref_t = pb.t0; more_ = sens_more; compare_ = sens_compare; calls_ = sens_calls;
  sens_reset(); rec_ = 1; run(&c, plan, 1); oldrec = ntr_; fdead = dead_;
  if (!n_fail && !dead_) {
    char b[50]; EV(cf.lmm == CV_ADAMS ? "Adams integrations" : "BDF integrations"); EV(famn[pb.fam]); if (back) EV("backwards in time");
    if (sf.ns) { snprintf(b, sizeof b, "%s rhs %d", ismn[sf.ism], sf.rhs); EV(b); if (sf.errcon) EV("sensitivities in the error test"); } if (sf.quad) EV("with integrals"); if (sf.qs) EV(sf.qs == 1 ? "integral sensitivities given" : "integral sensitivities by differences");
    if (ref_ok && robust() && amp < 1e3 && !cf.maxord) {
      if (sf.ns && sf.errcon && maxs_ > 0) mean(sf.rhs ? "sens_given_error" : "sens_dq_error", log10(maxs_ / amp));
      if (sf.ns && maxs_ > 0 && !sf.errcon) mean("sens_free_error", log10(maxs_ / amp));
      if (sf.quad && maxq_ > 0) mean("quad_error", log10(maxq_ / amp));
      if (sf.qs && maxqs_ > 0) mean("quadsens_error", log10(maxqs_ / amp));
      mean("sens_calls", log10(c_.f + 1)); if (sf.ns && sf.rhs) mean("sens_rhs_calls", log10(c_.fs + 1));
    }
  }
  /* again, after reinitialisation */
  if (!n_fail && chance(0.4)) {
    memcpy(DP(c.y), pb.y0, pb.n * sizeof(double)); sens_start(); rec_ = 0; base_ = 0;
    if (cf.pre && cf.prek == 1) OK(CVBandPrecGetNumRhsEvals(c.mem, &base_));
    if (cf.pre && cf.prek == 2) OK(CVBBDPrecGetNumGfnEvals(c.mem, &base_));
    OK(CVodeReInit(c.mem, pb.t0, c.y)); OK(CVodeSetStopTime(c.mem, pb.t1 + 1e6 * dir_));
    if (sf.ns) OK(CVodeSensReInit(c.mem, sf.ism, sv.s0));
    if (sf.quad) OK(CVodeQuadReInit(c.mem, sv.q0));
    if (sf.qs) OK(CVodeQuadSensReInit(c.mem, sv.qs0));
    if (cf.stab) { OK(CVodeSetStabLimDet(c.mem, SUNFALSE)); OK(CVodeSetStabLimDet(c.mem, SUNTRUE)); }
    sens_reset(); run(&c, plan, 0); EV("runs repeated after reinitialisation");
    if (!n_fail && (ntr_ != oldrec || fdead != dead_)) fail("rerun", "the repeated run has %d values, the first %d", ntr_, oldrec);
  }
  /* switched off: only the solution is left, and it is that of an object without */
  if (!n_fail && !fdead && sf.ns && chance(0.3)) {
    realtype T; N_Vector yb = N_VClone(c.y); double a[PN];
    memcpy(DP(c.y), pb.y0, pb.n * sizeof(double)); OK(CVodeReInit(c.mem, pb.t0, c.y)); OK(CVodeSensToggleOff(c.mem)); OK(CVodeSetStopTime(c.mem, pb.t1 + 1e6 * dir_)); lim_on = 0; past_ = 0;
    if (sf.qs) CVodeQuadSensFree(c.mem);
    if (sf.quad) { N_VConst(0., sv.q0); OK(CVodeQuadReInit(c.mem, sv.q0)); OK(CVodeSetQuadErrCon(c.mem, SUNFALSE)); }
    nc = c_.fs; k = CVode(c.mem, pb.t1, c.y, &T, CV_NORMAL);
    if (nc != c_.fs) fail("toggle", "the sensitivity right-hand side is called after sensitivities were switched off");
    if (k == CV_SUCCESS) {
      k = CVodeGetSens1(c.mem, &T, 0, yb); if (k != CV_NO_SENS) fail("toggle", "sensitivities after they were switched off: returned %d", k);
      memcpy(a, DP(c.y), pb.n * sizeof(double));
      cv_new(&d); OK(CVodeSetStopTime(d.mem, pb.t1 + 1e6 * dir_)); k = CVode(d.mem, pb.t1, d.y, &T, CV_NORMAL);
      if (!(cf.pre && cf.prek)) for (i = 0; i < pb.n; i++) if (k == CV_SUCCESS && !same(a[i], DP(d.y)[i])) { fail("toggle", "element %d with sensitivities switched off: %.17g, without them %.17g", i, a[i], DP(d.y)[i]); break; }
      cv_free(&d); EV("sensitivities switched off");
    }
    N_VDestroy(yb);
  }
  /* carried along without a say: the solution is that without them */
  if (!n_fail && !fdead && (!sf.ns || sf.ism != CV_SIMULTANEOUS) && chance(0.4)) {
    realtype T; CV e; double a[PN]; long n1 = 0, n2 = 0, n3, n4; int r1, r2;
    lim_on = 0; past_ = 0; sens_start(); cv_new(&d); sens_attach(&d, 1, 1); r1 = CVode(d.mem, pb.t1, d.y, &T, CV_NORMAL); memcpy(a, DP(d.y), pb.n * sizeof(double));
    if (sf.ns) { OK(CVodeGetSensNumNonlinSolvConvFails(d.mem, &n1)); OK(CVodeGetSensNumLinSolvSetups(d.mem, &n2)); }
    OK(CVodeGetNumSteps(d.mem, &n3));
    cv_new(&e); r2 = CVode(e.mem, pb.t1, e.y, &T, CV_NORMAL); OK(CVodeGetNumSteps(e.mem, &n4));
    if (r1 == CV_SUCCESS && r2 == CV_SUCCESS && !n1 && !n2) {
      if (n3 != n4) fail("bystander", "%ld steps with sensitivities or integrals outside the error test, %ld without", n3, n4);
      for (i = 0; i < pb.n && !n_fail; i++) if (!same(a[i], DP(e.y)[i])) fail("bystander", "element %d with sensitivities or integrals outside the error test: %.17g, without them %.17g", i, a[i], DP(e.y)[i]);
      EV("solutions with and without bystanders");
    }
    cv_free(&d); cv_free(&e); if (sv.NL) SUNNonlinSolFree(sv.NL);
  }
  more_ = NULL; compare_ = NULL; calls_ = NULL; (void)st0;
  for (k = 0; k < 14; k++) { N_VDestroy(dk_[k]); N_VDestroy(qd_[k]); if (sf.ns) { N_VDestroyVectorArray(sd_[k], sf.ns); N_VDestroyVectorArray(qsd_[k], sf.ns); } }
  if (sf.ns) { N_VDestroyVectorArray(sv.s0, sf.ns); N_VDestroyVectorArray(sv.so, sf.ns); N_VDestroyVectorArray(sv.s1, sf.ns); N_VDestroyVectorArray(sv.qs0, sf.ns); N_VDestroyVectorArray(sv.qso, sf.ns); for (k = 0; k < sf.ns; k++) N_VDestroy(sv.sv[k]); }
  N_VDestroy(q0); N_VDestroy(sv.q0); N_VDestroy(sv.qo);
  cv_free(&c); if (NL1) SUNNonlinSolFree(NL1);
}
