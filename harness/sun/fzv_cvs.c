/* Monitor of the integrator of the solver library, called directly: one object is configured at random, integrated, looked
   at after every return, and compared with a reference in extended precision. */
#include "fzv_sun.h"
#include "fzv_cvs.h"

static LD ref_[RN], ref_t;
static double amp;                     /* how much an error made on the way can grow */
static int ref_ok;
/* growth of errors from six instants on */
static void amplification(void) {
  int k, i, j, m; LD Y[RN], B[RN], t = pb.t0; double worst_r;
  amp = 1;
  if (pb.fam == 5 || pb.fam == 7) { amp = exp(fabs(pb.p[1]) * 2 * fabs(pb.t1 - pb.t0)); if (pb.fam == 7) amp = 1; return; }
  r_ns = 0; r_q = 0; r_start(B);
  for (k = 0; k < 6; k++) {
    LD te = pb.t0 + (LD)(pb.t1 - pb.t0) * k / 6;
    r_ns = 0; if (r_go(B, t, te)) { ref_ok = 0; return; } t = te;
    r_ns = pb.n; for (i = 0; i < pb.n; i++) r_col[i] = 100 + i;
    for (i = 0; i < r_len(); i++) Y[i] = i < pb.n ? B[i] : 0;
    for (i = 0; i < pb.n; i++) Y[pb.n * (1 + i) + i] = 1;
    for (m = k + 1; m <= 6; m++) {
      if (r_go(Y, pb.t0 + (LD)(pb.t1 - pb.t0) * (m - 1) / 6, pb.t0 + (LD)(pb.t1 - pb.t0) * m / 6)) { ref_ok = 0; return; }
      for (i = 0, worst_r = 0; i < pb.n; i++) { double s = 0; for (j = 0; j < pb.n; j++) s += fabs((double)Y[pb.n * (1 + j) + i]) * tol_a[j]; worst_r = fmax(worst_r, s / tol_a[i]); }
      if (worst_r > amp) amp = worst_r;
    }
  }
  r_ns = 0;
}
static double top_[PN];                /* the largest elements met so far */
static int refns_, refq_, refcol_[24];
static void ref_set(void) { int i; r_ns = refns_; r_q = refq_; for (i = 0; i < r_ns; i++) r_col[i] = refcol_[i]; }
static void (*more_)(CV *, double, int, int, int, double, double, int, const double *);   /* what else is looked at after each return */
static void (*compare_)(CV *, double);
static long (*calls_)(CV *);           /* further calls of the right-hand side that are counted */
static const double *ref_at(double t) {     /* instants in order, or from the start again */
  static double v[PN]; int i;
  ref_set();
  if ((t - (double)ref_t) * dir_ < 0) { r_start(ref_); ref_t = pb.t0; }
  if (r_go(ref_, ref_t, t)) ref_ok = 0;
  ref_t = t;
  for (i = 0; i < pb.n; i++) { v[i] = (double)ref_[i]; top_[i] = fmax(top_[i], fabs(v[i])); }
  return v;
}
#define MAXTR 4000
static double tr_[MAXTR]; static int ntr_, rec_;       /* the trace of one run */
static void trace(double v) { if (rec_) { if (ntr_ < MAXTR) tr_[ntr_] = v; ntr_++; } else { if (ntr_ < MAXTR && !same(tr_[ntr_], v)) { if (!n_fail) fail("rerun", "value %d of the run: %.17g the first time, %.17g now", ntr_, tr_[ntr_], v); } ntr_++; } }

static N_Vector dk_[14];
/* what must hold after each return with a solution */
static double pt_, py_[PN]; static int have_prev; static long pnst;
static void looks(CV *c, double T, int task, int flag, int deep) {
  realtype tn, hu, hc, x; int q, qc, i, j, k, r; long nst, v; N_Vector d = dk_[0], e = dk_[13]; double s, scale[PN], tolt;
  OK(CVodeGetCurrentTime(c->mem, &tn)); OK(CVodeGetLastStep(c->mem, &hu)); OK(CVodeGetLastOrder(c->mem, &q)); OK(CVodeGetCurrentOrder(c->mem, &qc));
  OK(CVodeGetNumSteps(c->mem, &nst)); OK(CVodeGetCurrentStep(c->mem, &hc));
  for (i = 0; i < pb.n; i++) trace(DP(c->y)[i]);
  trace(T); trace(tn); trace(hu); trace(q);
  if (cberr_) { fail("callback", "a callback was given something wrong (%d)", cberr_); return; }
  if (past_) { fail("past-stop", "a callback was called beyond the stop at %.17g (up to t %.17g)", lim_, tn); return; }
  if (lim_on && (tn - lim_) * dir_ > 0) { fail("past-stop", "integrated to %.17g, the stop is at %.17g", tn, lim_); return; }
  if (nst == 0) return;
  tolt = 300 * EPS * (fabs(tn) + fabs(hu));
  if ((T - (tn - hu)) * dir_ < -tolt || (T - tn) * dir_ > tolt) { fail("interval", "returned t %.17g, the last step went from %.17g to %.17g", T, tn - hu, tn); return; }
  if (hu * dir_ <= 0) { fail("step-sign", "last step %.17g", hu); return; }
  if (cf.hmax > 0 && fabs(hu) > cf.hmax * (1 + 1e-12)) { fail("max-step", "step %.17g with at most %.17g asked for", hu, cf.hmax); return; }
  if (q < 1 || q > (cf.maxord ? cf.maxord : cf.lmm == CV_ADAMS ? 12 : 5) || qc < 1 || qc > (cf.maxord ? cf.maxord : cf.lmm == CV_ADAMS ? 12 : 5)) { fail("order", "order %d, next %d", q, qc); return; }
  if (q > nst) { fail("order", "order %d after %ld steps", q, nst); return; }
  /* dense output */
  for (k = 0; k <= q; k++) { r = CVodeGetDky(c->mem, T, k, dk_[k]); if (r) { fail("dky", "derivative %d at %.17g: %d", k, T, r); return; } }
  if (task == CV_NORMAL || flag == CV_TSTOP_RETURN || T == tn) for (i = 0; i < pb.n; i++) if (DP(dk_[0])[i] != DP(c->y)[i]) { fail("dky0", "element %d: y is %.17g, dense output at the same t %.17g", i, DP(c->y)[i], DP(dk_[0])[i]); return; }
  for (i = 0; i < pb.n; i++) { scale[i] = 0; for (k = 0, s = 1; k <= q; k++) { scale[i] += fabs(DP(dk_[k])[i]) * s; s *= 2 * fabs(hu) / (k + 1); } }
  if (deep) {
    x = u01(); s = tn - x * hu; if (chance(0.3)) s = tn - hu; if (chance(0.2)) s = tn;
    for (j = 0; j <= q; j++) {
      r = CVodeGetDky(c->mem, s, j, e);
      if (r) { fail("dky", "derivative %d at %.17g in the step %.17g..%.17g: %d", j, s, tn - hu, tn, r); return; }
      for (i = 0; i < pb.n; i++) {
        double w = 0, f = 1, m = 0; for (k = j; k <= q; k++) { w += DP(dk_[k])[i] * f; m += fabs(DP(dk_[k])[i] * f); f *= (s - T) / (k - j + 1); }
        f = 1; for (k = 1; k <= j; k++) f *= k / fabs(hu);
        if (!within("taylor", fabs(w - DP(e)[i]), 1e-12 * (m + scale[i] * f))) { fail("taylor", "element %d, derivative %d of the dense output at %.17g: %.17g, the derivatives at %.17g give %.17g", i, j, s, DP(e)[i], T, w); return; }
      }
    }
    EV("dense output looked at");
    r = CVodeGetDky(c->mem, tn, q + 1, e); if (r != CV_BAD_K) { fail("bad-k", "derivative %d of order %d: returned %d", q + 1, q, r); return; }
    r = CVodeGetDky(c->mem, tn, -1, e); if (r != CV_BAD_K) { fail("bad-k", "derivative -1: returned %d", r); return; }
    x = fabs(hu) * 1e-3 + 1e4 * EPS * fabs(tn);
    r = CVodeGetDky(c->mem, tn + x * dir_, 0, e); if (r != CV_BAD_T) { fail("bad-t", "after the last step (%.17g beyond %.17g): returned %d", x, tn, r); return; }
    r = CVodeGetDky(c->mem, tn - hu - x * dir_, 0, e); if (r != CV_BAD_T) { fail("bad-t", "before the last step (%.17g before %.17g): returned %d", x, tn - hu, r); return; }
  }
  /* a single step since the last look */
  if (have_prev && nst == pnst + 1) {
    if (fabs(tn - pt_ - hu) > tolt) { fail("step", "from %.17g to %.17g, the last step is said to be %.17g", pt_, tn, hu); return; }
    if (lim_on && tn == lim_) s = tn - hu; else s = pt_;
    if ((s - (tn - hu)) * dir_ < 0) s = tn - hu;
    r = CVodeGetDky(c->mem, s, 0, e); if (r) { fail("dky", "at the beginning of the step: %d", r); return; }
    f_d(s, py_, pu, DP(d));
    for (i = 0; i < pb.n; i++) if (!within("continuity", fabs(DP(e)[i] - py_[i]), 1e-11 * scale[i] + 1000 * EPS * fabs(tn) * (fabs(DP(d)[i]) + fabs(DP(dk_[1])[i])))) { fail("continuity", "element %d at the beginning of the step %.17g..%.17g: dense output %.17g, was %.17g (order %d)", i, tn - hu, tn, DP(e)[i], py_[i], q); return; }
    /* weights: those of the beginning of the step */
    OK(CVodeGetErrWeights(c->mem, e));
    for (i = 0; i < pb.n; i++) { double w = 1 / (tol_r * fabs(py_[i]) + tol_a[i]); if (!within("weights", fabs(DP(e)[i] - w), 1e-14 * w)) { fail("weights", "element %d: %.17g, %.17g expected of |y| %.17g", i, DP(e)[i], w, py_[i]); return; } }
    OK(CVodeGetEstLocalErrors(c->mem, d));
    s = 0; for (i = 0; i < pb.n; i++) { double w = DP(d)[i] * DP(e)[i]; s += w * w; } s = sqrt(s / pb.n);
    if (!within("error-test", s, 1 + 1e-9)) { fail("error-test", "the step to %.17g was accepted with an estimated error of %.17g times the tolerance", tn, s); return; }
    trace(s);
    EV(cf.lmm == CV_ADAMS ? "Adams steps watched" : "BDF steps watched");
    /* how far off the estimate is */
    if (deep && ref_ok && s > 1e-3 && !cf.constr) {
      LD Y[PN]; double le[PN], l; for (i = 0; i < pb.n; i++) Y[i] = py_[i];
      for (i = 0; i < PP; i++) r_p[i] = pu[i];
      r_ns = r_q = 0;
      if (T == tn && !r_go(Y, pt_, tn)) {
        for (i = 0; i < pb.n; i++) le[i] = (double)(DP(c->y)[i] - Y[i]);
        l = 0; for (i = 0; i < pb.n; i++) { double w = le[i] * DP(e)[i]; l += w * w; } l = sqrt(l / pb.n);
        if (l > 0 && !pb.stiff && cf.nls != 2 && cf.ls < 3 && q > 1) { mean(cf.lmm == CV_ADAMS ? "adams_true_to_estimated" : "bdf_true_to_estimated", log10(l / s)); EV("steps with true error"); }
        worst("local error over tolerance", l);
      }
    }
    if (cf.constr && T == tn) for (i = 0; i < pb.n; i++) if (!(DP(c->y)[i] > 0)) { fail("constraint", "element %d is %.17g at %.17g", i, DP(c->y)[i], tn); return; }
  }
  if (more_) { more_(c, T, task, flag, deep, tn, hu, q, scale); if (n_fail) return; }
  if (hc * dir_ <= 0) { fail("next-step", "next step %.17g", hc); return; }
  pt_ = tn; pnst = nst; have_prev = T == tn && (task == CV_ONE_STEP || flag == CV_TSTOP_RETURN || T == tn);
  memcpy(py_, DP(c->y), pb.n * sizeof(double));
  (void)v;
}
static long base_;       /* the preconditioners' own counters go on after reinitialisation */
static void counters(CV *c) {
  long a, b, f, nst, nset, netf, nni, ncf; int q, qc; realtype h0, hu, hc, tn; long x[6] = { 0 }; int y1, y2; realtype z[4];
  OK(CVodeGetNumSteps(c->mem, &nst)); OK(CVodeGetNumRhsEvals(c->mem, &f)); OK(CVodeGetNumLinSolvSetups(c->mem, &nset)); OK(CVodeGetNumErrTestFails(c->mem, &netf));
  OK(CVodeGetLastOrder(c->mem, &q)); OK(CVodeGetCurrentOrder(c->mem, &qc)); OK(CVodeGetActualInitStep(c->mem, &h0)); OK(CVodeGetLastStep(c->mem, &hu)); OK(CVodeGetCurrentStep(c->mem, &hc)); OK(CVodeGetCurrentTime(c->mem, &tn));
  OK(CVodeGetNumNonlinSolvIters(c->mem, &nni)); OK(CVodeGetNumNonlinSolvConvFails(c->mem, &ncf));
  OK(CVodeGetIntegratorStats(c->mem, x, x + 1, x + 2, x + 3, &y1, &y2, z, z + 1, z + 2, z + 3));
  if (x[0] != nst || x[1] != f || x[2] != nset || x[3] != netf || y1 != q || y2 != qc || z[0] != h0 || z[1] != hu || z[2] != hc || z[3] != tn) { fail("stats", "the integrator statistics differ from the single ones"); return; }
  OK(CVodeGetNonlinSolvStats(c->mem, x, x + 1)); if (x[0] != nni || x[1] != ncf) { fail("stats", "the statistics of the nonlinear solver differ from the single ones"); return; }
  a = f;
  if (cf.ls == 3) { OK(CVDiagGetNumRhsEvals(c->mem, &b)); a += b; } else if (cf.ls) { OK(CVodeGetNumLinRhsEvals(c->mem, &b)); a += b; if (cf.pre && cf.prek == 1) { OK(CVBandPrecGetNumRhsEvals(c->mem, &b)); a += b - base_; } }
  if (calls_) a += calls_(c);
  if (a != c_.f) { fail("count-f", "%ld calls of the right-hand side counted, %ld made", a, c_.f); return; }
  if (f < nst + 1 || nni < nst || nni > f) { fail("count-f", "%ld steps, %ld iterations, %ld calls of the right-hand side", nst, nni, f); return; }
  if (cf.ls && cf.ls != 3) {
    long nje, npe, nps, nli, ncl, njs, njt;
    OK(CVodeGetNumJacEvals(c->mem, &nje)); OK(CVodeGetNumPrecEvals(c->mem, &npe)); OK(CVodeGetNumPrecSolves(c->mem, &nps)); OK(CVodeGetNumLinIters(c->mem, &nli)); OK(CVodeGetNumLinConvFails(c->mem, &ncl)); OK(CVodeGetNumJTSetupEvals(c->mem, &njs)); OK(CVodeGetNumJtimesEvals(c->mem, &njt));
    if (cf.ls <= 2 && cf.jac == 1 && nje != c_.jac) { fail("count-jac", "%ld Jacobians counted, %ld made", nje, c_.jac); return; }
    if (cf.ls <= 2 && cf.jac == 2 && (nje != c_.lin2 || nset != c_.lin)) { fail("count-jac", "%ld Jacobians and %ld setups counted, %ld and %ld made", nje, nset, c_.lin2, c_.lin); return; }
    if (cf.ls >= 4 && cf.pre && cf.prek == 0 && (npe != c_.pset2 || nps != c_.ps || nset != c_.pset)) { fail("count-prec", "preconditioner: %ld evaluations, %ld setups and %ld solves counted, %ld, %ld and %ld made", npe, nset, nps, c_.pset2, c_.pset, c_.ps); return; }
    if (cf.ls >= 4 && cf.jt && njt != c_.jt) { fail("count-jt", "%ld products counted, %ld made", njt, c_.jt); return; }
    if (cf.ls >= 4 && cf.jt && cf.jts && njs != c_.jts) { fail("count-jt", "%ld product setups counted, %ld made", njs, c_.jts); return; }
    if (cf.ls <= 2 && (nli || npe || nps || ncl || njs || njt)) { fail("count-direct", "a direct solver has iterations %ld %ld %ld %ld %ld %ld", nli, npe, nps, ncl, njs, njt); return; }
    if (cf.pre && cf.prek == 2) { OK(CVBBDPrecGetNumGfnEvals(c->mem, &b)); if (b - base_ != c_.gl) { fail("count-prec", "%ld local function calls counted, %ld made", b, c_.gl); return; } }
    stat_add("Jacobian evaluations", nje); stat_add("linear iterations", nli);
    if (netf) stat_add("rejected steps", netf);
    if (ncf) stat_add("convergence failures", ncf);
  }
  trace(nst); trace(f); trace(nset); trace(netf); trace(nni); trace(ncf); trace(h0);
  EV("counters compared");
}
/* one integration according to the plan drawn from plan; returns nonzero when it gave up */
static int dead_; static double maxerr_; static long nfe_;
static void run(CV *c, uint64_t plan, int checked) {
  int k, i, no = 1 + (int)(plan % 7), task, flag, ones, nflag; realtype T = pb.t0, tout, t0 = pb.t0, stopat; long nst0;
  rng_seed(plan, 5); memset(&c_, 0, sizeof c_); lim_on = past_ = cberr_ = 0; have_prev = 1; pnst = 0; pt_ = pb.t0; memcpy(py_, pb.y0, sizeof py_); ntr_ = 0; dead_ = 0; maxerr_ = 0; for (i = 0; i < pb.n; i++) top_[i] = fabs(pb.y0[i]); jts_done = 0;
  dir_ = pb.t1 > pb.t0 ? 1 : -1;
  for (k = 0; k < no && !n_fail; k++) {
    tout = k == no - 1 ? pb.t1 : t0 + (pb.t1 - pb.t0) * (chance(0.15) ? 1e-3 : u01()) / no;
    if ((tout - t0) * dir_ <= 0 || fabs(tout - t0) < 1e-4 * fabs(pb.t1 - pb.t0)) tout = t0 + 0.5 * (pb.t1 - t0) ;
    if (chance(0.35)) {
      realtype tn; long ns; OK(CVodeGetCurrentTime(c->mem, &tn)); OK(CVodeGetNumSteps(c->mem, &ns)); if (ns == 0) tn = pb.t0;
      if (chance(0.3) && (tout - tn) * dir_ > 0) lim_ = tout; else lim_ = tn + (pb.t1 - pb.t0) * unif(0.02, 0.4);
      lim_on = 1; OK(CVodeSetStopTime(c->mem, lim_)); EV("stops set");
    }
    task = chance(0.5) ? CV_NORMAL : CV_ONE_STEP; ones = task == CV_ONE_STEP ? irnd(1, 40) : 100000;
    if (k == no - 1) ones = 100000;
    if (chance(0.1) && k > 0) {      /* an instant behind the last step, or on the wrong side, is refused and nothing happens */
      realtype tn, hu, tt; long n0, n1; OK(CVodeGetCurrentTime(c->mem, &tn)); OK(CVodeGetLastStep(c->mem, &hu)); OK(CVodeGetNumSteps(c->mem, &n0));
      if (n0 > 0) {
        flag = CVode(c->mem, tn - 1.5 * hu - 0.01 * dir_, dk_[13], &tt, CV_NORMAL); OK(CVodeGetNumSteps(c->mem, &n1));
        if (!(lim_on && tn == lim_) && (flag != CV_ILL_INPUT || n0 != n1)) { fail("too-far-back", "t %.17g asked for at %.17g, last step %.17g: returned %d after %ld steps", tn - 1.5 * hu - 0.01 * dir_, tn, hu, flag, n1 - n0); return; }
        if (lim_on && tn == lim_ && flag == CV_TSTOP_RETURN) lim_on = 0;
        EV("instants behind the last step refused");
      }
    }
    for (i = 0, nflag = 0; i < ones; i++) {
      OK(CVodeGetNumSteps(c->mem, &nst0));
      stopat = lim_;
      flag = CVode(c->mem, tout, c->y, &T, task);
      if (flag < 0) {
        EV("gave up"); dead_ = 1; trace(flag); trace(T);
        if (robust() || (flag != CV_TOO_MUCH_WORK && flag != CV_ERR_FAILURE && flag != CV_CONV_FAILURE && flag != CV_TOO_MUCH_ACC && flag != CV_CONSTR_FAIL && flag != CV_LSETUP_FAIL))
          fail("gave-up", "returned %d at %.17g (%s)", flag, T, lastmsg);
        return;
      }
      trace(flag);
      if (flag == CV_TSTOP_RETURN) {
        if (!lim_on || T != stopat) { fail("stop", "stop reported at %.17g, set to %.17g (%d)", T, stopat, lim_on); return; }
        looks(c, T, task, flag, chance(0.5)); lim_on = 0; EV("stops reached");
      } else if (flag == CV_SUCCESS) {
        if (task == CV_NORMAL && T != tout) { fail("output-time", "asked for %.17g, returned at %.17g", tout, T); return; }
        if (task == CV_ONE_STEP) { long n1; realtype tn; OK(CVodeGetNumSteps(c->mem, &n1)); OK(CVodeGetCurrentTime(c->mem, &tn)); if (n1 != nst0 + 1 && tn - T != 0) { fail("one-step", "%ld steps, returned at %.17g, current %.17g", n1 - nst0, T, tn); return; }
          if (T != tn || (n1 != nst0 + 1 && n1 != nst0)) { fail("one-step", "%ld steps, returned at %.17g, current %.17g", n1 - nst0, T, tn); return; } }
        looks(c, T, task, flag, chance(task == CV_NORMAL ? 0.6 : 0.1));
      } else { fail("flag", "returned %d", flag); return; }
      if (n_fail) return;
      t0 = T;
      if (checked && ref_ok && (task == CV_NORMAL || i % 8 == 0 || flag == CV_TSTOP_RETURN)) {
        const double *rf = ref_at(T); double e[PN], w; int j; for (j = 0; j < pb.n; j++) e[j] = DP(c->y)[j] - rf[j];
        w = wnorm(e, top_); if (w > maxerr_) maxerr_ = w;
        if (ref_ok && !within("error over amplification", w, (200 + 10. * pnst) * amp * (robust() ? 1 : 10))) { fail("accuracy", "at %.17g the error is %.3g times the tolerance (errors can grow by %.3g)", T, w, amp); return; }
        EV("solutions compared");
        if (compare_ && ref_ok) { compare_(c, T); if (n_fail) return; }
      }
      if (task == CV_NORMAL && flag == CV_SUCCESS) {
        /* dense output anywhere in the last step */
        realtype hu, tn; double u = u01(), u2 = u01(); OK(CVodeGetLastStep(c->mem, &hu)); OK(CVodeGetCurrentTime(c->mem, &tn));
        if (checked && ref_ok && u2 < 0.3 && !(lim_on && tn == lim_)) { realtype s = tn - u * hu; double e[PN], w; const double *rf; int j; OK(CVodeGetDky(c->mem, s, 0, dk_[13])); rf = ref_at(s); for (j = 0; j < pb.n; j++) e[j] = DP(dk_[13])[j] - rf[j]; w = wnorm(e, top_);
          if (ref_ok && !within("error between over amplification", w, (200 + 10. * pnst) * amp * (robust() ? 1 : 10))) { fail("accuracy-between", "between steps, at %.17g, the error is %.3g times the tolerance (errors can grow by %.3g)", s, w, amp); return; } EV("interpolated solutions compared"); }
        break;
      }
      if (task == CV_ONE_STEP && (T - tout) * dir_ >= 0) { if (k == no - 1) break; break; }
      if (++nflag > 100000) break;
    }
    if ((t0 - pb.t1) * dir_ >= 0) break;
  }
  counters(c); nfe_ = c_.f;
}
static void plain(int fixedcase) {
  CV c, d; uint64_t plan; int k, back = chance(0.25), stiff = chance(0.4), oldrec; double first[PN]; int fdead;
  (void)fixedcase;
  adddesc("");
  problem(stiff, back); pb.stiff = stiff; config(stiff);
  if (stiff && (cf.nls == 2 || cf.lmm == CV_ADAMS)) { if (cf.nls == 2) { cf.nls = 1; cf.ls = 1; cf.pre = 0; } }
  plan = rng64() >> 1;
  sigmix(pb.fam * 16 + pb.n); sigmix(cf.lmm * 1000 + cf.nls * 100 + cf.ls * 10 + cf.jac); sigd(cf.rtol); sigd(pb.p[0]);
  fail_kind = 0; lastmsg[0] = 0; base_ = 0; dir_ = back ? -1 : 1; if (pb.t1 < pb.t0) dir_ = -1; else dir_ = 1;
  cv_new(&c); if (n_fail) return;
  for (k = 0; k < 14; k++) dk_[k] = N_VClone(c.y);
  ref_ok = 1; amplification(); refns_ = refq_ = 0; ref_set(); r_start(ref_); ref_t = pb.t0;
  rec_ = 1; run(&c, plan, 1); oldrec = ntr_; fdead = dead_; memcpy(first, DP(c.y), sizeof(double) * pb.n);
  if (!n_fail && !dead_) {
    EV(cf.lmm == CV_ADAMS ? "Adams integrations" : "BDF integrations"); EV(famn[pb.fam]);
    { char b[40]; snprintf(b, sizeof b, "with linear solver %s", lsn[cf.ls]); EV(b); snprintf(b, sizeof b, "nonlinear solver %d", cf.nls); EV(b); if (cf.pre) { snprintf(b, sizeof b, "preconditioner kind %d", cf.prek); EV(b); } }
    if (back) EV("backwards in time");
    if (!ref_ok) EV("no reference");
    if (ref_ok && robust() && amp < 1e4 && !cf.maxord && maxerr_ > 0) { mean(cf.lmm == CV_ADAMS ? "adams_error" : "bdf_error", log10(maxerr_ / amp)); mean(cf.lmm == CV_ADAMS ? "adams_calls" : "bdf_calls", log10(nfe_)); }
    if (ref_ok && !robust() && amp < 1e4 && !cf.maxord && maxerr_ > 0) { mean("other_error", log10(maxerr_ / amp)); mean("other_calls", log10(nfe_)); }
  }
  /* the same again: after reinitialisation, and in a new object */
  if (!n_fail && chance(0.6)) {
    if (chance(0.5)) {
      memcpy(DP(c.y), pb.y0, pb.n * sizeof(double)); rec_ = 0; base_ = 0;
      if (cf.pre && cf.prek == 1) OK(CVBandPrecGetNumRhsEvals(c.mem, &base_));
      if (cf.pre && cf.prek == 2) OK(CVBBDPrecGetNumGfnEvals(c.mem, &base_));
      OK(CVodeReInit(c.mem, pb.t0, c.y)); OK(CVodeSetStopTime(c.mem, pb.t1 + 1e6 * dir_));
      if (cf.stab) { OK(CVodeSetStabLimDet(c.mem, SUNFALSE)); OK(CVodeSetStabLimDet(c.mem, SUNTRUE)); }
      run(&c, plan, 0); EV("runs repeated after reinitialisation");
      if (!n_fail && (ntr_ != oldrec || fdead != dead_)) fail("rerun", "the repeated run has %d values, the first %d", ntr_, oldrec);
    } else {
      rec_ = 0; base_ = 0; cv_new(&d); run(&d, plan, 0); EV("runs repeated in a new object");
      if (!n_fail && (ntr_ != oldrec || fdead != dead_)) fail("rerun", "the repeated run has %d values, the first %d", ntr_, oldrec);
      cv_free(&d);
    }
  }
  for (k = 0; k < 14; k++) N_VDestroy(dk_[k]);
  cv_free(&c);
}
#include "fzv_root.h"
#include "fzv_sens.h"
#include "fzv_adj.h"
#include "fzv_flt.h"
#include "fzv_ctl.h"
static void one_case(const char *mode, long ic, int arg) {
  (void)mode; (void)ic;
  if (arg == 0) plain(arg);
  if (arg == 1) roots();
  if (arg == 2) sens();
  if (arg == 3) adjoint();
  if (arg == 4) faults();
  if (arg == 5) control();
}
