/* Callbacks that fail, work limits, and calls that must be refused. */
static const char *fkn[] = { "none", "f", "Jacobian", "preconditioner setup", "preconditioner solve", "root function", "integrand", "sensitivity right-hand side", "weights", "Jacobian times vector" };
static int f_g(realtype t, N_Vector y, realtype *g, void *u) { UD(u); (void)t; c_.g++; if (fail_kind == 5 && HIT(c_.g)) return fail_rc; g[0] = 1 + DP(y)[0] * DP(y)[0]; return 0; }
static long f_made(void) { switch (fail_kind) { case 1: return c_.f; case 2: return c_.jac; case 3: return c_.pset; case 4: return c_.ps; case 5: return c_.g; case 6: return c_.fq; case 7: return c_.fs; case 8: return c_.efun; case 9: return c_.jt; } return 0; }
static int in(int v, const int *s) { for (; *s; s++) if (*s == v) return 1; return 0; }
/* what may be returned when the callback gives up, or keeps failing */
static int expected(int flag, int first) {
  static const int f1[] = { CV_RHSFUNC_FAIL, 0 }, f1d[] = { CV_RHSFUNC_FAIL, CV_LSETUP_FAIL, CV_LSOLVE_FAIL, 0 }, ls[] = { CV_LSETUP_FAIL, 0 }, lo[] = { CV_LSOLVE_FAIL, 0 };
  static const int ff[] = { CV_FIRST_RHSFUNC_ERR, 0 }, fr[] = { CV_REPTD_RHSFUNC_ERR, CV_UNREC_RHSFUNC_ERR, CV_ERR_FAILURE, 0 }, frd[] = { CV_REPTD_RHSFUNC_ERR, CV_UNREC_RHSFUNC_ERR, CV_CONV_FAILURE, CV_ERR_FAILURE, 0 }, cf_[] = { CV_CONV_FAILURE, 0 }, cfw[] = { CV_CONV_FAILURE, CV_TOO_MUCH_WORK, 0 };
  static const int g[] = { CV_RTFUNC_FAIL, 0 }, q[] = { CV_QRHSFUNC_FAIL, 0 }, qf[] = { CV_FIRST_QRHSFUNC_ERR, 0 }, qr[] = { CV_REPTD_QRHSFUNC_ERR, CV_UNREC_QRHSFUNC_ERR, 0 };
  static const int s[] = { CV_SRHSFUNC_FAIL, 0 }, sf1[] = { CV_FIRST_SRHSFUNC_ERR, 0 }, sr[] = { CV_REPTD_SRHSFUNC_ERR, CV_UNREC_SRHSFUNC_ERR, 0 }, w[] = { CV_ILL_INPUT, 0 };
  int dq = !(cf.ls == 0 || (cf.ls <= 2 && cf.jac));
  /* difference quotients call what fails: the failure is that of what was differenced */
  static const int dsu[] = { CV_SRHSFUNC_FAIL, CV_QRHSFUNC_FAIL, CV_QSRHSFUNC_FAIL, 0 }, dsr[] = { CV_FIRST_SRHSFUNC_ERR, CV_REPTD_SRHSFUNC_ERR, CV_UNREC_SRHSFUNC_ERR, CV_FIRST_QSRHSFUNC_ERR, CV_REPTD_QSRHSFUNC_ERR, CV_UNREC_QSRHSFUNC_ERR, 0 };
  if ((fail_kind == 1 || fail_kind == 6) && sf.ns && (fail_kind == 1 ? sf.rhs == 0 : sf.qs == 2) && in(flag, fail_rc < 0 ? dsu : dsr)) return 1;
  switch (fail_kind) {
  case 1: return in(flag, fail_rc < 0 ? dq ? f1d : f1 : first ? ff : dq ? frd : fr);
  case 2: case 3: return in(flag, fail_rc < 0 ? ls : cf_);
  case 4: case 9: return in(flag, fail_rc < 0 ? lo : cfw); /* with small steps nothing needs to be multiplied */
  case 5: return in(flag, g);
  case 6: return in(flag, fail_rc < 0 ? q : first ? qf : qr);
  case 7: return in(flag, fail_rc < 0 ? s : first ? sf1 : sr);
  case 8: return in(flag, w);
  }
  return 0;
}
static int f_err(double T, double mult, double *e_) {
  static LD Y[RN]; double e[PN]; int i;
  r_ns = r_q = 0; r_start(Y); if (r_go(Y, pb.t0, T)) return 0;
  for (i = 0; i < pb.n; i++) { e[i] = DP(dk_[0])[i] - (double)Y[i]; top_[i] = fmax(top_[i], fabs((double)Y[i])); }
  *e_ = wnorm(e, top_); (void)mult;
  return 1;
}
static void f_check(CV *c, double T, const char *when) {
  long nst; double e; OK(CVodeGetNumSteps(c->mem, &nst)); N_VScale(1., c->y, dk_[0]);
  if (f_err(T, 1, &e) && !within("error over amplification", e, (300 + 10. * nst) * amp * (robust() ? 1 : 10))) fail("fault-accuracy", "%s, at %.17g the error is %.3g times the tolerance (errors can grow by %.3g)", when, T, e, amp);
  EV("solutions compared");
}
/* outputs until the end; flag of the first failure */
static int f_run(CV *c, uint64_t plan, double *T_, double from) {
  int no = 1 + (int)(plan % 5), k, i, flag = 0; realtype T = from; double w = (double)(plan >> 20 & 1023) / 1024;
  for (k = 0; k < no; k++) {
    double tout = k == no - 1 ? pb.t1 : pb.t0 + (pb.t1 - pb.t0) * (k + w) / no; if ((tout - from) * dir_ <= 0) continue;
    flag = CVode(c->mem, tout, c->y, &T, CV_NORMAL); *T_ = T; trace(flag); trace(T); for (i = 0; i < pb.n; i++) trace(DP(c->y)[i]);
    if (flag < 0) return flag;
    if (flag > 0 || T != tout) { fail("flag", "returned %d at %.17g for %.17g", flag, T, tout); return flag; }
    if (ref_ok && rec_) f_check(c, T, "without a failure");
    if (n_fail) return flag;
  }
  { long nst, f, nset, netf, nni, ncf; OK(CVodeGetNumSteps(c->mem, &nst)); OK(CVodeGetNumRhsEvals(c->mem, &f)); OK(CVodeGetNumLinSolvSetups(c->mem, &nset)); OK(CVodeGetNumErrTestFails(c->mem, &netf)); OK(CVodeGetNonlinSolvStats(c->mem, &nni, &ncf)); trace(nst); trace(f); trace(nset); trace(netf); trace(nni); trace(ncf); }
  return 0;
}
static void f_new(CV *c) {
  cv_new(c); if (n_fail) return;
  if (fail_kind == 5 || sf.list) OK(CVodeRootInit(c->mem, 1, f_g));
  sens_attach(c, 1, 0);
}
static void f_again(CV *c) {
  memcpy(DP(c->y), pb.y0, pb.n * sizeof(double)); sens_start(); OK(CVodeReInit(c->mem, pb.t0, c->y));
  if (sf.ns) OK(CVodeSensReInit(c->mem, sf.ism, sv.s0));
  if (sf.quad) { OK(CVodeQuadReInit(c->mem, sv.q0)); if (sf.qs) OK(CVodeQuadSensReInit(c->mem, sv.qs0)); }
  if (cf.stab) { OK(CVodeSetStabLimDet(c->mem, SUNFALSE)); OK(CVodeSetStabLimDet(c->mem, SUNTRUE)); }
}
/* calls that must be refused; they change nothing */
#define REF(want, call) do { int r_ = (call); if (r_ != (want)) { fail("refused", "%s returned %d, %d expected (%s)", #call, r_, want, lastmsg); return; } EV("calls refused"); } while (0)
static void refused(CV *c, int mid) {
  void *m = c->mem; realtype T, tn, hu; long n; N_Vector e = dk_[5]; int is = sf.ns && 1, q; N_Vector bad;
  bad = dk_[6]; N_VConst(1e-5, bad); DP(bad)[pb.n - 1] = -1;
  switch (irnd(0, 21)) {
  case 0: REF(CV_ILL_INPUT, CVodeSetMaxOrd(m, chance(0.5) ? 0 : -1)); REF(CV_ILL_INPUT, CVodeSetMaxOrd(m, cf.lmm == CV_ADAMS ? 13 : 6)); break;
  case 1: REF(CV_ILL_INPUT, CVodeSetMinStep(m, -1e-3)); REF(CV_ILL_INPUT, CVodeSetMaxStep(m, -1e-3)); if (cf.hmax > 0) REF(CV_ILL_INPUT, CVodeSetMinStep(m, cf.hmax * 2)); if (cf.hmin > 0) REF(CV_ILL_INPUT, CVodeSetMaxStep(m, cf.hmin / 2)); break;
  case 2: if (cf.lmm == CV_ADAMS) REF(CV_ILL_INPUT, CVodeSetStabLimDet(m, SUNTRUE)); break;
  case 3: REF(CV_ILL_INPUT, CVodeSStolerances(m, -1e-3, 1e-3)); REF(CV_ILL_INPUT, CVodeSStolerances(m, 1e-3, -1e-3)); REF(CV_ILL_INPUT, CVodeSVtolerances(m, 1e-3, bad)); REF(CV_ILL_INPUT, CVodeSVtolerances(m, -1e-3, c->av)); break;
  case 4: N_VConst(1., bad); DP(bad)[0] = 3; REF(CV_ILL_INPUT, CVodeSetConstraints(m, bad)); break;
  case 5: REF(CV_ILL_INPUT, CVode(m, pb.t1, NULL, &T, CV_NORMAL)); REF(CV_ILL_INPUT, CVode(m, pb.t1, e, NULL, CV_NORMAL)); REF(CV_ILL_INPUT, CVode(m, pb.t1, e, &T, 3)); REF(CV_ILL_INPUT, CVode(m, pb.t1, e, &T, 0)); break;
  case 6: if (mid) { OK(CVodeGetCurrentTime(m, &tn)); OK(CVodeGetLastStep(m, &hu)); REF(CV_BAD_K, CVodeGetDky(m, tn, 14, e)); REF(CV_BAD_K, CVodeGetDky(m, tn, -1, e)); REF(CV_BAD_T, CVodeGetDky(m, tn + 2 * hu, 0, e)); REF(CV_BAD_T, CVodeGetDky(m, tn - 2 * hu, 0, e)); REF(CV_BAD_DKY, CVodeGetDky(m, tn, 0, NULL)); } break;
  case 7: if (mid) { OK(CVodeGetCurrentTime(m, &tn)); OK(CVodeGetLastStep(m, &hu)); REF(CV_ILL_INPUT, CVodeSetStopTime(m, tn - hu)); } break;
  case 8: if (!(fail_kind == 5 || sf.list)) { int rf[1] = { 0 }; REF(CV_ILL_INPUT, CVodeSetRootDirection(m, rf)); } break;
  case 9: if (cf.ls != 1 && cf.ls != 2) REF(cf.ls == 0 || cf.ls == 3 ? CVLS_LMEM_NULL : CVLS_ILL_INPUT, cf.ls == 3 ? CVLS_LMEM_NULL : CVodeSetJacFn(m, cb_jac)); break;
  case 10: if (cf.ls == 0) { REF(CVLS_LMEM_NULL, CVodeSetEpsLin(m, 0.1)); REF(CVLS_LMEM_NULL, CVodeGetNumJacEvals(m, &n)); REF(CVLS_LMEM_NULL, CVodeSetPreconditioner(m, cb_pset, cb_ps)); } else if (cf.ls != 3) REF(CVLS_ILL_INPUT, CVodeSetEpsLin(m, -0.1)); break;
  case 11: if (cf.ls == 1 || cf.ls == 2) { REF(CVLS_ILL_INPUT, CVodeSetPreconditioner(m, cb_pset, cb_ps)); REF(CVLS_ILL_INPUT, CVodeSetJacTimes(m, NULL, cb_jt)); } break;
  case 12: if (!sf.quad) { REF(CV_NO_QUAD, CVodeGetQuad(m, &T, e)); REF(CV_NO_QUAD, CVodeGetQuadNumRhsEvals(m, &n)); REF(CV_NO_QUAD, CVodeQuadReInit(m, e)); REF(CV_NO_QUAD, CVodeGetQuadDky(m, pb.t0, 0, e)); } break;
  case 13: if (!is) { REF(CV_NO_SENS, CVodeGetSens1(m, &T, 0, e)); REF(CV_NO_SENS, CVodeGetSensNumRhsEvals(m, &n)); REF(CV_NO_SENS, CVodeSensReInit(m, CV_STAGGERED, &e)); REF(CV_NO_SENS, CVodeSensToggleOff(m) == CV_SUCCESS ? CV_NO_SENS : -1); REF(CV_NO_SENS, CVodeSetSensDQMethod(m, CV_CENTERED, 0.) == CV_SUCCESS ? CV_NO_SENS : -1); }
    else { REF(CV_BAD_IS, CVodeGetSens1(m, &T, sf.ns, e)); REF(CV_BAD_IS, CVodeGetSens1(m, &T, -1, e)); REF(CV_ILL_INPUT, CVodeSetSensDQMethod(m, 7, 0.)); REF(CV_ILL_INPUT, CVodeSetSensDQMethod(m, CV_CENTERED, -1.)); REF(CV_ILL_INPUT, CVodeSensReInit(m, 9, sv.s0)); } break;
  case 14: REF(CV_MEM_NULL, CVode(NULL, pb.t1, e, &T, CV_NORMAL)); REF(CV_MEM_NULL, CVodeReInit(NULL, pb.t0, e)); REF(CV_MEM_NULL, CVodeSetMaxOrd(NULL, 3)); REF(CV_MEM_NULL, CVodeGetNumSteps(NULL, &n)); REF(CV_MEM_NULL, CVodeGetDky(NULL, pb.t0, 0, e)); REF(CV_MEM_NULL, CVodeRootInit(NULL, 1, f_g)); REF(CV_MEM_NULL, CVodeGetLastOrder(NULL, &q)); break;
  case 15: REF(CVLS_MEM_NULL, CVodeSetLinearSolver(NULL, c->LS, c->A)); REF(CVLS_ILL_INPUT, CVodeSetLinearSolver(m, NULL, NULL)); if (cf.ls == 1 || cf.ls == 2) REF(CVLS_ILL_INPUT, CVodeSetLinearSolver(m, c->LS, NULL)); break;
  case 16: REF(CV_ILL_INPUT, CVodeSetNonlinearSolver(m, NULL)); REF(CV_ILL_INPUT, CVodeInit(m, NULL, pb.t0, c->y)); REF(CV_ILL_INPUT, CVodeInit(m, cb_f, pb.t0, NULL)); break;
  case 17: REF(CV_ILL_INPUT, CVodeReInit(m, pb.t0, NULL)); break;
  case 18: { void *w = CVodeCreate(cf.lmm, sunctx_); CVodeSetErrHandlerFn(w, cb_err, NULL); N_VConst(1., e);
    REF(CV_NO_MALLOC, CVode(w, pb.t1, e, &T, CV_NORMAL)); REF(CV_NO_MALLOC, CVodeReInit(w, pb.t0, e)); REF(CV_NO_MALLOC, CVodeSStolerances(w, 1e-3, 1e-3));
    REF(0, CVodeInit(w, cb_f, pb.t0, e)); REF(0, CVodeSetUserData(w, &ud_)); REF(CV_ILL_INPUT, CVode(w, pb.t1, e, &T, CV_NORMAL));
    REF(0, CVodeSStolerances(w, 1e-3, 1e-3)); REF(CV_NLS_INIT_FAIL, CVode(w, pb.t1, e, &T, CV_NORMAL)); REF(0, CVodeSStolerances(w, 1e-3, 0.)); DP(e)[0] = 0; REF(0, CVodeReInit(w, pb.t0, e)); REF(CV_ILL_INPUT, CVode(w, pb.t1, e, &T, CV_NORMAL));
    CVodeFree(&w); break; }
  case 19: REF(CV_NO_ADJ, CVodeF(m, pb.t1, e, &T, CV_NORMAL, &q)); REF(CV_NO_ADJ, CVodeB(m, pb.t0, CV_NORMAL)); REF(CV_NO_ADJ, CVodeCreateB(m, CV_BDF, &q)); REF(CV_NO_ADJ, CVodeGetB(m, 0, &T, e)); break;
  case 20: if (CVodeCreate(7, sunctx_) != NULL) fail("refused", "an object was made with method 7"); if (CVodeCreate(CV_BDF, NULL) != NULL) fail("refused", "an object was made without context"); EV("calls refused"); break;
  case 21: if (is) { REF(CV_ILL_INPUT, CVodeSetSensParams(m, NULL, sf.pbar, (int *)(intptr_t[]){ -1, -1, -1, -1, -1, -1, -1, -1, -1, -1 })); sf.pbar[0] = -sf.pbar[0]; sf.pbar[0] = -sf.pbar[0]; } break;
  }
  lastmsg[0] = 0;
}
static int ref_mid;
static void refused_hook(CV *c, double T, int task, int flag, int deep, double tn, double hu, int q, const double *s) {
  uint64_t k[2]; int i; struct { long f, jac, lin, lin2, pset, pset2, ps, jts, jt, fq, fs, fqs, g, efun, gl; } z; (void)T; (void)task; (void)flag; (void)deep; (void)tn; (void)hu; (void)q; (void)s;
  memcpy(k, rng_s, sizeof k); memcpy(&z, &c_, sizeof z); for (i = 0; i < 2; i++) if (chance(0.3)) refused(c, 1);
  ref_mid = 1; memcpy(rng_s, k, sizeof k); memcpy(&c_, &z, sizeof c_);
}
static void f_clear(int on) { int k; if (sf.ns) { N_VDestroyVectorArray(sv.s0, sf.ns); for (k = 0; k < sf.ns; k++) N_VDestroy(sv.sv[k]); if (sf.qs) N_VDestroyVectorArray(sv.qs0, sf.ns); } N_VDestroy(sv.q0); N_VDestroy(sv.qo); if (on) for (k = 0; k < 14; k++) N_VDestroy(dk_[k]); }
static void faults(void) {
  CV c, d; uint64_t plan; int k, back = chance(0.25), kinds[12], nk = 0, flag, flag2, limit, what, kind = 0; realtype T, T0; long nst, made; SUNNonlinearSolver NL1 = NULL, NL2 = NULL; double y_[PN];
  adddesc(""); problem(0, back); pb.stiff = 0; config(0); cf.constr = 0; cf.hmin = 0;
  if (cf.rtol < 1e-8) { cf.rtol = 1e-8; cf.atol = 1e-9; }
  plan = rng64() >> 1; fail_kind = 0; fail_once = 0; lastmsg[0] = 0; base_ = 0; dir_ = pb.t1 < pb.t0 ? -1 : 1; lim_on = past_ = cberr_ = 0; memset(&c_, 0, sizeof c_); memset(top_, 0, sizeof top_);
  sens_config(); if (chance(0.6)) sf.ns = sf.qs = 0; if (!sf.ns) sf.quad = chance(0.4); sf.list = chance(0.3);
  sigmix(pb.fam * 16 + pb.n); sigmix(cf.lmm * 1000 + cf.nls * 100 + cf.ls * 10 + cf.jac); sigd(cf.rtol); sigd(pb.p[0]);
  memset(&sv, 0, sizeof sv);
  { N_Vector y = N_VNew_Serial(pb.n, sunctx_); for (k = 0; k < 14; k++) dk_[k] = N_VClone(y); sv.q0 = N_VNew_Serial(2, sunctx_); sv.qo = N_VClone(sv.q0);
    if (sf.ns) { sv.s0 = N_VCloneVectorArray(sf.ns, y); for (k = 0; k < sf.ns; k++) sv.sv[k] = N_VClone(y); if (sf.qs) sv.qs0 = N_VCloneVectorArray(sf.ns, sv.q0); } N_VDestroy(y); }
  sens_start();
  what = irnd(0, 3);
  if (what == 3 && !sf.ns && !sf.quad && !sf.list) { /* refused calls among accepted ones */
    adddesc("refused calls; "); memcpy(pu, pb.p, sizeof pb.p);
    cv_new(&c); ref_ok = 1; amplification(); refns_ = refq_ = 0; ref_set(); r_start(ref_); ref_t = pb.t0;
    more_ = NULL; rec_ = 1; run(&c, plan, 1); flag = ntr_; limit = dead_;
    if (!n_fail) { rec_ = 0; cv_new(&d); k = irnd(1, 8); { N_Vector t = N_VClone(d.y); N_VScale(1., d.y, t); while (k-- && !n_fail) refused(&d, 0); N_VDestroy(t); }
      more_ = refused_hook; if (!n_fail) run(&d, plan, 0); more_ = NULL;
      if (!n_fail && (ntr_ != flag || limit != dead_)) fail("rerun", "the run with refused calls has %d values, the one without %d", ntr_, flag);
      EV("runs with refused calls"); cv_free(&d); }
    cv_free(&c); f_clear(1); return;
  }
  more_ = NULL;
  ref_ok = 1; amplification(); if (!(amp < 1e5)) ref_ok = 0;
  if (what == 2) { /* a limit on the number of steps, resumed */
    int lim = irnd(1, 60), i; long n0 = 0, n1; double to[6]; int no = irnd(1, 5), stops = 0;
    for (i = 0; i < no; i++) to[i] = pb.t0 + (pb.t1 - pb.t0) * (i + 1 == no ? 1 : (i + u01()) / no);
    adddesc("limit %d; ", lim); ntr_ = 0; rec_ = 1; f_new(&c); NL1 = sv.NL; sv.NL = NULL; OK(CVodeSetMaxNumSteps(c.mem, -1));
    for (i = 0; i < no && !n_fail; i++) { flag = CVode(c.mem, to[i], c.y, &T, CV_NORMAL); if (flag) goto over; for (k = 0; k < pb.n; k++) trace(DP(c.y)[k]); if (ref_ok) f_check(&c, T, "without a limit"); }
    OK(CVodeGetNumSteps(c.mem, &nst)); trace(nst);
    rec_ = 0; ntr_ = 0; memset(&c_, 0, sizeof c_); sens_start(); f_new(&d); NL2 = sv.NL; sv.NL = NULL; OK(CVodeSetMaxNumSteps(d.mem, lim));
    for (i = 0; i < no && !n_fail; i++) { int tries = 0; do { flag = CVode(d.mem, to[i], d.y, &T, CV_NORMAL); OK(CVodeGetNumSteps(d.mem, &n1));
        if (flag == CV_TOO_MUCH_WORK) { realtype tn; stops++; OK(CVodeGetCurrentTime(d.mem, &tn)); if (n1 - n0 != lim) fail("limit", "stopped after %ld steps, the limit is %d", n1 - n0, lim); else if (T != tn) fail("limit", "returned time %.17g, the last step ended at %.17g", T, tn); else if (lastcode != flag) fail("limit", "no message"); else if (ref_ok && chance(0.1)) f_check(&d, T, "at the limit"); }
        else if (flag) fail("limit", "returned %d (%s)", flag, lastmsg);
        else if (n1 - n0 > lim) fail("limit", "%ld steps, the limit is %d", n1 - n0, lim);
        n0 = n1; } while (flag == CV_TOO_MUCH_WORK && !n_fail && ++tries < 100000);
      for (k = 0; k < pb.n && !n_fail; k++) trace(DP(d.y)[k]); }
    if (!n_fail) { OK(CVodeGetNumSteps(d.mem, &nst)); trace(nst); EV("limited runs resumed"); stat_add("times at the limit", stops); }
    cv_free(&d); if (NL2) SUNNonlinSolFree(NL2); goto over;
  }
  /* a clean run, to know how often each callback is called */
  ntr_ = 0; rec_ = 1; f_new(&c); NL1 = sv.NL; sv.NL = NULL; if (n_fail) goto over;
  flag = f_run(&c, plan, &T, pb.t0); if (n_fail) goto over;
  if (flag < 0) { if (robust() && !sf.maxcor) fail("gave-up", "returned %d at %.17g (%s)", flag, T, lastmsg); EV("clean runs that gave up"); goto over; }
  { long n[10] = { 0, c_.f, cf.ls <= 2 && cf.jac == 1 ? c_.jac : 0, c_.pset, c_.ps, c_.g, c_.fq, sf.rhs ? c_.fs : 0, c_.efun, c_.jt }; for (k = 1; k < 10; k++) if (n[k] > 0) kinds[nk++] = k;
    kind = kinds[irnd(0, nk - 1)]; if (chance(0.2)) kind = 1; fail_call = chance(0.15) ? 1 : chance(0.3) ? n[kind] - (long)(u01() * fmin(5, n[kind])) : 1 + (long)(u01() * n[kind]); }
  fail_once = chance(0.4); fail_rc = chance(0.5) ? 1 : -1; if (chance(0.3)) { fail_once = 2; fail_rc = 1; fail_per = irnd(chance(0.3) ? 4 : 20, 300); } adddesc("%s fails at call %ld%s with %d; ", fkn[kind], fail_call, fail_once == 2 ? " and often later" : fail_once ? " only" : " and later", fail_rc); if (fail_once == 2) adddesc("every %ld; ", fail_per);
  if (chance(0.4)) f_again(&c); else { cv_free(&c); if (NL1) SUNNonlinSolFree(NL1); sens_start(); f_new(&c); NL1 = sv.NL; sv.NL = NULL; }
  flag2 = ntr_; memset(&c_, 0, sizeof c_); fail_kind = kind; msgs_ = lastcode = warn_ = 0; fails_ = 0; T = pb.t0; limit = rec_ = 0; ntr_ = MAXTR + 1;
  flag = f_run(&c, plan, &T, pb.t0); made = f_made(); if (n_fail) goto over;
  k = fail_call == 1 || (kind == 7 && fail_call <= sf.ns);
  if (made < fail_call) { if (flag < 0) fail("fault", "returned %d after %ld calls of what fails at call %ld", flag, made, fail_call); EV("faults not reached"); }
  else if (flag >= 0) {
    if (fail_rc < 0 && kind != 8) fail("fault", "%s failed for good and CVode returned %d", fkn[kind], flag);
    else if (kind == 5 || (kind == 8 && !(fail_call <= 2 + 2 * sf.ns && fails_ == 1))) fail("fault", "%s failed and CVode returned %d", fkn[kind], flag);
    else if (!fail_once && kind != 4 && kind != 9 && made > fail_call + 100) fail("fault", "%s kept failing %ld times and CVode returned %d", fkn[kind], made - fail_call, flag);
    else if (ref_ok && !warn_) f_check(&c, T, "after a failure that was overcome");
    EV("failures overcome"); stat_add("failing calls overcome", fails_);
  } else {
    { char b[80]; snprintf(b, sizeof b, "%s returned %d", fkn[kind], flag); EV(b); }
    if (fail_once == 1 && fail_rc > 0 && kind != 5 && kind != 8 && !k && robust() && !sf.maxcor) { if (flag != CV_UNREC_RHSFUNC_ERR && flag != CV_UNREC_QRHSFUNC_ERR && flag != CV_UNREC_SRHSFUNC_ERR && flag != CV_UNREC_QSRHSFUNC_ERR && !((kind == 1 || kind == 6) && (flag == CV_FIRST_SRHSFUNC_ERR || flag == CV_FIRST_QSRHSFUNC_ERR) && T == pb.t0)) fail("fault", "%s failed once, recoverably, and CVode returned %d (%s)", fkn[kind], flag, lastmsg); }
    else if (warn_ == 0 && !(fail_once == 2 && flag == CV_TOO_MUCH_WORK) && !expected(flag, k) && !(k && fail_call > 1 && expected(flag, 0))) fail("fault-flag", "%s failed with %d at call %ld: CVode returned %d (%s)", fkn[kind], fail_rc, fail_call, flag, lastmsg);
    if (!n_fail && lastcode != flag) fail("fault-message", "returned %d, the last message is of %d (%s)", flag, lastcode, lastmsg);
    OK(CVodeGetNumSteps(c.mem, &nst)); OK(CVodeGetCurrentTime(c.mem, &T0));
    if (!n_fail && nst > 0 && kind != 5 && !warn_) {
      if (T != T0) fail("fault-time", "failed at %.17g, the integration is at %.17g", T, T0);
      else if (ref_ok && !warn_) f_check(&c, T, "after a failure");
      memcpy(y_, DP(c.y), sizeof(double) * pb.n);
      if (!n_fail) { int i; OK(CVodeGetDky(c.mem, T, 0, dk_[1])); for (i = 0; i < pb.n && !n_fail; i++) if (DP(dk_[1])[i] != y_[i]) fail("fault-solution", "element %d: returned %.17g, the dense output of that time is %.17g", i, y_[i], DP(dk_[1])[i]); }
      /* go on without the fault: what is returned as solution is one */
      if (!n_fail && chance(0.6) && (pb.t1 - T) * dir_ > 1e-6) { fail_kind = 0; flag = CVode(c.mem, pb.t1, c.y, &T, CV_NORMAL); if (flag == 0 && ref_ok && !warn_) { f_check(&c, T, "after going on"); EV("went on after the failure"); } }
    }
  }
  /* and nothing is left of it */
  if (!n_fail) { fail_kind = 0; memset(&c_, 0, sizeof c_); lastmsg[0] = 0; jts_done = 0; f_again(&c); rec_ = 0; ntr_ = 0; flag = f_run(&c, plan, &T, pb.t0); if (!n_fail && ntr_ != flag2) fail("rerun", "the run after the failure has %d values, the first %d", ntr_, flag2); EV("runs repeated after a failure"); }
  if (!n_fail && cberr_ && !warn_) fail("callback", "a callback was given something wrong (%d)", cberr_);
over:
  fail_kind = fail_once = 0; cv_free(&c); f_clear(1); if (NL1) SUNNonlinSolFree(NL1);
}
