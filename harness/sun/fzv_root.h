/* Rootfinding: functions of t with known zeros, functions of y watched by their signs. */
#define MG 6
#define MR 64
typedef struct { int kind, dir, i, nr, next, zero0; double a, w, r[MR]; int way[MR]; double sign; } GF;
static GF gf_[MG]; static int ng_, g_off; static long g_fail;
static const char *gk[] = { "t - a", "sin w(t - a)", "(t - a)^3", "step at a", "tanh 1e4 (t - a)", "t - t0", "ramp from a", "y_i - a", "y_i y_j - a" };
static double g_one(const GF *g, double t, const double *y) {
  switch (g->kind) {
  case 0: case 5: return g->w * (t - g->a);
  case 1: return sin(g->w * (t - g->a));
  case 2: return g->w * (t - g->a) * (t - g->a) * (t - g->a);
  case 3: return (t - g->a) * g->w < 0 ? -1 : 1;
  case 4: return tanh(1e4 * g->w * (t - g->a));
  case 6: return (t - g->a) * dir_ > 0 ? g->w * (t - g->a) : 0;
  case 7: return y[g->i] - g->a;
  default: return y[g->i] * y[pb.n - 1] - g->a;
  }
}
static int cb_g(realtype t, N_Vector y, realtype *g, void *u) {
  int i; UD(u); c_.g++; seen(t);
  if (g_fail && c_.g >= g_fail) return fail_rc;
  for (i = 0; i < ng_; i++) g[i] = g_off ? 0 : g_one(gf_ + i, t, DP(y));
  return 0;
}
static void mkroots(void) {
  int i, k; double T = fabs(pb.t1 - pb.t0), sep = 1e9;
  ng_ = irnd(1, MG);
  for (i = 0; i < ng_; i++) {
    GF *g = gf_ + i; memset(g, 0, sizeof *g);
    g->kind = irnd(0, 8); g->dir = chance(0.5) ? 0 : irnd(-1, 1); g->w = sgn() * logu(-1, 1); g->a = pb.t0 + (pb.t1 - pb.t0) * unif(0.02, 1.1); g->i = irnd(0, pb.n - 1);
    if (g->kind <= 4 && g->kind != 1) {
      if (i > 0 && gf_[i - 1].kind <= 4 && gf_[i - 1].nr && chance(0.4)) g->a = gf_[i - 1].r[0] + (chance(0.5) ? 0 : sgn() * logu(-14.5, -3));
      g->nr = 1; g->r[0] = g->a; g->way[0] = g->w * dir_ > 0 ? 1 : -1;
      if ((g->a - pb.t0) * dir_ < 0.01 * T || (g->a - pb.t1) * dir_ > 0) { if ((g->a - pb.t0) * dir_ < 0.01 * T) { g->a = pb.t0 + (pb.t1 - pb.t0) * 0.5; g->r[0] = g->a; } }
    }
    if (g->kind == 1) {
      g->w = sgn() * unif(1, 30) / T; sep = fmin(sep, 3.14159 / fabs(g->w));
      k = (int)floor((pb.t0 - g->a) * g->w / M_PI);
      for (k -= 45; ; k++) { double r = g->a + k * M_PI / fabs(g->w) * dir_; if ((r - pb.t0) * dir_ <= 0) { if (fabs(r - pb.t0) < 0.002 * T) g->zero0 = 1; continue; } if ((r - pb.t1) * dir_ > 1.0 * T || g->nr >= MR) break; g->r[g->nr] = r; g->way[g->nr] = (cos(g->w * (r - g->a)) * g->w * dir_ > 0) ? 1 : -1; g->nr++; }
      if (g->nr && fabs(g->r[0] - pb.t0) < 0.01 * T) { g->kind = 5; g->nr = 0; }
      if (g->zero0) { g->kind = 5; g->nr = 0; }
    }
    if (g->kind == 5) g->a = pb.t0;
    if (g->kind == 7) g->a = pb.y0[g->i] * unif(-1, 2) + 0.3 * gauss();
    if (g->kind == 8) g->a = pb.y0[g->i] * pb.y0[pb.n - 1] * unif(-1, 2) + 0.3 * gauss();
    adddesc("g%d %s a %.17g w %.6g dir %d; ", i, gk[g->kind], g->a, g->w, g->dir);
  }
  sep *= 0.45;
  if (sep < 1e8 && !(cf.hmax > 0 && cf.hmax < sep)) cf.hmax = sep;
}
static double prevT_;
static void skip_roots(GF *g) { while (g->next < g->nr && g->dir && g->way[g->next] != g->dir) g->next++; }
/* one integration with roots; 0 when it ended as it should */
static void rootrun(CV *c, int first) {
  int flag, task, i, k, no = irnd(1, 5), rf[MG], guard = 0; realtype T = pb.t0, tout, hu, tn, hc; double tol; long nge, ns0, ns1, reported = 0;
  lim_on = past_ = cberr_ = 0; memset(&c_, 0, sizeof c_); prevT_ = pb.t0; have_prev = 0; ntr_ = 0; rec_ = 1; ref_ok = 0; pnst = 0;
  for (i = 0; i < ng_; i++) { gf_[i].next = 0; gf_[i].sign = 0; skip_roots(gf_ + i); if (gf_[i].kind > 6) gf_[i].sign = g_one(gf_ + i, pb.t0, pb.y0); }
  for (k = 0; k < no && !n_fail && (T - pb.t1) * dir_ < 0; k++) {
    tout = k == no - 1 ? pb.t1 : T + (pb.t1 - T) * unif(0.05, 0.7);
    if (fabs(tout - T) < 1e-3 * fabs(pb.t1 - pb.t0)) continue;
    task = chance(0.5) ? CV_NORMAL : CV_ONE_STEP;
    OK(CVodeGetNumSteps(c->mem, &ns0)); OK(CVodeGetCurrentTime(c->mem, &tn)); if (!ns0) tn = pb.t0;
    if (chance(0.3)) { int j = irnd(0, ng_ - 1); lim_ = tn + (pb.t1 - pb.t0) * unif(0.05, 0.4); if (gf_[j].kind <= 3 && gf_[j].kind != 1 && gf_[j].nr && (gf_[j].r[0] - tn) * dir_ > 1e-3) { lim_ = gf_[j].r[0]; EV("stops at a root"); } lim_on = 1; OK(CVodeSetStopTime(c->mem, lim_)); }
    for (;;) {
      if (++guard > 50000) { fail("roots-endless", "%ld roots reported, at %.17g", reported, T); return; }
      OK(CVodeGetNumSteps(c->mem, &ns0));
      flag = CVode(c->mem, tout, c->y, &T, task);
      OK(CVodeGetNumSteps(c->mem, &ns1));
      if (flag < 0) { EV("gave up"); for (i = 0; i < ng_; i++) if (gf_[i].kind >= 7 && strstr(lastmsg, "very near")) { EV("functions of y too flat to place a root"); return; } if (robust()) fail("gave-up", "returned %d at %.17g (%s)", flag, T, lastmsg); return; }
      OK(CVodeGetLastStep(c->mem, &hu)); OK(CVodeGetCurrentTime(c->mem, &tn)); OK(CVodeGetCurrentStep(c->mem, &hc));
      tol = 120 * EPS * (fabs(tn) + fmax(fabs(hu), fabs(hc))) + 4 * EPS * fabs(T);
      if ((T - prevT_) * dir_ < 0) { fail("root-order", "returned at %.17g after %.17g", T, prevT_); return; }
      if (task == CV_NORMAL && (T - tout) * dir_ > 0) { fail("root-beyond", "returned at %.17g, asked for %.17g", T, tout); return; }
      for (i = 0; i < ng_; i++) rf[i] = 0;
      if (flag == CV_ROOT_RETURN) {
        int any = 0;
        OK(CVodeGetRootInfo(c->mem, rf));
        for (i = 0; i < ng_; i++) {
          GF *g = gf_ + i; double v = g_one(g, T, DP(c->y));
          if (!rf[i]) continue;
          any = 1; reported++;
          if (rf[i] != 1 && rf[i] != -1) { fail("root-info", "function %d: %d", i, rf[i]); return; }
          if (g->dir && rf[i] != g->dir) { fail("root-direction", "function %d: a root of direction %d reported at %.17g, only %d asked for", i, rf[i], T, g->dir); return; }
          if (g->kind <= 6) {
            if (g->next >= g->nr || fabs(g->r[g->next] - T) > tol || (g->r[g->next] - T) * dir_ > 4 * EPS * (fabs(T) + fabs(g->a)) + (g->kind == 1 ? 1e-14 * (fabs(T) + fabs(g->a)) : 0)) { fail("root-place", "function %d: root %d reported at %.17g, the next one is at %.17g (%d of %d, tolerance %.2g)", i, rf[i], T, g->next < g->nr ? g->r[g->next] : NAN, g->next, g->nr, tol); return; }
            if (rf[i] != g->way[g->next]) { fail("root-info", "function %d: direction %d reported for the root at %.17g, it is %d", i, rf[i], g->r[g->next], g->way[g->next]); return; }
            g->next++; skip_roots(g); EV(gk[g->kind]);
          } else {
            double lo; N_Vector e = dk_[13];
            if (v * rf[i] < 0) { fail("root-sign", "function %d: root of direction %d at %.17g, its value there is %.17g", i, rf[i], T, v); return; }
            if (!CVodeGetDky(c->mem, T - 2 * tol * dir_, 0, e)) { lo = g_one(g, T - 2 * tol * dir_, DP(e)); if (lo * rf[i] > 1e-12 * (1 + fabs(g->a) + fabs(lo + g->a))) { fail("root-sign", "function %d: root of direction %d at %.17g, its value %.3g before is %.17g", i, rf[i], T, 2 * tol, lo); return; } }
            if (g->sign * rf[i] > 0 && (!g->dir || task == CV_ONE_STEP)) { fail("root-sign", "function %d: root of direction %d at %.17g, its last value was %.17g", i, rf[i], T, g->sign); return; }
            EV(gk[g->kind]);
          }
        }
        if (!any) { fail("root-info", "a root at %.17g and no function has one", T); return; }
      }
      for (i = 0; i < ng_; i++) {        /* nothing missed */
        GF *g = gf_ + i;
        if (g->kind <= 6) { if (g->next < g->nr && (T - g->r[g->next]) * dir_ > tol + 1e-14 * fabs(g->a)) { fail("root-missed", "function %d: root at %.17g not reported up to %.17g (%s)", i, g->r[g->next], T, flag == CV_ROOT_RETURN ? "another root" : flag == CV_TSTOP_RETURN ? "stop" : task == CV_NORMAL ? "output" : "step"); return; } }
        else {
          double v = g_one(g, T, DP(c->y));
          if (!rf[i] && v * g->sign < 0 && (!g->dir || g->dir * v > 0)) { fail("root-missed", "function %d: %.17g at %.17g, %.17g at %.17g, and no root reported", i, g->sign, prevT_, v, T); return; }
          g->sign = v; EV("signs compared");
        }
      }
      have_prev = 0;
      looks(c, T, flag == CV_ROOT_RETURN ? CV_NORMAL : task, flag == CV_ROOT_RETURN ? CV_SUCCESS : flag, 0); if (n_fail) return;
      if (flag == CV_TSTOP_RETURN) { if (T != lim_) { fail("stop", "stop reported at %.17g, set to %.17g", T, lim_); return; } lim_on = 0; EV("stops reached"); }
      else if (flag == CV_SUCCESS) {
        if (task == CV_NORMAL && T != tout) { fail("output-time", "asked for %.17g, returned at %.17g", tout, T); return; }
        if (task == CV_ONE_STEP && T != tn) { fail("one-step", "returned at %.17g, current %.17g", T, tn); return; }
      }
      if (flag == CV_ROOT_RETURN) EV("root returns");
      prevT_ = T;
      if (flag == CV_SUCCESS && (task == CV_NORMAL || (T - tout) * dir_ >= 0)) break;
    }
    OK(CVodeGetNumGEvals(c->mem, &nge));
    if (nge != c_.g) { fail("count-g", "%ld calls of the root functions counted, %ld made", nge, c_.g); return; }
  }
  sigmix(reported); (void)first;
}
static void roots(void) {
  CV c; int k, back = chance(0.3), dirs[MG];
  adddesc(""); problem(0, back); config(0); cf.constr = 0;
  dir_ = pb.t1 < pb.t0 ? -1 : 1;
  if (cf.rtol < 1e-7) { cf.rtol = 1e-7; cf.atol = 1e-8; }
  sigmix(pb.fam * 16 + pb.n); sigmix(cf.lmm * 1000 + cf.nls * 100 + cf.ls * 10); sigd(cf.rtol); sigd(pb.p[0]);
  mkroots();
  fail_kind = 0; g_fail = 0; g_off = 0; lastmsg[0] = 0; base_ = 0;
  cv_new(&c); if (n_fail) return;
  for (k = 0; k < 14; k++) dk_[k] = N_VClone(c.y);
  OK(CVodeRootInit(c.mem, ng_, cb_g));
  for (k = 0; k < ng_; k++) dirs[k] = gf_[k].dir;
  OK(CVodeSetRootDirection(c.mem, dirs)); OK(CVodeSetNoInactiveRootWarn(c.mem));
  if (chance(0.2)) {       /* the functions are zero for a while first */
    realtype T; g_off = 1; lim_on = 0; past_ = 0; k = CVode(c.mem, pb.t0 + 0.1 * (pb.t1 - pb.t0), c.y, &T, CV_NORMAL);
    if (k != CV_SUCCESS && robust()) { fail("roots-off", "functions that are zero throughout: returned %d at %.17g", k, T); goto end; }
    g_off = 0; memcpy(DP(c.y), pb.y0, pb.n * sizeof(double)); OK(CVodeReInit(c.mem, pb.t0, c.y)); EV("after functions that are zero throughout");
  }
  rootrun(&c, 1);
  if (!n_fail && chance(0.4)) {
    memcpy(DP(c.y), pb.y0, pb.n * sizeof(double));
    OK(CVodeReInit(c.mem, pb.t0, c.y)); OK(CVodeSetStopTime(c.mem, pb.t1 + 1e6 * dir_));
    if (chance(0.5)) { memset(gf_, 0, sizeof gf_); mkroots(); if (cf.hmax > 0) OK(CVodeSetMaxStep(c.mem, cf.hmax)); OK(CVodeRootInit(c.mem, ng_, cb_g)); for (k = 0; k < ng_; k++) dirs[k] = gf_[k].dir; OK(CVodeSetRootDirection(c.mem, dirs)); EV("new root functions"); }
    else EV("reinitialised with roots");
    rootrun(&c, 0);
  }
end:
  for (k = 0; k < 14; k++) N_VDestroy(dk_[k]);
  cv_free(&c);
}
