/* Monitor of the vector operations: a pool of vectors of one kind, random operations with random aliasing, a shadow
   of every element.  Elementwise results against extended precision with the rounding bound of the plain formula,
   everything not written unchanged bit for bit, reductions against extended precision. */
#include "fzv_sun.h"
#include <nvector/nvector_pthreads.h>
#include <nvector/nvector_manyvector.h>
#include <sundials/sundials_nvector_senswrapper.h>
#define NP 10
#define MAXL 4200
static N_Vector P[NP];            /* the pool */
static int L, nsub;               /* length; subvectors of a sensitivity wrapper */
static double *E[NP][MAXL];       /* where the elements are */
static double S[NP][MAXL];        /* shadow */
static int kind;

static void flat(N_Vector v, double **e, int *n) {
  N_Vector_ID id; long i; double *d;
  if (v->ops->nvgetvectorid == NULL) {                  /* sensitivity wrapper */
    for (i = 0; i < NV_NVECS_SW(v); i++) flat(NV_VEC_SW(v, i), e, n);
    return;
  }
  id = N_VGetVectorID(v);
  if (id == SUNDIALS_NVEC_MANYVECTOR) {
    for (i = 0; i < N_VGetNumSubvectors_ManyVector(v); i++) flat(N_VGetSubvector_ManyVector(v, i), e, n);
    return;
  }
  d = N_VGetArrayPointer(v);
  for (i = 0; i < N_VGetLength(v); i++) e[(*n)++] = d + i;
}
static void fuse_simple(N_Vector v, int k) {
  /* which of the fused operations are on */
  int all = irnd(0, 3);
  if (k == 0) {
    if (all == 0) N_VEnableFusedOps_Serial(v, SUNTRUE);
    if (all == 1) {
      N_VEnableLinearCombination_Serial(v, irnd(0, 1)); N_VEnableScaleAddMulti_Serial(v, irnd(0, 1)); N_VEnableDotProdMulti_Serial(v, irnd(0, 1));
      N_VEnableLinearSumVectorArray_Serial(v, irnd(0, 1)); N_VEnableScaleVectorArray_Serial(v, irnd(0, 1)); N_VEnableConstVectorArray_Serial(v, irnd(0, 1));
      N_VEnableWrmsNormVectorArray_Serial(v, irnd(0, 1)); N_VEnableWrmsNormMaskVectorArray_Serial(v, irnd(0, 1));
      N_VEnableScaleAddMultiVectorArray_Serial(v, irnd(0, 1)); N_VEnableLinearCombinationVectorArray_Serial(v, irnd(0, 1));
    }
  } else {
    if (all == 0) N_VEnableFusedOps_Pthreads(v, SUNTRUE);
    if (all == 1) {
      N_VEnableLinearCombination_Pthreads(v, irnd(0, 1)); N_VEnableScaleAddMulti_Pthreads(v, irnd(0, 1)); N_VEnableDotProdMulti_Pthreads(v, irnd(0, 1));
      N_VEnableLinearSumVectorArray_Pthreads(v, irnd(0, 1)); N_VEnableScaleVectorArray_Pthreads(v, irnd(0, 1)); N_VEnableConstVectorArray_Pthreads(v, irnd(0, 1));
      N_VEnableWrmsNormVectorArray_Pthreads(v, irnd(0, 1)); N_VEnableWrmsNormMaskVectorArray_Pthreads(v, irnd(0, 1));
      N_VEnableScaleAddMultiVectorArray_Pthreads(v, irnd(0, 1)); N_VEnableLinearCombinationVectorArray_Pthreads(v, irnd(0, 1));
    }
  }
}
static N_Vector simple(int len, int k) {
  N_Vector v;
  if (k == 0) v = N_VNew_Serial(len, sunctx_);
  else { int t = irnd(1, 8); v = N_VNew_Pthreads(len, t, sunctx_); adddesc(" %d threads", t); }
  fuse_simple(v, k);
  return v;
}
static N_Vector own_[64]; static int nown;
static N_Vector make(int arg) {
  int i, n; N_Vector v, sub[8];
  kind = arg;
  if (kind == 3 && chance(0.5)) kind = 4;
  n = chance(0.2) ? irnd(1, 9) : irnd(1, 120);
  if (chance(0.08)) n = irnd(300, 1000);
  nown = 0; nsub = 1;
  switch (kind) {
  case 0: adddesc("serial"); v = simple(n, 0); break;
  case 1: adddesc("pthreads"); v = simple(n, 1); break;
  case 2:                                        /* many vectors, also of many vectors */
    adddesc("manyvector");
    nsub = irnd(1, 5);
    for (i = 0; i < nsub; i++) {
      if (chance(0.2)) {
        N_Vector s2[3]; int j, m = irnd(1, 3);
        for (j = 0; j < m; j++) { s2[j] = simple(irnd(1, 40), irnd(0, 1)); own_[nown++] = s2[j]; }
        sub[i] = N_VNew_ManyVector(m, s2, sunctx_);
      } else sub[i] = simple(irnd(1, 60), irnd(0, 1));
    }
    v = N_VNew_ManyVector(nsub, sub, sunctx_);
    for (i = 0; i < nsub; i++) own_[nown++] = sub[i];
    i = irnd(0, 2);
    if (i == 0) N_VEnableFusedOps_ManyVector(v, SUNTRUE);
    if (i == 1) {
      N_VEnableLinearCombination_ManyVector(v, irnd(0, 1)); N_VEnableScaleAddMulti_ManyVector(v, irnd(0, 1)); N_VEnableDotProdMulti_ManyVector(v, irnd(0, 1));
      N_VEnableWrmsNormVectorArray_ManyVector(v, irnd(0, 1)); N_VEnableWrmsNormMaskVectorArray_ManyVector(v, irnd(0, 1));
    }
    break;
  default:                                       /* vectors as one */
    adddesc("wrapper");
    nsub = irnd(1, 5);
    { N_Vector w = simple(irnd(1, 60), kind - 3);
      v = N_VNew_SensWrapper(nsub, w); own_[nown++] = w; }
  }
  return v;
}
static double val(void) {
  switch (irnd(0, 11)) {
  case 0: return 0.;
  case 1: return sgn();
  case 2: return sgn() * 0.5;
  case 3: return sgn() * logu(-8, 8);
  case 4: return -0.;
  default: return sgn() * unif(0.01, 3.);
  }
}
static double coef(void) {
  switch (irnd(0, 7)) {
  case 0: return 1.; case 1: return -1.; case 2: return 0.; case 3: return sgn() * logu(-3, 3);
  default: return sgn() * unif(0.1, 3.);
  }
}
static void fill(int p, double (*f)(void)) { int i; for (i = 0; i < L; i++) S[p][i] = *E[p][i] = f(); }
static double nz(void) { double x; do x = val(); while (x == 0.); return x; }
static double posw(void) { return logu(-2, 2); }
static double idv(void) { return (double[]){0., 1., 2., -1., 0.5}[irnd(0, 4)]; }
static double consv(void) { return (double)irnd(-2, 2); }
/* all but the written ones as before, then take the written ones over */
static void unchanged(const char *op, unsigned wr) {
  int p, i;
  for (p = 0; p < NP; p++) {
    if (wr >> p & 1) { for (i = 0; i < L; i++) { S[p][i] = *E[p][i]; sigd(S[p][i]); } continue; }
    for (i = 0; i < L; i++) if (!same(S[p][i], *E[p][i])) { fail("vec:other", "%s changed element %d of a vector it does not write: %.17g to %.17g", op, i, S[p][i], *E[p][i]); return; }
  }
}
static void chk(const char *op, int p, int i, LD want, LD scale, double k) {
  double g = *E[p][i];
  if ((double)want == g) return;
  if (!within("elem", fabsl((LD)g - want), k * EPS * scale + 1e-320L)) fail("vec:value", "%s: element %d of %d is %.17g, not %.17Lg", op, i, L, g, want);
}
static void red(const char *op, double got, LD want, LD scale) {
  sigd(got);
  if ((double)want == got) return;
  if (!within("red", fabsl((LD)got - want), (L + 8.L) * EPS * scale + 1e-320L)) fail("vec:reduction", "%s is %.17g, not %.17Lg (length %d)", op, got, want, L);
}
/* reductions over parts: a plain vector is one part */
typedef LD (*rf)(int p, int q, int r, int a, int b);
static LD r_wsum(int p, int w, int id, int a, int b) { LD s = 0; int i; for (i = a; i < b; i++) if (id < 0 || S[id][i] > 0) s += ((LD)S[p][i] * S[w][i]) * ((LD)S[p][i] * S[w][i]); return s; }
static LD r_wrms(int p, int w, int id, int a, int b) { return sqrtl(r_wsum(p, w, id, a, b) / (b - a)); }
static LD r_wl2(int p, int w, int id, int a, int b) { return sqrtl(r_wsum(p, w, -1, a, b)); }
static LD r_l1(int p, int q, int r, int a, int b) { LD s = 0; int i; for (i = a; i < b; i++) s += fabsl(S[p][i]); return s; }
static LD overparts(rf f, int p, int q, int r) {
  LD m, t; int i, n = L / nsub;
  if (kind < 3) return f(p, q, r, 0, L);
  m = f(p, q, r, 0, n);
  for (i = 1; i < nsub; i++) { t = f(p, q, r, i * n, (i + 1) * n); if (t > m) m = t; }
  return m;
}
static int other(int p) { int q; do q = irnd(0, NP - 1); while (q == p); return q; }
static void pick(int *ix, int n) {         /* n different ones */
  int i, j, k;
  for (i = 0; i < n; i++) do { k = irnd(0, NP - 1); for (j = 0; j < i && ix[j] != k; j++); ix[i] = k; } while (j < i);
}

static void step(void) {
  int x = irnd(0, NP - 1), y = irnd(0, NP - 1), z, i, j, k, op, n, m, rc;
  double a = coef(), b = coef(), c[12], d[12];
  int X[12], Y[12], Z[12], ix[NP]; unsigned wr;
  N_Vector VX[12], VY[12], VZ[12], *XX[12], *YY[12], *ZZ[12];
  LD t;
  z = irnd(0, 3) == 0 ? x : irnd(0, 2) == 0 ? y : irnd(0, NP - 1);
  if (chance(0.15)) b = a;
  if (chance(0.1)) b = -a;
  op = irnd(0, 38);
  if (kind >= 3 && (op == 17 || op >= 29)) op = irnd(0, 16);      /* what a wrapper offers */
  sigmix(op); sigmix(x * 100 + y * 10 + z);
  switch (op) {
  case 0: case 1:
    N_VLinearSum(a, P[x], b, P[y], P[z]); EV("linearsum");
    for (i = 0; i < L; i++) chk("LinearSum", z, i, (LD)a * S[x][i] + (LD)b * S[y][i], fabsl((LD)a * S[x][i]) + fabsl((LD)b * S[y][i]), 2);
    unchanged("LinearSum", 1u << z); break;
  case 2:
    N_VConst(a, P[z]); EV("const");
    for (i = 0; i < L; i++) chk("Const", z, i, a, 0, 0);
    unchanged("Const", 1u << z); break;
  case 3:
    N_VProd(P[x], P[y], P[z]); EV("prod");
    for (i = 0; i < L; i++) chk("Prod", z, i, (LD)S[x][i] * S[y][i], fabsl((LD)S[x][i] * S[y][i]), 1);
    unchanged("Prod", 1u << z); break;
  case 4:
    y = other(x); if (z == y && chance(0.5)) z = x;
    fill(y, nz);
    N_VDiv(P[x], P[y], P[z]); EV("div");
    for (i = 0; i < L; i++) chk("Div", z, i, (LD)S[x][i] / S[y][i], fabsl((LD)S[x][i] / S[y][i]), 1);
    unchanged("Div", 1u << z); break;
  case 5:
    N_VScale(a, P[x], P[z]); EV("scale");
    for (i = 0; i < L; i++) chk("Scale", z, i, (LD)a * S[x][i], fabsl((LD)a * S[x][i]), 1);
    unchanged("Scale", 1u << z); break;
  case 6:
    N_VAbs(P[x], P[z]); EV("abs");
    for (i = 0; i < L; i++) chk("Abs", z, i, fabs(S[x][i]), 0, 0);
    unchanged("Abs", 1u << z); break;
  case 7:
    fill(x, nz);
    N_VInv(P[x], P[z]); EV("inv");
    for (i = 0; i < L; i++) chk("Inv", z, i, 1.L / S[x][i], fabsl(1.L / S[x][i]), 1);
    unchanged("Inv", 1u << z); break;
  case 8:
    N_VAddConst(P[x], a, P[z]); EV("addconst");
    for (i = 0; i < L; i++) chk("AddConst", z, i, (LD)S[x][i] + a, fabsl((LD)S[x][i] + a), 1);
    unchanged("AddConst", 1u << z); break;
  case 9: {
    LD s = 0, q = 0; double g = N_VDotProd(P[x], P[y]); EV("dotprod");
    for (i = 0; i < L; i++) { t = (LD)S[x][i] * S[y][i]; s += t; q += fabsl(t); }
    red("DotProd", g, s, q); unchanged("DotProd", 0);
    if (kind < 3) { double g2 = N_VDotProdLocal(P[x], P[y]); red("DotProdLocal", g2, s, q); }
    break; }
  case 10: {
    double g = N_VMaxNorm(P[x]), w = 0; EV("maxnorm");
    for (i = 0; i < L; i++) w = fmax(w, fabs(S[x][i]));
    red("MaxNorm", g, w, 0);
    if (kind < 3) red("MaxNormLocal", N_VMaxNormLocal(P[x]), w, 0);
    unchanged("MaxNorm", 0); break; }
  case 11: {
    double g; fill(y = other(x), posw);
    g = N_VWrmsNorm(P[x], P[y]); EV("wrmsnorm");
    t = overparts(r_wrms, x, y, -1); red("WrmsNorm", g, t, t);
    if (kind < 3) { t = overparts(r_wsum, x, y, -1); red("WSqrSumLocal", N_VWSqrSumLocal(P[x], P[y]), t, t); }
    unchanged("WrmsNorm", 0); break; }
  case 12: {
    double g; pick(ix, 3); x = ix[0]; y = ix[1]; z = ix[2];
    fill(y, posw); fill(z, idv);
    g = N_VWrmsNormMask(P[x], P[y], P[z]); EV("wrmsnormmask");
    t = overparts(r_wrms, x, y, z); red("WrmsNormMask", g, t, t);
    if (kind < 3) { t = overparts(r_wsum, x, y, z); red("WSqrSumMaskLocal", N_VWSqrSumMaskLocal(P[x], P[y], P[z]), t, t); }
    unchanged("WrmsNormMask", 0); break; }
  case 13: {
    double g, w; if (chance(0.5)) fill(x, chance(0.5) ? posw : nz);
    g = N_VMin(P[x]); EV("min");
    for (w = S[x][0], i = 0; i < L; i++) if (S[x][i] < w) w = S[x][i];
    red("Min", g, w, 0);
    if (kind < 3) red("MinLocal", N_VMinLocal(P[x]), w, 0);
    unchanged("Min", 0); break; }
  case 14: {
    double g; fill(y = other(x), posw);
    g = N_VWL2Norm(P[x], P[y]); EV("wl2norm");
    t = overparts(r_wl2, x, y, -1); red("WL2Norm", g, t, t);
    unchanged("WL2Norm", 0); break; }
  case 15: {
    double g = N_VL1Norm(P[x]); EV("l1norm");
    t = overparts(r_l1, x, 0, 0); red("L1Norm", g, t, t);
    if (kind < 3) red("L1NormLocal", N_VL1NormLocal(P[x]), t, t);
    unchanged("L1Norm", 0); break; }
  case 16: {
    double cc = chance(0.3) ? fabs(S[x][irnd(0, L - 1)]) : fabs(val());
    N_VCompare(cc, P[x], P[z]); EV("compare");
    for (i = 0; i < L; i++) chk("Compare", z, i, fabs(S[x][i]) >= cc ? 1 : 0, 0, 0);
    unchanged("Compare", 1u << z); break; }
  case 17: {                             /* constraints */
    int g, ok = 1; pick(ix, 3); x = ix[0]; y = ix[1]; z = ix[2];
    fill(y, consv); if (chance(0.5)) for (i = 0; i < L; i++) *E[x][i] = S[x][i] = chance(0.02) ? val() : S[y][i] < 0 ? -posw() : posw();
    g = chance(0.5) ? N_VConstrMask(P[y], P[x], P[z]) : N_VConstrMaskLocal(P[y], P[x], P[z]); EV("constrmask");
    for (i = 0; i < L; i++) {
      double cv = S[y][i], xv = S[x][i]; int bad = (cv == 2 && !(xv > 0)) || (cv == 1 && !(xv >= 0)) || (cv == -1 && !(xv <= 0)) || (cv == -2 && !(xv < 0));
      if (bad) ok = 0;
      chk("ConstrMask", z, i, bad, 0, 0);
    }
    if (g != ok) fail("vec:flag", "ConstrMask says %d, not %d", g, ok);
    unchanged("ConstrMask", 1u << z); break; }
  case 18: {                             /* inverse where not zero */
    int g, ok = 1; if (chance(0.5)) { fill(x, nz); if (chance(0.5)) { i = irnd(0, L - 1); *E[x][i] = S[x][i] = 0; } }
    g = kind < 3 && chance(0.3) ? N_VInvTestLocal(P[x], P[z]) : N_VInvTest(P[x], P[z]); EV("invtest");
    for (i = 0; i < L; i++) { if (S[x][i] == 0) { ok = 0; continue; } chk("InvTest", z, i, 1.L / S[x][i], fabsl(1.L / S[x][i]), 1); }
    if (g != ok) fail("vec:flag", "InvTest says %d, not %d", g, ok);
    unchanged("InvTest", 1u << z); break; }
  case 19: {
    double g; LD w = DBL_MAX; fill(y = other(x), chance(0.1) ? idv : val);
    if (chance(0.05)) { for (i = 0; i < L; i++) *E[y][i] = S[y][i] = 0; }
    g = kind < 3 && chance(0.3) ? N_VMinQuotientLocal(P[x], P[y]) : N_VMinQuotient(P[x], P[y]); EV("minquotient");
    for (i = 0; i < L; i++) if (S[y][i] != 0 && (LD)S[x][i] / S[y][i] < w) w = (LD)S[x][i] / S[y][i];
    red("MinQuotient", g, w, fabsl(w) / (L + 8)); unchanged("MinQuotient", 0); break; }
  /* ------------------------------------------------ several vectors at once */
  case 20: case 29: case 30:
    n = irnd(1, NP - 1); pick(ix, n);
    z = chance(0.4) ? ix[0] : irnd(0, NP - 1);
    for (i = 1; i < n; i++) if (ix[i] == z) ix[i] = ix[0] == z ? (z + 1) % NP : ix[0];      /* only the first may be the result */
    for (i = 0; i < n; i++) { c[i] = coef(); VX[i] = P[ix[i]]; }
    if (chance(0.2)) c[0] = 1;
    rc = N_VLinearCombination(n, c, VX, P[z]); EV("linearcombination");
    if (rc) fail("vec:status", "LinearCombination returns %d", rc);
    for (i = 0; i < L; i++) { LD s = 0, q = 0; for (j = 0; j < n; j++) { t = (LD)c[j] * S[ix[j]][i]; s += t; q += fabsl(t); } chk("LinearCombination", z, i, s, q, n + 1); }
    unchanged("LinearCombination", 1u << z); break;
  case 21: case 31:
    n = irnd(1, 4); pick(ix, 2 * n + 1); x = ix[2 * n]; j = chance(0.4);
    for (i = 0; i < n; i++) { Y[i] = ix[i]; Z[i] = j ? ix[i] : ix[n + i]; VY[i] = P[Y[i]]; VZ[i] = P[Z[i]]; c[i] = coef(); }
    rc = N_VScaleAddMulti(n, c, P[x], VY, j ? VY : VZ); EV("scaleaddmulti");
    if (rc) fail("vec:status", "ScaleAddMulti returns %d", rc);
    for (wr = 0, k = 0; k < n; k++) {
      for (i = 0; i < L; i++) chk("ScaleAddMulti", Z[k], i, (LD)c[k] * S[x][i] + S[Y[k]][i], fabsl((LD)c[k] * S[x][i]) + fabsl((LD)S[Y[k]][i]), 2);
      wr |= 1u << Z[k];
    }
    unchanged("ScaleAddMulti", wr); break;
  case 22: case 32:
    n = irnd(1, NP); pick(ix, n);
    for (i = 0; i < n; i++) VY[i] = P[ix[i]];
    rc = kind < 3 && chance(0.3) ? N_VDotProdMultiLocal(n, P[x], VY, c) : N_VDotProdMulti(n, P[x], VY, c); EV("dotprodmulti");
    if (rc) fail("vec:status", "DotProdMulti returns %d", rc);
    for (k = 0; k < n; k++) { LD s = 0, q = 0; for (i = 0; i < L; i++) { t = (LD)S[x][i] * S[ix[k]][i]; s += t; q += fabsl(t); } red("DotProdMulti", c[k], s, q); }
    unchanged("DotProdMulti", 0); break;
  case 23: case 33:
    n = irnd(1, 3); pick(ix, 3 * n); m = irnd(0, 3);
    for (i = 0; i < n; i++) { X[i] = ix[i]; Y[i] = ix[n + i]; Z[i] = m == 0 ? X[i] : m == 1 ? Y[i] : ix[2 * n + i]; VX[i] = P[X[i]]; VY[i] = P[Y[i]]; VZ[i] = P[Z[i]]; }
    rc = N_VLinearSumVectorArray(n, a, VX, b, VY, m == 0 ? VX : m == 1 ? VY : VZ); EV("linearsumvectorarray");
    if (rc) fail("vec:status", "LinearSumVectorArray returns %d", rc);
    for (wr = 0, k = 0; k < n; k++) {
      for (i = 0; i < L; i++) chk("LinearSumVectorArray", Z[k], i, (LD)a * S[X[k]][i] + (LD)b * S[Y[k]][i], fabsl((LD)a * S[X[k]][i]) + fabsl((LD)b * S[Y[k]][i]), 2);
      wr |= 1u << Z[k];
    }
    unchanged("LinearSumVectorArray", wr); break;
  case 24: case 34:
    n = irnd(1, 5); pick(ix, 2 * n); m = irnd(0, 2);
    for (i = 0; i < n; i++) { X[i] = ix[i]; Z[i] = m == 0 ? X[i] : ix[n + i]; VX[i] = P[X[i]]; VZ[i] = P[Z[i]]; c[i] = coef(); }
    rc = N_VScaleVectorArray(n, c, VX, m == 0 ? VX : VZ); EV("scalevectorarray");
    if (rc) fail("vec:status", "ScaleVectorArray returns %d", rc);
    for (wr = 0, k = 0; k < n; k++) {
      for (i = 0; i < L; i++) chk("ScaleVectorArray", Z[k], i, (LD)c[k] * S[X[k]][i], fabsl((LD)c[k] * S[X[k]][i]), 1);
      wr |= 1u << Z[k];
    }
    unchanged("ScaleVectorArray", wr); break;
  case 25: case 35:
    n = irnd(1, NP); pick(ix, n);
    for (i = 0; i < n; i++) VZ[i] = P[ix[i]];
    rc = N_VConstVectorArray(n, a, VZ); EV("constvectorarray");
    if (rc) fail("vec:status", "ConstVectorArray returns %d", rc);
    for (wr = 0, k = 0; k < n; k++) { for (i = 0; i < L; i++) chk("ConstVectorArray", ix[k], i, a, 0, 0); wr |= 1u << ix[k]; }
    unchanged("ConstVectorArray", wr);
    for (k = 0; k < n; k++) fill(ix[k], val);
    break;
  case 26: case 36:
    n = irnd(1, 4); pick(ix, 2 * n + 1); m = chance(0.5);
    if (m) fill(ix[2 * n], idv);
    for (i = 0; i < n; i++) { VX[i] = P[ix[i]]; VY[i] = P[ix[n + i]]; fill(ix[n + i], posw); }
    rc = m ? N_VWrmsNormMaskVectorArray(n, VX, VY, P[ix[2 * n]], c) : N_VWrmsNormVectorArray(n, VX, VY, c); EV(m ? "wrmsnormmaskvectorarray" : "wrmsnormvectorarray");
    if (rc) fail("vec:status", "WrmsNorm(Mask)VectorArray returns %d", rc);
    for (k = 0; k < n; k++) { t = overparts(r_wrms, ix[k], ix[n + k], m ? ix[2 * n] : -1); red(m ? "WrmsNormMaskVectorArray" : "WrmsNormVectorArray", c[k], t, t); }
    unchanged("WrmsNorm(Mask)VectorArray", 0); break;
  case 27: case 37: {               /* n vectors, m sums: X[i], Y[j][i], Z[j][i] */
    static N_Vector ay[4][4], az[4][4]; int iy[4][4], iz[4][4]; int al = chance(0.4), cnt;
    n = irnd(1, 3); m = irnd(1, 3);
    if (n * m * (al ? 1 : 2) + n > NP) { if (n > m) n = 1; else m = 1; }
    cnt = n + n * m * (al ? 1 : 2);
    if (cnt > NP) { al = 1; cnt = n + n * m; }
    pick(ix, cnt); k = 0;
    for (i = 0; i < n; i++) { X[i] = ix[k++]; VX[i] = P[X[i]]; }
    for (j = 0; j < m; j++) { for (i = 0; i < n; i++) { iy[j][i] = ix[k++]; ay[j][i] = P[iy[j][i]]; } YY[j] = ay[j]; }
    for (j = 0; j < m; j++) { for (i = 0; i < n; i++) { iz[j][i] = al ? iy[j][i] : ix[k++]; az[j][i] = P[iz[j][i]]; } ZZ[j] = az[j]; c[j] = coef(); }
    rc = N_VScaleAddMultiVectorArray(n, m, c, VX, YY, al ? YY : ZZ); EV("scaleaddmultivectorarray");
    if (rc) fail("vec:status", "ScaleAddMultiVectorArray returns %d", rc);
    for (wr = 0, j = 0; j < m; j++) for (k = 0; k < n; k++) {
      for (i = 0; i < L; i++) chk("ScaleAddMultiVectorArray", iz[j][k], i, (LD)c[j] * S[X[k]][i] + S[iy[j][k]][i], fabsl((LD)c[j] * S[X[k]][i]) + fabsl((LD)S[iy[j][k]][i]), 2);
      wr |= 1u << iz[j][k];
    }
    unchanged("ScaleAddMultiVectorArray", wr); break; }
  case 28: case 38: {               /* Z[i] = sum_j c_j X[j][i] */
    static N_Vector ax[4][4]; int jx[4][4]; int al = chance(0.4);
    n = irnd(1, 3); m = irnd(1, 3); if (n * m + n > NP) n = 2;
    pick(ix, n * m + n); k = 0;
    for (j = 0; j < m; j++) { for (i = 0; i < n; i++) { jx[j][i] = ix[k++]; ax[j][i] = P[jx[j][i]]; } XX[j] = ax[j]; c[j] = coef(); }
    for (i = 0; i < n; i++) { Z[i] = al ? jx[0][i] : ix[k++]; VZ[i] = P[Z[i]]; }
    if (chance(0.2)) c[0] = 1;
    rc = N_VLinearCombinationVectorArray(n, m, c, XX, al ? XX[0] : VZ); EV("linearcombinationvectorarray");
    if (rc) fail("vec:status", "LinearCombinationVectorArray returns %d", rc);
    for (wr = 0, k = 0; k < n; k++) {
      for (i = 0; i < L; i++) { LD s = 0, q = 0; for (j = 0; j < m; j++) { t = (LD)c[j] * S[jx[j][k]][i]; s += t; q += fabsl(t); } chk("LinearCombinationVectorArray", Z[k], i, s, q, m + 1); }
      wr |= 1u << Z[k];
    }
    unchanged("LinearCombinationVectorArray", wr); break; }
  }
  (void)d; (void)YY; (void)ZZ;
  /* values stay in a range where the bounds hold */
  for (k = 0; k < NP; k++) for (i = 0; i < L; i++) if (!(fabs(S[k][i]) < 1e12) || (S[k][i] != 0 && fabs(S[k][i]) < 1e-12)) *E[k][i] = S[k][i] = val();
}

/* what the vector is apart from its operations */
static void structure(N_Vector t) {
  sunindextype lr = -1, li = -1, bs = -1; int n, i; double *buf; static double *e[MAXL];
  if (kind < 3) {
    if (N_VGetLength(t) != L) fail("vec:length", "length is %ld, not %d", (long)N_VGetLength(t), L);
    if (N_VGetVectorID(t) != (kind == 0 ? SUNDIALS_NVEC_SERIAL : kind == 1 ? SUNDIALS_NVEC_PTHREADS : SUNDIALS_NVEC_MANYVECTOR)) fail("vec:id", "kind is wrong");
    N_VSpace(t, &lr, &li);
    if (lr != L) fail("vec:space", "space is %ld reals for %d elements", (long)lr, L);
    if (kind < 2) {
      N_Vector w = N_VCloneEmpty(t); static double own[MAXL];
      if (N_VGetArrayPointer(w) != NULL) fail("vec:empty", "an empty clone has data");
      for (i = 0; i < L; i++) own[i] = i + 0.5;
      N_VSetArrayPointer(own, w);
      if (N_VGetArrayPointer(w) != own) fail("vec:pointer", "the data pointer is not the one set");
      N_VScale(2., w, w);
      N_VDestroy(w);
      for (i = 0; i < L; i++) if (own[i] != 2. * i + 1.) { fail("vec:own", "data of the user is %.17g after scaling", own[i]); break; }
      w = kind == 0 ? N_VMake_Serial(L, own, sunctx_) : N_VMake_Pthreads(L, irnd(1, 5), own, sunctx_);
      N_VConst(-3., w); N_VDestroy(w);
      for (i = 0; i < L; i++) if (own[i] != -3.) { fail("vec:own", "data of the user is %.17g after setting", own[i]); break; }
    }
    if (kind == 2) {
      N_Vector w = N_VCloneEmpty(t); N_VDestroy(w);
    }
    if (t->ops->nvbufsize && N_VBufSize(t, &bs) == 0) {
      int p = irnd(0, NP - 1), q = other(p);
      if (bs != (sunindextype)(L * sizeof(double))) fail("vec:buf", "buffer size is %ld", (long)bs);
      buf = malloc(bs + 16); memset(buf, 7, bs + 16);
      N_VBufPack(P[p], buf);
      { unsigned char *tail = (unsigned char *)buf + bs; for (i = 0; i < 16; i++) if (tail[i] != 7) { fail("vec:buf", "packed beyond the buffer"); break; } }
      for (i = 0; i < L; i++) if (!same(buf[i], S[p][i])) { fail("vec:buf", "packed %.17g for element %d, %.17g", buf[i], i, S[p][i]); break; }
      N_VBufUnpack(P[q], buf);
      for (i = 0; i < L; i++) S[q][i] = S[p][i];
      unchanged("BufUnpack", 0);
      free(buf); EV("buffer");
    }
    if (kind < 2) {                 /* printed form */
      int p = irnd(0, NP - 1); FILE *f = tmpfile();
      if (f) {
        double g;
        N_VPrintFile(P[p], f); rewind(f);
        for (i = 0; i < L; i++) if (fscanf(f, "%lf", &g) != 1 || fabs(g - S[p][i]) > 1e-7 * fabs(S[p][i])) { fail("vec:print", "element %d is printed as %.17g, is %.17g", i, g, S[p][i]); break; }
        if (fscanf(f, "%lf", &g) == 1) fail("vec:print", "more is printed than there is");
        fclose(f); EV("print");
      }
    }
  }
  n = 0; flat(t, e, &n);
  if (n != L) fail("vec:clone", "a clone has %d elements, not %d", n, L);
}

static void one_case(const char *mode, long ic, int arg) {
  N_Vector t = make(arg), *arr; int i, k, n, p, steps = irnd(10, 40);
  double *e0[MAXL];
  L = 0; flat(t, e0, &L); adddesc(", %d elements in %d parts", L, nsub);
  for (i = 0; i < L; i++) *e0[i] = i - 0.25;
  if (kind < 3 && chance(0.5)) {
    arr = N_VCloneVectorArray(NP, t);
    for (k = 0; k < NP; k++) P[k] = arr[k];
  } else {
    arr = NULL;
    for (k = 0; k < NP; k++) P[k] = N_VClone(k ? P[irnd(0, k - 1)] : t);
  }
  for (k = 0; k < NP; k++) {
    n = 0; flat(P[k], E[k], &n);
    if (n != L) { fail("vec:clone", "a clone has %d elements, not %d", n, L); return; }
    fill(k, val);
  }
  /* all in places of their own */
  for (k = 0; k < NP; k++) for (p = 0; p < k; p++) for (i = 0; i < L; i += 1 + L / 7) if (E[k][i] == E[p][i]) { fail("vec:clone", "clones share their data"); return; }
  for (i = 0; i < L; i++) if (*e0[i] != i - 0.25) { fail("vec:clone", "cloning changed the vector"); return; }
  structure(P[irnd(0, NP - 1)]);
  for (i = 0; i < steps && !n_fail; i++) step();
  for (i = 0; i < L; i++) if (*e0[i] != i - 0.25) { fail("vec:other", "operations on clones changed the vector"); return; }
  if (arr) N_VDestroyVectorArray(arr, NP);
  else for (k = 0; k < NP; k++) N_VDestroy(P[k]);
  for (i = 0; i < L; i++) if (*e0[i] != i - 0.25) { fail("vec:clone", "destroying clones changed the vector"); return; }
  N_VDestroy(t);
  while (nown) N_VDestroy(own_[--nown]);
}
