/* Test problems y' = f(t, y, p) with exact Jacobians and parameter derivatives, integrands, and a reference in extended
   precision (extrapolated midpoint rule) of solution, sensitivities, integrals and sensitivities of the integrals. */
#ifndef FZV_ODEP_H
#define FZV_ODEP_H
#define PN 16
#define PP 4
typedef struct { int fam, n, np, mu, ml, pos, stiff, sym; double p[PP], y0[PN], t0, t1, w, A[PN][PN], b[PN], phi[PN], kt, kl, ka, kq; } PB;   /* ka, kq: pulses in the equation and the integrals from kt on for kl */
static PB pb;
static const char *famn[] = { "linear", "lotka-volterra", "van der pol", "kinetics", "brusselator", "diffusion", "pendulum", "quadrature" };
#define PULSE(t) (pb.t1 < pb.t0 ? (t) <= pb.kt && (t) > pb.kt - pb.kl : (t) >= pb.kt && (t) < pb.kt + pb.kl)
#define DEFP(T, S, COS, SIN) \
static void f##S(T t, const T *y, const T *p, T *d) { \
  int i, j, n = pb.n; T s; \
  switch (pb.fam) { \
  case 0: for (i = 0; i < n; i++) { s = 0; for (j = 0; j < n; j++) s += pb.A[i][j] * y[j]; d[i] = p[0] * s + p[1] * pb.b[i] * COS(pb.w * t + i); } break; \
  case 1: d[0] = p[0] * y[0] - p[1] * y[0] * y[1]; d[1] = -p[2] * y[1] + p[3] * y[0] * y[1]; break; \
  case 2: d[0] = y[1]; d[1] = p[0] * (1 - y[0] * y[0]) * y[1] - y[0]; break; \
  case 3: d[0] = -p[0] * y[0] + p[1] * y[1] * y[2]; d[2] = p[2] * y[1] * y[1]; d[1] = -d[0] - d[2]; break; \
  case 4: d[0] = p[0] + y[0] * y[0] * y[1] - (p[1] + 1) * y[0]; d[1] = p[1] * y[0] - y[0] * y[0] * y[1]; break; \
  case 5: for (i = 0; i < n; i++) { T l = i ? y[i - 1] : 0, r = i < n - 1 ? y[i + 1] : 0; d[i] = p[0] * (l - 2 * y[i] + r) + p[1] * y[i] * (1 - y[i]); } break; \
  case 6: d[0] = y[1]; d[1] = -p[0] * SIN(y[0]) - p[1] * y[1]; break; \
  default: for (i = 0; i < n; i++) { s = i + 1; for (j = 0; j < i; j++) s *= t; d[i] = p[0] * COS(pb.w * t + i) + p[1] * s; } \
  } \
  if (pb.ka != 0 && PULSE(t)) for (i = 0; i < n; i++) d[i] += pb.ka * (1 + 0.3 * i); \
} \
static void jac##S(T t, const T *y, const T *p, T (*J)[PN]) { \
  int i, j, n = pb.n; (void)t; \
  for (i = 0; i < n; i++) for (j = 0; j < n; j++) J[i][j] = 0; \
  switch (pb.fam) { \
  case 0: for (i = 0; i < n; i++) for (j = 0; j < n; j++) J[i][j] = p[0] * pb.A[i][j]; break; \
  case 1: J[0][0] = p[0] - p[1] * y[1]; J[0][1] = -p[1] * y[0]; J[1][0] = p[3] * y[1]; J[1][1] = -p[2] + p[3] * y[0]; break; \
  case 2: J[0][1] = 1; J[1][0] = -2 * p[0] * y[0] * y[1] - 1; J[1][1] = p[0] * (1 - y[0] * y[0]); break; \
  case 3: J[0][0] = -p[0]; J[0][1] = p[1] * y[2]; J[0][2] = p[1] * y[1]; J[2][1] = 2 * p[2] * y[1]; for (j = 0; j < 3; j++) J[1][j] = -J[0][j] - J[2][j]; break; \
  case 4: J[0][0] = 2 * y[0] * y[1] - p[1] - 1; J[0][1] = y[0] * y[0]; J[1][0] = p[1] - 2 * y[0] * y[1]; J[1][1] = -y[0] * y[0]; break; \
  case 5: for (i = 0; i < n; i++) { if (i) J[i][i - 1] = p[0]; if (i < n - 1) J[i][i + 1] = p[0]; J[i][i] = -2 * p[0] + p[1] * (1 - 2 * y[i]); } break; \
  case 6: J[0][1] = 1; J[1][0] = -p[0] * COS(y[0]); J[1][1] = -p[1]; break; \
  default: break; \
  } \
} \
static void dfdp##S(T t, const T *y, const T *p, int k, T *d) { \
  int i, j, n = pb.n; T s; (void)p; \
  for (i = 0; i < n; i++) d[i] = 0; \
  switch (pb.fam) { \
  case 0: for (i = 0; i < n; i++) { s = 0; for (j = 0; j < n; j++) s += pb.A[i][j] * y[j]; d[i] = k == 0 ? s : pb.b[i] * COS(pb.w * t + i); } break; \
  case 1: if (k == 0) d[0] = y[0]; if (k == 1) d[0] = -y[0] * y[1]; if (k == 2) d[1] = -y[1]; if (k == 3) d[1] = y[0] * y[1]; break; \
  case 2: d[1] = (1 - y[0] * y[0]) * y[1]; break; \
  case 3: if (k == 0) { d[0] = -y[0]; d[1] = y[0]; } if (k == 1) { d[0] = y[1] * y[2]; d[1] = -d[0]; } if (k == 2) { d[2] = y[1] * y[1]; d[1] = -d[2]; } break; \
  case 4: if (k == 0) d[0] = 1; if (k == 1) { d[0] = -y[0]; d[1] = y[0]; } break; \
  case 5: for (i = 0; i < n; i++) d[i] = k == 0 ? (i ? y[i - 1] : 0) - 2 * y[i] + (i < n - 1 ? y[i + 1] : 0) : y[i] * (1 - y[i]); break; \
  case 6: d[1] = k == 0 ? -SIN(y[0]) : -y[1]; break; \
  default: for (i = 0; i < n; i++) { s = i + 1; for (j = 0; j < i; j++) s *= t; d[i] = k == 0 ? COS(pb.w * t + i) : s; } \
  } \
} \
/* two integrands; what[0..n-1] their derivatives along a direction when s is given */ \
static void fq##S(T t, const T *y, const T *p, T *q) { \
  int i; q[0] = 0; for (i = 0; i < pb.n; i++) q[0] += y[i] * y[i]; q[0] /= pb.n; q[1] = p[0] * y[0] * COS(t) + y[pb.n - 1]; \
  if (pb.kq != 0 && PULSE(t)) q[0] += pb.kq; \
} \
static void fqs##S(T t, const T *y, const T *p, const T *s, int k, T *q) { \
  int i; q[0] = 0; for (i = 0; i < pb.n; i++) q[0] += 2 * y[i] * s[i]; q[0] /= pb.n; q[1] = p[0] * s[0] * COS(t) + s[pb.n - 1] + (k == 0 ? y[0] * COS(t) : 0); \
}
DEFP(double, _d, cos, sin)
DEFP(LD, _l, cosl, sinl)

/* a problem; fast: the stiff families too */
static void problem(int stiff, int back) {
  int i, j; double T;
  memset(&pb, 0, sizeof pb);
  do pb.fam = irnd(0, 7); while (!stiff && (pb.fam == 3));
  if (back && (pb.fam == 3 || pb.fam == 5)) pb.fam = 1;
  pb.w = unif(0.3, 3); pb.t0 = chance(0.4) ? 0 : unif(-3, 3); T = unif(0.3, 4);
  pb.np = 2;
  switch (pb.fam) {
  case 0: pb.n = irnd(1, 6);
    for (i = 0; i < pb.n; i++) { for (j = 0; j < pb.n; j++) pb.A[i][j] = 0.7 * gauss() / sqrt(pb.n); pb.A[i][i] -= 1 + (stiff && !back && chance(0.3) ? logu(0, 2.5) : 0); pb.b[i] = gauss(); pb.y0[i] = gauss(); }
    pb.p[0] = unif(0.3, 1.5) * (back ? -1 : 1); pb.p[1] = unif(-2, 2); if (back) T *= -1; break;
  case 1: pb.n = 2; pb.np = 4; for (i = 0; i < 4; i++) pb.p[i] = unif(0.5, 1.5); pb.y0[0] = unif(0.5, 2); pb.y0[1] = unif(0.5, 2); pb.pos = 1; if (back) T *= -1; break;
  case 2: pb.n = 2; pb.np = 1; pb.p[0] = stiff ? unif(0.1, 10) : unif(0.1, 2); pb.y0[0] = unif(-2, 2); pb.y0[1] = unif(-1, 1); if (back) { pb.p[0] = -pb.p[0]; T *= -1; } break;
  case 3: pb.n = 3; pb.np = 3; pb.p[0] = unif(0.02, 0.1); pb.p[1] = logu(1, 3); pb.p[2] = logu(2, 4.5); pb.y0[0] = 1; pb.y0[1] = 0; pb.y0[2] = chance(0.5) ? 0 : unif(0, 0.5); T *= 3; break;
  case 4: pb.n = 2; pb.p[0] = unif(0.5, 1.5); pb.p[1] = unif(1, 3.5); pb.y0[0] = unif(0.5, 2); pb.y0[1] = unif(1, 3); if (back) T *= -0.04; break;
  case 5: pb.n = irnd(3, PN); pb.p[0] = stiff ? logu(0, 2.5) : unif(0.5, 5); pb.p[1] = unif(-1, 2); for (i = 0; i < pb.n; i++) pb.y0[i] = unif(0.1, 1); T *= 0.5; pb.sym = 1; break;
  case 6: pb.n = 2; pb.p[0] = unif(0.5, 5); pb.p[1] = unif(-0.05, 0.5) * (back ? -1 : 1); pb.y0[0] = unif(-2, 2); pb.y0[1] = unif(-1, 1); if (back) T *= -1; break;
  default: pb.n = irnd(1, 4); pb.p[0] = unif(-2, 2); pb.p[1] = unif(-0.3, 0.3); for (i = 0; i < pb.n; i++) pb.y0[i] = gauss(); if (back) T *= -1;
  }
  pb.t1 = pb.t0 + T;
  if (pb.fam == 5) { pb.mu = pb.ml = 1; } else pb.mu = pb.ml = pb.n - 1;
}
/* ---- reference ---- */
#define RN 420
static int r_ns, r_q, r_col[24];       /* sensitivities: column k belongs to parameter r_col[k], or to start value r_col[k] - 100 */
static LD r_p[PP];
static int r_len(void) { return pb.n * (1 + r_ns) + (r_q ? 2 * (1 + r_ns) : 0); }
static void r_f(LD t, const LD *Y, LD *D) {
  LD J[PN][PN]; int i, j, k, n = pb.n; const LD *s; LD *d;
  f_l(t, Y, r_p, D);
  if (r_ns) jac_l(t, Y, r_p, J);
  for (k = 0; k < r_ns; k++) {
    s = Y + n * (1 + k); d = D + n * (1 + k);
    if (r_col[k] < 100) dfdp_l(t, Y, r_p, r_col[k], d); else for (i = 0; i < n; i++) d[i] = 0;
    for (i = 0; i < n; i++) for (j = 0; j < n; j++) d[i] += J[i][j] * s[j];
  }
  if (r_q) {
    d = D + n * (1 + r_ns); fq_l(t, Y, r_p, d);
    for (k = 0; k < r_ns; k++) fqs_l(t, Y, r_p, Y + n * (1 + k), r_col[k], d + 2 + 2 * k);
  }
}
/* from t to t1; Y in place; relative accuracy about 1e-15 of the largest element of each block */
static int r_go(LD *Y, LD t, LD t1) {
  static LD tab[9][RN], a[RN], b[RN], c[RN], d[RN]; int i, j, k, m, N = r_len(), steps = 0; LD H = (t1 - t) / 4, dir = t1 > t ? 1 : -1;
  static const int nn[9] = { 2, 4, 6, 8, 10, 12, 14, 16, 18 };
  if (t == t1) return 0;
  while ((t1 - t) * dir > 0) {
    LD err = 0, sc = 0, bs;
    if (++steps > 20000) return 1;
    if ((t + H - t1) * dir > 0) H = t1 - t;
    for (k = 0; k < 9; k++) {
      LD h = H / nn[k];
      r_f(t, Y, d);
      for (i = 0; i < N; i++) { a[i] = Y[i]; b[i] = Y[i] + h * d[i]; }
      for (m = 1; m < nn[k]; m++) { r_f(t + m * h, b, d); for (i = 0; i < N; i++) { c[i] = a[i] + 2 * h * d[i]; a[i] = b[i]; b[i] = c[i]; } }
      r_f(t + H, b, d);
      for (i = 0; i < N; i++) c[i] = (a[i] + b[i] + h * d[i]) / 2;
      for (j = 0; j < k; j++) { LD q = (LD)nn[k] / nn[k - 1 - j]; q = q * q - 1; for (i = 0; i < N; i++) { LD v = c[i] + (c[i] - tab[j][i]) / q; tab[j][i] = c[i]; c[i] = v; } }
      for (i = 0; i < N; i++) tab[k][i] = c[i];
    }
    /* tab[j] is the j-th column of the last row after the loop */
    for (i = 0; i < N; i++) { bs = fabsl(Y[i]) + fabsl(tab[8][i]) + 1e-3L; err = fmaxl(err, fabsl(tab[8][i] - tab[7][i]) / bs); if (!isfinite((double)tab[8][i])) err = 1e9L; }
    (void)sc;
    if (err > 1e-14L) { H *= fmaxl(0.1L, 0.9L * powl(1e-15L / err, 1.L / 15)); continue; }
    t += H; for (i = 0; i < N; i++) Y[i] = tab[8][i];
    H *= fminl(3, fmaxl(0.3L, 0.85L * powl(1e-15L / (err + 1e-22L), 1.L / 15)));
  }
  return 0;
}
static void r_start(LD *Y) {
  int i, k, N = r_len();
  for (i = 0; i < N; i++) Y[i] = 0;
  for (i = 0; i < pb.n; i++) Y[i] = pb.y0[i];
  for (k = 0; k < r_ns; k++) if (r_col[k] >= 100) Y[pb.n * (1 + k) + r_col[k] - 100] = 1;
  for (i = 0; i < PP; i++) r_p[i] = pb.p[i];
}
#endif
