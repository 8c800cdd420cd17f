/* Monitor of the direct solvers: backward error of every solve against the rounding bound of the factorisation at hand,
   multipliers of partial pivoting, singular matrices reported where they break down, factors that multiply to the matrix. */
#include "fzv_sun.h"
#include <nvector/nvector_pthreads.h>
#include <sunmatrix/sunmatrix_dense.h>
#include <sunmatrix/sunmatrix_band.h>
#include <sunlinsol/sunlinsol_dense.h>
#include <sunlinsol/sunlinsol_band.h>
#include <sundials/sundials_dense.h>
#include <sundials/sundials_band.h>
#include <sundials/sundials_direct.h>
#define MX 48
static double D[MX][MX], F[MX][MX];        /* matrix, and what the library made of it */
static int n, m, mu, ml;
static double rv(void) { double x = gauss(); int r = irnd(0, 9); return r == 0 ? 0. : r == 1 ? x * logu(-4, 4) : r == 2 ? (double)irnd(-2, 2) : x; }
static const char *what_;
/* a matrix of some kind; returns the column (from 1) at which elimination must break down, or 0 */
static int gen(int rows, int cols) {
  int i, j, k, w = irnd(0, 7), bad = 0, p[MX];
  for (i = 0; i < rows; i++) for (j = 0; j < cols; j++) D[i][j] = 0;
  what_ = "full";
  for (i = 0; i < rows; i++) for (j = 0; j < cols; j++) if (i - j <= ml && j - i <= mu) {
    D[i][j] = w == 5 ? (double)irnd(-3, 3) : rv();
    if (w == 6 && chance(0.6)) D[i][j] = 0;
  }
  if (w == 1) { what_ = "scaled rows"; for (i = 0; i < rows; i++) { double s = ldexp(1., irnd(-40, 40)); for (j = 0; j < cols; j++) D[i][j] *= s; } }
  if (w == 2) { what_ = "scaled columns"; for (j = 0; j < cols; j++) { double s = ldexp(1., irnd(-40, 40)); for (i = 0; i < rows; i++) D[i][j] *= s; } }
  if (w == 3) { what_ = "tiny diagonal"; for (i = 0; i < rows && i < cols; i++) D[i][i] = chance(0.5) ? 0 : D[i][i] * 1e-12; }
  if (w == 4 && mu >= cols - 1 && ml >= rows - 1) {           /* permuted triangle: every pivot is elsewhere */
    what_ = "permuted";
    for (i = 0; i < rows; i++) p[i] = i;
    for (i = rows - 1; i > 0; i--) { k = irnd(0, i); j = p[i]; p[i] = p[k]; p[k] = j; }
    for (i = 0; i < rows; i++) for (j = 0; j < cols; j++) D[p[i]][j] = i > j ? 0 : i == j ? sgn() * unif(1, 2) : rv();
  }
  if (w == 5) what_ = "integers";
  if (w == 6) what_ = "sparse";
  if (w == 7 || chance(0.03)) {                              /* a column of zeros */
    j = irnd(0, cols - 1); what_ = "zero column";
    for (i = 0; i < rows; i++) for (k = 0; k < cols; k++) if (i - k <= ml && k - i <= mu) D[i][k] = i == k ? sgn() * unif(1, 2) : 0.2 * rv() / (1 + fabs((double)i - k));
    for (i = 0; i < rows; i++) D[i][j] = 0;
    for (k = 0; k < j; k++) { double s = 0; for (i = 0; i < rows; i++) if (i != k) s += fabs(D[i][k]); if (fabs(D[k][k]) <= s) D[k][k] = sgn() * (s + 1); }   /* nonsingular before it */
    bad = j + 1;
  }
  return bad;
}
/* b - A x in extended precision against (|L||U| |x| + |b|) of the factors in F with multipliers of sign sg */
static void residual(const double *x, const double *b, int bw, const char *op) {
  int i, j, k; static LD ux[MX];
  for (k = 0; k < n; k++) { ux[k] = 0; for (j = k; j < n; j++) ux[k] += fabsl((LD)F[k][j] * x[j]); }
  /* rows were exchanged on the way: the largest multiplier times all of |U||x| */
  for (i = 0; i < n; i++) {
    LD r = b[i], t = 0, s;
    for (j = 0; j < n; j++) r -= (LD)D[i][j] * x[j];
    for (k = 0; k < n; k++) t += ux[k];
    s = (3 * bw + 6) * EPS * (t + fabsl((LD)b[i]));
    if (!within(op, fabsl(r), s + 1e-300L)) { fail(op, "residual %.3Lg in row %d of %d, bound %.3Lg; %s", r, i, n, s, what_); return; }
  }
  sigd(x[0]); sigd(x[n - 1]);
}
static void reach_all(void) { mu = ml = MX; }
static void solver(int band) {
  N_Vector x, b; SUNMatrix A; SUNLinearSolver S; int i, j, bad, rc, k, again; double amax = 0; long r1, r2;
  n = chance(0.15) ? irnd(1, 3) : irnd(1, chance(0.1) ? MX : 16);
  reach_all();
  if (band) { mu = irnd(0, chance(0.5) && n > 4 ? 3 : n - 1); ml = irnd(0, chance(0.5) && n > 4 ? 3 : n - 1); }
  adddesc("%s of size %d", band ? "band" : "dense", n);
  if (band) adddesc(" bandwidths %d %d", mu, ml);
  x = chance(0.15) ? N_VNew_Pthreads(n, 2, sunctx_) : N_VNew_Serial(n, sunctx_); b = N_VClone(x);
  A = !band ? SUNDenseMatrix(n, n, sunctx_) : chance(0.5) ? SUNBandMatrix(n, mu, ml, sunctx_) : SUNBandMatrixStorage(n, mu, ml, mu + ml < n - 1 ? mu + ml : n - 1, sunctx_);
  S = band ? SUNLinSol_Band(x, A, sunctx_) : SUNLinSol_Dense(x, A, sunctx_);
  if (!S) { fail("create", "no solver"); return; }
  if (SUNLinSolGetType(S) != SUNLINEARSOLVER_DIRECT || SUNLinSolGetID(S) != (band ? SUNLINEARSOLVER_BAND : SUNLINEARSOLVER_DENSE)) fail("create", "type or id");
  if (SUNLinSolInitialize(S)) fail("initialize", "failed");
  if (SUNLinSolSpace(S, &r1, &r2) || r1 != 0 || r2 < n) fail("space", "%ld %ld for size %d", r1, r2, n);
  for (again = irnd(1, 3); again > 0 && !n_fail; again--) {
    bad = gen(n, n);
    adddesc(", %s", what_);
    if (band && chance(0.5)) {                 /* rubbish where no elements are: the room for fill and the corners */
      for (i = 0; i < SUNBandMatrix_LDim(A) * n; i++) SUNBandMatrix_Data(A)[i] = 1e3 * gauss();
    }
    for (j = 0; j < n; j++) for (i = 0; i < n; i++) if (i - j <= ml && j - i <= mu) { if (band) SUNBandMatrix_Column(A, j)[i - j] = D[i][j]; else SUNDenseMatrix_Column(A, j)[i] = D[i][j]; }
    for (i = 0; i < n; i++) for (j = 0; j < n; j++) if (fabs(D[i][j]) > amax) amax = fabs(D[i][j]);
    rc = SUNLinSolSetup(S, A);
    if (bad) {
      if (rc != SUNLS_LUFACT_FAIL || SUNLinSolLastFlag(S) != bad) fail("singular", "setup returned %d with flag %ld; column %d is zero", rc, (long)SUNLinSolLastFlag(S), bad);
      EV("singular"); continue;
    }
    if (rc) {                                   /* exactly singular for integers or zeros only, never for a diagonally dominant matrix */
      if (rc != SUNLS_LUFACT_FAIL || SUNLinSolLastFlag(S) < 1 || SUNLinSolLastFlag(S) > n) { fail("setup", "returned %d, flag %ld", rc, (long)SUNLinSolLastFlag(S)); break; }
      /* rank in extended precision must be short */
      { static LD q[MX][MX]; int c, r, sing = 0;
        for (i = 0; i < n; i++) for (j = 0; j < n; j++) q[i][j] = D[i][j];
        for (c = 0; c < n && !sing; c++) {
          r = c; for (i = c + 1; i < n; i++) if (fabsl(q[i][c]) > fabsl(q[r][c])) r = i;
          if (fabsl(q[r][c]) <= 1e-14L * amax) { sing = 1; break; }
          for (j = 0; j < n; j++) { LD t = q[c][j]; q[c][j] = q[r][j]; q[r][j] = t; }
          for (i = c + 1; i < n; i++) { LD t = q[i][c] / q[c][c]; for (j = c; j < n; j++) q[i][j] -= t * q[c][j]; }
        }
        if (!sing) fail("setup", "reported singular at %ld; %s", (long)SUNLinSolLastFlag(S), what_);
      }
      EV("rank short"); continue;
    }
    /* the factors: U above, multipliers at most 1 below */
    for (i = 0; i < n; i++) for (j = 0; j < n; j++) {
      F[i][j] = 0;
      if (!band) F[i][j] = SUNDenseMatrix_Column(A, j)[i];
      else if (i - j <= ml && j - i <= SUNBandMatrix_StoredUpperBandwidth(A)) F[i][j] = SUNBandMatrix_Column(A, j)[i - j];
      if (i > j && !(fabs(F[i][j]) <= 1 + 4 * EPS)) { fail("pivot", "multiplier %.17g at (%d,%d); %s", F[i][j], i, j, what_); break; }
    }
    for (k = irnd(1, 3); k > 0 && !n_fail; k--) {
      double bs[MX]; int same_ = chance(0.3);
      for (i = 0; i < n; i++) { bs[i] = k == 2 ? (i == 0) : rv(); N_VGetArrayPointer(b)[i] = bs[i]; }
      rc = SUNLinSolSolve(S, A, same_ ? b : x, b, 0.);
      if (rc || SUNLinSolLastFlag(S)) fail("solve", "returned %d, flag %ld", rc, (long)SUNLinSolLastFlag(S));
      for (i = 0; i < n && !same_; i++) if (!same(bs[i], N_VGetArrayPointer(b)[i])) fail("solve", "the right-hand side changed at %d", i);
      residual(N_VGetArrayPointer(same_ ? b : x), bs, n < mu + ml + 1 ? n : mu + ml + 1, band ? "band solve" : "dense solve");
      EV(band ? "band solves" : "dense solves");
    }
    for (j = 0; j < n && !n_fail; j++) for (i = 0; i < n; i++) {   /* solves leave the factors alone */
      double v = 0;
      if (!band) v = SUNDenseMatrix_Column(A, j)[i]; else if (i - j <= ml && j - i <= SUNBandMatrix_StoredUpperBandwidth(A)) v = SUNBandMatrix_Column(A, j)[i - j];
      if (!same(v, F[i][j])) { fail("solve", "the factors changed at (%d,%d)", i, j); break; }
    }
  }
  SUNLinSolFree(S);
  if (chance(0.2)) {                             /* what does not fit is refused */
    N_Vector w = N_VNew_Serial(n + 1, sunctx_); SUNMatrix B = SUNDenseMatrix(n, n + 1, sunctx_);
    if ((band ? SUNLinSol_Band(w, A, sunctx_) : SUNLinSol_Dense(w, A, sunctx_)) != NULL) fail("misfit", "a vector of another length is accepted");
    if (SUNLinSol_Dense(x, B, sunctx_) != NULL) fail("misfit", "a matrix that is not square is accepted");
    if (SUNLinSol_Band(x, B, sunctx_) != NULL) fail("misfit", "a dense matrix is accepted by the band solver");
    if (band) {
      if (SUNLinSol_Dense(x, A, sunctx_) != NULL) fail("misfit", "a band matrix is accepted by the dense solver");
      if (ml > 0 && mu < n - 1) { SUNMatrix C = SUNBandMatrixStorage(n, mu, ml, mu, sunctx_); if (SUNLinSol_Band(x, C, sunctx_) != NULL) fail("misfit", "no room for fill is accepted"); SUNMatDestroy(C); }
    }
    N_VDestroy(w); SUNMatDestroy(B); EV("misfits");
  }
  SUNMatDestroy(A); N_VDestroy(x); N_VDestroy(b);
}
static double **colsof(SUNDlsMat A, realtype **a) { return A ? A->cols : a; }
static void plain(void) {
  SUNDlsMat A = NULL; realtype **a = NULL, **c; int i, j, k, w = irnd(0, 4), obj = chance(0.5), old = chance(0.3); sunindextype *p, rc;
  reach_all();
  if (w == 0) {                                  /* LU of a rectangular matrix, m >= n */
    int bad; static LD q[MX][MX];
    m = irnd(1, chance(0.1) ? MX : 14); n = irnd(1, m);
    adddesc("LU of %dx%d", m, n);
    if (obj) A = SUNDlsMat_NewDenseMat(m, n); else a = SUNDlsMat_newDenseMat(m, n);
    c = colsof(A, a); p = SUNDlsMat_newIndexArray(n);
    bad = gen(m, n);
    for (j = 0; j < n; j++) for (i = 0; i < m; i++) c[j][i] = D[i][j];
    rc = obj ? (old ? DenseGETRF(A, p) : SUNDlsMat_DenseGETRF(A, p)) : old ? denseGETRF(a, m, n, p) : SUNDlsMat_denseGETRF(a, m, n, p);
    if (bad && rc != bad) fail("LU", "returned %ld, column %d is zero", (long)rc, bad);
    if (!bad && rc == 0) {
      for (k = 0; k < n; k++) { if (p[k] < k || p[k] >= m) { fail("LU", "pivot %ld at %d", (long)p[k], k); break; } for (j = 0; j < n; j++) { double t = D[k][j]; D[k][j] = D[p[k]][j]; D[p[k]][j] = t; } }
      for (i = 0; i < m && !n_fail; i++) for (j = 0; j < n && !n_fail; j++) {
        LD s = 0, t = 0;
        for (k = 0; k <= i && k <= j; k++) { LD l = k == i ? 1 : c[k][i]; s += l * c[j][k]; t += fabsl(l * c[j][k]); if (k < i && !(fabsl(l) <= 1 + 4 * EPS)) fail("LU", "multiplier %.17Lg", l); }
        q[i][j] = s;
        if (!within("LU", fabsl(s - D[i][j]), (n + 3) * EPS * t + 1e-300L)) fail("LU", "(%d,%d) is %.17g, the factors give %.17Lg; %s", i, j, D[i][j], s, what_);
      }
      sigd((double)q[m - 1][n - 1]); EV("LU");
    }
    SUNDlsMat_destroyArray(p);
  } else if (w == 1) {                           /* Cholesky; the upper triangle is never looked at */
    double b[MX], x[MX], u[MX][MX]; int bad = chance(0.2);
    m = irnd(1, chance(0.1) ? MX : 14);
    adddesc("Cholesky of size %d", m);
    if (obj) A = SUNDlsMat_NewDenseMat(m, m); else a = SUNDlsMat_newDenseMat(m, m);
    c = colsof(A, a);
    for (i = 0; i < m; i++) for (j = 0; j < m; j++) u[i][j] = gauss() * (chance(0.1) ? logu(-2, 2) : 1);
    for (i = 0; i < m; i++) for (j = 0; j <= i; j++) { double s = 0; for (k = 0; k < m; k++) s += u[i][k] * u[j][k]; D[i][j] = D[j][i] = s + (i == j ? 0.01 + 1e-6 * s : 0); }
    if (bad) { k = irnd(0, m - 1); D[k][k] = chance(0.5) ? -D[k][k] : 0; bad = k + 1; }
    for (j = 0; j < m; j++) for (i = 0; i < m; i++) c[j][i] = i >= j ? D[i][j] : NAN;
    rc = obj ? (old ? DensePOTRF(A) : SUNDlsMat_DensePOTRF(A)) : old ? densePOTRF(a, m) : SUNDlsMat_densePOTRF(a, m);
    if (bad) { if (rc != bad) fail("cholesky", "returned %ld, the diagonal is %g at %d", (long)rc, D[bad - 1][bad - 1], bad); EV("not definite"); }
    else if (rc) fail("cholesky", "returned %ld for a definite matrix", (long)rc);
    else {
      LD nb = 0;
      for (i = 0; i < m && !n_fail; i++) for (j = 0; j <= i && !n_fail; j++) {
        LD s = 0, t = 0;
        for (k = 0; k <= j; k++) { s += (LD)c[k][i] * c[k][j]; t += fabsl((LD)c[k][i] * c[k][j]); }
        if (!within("cholesky", fabsl(s - D[i][j]), (m + 4) * EPS * t)) fail("cholesky", "(%d,%d) is %.17g, the factors give %.17Lg", i, j, D[i][j], s);
      }
      for (i = 0; i < m; i++) { b[i] = x[i] = rv(); nb += fabs(b[i]); }
      if (obj) { if (old) DensePOTRS(A, x); else SUNDlsMat_DensePOTRS(A, x); } else if (old) densePOTRS(a, m, x); else SUNDlsMat_densePOTRS(a, m, x);
      for (i = 0; i < m && !n_fail; i++) {
        LD r = b[i], t = fabs(b[i]);
        for (j = 0; j < m; j++) { LD e = 0; r -= (LD)D[i][j] * x[j]; for (k = 0; k <= (i < j ? i : j); k++) e += fabsl((LD)c[k][i] * c[k][j]); t += e * fabs(x[j]); }
        if (!within("cholesky solve", fabsl(r), (3 * m + 6) * EPS * t)) fail("cholesky", "residual %.3Lg in row %d of %d", r, i, m);
      }
      for (j = 0; j < m; j++) for (i = 0; i < j; i++) if (!isnan(c[j][i])) fail("cholesky", "the upper triangle is written");
      sigd(x[0]); EV("cholesky");
    }
  } else if (w == 2) {                           /* QR */
    double beta[MX], wk[MX], v[MX], y[MX]; static LD nc[MX];
    m = irnd(1, chance(0.1) ? MX : 14); n = irnd(1, m);
    adddesc("QR of %dx%d", m, n);
    if (obj) A = SUNDlsMat_NewDenseMat(m, n); else a = SUNDlsMat_newDenseMat(m, n);
    c = colsof(A, a);
    gen(m, n);
    if (chance(0.2)) { j = irnd(0, n - 1); for (i = 0; i < m; i++) D[i][j] = i <= j ? D[i][j] : 0; }    /* nothing to eliminate */
    for (j = 0; j < n; j++) { nc[j] = 0; for (i = 0; i < m; i++) { c[j][i] = D[i][j]; nc[j] += (LD)D[i][j] * D[i][j]; } nc[j] = sqrtl(nc[j]); }
    rc = obj ? (old ? DenseGEQRF(A, beta, wk) : SUNDlsMat_DenseGEQRF(A, beta, wk)) : old ? denseGEQRF(a, m, n, beta, wk) : SUNDlsMat_denseGEQRF(a, m, n, beta, wk);
    if (rc) fail("QR", "returned %ld", (long)rc);
    for (k = 0; k <= n && !n_fail; k++) {        /* Q applied to the columns of R gives A; Q keeps lengths */
      LD e = 0, nv = 0, ny = 0;
      for (i = 0; i < n; i++) { v[i] = k == n ? rv() : i <= k ? c[k][i] : 0; nv += (LD)v[i] * v[i]; }
      rc = obj ? (old ? DenseORMQR(A, beta, v, y, wk) : SUNDlsMat_DenseORMQR(A, beta, v, y, wk)) : old ? denseORMQR(a, m, n, beta, v, y, wk) : SUNDlsMat_denseORMQR(a, m, n, beta, v, y, wk);
      if (rc) fail("QR", "apply returned %ld", (long)rc);
      for (i = 0; i < m; i++) { ny += (LD)y[i] * y[i]; if (k < n) e += ((LD)y[i] - D[i][k]) * ((LD)y[i] - D[i][k]); }
      if (k < n && !within("QR", sqrtl(e), 8. * n * (m + 4) * EPS * nc[k] + 1e-300L)) fail("QR", "column %d of %dx%d is off by %.3Lg of %.3Lg; %s", k, m, n, sqrtl(e), nc[k], what_);
      if (!within("Q", fabsl(sqrtl(ny) - sqrtl(nv)), 8. * n * (m + 4) * EPS * sqrtl(nv) + 1e-300L)) fail("QR", "length %.17Lg becomes %.17Lg", sqrtl(nv), sqrtl(ny));
    }
    sigd(c[n - 1][n - 1]); EV("QR");
  } else if (w == 3) {                           /* dense: copy, scale, identity, zero, product */
    SUNDlsMat B = NULL; realtype **b = NULL, **d; double s = rv(), x[MX], y[MX];
    m = irnd(1, 16); n = chance(0.5) ? m : irnd(1, 16);
    adddesc("dense %dx%d", m, n);
    if (obj) { A = SUNDlsMat_NewDenseMat(m, n); B = SUNDlsMat_NewDenseMat(m, n); } else { a = SUNDlsMat_newDenseMat(m, n); b = SUNDlsMat_newDenseMat(m, n); }
    c = colsof(A, a); d = colsof(B, b);
    gen(m, n);
    for (j = 0; j < n; j++) { x[j] = rv(); for (i = 0; i < m; i++) { c[j][i] = D[i][j]; d[j][i] = NAN; } }
    if (obj) { SUNDlsMat_SetToZero(B); for (j = 0; j < n; j++) for (i = 0; i < m; i++) if (d[j][i] != 0) fail("zero", "(%d,%d)", i, j); }
    if (obj) { if (old) DenseCopy(A, B); else SUNDlsMat_DenseCopy(A, B); } else if (old) denseCopy(a, b, m, n); else SUNDlsMat_denseCopy(a, b, m, n);
    if (obj) { if (old) DenseScale(s, B); else SUNDlsMat_DenseScale(s, B); } else if (old) denseScale(s, b, m, n); else SUNDlsMat_denseScale(s, b, m, n);
    if (m == n) { if (obj) { if (old) AddIdentity(B); else SUNDlsMat_AddIdentity(B); } else if (old) denseAddIdentity(b, n); else SUNDlsMat_denseAddIdentity(b, n); }
    for (j = 0; j < n; j++) for (i = 0; i < m; i++) {
      LD p = (LD)s * D[i][j], e = m == n && i == j;
      if (!same(c[j][i], D[i][j])) fail("dense", "the source of a copy changed");
      if (!(fabsl(d[j][i] - p - e) <= 2 * EPS * (fabsl(p) + e))) fail("dense", "(%d,%d) is %.17g, should be %.17Lg", i, j, d[j][i], p + e);
    }
    if (obj) { if (old) DenseMatvec(A, x, y); else SUNDlsMat_DenseMatvec(A, x, y); } else if (old) denseMatvec(a, x, y, m, n); else SUNDlsMat_denseMatvec(a, x, y, m, n);
    for (i = 0; i < m && !n_fail; i++) { LD q = 0, t = 0; for (j = 0; j < n; j++) { q += (LD)D[i][j] * x[j]; t += fabsl((LD)D[i][j] * x[j]); } if (!(fabsl(y[i] - q) <= (n + 2) * EPS * t)) fail("dense", "product: row %d is %.17g, should be %.17Lg", i, y[i], q); sigd(y[i]); }
    if (B) SUNDlsMat_DestroyMat(B); else SUNDlsMat_destroyMat(b);
    EV("dense functions");
  } else {                                       /* band: factor, solve, copy, scale, identity, product */
    int smu, smu2, cmu, cml; double s = rv(), x[MX], y[MX], bs[MX]; SUNDlsMat B = NULL; realtype **b = NULL, **d; int bad;
    n = irnd(1, chance(0.1) ? MX : 14); mu = irnd(0, n - 1); ml = irnd(0, n - 1); smu = chance(0.5) || mu + ml < n - 1 ? mu + ml : n - 1; smu2 = mu + ml;
    cmu = irnd(0, mu); cml = irnd(0, ml);
    adddesc("band of size %d: %d %d %d", n, mu, ml, smu);
    if (obj) { A = SUNDlsMat_NewBandMat(n, mu, ml, smu); B = SUNDlsMat_NewBandMat(n, mu, ml, smu2); } else { a = SUNDlsMat_newBandMat(n, smu, ml); b = SUNDlsMat_newBandMat(n, smu2, ml); }
    c = colsof(A, a); d = colsof(B, b);
    bad = gen(n, n);
    for (j = 0; j < n; j++) { x[j] = rv(); for (i = 0; i < smu + ml + 1; i++) c[j][i] = 1e2 * gauss(); for (i = 0; i < smu2 + ml + 1; i++) d[j][i] = 0; for (i = 0; i < n; i++) if (i - j <= ml && j - i <= mu) c[j][smu + i - j] = D[i][j]; }
    if (obj) SUNDlsMat_SetToZero(B);
    if (obj) { if (old) BandCopy(A, B, cmu, cml); else SUNDlsMat_BandCopy(A, B, cmu, cml); } else if (old) bandCopy(a, b, n, smu, smu2, cmu, cml); else SUNDlsMat_bandCopy(a, b, n, smu, smu2, cmu, cml);
    if (obj) { if (old) BandScale(s, B); else SUNDlsMat_BandScale(s, B); } else if (old) bandScale(s, b, n, mu, ml, smu2); else SUNDlsMat_bandScale(s, b, n, mu, ml, smu2);
    if (obj) { if (old) AddIdentity(B); else SUNDlsMat_AddIdentity(B); } else if (old) bandAddIdentity(b, n, smu2); else SUNDlsMat_bandAddIdentity(b, n, smu2);
    for (j = 0; j < n; j++) for (i = 0; i < n; i++) if (i - j <= ml && j - i <= mu) {
      LD p = i - j <= cml && j - i <= cmu ? (LD)s * D[i][j] : 0, e = i == j;
      if (!(fabsl(d[j][smu2 + i - j] - p - e) <= 2 * EPS * (fabsl(p) + e))) fail("band", "(%d,%d) is %.17g, should be %.17Lg", i, j, d[j][smu2 + i - j], p + e);
    }
    if (obj) { if (old) BandMatvec(A, x, y); else SUNDlsMat_BandMatvec(A, x, y); } else if (old) bandMatvec(a, x, y, n, mu, ml, smu); else SUNDlsMat_bandMatvec(a, x, y, n, mu, ml, smu);
    for (i = 0; i < n && !n_fail; i++) { LD q = 0, t = 0; for (j = 0; j < n; j++) { q += (LD)D[i][j] * x[j]; t += fabsl((LD)D[i][j] * x[j]); } if (!(fabsl(y[i] - q) <= (n + 2) * EPS * t)) fail("band", "product: row %d is %.17g, should be %.17Lg", i, y[i], q); sigd(y[i]); }
    p = SUNDlsMat_newIndexArray(n);
    rc = obj ? (old ? BandGBTRF(A, p) : SUNDlsMat_BandGBTRF(A, p)) : old ? bandGBTRF(a, n, mu, ml, smu, p) : SUNDlsMat_bandGBTRF(a, n, mu, ml, smu, p);
    if (bad && rc != bad) fail("band", "returned %ld, column %d is zero", (long)rc, bad);
    if (!rc && !n_fail) {
      for (i = 0; i < n; i++) { bs[i] = x[i] = rv(); for (j = 0; j < n; j++) { F[i][j] = i - j <= ml && j - i <= smu ? c[j][smu + i - j] : 0; if (i > j && !(fabs(F[i][j]) <= 1 + 4 * EPS)) fail("band", "multiplier %.17g", F[i][j]); } }
      if (obj) { if (old) BandGBTRS(A, p, x); else SUNDlsMat_BandGBTRS(A, p, x); } else if (old) bandGBTRS(a, n, smu, ml, p, x); else SUNDlsMat_bandGBTRS(a, n, smu, ml, p, x);
      residual(x, bs, n < mu + ml + 1 ? n : mu + ml + 1, "band");
    }
    SUNDlsMat_destroyArray(p);
    if (B) SUNDlsMat_DestroyMat(B); else SUNDlsMat_destroyMat(b);
    EV("band functions");
  }
  if (A) SUNDlsMat_DestroyMat(A); else SUNDlsMat_destroyMat(a);
}
static void one_case(const char *mode, long ic, int arg) {
  if (arg == 0) solver(0); else if (arg == 1) solver(1); else plain();
}
