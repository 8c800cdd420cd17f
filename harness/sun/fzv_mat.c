/* Monitor of the matrix operations: a pool of matrices of one shape and kind, random operations, a dense shadow of every
   matrix.  Results against extended precision with the rounding bound of the plain formula, everything not written
   unchanged bit for bit, sparse structures valid after every operation. */
#include "fzv_sun.h"
#include <nvector/nvector_pthreads.h>
#include <sunmatrix/sunmatrix_dense.h>
#include <sunmatrix/sunmatrix_band.h>
#include <sunmatrix/sunmatrix_sparse.h>
#define NP 5
#define MX 40
static SUNMatrix A[NP];
static double S[NP][MX][MX];
static int M, N, kind;                 /* 0 dense, 1 band, 2 CSC, 3 CSR */

/* reads a matrix back and checks that it is well formed */
static int readback(SUNMatrix a, double (*d)[MX], const char *op) {
  int i, j; sunindextype k;
  for (i = 0; i < M; i++) for (j = 0; j < N; j++) d[i][j] = 0;
  switch (SUNMatGetID(a)) {
  case SUNMATRIX_DENSE:
    if (SUNDenseMatrix_Rows(a) != M || SUNDenseMatrix_Columns(a) != N || SUNDenseMatrix_LData(a) != (long)M * N) { fail(op, "shape of a dense matrix"); return 1; }
    for (j = 0; j < N; j++) {
      double *c = SUNDenseMatrix_Column(a, j);
      if (c != SUNDenseMatrix_Cols(a)[j] || c != SUNDenseMatrix_Data(a) + (long)j * M) { fail(op, "columns of a dense matrix"); return 1; }
      for (i = 0; i < M; i++) d[i][j] = c[i];
    }
    break;
  case SUNMATRIX_BAND: {
    long mu = SUNBandMatrix_UpperBandwidth(a), ml = SUNBandMatrix_LowerBandwidth(a), smu = SUNBandMatrix_StoredUpperBandwidth(a), ld = SUNBandMatrix_LDim(a);
    if (SUNBandMatrix_Rows(a) != M || SUNBandMatrix_Columns(a) != N || smu < mu || ld < smu + ml + 1) { fail(op, "shape of a band matrix: %ld %ld %ld %ld", mu, ml, smu, ld); return 1; }
    for (j = 0; j < N; j++) {
      double *c = SUNBandMatrix_Cols(a)[j];
      if (c != SUNBandMatrix_Data(a) + j * ld || SUNBandMatrix_Column(a, j) != c + smu) { fail(op, "columns of a band matrix"); return 1; }
      for (i = 0; i < M; i++) if (i - j <= ml && j - i <= mu) d[i][j] = c[smu + i - j];
    }
    break; }
  case SUNMATRIX_SPARSE: {
    int csc = SUNSparseMatrix_SparseType(a) == CSC_MAT, np = csc ? N : M, ni = csc ? M : N;
    sunindextype *p = SUNSparseMatrix_IndexPointers(a), *v = SUNSparseMatrix_IndexValues(a); double *x = SUNSparseMatrix_Data(a);
    static char seen[MX];
    if (SUNSparseMatrix_Rows(a) != M || SUNSparseMatrix_Columns(a) != N || SUNSparseMatrix_NP(a) != np || csc != (kind != 3)) { fail(op, "shape of a sparse matrix"); return 1; }
    if (p[0] != 0 || p[np] > SUNSparseMatrix_NNZ(a)) { fail(op, "extent of a sparse matrix: %ld to %ld of %ld", (long)p[0], (long)p[np], (long)SUNSparseMatrix_NNZ(a)); return 1; }
    for (j = 0; j < np; j++) {
      memset(seen, 0, sizeof seen);
      if (p[j + 1] < p[j]) { fail(op, "index pointers decrease at %d", j); return 1; }
      for (k = p[j]; k < p[j + 1]; k++) {
        if (v[k] < 0 || v[k] >= ni || seen[v[k]]) { fail(op, "index value %ld at %ld (%s)", (long)v[k], (long)k, v[k] >= 0 && v[k] < ni ? "twice" : "out of range"); return 1; }
        seen[v[k]] = 1;
        if (csc) d[v[k]][j] = x[k]; else d[j][v[k]] = x[k];
      }
    }
    break; }
  default: fail(op, "kind of a matrix"); return 1;
  }
  return 0;
}
static double rv(void) { double x = gauss() * (chance(0.8) ? 1 : logu(-3, 3)); return chance(0.05) ? 0. : x; }
static SUNMatrix sparse_rand(double (*d)[MX], int csc, double dens, int slack) {
  int i, j, np = csc ? N : M, ni = csc ? M : N, n = 0, idx[MX];
  char pat[MX][MX]; SUNMatrix a; sunindextype *p, *v; double *x;
  for (i = 0; i < M; i++) for (j = 0; j < N; j++) { pat[i][j] = chance(dens); n += pat[i][j]; }
  if (!n && !slack) slack = 1;
  a = SUNSparseMatrix(M, N, n + slack, csc ? CSC_MAT : CSR_MAT, sunctx_);
  if (!a) return NULL;
  p = SUNSparseMatrix_IndexPointers(a); v = SUNSparseMatrix_IndexValues(a); x = SUNSparseMatrix_Data(a);
  n = 0;
  for (j = 0; j < np; j++) {
    int k = 0, q;
    p[j] = n;
    for (i = 0; i < ni; i++) if (csc ? pat[i][j] : pat[j][i]) idx[k++] = i;
    if (chance(0.3)) for (q = k - 1; q > 0; q--) { int r = irnd(0, q), t = idx[q]; idx[q] = idx[r]; idx[r] = t; }   /* indices in any order */
    for (q = 0; q < k; q++) { v[n] = idx[q]; x[n] = rv(); if (csc) d[idx[q]][j] = x[n]; else d[j][idx[q]] = x[n]; n++; }
  }
  p[np] = n;
  return a;
}
static SUNMatrix band_new(void) {
  int mu = irnd(0, chance(0.5) ? (N - 1 < 3 ? N - 1 : 3) : N - 1), ml = irnd(0, chance(0.5) ? (N - 1 < 3 ? N - 1 : 3) : N - 1), r = irnd(0, 2);
  if (r == 0) return SUNBandMatrix(N, mu, ml, sunctx_);
  if (r == 1) return SUNBandMatrixStorage(N, mu, ml, mu + ml < N - 1 ? mu + ml : N - 1, sunctx_);
  return SUNBandMatrixStorage(N, mu, ml, mu + irnd(0, 3), sunctx_);
}
static void band_fill(SUNMatrix a, double (*d)[MX]) {
  int i, j; long mu = SUNBandMatrix_UpperBandwidth(a), ml = SUNBandMatrix_LowerBandwidth(a);
  for (j = 0; j < N; j++) {
    double *c = SUNBandMatrix_Column(a, j);
    for (i = 0; i < M; i++) if (i - j <= ml && j - i <= mu) d[i][j] = c[i - j] = rv();
  }
}
static SUNMatrix mk(double (*d)[MX]) {
  int i, j; SUNMatrix a = NULL;
  for (i = 0; i < M; i++) for (j = 0; j < N; j++) d[i][j] = 0;
  if (kind == 0) {
    a = SUNDenseMatrix(M, N, sunctx_);
    for (j = 0; a && j < N; j++) for (i = 0; i < M; i++) d[i][j] = SUNDenseMatrix_Column(a, j)[i] = rv();
  } else if (kind == 1) {
    a = band_new();
    if (a) band_fill(a, d);
  } else
    a = sparse_rand(d, kind == 2, chance(0.3) ? 1.0 : u01(), chance(0.5) ? irnd(0, 2 * (M < N ? M : N)) : chance(0.3) ? M * N : 0);
  if (!a) fail("create", "no matrix");
  return a;
}
static int cmp1(int k, double (*r)[MX], const char *op) {   /* matrix k unchanged */
  int i, j;
  for (i = 0; i < M; i++) for (j = 0; j < N; j++) if (!same(r[i][j], S[k][i][j]) && !(r[i][j] == 0 && S[k][i][j] == 0)) {
    fail(op, "matrix %d changed at (%d,%d): %.17g was %.17g", k, i, j, r[i][j], S[k][i][j]); return 1; }
  return 0;
}
static double R[MX][MX];
static LD want[MX][MX], bnd[MX][MX];
/* every matrix but the written one is unchanged; that one holds what is wanted */
static void check(int written, const char *op) {
  int k, i, j;
  for (k = 0; k < NP; k++) {
    if (readback(A[k], R, op)) return;
    if (k != written) { if (cmp1(k, R, op)) return; continue; }
    for (i = 0; i < M; i++) for (j = 0; j < N; j++) {
      if (!within("element", fabsl(R[i][j] - want[i][j]), bnd[i][j])) { fail(op, "element (%d,%d) is %.17g, should be %.17Lg", i, j, R[i][j], want[i][j]); return; }
      S[k][i][j] = R[i][j];
      if ((i * 7 + j) % 11 == 0) sigd(R[i][j]);
    }
  }
}
static void bandw(SUNMatrix a, long *mu, long *ml) { *mu = SUNBandMatrix_UpperBandwidth(a); *ml = SUNBandMatrix_LowerBandwidth(a); }
static double coef(void) { int r = irnd(0, 5); return r == 0 ? 0. : r == 1 ? 1. : r == 2 ? -1. : rv(); }
static void matvec(int a) {
  N_Vector x, y; int i, j, th = chance(0.2), rc;
  x = th ? N_VNew_Pthreads(N, 2, sunctx_) : N_VNew_Serial(N, sunctx_);
  y = th ? N_VNew_Pthreads(M, 2, sunctx_) : N_VNew_Serial(M, sunctx_);
  for (j = 0; j < N; j++) N_VGetArrayPointer(x)[j] = rv();
  for (i = 0; i < M; i++) N_VGetArrayPointer(y)[i] = rv();
  if (chance(0.5)) SUNMatMatvecSetup(A[a]);
  rc = SUNMatMatvec(A[a], x, y);
  if (rc) fail("matvec", "returned %d", rc);
  for (i = 0; i < M && !n_fail; i++) {
    LD s = 0, t = 0;
    for (j = 0; j < N; j++) { LD p = (LD)S[a][i][j] * N_VGetArrayPointer(x)[j]; s += p; t += fabsl(p); }
    if (!within("matvec", fabsl(N_VGetArrayPointer(y)[i] - s), (N + 2) * EPS * t)) fail("matvec", "row %d is %.17g, should be %.17Lg", i, N_VGetArrayPointer(y)[i], s);
    sigd(N_VGetArrayPointer(y)[i]);
  }
  if (M == N && SUNMatMatvec(A[a], x, x) == 0) fail("matvec", "the same vector as operand and result is accepted");
  N_VDestroy(x); N_VDestroy(y);
}
/* conversions */
static void convert(void) {
  int i, j, t = irnd(0, 1), k0 = kind; double d[MX][MX], tol = chance(0.5) ? 0. : fabs(rv()); SUNMatrix a, s;
  for (i = 0; i < M; i++) for (j = 0; j < N; j++) d[i][j] = 0;
  if (M == N && chance(0.5)) { a = band_new(); band_fill(a, d); s = SUNSparseFromBandMatrix(a, tol, t ? CSR_MAT : CSC_MAT); EV("from_band"); }
  else {
    double q = u01();
    a = SUNDenseMatrix(M, N, sunctx_);
    for (j = 0; j < N; j++) for (i = 0; i < M; i++) if (chance(q)) d[i][j] = SUNDenseMatrix_Column(a, j)[i] = rv();
    s = SUNSparseFromDenseMatrix(a, tol, t ? CSR_MAT : CSC_MAT); EV("from_dense");
  }
  if (!s) { fail("convert", "no matrix"); SUNMatDestroy(a); return; }
  kind = t ? 3 : 2;
  if (!readback(s, R, "convert")) {
    sunindextype n = 0;
    for (i = 0; i < M; i++) for (j = 0; j < N; j++) {
      double w = fabs(d[i][j]) > tol ? d[i][j] : 0.;
      n += w != 0;
      if (!same(R[i][j], w) && !(w == 0 && R[i][j] == 0)) fail("convert", "element (%d,%d) is %.17g, should be %.17g (drop tolerance %.17g)", i, j, R[i][j], w, tol);
    }
    if (SUNSparseMatrix_IndexPointers(s)[t ? M : N] != n) fail("convert", "%ld stored elements for %ld nonzeros", (long)SUNSparseMatrix_IndexPointers(s)[t ? M : N], (long)n);
    sigmix((uint64_t)n);
  }
  if (SUNSparseFromDenseMatrix(a, -1., CSC_MAT) != NULL && SUNMatGetID(a) == SUNMATRIX_DENSE) fail("convert", "a negative drop tolerance is accepted");
  SUNMatDestroy(a); SUNMatDestroy(s);
  kind = k0;
}
/* a printed matrix reads back */
static void print(int a) {
  char *b = NULL; size_t n = 0; FILE *f = open_memstream(&b, &n); int i, j; char *p;
  if (kind == 0) SUNDenseMatrix_Print(A[a], f); else if (kind == 1) SUNBandMatrix_Print(A[a], f); else SUNSparseMatrix_Print(A[a], f);
  fclose(f);
  p = b;
  if (kind <= 1) {
    long mu = N, ml = N;
    if (kind == 1) bandw(A[a], &mu, &ml);
    while (*p == '\n') p++;
    for (i = 0; i < M; i++) {
      char *e = strchr(p, '\n'), *q = p;
      if (!e) { fail("print", "%d of %d rows", i, M); break; }
      for (j = 0; j < N; j++) {
        if (i - j > ml) { q += 14; continue; }
        if (j - i > mu) break;
        { char *q2; double v = strtod(q, &q2);
          if (q2 == q || q2 > e || !(fabs(v - S[a][i][j]) <= 6e-6 * fabs(S[a][i][j]))) { fail("print", "(%d,%d) is printed as %.20s", i, j, q); break; }
          q = q2; }
      }
      p = e + 1;
    }
  } else {
    int np = kind == 2 ? N : M, k; sunindextype *ip = SUNSparseMatrix_IndexPointers(A[a]), q;
    char *h = strstr(b, " matrix, NNZ: "); long m1, n1;
    if (!h || sscanf(b, " %ld by %ld", &m1, &n1) != 2 || m1 != M || n1 != N || strncmp(h - 3, kind == 2 ? "CSC" : "CSR", 3)) fail("print", "heading");
    p = strchr(b + 1, '\n');
    for (k = 0; k < np && !n_fail; k++) {
      p = strstr(p, ": locations");
      if (!p) { fail("print", "%d of %d lines", k, np); break; }
      p = strchr(p, '\n') + 1;
      for (q = ip[k]; q < ip[k + 1]; q++) {
        char *e; long ix = strtol(p, &e, 10); double v;
        if (*e != ':') { fail("print", "element %ld", (long)q); break; }
        v = strtod(e + 1, &p);
        if (ix != SUNSparseMatrix_IndexValues(A[a])[q] || !(fabs(v - SUNSparseMatrix_Data(A[a])[q]) <= 1e-15 * fabs(v))) { fail("print", "element %ld is printed as %ld: %.17g", (long)q, ix, v); break; }
      }
    }
  }
  free(b);
}
static void one_case(const char *mode, long ic, int arg) {
  int k, op, i, j, n;
  kind = arg;
  M = chance(0.2) ? irnd(1, 3) : irnd(1, chance(0.1) ? MX : 14);
  N = kind == 1 || chance(0.5) ? M : irnd(1, chance(0.1) ? MX : 14);
  adddesc("%s %dx%d:", kind == 0 ? "dense" : kind == 1 ? "band" : kind == 2 ? "CSC" : "CSR", M, N);
  for (k = 0; k < NP; k++) { A[k] = mk(S[k]); if (!A[k]) return; }
  check(-1, "create");
  n = irnd(6, 25);
  for (op = 0; op < n && !n_fail; op++) {
    int a = irnd(0, NP - 1), b = irnd(0, NP - 1), rc; double c = coef(); SUNMatrix t;
    switch (irnd(0, 9)) {
    case 0: case 1:
      adddesc(" scaleadd(%.3g,%d,%d)", c, a, b);
      for (i = 0; i < M; i++) for (j = 0; j < N; j++) { LD p = (LD)c * S[a][i][j]; want[i][j] = p + S[b][i][j]; bnd[i][j] = 2 * EPS * (fabsl(p) + fabsl(S[b][i][j])); }
      rc = SUNMatScaleAdd(c, A[a], A[b]);
      if (rc) fail("scaleadd", "returned %d", rc); else check(a, "scaleadd");
      EV("scaleadd"); break;
    case 2: case 3:
      adddesc(" scaleaddi(%.3g,%d)", c, a);
      for (i = 0; i < M; i++) for (j = 0; j < N; j++) { LD p = (LD)c * S[a][i][j]; want[i][j] = p + (i == j); bnd[i][j] = 2 * EPS * (fabsl(p) + (i == j)); }
      rc = SUNMatScaleAddI(c, A[a]);
      if (rc) fail("scaleaddi", "returned %d", rc); else check(a, "scaleaddi");
      EV("scaleaddi"); break;
    case 4:
      if (a == b) break;
      adddesc(" copy(%d,%d)", a, b);
      for (i = 0; i < M; i++) for (j = 0; j < N; j++) { want[i][j] = S[a][i][j]; bnd[i][j] = 0; }
      rc = SUNMatCopy(A[a], A[b]);
      if (rc) fail("copy", "returned %d", rc); else check(b, "copy");
      EV("copy"); break;
    case 5:
      adddesc(" zero(%d)", a);
      for (i = 0; i < M; i++) for (j = 0; j < N; j++) want[i][j] = bnd[i][j] = 0;
      rc = SUNMatZero(A[a]);
      if (rc) fail("zero", "returned %d", rc); else check(a, "zero");
      EV("zero");
      if (chance(0.5)) { SUNMatDestroy(A[a]); A[a] = mk(S[a]); }          /* and something else there again */
      break;
    case 6: adddesc(" matvec(%d)", a); matvec(a); check(-1, "matvec"); EV("matvec"); break;
    case 7: {                                     /* clone, with storage of its own */
      long r1 = -1, i1 = -1, r2 = -2, i2 = -2, want_r = 0;
      adddesc(" clone(%d)", b);
      t = SUNMatClone(A[b]);
      if (!t) { fail("clone", "no matrix"); break; }
      if (SUNMatSpace(A[b], &r1, &i1) || SUNMatSpace(t, &r2, &i2) || r1 != r2 || i1 != i2) fail("clone", "space %ld %ld and %ld %ld", r1, i1, r2, i2);
      if (kind == 0) want_r = (long)M * N; else if (kind == 1) want_r = SUNBandMatrix_LDim(A[b]) * N; else want_r = SUNSparseMatrix_NNZ(A[b]);
      if (r1 != want_r) fail("space", "%ld reals, %ld held", r1, want_r);
      if (a == b) { SUNMatDestroy(t); break; }
      rc = SUNMatCopy(A[b], t);
      if (rc) { fail("clone", "copy returned %d", rc); SUNMatDestroy(t); break; }
      SUNMatDestroy(A[a]); A[a] = t;
      for (i = 0; i < M; i++) for (j = 0; j < N; j++) { want[i][j] = S[b][i][j]; bnd[i][j] = 0; }
      check(a, "clone"); EV("clone"); break; }
    case 8:
      if (kind >= 2) {
        int w = irnd(0, 3), np = kind == 2 ? N : M; sunindextype nz = SUNSparseMatrix_IndexPointers(A[a])[np];
        if (w == 0 && nz > 0) {
          adddesc(" realloc(%d)", a); rc = SUNSparseMatrix_Realloc(A[a]);
          if (rc || SUNSparseMatrix_NNZ(A[a]) != nz) fail("realloc", "returned %d, room for %ld of %ld", rc, (long)SUNSparseMatrix_NNZ(A[a]), (long)nz);
          EV("realloc");
        } else if (w == 1) {
          int s = irnd(1, 2 * M); adddesc(" reallocate(%d,%d)", a, (int)nz + s); rc = SUNSparseMatrix_Reallocate(A[a], nz + s);
          if (rc || SUNSparseMatrix_NNZ(A[a]) != nz + s) fail("reallocate", "returned %d, room for %ld", rc, (long)SUNSparseMatrix_NNZ(A[a]));
          EV("reallocate");
        } else {                                  /* to the other form and back: the same matrix */
          SUNMatrix u = NULL, v = NULL; int k0 = kind;
          adddesc(" turn(%d)", a);
          rc = kind == 2 ? SUNSparseMatrix_ToCSR(A[a], &u) : SUNSparseMatrix_ToCSC(A[a], &u);
          if (rc || !u) { fail("turn", "returned %d", rc); break; }
          kind = 5 - kind;
          if (!readback(u, R, "turn")) cmp1(a, R, "turn");
          rc = kind == 2 ? SUNSparseMatrix_ToCSR(u, &v) : SUNSparseMatrix_ToCSC(u, &v);
          kind = k0;
          if (rc || !v) { fail("turn", "returned %d", rc); SUNMatDestroy(u); break; }
          if (!readback(v, R, "turn")) cmp1(a, R, "turn");
          if ((kind == 2 ? SUNSparseMatrix_ToCSC(A[a], &u) : SUNSparseMatrix_ToCSR(A[a], &u)) == 0) fail("turn", "the form it has is accepted");
          SUNMatDestroy(u); SUNMatDestroy(v); EV("turn");
        }
        check(-1, "storage");
      } else if (chance(0.5)) { adddesc(" convert"); convert(); }
      break;
    case 9:
      if (chance(0.3)) { adddesc(" print(%d)", a); print(a); check(-1, "print"); EV("print"); }
      else if (chance(0.5)) {                     /* shapes or kinds that do not fit are refused */
        int m0 = M, n0 = N, k0 = kind; static double d[MX][MX];
        if (chance(0.5)) { M = M % MX + 1; if (kind == 1) N = M; } else { kind = (kind + irnd(1, 3)) % 4; if (kind == 1) N = M; }
        t = mk(d); M = m0; N = n0; kind = k0;
        adddesc(" misfit(%d)", a);
        if (t) {
          if (SUNMatScaleAdd(c, A[a], t) == 0) fail("misfit", "scaleadd accepts it");
          if (SUNMatCopy(t, A[a]) == 0) fail("misfit", "copy accepts it");
          SUNMatDestroy(t);
        }
        check(-1, "misfit"); EV("misfit");
      }
      break;
    }
  }
  EV(kind == 0 ? "dense" : kind == 1 ? "band" : kind == 2 ? "CSC" : "CSR");
  for (k = 0; k < NP; k++) SUNMatDestroy(A[k]);
}
