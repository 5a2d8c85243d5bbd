// Small dense reference linear algebra in long double, written independently of Eigen. Used by
// the oracles only.
#pragma once
#include <algorithm>
#include <cmath>
#include <limits>
#include <optional>
#include <vector>

namespace ref {
using Real = long double;
using Vec = std::vector<Real>;

struct Mat {
  int r = 0, c = 0;
  std::vector<Real> d;
  Mat() = default;
  Mat(int rows, int cols) : r(rows), c(cols), d(static_cast<size_t>(rows) * static_cast<size_t>(cols), 0.0L) {}
  Real& operator()(int i, int j) { return d[static_cast<size_t>(i) * static_cast<size_t>(c) + static_cast<size_t>(j)]; }
  Real operator()(int i, int j) const { return d[static_cast<size_t>(i) * static_cast<size_t>(c) + static_cast<size_t>(j)]; }
};

inline Vec mul(const Mat& A, const Vec& x) {
  Vec y(static_cast<size_t>(A.r), 0.0L);
  for (int i = 0; i < A.r; ++i)
    for (int j = 0; j < A.c; ++j) y[static_cast<size_t>(i)] += A(i, j) * x[static_cast<size_t>(j)];
  return y;
}
inline Vec mulT(const Mat& A, const Vec& x) {
  Vec y(static_cast<size_t>(A.c), 0.0L);
  for (int i = 0; i < A.r; ++i)
    for (int j = 0; j < A.c; ++j) y[static_cast<size_t>(j)] += A(i, j) * x[static_cast<size_t>(i)];
  return y;
}
inline Mat mul(const Mat& A, const Mat& B) {
  Mat C(A.r, B.c);
  for (int i = 0; i < A.r; ++i)
    for (int k = 0; k < A.c; ++k)
      for (int j = 0; j < B.c; ++j) C(i, j) += A(i, k) * B(k, j);
  return C;
}
inline Mat transpose(const Mat& A) {
  Mat B(A.c, A.r);
  for (int i = 0; i < A.r; ++i)
    for (int j = 0; j < A.c; ++j) B(j, i) = A(i, j);
  return B;
}
inline Real dot(const Vec& a, const Vec& b) {
  Real s = 0;
  for (size_t i = 0; i < a.size(); ++i) s += a[i] * b[i];
  return s;
}
inline Real norm(const Vec& a) { return std::sqrt(dot(a, a)); }
inline Real maxabs(const Vec& a) {
  Real m = 0;
  for (Real v : a) m = std::max(m, std::abs(v));
  return m;
}

// Solve with full pivoting; nullopt if numerically singular. `rcond_out`: smallest/largest pivot.
inline std::optional<Vec> solve(Mat A, Vec b, Real* pivot_ratio = nullptr) {
  const int n = A.r;
  std::vector<int> colp(static_cast<size_t>(n));
  for (int i = 0; i < n; ++i) colp[static_cast<size_t>(i)] = i;
  Real maxp = 0, minp = std::numeric_limits<Real>::infinity();
  for (int k = 0; k < n; ++k) {
    int pi = k, pj = k;
    Real best = -1;
    for (int i = k; i < n; ++i)
      for (int j = k; j < n; ++j)
        if (std::abs(A(i, j)) > best) {
          best = std::abs(A(i, j));
          pi = i;
          pj = j;
        }
    if (!(best > 0)) return std::nullopt;
    maxp = std::max(maxp, best);
    minp = std::min(minp, best);
    if (pi != k) {
      for (int j = 0; j < n; ++j) std::swap(A(k, j), A(pi, j));
      std::swap(b[static_cast<size_t>(k)], b[static_cast<size_t>(pi)]);
    }
    if (pj != k) {
      for (int i = 0; i < n; ++i) std::swap(A(i, k), A(i, pj));
      std::swap(colp[static_cast<size_t>(k)], colp[static_cast<size_t>(pj)]);
    }
    for (int i = k + 1; i < n; ++i) {
      const Real f = A(i, k) / A(k, k);
      if (f == 0) continue;
      for (int j = k; j < n; ++j) A(i, j) -= f * A(k, j);
      b[static_cast<size_t>(i)] -= f * b[static_cast<size_t>(k)];
    }
  }
  Vec y(static_cast<size_t>(n), 0.0L);
  for (int i = n - 1; i >= 0; --i) {
    Real s = b[static_cast<size_t>(i)];
    for (int j = i + 1; j < n; ++j) s -= A(i, j) * y[static_cast<size_t>(j)];
    y[static_cast<size_t>(i)] = s / A(i, i);
  }
  Vec x(static_cast<size_t>(n), 0.0L);
  for (int i = 0; i < n; ++i) x[static_cast<size_t>(colp[static_cast<size_t>(i)])] = y[static_cast<size_t>(i)];
  if (pivot_ratio) *pivot_ratio = n ? minp / maxp : 1.0L;
  return x;
}

// Orthonormal basis of null(A) (columns), and the rank, via modified Gram-Schmidt on rows.
// `tol` is relative to each row's norm.
inline Mat nullspace(const Mat& A, int* rank_out, Real tol = 1e-9L) {
  const int n = A.c;
  std::vector<Vec> q;
  auto orth = [&](Vec v) {
    for (int pass = 0; pass < 2; ++pass)
      for (const Vec& u : q) {
        const Real d = dot(u, v);
        for (int i = 0; i < n; ++i) v[static_cast<size_t>(i)] -= d * u[static_cast<size_t>(i)];
      }
    return v;
  };
  // greedy: pick the row with the largest relative residual each time
  std::vector<bool> used(static_cast<size_t>(A.r), false);
  for (;;) {
    int best = -1;
    Real bestv = tol;
    Vec bestvec;
    for (int i = 0; i < A.r; ++i) {
      if (used[static_cast<size_t>(i)]) continue;
      Vec v(static_cast<size_t>(n));
      for (int j = 0; j < n; ++j) v[static_cast<size_t>(j)] = A(i, j);
      const Real nv = norm(v);
      if (!(nv > 0)) continue;
      Vec o = orth(v);
      const Real rel = norm(o) / nv;
      if (rel > bestv) {
        bestv = rel;
        best = i;
        bestvec = o;
      }
    }
    if (best < 0) break;
    used[static_cast<size_t>(best)] = true;
    const Real nb = norm(bestvec);
    for (Real& v : bestvec) v /= nb;
    q.push_back(bestvec);
    if (static_cast<int>(q.size()) == n) break;
  }
  const int rank = static_cast<int>(q.size());
  if (rank_out) *rank_out = rank;
  Mat Z(n, n - rank);
  std::vector<bool> usede(static_cast<size_t>(n), false);
  for (int k = 0; k < n - rank; ++k) {
    int best = -1;
    Real bestv = -1;
    Vec bv;
    for (int e = 0; e < n; ++e) {
      if (usede[static_cast<size_t>(e)]) continue;
      Vec v(static_cast<size_t>(n), 0.0L);
      v[static_cast<size_t>(e)] = 1;
      Vec o = orth(v);
      const Real no = norm(o);
      if (no > bestv) {
        bestv = no;
        best = e;
        bv = o;
      }
    }
    usede[static_cast<size_t>(best)] = true;
    for (Real& v : bv) v /= bestv;
    bv = orth(bv);
    const Real nb = norm(bv);
    for (Real& v : bv) v /= nb;
    for (int i = 0; i < n; ++i) Z(i, k) = bv[static_cast<size_t>(i)];
    q.push_back(bv);
  }
  return Z;
}

// Eigenvalues of a symmetric matrix (cyclic Jacobi), ascending.
inline Vec eigenvalues(Mat A) {
  const int n = A.r;
  for (int sweep = 0; sweep < 100; ++sweep) {
    Real off = 0, diag = 0;
    for (int i = 0; i < n; ++i) {
      diag += A(i, i) * A(i, i);
      for (int j = 0; j < i; ++j) off += A(i, j) * A(i, j);
    }
    if (off <= 1e-36L * (diag + off) || off == 0) break;
    for (int p = 0; p < n; ++p)
      for (int q = p + 1; q < n; ++q) {
        if (A(p, q) == 0) continue;
        const Real theta = (A(q, q) - A(p, p)) / (2 * A(p, q));
        const Real t = (theta >= 0 ? 1.0L : -1.0L) / (std::abs(theta) + std::sqrt(theta * theta + 1));
        const Real c = 1 / std::sqrt(t * t + 1), s = t * c;
        for (int k = 0; k < n; ++k) {
          const Real akp = A(k, p), akq = A(k, q);
          A(k, p) = c * akp - s * akq;
          A(k, q) = s * akp + c * akq;
        }
        for (int k = 0; k < n; ++k) {
          const Real apk = A(p, k), aqk = A(q, k);
          A(p, k) = c * apk - s * aqk;
          A(q, k) = s * apk + c * aqk;
        }
      }
  }
  Vec e(static_cast<size_t>(n));
  for (int i = 0; i < n; ++i) e[static_cast<size_t>(i)] = A(i, i);
  std::sort(e.begin(), e.end());
  return e;
}

}  // namespace ref
