// Generators of quadratic programs and an independent (long double) evaluation of their KKT system.
#pragma once
#include <Eigen/Core>

#include "mini_opt/qp.hpp"
#include "ref.hpp"
#include "vh.hpp"

namespace gq {
using mini_opt::LinearInequalityConstraint;
using mini_opt::QP;
using ref::Mat;
using ref::Real;
using ref::Vec;
using vh::Rng;

inline size_t S(long i) { return static_cast<size_t>(i); }

// Random orthogonal matrix (Gram-Schmidt).
inline uint64_t hash_vec(const Vec& v) {
  uint64_t h = 11;
  for (Real e : v) {
    const double d = static_cast<double>(e);
    h = vh::hash_doubles(&d, 1, h);
  }
  return h;
}

inline Mat random_orthogonal(Rng& rng, int n) {
  Mat Q(n, n);
  for (int j = 0; j < n; ++j) {
    for (;;) {
      Vec v(S(n));
      for (auto& e : v) e = rng.normal();
      for (int pass = 0; pass < 2; ++pass)
        for (int k = 0; k < j; ++k) {
          Real d = 0;
          for (int i = 0; i < n; ++i) d += v[S(i)] * Q(i, k);
          for (int i = 0; i < n; ++i) v[S(i)] -= d * Q(i, k);
        }
      const Real nv = ref::norm(v);
      if (nv < 0.1L) continue;
      for (int i = 0; i < n; ++i) Q(i, j) = v[S(i)] / nv;
      break;
    }
  }
  return Q;
}

// Symmetric matrix with the given eigenvalues.
inline Mat sym_from_eigs(Rng& rng, const Vec& eigs) {
  const int n = static_cast<int>(eigs.size());
  const Mat Q = random_orthogonal(rng, n);
  Mat G(n, n);
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j) {
      Real s = 0;
      for (int k = 0; k < n; ++k) s += Q(i, k) * eigs[S(k)] * Q(j, k);
      G(i, j) = s;
    }
  return G;
}

// `poison_upper`: fill the strict upper triangle with garbage, which the solvers must not read.
inline Eigen::MatrixXd to_eigen_sym(Rng& rng, const Mat& G, int poison_upper) {
  Eigen::MatrixXd E(G.r, G.c);
  for (int i = 0; i < G.r; ++i)
    for (int j = 0; j < G.c; ++j) E(i, j) = static_cast<double>(i >= j ? G(i, j) : G(j, i));
  if (poison_upper)
    for (int i = 0; i < G.r; ++i)
      for (int j = i + 1; j < G.c; ++j)
        E(i, j) = poison_upper == 1 ? 0.0 : rng.uni(-50, 50);
  return E;
}

// Rows with bounded condition number.
inline Mat random_eq(Rng& rng, int K, int N) {
  const Mat Q = random_orthogonal(rng, N);
  Mat A(K, N);
  for (int i = 0; i < K; ++i) {
    const Real sc = rng.uni(0.5, 2.0);
    for (int j = 0; j < N; ++j) A(i, j) = sc * Q(j, i);
  }
  // mix rows a little
  for (int i = 1; i < K; ++i) {
    const Real f = rng.uni(-0.5, 0.5);
    for (int j = 0; j < N; ++j) A(i, j) += f * A(i - 1, j);
  }
  if (rng.chance(0.3)) {
    for (auto& v : A.d)
      if (rng.chance(0.15)) v = 0.0L;
  }
  for (auto& v : A.d) v = static_cast<double>(v);
  return A;
}

struct Known {
  bool valid = false;
  Vec x, y, z, s;
  bool unique_multipliers = false;
  double gmin = 0;
};

struct Case {
  QP qp;
  Known known;
  std::string family;
};

inline int dimN(const QP& q) { return static_cast<int>(q.G.rows()); }
inline int dimM(const QP& q) { return static_cast<int>(q.constraints.size()); }
inline int dimK(const QP& q) { return static_cast<int>(q.A_eq.rows()); }

// A convex QP built from its solution. x = 0 is strictly feasible w.r.t. the inequalities with
// slack >= 0.05 and the optimum is strictly complementary.
inline Case known_solution(Rng& rng, int nmax, double condmax) {
  Case cs;
  cs.family = "known";
  const int N = rng.irange(1, nmax);
  const int K = rng.chance(0.4) ? 0 : rng.irange(0, N - 1);
  Vec eigs(S(N));
  const double cond = rng.chance(0.3) ? 1.0 : rng.logu(1.0, condmax);
  for (auto& e : eigs) e = rng.logu(1.0 / std::sqrt(cond), std::sqrt(cond) * 1.0000001);
  const Mat G = sym_from_eigs(rng, eigs);
  cs.qp.G = to_eigen_sym(rng, G, rng.chance(0.4) ? rng.irange(1, 2) : 0);
  const Mat A = random_eq(rng, K, N);
  int rank = 0;
  const Mat Z = ref::nullspace(A, &rank, 1e-3L);
  (void)Z;
  Vec xs(S(N)), ys(S(K));
  for (auto& v : xs) v = rng.sgn() * rng.uni(0.3, 3.0);
  for (auto& v : ys) v = rng.uni(-3, 3);
  // inequality constraints
  int M = rng.chance(0.12) ? 0 : rng.irange(1, 2 * N + 1);
  std::vector<int> active_var;
  Vec zs, ss;
  std::vector<bool> var_active(S(N), false);
  int nact = 0;
  const bool allow_repeat_active = rng.chance(0.2);
  bool repeated = false;
  for (int i = 0; i < M; ++i) {
    const int v = rng.irange(0, N - 1);
    const double mag = rng.chance(0.5) ? 1.0 : rng.uni(0.3, 3.0);
    const bool want_active = rng.chance(0.4) && nact < N - K && (!var_active[S(v)] || allow_repeat_active);
    if (want_active) {
      const double a = xs[S(v)] > 0 ? -mag : mag;
      cs.qp.constraints.emplace_back(v, a, static_cast<double>(-a * xs[S(v)]));
      zs.push_back(rng.uni(0.1, 3.0));
      ss.push_back(0);
      if (var_active[S(v)]) repeated = true;
      if (!var_active[S(v)]) ++nact;
      var_active[S(v)] = true;
      active_var.push_back(v);
    } else {
      const double a = rng.sgn() * mag;
      const double ax = static_cast<double>(a * xs[S(v)]);
      const double b = std::max(0.0, -ax) + rng.uni(0.1, 2.0);
      cs.qp.constraints.emplace_back(v, a, b);
      zs.push_back(0);
      ss.push_back(a * static_cast<Real>(xs[S(v)]) + b);
    }
  }
  M = dimM(cs.qp);
  // c = -G x + A^T y + Ai^T z
  cs.qp.c.resize(N);
  Vec c(S(N), 0.0L);
  for (int i = 0; i < N; ++i) {
    Real s = 0;
    for (int j = 0; j < N; ++j) s -= static_cast<Real>(i >= j ? cs.qp.G(i, j) : cs.qp.G(j, i)) * xs[S(j)];
    for (int k = 0; k < K; ++k) s += A(k, i) * ys[S(k)];
    c[S(i)] = s;
  }
  for (int i = 0; i < M; ++i) c[S(cs.qp.constraints[S(i)].variable)] += cs.qp.constraints[S(i)].a * zs[S(i)];
  for (int i = 0; i < N; ++i) cs.qp.c[i] = static_cast<double>(c[S(i)]);
  cs.qp.A_eq.resize(K, K ? N : 0);
  cs.qp.b_eq.resize(K);
  if (K == 0 && rng.chance(0.5)) cs.qp.A_eq.resize(0, N);
  for (int k = 0; k < K; ++k) {
    Real s = 0;
    for (int j = 0; j < N; ++j) {
      cs.qp.A_eq(k, j) = static_cast<double>(A(k, j));
      s += A(k, j) * xs[S(j)];
    }
    cs.qp.b_eq[k] = static_cast<double>(-s);
  }
  // Multipliers are unique if the active gradients are independent.
  Mat B(K + static_cast<int>(active_var.size()), N);
  for (int k = 0; k < K; ++k)
    for (int j = 0; j < N; ++j) B(k, j) = A(k, j);
  for (size_t i = 0; i < active_var.size(); ++i) B(K + static_cast<int>(i), active_var[i]) = 1;
  int brank = 0;
  ref::nullspace(B, &brank, 0.05L);
  cs.known.valid = (rank == K);
  cs.known.unique_multipliers = !repeated && brank == B.r;
  cs.known.x = xs;
  cs.known.y = ys;
  cs.known.z = zs;
  cs.known.s = ss;
  Real gm = eigs[0];
  for (auto e : eigs) gm = std::min(gm, e);
  cs.known.gmin = static_cast<double>(gm);
  return cs;
}

// Feasible but otherwise arbitrary problem; the naive start may need clamping.
inline Case random_feasible(Rng& rng, int nmax, bool pd_only = false) {
  Case cs;
  cs.family = "feasible";
  const int N = rng.irange(1, nmax);
  const int K = rng.chance(0.5) ? 0 : rng.irange(0, N - 1);
  const double cond = rng.logu(1.0, 1e4);
  const double scale = rng.chance(0.7) ? 1.0 : rng.logu(1e-3, 1e3);
  Vec eigs(S(N));
  for (auto& e : eigs) e = scale * rng.logu(1.0 / std::sqrt(cond), std::sqrt(cond) * 1.0000001);
  const double kind = pd_only ? 1.0 : rng.u01();
  if (kind < 0.1) {
    eigs[0] = -scale * rng.uni(0.1, 2.0);  // indefinite
    cs.family = "indefinite";
  } else if (kind < 0.2) {
    eigs[0] = 0;
    cs.family = "singular";
  }
  cs.qp.G = to_eigen_sym(rng, sym_from_eigs(rng, eigs), rng.chance(0.4) ? rng.irange(1, 2) : 0);
  cs.qp.c.resize(N);
  for (int i = 0; i < N; ++i) cs.qp.c[i] = rng.uni(-3, 3) * scale;
  const Mat A = random_eq(rng, K, N);
  Vec x0(S(N));
  for (auto& v : x0) v = rng.uni(-2, 2);
  cs.qp.A_eq.resize(K, K ? N : 0);
  cs.qp.b_eq.resize(K);
  for (int k = 0; k < K; ++k) {
    Real s = 0;
    for (int j = 0; j < N; ++j) {
      cs.qp.A_eq(k, j) = static_cast<double>(A(k, j));
      s += A(k, j) * x0[S(j)];
    }
    cs.qp.b_eq[k] = static_cast<double>(-s);
  }
  const int M = rng.chance(0.1) ? 0 : rng.irange(1, 3 * N);
  for (int i = 0; i < M; ++i) {
    const int v = rng.irange(0, N - 1);
    const double a = rng.sgn() * (rng.chance(0.5) ? 1.0 : rng.logu(0.05, 20.0));
    const double slack = rng.chance(0.1) ? rng.logu(1e-6, 1e-1) : rng.uni(0.05, 3.0);
    cs.qp.constraints.emplace_back(v, a, static_cast<double>(-a * x0[S(v)]) + slack);
    if (rng.chance(0.1)) cs.qp.constraints.push_back(cs.qp.constraints.back());  // exact duplicate
  }
  return cs;
}

// ---------------------------------------------------------------------------------------------
// Independent evaluation of the KKT conditions.

struct Point {
  Vec x, s, y, z;
};

inline Point split(const QP& q, const Eigen::VectorXd& v) {
  const int N = dimN(q), M = dimM(q), K = dimK(q);
  Point p;
  for (int i = 0; i < N; ++i) p.x.push_back(v[i]);
  for (int i = 0; i < M; ++i) p.s.push_back(v[N + i]);
  for (int i = 0; i < K; ++i) p.y.push_back(v[N + M + i]);
  for (int i = 0; i < M; ++i) p.z.push_back(v[N + M + K + i]);
  return p;
}

inline Real Gat(const QP& q, int i, int j) { return i >= j ? q.G(i, j) : q.G(j, i); }

struct Residuals {
  Vec rd, rpe, rpi, sz;   // stationarity, A x + b, a x + b - s, s .* z
  Vec rd_mag, rpe_mag, rpi_mag;  // sums of absolute values of the terms
  Real comp_mean = 0;
};

inline Residuals kkt(const QP& q, const Point& p) {
  const int N = dimN(q), M = dimM(q), K = dimK(q);
  Residuals r;
  r.rd.assign(S(N), 0);
  r.rd_mag.assign(S(N), 0);
  for (int i = 0; i < N; ++i) {
    Real s = q.c[i], m = std::abs(s);
    for (int j = 0; j < N; ++j) {
      const Real t = Gat(q, i, j) * p.x[S(j)];
      s += t;
      m += std::abs(t);
    }
    for (int k = 0; k < K; ++k) {
      const Real t = static_cast<Real>(q.A_eq(k, i)) * p.y[S(k)];
      s -= t;
      m += std::abs(t);
    }
    r.rd[S(i)] = s;
    r.rd_mag[S(i)] = m;
  }
  for (int k = 0; k < K; ++k) {
    Real s = q.b_eq[k], m = std::abs(s);
    for (int j = 0; j < N; ++j) {
      const Real t = static_cast<Real>(q.A_eq(k, j)) * p.x[S(j)];
      s += t;
      m += std::abs(t);
    }
    r.rpe.push_back(s);
    r.rpe_mag.push_back(m);
  }
  for (int i = 0; i < M; ++i) {
    const auto& c = q.constraints[S(i)];
    const Real t = static_cast<Real>(c.a) * p.z[S(i)];
    r.rd[S(c.variable)] -= t;
    r.rd_mag[S(c.variable)] += std::abs(t);
    const Real ax = static_cast<Real>(c.a) * p.x[S(c.variable)];
    r.rpi.push_back(ax + c.b - p.s[S(i)]);
    r.rpi_mag.push_back(std::abs(ax) + std::abs(c.b) + std::abs(p.s[S(i)]));
    r.sz.push_back(p.s[S(i)] * p.z[S(i)]);
    r.comp_mean += p.s[S(i)] * p.z[S(i)];
  }
  if (M) r.comp_mean /= M;
  return r;
}

inline Real comp_norm(const Residuals& r, Real mu) {
  Real s = 0;
  for (Real v : r.sz) s += (v - mu) * (v - mu);
  return std::sqrt(s);
}

// Solve the full (uneliminated) Newton system (19.12) of the perturbed KKT conditions:
//   G px - A^T py - Ai^T pz = -rd
//   Z ps + S pz             = -(sz + corr - mu)
//   A px                    = -rpe
//   Ai px - ps              = -rpi
// Returns false if it is numerically too hard to serve as a reference.
inline bool newton(const QP& q, const Point& p, const Residuals& r, Real mu, const Vec& corr, Point* out,
                   Real* ratio) {
  const int N = dimN(q), M = dimM(q), K = dimK(q), T = N + 2 * M + K;
  Mat H(T, T);
  Vec b(S(T), 0.0L);
  const int is = N, iy = N + M, iz = N + M + K;
  for (int i = 0; i < N; ++i) {
    for (int j = 0; j < N; ++j) H(i, j) = Gat(q, i, j);
    for (int k = 0; k < K; ++k) H(i, iy + k) = -static_cast<Real>(q.A_eq(k, i));
    b[S(i)] = -r.rd[S(i)];
  }
  for (int i = 0; i < M; ++i) {
    const auto& c = q.constraints[S(i)];
    H(c.variable, iz + i) -= c.a;
    const Real sc = std::max(p.z[S(i)], p.s[S(i)]);  // row scaling
    H(is + i, is + i) = p.z[S(i)] / sc;
    H(is + i, iz + i) = p.s[S(i)] / sc;
    b[S(is + i)] = -(r.sz[S(i)] + corr[S(i)] - mu) / sc;
    H(iz + i, c.variable) = c.a;
    H(iz + i, is + i) = -1;
    b[S(iz + i)] = -r.rpi[S(i)];
  }
  for (int k = 0; k < K; ++k) {
    for (int j = 0; j < N; ++j) H(iy + k, j) = q.A_eq(k, j);
    b[S(iy + k)] = -r.rpe[S(k)];
  }
  Real pr = 0;
  const auto sol = ref::solve(H, b, &pr);
  if (ratio) *ratio = pr;
  if (!sol) return false;
  out->x.assign(sol->begin(), sol->begin() + N);
  out->s.assign(sol->begin() + N, sol->begin() + N + M);
  out->y.assign(sol->begin() + N + M, sol->begin() + N + M + K);
  out->z.assign(sol->begin() + N + M + K, sol->end());
  return true;
}

inline std::string describe(const QP& q) {
  std::string o = vh::strf("N=%d M=%d K=%d G_lower=[", dimN(q), dimM(q), dimK(q));
  for (int i = 0; i < dimN(q); ++i)
    for (int j = 0; j <= i; ++j) o += vh::strf("%.17g ", q.G(i, j));
  o += "] c=[";
  for (int i = 0; i < q.c.rows(); ++i) o += vh::strf("%.17g ", q.c[i]);
  o += "] A=[";
  for (int i = 0; i < q.A_eq.rows(); ++i)
    for (int j = 0; j < q.A_eq.cols(); ++j) o += vh::strf("%.17g ", q.A_eq(i, j));
  o += "] b=[";
  for (int i = 0; i < q.b_eq.rows(); ++i) o += vh::strf("%.17g ", q.b_eq[i]);
  o += "] ineq=[";
  for (const auto& c : q.constraints) o += vh::strf("(%d,%.17g,%.17g) ", c.variable, c.a, c.b);
  return o + "]";
}

}  // namespace gq
