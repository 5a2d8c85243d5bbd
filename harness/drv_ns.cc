// C06: the null-space solver against an independent solution of the equality constrained QP.
#include "genqp.hpp"

using namespace gq;
using mini_opt::QPNullSpaceSolver;
using mini_opt::QPNullSpaceTerminationState;
using vh::strf;

static vh::Reporter* R;

static std::string describe_ns(const QP& q) {
  std::string o = gq::describe(q);
  return o;
}

static void one(Rng& rng, QPNullSpaceSolver& solver, bool fresh) {
  const int N = rng.chance(0.1) ? rng.irange(9, 20) : rng.irange(1, 8);
  int r = rng.irange(1, N);
  if (rng.chance(0.15)) r = N;                   // constraints determine everything
  if (rng.chance(0.02)) r = 0;                   // only trivial rows 0 = 0
  const Mat Q = random_orthogonal(rng, N);
  // base rows span the first r columns of Q
  const bool scaled = rng.chance(0.3);
  Mat B(r, N);
  for (int i = 0; i < r; ++i) {
    Vec mix(S(r), 0.0L);
    mix[S(i)] = 1;
    for (int j = 0; j < i; ++j) mix[S(j)] = rng.chance(0.5) ? rng.uni(-1, 1) : 0.0;
    const Real sc = scaled ? rng.logu(1e-2, 1e2) : rng.uni(0.5, 2);
    for (int j = 0; j < N; ++j) {
      Real t = 0;
      for (int k = 0; k < r; ++k) t += mix[S(k)] * Q(j, k);
      B(i, j) = static_cast<double>(sc * t);
    }
  }
  // sparse selector rows are typical for users
  bool selector = r > 0 && rng.chance(0.2);
  if (selector) {
    const auto perm = rng.perm(N);
    for (int i = 0; i < r; ++i)
      for (int j = 0; j < N; ++j) B(i, j) = j == perm[S(i)] ? (rng.chance(0.5) ? 1.0 : static_cast<double>(rng.sgn() * rng.uni(0.5, 2))) : 0.0;
  }
  // nearly (but not) dependent rows: the constraints still all count
  double delta = 1;
  if (r >= 2 && !scaled && rng.chance(0.12)) {
    delta = rng.logu(1e-7, 1e-3);
    const int a = rng.irange(0, r - 1), b = (a + rng.irange(1, r - 1)) % r;
    for (int j = 0; j < N; ++j) B(a, j) = static_cast<double>(B(b, j) + delta * B(a, j));
  }
  int extra = rng.chance(0.55) ? 0 : rng.irange(1, rng.chance(0.2) ? 2 * N : 3);
  if (r == 0) extra = std::max(extra, 1);
  std::vector<std::vector<double>> rows;
  std::vector<bool> base;
  for (int i = 0; i < r; ++i) {
    std::vector<double> v(S(N));
    for (int j = 0; j < N; ++j) v[S(j)] = static_cast<double>(B(i, j));
    rows.push_back(v);
    base.push_back(true);
  }
  for (int e = 0; e < extra; ++e) {
    std::vector<double> v(S(N), 0.0);
    const int kind = r == 0 ? 0 : rng.irange(0, 4);
    if (kind == 1 || kind == 2) {
      const int i = rng.irange(0, r - 1);
      const double f = kind == 1 ? 1.0 : rng.sgn() * rng.logu(0.1, 10.0);
      for (int j = 0; j < N; ++j) v[S(j)] = f * rows[S(i)][S(j)];
    } else if (kind >= 3) {
      for (int i = 0; i < r; ++i) {
        const double f = rng.uni(-2, 2);
        for (int j = 0; j < N; ++j) v[S(j)] += f * rows[S(i)][S(j)];
      }
    }
    rows.push_back(v);
    base.push_back(false);
  }
  const int K = static_cast<int>(rows.size());
  const auto order = rng.perm(K);
  QP q;
  q.A_eq.resize(K, N);
  std::vector<int> base_rows;
  for (int k = 0; k < K; ++k) {
    for (int j = 0; j < N; ++j) q.A_eq(k, j) = rows[S(order[S(k)])][S(j)];
    if (base[S(order[S(k)])]) base_rows.push_back(k);
  }
  // Hessian in the basis [range(A^T), null(A)]
  // for selector rows the basis is the coordinate basis
  Mat Zb;
  int rank = 0;
  {
    Mat A(K, N);
    for (int k = 0; k < K; ++k)
      for (int j = 0; j < N; ++j) A(k, j) = q.A_eq(k, j);
    Zb = ref::nullspace(A, &rank, 1e-10L);
    int rank2 = 0;
    ref::nullspace(A, &rank2, 1e-5L * static_cast<Real>(delta));
    if (rank != r || rank2 != r) {
      R->count("skipped-rank");
      return;
    }
  }
  const int nz = N - r;
  Vec eigs(S(nz));
  const double cond = rng.logu(1.0, 1e4);
  for (auto& e : eigs) e = rng.logu(1.0 / std::sqrt(cond), std::sqrt(cond) * 1.0000001);
  const bool indefinite = nz > 0 && rng.chance(0.25);
  if (indefinite) {
    const int howmany = rng.chance(0.6) ? 1 : rng.irange(1, nz);
    for (int i = 0; i < howmany; ++i) eigs[S(i)] = -rng.logu(0.02, 5.0);
  }
  const double gscale = rng.chance(0.7) ? 1.0 : rng.logu(1e-6, 1e6);
  // G = Z Gz Z' + W + (cross terms): start from an arbitrary symmetric T, and replace its Z-block
  Mat T(N, N);
  const double tmag = rng.chance(0.3) ? 0.0 : rng.logu(0.1, 10.0);
  for (int i = 0; i < N; ++i)
    for (int j = 0; j <= i; ++j) T(i, j) = T(j, i) = tmag * rng.uni(-1, 1);
  const bool plain_pd = rng.chance(0.2) && !indefinite;
  Mat G(N, N);
  if (plain_pd) {
    Vec e2(S(N));
    for (auto& e : e2) e = rng.logu(1.0 / std::sqrt(cond), std::sqrt(cond) * 1.0000001);
    G = sym_from_eigs(rng, e2);
  } else if (nz > 0) {
    const Mat P = ref::mul(Zb, ref::transpose(Zb));
    const Mat PTP = ref::mul(P, ref::mul(T, P));
    const Mat Gz = ref::mul(Zb, ref::mul(sym_from_eigs(rng, eigs), ref::transpose(Zb)));
    for (int i = 0; i < N; ++i)
      for (int j = 0; j < N; ++j) G(i, j) = T(i, j) - PTP(i, j) + Gz(i, j);
  } else {
    G = T;
  }
  for (auto& g : G.d) g *= gscale;
  for (int i = 0; i < N; ++i)
    for (int j = 0; j < i; ++j) G(j, i) = G(i, j);
  const int poison = rng.chance(0.5) ? rng.irange(1, 2) : 0;
  q.G = to_eigen_sym(rng, G, poison);
  q.c.resize(N);
  const double cmag = rng.chance(0.1) ? 0.0 : 3.0 * gscale;
  for (int i = 0; i < N; ++i) q.c[i] = cmag * rng.uni(-1, 1);
  Vec x0(S(N));
  for (auto& e : x0) e = rng.uni(-2, 2);
  q.b_eq.resize(K);
  for (int k = 0; k < K; ++k) {
    Real t = 0;
    for (int j = 0; j < N; ++j) t += static_cast<Real>(q.A_eq(k, j)) * x0[S(j)];
    q.b_eq[k] = static_cast<double>(-t);
  }
  if (rng.chance(0.1)) q.b_eq.setZero();
  // some irrelevant content: the null-space solver has no bounds
  const std::string desc = describe_ns(q);

  // classification from the data as rounded
  Mat Gd(N, N);
  for (int i = 0; i < N; ++i)
    for (int j = 0; j < N; ++j) Gd(i, j) = Gat(q, i, j);
  Real zmin = 1, zmax = 1, gmax = 0;
  for (Real g : Gd.d) gmax = std::max(gmax, std::abs(g));
  bool pd = true;
  if (nz > 0) {
    const Vec e = ref::eigenvalues(ref::mul(ref::transpose(Zb), ref::mul(Gd, Zb)));
    zmin = e.front();
    zmax = e.back();
    if (std::abs(zmin) < 1e-6L * gmax) {
      R->count("skipped-semidefinite");
      return;
    }
    pd = zmin > 0;
  }
  QPNullSpaceTerminationState st;
  try {
    st = solver.Solve(q);
  } catch (const std::exception& e) {
    R->violation("C06", "exception", std::string(e.what()).substr(0, 300) + " " + desc);
    return;
  }
  R->count("solved");
  if (!fresh) R->count("reused");
  const bool redundant = K > r;
  R->count(strf("class:%s%s%s", pd ? "pd" : "indefinite", redundant ? "+redundant" : "", r == N ? "+square" : ""));
  if (K > N) R->count("more-constraints-than-variables");
  if (poison) R->count("poisoned-upper-triangle");
  uint64_t h = vh::hash_doubles(q.G.data(), q.G.size());
  h = vh::hash_doubles(q.A_eq.data(), q.A_eq.size(), h);
  R->distinct(h);
  R->sample(strf("pd=%d rank=%d ", pd, r) + desc);
  if (!pd) {
    if (st != QPNullSpaceTerminationState::NOT_POSITIVE_DEFINITE)
      R->violation("C06", "accepted-indefinite", strf("reported success although the reduced Hessian has eigenvalue %Lg ", zmin) + desc);
    return;
  }
  if (st != QPNullSpaceTerminationState::SUCCESS) {
    R->violation("C06", "rejected-definite", strf("reported not positive definite although the smallest reduced eigenvalue is %Lg (rank %d of %d rows) ", zmin, r, K) + desc);
    return;
  }
  if (plain_pd == false && tmag > 0 && nz > 0) {
    const Vec e = ref::eigenvalues(Gd);
    if (e.front() < -1e-3L * gscale) R->count("indefinite-G-accepted");
  }
  const Eigen::VectorXd& x = solver.variables();
  if (x.rows() != N) {
    R->violation("C06", "dimension", strf("%d variables returned ", static_cast<int>(x.rows())) + desc);
    return;
  }
  // all constraints hold
  Real xm = 1;
  for (int i = 0; i < N; ++i) xm = std::max(xm, std::abs(static_cast<Real>(x[i])));
  Real worst = 0;
  for (int k = 0; k < K; ++k) {
    Real t = q.b_eq[k], m = std::abs(t);
    for (int j = 0; j < N; ++j) {
      t += static_cast<Real>(q.A_eq(k, j)) * x[j];
      m += std::abs(static_cast<Real>(q.A_eq(k, j))) * xm;
    }
    if (m > 0) worst = std::max(worst, std::abs(t) / m);
    if (!(std::abs(t) <= 1e-9L * m + 1e-300L)) {
      R->violation("C06", "constraint", strf("constraint %d is off by %Lg ", k, t) + desc);
      return;
    }
  }
  R->maxval("constraint-residual", static_cast<double>(worst));
  // reference
  Mat W(N + r, N + r);
  Vec rhs(S(N + r), 0.0L);
  for (int i = 0; i < N; ++i) {
    for (int j = 0; j < N; ++j) W(i, j) = Gd(i, j) / gscale;
    rhs[S(i)] = -q.c[i] / static_cast<Real>(gscale);
  }
  for (int k = 0; k < r; ++k) {
    const int row = base_rows[S(k)];
    Real sc = 0;
    for (int j = 0; j < N; ++j) sc = std::max(sc, std::abs(static_cast<Real>(q.A_eq(row, j))));
    for (int j = 0; j < N; ++j) W(N + k, j) = W(j, N + k) = q.A_eq(row, j) / sc;
    rhs[S(N + k)] = -q.b_eq[row] / sc;
  }
  Real pr = 0;
  const auto sol = ref::solve(W, rhs, &pr);
  if (!sol || pr < 1e-12L * delta * delta) {
    R->count("skipped-reference");
    return;
  }
  R->count("compared");
  Real err = 0;
  for (int i = 0; i < N; ++i) err = std::max(err, std::abs(x[i] - (*sol)[S(i)]));
  const Real tol = 1e-11L * N * xm * (1 + gmax / (nz > 0 ? zmin : gmax + 1e-300L)) * (scaled ? 100 : 10) / delta;
  if (delta < 1) R->count("nearly-dependent-compared");
  R->maxval("minimizer-err/tol", static_cast<double>(err / tol));
  if (!(err <= tol)) R->violation("C06", "minimizer", strf("minimizer off by %Lg (tol %Lg) ", err, tol) + desc);
  (void)zmax;
}

int main(int argc, char** argv) {
  const vh::Args args = vh::Args::parse(argc, argv);
  vh::Reporter rep(args, "ns");
  R = &rep;
  vh::run_cases(rep, [&](long, uint64_t seed) {
    Rng rng(seed);
    QPNullSpaceSolver solver;
    const int n = rng.chance(0.3) ? 3 : 1;
    for (int i = 0; i < n; ++i) one(rng, solver, i == 0);
  });
  return rep.finish();
}
