// Generator of nonlinear least squares problems made of instrumented user functions.
//
// Every user function is described by plain data (FnData). The library calls it through a functor
// that reports the call to a Hook (which may log it, throw, corrupt the output, ...); the oracles
// evaluate the same data directly.
#pragma once
#include <Eigen/Core>

#include "mini_opt/nonlinear.hpp"
#include "ref.hpp"
#include "vh.hpp"

namespace gn {
using mini_opt::ConstrainedNonlinearLeastSquares;
using mini_opt::LinearInequalityConstraint;
using mini_opt::LineSearchStrategy;
using mini_opt::MakeResidual;
using mini_opt::NLSIteration;
using mini_opt::NLSSolverOutputs;
using mini_opt::NLSTerminationState;
using mini_opt::Problem;
using mini_opt::Residual;
using Params = ConstrainedNonlinearLeastSquares::Params;
using ref::Mat;
using ref::Real;
using ref::Vec;
using vh::Rng;
using vh::strf;

inline size_t S(long i) { return static_cast<size_t>(i); }

enum TermKind { T_PROD, T_SIN, T_EXP, T_ATAN, T_SQRT, T_CUBE, T_KINDS };

struct Term {
  int row, kind, i, j;
  double c;
};

struct FnData {
  int R = 1, P = 1;
  bool dynamic = false;     // use Eigen::Dynamic for the parameter dimension
  std::vector<double> A;    // R x P, row major
  std::vector<double> b;    // R
  std::vector<Term> terms;
  std::vector<int> index;
  // non-finite zone: outside |p[nf_i] - nf_c| < nf_r the value is `nf_v`
  int nf_i = -1;
  double nf_c = 0, nf_r = 0, nf_v = 0;
  double jac_scale = 1;     // a deliberately wrong Jacobian if not 1
  bool probe = false;       // zero function that only observes the variables
  std::vector<double> off, scl;  // if not empty, the function is that of (p - off) / scl

  // J: R x P row major or null
  void eval(const double* p_, double* r, double* J) const {
    double q[32];
    const double* p = p_;
    if (!off.empty()) {
      for (int j = 0; j < P; ++j) q[j] = (p_[j] - off[S(j)]) / scl[S(j)];
      p = q;
    }
    for (int k = 0; k < R; ++k) {
      double s = b[S(k)];
      for (int j = 0; j < P; ++j) s += A[S(k * P + j)] * p[j];
      r[k] = s;
      if (J)
        for (int j = 0; j < P; ++j) J[k * P + j] = A[S(k * P + j)];
    }
    for (const Term& t : terms) {
      const double x = p[t.i], y = p[t.j];
      double v = 0, dx = 0, dy = 0;
      switch (t.kind) {
        case T_PROD:
          v = x * y;
          dx = y;
          dy = x;
          break;
        case T_SIN:
          v = std::sin(x);
          dx = std::cos(x);
          break;
        case T_EXP:
          v = std::exp(0.5 * x);
          dx = 0.5 * v;
          break;
        case T_ATAN:
          v = std::atan(x);
          dx = 1 / (1 + x * x);
          break;
        case T_SQRT:
          v = std::sqrt(1 + x * x);
          dx = x / v;
          break;
        case T_CUBE:
          v = x * x * x;
          dx = 3 * x * x;
          break;
        default:
          break;
      }
      r[t.row] += t.c * v;
      if (J) {
        J[t.row * P + t.i] += t.c * dx;
        J[t.row * P + t.j] += t.c * dy;
      }
    }
    if (nf_i >= 0 && !(std::abs(p_[nf_i] - nf_c) < nf_r)) r[0] = nf_v;
    if (J && !off.empty())
      for (int k = 0; k < R; ++k)
        for (int j = 0; j < P; ++j) J[k * P + j] /= scl[S(j)];
    if (J && jac_scale != 1)
      for (int k = 0; k < R * P; ++k) J[k] *= jac_scale;
  }
};

struct Hook {
  virtual ~Hook() = default;
  // Called at the start of every user function; may throw.
  virtual void enter(int /*id*/, bool /*want_j*/, const double* /*p*/, int /*n*/) {}
};

template <int R, int P>
struct Fun {
  const FnData* d;
  int id;
  Hook* hook;
  Eigen::Matrix<double, R, 1> operator()(const Eigen::Matrix<double, P, 1>& p, Eigen::Matrix<double, R, P>* J) const {
    if (hook) hook->enter(id, J != nullptr, p.data(), static_cast<int>(p.rows()));
    double r[8], jac[8 * 32];
    d->eval(p.data(), r, J ? jac : nullptr);
    Eigen::Matrix<double, R, 1> out;
    for (int k = 0; k < R; ++k) out[k] = r[k];
    if (J) {
      for (int k = 0; k < R; ++k)
        for (int j = 0; j < d->P; ++j) (*J)(k, j) = jac[k * d->P + j];
    }
    return out;
  }
};

template <int R, int P>
Residual make_fixed(const FnData& d, int id, Hook* h) {
  std::array<int, static_cast<size_t>(P)> idx{};
  for (int i = 0; i < P; ++i) idx[S(i)] = d.index[S(i)];
  return MakeResidual<R, P>(idx, Fun<R, P>{&d, id, h});
}
template <int R>
Residual make_dyn(const FnData& d, int id, Hook* h) {
  return MakeResidual<R, Eigen::Dynamic>(d.index, Fun<R, Eigen::Dynamic>{&d, id, h});
}

inline Residual make_residual(const FnData& d, int id, Hook* h) {
  if (!d.dynamic) {
    if (d.R == 1 && d.P == 1) return make_fixed<1, 1>(d, id, h);
    if (d.R == 1 && d.P == 2) return make_fixed<1, 2>(d, id, h);
    if (d.R == 2 && d.P == 2) return make_fixed<2, 2>(d, id, h);
    if (d.R == 3 && d.P == 2) return make_fixed<3, 2>(d, id, h);
    if (d.R == 2 && d.P == 3) return make_fixed<2, 3>(d, id, h);
  }
  switch (d.R) {
    case 1:
      return make_dyn<1>(d, id, h);
    case 2:
      return make_dyn<2>(d, id, h);
    case 3:
      return make_dyn<3>(d, id, h);
    case 4:
      return make_dyn<4>(d, id, h);
    default:
      return make_dyn<6>(d, id, h);
  }
}

enum Family { LINEAR, MILD, ROUGH, DEGENERATE, NONFINITE, LYING, N_FAMILIES };
inline const char* family_name(int f) {
  static const char* n[] = {"linear", "mild", "rough", "degenerate", "nonfinite", "lying"};
  return n[f];
}

enum RetractionKind { RETR_NONE, RETR_SAME, RETR_CURVED, RETR_LARGER };

struct Ineq {
  int v;
  double a, b;
};

struct Spec {
  int family = 0;
  int N = 1;
  std::vector<FnData> costs, eqs;
  std::vector<Ineq> ineq;
  Params params;
  Eigen::VectorXd x0;
  int retraction = RETR_NONE;
  bool start_feasible = true;

  int num_fn() const { return static_cast<int>(costs.size() + eqs.size()); }
  const FnData& fn(int id) const { return S(id) < costs.size() ? costs[S(id)] : eqs[S(id) - costs.size()]; }
  bool is_eq(int id) const { return S(id) >= costs.size(); }
  int eq_rows() const {
    int k = 0;
    for (auto& e : eqs) k += e.R;
    return k;
  }

  // The library's problem. `this` must outlive it.
  Problem build(Hook* h) const {
    Problem p;
    p.dimension = N;
    int id = 0;
    for (auto& c : costs) p.costs.push_back(make_residual(c, id++, h));
    for (auto& c : eqs) p.equality_constraints.push_back(make_residual(c, id++, h));
    for (auto& c : ineq) p.inequality_constraints.emplace_back(c.v, c.a, c.b);
    return p;
  }

  std::string describe() const {
    std::string o = strf("family=%s N=%d retraction=%d x0=[", family_name(family), N, retraction);
    for (int i = 0; i < x0.size(); ++i) o += strf("%.17g ", x0[i]);
    o += "] ";
    for (int id = 0; id < num_fn(); ++id) {
      const FnData& f = fn(id);
      o += strf("%s%d(R=%d P=%d%s idx=", is_eq(id) ? "eq" : "cost", id, f.R, f.P, f.dynamic ? "dyn" : "");
      for (int i : f.index) o += strf("%d,", i);
      o += strf(" terms=%zu%s) ", f.terms.size(), f.jac_scale != 1 ? " lying" : "");
    }
    for (auto& c : ineq) o += strf("[%g*x%d+%g>=0] ", c.a, c.v, c.b);
    o += strf(
        "params: it=%d qp=%d kkt=%g abs=%g rel=%g fd=%g ls=%d poly=%d tau=%g pen=%g scale=%g rho=%g lam=%g fail=%g dec=%g/%g "
        "max=%g min=%g",
        params.max_iterations, params.max_qp_iterations, params.termination_kkt_tolerance, params.absolute_exit_tol,
        params.relative_exit_tol, params.absolute_first_derivative_tol, params.max_line_search_iterations,
        params.line_search_strategy == LineSearchStrategy::POLYNOMIAL_APPROXIMATION, params.armijo_search_tau,
        params.equality_penalty_initial, params.equality_penalty_scale_factor, params.equality_penalty_rho, params.lambda_initial,
        params.lambda_failure_init, params.lambda_decrease_on_success, params.lambda_decrease_on_restore, params.max_lambda,
        params.min_lambda);
    return o;
  }
};

inline FnData random_fn(Rng& rng, int N, int R, int P, bool allow_repeat) {
  FnData d;
  d.R = R;
  d.P = P;
  d.dynamic = !((R == 1 && P == 1) || (R == 1 && P == 2) || (R == 2 && P == 2) || (R == 3 && P == 2) || (R == 2 && P == 3)) ||
              rng.chance(0.3);
  const auto perm = rng.perm(N);
  for (int i = 0; i < P; ++i) d.index.push_back(allow_repeat ? rng.irange(0, N - 1) : perm[S(i)]);
  for (int i = 0; i < R * P; ++i) d.A.push_back(rng.uni(-1.5, 1.5));
  for (int i = 0; i < R; ++i) d.b.push_back(rng.uni(-2, 2));
  return d;
}

inline void add_terms(Rng& rng, FnData& d, int n, double scale) {
  for (int k = 0; k < n; ++k) {
    Term t;
    t.row = rng.irange(0, d.R - 1);
    t.kind = rng.irange(0, T_KINDS - 1);
    t.i = rng.irange(0, d.P - 1);
    t.j = rng.irange(0, d.P - 1);
    t.c = rng.sgn() * scale * rng.uni(0.3, 1.0);
    d.terms.push_back(t);
  }
}

// A cost over all variables (in random order) with a well conditioned Jacobian.
inline FnData anchor_fn(Rng& rng, int N, double w) {
  FnData d;
  d.P = N;
  d.R = N <= 4 ? N : 6;
  d.dynamic = true;
  const auto perm = rng.perm(N);
  d.index.assign(perm.begin(), perm.end());
  d.A.assign(S(d.R * d.P), 0.0);
  for (int i = 0; i < std::min(d.R, d.P); ++i) d.A[S(i * d.P + i)] = w * rng.uni(0.7, 1.5);
  for (int i = 0; i < d.R; ++i)
    for (int j = 0; j < d.P; ++j)
      if (i != j && rng.chance(0.4)) d.A[S(i * d.P + j)] += w * rng.uni(-0.2, 0.2);
  for (int i = 0; i < d.R; ++i) d.b.push_back(w * rng.uni(-2, 2));
  return d;
}

struct GenOptions {
  int nmax = 6;
  bool allow_retraction = true;
  double p_eq = 0.45, p_ineq = 0.45;
  int max_ineq = 5;
  bool wide = false;       // now and then many variables, long runs, long line searches, many bounds
  double p_transform = 0;  // express the problem in shifted and scaled variables
};

inline Params random_params(Rng& rng, int family) {
  Params p;
  p.max_iterations = rng.chance(0.1) ? rng.irange(0, 2) : rng.irange(3, 14);
  p.max_qp_iterations = rng.chance(0.3) ? rng.irange(1, 5) : rng.irange(8, 25);
  p.termination_kkt_tolerance = rng.chance(0.5) ? 1e-6 : rng.logu(1e-9, 1e-3);
  p.absolute_exit_tol = rng.chance(0.5) ? 1e-12 : rng.logu(1e-12, 1.0);
  p.relative_exit_tol = rng.chance(0.4) ? 1e-5 : rng.chance(0.4) ? 0.0 : rng.chance(0.1) ? 1.0 : rng.logu(1e-8, 0.5);
  p.absolute_first_derivative_tol = rng.chance(0.5) ? 1e-6 : rng.chance(0.3) ? 0.0 : rng.logu(1e-9, 3.0);
  p.max_line_search_iterations = rng.chance(0.3) ? 2 : rng.irange(0, 6);
  p.line_search_strategy = rng.chance(0.5) ? LineSearchStrategy::POLYNOMIAL_APPROXIMATION : LineSearchStrategy::ARMIJO_BACKTRACK;
  p.armijo_search_tau = rng.chance(0.4) ? 0.8 : rng.uni(0.05, 0.95);
  p.equality_penalty_initial = rng.chance(0.5) ? 1.0 : rng.logu(1e-3, 100);
  p.equality_penalty_scale_factor = rng.chance(0.5) ? 1.01 : rng.uni(1.0, 2.0);
  p.equality_penalty_rho = rng.chance(0.5) ? 0.1 : rng.uni(0.0, 0.95);
  p.min_lambda = rng.chance(0.6) ? 0.0 : rng.logu(1e-6, 1e-2);
  p.max_lambda = rng.chance(0.3) ? 1.0 : rng.chance(0.1) ? p.min_lambda : rng.logu(std::max(1e-2, p.min_lambda), 1e5);
  p.lambda_initial = rng.chance(0.5) ? p.min_lambda : std::min(p.max_lambda, std::max(p.min_lambda, rng.logu(1e-5, 10)));
  p.lambda_failure_init = rng.chance(0.5) ? 1e-2 : rng.chance(0.2) ? 0.0 : rng.logu(1e-4, 10);
  p.lambda_decrease_on_success = rng.chance(0.4) ? 0.1 : rng.chance(0.2) ? 0.0 : rng.uni(0, 0.99);
  p.lambda_decrease_on_restore = rng.chance(0.4) ? 0.8 : rng.chance(0.2) ? 0.0 : rng.uni(0, 0.99);
  p.log_qp_eigenvalues = rng.chance(0.5);
  (void)family;
  return p;
}

inline Spec random_spec(Rng& rng, const GenOptions& o, int family = -1) {
  Spec s;
  s.family = family >= 0 ? family : static_cast<int>(rng.irange(0, N_FAMILIES - 1));
  s.N = rng.irange(1, o.nmax);
  s.params = random_params(rng, s.family);
  bool big = false;
  if (o.wide) {
    big = rng.chance(0.004);
    if (big) s.N = rng.irange(7, 24);
    if (rng.chance(0.03)) {
      s.params.max_iterations = rng.irange(15, 90);
      if (rng.chance(0.6)) {
        s.params.absolute_exit_tol = 1e-30;
        s.params.relative_exit_tol = 0;
        s.params.absolute_first_derivative_tol = rng.chance(0.5) ? 0 : 1e-14;
      }
    }
    if (rng.chance(0.03)) s.params.max_line_search_iterations = rng.irange(7, 60);
    if (rng.chance(0.03)) s.params.max_qp_iterations = rng.irange(26, 100);
    if (rng.chance(0.03)) s.params.max_lambda = std::max(s.params.max_lambda, rng.logu(1e5, 1e12));
  }
  const int N = s.N;
  const double term_scale = s.family == LINEAR ? 0 : s.family == MILD ? 0.15 : 2.0;
  // costs
  if (s.family != DEGENERATE) {
    s.costs.push_back(anchor_fn(rng, N, 1.0));
    if (term_scale > 0) add_terms(rng, s.costs[0], rng.irange(1, 4), term_scale);
  } else {
    // observes every variable but constrains none, or only some
    FnData d = anchor_fn(rng, N, 1.0);
    const int keep = rng.irange(0, d.R);
    for (int i = keep; i < d.R; ++i)
      for (int j = 0; j < N; ++j) d.A[S(i * N + j)] = 0;
    s.costs.push_back(d);
    if (rng.chance(0.5)) add_terms(rng, s.costs[0], rng.irange(1, 3), 0.5);
  }
  const int extra = rng.irange(0, 3);
  for (int k = 0; k < extra; ++k) {
    const int P = rng.irange(1, std::min(N, 4));
    FnData d = random_fn(rng, N, rng.irange(1, 4), P, rng.chance(0.15));
    if (term_scale > 0 && rng.chance(0.7)) add_terms(rng, d, rng.irange(1, 3), term_scale);
    s.costs.push_back(d);
  }
  if (big) {  // the anchor has six rows only
    const auto perm = rng.perm(N);
    for (int i = 0; i < N; i += 4) {
      FnData d;
      d.P = std::min(4, N - i);
      d.R = d.P;
      d.dynamic = true;
      for (int j = 0; j < d.P; ++j) d.index.push_back(perm[S(i + j)]);
      for (int j = 0; j < d.R * d.P; ++j) d.A.push_back(rng.uni(-0.2, 0.2));
      for (int j = 0; j < d.R; ++j) {
        d.A[S(j * d.P + j)] += rng.uni(0.7, 1.5);
        d.b.push_back(rng.uni(-2, 2));
      }
      if (s.family != DEGENERATE || rng.chance(0.5)) s.costs.push_back(d);
    }
  }
  // put the anchor anywhere
  if (s.costs.size() > 1) std::swap(s.costs[0], s.costs[S(rng.irange(0, static_cast<int>(s.costs.size()) - 1))]);
  // a point the constraints are consistent at
  std::vector<double> xf(S(N));
  for (auto& v : xf) v = rng.uni(-1.5, 1.5);
  if (N > 1 && rng.chance(o.p_eq)) {
    int rows_left = s.family == DEGENERATE && rng.chance(0.3) ? N : N - 1;
    const int ne = rng.irange(1, 2);
    for (int k = 0; k < ne && rows_left > 0; ++k) {
      const int P = rng.irange(1, std::min(N, 4));
      const int R = std::min(rng.irange(1, std::min(P, 2)), rows_left);
      FnData d = random_fn(rng, N, R, P, false);
      for (int i = 0; i < R; ++i) d.A[S(i * P + i)] += d.A[S(i * P + i)] > 0 ? 1.0 : -1.0;
      if (term_scale > 0 && rng.chance(0.7)) add_terms(rng, d, rng.irange(1, 2), s.family == MILD ? 0.15 : 0.7);
      // consistent at xf
      double p[32], r[8];
      for (int i = 0; i < P; ++i) p[i] = xf[S(d.index[S(i)])];
      d.eval(p, r, nullptr);
      for (int i = 0; i < R; ++i) d.b[S(i)] -= r[i];
      s.eqs.push_back(d);
      rows_left -= R;
      if (s.family == DEGENERATE && rng.chance(0.3)) {
        s.eqs.push_back(d);  // redundant
      }
    }
  }
  if (rng.chance(o.p_ineq)) {
    const int M = o.wide && rng.chance(0.01) ? rng.irange(6, 30) : rng.irange(1, o.max_ineq);
    for (int k = 0; k < M; ++k) {
      Ineq c;
      c.v = rng.irange(0, N - 1);
      c.a = rng.sgn() * (rng.chance(0.5) ? 1.0 : rng.uni(0.3, 3.0));
      c.b = -c.a * xf[S(c.v)] + rng.uni(0.05, 2.0);
      s.ineq.push_back(c);
    }
  }
  // start
  s.x0.resize(N);
  const double spread = s.family == ROUGH ? rng.uni(0.5, 4) : 1.5;
  for (int i = 0; i < N; ++i) s.x0[i] = xf[S(i)] + (rng.chance(0.1) ? 0.0 : rng.uni(-spread, spread));
  if (!s.ineq.empty() && rng.chance(0.85)) {
    for (auto& c : s.ineq) {
      if (c.a * s.x0[c.v] + c.b < 0.02) s.x0[c.v] = xf[S(c.v)];
    }
  }
  s.start_feasible = true;
  for (auto& c : s.ineq) s.start_feasible = s.start_feasible && c.a * s.x0[c.v] + c.b >= 0;
  if (o.p_transform > 0 && rng.chance(o.p_transform)) {
    std::vector<double> off(S(N), 0.0), scl(S(N), 1.0);
    const bool common = rng.chance(0.5);
    const double t0 = std::ldexp(1.0, rng.irange(-6, 13));
    for (int i = 0; i < N; ++i) {
      scl[S(i)] = common ? t0 : std::ldexp(1.0, rng.irange(-4, 10));
      off[S(i)] = rng.chance(0.5) ? 0.0 : std::floor(rng.uni(-100, 100)) * scl[S(i)];
    }
    for (auto* v : {&s.costs, &s.eqs})
      for (auto& d : *v)
        for (int i : d.index) {
          d.off.push_back(off[S(i)]);
          d.scl.push_back(scl[S(i)]);
        }
    for (auto& c : s.ineq) {  // a (x - off) / scl + b >= 0, multiplied by scl or not
      const double w = rng.chance(0.7) ? scl[S(c.v)] : 1.0;
      c.a = c.a * w / scl[S(c.v)];
      c.b = c.b * w - c.a * off[S(c.v)];
    }
    for (int i = 0; i < N; ++i) s.x0[i] = s.x0[i] * scl[S(i)] + off[S(i)];
    s.start_feasible = true;
    for (auto& c : s.ineq) s.start_feasible = s.start_feasible && c.a * s.x0[c.v] + c.b >= 0;
  }
  if (s.family == NONFINITE) {
    FnData& d = s.costs[S(rng.irange(0, static_cast<int>(s.costs.size()) - 1))];
    FnData& e = !s.eqs.empty() && rng.chance(0.3) ? s.eqs[0] : d;
    e.nf_i = rng.irange(0, e.P - 1);
    const double x0i = s.x0[e.index[S(e.nf_i)]];
    e.nf_c = x0i;
    e.nf_r = rng.uni(0.05, 2.0) * (e.scl.empty() ? 1.0 : e.scl[S(e.nf_i)]);
    const int w = rng.irange(0, 2);
    e.nf_v = w == 0 ? std::nan("") : w == 1 ? HUGE_VAL : -HUGE_VAL;
  }
  if (s.family == LYING) {
    for (auto* v : {&s.costs, &s.eqs})
      for (auto& d : *v)
        if (rng.chance(0.5)) d.jac_scale = rng.sgn() * rng.logu(0.2, 4.0);
  }
  if (o.allow_retraction && rng.chance(0.5)) {
    s.retraction = s.ineq.empty() ? rng.irange(RETR_SAME, RETR_LARGER) : rng.chance(0.7) ? RETR_SAME : rng.irange(RETR_SAME, RETR_LARGER);
    if (s.retraction == RETR_LARGER) {
      s.x0.conservativeResize(N + 2);
      s.x0[N] = rng.uni(-1, 1);
      s.x0[N + 1] = rng.uni(-1, 1);
    }
  }
  return s;
}

// The custom retractions. Written so that the same arguments give the same bits.
inline void retract(int kind, Eigen::VectorXd& x, const Eigen::VectorXd& dx, double alpha) {
  const int n = static_cast<int>(dx.rows());
  switch (kind) {
    case RETR_CURVED:
      for (int i = 0; i < n; ++i) x[i] += std::sinh(alpha * dx[i] * 0.5) * 2 / (1 + 0.1 * std::abs(alpha * dx[i]));
      break;
    case RETR_LARGER:
      for (int i = 0; i < n; ++i) x[i] += alpha * dx[i];
      for (int i = n; i < x.rows(); ++i) x[i] += 0.5 * alpha;
      break;
    default:
      for (int i = 0; i < n; ++i) x[i] += dx[i] * alpha;
      break;
  }
}

// ---------------------------------------------------------------------------------------------
// Event log

enum EventKind { E_EVAL, E_JAC, E_RETRACT, E_CALLBACK };
struct Event {
  int kind;
  int id = -1;
  std::vector<double> p;     // gathered parameters / point passed to the retraction
  std::vector<double> dx;
  double alpha = 0;
  std::vector<double> out;   // result of the retraction
  int cb = -1;               // callback index
  bool cb_ret = true;
};

struct Recorder : Hook {
  std::vector<Event> log;
  void enter(int id, bool want_j, const double* p, int n) override {
    Event e;
    e.kind = want_j ? E_JAC : E_EVAL;
    e.id = id;
    e.p.assign(p, p + n);
    log.push_back(std::move(e));
  }
};

// ---------------------------------------------------------------------------------------------
// Reference evaluation at a full point (long double sums over the doubles user code returns).

struct Evaluation {
  Real f = 0, eq = 0;   // 0.5 sum r^2, sum |c|
  Real f_mag = 0;
  Mat G, G_mag;         // J^T J of the costs
  Vec c, c_mag;         // J^T r
  Mat A, A_mag;         // equality Jacobian
  Vec b;                // equality residuals
  bool finite = true;
  bool cancels = false;  // the columns of a repeated variable (nearly) cancel in some row
};

inline Evaluation evaluate(const Spec& s, const std::vector<double>& x, bool jac) {
  Evaluation e;
  const int N = s.N;
  if (jac) {
    e.G = Mat(N, N);
    e.G_mag = Mat(N, N);
    e.c.assign(S(N), 0);
    e.c_mag.assign(S(N), 0);
    e.A = Mat(s.eq_rows(), N);
    e.A_mag = Mat(s.eq_rows(), N);
  }
  int row = 0;
  for (int id = 0; id < s.num_fn(); ++id) {
    const FnData& d = s.fn(id);
    double p[32], r[8], J[8 * 32];
    for (int i = 0; i < d.P; ++i) p[i] = x[S(d.index[S(i)])];
    d.eval(p, r, jac ? J : nullptr);
    for (int k = 0; k < d.R; ++k) {
      if (!std::isfinite(r[k])) e.finite = false;
      if (s.is_eq(id)) {
        e.eq += std::abs(static_cast<Real>(r[k]));
        e.b.push_back(r[k]);
      } else {
        e.f += 0.5L * static_cast<Real>(r[k]) * r[k];
      }
      if (!jac) continue;
      std::vector<Real> rowv(S(N), 0.0L), magv(S(N), 0.0L);  // a variable may appear twice
      for (int i = 0; i < d.P; ++i) {
        rowv[S(d.index[S(i)])] += J[k * d.P + i];
        magv[S(d.index[S(i)])] += std::abs(J[k * d.P + i]);
      }
      Real top = 0, mag = 0;
      for (int i = 0; i < N; ++i) {
        top = std::max(top, std::abs(rowv[S(i)]));
        mag = std::max(mag, magv[S(i)]);
      }
      if (mag > 30 * top) e.cancels = true;
      if (s.is_eq(id)) {
        for (int i = 0; i < N; ++i) {
          e.A(row, i) = rowv[S(i)];
          e.A_mag(row, i) = magv[S(i)];
        }
        ++row;
      } else {
        for (int i = 0; i < N; ++i) {
          e.c[S(i)] += rowv[S(i)] * r[k];
          e.c_mag[S(i)] += magv[S(i)] * std::abs(static_cast<Real>(r[k]));
          for (int j = 0; j < N; ++j) {
            e.G(i, j) += rowv[S(i)] * rowv[S(j)];
            e.G_mag(i, j) += magv[S(i)] * magv[S(j)];
          }
        }
      }
    }
  }
  return e;
}

}  // namespace gn
