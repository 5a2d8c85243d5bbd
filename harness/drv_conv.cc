// C16: well-posed least squares problems converge to their constrained minimizer.
// Families: linear residuals (minimizer from an enumeration of the active sets in long double) and
// mildly nonlinear residuals with a consistent solution that is known by construction; with any mix
// of equality constraints, bounds around the start, line search strategies and damping settings.
#include <algorithm>
#include <random>

#include "cmp.hpp"
#include "mini_opt/nonlinear.hpp"
#include "nlsgen.hpp"

using namespace mini_opt;
using gn::FnData;
using gn::S;
using ref::Mat;
using ref::Real;
using ref::Vec;
using vh::Rng;
using vh::strf;

static vh::Reporter* R;
static bool args_verbose;
static long g_stuck, g_threw, g_stuck_possible;

struct Box {
  double lo = -HUGE_VAL, hi = HUGE_VAL;
};

struct Conv {
  gn::Spec spec;
  std::vector<Box> box;
  Vec xs;          // the minimizer
  Real fs = 0;     // its cost
  bool bounds_active = false;
  Real min_eig = 0;  // smallest eigenvalue of J^T J at the minimizer
};

// Value and Jacobian of a list of functions at x, in long double (stacked).
static void stack(const std::vector<FnData>& fns, const Vec& x, Vec* r, Mat* J) {
  int rows = 0;
  for (auto& f : fns) rows += f.R;
  const int n = static_cast<int>(x.size());
  r->assign(S(rows), 0);
  *J = Mat(rows, n);
  int row = 0;
  for (auto& f : fns) {
    std::vector<double> p(f.index.size()), rr(S(f.R)), jj(S(f.R) * f.index.size());
    for (size_t k = 0; k < p.size(); ++k) p[k] = static_cast<double>(x[S(f.index[k])]);
    f.eval(p.data(), rr.data(), jj.data());
    for (int i = 0; i < f.R; ++i) {
      (*r)[S(row + i)] = rr[S(i)];
      for (int j = 0; j < f.P; ++j) (*J)(row + i, f.index[S(j)]) += jj[S(i * f.P + j)];
    }
    row += f.R;
  }
}

static FnData rows_fn(Rng& rng, int N, int rows, double lo, double hi) {
  // `rows` rows over a random subset of the variables
  const int P = rng.irange(std::max(1, std::min(rows, N)), N);
  FnData d = gn::random_fn(rng, N, rows, P, false);
  for (auto& a : d.A) a = rng.sgn() * rng.uni(lo, hi);
  return d;
}

// Are the gradients of the equalities and of the active bounds well separated?
static bool licq(const Mat& E, const std::vector<int>& at) {
  int n_free = 0;
  for (int a : at) n_free += a == 0;
  if (E.r == 0) return true;
  if (E.r > n_free) return false;
  Mat F(E.r, n_free);
  int k = 0;
  for (int j = 0; j < E.c; ++j) {
    if (at[S(j)]) continue;
    for (int i = 0; i < E.r; ++i) F(i, k) = E(i, j);
    ++k;
  }
  return ref::eigenvalues(ref::mul(F, ref::transpose(F)))[0] > 0.02L;
}

static const int kRows[] = {1, 2, 3, 4, 6};

// A problem; returns false if the draw is not well posed.
static bool generate(Rng& rng, Conv& c, int family, bool large) {
  gn::Spec& sp = c.spec;
  sp.family = family == 0 ? gn::LINEAR : gn::MILD;
  const int N = sp.N = large ? rng.irange(6, 16) : rng.irange(1, 5);
  c.box.assign(S(N), Box{});
  // the point all is built around
  Vec xs(S(N));
  for (auto& v : xs) v = static_cast<Real>(rng.uni(-2, 2));
  // costs: an anchor over all the variables, in one or several pieces, and others
  if (large) {
    const auto perm = rng.perm(N);
    for (int i = 0; i < N; i += 4) {
      FnData d = gn::anchor_fn(rng, std::min(4, N - i), 1.0);
      for (auto& j : d.index) j = perm[S(i + j)];
      sp.costs.push_back(d);
    }
  } else {
    sp.costs.push_back(gn::anchor_fn(rng, N, 1.0));
  }
  const int extra = rng.irange(0, 2);
  for (int i = 0; i < extra; ++i) sp.costs.push_back(rows_fn(rng, N, kRows[rng.irange(0, 4)], 0.1, 1.0));
  std::shuffle(sp.costs.begin(), sp.costs.end(), std::minstd_rand(static_cast<unsigned>(rng.next())));
  // equality constraints
  int budget = N;
  const int n_eq = rng.chance(0.5) ? 0 : rng.irange(1, 2);
  for (int i = 0; i < n_eq && budget > 0; ++i) {
    const int k = rng.irange(1, std::min({budget, 2, N}));
    sp.eqs.push_back(rows_fn(rng, N, k, 0.3, 1.2));
    budget -= k;
  }
  const bool nonlinear = family != 0;
  if (nonlinear) {
    // terms with bounded derivatives, small enough for the solution to be unique
    auto curve = [&](FnData& f) {
      const size_t first = f.terms.size();
      gn::add_terms(rng, f, rng.irange(0, 2), 0.08);
      const int kinds[] = {gn::T_SIN, gn::T_ATAN, gn::T_SQRT};
      for (size_t k = first; k < f.terms.size(); ++k) f.terms[k].kind = kinds[rng.irange(0, 2)];
    };
    for (auto& f : sp.costs) curve(f);
    if (family == 1 && rng.chance(0.6))
      for (auto& f : sp.eqs) curve(f);
  }
  // make the point consistent: residuals that vanish (nonlinear), equalities that hold
  auto shift = [&](FnData& f, const Vec& x) {
    std::vector<double> p(f.index.size()), r(S(f.R));
    for (size_t k = 0; k < p.size(); ++k) p[k] = static_cast<double>(x[S(f.index[k])]);
    f.eval(p.data(), r.data(), nullptr);
    for (int i = 0; i < f.R; ++i) f.b[S(i)] -= r[S(i)];
  };
  if (nonlinear)
    for (auto& f : sp.costs) shift(f, xs);
  for (auto& f : sp.eqs) shift(f, xs);
  // which bounds are active at the point (family 2)
  std::vector<int> at(S(N), 0);
  if (family == 2)
    for (auto& a : at) a = rng.chance(0.3) ? rng.irange(1, 2) : 0;
  // well conditioned?
  Vec r, h;
  Mat J, E;
  stack(sp.costs, xs, &r, &J);
  stack(sp.eqs, xs, &h, &E);
  const Vec ev = ref::eigenvalues(ref::mul(ref::transpose(J), J));
  c.min_eig = ev[0];
  if (ev[0] < (nonlinear ? 0.4L : 0.15L) || ev.back() > 60) return false;
  if (E.r > 0) {
    const Vec ee = ref::eigenvalues(ref::mul(E, ref::transpose(E)));
    if (ee[0] < (nonlinear ? 0.2L : 0.1L)) return false;
  }
  if (family == 2) {
    // residuals whose gradient is balanced by multipliers of the equalities and the active bounds
    if (!licq(E, at)) return false;
    Vec want(S(N), 0.0L);
    for (int k = 0; k < E.r; ++k) {
      const Real lam = rng.uni(-0.3, 0.3);
      for (int j = 0; j < N; ++j) want[S(j)] += lam * E(k, j);
    }
    for (int i = 0; i < N; ++i) {
      if (at[S(i)]) want[S(i)] += (at[S(i)] == 1 ? 1 : -1) * static_cast<Real>(rng.chance(0.1) ? 0.0 : rng.uni(0.02, 0.4));
    }
    const auto y = ref::solve(ref::mul(ref::transpose(J), J), want);
    if (!y) return false;
    Vec target = ref::mul(J, *y);
    // and a part that no step can reduce
    Vec extra(target.size());
    for (auto& v : extra) v = rng.uni(-0.2, 0.2);
    const auto fit = ref::solve(ref::mul(ref::transpose(J), J), ref::mulT(J, extra));
    if (!fit) return false;
    const Vec part = ref::mul(J, *fit);
    c.fs = 0;
    for (size_t k = 0; k < target.size(); ++k) {
      target[k] += extra[k] - part[k];
      if (std::abs(target[k]) > 0.5L) return false;
      c.fs += 0.5L * target[k] * target[k];
    }
    size_t row = 0;
    for (auto& f : sp.costs)
      for (auto& b : f.b) b += static_cast<double>(target[row++]);
  }
  // start
  sp.x0.resize(N);
  const double reach = nonlinear ? rng.uni(0, 1.2) : rng.logu(1e-3, 20);
  for (int i = 0; i < N; ++i) sp.x0[i] = static_cast<double>(xs[S(i)]) + rng.uni(-1, 1) * reach;
  // bounds contain the start and the consistent point
  const bool any_active = std::count(at.begin(), at.end(), 0) != N;
  if (any_active || rng.chance(0.55)) {
    for (int i = 0; i < N; ++i) {
      const double a = std::min(sp.x0[i], static_cast<double>(xs[S(i)])), b = std::max(sp.x0[i], static_cast<double>(xs[S(i)]));
      if (rng.chance(0.6)) c.box[S(i)].lo = a - rng.uni(0.02, 1.5);
      if (rng.chance(0.6)) c.box[S(i)].hi = b + rng.uni(0.02, 1.5);
      const double x = static_cast<double>(xs[S(i)]);
      if (at[S(i)] == 1) {
        sp.x0[i] = x + std::max(0.01, std::fabs(sp.x0[i] - x));
        c.box[S(i)].lo = x;
        c.box[S(i)].hi = rng.chance(0.6) ? HUGE_VAL : sp.x0[i] + rng.uni(0.02, 1.5);
        c.bounds_active = true;
      } else if (at[S(i)] == 2) {
        sp.x0[i] = x - std::max(0.01, std::fabs(sp.x0[i] - x));
        c.box[S(i)].hi = x;
        c.box[S(i)].lo = rng.chance(0.6) ? -HUGE_VAL : sp.x0[i] - rng.uni(0.02, 1.5);
        c.bounds_active = true;
      }
      const double w = rng.uni(0.5, 3);  // the coefficient of a bound is arbitrary
      std::vector<gn::Ineq> mine;
      if (c.box[S(i)].lo > -HUGE_VAL) mine.push_back({i, w, -w * c.box[S(i)].lo});
      if (c.box[S(i)].hi < HUGE_VAL) mine.push_back({i, -w, w * c.box[S(i)].hi});
      for (auto& m : mine) sp.ineq.insert(sp.ineq.begin() + rng.irange(0, static_cast<int>(sp.ineq.size())), m);
    }
  }
  if (nonlinear) {
    c.xs = xs;
    return true;
  }
  // linear: enumerate the active sets
  const Vec zero(S(N), 0.0L);
  stack(sp.costs, zero, &r, &J);
  stack(sp.eqs, zero, &h, &E);
  const Mat G = ref::mul(ref::transpose(J), J);
  const Vec g = ref::mulT(J, r);
  std::vector<int> st(S(N), 0);
  bool found = false;
  for (;;) {
    bool possible = true;
    int active = 0;
    for (int i = 0; i < N; ++i) {
      if ((st[S(i)] == 1 && !(c.box[S(i)].lo > -HUGE_VAL)) || (st[S(i)] == 2 && !(c.box[S(i)].hi < HUGE_VAL))) possible = false;
      active += st[S(i)] != 0;
    }
    if (possible && active + E.r <= N) {
      const int m = N + E.r + active;
      Mat K(m, m);
      Vec rhs(S(m), 0.0L);
      for (int i = 0; i < N; ++i) {
        for (int j = 0; j < N; ++j) K(i, j) = G(i, j);
        rhs[S(i)] = -g[S(i)];
      }
      for (int k = 0; k < E.r; ++k) {
        for (int j = 0; j < N; ++j) K(N + k, j) = K(j, N + k) = E(k, j);
        rhs[S(N + k)] = -h[S(k)];
      }
      int row = N + E.r;
      for (int i = 0; i < N; ++i)
        if (st[S(i)]) {
          K(row, i) = K(i, row) = 1;
          rhs[S(row++)] = st[S(i)] == 1 ? c.box[S(i)].lo : c.box[S(i)].hi;
        }
      Real ratio = 0;
      const auto sol = ref::solve(K, rhs, &ratio);
      if (sol && ratio > 1e-8L) {
        bool ok = true;
        row = N + E.r;
        for (int i = 0; i < N; ++i) {
          if ((*sol)[S(i)] < c.box[S(i)].lo - 1e-12L || (*sol)[S(i)] > c.box[S(i)].hi + 1e-12L) ok = false;
          // G x + g + multiplier = 0: at a lower bound the gradient points inwards
          if (st[S(i)] == 1 && (*sol)[S(row++)] > 1e-12L) ok = false;
          else if (st[S(i)] == 2 && (*sol)[S(row++)] < -1e-12L) ok = false;
        }
        if (ok) {
          c.xs.assign(sol->begin(), sol->begin() + N);
          c.bounds_active = active > 0;
          found = licq(E, st);
          break;
        }
      }
    }
    int k = 0;
    while (k < N && ++st[S(k)] == 3) st[S(k++)] = 0;
    if (k == N) break;
  }
  if (!found) return false;
  c.fs = 0;
  Vec rs = ref::mul(J, c.xs);
  for (size_t i = 0; i < rs.size(); ++i) c.fs += 0.5L * (rs[i] + r[i]) * (rs[i] + r[i]);
  return true;
}

static void conv_case(Rng& rng) {
  Conv c;
  const int family = rng.irange(0, 2);
  const bool large = family != 0 && rng.chance(0.01);
  for (int tries = 0;; ++tries) {
    c = Conv{};
    if (generate(rng, c, family, large)) break;
    if (tries > 200) {
      R->count("not-generated");
      return;
    }
  }
  auto& p = c.spec.params;
  p = gn::Params{};
  p.max_iterations = rng.irange(40, 100);
  p.max_qp_iterations = rng.irange(50, 80);
  p.line_search_strategy = rng.chance(0.5) ? LineSearchStrategy::ARMIJO_BACKTRACK : LineSearchStrategy::POLYNOMIAL_APPROXIMATION;
  if (rng.chance(0.5)) p.max_line_search_iterations = rng.irange(2, 6);
  if (rng.chance(0.3)) p.armijo_search_tau = rng.uni(0.3, 0.9);
  const int damping = rng.irange(0, 3);
  if (damping == 1) p.lambda_initial = rng.logu(1e-6, 1.0);
  if (damping == 2) {
    p.min_lambda = rng.logu(1e-8, 1e-2);
    p.lambda_initial = std::max(p.min_lambda, rng.logu(1e-6, 1.0));
  }
  if (damping == 3) {
    p.max_lambda = rng.logu(1, 1e6);
    p.lambda_failure_init = rng.logu(1e-6, 1);
    p.lambda_decrease_on_restore = rng.uni(0, 0.9);
    p.lambda_decrease_on_success = rng.uni(0, 0.9);
  }
  if (rng.chance(0.3)) p.equality_penalty_initial = rng.logu(0.01, 10);
  if (rng.chance(0.3)) p.equality_penalty_rho = rng.uni(0.05, 0.5);

  const Problem problem = c.spec.build(nullptr);
  ConstrainedNonlinearLeastSquares solver(&problem);
  auto bad = [&](const char* key, const std::string& m) {
    std::string x = " minimizer [";
    for (Real v : c.xs) x += strf("%.12Lg ", v);
    R->violation("C16", key, m + strf("; cost there %.6Lg;", c.fs) + x + "] " + c.spec.describe());
  };
  const bool stuck_possible = !c.spec.ineq.empty() && !c.spec.eqs.empty();
  if (stuck_possible) ++g_stuck_possible;
  NLSSolverOutputs out{NLSTerminationState::MAX_ITERATIONS, {}};
  try {
    out = solver.Solve(p, c.spec.x0);
  } catch (const std::exception& e) {
    // with equalities and bounds the subproblem (the equalities linearized, the bounds) may have no
    // point at all, and the interior point method diverges: by factorization or by assertion
    if (stuck_possible) {
      ++g_stuck;
      R->count("inner-stuck");
      if (dynamic_cast<const FailedFactorization*>(&e) == nullptr) {
        ++g_threw;
        R->count("inner-threw");
      }
      return;
    }
    bad("exception", std::string("the solver threw: ") + std::string(e.what()).substr(0, 3000));
    return;
  }
  if (stuck_possible) {
    for (auto& it : out.iterations) {
      const auto* ip = std::get_if<QPInteriorPointSolverOutputs>(&it.qp_outputs);
      if (ip != nullptr && ip->termination_state != QPInteriorPointTerminationState::SATISFIED_KKT_TOL) {
        ++g_stuck;
        R->count("inner-stuck");
        return;
      }
    }
  }
  Vec x(S(c.spec.N)), r, h;
  for (int i = 0; i < c.spec.N; ++i) x[S(i)] = solver.variables()[i];
  Mat J, E;
  stack(c.spec.costs, x, &r, &J);
  stack(c.spec.eqs, x, &h, &E);
  Real f = 0, dist = 0, hv = 0, viol = 0;
  for (Real v : r) f += 0.5L * v * v;
  for (Real v : h) hv = std::max(hv, std::abs(v));
  for (int i = 0; i < c.spec.N; ++i) {
    dist = std::max(dist, std::abs(x[S(i)] - c.xs[S(i)]));
    viol = std::max({viol, c.box[S(i)].lo - x[S(i)], x[S(i)] - c.box[S(i)].hi});
  }
  const std::string kind = std::string(family == 0 ? "linear" : family == 1 ? "consistent" : "residual") + (c.spec.eqs.empty() ? "" : "+eq") + (c.spec.ineq.empty() ? "" : c.bounds_active ? "+active" : "+bounds");
  R->count("solved:" + kind);
  if (large) R->count("solved:large");
  R->count(std::string("exit:") + std::to_string(static_cast<int>(out.termination_state)));
  R->maxval("iterations", static_cast<double>(out.iterations.size()));
  const std::string where = strf("(%s, %zu iterations, distance %.3Lg, cost %.9Lg, equality error %.3Lg)", kind.c_str(), out.iterations.size(), dist, f, hv);
  const auto t = out.termination_state;
  const bool satisfied = t == NLSTerminationState::SATISFIED_ABSOLUTE_TOL || t == NLSTerminationState::SATISFIED_RELATIVE_TOL ||
                         t == NLSTerminationState::SATISFIED_FIRST_ORDER_TOL;
  // with active bounds the inexact inner solutions may leave no descent direction at the minimizer
  const bool gave_up = t == NLSTerminationState::MAX_LAMBDA && c.bounds_active;
  R->count(satisfied ? "satisfied" : gave_up ? "gave-up-at-minimizer" : "failed");
  if (!satisfied && !gave_up) bad("not-satisfied", strf("terminated with state %d ", static_cast<int>(t)) + where);
  if (!(dist <= 0.008L)) bad("distance", "the result is not the minimizer " + where);
  if (!(std::abs(f - c.fs) <= 3e-5L * (1 + c.fs))) bad("cost", "the cost is not the minimum " + where);
  if (!(hv <= 1e-5L)) bad("equality", "the equality constraints do not hold " + where);
  if (!(viol <= 1e-9L)) bad("bounds", strf("a bound is violated by %.3Lg ", viol) + where);
  if (args_verbose) std::fprintf(stderr, "%s\n", out.ToString(false, true).c_str());
  R->maxval("equality", static_cast<double>(hv));
  R->maxval("bounds", static_cast<double>(viol));
  R->maxval("cost:" + kind, static_cast<double>((f - c.fs) / (1 + c.fs)));
  uint64_t sig = vh::hash_doubles(c.spec.x0.data(), c.spec.N, static_cast<uint64_t>(family));
  R->distinct(sig, "C16");
  if (R->case_index() < 8) R->sample(strf("case %ld ", R->case_index()) + where + " " + c.spec.describe());
}

int main(int argc, char** argv) {
  const auto args = vh::Args::parse(argc, argv);
  vh::Reporter rep(args, "drv_conv");
  R = &rep;
  args_verbose = args.only >= 0;
  vh::run_cases(rep, [&](long, uint64_t seed) {
    Rng rng(seed);
    conv_case(rng);
  });
  if (g_stuck_possible >= 200 && g_stuck * 100 > g_stuck_possible)
    rep.violation("C16", "stuck", strf("the inner solver got stuck in %ld of %ld problems with equalities and bounds", g_stuck, g_stuck_possible));
  if (g_stuck_possible >= 200 && g_threw * 500 > g_stuck_possible)
    rep.violation("C16", "threw", strf("an assertion failed while solving %ld of %ld problems with equalities and bounds", g_threw, g_stuck_possible));
  return rep.finish();
}
