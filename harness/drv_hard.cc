// C09: hostile but well-formed inputs: large and odd sizes, values of every magnitude including
// non-finite ones, extreme parameters, long lives of one solver object, and every public entry point.
// Nothing is compared here; the sanitizers, Eigen's assertions and valgrind are the judges.
#include <memory>
#include <sstream>

#include "genqp.hpp"
#include <nlohmann/json.hpp>

#include "mini_opt/nonlinear.hpp"
#include "mini_opt/serialization.hpp"
#include "mini_opt/tracing.hpp"
#include "nlsgen.hpp"

using namespace mini_opt;
using gn::S;
using vh::Rng;
using vh::strf;

static vh::Reporter* R;
static volatile double g_sink;

static double hostile(Rng& rng, int level) {
  if (level >= 2 && rng.chance(0.1)) {
    const double v[] = {std::nan(""), HUGE_VAL, -HUGE_VAL, 0.0, -0.0, 1.7976931348623157e308, -1.7976931348623157e308, 4.9e-324};
    return v[rng.irange(0, 7)];
  }
  if (level >= 1 && rng.chance(0.3)) return rng.sgn() * rng.logu(1e-200, 1e200);
  return rng.normal();
}

static int odd_size(Rng& rng) {
  if (rng.chance(0.6)) return rng.irange(1, 6);
  const int v[] = {7, 8, 9, 15, 16, 17, 31, 32, 33, 48, 49, 63, 64, 65};
  return v[rng.irange(0, 13)];
}

static QP hostile_qp(Rng& rng, int level) {
  const int n = odd_size(rng);
  QP q;
  q.G = Eigen::MatrixXd(n, n);
  const int style = rng.irange(0, 3);
  for (int i = 0; i < n; ++i)
    for (int j = 0; j <= i; ++j) q.G(i, j) = q.G(j, i) = style == 0 ? (i == j) : style == 1 ? 0.0 : hostile(rng, level);
  if (style >= 2 && rng.chance(0.6)) {
    const Eigen::MatrixXd J = q.G;
    q.G = J.transpose() * J;
  }
  q.c = Eigen::VectorXd(n);
  for (int i = 0; i < n; ++i) q.c[i] = hostile(rng, level);
  const int k = rng.chance(0.4) ? 0 : rng.chance(0.8) ? rng.irange(0, n) : rng.irange(n, 2 * n + 1);
  q.A_eq = Eigen::MatrixXd(k, n);
  q.b_eq = Eigen::VectorXd(k);
  for (int i = 0; i < k; ++i) {
    const int kind = rng.irange(0, 3);
    for (int j = 0; j < n; ++j) q.A_eq(i, j) = kind == 0 ? 0.0 : kind == 1 && i > 0 ? q.A_eq(i - 1, j) : rng.chance(0.3) ? 0.0 : hostile(rng, level);
    q.b_eq[i] = hostile(rng, level);
  }
  if (k == 0 && rng.chance(0.5)) q.A_eq.resize(0, 0);
  const int m = rng.chance(0.3) ? 0 : rng.chance(0.9) ? rng.irange(1, 2 * n) : rng.irange(50, 200);
  for (int i = 0; i < m; ++i) {
    double a = hostile(rng, level);
    if (a == 0) a = 1;
    q.constraints.emplace_back(rng.irange(0, n - 1), a, hostile(rng, level));
  }
  return q;
}

template <typename F>
static bool attempt(const char* what, F&& f) {
  try {
    f();
    R->count(std::string("done:") + what);
    return true;
  } catch (const std::exception& e) {
    R->count(std::string("threw:") + what);
    g_sink = g_sink + static_cast<double>(std::string(e.what()).size());
    return false;
  }
}

static void qp_case(Rng& rng) {
  const int level = rng.irange(0, 2);
  std::vector<std::unique_ptr<QP>> problems;
  QPInteriorPointSolver ip;
  QPNullSpaceSolver ns;
  const int rounds = rng.irange(1, 4);
  for (int round = 0; round < rounds; ++round) {
    problems.push_back(std::make_unique<QP>(hostile_qp(rng, level)));
    const QP& q = *problems.back();
    R->distinct(vh::hash_doubles(q.G.data(), q.G.size(), static_cast<uint64_t>(q.A_eq.rows())), "C09");
    if (R->case_index() < 12 && round == 0) R->sample(strf("case %ld: N=%ld K=%ld M=%zu level %d", R->case_index(), static_cast<long>(q.G.rows()), static_cast<long>(q.A_eq.rows()), q.constraints.size(), level));
    attempt("eigenvalues", [&] {
      const auto e = q.ComputeEigenvalueStats();
      g_sink = e.min + e.max + e.abs_min;
    });
    attempt("null-space", [&] {
      if (ns.Solve(q) == QPNullSpaceTerminationState::SUCCESS) g_sink = ns.variables().sum();
    });
    QPInteriorPointSolver::Params p;
    p.max_iterations = rng.chance(0.9) ? rng.irange(1, 12) : 60;
    p.barrier_strategy = static_cast<BarrierStrategy>(rng.irange(0, 2));
    p.decrease_mu_only_on_small_error = rng.chance(0.3);
    p.initialize_mu_with_complementarity = rng.chance(0.3);
    if (rng.chance(0.3)) p.initial_mu = rng.logu(1e-300, 1e300);
    if (rng.chance(0.3)) p.sigma = rng.chance(0.5) ? 1.0 : rng.logu(1e-300, 1);
    if (rng.chance(0.3)) p.termination_kkt_tol = rng.logu(1e-300, 1e300);
    if (rng.chance(0.3)) p.termination_complementarity_tol = hostile(rng, 2);
    if (!attempt("setup", [&] { ip.Setup(&q); })) continue;
    if (rng.chance(0.4)) {
      Eigen::VectorXd v(ip.variables().rows());
      for (int i = 0; i < v.rows(); ++i) v[i] = rng.chance(0.5) ? 1.0 : std::fabs(hostile(rng, level));
      attempt("set-variables", [&] { ip.SetVariables(v); });
      if (rng.chance(0.3)) {
        ip.x_block().setZero();
        ip.y_block().setConstant(hostile(rng, level));
        ip.z_block().setOnes();
        ip.s_block().setOnes();
      }
      p.initial_guess_method = InitialGuessMethod::USER_PROVIDED;
    } else {
      p.initial_guess_method = rng.chance(0.5) ? InitialGuessMethod::NAIVE : InitialGuessMethod::SOLVE_EQUALITY_CONSTRAINED;
    }
    const int repeats = rng.irange(1, 2);
    for (int k = 0; k < repeats; ++k) {
      attempt("interior-point", [&] {
        const auto out = ip.Solve(p);
        double s = 0;
        for (auto& it : out.iterations) s += it.kkt_final.Max() + static_cast<double>(it.ToString().size());
        if (out.lagrange_multipliers) s += out.lagrange_multipliers->min + out.lagrange_multipliers->l_infinity;
        const auto& c = ip;
        s += c.x_block().sum() + c.s_block().sum() + c.y_block().sum() + c.z_block().sum();
        g_sink = s;
      });
      p.initial_guess_method = static_cast<InitialGuessMethod>(rng.irange(0, 1));
    }
    if (rng.chance(0.3)) {
      QPInteriorPointSolver copy = ip;
      attempt("copy", [&] { g_sink = static_cast<double>(copy.Solve(p).iterations.size()); });
      QPInteriorPointSolver moved = std::move(copy);
      copy = moved;
      ip = std::move(moved);
      attempt("moved", [&] { g_sink = static_cast<double>(ip.Solve(p).iterations.size()); });
    }
    if (rng.chance(0.2)) {
      QPNullSpaceSolver copy = ns;
      ns = std::move(copy);
    }
  }
}

static void use_outputs(Rng& rng, const NLSSolverOutputs& out) {
  g_sink = static_cast<double>(out.ToString(rng.chance(0.5), rng.chance(0.5)).size() + out.NumQPIterations() + out.NumLineSearchSteps() + out.NumFailedLineSearches());
  if (rng.chance(0.3)) {
    const nlohmann::json j = out;
    const std::string text = j.dump();
    const auto back = nlohmann::json::parse(text).get<NLSSolverOutputs>();
    g_sink = static_cast<double>(back.iterations.size());
    R->count("serialized");
  }
}

static void nls_case(Rng& rng) {
  gn::GenOptions o;
  o.nmax = 6;
  gn::Spec spec = gn::random_spec(rng, o, rng.irange(0, gn::N_FAMILIES - 1));
  // spoil some of the numbers
  if (rng.chance(0.5)) {
    auto spoil = [&](gn::FnData& f) {
      if (rng.chance(0.4)) f.A[S(rng.irange(0, f.R * f.P - 1))] = hostile(rng, 2);
      if (rng.chance(0.4)) f.b[S(rng.irange(0, f.R - 1))] = hostile(rng, 2);
    };
    for (auto& f : spec.costs) spoil(f);
    for (auto& f : spec.eqs) spoil(f);
    for (auto& c : spec.ineq)
      if (rng.chance(0.2)) c.b = hostile(rng, 2);
    if (rng.chance(0.2)) spec.x0[rng.irange(0, static_cast<int>(spec.x0.rows()) - 1)] = hostile(rng, 2);
  }
  spec.params.log_qp_eigenvalues = rng.chance(0.5);
  if (rng.chance(0.1)) spec.params.max_iterations = 200;
  if (rng.chance(0.1)) spec.params.max_line_search_iterations = 60;
  if (rng.chance(0.1)) spec.params.max_lambda = 1e300;
  if (rng.chance(0.1)) spec.params.equality_penalty_scale_factor = 1e200;
  const Problem problem = spec.build(nullptr);
  ConstrainedNonlinearLeastSquares::Retraction retraction;
  if (spec.retraction != gn::RETR_NONE) {
    const int kind = spec.retraction;
    retraction = [kind](Eigen::VectorXd& x, ConstVectorBlock dx, double alpha) { gn::retract(kind, x, dx, alpha); };
  }
  ConstrainedNonlinearLeastSquares solver(&problem, retraction);
  long calls = 0;
  if (rng.chance(0.5)) {
    solver.SetUserExitCallback([&](const NLSIteration& it) {
      g_sink = static_cast<double>(it.ToString(true, true).size());
      return ++calls < 20;
    });
  }
  R->distinct(vh::hash_str(spec.describe()), "C09");
  if (R->case_index() < 12) R->sample(strf("case %ld: ", R->case_index()) + spec.describe());
  const int repeats = rng.irange(1, 3);
  for (int k = 0; k < repeats; ++k) {
    attempt("nls", [&] {
      const auto out = solver.Solve(spec.params, spec.x0);
      use_outputs(rng, out);
      g_sink = solver.variables().sum();
    });
    attempt("evaluate", [&] { g_sink = solver.EvaluateNonlinearErrors(spec.x0).f; });
    if (rng.chance(0.3)) attempt("evaluate-own-variables", [&] { g_sink = solver.EvaluateNonlinearErrors(solver.variables()).f; });
    if (rng.chance(0.2)) attempt("restart-from-own-variables", [&] { use_outputs(rng, solver.Solve(spec.params, solver.variables())); });
    if (rng.chance(0.2)) {
      ConstrainedNonlinearLeastSquares copy = solver;
      attempt("nls-copy", [&] { use_outputs(rng, copy.Solve(spec.params, spec.x0)); });
      ConstrainedNonlinearLeastSquares moved = std::move(copy);
      attempt("nls-moved", [&] { use_outputs(rng, moved.Solve(spec.params, spec.x0)); });
      solver = std::move(moved);
    }
  }
}

// Residuals with many rows and parameters, more than anything else in the problem.
static void shape_case(Rng& rng) {
  const int n = odd_size(rng);
  Problem problem;
  problem.dimension = n;
  auto add = [&](std::vector<Residual>& to) {
    std::vector<int> index;
    const int count = rng.chance(0.05) ? 0 : rng.irange(1, n);
    for (int i = 0; i < count; ++i) index.push_back(rng.irange(0, n - 1));
    const double a = rng.normal(), b = rng.normal();
    auto make = [&](auto dim) {
      constexpr int D = decltype(dim)::value;
      to.push_back(MakeResidual<D, Eigen::Dynamic>(index, [a, b](const Eigen::VectorXd& p, Eigen::Matrix<double, D, Eigen::Dynamic>* J) {
        Eigen::Matrix<double, D, 1> r;
        for (int i = 0; i < D; ++i) {
          r[i] = b * (i + 1);
          for (int j = 0; j < p.rows(); ++j) {
            const double w = a * ((i * 7 + j * 3) % 5 - 2);
            r[i] += w * p[j];
            if (J) (*J)(i, j) = w;
          }
        }
        return r;
      }));
    };
    switch (rng.irange(0, 5)) {
      case 0:
        return make(std::integral_constant<int, 1>{});
      case 1:
        return make(std::integral_constant<int, 3>{});
      case 2:
        return make(std::integral_constant<int, 5>{});
      case 3:
        return make(std::integral_constant<int, 16>{});
      case 4:
        return make(std::integral_constant<int, 33>{});
      default:
        return make(std::integral_constant<int, 70>{});
    }
  };
  const int costs = rng.chance(0.1) ? 0 : rng.irange(1, 3);
  for (int i = 0; i < costs; ++i) add(problem.costs);
  const int eqs = rng.chance(0.6) ? 0 : rng.irange(1, 2);
  for (int i = 0; i < eqs; ++i) add(problem.equality_constraints);
  const int bounds = rng.chance(0.5) ? 0 : rng.irange(1, n);
  for (int i = 0; i < bounds; ++i) problem.inequality_constraints.emplace_back(rng.irange(0, n - 1), rng.sgn() * rng.uni(0.1, 2), rng.uni(0.1, 3));
  ConstrainedNonlinearLeastSquares::Params p;
  p.lambda_initial = rng.chance(0.5) ? 1e-3 : 0.0;
  p.log_qp_eigenvalues = rng.chance(0.3);
  p.max_iterations = rng.irange(0, 4);
  attempt("shapes", [&] {
    ConstrainedNonlinearLeastSquares solver(&problem);
    use_outputs(rng, solver.Solve(p, Eigen::VectorXd::Zero(n)));
    // residuals added later may be larger than all of those known at construction
    add(problem.costs);
    g_sink = solver.EvaluateNonlinearErrors(Eigen::VectorXd::Ones(n)).f;
    use_outputs(rng, solver.Solve(p, Eigen::VectorXd::Ones(n)));
    problem.costs.clear();
    problem.inequality_constraints.clear();
    use_outputs(rng, solver.Solve(p, Eigen::VectorXd::Ones(n)));
  });
  uint64_t sig = static_cast<uint64_t>(n * 1000 + costs * 100 + eqs * 10) ^ rng.next();
  R->distinct(sig, "C09");
  std::ostringstream os;
  os << InitialGuessMethod::NAIVE << OptimizerState::NOMINAL;
  attempt("trace-json", [&] {
    if (rng.chance(0.02)) g_sink = static_cast<double>(trace_collector::get_instance()->get_trace_json().size());
  });
}

int main(int argc, char** argv) {
  const auto args = vh::Args::parse(argc, argv);
  vh::Reporter rep(args, "drv_hard");
  R = &rep;
  vh::run_cases(rep, [&](long i, uint64_t seed) {
    Rng rng(seed);
    switch (i % 3) {
      case 0:
        return qp_case(rng);
      case 1:
        return nls_case(rng);
      default:
        return shape_case(rng);
    }
  });
  return rep.finish();
}
