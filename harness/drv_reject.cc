// C08: malformed requests are rejected with an exception derived from std::exception and leave the
// object usable; boundary values that are valid are accepted. The requests are enumerated by name;
// every case runs all of them around fresh random valid problems.
#include "cmp.hpp"
#include "genqp.hpp"
#include "mini_opt/nonlinear.hpp"
#include "nlsgen.hpp"

using namespace mini_opt;
using gn::S;
using gq::Case;
using vh::Rng;
using vh::strf;

static vh::Reporter* R;
static uint64_t g_sig;

static const double kNaN = std::nan("");
static const double kInf = HUGE_VAL;

// Run a request that must be rejected.
template <typename F>
static void reject(const std::string& name, F&& f) {
  std::string how;
  try {
    f();
    how = "accepted";
  } catch (const std::bad_alloc&) {
    how = "bad_alloc";
  } catch (const std::length_error& e) {
    how = strf("length_error (%s)", e.what());
  } catch (const std::exception& e) {
    if (e.what() != nullptr && *e.what()) {
      R->count("rejected");
      g_sig = vh::hash_str(name, g_sig);
      return;
    }
    how = "an exception without a message";
  } catch (...) {
    how = "an exception that does not derive from std::exception";
  }
  R->violation("C08", "reject:" + name, "a malformed request (" + name + ") led to: " + how);
}

// Run a request that must be accepted.
template <typename F>
static void accept(const std::string& name, F&& f) {
  try {
    f();
    R->count("accepted");
    g_sig = vh::hash_str(name, g_sig);
  } catch (const std::exception& e) {
    R->violation("C08", "accept:" + name, "a valid boundary request (" + name + ") was rejected: " + e.what());
  }
}

// ---------------------------------------------------------------------------------------------

static QP good_qp(Rng& rng) {
  for (;;) {
    Case cs = gq::known_solution(rng, 5, 50);
    if (cs.known.valid && !cs.qp.constraints.empty()) return cs.qp;
  }
}

struct Ip {
  QPInteriorPointSolver s;
  QP problem;
  QPInteriorPointSolver::Params params;
  bool set_up = false;
};

static void check_usable(Ip& ip, Rng& rng, const std::string& after) {
  // the previously accepted problem
  if (ip.set_up) {
    try {
      const auto out = ip.s.Solve(ip.params);
      QPInteriorPointSolver fresh(&ip.problem);
      const auto ref = fresh.Solve(ip.params);
      std::string d = cmp::diff("outputs", out, ref);
      if (d.empty()) d = cmp::diff_vec("variables", ip.s.variables(), fresh.variables());
      if (d.empty() && &ip.s.problem() != &ip.problem) d = "problem() is another object";
      R->count("previous-problem-solved");
      if (!d.empty()) R->violation("C08", "usable:" + after, "after a rejected request (" + after + ") the previous problem is solved differently: " + d);
    } catch (const std::exception& e) {
      R->violation("C08", "usable:" + after, "after a rejected request (" + after + ") the previous problem is not solved: " + e.what());
    }
  }
  if (!ip.set_up || rng.chance(0.1)) {
    ip.problem = good_qp(rng);
    try {
      ip.s.Setup(&ip.problem);
      ip.set_up = true;
      const auto out = ip.s.Solve(ip.params);
      QPInteriorPointSolver fresh(&ip.problem);
      const auto ref = fresh.Solve(ip.params);
      std::string d = cmp::diff("outputs", out, ref);
      if (d.empty()) d = cmp::diff_vec("variables", ip.s.variables(), fresh.variables());
      R->count("new-problem-solved");
      if (!d.empty()) R->violation("C08", "usable:" + after, "after a rejected request (" + after + ") a new problem is solved differently: " + d);
    } catch (const std::exception& e) {
      R->violation("C08", "usable:" + after, "after a rejected request (" + after + ") a new problem is not solved: " + e.what());
    }
  }
}

static void ip_requests(Rng& rng) {
  Ip ip;
  ip.params.max_iterations = rng.irange(1, 12);
  ip.params.barrier_strategy = static_cast<BarrierStrategy>(rng.irange(0, 2));
  const bool with_history = rng.chance(0.7);
  if (!with_history) {
    QPInteriorPointSolver blank;
    reject("ip-solve-before-setup", [&] { (void)blank.Solve(ip.params); });
    reject("ip-problem-before-setup", [&] { (void)blank.problem(); });
    reject("ip-set-variables-before-setup", [&] { blank.SetVariables(Eigen::VectorXd::Ones(3)); });
    reject("ip-ctor-null", [&] { QPInteriorPointSolver s(nullptr); });
  } else {
    check_usable(ip, rng, "start");
  }

  auto bad_setup = [&](const std::string& name, const std::function<void(QP&)>& spoil) {
    QP bad = good_qp(rng);
    spoil(bad);
    reject("ip-setup-" + name, [&] { ip.s.Setup(&bad); });
    reject("ip-ctor-" + name, [&] { QPInteriorPointSolver s(&bad); });
    check_usable(ip, rng, "setup-" + name);
  };
  auto eq = [&](QP& q) {  // make sure there is at least one equality constraint
    const int N = gq::dimN(q);
    if (gq::dimK(q) == 0) {
      q.A_eq = Eigen::MatrixXd::Ones(1, N);
      q.b_eq = Eigen::VectorXd::Zero(1);
    }
  };
  reject("ip-setup-null", [&] { ip.s.Setup(nullptr); });
  check_usable(ip, rng, "setup-null");
  bad_setup("G-wide", [](QP& q) { q.G.conservativeResize(q.G.rows(), q.G.cols() + 1); });
  bad_setup("G-tall", [](QP& q) { q.G.conservativeResize(q.G.rows() + 1, q.G.cols()); });
  bad_setup("G-short", [](QP& q) { q.G.conservativeResize(q.G.rows() - 1, q.G.cols()); });
  bad_setup("G-empty", [](QP& q) { q.G.resize(0, 0); });
  bad_setup("c-long", [](QP& q) { q.c.conservativeResize(q.c.rows() + 1); });
  bad_setup("c-short", [](QP& q) { q.c.conservativeResize(q.c.rows() - 1); });
  bad_setup("c-empty", [](QP& q) { q.c.resize(0); });
  bad_setup("b-eq-long", [&](QP& q) { q.b_eq.conservativeResize(q.b_eq.rows() + rng.irange(1, 3)); });
  bad_setup("b-eq-short", [&](QP& q) {
    eq(q);
    q.b_eq.conservativeResize(q.b_eq.rows() - 1);
  });
  bad_setup("A-eq-rows", [&](QP& q) {
    eq(q);
    q.A_eq.conservativeResize(q.A_eq.rows() + 1, q.A_eq.cols());
  });
  bad_setup("A-eq-wide", [&](QP& q) {
    eq(q);
    q.A_eq.conservativeResize(q.A_eq.rows(), q.A_eq.cols() + 1);
  });
  bad_setup("A-eq-narrow", [&](QP& q) {
    eq(q);
    q.A_eq.conservativeResize(q.A_eq.rows(), q.A_eq.cols() - 1);
  });
  bad_setup("A-eq-no-columns", [&](QP& q) {
    eq(q);
    q.A_eq.resize(q.A_eq.rows(), 0);
  });
  bad_setup("A-eq-missing", [&](QP& q) {
    eq(q);
    q.A_eq.resize(0, 0);
  });
  for (int where = 0; where < 4; ++where) {
    const char* names[] = {"negative", "N", "INT_MAX", "INT_MIN"};
    bad_setup(std::string("index-") + names[where], [&](QP& q) {
      const int N = gq::dimN(q);
      const int v[] = {-1, N, INT32_MAX, INT32_MIN};
      LinearInequalityConstraint c(v[where], rng.sgn(), 1.0);
      q.constraints.insert(q.constraints.begin() + rng.irange(0, gq::dimM(q)), c);
    });
  }

  auto bad_params = [&](const std::string& name, const std::function<void(QPInteriorPointSolver::Params&)>& spoil) {
    auto p = ip.params;
    spoil(p);
    if (!ip.set_up) check_usable(ip, rng, "start");
    reject("ip-params-" + name, [&] { (void)ip.s.Solve(p); });
    check_usable(ip, rng, "params-" + name);
  };
  using P = QPInteriorPointSolver::Params;
  bad_params("mu-zero", [](P& p) { p.initial_mu = 0; });
  bad_params("mu-negative", [](P& p) { p.initial_mu = -1e-300; });
  bad_params("mu-nan", [](P& p) { p.initial_mu = kNaN; });
  bad_params("sigma-zero", [](P& p) { p.sigma = 0; });
  bad_params("sigma-negative", [](P& p) { p.sigma = -0.5; });
  bad_params("sigma-above-one", [](P& p) { p.sigma = std::nextafter(1.0, 2.0); });
  bad_params("sigma-nan", [](P& p) { p.sigma = kNaN; });
  bad_params("tol-zero", [](P& p) { p.termination_kkt_tol = 0; });
  bad_params("tol-negative", [](P& p) { p.termination_kkt_tol = -1e-9; });
  bad_params("tol-nan", [](P& p) { p.termination_kkt_tol = kNaN; });
  bad_params("iterations-zero", [](P& p) { p.max_iterations = 0; });
  bad_params("iterations-negative", [&](P& p) { p.max_iterations = rng.chance(0.5) ? -1 : INT32_MIN; });
  if (!ip.set_up) check_usable(ip, rng, "start");

  for (int dn : {-1, 1, 100}) {
    reject("ip-set-variables-size", [&] { ip.s.SetVariables(Eigen::VectorXd::Ones(ip.s.variables().rows() + dn)); });
    check_usable(ip, rng, "set-variables-size");
  }
  reject("ip-set-variables-empty", [&] { ip.s.SetVariables(Eigen::VectorXd()); });
  check_usable(ip, rng, "set-variables-empty");
  {
    // slacks that are not positive
    auto p = ip.params;
    p.initial_guess_method = InitialGuessMethod::USER_PROVIDED;
    for (double bad : {0.0, -1.0, kNaN}) {
      // (check_usable may have moved on to another problem)
      const int N = gq::dimN(ip.problem), M = gq::dimM(ip.problem);
      Eigen::VectorXd v = Eigen::VectorXd::Ones(ip.s.variables().rows());
      v[N + rng.irange(0, M - 1)] = bad;
      ip.s.SetVariables(v);
      reject("ip-slack-not-positive", [&] { (void)ip.s.Solve(p); });
      check_usable(ip, rng, "slack-not-positive");
    }
  }
  {
    QP q = good_qp(rng);
    q.constraints.insert(q.constraints.begin() + rng.irange(0, gq::dimM(q)), LinearInequalityConstraint(0, rng.chance(0.5) ? 0.0 : -0.0, 1.0));
    QPInteriorPointSolver s(&q);
    for (auto g : {InitialGuessMethod::NAIVE, InitialGuessMethod::SOLVE_EQUALITY_CONSTRAINED}) {
      auto p = ip.params;
      p.initial_guess_method = g;
      reject("ip-zero-coefficient", [&] { (void)s.Solve(p); });
    }
    Ip other;
    other.params = ip.params;
    other.s = s;
    check_usable(other, rng, "zero-coefficient");
  }

  // valid boundary values
  auto good_params = [&](const std::string& name, const std::function<void(P&)>& f) {
    auto p = ip.params;
    // few iterations: with such tolerances the systems become too badly scaled to factorise later on
    p.max_iterations = std::min(p.max_iterations, 3);
    f(p);
    accept("ip-params-" + name, [&] {
      try {
        const auto out = ip.s.Solve(p);
        if (static_cast<int>(out.iterations.size()) > p.max_iterations) throw std::runtime_error("more iterations than allowed");
      } catch (const FailedFactorization&) {
        R->count("boundary-hard");
      }
    });
  };
  if (!ip.set_up) check_usable(ip, rng, "start");
  good_params("sigma-one", [](P& p) { p.sigma = 1.0; });
  good_params("sigma-tiny", [](P& p) { p.sigma = 1e-12; });
  good_params("one-iteration", [](P& p) { p.max_iterations = 1; });
  good_params("tol-tiny", [](P& p) { p.termination_kkt_tol = 1e-300; });
  good_params("tol-huge", [](P& p) { p.termination_kkt_tol = 1e300; });
  good_params("mu-large", [](P& p) {
    p.initial_mu = 1e3;
    p.max_iterations = 2;
  });
  accept("ip-no-constraints-at-all", [&] {
    QP q = good_qp(rng);
    q.constraints.clear();
    const int N = gq::dimN(q);
    q.A_eq.resize(0, rng.chance(0.5) ? N : 0);
    q.b_eq.resize(0);
    QPInteriorPointSolver s(&q);
    (void)s.Solve(ip.params);
    ip.s.Setup(&q);
    (void)ip.s.Solve(ip.params);
    ip.s.Setup(&ip.problem);
  });
  accept("ip-first-and-last-variable", [&] {
    QP q = good_qp(rng);
    q.constraints.clear();
    q.constraints.emplace_back(0, 1.0, 5.0);
    q.constraints.emplace_back(gq::dimN(q) - 1, -1.0, 5.0);
    QPInteriorPointSolver s(&q);
    (void)s.Solve(ip.params);
  });
  accept("ip-set-variables", [&] { ip.s.SetVariables(Eigen::VectorXd::Ones(ip.s.variables().rows())); });
}

// ---------------------------------------------------------------------------------------------

static void ns_requests(Rng& rng) {
  auto good = [&] {
    for (;;) {
      Case cs = gq::known_solution(rng, 5, 50);
      if (cs.known.valid && gq::dimK(cs.qp) > 0) return cs.qp;
    }
  };
  QPNullSpaceSolver s;
  auto usable = [&](const std::string& after) {
    const QP q = good();
    try {
      const auto a = s.Solve(q);
      QPNullSpaceSolver fresh;
      const auto b = fresh.Solve(q);
      std::string d = cmp::ord("state", a, b);
      if (d.empty()) d = cmp::diff_vec("variables", s.variables(), fresh.variables());
      R->count("new-problem-solved");
      if (!d.empty()) R->violation("C08", "usable:" + after, "after a rejected request (" + after + ") a new problem is solved differently: " + d);
    } catch (const std::exception& e) {
      R->violation("C08", "usable:" + after, "after a rejected request (" + after + ") a new problem is not solved: " + e.what());
    }
  };
  auto bad = [&](const std::string& name, const std::function<void(QP&)>& spoil) {
    QP q = good();
    spoil(q);
    reject("ns-" + name, [&] { (void)s.Solve(q); });
    usable("ns-" + name);
  };
  bad("no-equality", [](QP& q) {
    q.A_eq.resize(0, q.G.cols());
    q.b_eq.resize(0);
  });
  bad("no-equality-empty", [](QP& q) {
    q.A_eq.resize(0, 0);
    q.b_eq.resize(0);
  });
  bad("b-long", [](QP& q) { q.b_eq.conservativeResize(q.b_eq.rows() + 1); });
  bad("b-short", [](QP& q) { q.b_eq.conservativeResize(q.b_eq.rows() - 1); });
  bad("G-wide", [](QP& q) { q.G.conservativeResize(q.G.rows(), q.G.cols() + 1); });
  bad("G-tall", [](QP& q) { q.G.conservativeResize(q.G.rows() + 1, q.G.cols()); });
  bad("G-and-c-larger", [](QP& q) {
    q.G.conservativeResize(q.G.rows() + 1, q.G.cols() + 1);
    q.c.conservativeResize(q.c.rows() + 1);
  });
  bad("c-long", [](QP& q) { q.c.conservativeResize(q.c.rows() + 1); });
  bad("c-short", [](QP& q) { q.c.conservativeResize(q.c.rows() - 1); });
  bad("A-wide", [](QP& q) { q.A_eq.conservativeResize(q.A_eq.rows(), q.A_eq.cols() + 1); });
  bad("A-narrow", [](QP& q) { q.A_eq.conservativeResize(q.A_eq.rows(), q.A_eq.cols() - 1); });
  accept("ns-square", [&] {
    QP q = good();
    const int N = gq::dimN(q);
    q.A_eq = Eigen::MatrixXd::Identity(N, N);
    q.b_eq = Eigen::VectorXd::Ones(N);
    if (s.Solve(q) != QPNullSpaceTerminationState::SUCCESS) throw std::runtime_error("not solved");
  });
  // with a single variable
  accept("ns-single", [&] {
    QP q(1);
    q.G(0, 0) = 1;
    q.A_eq = Eigen::MatrixXd::Ones(1, 1);
    q.b_eq = Eigen::VectorXd::Ones(1);
    if (s.Solve(q) != QPNullSpaceTerminationState::SUCCESS) throw std::runtime_error("not solved");
  });
}

// ---------------------------------------------------------------------------------------------

struct Nls {
  gn::Spec spec;
  Problem problem;
  ConstrainedNonlinearLeastSquares::Retraction retraction;
};

static void make_nls(Nls& n, Rng& rng, int retraction = -1) {
  gn::GenOptions o;
  o.nmax = 4;
  o.allow_retraction = false;
  n.spec = gn::random_spec(rng, o, rng.irange(gn::LINEAR, gn::MILD));
  if (retraction >= 0) {
    n.spec.retraction = retraction;
    if (retraction == gn::RETR_LARGER) {
      n.spec.x0.conservativeResize(n.spec.N + 2);
      n.spec.x0.tail(2).setConstant(0.25);
    }
    n.retraction = [retraction](Eigen::VectorXd& x, ConstVectorBlock dx, double alpha) { gn::retract(retraction, x, dx, alpha); };
  }
  n.problem = n.spec.build(nullptr);
}

static std::string nls_outcome(Nls& n, ConstrainedNonlinearLeastSquares& s, std::optional<NLSSolverOutputs>* out, Eigen::VectorXd* vars) {
  try {
    out->emplace(s.Solve(n.spec.params, n.spec.x0));
    *vars = s.variables();
    return "";
  } catch (const std::exception& e) {
    return e.what();
  }
}

static void nls_usable(Nls& n, ConstrainedNonlinearLeastSquares& s, const std::string& after) {
  std::optional<NLSSolverOutputs> a, b;
  Eigen::VectorXd va, vb;
  ConstrainedNonlinearLeastSquares fresh(&n.problem, n.retraction);
  const std::string ea = nls_outcome(n, s, &a, &va), eb = nls_outcome(n, fresh, &b, &vb);
  if (ea.empty() != eb.empty()) {
    R->violation("C08", "usable:" + after, "after a rejected request (" + after + ") a valid solve threw [" + ea + "], a new solver [" + eb + "]");
    return;
  }
  if (!ea.empty()) return;
  R->count("previous-problem-solved");
  std::string d = cmp::diff("outputs", *a, *b);
  if (d.empty()) d = cmp::diff_vec("variables", va, vb);
  if (!d.empty()) R->violation("C08", "usable:" + after, "after a rejected request (" + after + ") a valid solve differs: " + d + "; " + n.spec.describe());
}

static Residual unit_residual(int i) {
  return MakeResidual<1, 1>({i}, [](const Eigen::Matrix<double, 1, 1>& p, Eigen::Matrix<double, 1, 1>* J) {
    if (J) J->setOnes();
    return Eigen::Matrix<double, 1, 1>(p[0]);
  });
}
static Residual unit_dynamic(int i) {
  return MakeResidual<1, Eigen::Dynamic>({i}, [](const Eigen::VectorXd& p, Eigen::Matrix<double, 1, Eigen::Dynamic>* J) {
    if (J) J->setOnes();
    return Eigen::Matrix<double, 1, 1>(p[0]);
  });
}

static void nls_requests(Rng& rng) {
  using P = gn::Params;
  reject("nls-ctor-null", [&] { ConstrainedNonlinearLeastSquares s(nullptr); });
  {
    Nls n;
    make_nls(n, rng);
    for (int d : {0, -1, INT32_MIN}) {
      n.problem.dimension = d;
      reject("nls-ctor-dimension", [&] { ConstrainedNonlinearLeastSquares s(&n.problem); });
    }
    n.problem.dimension = n.spec.N;
    accept("nls-ctor", [&] { ConstrainedNonlinearLeastSquares s(&n.problem); });
  }
  {
    Nls n;
    make_nls(n, rng);
    n.problem.costs.push_back(unit_residual(0));
    Residual taken = std::move(n.problem.costs.back());
    reject("nls-moved-from-cost", [&] {
      ConstrainedNonlinearLeastSquares s(&n.problem);  // here, or at the latest when it is used
      P params = n.spec.params;
      params.max_iterations = std::max(1, params.max_iterations);
      (void)s.Solve(params, n.spec.x0);
    });
    n.problem.costs.pop_back();
    n.problem.equality_constraints.push_back(unit_residual(0));
    Residual taken2 = std::move(n.problem.equality_constraints.back());
    reject("nls-moved-from-equality", [&] {
      ConstrainedNonlinearLeastSquares s(&n.problem);  // here, or at the latest when it is used
      P params = n.spec.params;
      params.max_iterations = std::max(1, params.max_iterations);
      (void)s.Solve(params, n.spec.x0);
    });
  }
  {
    Nls n;
    make_nls(n, rng);
    ConstrainedNonlinearLeastSquares s(&n.problem);
    const bool used = rng.chance(0.5);
    if (used) nls_usable(n, s, "start");
    auto bad_params = [&](const std::string& name, const std::function<void(P&)>& f) {
      P p = rng.chance(0.5) ? n.spec.params : P{};
      if (p.max_lambda < 0.5) p.max_lambda = 0.5;
      f(p);
      const Eigen::VectorXd before = s.variables();
      reject("nls-params-" + name, [&] { (void)s.Solve(p, n.spec.x0); });
      if (used && before.rows() == s.variables().rows() && rng.chance(0.5)) {
        const std::string d = cmp::diff_vec("variables", before, s.variables());
        if (!d.empty()) R->violation("C08", "variables-changed", "rejected parameters (" + name + ") changed the variables: " + d);
      }
      if (rng.chance(0.3)) nls_usable(n, s, "params-" + name);
    };
    bad_params("max-iterations", [](P& p) { p.max_iterations = -1; });
    bad_params("max-iterations-min", [](P& p) { p.max_iterations = INT32_MIN; });
    bad_params("qp-iterations-zero", [](P& p) { p.max_qp_iterations = 0; });
    bad_params("qp-iterations-negative", [](P& p) { p.max_qp_iterations = -5; });
    bad_params("line-search", [](P& p) { p.max_line_search_iterations = -1; });
    struct D {
      const char* name;
      double P::*m;
      std::vector<double> bad;
    };
    const double above1 = std::nextafter(1.0, 2.0), below1 = std::nextafter(1.0, 0.0), neg = -1e-300;
    const D ds[] = {
        {"kkt-tolerance", &P::termination_kkt_tolerance, {0.0, neg, kNaN}},
        {"absolute-tol", &P::absolute_exit_tol, {0.0, neg, kNaN}},
        {"relative-tol", &P::relative_exit_tol, {neg, above1, kNaN, 2.0}},
        {"first-derivative-tol", &P::absolute_first_derivative_tol, {neg, kNaN}},
        {"armijo-tau", &P::armijo_search_tau, {0.0, 1.0, -0.5, 1.5, kNaN}},
        {"penalty-initial", &P::equality_penalty_initial, {neg, -1.0, kNaN}},
        {"penalty-scale", &P::equality_penalty_scale_factor, {below1, 0.0, -1.0, kNaN}},
        {"penalty-rho", &P::equality_penalty_rho, {neg, 1.0, 1.5, kNaN}},
        {"lambda-initial", &P::lambda_initial, {neg, 1e30, kNaN}},
        {"lambda-failure", &P::lambda_failure_init, {neg, kNaN}},
        {"decrease-success", &P::lambda_decrease_on_success, {neg, 1.0, 2.0, kNaN}},
        {"decrease-restore", &P::lambda_decrease_on_restore, {neg, 1.0, 2.0, kNaN}},
        {"max-lambda", &P::max_lambda, {-1.0, kNaN}},
        {"min-lambda", &P::min_lambda, {1e30, kNaN}},
    };
    for (auto& d : ds)
      for (double v : d.bad) bad_params(d.name, [&](P& p) { p.*(d.m) = v; });
    bad_params("lambda-initial-below-min", [](P& p) {
      p.min_lambda = 0.1;
      p.lambda_initial = 0.05;
    });
    bad_params("max-below-min-lambda", [](P& p) {
      p.min_lambda = 0.3;
      p.lambda_initial = 0.3;
      p.max_lambda = 0.2;
    });
    // wrong number of variables without a retraction
    for (int dn : {-1, 1, 10}) {
      reject("nls-variables-size", [&] { (void)s.Solve(n.spec.params, Eigen::VectorXd::Zero(n.spec.N + dn)); });
      nls_usable(n, s, "variables-size");
    }
    nls_usable(n, s, "params");
    auto good_params = [&](const std::string& name, const std::function<void(P&)>& f) {
      P p;
      f(p);
      std::optional<NLSSolverOutputs> out;
      try {
        out.emplace(s.Solve(p, n.spec.x0));
        R->count("accepted");
        if (p.max_iterations == 0 && (!out->iterations.empty() || out->termination_state != NLSTerminationState::MAX_ITERATIONS ||
                                      !cmp::diff_vec("variables", s.variables(), n.spec.x0).empty()))
          R->violation("C08", "zero-iterations", "a solve with no iterations did something");
      } catch (const FailedFactorization&) {
        R->count("boundary-hard");
      } catch (const std::exception& e) {
        R->violation("C08", "accept:nls-params-" + name, "valid boundary parameters (" + name + ") were rejected: " + std::string(e.what()) + "; " + n.spec.describe());
      }
    };
    const bool tame = n.spec.family == gn::LINEAR;
    if (tame) {
      good_params("zero-iterations", [](P& p) { p.max_iterations = 0; });
      good_params("one-qp-iteration", [](P& p) {
        p.max_qp_iterations = 1;
        p.max_iterations = 1;
      });
      good_params("no-line-search", [](P& p) { p.max_line_search_iterations = 0; });
      good_params("relative-zero", [](P& p) { p.relative_exit_tol = 0; });
      good_params("relative-one", [](P& p) { p.relative_exit_tol = 1; });
      good_params("first-derivative-zero", [](P& p) { p.absolute_first_derivative_tol = 0; });
      good_params("tau-small", [](P& p) {
        p.armijo_search_tau = 1e-300;
        p.line_search_strategy = LineSearchStrategy::ARMIJO_BACKTRACK;
      });
      good_params("tau-near-one", [&](P& p) {
        p.armijo_search_tau = below1;
        p.line_search_strategy = LineSearchStrategy::ARMIJO_BACKTRACK;
      });
      good_params("scale-one", [](P& p) { p.equality_penalty_scale_factor = 1; });
      good_params("rho-zero", [](P& p) { p.equality_penalty_rho = 0; });
      good_params("rho-near-one", [&](P& p) { p.equality_penalty_rho = below1; });
      good_params("no-damping", [](P& p) { p.max_lambda = 0; });
      good_params("fixed-damping", [](P& p) { p.max_lambda = p.min_lambda = p.lambda_initial = 0.01; });
      good_params("failure-zero", [](P& p) { p.lambda_failure_init = 0; });
      good_params("decrease-zero", [](P& p) { p.lambda_decrease_on_success = p.lambda_decrease_on_restore = 0; });
      good_params("decrease-near-one", [&](P& p) { p.lambda_decrease_on_success = p.lambda_decrease_on_restore = below1; });
    }
  }
  // malformed problems
  auto bad_problem = [&](const std::string& name, int retraction, const std::function<void(Nls&)>& spoil) {
    Nls n;
    make_nls(n, rng, retraction);
    ConstrainedNonlinearLeastSquares s(&n.problem, n.retraction);
    // spoil the problem behind the solver's back, then repair it
    const size_t nc = n.problem.costs.size(), ne = n.problem.equality_constraints.size(), ni = n.problem.inequality_constraints.size();
    spoil(n);
    reject("nls-problem-" + name, [&] { (void)s.Solve(n.spec.params, n.spec.x0); });
    const bool eq_changed = n.problem.equality_constraints.size() != ne;
    if (!eq_changed) {
      reject("nls-problem-fresh-" + name, [&] {
        ConstrainedNonlinearLeastSquares f(&n.problem, n.retraction);
        (void)f.Solve(n.spec.params, n.spec.x0);
      });
    }
    while (n.problem.costs.size() > nc) n.problem.costs.pop_back();
    while (n.problem.equality_constraints.size() > ne) n.problem.equality_constraints.pop_back();
    while (n.problem.inequality_constraints.size() > ni) n.problem.inequality_constraints.pop_back();
    nls_usable(n, s, "problem-" + name);
  };
  auto make = [&](int i) { return rng.chance(0.5) ? unit_residual(i) : unit_dynamic(i); };
  for (int w = 0; w < 4; ++w) {
    const char* names[] = {"negative", "N", "INT_MAX", "INT_MIN"};
    auto index = [&](const Nls& n) {
      const int v[] = {-1, n.spec.N, INT32_MAX, INT32_MIN};
      return v[w];
    };
    bad_problem(std::string("cost-index-") + names[w], -1, [&](Nls& n) {
      if (n.spec.params.max_iterations == 0) n.spec.params.max_iterations = 1;
      n.problem.costs.push_back(make(index(n)));
    });
    bad_problem(std::string("bound-index-") + names[w], -1, [&](Nls& n) {
      if (n.spec.params.max_iterations == 0) n.spec.params.max_iterations = 1;
      n.problem.inequality_constraints.emplace_back(index(n), 1.0, 1.0);
    });
    // an equality constraint has to be there at construction
    {
      Nls n;
      make_nls(n, rng);
      if (n.spec.params.max_iterations == 0) n.spec.params.max_iterations = 1;
      n.problem.equality_constraints.push_back(make(index(n)));
      ConstrainedNonlinearLeastSquares s(&n.problem);
      reject(std::string("nls-problem-equality-index-") + names[w], [&] { (void)s.Solve(n.spec.params, n.spec.x0); });
    }
  }
  // variables beyond the tangent space exist, but cannot be differentiated
  for (int extra = 0; extra < 2; ++extra) {
    bad_problem("cost-index-beyond-tangent", gn::RETR_LARGER, [&](Nls& n) {
      if (n.spec.params.max_iterations == 0) n.spec.params.max_iterations = 1;
      n.problem.costs.push_back(make(n.spec.N + extra));
    });
    bad_problem("bound-index-beyond-tangent", gn::RETR_LARGER, [&](Nls& n) {
      if (n.spec.params.max_iterations == 0) n.spec.params.max_iterations = 1;
      n.problem.inequality_constraints.emplace_back(n.spec.N + extra, 1.0, 1.0);
    });
    Nls n;
    make_nls(n, rng, gn::RETR_LARGER);
    if (n.spec.params.max_iterations == 0) n.spec.params.max_iterations = 1;
    n.problem.equality_constraints.push_back(make(n.spec.N + extra));
    ConstrainedNonlinearLeastSquares s(&n.problem, n.retraction);
    reject("nls-problem-equality-index-beyond-tangent", [&] { (void)s.Solve(n.spec.params, n.spec.x0); });
  }
  bad_problem("zero-coefficient", -1, [&](Nls& n) {
    if (n.spec.params.max_iterations == 0) n.spec.params.max_iterations = 1;
    n.problem.inequality_constraints.emplace_back(rng.irange(0, n.spec.N - 1), 0.0, 1.0);
  });
  bad_problem("moved-from-cost", -1, [&](Nls& n) {
    if (n.spec.params.max_iterations == 0) n.spec.params.max_iterations = 1;
    n.problem.costs.push_back(make(0));
    Residual taken = std::move(n.problem.costs.back());
  });
  bad_problem("late-equality", -1, [&](Nls& n) {
    if (n.spec.params.max_iterations == 0) n.spec.params.max_iterations = 1;
    n.problem.equality_constraints.push_back(make(0));
  });
  {
    // too few variables for the residuals
    Nls n;
    make_nls(n, rng, gn::RETR_SAME);
    if (n.spec.params.max_iterations == 0) n.spec.params.max_iterations = 1;
    ConstrainedNonlinearLeastSquares s(&n.problem, n.retraction);
    reject("nls-too-few-variables", [&] { (void)s.Solve(n.spec.params, n.spec.x0.head(n.spec.N - 1)); });
    reject("nls-evaluate-too-few-variables", [&] { (void)s.EvaluateNonlinearErrors(n.spec.x0.head(n.spec.N - 1)); });
    nls_usable(n, s, "too-few-variables");
    Nls m;
    make_nls(m, rng, gn::RETR_LARGER);
    ConstrainedNonlinearLeastSquares t(&m.problem, m.retraction);
    accept("nls-more-variables-with-retraction", [&] {
      m.spec.params = gn::Params{};
      m.spec.params.max_iterations = 2;
      try {
        (void)t.Solve(m.spec.params, m.spec.x0);
      } catch (const FailedFactorization&) {
      }
    });
  }
}

// ---------------------------------------------------------------------------------------------

static void residual_requests(Rng& rng) {
  const int n = rng.irange(1, 5);
  gn::FnData d = gn::random_fn(rng, n, rng.irange(1, 4), rng.irange(1, std::min(n, 4)), false);
  Residual r = gn::make_residual(d, 0, nullptr);
  Eigen::VectorXd x = Eigen::VectorXd::Zero(n);
  Eigen::MatrixXd H = Eigen::MatrixXd::Zero(n, n);
  Eigen::VectorXd b = Eigen::VectorXd::Zero(n);
  Eigen::VectorXd out(d.R + 2);
  Eigen::MatrixXd J = Eigen::MatrixXd::Zero(d.R + 2, n);
  accept("residual-valid", [&] {
    (void)r.UpdateHessian(x, &H, &b);
    r.ErrorVector(x, out.head(d.R));
    r.UpdateJacobian(x, J.topRows(d.R), out.head(d.R));
    (void)r.QuadraticError(x);
  });
  reject("residual-null-H", [&] { (void)r.UpdateHessian(x, nullptr, &b); });
  reject("residual-null-b", [&] { (void)r.UpdateHessian(x, &H, nullptr); });
  {
    Eigen::MatrixXd W = Eigen::MatrixXd::Zero(n, n + 1), T = Eigen::MatrixXd::Zero(n + 1, n);
    reject("residual-H-wide", [&] { (void)r.UpdateHessian(x, &W, &b); });
    reject("residual-H-tall", [&] { (void)r.UpdateHessian(x, &T, &b); });
    Eigen::VectorXd longer = Eigen::VectorXd::Zero(n + 1), shorter = Eigen::VectorXd::Zero(n - 1);
    reject("residual-b-long", [&] { (void)r.UpdateHessian(x, &H, &longer); });
    reject("residual-b-short", [&] { (void)r.UpdateHessian(x, &H, &shorter); });
    int top = 0;
    for (int i : d.index) top = std::max(top, i);
    Eigen::MatrixXd small = Eigen::MatrixXd::Zero(top, top);
    Eigen::VectorXd bs = Eigen::VectorXd::Zero(top);
    reject("residual-H-too-small", [&] { (void)r.UpdateHessian(x, &small, &bs); });
    Eigen::MatrixXd Js = Eigen::MatrixXd::Zero(d.R, top);
    reject("residual-J-too-narrow", [&] { r.UpdateJacobian(x, Js.topRows(d.R), out.head(d.R)); });
    const Eigen::VectorXd xs = Eigen::VectorXd::Zero(top);
    reject("residual-too-few-params", [&] { (void)r.QuadraticError(xs); });
    reject("residual-too-few-params-H", [&] { (void)r.UpdateHessian(xs, &H, &b); });
    reject("residual-too-few-params-J", [&] { r.UpdateJacobian(xs, J.topRows(d.R), out.head(d.R)); });
    reject("residual-too-few-params-e", [&] { r.ErrorVector(xs, out.head(d.R)); });
  }
  reject("residual-error-size-long", [&] { r.ErrorVector(x, out.head(d.R + 1)); });
  reject("residual-error-size-short", [&] { r.ErrorVector(x, out.head(d.R - 1)); });
  reject("residual-J-rows-long", [&] { r.UpdateJacobian(x, J.topRows(d.R + 1), out.head(d.R)); });
  reject("residual-J-rows-short", [&] { r.UpdateJacobian(x, J.topRows(d.R - 1), out.head(d.R)); });
  reject("residual-J-b-long", [&] { r.UpdateJacobian(x, J.topRows(d.R), out.head(d.R + 1)); });
  reject("residual-J-b-short", [&] { r.UpdateJacobian(x, J.topRows(d.R), out.head(d.R - 1)); });
  for (int bad : {-1, INT32_MIN, n, INT32_MAX}) {
    for (int dyn = 0; dyn < 2; ++dyn) {
      Residual q = dyn ? unit_dynamic(bad) : unit_residual(bad);
      Eigen::VectorXd o(1);
      Eigen::MatrixXd j = Eigen::MatrixXd::Zero(1, n);
      reject("residual-index", [&] { (void)q.QuadraticError(x); });
      reject("residual-index-H", [&] { (void)q.UpdateHessian(x, &H, &b); });
      reject("residual-index-J", [&] { q.UpdateJacobian(x, j.topRows(1), o.head(1)); });
      reject("residual-index-e", [&] { q.ErrorVector(x, o.head(1)); });
    }
    Eigen::Matrix<double, 2, 1> two;
    Eigen::VectorXd dv;
    reject("gather-index", [&] { GatherValues<2>(x, {0, bad}, &two); });
    reject("gather-index-dynamic", [&] { GatherValues<Eigen::Dynamic>(x, {bad, 0}, &dv); });
    LinearInequalityConstraint c(bad, 1.0, 0.0);
    reject("bound-shift-index", [&] { (void)c.ShiftTo(x); });
  }
  reject("gather-null", [&] { GatherValues<1>(x, {0}, nullptr); });
  reject("gather-null-dynamic", [&] { GatherValues<Eigen::Dynamic>(x, {0}, nullptr); });
  {
    auto f = [](const Eigen::Vector2d& p, Eigen::Matrix<double, 1, 2>* jac) {
      if (jac) jac->setOnes();
      return Eigen::Matrix<double, 1, 1>(p.sum());
    };
    reject("make-residual-few", [&] { (void)MakeResidual<1, 2>({0}, f); });
    reject("make-residual-many", [&] { (void)MakeResidual<1, 2>({0, 1, 2}, f); });
    reject("make-residual-none", [&] { (void)MakeResidual<1, 2>(std::initializer_list<int>{}, f); });
    accept("make-residual", [&] { (void)MakeResidual<1, 2>({0, 1}, f); });
  }
  {
    Residual moved = std::move(r);
    reject("residual-moved-dimension", [&] { (void)r.Dimension(); });
    reject("residual-moved-H", [&] { (void)r.UpdateHessian(x, &H, &b); });
    reject("residual-moved-e", [&] { r.ErrorVector(x, out.head(d.R)); });
    reject("residual-moved-J", [&] { r.UpdateJacobian(x, J.topRows(d.R), out.head(d.R)); });
    reject("residual-moved-Q", [&] { (void)r.QuadraticError(x); });
    accept("residual-moved-to", [&] { (void)moved.QuadraticError(x); });
    r = std::move(moved);
    accept("residual-moved-back", [&] { (void)r.QuadraticError(x); });
  }
  for (double a : {0.0, -0.0}) reject("clamp-zero", [&] { (void)LinearInequalityConstraint(0, a, rng.uni(-1, 1)).ClampX(rng.uni(-1, 1)); });
  accept("bound-shift-last", [&] { (void)LinearInequalityConstraint(n - 1, 1.0, 0.0).ShiftTo(x); });
}

int main(int argc, char** argv) {
  const auto args = vh::Args::parse(argc, argv);
  vh::Reporter rep(args, "drv_reject");
  R = &rep;
  (void)kInf;
  vh::run_cases(rep, [&](long i, uint64_t seed) {
    Rng rng(seed);
    g_sig = seed;
    switch (i % 4) {
      case 0:
        ip_requests(rng);
        break;
      case 1:
        ns_requests(rng);
        break;
      case 2:
        nls_requests(rng);
        break;
      default:
        residual_requests(rng);
    }
    R->distinct(g_sig, "C08");
    if (i < 12) R->sample(strf("case %ld: all enumerated requests of group %ld on fresh random problems (signature %016llx)", i, i % 4, static_cast<unsigned long long>(g_sig)));
  });
  return rep.finish();
}
