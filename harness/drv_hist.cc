// C07: results depend only on the inputs, not on the solver object's history or on what memory
// contained. Every solve of a long-lived solver is repeated by a new solver under different memory
// contents, and the two must agree bit for bit. (Also watches C08's "stays usable" after rejections.)
#include "cmp.hpp"
#include "genqp.hpp"
#include "heap.hpp"
#include "mini_opt/nonlinear.hpp"
#include "nlsgen.hpp"

using namespace mini_opt;
using gq::Case;
using gq::S;
using vh::Rng;
using vh::strf;

static vh::Reporter* R;

static const int kFills[] = {0x00, 0xff, 0x7f, 0x3f, 0x40, 0xbf, 0x01, 0x80, -1};
static int any_fill(Rng& rng) { return kFills[rng.irange(0, 8)]; }

static QPInteriorPointSolver::Params random_ip_params(Rng& rng) {
  QPInteriorPointSolver::Params p;
  p.max_iterations = rng.chance(0.3) ? rng.irange(1, 3) : rng.irange(4, 25);
  p.initial_mu = rng.chance(0.6) ? 1.0 : rng.logu(1e-4, 100);
  p.sigma = rng.chance(0.3) ? 0.5 : rng.chance(0.1) ? 1.0 : rng.uni(0.01, 0.99);
  p.termination_kkt_tol = rng.logu(1e-12, 1e-2);
  p.termination_complementarity_tol = rng.logu(1e-9, 1e-2);
  p.barrier_strategy = static_cast<BarrierStrategy>(rng.irange(0, 2));
  p.decrease_mu_only_on_small_error = rng.chance(0.2);
  p.initial_guess_method = static_cast<InitialGuessMethod>(rng.irange(0, 1));
  p.initialize_mu_with_complementarity = rng.chance(0.3);
  return p;
}

// Any problem, including ones the solver cannot factor.
static QP random_any_qp(Rng& rng) {
  Case cs = rng.chance(0.4) ? gq::known_solution(rng, 6, 1e3) : gq::random_feasible(rng, 6);
  QP& q = cs.qp;
  if (rng.chance(0.06)) q.G *= rng.chance(0.5) ? 1e12 : 1e-12;
  if (rng.chance(0.04) && q.c.rows()) q.c[0] = rng.chance(0.5) ? std::nan("") : HUGE_VAL;
  if (rng.chance(0.04)) q.G.setZero();
  if (rng.chance(0.04) && q.A_eq.rows() > 1) q.A_eq.row(1) = q.A_eq.row(0);
  if (rng.chance(0.04)) {  // infeasible
    q.constraints.emplace_back(0, 1.0, -1.0);
    q.constraints.emplace_back(0, -1.0, -1.0);
  }
  return q;
}

struct IpResult {
  bool threw = false;
  std::string type;
  QPInteriorPointSolverOutputs out;
  Eigen::VectorXd vars;
};

template <typename F>
static IpResult run_ip(QPInteriorPointSolver& s, F&& f) {
  IpResult r;
  try {
    r.out = f(s);
  } catch (const FailedFactorization&) {
    r.threw = true;
    r.type = "FailedFactorization";
  } catch (const std::exception& e) {
    r.threw = true;
    r.type = typeid(e).name();
  }
  r.vars = s.variables();
  return r;
}

static std::string compare(const IpResult& a, const IpResult& b) {
  if (a.threw != b.threw) return strf("one run threw (%s) and the other did not", (a.threw ? a : b).type.c_str());
  if (a.threw) return a.type == b.type ? "" : "different exceptions: " + a.type + " vs " + b.type;
  std::string d = cmp::diff("outputs", a.out, b.out);
  if (d.empty()) d = cmp::diff_vec("variables", a.vars, b.vars);
  return d;
}

static void ip_case(Rng& rng) {
  QPInteriorPointSolver a;
  std::vector<QP> pool;
  const int np = rng.irange(1, 3);
  for (int i = 0; i < np; ++i) pool.push_back(random_any_qp(rng));
  int current = -1;
  bool initialized = false;
  std::string history;
  const int ops = rng.irange(2, 6);
  for (int k = 0; k < ops; ++k) {
    const int fa = any_fill(rng), fb = any_fill(rng);
    heap::set_memory(fa);
    int op = current < 0 ? 0 : rng.irange(0, 9);
    if (op == 6 && !initialized) op = 7;  // a failed solve need not have initialized the variables
    // something that must leave no trace
    if (current >= 0 && rng.chance(0.3)) {
      const int what = rng.irange(0, 3);
      history += strf(" reject%d", what);
      bool threw = false;
      try {
        if (what == 0) {
          a.Setup(nullptr);
        } else if (what == 1) {
          QP bad = pool[S(rng.irange(0, np - 1))];
          const int w = rng.irange(0, 3);
          if (w == 0) bad.c.conservativeResize(bad.c.rows() + 1);
          if (w == 1) bad.constraints.emplace_back(rng.chance(0.5) ? -1 : static_cast<int>(bad.G.rows()), 1.0, 1.0);
          if (w == 2) bad.G.conservativeResize(bad.G.rows(), bad.G.cols() + 1);
          if (w == 3) bad.b_eq.conservativeResize(bad.b_eq.rows() + 1);
          a.Setup(&bad);
        } else if (what == 2) {
          auto p = random_ip_params(rng);
          (rng.chance(0.5) ? p.sigma : p.initial_mu) = 0;
          (void)a.Solve(p);
        } else {
          a.SetVariables(Eigen::VectorXd::Zero(a.variables().rows() + (rng.chance(0.5) ? 1 : -1)));
        }
      } catch (const std::exception&) {
        threw = true;
      }
      R->count("rejected-requests");
      if (!threw)
        R->violation("C08", strf("hist-accepted-%d", what), "a malformed request was accepted; history:" + history);
    }
    if (current >= 0 && rng.chance(0.12)) {  // an aborted solve (slacks that are not positive)
      auto p = random_ip_params(rng);
      p.initial_guess_method = InitialGuessMethod::USER_PROVIDED;
      a.SetVariables(Eigen::VectorXd::Zero(a.variables().rows()));
      history += " aborted";
      try {
        (void)a.Solve(p);
      } catch (const std::exception&) {
        R->count("aborted-solves");
      }
    }
    auto params = random_ip_params(rng);
    IpResult ra, rb;
    if (op <= 3) {
      current = rng.irange(0, np - 1);
      history += strf(" setup%d+solve", current);
      ra = run_ip(a, [&](QPInteriorPointSolver& s) {
        s.Setup(&pool[S(current)]);
        return s.Solve(params);
      });
      heap::set_memory(fb);
      QPInteriorPointSolver b(&pool[S(current)]);
      rb = run_ip(b, [&](QPInteriorPointSolver& s) { return s.Solve(params); });
    } else if (op <= 5) {
      history += " solve";
      ra = run_ip(a, [&](QPInteriorPointSolver& s) { return s.Solve(params); });
      heap::set_memory(fb);
      QPInteriorPointSolver b(&pool[S(current)]);
      rb = run_ip(b, [&](QPInteriorPointSolver& s) { return s.Solve(params); });
    } else if (op <= 7) {
      // continue from where the solver is (or from given positive variables)
      params.initial_guess_method = InitialGuessMethod::USER_PROVIDED;
      Eigen::VectorXd v = a.variables();
      if (op == 7) {
        for (Eigen::Index i = 0; i < v.rows(); ++i) v[i] = rng.logu(1e-2, 10.0);
        if (rng.chance(0.5)) {
          a.SetVariables(v);
        } else {
          const Eigen::Index n = a.x_block().rows(), m = a.s_block().rows(), e = a.y_block().rows();
          a.x_block() = v.head(n);
          a.s_block() = v.segment(n, m);
          a.y_block() = v.segment(n + m, e);
          a.z_block() = v.tail(m);
        }
      }
      history += op == 7 ? " solve-from-given" : " continue";
      ra = run_ip(a, [&](QPInteriorPointSolver& s) { return s.Solve(params); });
      heap::set_memory(fb);
      QPInteriorPointSolver b(&pool[S(current)]);
      b.SetVariables(v);
      rb = run_ip(b, [&](QPInteriorPointSolver& s) { return s.Solve(params); });
      R->count("warm-starts");
    } else {
      // a copy behaves like the original, and neither affects the other
      history += " copy";
      QPInteriorPointSolver b = a;
      heap::set_memory(fb);
      rb = run_ip(b, [&](QPInteriorPointSolver& s) { return s.Solve(params); });
      if (rng.chance(0.5)) {
        auto p2 = random_ip_params(rng);
        (void)run_ip(b, [&](QPInteriorPointSolver& s) { return s.Solve(p2); });
      }
      heap::set_memory(fa);
      ra = run_ip(a, [&](QPInteriorPointSolver& s) { return s.Solve(params); });
      R->count("copies");
    }
    initialized = !ra.threw;
    R->count(ra.threw ? "compared-exceptions" : "compared-ip");
    if (k > 0 && !ra.threw) R->distinct(cmp::hash(ra.out), "C07");
    const std::string d = compare(ra, rb);
    if (k + 1 == ops) R->sample("interior point:" + history + "; " + gq::describe(pool[S(current)]));
    if (!d.empty()) {
      R->violation("C07", "ip-history", d + "; history:" + history + strf(" memory fill %d/%d; ", fa, fb) + gq::describe(pool[S(current)]));
      break;
    }
  }
  heap::fill(-1);
}

static void ns_case(Rng& rng) {
  QPNullSpaceSolver a;
  const int ops = rng.irange(2, 6);
  for (int k = 0; k < ops; ++k) {
    const int N = rng.irange(1, 7), K = rng.chance(0.2) ? rng.irange(1, 2 * N) : rng.irange(1, N);
    QP q(N);
    for (int i = 0; i < N; ++i) {
      q.c[i] = rng.uni(-3, 3);
      for (int j = 0; j < N; ++j) q.G(i, j) = rng.uni(-1, 1);
      q.G(i, i) += rng.chance(0.8) ? N + 1 : 0;
    }
    q.A_eq.resize(K, N);
    q.b_eq.resize(K);
    for (int i = 0; i < K; ++i) {
      q.b_eq[i] = rng.uni(-2, 2);
      for (int j = 0; j < N; ++j) q.A_eq(i, j) = rng.uni(-1, 1);
    }
    if (K > 1 && rng.chance(0.2)) {
      q.A_eq.row(K - 1) = q.A_eq.row(0);
      q.b_eq[K - 1] = q.b_eq[0];
    }
    const int fa = any_fill(rng), fb = any_fill(rng);
    if (rng.chance(0.2)) {
      QP bad = q;
      bad.b_eq.conservativeResize(K + 1);
      try {
        (void)a.Solve(bad);
        R->violation("C08", "hist-ns-accepted", "the null-space solver accepted b_eq of the wrong size");
      } catch (const std::exception&) {
        R->count("rejected-requests");
      }
    }
    heap::set_memory(fa);
    const auto ta = a.Solve(q);
    heap::set_memory(fb);
    QPNullSpaceSolver b;
    const auto tb = b.Solve(q);
    R->count("compared-null-space");
    std::string d = cmp::ord("state", ta, tb);
    if (d.empty() && ta == QPNullSpaceTerminationState::SUCCESS) d = cmp::diff_vec("variables", a.variables(), b.variables());
    if (k > 0) R->distinct(vh::hash_doubles(a.variables().data(), a.variables().rows()), "C07");
    if (!d.empty()) {
      R->violation("C07", "null-space-history", d + strf("; solve %d, memory fill %d/%d; ", k, fa, fb) + gq::describe(q));
      break;
    }
  }
  heap::fill(-1);
}

// ---------------------------------------------------------------------------------------------

struct Thrown {
  long call;
};

struct ThrowHook : gn::Hook {
  long left = -1;  // throw when it reaches zero
  long calls = 0;
  void enter(int, bool, const double*, int) override {
    ++calls;
    if (left > 0 && --left == 0) throw Thrown{calls};
  }
};

struct NlsResult {
  int threw = 0;  // 1 library, 2 ours
  std::string what;
  std::optional<NLSSolverOutputs> out;
  Eigen::VectorXd vars;
};

static NlsResult run_nls(ConstrainedNonlinearLeastSquares& s, const gn::Params& p, const Eigen::VectorXd& x0, int stop_at) {
  NlsResult r;
  s.SetUserExitCallback([stop_at](const NLSIteration& it) { return it.iteration != stop_at; });
  try {
    r.out.emplace(s.Solve(p, x0));
  } catch (const Thrown&) {
    r.threw = 2;
  } catch (const std::exception& e) {
    r.threw = 1;
    r.what = typeid(e).name();
  }
  r.vars = s.variables();
  return r;
}

static void nls_case(Rng& rng) {
  gn::GenOptions o;
  o.nmax = 5;
  o.p_eq = 0.5;
  gn::Spec spec = gn::random_spec(rng, o);
  // extra costs and bounds that arrive after the solver was constructed
  const int extra = rng.chance(0.4) ? rng.irange(1, 2) : 0;
  std::vector<gn::FnData> late;
  for (int i = 0; i < extra; ++i) late.push_back(gn::random_fn(rng, spec.N, rng.chance(0.3) ? 6 : rng.irange(1, 4), rng.irange(1, spec.N), false));
  ThrowHook hook;
  Problem problem = spec.build(&hook);
  ConstrainedNonlinearLeastSquares::Retraction retr;
  if (spec.retraction != gn::RETR_NONE) {
    const int kind = spec.retraction;
    retr = [kind](Eigen::VectorXd& x, ConstVectorBlock dx, double alpha) { gn::retract(kind, x, dx, alpha); };
  }
  heap::set_memory(any_fill(rng));
  ConstrainedNonlinearLeastSquares a(&problem, retr);
  size_t next_late = 0;
  std::vector<LinearInequalityConstraint> parked;
  std::string history;
  const int ops = rng.irange(2, 5);
  for (int k = 0; k < ops; ++k) {
    const int fa = any_fill(rng), fb = any_fill(rng);
    heap::set_memory(fa);
    // replace parts of the problem
    if (rng.chance(0.25) && next_late < late.size()) {
      problem.costs.push_back(gn::make_residual(late[next_late], 100 + static_cast<int>(next_late), &hook));
      ++next_late;
      history += " +cost";
      R->count("problem-changed");
    }
    if (rng.chance(0.15) && !problem.inequality_constraints.empty()) {
      parked.insert(parked.end(), problem.inequality_constraints.begin(), problem.inequality_constraints.end());
      problem.inequality_constraints.clear();
      history += " -bounds";
      R->count("problem-changed");
    } else if (rng.chance(0.3) && !parked.empty()) {
      problem.inequality_constraints.push_back(parked.back());
      parked.pop_back();
      history += " +bound";
      R->count("problem-changed");
    } else if (rng.chance(0.1)) {
      problem.inequality_constraints.emplace_back(rng.irange(0, spec.N - 1), rng.sgn(), rng.uni(3.0, 6.0));
      history += " +bound";
      R->count("problem-changed");
    }
    gn::Params params = rng.chance(0.5) ? spec.params : gn::random_params(rng, spec.family);
    Eigen::VectorXd x0 = spec.x0;
    if (k > 0 && rng.chance(0.7))
      for (int i = 0; i < x0.rows(); ++i) x0[i] += rng.uni(-0.5, 0.5);
    if (k > 0 && rng.chance(0.15) && a.variables().rows() == x0.rows() && a.variables().allFinite()) x0 = a.variables();
    const int stop_at = rng.chance(0.2) ? rng.irange(0, 3) : -1;
    if (rng.chance(0.25)) {  // aborted by user code
      hook.left = rng.irange(1, 40);
      const auto r = run_nls(a, params, x0, -1);
      hook.left = -1;
      if (r.threw == 2) R->count("aborted-solves");
      history += " throw";
    }
    if (rng.chance(0.2)) {
      gn::Params bad = params;
      const int w = rng.irange(0, 3);
      Eigen::VectorXd xb = x0;
      if (w == 0) bad.max_qp_iterations = 0;
      if (w == 1) bad.armijo_search_tau = 1.0;
      if (w == 2) bad.lambda_initial = bad.max_lambda + 1;
      if (w == 3 && !retr) xb = Eigen::VectorXd::Zero(spec.N + 1);
      if (w == 3 && retr) bad.relative_exit_tol = -1;
      const auto r = run_nls(a, bad, xb, -1);
      R->count("rejected-requests");
      if (r.threw != 1) R->violation("C08", strf("hist-nls-accepted-%d", w), "a malformed request was accepted");
      history += " reject";
    }
    if (rng.chance(0.2)) {
      const auto e = a.EvaluateNonlinearErrors(x0);
      heap::set_memory(fb);
      ConstrainedNonlinearLeastSquares b(&problem, retr);
      const auto f = b.EvaluateNonlinearErrors(x0);
      const std::string d = cmp::diff("errors", e, f);
      R->count("compared-errors");
      if (!d.empty()) R->violation("C07", "nls-evaluate-history", d + "; history:" + history + " " + spec.describe());
      heap::set_memory(fa);
    }
    const auto ra = run_nls(a, params, x0, stop_at);
    heap::set_memory(fb);
    ConstrainedNonlinearLeastSquares b(&problem, retr);
    const auto rb = run_nls(b, params, x0, stop_at);
    history += strf(" solve(%s)", ra.threw ? "threw" : "ok");
    R->count(ra.threw ? "compared-exceptions" : "compared-nls");
    std::string d;
    if (ra.threw != rb.threw || ra.what != rb.what) {
      d = strf("one run threw %d [%s], the other %d [%s]", ra.threw, ra.what.c_str(), rb.threw, rb.what.c_str());
    } else if (!ra.threw) {
      d = cmp::diff("outputs", *ra.out, *rb.out);
      if (d.empty()) d = cmp::diff_vec("variables", ra.vars, rb.vars);
      if (k > 0) R->distinct(cmp::hash(*ra.out), "C07");
    }
    if (!d.empty()) {
      R->violation("C07", "nls-history", d + "; history:" + history + strf(" memory fill %d/%d; ", fa, fb) + spec.describe());
      break;
    }
  }
  heap::fill(-1);
  R->sample("nonlinear:" + history + "; " + spec.describe());
}

int main(int argc, char** argv) {
  const auto args = vh::Args::parse(argc, argv);
  vh::Reporter rep(args, "drv_hist");
  R = &rep;
  vh::run_cases(rep, [&](long, uint64_t seed) {
    Rng rng(seed);
    const double k = rng.u01();
    if (k < 0.35)
      ip_case(rng);
    else if (k < 0.45)
      ns_case(rng);
    else
      nls_case(rng);
  });
  return rep.finish();
}
