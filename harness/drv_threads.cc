// C27: independent solvers used concurrently give the results they give one after the other.
// --mode nested (C07): solvers used from inside the user functions of another solver's solve.
// The threads are not synchronized with each other while they work, so that ThreadSanitizer sees
// every access to memory that is shared inside the library.
#include <atomic>
#include <chrono>
#include <memory>
#include <thread>

#include <sched.h>

#include <nlohmann/json.hpp>

#include "cmp.hpp"
#include "genqp.hpp"
#include "mini_opt/nonlinear.hpp"
#include "mini_opt/serialization.hpp"
#include "mini_opt/tracing.hpp"
#include "nlsgen.hpp"
#include "outgen.hpp"

using namespace mini_opt;
using gn::S;
using vh::Rng;
using vh::strf;

static vh::Reporter* R;

static int64_t mono_ns() { return std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// ---- a result as bytes
struct Bytes {
  std::string s;
  void num(double d) {
    if (std::isnan(d)) d = std::numeric_limits<double>::quiet_NaN();
    s.append(reinterpret_cast<const char*>(&d), sizeof(d));
  }
  void tag(long v) { s.append(reinterpret_cast<const char*>(&v), sizeof(v)); }
  void vec(const Eigen::VectorXd& v) {
    tag(v.rows());
    for (Eigen::Index i = 0; i < v.rows(); ++i) num(v[i]);
  }
  void ip(QPInteriorPointSolverOutputs o) {
    tag(static_cast<long>(o.termination_state));
    tag(static_cast<long>(o.iterations.size()));
    og::for_doubles(o, [&](double& d) { num(d); });
  }
  void nls(NLSSolverOutputs o) {
    tag(static_cast<long>(o.termination_state));
    tag(static_cast<long>(o.iterations.size()));
    for (auto& it : o.iterations) {
      tag(it.iteration);
      tag(static_cast<long>(it.optimizer_state));
      tag(static_cast<long>(it.step_result));
      tag(static_cast<long>(it.qp_outputs.index()));
      tag(static_cast<long>(it.line_search_steps.size()));
    }
    og::for_doubles(o, [&](double& d) { num(d); });
  }
};

struct Task {
  enum Kind { IP, NULL_SPACE, NLS, EVALUATE, TEXT, REJECT, EIGEN, RESIDUAL, KINDS } kind;
  const QP* qp = nullptr;
  const gn::Spec* spec = nullptr;
  const Problem* problem = nullptr;
  const NLSSolverOutputs* outputs = nullptr;
  QPInteriorPointSolver::Params ip;
  bool own_copy = false;  // solve a private copy of the definition instead of the shared one
  std::string describe() const {
    static const char* n[] = {"interior-point", "null-space", "nls", "evaluate", "text", "reject", "eigenvalues", "residual"};
    return n[kind];
  }
};

static ConstrainedNonlinearLeastSquares::Retraction retraction_of(const gn::Spec& spec) {
  if (spec.retraction == gn::RETR_NONE) return nullptr;
  const int kind = spec.retraction;
  return [kind](Eigen::VectorXd& x, ConstVectorBlock dx, double alpha) { gn::retract(kind, x, dx, alpha); };
}

static Bytes run(const Task& t) {
  Bytes b;
  try {
    switch (t.kind) {
      case Task::IP: {
        QPInteriorPointSolver s;
        QP copy;
        if (t.own_copy) copy = *t.qp;
        s.Setup(t.own_copy ? &copy : t.qp);
        b.ip(s.Solve(t.ip));
        b.vec(s.variables());
        break;
      }
      case Task::NULL_SPACE: {
        QPNullSpaceSolver s;
        b.tag(static_cast<long>(s.Solve(*t.qp)));
        b.vec(s.variables());
        break;
      }
      case Task::NLS: {
        Problem copy;
        if (t.own_copy) copy = t.spec->build(nullptr);
        ConstrainedNonlinearLeastSquares s(t.own_copy ? &copy : t.problem, retraction_of(*t.spec));
        b.nls(s.Solve(t.spec->params, t.spec->x0));
        b.vec(s.variables());
        break;
      }
      case Task::EVALUATE: {
        ConstrainedNonlinearLeastSquares s(t.problem, retraction_of(*t.spec));
        for (int k = 0; k < 4; ++k) {
          const Errors e = s.EvaluateNonlinearErrors(t.spec->x0 * (1 + k));
          b.num(e.f);
          b.num(e.equality);
        }
        break;
      }
      case Task::TEXT: {
        b.s = t.outputs->ToString(true, true);
        const nlohmann::json j = *t.outputs;
        b.s += j.dump();
        b.nls(nlohmann::json::parse(j.dump()).get<NLSSolverOutputs>());
        b.tag(static_cast<long>(t.outputs->NumQPIterations()));
        break;
      }
      case Task::REJECT: {
        QP bad = *t.qp;
        bad.c.conservativeResize(bad.c.rows() + 1);
        QPInteriorPointSolver s;
        s.Setup(&bad);
        b.s = "accepted";
        break;
      }
      case Task::EIGEN: {
        const auto e = t.qp->ComputeEigenvalueStats();
        b.num(e.min);
        b.num(e.max);
        b.num(e.abs_min);
        break;
      }
      case Task::RESIDUAL: {
        const int n = t.problem->dimension;
        Eigen::MatrixXd H = Eigen::MatrixXd::Zero(n, n);
        Eigen::VectorXd g = Eigen::VectorXd::Zero(n);
        double total = 0;
        for (auto& r : t.problem->costs) {
          total += r.UpdateHessian(t.spec->x0, &H, &g);
          b.num(r.QuadraticError(t.spec->x0));
        }
        b.num(total);
        b.vec(g);
        for (int j = 0; j < n; ++j)
          for (int i = j; i < n; ++i) b.num(H(i, j));
        break;
      }
      default:
        break;
    }
  } catch (const std::exception& e) {
    b.s += std::string("threw ") + typeid(e).name() + ": " + e.what();
  }
  return b;
}

struct Pool {
  std::vector<std::unique_ptr<QP>> qps;
  std::vector<std::unique_ptr<gn::Spec>> specs;
  std::vector<std::unique_ptr<Problem>> problems;
  std::vector<std::unique_ptr<NLSSolverOutputs>> outputs;
  std::vector<Task> tasks;
};

static QPInteriorPointSolver::Params random_ip_params(Rng& rng) {
  QPInteriorPointSolver::Params p;
  p.max_iterations = rng.irange(1, 20);
  p.barrier_strategy = static_cast<BarrierStrategy>(rng.irange(0, 2));
  p.initial_guess_method = static_cast<InitialGuessMethod>(rng.irange(0, 1));
  p.initialize_mu_with_complementarity = rng.chance(0.3);
  p.decrease_mu_only_on_small_error = rng.chance(0.2);
  return p;
}

static void fill_pool(Rng& rng, Pool& pool, int n_tasks) {
  // sizes differ, so that a buffer shared between two solves would also have the wrong size
  const int nq = rng.irange(1, 4), ns = rng.irange(1, 4);
  for (int i = 0; i < nq; ++i) {
    auto c = rng.chance(0.5) ? gq::known_solution(rng, 6, 1e3) : gq::random_feasible(rng, 6);
    pool.qps.push_back(std::make_unique<QP>(c.qp));
  }
  for (int i = 0; i < ns; ++i) {
    gn::GenOptions o;
    o.nmax = 6;
    pool.specs.push_back(std::make_unique<gn::Spec>(gn::random_spec(rng, o, rng.irange(0, gn::N_FAMILIES - 1))));
    pool.specs.back()->params.log_qp_eigenvalues = rng.chance(0.5);
    pool.problems.push_back(std::make_unique<Problem>(pool.specs.back()->build(nullptr)));
    pool.outputs.push_back(std::make_unique<NLSSolverOutputs>(og::any_outputs(rng)));
  }
  for (int i = 0; i < n_tasks; ++i) {
    Task t;
    const int w = rng.irange(0, 15);
    t.kind = w < 5 ? Task::NLS : w < 8 ? Task::IP : w < 10 ? Task::NULL_SPACE : static_cast<Task::Kind>(Task::EVALUATE + (w - 10) % 5);
    if (w == 15) t.kind = Task::RESIDUAL;
    const size_t a = S(rng.irange(0, nq - 1)), b = S(rng.irange(0, ns - 1));
    t.qp = pool.qps[a].get();
    t.spec = pool.specs[b].get();
    t.problem = pool.problems[b].get();
    t.outputs = pool.outputs[b].get();
    t.ip = random_ip_params(rng);
    t.own_copy = rng.chance(0.3);
    pool.tasks.push_back(t);
  }
}

struct Done {
  size_t task;
  int64_t t0, t1;
  std::string bytes;
};

static void threads_case(Rng& rng) {
  Pool pool;
  fill_pool(rng, pool, rng.irange(3, 12));
  const int threads = rng.irange(2, 8);
  const bool dumper = rng.chance(0.15);
  const bool early = rng.chance(0.5);  // concurrent run first, so that it meets uninitialized statics
  std::vector<std::string> want(pool.tasks.size());
  auto sequential = [&] {
    for (size_t i = 0; i < pool.tasks.size(); ++i) want[i] = run(pool.tasks[i]).s;
  };
  if (!early) sequential();
  std::vector<std::vector<Done>> done(S(threads));
  std::atomic<int> ready{0}, finished{0};
  std::vector<std::thread> crew;
  for (int k = 0; k < threads; ++k) {
    const uint64_t seed = rng.next();
    crew.emplace_back([&, k, seed] {
      Rng mine(seed);
      auto& list = done[S(k)];
      ready.fetch_add(1);
      while (ready.load() < threads) sched_yield();
      for (int i : mine.perm(static_cast<int>(pool.tasks.size()))) {
        Done d;
        d.task = S(i);
        d.t0 = mono_ns();
        d.bytes = run(pool.tasks[S(i)]).s;
        d.t1 = mono_ns();
        list.push_back(std::move(d));
        if (mine.chance(0.1)) sched_yield();
      }
      finished.fetch_add(1, std::memory_order_relaxed);
    });
  }
  std::thread watcher;
  if (dumper)
    watcher = std::thread([&] {
#ifdef MINI_OPT_TRACING
      for (int i = 0; i < 3 && finished.load(std::memory_order_relaxed) < threads; ++i) {
        if (trace_collector::get_instance()->get_trace_json().empty()) return;
      }
#endif
    });
  for (auto& t : crew) t.join();
  if (dumper) watcher.join();
  if (early) sequential();
  std::vector<Done> all;
  for (auto& list : done)
    for (auto& d : list) {
      if (d.bytes != want[d.task])
        R->violation("C27", "differs:" + pool.tasks[d.task].describe(),
                     strf("task %zu (%s) gave another result in one of %d threads than alone: %zu vs %zu bytes", d.task, pool.tasks[d.task].describe().c_str(),
                          threads, d.bytes.size(), want[d.task].size()) +
                         (pool.tasks[d.task].kind <= Task::EVALUATE && d.bytes.rfind("threw", 0) == 0 ? " " + d.bytes.substr(0, 200) : ""));
      R->count("task:" + pool.tasks[d.task].describe());
      all.push_back(std::move(d));
    }
  // what actually ran at the same time
  std::sort(all.begin(), all.end(), [](const Done& a, const Done& b) { return a.t0 < b.t0; });
  uint64_t sig = static_cast<uint64_t>(threads);
  long overlapping = 0;
  for (size_t i = 0; i < all.size(); ++i) {
    sig = vh::mix64(sig ^ vh::hash_str(all[i].bytes.substr(0, 64), all[i].task));
    for (size_t j = i + 1; j < all.size() && all[j].t0 < all[i].t1; ++j) ++overlapping;
  }
  R->count("overlapping-pairs", overlapping);
  if (dumper) R->count("dumped-meanwhile");
  R->distinct(sig, "C27");
  if (R->case_index() < 12) R->sample(strf("%d threads, %zu tasks each, %ld overlapping pairs", threads, pool.tasks.size(), overlapping));
}

// ---- C07: other solvers used in the middle of a solve
struct NestHook : gn::Hook {
  std::function<void()> f;
  long calls = 0;
  int depth = 0;
  void enter(int, bool, const double*, int) override {
    ++calls;
    if (depth > 0) return;
    ++depth;
    f();
    --depth;
  }
};

static void nested_case(Rng& rng) {
  Pool pool;
  fill_pool(rng, pool, rng.irange(2, 6));
  std::vector<std::string> want;
  for (auto& t : pool.tasks) want.push_back(run(t).s);
  // an outer solve whose functions, retraction and callback run the tasks
  gn::GenOptions o;
  o.nmax = 6;
  gn::Spec outer = gn::random_spec(rng, o, rng.irange(0, gn::N_FAMILIES - 1));
  outer.params.log_qp_eigenvalues = rng.chance(0.5);
  auto solve = [&](NestHook* hook) {
    Bytes b;
    try {
      const Problem p = outer.build(hook);
      auto retraction = retraction_of(outer);
      ConstrainedNonlinearLeastSquares s(&p, retraction);
      if (hook) {
        s.SetUserExitCallback([&](const NLSIteration&) {
          hook->enter(0, false, nullptr, 0);
          return true;
        });
      }
      b.nls(s.Solve(outer.params, outer.x0));
      b.vec(s.variables());
    } catch (const std::exception& e) {
      b.s += std::string("threw ") + typeid(e).name() + ": " + e.what();
    }
    return b.s;
  };
  const std::string alone = solve(nullptr);
  NestHook hook;
  Rng inner(rng.next());
  const double p = inner.chance(0.5) ? 1.0 : 0.3;
  hook.f = [&] {
    if (!inner.chance(p)) return;
    const size_t i = S(inner.irange(0, static_cast<int>(pool.tasks.size()) - 1));
    const std::string got = run(pool.tasks[i]).s;
    if (got != want[i])
      R->violation("C07", "nested-inner:" + pool.tasks[i].describe(), "a solver used inside a user function of another solve gave a result other than alone: " + pool.tasks[i].describe());
    R->count("nested:" + pool.tasks[i].describe());
  };
  const std::string got = solve(&hook);
  if (got != alone) R->violation("C07", "nested-outer", "a solve during which the user functions used other solvers gave another result: " + outer.describe());
  R->count("nested-solves");
  R->distinct(vh::hash_str(alone), "C07");
  if (R->case_index() < 12) R->sample(strf("%ld calls into user functions that ran other solvers: ", hook.calls) + outer.describe());
}

int main(int argc, char** argv) {
  const auto args = vh::Args::parse(argc, argv);
  vh::Reporter rep(args, "drv_threads");
  R = &rep;
  const std::string mode = args.get("mode", "threads");
  vh::run_cases(rep, [&](long, uint64_t seed) {
    Rng rng(seed);
    if (mode == "nested")
      nested_case(rng);
    else
      threads_case(rng);
  });
  return rep.finish();
}
