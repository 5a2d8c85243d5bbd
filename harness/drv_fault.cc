// C10: exceptions from user code. For each problem the user-code calls of one solve are counted and
// then the solve is repeated with an exception thrown at every single call (all of them when there
// are few enough, otherwise a sample that includes the first and last ones). Watched: the very
// exception reaches the caller, no later user code runs, nothing leaks, and the same solver object
// afterwards reproduces the undisturbed run bit for bit.
#include "cmp.hpp"
#include "heap.hpp"
#include "mini_opt/nonlinear.hpp"
#include "mini_opt/tracing.hpp"
#include "nlsgen.hpp"

using namespace mini_opt;
using gn::S;
using vh::Rng;
using vh::strf;

static vh::Reporter* R;

struct Custom {  // not derived from std::exception
  long id;
  double payload[3];
};
struct Derived : std::runtime_error {
  long id;
  explicit Derived(long i) : std::runtime_error(strf("derived %ld with a text that does not fit any small buffer", i)), id(i) {}
};
struct Polite : assert::default_error {
  long id;
  explicit Polite(long i) : assert::default_error(strf("user assertion %ld", i)), id(i) {}
};

enum Kind { K_CUSTOM, K_RUNTIME, K_ASSERT, K_FACTORIZATION, K_INT, K_INFEASIBLE, K_BAD_ALLOC, K_RANGE, N_KINDS };

enum CallKind { C_EVAL, C_JAC, C_RETRACT, C_CALLBACK };
static const char* kCallNames[] = {"residual", "linearize", "retraction", "callback"};

struct FaultHook : gn::Hook {
  long fail_at = -1;  // index of the call that throws
  int kind = 0;
  long calls = 0;
  std::vector<int>* kinds = nullptr;  // recorded in the undisturbed run
  int thrown_in = -1;
  bool in_flight = false;
  void call(int k) {
    if (kinds) kinds->push_back(k);
    const long i = calls++;
    if (i != fail_at) return;
    thrown_in = k;
    in_flight = true;
    switch (kind) {
      case K_CUSTOM:
        throw Custom{i, {1.5 * static_cast<double>(i), -0.0, 1e300}};
      case K_RUNTIME:
        throw Derived(i);
      case K_ASSERT:
        throw Polite(i);
      case K_FACTORIZATION:
        throw FailedFactorization(strf("from the user %ld", i));
      case K_INT:
        throw static_cast<int>(i + 7);
      case K_INFEASIBLE:
        throw InfeasibleGuess(strf("from the user %ld", i));
      case K_BAD_ALLOC:
        throw std::bad_alloc();
      default:
        throw std::out_of_range(strf("from the user %ld", i));
    }
  }
  void enter(int, bool want_j, const double*, int) override { call(want_j ? C_JAC : C_EVAL); }
};

// "" if the exception being handled is exactly the one that was thrown.
static std::string identify(const FaultHook& h) {
  const long i = h.fail_at;
  try {
    throw;
  } catch (const Custom& c) {
    if (h.kind != K_CUSTOM) return "a Custom";
    return c.id == i && c.payload[0] == 1.5 * static_cast<double>(i) && c.payload[2] == 1e300 ? "" : "a Custom with another payload";
  } catch (const Derived& d) {
    if (h.kind != K_RUNTIME) return "a Derived";
    return d.id == i && Derived(i).what() == std::string(d.what()) ? "" : "a Derived with another payload";
  } catch (const Polite& p) {
    if (h.kind != K_ASSERT) return "a user assertion";
    return p.id == i ? "" : "a user assertion with another payload";
  } catch (const FailedFactorization& f) {
    return h.kind == K_FACTORIZATION && f.what() == strf("from the user %ld", i) ? "" : strf("FailedFactorization: %s", f.what());
  } catch (const InfeasibleGuess& f) {
    return h.kind == K_INFEASIBLE && f.what() == strf("from the user %ld", i) ? "" : strf("InfeasibleGuess: %s", f.what());
  } catch (const int& v) {
    return h.kind == K_INT && v == static_cast<int>(i + 7) ? "" : strf("int %d", v);
  } catch (const std::bad_alloc&) {
    return h.kind == K_BAD_ALLOC ? "" : "bad_alloc";
  } catch (const std::out_of_range& e) {
    return h.kind == K_RANGE && e.what() == strf("from the user %ld", i) ? "" : strf("out_of_range: %s", e.what());
  } catch (const std::exception& e) {
    return strf("%s: %s", typeid(e).name(), e.what());
  } catch (...) {
    return "an unknown exception";
  }
}

struct Setup {
  gn::Spec spec;
  FaultHook hook;
  Problem problem;
  ConstrainedNonlinearLeastSquares::Retraction retraction;
  bool callback = false;
  void install(ConstrainedNonlinearLeastSquares& s) {
    if (callback)
      s.SetUserExitCallback([this](const NLSIteration&) {
        hook.call(C_CALLBACK);
        return true;
      });
  }
};

struct Result {
  bool ok = false;
  std::optional<NLSSolverOutputs> out;
  Eigen::VectorXd vars;
};

static Result clean_run(Setup& st, ConstrainedNonlinearLeastSquares& s) {
  Result r;
  st.hook.fail_at = -1;
  st.hook.calls = 0;
  try {
    r.out.emplace(s.Solve(st.spec.params, st.spec.x0));
    r.ok = true;
  } catch (const std::exception&) {
  }
  r.vars = s.variables();
  return r;
}

static std::string compare(const Result& a, const Result& b) {
  if (a.ok != b.ok) return "one run threw and the other did not";
  if (!a.ok) return "";
  std::string d = cmp::diff("outputs", *a.out, *b.out);
  if (d.empty()) d = cmp::diff_vec("variables", a.vars, b.vars);
  return d;
}

static void one(Rng& rng, long idx) {
  gn::GenOptions o;
  o.nmax = 4;
  Setup st;
  st.spec = gn::random_spec(rng, o);
  st.spec.params.max_iterations = std::min(st.spec.params.max_iterations, 6);
  st.problem = st.spec.build(&st.hook);
  st.callback = rng.chance(0.7);
  if (st.spec.retraction != gn::RETR_NONE) {
    const int kind = st.spec.retraction;
    Setup* self = &st;
    st.retraction = [kind, self](Eigen::VectorXd& x, ConstVectorBlock dx, double alpha) {
      self->hook.call(C_RETRACT);
      gn::retract(kind, x, dx, alpha);
    };
  }
  const std::string what = st.spec.describe();

  // the undisturbed run
  std::vector<int> kinds;
  kinds.reserve(4096);
  Result base;
  {
    ConstrainedNonlinearLeastSquares s(&st.problem, st.retraction);
    st.install(s);
    st.hook.kinds = &kinds;
    base = clean_run(st, s);
    st.hook.kinds = nullptr;
  }
  const long total = static_cast<long>(kinds.size());
  if (total == 0) {
    R->count("no-user-calls");
    return;
  }
  // which calls to fail
  std::vector<long> points;
  const long limit = 48;
  if (total <= limit) {
    for (long i = 0; i < total; ++i) points.push_back(i);
    R->count("all-calls-enumerated");
  } else {
    std::set<long> chosen{0, total - 1};
    for (int k = 0; k < 4; ++k) {  // at least the first and a later call of each kind
      std::vector<long> of;
      for (long i = 0; i < total; ++i)
        if (kinds[S(i)] == k) of.push_back(i);
      if (of.empty()) continue;
      chosen.insert(of.front());
      chosen.insert(of.back());
      chosen.insert(of[S(rng.irange(0, static_cast<int>(of.size()) - 1))]);
    }
    while (static_cast<long>(chosen.size()) < limit) chosen.insert(rng.irange(0, static_cast<int>(total) - 1));
    points.assign(chosen.begin(), chosen.end());
  }
  const bool one_object = rng.chance(0.5);  // the same solver for every fault, or a new one each
  const long lead = rng.irange(0, N_KINDS - 1);
  auto sweep = [&](bool report) {
    std::optional<ConstrainedNonlinearLeastSquares> solver;
    for (size_t n = 0; n < points.size(); ++n) {
      if (!one_object || !solver) {
        solver.emplace(&st.problem, st.retraction);
        st.install(*solver);
      }
      st.hook.fail_at = points[n];
      st.hook.kind = static_cast<int>((lead + points[n]) % N_KINDS);
      st.hook.calls = 0;
      st.hook.in_flight = false;
      std::string wrong;
      bool caught = false;
      try {
        (void)solver->Solve(st.spec.params, st.spec.x0);
      } catch (...) {
        caught = true;
        wrong = identify(st.hook);
      }
      const long calls = st.hook.calls;
      st.hook.fail_at = -1;
      if (!report) continue;
      R->count("faults");
      R->count(strf("fault:%s", kCallNames[kinds[S(points[n])]]));
      const std::string where = strf("call %ld of %ld (%s), exception kind %d; ", points[n], total, kCallNames[kinds[S(points[n])]], st.hook.kind);
      if (!caught) {
        R->violation("C10", "swallowed", where + "the exception did not reach the caller; " + what);
        return;
      }
      if (!wrong.empty()) {
        R->violation("C10", "changed", where + "the caller received " + wrong + "; " + what);
        return;
      }
      if (calls != points[n] + 1) {
        R->violation("C10", "calls-after-throw", where + strf("%ld more user calls were made after the exception; ", calls - points[n] - 1) + what);
        return;
      }
      if (n % 3 == 0 || n + 1 == points.size()) {
        const Result again = clean_run(st, *solver);
        R->count("reused-after-fault");
        const std::string d = compare(base, again);
        if (!d.empty()) {
          R->violation("C10", "reuse-differs", where + "the next solve of the same object differs from an undisturbed one: " + d + "; " + what);
          return;
        }
      }
    }
  };
#if VH_HEAP
  sweep(true);
  const long before = heap::live();
  sweep(false);
  const long mid = heap::live();
  R->count("leak-checked");
  if (mid - before > 2) {  // the trace collector's queue may move by a block
    sweep(false);
    const long after = heap::live();
    if (after - mid > 2)
      R->violation("C10", "leak", strf("%ld then %ld blocks leaked by %zu interrupted solves; ", mid - before, after - mid, points.size()) + what);
  }
#else
  sweep(true);
#endif
  // during unwinding, and nested in user code
  if (rng.chance(0.3)) {
    struct InDestructor {
      Setup* st;
      Result* out;
      ~InDestructor() {
        try {
          ConstrainedNonlinearLeastSquares s(&st->problem, st->retraction);
          st->install(s);
          *out = clean_run(*st, s);
        } catch (...) {
        }
      }
    };
    Result r;
    try {
      InDestructor d{&st, &r};
      throw 1;
    } catch (int) {
    }
    R->count("solved-during-unwinding");
    const std::string d = compare(base, r);
    if (!d.empty()) R->violation("C10", "unwinding-differs", "a solve during stack unwinding differs: " + d + "; " + what);
  }
  R->distinct(vh::mix64(static_cast<uint64_t>(total)) ^ (base.ok ? cmp::hash(*base.out) : 1), "C10");
  if (idx % 1000 == 0) R->sample(strf("%ld user calls, %zu faults injected, one_object=%d, %s", total, points.size(), one_object, what.c_str()));
}

int main(int argc, char** argv) {
  const auto args = vh::Args::parse(argc, argv);
  vh::Reporter rep(args, "drv_fault");
  R = &rep;
  // bring the trace collector's queue to its steady size, so that it does not grow during the run
  for (int i = 0; i < 100100; ++i) trace_collector::get_instance()->submit_event(trace_event{"warmup", 0, 0, 0, 0});
  vh::run_cases(rep, [&](long i, uint64_t seed) {
    Rng rng(seed);
    one(rng, i);
  });
  // the collector still works
  const std::string dump = trace_collector::get_instance()->get_trace_json();
  if (dump.find("traceEvents") == std::string::npos) rep.violation("C10", "collector", "the trace collector is unusable afterwards");
  return rep.finish();
}
