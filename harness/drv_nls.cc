// Monitor of the nonlinear solver: every user callback (residuals, retraction, exit callback) is
// recorded in an event log; after each solve the log and the returned records are checked against
// the specification (C13-C15, C17-C22). Mode conv: convergence to known solutions (C16).
#include <set>

#include "nlsgen.hpp"

using namespace gn;
using mini_opt::OptimizerState;
using mini_opt::QPInteriorPointSolverOutputs;
using mini_opt::QPInteriorPointTerminationState;
using mini_opt::QPNullSpaceTerminationState;
using mini_opt::StepSizeSelectionResult;

static vh::Reporter* R;
using Pt = std::vector<double>;
static const Real EPS = 2.220446049250313e-16L;

static const char* result_name(StepSizeSelectionResult r) {
  switch (r) {
    case StepSizeSelectionResult::SUCCESS:
      return "SUCCESS";
    case StepSizeSelectionResult::MAX_ITERATIONS:
      return "MAX_ITERATIONS";
    case StepSizeSelectionResult::FIRST_ORDER_SATISFIED:
      return "FIRST_ORDER_SATISFIED";
    case StepSizeSelectionResult::POSITIVE_DERIVATIVE:
      return "POSITIVE_DERIVATIVE";
    case StepSizeSelectionResult::FAILURE_NON_FINITE_COST:
      return "FAILURE_NON_FINITE_COST";
    case StepSizeSelectionResult::FAILURE_INVALID_ALPHA:
      return "FAILURE_INVALID_ALPHA";
  }
  return "?";
}
static const char* term_name(NLSTerminationState t) {
  static const char* n[] = {"MAX_ITERATIONS", "SATISFIED_ABSOLUTE_TOL", "SATISFIED_RELATIVE_TOL", "SATISFIED_FIRST_ORDER_TOL",
                            "MAX_LAMBDA", "QP_INDEFINITE", "USER_CALLBACK"};
  return n[static_cast<int>(t)];
}
static std::string show(const Pt& p) {
  std::string o = "[";
  for (double v : p) o += strf("%.17g ", v);
  return o + "]";
}
static bool same_pt(const Pt& a, const Pt& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i)
    if (!vh::same_bits(a[i], b[i])) return false;
  return true;
}
static Pt gather(const FnData& d, const Pt& x) {
  Pt p;
  for (int i : d.index) p.push_back(x[S(i)]);
  return p;
}
static Pt to_pt(const Eigen::VectorXd& v) { return Pt(v.data(), v.data() + v.rows()); }

static bool same_record(const NLSIteration& a, const NLSIteration& b) {
  auto sb = [](double x, double y) { return vh::same_value(x, y); };
  if (a.iteration != b.iteration || a.optimizer_state != b.optimizer_state || !sb(a.lambda, b.lambda) ||
      !sb(a.errors_initial.f, b.errors_initial.f) || !sb(a.errors_initial.equality, b.errors_initial.equality) ||
      !sb(a.penalty, b.penalty) || a.step_result != b.step_result ||
      !sb(a.directional_derivatives.d_f, b.directional_derivatives.d_f) ||
      !sb(a.directional_derivatives.d_equality, b.directional_derivatives.d_equality) ||
      a.line_search_steps.size() != b.line_search_steps.size() || a.qp_outputs.index() != b.qp_outputs.index() ||
      a.qp_eigenvalues.has_value() != b.qp_eigenvalues.has_value())
    return false;
  for (size_t i = 0; i < a.line_search_steps.size(); ++i)
    if (!sb(a.line_search_steps[i].alpha, b.line_search_steps[i].alpha) ||
        !sb(a.line_search_steps[i].errors.f, b.line_search_steps[i].errors.f) ||
        !sb(a.line_search_steps[i].errors.equality, b.line_search_steps[i].errors.equality))
      return false;
  return true;
}

// One parsed iteration of the log.
struct Iter {
  std::vector<const Event*> jac, eval, retract, callback;
  Pt x;                 // accepted point
  std::vector<Pt> cand; // candidate points, one per recorded step
  Vec dx, dxe;          // direction and its uncertainty
  bool have_dx = false;
};

struct Run {
  Spec spec;
  Recorder rec;
  std::vector<NLSIteration> cb_records;
  std::optional<NLSSolverOutputs> out;
  std::string exception;
  Pt final_vars;
  bool with_callback = false;
};

static void execute(Run& run, vh::Rng& rng) {
  Spec& s = run.spec;
  const Problem prob = s.build(&run.rec);
  mini_opt::ConstrainedNonlinearLeastSquares::Retraction retr;
  if (s.retraction != RETR_NONE) {
    retr = [&run, &s](Eigen::VectorXd& x, mini_opt::ConstVectorBlock dx, double alpha) {
      Event e;
      e.kind = E_RETRACT;
      e.p.assign(x.data(), x.data() + x.rows());
      Eigen::VectorXd d = dx;
      e.dx.assign(d.data(), d.data() + d.rows());
      e.alpha = alpha;
      retract(s.retraction, x, d, alpha);
      e.out.assign(x.data(), x.data() + x.rows());
      run.rec.log.push_back(std::move(e));
    };
  }
  ConstrainedNonlinearLeastSquares solver(&prob, retr);
  const int stop_at = rng.chance(0.2) ? rng.irange(0, 4) : -1;
  run.with_callback = rng.chance(0.75);
  if (run.with_callback) {
    solver.SetUserExitCallback([&run, stop_at](const NLSIteration& it) {
      Event e;
      e.kind = E_CALLBACK;
      e.cb = static_cast<int>(run.cb_records.size());
      e.cb_ret = !(stop_at >= 0 && e.cb >= stop_at);
      run.cb_records.push_back(it);
      run.rec.log.push_back(e);
      return e.cb_ret;
    });
  }
  try {
    run.out = solver.Solve(s.params, s.x0);
    run.final_vars = to_pt(solver.variables());
  } catch (const std::exception& e) {
    run.exception = e.what();
    if (run.exception.empty()) run.exception = "(empty)";
  }
}

// Possible values of the minimizer of the interpolating polynomial under rounding.
struct Envelope {
  bool decided = false;   // lo/hi meaningful and the minimizer surely exists
  bool none = false;      // surely no minimizer
  Real lo = 0, hi = 0;
};

static Envelope quadratic_envelope(Real phi0, Real slope, Real a0, Real phi1) {
  Envelope e;
  const Real num = phi1 - slope * a0 - phi0;
  const Real err = 8 * EPS * (std::abs(phi0) + std::abs(phi1) + std::abs(slope * a0));
  if (num - err <= 0) {
    e.none = num + err <= 0;
    return e;
  }
  e.decided = true;
  const Real k = -slope * a0 * a0 / 2;
  e.lo = k / (num + err) * (1 - 1e-12L);
  e.hi = k / (num - err) * (1 + 1e-12L);
  return e;
}

static Envelope cubic_envelope(Real phi0, Real slope, Real a0, Real phi_a0, Real a1, Real phi_a1) {
  Envelope e;
  const Real r0 = phi_a0 - phi0 - slope * a0, r1 = phi_a1 - phi0 - slope * a1;
  const Real e0 = 16 * EPS * (std::abs(phi0) + std::abs(phi_a0) + std::abs(slope * a0));
  const Real e1 = 16 * EPS * (std::abs(phi0) + std::abs(phi_a1) + std::abs(slope * a1));
  const Real det = a0 * a0 * a1 * a1 * (a0 - a1);
  // [a; b] = 1/det * [a1^2, -a0^2; -a1^3, a0^3] * r
  const Real a = (a1 * a1 * r0 - a0 * a0 * r1) / det;
  const Real b = (-a1 * a1 * a1 * r0 + a0 * a0 * a0 * r1) / det;
  const Real rel = 64 * EPS * (1 + a0 / (a0 - a1));
  const Real ea = (a1 * a1 * e0 + a0 * a0 * e1 + rel * (a1 * a1 * std::abs(r0) + a0 * a0 * std::abs(r1))) / std::abs(det);
  const Real eb = (a1 * a1 * a1 * e0 + a0 * a0 * a0 * e1 + rel * (a1 * a1 * a1 * std::abs(r0) + a0 * a0 * a0 * std::abs(r1))) / std::abs(det);
  if (std::abs(a) <= 4 * ea) return e;
  bool first = true;
  for (int i = -1; i <= 1; ++i)
    for (int j = -1; j <= 1; ++j) {
      const Real aa = a + i * ea, bb = b + j * eb;
      const Real arg = bb * bb - 3 * aa * slope;
      const Real earg = 16 * EPS * (bb * bb + std::abs(3 * aa * slope));
      if (arg - earg <= 0) {
        // not clearly a real root
        if (arg + earg < -2e-12L && i == 0 && j == 0) e.none = true;
        return e;
      }
      const Real sq = std::sqrt(arg);
      const Real esq = earg / (2 * sq) + 4 * EPS * (std::abs(bb) + sq);
      for (int k = -1; k <= 1; k += 2) {
        const Real v = (-bb + sq + k * esq) / (3 * aa);
        if (first || v < e.lo) e.lo = v;
        if (first || v > e.hi) e.hi = v;
        first = false;
      }
    }
  e.decided = true;
  return e;
}

// Minimizer of 0.5 x'Hx + c'x s.t. Ax + b = 0 and shifted bounds, by enumerating active sets.
struct SubSol {
  bool ok = false;
  Vec dx, y, z;
};
static SubSol active_set(const Mat& H, const Vec& c, const Mat& A, const Vec& b, const std::vector<Ineq>& q) {
  SubSol best;
  const int N = H.r, K = A.r, M = static_cast<int>(q.size());
  for (int mask = 0; mask < (1 << M); ++mask) {
    std::vector<int> act;
    bool dup = false;
    for (int i = 0; i < M; ++i)
      if (mask & (1 << i)) {
        for (int j : act) dup = dup || q[S(j)].v == q[S(i)].v;
        act.push_back(i);
      }
    const int L = static_cast<int>(act.size());
    if (dup || K + L > N) continue;
    Mat W(N + K + L, N + K + L);
    Vec rhs(S(N + K + L), 0.0L);
    for (int i = 0; i < N; ++i) {
      for (int j = 0; j < N; ++j) W(i, j) = H(i, j);
      rhs[S(i)] = -c[S(i)];
    }
    for (int k = 0; k < K; ++k) {
      for (int j = 0; j < N; ++j) {
        W(N + k, j) = A(k, j);
        W(j, N + k) = -A(k, j);
      }
      rhs[S(N + k)] = -b[S(k)];
    }
    for (int l = 0; l < L; ++l) {
      const Ineq& a = q[S(act[S(l)])];
      W(N + K + l, a.v) = a.a;
      W(a.v, N + K + l) = -a.a;
      rhs[S(N + K + l)] = -a.b;
    }
    Real pr = 0;
    const auto sol = ref::solve(W, rhs, &pr);
    if (!sol || pr < 1e-9L) continue;
    bool good = true;
    for (int i = 0; i < M && good; ++i) good = q[S(i)].a * (*sol)[S(q[S(i)].v)] + q[S(i)].b >= -1e-12L;
    for (int l = 0; l < L && good; ++l) good = (*sol)[S(N + K + l)] >= -1e-12L;
    if (!good) continue;
    best.ok = true;
    best.dx.assign(sol->begin(), sol->begin() + N);
    best.y.assign(sol->begin() + N, sol->begin() + N + K);
    best.z.assign(S(M), 0.0L);
    for (int l = 0; l < L; ++l) best.z[S(act[S(l)])] = (*sol)[S(N + K + l)];
    return best;
  }
  return best;
}

struct Checker {
  Run& run;
  const Spec& s;
  const Params& p;
  std::vector<Iter> iters;
  const std::vector<NLSIteration>* recs = nullptr;
  bool exact = false;  // the direction is known exactly (custom retraction)

  explicit Checker(Run& r) : run(r), s(r.spec), p(r.spec.params), exact(r.spec.retraction != RETR_NONE) {}

  std::string ctx(size_t k) const { return strf("[iteration %zu] ", k) + s.describe(); }
  void v(const char* prop, const char* key, size_t k, const std::string& m) { R->violation(prop, key, m + " " + ctx(k)); }

  bool parse() {
    bool last_jac = false;
    for (const Event& e : run.rec.log) {
      if (e.kind == E_JAC && !last_jac) iters.emplace_back();
      last_jac = e.kind == E_JAC;
      if (iters.empty()) {
        if (e.kind == E_EVAL) continue;  // evaluations before the first linearization: checked by count only
        v("C19", "order", 0, "retraction or callback before anything was linearized");
        return false;
      }
      Iter& it = iters.back();
      switch (e.kind) {
        case E_JAC:
          it.jac.push_back(&e);
          break;
        case E_EVAL:
          it.eval.push_back(&e);
          break;
        case E_RETRACT:
          it.retract.push_back(&e);
          break;
        default:
          it.callback.push_back(&e);
          break;
      }
    }
    // accepted points
    int anchor = -1;
    for (int id = 0; id < s.num_fn(); ++id) {
      std::set<int> u(s.fn(id).index.begin(), s.fn(id).index.end());
      if (static_cast<int>(u.size()) == s.N) anchor = id;
    }
    for (size_t k = 0; k < iters.size(); ++k) {
      Iter& it = iters[k];
      it.x.assign(S(s.x0.rows()), 0.0);
      for (int i = s.N; i < s.x0.rows(); ++i) {
        if (!it.retract.empty() && S(i) < it.retract[0]->p.size())
          it.x[S(i)] = it.retract[0]->p[S(i)];
        else if (k > 0)
          it.x[S(i)] = std::nan("");  // not observable
        else
          it.x[S(i)] = s.x0[i];
      }
      bool found = false;
      for (const Event* e : it.jac)
        if (e->id == anchor) {
          found = true;
          for (size_t i = 0; i < e->p.size(); ++i) it.x[S(s.fn(anchor).index[i])] = e->p[i];
        }
      if (!found) {
        if (run.out || k + 1 < iters.size()) {
          v("C19", "not-linearized", k, strf("cost %d was not linearized", anchor));
          return false;
        }
        iters.pop_back();
        break;
      }
    }
    anchor_ = anchor;
    return true;
  }
  int anchor_ = -1;
  uint64_t case_sig_ = 0;

  // the candidate points of iteration k
  bool candidates(size_t k, const NLSIteration& rec) {
    Iter& it = iters[k];
    const auto& steps = rec.line_search_steps;
    const int N = s.N;
    if (steps.empty()) {
      if (!it.eval.empty() || !it.retract.empty()) v("C20", "steps-missing", k, "candidates were evaluated but no line search step is recorded");
      return false;
    }
    if (exact) {
      if (it.retract.size() != steps.size()) {
        v("C19", "retraction-count", k, strf("%zu retractions for %zu recorded steps", it.retract.size(), steps.size()));
        if (it.retract.size() < steps.size()) return false;
      }
      for (size_t j = 0; j < it.retract.size(); ++j) {
        const Event& e = *it.retract[j];
        if (!same_pt(e.p, it.x)) v("C19", "retraction-point", k, strf("retraction %zu was given ", j) + show(e.p) + " but the accepted point is " + show(it.x));
        if (static_cast<int>(e.dx.size()) != N) {
          v("C19", "retraction-dx-size", k, strf("direction of size %zu", e.dx.size()));
          return false;
        }
        if (!same_pt(e.dx, it.retract[0]->dx)) v("C19", "retraction-dx", k, strf("retraction %zu was given a different direction", j));
        if (j < steps.size() && !vh::same_bits(e.alpha, steps[j].alpha))
          v("C19", "retraction-alpha", k, strf("retraction %zu was given alpha %.17g, recorded %.17g", j, e.alpha, steps[j].alpha));
        if (j < steps.size()) it.cand.push_back(e.out);
      }
      it.dx.assign(it.retract[0]->dx.begin(), it.retract[0]->dx.end());
      it.dxe.assign(S(N), 0.0L);
      it.have_dx = true;
    } else {
      // points seen by the function that observes every variable
      std::vector<Pt> seen;
      for (const Event* e : it.eval)
        if (e->id == anchor_) {
          Pt q(S(N), 0.0);
          for (size_t i = 0; i < e->p.size(); ++i) q[S(s.fn(anchor_).index[i])] = e->p[i];
          seen.push_back(q);
        }
      if (seen.empty()) {
        v("C19", "not-evaluated", k, "no candidate was evaluated");
        return false;
      }
      it.dx.resize(S(N));
      it.dxe.resize(S(N));
      for (int i = 0; i < N; ++i) {
        it.dx[S(i)] = static_cast<Real>(seen[0][S(i)]) - it.x[S(i)];
        it.dxe[S(i)] = EPS * std::abs(static_cast<Real>(seen[0][S(i)])) + 1e-320L;
      }
      it.have_dx = true;
      for (size_t j = 0; j < steps.size(); ++j) {
        auto matches = [&](const Pt& q) {
          for (int i = 0; i < N; ++i) {
            const Real want = it.x[S(i)] + static_cast<Real>(steps[j].alpha) * it.dx[S(i)];
            const Real tol = 2 * EPS * (std::abs(want) + std::abs(it.x[S(i)]) + std::abs(it.dx[S(i)])) + 2 * it.dxe[S(i)];
            if (!(std::abs(q[S(i)] - want) <= tol) && std::isfinite(static_cast<double>(want))) return false;
          }
          return true;
        };
        size_t pick = seen.size();
        if (j < seen.size() && matches(seen[j]))
          pick = j;
        else
          for (size_t w = 0; w < seen.size() && pick == seen.size(); ++w)
            if (matches(seen[w])) pick = w;
        if (pick == seen.size()) {
          v("C19", "candidate", k, strf("no function was evaluated at x + alpha*dx for step %zu, alpha=%.17g; x=", j, steps[j].alpha) + show(it.x) + " evaluated at " +
                                       show(seen[std::min(j, seen.size() - 1)]));
          return false;
        }
        it.cand.push_back(seen[pick]);
      }
    }
    // every evaluation happens at a candidate (or the accepted point) and every candidate is evaluated by everything
    for (const Event* e : it.eval) {
      bool ok = same_pt(e->p, gather(s.fn(e->id), it.x));
      for (const Pt& c : it.cand) ok = ok || same_pt(e->p, gather(s.fn(e->id), c));
      if (!ok) v("C19", "evaluated-elsewhere", k, strf("function %d was evaluated at ", e->id) + show(e->p) + ", which is no candidate");
    }
    for (size_t j = 0; j < it.cand.size(); ++j)
      for (int id = 0; id < s.num_fn(); ++id) {
        bool ok = false;
        const Pt want = gather(s.fn(id), it.cand[j]);
        for (const Event* e : it.eval) ok = ok || (e->id == id && same_pt(e->p, want));
        if (!ok) v("C19", "not-evaluated", k, strf("function %d was not evaluated at the candidate of step %zu", id, j));
      }
    R->count("candidates-checked", static_cast<long>(it.cand.size()));
      R->distinct(case_sig_, "C19");
    return true;
  }

  // The inner interior point solver may diverge numerically on degenerate subproblems (bounds and
  // equality constraints that contradict each other). Such iterations are counted, not judged.
  static double big(const mini_opt::KKTError& e) { return e.r_dual + e.r_comp + e.r_primal_eq + e.r_primal_ineq; }
  static bool sane(const NLSIteration& rec) {
    if (!(rec.penalty < 1e10)) return false;
    if (const auto* ip = std::get_if<QPInteriorPointSolverOutputs>(&rec.qp_outputs)) {
      for (const auto& i : ip->iterations)
        if (!(big(i.kkt_initial) < 1e9) || !(big(i.kkt_final) < 1e9) || !(i.ip_outputs.alpha.primal > 1e-12)) return false;
      if (ip->lagrange_multipliers && !(ip->lagrange_multipliers->l_infinity < 1e8)) return false;
    }
    return true;
  }
  static bool finite(const Vec& x) {
    for (Real e : x)
      if (!std::isfinite(e) || std::abs(e) > 1e100L) return false;
    return true;
  }

  static Real total(const mini_opt::Errors& e, Real pen) { return static_cast<Real>(e.f) + pen * e.equality; }

  void check() {
    // records: from the result, or (if the solve threw) from the callback
    recs = run.out ? &run.out->iterations : &run.cb_records;
    const size_t n = recs->size();
    if (run.out) R->count(std::string("termination:") + term_name(run.out->termination_state));
    if (!parse()) return;
    const bool indefinite = run.out && run.out->termination_state == NLSTerminationState::QP_INDEFINITE;

    // --- C15: counts, numbering, callbacks
    if (run.out) {
      if (static_cast<long>(n) > p.max_iterations) v("C15", "too-many", n, strf("%zu records, limit %d", n, p.max_iterations));
      if (iters.size() != n + (indefinite ? 1 : 0))
        v("C15", "linearizations", n, strf("%zu linearizations, %zu records, %s", iters.size(), n, term_name(run.out->termination_state)));
      if (run.with_callback) {
        if (run.cb_records.size() != n) v("C15", "callback-count", n, strf("%zu callbacks, %zu records", run.cb_records.size(), n));
        for (size_t k = 0; k < std::min(n, run.cb_records.size()); ++k)
          if (!same_record((*recs)[k], run.cb_records[k])) v("C15", "callback-record", k, "the callback saw a different record");
      }
      for (size_t k = 0; k < iters.size(); ++k)
        if (run.with_callback && k < n && iters[k].callback.size() != 1)
          v("C15", "callback-order", k, strf("%zu callbacks during this iteration", iters[k].callback.size()));
    }
    for (size_t k = 0; k < n; ++k)
      if ((*recs)[k].iteration != static_cast<int>(k)) v("C15", "numbering", k, strf("record is numbered %d", (*recs)[k].iteration));

    Real lam = p.lambda_initial, pen = p.equality_penalty_initial;
    OptimizerState state = OptimizerState::NOMINAL;
    for (size_t k = 0; k < std::min(n, iters.size()); ++k) {
      Iter& it = iters[k];
      const NLSIteration& rec = (*recs)[k];
      R->count(std::string("result:") + result_name(rec.step_result));
      uint64_t sig = vh::mix64(static_cast<uint64_t>(s.family) * 131 + static_cast<uint64_t>(rec.step_result));
      double h[4] = {rec.errors_initial.f, rec.lambda, rec.penalty, rec.directional_derivatives.d_f};
      for (double d : h) {
        uint64_t u;
        std::memcpy(&u, &d, 8);
        sig = vh::mix64(sig ^ u);
      }
      case_sig_ = vh::mix64(case_sig_ ^ sig);
      // all linearized at the same point
      std::vector<int> cnt(S(s.num_fn()), 0);
      for (const Event* e : it.jac) {
        ++cnt[S(e->id)];
        if (!same_pt(e->p, gather(s.fn(e->id), it.x))) v("C19", "linearization-point", k, strf("function %d was linearized at ", e->id) + show(e->p) + ", others at " + show(it.x));
      }
      for (int id = 0; id < s.num_fn(); ++id)
        if (cnt[S(id)] == 0) v("C19", "not-linearized", k, strf("function %d was not linearized", id));
      if (k == 0) {
        bool ok = true;
        for (int i = 0; i < s.x0.rows(); ++i) ok = ok && vh::same_bits(it.x[S(i)], s.x0[i]);
        if (!ok) v("C13", "start", k, "first linearization is not at the initial values: " + show(it.x));
      }

      // --- C17: damping
      if (!(std::abs(rec.lambda - lam) <= 1e-12L * std::abs(lam) + 1e-300L))
        v("C17", "schedule", k, strf("lambda is %.17g, the schedule gives %.17Lg", rec.lambda, lam));
      if (rec.lambda > p.max_lambda || rec.lambda < p.min_lambda * (1 - 1e-12)) v("C17", "bounds", k, strf("lambda %.17g out of bounds", rec.lambda));
      R->count("lambda-checked");
      R->distinct(case_sig_, "C17");
      const double lam_rec = rec.lambda;
      const bool search_failed = rec.step_result == StepSizeSelectionResult::MAX_ITERATIONS || rec.step_result == StepSizeSelectionResult::POSITIVE_DERIVATIVE;
      if (rec.step_result == StepSizeSelectionResult::SUCCESS) {
        const bool restoring = state == OptimizerState::ATTEMPTING_RESTORE_LM;
        if (restoring) R->count("restored");
        lam = std::max<Real>(static_cast<Real>(lam_rec) * (restoring ? p.lambda_decrease_on_restore : p.lambda_decrease_on_success), p.min_lambda);
        state = OptimizerState::NOMINAL;
      } else if (search_failed) {
        if (state == OptimizerState::NOMINAL) {
          lam = std::max<Real>(p.lambda_failure_init, static_cast<Real>(lam_rec) * 10);
        } else {
          lam = static_cast<Real>(lam_rec) * 10;
          R->count("failed-again");
        }
        state = OptimizerState::ATTEMPTING_RESTORE_LM;
      }
      if (rec.optimizer_state != state)
        v("C17", "state", k, strf("optimizer state is %d, expected %d after %s", static_cast<int>(rec.optimizer_state), static_cast<int>(state), result_name(rec.step_result)));

      const bool have = candidates(k, rec);
      const bool have_ref = have && it.cand.size() == rec.line_search_steps.size();
      const Evaluation ev = evaluate(s, it.x, true);
      std::vector<Evaluation> ec;
      if (have_ref)
        for (const Pt& c : it.cand) ec.push_back(evaluate(s, c, false));

      const bool ok = sane(rec) && pen < 1e10L && !(it.have_dx && !finite(it.dx));
      if (!ok) R->count("inner-solver-diverged");
      if (have_ref && ok) check_records(k, rec, it, ev, ec);
      if (have && it.have_dx && ok) check_direction(k, rec, it, ev);
      if (ok) check_penalty(k, rec, it, ev, pen);
      check_search(k, rec, ok);
      if (have_ref) check_acceptance(k, rec, it, ev, ec, k + 1 < iters.size() ? &iters[k + 1].x : run.out && k + 1 == n && !indefinite ? &run.final_vars : nullptr);
      check_termination(k, rec, lam, k + 1 == n);
      pen = rec.penalty;
      R->count("iterations-checked");
    }
    // final point without any accepted step, or after an indefinite QP
    if (run.out && iters.size() > n && indefinite) {
      if (!same_extended(run.final_vars, iters.back().x)) v("C13", "final", n, "variables changed by an indefinite iteration");
      check_indefinite(iters.back(), static_cast<double>(lam), n);
    }
    if (run.out && iters.empty() && n == 0) {
      if (!same_pt(run.final_vars, to_pt(s.x0))) v("C13", "final", 0, "variables differ from the initial values although no iteration ran");
    }
    if (run.out && run.out->termination_state == NLSTerminationState::MAX_ITERATIONS && static_cast<long>(n) != p.max_iterations)
      v("C15", "max-iterations", n, strf("MAX_ITERATIONS after %zu records, limit %d", n, p.max_iterations));
    if (run.out && run.out->termination_state == NLSTerminationState::QP_INDEFINITE && (s.eqs.empty() || !s.ineq.empty()))
      v("C15", "indefinite-solver", n, "QP_INDEFINITE without the null-space solver");

    // --- C14
    if (s.retraction == RETR_NONE && s.start_feasible && !s.ineq.empty()) {
      size_t good = 0;
      while (good < n && sane((*recs)[good])) ++good;
      const Event* stop = good < n && good < iters.size() && !iters[good].eval.empty() ? iters[good].eval[0] : nullptr;
      long m = 0;
      for (const Event& e : run.rec.log) {
        if (&e == stop) break;
        if (e.kind == E_CALLBACK || e.kind == E_RETRACT) continue;
        const FnData& d = s.fn(e.id);
        for (size_t i = 0; i < d.index.size(); ++i)
          for (const Ineq& c : s.ineq)
            if (c.v == d.index[i]) {
              const Real val = static_cast<Real>(c.a) * e.p[i] + c.b;
              ++m;
              if (!(val >= -1.01e-9L - 1e-14L * (std::abs(c.a * e.p[i]) + std::abs(c.b))) )
                v("C14", e.kind == E_JAC ? "linearized-outside" : "evaluated-outside", 0, strf("x%d = %.17g violates %g*x+%g>=0 by %Lg", c.v, e.p[i], c.a, c.b, -val));
            }
      }
      if (run.out && !stop)
        for (const Ineq& c : s.ineq) {
          const Real val = static_cast<Real>(c.a) * run.final_vars[S(c.v)] + c.b;
          if (!(val >= -1.01e-9L - 1e-14L * (std::abs(c.a * run.final_vars[S(c.v)]) + std::abs(c.b)))) v("C14", "returned-outside", n, strf("x%d = %.17g violates %g*x+%g>=0 by %Lg", c.v, run.final_vars[S(c.v)], c.a, c.b, -val));
        }
      R->count("box-points", m);
      R->count("box-solves");
      R->distinct(case_sig_, "C14");
    }
  }

  // x may contain entries that were not observable
  static bool same_extended(const Pt& a, const Pt& x) {
    if (a.size() != x.size()) return false;
    for (size_t i = 0; i < a.size(); ++i)
      if (!std::isnan(x[i]) && !vh::same_bits(a[i], x[i])) return false;
    return true;
  }

  void check_error(const char* key, size_t k, const mini_opt::Errors& rec, const Evaluation& ev, const std::string& what) {
    if (ev.finite && ev.f < 1e300L && ev.eq < 1e300L) {
      const Real tf = 1e-13L * ev.f + 1e-300L, te = 1e-13L * ev.eq + 1e-300L;
      if (!(std::abs(rec.f - ev.f) <= tf)) v("C20", key, k, what + strf(": f recorded %.17g, recomputed %.17Lg", rec.f, ev.f));
      if (!(std::abs(rec.equality - ev.eq) <= te)) v("C20", key, k, what + strf(": equality recorded %.17g, recomputed %.17Lg", rec.equality, ev.eq));
    } else if (!ev.finite) {
      if (std::isfinite(rec.f) && std::isfinite(rec.equality)) v("C20", key, k, what + ": non-finite error recorded as finite");
      R->count("nonfinite-checked");
    }
  }

  void check_records(size_t k, const NLSIteration& rec, const Iter& it, const Evaluation& ev, const std::vector<Evaluation>& ec) {
    check_error("initial-error", k, rec.errors_initial, ev, "initial error");
    for (size_t j = 0; j < ec.size(); ++j) check_error("step-error", k, rec.line_search_steps[j].errors, ec[j], strf("step %zu", j));
    const int N = s.N;
    // slopes
    Real df = 0, de = 0, tf = 1e-300L, te = 1e-300L;
    for (int i = 0; i < N; ++i) {
      df += ev.c[S(i)] * it.dx[S(i)];
      tf += 1e-12L * ev.c_mag[S(i)] * (std::abs(it.dx[S(i)]) + it.dxe[S(i)]) + std::abs(ev.c[S(i)]) * it.dxe[S(i)];
    }
    for (int r = 0; r < ev.A.r; ++r) {
      const Real sg = ev.b[S(r)] > 0 ? 1 : ev.b[S(r)] < 0 ? -1 : 0;
      for (int i = 0; i < N; ++i) {
        de += sg * ev.A(r, i) * it.dx[S(i)];
        te += 1e-12L * ev.A_mag(r, i) * std::abs(it.dx[S(i)]) + std::abs(ev.A(r, i)) * it.dxe[S(i)];
      }
    }
    if (ev.finite) {
      if (!(std::abs(df - rec.directional_derivatives.d_f) <= tf)) v("C20", "slope-f", k, strf("d_f recorded %.17g, recomputed %.17Lg (tol %Lg)", rec.directional_derivatives.d_f, df, tf));
      if (!(std::abs(de - rec.directional_derivatives.d_equality) <= te)) v("C20", "slope-eq", k, strf("d_equality recorded %.17g, recomputed %.17Lg (tol %Lg)", rec.directional_derivatives.d_equality, de, te));
      R->count("slopes-checked");
      R->distinct(case_sig_, "C20");
    }
    // eigenvalues
    if (rec.qp_eigenvalues.has_value() != p.log_qp_eigenvalues) v("C20", "eigenvalues-present", k, strf("eigenvalues present=%d, requested=%d", rec.qp_eigenvalues.has_value(), p.log_qp_eigenvalues));
    if (rec.qp_eigenvalues && ev.finite) {
      Mat H = ev.G;
      for (int i = 0; i < N; ++i) H(i, i) += rec.lambda;
      const Vec e = ref::eigenvalues(H);
      Real amin = std::abs(e[0]), amax = 0;
      for (Real x : e) {
        amin = std::min(amin, std::abs(x));
        amax = std::max(amax, std::abs(x));
      }
      Real scale = amax;
      for (Real g : ev.G_mag.d) scale = std::max(scale, g);
      const Real tol = 1e-12L * scale * N + 1e-300L;
      if (!(std::abs(rec.qp_eigenvalues->min - e.front()) <= tol) || !(std::abs(rec.qp_eigenvalues->max - e.back()) <= tol) || !(std::abs(rec.qp_eigenvalues->abs_min - amin) <= tol))
        v("C20", "eigenvalues", k, strf("recorded min %.17g max %.17g abs %.17g, recomputed %.17Lg %.17Lg %.17Lg", rec.qp_eigenvalues->min, rec.qp_eigenvalues->max, rec.qp_eigenvalues->abs_min, e.front(), e.back(), amin));
      R->count("eigenvalues-checked");
    }
    // inner solver outcome
    if (const auto* ip = std::get_if<QPInteriorPointSolverOutputs>(&rec.qp_outputs)) {
      const size_t q = ip->iterations.size();
      if (q == 0 || static_cast<long>(q) > p.max_qp_iterations) v("C20", "qp-iterations", k, strf("%zu inner iterations, limit %d", q, p.max_qp_iterations));
      if (ip->termination_state == QPInteriorPointTerminationState::MAX_ITERATIONS && static_cast<long>(q) != p.max_qp_iterations)
        v("C20", "qp-outcome", k, strf("inner solver reports MAX_ITERATIONS with %zu of %d", q, p.max_qp_iterations));
      if (q && ip->termination_state == QPInteriorPointTerminationState::SATISFIED_KKT_TOL && !(ip->iterations.back().kkt_final.Max() < p.termination_kkt_tolerance))
        v("C20", "qp-outcome", k, strf("inner solver reports success with KKT error %g", ip->iterations.back().kkt_final.Max()));
      if (ip->lagrange_multipliers.has_value() != !s.eqs.empty()) v("C20", "qp-multipliers", k, "multiplier summary presence");
      if (q && !s.eqs.empty() && ev.finite) {
        Real nrm = 0, tol = 1e-300L;
        for (int r = 0; r < ev.A.r; ++r) {
          Real t = ev.b[S(r)], m = std::abs(t);
          for (int i = 0; i < N; ++i) {
            t += ev.A(r, i) * it.dx[S(i)];
            m += ev.A_mag(r, i) * std::abs(it.dx[S(i)]);
            tol += 2 * ev.A_mag(r, i) * it.dxe[S(i)];
          }
          nrm += t * t;
          tol += 1e-12L * m;
        }
        nrm = std::sqrt(nrm);
        if (!(std::abs(nrm - ip->iterations.back().kkt_final.r_primal_eq) <= tol + 1e-9L * nrm + 1e-150L))
          v("C20", "qp-record", k, strf("final equality residual recorded %.17g, but |A dx + b| = %.17Lg", ip->iterations.back().kkt_final.r_primal_eq, nrm));
        R->count("qp-record-checked");
      }
    }
  }

  void shifted(const Iter& it, std::vector<Ineq>* q) const {
    for (const Ineq& c : s.ineq) q->push_back({c.v, c.a, static_cast<double>(static_cast<Real>(c.a) * it.x[S(c.v)] + c.b)});
  }

  void check_direction(size_t k, const NLSIteration& rec, const Iter& it, const Evaluation& ev) {
    const bool ns = std::holds_alternative<QPNullSpaceTerminationState>(rec.qp_outputs);
    if (ns != (s.ineq.empty() && !s.eqs.empty())) {
      v("C21", "solver-choice", k, strf("null-space solver used: %d", ns));
      return;
    }
    if (ns && std::get<QPNullSpaceTerminationState>(rec.qp_outputs) != QPNullSpaceTerminationState::SUCCESS) v("C21", "recorded-indefinite", k, "a recorded iteration has an indefinite inner result");
    if (!ev.finite) return;
    Real tol = 0;
    const Vec* why = nullptr;
    Vec want;
    if (!reference(k, rec, it, ev, rec.lambda, &want, &tol)) return;
    (void)why;
    Real err = 0;
    for (int i = 0; i < s.N; ++i) err = std::max(err, std::abs(it.dx[S(i)] - want[S(i)]) - 4 * it.dxe[S(i)]);
    R->count(ns ? "direction:null-space" : s.ineq.empty() ? "direction:unconstrained" : s.eqs.empty() ? "direction:bounds" : "direction:bounds+eq");
    if (rec.lambda > 0) R->count("direction:damped");
      R->distinct(case_sig_, "C21");
    R->maxval(std::string("direction-err/tol:") + (s.ineq.empty() ? "exact" : "ip"), static_cast<double>(err / tol));
    if (!(err <= tol)) {
      std::string m = strf("direction off by %Lg (tol %Lg); dx=[", err, tol);
      for (Real d : it.dx) m += strf("%.12Lg ", d);
      m += "] expected [";
      for (Real d : want) m += strf("%.12Lg ", d);
      v("C21", ns ? "direction-null-space" : s.ineq.empty() ? "direction-unconstrained" : "direction-bounded", k, m + "]");
      // is it the direction of a different damping?
      const Real l = rec.lambda;
      for (Real alt : {0.0L, 10 * l, l / 10, l * p.lambda_decrease_on_success, l * p.lambda_decrease_on_restore, 2 * l, std::sqrt(l), l * l, static_cast<Real>(p.lambda_failure_init), static_cast<Real>(p.lambda_initial)}) {
        if (alt == l) continue;
        Vec w2;
        Real t2 = 0, e2 = 0;
        if (!reference(k, rec, it, ev, static_cast<double>(alt), &w2, &t2)) continue;
        for (int i = 0; i < s.N; ++i) e2 = std::max(e2, std::abs(it.dx[S(i)] - w2[S(i)]) - 4 * it.dxe[S(i)]);
        if (e2 <= t2) {
          v("C17", "applied", k, strf("recorded lambda is %Lg but the direction is that of lambda %Lg", l, alt));
          break;
        }
      }
    }
  }

  // expected direction; false if it is not well enough conditioned to decide
  bool reference(size_t, const NLSIteration& rec, const Iter& it, const Evaluation& ev, double lambda, Vec* want, Real* tol) const {
    const int N = s.N, K = ev.A.r;
    if (ev.cancels) return false;
    Mat H = ev.G;
    for (int i = 0; i < N; ++i) H(i, i) += lambda;
    const Vec eig = ref::eigenvalues(H);
    if (s.ineq.empty() && K == 0) {
      if (!(eig.front() > 1e-7L * eig.back()) || eig.back() > 1e12L || eig.back() < 1e-6L) return false;
      Vec rhs;
      for (Real c : ev.c) rhs.push_back(-c);
      const auto sol = ref::solve(H, rhs);
      if (!sol) return false;
      *want = *sol;
      Real cm = 0;
      for (Real c : ev.c_mag) cm = std::max(cm, c);
      *tol = 1e-12L * (eig.back() / eig.front()) * ref::maxabs(*sol) + 1e-12L * cm / eig.front() + 1e-300L;
      return true;
    }
    if (s.ineq.empty()) {
      int rank = 0;
      const Mat Z = ref::nullspace(ev.A, &rank, 1e-6L);
      int rank2 = 0;
      ref::nullspace(ev.A, &rank2, 1e-13L);
      if (rank != rank2) return false;
      const Vec se = ref::eigenvalues(ref::mul(ev.A, ref::transpose(ev.A)));
      Real smin = 0;
      for (Real x : se)
        if (x > 1e-12L * se.back() && smin == 0) smin = x;
      if (!(smin > 1e-7L * se.back()) || se.back() > 1e10L || se.back() < 1e-6L) return false;
      // particular solution: minimum norm, via A A^T pseudo inverse only if full row rank; otherwise pick rows
      std::vector<int> rows;
      {
        Mat B(0, N);
        int r0 = 0;
        for (int r = 0; r < K; ++r) {
          Mat C(static_cast<int>(rows.size()) + 1, N);
          for (size_t q = 0; q < rows.size(); ++q)
            for (int j = 0; j < N; ++j) C(static_cast<int>(q), j) = ev.A(rows[q], j);
          for (int j = 0; j < N; ++j) C(static_cast<int>(rows.size()), j) = ev.A(r, j);
          int rk = 0;
          ref::nullspace(C, &rk, 1e-6L);
          if (rk > r0) {
            rows.push_back(r);
            r0 = rk;
          }
        }
      }
      const int L = static_cast<int>(rows.size());
      if (L != rank) return false;
      Mat W(N + L, N + L);
      Vec rhs(S(N + L), 0.0L);
      for (int i = 0; i < N; ++i) {
        for (int j = 0; j < N; ++j) W(i, j) = H(i, j);
        rhs[S(i)] = -ev.c[S(i)];
      }
      for (int k2 = 0; k2 < L; ++k2) {
        for (int j = 0; j < N; ++j) W(N + k2, j) = W(j, N + k2) = ev.A(rows[S(k2)], j);
        rhs[S(N + k2)] = -ev.b[S(rows[S(k2)])];
      }
      // conditioning of the reduced Hessian
      Real cond = 1;
      Real zmin = 1;
      if (Z.c > 0) {
        const Vec ze = ref::eigenvalues(ref::mul(ref::transpose(Z), ref::mul(H, Z)));
        if (!(ze.front() > 1e-7L * std::max(eig.back(), 1e-3L))) return false;
        cond = eig.back() / ze.front();
        zmin = ze.front();
      }
      Real pr = 0;
      const auto sol = ref::solve(W, rhs, &pr);
      if (!sol || pr < 1e-11L) return false;
      want->assign(sol->begin(), sol->begin() + N);
      // the dropped rows must be consistent
      for (int r = 0; r < K; ++r) {
        Real t = ev.b[S(r)], m = std::abs(t);
        for (int j = 0; j < N; ++j) {
          t += ev.A(r, j) * (*want)[S(j)];
          m += std::abs(ev.A(r, j) * (*want)[S(j)]);
        }
        if (std::abs(t) > 1e-10L * m) return false;
      }
      Real cm = 0;
      for (Real c : ev.c_mag) cm = std::max(cm, c);
      *tol = 1e-11L * cond * std::sqrt(se.back() / smin) * (ref::maxabs(*want) + ref::maxabs(ev.b) / std::sqrt(smin)) + 1e-11L * cm / zmin * (Z.c > 0) + 1e-13L;
      return true;
    }
    const auto& ip = std::get<QPInteriorPointSolverOutputs>(rec.qp_outputs);
    if (ip.termination_state != QPInteriorPointTerminationState::SATISFIED_KKT_TOL) return false;
    if (!(eig.front() > 1e-4L) || eig.back() > 1e6L) return false;
    std::vector<Ineq> q;
    shifted(it, &q);
    if (q.size() > 6) return false;  // too many active sets
    const SubSol sub = active_set(H, ev.c, ev.A, ev.b, q);
    if (!sub.ok) return false;
    *want = sub.dx;
    const Real M = static_cast<Real>(q.size()), kkt = p.termination_kkt_tolerance;
    *tol = 1.5L * std::sqrt((M * 1e-6L + 4 * kkt * (1 + ref::maxabs(sub.y) + ref::maxabs(sub.z))) / eig.front()) + 4 * kkt / eig.front() + 1e-9L;
    if (*tol > 0.2L) return false;
    // multiplier summary
    if (ev.A.r > 0 && ip.lagrange_multipliers) {
      // unique multipliers only if the active gradients are well independent
      std::vector<int> act;
      for (size_t i = 0; i < q.size(); ++i)
        if (sub.z[i] > 1e-3L) act.push_back(static_cast<int>(i));
      bool strict = true;
      for (size_t i = 0; i < q.size(); ++i) {
        const Real slack = q[i].a * sub.dx[S(q[i].v)] + q[i].b;
        if (sub.z[i] <= 1e-3L && slack < 0.05L) strict = false;
      }
      Mat B(ev.A.r + static_cast<int>(act.size()), N);
      for (int r = 0; r < ev.A.r; ++r)
        for (int j = 0; j < N; ++j) B(r, j) = ev.A(r, j);
      for (size_t i = 0; i < act.size(); ++i) B(ev.A.r + static_cast<int>(i), q[S(act[i])].v) = q[S(act[i])].a;
      const Vec be = ref::eigenvalues(ref::mul(B, ref::transpose(B)));
      if (strict && be.front() > 0.05L && kkt <= 1.1e-6L) {
        Real mn = sub.y[0], mx = 0;
        for (Real y : sub.y) {
          mn = std::min(mn, y);
          mx = std::max(mx, std::abs(y));
        }
        const Real t = (eig.back() * *tol * 3 + 1e-4L) / std::sqrt(be.front());
        R->count("qp-multipliers-checked");
        if (!(std::abs(mn - ip.lagrange_multipliers->min) <= t) || !(std::abs(mx - ip.lagrange_multipliers->l_infinity) <= t))
          R->violation("C20", "qp-multipliers", strf("multiplier summary min %.12g l_inf %.12g, expected %.12Lg %.12Lg (tol %Lg) ", ip.lagrange_multipliers->min, ip.lagrange_multipliers->l_infinity, mn, mx, t) + s.describe());
      }
    }
    return true;
  }

  void check_indefinite(const Iter& it, double lambda, size_t k) {
    const Evaluation ev = evaluate(s, it.x, true);
    if (!ev.finite || ev.cancels) return;
    Mat H = ev.G;
    for (int i = 0; i < s.N; ++i) H(i, i) += lambda;
    int rank = 0;
    const Mat Z = ref::nullspace(ev.A, &rank, 1e-13L);
    const Vec eig = ref::eigenvalues(H);
    if (Z.c == 0) {
      v("C15", "indefinite", k, "QP_INDEFINITE although the constraints determine everything");
      return;
    }
    const Vec ze = ref::eigenvalues(ref::mul(ref::transpose(Z), ref::mul(H, Z)));
    R->count("indefinite-checked");
    // semidefinite problems are at the mercy of rounding
    if (ze.front() > 1e-9L * std::max<Real>(eig.back(), 1e-300L)) {
      v("C15", "indefinite", k, strf("QP_INDEFINITE although the smallest reduced eigenvalue is %Lg (largest of G %Lg)", ze.front(), eig.back()));
    }
  }

  void check_penalty(size_t k, const NLSIteration& rec, const Iter& it, const Evaluation& ev, Real pen) {
    if (rec.penalty < pen * (1 - 1e-15L)) v("C22", "lowered", k, strf("penalty went from %.17Lg to %.17g", pen, rec.penalty));
    if (s.eqs.empty()) {
      if (!vh::same_bits(rec.penalty, static_cast<double>(pen))) v("C22", "no-equality", k, strf("penalty %.17g without equality constraints, was %.17Lg", rec.penalty, pen));
      return;
    }
    Real lo, hi;
    if (const auto* ip = std::get_if<QPInteriorPointSolverOutputs>(&rec.qp_outputs)) {
      if (!ip->lagrange_multipliers) return;
      lo = hi = ip->lagrange_multipliers->l_infinity;
      R->count("penalty:multipliers");
      R->distinct(case_sig_, "C22");
    } else {
      if (!it.have_dx || !ev.finite) return;
      Real lin = 0, quad = 0, err = 1e-300L, l1 = 0;
      for (int i = 0; i < s.N; ++i) {
        Real hd = 0, hm = 0;
        for (int j = 0; j < s.N; ++j) {
          const Real h = ev.G(i, j) + (i == j ? rec.lambda : 0);
          hd += h * it.dx[S(j)];
          hm += (ev.G_mag(i, j) + (i == j ? rec.lambda : 0)) * std::abs(it.dx[S(j)]);
        }
        lin += ev.c[S(i)] * it.dx[S(i)];
        quad += hd * it.dx[S(i)];
        err += 1e-12L * (ev.c_mag[S(i)] * std::abs(it.dx[S(i)]) + hm * std::abs(it.dx[S(i)])) + (std::abs(ev.c[S(i)]) + hm) * it.dxe[S(i)];
      }
      for (Real b : ev.b) l1 += std::abs(b);
      l1 = std::max(l1, EPS);
      const Real num = lin + 0.5L * std::max<Real>(0, quad);
      const Real den = (1 - static_cast<Real>(p.equality_penalty_rho)) * l1;
      lo = (num - err) / den;
      hi = (num + err) / den;
      R->count("penalty:bound-18.36");
      R->distinct(case_sig_, "C22");
    }
    const Real sc = p.equality_penalty_scale_factor;
    const bool unchanged = vh::same_bits(rec.penalty, static_cast<double>(pen));
    const bool raised_ok = rec.penalty >= lo * sc * (1 - 1e-9L) - 1e-300L && rec.penalty <= hi * sc * (1 + 1e-9L) && hi * (1 + 1e-9L) >= pen;
    const bool may_stay = lo <= pen * (1 + 1e-9L);
    if (hi > pen) R->count("penalty-raised");
    if (!((unchanged && may_stay) || raised_ok))
      v("C22", "rule", k, strf("penalty %.17g after %.17Lg; required value in [%.17Lg, %.17Lg], factor %Lg", rec.penalty, pen, lo, hi, sc));
  }

  void check_search(size_t k, const NLSIteration& rec, bool ok) {
    const auto& st = rec.line_search_steps;
    if (st.empty()) return;
    const size_t budget = S(p.max_line_search_iterations) + 1;
    if (st[0].alpha != 1.0) v("C18", "first-step", k, strf("first step length is %.17g", st[0].alpha));
    if (st.size() > budget) v("C18", "budget", k, strf("%zu steps, budget %zu", st.size(), budget));
    const Real pen = rec.penalty;
    const Real slope = static_cast<Real>(rec.directional_derivatives.d_f) + pen * rec.directional_derivatives.d_equality;
    const Real phi0 = total(rec.errors_initial, pen);
    const bool poly = p.line_search_strategy == LineSearchStrategy::POLYNOMIAL_APPROXIMATION;
    for (size_t j = 1; j < st.size(); ++j) {
      const double a = st[j].alpha, prev = st[j - 1].alpha;
      if (!(a > 0 && a < prev)) v("C18", "not-decreasing", k, strf("step %zu: alpha %.17g after %.17g", j, a, prev));
      if (!poly) {
        if (!(std::abs(a - prev * p.armijo_search_tau) <= 1e-14 * prev)) v("C18", "backtrack", k, strf("step %zu: alpha %.17g, previous %.17g, tau %.17g", j, a, prev, p.armijo_search_tau));
        R->count("alpha:backtrack");
      R->distinct(case_sig_, "C18");
      } else {
        const Envelope e = ok ? predict(rec, j, phi0, slope) : Envelope{};
        if (e.none) v("C18", "no-minimizer", k, strf("step %zu: alpha %.17g although the polynomial has no minimizer", j, a));
        if (e.decided) {
          const Real wide = e.hi - e.lo;
          if (wide < 1e-3L) {
            R->count(j == 1 ? "alpha:quadratic" : "alpha:cubic");
            R->distinct(case_sig_, "C18");
          }
          if (!(a >= e.lo - 1e-9L * prev && a <= e.hi + 1e-9L * prev))
            v("C18", j == 1 ? "quadratic" : "cubic", k, strf("step %zu: alpha %.17g, interpolation gives [%.17Lg, %.17Lg]", j, a, e.lo, e.hi));
        }
      }
    }
    for (size_t j = 0; j < st.size(); ++j) {
      const bool bad = !std::isfinite(st[j].errors.f) || !std::isfinite(st[j].errors.equality);
      if (bad && j + 1 < st.size()) v("C18", "continued-after-nonfinite", k, strf("step %zu was non-finite but the search went on", j));
      if (bad && j + 1 == st.size() && rec.step_result != StepSizeSelectionResult::FAILURE_NON_FINITE_COST)
        v("C18", "nonfinite-missed", k, std::string("last step is non-finite but the result is ") + result_name(rec.step_result));
      if (!bad && j + 1 == st.size() && rec.step_result == StepSizeSelectionResult::FAILURE_NON_FINITE_COST) v("C18", "nonfinite-claimed", k, "result says non-finite but the last step is finite");
    }
    if (rec.step_result == StepSizeSelectionResult::MAX_ITERATIONS && st.size() != budget)
      v("C18", "early-give-up", k, strf("search reported out of iterations after %zu of %zu steps", st.size(), budget));
    if (rec.step_result == StepSizeSelectionResult::FAILURE_INVALID_ALPHA) {
      if (!poly || st.size() >= budget) {
        v("C18", "invalid-step", k, "invalid step reported by a search that cannot produce one");
      } else {
        const Envelope e = ok ? predict(rec, st.size(), phi0, slope) : Envelope{};
        const Real prev = st.back().alpha;
        if (e.decided && e.lo > 1e-300L && e.lo > 1e-12L * prev && e.hi < prev * (1 - 1e-9L))
          v("C18", "invalid-step", k, strf("invalid step reported, but the minimizer [%.17Lg, %.17Lg] lies in (0, %.17Lg)", e.lo, e.hi, prev));
        R->count("invalid-alpha-checked");
      }
    }
  }
  static Envelope predict(const NLSIteration& rec, size_t j, Real phi0, Real slope) {
    const auto& st = rec.line_search_steps;
    const Real pen = rec.penalty;
    if (j == 1) return quadratic_envelope(phi0, slope, st[0].alpha, total(st[0].errors, pen));
    return cubic_envelope(phi0, slope, st[j - 2].alpha, total(st[j - 2].errors, pen), st[j - 1].alpha, total(st[j - 1].errors, pen));
  }

  void check_acceptance(size_t k, const NLSIteration& rec, const Iter& it, const Evaluation& ev, const std::vector<Evaluation>& ec, const Pt* next) {
    // Recomputed merit; the penalty is the recorded one.
    const Real pen = rec.penalty;
    const bool success = rec.step_result == StepSizeSelectionResult::SUCCESS;
    if (ev.finite) {
      Real slope = 0, es = 0;
      for (int i = 0; i < s.N; ++i) {
        slope += ev.c[S(i)] * it.dx[S(i)];
        es += 1e-12L * ev.c_mag[S(i)] * std::abs(it.dx[S(i)]) + std::abs(ev.c[S(i)]) * it.dxe[S(i)];
      }
      for (int r = 0; r < ev.A.r; ++r) {
        const Real sg = ev.b[S(r)] > 0 ? 1 : ev.b[S(r)] < 0 ? -1 : 0;
        for (int i = 0; i < s.N; ++i) {
          slope += pen * sg * ev.A(r, i) * it.dx[S(i)];
          es += pen * (1e-12L * ev.A_mag(r, i) * std::abs(it.dx[S(i)]) + std::abs(ev.A(r, i)) * it.dxe[S(i)]);
        }
      }
      const Real phi0 = ev.f + pen * ev.eq;
      for (size_t j = 0; j < ec.size(); ++j) {
        const bool last = j + 1 == ec.size();
        const Real phi = ec[j].f + pen * ec[j].eq;
        const Real al = rec.line_search_steps[j].alpha;
        const Real rhs = phi0 + 1e-4L * al * slope;
        const Real tol = 1e-12L * (phi0 + std::abs(phi)) + 1e-4L * al * es + 1e-300L;
        if (success && last) {
          R->count("accepted-checked");
      R->distinct(case_sig_, "C13");
          if (!ec[j].finite || !(phi <= rhs + tol)) v("C13", "insufficient-decrease", k, strf("accepted merit %.17Lg > %.17Lg (from %.17Lg, slope %Lg, alpha %Lg)", phi, rhs, phi0, slope, al));
          if (slope > es) v("C13", "uphill", k, strf("accepted a step along a direction of slope %Lg", slope));
        } else if (rec.step_result == StepSizeSelectionResult::SUCCESS || rec.step_result == StepSizeSelectionResult::MAX_ITERATIONS ||
                   rec.step_result == StepSizeSelectionResult::FAILURE_INVALID_ALPHA || !last) {
          R->count("rejected-checked");
      R->distinct(case_sig_, "C13");
          if (ec[j].finite && phi < rhs - tol) v("C13", "rejected-acceptable", k, strf("step %zu of merit %.17Lg <= %.17Lg was rejected", j, phi, rhs));
        }
      }
    }
    if (!next) return;
    const Pt& want = success ? it.cand.back() : it.x;
    bool ok = next->size() >= want.size();
    for (size_t i = 0; ok && i < want.size(); ++i) ok = std::isnan((*next)[i]) || vh::same_bits((*next)[i], want[i]);
    R->count(success ? "moved-checked" : "kept-checked");
    if (!ok)
      v("C13", success ? "accepted-point" : "moved-on-failure", k, std::string("after ") + result_name(rec.step_result) + " the variables are " + show(*next) + ", expected " + show(want));
  }

  void check_termination(size_t k, const NLSIteration& rec, Real next_lambda, bool last) {
    const auto& st = rec.line_search_steps;
    const auto& dd = rec.directional_derivatives;
    using T = NLSTerminationState;
    std::set<T> must, may;
    // classification of the search itself
    if (!st.empty() && std::isfinite(st[0].errors.f) && std::isfinite(st[0].errors.equality)) {
      const bool first_order = std::max(std::abs(dd.d_f), std::abs(dd.d_equality)) < p.absolute_first_derivative_tol;
      if (first_order != (rec.step_result == StepSizeSelectionResult::FIRST_ORDER_SATISFIED))
        v("C15", "first-order", k, strf("slopes %g %g, tolerance %g, result %s", dd.d_f, dd.d_equality, p.absolute_first_derivative_tol, result_name(rec.step_result)));
      const Real slope = static_cast<Real>(dd.d_f) + static_cast<Real>(rec.penalty) * dd.d_equality;
      const Real mag = 4 * EPS * (std::abs(dd.d_f) + rec.penalty * std::abs(dd.d_equality));
      if (!first_order && std::abs(slope) > mag && (slope > 0) != (rec.step_result == StepSizeSelectionResult::POSITIVE_DERIVATIVE))
        v("C13", "positive-derivative", k, strf("slope %Lg but the result is %s", slope, result_name(rec.step_result)));
    }
    if (rec.step_result == StepSizeSelectionResult::SUCCESS && !st.empty()) {
      const auto& e = st.back().errors;
      const Real lhs = total(e, rec.penalty), rhs = total(rec.errors_initial, rec.penalty) * (1 - static_cast<Real>(p.relative_exit_tol));
      const Real amb = 1e-14L * (std::abs(lhs) + total(rec.errors_initial, rec.penalty));
      if (std::max(e.f, e.equality) < p.absolute_exit_tol) {
        must.insert(T::SATISFIED_ABSOLUTE_TOL);
      } else if (lhs > rhs + amb) {
        must.insert(T::SATISFIED_RELATIVE_TOL);
      } else if (lhs > rhs - amb) {
        may.insert(T::SATISFIED_RELATIVE_TOL);
      }
    } else if (rec.step_result == StepSizeSelectionResult::FIRST_ORDER_SATISFIED) {
      must.insert(T::SATISFIED_FIRST_ORDER_TOL);
    } else if (rec.step_result == StepSizeSelectionResult::MAX_ITERATIONS || rec.step_result == StepSizeSelectionResult::POSITIVE_DERIVATIVE) {
      if (next_lambda > p.max_lambda * (1 + 1e-14L))
        must.insert(T::MAX_LAMBDA);
      else if (next_lambda > p.max_lambda * (1 - 1e-14L))
        may.insert(T::MAX_LAMBDA);
    }
    const bool cb_stop = run.with_callback && k < run.cb_records.size() && iters[k].callback.size() == 1 && !iters[k].callback[0]->cb_ret;
    if (!run.out) return;
    const T t = run.out->termination_state;
    const bool final_rec = last && t != T::QP_INDEFINITE;
    if (!final_rec) {
      if (!must.empty()) v("C15", "went-on", k, std::string("the solver went on although it met ") + term_name(*must.begin()));
      if (cb_stop) v("C15", "callback-ignored", k, "the solver went on although the callback asked to stop");
      return;
    }
    R->count("exits-checked");
      R->distinct(case_sig_, "C15");
    if (t == T::MAX_ITERATIONS) {
      if (!must.empty()) v("C15", "state", k, std::string("MAX_ITERATIONS although it met ") + term_name(*must.begin()));
      if (cb_stop) v("C15", "callback-ignored", k, "MAX_ITERATIONS although the callback asked to stop");
    } else if (t == T::USER_CALLBACK) {
      if (!cb_stop) v("C15", "callback-claimed", k, "USER_CALLBACK although the callback did not ask to stop");
      if (!must.empty()) v("C15", "state", k, std::string("USER_CALLBACK although it met ") + term_name(*must.begin()));
    } else if (must.count(t) == 0 && may.count(t) == 0) {
      v("C15", "unjustified", k, strf("%s reported; result %s, final f=%.17g eq=%.17g, initial f=%.17g eq=%.17g, next lambda %Lg", term_name(t), result_name(rec.step_result), st.empty() ? 0 : st.back().errors.f,
                                       st.empty() ? 0 : st.back().errors.equality, rec.errors_initial.f, rec.errors_initial.equality, next_lambda));
    }
  }
};

// Put one threshold right next to a value that decided something in an earlier run of the problem.
static void retarget(vh::Rng& rng, Params& p, const NLSSolverOutputs& out) {
  if (out.iterations.empty()) return;
  const NLSIteration& r = out.iterations[S(rng.irange(0, static_cast<int>(out.iterations.size()) - 1))];
  if (r.line_search_steps.empty()) return;
  const auto& e = r.line_search_steps.back().errors;
  auto near = [&](double v) { return v * (rng.chance(0.3) ? 1.0 : 1.0 + rng.sgn() * rng.logu(1e-9, 0.5)); };
  auto ok = [](double v, double lo, double hi) { return std::isfinite(v) && v >= lo && v <= hi; };
  const auto& dd = r.directional_derivatives;
  switch (rng.irange(0, 5)) {
    case 0: {
      const double c[] = {std::max(e.f, e.equality), e.f, e.equality, e.f + r.penalty * e.equality, std::max(e.f, r.penalty * e.equality), e.f + e.equality};
      const double v = near(c[rng.irange(0, 5)]);
      if (ok(v, 1e-300, 1e100)) {
        p.absolute_exit_tol = v;
        R->count("target:absolute");
      }
      break;
    }
    case 1: {
      const double a = r.errors_initial.f + r.penalty * r.errors_initial.equality, b = e.f + r.penalty * e.equality;
      const double c[] = {1 - b / a, 1 - e.f / r.errors_initial.f, 1 - (e.f + e.equality) / (r.errors_initial.f + r.errors_initial.equality), a / b - 1};
      const double v = near(c[rng.irange(0, 3)]);
      if (ok(v, 0, 1)) {
        p.relative_exit_tol = v;
        R->count("target:relative");
      }
      break;
    }
    case 2: {
      const double c[] = {std::max(std::abs(dd.d_f), std::abs(dd.d_equality)), std::abs(dd.d_f), std::abs(dd.d_equality), std::abs(dd.d_f + r.penalty * dd.d_equality),
                          std::abs(dd.d_f) + r.penalty * std::abs(dd.d_equality)};
      const double v = near(c[rng.irange(0, 4)]);
      if (ok(v, 0, 1e100)) {
        p.absolute_first_derivative_tol = v;
        R->count("target:derivative");
      }
      break;
    }
    case 3: {
      const double v = near(r.lambda);
      if (ok(v, std::max({p.lambda_initial, p.min_lambda, 1e-12}), 1e100)) {
        p.max_lambda = v;
        R->count("target:lambda");
      }
      break;
    }
    case 4:
      p.max_line_search_iterations = std::max(0, static_cast<int>(r.line_search_steps.size()) - rng.irange(0, 2));
      R->count("target:line-search");
      break;
    default:
      p.max_iterations = std::max(0, static_cast<int>(out.iterations.size()) - rng.irange(-1, 1));
      R->count("target:iterations");
      break;
  }
}

// ComputeEigenvalueStats of any symmetric matrix, of which only the lower triangle is read.
static void case_eigen(vh::Rng& rng) {
  const int N = rng.irange(1, 8);
  mini_opt::QP qp(N);
  Mat G(N, N);
  const int kind = rng.irange(0, 3);
  const double scale = rng.chance(0.5) ? 1.0 : rng.logu(1e-6, 1e6);
  if (kind == 0) {  // diagonal
    for (int i = 0; i < N; ++i) G(i, i) = static_cast<double>(scale * (rng.chance(0.2) ? 0.0 : rng.uni(-3, 3)));
  } else {
    const int rank = kind == 1 ? N : rng.irange(0, N);
    for (int k = 0; k < rank; ++k) {
      std::vector<double> u(S(N));
      for (auto& x : u) x = rng.uni(-1, 1);
      const double w = (kind == 3 ? 1.0 : rng.sgn()) * rng.logu(0.05, 5) * scale;
      for (int i = 0; i < N; ++i)
        for (int j = 0; j < N; ++j) G(i, j) += w * u[S(i)] * u[S(j)];
    }
  }
  for (int i = 0; i < N; ++i)
    for (int j = 0; j < N; ++j) {
      if (j > i) continue;
      qp.G(i, j) = static_cast<double>(G(i, j));
      G(i, j) = G(j, i) = qp.G(i, j);
    }
  const bool full = rng.chance(0.5);
  for (int i = 0; i < N; ++i)
    for (int j = i + 1; j < N; ++j) qp.G(i, j) = full ? qp.G(j, i) : rng.uni(-9, 9) * scale;
  const Eigen::MatrixXd before = qp.G;
  const auto e = qp.ComputeEigenvalueStats();
  const Vec w = ref::eigenvalues(G);
  Real amin = std::abs(w[0]), amax = 0;
  for (Real x : w) {
    amin = std::min(amin, std::abs(x));
    amax = std::max(amax, std::abs(x));
  }
  const Real tol = 1e-12L * amax * N + 1e-300L;
  if (!(std::abs(e.min - w.front()) <= tol) || !(std::abs(e.max - w.back()) <= tol) || !(std::abs(e.abs_min - amin) <= tol)) {
    std::string m;
    for (int i = 0; i < N; ++i)
      for (int j = 0; j <= i; ++j) m += strf("%.17g ", qp.G(i, j));
    R->violation("C20", "eigenvalue-stats", strf("min %.17g max %.17g abs %.17g, recomputed %.17Lg %.17Lg %.17Lg for the lower triangle ", e.min, e.max, e.abs_min, w.front(), w.back(), amin) + m);
  }
  if (std::memcmp(before.data(), qp.G.data(), sizeof(double) * S(N * N)) != 0) R->violation("C20", "eigenvalue-stats-modify", "computing eigenvalues changed G");
  R->count(w.front() < -tol && w.back() > tol ? "eigenvalue-stats:indefinite" : "eigenvalue-stats:definite");
}

static void case_monitor(vh::Rng& rng) {
  GenOptions o;
  o.p_transform = 0.3;
  o.wide = true;
  const Spec spec = random_spec(rng, o);
  auto params = spec.params;
  if (rng.chance(0.35)) {
    Run first;
    first.spec = spec;
    vh::Rng r2(rng.next());
    execute(first, r2);
    if (first.out) retarget(rng, params, *first.out);
  }
  Run run;
  run.spec = spec;
  run.spec.params = params;
  execute(run, rng);
  if (R->case_index() % 4 == 0) case_eigen(rng);
  R->count(std::string("family:") + family_name(run.spec.family));
  if (run.spec.N > 6) R->count("large-problems");
  if (run.out && run.out->iterations.size() > 14) R->count("long-runs");
  if (run.spec.ineq.size() > 6) R->count("many-bounds");
  if (!run.exception.empty()) {
    R->count("exceptions");
    R->count(std::string("exceptions:") + family_name(run.spec.family));
  }
  Checker c(run);
  c.check();
  if (!run.cb_records.empty() && run.out) R->sample(strf("%zu events, %zu records, %s; ", run.rec.log.size(), run.out->iterations.size(), term_name(run.out->termination_state)) + run.spec.describe());
}

int main(int argc, char** argv) {
  const vh::Args args = vh::Args::parse(argc, argv);
  vh::Reporter rep(args, "nls-" + args.get("mode", "monitor"));
  R = &rep;
  vh::run_cases(rep, [&](long, uint64_t seed) {
    vh::Rng rng(seed);
    case_monitor(rng);
  });
  return rep.finish();
}
