// Equivalent formulations of the same problem lead to the same iterates (C31).
//
// Every run is repeated on problems that are mathematically the same (renamed variables, reordered
// and split functions, rescaled constraints, an extra variable nothing depends on) and on problems
// whose data is perturbed in the 13th digit. The perturbed runs tell how far rounding alone may
// carry the iterates apart; a reformulation that goes further than that does not agree. In rare cases
// rounding decides something the perturbed runs do not show (an argument that is exactly zero, a singular
// system), so a violation is a class of reformulations that disagrees noticeably often.
#include <Eigen/Dense>
#include <map>
#include <set>

#include "genqp.hpp"
#include "nlsgen.hpp"

using namespace mini_opt;
using gn::FnData;
using gn::Spec;
using gq::S;
using vh::Rng;
using vh::strf;

static vh::Reporter* R;

// What is compared: rows of numbers (one per iteration), and decisions that must agree exactly.
struct Outcome {
  std::vector<std::vector<double>> rows;
  std::vector<long> decisions;
  size_t decidable = 1000000;  // rows from this one on hang on the rounding
  bool threw = false;
  std::string what;
};

static double scale_of(double a, double b) { return std::max(1.0, std::max(std::abs(a), std::abs(b))); }

static double row_diff(const std::vector<double>& a, const std::vector<double>& b) {
  if (a.size() != b.size()) return HUGE_VAL;
  double m = 0;
  for (size_t i = 0; i < a.size(); ++i) {
    if (vh::same_value(a[i], b[i]) || (!std::isfinite(a[i]) && !std::isfinite(b[i]))) continue;
    const double d = std::abs(a[i] - b[i]) / scale_of(a[i], b[i]);
    m = std::max(m, std::isnan(d) ? HUGE_VAL : d);
  }
  return m;
}

struct Mismatch {
  long idx;
  std::string key, msg;
};
static std::map<std::string, long> runs;
static std::map<std::string, std::vector<Mismatch>> mismatches;

static void record(const std::string& family, const std::set<std::string>& how, const char* key, const std::string& msg) {
  auto one = [&](const std::string& c) {
    ++runs[c];
    if (key && mismatches[c].size() < 100000) mismatches[c].push_back({R->case_index(), key, mismatches[c].size() < 3 ? msg : ""});
  };
  one(family);
  for (const auto& h : how) one(family + ", " + h);
  if (key) R->count("single-mismatches:" + family);
}

static void verdict(bool single) {
  for (const auto& kv : mismatches) {
    const double n = static_cast<double>(runs[kv.first]), f = static_cast<double>(kv.second.size());
    R->maxval("mismatch-percent:" + kv.first, 100 * f / n);
    if (single || (f >= 6 && f > (kv.first.find(',') == std::string::npos ? 0.0015 : 0.004) * n)) {
      const Mismatch& c = kv.second.front();
      R->at_case(c.idx);
      R->violation("C31", c.key, strf("%.0f of %.0f runs (%s) do not agree; the first: ", f, n, kv.first.c_str()) + c.msg);
    }
  }
}

static std::string text(const std::set<std::string>& how) {
  std::string s;
  for (const auto& h : how) s += (s.empty() ? "" : " + ") + h;
  return s;
}

// Compares `other` with `base`, given runs on perturbed data.
static void judge(const char* family, const std::set<std::string>& how, const Outcome& base, const std::vector<Outcome>& perturbed,
                  const Outcome& other, const std::string& ctx) {
  for (const auto& p : perturbed) {
    if (p.threw || p.decisions != base.decisions || p.threw != base.threw || p.rows.size() != base.rows.size()) {
      R->count(std::string(family) + ":undecidable");
      return;
    }
  }
  double delta = 0;
  size_t compared = 0;
  size_t decidable = base.decidable;
  for (const auto& p : perturbed) decidable = std::min(decidable, p.decidable);
  for (size_t k = 0; k < base.rows.size() && k < decidable; ++k) {
    for (const auto& p : perturbed) delta = std::max(delta, row_diff(base.rows[k], p.rows[k]));
    if (!(delta < 1e-8)) break;
    if (k >= other.rows.size()) break;
    const double d = row_diff(base.rows[k], other.rows[k]);
    const double tol = 300 * delta + 1e-11;
    R->maxval(std::string(family) + ":diff/tol", d / tol);
    if (!(d <= tol)) {
      std::string a, b;
      for (double v : base.rows[k]) a += strf("%.12g ", v);
      for (double v : other.rows[k]) b += strf("%.12g ", v);
      record(family, how, (std::string(family) + "-iterates").c_str(),
             strf("iteration %zu differs by %g (rounding explains %g) after: ", k, d, delta) + text(how) + " [" + a + "] vs [" + b + "] " + ctx);
      return;
    }
    ++compared;
  }
  if (!(delta < 1e-8)) {
    R->count(std::string(family) + ":ill-conditioned");
    return;
  }
  if (decidable < base.rows.size()) {
    R->count(std::string(family) + ":compared", static_cast<long>(compared));
    R->count(std::string(family) + ":stopped-at-rounding");
    record(family, how, nullptr, "");
    return;
  }
  if (base.threw != other.threw || base.decisions != other.decisions || base.rows.size() != other.rows.size()) {
    std::string a = base.threw ? "threw " + base.what.substr(0, 80) : "", b = other.threw ? "threw " + other.what.substr(0, 80) : "";
    for (long v : base.decisions) a += strf(" %ld", v);
    for (long v : other.decisions) b += strf(" %ld", v);
    record(family, how, (std::string(family) + "-decisions").c_str(), "outcome differs after: " + text(how) + " [" + a + "] vs [" + b + "] " + ctx);
    return;
  }
  R->count(std::string(family) + ":compared", static_cast<long>(compared));
  R->count(std::string(family) + ":agreed");
  for (const auto& h : how) R->count(std::string(family) + ":" + h);
  record(family, how, nullptr, "");
}

// ---------------------------------------------------------------------------------------------
// Quadratic programs

struct QpMap {  // where the parts of the original are in the other formulation, and their factors
  std::vector<int> var, con, eq;
  std::vector<double> conf, eqf;  // the other constraint is `f` times the original
};

static Outcome run_qp(const QP& q, const QpMap& m, QPInteriorPointSolver::Params p, const Eigen::VectorXd* start, int n) {
  Outcome o;
  const int N = gq::dimN(q), M = gq::dimM(q);
  try {
    for (int k = 1; k <= n; ++k) {
      p.max_iterations = k;
      QPInteriorPointSolver s(&q);
      if (start) s.SetVariables(*start);
      const auto out = s.Solve(p);
      std::vector<double> row;
      const auto& v = s.variables();
      for (int i : m.var) row.push_back(v[i]);
      for (size_t i = 0; i < m.con.size(); ++i) {
        row.push_back(v[N + m.con[i]] / m.conf[i]);
        row.push_back(v[v.rows() - M + m.con[i]] * m.conf[i]);
      }
      for (size_t i = 0; i < m.eq.size(); ++i) row.push_back(v[N + M + m.eq[i]] * m.eqf[i]);
      const auto& io = out.iterations.back().ip_outputs;
      row.push_back(io.mu);
      row.push_back(io.alpha.primal);
      row.push_back(io.alpha.dual);
      double least = HUGE_VAL;
      for (int i = 0; i < M; ++i) least = std::min({least, v[N + i], v[v.rows() - M + i]});
      if (M == 0 && k > 1) o.decidable = std::min(o.decidable, o.rows.size());  // at the solution; whether exactly is rounding
      if (least < 1e-7) o.decidable = std::min(o.decidable, o.rows.size());  // nothing left to decide but alpha = 1 or 0.995
      o.rows.push_back(row);
    }
  } catch (const FailedFactorization& e) {
    o.threw = true;
    o.what = e.what();
  } catch (const assert::default_error& e) {
    o.threw = true;
    o.what = e.what();
  }
  return o;
}

static QpMap identity_map(const QP& q) {
  QpMap m;
  for (int i = 0; i < gq::dimN(q); ++i) m.var.push_back(i);
  for (int i = 0; i < gq::dimM(q); ++i) m.con.push_back(i);
  for (int i = 0; i < gq::dimK(q); ++i) m.eq.push_back(i);
  m.conf.assign(m.con.size(), 1.0);
  m.eqf.assign(m.eq.size(), 1.0);
  return m;
}

static QP perturb(Rng& rng, const QP& q) {
  QP o = q;
  auto w = [&](double& v) { v *= 1 + 1e-13 * rng.uni(-1, 1); };
  for (int i = 0; i < o.G.rows(); ++i)
    for (int j = 0; j <= i; ++j) w(o.G(i, j));
  for (int i = 0; i < o.c.rows(); ++i) w(o.c[i]);
  for (int i = 0; i < o.A_eq.rows(); ++i) {
    for (int j = 0; j < o.A_eq.cols(); ++j) w(o.A_eq(i, j));
    w(o.b_eq[i]);
  }
  for (auto& c : o.constraints) {
    w(c.a);
    w(c.b);
  }
  return o;
}

// Another formulation of q and how to find the original's parts in it.
static QP reformulate(Rng& rng, const QP& q, bool scale, QpMap* map, std::set<std::string>* how) {
  const int N = gq::dimN(q), M = gq::dimM(q), K = gq::dimK(q);
  const bool extra = rng.chance(0.3);
  const int T = N + extra;
  QpMap m = identity_map(q);
  if (rng.chance(0.7)) {
    const auto p = rng.perm(T);
    for (int i = 0; i < N; ++i) m.var[S(i)] = p[S(i)];
    how->insert("renamed variables");
  }
  if (extra) how->insert("an extra variable");
  if (rng.chance(0.7)) {
    const auto p = rng.perm(M);
    for (int i = 0; i < M; ++i) m.con[S(i)] = p[S(i)];
    how->insert("reordered constraints");
  }
  if (K && rng.chance(0.7)) {
    const auto p = rng.perm(K);
    for (int i = 0; i < K; ++i) m.eq[S(i)] = p[S(i)];
    how->insert("reordered equalities");
  }
  if (scale && rng.chance(0.6)) {
    for (auto& f : m.conf) f = rng.chance(0.3) ? 1.0 : rng.logu(0.1, 10);
    for (auto& f : m.eqf) f = rng.chance(0.3) ? 1.0 : rng.sgn() * rng.logu(0.3, 3);
    how->insert("rescaled constraints");
  }
  QP o(T);
  const double upper = rng.chance(0.5) ? rng.uni(-9, 9) : 0;
  o.G.setConstant(upper);
  for (int i = 0; i < T; ++i)
    for (int j = 0; j <= i; ++j) o.G(i, j) = 0;
  for (int i = 0; i < T; ++i) o.G(i, i) = rng.uni(0.3, 3), o.c[i] = rng.uni(-2, 2);
  for (int i = 0; i < N; ++i) {
    o.c[m.var[S(i)]] = q.c[i];
    for (int j = 0; j <= i; ++j) {
      const int a = m.var[S(i)], b = m.var[S(j)];
      o.G(std::max(a, b), std::min(a, b)) = q.G(i, j);
    }
  }
  o.A_eq = Eigen::MatrixXd::Zero(K, T);
  o.b_eq.resize(K);
  for (int k = 0; k < K; ++k) {
    const int r = m.eq[S(k)];
    for (int j = 0; j < N; ++j) o.A_eq(r, m.var[S(j)]) = q.A_eq(k, j) * m.eqf[S(k)];
    o.b_eq[r] = q.b_eq[k] * m.eqf[S(k)];
  }
  o.constraints.assign(S(M), LinearInequalityConstraint(0, 1, 0));
  for (int i = 0; i < M; ++i) {
    const auto& c = q.constraints[S(i)];
    o.constraints[S(m.con[S(i)])] = LinearInequalityConstraint(m.var[S(c.variable)], c.a * m.conf[S(i)], c.b * m.conf[S(i)]);
  }
  *map = m;
  return o;
}

static void case_qp(Rng& rng) {
  const bool known = rng.chance(0.5);
  const int nmax = rng.chance(0.004) ? 20 : 7;
  gq::Case cs = known ? gq::known_solution(rng, nmax, 1e3) : gq::random_feasible(rng, nmax, true);
  const QP& q = cs.qp;
  const int N = gq::dimN(q), M = gq::dimM(q), K = gq::dimK(q);
  QPInteriorPointSolver::Params p;
  p.initial_mu = rng.chance(0.5) ? 1.0 : rng.logu(1e-2, 5.0);
  p.sigma = rng.uni(0.05, 0.9);
  p.termination_kkt_tol = 1e-300;
  p.barrier_strategy = static_cast<BarrierStrategy>(rng.irange(0, 2));
  p.initialize_mu_with_complementarity = rng.chance(0.4);
  p.initial_guess_method = static_cast<InitialGuessMethod>(rng.irange(0, 2));
  // At the minimizer without inequalities the predictor lands on z = 0 exactly, where alpha jumps.
  if (p.barrier_strategy == BarrierStrategy::PREDICTOR_CORRECTOR && p.initial_guess_method == InitialGuessMethod::SOLVE_EQUALITY_CONSTRAINED)
    p.initial_guess_method = InitialGuessMethod::NAIVE;
  const bool user = p.initial_guess_method == InitialGuessMethod::USER_PROVIDED;
  // The norms that this flag compares with mu are not invariant to scaling; nor is the least slack of a clamped start.
  bool scale = true;
  if (!user)
    for (const auto& c : q.constraints)
      scale = scale && c.b > 1e-3 && (p.initial_guess_method == InitialGuessMethod::NAIVE);
  p.decrease_mu_only_on_small_error = rng.chance(0.2);
  if (p.decrease_mu_only_on_small_error) scale = false;
  Eigen::VectorXd start(N + 2 * M + K);
  for (int i = 0; i < N; ++i) start[i] = rng.uni(-0.05, 0.05);
  for (int i = 0; i < M; ++i) {
    const auto& c = q.constraints[S(i)];
    start[N + i] = rng.chance(0.6) ? std::max(0.05, c.a * start[c.variable] + c.b) : rng.logu(0.05, 5);
    start[N + M + K + i] = rng.logu(0.1, 5);
  }
  for (int i = 0; i < K; ++i) start[N + M + i] = rng.uni(-2, 2);
  const int n = rng.irange(2, 9);
  const Outcome base = run_qp(q, identity_map(q), p, user ? &start : nullptr, n);
  std::vector<Outcome> pert;
  for (int k = 0; k < 3; ++k) pert.push_back(run_qp(perturb(rng, q), identity_map(q), p, user ? &start : nullptr, n));
  for (int rep = 0; rep < 2; ++rep) {
    QpMap m;
    std::set<std::string> how;
    const QP o = reformulate(rng, q, scale, &m, &how);
    const int T = gq::dimN(o);
    Eigen::VectorXd st = Eigen::VectorXd::Zero(T + 2 * M + K);
    for (int i = 0; i < N; ++i) st[m.var[S(i)]] = start[i];
    for (int i = 0; i < M; ++i) {
      st[T + m.con[S(i)]] = start[N + i] * m.conf[S(i)];
      st[T + M + K + m.con[S(i)]] = start[N + M + K + i] / m.conf[S(i)];
    }
    for (int i = 0; i < K; ++i) st[T + M + m.eq[S(i)]] = start[N + M + i] / m.eqf[S(i)];
    const Outcome other = run_qp(o, m, p, user ? &st : nullptr, n);
    judge("qp", how, base, pert, other, strf("strategy=%d guess=%d init_comp=%d small=%d mu=%g sigma=%g ", static_cast<int>(p.barrier_strategy), static_cast<int>(p.initial_guess_method), p.initialize_mu_with_complementarity, p.decrease_mu_only_on_small_error, p.initial_mu, p.sigma) + gq::describe(q));
  }
  R->distinct(vh::hash_doubles(start.data(), start.rows(), vh::mix64(static_cast<uint64_t>(n)) + gq::hash_vec({q.c[0]})));

  // The null-space solver: rows may also be repeated.
  if (K > 0) {
    QP plain = q;
    plain.constraints.clear();
    auto solve = [](const QP& z, const QpMap& mm) {
      Outcome o;
      QPNullSpaceSolver s;
      const auto st = s.Solve(z);
      o.decisions.push_back(static_cast<long>(st));
      std::vector<double> row;
      if (st == QPNullSpaceTerminationState::SUCCESS)
        for (int i : mm.var) row.push_back(s.variables()[i]);
      o.rows.push_back(row);
      return o;
    };
    const Outcome b = solve(plain, identity_map(plain));
    std::vector<Outcome> pp;
    for (int k = 0; k < 2; ++k) pp.push_back(solve(perturb(rng, plain), identity_map(plain)));
    QpMap m;
    std::set<std::string> how;
    QP o = reformulate(rng, plain, true, &m, &how);
    if (rng.chance(0.4)) {
      const int r = rng.irange(0, K - 1);
      o.A_eq.conservativeResize(K + 1, o.A_eq.cols());
      o.b_eq.conservativeResize(K + 1);
      const double f = rng.chance(0.5) ? 1.0 : rng.chance(0.5) ? -1.0 : 2.0;
      o.A_eq.row(K) = f * o.A_eq.row(r);
      o.b_eq[K] = f * o.b_eq[r];
      how.insert("repeated row");
    }
    judge("null-space", how, b, pp, solve(o, m), gq::describe(plain));
  }
}

// ---------------------------------------------------------------------------------------------
// Nonlinear problems

static Outcome run_nls(const Spec& s, const std::vector<int>& var) {
  Outcome o;
  const Problem problem = s.build(nullptr);
  ConstrainedNonlinearLeastSquares::Retraction retr;
  if (s.retraction != gn::RETR_NONE) {
    const int kind = s.retraction;
    retr = [kind](Eigen::VectorXd& x, ConstVectorBlock dx, double alpha) { gn::retract(kind, x, dx, alpha); };
  }
  ConstrainedNonlinearLeastSquares solver(&problem, retr);
  std::vector<std::vector<double>> points;
  solver.SetUserExitCallback([&](const NLSIteration& it) {
    std::vector<double> row{it.lambda, it.errors_initial.f, it.errors_initial.equality, it.directional_derivatives.d_f,
                            it.directional_derivatives.d_equality, it.penalty};
    for (const auto& st : it.line_search_steps) {
      row.push_back(st.alpha);
      row.push_back(st.errors.f);
      row.push_back(st.errors.equality);
    }
    for (int i : var) row.push_back(solver.variables()[i]);
    // At a stationary point the signs of the derivatives are those of rounding errors.
    const auto& dd = it.directional_derivatives;
    if (!(std::abs(dd.d_f) + it.penalty * std::abs(dd.d_equality) > 1e-12 * (1 + it.errors_initial.f + it.penalty * it.errors_initial.equality)))
      o.decidable = std::min(o.decidable, o.rows.size());
    o.rows.push_back(row);
    o.decisions.push_back(static_cast<long>(it.optimizer_state));
    o.decisions.push_back(static_cast<long>(it.step_result));
    o.decisions.push_back(static_cast<long>(it.line_search_steps.size()));
    if (const auto* ip = std::get_if<QPInteriorPointSolverOutputs>(&it.qp_outputs)) {
      o.decisions.push_back(static_cast<long>(ip->iterations.size()));
      o.decisions.push_back(static_cast<long>(ip->termination_state));
    }
    return true;
  });
  try {
    const auto out = solver.Solve(s.params, s.x0);
    o.decisions.push_back(static_cast<long>(out.termination_state));
    R->count(std::string("nls:state:") + std::to_string(static_cast<int>(out.termination_state)));
  } catch (const FailedFactorization& e) {
    o.threw = true;
    o.what = e.what();
  } catch (const assert::default_error& e) {
    o.threw = true;
    o.what = e.what();
  }
  return o;
}

static void perturb_spec(Rng& rng, Spec* s) {
  auto w = [&](double& v) { v *= 1 + 1e-13 * rng.uni(-1, 1); };
  for (auto* l : {&s->costs, &s->eqs})
    for (auto& d : *l) {
      for (auto& v : d.A) w(v);
      for (auto& v : d.b) w(v);
      for (auto& t : d.terms) w(t.c);
    }
  for (auto& c : s->ineq) {
    w(c.a);
    w(c.b);
  }
  for (int i = 0; i < s->x0.rows(); ++i) w(s->x0[i]);
}

// Rewrite a function without changing its value.
static FnData reorder_parameters(Rng& rng, const FnData& d, bool pad, int n_vars) {
  FnData o = d;
  const int extra = pad && d.P < 20 ? rng.irange(1, 2) : 0;
  o.P = d.P + extra;
  o.dynamic = true;
  const auto p = rng.perm(o.P);  // the parameter i goes to p[i]
  o.index.assign(S(o.P), 0);
  o.A.assign(S(o.R * o.P), 0.0);
  if (!d.off.empty()) {
    o.off.assign(S(o.P), 0.0);
    o.scl.assign(S(o.P), 1.0);
  }
  for (int i = 0; i < o.P; ++i) {
    const int t = p[S(i)];
    if (i >= d.P) {
      o.index[S(t)] = rng.irange(0, n_vars - 1);  // not used by the function
      continue;
    }
    o.index[S(t)] = d.index[S(i)];
    for (int k = 0; k < d.R; ++k) o.A[S(k * o.P + t)] = d.A[S(k * d.P + i)];
    if (!d.off.empty()) {
      o.off[S(t)] = d.off[S(i)];
      o.scl[S(t)] = d.scl[S(i)];
    }
  }
  for (auto& t : o.terms) {
    t.i = p[S(t.i)];
    t.j = p[S(t.j)];
  }
  if (d.nf_i >= 0) o.nf_i = p[S(d.nf_i)];
  return o;
}

static std::vector<FnData> split_rows(const FnData& d) {
  std::vector<FnData> res;
  for (int k = 0; k < d.R; ++k) {
    FnData o = d;
    o.R = 1;
    o.dynamic = true;
    o.A.assign(d.A.begin() + k * d.P, d.A.begin() + (k + 1) * d.P);
    o.b = {d.b[S(k)]};
    o.terms.clear();
    for (auto t : d.terms)
      if (t.row == k) {
        t.row = 0;
        o.terms.push_back(t);
      }
    if (k > 0) o.nf_i = -1;
    res.push_back(o);
  }
  return res;
}

template <typename T>
static void shuffle(Rng& rng, std::vector<T>* v) {
  const auto p = rng.perm(static_cast<int>(v->size()));
  std::vector<T> o;
  for (int i : p) o.push_back((*v)[S(i)]);
  *v = o;
}

static Spec reformulate(Rng& rng, const Spec& s, std::vector<int>* var, std::set<std::string>* how) {
  Spec o = s;
  const int N = s.N;
  // functions
  for (auto* l : {&o.costs, &o.eqs}) {
    std::vector<FnData> res;
    for (const auto& d : *l) {
      FnData e = d;
      const double u = rng.u01();
      if (u < 0.25) {
        e = reorder_parameters(rng, d, rng.chance(0.4), N);
        how->insert(e.P > d.P ? "padded parameters" : "reordered parameters");
      } else if (u < 0.4) {
        e.dynamic = !e.dynamic || !((d.R == 1 && d.P <= 2) || (d.P == 2 && (d.R == 2 || d.R == 3)) || (d.R == 2 && d.P == 3));
        how->insert("other storage");
      }
      if (e.R > 1 && rng.chance(0.3)) {
        how->insert("split rows");
        for (auto& f : split_rows(e)) res.push_back(f);
      } else {
        res.push_back(e);
      }
    }
    if (rng.chance(0.6)) {
      shuffle(rng, &res);
      how->insert("reordered functions");
    }
    *l = res;
  }
  if (rng.chance(0.6)) {
    shuffle(rng, &o.ineq);
    how->insert("reordered bounds");
  }
  if (rng.chance(0.2)) {  // a cost that is always zero
    FnData d;
    d.R = rng.irange(1, 4);
    d.P = 1;
    d.dynamic = true;
    d.index = {rng.irange(0, N - 1)};
    d.A.assign(S(d.R), 0.0);
    d.b.assign(S(d.R), 0.0);
    o.costs.insert(o.costs.begin() + rng.irange(0, static_cast<int>(o.costs.size())), d);
    how->insert("a zero cost");
  }
  // variables
  const bool extra = s.retraction != gn::RETR_LARGER && N < 24 && rng.chance(0.2);
  const int T = N + extra;
  var->clear();
  for (int i = 0; i < N; ++i) var->push_back(i);
  if (rng.chance(0.6)) {
    const auto p = rng.perm(T);
    for (int i = 0; i < N; ++i) (*var)[S(i)] = p[S(i)];
    how->insert("renamed variables");
  }
  o.N = T;
  o.x0 = s.x0;
  if (extra) o.x0.resize(T);
  for (auto* l : {&o.costs, &o.eqs})
    for (auto& d : *l)
      for (auto& i : d.index) i = (*var)[S(i)];
  for (auto& c : o.ineq) c.v = (*var)[S(c.v)];
  std::vector<bool> used(S(T), false);
  for (int i = 0; i < N; ++i) {
    o.x0[(*var)[S(i)]] = s.x0[i];
    used[S((*var)[S(i)])] = true;
  }
  for (int i = N; i < s.x0.rows(); ++i) {  // states beyond the tangent space stay where they are
    o.x0[i] = s.x0[i];
    var->push_back(i);
  }
  if (extra) {  // starts at its optimum
    for (int i = 0; i < T; ++i)
      if (!used[S(i)]) {
        FnData d;
        d.index = {i};
        d.A = {rng.uni(0.5, 2)};
        o.x0[i] = 0;
        d.b = {0.0};
        o.costs.push_back(d);
      }
    how->insert("an extra variable");
  }
  return o;
}

static void case_nls(Rng& rng) {
  gn::GenOptions go;
  go.wide = rng.chance(0.3);
  go.p_transform = 0.15;
  Spec s = gn::random_spec(rng, go, static_cast<int>(rng.irange(0, gn::N_FAMILIES - 1)));
  s.params.log_qp_eigenvalues = false;
  std::vector<int> id;
  for (int i = 0; i < s.x0.rows(); ++i) id.push_back(i);
  const Outcome base = run_nls(s, id);
  std::vector<Outcome> pert;
  for (int k = 0; k < 3; ++k) {
    Spec t = s;
    perturb_spec(rng, &t);
    pert.push_back(run_nls(t, id));
  }
  for (int rep = 0; rep < 2; ++rep) {
    std::vector<int> var;
    std::set<std::string> how;
    const Spec o = reformulate(rng, s, &var, &how);
    judge("nls", how, base, pert, run_nls(o, var), s.describe());
    R->count(std::string("nls:family:") + gn::family_name(s.family));
  }
  R->count(!s.eqs.empty() && s.ineq.empty() ? "nls:null-space" : s.eqs.empty() ? "nls:interior-point" : "nls:interior-point+eq");
  R->distinct(vh::hash_doubles(s.x0.data(), s.x0.rows()));
  R->sample(strf("%zu iterations, ", base.rows.size()) + s.describe());
}

int main(int argc, char** argv) {
  const vh::Args args = vh::Args::parse(argc, argv);
  vh::Reporter rep(args, "equiv");
  R = &rep;
  const std::string mode = args.get("mode", "qp");
  vh::run_cases(rep, [&](long, uint64_t seed) {
    Rng rng(seed);
    if (mode == "nls")
      case_nls(rng);
    else
      case_qp(rng);
  });
  verdict(args.only >= 0);
  return rep.finish();
}
