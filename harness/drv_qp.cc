// Interior point solver: properties C01 (success means KKT), C02 (convex problems are solved),
// C03 (interiority / residual contraction), C04 (Newton step), C05 (truthful records).
#include <Eigen/Dense>

#include "genqp.hpp"

using namespace mini_opt;
using gq::S;
using ref::Real;
using ref::Vec;
using vh::strf;
using Params = QPInteriorPointSolver::Params;

static vh::Reporter* R;

static const char* strat_name(BarrierStrategy s) {
  switch (s) {
    case BarrierStrategy::COMPLEMENTARITY: return "COMPLEMENTARITY";
    case BarrierStrategy::FIXED_DECREASE: return "FIXED_DECREASE";
    case BarrierStrategy::PREDICTOR_CORRECTOR: return "PREDICTOR_CORRECTOR";
  }
  return "?";
}
static std::string describe(const Params& p) {
  return strf("mu0=%g sigma=%g kkt_tol=%g comp_tol=%g max_it=%d strategy=%s dec_small=%d guess=%d init_comp=%d",
              p.initial_mu, p.sigma, p.termination_kkt_tol, p.termination_complementarity_tol, p.max_iterations,
              strat_name(p.barrier_strategy), p.decrease_mu_only_on_small_error,
              static_cast<int>(p.initial_guess_method), p.initialize_mu_with_complementarity);
}
static std::string show(const Vec& v) {
  std::string o = "[";
  for (auto e : v) o += strf("%.17Lg ", e);
  return o + "]";
}

static BarrierStrategy pick_strategy(vh::Rng& rng) {
  return static_cast<BarrierStrategy>(rng.irange(0, 2));
}

// A user provided interior starting point.
static Eigen::VectorXd user_start(vh::Rng& rng, const QP& q, bool s_matches, bool mild) {
  const int N = gq::dimN(q), M = gq::dimM(q), K = gq::dimK(q);
  Eigen::VectorXd v(N + 2 * M + K);
  const bool zero_x = rng.chance(0.5);
  for (int i = 0; i < N; ++i) v[i] = zero_x ? 0.0 : rng.uni(-0.05, 0.05);
  for (int i = 0; i < M; ++i) {
    const auto& c = q.constraints[S(i)];
    const double sl = c.a * v[c.variable] + c.b;
    v[N + i] = s_matches ? std::max(sl, 1e-3) : (mild ? rng.logu(0.1, 5.0) : rng.logu(1e-4, 50.0));
    v[N + M + K + i] = mild ? rng.logu(0.1, 5.0) : rng.logu(1e-4, 50.0);
  }
  for (int i = 0; i < K; ++i) v[N + M + i] = rng.uni(-2, 2);
  return v;
}

// ---------------------------------------------------------------------------------------------
// C01

// A barrier parameter that is cubed again and again underflows; so do the multipliers then.
static bool underflow(const std::vector<mini_opt::QPInteriorPointIteration>& its) {
  for (size_t i = 0; i < its.size(); ++i)
    if (std::abs(its[i].ip_outputs.mu) < 1e-200) return true;
  return false;
}

static void check_success_is_kkt(const QP& q, const Params& p, const QPInteriorPointSolver& s, const QPInteriorPointSolverOutputs& out, const char* fam) {
  const gq::Point pt = gq::split(q, s.variables());
  if (s.variables().cwiseAbs().maxCoeff() > 1e100) {
    R->count("unbounded-skipped");  // an unbounded problem whose iterates ran to the end of the double range
    return;
  }
  const gq::Residuals r = gq::kkt(q, pt);
  auto norm_with_slack = [&](const Vec& v, const Vec& mag, Real* slack) {
    Real m = 0;
    for (Real e : mag) m += e;
    *slack = 1e-13L * m;
    return ref::norm(v);
  };
  const Real tol = p.termination_kkt_tol;
  Real sl = 0;
  auto bad = [&](const char* key, const std::string& what) {
    R->violation("C01", key, what + " | " + fam + " | " + describe(p) + " | vars " + show([&] {
                               Vec v;
                               for (int i = 0; i < s.variables().rows(); ++i) v.push_back(s.variables()[i]);
                               return v;
                             }()) + " | " + gq::describe(q));
  };
  Real n = norm_with_slack(r.rd, r.rd_mag, &sl);
  if (!(n <= tol * (1 + 1e-6L) + sl)) bad("stationarity", strf("stationarity residual %Lg exceeds tolerance", n));
  n = norm_with_slack(r.rpe, r.rpe_mag, &sl);
  if (!(n <= tol * (1 + 1e-6L) + sl)) bad("primal-eq", strf("equality residual %Lg exceeds tolerance", n));
  n = norm_with_slack(r.rpi, r.rpi_mag, &sl);
  if (!(n <= tol * (1 + 1e-6L) + sl)) bad("primal-ineq", strf("inequality residual %Lg exceeds tolerance", n));
  for (size_t i = 0; i < pt.s.size(); ++i) {
    if (underflow(out.iterations)) break;
    if (!(pt.s[i] > 0)) bad("slack-positive", strf("slack %zu = %Lg", i, pt.s[i]));
    if (!(pt.z[i] > 0)) bad("multiplier-positive", strf("multiplier %zu = %Lg", i, pt.z[i]));
  }
  if (!(r.comp_mean < p.termination_complementarity_tol * (1 + 1e-9L)))
    bad("complementarity", strf("mean complementarity %Lg exceeds tolerance", r.comp_mean));
  // the accessors must present the same vector as variables()
  const auto& v = s.variables();
  const int N = gq::dimN(q), M = gq::dimM(q), K = gq::dimK(q);
  bool same = s.x_block().rows() == N && s.s_block().rows() == M && s.y_block().rows() == K && s.z_block().rows() == M;
  if (same) {
    for (int i = 0; i < N; ++i) same = same && vh::same_bits(s.x_block()[i], v[i]);
    for (int i = 0; i < M; ++i) same = same && vh::same_bits(s.s_block()[i], v[N + i]);
    for (int i = 0; i < K; ++i) same = same && vh::same_bits(s.y_block()[i], v[N + M + i]);
    for (int i = 0; i < M; ++i) same = same && vh::same_bits(s.z_block()[i], v[N + M + K + i]);
  }
  if (!same) bad("accessors", "block accessors disagree with variables()");
}

static bool large(vh::Rng& rng, double p) {
  if (!rng.chance(p)) return false;
  R->count("large-problems");
  return true;
}

static void case_C01(vh::Rng& rng) {
  const int nmax = large(rng, 0.004) ? 40 : 8;
  gq::Case cs = rng.chance(0.4) ? gq::known_solution(rng, nmax, 1e3) : gq::random_feasible(rng, nmax);
  for (int rep = 0; rep < 3; ++rep) {
    Params p;
    p.initial_mu = rng.chance(0.5) ? 1.0 : rng.logu(1e-3, 5.0);
    p.sigma = rng.chance(0.1) ? 1.0 : rng.uni(0.05, 0.9);
    p.termination_kkt_tol = rng.logu(1e-9, 1e-1);
    p.termination_complementarity_tol = rng.logu(1e-9, 1.0);
    p.max_iterations = rng.chance(0.5) ? rng.irange(1, 60) : rng.irange(15, 40);
    p.barrier_strategy = pick_strategy(rng);
    p.decrease_mu_only_on_small_error = rng.chance(0.2);
    p.initialize_mu_with_complementarity = rng.chance(0.3);
    p.initial_guess_method = static_cast<InitialGuessMethod>(rng.irange(0, 2));
    try {
      QPInteriorPointSolver s(&cs.qp);
      if (p.initial_guess_method == InitialGuessMethod::USER_PROVIDED)
        s.SetVariables(user_start(rng, cs.qp, rng.chance(0.5), rng.chance(0.5)));
      const auto out = s.Solve(p);
      R->count("solves");
      if (out.termination_state == QPInteriorPointTerminationState::SATISFIED_KKT_TOL) {
        R->count(std::string("satisfied:") + strat_name(p.barrier_strategy));
        R->count("satisfied");
        R->count("family:" + cs.family);
        R->distinct(vh::hash_doubles(s.variables().data(), s.variables().rows()));
        check_success_is_kkt(cs.qp, p, s, out, cs.family.c_str());
        if (rep == 0) R->sample(strf("%d iterations, ", static_cast<int>(out.iterations.size())) + describe(p) + " " + gq::describe(cs.qp));
      }
    } catch (const FailedFactorization&) {
      R->count("failed-factorization");
    } catch (const assert::default_error&) {
      R->count("assertion");
    }
  }
}

// ---------------------------------------------------------------------------------------------
// C02
// Interior point methods have no guarantee to converge from an infeasible start, and in about one run in
// 10^5 this one stalls. So single failures to converge are counted, and a violation is a class of
// problems that fails noticeably often.
struct ConvFailure {
  long idx;
  std::string key, msg;
};
static std::map<std::string, long> conv_runs;
static std::map<std::string, std::vector<ConvFailure>> conv_failures;

static void conv_result(const std::vector<std::string>& classes, const char* key, const std::string& msg) {
  for (const auto& c : classes) {
    ++conv_runs[c];
    if (key && conv_failures[c].size() < 100000) conv_failures[c].push_back({R->case_index(), key, conv_failures[c].size() < 3 ? msg : ""});
  }
  if (key) R->count(std::string("single-failures:") + key);
}

static void conv_verdict(bool single) {
  for (const auto& kv : conv_failures) {
    const double n = static_cast<double>(conv_runs[kv.first]), f = static_cast<double>(kv.second.size());
    R->maxval("failure-rate-percent:" + kv.first, 100 * f / n);
    if (single || (f >= 6 && f > (kv.first[0] == 'd' ? 0.03 : 0.005) * n)) {
      const ConvFailure& c = kv.second.front();
      R->at_case(c.idx);
      R->violation("C02", c.key, strf("%.0f of %.0f runs with %s fail; the first: ", f, n, kv.first.c_str()) + c.msg);
    }
  }
}

static void case_C02(vh::Rng& rng) {
  gq::Case cs = gq::known_solution(rng, large(rng, 0.002) ? 30 : 8, 100);
  if (!cs.known.valid) {
    R->count("skipped:dependent-equalities");
    return;
  }
  const QP& q = cs.qp;
  const int N = gq::dimN(q), M = gq::dimM(q), K = gq::dimK(q);
  for (int strat = 0; strat < 3; ++strat)
    for (int g = 0; g < 3; ++g) {
      Params p;
      p.barrier_strategy = static_cast<BarrierStrategy>(strat);
      p.initial_guess_method = static_cast<InitialGuessMethod>(g);
      p.sigma = rng.uni(0.05, 0.5);
      p.initial_mu = rng.chance(0.5) ? 1.0 : rng.uni(0.1, 2.0);
      p.initialize_mu_with_complementarity = rng.chance(0.4);
      p.termination_kkt_tol = 1e-8;
      p.termination_complementarity_tol = 1e-9;
      p.max_iterations = 90;
      if (p.initial_guess_method == InitialGuessMethod::SOLVE_EQUALITY_CONSTRAINED && M > 0) {
        // Only when the equality constrained minimizer is strictly interior is the start interior.
        ref::Mat H(N + K, N + K);
        Vec b(S(N + K));
        for (int i = 0; i < N; ++i) {
          for (int j = 0; j < N; ++j) H(i, j) = gq::Gat(q, i, j);
          for (int k = 0; k < K; ++k) H(i, N + k) = H(N + k, i) = q.A_eq(k, i);
          b[S(i)] = -q.c[i];
        }
        for (int k = 0; k < K; ++k) b[S(N + k)] = -q.b_eq[k];
        const auto sol = ref::solve(H, b);
        bool interior = sol.has_value();
        if (sol)
          for (const auto& c : q.constraints) interior = interior && c.a * (*sol)[S(c.variable)] + c.b > 0.01L;
        if (!interior) continue;
      }
      std::string where = cs.family + " | " + describe(p) + " | ";
      std::vector<std::string> classes = {std::string(strat_name(p.barrier_strategy)) + strf("/guess%d", g), N > 8 ? "N>8" : strf("N=%d", N),
                                          M > 17 ? "M>17" : strf("M=%d", M), K > 7 ? "K>7" : strf("K=%d", K)};
      {
        std::map<int, int> per_var;
        bool neg = false, pos = false, scaled = false;
        for (const auto& c : q.constraints) {
          ++per_var[c.variable];
          (c.a > 0 ? pos : neg) = true;
          scaled = scaled || std::abs(c.a) != 1;
        }
        int most = 0;
        for (auto& kv : per_var) most = std::max(most, kv.second);
        classes.push_back(strf("%d bounds on one variable", most));
        if (neg && !pos) classes.push_back("upper bounds only");
        if (pos && !neg) classes.push_back("lower bounds only");
        classes.push_back(scaled ? "scaled bounds" : "unscaled bounds");
        if (K && M) classes.push_back("equalities and inequalities");
        if (K && !M) classes.push_back("equalities only");
        if (!K && !M) classes.push_back("unconstrained");
        if (p.initialize_mu_with_complementarity) classes.push_back("initialize_mu");
        if (p.initial_mu != 1) classes.push_back("initial_mu");
        classes.push_back(p.sigma < 0.1 ? "sigma<0.1" : p.sigma < 0.3 ? "sigma<0.3" : "sigma<0.5");
      }
      // Nearly dependent active constraints make the problem harder; they are judged on their own.
      if (!cs.known.unique_multipliers) classes = {"dependent active constraints"};
      try {
        QPInteriorPointSolver s(&q);
        if (p.initial_guess_method == InitialGuessMethod::USER_PROVIDED)
          s.SetVariables(user_start(rng, q, true, true));
        const auto out = s.Solve(p);
        R->count(std::string("runs:") + strat_name(p.barrier_strategy));
        R->maxval(std::string("iterations:") + strat_name(p.barrier_strategy), static_cast<double>(out.iterations.size()));
        const double mu0 = std::max(1.0, p.initial_mu);
        // Geometric decrease of the barrier needs log(comp_tol)/log(sigma) iterations, plus overhead.
        const double budget = 30 + 1.5 * std::log(1e-9 / mu0) / std::log(p.sigma);
        if (out.termination_state != QPInteriorPointTerminationState::SATISFIED_KKT_TOL) {
          conv_result(classes, "not-converged", where + strf("state MAX_ITERATIONS after %zu, kkt=%g ", out.iterations.size(),
                                                             out.iterations.back().kkt_final.Max()) + gq::describe(q));
          continue;
        }
        const bool slow = static_cast<double>(out.iterations.size()) > budget;
        conv_result(classes, slow ? "slow" : nullptr,
                    where + (slow ? strf("%zu iterations, budget %g ", out.iterations.size(), budget) + gq::describe(q) : std::string()));
        R->distinct(vh::hash_doubles(s.variables().data(), s.variables().rows()));
        const gq::Point pt = gq::split(q, s.variables());
        Real ex = 0, ey = 0, ez = 0;
        for (int i = 0; i < N; ++i) ex = std::max(ex, std::abs(pt.x[S(i)] - cs.known.x[S(i)]));
        for (int i = 0; i < K; ++i) ey = std::max(ey, std::abs(pt.y[S(i)] - cs.known.y[S(i)]));
        for (int i = 0; i < M; ++i) ez = std::max(ez, std::abs(pt.z[S(i)] - cs.known.z[S(i)]));
        // Convexity bound: gmin |e|^2 <= s'z + |y-y*||r_pe| + |z-z*||r_pi| + |r_d||e|.
        const double tolx = 1.5 * std::sqrt((M * 1e-9 + 1e-8 * 60) / cs.known.gmin) + 2e-8 / cs.known.gmin + 1e-7;
        R->maxval("x-error/tol", static_cast<double>(ex) / tolx);
        if (!(ex <= tolx)) R->violation("C02", "minimizer", where + strf("|x - x*| = %Lg > %g ", ex, tolx) + gq::describe(q));
        if (cs.known.unique_multipliers) {
          // strict complementarity: every slack of an inactive constraint is >= 0.1, so z there is tiny;
          // the others follow from stationarity with well conditioned active gradients.
          Real gmax = 0;
          for (int i = 0; i < N; ++i)
            for (int j = 0; j < N; ++j) gmax = std::max(gmax, std::abs(gq::Gat(q, i, j)));
          const double tolm = 200.0 * (static_cast<double>(gmax) * N * tolx + 1e-6);
          R->maxval("multiplier-error/tol", static_cast<double>(std::max(ey, ez)) / tolm);
          R->count("multipliers-compared");
          R->maxval("multiplier-tol", tolm);
          const double tolm2 = std::min(tolm, 0.05);
          if (!(ey <= tolm2))
            R->violation("C02", "eq-multipliers", where + strf("|y - y*| = %Lg > %g ", ey, tolm2) + gq::describe(q));
          if (!(ez <= tolm2))
            R->violation("C02", "ineq-multipliers", where + strf("|z - z*| = %Lg > %g ", ez, tolm2) + gq::describe(q));
        }
        if (strat == 0 && g == 0)
          R->sample(strf("%zu iterations, |x-x*|=%Lg ", out.iterations.size(), ex) + describe(p) + " " + gq::describe(q));
      } catch (const std::exception& e) {
        conv_result(classes, "exception", where + e.what() + " " + gq::describe(q));
      }
    }
}

// ---------------------------------------------------------------------------------------------
// C03, C04, C05: follow the iterates by truncating the same solve at 1, 2, 3, ... iterations.
struct Trajectory {
  std::vector<Eigen::VectorXd> v;  // v[k]: variables after k iterations (v[0] empty unless known)
  bool v0_known = false;
  QPInteriorPointSolverOutputs last{};
  std::vector<QPInteriorPointSolverOutputs> outs;
  bool threw = false;
  std::string what;
};

static Trajectory follow(const QP& q, Params p, const Eigen::VectorXd* start, int limit) {
  Trajectory t;
  t.v.resize(1);
  if (start) {
    t.v[0] = *start;
    t.v0_known = true;
  }
  for (int k = 1; k <= limit; ++k) {
    p.max_iterations = k;
    try {
      QPInteriorPointSolver s(&q);
      if (start) s.SetVariables(*start);
      auto out = s.Solve(p);
      const size_t n = out.iterations.size();
      const bool done = out.termination_state == QPInteriorPointTerminationState::SATISFIED_KKT_TOL || n < S(k);
      t.last = out;
      t.outs.push_back(std::move(out));
      t.v.push_back(s.variables());
      if (done) break;
    } catch (const FailedFactorization& e) {
      t.threw = true;
      t.what = e.what();
      break;
    } catch (const assert::default_error& e) {
      t.threw = true;
      t.what = e.what();
      break;
    }
  }
  return t;
}

static bool same_kkt(const KKTError& a, const KKTError& b) {
  return vh::same_value(a.r_dual, b.r_dual) && vh::same_value(a.r_comp, b.r_comp) &&
         vh::same_value(a.r_primal_eq, b.r_primal_eq) && vh::same_value(a.r_primal_ineq, b.r_primal_ineq);
}

static Real vec_mag(const Vec& v) {
  Real m = 0;
  for (Real e : v) m += e;
  return m;
}

static void case_follow(vh::Rng& rng) {
  const bool known = rng.chance(0.45);
  const int nmax = large(rng, 0.0015) ? 24 : 6;
  gq::Case cs = known ? gq::known_solution(rng, nmax, 1e3) : gq::random_feasible(rng, nmax, true);
  const QP& q = cs.qp;
  const int N = gq::dimN(q), M = gq::dimM(q), K = gq::dimK(q);
  Params p;
  p.initial_mu = rng.chance(0.5) ? 1.0 : rng.logu(1e-2, 5.0);
  p.sigma = rng.chance(0.1) ? 1.0 : rng.uni(0.05, 0.9);
  p.termination_kkt_tol = rng.logu(1e-9, 1e-2);
  p.termination_complementarity_tol = rng.logu(1e-8, 1e-1);
  p.barrier_strategy = pick_strategy(rng);
  p.decrease_mu_only_on_small_error = rng.chance(0.3);
  p.initialize_mu_with_complementarity = rng.chance(0.35);
  p.initial_guess_method = static_cast<InitialGuessMethod>(rng.chance(0.5) ? 2 : rng.irange(0, 1));
  const bool pc = p.barrier_strategy == BarrierStrategy::PREDICTOR_CORRECTOR;
  Eigen::VectorXd start;
  const bool user = p.initial_guess_method == InitialGuessMethod::USER_PROVIDED;
  if (user) start = user_start(rng, q, rng.chance(0.4), rng.chance(0.6));
  const Trajectory t = follow(q, p, user ? &start : nullptr, rng.irange(3, 25));
  const std::string where = cs.family + " | " + describe(p) + " | ";
  auto ctx = [&](size_t k) {
    return strf("iteration %zu: ", k) + where + (user ? "start " + show([&] {
      Vec v;
      for (int i = 0; i < start.rows(); ++i) v.push_back(start[i]);
      return v;
    }()) + " | " : std::string()) + gq::describe(q);
  };
  if (t.threw) {
    // A slack reaching zero is a violation unless the run was diverging already.
    R->count("aborted-by-exception");
    const bool diverging = t.v.size() > 1 && !(t.v.back().cwiseAbs().maxCoeff() < 1e11);
    const bool factor = t.what.find("Failed to solve self-adjoint") != std::string::npos;
    R->count(diverging ? "aborted:diverged" : factor ? "aborted:factorization" : "aborted:other");
    if (!diverging && !factor)
      R->violation("C03", "slack-assertion", t.what.substr(0, 300) + " after " + strf("%zu iterations, ", t.outs.size()) + where + gq::describe(q));
  }
  R->count(std::string("trajectories:") + strat_name(p.barrier_strategy));

  // --- C05: counting and agreement between runs with different limits
  for (size_t i = 0; i < t.outs.size(); ++i) {
    const auto& o = t.outs[i];
    const size_t limit = i + 1;
    if (o.iterations.size() > limit || o.iterations.empty())
      R->violation("C05", "too-many-records", strf("%zu records with a limit of %zu ", o.iterations.size(), limit) + ctx(limit));
    if (o.termination_state == QPInteriorPointTerminationState::MAX_ITERATIONS && o.iterations.size() != limit)
      R->violation("C05", "record-count", strf("MAX_ITERATIONS with %zu records, limit %zu ", o.iterations.size(), limit) + ctx(limit));
    if (o.termination_state != QPInteriorPointTerminationState::MAX_ITERATIONS &&
        o.termination_state != QPInteriorPointTerminationState::SATISFIED_KKT_TOL)
      R->violation("C05", "state", "termination state is not an enumerator " + ctx(limit));
    if (i > 0) {
      const auto& prev = t.outs[i - 1];
      for (size_t j = 0; j < prev.iterations.size() && j < o.iterations.size(); ++j) {
        if (!same_kkt(prev.iterations[j].kkt_initial, o.iterations[j].kkt_initial) ||
            !same_kkt(prev.iterations[j].kkt_final, o.iterations[j].kkt_final) ||
            !vh::same_value(prev.iterations[j].ip_outputs.mu, o.iterations[j].ip_outputs.mu))
          R->violation("C05", "limit-changes-records", "the records depend on the iteration limit " + ctx(j));
      }
    }
  }

  const auto& its = t.last.iterations;
  ref::Mat Gm(N, N);
  for (int i = 0; i < N; ++i)
    for (int j = 0; j < N; ++j) Gm(i, j) = gq::Gat(q, i, j);
  const Vec eig = ref::eigenvalues(Gm);
  Real amax = 0;
  for (const auto& c : q.constraints) amax = std::max(amax, std::abs(static_cast<Real>(c.a)));
  Real mu_in = std::nan("");
  bool mu_in_known = false;
  if (!p.initialize_mu_with_complementarity) {
    mu_in = p.initial_mu;
    mu_in_known = true;
  } else if (t.v0_known) {
    mu_in = gq::kkt(q, gq::split(q, t.v[0])).comp_mean;
    mu_in_known = true;
  }
  // NAIVE starts from zero, clamped: the equality residual there is determined.
  if (p.initial_guess_method == InitialGuessMethod::NAIVE && !its.empty() && K > 0) {
    Vec x(S(N), 0.0L);
    for (const auto& c : q.constraints) {
      if (c.a < 0)
        x[S(c.variable)] = std::min(x[S(c.variable)], static_cast<Real>(c.b / -c.a));
      else
        x[S(c.variable)] = std::max(x[S(c.variable)], static_cast<Real>(-c.b / c.a));
    }
    Real n2 = 0, m = 0;
    for (int k = 0; k < K; ++k) {
      Real s = q.b_eq[k];
      for (int j = 0; j < N; ++j) {
        s += static_cast<Real>(q.A_eq(k, j)) * x[S(j)];
        m += std::abs(static_cast<Real>(q.A_eq(k, j)) * x[S(j)]);
      }
      n2 += s * s;
      m += std::abs(static_cast<Real>(q.b_eq[k]));
    }
    if (!(std::abs(std::sqrt(n2) - its[0].kkt_initial.r_primal_eq) <= 1e-11L * m))
      R->violation("C05", "naive-start", strf("initial equality residual %.17g, expected %.17Lg ", its[0].kkt_initial.r_primal_eq, std::sqrt(n2)) + ctx(0));
  }

  for (size_t k = 0; k < its.size() && k + 1 < t.v.size(); ++k) {
    const auto& it = its[k];
    const auto& io = it.ip_outputs;
    const bool prev_known = k > 0 || t.v0_known;
    // A run that diverged (the predictor-corrector without a matching barrier can) is not followed
    // further: everything overflows from there.
    if (!(t.v[k + 1].cwiseAbs().maxCoeff() < 1e11)) {
      R->count("diverged");
      if (!(k > 0 && t.v[k].cwiseAbs().maxCoeff() > 1e5) && !(t.v[k + 1].cwiseAbs().maxCoeff() < 1e300))
        R->violation("C03", "sudden-non-finite", ctx(k));
      break;
    }
    const gq::Point after = gq::split(q, t.v[k + 1]);
    const gq::Residuals ra = gq::kkt(q, after);
    R->count("iterations");

    // --- C03: positivity and step lengths
    for (size_t i = 0; i < S(M); ++i) {
      if ((!(after.s[i] > 0) || !(after.z[i] > 0)) && !(std::abs(io.mu) < 1e-200))
        R->violation("C03", "positive", strf("s[%zu]=%Lg z[%zu]=%Lg ", i, after.s[i], i, after.z[i]) + ctx(k));
    }
    for (const double al : {io.alpha.primal, io.alpha.dual})
      if (!(al > 0 && al <= 1)) R->violation("C03", "alpha-range", strf("step length %.17g ", al) + ctx(k));
    if (M == 0 && !(io.alpha.primal == 1 && io.alpha.dual == 1))
      R->violation("C03", "alpha-without-inequalities", strf("alpha %.17g %.17g ", io.alpha.primal, io.alpha.dual) + ctx(k));
    {
      // x stays in the box if the start did
      bool start_feasible = !user;
      if (user) {
        start_feasible = true;
        for (int i = 0; i < M; ++i) {
          const auto& c = q.constraints[S(i)];
          start_feasible = start_feasible && std::abs(c.a * start[c.variable] + c.b - start[N + i]) <= 1e-12 * (1 + std::abs(c.b));
        }
      }
      if (start_feasible) {
        for (int i = 0; i < M; ++i) {
          const auto& c = q.constraints[S(i)];
          const Real val = static_cast<Real>(c.a) * after.x[S(c.variable)] + c.b;
          Real mag = std::abs(static_cast<Real>(c.a) * after.x[S(c.variable)]) + std::abs(static_cast<Real>(c.b));
          for (size_t kk = 1; kk <= k + 1; ++kk) mag = std::max(mag, static_cast<Real>(std::abs(c.a) * t.v[kk].head(N).cwiseAbs().maxCoeff()));
          if (!(val >= -(1e-9L + 1e-12L * mag)))
            R->violation("C03", "box", strf("constraint %d violated by %Lg ", i, -val) + ctx(k));
          R->maxval("box-violation", static_cast<double>(-val));
        }
      }
    }

    if (prev_known) {
      const gq::Point before = gq::split(q, t.v[k]);
      const gq::Residuals rb = gq::kkt(q, before);
      const Real ap = io.alpha.primal, ad = io.alpha.dual;
      // --- C03: fraction to boundary, contraction
      bool p_blocked = false, d_blocked = false;
      for (int i = 0; i < M; ++i) {
        for (int w = 0; w < 2; ++w) {
          const Real b = w ? before.z[S(i)] : before.s[S(i)];
          const Real a = w ? after.z[S(i)] : after.s[S(i)];
          const Real al = w ? ad : ap;
          const Real full = b + (a - b) / al;  // value after a full step
          const Real rnd = 1e-12L * (std::abs(b) + std::abs(a)) / std::max<Real>(al, 1e-3L);
          if (!(a >= 0.005L * b * (1 - 1e-6L) - 1e-15L * b)) {
            if (al == 1 ? a > 0 : full > rnd)
              R->violation("C03", "ftb-positive-full-step",
                           strf("%s[%d] went from %Lg to %Lg (alpha %Lg, full step value %Lg > 0) ", w ? "z" : "s", i, b, a, al, full) + ctx(k));
            else if (al < 1 && full > -rnd)
              R->count("ftb-undecided");
            else
              R->violation("C03", "ftb", strf("%s[%d] went from %Lg to %Lg (alpha %Lg): more than 99.5%% of the distance to zero ", w ? "z" : "s", i, b, a, al) + ctx(k));
          }
          if (a <= 0.005L * b * (1 + 1e-4L) + 1e-12L * b) (w ? d_blocked : p_blocked) = true;
          // 1e-4 relative: alpha's rounding is amplified by 1/0.005
        }
      }
      R->count("alpha-checked");
      if (ap < 1) R->count("primal-limited");
      if (ad < 1) R->count("dual-limited");
      if (ap < 1 && !p_blocked && M > 0) R->violation("C03", "short-primal-step", strf("alpha_p = %Lg but no slack is at its limit ", ap) + ctx(k));
      if (ad < 1 && !d_blocked && M > 0) R->violation("C03", "short-dual-step", strf("alpha_d = %Lg but no multiplier is at its limit ", ad) + ctx(k));

      gq::Point d;
      Real ratio = 0;
      // second order correction from the affine step
      Vec corr(S(M), 0.0L);
      bool ref_ok = true;
      gq::Point aff;
      if (pc && M > 0) {
        ref_ok = gq::newton(q, before, rb, 0.0L, corr, &aff, &ratio) && ratio > 1e-9L;
        if (ref_ok)
          for (int i = 0; i < M; ++i) corr[S(i)] = aff.s[S(i)] * aff.z[S(i)];
      }
      const Real mu_step = M > 0 ? static_cast<Real>(io.mu) : 0.0L;
      if (ref_ok) ref_ok = gq::newton(q, before, rb, mu_step, corr, &d, &ratio) && ratio > 1e-9L;
      // size of the eliminated system decides how accurate the solver can be
      Real sig = 0, smin = 1;
      for (int i = 0; i < M; ++i) {
        sig = std::max(sig, before.z[S(i)] / before.s[S(i)]);
        smin = std::min(smin, before.s[S(i)]);
      }
      if (sig > 1e7L || smin < 1e-7L) ref_ok = false;
      // relative accuracy to expect of an explicit inverse of the eliminated system
      const Real condH = (eig.back() + sig * amax * amax * 2 + (K ? 3 : 0)) / eig.front();
      const Real rel = 1e-13L * condH;
      if (rel > 1e-4L) ref_ok = false;
      // Only states without extreme cancellation: elsewhere the solver's rounding is not bounded tightly.
      {
        Real lo = 1, hi = 1, czlo = 1e300L, czhi = 0;
        for (int i = 0; i < M; ++i) {
          for (const Vec* w : {&before.s, &before.z}) {
            lo = std::min(lo, (*w)[S(i)]);
            hi = std::max(hi, (*w)[S(i)]);
          }
          czlo = std::min(czlo, rb.sz[S(i)]);
          czhi = std::max(czhi, rb.sz[S(i)]);
        }
        if (lo < 1e-6L || hi > 1e4L || (M > 0 && czhi > 1e5L * czlo) || ref::maxabs(before.y) > 1e5L) ref_ok = false;
      }
      if (!ref_ok) {
        R->count("newton-skipped-ill-conditioned");
      } else {
        R->count("newton-checked");
        R->count(std::string("newton:") + strat_name(p.barrier_strategy) + (K ? "+eq" : "") + (M ? "+ineq" : ""));
        R->distinct(vh::mix64(gq::hash_vec(before.x) + k));
        auto cmp = [&](const char* name, const Vec& b, const Vec& a, const Vec& dir, Real al) {
          Real scale = 0, mag = 0;
          for (size_t i = 0; i < dir.size(); ++i) {
            scale = std::max(scale, std::abs(dir[i]));
            mag = std::max(mag, std::max(std::abs(a[i]), std::abs(b[i])));
          }
          Real all = 0;
          for (const Vec* w : {&d.x, &d.s}) all = std::max(all, ref::maxabs(*w));
          for (size_t i = 0; i < dir.size(); ++i) {
            const Real err = std::abs((a[i] - b[i]) - al * dir[i]);
            const Real amp = std::max<Real>(1.0L, 1e-6L / std::max<Real>(ratio, 1e-18L));
            const Real tol = 1e-6L * amp * al * std::max(scale, all * 1e-3L) + 1e-13L * mag + 1e-9L * amp * al * (1 + sig * all) + rel * al * (scale + all);
            R->maxval(std::string("newton-err/tol:") + name, static_cast<double>(err / tol));
            if (!(err <= tol))
              R->violation("C04", std::string("newton-") + name,
                           strf("%s[%zu] moved by %.12Lg, Newton step gives %.12Lg (tol %Lg, ratio %Lg) ", name, i, a[i] - b[i], al * dir[i], tol, ratio) + ctx(k));
          }
        };
        cmp("x", before.x, after.x, d.x, ap);
        cmp("s", before.s, after.s, d.s, ap);
        cmp("y", before.y, after.y, d.y, ad);
        cmp("z", before.z, after.z, d.z, ad);
        // contraction of the primal residuals
        auto contr = [&](const char* name, const Vec& b, const Vec& bm, const Vec& a, const Vec& am) {
          Real dxm = std::max(ref::maxabs(d.x), ref::maxabs(d.s));
          for (size_t i = 0; i < b.size(); ++i) {
            const Real err = std::abs(a[i] - (1 - ap) * b[i]);
            const Real tol = 1e-10L * (bm[i] + am[i]) + 1e-9L * (dxm + std::abs(b[i])) * std::max<Real>(1.0L, 1e-6L / ratio) + rel * (dxm + std::abs(b[i]));
            if (!(err <= tol))
              R->violation("C03", std::string("contraction-") + name,
                           strf("residual %zu went from %Lg to %Lg with alpha_p %Lg ", i, b[i], a[i], ap) + ctx(k));
          }
        };
        contr("eq", rb.rpe, rb.rpe_mag, ra.rpe, ra.rpe_mag);
        contr("ineq", rb.rpi, rb.rpi_mag, ra.rpi, ra.rpi_mag);

        // --- C05: probe of the predictor-corrector
        if (pc && M > 0) {
          Real dxm = ref::maxabs(aff.x);
          // value of the step length for directions perturbed by +-e
          auto ftb = [&](const Vec& v, const Vec& dv, const Vec& e, Real sign) {
            Real al = 1;
            for (size_t i = 0; i < v.size(); ++i) {
              const Real dd = dv[i] + sign * e[i];
              if (v[i] + dd < 0) al = std::min(al, -v[i] / dd);
            }
            return al;
          };
          Vec es(S(M)), ez(S(M)), zero(S(M), 0.0L);
          for (size_t i = 0; i < S(M); ++i) {
            es[i] = (rel + 1e-12L) * (dxm * amax + std::abs(aff.s[i]) + before.s[i]);
            ez[i] = before.z[i] / before.s[i] * es[i] + 1e-12L * (before.z[i] + std::abs(aff.z[i]));
          }
          const Real pp = ftb(before.s, aff.s, zero, 0), pd = ftb(before.z, aff.z, zero, 0);
          const Real pplo = ftb(before.s, aff.s, es, -1), pphi = ftb(before.s, aff.s, es, 1);
          const Real pdlo = ftb(before.z, aff.z, ez, -1), pdhi = ftb(before.z, aff.z, ez, 1);
          if (!(io.alpha_probe.primal >= pplo - 1e-7L && io.alpha_probe.primal <= pphi + 1e-7L) ||
              !(io.alpha_probe.dual >= pdlo - 1e-7L && io.alpha_probe.dual <= pdhi + 1e-7L))
            R->violation("C05", "probe-alpha", strf("probe alphas %.12g %.12g, affine step gives %.12Lg %.12Lg ", io.alpha_probe.primal, io.alpha_probe.dual, pp, pd) + ctx(k));
          Real truth = 0, inc = 0, scale = 0;
          for (int i = 0; i < M; ++i) {
            const size_t j = S(i);
            truth += (before.s[j] + pp * aff.s[j]) * (before.z[j] + pd * aff.z[j]);
            inc += pd * before.s[j] * aff.z[j] + pp * before.z[j] * aff.s[j] + pp * pd * aff.s[j] * aff.z[j];
            scale += std::abs(before.s[j] * before.z[j]) + std::abs(pd * before.s[j] * aff.z[j]) + std::abs(pp * before.z[j] * aff.s[j]) + std::abs(pp * pd * aff.s[j] * aff.z[j]);
          }
          truth /= M;
          inc /= M;
          scale /= M;
          Real extra = 0;
          for (size_t i = 0; i < S(M); ++i)
            extra += before.s[i] * ez[i] + before.z[i] * es[i] + std::abs(aff.s[i]) * ez[i] + std::abs(aff.z[i]) * es[i];
          const Real tol = 1e-5L * scale + 1e-12L + extra + ((pphi - pplo) + (pdhi - pdlo)) * scale * M;
          R->count("probe-checked");
          if (!mu_in_known) {
            R->count("mu-affine-skipped");
          } else if (!(std::abs(truth - io.mu_affine) <= tol)) {
            const bool seeded = std::abs(std::max<Real>(mu_in + inc, 0) - io.mu_affine) <= tol + 1e-5L * std::abs(mu_in);
            R->violation("C05", seeded ? "pc-mu-affine-seeded-with-mu" : "mu-affine",
                         strf("mu_affine = %.12g, equation (19.21) gives %.12Lg ", io.mu_affine, truth) + ctx(k));
          }
        }
      }

      // --- C05: recorded norms before the step
      if (mu_in_known) {
        const Real vals[4] = {ref::norm(rb.rd), comp_norm(rb, mu_in), ref::norm(rb.rpe), ref::norm(rb.rpi)};
        const double rec[4] = {it.kkt_initial.r_dual, it.kkt_initial.r_comp, it.kkt_initial.r_primal_eq, it.kkt_initial.r_primal_ineq};
        const Real mags[4] = {vec_mag(rb.rd_mag), 0, vec_mag(rb.rpe_mag), vec_mag(rb.rpi_mag)};
        static const char* names[4] = {"r_dual", "r_comp", "r_primal_eq", "r_primal_ineq"};
        for (int w = 0; w < 4; ++w) {
          Real tol = 1e-10L * mags[w] + 1e-9L * vals[w];
          if (w == 1) tol = 1e-9L * vals[w] + 3e-7L * (ref::maxabs(rb.sz) + std::abs(mu_in)) * std::sqrt(static_cast<Real>(M));
          if (!(std::abs(vals[w] - rec[w]) <= tol))
            R->violation("C05", strf("initial-%s", names[w]), strf("recorded %.17g, recomputed %.17Lg ", rec[w], vals[w]) + ctx(k));
        }
      }
    }

    // --- C05: recorded norms after the step
    {
      const Real vals[4] = {ref::norm(ra.rd), mu_in_known ? comp_norm(ra, mu_in) : 0, ref::norm(ra.rpe), ref::norm(ra.rpi)};
      const double rec[4] = {it.kkt_final.r_dual, it.kkt_final.r_comp, it.kkt_final.r_primal_eq, it.kkt_final.r_primal_ineq};
      const Real mags[4] = {vec_mag(ra.rd_mag), 0, vec_mag(ra.rpe_mag), vec_mag(ra.rpi_mag)};
      static const char* names[4] = {"r_dual", "r_comp", "r_primal_eq", "r_primal_ineq"};
      for (int w = 0; w < 4; ++w) {
        if (w == 1 && !mu_in_known) continue;
        Real tol = 1e-10L * mags[w] + 1e-9L * vals[w];
        if (w == 1) tol = 1e-9L * vals[w] + 3e-7L * (ref::maxabs(ra.sz) + std::abs(mu_in)) * std::sqrt(static_cast<Real>(M));
        if (!(std::abs(vals[w] - rec[w]) <= tol))
          R->violation("C05", strf("final-%s", names[w]), strf("recorded %.17g, recomputed %.17Lg ", rec[w], vals[w]) + ctx(k));
      }
      R->count("norms-checked");
    }
    if (k > 0) {
      // records chain: the same point before this step as after the previous one
      const auto& pf = its[k - 1].kkt_final;
      const double a[3] = {pf.r_dual, pf.r_primal_eq, pf.r_primal_ineq};
      const double b[3] = {it.kkt_initial.r_dual, it.kkt_initial.r_primal_eq, it.kkt_initial.r_primal_ineq};
      for (int w = 0; w < 3; ++w)
        if (!(std::abs(a[w] - b[w]) <= 1e-9 * (std::abs(a[w]) + std::abs(b[w])) + 1e-12))
          R->violation("C05", "chain", strf("final norm %.17g, next initial norm %.17g ", a[w], b[w]) + ctx(k));
    }

    // --- C05: barrier parameter schedule
    if (!pc || M == 0) {
      if (mu_in_known && !(std::abs(io.mu - mu_in) <= 1e-9L * std::abs(mu_in) + 1e-300L))
        R->violation("C05", "mu-schedule", strf("mu = %.17g, schedule gives %.17Lg ", io.mu, mu_in) + ctx(k));
      if (!std::isnan(io.mu_affine) || !std::isnan(io.alpha_probe.primal) || !std::isnan(io.alpha_probe.dual))
        R->violation("C05", "probe-present", strf("probe values present outside predictor-corrector mode: %g %g %g ", io.mu_affine, io.alpha_probe.primal, io.alpha_probe.dual) + ctx(k));
    } else {
      if (std::isnan(io.mu_affine) || std::isnan(io.alpha_probe.primal) || std::isnan(io.alpha_probe.dual))
        R->violation("C05", "probe-missing", "probe values missing in predictor-corrector mode " + ctx(k));
      if (!(io.mu_affine >= 0)) R->violation("C05", "mu-affine-negative", strf("mu_affine = %g ", io.mu_affine) + ctx(k));
      if (mu_in_known) {
        const Real f = static_cast<Real>(io.mu_affine) / mu_in;
        const Real expect = f * f * f * mu_in;
        if (!(std::abs(io.mu - expect) <= 1e-8L * std::abs(expect) + 1e-300L))
          R->violation("C05", "pc-sigma", strf("mu = %.17g, equation (19.22) gives %.17Lg (mu_affine %.17g, mu_in %.17Lg) ", io.mu, expect, io.mu_affine, mu_in) + ctx(k));
      }
    }

    // --- C05: stops at the first iteration that meets both tolerances, never goes past it
    {
      const double mx = it.kkt_final.Max();
      const double mx2 = std::max({it.kkt_final.r_dual, it.kkt_final.r_comp, it.kkt_final.r_primal_eq, it.kkt_final.r_primal_ineq});
      (void)mx;
      const bool clear_met = mx2 < p.termination_kkt_tol * (1 - 1e-9) && ra.comp_mean < p.termination_complementarity_tol * (1 - 1e-9L);
      const bool clear_not = mx2 > p.termination_kkt_tol * (1 + 1e-9) || ra.comp_mean > p.termination_complementarity_tol * (1 + 1e-9L);
      const bool last = k + 1 == its.size();
      const bool stopped = last && t.last.termination_state == QPInteriorPointTerminationState::SATISFIED_KKT_TOL;
      if (clear_met && !stopped) R->violation("C05", "missed-stop", "tolerances met but the solver went on " + ctx(k));
      if (clear_not && stopped) R->violation("C05", "premature-stop", "stopped as satisfied although the record does not meet the tolerances " + ctx(k));
      if (stopped) R->count("satisfied");
    }

    // next barrier target
    const Real maxf = std::max({it.kkt_final.r_dual, it.kkt_final.r_comp, it.kkt_final.r_primal_eq, it.kkt_final.r_primal_ineq});
    bool dec = true;
    bool dec_sure = true;
    if (p.decrease_mu_only_on_small_error) {
      if (!mu_in_known)
        dec_sure = false;
      else {
        dec = maxf <= mu_in;
        if (std::abs(maxf - mu_in) <= 1e-9L * std::abs(mu_in)) dec_sure = false;
      }
    }
    if (!dec_sure) {
      mu_in_known = false;
    } else if (dec) {
      if (p.barrier_strategy == BarrierStrategy::FIXED_DECREASE) {
        mu_in = mu_in * p.sigma;
      } else {
        mu_in = p.sigma * ra.comp_mean;
        mu_in_known = true;
      }
    }
  }

  // --- C05: multiplier summary
  for (size_t i = 0; i < t.outs.size(); ++i) {
    if (!t.v[i + 1].allFinite()) continue;
    const auto& lm = t.outs[i].lagrange_multipliers;
    if (lm.has_value() != (K > 0)) {
      R->violation("C05", "multiplier-summary", strf("summary present=%d with %d equality constraints ", lm.has_value(), K) + ctx(i));
    } else if (lm) {
      const gq::Point pt = gq::split(q, t.v[i + 1]);
      Real mn = pt.y[0], mx = 0;
      for (Real y : pt.y) {
        mn = std::min(mn, y);
        mx = std::max(mx, std::abs(y));
      }
      if (static_cast<Real>(lm->min) != mn || static_cast<Real>(lm->l_infinity) != mx)
        R->violation("C05", "multiplier-summary", strf("min %.17g l_inf %.17g but y = ", lm->min, lm->l_infinity) + show(pt.y) + " " + ctx(i));
      R->count("multiplier-summaries");
    }
  }
  if (!its.empty()) R->sample(strf("%zu iterations followed, ", its.size()) + describe(p) + " " + gq::describe(q));
}

// ---------------------------------------------------------------------------------------------
// C30: where the solver starts, and that (x, s, y, z) together with mu is all it carries along.
static bool same_vec(const Eigen::VectorXd& a, const Eigen::VectorXd& b) {
  if (a.rows() != b.rows()) return false;
  for (Eigen::Index i = 0; i < a.rows(); ++i)
    if (!vh::same_value(a[i], b[i])) return false;
  return true;
}

static std::string show(const Eigen::VectorXd& e) {
  Vec v;
  for (Eigen::Index i = 0; i < e.rows(); ++i) v.push_back(e[i]);
  return show(v);
}

// The documented starting point in long double. `margin`: how far every decision is from flipping.
static bool documented_start(const QP& q, InitialGuessMethod method, Eigen::VectorXd* v0, Real* xtol) {
  const int N = gq::dimN(q), M = gq::dimM(q), K = gq::dimK(q);
  Vec x(S(N), 0.0L), y(S(K), 0.0L);
  *xtol = 0;
  if (method == InitialGuessMethod::SOLVE_EQUALITY_CONSTRAINED) {
    ref::Mat H(N + K, N + K);
    Vec b(S(N + K));
    Real hmax = 0;
    for (int i = 0; i < N; ++i) {
      for (int j = 0; j < N; ++j) H(i, j) = gq::Gat(q, i, j);
      for (int k = 0; k < K; ++k) H(i, N + k) = H(N + k, i) = q.A_eq(k, i);
      b[S(i)] = -q.c[i];
    }
    for (int k = 0; k < K; ++k) b[S(N + k)] = -q.b_eq[k];
    for (Real e : H.d) hmax = std::max(hmax, std::abs(e));
    const Vec eig = ref::eigenvalues(H);
    Real lo = 1e300L;
    for (Real e : eig) lo = std::min(lo, std::abs(e));
    if (!(lo > 1e-6L * hmax)) return false;
    const auto sol = ref::solve(H, b);
    if (!sol) return false;
    for (int i = 0; i < N; ++i) x[S(i)] = (*sol)[S(i)];
    for (int k = 0; k < K; ++k) y[S(k)] = -(*sol)[S(N + k)];  // stationarity is G x + c - A^T y = 0
    *xtol = 1e-13L * (hmax / lo) * (1 + ref::maxabs(*sol));
  }
  for (const auto& c : q.constraints) {
    const Real bound = -static_cast<Real>(c.b) / static_cast<Real>(c.a);
    Real& xi = x[S(c.variable)];
    if (std::abs(xi - bound) < 1e-7L * (1 + std::abs(bound)) && xi != bound && *xtol > 0) return false;
    xi = c.a < 0 ? std::min(xi, bound) : std::max(xi, bound);
  }
  v0->resize(N + 2 * M + K);
  for (int i = 0; i < N; ++i) (*v0)[i] = static_cast<double>(x[S(i)]);
  for (int i = 0; i < M; ++i) {
    const auto& c = q.constraints[S(i)];
    Real s = static_cast<Real>(c.a) * x[S(c.variable)] + c.b;
    if (!(s > -1e-12L * (1 + std::abs(static_cast<Real>(c.b))))) return false;  // no point satisfies all the bounds
    // A constraint x was clamped to has a slack of rounding errors, which the minimum of 1e-9 replaces.
    if (s < 1e-11L) s = 0;
    if (s > 0 && s < 1e-6L) return false;
    s = std::max(s, 1e-9L);
    (*v0)[N + i] = static_cast<double>(s);
    (*v0)[N + M + K + i] = static_cast<double>(1 / s);
  }
  for (int k = 0; k < K; ++k) (*v0)[N + M + k] = static_cast<double>(y[S(k)]);
  return true;
}

static void case_guess(vh::Rng& rng) {
  const int nmax = large(rng, 0.003) ? 24 : 7;
  gq::Case cs = rng.chance(0.5) ? gq::known_solution(rng, nmax, 1e3) : gq::random_feasible(rng, nmax, true);
  const QP& q = cs.qp;
  const int N = gq::dimN(q), M = gq::dimM(q), K = gq::dimK(q);
  Params p;
  p.initial_mu = rng.chance(0.4) ? 1.0 : rng.logu(1e-2, 5.0);
  p.sigma = rng.uni(0.05, 0.9);
  p.termination_kkt_tol = 1e-12;
  p.termination_complementarity_tol = 1e-12;
  p.barrier_strategy = pick_strategy(rng);
  p.decrease_mu_only_on_small_error = rng.chance(0.2);
  p.initialize_mu_with_complementarity = rng.chance(0.5);
  const bool pc = p.barrier_strategy == BarrierStrategy::PREDICTOR_CORRECTOR;
  const std::string tail = cs.family + " | " + describe(p) + " | " + gq::describe(q);

  try {
    // --- the two computed guesses
    for (const InitialGuessMethod method : {InitialGuessMethod::NAIVE, InitialGuessMethod::SOLVE_EQUALITY_CONSTRAINED}) {
      const bool naive = method == InitialGuessMethod::NAIVE;
      const char* mname = naive ? "NAIVE" : "SOLVE_EQUALITY_CONSTRAINED";
      Eigen::VectorXd v0;
      Real xtol = 0;
      if (!documented_start(q, method, &v0, &xtol)) {
        R->count(std::string("guess-skipped:") + mname);
        continue;
      }
      const gq::Point p0 = gq::split(q, v0);
      const gq::Residuals r0 = gq::kkt(q, p0);
      Params pm = p;
      pm.initial_guess_method = method;
      pm.max_iterations = 1;
      QPInteriorPointSolver s(&q);
      // whatever is stored must not matter
      if (rng.chance(0.5)) s.SetVariables(Eigen::VectorXd::Constant(N + 2 * M + K, rng.chance(0.5) ? std::nan("") : rng.uni(-9, 9)));
      const auto out = s.Solve(pm);
      const auto& it = out.iterations.at(0);
      const Real mu0 = M == 0 && p.initialize_mu_with_complementarity ? 0.0L : p.initialize_mu_with_complementarity ? 1.0L : static_cast<Real>(p.initial_mu);
      R->count(std::string("guess:") + mname + (K ? "+eq" : "") + (M ? "+ineq" : ""));
      bool clamped = false;
      Real smin = 1e300L, zmax = 0;
      for (int i = 0; i < M; ++i) {
        clamped = clamped || v0[N + i] <= 1.1e-9;
        smin = std::min(smin, p0.s[S(i)]);
        zmax = std::max(zmax, p0.z[S(i)]);
      }
      if (clamped) R->count(std::string("clamped:") + mname);
      R->distinct(vh::hash_doubles(v0.data(), v0.rows()));
      auto bad = [&](const char* key, const std::string& what) {
        R->violation("C30", key, what + " | " + mname + " start " + show(v0) + " | " + tail);
      };
      // mu = (s' z) / M = 1 because z = 1 / s
      if (!pc && !(std::abs(it.ip_outputs.mu - mu0) <= 1e-9L * mu0))
        bad("guess-mu", strf("first barrier parameter %.17g, expected %.17Lg", it.ip_outputs.mu, mu0));
      // KKT conditions at the start. Rounding of x moves the slacks, and z = 1/s moves with them.
      Real gmax = 0, amax = 0;
      for (int i = 0; i < N; ++i)
        for (int j = 0; j < N; ++j) gmax = std::max(gmax, std::abs(gq::Gat(q, i, j)));
      for (const auto& c : q.constraints) amax = std::max(amax, std::abs(static_cast<Real>(c.a)));
      Real zslack = 0;
      for (int i = 0; i < M; ++i)
        if (p0.s[S(i)] > 1.1e-9L)
          zslack += std::abs(static_cast<Real>(q.constraints[S(i)].a)) * p0.z[S(i)] * p0.z[S(i)] *
                    (amax * xtol + 1e-15L * (1 + std::abs(static_cast<Real>(q.constraints[S(i)].b)) * 2));
      const Real vals[4] = {ref::norm(r0.rd), comp_norm(r0, mu0), ref::norm(r0.rpe), 0.0L};
      const double rec[4] = {it.kkt_initial.r_dual, it.kkt_initial.r_comp, it.kkt_initial.r_primal_eq, it.kkt_initial.r_primal_ineq};
      const Real ytol = 100 * xtol * (1 + gmax);
      Real clampi = 0;  // the slack of a clamped constraint is 1e-9 although the constraint's value is 0
      for (int i = 0; i < M; ++i)
        if (p0.s[S(i)] <= 1.1e-9L) clampi += 1e-18L;
      const Real tol[4] = {1e-12L * vec_mag(r0.rd_mag) + N * gmax * xtol + ytol * 4 + zslack,
                           1e-6L * (1 + mu0) * std::sqrt(static_cast<Real>(M)),
                           1e-12L * vec_mag(r0.rpe_mag) + N * 4 * xtol, std::sqrt(clampi) * 1.01L + 1e-11L * vec_mag(r0.rpi_mag)};
      static const char* names[4] = {"r_dual", "r_comp", "r_primal_eq", "r_primal_ineq"};
      for (int w = 0; w < 4; ++w)
        if (!(std::abs(vals[w] - rec[w]) <= tol[w]))
          bad((std::string("guess-") + names[w]).c_str(), strf("initial %s is %.17g, at the documented starting point it is %.17Lg (tol %Lg)", names[w], rec[w], vals[w], tol[w]));
      // The first iterate must be the one that this starting point leads to.
      const Real condish = 1 + zmax / std::max<Real>(smin, 1e-30L) * amax * amax + gmax;
      // (At the unconstrained minimizer the predictor lands exactly on z = 0, where alpha jumps.)
      if (smin > 1e-3L && zmax < 1e3L && xtol < 1e-9L && (naive || !pc)) {
        Params pu = pm;
        pu.initial_guess_method = InitialGuessMethod::USER_PROVIDED;
        QPInteriorPointSolver u(&q);
        u.SetVariables(v0);
        const auto uo = u.Solve(pu);
        (void)uo;
        const double scale = 1 + u.variables().cwiseAbs().maxCoeff();
        const Real t = (1e-11L + 10 * xtol) * condish * scale;
        if (t < 1e-3L * scale) {
          R->count("first-iterate-compared");
          const double d = (u.variables() - s.variables()).cwiseAbs().maxCoeff();
          R->maxval("first-iterate-diff/tol", static_cast<double>(d / t));
          if (!(d <= t)) bad("guess-first-iterate", strf("the first iterate differs by %g from the one the documented start leads to", d));
        }
      }
    }

    // --- a provided start is used as it is, however it was stored
    const Eigen::VectorXd start = user_start(rng, q, rng.chance(0.5), rng.chance(0.7));
    Params pu = p;
    pu.initial_guess_method = InitialGuessMethod::USER_PROVIDED;
    const int n = rng.irange(2, 9);
    pu.max_iterations = n;
    QPInteriorPointSolver a(&q);
    a.SetVariables(start);
    if (!same_vec(a.variables(), start)) R->violation("C30", "set-variables", "variables() differs from what SetVariables was given | " + tail);
    const auto full = a.Solve(pu);
    {
      QPInteriorPointSolver b;
      b.Setup(&q);
      b.x_block() = start.head(N);
      b.z_block() = start.tail(M);
      b.s_block() = start.segment(N, M);
      b.y_block() = start.segment(N + M, K);
      if (!same_vec(b.variables(), start)) R->violation("C30", "blocks", "writing the blocks gives " + show(b.variables()) + " instead of " + show(start) + " | " + tail);
      const auto o = b.Solve(pu);
      if (!same_vec(a.variables(), b.variables()) || o.iterations.size() != full.iterations.size())
        R->violation("C30", "blocks-start", "a start stored through the blocks leads elsewhere | " + tail);
      R->count("stored-starts");
    }
    // --- the same iterations one at a time: only the variables and mu are carried along
    if (!pc || M == 0) {
      Eigen::VectorXd v = start;
      QPInteriorPointSolver same(&q);
      same.SetVariables(start);
      for (size_t k = 0; k < full.iterations.size(); ++k) {
        Params one = pu;
        one.max_iterations = 1;
        one.initialize_mu_with_complementarity = M == 0 && p.initialize_mu_with_complementarity;
        one.initial_mu = full.iterations[k].ip_outputs.mu;
        if (!(one.initial_mu > 0)) one.initial_mu = 1;
        QPInteriorPointSolver c(&q);
        c.SetVariables(v);
        (void)c.Solve(one);
        v = c.variables();
        (void)same.Solve(one);
      }
      R->count("resumed");
      if (!same_vec(v, a.variables()))
        R->violation("C30", "resume", strf("%zu single iterations from stored points differ from one solve: ", full.iterations.size()) + show(v) + " vs " + show(a.variables()) + " | start " + show(start) + " | " + tail);
      if (!same_vec(same.variables(), a.variables()))
        R->violation("C30", "resume-same", strf("%zu single iterations of the same solver differ from one solve: ", full.iterations.size()) + show(same.variables()) + " vs " + show(a.variables()) + " | start " + show(start) + " | " + tail);
    } else {
      // mu of the predictor-corrector is not on record, but with initialize_mu each solve starts from s' z
      Eigen::VectorXd v = start;
      QPInteriorPointSolver same(&q);
      same.SetVariables(start);
      Params one = pu;
      one.max_iterations = 1;
      one.initialize_mu_with_complementarity = true;
      Params two = one;
      two.max_iterations = 2;
      two.sigma = 1;
      two.decrease_mu_only_on_small_error = false;
      QPInteriorPointSolver d(&q);
      d.SetVariables(start);
      const auto o2 = d.Solve(two);
      for (size_t k = 0; k < o2.iterations.size(); ++k) (void)same.Solve(one);
      R->count("resumed-pc");
      if (!same_vec(same.variables(), d.variables()))
        R->violation("C30", "resume-pc", "two single predictor-corrector iterations differ from one solve: " + show(same.variables()) + " vs " + show(d.variables()) + " | start " + show(start) + " | " + tail);
    }
    R->sample(strf("%zu iterations resumed, ", full.iterations.size()) + tail);
  } catch (const FailedFactorization&) {
    R->count("failed-factorization");
  } catch (const assert::default_error& e) {
    R->count("assertion");
    if (std::string(e.what()).find("slack") == std::string::npos) R->violation("C30", "assertion", std::string(e.what()) + " | " + tail);
  }
}

int main(int argc, char** argv) {
  const vh::Args args = vh::Args::parse(argc, argv);
  const std::string mode = args.get("mode", "follow");
  vh::Reporter rep(args, "qp-" + mode);
  R = &rep;
  vh::run_cases(rep, [&](long, uint64_t seed) {
    vh::Rng rng(seed);
    if (mode == "c01")
      case_C01(rng);
    else if (mode == "c02")
      case_C02(rng);
    else if (mode == "guess")
      case_guess(rng);
    else
      case_follow(rng);
  });
  conv_verdict(args.only >= 0);
  return rep.finish();
}
