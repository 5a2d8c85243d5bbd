// Random result objects: every field takes arbitrary values, including those no solver would produce.
#pragma once
#include "mini_opt/structs.hpp"
#include "vh.hpp"

namespace og {
using namespace mini_opt;
using vh::Rng;

// Any double: all magnitudes, integers, halves, denormals, random bit patterns; non-finite on request.
inline double any_double(Rng& rng, bool nonfinite = true) {
  switch (rng.irange(0, 11)) {
    case 0:
      return 0.0;
    case 1:
      return rng.irange(-5, 5);
    case 2:
      return rng.sgn() * rng.logu(1e-12, 1e12);
    case 3:
      return rng.sgn() * rng.logu(1e-300, 1e300);
    case 4: {
      for (;;) {
        const uint64_t b = rng.next();
        double d;
        std::memcpy(&d, &b, 8);
        if (std::isfinite(d)) return d;
      }
    }
    case 5: {
      const double v[] = {-0.0, 4.9406564584124654e-324, -2.2250738585072014e-308, 1.7976931348623157e308, -1.7976931348623157e308,
                          9007199254740993.0, 1e22, 1e-7, 0.1, 1e16, 123456789012345680.0, 5e-324, 16777217.0, 4294967296.0};
      return v[rng.irange(0, 13)];
    }
    case 6:
      return static_cast<double>(static_cast<float>(rng.normal() * rng.logu(1e-30, 1e30)));
    case 7:
      return static_cast<double>(static_cast<int64_t>(rng.next()));
    case 8:
      if (nonfinite) {
        const double v[] = {std::nan(""), HUGE_VAL, -HUGE_VAL};
        return v[rng.irange(0, 2)];
      }
      return 1.0;
    default:
      return rng.normal();
  }
}

struct Opt {
  bool nonfinite = true;
  int max_iterations = 4;
  int max_inner = 4;
  int max_steps = 4;
};

inline QPInteriorPointSolverOutputs any_ip(Rng& rng, const Opt& o) {
  auto d = [&] { return any_double(rng, o.nonfinite); };
  std::vector<QPInteriorPointIteration> its;
  const int n = rng.irange(0, o.max_inner);
  for (int i = 0; i < n; ++i) {
    KKTError a, b;
    a.r_dual = d(), a.r_comp = d(), a.r_primal_eq = d(), a.r_primal_ineq = d();
    b.r_dual = d(), b.r_comp = d(), b.r_primal_eq = d(), b.r_primal_ineq = d();
    IPIterationOutputs ip;
    ip.mu = d();
    ip.alpha.primal = d();
    ip.alpha.dual = d();
    if (rng.chance(0.5)) {
      ip.alpha_probe.primal = d();
      ip.alpha_probe.dual = d();
      ip.mu_affine = d();
    }
    its.emplace_back(a, b, ip);
  }
  std::optional<QPLagrangeMultipliers> lm;
  if (rng.chance(0.5)) {
    QPLagrangeMultipliers l;
    l.min = d();
    l.l_infinity = d();
    lm = l;
  }
  return QPInteriorPointSolverOutputs(static_cast<QPInteriorPointTerminationState>(rng.irange(0, 1)), std::move(its), lm);
}

inline NLSIteration any_iteration(Rng& rng, const Opt& o) {
  auto d = [&] { return any_double(rng, o.nonfinite); };
  int number = rng.irange(0, 50);
  if (rng.chance(0.1)) number = rng.chance(0.5) ? 2147483647 : -2147483647 - 1;
  Errors e;
  e.f = d();
  e.equality = d();
  std::optional<QPEigenvalues> ev;
  if (rng.chance(0.5)) {
    QPEigenvalues v;
    v.min = d();
    v.max = d();
    v.abs_min = d();
    ev = v;
  }
  DirectionalDerivatives dd;
  dd.d_f = d();
  dd.d_equality = d();
  std::vector<LineSearchStep> steps;
  const int n = rng.irange(0, o.max_steps);
  for (int i = 0; i < n; ++i) {
    LineSearchStep s;
    s.alpha = d();
    s.errors.f = d();
    s.errors.equality = d();
    steps.push_back(s);
  }
  std::variant<QPNullSpaceTerminationState, QPInteriorPointSolverOutputs> qp;
  if (rng.chance(0.35))
    qp = static_cast<QPNullSpaceTerminationState>(rng.irange(0, 1));
  else
    qp = any_ip(rng, o);
  return NLSIteration(number, static_cast<OptimizerState>(rng.irange(0, 1)), d(), e, std::move(qp), ev, dd, d(),
                      static_cast<StepSizeSelectionResult>(rng.irange(0, 5)), std::move(steps));
}

inline NLSSolverOutputs any_outputs(Rng& rng, const Opt& o = {}) {
  std::vector<NLSIteration> its;
  const int n = rng.irange(0, o.max_iterations);
  for (int i = 0; i < n; ++i) its.push_back(any_iteration(rng, o));
  return NLSSolverOutputs(static_cast<NLSTerminationState>(rng.irange(0, 6)), std::move(its));
}

// Calls f for every double in the result.
template <typename F>
void for_doubles(QPInteriorPointSolverOutputs& o, F&& f) {
  for (auto& it : o.iterations) {
    for (KKTError* k : {&it.kkt_initial, &it.kkt_final}) f(k->r_dual), f(k->r_comp), f(k->r_primal_eq), f(k->r_primal_ineq);
    f(it.ip_outputs.mu), f(it.ip_outputs.mu_affine);
    for (AlphaValues* a : {&it.ip_outputs.alpha, &it.ip_outputs.alpha_probe}) f(a->primal), f(a->dual);
  }
  if (o.lagrange_multipliers) f(o.lagrange_multipliers->min), f(o.lagrange_multipliers->l_infinity);
}
template <typename F>
void for_doubles(NLSSolverOutputs& o, F&& f) {
  for (auto& it : o.iterations) {
    f(it.lambda), f(it.errors_initial.f), f(it.errors_initial.equality), f(it.penalty);
    f(it.directional_derivatives.d_f), f(it.directional_derivatives.d_equality);
    if (it.qp_eigenvalues) f(it.qp_eigenvalues->min), f(it.qp_eigenvalues->max), f(it.qp_eigenvalues->abs_min);
    if (auto* ip = std::get_if<QPInteriorPointSolverOutputs>(&it.qp_outputs)) for_doubles(*ip, f);
    for (auto& s : it.line_search_steps) f(s.alpha), f(s.errors.f), f(s.errors.equality);
  }
}

// The documented names, by value.
inline const char* name(InitialGuessMethod v) {
  switch (v) {
    case InitialGuessMethod::NAIVE: return "NAIVE";
    case InitialGuessMethod::SOLVE_EQUALITY_CONSTRAINED: return "SOLVE_EQUALITY_CONSTRAINED";
    case InitialGuessMethod::USER_PROVIDED: return "USER_PROVIDED";
  }
  return "?";
}
inline const char* name(QPInteriorPointTerminationState v) {
  switch (v) {
    case QPInteriorPointTerminationState::SATISFIED_KKT_TOL: return "SATISFIED_KKT_TOL";
    case QPInteriorPointTerminationState::MAX_ITERATIONS: return "MAX_ITERATIONS";
  }
  return "?";
}
inline const char* name(QPNullSpaceTerminationState v) {
  switch (v) {
    case QPNullSpaceTerminationState::SUCCESS: return "SUCCESS";
    case QPNullSpaceTerminationState::NOT_POSITIVE_DEFINITE: return "NOT_POSITIVE_DEFINITE";
  }
  return "?";
}
inline const char* name(LineSearchStrategy v) {
  switch (v) {
    case LineSearchStrategy::ARMIJO_BACKTRACK: return "ARMIJO_BACKTRACK";
    case LineSearchStrategy::POLYNOMIAL_APPROXIMATION: return "POLYNOMIAL_APPROXIMATION";
  }
  return "?";
}
inline const char* name(OptimizerState v) {
  switch (v) {
    case OptimizerState::NOMINAL: return "NOMINAL";
    case OptimizerState::ATTEMPTING_RESTORE_LM: return "ATTEMPTING_RESTORE_LM";
  }
  return "?";
}
inline const char* name(StepSizeSelectionResult v) {
  switch (v) {
    case StepSizeSelectionResult::SUCCESS: return "SUCCESS";
    case StepSizeSelectionResult::MAX_ITERATIONS: return "MAX_ITERATIONS";
    case StepSizeSelectionResult::FIRST_ORDER_SATISFIED: return "FIRST_ORDER_SATISFIED";
    case StepSizeSelectionResult::POSITIVE_DERIVATIVE: return "POSITIVE_DERIVATIVE";
    case StepSizeSelectionResult::FAILURE_NON_FINITE_COST: return "FAILURE_NON_FINITE_COST";
    case StepSizeSelectionResult::FAILURE_INVALID_ALPHA: return "FAILURE_INVALID_ALPHA";
  }
  return "?";
}
inline const char* name(NLSTerminationState v) {
  switch (v) {
    case NLSTerminationState::MAX_ITERATIONS: return "MAX_ITERATIONS";
    case NLSTerminationState::SATISFIED_ABSOLUTE_TOL: return "SATISFIED_ABSOLUTE_TOL";
    case NLSTerminationState::SATISFIED_RELATIVE_TOL: return "SATISFIED_RELATIVE_TOL";
    case NLSTerminationState::SATISFIED_FIRST_ORDER_TOL: return "SATISFIED_FIRST_ORDER_TOL";
    case NLSTerminationState::MAX_LAMBDA: return "MAX_LAMBDA";
    case NLSTerminationState::QP_INDEFINITE: return "QP_INDEFINITE";
    case NLSTerminationState::USER_CALLBACK: return "USER_CALLBACK";
  }
  return "?";
}
}  // namespace og
