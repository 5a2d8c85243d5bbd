// Field by field comparison of result objects. Returns the first difference, or "".
#pragma once
#include "mini_opt/structs.hpp"
#include "vh.hpp"

namespace cmp {
using namespace mini_opt;
using vh::strf;

inline std::string num(const std::string& name, double a, double b) {
  if (vh::same_value(a, b)) return "";
  return strf("%s: %.17g vs %.17g", name.c_str(), a, b);
}
template <typename T>
std::string ord(const std::string& name, T a, T b) {
  if (a == b) return "";
  return strf("%s: %lld vs %lld", name.c_str(), static_cast<long long>(a), static_cast<long long>(b));
}
#define CMP_TRY(expr)            \
  do {                           \
    std::string r_ = (expr);     \
    if (!r_.empty()) return r_;  \
  } while (false)

inline std::string diff(const std::string& n, const AlphaValues& a, const AlphaValues& b) {
  CMP_TRY(num(n + ".primal", a.primal, b.primal));
  return num(n + ".dual", a.dual, b.dual);
}
inline std::string diff(const std::string& n, const KKTError& a, const KKTError& b) {
  CMP_TRY(num(n + ".r_dual", a.r_dual, b.r_dual));
  CMP_TRY(num(n + ".r_comp", a.r_comp, b.r_comp));
  CMP_TRY(num(n + ".r_primal_eq", a.r_primal_eq, b.r_primal_eq));
  return num(n + ".r_primal_ineq", a.r_primal_ineq, b.r_primal_ineq);
}
inline std::string diff(const std::string& n, const QPInteriorPointIteration& a, const QPInteriorPointIteration& b) {
  CMP_TRY(diff(n + ".kkt_initial", a.kkt_initial, b.kkt_initial));
  CMP_TRY(diff(n + ".kkt_final", a.kkt_final, b.kkt_final));
  CMP_TRY(num(n + ".mu", a.ip_outputs.mu, b.ip_outputs.mu));
  CMP_TRY(diff(n + ".alpha", a.ip_outputs.alpha, b.ip_outputs.alpha));
  CMP_TRY(diff(n + ".alpha_probe", a.ip_outputs.alpha_probe, b.ip_outputs.alpha_probe));
  return num(n + ".mu_affine", a.ip_outputs.mu_affine, b.ip_outputs.mu_affine);
}
inline std::string diff(const std::string& n, const QPInteriorPointSolverOutputs& a, const QPInteriorPointSolverOutputs& b) {
  CMP_TRY(ord(n + ".termination_state", a.termination_state, b.termination_state));
  CMP_TRY(ord(n + ".iterations.size", a.iterations.size(), b.iterations.size()));
  for (size_t i = 0; i < a.iterations.size(); ++i)
    CMP_TRY(diff(n + strf(".iterations[%zu]", i), a.iterations[i], b.iterations[i]));
  CMP_TRY(ord(n + ".lagrange_multipliers.has_value", a.lagrange_multipliers.has_value(), b.lagrange_multipliers.has_value()));
  if (a.lagrange_multipliers) {
    CMP_TRY(num(n + ".lagrange_multipliers.min", a.lagrange_multipliers->min, b.lagrange_multipliers->min));
    CMP_TRY(num(n + ".lagrange_multipliers.l_infinity", a.lagrange_multipliers->l_infinity, b.lagrange_multipliers->l_infinity));
  }
  return "";
}
inline std::string diff(const std::string& n, const Errors& a, const Errors& b) {
  CMP_TRY(num(n + ".f", a.f, b.f));
  return num(n + ".equality", a.equality, b.equality);
}
inline std::string diff(const std::string& n, const NLSIteration& a, const NLSIteration& b) {
  CMP_TRY(ord(n + ".iteration", a.iteration, b.iteration));
  CMP_TRY(ord(n + ".optimizer_state", a.optimizer_state, b.optimizer_state));
  CMP_TRY(num(n + ".lambda", a.lambda, b.lambda));
  CMP_TRY(diff(n + ".errors_initial", a.errors_initial, b.errors_initial));
  CMP_TRY(ord(n + ".qp_outputs.index", a.qp_outputs.index(), b.qp_outputs.index()));
  if (a.qp_outputs.index() == 0)
    CMP_TRY(ord(n + ".qp_outputs", std::get<0>(a.qp_outputs), std::get<0>(b.qp_outputs)));
  else
    CMP_TRY(diff(n + ".qp_outputs", std::get<1>(a.qp_outputs), std::get<1>(b.qp_outputs)));
  CMP_TRY(ord(n + ".qp_eigenvalues.has_value", a.qp_eigenvalues.has_value(), b.qp_eigenvalues.has_value()));
  if (a.qp_eigenvalues) {
    CMP_TRY(num(n + ".qp_eigenvalues.min", a.qp_eigenvalues->min, b.qp_eigenvalues->min));
    CMP_TRY(num(n + ".qp_eigenvalues.max", a.qp_eigenvalues->max, b.qp_eigenvalues->max));
    CMP_TRY(num(n + ".qp_eigenvalues.abs_min", a.qp_eigenvalues->abs_min, b.qp_eigenvalues->abs_min));
  }
  CMP_TRY(num(n + ".directional_derivatives.d_f", a.directional_derivatives.d_f, b.directional_derivatives.d_f));
  CMP_TRY(num(n + ".directional_derivatives.d_equality", a.directional_derivatives.d_equality, b.directional_derivatives.d_equality));
  CMP_TRY(num(n + ".penalty", a.penalty, b.penalty));
  CMP_TRY(ord(n + ".step_result", a.step_result, b.step_result));
  CMP_TRY(ord(n + ".line_search_steps.size", a.line_search_steps.size(), b.line_search_steps.size()));
  for (size_t i = 0; i < a.line_search_steps.size(); ++i) {
    const std::string m = n + strf(".line_search_steps[%zu]", i);
    CMP_TRY(num(m + ".alpha", a.line_search_steps[i].alpha, b.line_search_steps[i].alpha));
    CMP_TRY(diff(m + ".errors", a.line_search_steps[i].errors, b.line_search_steps[i].errors));
  }
  return "";
}
inline std::string diff(const std::string& n, const NLSSolverOutputs& a, const NLSSolverOutputs& b) {
  CMP_TRY(ord(n + ".termination_state", a.termination_state, b.termination_state));
  CMP_TRY(ord(n + ".iterations.size", a.iterations.size(), b.iterations.size()));
  for (size_t i = 0; i < a.iterations.size(); ++i) CMP_TRY(diff(n + strf(".iterations[%zu]", i), a.iterations[i], b.iterations[i]));
  return "";
}
inline std::string diff_vec(const std::string& n, const Eigen::VectorXd& a, const Eigen::VectorXd& b) {
  CMP_TRY(ord(n + ".rows", a.rows(), b.rows()));
  for (Eigen::Index i = 0; i < a.rows(); ++i) CMP_TRY(num(n + strf("[%ld]", static_cast<long>(i)), a[i], b[i]));
  return "";
}

inline uint64_t hash(const QPInteriorPointSolverOutputs& o) {
  uint64_t h = vh::mix64(static_cast<uint64_t>(o.termination_state) + 3 * o.iterations.size());
  for (auto& it : o.iterations) {
    const double d[4] = {it.kkt_final.r_dual, it.kkt_final.r_comp, it.ip_outputs.mu, it.ip_outputs.alpha.primal};
    h = vh::hash_doubles(d, 4, h);
  }
  return h;
}
inline uint64_t hash(const NLSSolverOutputs& o) {
  uint64_t h = vh::mix64(static_cast<uint64_t>(o.termination_state) + 3 * o.iterations.size());
  for (auto& it : o.iterations) {
    const double d[4] = {it.lambda, it.errors_initial.f, it.errors_initial.equality, it.directional_derivatives.d_f};
    h = vh::hash_doubles(d, 4, h);
    if (it.qp_outputs.index() == 1) h = vh::mix64(h ^ hash(std::get<1>(it.qp_outputs)));
    for (auto& s : it.line_search_steps) h = vh::hash_doubles(&s.alpha, 1, h);
  }
  return h;
}
}  // namespace cmp
