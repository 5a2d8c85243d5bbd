// C23: results survive JSON. C24: documents that are not results are rejected with a JSON exception.
#include <nlohmann/json.hpp>

#include "cmp.hpp"
#include "mini_opt/nonlinear.hpp"
#include "mini_opt/serialization.hpp"
#include "nlsgen.hpp"
#include "outgen.hpp"

using namespace mini_opt;
using json = nlohmann::json;
using vh::Rng;
using vh::strf;

static vh::Reporter* R;

// ---- the document a result stands for, written down independently of the library
static json exp_(const Errors& e) { return {{"f", e.f}, {"equality", e.equality}}; }
static json exp_(const AlphaValues& a) { return {{"primal", a.primal}, {"dual", a.dual}}; }
static json exp_(const KKTError& k) {
  return {{"r_dual", k.r_dual}, {"r_comp", k.r_comp}, {"r_primal_eq", k.r_primal_eq}, {"r_primal_ineq", k.r_primal_ineq}};
}
static json exp_(const QPInteriorPointSolverOutputs& o) {
  json its = json::array();
  for (auto& it : o.iterations)
    its.push_back({{"kkt_initial", exp_(it.kkt_initial)},
                   {"kkt_final", exp_(it.kkt_final)},
                   {"ip_outputs",
                    {{"mu", it.ip_outputs.mu},
                     {"alpha", exp_(it.ip_outputs.alpha)},
                     {"alpha_probe", exp_(it.ip_outputs.alpha_probe)},
                     {"mu_affine", it.ip_outputs.mu_affine}}}});
  json lm = nullptr;
  if (o.lagrange_multipliers) lm = {{"min", o.lagrange_multipliers->min}, {"l_infinity", o.lagrange_multipliers->l_infinity}};
  return {{"termination_state", og::name(o.termination_state)}, {"iterations", its}, {"lagrange_multipliers", lm}};
}
static json exp_(const NLSSolverOutputs& o) {
  json its = json::array();
  for (auto& it : o.iterations) {
    json ev = nullptr;
    if (it.qp_eigenvalues) ev = {{"min", it.qp_eigenvalues->min}, {"max", it.qp_eigenvalues->max}, {"abs_min", it.qp_eigenvalues->abs_min}};
    json qp;
    if (it.qp_outputs.index() == 0)
      qp = og::name(std::get<0>(it.qp_outputs));
    else
      qp = exp_(std::get<1>(it.qp_outputs));
    json steps = json::array();
    for (auto& s : it.line_search_steps) steps.push_back({{"alpha", s.alpha}, {"errors", exp_(s.errors)}});
    its.push_back({{"iteration", it.iteration},
                   {"optimizer_state", og::name(it.optimizer_state)},
                   {"lambda", it.lambda},
                   {"errors_initial", exp_(it.errors_initial)},
                   {"qp_outputs", qp},
                   {"qp_eigenvalues", ev},
                   {"directional_derivatives", {{"d_f", it.directional_derivatives.d_f}, {"d_equality", it.directional_derivatives.d_equality}}},
                   {"penalty", it.penalty},
                   {"step_result", og::name(it.step_result)},
                   {"line_search_steps", steps}});
  }
  return {{"termination_state", og::name(o.termination_state)}, {"iterations", its}};
}

static bool finite_number(const json& j) { return j.is_number() && (!j.is_number_float() || std::isfinite(j.get<double>())); }
static bool nonfinite(const json& j) { return j.is_null() || (j.is_number_float() && !std::isfinite(j.get<double>())); }

// First difference between the expected document and the actual one, which may have further keys.
static std::string diff_doc(const json& want, const json& got, const std::string& at) {
  if (want.is_object()) {
    if (!got.is_object()) return at + ": not an object";
    for (auto it = want.begin(); it != want.end(); ++it) {
      if (!got.contains(it.key())) return at + "." + it.key() + ": missing";
      const std::string d = diff_doc(it.value(), got.at(it.key()), at + "." + it.key());
      if (!d.empty()) return d;
    }
    return "";
  }
  if (want.is_array()) {
    if (!got.is_array() || got.size() != want.size()) return at + ": not an array of the same size";
    for (size_t i = 0; i < want.size(); ++i) {
      const std::string d = diff_doc(want[i], got[i], at + strf("[%zu]", i));
      if (!d.empty()) return d;
    }
    return "";
  }
  if (nonfinite(want)) return nonfinite(got) ? "" : at + ": expected null or a non-finite number";
  if (finite_number(want)) {
    if (!finite_number(got)) return at + ": not a finite number";
    if (want.is_number_integer() && got.is_number_integer()) return want == got ? "" : at + ": different integer";
    return vh::same_value(want.get<double>(), got.get<double>()) ? "" : at + strf(": %.17g vs %.17g", want.get<double>(), got.get<double>());
  }
  return want == got ? "" : at + ": expected " + want.dump() + " is " + got.dump(-1, ' ', true, json::error_handler_t::replace);
}

// ---- the schema
static bool has(const json& j, const char* k) { return j.contains(k); }
static bool ok_num(const json& j) { return j.is_number() || j.is_null(); }
static bool ok_keys(const json& j, std::initializer_list<const char*> keys, bool (*value)(const json&)) {
  if (!j.is_object()) return false;
  for (auto k : keys)
    if (!has(j, k) || !value(j.at(k))) return false;
  return true;
}
static bool ok_enum(const json& j, std::initializer_list<const char*> names) {
  if (!j.is_string()) return false;
  for (auto n : names)
    if (j.get_ref<const std::string&>() == n) return true;
  return false;
}
static bool ok_int(const json& j) {
  if (j.is_number_unsigned()) return j.get<uint64_t>() <= 2147483647u;
  if (j.is_number_integer()) return j.get<int64_t>() >= -2147483648ll && j.get<int64_t>() <= 2147483647ll;
  return false;
}
static bool ok_ip_iteration(const json& j) {
  const auto kkt = [](const json& k) { return ok_keys(k, {"r_dual", "r_comp", "r_primal_eq", "r_primal_ineq"}, ok_num); };
  const auto alpha = [](const json& k) { return ok_keys(k, {"primal", "dual"}, ok_num); };
  if (!j.is_object() || !has(j, "kkt_initial") || !has(j, "kkt_final") || !has(j, "ip_outputs")) return false;
  if (!kkt(j.at("kkt_initial")) || !kkt(j.at("kkt_final"))) return false;
  const json& ip = j.at("ip_outputs");
  return ok_keys(ip, {"mu", "mu_affine"}, ok_num) && ok_keys(ip, {"alpha", "alpha_probe"}, alpha);
}
static bool ok_qp(const json& j) {
  if (j.is_string()) return ok_enum(j, {"SUCCESS", "NOT_POSITIVE_DEFINITE"});
  if (!j.is_object() || !has(j, "termination_state") || !has(j, "iterations") || !has(j, "lagrange_multipliers")) return false;
  if (!ok_enum(j.at("termination_state"), {"SATISFIED_KKT_TOL", "MAX_ITERATIONS"}) || !j.at("iterations").is_array()) return false;
  for (auto& it : j.at("iterations"))
    if (!ok_ip_iteration(it)) return false;
  const json& lm = j.at("lagrange_multipliers");
  return lm.is_null() || ok_keys(lm, {"min", "l_infinity"}, ok_num);
}
static bool ok_step(const json& j) {
  return j.is_object() && has(j, "alpha") && ok_num(j.at("alpha")) && has(j, "errors") && ok_keys(j.at("errors"), {"f", "equality"}, ok_num);
}
static bool ok_iteration(const json& j) {
  if (!ok_keys(j, {"lambda", "penalty"}, ok_num)) return false;
  for (auto k : {"iteration", "optimizer_state", "errors_initial", "qp_outputs", "qp_eigenvalues", "directional_derivatives", "step_result", "line_search_steps"})
    if (!has(j, k)) return false;
  if (!ok_int(j.at("iteration")) || !ok_enum(j.at("optimizer_state"), {"NOMINAL", "ATTEMPTING_RESTORE_LM"}) ||
      !ok_keys(j.at("errors_initial"), {"f", "equality"}, ok_num) || !ok_qp(j.at("qp_outputs")) ||
      !ok_keys(j.at("directional_derivatives"), {"d_f", "d_equality"}, ok_num) ||
      !ok_enum(j.at("step_result"), {"SUCCESS", "MAX_ITERATIONS", "FIRST_ORDER_SATISFIED", "POSITIVE_DERIVATIVE", "FAILURE_NON_FINITE_COST",
                                     "FAILURE_INVALID_ALPHA"}))
    return false;
  const json& ev = j.at("qp_eigenvalues");
  if (!ev.is_null() && !ok_keys(ev, {"min", "max", "abs_min"}, ok_num)) return false;
  if (!j.at("line_search_steps").is_array()) return false;
  for (auto& s : j.at("line_search_steps"))
    if (!ok_step(s)) return false;
  return true;
}
static bool ok_outputs(const json& j) {
  if (!j.is_object() || !has(j, "termination_state") || !has(j, "iterations")) return false;
  if (!ok_enum(j.at("termination_state"), {"MAX_ITERATIONS", "SATISFIED_ABSOLUTE_TOL", "SATISFIED_RELATIVE_TOL", "SATISFIED_FIRST_ORDER_TOL",
                                           "MAX_LAMBDA", "QP_INDEFINITE", "USER_CALLBACK"}))
    return false;
  if (!j.at("iterations").is_array()) return false;
  for (auto& it : j.at("iterations"))
    if (!ok_iteration(it)) return false;
  return true;
}

static NLSSolverOutputs solved(Rng& rng) {
  gn::GenOptions o;
  gn::Spec spec = gn::random_spec(rng, o, rng.irange(0, gn::N_FAMILIES - 1));
  spec.params.log_qp_eigenvalues = rng.chance(0.5);
  const Problem problem = spec.build(nullptr);
  ConstrainedNonlinearLeastSquares::Retraction retraction;
  if (spec.retraction != gn::RETR_NONE) {
    const int kind = spec.retraction;
    retraction = [kind](Eigen::VectorXd& x, ConstVectorBlock dx, double alpha) { gn::retract(kind, x, dx, alpha); };
  }
  try {
    ConstrainedNonlinearLeastSquares solver(&problem, retraction);
    auto out = solver.Solve(spec.params, spec.x0);
    R->count("solver-results");
    return out;
  } catch (const std::exception&) {
    return og::any_outputs(rng);
  }
}

static NLSSolverOutputs normalized(NLSSolverOutputs o) {
  og::for_doubles(o, [](double& d) {
    if (!std::isfinite(d)) d = std::nan("");
  });
  return o;
}

static void round_trip(Rng& rng) {
  NLSSolverOutputs out = rng.chance(0.15) ? solved(rng) : [&] {
    og::Opt o;
    o.nonfinite = rng.chance(0.5);
    if (rng.chance(0.01)) o.max_iterations = 200;
    return og::any_outputs(rng, o);
  }();
  const NLSSolverOutputs copy = out;
  const NLSSolverOutputs want = normalized(out);
  long nonfinite_count = 0;
  og::for_doubles(out, [&](double& d) { nonfinite_count += !std::isfinite(d); });
  R->count("nonfinite-fields", nonfinite_count);
  try {
    const json j = out;
    const std::string unchanged = cmp::diff("result", copy, out);
    if (!unchanged.empty()) R->violation("C23", "modified", "serializing changed the result: " + unchanged);
    const std::string d = diff_doc(exp_(out), j, "document");
    if (!d.empty()) R->violation("C23", "document", d + " in " + exp_(out).dump().substr(0, 1500));
    auto back = [&](const char* how, const json& doc) {
      const NLSSolverOutputs got = normalized(doc.get<NLSSolverOutputs>());
      const std::string diff = cmp::diff("result", want, got);
      if (!diff.empty()) R->violation("C23", std::string("lost:") + how, std::string(how) + ": " + diff + " in " + exp_(out).dump().substr(0, 1500));
      R->count(std::string("via:") + how);
    };
    back("object", j);
    const std::string text = j.dump();
    back("text", json::parse(text));
    back("indented-text", json::parse(j.dump(rng.irange(0, 5), ' ', rng.chance(0.5))));
    switch (rng.irange(0, 3)) {
      case 0:
        back("cbor", json::from_cbor(json::to_cbor(j)));
        break;
      case 1:
        back("msgpack", json::from_msgpack(json::to_msgpack(j)));
        break;
      case 2:
        back("ubjson", json::from_ubjson(json::to_ubjson(j, rng.chance(0.5))));
        break;
      default:
        back("bson", json::from_bson(json::to_bson(j)));
        break;
    }
    // text of the restored result is the same text
    const json again = json::parse(text).get<NLSSolverOutputs>();
    if (again.dump() != text) R->violation("C23", "text-changes", "serializing the restored result gives another text: " + text.substr(0, 1500));
    if (rng.chance(0.2)) {
      // inside a container, and over an existing document
      const std::vector<NLSSolverOutputs> many{out, og::any_outputs(rng), out};
      const json list = many;
      const auto restored = json::parse(list.dump()).get<std::vector<NLSSolverOutputs>>();
      if (restored.size() != 3) R->violation("C23", "list", "wrong number of results");
      for (size_t i = 0; i < restored.size(); ++i) {
        const std::string diff = cmp::diff("result", normalized(many[i]), normalized(restored[i]));
        if (!diff.empty()) R->violation("C23", "lost:list", diff);
      }
      json reused = many[1];
      reused = out;
      const std::string diff = cmp::diff("result", want, normalized(reused.get<NLSSolverOutputs>()));
      if (!diff.empty()) R->violation("C23", "lost:reused-document", diff);
      R->count("lists");
    }
    for (auto& it : out.iterations) {
      R->count(it.qp_outputs.index() == 0 ? "null-space-records" : "interior-point-records");
      if (it.qp_eigenvalues) R->count("eigenvalue-records");
    }
    R->count("round-trips");
    R->distinct(vh::hash_str(text), "C23");
    if (R->case_index() < 12) R->sample("round trip of " + text.substr(0, 300));
  } catch (const std::exception& e) {
    R->violation("C23", "exception", std::string("a valid result was not serialized and read back: ") + e.what() + " in " + exp_(out).dump().substr(0, 1500));
  }
}

// The oracle for one document: accepted if and only if it is valid, and then with the values it states.
static void judge(const json& doc, const char* how) {
  const bool valid = ok_outputs(doc);
  try {
    const NLSSolverOutputs got = doc.get<NLSSolverOutputs>();
    R->count("accepted");
    if (!valid) {
      R->violation("C24", std::string("accepted:") + how, "a document that is not a result was accepted: " + doc.dump(-1, ' ', true, json::error_handler_t::replace).substr(0, 2500));
      return;
    }
    // (the document may have further keys)
    const std::string d = diff_doc(exp_(got), doc, "document");
    if (!d.empty()) R->violation("C24", std::string("misread:") + how, d + " in " + doc.dump(-1, ' ', true, json::error_handler_t::replace).substr(0, 2500));
  } catch (const json::exception&) {
    R->count(std::string("rejected:") + how);
    if (valid) R->violation("C24", std::string("rejected:") + how, "a valid document was rejected: " + doc.dump(-1, ' ', true, json::error_handler_t::replace).substr(0, 2500));
  } catch (const std::exception& e) {
    R->violation("C24", std::string("exception:") + how, std::string("not a JSON exception: ") + e.what());
  } catch (...) {
    R->violation("C24", std::string("exception:") + how, "not a JSON exception");
  }
}

static void collect(const json& j, const json::json_pointer& at, std::vector<json::json_pointer>& out) {
  out.push_back(at);
  if (j.is_object())
    for (auto it = j.begin(); it != j.end(); ++it) collect(it.value(), at / it.key(), out);
  else if (j.is_array())
    for (size_t i = 0; i < j.size(); ++i) collect(j[i], at / i, out);
}

static json alien(Rng& rng) {
  switch (rng.irange(0, 19)) {
    case 0: return nullptr;
    case 1: return true;
    case 2: return false;
    case 3: return 0;
    case 4: return -1;
    case 5: return 1.5;
    case 6: return 1e300;
    case 7: return std::nan("");
    case 8: return -HUGE_VAL;
    case 9: return "";
    case 10: return "NaN";
    case 11: return "MAX_ITERATIONS";
    case 12: return "SUCCESS";
    case 13: return json::array();
    case 14: return json::object();
    case 15: return json::array({1.0, 2.0});
    case 16: return std::numeric_limits<uint64_t>::max() - static_cast<uint64_t>(rng.irange(0, 3));
    case 17: return (rng.chance(0.5) ? 1 : -1) * (2147483646ll + rng.irange(0, 3));
    case 18: return json::binary({1, 2, 3});
    default: return json({{"f", 1.0}, {"equality", 2.0}});
  }
}

static void mutate_once(Rng& rng, json& doc) {
  std::vector<json::json_pointer> paths;
  collect(doc, json::json_pointer(), paths);
  const auto& p = paths[static_cast<size_t>(rng.irange(0, static_cast<int>(paths.size()) - 1))];
  switch (rng.irange(0, 5)) {
    case 0:
      doc[p] = alien(rng);
      return;
    case 1: {  // another part of the document
      const json other = doc[paths[static_cast<size_t>(rng.irange(0, static_cast<int>(paths.size()) - 1))]];
      doc[p] = other;
      return;
    }
    case 2:
      if (!p.empty()) {
        json& parent = doc[p.parent_pointer()];
        if (parent.is_object())
          parent.erase(p.back());
        else
          parent.erase(static_cast<size_t>(std::stoul(p.back())));
      }
      return;
    case 3:
      if (doc[p].is_object()) doc[p][rng.chance(0.5) ? "extra" : "iterations"] = alien(rng);
      else if (doc[p].is_array()) doc[p].push_back(alien(rng));
      return;
    case 4:
      if (doc[p].is_array() && !doc[p].empty()) doc[p].push_back(doc[p][0]);
      else if (doc[p].is_number_float()) doc[p] = og::any_double(rng);
      else if (doc[p].is_string()) {
        auto& s = doc[p].get_ref<std::string&>();
        if (rng.chance(0.5)) s += " ";
        else if (!s.empty()) s[0] = static_cast<char>(s[0] | 0x20);
      }
      return;
    default: {  // wrap or unwrap
      const json inner = doc[p];
      doc[p] = rng.chance(0.5) ? json::array({inner}) : json({{"value", inner}});
      return;
    }
  }
}

static void mutations(Rng& rng) {
  og::Opt o;
  o.max_iterations = 2;
  o.max_inner = 2;
  o.max_steps = 2;
  NLSSolverOutputs out = og::any_outputs(rng, o);
  while (out.iterations.empty()) out = og::any_outputs(rng, o);
  const json base = exp_(out);
  judge(base, "base");
  std::vector<json::json_pointer> paths;
  collect(base, json::json_pointer(), paths);
  const bool text = rng.chance(0.3);
  auto try_it = [&](const json& doc, const char* how) {
    if (text) {
      const std::string t = doc.dump(-1, ' ', false, json::error_handler_t::replace);
      judge(json::parse(t), how);
    } else {
      judge(doc, how);
    }
  };
  // every node: removed, renamed, and given every other type
  for (auto& p : paths) {
    const json& node = base[p];
    if (!p.empty() && base[p.parent_pointer()].is_object()) {
      json doc = base;
      doc[p.parent_pointer()].erase(p.back());
      try_it(doc, "missing");
      doc[p.parent_pointer()][p.back() + "_"] = node;
      try_it(doc, "renamed");
      R->count("nodes");
    }
    static const json others[] = {nullptr, true, 3, 2.5, "text", "SUCCESS", json::array(), json::object()};
    for (auto& v : others) {
      json doc = base;
      if (p.empty())
        doc = v;
      else
        doc[p] = v;
      try_it(doc, "type");
    }
  }
  // extra keys and several changes at once
  for (int k = 0; k < 60; ++k) {
    json doc = base;
    const int n = rng.irange(1, 4);
    for (int i = 0; i < n; ++i) mutate_once(rng, doc);
    if (doc.dump(-1, ' ', true, json::error_handler_t::replace).size() > 200000) continue;
    judge(doc, "mutated");
  }
  // damaged text
  const std::string good = base.dump(rng.chance(0.3) ? 1 : -1);
  for (int k = 0; k < 60; ++k) {
    std::string t = good;
    const int n = rng.irange(1, 3);
    for (int i = 0; i < n && !t.empty(); ++i) {
      const size_t at = static_cast<size_t>(rng.irange(0, static_cast<int>(t.size()) - 1));
      switch (rng.irange(0, 4)) {
        case 0:
          t[at] = static_cast<char>(rng.irange(0, 255));
          break;
        case 1:
          t.erase(at, static_cast<size_t>(rng.irange(1, 20)));
          break;
        case 2:
          t.insert(at, 1, "0123456789.eE+-\",:{}[]ntf"[rng.irange(0, 24)]);
          break;
        case 3:
          t.resize(at);
          break;
        default:
          t.insert(at, t.substr(static_cast<size_t>(rng.irange(0, static_cast<int>(t.size()) - 1)), static_cast<size_t>(rng.irange(1, 30))));
          break;
      }
    }
    const json doc = json::parse(t, nullptr, false);
    if (doc.is_discarded()) {
      R->count("not-json");
      continue;
    }
    judge(doc, "damaged-text");
  }
  R->distinct(vh::hash_str(good), "C24");
  if (R->case_index() < 12) R->sample(strf("%zu nodes mutated in ", paths.size()) + good.substr(0, 300));
}

int main(int argc, char** argv) {
  const auto args = vh::Args::parse(argc, argv);
  vh::Reporter rep(args, "drv_json");
  R = &rep;
  const std::string mode = args.get("mode", "all");
  vh::run_cases(rep, [&](long i, uint64_t seed) {
    Rng rng(seed);
    if (mode == "C23" || (mode == "all" && i % 4 != 0))
      round_trip(rng);
    else
      mutations(rng);
  });
  return rep.finish();
}
