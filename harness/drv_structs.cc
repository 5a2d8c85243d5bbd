// C28: summaries, counters, names and derived quantities of result objects. C29: assertions.
#include <sstream>

#include "mini_opt/assertions.hpp"
#include "mini_opt/nonlinear.hpp"
#include "mini_opt/qp.hpp"
#include "mini_opt/structs.hpp"
#include "nlsgen.hpp"
#include "outgen.hpp"

using namespace mini_opt;
using vh::Rng;
using vh::strf;

static vh::Reporter* R;

// ------------------------------------------------------------------------------------------- C28
static std::string g_context;
static void bad(const std::string& key, const std::string& msg) { R->violation("C28", key, msg + "\nin:\n" + g_context.substr(0, 2000)); }

struct Escape {
  size_t at;  // position in the text without escapes
  std::string body;
};
// Removes terminal escape sequences.
static std::string strip(const std::string& s, std::vector<Escape>* escapes) {
  std::string o;
  for (size_t i = 0; i < s.size(); ++i) {
    if (s[i] != 0x1b) {
      o += s[i];
      continue;
    }
    size_t e = i + 1;
    if (e < s.size() && s[e] == '[') {
      ++e;
      while (e < s.size() && !(s[e] >= '@' && s[e] <= '~')) ++e;
      if (escapes) escapes->push_back({o.size(), s.substr(i + 2, e - i - 2)});
      i = e;
    } else {
      o += s[i];
    }
  }
  return o;
}

// 'g'reen, 'r'ed, 'o'range, '0' reset, '?' anything else
static char colour(const std::string& body) {
  std::vector<int> n;
  std::stringstream ss(body);
  std::string part;
  while (std::getline(ss, part, ';')) n.push_back(part.empty() ? 0 : std::atoi(part.c_str()));
  if (n.empty() || (n.size() == 1 && n[0] == 0)) return '0';
  int r = -1, g = -1, b = -1;
  if (n.size() == 3 && n[0] == 38 && n[1] == 5 && n[2] >= 16 && n[2] < 232) {
    const int c = n[2] - 16;
    const int level[] = {0, 95, 135, 175, 215, 255};
    r = level[c / 36], g = level[c / 6 % 6], b = level[c % 6];
  } else if (n.size() == 5 && n[0] == 38 && n[1] == 2) {
    r = n[2], g = n[3], b = n[4];
  } else if (!n.empty() && (n.back() == 32 || n.back() == 92)) {
    return 'g';
  } else if (!n.empty() && (n.back() == 31 || n.back() == 91)) {
    return 'r';
  }
  if (r < 0) return '?';
  if (g > r && g > b) return 'g';
  if (r >= 150 && g < 50 && b < 50) return 'r';
  if (r >= 150 && g >= 50 && g < r && b < 50) return 'o';
  return '?';
}

// Reads the text from left to right.
struct Reader {
  const std::string& s;
  size_t pos = 0;
  bool ok = true;
  explicit Reader(const std::string& text) : s(text) {}
  static bool space(char c) { return c == ' ' || c == '\n' || c == '\t'; }
  void skip() {
    while (pos < s.size() && space(s[pos])) ++pos;
  }
  // the next words have to be these, up to white space
  bool expect(const std::string& words) {
    skip();
    size_t p = pos;
    for (size_t i = 0; i < words.size();) {
      if (space(words[i])) {
        while (i < words.size() && space(words[i])) ++i;
        while (p < s.size() && space(s[p])) ++p;
        continue;
      }
      if (p >= s.size() || s[p] != words[i]) return fail("expected \"" + words + "\" at \"" + s.substr(pos, 60) + "\"");
      ++p;
      ++i;
    }
    pos = p;
    return true;
  }
  bool peek(const std::string& words) {
    skip();
    return s.compare(pos, words.size(), words) == 0;
  }
  bool fail(const std::string& why) {
    if (ok) bad("text", why);
    ok = false;
    return false;
  }
  bool number(double want, const char* what, double abs_tol = 0) {
    skip();
    char* end = nullptr;
    const double got = std::strtod(s.c_str() + pos, &end);
    const size_t n = static_cast<size_t>(end - (s.c_str() + pos));
    if (n == 0) return fail(std::string("no number for ") + what + " at \"" + s.substr(pos, 60) + "\"");
    pos += n;
    R->count("numbers-checked");
    if (std::isnan(want)) return std::isnan(got) || fail(strf("%s is printed as %.17g, recorded NaN", what, got));
    if (got == want || (std::isfinite(want) && std::fabs(got - want) <= abs_tol)) return true;
    return fail(strf("%s is printed as %.17g, recorded %.17g", what, got, want));
  }
  // sum f + penalty * c, whose rounding is not prescribed
  bool total(double f, double c, double penalty) {
    const long double exact = static_cast<long double>(f) + static_cast<long double>(penalty) * c;
    const long double scale = fabsl(static_cast<long double>(f)) + fabsl(static_cast<long double>(penalty) * c);
    skip();
    char* end = nullptr;
    const double got = std::strtod(s.c_str() + pos, &end);
    const size_t n = static_cast<size_t>(end - (s.c_str() + pos));
    if (n == 0) return fail("no number for the total");
    pos += n;
    R->count("totals-checked");
    if (std::isnan(static_cast<double>(exact))) return std::isnan(got) || fail("the total should be NaN");
    if (!(scale < 1e308L)) return true;  // may overflow
    if (fabsl(got - exact) <= 4e-16L * scale + 1e-320L) return true;
    return fail(strf("the total is printed as %.17g instead of %.17Lg", got, exact));
  }
  bool integer(long want, const char* what) {
    skip();
    char* end = nullptr;
    const long got = std::strtol(s.c_str() + pos, &end, 10);
    const size_t n = static_cast<size_t>(end - (s.c_str() + pos));
    if (n == 0) return fail(std::string("no number for ") + what);
    pos += n;
    if (got != want) return fail(strf("%s is printed as %ld, recorded %ld", what, got, want));
    return true;
  }
};

static double max_of(const KKTError& k, bool* nan) {
  *nan = std::isnan(k.r_dual) || std::isnan(k.r_comp) || std::isnan(k.r_primal_eq) || std::isnan(k.r_primal_ineq);
  double m = k.r_dual;
  if (k.r_comp > m) m = k.r_comp;
  if (k.r_primal_eq > m) m = k.r_primal_eq;
  if (k.r_primal_ineq > m) m = k.r_primal_ineq;
  return m;
}

static void read_inner(Reader& r, const QPInteriorPointIteration& it) {
  bool nan0, nan1;
  double m0 = max_of(it.kkt_initial, &nan0), m1 = max_of(it.kkt_final, &nan1);
  if (nan0) m0 = it.kkt_initial.Max();  // which of them wins is not prescribed
  if (nan1) m1 = it.kkt_final.Max();
  r.expect("Iteration summary: ||kkt|| max:") && r.number(m0, "initial KKT maximum") && r.expect("-->") && r.number(m1, "final KKT maximum") &&
      r.expect(", mu =") && r.number(it.ip_outputs.mu, "mu") && r.expect(", a_p =") && r.number(it.ip_outputs.alpha.primal, "a_p") &&
      r.expect(", a_d =") && r.number(it.ip_outputs.alpha.dual, "a_d");
  if (!std::isnan(it.ip_outputs.mu_affine)) {
    r.expect("Probe alphas: a_p =") && r.number(it.ip_outputs.alpha_probe.primal, "probe a_p") && r.expect(", a_d =") &&
        r.number(it.ip_outputs.alpha_probe.dual, "probe a_d") && r.expect(", mu_affine =") && r.number(it.ip_outputs.mu_affine, "mu_affine");
  }
  r.expect("KKT errors, L2:") && r.expect("r_dual =") && r.number(it.kkt_initial.r_dual, "r_dual") && r.expect("-->") && r.number(it.kkt_final.r_dual, "r_dual") &&
      r.expect("r_comp =") && r.number(it.kkt_initial.r_comp, "r_comp") && r.expect("-->") && r.number(it.kkt_final.r_comp, "r_comp") &&
      r.expect("r_p_eq =") && r.number(it.kkt_initial.r_primal_eq, "r_p_eq") && r.expect("-->") && r.number(it.kkt_final.r_primal_eq, "r_p_eq") &&
      r.expect("r_p_ineq =") && r.number(it.kkt_initial.r_primal_ineq, "r_p_ineq") && r.expect("-->") && r.number(it.kkt_final.r_primal_ineq, "r_p_ineq");
  R->count("inner-records");
}

// Where the coloured words are: position of the word and the colour it must have.
struct Painted {
  size_t from, to;
  char colour;
  std::string word;
};

static void read_iteration(Reader& r, const NLSIteration& it, bool include_qp, std::vector<Painted>& painted) {
  r.expect("Iteration #") && r.integer(it.iteration, "the iteration number") && r.expect(std::string(", state = ") + og::name(it.optimizer_state)) &&
      r.expect(", lambda =") && r.number(it.lambda, "lambda") && r.expect("f(0):") && r.number(it.errors_initial.f, "f(0)") && r.expect(", c(0):") &&
      r.number(it.errors_initial.equality, "c(0)") && r.expect(", total:") && r.total(it.errors_initial.f, it.errors_initial.equality, it.penalty);
  if (!r.ok) return;
  if (it.qp_eigenvalues) {
    r.expect("min, max, |min| eig =") && r.number(it.qp_eigenvalues->min, "min eig") && r.expect(",") && r.number(it.qp_eigenvalues->max, "max eig") &&
        r.expect(",") && r.number(it.qp_eigenvalues->abs_min, "|min| eig");
    R->count("eigenvalue-lines");
  }
  r.expect("penalty =") && r.number(it.penalty, "penalty", 1e-15);
  if (it.qp_outputs.index() == 1) {
    const auto& ip = std::get<1>(it.qp_outputs);
    r.expect(std::string("QP-IP: ") + og::name(ip.termination_state) + ",") && r.integer(static_cast<long>(ip.iterations.size()), "the number of inner iterations");
  } else {
    r.expect(std::string("QP: ") + og::name(std::get<0>(it.qp_outputs)));
  }
  r.expect("df/dalpha =") && r.number(it.directional_derivatives.d_f, "df/dalpha") && r.expect(", dc/dalpha =") &&
      r.number(it.directional_derivatives.d_equality, "dc/dalpha") && r.expect("Search result:");
  r.skip();
  const size_t from = r.pos;
  r.expect(og::name(it.step_result));
  painted.push_back({from, r.pos, it.step_result == StepSizeSelectionResult::SUCCESS ? 'g' : 'r', og::name(it.step_result)});
  for (size_t i = 0; i < it.line_search_steps.size() && r.ok; ++i) {
    const auto& s = it.line_search_steps[i];
    r.expect(strf("f(%zu):", i)) && r.number(s.errors.f, "f of a step") && r.expect(strf(", c(%zu):", i)) && r.number(s.errors.equality, "c of a step") &&
        r.expect(", total:") && r.total(s.errors.f, s.errors.equality, it.penalty) && r.expect(", alpha =") && r.number(s.alpha, "alpha", 6e-11);
    R->count("step-lines");
  }
  if (include_qp && it.qp_outputs.index() == 1)
    for (auto& q : std::get<1>(it.qp_outputs).iterations) {
      if (!r.ok) return;
      read_inner(r, q);
    }
}

static void check_text(const NLSSolverOutputs& out, bool include_qp) {
  const std::string plain = out.ToString(false, include_qp);
  const std::string coloured = out.ToString(true, include_qp);
  g_context = plain;
  if (plain.find('\x1b') != std::string::npos) bad("escape-in-plain", "the plain text contains terminal escape sequences");
  std::vector<Escape> escapes;
  if (strip(coloured, &escapes) != plain) {
    bad("colour-changes-text", "the coloured text differs from the plain text by more than escape sequences: " + coloured.substr(0, 1000));
    return;
  }
  Reader r(plain);
  std::vector<Painted> painted;
  for (auto& it : out.iterations) {
    if (!r.ok) return;
    read_iteration(r, it, include_qp, painted);
  }
  r.expect("termination =");
  r.skip();
  const size_t from = r.pos;
  r.expect(og::name(out.termination_state));
  char want = 'o';
  switch (out.termination_state) {
    case NLSTerminationState::SATISFIED_ABSOLUTE_TOL:
    case NLSTerminationState::SATISFIED_RELATIVE_TOL:
    case NLSTerminationState::SATISFIED_FIRST_ORDER_TOL:
      want = 'g';
      break;
    case NLSTerminationState::QP_INDEFINITE:
      want = 'r';
      break;
    default:
      break;
  }
  painted.push_back({from, r.pos, want, og::name(out.termination_state)});
  r.skip();
  if (r.ok && r.pos != plain.size()) r.fail("unexpected text \"" + plain.substr(r.pos, 200) + "\"");
  if (!r.ok) return;
  // colours: every painted word has its colour and nothing else has any
  for (auto& p : painted) {
    char active = '0';
    for (auto& e : escapes)
      if (e.at <= p.from) active = colour(e.body);
    if (active != p.colour) bad("colour:" + p.word, "\"" + p.word + "\" is shown in colour " + active + " instead of " + p.colour);
    bool ends = false;
    for (auto& e : escapes)
      if (e.at > p.from && e.at < p.to) bad("colour-inside", "the colour changes inside of \"" + p.word + "\"");
      else if (e.at >= p.to && !ends) {
        ends = true;
        bool blank = true;
        for (size_t i = p.to; i < e.at; ++i) blank = blank && Reader::space(plain[i]);
        if (colour(e.body) != '0' || !blank) bad("colour-not-reset", "the colour is not reset after \"" + p.word + "\"");
      }
    if (!ends) bad("colour-not-reset", "the colour is not reset after \"" + p.word + "\"");
    R->count("painted-words");
  }
  R->count(include_qp ? "texts-with-inner" : "texts");
}

template <typename E>
static void check_name(E v) {
  std::ostringstream os;
  os << 1 << v << 2;
  if (os.str() != std::string("1") + og::name(v) + "2") bad("stream-name", std::string("stream output of ") + og::name(v) + " is " + os.str());
  if (fmt::format("<{}>", v) != std::string("<") + og::name(v) + ">") bad("fmt-name", std::string("formatted output of ") + og::name(v) + " is " + fmt::format("{}", v));
  R->count("enumerators");
}
template <typename E>
static void check_names(int n) {
  for (int i = 0; i < n; ++i) check_name(static_cast<E>(i));
}

static void check_names_all() {
  g_context = "enumerations";
  check_names<InitialGuessMethod>(3);
  check_names<QPInteriorPointTerminationState>(2);
  check_names<QPNullSpaceTerminationState>(2);
  check_names<LineSearchStrategy>(2);
  check_names<OptimizerState>(2);
  check_names<StepSizeSelectionResult>(6);
  check_names<NLSTerminationState>(7);
  for (int i = 0; i < 7; ++i) {
    const auto s = static_cast<NLSTerminationState>(i);
    const std::string n = og::name(s);
    if (TerminationStateIndicatesSatisfiedTol(s) != (n.rfind("SATISFIED_", 0) == 0)) bad("satisfied-tol", "TerminationStateIndicatesSatisfiedTol(" + n + ") is wrong");
  }
}

static void check_derived(Rng& rng) {
  g_context = "derived quantities";
  for (int k = 0; k < 20; ++k) {
    auto d = [&] { return og::any_double(rng, rng.chance(0.5)); };
    Errors e;
    e.f = d(), e.equality = d();
    const double p = d();
    const bool invalid = !std::isfinite(e.f) || !std::isfinite(e.equality);
    if (e.ContainsInvalidValues() != invalid) bad("contains-invalid", strf("ContainsInvalidValues is wrong for %g, %g", e.f, e.equality));
    auto total = [&](double got, double a, double b) {
      const long double exact = static_cast<long double>(a) + static_cast<long double>(p) * b;
      const long double scale = fabsl(static_cast<long double>(a)) + fabsl(static_cast<long double>(p) * b);
      if (!(scale < 1e308L)) return std::isfinite(a) && std::isfinite(b) && std::isfinite(p) ? true : !std::isfinite(got);
      return static_cast<bool>(fabsl(got - exact) <= 4e-16L * scale + 1e-320L);
    };
    if (!total(e.Total(p), e.f, e.equality)) bad("errors-total", strf("Errors{%g, %g}.Total(%g) = %.17g", e.f, e.equality, p, e.Total(p)));
    if (!std::isnan(e.f) && !std::isnan(e.equality) && e.LInfinity() != (e.f > e.equality ? e.f : e.equality))
      bad("errors-linf", strf("Errors{%g, %g}.LInfinity() = %g", e.f, e.equality, e.LInfinity()));
    DirectionalDerivatives dd;
    dd.d_f = d(), dd.d_equality = d();
    if (!total(dd.Total(p), dd.d_f, dd.d_equality)) bad("slopes-total", strf("DirectionalDerivatives{%g, %g}.Total(%g) = %.17g", dd.d_f, dd.d_equality, p, dd.Total(p)));
    const double a = std::fabs(dd.d_f), b = std::fabs(dd.d_equality);
    if (!std::isnan(a) && !std::isnan(b) && dd.LInfinity() != (a > b ? a : b)) bad("slopes-linf", strf("DirectionalDerivatives{%g, %g}.LInfinity() = %g", dd.d_f, dd.d_equality, dd.LInfinity()));
    KKTError kkt;
    kkt.r_dual = d(), kkt.r_comp = d(), kkt.r_primal_eq = d(), kkt.r_primal_ineq = d();
    bool nan;
    const double m = max_of(kkt, &nan);
    if (!nan && kkt.Max() != m) bad("kkt-max", strf("KKTError{%g, %g, %g, %g}.Max() = %g", kkt.r_dual, kkt.r_comp, kkt.r_primal_eq, kkt.r_primal_ineq, kkt.Max()));
    R->count("derived-checked");
  }
}

static NLSSolverOutputs solved(Rng& rng) {
  gn::GenOptions o;
  gn::Spec spec = gn::random_spec(rng, o, rng.irange(0, gn::N_FAMILIES - 1));
  spec.params.log_qp_eigenvalues = rng.chance(0.5);
  const Problem problem = spec.build(nullptr);
  ConstrainedNonlinearLeastSquares::Retraction retraction;
  if (spec.retraction != gn::RETR_NONE) {
    const int kind = spec.retraction;
    retraction = [kind](Eigen::VectorXd& x, ConstVectorBlock dx, double alpha) { gn::retract(kind, x, dx, alpha); };
  }
  try {
    ConstrainedNonlinearLeastSquares solver(&problem, retraction);
    auto out = solver.Solve(spec.params, spec.x0);
    R->count("solver-results");
    return out;
  } catch (const std::exception&) {
    return og::any_outputs(rng);
  }
}

static void summary_case(Rng& rng) {
  og::Opt o;
  o.nonfinite = rng.chance(0.4);
  if (rng.chance(0.03)) o.max_iterations = o.max_inner = o.max_steps = 30;
  const NLSSolverOutputs out = rng.chance(0.15) ? solved(rng) : og::any_outputs(rng, o);
  g_context = strf("result with %zu iterations", out.iterations.size());
  size_t inner = 0, steps = 0, failed = 0;
  for (auto& it : out.iterations) {
    inner += it.qp_outputs.index() == 1 ? std::get<1>(it.qp_outputs).iterations.size() : 1;
    steps += it.line_search_steps.size();
    const std::string n = og::name(it.step_result);
    failed += n != "SUCCESS" && n != "FIRST_ORDER_SATISFIED";
  }
  if (out.NumQPIterations() != inner) bad("num-qp", strf("NumQPIterations() = %zu instead of %zu", out.NumQPIterations(), inner));
  if (out.NumLineSearchSteps() != steps) bad("num-steps", strf("NumLineSearchSteps() = %zu instead of %zu", out.NumLineSearchSteps(), steps));
  if (out.NumFailedLineSearches() != failed) bad("num-failed", strf("NumFailedLineSearches() = %zu instead of %zu", out.NumFailedLineSearches(), failed));
  check_text(out, false);
  check_text(out, true);
  // the parts are the records' own texts
  for (bool colour : {false, true})
    for (bool qp : {false, true}) {
      std::string parts;
      for (auto& it : out.iterations) parts += it.ToString(colour, qp);
      if (out.ToString(colour, qp).compare(0, parts.size(), parts) != 0) bad("parts", "the summary does not consist of the iterations' summaries");
    }
  if (out.ToString() != out.ToString(false, false)) bad("default-text", "the default text is not the plain one");
  for (auto& it : out.iterations)
    if (it.qp_outputs.index() == 1)
      for (auto& q : std::get<1>(it.qp_outputs).iterations) {
        const std::string t = q.ToString();
        g_context = t;
        Reader r(t);
        read_inner(r, q);
      }
  check_derived(rng);
  if (R->case_index() % 16 == 0) check_names_all();
  const std::string text = out.ToString(false, true);
  R->distinct(vh::hash_str(text), "C28");
  if (R->case_index() < 12) R->sample(text.substr(0, 500));
}

// ------------------------------------------------------------------------------------------- C29
static std::string squeeze(const std::string& s) {
  std::string o;
  for (char c : s)
    if (!Reader::space(c)) o += c;
  return o;
}

struct Site {
  std::string macro;
  bool holds;
  std::string condition;               // text of the condition; for comparisons the parts
  std::vector<std::string> operands;   // expression, value, expression, value
  std::string reason;
  int line;
};

template <typename F>
static void check_site(const Site& s, F&& f) {
  const std::string id = s.macro + " " + s.condition;
  bool threw = false;
  try {
    f();
  } catch (const assert::default_error& e) {
    threw = true;
    const std::string what = e.what();
    const assert::default_error copy = e;
    if (what != copy.what()) R->violation("C29", "copy", "a copy of the error has another message");
    if (typeid(e) != typeid(assert::default_error)) R->violation("C29", "type", "the error is of a derived type");
    if (!s.holds) {
      const std::string q = squeeze(what);
      auto need = [&](const std::string& part, const char* kind) {
        if (q.find(squeeze(part)) == std::string::npos)
          R->violation("C29", std::string("message-") + kind + ":" + s.macro, std::string("the message lacks the ") + kind + " \"" + part + "\": " + what);
        else
          R->count(std::string("found:") + kind);
      };
      need(s.condition, "condition");
      need(__FILE__, "file");
      need(std::to_string(s.line), "line");
      for (size_t i = 0; i + 1 < s.operands.size(); i += 2) {
        need(s.operands[i], "operand");
        need("`" + s.operands[i] + "` = " + s.operands[i + 1], "operand-value");
      }
      if (!s.reason.empty()) need(s.reason, "reason");
      else if (what.find("Reason") != std::string::npos &&
               std::none_of(s.operands.begin(), s.operands.end(), [](const std::string& o) { return o.find("Reason") != std::string::npos; }) &&
               s.condition.find("Reason") == std::string::npos)
        R->violation("C29", "reason-invented", "a reason is given where there is none: " + what);
    }
    R->count("thrown");
  } catch (const std::exception& e) {
    threw = true;
    R->violation("C29", "foreign:" + s.macro, std::string("not the library's error: ") + typeid(e).name() + " " + e.what() + " for " + id);
    return;
  }
  if (threw == s.holds)
    R->violation("C29", (threw ? "false-alarm:" : "silent:") + s.macro, id + (threw ? " threw although it holds" : " did not throw although it does not hold"));
  if (!threw) R->count("passed");
}

template <typename T>
static std::string val(const T& v) {
  return fmt::format("{}", v);
}

#define CMP_SITES(A, B)                                                                                                        \
  do {                                                                                                                         \
    const std::string va = val(A), vb = val(B);                                                                                \
    const int n = counter;                                                                                                     \
    (void)n;                                                                                                                   \
    check_site({"F_ASSERT_EQ", static_cast<bool>((A) == (B)), "==", {#A, va, #B, vb}, "", __LINE__}, [&] { F_ASSERT_EQ(A, B); });                     \
    check_site({"F_ASSERT_NE", static_cast<bool>((A) != (B)), "!=", {#A, va, #B, vb}, "", __LINE__}, [&] { F_ASSERT_NE(A, B); });                     \
    check_site({"F_ASSERT_LT", static_cast<bool>((A) < (B)), "<", {#A, va, #B, vb}, "", __LINE__}, [&] { F_ASSERT_LT(A, B); });                       \
    check_site({"F_ASSERT_GT", static_cast<bool>((A) > (B)), ">", {#A, va, #B, vb}, "", __LINE__}, [&] { F_ASSERT_GT(A, B); });                       \
    check_site({"F_ASSERT_LE", static_cast<bool>((A) <= (B)), "<=", {#A, va, #B, vb}, "", __LINE__}, [&] { F_ASSERT_LE(A, B); });                     \
    check_site({"F_ASSERT_GE", static_cast<bool>((A) >= (B)), ">=", {#A, va, #B, vb}, "", __LINE__}, [&] { F_ASSERT_GE(A, B); });                     \
    check_site({"F_ASSERT_EQ", static_cast<bool>((A) == (B)), "==", {#A, va, #B, vb}, "why not", __LINE__}, [&] { F_ASSERT_EQ(A, B, "why not"); });   \
    check_site({"F_ASSERT_NE", static_cast<bool>((A) != (B)), "!=", {#A, va, #B, vb}, "a7b", __LINE__}, [&] { F_ASSERT_NE(A, B, "a{}b", 7); });      \
    check_site({"F_ASSERT_LT", static_cast<bool>((A) < (B)), "<", {#A, va, #B, vb}, text + "|" + val(A), __LINE__}, [&] { F_ASSERT_LT(A, B, "{}|{}", text, A); });    \
    check_site({"F_ASSERT_GT", static_cast<bool>((A) > (B)), ">", {#A, va, #B, vb}, val(B) + "|" + text, __LINE__}, [&] { F_ASSERT_GT(A, B, "{1}|{0}", text, B); });  \
    check_site({"F_ASSERT_LE", static_cast<bool>((A) <= (B)), "<=", {#A, va, #B, vb}, "a {braces} b", __LINE__}, [&] { F_ASSERT_LE(A, B, "a {{braces}} b"); });               \
    check_site({"F_ASSERT_GE", static_cast<bool>((A) >= (B)), ">=", {#A, va, #B, vb}, val(A) + val(B) + text, __LINE__}, [&] { F_ASSERT_GE(A, B, "{}{}{}", A, B, text); }); \
  } while (false)

static int pick(Rng& rng, int) { return rng.chance(0.6) ? rng.irange(-2, 2) : static_cast<int>(rng.next()); }
static std::string random_text(Rng& rng) {
  static const char* v[] = {"", "a", "b", "ab", "{}", "{0}", "%s", "100%", "x{y}z", "`", "Reason: ", "é", "}", "{"};
  return v[rng.irange(0, 13)];
}

static void assertion_case(Rng& rng) {
  int counter = 0;
  const std::string text = random_text(rng);
  const int i = pick(rng, 0), j = rng.chance(0.3) ? i : pick(rng, 0);
  const double x = og::any_double(rng), y = rng.chance(0.3) ? x : og::any_double(rng);
  const std::string s = random_text(rng), t = rng.chance(0.3) ? s : random_text(rng);
  const size_t u = rng.chance(0.7) ? static_cast<size_t>(rng.irange(0, 3)) : rng.next(), w = rng.chance(0.3) ? u : static_cast<size_t>(rng.irange(0, 3));
  const long l = static_cast<long>(rng.next());
  const Eigen::Index rows = rng.irange(0, 3);
  const std::string_view sv = s;
  const bool p = rng.chance(0.5), q = rng.chance(0.5);
  const char c = static_cast<char>('a' + rng.irange(0, 3)), d = static_cast<char>('a' + rng.irange(0, 3));
  const OptimizerState e1 = static_cast<OptimizerState>(rng.irange(0, 1)), e2 = static_cast<OptimizerState>(rng.irange(0, 1));
  CMP_SITES(i, j);
  CMP_SITES(x, y);
  CMP_SITES(s, t);
  CMP_SITES(u, w);
  CMP_SITES(l, i);
  CMP_SITES(rows, l);
  CMP_SITES(sv, t);
  CMP_SITES(p, q);
  CMP_SITES(c, d);
  CMP_SITES(e1, e2);
  CMP_SITES(i & 3, j | 1);  // operands of lower precedence than the comparison
  CMP_SITES(x + y, y - x);
  CMP_SITES((p ? i : j), (q ? j : 0));
  CMP_SITES(s + "{}", t + "%d");
  CMP_SITES(p ? i : 2, q ? 1 : j);

  check_site({"F_ASSERT", p, "p", {}, "", __LINE__}, [&] { F_ASSERT(p); });
  check_site({"F_ASSERT", p || q, "p || q", {}, "", __LINE__}, [&] { F_ASSERT(p || q); });
  check_site({"F_ASSERT", !p, "!p", {}, "", __LINE__}, [&] { F_ASSERT(!p); });
  check_site({"F_ASSERT", i != 0, "i", {}, "", __LINE__}, [&] { F_ASSERT(i); });
  check_site({"F_ASSERT", p && !q, "p && !q", {}, "because " + text, __LINE__}, [&] { F_ASSERT(p && !q, "because {}", text); });
  check_site({"F_ASSERT", s == "{}", "s == \"{}\"", {}, "", __LINE__}, [&] { F_ASSERT(s == "{}"); });
  check_site({"F_ASSERT", s == "%s", "s == \"%s\"", {}, "s is " + s, __LINE__}, [&] { F_ASSERT(s == "%s", "s is {}", s); });
  check_site({"F_ASSERT", x > y, "x > y", {}, "plain", __LINE__}, [&] { F_ASSERT(x > y, "plain"); });
  check_site({"F_ASSERT", x == x, "x == x", {}, val(x), __LINE__}, [&] { F_ASSERT(x == x, "{}", x); });
  check_site({"F_ASSERT", p == q, "p == q", {}, "not in {0, 1} at all", __LINE__}, [&] { F_ASSERT(p == q, "not in {{0, 1}} at all"); });
  check_site({"F_ASSERT", i < 2, "i < 2", {}, "{" + std::to_string(i) + "}", __LINE__}, [&] { F_ASSERT(i < 2, "{{{}}}", i); });
  check_site({"F_ASSERT", l > 0, "l > 0", {}, "100%d of {} %s", __LINE__}, [&] { F_ASSERT(l > 0, "100%d of {{}} %s"); });
  check_site({"F_ASSERT_ALWAYS", false, "", {}, "always {x} y", __LINE__}, [&] { F_ASSERT_ALWAYS("always {{x}} y"); });
  const int* pointer = p ? &i : nullptr;
  check_site({"F_ASSERT", pointer != nullptr, "pointer", {}, "", __LINE__}, [&] { F_ASSERT(pointer); });
  check_site({"F_ASSERT_ALWAYS", false, "", {}, "never here", __LINE__}, [&] { F_ASSERT_ALWAYS("never here"); });
  check_site({"F_ASSERT_ALWAYS", false, "", {}, "never " + text, __LINE__}, [&] { F_ASSERT_ALWAYS("never {}", text); });

  // a condition that holds is evaluated exactly once, and the reason's arguments are not needed
  auto tick = [&] { return ++counter; };
  auto never = [&]() -> int {
    R->violation("C29", "reason-evaluated", "the arguments of the reason were evaluated although the condition holds");
    return 0;
  };
  counter = 0;
  F_ASSERT(tick() == 1, "{}", never());
  F_ASSERT_EQ(tick(), 2, "{}", never());
  F_ASSERT_NE(tick(), 0);
  F_ASSERT_LT(tick(), 5);
  F_ASSERT_GT(tick(), 4, "{}", never());
  F_ASSERT_LE(tick(), 6);
  F_ASSERT_GE(7, tick());
  if (counter != 7) R->violation("C29", "evaluated", strf("seven conditions that hold were evaluated %d times", counter));
  // usable as one statement
  int branch = 0;
  if (p)
    F_ASSERT_GE(branch, 0);
  else
    branch = 1;
  if (branch != (p ? 0 : 1)) R->violation("C29", "statement", "an assertion without braces captured the else branch");

  // the library's own assertions
  auto library = [&](const char* what, auto&& f) {
    try {
      f();
      R->violation("C29", std::string("library:") + what, std::string("no error for ") + what);
    } catch (const assert::default_error& e) {
      const std::string m = e.what();
      const size_t at = m.find("Line: ");
      if (m.find("mini_opt") == std::string::npos && m.find("source/") == std::string::npos && m.find(".cc") == std::string::npos && m.find(".hpp") == std::string::npos)
        R->violation("C29", std::string("library-file:") + what, "no source file in " + m);
      if (at == std::string::npos || std::atoi(m.c_str() + at + 6) <= 0) R->violation("C29", std::string("library-line:") + what, "no line in " + m);
      R->count("library-errors");
    } catch (const std::exception& e) {
      R->violation("C29", std::string("library-type:") + what, std::string("not the library's error for ") + what + ": " + e.what());
    }
  };
  const int n = rng.irange(1, 4);
  QP qp;
  qp.G = Eigen::MatrixXd::Identity(n, n);
  qp.c = Eigen::VectorXd::Zero(n + 1);
  library("mismatched sizes", [&] {
    QPInteriorPointSolver solver;
    solver.Setup(&qp);
  });
  library("no problem", [&] {
    QPInteriorPointSolver solver;
    solver.Setup(nullptr);
  });
  library("solve before setup", [&] {
    QPInteriorPointSolver solver;
    (void)solver.Solve(QPInteriorPointSolver::Params{});
  });
  library("no nonlinear problem", [&] { ConstrainedNonlinearLeastSquares solver(nullptr); });

  R->distinct(vh::hash_str(s + "/" + t + val(x) + val(y) + val(i) + val(j)), "C29");
  if (R->case_index() < 12) {
    try {
      F_ASSERT_LT(i, -2000000000, "text is `{}`", text);
    } catch (const std::exception& e) {
      R->sample(e.what());
    }
  }
}

int main(int argc, char** argv) {
  const auto args = vh::Args::parse(argc, argv);
  vh::Reporter rep(args, "drv_structs");
  R = &rep;
  const std::string mode = args.get("mode", "all");
  vh::run_cases(rep, [&](long i, uint64_t seed) {
    Rng rng(seed);
    if (mode == "C29" || (mode == "all" && i % 2))
      assertion_case(rng);
    else
      summary_case(rng);
  });
  return rep.finish();
}
