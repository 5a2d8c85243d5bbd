// C11: residual gather / scatter. C12: inequality constraint algebra.
// Every entry that must not be touched holds a NaN with a recognisable payload, and must come back
// bit for bit; variables that are not named are NaN too and must not influence anything.
#include <algorithm>
#include <memory>
#include <optional>

#include "mini_opt/qp.hpp"
#include "mini_opt/residual.hpp"
#include "vh.hpp"

using namespace mini_opt;
using vh::Rng;
using vh::strf;
static size_t S(long i) { return static_cast<size_t>(i); }

static vh::Reporter* R;

static double poison(uint64_t tag) {
  const uint64_t bits = 0x7ff8000000000000ull | (tag & 0xffffffffffffull);
  double d;
  std::memcpy(&d, &bits, 8);
  return d;
}

// ---------------------------------------------------------------------------------------------
// C11

// Values handed out by the user function, and what it was called with.
struct Plan {
  int r = 0, p = 0;
  std::vector<double> value;     // r
  std::vector<double> jacobian;  // r * p, row major
  std::vector<double> seen;      // parameters at the last call
  long calls = 0, with_jacobian = 0;
  bool bad_shape = false;
};

template <int RD, int PD>
struct Fn {
  std::shared_ptr<Plan> plan;
  std::vector<double> own;  // state owned by the function object
  Eigen::Matrix<double, RD, 1> operator()(const Eigen::Matrix<double, PD, 1>& x, Eigen::Matrix<double, RD, PD>* J) const {
    Plan& p = *plan;
    ++p.calls;
    p.seen.assign(x.data(), x.data() + x.rows());
    if (x.rows() != p.p || own.size() != 3 || own[1] != 42.0) p.bad_shape = true;
    if (J != nullptr) {
      ++p.with_jacobian;
      if (J->rows() != p.r || J->cols() != p.p) {
        p.bad_shape = true;
        J->resize(p.r, p.p);
      }
      for (int i = 0; i < p.r; ++i)
        for (int j = 0; j < p.p; ++j) (*J)(i, j) = p.jacobian[S(i * p.p + j)];
    }
    Eigen::Matrix<double, RD, 1> out;
    for (int i = 0; i < p.r; ++i) out[i] = p.value[S(i)];
    return out;
  }
};

template <int RD, int PD>
static Residual construct(const std::shared_ptr<Plan>& plan, const std::vector<int>& index, Rng& rng) {
  auto f = std::make_unique<Fn<RD, PD>>();
  f->plan = plan;
  f->own = {1, 42, 3};
  auto finish = [&](Residual r) {
    f->own.assign(3, -7);  // a residual must have its own copy of the function object
    f.reset();
    if (rng.chance(0.3)) {
      std::vector<Residual> v;
      v.push_back(std::move(r));
      v.reserve(16);
      return std::move(v.front());
    }
    return r;
  };
  if constexpr (PD == Eigen::Dynamic) {
    std::vector<int> i = index;
    switch (rng.irange(0, 3)) {
      case 0:
        return finish(MakeResidual<RD, PD>(i, *f));
      case 1:
        return finish(MakeResidual<RD, PD>(std::move(i), static_cast<const Fn<RD, PD>&>(*f)));
      case 2:
        if (index.size() == 1) return finish(MakeResidual<RD, PD>({index[0]}, *f));
        if (index.size() == 3) return finish(MakeResidual<RD, PD>({index[0], index[1], index[2]}, *f));
        return finish(MakeResidual<RD, PD>(i, *f));
      default:
        return finish(MakeResidual<RD, PD>(i, Fn<RD, PD>(*f)));
    }
  } else {
    std::array<int, static_cast<size_t>(PD)> i{};
    for (int k = 0; k < PD; ++k) i[S(k)] = index[S(k)];
    if (rng.chance(0.3)) {
      if constexpr (PD == 1) return finish(MakeResidual<RD, PD>({index[0]}, *f));
      if constexpr (PD == 2) return finish(MakeResidual<RD, PD>({index[0], index[1]}, *f));
      if constexpr (PD == 3) return finish(MakeResidual<RD, PD>({index[0], index[1], index[2]}, *f));
      if constexpr (PD == 4) return finish(MakeResidual<RD, PD>({index[0], index[1], index[2], index[3]}, *f));
    }
    if (rng.chance(0.5)) return finish(MakeResidual<RD, PD>(i, *f));
    return finish(MakeResidual<RD, PD>(std::move(i), Fn<RD, PD>(*f)));
  }
}

using Maker = Residual (*)(const std::shared_ptr<Plan>&, const std::vector<int>&, Rng&);
struct Shape {
  int r, p;  // p < 0: dynamic
  Maker make;
};

template <int RD>
static void shapes_for(std::vector<Shape>& v) {
  v.push_back({RD, 1, &construct<RD, 1>});
  v.push_back({RD, 2, &construct<RD, 2>});
  v.push_back({RD, 3, &construct<RD, 3>});
  v.push_back({RD, 4, &construct<RD, 4>});
  v.push_back({RD, 6, &construct<RD, 6>});
  v.push_back({RD, 9, &construct<RD, 9>});
  for (int i = 0; i < 4; ++i) v.push_back({RD, -1, &construct<RD, Eigen::Dynamic>});
}

struct Item {
  Shape shape;
  std::vector<int> index;
  std::shared_ptr<Plan> plan;
  std::optional<Residual> res;
};

static std::string describe(const Item& it, int n) {
  std::string o = strf("R=%d P=%d%s n=%d index=[", it.plan->r, it.plan->p, it.shape.p < 0 ? " dynamic" : "", n);
  for (int i : it.index) o += strf("%d ", i);
  o += "] J=[";
  for (double d : it.plan->jacobian) o += strf("%.17g ", d);
  o += "] r=[";
  for (double d : it.plan->value) o += strf("%.17g ", d);
  return o + "]";
}

static double random_value(Rng& rng, int kind) {
  switch (kind) {
    case 0:  // exact in any order of summation
      return rng.irange(-9, 9);
    case 1:
      return rng.normal();
    case 2:  // wide range of scales
      return rng.sgn() * rng.logu(1e-60, 1e60);
    default:
      if (rng.chance(0.12)) return rng.chance(0.5) ? std::nan("") : rng.sgn() * HUGE_VAL;
      return rng.normal();
  }
}

// Is `got` the sum whose exact value is `want` with terms of total magnitude `mag`?
static bool close(double got, long double want, long double mag, bool exact) {
  if (std::isnan(want)) return std::isnan(got);
  if (std::isinf(want)) return got == want;
  if (exact) return got == static_cast<double>(want);
  return std::fabs(got - want) <= 1e-13L * mag + 1e-300L;
}

static void residual_case(Rng& rng, const std::vector<Shape>& shapes) {
  const int kind = rng.irange(0, 3);
  const bool exact = kind == 0;
  const int count = rng.chance(0.4) ? 1 : rng.irange(2, 4);
  std::vector<Item> items(S(count));
  int n = 1;
  for (auto& it : items) {
    it.shape = shapes[S(rng.irange(0, static_cast<int>(shapes.size()) - 1))];
    it.plan = std::make_shared<Plan>();
    it.plan->r = it.shape.r;
    it.plan->p = it.shape.p > 0 ? it.shape.p : (rng.chance(0.03) ? 0 : rng.chance(0.03) ? rng.irange(13, 70) : rng.irange(1, 12));
    n = std::max(n, rng.irange(1, it.plan->p + 4));
  }
  if (rng.chance(0.02)) n += 60;
  for (auto& it : items) {
    const bool repeats = it.plan->p > n || rng.chance(0.35);
    auto perm = rng.perm(n);
    const int style = rng.irange(0, 3);
    if (!repeats && style == 1) std::sort(perm.begin(), perm.begin() + it.plan->p);
    if (!repeats && style == 2) std::sort(perm.begin(), perm.begin() + it.plan->p, std::greater<int>());
    const int pool = rng.irange(1, n);  // repeated variables among few or many
    for (int k = 0; k < it.plan->p; ++k) it.index.push_back(repeats ? perm[S(rng.irange(0, pool - 1))] : perm[S(k)]);
    for (int k = 0; k < it.plan->r * it.plan->p; ++k) it.plan->jacobian.push_back(rng.chance(0.1) ? 0.0 : random_value(rng, kind));
    for (int k = 0; k < it.plan->r; ++k) it.plan->value.push_back(random_value(rng, kind));
    it.res.emplace(it.shape.make(it.plan, it.index, rng));
    if (it.res->Dimension() != it.plan->r) R->violation("C11", "dimension", strf("Dimension() is %d; ", it.res->Dimension()) + describe(it, n));
    R->count(repeats ? "index-repeated" : "index-distinct");
    R->count(it.shape.p < 0 ? "dynamic" : "static");
  }
  auto fail = [&](const char* key, const std::string& msg, const Item& it) { R->violation("C11", key, msg + "; " + describe(it, n)); };

  // variables: only those of the residual at hand have values
  auto params_for = [&](const Item& it) {
    Eigen::VectorXd x(n);
    for (int i = 0; i < n; ++i) x[i] = poison(S(i) + 1000);
    for (int i : it.index) x[i] = rng.chance(0.05) ? random_value(rng, 3) : rng.normal();
    return x;
  };
  auto check_seen = [&](const Item& it, const Eigen::VectorXd& x, const char* what, bool jac, long calls, long with) {
    const Plan& p = *it.plan;
    if (p.calls == calls) fail("not-called", strf("%s did not call the function", what), it);
    const bool got = p.with_jacobian != with;
    if (got != jac) fail("jacobian-request", strf("%s %s a Jacobian", what, got ? "asked for" : "did not ask for"), it);
    if (p.bad_shape) fail("shape", strf("%s called the function with wrong dimensions or another function object", what), it);
    for (size_t k = 0; k < it.index.size() && k < p.seen.size(); ++k)
      if (!vh::same_bits(p.seen[k], x[it.index[k]]))
        fail("gather", strf("%s passed %.17g as parameter %zu, the variable %d is %.17g", what, p.seen[k], k, it.index[k], x[it.index[k]]), it);
  };

  uint64_t sig = static_cast<uint64_t>(n);
  for (auto& it : items) {
    sig = vh::hash_doubles(it.plan->jacobian.data(), static_cast<long>(it.plan->jacobian.size()), sig);
    Plan& p = *it.plan;
    const Eigen::VectorXd x = params_for(it);
    long double half = 0;
    for (double v : p.value) half += 0.5L * v * v;
    // the error vector, into a block of a larger vector
    {
      const int lead = rng.irange(0, 3), trail = rng.irange(0, 3);
      Eigen::VectorXd out(lead + p.r + trail);
      for (int i = 0; i < out.rows(); ++i) out[i] = poison(S(i));
      const long c = p.calls, w = p.with_jacobian;
      it.res->ErrorVector(x, out.segment(lead, p.r));
      check_seen(it, x, "ErrorVector", false, c, w);
      for (int i = 0; i < out.rows(); ++i) {
        const bool inside = i >= lead && i < lead + p.r;
        if (inside ? !vh::same_value(out[i], p.value[S(i - lead)]) : !vh::same_bits(out[i], poison(S(i))))
          fail(inside ? "error-vector" : "error-vector-outside", strf("ErrorVector left %.17g at %d (block starts at %d)", out[i], i, lead), it);
      }
    }
    {
      const long c = p.calls, w = p.with_jacobian;
      const double q = it.res->QuadraticError(x);
      check_seen(it, x, "QuadraticError", false, c, w);
      if (!close(q, half, half, exact)) fail("quadratic-error", strf("QuadraticError is %.17g, half the squared norm %.17Lg", q, half), it);
    }
    // the Jacobian, into a block of a larger matrix
    {
      const int lead = rng.irange(0, 2), trail = rng.irange(0, 2), left = rng.irange(0, 2), right = rng.irange(0, 2);
      Eigen::MatrixXd M(lead + p.r + trail, left + n + right);
      Eigen::VectorXd out(lead + p.r + trail);
      for (int i = 0; i < M.rows(); ++i)
        for (int j = 0; j < M.cols(); ++j) M(i, j) = poison(S(i * 100 + j));
      for (int i = 0; i < out.rows(); ++i) out[i] = poison(S(i));
      const long c = p.calls, w = p.with_jacobian;
      it.res->UpdateJacobian(x, M.block(lead, left, p.r, n), out.segment(lead, p.r));
      check_seen(it, x, "UpdateJacobian", true, c, w);
      std::vector<char> named(S(n), 0);
      for (int i : it.index) named[S(i)] = 1;
      for (int i = 0; i < M.rows(); ++i) {
        for (int j = 0; j < M.cols(); ++j) {
          const int row = i - lead, col = j - left;
          if (row < 0 || row >= p.r || col < 0 || col >= n || !named[S(col)]) {
            if (!vh::same_bits(M(i, j), poison(S(i * 100 + j))))
              fail("jacobian-outside", strf("UpdateJacobian wrote %.17g to row %d, column %d", M(i, j), row, col), it);
            continue;
          }
          long double want = 0, mag = 0;
          for (int k = 0; k < p.p; ++k)
            if (it.index[S(k)] == col) {
              want += p.jacobian[S(row * p.p + k)];
              mag += std::fabs(p.jacobian[S(row * p.p + k)]);
            }
          R->count("jacobian-entries");
          if (!close(M(i, j), want, mag, exact))
            fail("jacobian", strf("UpdateJacobian produced %.17g at row %d, variable %d, expected %.17Lg", M(i, j), row, col, want), it);
        }
        const bool inside = i >= lead && i < lead + p.r;
        if (inside ? !vh::same_value(out[i], p.value[S(i - lead)]) : !vh::same_bits(out[i], poison(S(i))))
          fail("jacobian-error", strf("UpdateJacobian left %.17g in the error vector at %d (block starts at %d)", out[i], i, lead), it);
      }
    }
  }
  // the normal equations: all residuals into the same H and b
  {
    std::vector<char> hit(S(n * n), 0), bhit(S(n), 0);
    for (auto& it : items)
      for (int a : it.index) {
        bhit[S(a)] = 1;
        for (int b : it.index) hit[S(std::max(a, b) * n + std::min(a, b))] = 1;
      }
    Eigen::MatrixXd H(n, n), H0(n, n);
    Eigen::VectorXd b(n), b0(n);
    std::vector<long double> want(S(n * n), 0), mag(S(n * n), 0), bwant(S(n), 0), bmag(S(n), 0);
    for (int i = 0; i < n; ++i) {
      for (int j = 0; j < n; ++j) {
        H0(i, j) = hit[S(i * n + j)] ? (exact ? rng.irange(-5, 5) : rng.normal()) : poison(S(i * 64 + j));
        if (hit[S(i * n + j)]) {
          want[S(i * n + j)] = H0(i, j);
          mag[S(i * n + j)] = std::fabs(H0(i, j));
        }
      }
      b0[i] = bhit[S(i)] ? (exact ? rng.irange(-5, 5) : rng.normal()) : poison(S(i));
      if (bhit[S(i)]) {
        bwant[S(i)] = b0[i];
        bmag[S(i)] = std::fabs(b0[i]);
      }
    }
    H = H0;
    b = b0;
    for (auto& it : items) {
      Plan& p = *it.plan;
      const Eigen::VectorXd x = params_for(it);
      const long c = p.calls, w = p.with_jacobian;
      const double e = it.res->UpdateHessian(x, &H, &b);
      check_seen(it, x, "UpdateHessian", true, c, w);
      long double half = 0;
      for (double v : p.value) half += 0.5L * v * v;
      if (!close(e, half, half, exact)) fail("hessian-error", strf("UpdateHessian returned %.17g, half the squared norm is %.17Lg", e, half), it);
      for (int k = 0; k < p.p; ++k) {
        for (int l = 0; l < p.p; ++l) {
          const int a = it.index[S(k)], bb = it.index[S(l)];
          if (a < bb) continue;
          for (int r = 0; r < p.r; ++r) {
            const long double t = static_cast<long double>(p.jacobian[S(r * p.p + k)]) * p.jacobian[S(r * p.p + l)];
            want[S(a * n + bb)] += t;
            mag[S(a * n + bb)] += std::fabs(t);
          }
        }
        for (int r = 0; r < p.r; ++r) {
          const long double t = static_cast<long double>(p.jacobian[S(r * p.p + k)]) * p.value[S(r)];
          bwant[S(it.index[S(k)])] += t;
          bmag[S(it.index[S(k)])] += std::fabs(t);
        }
      }
    }
    for (int i = 0; i < n; ++i) {
      for (int j = 0; j < n; ++j) {
        if (!hit[S(i * n + j)]) {
          if (!vh::same_bits(H(i, j), H0(i, j))) fail(j > i ? "hessian-upper" : "hessian-outside", strf("UpdateHessian wrote %.17g at (%d, %d)", H(i, j), i, j), items[0]);
          continue;
        }
        R->count("hessian-entries");
        // (inf - inf in a different order may be inf or NaN)
        if (!std::isfinite(want[S(i * n + j)]) || !std::isfinite(mag[S(i * n + j)])) {
          if (std::isfinite(H(i, j))) fail("hessian-nonfinite", strf("H(%d, %d) is %.17g, expected a non-finite value", i, j, H(i, j)), items[0]);
        } else if (!close(H(i, j), want[S(i * n + j)], mag[S(i * n + j)], exact)) {
          fail("hessian", strf("H(%d, %d) is %.17g, expected %.17Lg (%d residuals)", i, j, H(i, j), want[S(i * n + j)], count), items[0]);
        }
      }
      if (!bhit[S(i)]) {
        if (!vh::same_bits(b[i], b0[i])) fail("gradient-outside", strf("UpdateHessian wrote %.17g to b[%d]", b[i], i), items[0]);
      } else if (!std::isfinite(bmag[S(i)])) {
        if (std::isfinite(b[i])) fail("gradient-nonfinite", strf("b[%d] is %.17g, expected a non-finite value", i, b[i]), items[0]);
      } else if (!close(b[i], bwant[S(i)], bmag[S(i)], exact)) {
        fail("gradient", strf("b[%d] is %.17g, expected %.17Lg (%d residuals)", i, b[i], bwant[S(i)], count), items[0]);
      }
    }
  }
  // GatherValues itself
  {
    const Item& it = items[0];
    const Eigen::VectorXd x = params_for(it);
    Eigen::VectorXd out = Eigen::VectorXd::Constant(rng.irange(0, 20), 5.0);
    GatherValues<Eigen::Dynamic>(x, it.index, &out);
    bool ok = out.rows() == it.plan->p;
    for (int k = 0; ok && k < it.plan->p; ++k) ok = vh::same_bits(out[k], x[it.index[S(k)]]);
    if (!ok) fail("gather-values", "GatherValues did not return the named variables", it);
  }
  R->count("residuals", count);
  R->distinct(sig, "C11");
  if (R->case_index() < 8) R->sample(strf("case %ld: %d residuals, first: ", R->case_index(), count) + describe(items[0], n));
}

// ---------------------------------------------------------------------------------------------
// C12

typedef __float128 quad;
static quad qabs(quad x) { return x < 0 ? -x : x; }

static double any_scale(Rng& rng) {
  switch (rng.irange(0, 5)) {
    case 0:
      return rng.irange(-8, 8);
    case 1:
      return rng.normal();
    case 2:
      return rng.sgn() * rng.logu(1e-12, 1e12);
    case 3:
      return rng.sgn() * rng.logu(1e-150, 1e150);
    case 4:
      return rng.sgn() * std::ldexp(1.0, rng.irange(-40, 40));
    default:
      return rng.chance(0.5) ? rng.sgn() * 0.0 : rng.sgn() * 4.9406564584124654e-324 * rng.irange(1, 5);
  }
}

static void bound_case(Rng& rng) {
  uint64_t sig = 3;
  std::string first;
  for (int rep = 0; rep < 64; ++rep) {
    const int variable = rng.chance(0.05) ? INT32_MAX : rng.irange(0, 50);
    // built by comparison
    {
      double v = any_scale(rng), x = any_scale(rng);
      if (rng.chance(0.3)) x = v;
      if (rng.chance(0.15)) x = std::nextafter(v, rng.sgn() * HUGE_VAL);
      if (rng.chance(0.03)) v = rng.sgn() * 1.7976931348623157e308;
      if (rng.chance(0.03)) x = rng.sgn() * 1.7976931348623157e308;
      if (rng.chance(0.02)) v = rng.sgn() * HUGE_VAL;
      const auto le = Var(variable) <= v, ge = Var(variable) >= v;
      auto bad = [&](const char* key, const std::string& m) { R->violation("C12", key, m + strf("; variable %d, bound %a, x %a", variable, v, x)); };
      if (le.variable != variable || ge.variable != variable) bad("var-index", "a bound refers to another variable");
      if (le.IsFeasible(x) != (x <= v)) bad("var-le", strf("Var <= bound is %s", le.IsFeasible(x) ? "feasible" : "infeasible"));
      if (ge.IsFeasible(x) != (x >= v)) bad("var-ge", strf("Var >= bound is %s", ge.IsFeasible(x) ? "feasible" : "infeasible"));
      const double cl = le.ClampX(x), cg = ge.ClampX(x);
      if (cl != std::min(x, v)) bad("clamp-le", strf("clamped to %a by <=", cl));
      if (cg != std::max(x, v)) bad("clamp-ge", strf("clamped to %a by >=", cg));
      if (!le.IsFeasible(cl) || !ge.IsFeasible(cg)) {
        if (std::isfinite(cl) && std::isfinite(cg)) bad("clamp-infeasible", "the clamped value is not feasible");
      }
      if (x <= v && x >= v)
        R->count("at-bound");
      else
        R->count(x <= v ? "below-bound" : "above-bound");
      const double nan = std::nan("");
      if (le.IsFeasible(nan) || ge.IsFeasible(nan)) bad("nan-feasible", "NaN is feasible");
      sig = vh::mix64(sig ^ vh::hash_doubles(&v, 1, vh::hash_doubles(&x, 1)));
    }
    // any coefficients
    {
      double a = any_scale(rng);
      if (a == 0) a = rng.sgn();
      const double b = any_scale(rng);
      double x = any_scale(rng);
      const quad bound = -static_cast<quad>(b) / a;  // the boundary
      const double bd = static_cast<double>(bound);
      const bool finite = std::isfinite(bd);
      if (finite && rng.chance(0.3)) x = bd;
      if (finite && rng.chance(0.3)) x = bd + rng.uni(-2, 2) * std::max(std::fabs(bd), 1e-300) * rng.logu(1e-15, 1);
      if (!std::isfinite(x)) x = 0;
      const LinearInequalityConstraint c(variable, a, b);
      auto bad = [&](const char* key, const std::string& m) { R->violation("C12", key, m + strf("; a %a, b %a, x %a, boundary %a", a, b, x, bd)); };
      const quad value = static_cast<quad>(a) * x + b;
      const quad mag = qabs(static_cast<quad>(a) * x) + qabs(b);
      int e;
      // the product is exact and normal for powers of two, so the sign is not in doubt
      const bool power = std::fabs(std::frexp(a, &e)) == 0.5 && (x == 0 || (qabs(static_cast<quad>(a) * x) > 1e-300 && qabs(static_cast<quad>(a) * x) < 1e300));
      const bool clear = power || qabs(value) > 1e-15 * mag + static_cast<quad>(1e-322);
      if (clear) {
        R->count(power ? "feasibility-exact" : "feasibility-clear");
        if (c.IsFeasible(x) != (value >= 0)) bad("is-feasible", strf("IsFeasible is %d", c.IsFeasible(x)));
      }
      const double y = c.ClampX(x);
      const quad slack_of_x = a > 0 ? static_cast<quad>(x) - bound : bound - static_cast<quad>(x);
      const quad tol = 4.5e-16 * qabs(bound) + static_cast<quad>(1e-323);
      if (slack_of_x > tol) {
        R->count("clamp-feasible");
        if (y != x) bad("clamp-moved", strf("a feasible value was clamped to %a", y));
      } else if (slack_of_x < -tol) {
        R->count("clamp-infeasible");
        if (finite ? !(qabs(static_cast<quad>(y) - bound) <= tol) : y != bd) bad("clamp-not-nearest", strf("an infeasible value was clamped to %a", y));
      } else if (!(y == x || qabs(static_cast<quad>(y) - bound) <= tol)) {
        bad("clamp-boundary", strf("a value on the boundary was clamped to %a", y));
      }
      const auto s = c.ShiftTo(x);
      if (s.variable != variable || !vh::same_bits(s.a, a)) bad("shift-changed", strf("shifting changed the variable or the coefficient (%d, %a)", s.variable, s.a));
      if (mag < static_cast<quad>(1e300)) {
        R->count("shifted");
        if (!(qabs(static_cast<quad>(s.b) - value) <= 4.5e-16 * mag + static_cast<quad>(1e-323))) bad("shift-offset", strf("the shifted offset is %a", s.b));
      }
      // the version that takes all the variables
      const int n = rng.irange(1, 6), v = rng.irange(0, n - 1);
      Eigen::VectorXd xs(n);
      for (int i = 0; i < n; ++i) xs[i] = poison(S(i));
      xs[v] = x;
      const auto sv = LinearInequalityConstraint(v, a, b).ShiftTo(xs);
      if (sv.variable != v || !vh::same_bits(sv.a, a) || !vh::same_value(sv.b, s.b)) bad("shift-vector", "ShiftTo(vector) differs from ShiftTo(value)");
      sig = vh::mix64(sig ^ vh::hash_doubles(&a, 1, vh::hash_doubles(&b, 1)));
      if (first.empty()) first = strf("a %a b %a x %a -> clamp %a shift %a", a, b, x, y, s.b);
    }
    // small dyadic numbers: everything is exact
    {
      const double a = rng.sgn() * rng.irange(1, 64) / 8.0, b = rng.irange(-512, 512) / 64.0, x = rng.irange(-64, 64) / 8.0;
      double dx = rng.irange(-64, 64) / 8.0;
      const LinearInequalityConstraint c(variable, a, b);
      const double at = -(a * x + b) / a;  // the step that reaches the boundary
      if (rng.chance(0.4) && at * 4096 == std::rint(at * 4096)) dx = at;
      const auto s = c.ShiftTo(x);
      const bool want = a * (x + dx) + b >= 0;
      R->count(a * (x + dx) + b == 0 ? "shift-at-boundary" : want ? "shift-feasible" : "shift-infeasible");
      if (s.IsFeasible(dx) != want || c.IsFeasible(x + dx) != want)
        R->violation("C12", "shift-equivalence", strf("a %g b %g x %g dx %g: shifted %d, original %d, expected %d", a, b, x, dx, s.IsFeasible(dx), c.IsFeasible(x + dx), want));
    }
  }
  R->distinct(sig, "C12");
  if (R->case_index() < 8) R->sample(strf("case %ld: 64 groups of bounds, first: ", R->case_index()) + first);
}

int main(int argc, char** argv) {
  const auto args = vh::Args::parse(argc, argv);
  vh::Reporter rep(args, "drv_res");
  R = &rep;
  std::vector<Shape> shapes;
  shapes_for<1>(shapes);
  shapes_for<2>(shapes);
  shapes_for<3>(shapes);
  shapes_for<4>(shapes);
  shapes_for<5>(shapes);
  shapes_for<8>(shapes);
  const std::string mode = args.get("mode", "all");
  vh::run_cases(rep, [&](long i, uint64_t seed) {
    Rng rng(seed);
    const bool c11 = mode == "C11" || (mode == "all" && i % 2 == 0);
    try {
      if (c11)
        residual_case(rng, shapes);
      else
        bound_case(rng);
    } catch (const std::exception& e) {
      R->violation(c11 ? "C11" : "C12", "exception", strf("unexpected exception: %s", e.what()));
    }
  });
  return rep.finish();
}
