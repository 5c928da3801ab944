// Helpers for Bayesian parameter estimation: densities, likelihood, and the adaptation of the proposal (U06).
#include "vs.hpp"
#include "settings/settings.hpp"
#include "utility/utility.hpp"
#include "utility/slide_aux.hpp"
#include "types/matrix.hpp"
#include "optimisation/MCMC.hpp"
using namespace slide;
using vh::Ctx;
using vh::fmt;
using vh::Rng;

namespace {
template <size_t N>
void adapt(Ctx &c, Rng &r)
{
  Matrix<double, N, N> S{};
  for (size_t i = 0; i < N; i++)
    for (size_t j = 0; j <= i; j++) S[i][j] = i == j ? r.logu(1e-2, 10) : r.u(-1, 1);
  // a chain of adaptations: each changes the covariance by the step in the direction of the last proposal
  for (int it = 1, m = r.i(1, 6); it <= m; it++) {
    std::array<double, N> w;
    for (auto &x : w) x = r.u(-2, 2);
    if (r.p(0.2)) w.fill(0), w[r.i(0, N - 1)] = r.sgn() * r.logu(1e-3, 10);
    const double alpha = r.p(0.2) ? r.pick(std::vector<double>{ 0, 0.234, 1 }) : r.u(0, 1);
    const double n = r.p(0.3) ? 1 : r.logu(1, 1e6);
    const auto S0 = S, S1 = S_update<N>(S, w, alpha, n);
    bool same = true;
    for (size_t i = 0; i < N; i++)
      for (size_t j = 0; j < N; j++) same = same && S[i][j] == S0[i][j];
    c.ok(same, "argument-changed");
    double ww = 0;
    for (double x : w) ww += x * x;
    const double eta = (alpha - 0.234) / std::sqrt(n);
    const std::string what = fmt("size %zu, acceptance %g, iteration %g", N, alpha, n);
    // S1 S1' = S (1 + eta w w'/|w|^2) S'
    std::array<double, N> Sw{};
    for (size_t i = 0; i < N; i++)
      for (size_t j = 0; j <= i; j++) Sw[i] += S0[i][j] * w[j];
    for (size_t i = 0; i < N; i++)
      for (size_t j = 0; j < N; j++) {
        double got = 0, want = eta * Sw[i] * Sw[j] / ww, sc = std::fabs(want);
        for (size_t o = 0; o < N; o++) got += S1[i][o] * S1[j][o], want += S0[i][o] * S0[j][o], sc += std::fabs(S0[i][o] * S0[j][o]);
        c.eq(got, want, 0, 1e-11 * (1 + sc), "covariance-after-adaptation", what);
        if (j > i) c.ok(S1[i][j] == 0, "factor-not-triangular", what);
        if (j == i) c.ok(S1[i][i] > 0, "factor-not-positive", what);
      }
    S = S1;
    c.ev("adaptations");
    c.seen("adaptations", vh::hmix((int)N, vh::hd(alpha, 1e-3)));
  }
}
template <size_t N, size_t O>
void likelihood(Ctx &c, Rng &r)
{
  MCMC_Input<N, O> th{};
  std::array<double, N> sc;
  std::vector<GammaDensityFunctor> ds;
  std::vector<std::pair<double, double>> ab;
  for (auto &x : th.param) x = r.logu(1e-2, 10);
  for (auto &x : th.logR) x = r.u(-12, 1);
  for (auto &x : sc) x = r.sgn() * r.logu(1e-6, 1e3);
  for (size_t i = 0; i < N; i++) ab.push_back({ r.u(0.5, 8), r.logu(0.1, 10) }), ds.emplace_back(ab[i].first, ab[i].second);
  const auto kept = th;
  // elements
  c.ok(th.size() == N + O && th.input_size() == N && th.output_size() == O, "input-size");
  const auto &cth = th;
  for (size_t i = 0; i < N + O; i++) {
    const double want = i < N ? th.param[i] : th.logR[i - N];
    c.eq(th[i], want, 0, 0, "input-element", fmt("%zu of %zu+%zu", i, N, O));
    c.eq(cth[i], want, 0, 0, "input-element", fmt("%zu of %zu+%zu", i, N, O));
  }
  int bad = 0;
  for (size_t i : { N + O, N + O + r.i(1, 9) }) {
    try {
      th[i];
    } catch (int) {
      bad++;
    }
    try {
      (void)cth[i];
    } catch (int) {
      bad++;
    }
  }
  c.ok(bad == 4, "element-outside", fmt("%d of 4 refused", bad));
  auto scaled = th.scale(sc);
  for (size_t i = 0; i < N; i++) c.eq(scaled[i], th.param[i] * sc[i], 1e-15, 0, "scaled-parameter");
  c.eq(th.get_R(), std::exp(th.logR[0]), 1e-15, 0, "noise-variance");
  // likelihood
  MCMCSettings<N, O> set;
  set.theta_scalar = sc;
  Prior<GammaDensityFunctor> prior(ds);
  const double err = r.logu(1e-6, 1e3);
  std::array<double, N> seen{};
  int calls = 0;
  auto cost = [&](const auto &p) {
    for (size_t i = 0; i < N; i++) seen[i] = p[i];
    calls++;
    return err;
  };
  const size_t nobs = r.i(0, 5000);
  if (r.p(0.2)) th.param[r.i(0, N - 1)] *= r.p(0.5) ? 0 : -1;
  double P = 0;
  bool ok = true;
  for (size_t i = 0; i < N; i++) {
    const double x = th.param[i];
    if (x <= 0) ok = false;
    else P += (ab[i].first - 1) * std::log(x) - x / ab[i].second - std::lgamma(ab[i].first) - ab[i].first * std::log(ab[i].second);
  }
  const auto [res, fl] = LL(th, prior, cost, nobs, set);
  c.ok(fl == ok, "prior-support", fmt("flag %d", (int)fl));
  if (!ok) {
    c.ok(calls == 0, "cost-of-impossible-parameters");
    c.ev("impossible-parameters");
    return;
  }
  const double R = std::exp(th.logR[0]), l1 = 0.5 * nobs * std::log(2 * 3.14159265358979323846 * R), l2 = err / (2 * R);
  c.ok(calls == 1, "cost-calls");
  for (size_t i = 0; i < N; i++) c.eq(seen[i], th.param[i] * sc[i], 1e-15, 0, "cost-parameters");
  c.eq(res[3], P, 1e-9, 1e-9, "log-prior");
  c.eq(res[1], l1, 1e-10, 1e-10, "likelihood-normalisation");
  c.eq(res[2], l2, 1e-10, 1e-12, "likelihood-misfit");
  c.eq(res[0], -P + l1 + l2, 1e-9, 1e-9 * (1 + std::fabs(P) + std::fabs(l1) + l2), "negative-log-posterior");
  c.eq(res[4], err, 0, 0, "squared-error");
  MCMC_Record<N, O> rec{ th, res };
  c.ok(rec.size() == N + O + 5, "record-size");
  for (size_t i = 0; i < rec.size(); i++) c.eq(rec[i], i < N ? th.param[i] : i < N + O ? th.logR[i - N] : res[i - N - O], 0, 0, "record-element");
  c.eq(rec.back(), err, 0, 0, "record-last");
  (void)kept;
  c.ev("likelihoods");
  c.seen("likelihoods", vh::hd(res[0], 1e-6));
}
template <int P>
void norms(Ctx &c, Rng &r)
{
  std::vector<double> v(r.i(1, 12));
  for (auto &x : v) x = r.sgn() * r.logu(1e-3, 1e3);
  double s = 0;
  for (double x : v) s += std::pow(std::fabs(x), P);
  c.eq(slide::norm_sq<P>(v), s, 1e-12, 0, "sum-of-powers", fmt("power %d", P));
  c.eq(slide::norm<P>(v), std::pow(s, 1.0 / P), 1e-12, 0, "norm", fmt("power %d", P));
  c.ev("norms");
}
} // namespace

VH_PROP(U06)
{
  auto &c = cx;
  c.run("adaptation", c.scale(2000, 40000), [&](Rng &r, int k) {
    switch (k % 5) {
    case 0: return adapt<1>(c, r);
    case 1: return adapt<2>(c, r);
    case 2: return adapt<3>(c, r);
    case 3: return adapt<5>(c, r);
    default: return adapt<9>(c, r);
    }
  });
  c.run("likelihood", c.scale(2000, 40000), [&](Rng &r, int k) {
    switch (k % 4) {
    case 0: return likelihood<1, 1>(c, r);
    case 1: return likelihood<2, 1>(c, r);
    case 2: return likelihood<5, 2>(c, r);
    default: return likelihood<8, 3>(c, r);
    }
  });
  c.run("norms", c.scale(600, 6000), [&](Rng &r, int k) {
    switch (k % 4) {
    case 0: return norms<1>(c, r);
    case 1: return norms<2>(c, r);
    case 2: return norms<3>(c, r);
    default: return norms<4>(c, r);
    }
  });
  // a density integrates to 1
  c.run("density", c.scale(200, 2000), [&](Rng &r, int) {
    const double a = r.u(1, 8), b = r.logu(0.05, 20);
    GammaDensityFunctor f(a, b);
    const double hi = b * (a + 12 * std::sqrt(a) + 40);
    const int n = 20000;
    double s = 0, m = 0;
    for (int i = 0; i < n; i++) {
      const double x = (i + 0.5) * hi / n, y = f(x);
      c.ok(y >= 0, "density-negative");
      s += y * hi / n, m += x * y * hi / n;
    }
    c.eq(s, 1, 1e-3, 0, "density-normalised", fmt("shape %g scale %g", a, b));
    c.eq(m, a * b, 2e-3, 0, "density-mean", fmt("shape %g scale %g", a, b));
    c.ev("densities");
  });
}
