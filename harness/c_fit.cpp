// U05 matching electrode curves to the open-circuit voltage of a cell.
#include "procedures/determine_OCV.cpp" // hierarchicalOCVfit has a deduced return type
#include "vs.hpp"
#include <filesystem>
#include <fstream>
#include <limits>
#include <map>
#include <sstream>
using namespace vs;
using vh::Ctx;
namespace fs = std::filesystem;
using slide::XYdata_vv;

namespace {
constexpr double FAR = 96487; // C mol-1, the value used throughout the library
constexpr double CP = 51385, CN = 30555;
struct Curve {
  std::vector<double> x, y;
  double at(double f) const // caller keeps f inside
  {
    size_t i = std::lower_bound(x.begin(), x.end(), f) - x.begin();
    if (i == 0) return y[0];
    return y[i - 1] + (y[i] - y[i - 1]) * (f - x[i - 1]) / (x[i] - x[i - 1]);
  }
  bool in(double f) const { return f >= x[0] && f <= x.back(); }
  XYdata_vv xy() const
  {
    auto a = x, b = y;
    return XYdata_vv(a, b);
  }
};
Curve electrode(Rng &r, double hi, double lo)
{
  Curve c;
  const int n = r.p(0.2) ? 2 : r.i(3, 60);
  std::vector<double> w{ 0 }, d{ 0 };
  for (int i = 1; i < n; i++) w.push_back(w.back() + r.u(0.3, 1)), d.push_back(d.back() + (r.p(0.2) ? 0.02 : r.u(0.2, 1)));
  for (int i = 0; i < n; i++) c.x.push_back(w[i] / w.back()), c.y.push_back(hi - (hi - lo) * d[i] / d.back());
  c.x.back() = 1;
  return c;
}
struct Par {
  double AMp, AMn, sp, sn;
};
struct Problem {
  Curve p, n;
  double cap;
  Par par;
};
Problem problem(Rng &r)
{
  Problem q;
  q.p = electrode(r, r.u(4.2, 4.6), r.u(2.9, 3.5));
  q.n = electrode(r, r.u(0.6, 1.2), r.u(0.01, 0.1));
  q.cap = r.logu(0.1, 50);
  const double mol = q.cap * 3600 / FAR;
  q.par.sp = r.u(0.2, 0.5), q.par.sn = r.u(0.6, 0.9);
  q.par.AMp = mol / CP / (r.u(0.75, 0.97) - q.par.sp);
  q.par.AMn = mol / CN / (q.par.sn - r.u(0.03, 0.25));
  return q;
}
// voltage after discharging Ah, and whether the fractions are known
double volt(const Problem &q, const Par &k, double Ah, bool &known)
{
  const double sp = k.sp + Ah * 3600 / FAR / k.AMp / CP, sn = k.sn - Ah * 3600 / FAR / k.AMn / CN;
  known = q.p.in(sp) && q.n.in(sn);
  return known ? q.p.at(sp) - q.n.at(sn) : 0;
}
// root mean square difference; a simulated curve that has ended counts as 0 V
double rms(const Problem &q, const Par &k, const Curve &cell)
{
  double s = 0;
  bool end = false;
  for (size_t i = 0; i < cell.x.size(); i++) {
    double v = 0;
    if (!end) {
      bool known;
      v = volt(q, k, cell.x[i], known);
      if (!known || v <= cell.y.back()) end = true;
    }
    s += (cell.y[i] - v) * (cell.y[i] - v);
  }
  return std::sqrt(s / cell.x.size());
}
Curve measure(const Problem &q, Rng &r, double noise)
{
  Curve c;
  const int n = r.i(6, 30);
  for (int i = 0; i < n; i++) {
    bool known;
    const double Ah = i == 0 ? 0 : q.cap * (i + (i + 1 < n ? r.u(-0.3, 0.3) : 0)) / (n - 1);
    c.x.push_back(Ah), c.y.push_back(volt(q, q.par, Ah, known) + noise * r.n());
  }
  return c;
}
int file_no = 0;
std::string put(const Curve &c, std::string *whole = nullptr)
{
  const auto name = fmt("verif_fit_%d_%d.csv", (int)getpid(), file_no++);
  std::ofstream o(PathVar::data / name);
  for (size_t i = 0; i < c.x.size(); i++) o << fmt("%.17g,%.17g\n", c.x[i], c.y[i]);
  if (whole) o << *whole;
  return name;
}
void drop(const std::string &n) { fs::remove(PathVar::data / n); }
template <class F>
int thrown(F &&f)
{
  try {
    f();
  } catch (int e) {
    return e;
  }
  return 0;
}
std::map<std::string, std::vector<std::string>> csv(const fs::path &p)
{
  std::map<std::string, std::vector<std::string>> m;
  std::ifstream in(p);
  std::string l;
  while (std::getline(in, l)) {
    std::stringstream s(l);
    std::string k, v;
    std::getline(s, k, ',');
    while (std::getline(s, v, ',')) m[k].push_back(v);
  }
  return m;
}
struct Axis {
  double lo, d;
  int n;
  slide::FixedData<double> space() const { return slide::linspace_fix(lo, lo + d * (n - 1), n); }
  double at(int i) const { return lo + i * d; }
};
Axis around(Rng &r, double v, double d, int n, int &k)
{
  k = r.i(0, n - 1);
  return { v - k * d, d, n };
}
} // namespace

template <typename... A>
bool curve_only(A &&...a)
{
  if constexpr (requires { slide::discharge_noexcept(a...); }) return slide::discharge_noexcept(a...);
  else return false;
}

VH_PROP(U05)
{
  auto &c = cx;
  c.run("discharge", c.scale(1000, 20000), [&](Rng &r, int) {
    auto q = problem(r);
    Par k = q.par;
    if (r.p(0.5)) k.sp = r.u(0, 1), k.sn = r.u(0, 1);
    if (r.p(0.3)) k.AMp *= r.logu(0.3, 3), k.AMn *= r.logu(0.3, 3);
    const bool bad = r.p(0.15);
    if (bad) (r.p(0.5) ? k.sp : k.sn) = r.p(0.5) ? r.u(1.0001, 3) : r.u(-2, -1e-4);
    double Vend = r.u(2, 4.3);
    XYdata_vv V, A, C;
    double fp[3] = { -7, -7, -7 }, fn[3] = { -7, -7, -7 };
    const auto P = q.p.xy(), N = q.n.xy();
    const int e = thrown([&] { slide::discharge(P, N, q.cap, k.AMp, k.AMn, CP, CN, k.sp, k.sn, Vend, V, A, C, fp, fn); });
    const auto info = fmt("cap %g AMp %g AMn %g sp %g sn %g Vend %g", q.cap, k.AMp, k.AMn, k.sp, k.sn, Vend);
    c.ok((e != 0) == bad, "start-outside-curve-accepted", info + fmt(": error %d", e));
    c.ev(bad ? "discharges-refused" : "discharges");
    if (bad || e) return;
    const size_t n = V.x.size();
    if (!c.ok(n >= 2 && V.y.size() == n && A.x.size() == n && A.y.size() == n && C.x.size() == n && C.y.size() == n, "curve-sizes", info)) return;
    const double dAh = 0.1 * q.cap * 5 / 3600, dsp = dAh * 3600 / FAR / k.AMp / CP, dsn = dAh * 3600 / FAR / k.AMn / CN;
    auto ended = [&](double Ah) { // the discharge ends with the step from here
      bool known;
      const double v = volt(q, k, Ah, known);
      const double sp = k.sp + Ah * 3600 / FAR / k.AMp / CP + dsp, sn = k.sn - Ah * 3600 / FAR / k.AMn / CN - dsn;
      const double m = std::min({ v - Vend, sp, 1 - sp, sn, 1 - sn });
      return m < -1e-7 ? 1 : m > 1e-7 ? 0 : -1;
    };
    for (size_t i = 0; i < n; i++) {
      bool known;
      const double Ah = V.x[i], before = std::max(0.0, Ah - dAh);
      c.eq(C.x[i], k.sp + Ah * 3600 / FAR / k.AMp / CP, 1e-8, 1e-9, "cathode-fraction", info);
      c.eq(A.x[i], k.sn - Ah * 3600 / FAR / k.AMn / CN, 1e-8, 1e-9, "anode-fraction", info);
      c.eq(V.y[i], C.y[i] - A.y[i], 1e-12, 1e-12, "cell-is-difference", info);
      const double v1 = volt(q, k, before, known);
      bool known2;
      const double v2 = volt(q, k, Ah, known2);
      if (known && known2) c.le(std::min(v1, v2), V.y[i], 1e-7, "voltage-low", info), c.le(V.y[i], std::max(v1, v2), 1e-7, "voltage-high", info);
      else if (known) c.eq(V.y[i], v1, 0, 1e-7, "voltage-at-end", info);
      if (i > 0) c.le(V.x[i - 1] + 0.5 * dAh, Ah, 0, "charge-increases", info);
      if (i > 0 && i + 1 < n) c.ok(ended(before) != 1, "continued-past-end", info + fmt(" at %g Ah", Ah));
    }
    if (n > 2 || V.x[n - 1] > 1.5 * dAh) c.ok(ended(std::max(0.0, V.x[n - 1] - 2 * dAh)) != 1, "ended-late", info);
    c.ok(ended(std::max(0.0, V.x[n - 1] - dAh)) != 0, "ended-early", info + fmt(" at %g Ah, %g V", V.x[n - 1], V.y[n - 1]));
    c.eq(fp[0], k.sp, 0, 0, "fraction-start"), c.eq(fn[0], k.sn, 0, 0, "fraction-start");
    c.eq(fp[2], C.x[n - 1], 0, 1e-15, "fraction-end"), c.eq(fn[2], A.x[n - 1], 0, 1e-15, "fraction-end");
    c.eq(fp[1], 0.5 * (fp[0] + fp[2]), 0, 1e-15, "fraction-middle"), c.eq(fn[1], 0.5 * (fn[0] + fn[2]), 0, 1e-15, "fraction-middle");
    c.eq((fp[2] - fp[0]) * k.AMp * CP, (fn[0] - fn[2]) * k.AMn * CN, 1e-7, 0, "lithium-conserved", info);
    for (double f : { fp[2] - dsp, fn[2] + dsn }) c.ok(f > -1e-9 && f < 1 + 1e-9, "fraction-out-of-range", info);
    // the variant which only keeps the cell's curve finds the same one
    XYdata_vv V2;
    double fp2[3] = { -7, -7, -7 }, fn2[3] = { -7, -7, -7 };
    if (curve_only(P, N, q.cap, k.AMp, k.AMn, CP, CN, k.sp, k.sn, Vend, V2, fp2, fn2)) {
      c.ev("curves-alone");
      if (c.ok(V2.x.size() == n && V2.y.size() == n, "curve-alone-differs", info))
        for (size_t i = 0; i < n; i++)
          if (!c.eq(V2.x[i], V.x[i], 1e-9, 1e-12, "curve-alone-differs", info) || !c.eq(V2.y[i], V.y[i], 1e-9, 1e-9, "curve-alone-differs", info)) break;
      for (int i = 0; i < 3; i++) c.eq(fp2[i], fp[i], 1e-9, 1e-12, "fraction-alone-differs", info), c.eq(fn2[i], fn[i], 1e-9, 1e-12, "fraction-alone-differs", info);
    }
    c.seen("discharge", vh::hd(V.x[n - 1], 1e-6));
  });

  c.run("difference", c.scale(1500, 30000), [&](Rng &r, int) {
    auto rnd = [&](int n) {
      Curve q;
      double x = r.p(0.5) ? 0 : r.u(0, 1);
      for (int i = 0; i < n; i++) q.x.push_back(x), q.y.push_back(r.u(2, 4.5)), x += r.logu(1e-3, 1);
      return q;
    };
    auto cell = rnd(r.i(1, 40)), sim = rnd(r.i(1, 40));
    if (r.p(0.2)) sim = cell;
    const bool bound = r.p(0.5);
    auto a = cell.xy(), b = sim.xy();
    double s = 0;
    for (size_t i = 0; i < cell.x.size(); i++) {
      const double x = cell.x[i];
      const double v = sim.in(x) ? sim.at(x) : bound ? 0 : x < sim.x[0] ? sim.y[0] : sim.y.back();
      s += (cell.y[i] - v) * (cell.y[i] - v);
    }
    c.eq(slide::calculateError(bound, a, b), std::sqrt(s / cell.x.size()), 1e-11, 1e-13, "rms", fmt("%zu against %zu points, bound %d", cell.x.size(), sim.x.size(), bound));
    c.ev("differences");
  });

  c.run("curve-format", c.scale(1500, 30000), [&](Rng &r, int k) {
    auto q = electrode(r, 4.5, r.u(0, 1));
    const bool whole = r.p(0.5);
    if (!whole)
      for (auto &x : q.x) x *= 3.7;
    bool want = true;
    const int n = (int)q.x.size(), i = r.i(0, n - 1);
    std::string how = "valid";
    switch (k % 8) {
    case 0: q.x[0] = r.p(0.5) ? -9e-6 : 9e-6 * (n > 2 ? 1 : 1), how = "within tolerance"; break;
    case 1: q.x[0] = -r.logu(2e-5, 1), want = false, how = "starts below 0"; break;
    case 2:
      if (i > 0) q.x[i] = r.p(0.5) ? q.x[i - 1] : q.x[i - 1] - r.u(0.01, 1), want = false, how = "not increasing";
      break;
    case 3: q.y[i] = -r.logu(1e-6, 5), want = false, how = "negative voltage"; break;
    case 4: q.y[i] = 10 + r.logu(1e-6, 5), want = false, how = "voltage above 10"; break;
    case 5:
      q.x.back() = 1 + r.logu(2e-5, 1), how = "ends above 1";
      if (!whole) q.x.back() *= 3.7;
      want = !whole;
      break;
    case 6:
      for (auto &x : q.x) x *= 0.9;
      want = !whole, how = "ends below 1";
      break;
    default: break;
    }
    auto d = q.xy();
    c.ok(slide::validOCV(whole, d) == want, want ? "valid-refused" : "invalid-accepted", how + fmt(" (%d points, electrode %d)", n, whole));
    c.ev(want ? "curves-valid" : "curves-invalid");
    if (k % 5 == 0) { // through files: any of the three may be the wrong one
      auto pr = problem(r);
      Curve cell = measure(pr, r, 0), cv[3] = { pr.p, pr.n, cell };
      const int which = r.i(0, 2);
      if (whole == (which < 2)) cv[which] = q;
      else want = true;
      std::string junk = "oops,1\n";
      const bool missing = r.p(0.1), broken = !missing && r.p(0.1), empty = !missing && !broken && r.p(0.1);
      if (empty) cv[which] = Curve{};
      const std::string f[3] = { put(cv[0], broken && which == 0 ? &junk : nullptr), put(cv[1], broken && which == 1 ? &junk : nullptr), put(cv[2], broken && which == 2 ? &junk : nullptr) };
      std::string g[3] = { f[0], f[1], f[2] };
      if (missing) g[which] = "verif_no_such_file.csv";
      XYdata_vv P(3), N, C;
      const int e = thrown([&] { slide::readOCVinput(g[0], g[1], g[2], P, N, C); });
      c.ok((e == 0) == (want && !missing && !broken && !empty), "reading-curves", how + fmt(" error %d missing %d broken %d empty %d", e, missing, broken, empty));
      if (e == 0) {
        const XYdata_vv *got[3] = { &P, &N, &C };
        for (int j = 0; j < 3; j++) c.ok(got[j]->x == cv[j].x && got[j]->y == cv[j].y, "curve-content", fmt("file %d", j));
      }
      for (auto &x : f) drop(x);
      c.ev("files-read");
    }
  });

  c.run("fit", c.scale(400, 8000), [&](Rng &r, int k) {
    auto q = problem(r);
    const double noise = k % 3 == 0 ? r.logu(1e-4, 0.05) : 0;
    const auto cell = measure(q, r, noise);
    for (double v : cell.y)
      if (v < 0.01) return;
    const auto fp = put(q.p), fn = put(q.n), fc = put(cell);
    static const std::vector<int> sizes{ 2, 3, 3, 4, 5, 5, 6, 7 };
    const bool odd = r.p(0.6);
    int ix[4], N[4];
    for (auto &n : N) do
        n = r.pick(sizes);
      while (odd && n % 2 == 0);
    const bool ongrid = r.p(0.7);
    Par t = q.par;
    if (!ongrid) t.AMp *= r.u(0.95, 1.05), t.AMn *= r.u(0.95, 1.05), t.sp += r.u(-0.02, 0.02), t.sn += r.u(-0.02, 0.02);
    Axis ax[4] = { around(r, t.AMp, t.AMp * r.u(0.01, 0.08), N[0], ix[0]), around(r, t.AMn, t.AMn * r.u(0.01, 0.08), N[1], ix[1]), around(r, t.sp, r.u(0.002, 0.025), N[2], ix[2]), around(r, t.sn, r.u(0.002, 0.015), N[3], ix[3]) };
    // all candidates of the first level
    double best = 1e9, second = 1e9;
    Par bp{};
    for (int a = 0; a < N[0]; a++)
      for (int b = 0; b < N[1]; b++)
        for (int e = 0; e < N[2]; e++)
          for (int f = 0; f < N[3]; f++) {
            const Par x{ ax[0].at(a), ax[1].at(b), ax[2].at(e), ax[3].at(f) };
            const double m = rms(q, x, cell);
            if (m < best) second = best, best = m, bp = x;
            else second = std::min(second, m);
          }
    const auto info = fmt("%s noise %g grid %dx%dx%dx%d true %g %g %g %g", ongrid ? "on grid" : "off grid", noise, N[0], N[1], N[2], N[3], q.par.AMp, q.par.AMn, q.par.sp, q.par.sn);
    const int hmax = r.i(1, c.thorough ? 4 : 3);
    double prev = 1e9, d[4];
    Par pp{};
    bool clamped = false;
    for (int j = 0; j < 4; j++) d[j] = ax[j].d;
    for (int h = 1; h <= hmax; h++) {
      const auto [par, err] = slide::hierarchicalOCVfit(h, ax[0].space(), ax[1].space(), ax[2].space(), ax[3].space(), fp, fn, fc, CP, CN);
      const Par got{ par[0], par[1], par[2], par[3] };
      const auto hi = info + fmt(" level %d: %g %g %g %g err %g", h, got.AMp, got.AMn, got.sp, got.sn, err);
      c.eq(err, rms(q, got, cell), 1e-6, 1e-9, "reported-error", hi);
      c.ok(got.sp >= 0 && got.sp <= 1 && got.sn >= 0 && got.sn <= 1, "fraction-range", hi);
      const double g[4] = { got.AMp, got.AMn, got.sp, got.sn }, o[4] = { pp.AMp, pp.AMn, pp.sp, pp.sn };
      if (h == 1) {
        c.eq(err, best, 1e-7, 1e-10, "not-the-best-candidate", hi + fmt(" best %g", best));
        if (second > best * (1 + 1e-6) + 1e-8)
          for (int j = 0; j < 4; j++) c.eq(g[j], j == 0 ? bp.AMp : j == 1 ? bp.AMn : j == 2 ? bp.sp : bp.sn, 1e-9, 0, "best-candidate-lost", hi);
        if (ongrid && noise == 0) {
          c.le(err, 0, 1e-9, "true-values-not-found", hi);
          if (second > 1e-7) c.eq(got.AMp, q.par.AMp, 1e-9, 0, "true-values", hi), c.eq(got.AMn, q.par.AMn, 1e-9, 0, "true-values", hi), c.eq(got.sp, q.par.sp, 1e-9, 0, "true-values", hi), c.eq(got.sn, q.par.sn, 1e-9, 0, "true-values", hi);
          c.ev("fits-with-known-answer");
        }
      } else {
        for (int j = 0; j < 4; j++) c.le(std::fabs(g[j] - o[j]), d[j], 1e-9 * std::fabs(g[j]) + 1e-12, "left-refined-region", hi + fmt(" parameter %d", j));
        if (odd && !clamped) c.le(err, prev, 1e-7, "refining-made-it-worse", hi + fmt(" previous %g", prev)), c.ev("refinements-compared");
        for (int j = 0; j < 4; j++) d[j] *= 2.0 / (N[j] - 1);
      }
      // what was reported for this level
      auto f = csv(PathVar::results / fmt("OCVFit_%d_param.csv", h - 1));
      const char *key[4] = { "AMp", "AMn", "start pos", "start neg" };
      for (int j = 0; j < 4; j++) c.ok(f[key[j]].size() == 1 && std::fabs(std::stod(f[key[j]][0]) - g[j]) <= 1e-5 * std::fabs(g[j]), "level-file", hi);
      for (int j = 2; j < 4; j++) clamped |= g[j] - d[j] < 0 || g[j] + d[j] > 1;
      prev = err, pp = got;
      c.ev("fits"), c.seen("fit", vh::hd(err, 1e-9));
    }
    if (k < 2) c.sample(info + fmt(" err %g", prev));
    drop(fp), drop(fn), drop(fc);
  });

  if (c.thorough)
    c.run("estimate", 1, [&](Rng &, int) {
      slide::estimateOCVparameters();
      auto f = csv(PathVar::results / "OCVfit_parameters.csv");
      auto g = [&](const char *k) {
        if (!c.ok(f[k].size() >= 1, "missing-entry", k)) return 0.0;
        return std::stod(f[k][0]);
      };
      XYdata_vv P, N, C;
      slide::readOCVinput("OCVfit_cathode.csv", "OCVfit_anode.csv", "OCVfit_cell.csv", P, N, C);
      Problem q;
      q.p = { P.x, P.y }, q.n = { N.x, N.y };
      const Curve cell{ C.x, C.y };
      const Par k{ g("AMp"), g("AMn"), g("start pos"), g("start neg") };
      const double err = g("The error on the OCV curve with this fit is");
      c.eq(err, rms(q, k, cell), 0.05, 1e-4, "reported-error"); // parameters were written with 6 digits
      c.le(err, 0.05, 0, "poor-fit");
      c.eq(g("cathode thickness thickp"), k.AMp / (0.0982 * 0.5), 1e-4, 0, "thickness"), c.eq(g("anode thickness thickn"), k.AMn / (0.0982 * 0.5), 1e-4, 0, "thickness");
      const double p0 = g("cathode lithium fraction at 100% SOC"), p1 = g("cathode lithium fraction at 50% SOC"), p2 = g("cathode lithium fraction at 0% SOC");
      const double n0 = g("anode lithium fraction at 100% SOC"), n1 = g("anode lithium fraction at 50% SOC"), n2 = g("anode lithium fraction at 0% SOC");
      c.eq(p0, k.sp, 1e-5, 0, "fraction"), c.eq(n0, k.sn, 1e-5, 0, "fraction"), c.eq(p1, (p0 + p2) / 2, 1e-4, 0, "fraction"), c.eq(n1, (n0 + n2) / 2, 1e-4, 0, "fraction");
      for (double x : { p0, p1, p2, n0, n1, n2 }) c.ok(x > -1e-3 && x < 1.001, "fraction-range");
      c.eq((p2 - p0) * k.AMp * CP, (n0 - n2) * k.AMn * CN, 1e-3, 0, "lithium-conserved");
      c.eq(g("capacity of the cell in Ah"), cell.x.back(), 1e-5, 0, "capacity"), c.eq(g("minimum voltage of the cell"), cell.y.back(), 1e-5, 0, "voltage"), c.eq(g("maximum voltage of the cell"), cell.y[0], 1e-5, 0, "voltage");
      std::ifstream in(PathVar::results / "OCVfit_sim.csv");
      std::string l;
      int rows = 0;
      while (std::getline(in, l)) {
        double a[6];
        if (!c.ok(sscanf(l.c_str(), "%lf,%lf,%lf,%lf,%lf,%lf", a, a + 1, a + 2, a + 3, a + 4, a + 5) == 6, "simulation-file", l)) break;
        c.eq(a[1], a[5] - a[3], 0, 1e-4, "cell-is-difference", l);
        rows++;
      }
      c.ok(rows > 10, "simulation-file", fmt("%d rows", rows));
      c.ev("estimates");
    });
}
