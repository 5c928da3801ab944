// U01 interpolation, U02 histograms, U03 containers and helpers, U04 reading tables.
#include "vs.hpp"
#include "utility/utility.hpp"
#include "utility/parallelisation.hpp"
#include "types/Histogram.hpp"
#include "types/SmallVector.hpp"
#include "types/Deep_ptr.hpp"
#include "types/matrix.hpp"
#include <atomic>
#include <filesystem>
#include <fstream>
#include <limits>
#include <numeric>
#include <sstream>
using namespace vs;
using vh::Ctx;
namespace fs = std::filesystem;

namespace {
constexpr double INF = std::numeric_limits<double>::infinity(), NaN = std::numeric_limits<double>::quiet_NaN();
// ------------------------------------------------------------------------------------------------
struct Table {
  std::vector<double> x, y;
  const char *kind{};
};
Table rand_table(Rng &r, int k)
{
  Table t;
  const int n = r.p(0.1) ? 1 : r.p(0.1) ? 2 : r.p(0.2) ? r.i(100, 400) : r.i(3, 40);
  const double x0 = r.p(0.5) ? 0 : r.logu(1e-3, 1e3) * r.sgn(), h = r.logu(1e-4, 10);
  double x = x0;
  const double drift = r.u(-0.0095, 0.0095);
  const int step = r.i(0, n);
  const double other = r.logu(0.05, 20);
  for (int i = 0; i < n; i++) {
    t.x.push_back(x);
    t.y.push_back(r.p(0.1) ? 0 : r.logu(1e-3, 1e3) * r.sgn());
    switch (k) {
    case 0: x = x0 + (i + 1) * h, t.kind = "uniform"; break;
    case 1: x += i == 0 ? h : h * (1 + r.u(-0.0095, 0.0095)), t.kind = "nearly-uniform"; break;
    case 2: x += i == 0 ? h : h * (1 + drift), t.kind = "drifting"; break;
    case 3: x += h * r.logu(1e-3, 1e3), t.kind = "irregular"; break;
    case 4: x += h * (i == step ? other : 1), t.kind = "one-step-differs"; break; // all others are equal
    default: x += h * r.u(0.9, 1.1), t.kind = "uneven";
    }
    x = std::max(x, std::nextafter(t.x.back(), INF));
  }
  return t;
}
// value of the straight line between the neighbours, and how far rounding may move it
void ref_interp(const Table &t, double x, long double &y, double &tol)
{
  const size_t n = t.x.size();
  if (x <= t.x[0] || n == 1) {
    y = t.y[0], tol = 0;
    return;
  }
  if (x >= t.x[n - 1]) {
    y = t.y[n - 1], tol = 0;
    return;
  }
  size_t i = 1;
  while (t.x[i] < x) i++;
  const long double xl = t.x[i - 1], xr = t.x[i], yl = t.y[i - 1], yr = t.y[i];
  y = yl + (yr - yl) * ((long double)x - xl) / (xr - xl);
  tol = 1e-13 * (fabsl(yl) + fabsl(yr));
  // a query within rounding distance of a node may use either neighbouring segment, which agree there
  const double gap = 8 * 2.3e-16 * (std::fabs(x) + std::fabs(t.x[0]) + std::fabs(t.x[n - 1]));
  for (size_t j = i >= 2 ? i - 2 : 0; j + 1 < std::min(n, i + 3); j++) tol = std::max(tol, 1e-13 * (std::fabs(t.y[j]) + std::fabs(t.y[j + 1])) + std::fabs((t.y[j + 1] - t.y[j]) / (t.x[j + 1] - t.x[j])) * gap * ((std::fabs((double)(x - xl)) < gap || std::fabs((double)(x - xr)) < gap || j + 1 == i) ? 1 : 0));
}
double rand_query(Rng &r, const Table &t)
{
  const size_t n = t.x.size();
  const double span = t.x[n - 1] - t.x[0] + 1e-3;
  switch (r.i(0, 9)) {
  case 0: return t.x[0];
  case 1: return t.x[n - 1];
  case 2: return t.x[r.i(0, (int)n - 1)];
  case 3: return std::nextafter(t.x[r.i(0, (int)n - 1)], r.sgn() * INF);
  case 4: return t.x[0] - r.logu(1e-9, 10) * span;
  case 5: return t.x[n - 1] + r.logu(1e-9, 10) * span;
  default: return r.u(t.x[0], t.x[n - 1]);
  }
}
template <class F>
bool throws_int(F &&f, int *code = nullptr)
{
  try {
    f();
  } catch (int e) {
    if (code) *code = e;
    return true;
  }
  return false;
}
// one table through one front end; get(x, bound) may throw an int
template <class G>
void check_table(Ctx &c, Rng &r, const Table &t, const char *front, G &&get, int nq)
{
  const std::string what = fmt("%s %s n=%zu", front, t.kind, t.x.size());
  const double lo = t.x.front(), hi = t.x.back();
  for (int k = 0; k < nq; k++) {
    const double x = rand_query(r, t);
    long double y;
    double tol;
    ref_interp(t, x, y, tol);
    const bool in = x >= lo && x <= hi;
    const auto d = what + fmt(" x=%.17g", x);
    c.eq(get(x, false), (double)y, 0, tol, in ? "interpolated" : "clamped", d);
    int code = 0;
    double got = 0;
    const bool threw = throws_int([&] { got = get(x, true); }, &code);
    if (in) {
      c.ok(!threw, "refused-inside", d);
      if (!threw) c.eq(got, (double)y, 0, tol, "interpolated", d);
      c.ev("inside");
    } else {
      c.ok(threw, "accepted-outside", d);
      c.ev("outside");
    }
    c.seen("query", vh::hmix(vh::hs(what.c_str()), vh::hd(x)));
  }
  for (double x : { NaN, INF, -INF }) { // nothing is read outside the table
    c.ok(throws_int([&] { get(x, true); }), "accepted-outside", what + fmt(" x=%g", x));
    const double v = get(x, false);
    if (x == INF) c.eq(v, t.y.back(), 0, 0, "clamped", what);
    if (x == -INF) c.eq(v, t.y.front(), 0, 0, "clamped", what);
    c.ev("not-a-number-or-infinite");
  }
}
// ------------------------------------------------------------------------------------------------
struct Tracked { // something that can be deep-copied
  static int alive;
  int v;
  explicit Tracked(int w) : v(w) { alive++; }
  Tracked(const Tracked &o) : v(o.v) { alive++; }
  virtual ~Tracked() { alive--; }
  virtual Tracked *copy() { return new Tracked(*this); }
  virtual int kind() const { return 0; }
};
int Tracked::alive = 0;
struct Tracked2 : Tracked {
  using Tracked::Tracked;
  Tracked2 *copy() override { return new Tracked2(*this); }
  int kind() const override { return 1; }
};
template <int N>
void chol(Ctx &c, Rng &r)
{
  std::array<std::array<double, N>, N> L{};
  for (int i = 0; i < N; i++) {
    for (int j = 0; j < i; j++) L[i][j] = r.u(-1, 1);
    L[i][i] = r.u(0.5, 2);
  }
  std::array<double, N> x;
  const bool down = r.p(0.4);
  for (auto &v : x) v = r.u(-1, 1) * (down ? 0.2 / N : 1);
  double A[N][N];
  for (int i = 0; i < N; i++)
    for (int j = 0; j < N; j++) {
      A[i][j] = (down ? -1 : 1) * x[i] * x[j];
      for (int k = 0; k < N; k++) A[i][j] += L[i][k] * L[j][k];
    }
  slide::Matrix<double, N, N> M = L;
  slide::cholUpdate<N>(M, x, down);
  for (int i = 0; i < N; i++)
    for (int j = 0; j < N; j++) {
      double s = 0;
      for (int k = 0; k < N; k++) s += M[i][k] * M[j][k];
      c.eq(s, A[i][j], 1e-9, 1e-9, "cholesky-update", fmt("N=%d (%d,%d) %s", N, i, j, down ? "downdate" : "update"));
    }
  c.ev(down ? "cholesky-downdates" : "cholesky-updates");
}
template <int N, int M>
void mats(Ctx &c, Rng &r)
{
  const double k = r.u(-5, 5);
  const auto e = slide::eye<N, M>(k), z = slide::zeros<N, M>();
  const auto o = slide::ones<N, M>(k);
  c.ok(e.size() == M && e[0].size() == N && z.size() == M && o.size() == M, "matrix-shape");
  for (int i = 0; i < M; i++)
    for (int j = 0; j < N; j++) {
      c.eq(e[i][j], i == j ? k : 0, 0, 0, "identity");
      c.eq(z[i][j], 0, 0, 0, "zeros");
      c.eq(o[i][j], k, 0, 0, "ones");
    }
  std::array<double, N> a, b;
  for (auto &v : a) v = r.u(-5, 5);
  for (auto &v : b) v = r.u(-5, 5);
  using slide::operator+;
  using slide::operator-;
  using slide::operator+=;
  using slide::operator-=;
  const auto s = a + b, d = a - b, w = slide::arrSum(a, b, k, 2.0);
  double n2 = 0, n1 = 0;
  auto p = a;
  p += b;
  auto q = a;
  q -= b;
  for (int i = 0; i < N; i++) {
    c.eq(s[i], a[i] + b[i], 0, 0, "array-sum");
    c.eq(d[i], a[i] - b[i], 0, 0, "array-difference");
    c.eq(p[i], a[i] + b[i], 0, 0, "array-sum");
    c.eq(q[i], a[i] - b[i], 0, 0, "array-difference");
    c.eq(w[i], k * a[i] + 2 * b[i], 1e-14, 1e-14, "array-weighted-sum");
    n2 += a[i] * a[i], n1 += std::fabs(a[i]);
  }
  c.eq(slide::norm_sq<2>(a), n2, 1e-13, 0, "norm");
  c.ev("matrices");
}
// ------------------------------------------------------------------------------------------------
struct Text {
  std::vector<std::vector<double>> rows;
  std::string text;
};
std::string number(Rng &r, double &v)
{
  char b[64];
  switch (r.i(0, 5)) {
  case 0: snprintf(b, sizeof b, "%d", r.i(-1000, 1000)); break;
  case 1: snprintf(b, sizeof b, "%.17g", r.n() * r.logu(1e-12, 1e12)); break;
  case 2: snprintf(b, sizeof b, "%.3e", r.n() * r.logu(1e-200, 1e200)); break;
  case 3: snprintf(b, sizeof b, "%.2E", r.n() * r.logu(1e-12, 1e12)); break;
  case 4: snprintf(b, sizeof b, ".%d", r.i(1, 999)); break;
  default: snprintf(b, sizeof b, "%.6f", r.n());
  }
  v = strtod(b, nullptr);
  return b;
}
Text rand_text(Rng &r, int rows, int cols)
{
  Text t;
  const std::string nl = r.p(0.3) ? "\r\n" : "\n", sep = r.p(0.2) ? ", " : r.p(0.1) ? " ," : ",";
  if (r.p(0.3)) t.text += "\xEF\xBB\xBF";
  else if (r.p(0.1))
    t.text += nl;
  else if (r.p(0.15))
    t.text += "  ";
  for (int i = 0; i < rows; i++) {
    t.rows.emplace_back();
    for (int j = 0; j < cols; j++) {
      double v;
      const auto s = number(r, v);
      t.rows.back().push_back(v);
      t.text += (j ? sep : "") + s;
    }
    if (i + 1 < rows || r.p(0.7)) t.text += nl;
    if (i + 1 < rows && r.p(0.02)) t.text += nl; // an empty line between two blocks
  }
  if (r.p(0.1) && rows) t.text += nl;
  return t;
}
int file_no = 0;
fs::path put(const std::string &s)
{
  fs::path p = fmt("t%d_%d.csv", (int)getpid(), file_no++);
  std::ofstream(p, std::ios::binary) << s;
  return p;
}
// spoil a well-formed table so that it no longer is one
std::string spoil(Rng &r, const Text &t, int cols, std::string &how, bool fixed_size)
{
  std::vector<std::vector<std::string>> f;
  for (auto &row : t.rows) {
    f.emplace_back();
    for (double v : row) f.back().push_back(fmt("%.9g", v));
  }
  const int R = (int)f.size(), i = r.i(0, R - 1), j = r.i(0, cols - 1);
  auto join = [&] {
    std::string s;
    for (auto &row : f) {
      for (size_t k = 0; k < row.size(); k++) s += (k ? "," : "") + row[k];
      s += "\n";
    }
    return s;
  };
  switch (r.i(0, fixed_size ? 6 : 5)) {
  case 0: f[i][j] = r.pick(std::vector<std::string>{ "abc", "x", "--1", "e5" }), how = "letters"; break;
  case 1: f[i][j] += r.pick(std::vector<std::string>{ "x", "volt", "1.2.3", "|", " 5", ";7" }), how = "junk after a number"; break;
  case 2:
    f[i][j] = "", how = "missing value";
    if ((cols == 1 || R == 1) && !fixed_size) f[i][j] = "?", how = "letters"; // merely an empty line or a narrower table
    break;
  case 3:
    if (R > 1 || (cols > 1 && fixed_size)) {
      f[i].pop_back(), how = cols == 1 ? "" : "short row";
      if (cols == 1) f[i].push_back("?"), how = "letters";
    } else
      f[i][j] = "?", how = "letters";
    break;
  case 4:
    f[i].push_back("7"), how = "long row";
    if (R == 1 && !fixed_size) f[i][j] = "?", how = "letters"; // one long row is simply a wider table
    break;
  case 5: {
    if (cols > 1) {
      auto s = join(); // another separator in one place
      std::vector<size_t> at;
      for (size_t k = 0; k < s.size(); k++)
        if (s[k] == ',') at.push_back(k);
      s[r.pick(at)] = r.pick(std::vector<char>{ ';', '\t', ' ', ':', '/', '|' });
      how = "other separator";
      return s;
    }
    f[i][j] = "nonsense";
    how = "letters";
    break;
  }
  case 6:
    f.pop_back(), how = "too few rows";
    break;
  }
  return join();
}
template <size_t R, size_t C>
void mat_case(Ctx &c, Rng &r)
{
  auto t = rand_text(r, R, C);
  const auto p = put(t.text);
  slide::Matrix<double, R, C> m;
  for (auto &row : m) row.fill(-77);
  slide::loadCSV_mat(p, m);
  for (size_t i = 0; i < R; i++)
    for (size_t j = 0; j < C; j++) c.eq(m[i][j], t.rows[i][j], 0, 0, "matrix-content", fmt("%zux%zu (%zu,%zu)", R, C, i, j));
  if constexpr (C == 1) {
    std::array<double, R> a;
    a.fill(-77);
    slide::loadCSV_1col(p, a);
    for (size_t i = 0; i < R; i++) c.eq(a[i], t.rows[i][0], 0, 0, "column-content", fmt("row %zu of %zu", i, R));
  }
  fs::remove(p);
  c.ev("matrices-read");
  std::string how;
  const auto s = spoil(r, t, C, how, true);
  const auto q = put(s);
  c.ok(throws_int([&] { slide::loadCSV_mat(q, m); }), "malformed-accepted", fmt("matrix %zux%zu with %s:\n%s", R, C, how.c_str(), s.substr(0, 200).c_str()));
  fs::remove(q);
  c.ev("malformed-matrices");
}
} // namespace

VH_PROP(U01)
{
  auto &c = cx;
  c.run("tables", c.scale(1500, 30000), [&](Rng &r, int k) {
    const Table t = rand_table(r, k % 6);
    c.ev(t.kind);
    const int nq = 25;
    const int n = (int)t.x.size();
    { // vectors
      auto x = t.x, y = t.y;
      check_table(c, r, t, "linInt", [&](double q, bool b) { return slide::linInt(false, b, x, y, n, q, false); }, nq);
      auto [v, st] = slide::linInt_noexcept(true, x, y, n, x[0] - 1, false);
      c.ok(st != 0, "outside-status", t.kind);
      auto [v2, st2] = slide::linInt_noexcept(true, x, y, n, x[n - 1] + 1, false);
      c.ok(st2 != 0 && st2 != st, "outside-status", t.kind);
      auto [v3, st3] = slide::linInt_noexcept(true, x, y, n, x[n - 1], false);
      c.ok(st3 == 0, "inside-status", t.kind);
    }
    { // a curve knows whether its steps are equal
      auto x = t.x, y = t.y;
      XYdata_vv d(x, y);
      check_table(c, r, t, "XYdata", [&](double q, bool b) { return d.interp(q, false, b); }, nq);
      c.ok(d.size() == t.y.size(), "size");
    }
    { // spans over memory that ends where the table ends
      std::unique_ptr<double[]> x(new double[n]), y(new double[n]);
      std::copy(t.x.begin(), t.x.end(), x.get()), std::copy(t.y.begin(), t.y.end(), y.get());
      std::span<double> sx(x.get(), n), sy(y.get(), n);
      XYdata_ss d(sx, sy);
      check_table(c, r, t, "spans", [&](double q, bool b) { return d.interp(q, false, b); }, nq);
    }
    if (k % 5 == 0 && n > 1) { // lazily computed abscissa
      const auto fx = slide::linspace_fix(t.x.front(), t.x.back(), n);
      FixedData<double> xf = fx;
      Table u = t;
      for (int i = 0; i < n; i++) u.x[i] = xf[i];
      if (std::is_sorted(u.x.begin(), u.x.end()) && std::adjacent_find(u.x.begin(), u.x.end()) == u.x.end()) {
        std::vector<double> y = t.y;
        XYdata_fv d(xf, y);
        check_table(c, r, u, "lazy", [&](double q, bool b) { return d.interp(q, false, b); }, nq);
        check_table(c, r, u, "lazy-search", [&](double q, bool b) { return slide::linInt(false, b, xf, y, n, q, false); }, nq);
        c.ev("lazy-tables");
      }
    }
    c.sample(fmt("%s table, %d points in [%g, %g]", t.kind, n, t.x.front(), t.x.back()));
  });
  // an empty table has no values
  c.run("empty", c.scale(60, 600), [&](Rng &r, int) {
    const double q = r.p(0.3) ? 0 : r.sgn() * r.logu(1e-3, 1e3);
    const bool bound = r.p(0.5), fixed = r.p(0.5), print = r.p(0.5);
    std::vector<double> x, y;
    FixedData<double> xf(r.u(-1, 1), r.u(0.1, 1), 0);
    std::span<double> sx, sy;
    c.ok(slide::linInt_noexcept(bound, x, y, 0, q, fixed).second != 0, "value-from-empty-table", "status");
    int refused = 0;
    auto ask = [&](auto &&f) {
      try {
        f();
      } catch (int e) {
        refused += e == 1;
      }
    };
    ask([&] { slide::linInt(print, bound, x, y, 0, q, fixed); });
    ask([&] { slide::linInt(print, bound, xf, y, 0, q, fixed); });
    XYdata_vv d, d2(x, y);
    XYdata_ss ds(sx, sy);
    XYdata_fv df(xf, y);
    ask([&] { d.interp(q, print, bound); });
    ask([&] { d2.interp(q, print, bound); });
    ask([&] { ds.interp(q, print, bound); });
    ask([&] { df.interp(q, print, bound); });
    c.ok(refused == 6, "value-from-empty-table", fmt("%d of 6 refused", refused));
    c.ev("empty-tables");
  });
  // the open-circuit voltage of a cell is its curve
  c.run("shipped", c.scale(60, 600), [&](Rng &r, int) {
    auto curves = OCVcurves::makeOCVcurves(cellType::KokamNMC);
    for (auto *cv : { &curves.OCV_pos, &curves.OCV_neg, &curves.dOCV_neg, &curves.dOCV_tot }) {
      Table t;
      t.kind = "shipped";
      t.x.assign(cv->x.begin(), cv->x.end());
      t.y.assign(cv->y.begin(), cv->y.end());
      c.ok(std::is_sorted(t.x.begin(), t.x.end()), "ascending");
      check_table(c, r, t, "shipped", [&](double q, bool b) { return cv->interp(q, false, b); }, 40);
      c.ev("shipped-curves");
    }
  });
}

VH_PROP(U02)
{
  auto &c = cx;
  c.run("samples", c.scale(1500, 30000), [&](Rng &r, int) {
    const double mn = r.p(0.3) ? 0 : r.logu(1e-3, 1e3) * r.sgn(), mx = mn + r.logu(1e-3, 1e4);
    const int N = r.p(0.1) ? 1 : r.i(2, 200);
    Histogram<> h(mn, mx, N);
    const double dx = (mx - mn) / N, tol = 1e-12 * dx + 8 * 2.3e-16 * (std::fabs(mn) + std::fabs(mx));
    c.ok(h.size() == (size_t)N + 2, "bin-count", fmt("N %d size %zu", N, h.size()));
    auto edges = h.getEdgeValues();
    c.ok(edges.size() == (size_t)N + 1, "edge-count");
    c.eq(edges[0], mn, 0, tol, "first-edge");
    c.eq(edges[N], mx, 0, tol, "last-edge");
    size_t total = 0;
    std::vector<size_t> before(h.begin(), h.end());
    for (int k = 0; k < 80; k++) {
      double x;
      switch (r.i(0, 8)) {
      case 0: x = mn; break;
      case 1: x = mx; break;
      case 2: x = mn + r.i(0, N) * dx; break;
      case 3: x = std::nextafter(mn + r.i(0, N) * dx, r.sgn() * INF); break;
      case 4: x = r.pick(std::vector<double>{ 1e300, -1e300, 1e18, -1e18, INF, -INF, 2147483648.0 * dx + mn, mn + dx * 1e10 }); break;
      case 5: x = mn - r.logu(1e-12, 1e6); break;
      case 6: x = mx + r.logu(1e-12, 1e6); break;
      default: x = r.u(mn, mx);
      }
      h.add(x);
      total++;
      std::vector<size_t> now(h.begin(), h.end());
      int hit = -1, changed = 0;
      for (size_t i = 0; i < now.size(); i++)
        if (now[i] != before[i]) {
          changed++, hit = (int)i;
          c.ok(now[i] == before[i] + 1, "counted-once");
        }
      const auto d = fmt("[%.17g, %.17g] %d bins, x = %.17g went to bin %d", mn, mx, N, x, hit);
      if (!c.ok(changed == 1, "counted-once", d)) break;
      if (x < mn) c.ok(hit == 0, "below-range", d), c.ev("below");
      else if (x >= mx) c.ok(hit == N + 1, "above-range", d), c.ev("above");
      else {
        c.ok(hit >= 1 && hit <= N && x >= mn + (hit - 1) * dx - tol && x < mn + hit * dx + tol, "containing-bin", d);
        c.ev("inside");
      }
      before = now;
      c.seen("sample", vh::hmix(vh::hd(x), N));
    }
    c.ok(std::accumulate(before.begin(), before.end(), size_t(0)) == total, "sum-of-bins");
    // as text
    std::ostringstream os;
    os << h;
    std::istringstream is(os.str());
    std::string l1, e, l2, b;
    std::getline(is, l1), std::getline(is, e), std::getline(is, l2), std::getline(is, b);
    auto split = [](const std::string &s) {
      std::vector<double> v;
      std::istringstream q(s);
      std::string t;
      while (std::getline(q, t, ',')) v.push_back(strtod(t.c_str(), nullptr));
      return v;
    };
    auto ev = split(e), bv = split(b);
    c.ok(ev.size() == (size_t)N + 1 && bv.size() == before.size(), "text-size", fmt("%zu edges %zu bins", ev.size(), bv.size()));
    for (size_t i = 0; i < std::min(bv.size(), before.size()); i++) c.eq(bv[i], before[i], 0, 0, "text-bins");
    for (size_t i = 0; i < std::min<size_t>(ev.size(), N + 1); i++) c.eq(ev[i], mn + i * dx, 1e-5, 1e-12, "text-edges");
    c.ev("histograms");
    Histogram<> none, copy = h;
    none.add(r.n());
    c.ok(none.size() == 0, "empty-histogram");
    copy.add(mn);
    c.ok(std::vector<size_t>(h.begin(), h.end()) == before, "copy-independent");
  });
}

VH_PROP(U03)
{
  auto &c = cx;
  c.run("small-vector", c.scale(800, 8000), [&](Rng &r, int) {
    constexpr uint_fast8_t MAX = 10;
    struct Guard { // what lies behind must stay as it is
      SmallVector<uint_fast8_t, MAX> v;
      uint_fast8_t after[16];
    };
    auto g = std::make_unique<Guard>();
    std::fill(std::begin(g->after), std::end(g->after), 0xA5);
    std::vector<uint_fast8_t> m;
    const int n = r.i(0, 14);
    for (int i = 0; i < n; i++) {
      const uint_fast8_t e = r.i(0, 255);
      const bool full = m.size() == MAX;
      const bool threw = throws_int([&] { g->v.push_back(uint_fast8_t(e)); });
      c.ok(threw == full, full ? "overflow-accepted" : "push-refused", fmt("size %zu", m.size()));
      if (!full) m.push_back(e);
      else
        c.ev("refused-pushes");
      c.ok((int)g->v.N == (int)m.size(), "size", fmt("%d vs %zu", (int)g->v.N, m.size()));
      c.ok(std::vector<uint_fast8_t>(g->v.begin(), g->v.end()) == m, "content");
      c.ok(std::vector<uint_fast8_t>(g->v.cbegin(), g->v.cend()) == m, "content");
      c.ok(g->v.empty() == m.empty(), "empty");
      for (size_t k = 0; k < m.size(); k++) c.ok(g->v[k] == m[k], "element");
      if (m.size() < MAX) c.ok(throws_int([&] { g->v[(uint_fast8_t)m.size()] = 1; }), "out-of-range-accepted");
    }
    for (auto a : g->after) c.ok(a == 0xA5, "wrote-past-end");
    const int k = r.i(0, 14);
    const bool threw = throws_int([&] { SmallVector<uint_fast8_t, MAX> w((uint_fast8_t)k); c.ok(w.N == k, "size"); for (auto e : w) c.ok(e == 0, "initial-value"); });
    c.ok(threw == (k > MAX), "size-check", fmt("%d", k));
    c.ev("small-vectors");
    DEG_ID d;
    int added = 0;
    for (int i = 0; i < 12; i++) {
      const int e = r.i(0, 4);
      if (!throws_int([&] { d.SEI_id.add_model(e); }) && e) added++;
    }
    c.ok(added <= 10 && (int)d.SEI_id.N == added, "models-added", fmt("%d", added));
  });
  c.run("owning-pointer", c.scale(800, 8000), [&](Rng &r, int) {
    const int alive0 = Tracked::alive;
    {
      std::vector<Deep_ptr<Tracked>> v(4);
      std::vector<std::pair<int, int>> m(4, { -1, 0 }); // (value or -1, kind)
      for (int k = 0; k < 40; k++) {
        const int i = r.i(0, 3), j = r.i(0, 3), val = r.i(0, 1000);
        switch (r.i(0, 9)) {
        case 0: v[i] = make<Tracked>(val), m[i] = { val, 0 }; break;
        case 1: v[i] = Deep_ptr<Tracked>(make<Tracked2>(val)), m[i] = { val, 1 }; break;
        case 2: v[i] = v[j], m[i] = m[j], c.ev("copies"); break;
        case 3:
          v[i] = std::move(v[j]);
          if (i != j) m[i] = m[j], m[j] = { -1, 0 };
          c.ev("moves");
          break;
        case 4: {
          Deep_ptr<Tracked> t(v[j]);
          if (t) t->v = -5; // the original keeps its value
          break;
        }
        case 5: v[i].swap(v[j]), std::swap(m[i], m[j]); break;
        case 6: v[i].reset(), m[i] = { -1, 0 }; break;
        case 7: v[i].reset(new Tracked2(val)), m[i] = { val, 1 }; break;
        case 8: {
          Deep_ptr<Tracked2> t2 = make<Tracked2>(val);
          v[i] = Deep_ptr<Tracked>(t2), m[i] = { val, 1 };
          t2->v = -9;
          break;
        }
        default: {
          std::unique_ptr<Tracked2> u = std::make_unique<Tracked2>(val);
          v[i] = Deep_ptr<Tracked>(std::move(u)), m[i] = { val, 1 };
        }
        }
        int live = 0;
        for (int q = 0; q < 4; q++) {
          c.ok((bool)v[q] == (m[q].first >= 0), "ownership");
          c.ok((v[q] == nullptr) == !(bool)v[q] && (nullptr != v[q]) == (bool)v[q], "null-comparison");
          if (v[q] && m[q].first >= 0) c.ok(v[q]->v == m[q].first && (*v[q]).kind() == m[q].second && v[q].get()->v == m[q].first, "pointee", fmt("%d/%d vs %d/%d", v[q]->v, v[q]->kind(), m[q].first, m[q].second)), live++;
          for (int p = 0; p < q; p++) c.ok(!v[q] || v[q].get() != v[p].get(), "shared-object");
        }
        c.ok(Tracked::alive - alive0 == live, "objects-alive", fmt("%d vs %d", Tracked::alive - alive0, live));
      }
    }
    c.ok(Tracked::alive == alive0, "leaked-objects", fmt("%d", Tracked::alive - alive0));
    c.ev("pointer-sequences");
  });
  c.run("ranges", c.scale(1500, 15000), [&](Rng &r, int) {
    const double a = r.u(-10, 10), b = a + r.logu(1e-3, 100) * (r.p(0.2) ? -1 : 1);
    const int N = r.p(0.1) ? r.i(-1, 1) : r.i(2, 300);
    const auto v = slide::linspace(a, b, N);
    auto f = slide::linspace_fix(a, b, N);
    c.ok((int)v.size() == std::max(0, N) && (int)f.size() == std::max(0, N), "range-size", fmt("%d: %zu %zu", N, v.size(), f.size()));
    const double tol = 1e-13 * (std::fabs(a) + std::fabs(b));
    for (int i = 0; i < N && i < (int)v.size(); i++) {
      const double w = N == 1 ? b : a + (b - a) * i / (N - 1);
      c.eq(v[i], w, 0, tol, "linspace", fmt("%d of %d", i, N));
      c.eq(f[i], w, 0, tol, "linspace-lazy", fmt("%d of %d", i, N));
    }
    { // of a size known beforehand
      const auto a1 = slide::linspace<1>(a, b);
      const auto a2 = slide::linspace<2>(a, b);
      const auto a7 = slide::linspace<7>(a, b);
      const auto a50 = slide::linspace<50>(a, b);
      c.ok(slide::linspace<0>(a, b).empty(), "linspace-array");
      auto same = [&](const auto &x) {
        const int n = (int)x.size();
        for (int i = 0; i < n; i++) c.eq(x[i], n == 1 ? b : a + (b - a) * i / (n - 1), 0, tol, "linspace-array", fmt("%d of %d", i, n));
      };
      same(a1), same(a2), same(a7), same(a50);
    }
    if (N > 1) {
      c.eq(f.front(), a, 0, tol, "front"), c.eq(f.back(), b, 0, tol, "back");
      c.eq(f.dstep(), (b - a) / (N - 1), 1e-12, 0, "step");
      const double x = f[r.i(0, N - 1)];
      c.eq(f.next(x), x + f.dstep(), 1e-14, tol, "next"), c.eq(f.prev(x), x - f.dstep(), 1e-14, tol, "prev");
      int n = 0;
      for (double e : f) c.eq(e, f[n++], 0, 0, "iteration");
      c.ok(n == N, "iteration-count");
      c.ok(f.end() - f.begin() == N, "distance");
      auto it = f.begin();
      auto old = it++;
      c.eq(*old, f[0], 0, 0, "iterator"), c.eq(*it, f[1], 0, 0, "iterator");
      c.eq(*--it, f[0], 0, 0, "iterator"), c.eq(*(f.begin() + (N - 1)), f[N - 1], 0, 0, "iterator");
      c.ok(f.begin() != f.end() && f.begin() == f.begin(), "iterator");
      c.ok(f.end() - f.begin() == N && f.begin() - f.end() == -N && it - it == 0, "iterator-distance");
    }
    const double h = r.p(0.5) ? r.pick(std::vector<double>{ 0.1, 0.2, 0.3, 0.01, 0.7 }) : r.logu(1e-3, 1);
    const int n = r.i(1, 200);
    auto s = slide::linstep_fix(a, h, n);
    auto g = slide::logstep_fix(1 + std::fabs(a), 1 + h / 100, n);
    c.ok((int)s.size() == n && (int)g.size() == n, "range-size");
    for (int i = 0; i < n; i++) c.eq(s[i], a + i * h, 1e-13, tol, "linstep"), c.eq(g[i], (1 + std::fabs(a)) * std::pow(1 + h / 100, i), 1e-12, 0, "logstep");
    // a range with a whole number of steps ends at its end
    auto w = slide::range_fix(0.0, n * h, h);
    c.ok((int)w.size() == n + 1, "range-ends", fmt("0 to %.17g in steps of %.17g gives %zu points instead of %d", n * h, h, w.size(), n + 1));
    const double frac = r.u(0.01, 0.99);
    auto w2 = slide::range_fix(a, a + (n + frac) * h, h);
    c.ok((int)w2.size() == n + 1, "range-within", fmt("%zu points instead of %d", w2.size(), n + 1));
    c.ev("ranges");
    c.seen("range", vh::hmix(vh::hd(a), N));
  });
  c.run("matrices", c.scale(600, 6000), [&](Rng &r, int) {
    mats<1, 1>(c, r), mats<3, 2>(c, r), mats<2, 5>(c, r), mats<4, 4>(c, r);
    chol<1>(c, r), chol<2>(c, r), chol<3>(c, r), chol<5>(c, r), chol<8>(c, r);
    const int m = r.i(1, 12), n = r.i(1, 12);
    const double init = r.u(-5, 5);
    DynamicMatrix<double> D(m, n, init), S(m);
    c.ok(D.rows() == m && D.cols() == n && D.size() == m * n && S.rows() == m && S.cols() == m, "matrix-shape");
    std::vector<std::vector<double>> ref(m, std::vector<double>(n, init));
    for (int k = 0; k < 60; k++) {
      const int i = r.i(0, m - 1), j = r.i(0, n - 1);
      ref[i][j] = D(i, j) = r.u(-9, 9);
    }
    const DynamicMatrix<double> &cd = D;
    for (int i = 0; i < m; i++)
      for (int j = 0; j < n; j++) c.eq(cd(i, j), ref[i][j], 0, 0, "matrix-element");
    D.resize(n, m + 1, 3.5);
    c.ok(D.rows() == n && D.cols() == m + 1 && (int)D.data.size() == n * (m + 1), "matrix-resize");
    c.ev("dynamic-matrices");
  });
  c.run("reductions", c.scale(800, 8000), [&](Rng &r, int) {
    const int n = r.i(0, 20);
    std::vector<double> v(n);
    for (auto &x : v) x = r.u(-100, 100);
    auto f = [](const double &x) { return 2 * x + 1; };
    double s = 0, mx = -INF, mn = INF;
    for (double x : v) s += f(x), mx = std::max(mx, f(x)), mn = std::min(mn, f(x));
    c.eq(transform_sum(v, f), s, 1e-12, 1e-9, "sum");
    c.eq(transform_max(v, f), n ? mx : 0, 0, 0, "max");
    c.eq(transform_min(v, f), n ? mn : 0, 0, 0, "min");
    c.eq(transform_mean(v, f), n ? s / n : 0, 1e-12, 1e-9, "mean");
    const double x = r.u(-50, 50);
    c.eq(sqr(x), x * x, 0, 0, "square"), c.eq(cube(x), x * x * x, 1e-15, 0, "cube"), c.eq(abs_sqrt(x), std::sqrt(std::fabs(x)), 0, 0, "root");
    c.eq(C_to_Kelvin(x), 273 + x, 0, 1e-12, "temperature-units"), c.eq(K_to_Celsius(C_to_Kelvin(x)), x, 0, 1e-12, "temperature-units");
    c.ok(util::sign(x) == (x > 0 ? 1 : -1) && util::sign(0.0) == 0 && util::is_zero(0.0) && !util::is_zero(x), "sign");
    // every index is processed exactly once, however many workers there are
    const int tasks = r.i(0, 60), workers = r.i(-1, 12);
    std::vector<std::atomic<int>> hits(tasks + 8);
    run([&](int i) { hits.at(i)++; }, tasks, (unsigned)workers);
    for (int i = 0; i < (int)hits.size(); i++) c.ok(hits[i] == (i < tasks ? 1 : 0), "tasks-once", fmt("task %d of %d with %d workers ran %d times", i, tasks, workers, (int)hits[i]));
    c.ev("parallel-runs");
    // values written as a table
    const int cols = r.i(1, 6), cnt = r.i(0, 30);
    std::vector<double> d(cnt);
    for (auto &y : d) y = r.i(-1000, 1000) / 8.0;
    auto keep = d;
    const auto p = put("");
    std::ofstream o(p);
    slide::free::write_data(o, d, cols);
    slide::free::write_data(o, d, cols); // nothing left to write
    o.close();
    c.ok(d.empty(), "buffer-emptied");
    std::ifstream in(p);
    std::string l;
    size_t k = 0;
    while (std::getline(in, l)) {
      std::istringstream is(l);
      std::string t;
      int q = 0;
      while (std::getline(is, t, ',')) {
        if (k < keep.size()) c.eq(strtod(t.c_str(), nullptr), keep[k], 1e-5, 0, "table-values");
        k++, q++;
      }
      c.ok(q == cols || k == keep.size(), "table-columns");
    }
    c.ok(k == keep.size(), "table-count", fmt("%zu vs %zu", k, keep.size()));
    fs::remove(p);
    c.ev("tables-written");
  });
}

VH_PROP(U04)
{
  auto &c = cx;
  // what is written to a file can be read from it
  c.run("written", c.scale(100, 1000), [&](Rng &r, int) {
    const int R = r.p(0.1) ? 0 : r.p(0.2) ? 1 : r.i(2, 40), C = r.i(1, 12);
    std::vector<std::vector<double>> v(R, std::vector<double>(C));
    for (auto &row : v)
      for (auto &x : row) x = r.p(0.1) ? 0 : r.sgn() * r.logu(1e-6, 1e6);
    const fs::path p = fmt("w%d_%d.csv", (int)getpid(), file_no++);
    { // something longer is there already
      std::ofstream old(p);
      old << std::string(r.i(0, 5000), 'x');
    }
    slide::output_printer(v, p);
    std::ifstream in(p);
    std::string line;
    int n = 0;
    for (; std::getline(in, line); n++) {
      if (n >= R) break;
      std::istringstream is(line);
      std::string f;
      int m = 0;
      for (; std::getline(is, f, ','); m++)
        if (m < C) c.eq(std::stod(f), v[n][m], 1e-5, 0, "written-value", fmt("row %d column %d", n, m));
      c.ok(m == C, "written-columns", fmt("row %d of %d has %d columns instead of %d", n, R, m, C));
    }
    c.ok(n == R, "written-rows", fmt("%d instead of %d", n, R));
    in.close();
    fs::remove(p);
    c.ev("written-files");
  });
  c.run("two-columns", c.scale(800, 10000), [&](Rng &r, int) {
    const int R = r.p(0.1) ? 1 : r.i(2, 60);
    auto t = rand_text(r, R, 2);
    const auto p = put(t.text);
    std::vector<double> x(r.i(0, 5), -77), y(r.i(0, 90), -77);
    const int n = r.p(0.6) ? 0 : r.i(1, R + 3), want = n ? std::min(n, R) : R;
    slide::loadCSV_2col(p, x, y, n);
    c.ok((int)x.size() == want && (int)y.size() == want, "row-count", fmt("%zu, %zu rows instead of %d", x.size(), y.size(), want));
    for (int i = 0; i < want && i < (int)x.size(); i++) c.eq(x[i], t.rows[i][0], 0, 0, "content", fmt("row %d", i)), c.eq(y[i], t.rows[i][1], 0, 0, "content", fmt("row %d", i));
    XYdata_vv d(7);
    d.setCurve(p);
    c.ok((int)d.size() == R, "curve-size");
    for (int i = 0; i < R && i < (int)d.size(); i++) c.eq(d.x[i], t.rows[i][0], 0, 0, "curve-content"), c.eq(d.y[i], t.rows[i][1], 0, 0, "curve-content");
    XYdata_ss s;
    s.setCurve(p);
    XYdata_ss s2;
    s2.setCurve(p); // a second reader gets the same data
    c.ok((int)s.size() == R && (int)s2.size() == R, "curve-size");
    for (int i = 0; i < R && i < (int)s.size(); i++) c.eq(s.x[i], t.rows[i][0], 0, 0, "shared-content"), c.eq(s2.y[i], t.rows[i][1], 0, 0, "shared-content");
    if (R >= 2) {
      std::span<double> ax, ay;
      const int m = r.i(1, R);
      slide::loadCSV_2col(p, ax, ay, m);
      c.ok((int)ax.size() == m, "portion-size");
      c.eq(ax[m - 1], t.rows[m - 1][0], 0, 0, "portion-content"), c.eq(ay[m - 1], t.rows[m - 1][1], 0, 0, "portion-content");
      c.ok(throws_int([&] { slide::loadCSV_2col(p, ax, ay, R + r.i(1, 50)); }), "rows-beyond-end");
    }
    { // arrays of a fixed size
      auto a = std::make_unique<std::array<double, 20>>(), b = std::make_unique<std::array<double, 20>>();
      a->fill(-77), b->fill(-77);
      const bool threw = throws_int([&] { slide::loadCSV_2col(p, *a, *b); });
      if (R > 20) c.ok(threw, "does-not-fit-accepted", fmt("%d rows", R)), c.ev("tables-too-large");
      else
        for (int i = 0; i < 20; i++) c.eq((*a)[i], i < R ? t.rows[i][0] : -77, 0, 0, "array-content", fmt("row %d of %d", i, R)), c.eq((*b)[i], i < R ? t.rows[i][1] : -77, 0, 0, "array-content", fmt("row %d of %d", i, R));
    }
    if (r.p(0.3)) { // tables of one name in several folders
      const auto dir = fs::path(fmt("dir%d", file_no++));
      fs::create_directories(dir / "sub");
      std::vector<fs::path> where{ dir / p, dir / "sub" / p, fs::absolute(dir) / ("x" + p.string()) };
      std::vector<Text> ts;
      for (auto &w : where) {
        ts.push_back(rand_text(r, r.p(0.5) ? R : r.i(1, 30), 2));
        std::ofstream(w, std::ios::binary) << ts.back().text;
      }
      for (int pass = 0; pass < 2; pass++)
        for (size_t f = 0; f < where.size(); f++) {
          XYdata_ss d;
          d.setCurve(where[f]);
          if (!c.eq((double)d.size(), (double)ts[f].rows.size(), 0, 0, "same-name-other-folder", where[f].string())) continue;
          for (size_t i = 0; i < d.size(); i++) c.eq(d.x[i], ts[f].rows[i][0], 0, 0, "same-name-other-folder", where[f].string()), c.eq(d.y[i], ts[f].rows[i][1], 0, 0, "same-name-other-folder", where[f].string());
        }
      fs::remove_all(dir);
      c.ev("same-names");
    }
    fs::remove(p);
    c.ev("tables-read");
    c.seen("table", vh::hs(t.text.c_str()));
    std::string how;
    const auto bad = spoil(r, t, 2, how, false);
    const auto q = put(bad);
    c.ok(throws_int([&] { slide::loadCSV_2col(q, x, y); }), "malformed-accepted", fmt("%s: read %zu rows of\n%s", how.c_str(), x.size(), bad.substr(0, 200).c_str()));
    XYdata_ss sb;
    c.ok(throws_int([&] { sb.setCurve(q); }), "malformed-accepted", how);
    c.ok(throws_int([&] { sb.setCurve(q); }), "malformed-accepted-second-time", how);
    fs::remove(q);
    c.ev("malformed-tables");
  });
  c.run("many-columns", c.scale(800, 10000), [&](Rng &r, int) {
    const int R = r.p(0.1) ? 1 : r.i(2, 40), C = r.i(1, 7);
    auto t = rand_text(r, R, C);
    const auto p = put(t.text);
    DynamicMatrix<double> m;
    if (r.p(0.3)) m.resize(3, 3, 1);
    const int n = r.p(0.6) ? 0 : r.i(1, R), want = n ? n : R;
    slide::loadCSV_Ncol(p, m, n);
    c.ok(m.rows() == C && m.cols() == want && (int)m.data.size() == C * want, "shape", fmt("%dx%d, %zu values instead of %dx%d", m.rows(), m.cols(), m.data.size(), C, want));
    if ((int)m.data.size() == C * want && m.rows() == C)
      for (int i = 0; i < want; i++)
        for (int j = 0; j < C; j++) c.eq(m(j, i), t.rows[i][j], 0, 0, "content", fmt("row %d column %d", i, j));
    fs::remove(p);
    c.ev("tables-read");
    std::string how;
    const auto bad = spoil(r, t, C, how, false);
    const auto q = put(bad);
    c.ok(throws_int([&] { slide::loadCSV_Ncol(q, m); }), "malformed-accepted", fmt("%s:\n%s", how.c_str(), bad.substr(0, 200).c_str()));
    fs::remove(q);
    c.ev("malformed-tables");
  });
  c.run("matrices", c.scale(400, 5000), [&](Rng &r, int) {
    mat_case<1, 1>(c, r), mat_case<7, 1>(c, r), mat_case<3, 4>(c, r), mat_case<1, 6>(c, r), mat_case<13, 13>(c, r);
  });
  c.run("odd-files", c.scale(60, 600), [&](Rng &r, int k) {
    static const std::vector<std::string> odd{ "", "\n", "   \n \r\n", "\xEF\xBB\xBF", "\xEF\xBB\xBF\n", "+", "+++\n", "\t", ",", ",,,\n", "#comment\n1,2\n", "time,current\n1,2\n", std::string("\0\0\0", 3), "\xff\xfe\x31\x00", "1e999,2\n", "nan,nan\n", "1", "1,", "-", "--", "- 1,2\n" };
    const auto &s = odd[k % odd.size()];
    const auto p = put(s);
    std::vector<double> x(4, -77), y(4, -77);
    DynamicMatrix<double> m;
    slide::Matrix<double, 2, 2> a;
    for (auto &row : a) row.fill(-77);
    const bool t1 = throws_int([&] { slide::loadCSV_2col(p, x, y); });
    const auto d = fmt("file %zu of the list", k % odd.size());
    if (!t1) c.ok(x.size() == y.size() && x.size() <= 1 && (x.empty() || s.find(fmt("%g", x[0])) != std::string::npos), "made-up-values", d + fmt(": %zu rows", x.size()));
    throws_int([&] { slide::loadCSV_Ncol(p, m); });
    c.ok((size_t)m.rows() * m.cols() <= std::max<size_t>(m.data.size(), 0) || m.data.empty(), "shape-without-data", d);
    c.ok(throws_int([&] { slide::loadCSV_mat(p, a); }), "malformed-accepted", d);
    XYdata_vv v;
    throws_int([&] { v.setCurve(p); });
    XYdata_ss w;
    throws_int([&] { w.setCurve(p); });
    fs::remove(p);
    c.ev("odd-files");
    // no file at all
    const fs::path none = fmt("missing%d.csv", r.i(0, 1 << 30));
    c.ok(throws_int([&] { slide::loadCSV_2col(none, x, y); }), "missing-file");
    c.ok(throws_int([&] { slide::loadCSV_Ncol(none, m); }), "missing-file");
    c.ok(throws_int([&] { slide::loadCSV_mat(none, a); }), "missing-file");
    c.ok(throws_int([&] { w.setCurve(none); }), "missing-file");
    c.ok(throws_int([&] { w.setCurve(none); }), "missing-file");
    c.ev("missing-files");
  });
  // the shipped data, read by an independent reader
  c.run("shipped", 1, [&](Rng &, int) {
    int files = 0;
    for (auto &e : fs::directory_iterator("../../data")) {
      if (e.path().extension() != ".csv") continue;
      std::ifstream in(e.path(), std::ios::binary);
      std::string l;
      std::vector<std::vector<double>> rows;
      bool num = true;
      while (std::getline(in, l)) {
        if (rows.empty() && l.compare(0, 3, "\xEF\xBB\xBF") == 0) l = l.substr(3);
        while (!l.empty() && (l.back() == '\r' || l.back() == ' ')) l.pop_back();
        if (l.empty()) continue;
        rows.emplace_back();
        std::istringstream is(l);
        std::string f;
        while (std::getline(is, f, ',')) {
          char *end;
          rows.back().push_back(strtod(f.c_str(), &end));
          if (end == f.c_str() || *end) num = false;
        }
      }
      if (!num || rows.empty()) continue;
      const auto d = e.path().filename().string();
      DynamicMatrix<double> m;
      slide::loadCSV_Ncol(e.path(), m);
      if (!c.ok(m.cols() == (int)rows.size() && m.rows() == (int)rows[0].size(), "shipped-shape", d)) continue;
      for (size_t i = 0; i < rows.size(); i++)
        for (size_t j = 0; j < rows[i].size(); j++) c.eq(m(j, i), rows[i][j], 0, 0, "shipped-content", d);
      if (rows[0].size() == 2) {
        std::vector<double> x, y;
        slide::loadCSV_2col(e.path(), x, y);
        c.ok(x.size() == rows.size(), "shipped-shape", d);
        for (size_t i = 0; i < std::min(x.size(), rows.size()); i++) c.eq(x[i], rows[i][0], 0, 0, "shipped-content", d), c.eq(y[i], rows[i][1], 0, 0, "shipped-content", d);
      }
      files++;
    }
    c.ok(files > 15, "shipped-files", fmt("%d", files));
    c.ev("shipped-files", files);
  });
}
