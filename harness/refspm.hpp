// Independent reference of the single particle model with its degradation models, written from the published equations
// and the documented Kokam parameter set.  Reads the parametrisation files itself.
#pragma once
#include "vs.hpp"
#include <fstream>
#include <sstream>

namespace ref {
inline std::vector<std::vector<double>> csv(const std::string &p)
{
  std::ifstream f(p);
  std::vector<std::vector<double>> o;
  std::string l;
  while (std::getline(f, l)) {
    if (l.size() >= 3 && (unsigned char)l[0] == 0xEF) l = l.substr(3);
    while (!l.empty() && (l.back() == '\r' || l.back() == '\n')) l.pop_back();
    if (l.empty()) continue;
    std::vector<double> row;
    std::stringstream ss(l);
    std::string c;
    while (std::getline(ss, c, ',')) row.push_back(std::strtod(c.c_str(), nullptr));
    o.push_back(row);
  }
  return o;
}
struct Curve {
  std::vector<double> x, y;
  void load(const std::string &p)
  {
    for (auto &r : csv(p)) {
      x.push_back(r.at(0));
      y.push_back(r.at(1));
    }
  }
  double operator()(double q) const
  {
    if (q <= x.front()) return y.front();
    if (q >= x.back()) return y.back();
    size_t k = 1;
    while (x[k] < q) k++;
    return y[k - 1] + (y[k] - y[k - 1]) * (q - x[k - 1]) / (x[k] - x[k - 1]);
  }
};

struct SPM {
  static constexpr int nch = 5;
  static constexpr double F = 96487, Rg = 8.314;
  Curve up, un, dun, dut;
  std::vector<double> xch, Ap, An, Bp, Bn, Cc, Dp, Dn;
  std::vector<std::vector<double>> Cp, Cn;
  SPM(const std::string &d = "../../data/")
  {
    up.load(d + "Kokam_OCV_NMC.csv");
    un.load(d + "Kokam_OCV_C.csv");
    dun.load(d + "Kokam_entropic_C.csv");
    dut.load(d + "Kokam_entropic_cell.csv");
    auto col = [&](const char *n) { std::vector<double> v; for (auto &r : csv(d + n)) v.push_back(r.at(0)); return v; };
    xch = col("Cheb_Nodes.csv");
    Ap = col("Cheb_Ap.csv");
    An = col("Cheb_An.csv");
    Bp = col("Cheb_Bp.csv");
    Bn = col("Cheb_Bn.csv");
    Cc = col("Cheb_Cc.csv");
    Dp = col("Cheb_Dp.csv");
    Dn = col("Cheb_Dn.csv");
    Cp = csv(d + "Cheb_Cp.csv");
    Cn = csv(d + "Cheb_Cn.csv");
    mk_weights();
  }
  static const SPM &get()
  {
    static SPM s;
    return s;
  }
  // quadrature weights: volume mean of an even polynomial through the nodes x = 1, xch..., 0
  double w[nch + 2];
  void mk_weights()
  {
    const int N = nch + 2;
    long double A[N][N + 1];
    for (int k = 0; k < N; k++) {
      for (int i = 0; i < N; i++) {
        long double x = i == 0 ? 1.0L : (i == N - 1 ? 0.0L : std::cos((long double)i * 3.14159265358979323846L / (2.0L * (nch + 1))));
        A[k][i] = k == 0 ? 1.0L : powl(x, 2 * k);
      }
      A[k][N] = 3.0L / (2 * k + 3);
    }
    for (int c = 0; c < N; c++) {
      int p = c;
      for (int r = c; r < N; r++)
        if (fabsl(A[r][c]) > fabsl(A[p][c])) p = r;
      for (int k = 0; k <= N; k++) std::swap(A[c][k], A[p][k]);
      for (int r = 0; r < N; r++)
        if (r != c) {
          long double f = A[r][c] / A[c][c];
          for (int k = c; k <= N; k++) A[r][k] -= f * A[c][k];
        }
    }
    for (int i = 0; i < N; i++) w[i] = (double)(A[i][N] / A[i][i]);
  }
  double mean(const double *c) const
  {
    double s = 0;
    for (int i = 0; i < nch + 2; i++) s += w[i] * c[i];
    return s;
  }

  // --- parameters (Kokam NMC 16 Ah) ---
  double elec_surf = 0.1 * 0.2 * 31, Rp = 8.5e-6, Rn = 1.25e-5, L = 1.6850e-4, Acell = 0.02;
  double Cmaxp = 51385, Cmaxn = 30555, Cel = 1000;
  double kp = 5e-11, kpT = 58000, kn = 1.7640e-11, knT = 20000, DpT = 29000, DnT = 7000;
  double Tref = 298, Tenv = 288, rho = 1626, cp_heat = 750, Qch = 45;
  double rsei = 2037.4 * 50, OCVsei = 0.4, rhosei = 100e3, c_el0 = 4.541e-3, Vmain = 13, Vsei = 64.39, OCVnmc = 4.1, rhopl = 10e6;

  struct Eval {
    double cps, cns, V, OCV, OCVnt, etap, etan, R, heat, jp, jn, Dpt, Dnt, OCVp, sa;
  };
  template <class St>
  Eval eval(St &st, double capf = 1) const
  {
    Eval e{};
    const double S = elec_surf * capf;
    const double I = st.I(), T = st.T();
    e.sa = (1 / Tref - 1 / T) / Rg;
    e.Dpt = st.Dp() * std::exp(DpT * e.sa);
    e.Dnt = st.Dn() * std::exp(DnT * e.sa);
    const double i = I / S;
    e.jp = -i / (st.ap() * F * st.thickp());
    e.jn = i / (st.an() * F * st.thickn());
    for (int k = 0; k < nch; k++) {
      e.cps += Cp[0][k] * st.zp(k);
      e.cns += Cn[0][k] * st.zn(k);
    }
    e.cps += Dp[0] * e.jp / e.Dpt;
    e.cns += Dn[0] * e.jn / e.Dnt;
    const double xp = e.cps / Cmaxp, xn = e.cns / Cmaxn;
    const double kpt = kp * std::exp(kpT * e.sa), knt = kn * std::exp(knT * e.sa);
    const double i0p = kpt * F * std::sqrt(Cel * e.cps * (Cmaxp - e.cps)), i0n = knt * F * std::sqrt(Cel * e.cns * (Cmaxn - e.cns));
    e.etap = 2 * Rg * T / F * std::asinh(-0.5 * i / (st.ap() * st.thickp() * i0p));
    e.etan = 2 * Rg * T / F * std::asinh(0.5 * i / (st.an() * st.thickn() * i0n));
    e.R = st.delta() * rsei / (st.an() * S * st.thickn()) + st.rDCp() / (st.ap() * S * st.thickp()) + st.rDCn() / (st.an() * S * st.thickn()) + st.rDCcc() / S;
    e.OCVp = up(xp);
    e.OCV = e.OCVp - un(xn) + (T - Tref) * dut(xp);
    e.V = e.OCV + e.etap - e.etan - e.R * I;
    e.OCVnt = un(xn) + (T - Tref) * dun(xn);
    e.heat = -I * T * dut(xp) + I * (e.etan - e.etap) + I * I * e.R;
    return e;
  }
};
} // namespace ref
