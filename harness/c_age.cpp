// C10 ageing is one-directional and switchable, C11 ageing rates, C12 cell-to-cell variation
#include "vs.hpp"
#include "refspm.hpp"
using namespace slide;
using namespace vs;

namespace {
using sigma_type = std::array<double, 7>;
bool has(DEG_ID &d, int which, int id)
{
  bool h = false;
  if (which == 0)
    for (auto m : d.SEI_id) h |= m == id;
  if (which == 1)
    for (auto m : d.CS_id) h |= m == id;
  if (which == 2)
    for (auto m : d.LAM_id) h |= m == id;
  return h;
}
bool any(DEG_ID &d, int which)
{
  for (int k = 1; k <= 5; k++)
    if (has(d, which, k)) return true;
  return false;
}
std::string name(DEG_ID &d)
{
  std::string s = "sei";
  for (int k = 1; k <= 4; k++)
    if (has(d, 0, k)) s += std::to_string(k);
  if (d.SEI_porosity) s += "p";
  s += " cs";
  for (int k = 1; k <= 5; k++)
    if (has(d, 1, k)) s += std::to_string(k);
  if (d.CS_diffusion) s += "d";
  s += " lam";
  for (int k = 1; k <= 4; k++)
    if (has(d, 2, k)) s += std::to_string(k);
  if (d.pl_id) s += " pl";
  return s;
}
struct Var {
  double cap{ 1 }, sei{ 1 }, lam{ 1 };
};
// published rate equations evaluated with the reference model
struct Rates {
  double delta{}, LLI{}, thickp{}, thickn{}, ep{}, en{}, ap{}, an{}, CS{}, Dn{}, dpl{}, znflux{};
};
struct Stress {
  double daip{}, dain{}, lares{}, lares_err{};
};
// mean concentration 3 * int(c x^2 dx, 0..1), integrating the even polynomial through c x^2 at the nodes
double mean_conc(const double *c)
{
  static const auto Q = ref::csv("../../data/Cheb_Q.csv"); // integrals from -1 to each node of the polynomial through 13 nodes
  double lo = 0, hi = 0;
  for (int j = 0; j < 13; j++) {
    const double x = std::cos((12 - j) * 3.14159265358979323846 / 12), f = c[std::min(j, 12 - j)] * x * x;
    lo += Q[6][j] * f, hi += Q[12][j] * f;
  }
  return 3 * (hi - lo);
}
double lares_curve(double z)
{
  static const double y[] = { 0, 5.5, 8.5, 9.5, 10, 10, 10.5, 13, 16.5, 21, 23.5 };
  if (z <= 0) return y[0];
  if (z >= 1) return y[10];
  int k = (int)(z * 10);
  return y[k] + (y[k + 1] - y[k]) * (z * 10 - k);
}
Stress stress_of(Cell_SPM &c, const ref::SPM &R, double capf)
{
  Stress s;
  sigma_type a, b, d, e, f, g;
  c.getDaiStress(&s.daip, &s.dain, a, b, d, e, f, g);
  c.getLaresgoitiStress(false, &s.lares); // differences of it are used, so take the cell's own rounding ...
  s.lares_err = std::fabs(s.lares - lares_curve(R.eval(c.getStateObj(), capf).cns / R.Cmaxn)); // ... but it has to be right
  return s;
}
Rates rates(Cell_SPM &c, DEG_ID &d, const ref::SPM &R, Var v, Stress now, Stress prev, double sdt)
{
  using std::exp;
  Rates o;
  auto &st = c.getStateObj();
  auto e = R.eval(st, v.cap);
  const double F = R.F, Rg = R.Rg, T = st.T(), sa = e.sa, I = st.I(), ft = F / (Rg * T);
  const double rIs = R.rsei * st.delta() * I;
  auto arr = [&](double k, double E) { return k * exp(E * sa); };
  double isei = 0;
  if (has(d, 0, 1)) isei += F * arr(v.sei * 0.075e-14, 130e3) * exp(-ft * (e.OCVnt + e.etan - R.OCVsei + rIs));
  if (has(d, 0, 2)) {
    const double i2 = F * arr(v.sei * 2.75e-11, 130e3) * exp(-ft * (e.OCVnt + e.etan - R.OCVsei + rIs));
    isei += R.c_el0 / (1 / i2 + st.delta() / (F * arr(v.sei * 1.125e-14, 20e3)));
  }
  if (has(d, 0, 3)) {
    const double i2 = F * arr(v.sei * 1.1458e-15, 65e3) * exp(-ft * (e.OCVnt - R.OCVsei));
    isei += 0.134461 * exp(-ft * (e.etan + rIs)) / (1 / i2 + st.delta() / (F * arr(v.sei * 0.25e-15, 200e3)));
  }
  if (has(d, 0, 4)) {
    const double i2 = F * arr(v.sei * 0.375e-14, 130e3 / 1.5) * exp(-ft * (e.OCVnt - R.OCVsei));
    isei += 0.134461 * exp(-ft * e.etan) / (1 / i2 + st.delta() / (F * arr(v.sei * 0.5e-16 / 15, 80e3)));
  }
  double den_sei = 0;
  // sign of the current density as in the surface concentration: positive while discharging
  if (d.SEI_porosity) den_sei = -2.25e-6 * (e.jn * R.Vmain + isei * R.Vsei);
  // cracks
  const double S = R.elec_surf * v.cap, ASn = st.an() * st.thickn() * S;
  double dcs = 0, mult = 0;
  const double Amax = std::max(5 * 3 * 0.5 / R.Rn * 73.5e-6 * R.elec_surf, st.CS());
  for (int k = 1; k <= 5; k++)
    if (has(d, 1, k)) {
      mult += st.CS() / ASn;
      double cp[7], cn[7];
      if (k == 1) dcs += v.sei * 4.25e-5 * std::sqrt(std::fabs(now.lares - prev.lares) / sdt);
      if (k == 2) dcs += v.sei * 6.3e-7 * std::sqrt(std::fabs(now.dain - prev.dain) / sdt);
      if (k == 3) {
        c.getC(cp, cn);
        const double q = (cn[0] - cn[6]) / R.Cmaxn;
        dcs += v.sei * 2.31e-16 * q * q;
      }
      if (k == 4) dcs += v.sei * 4.3306e-8 * (Amax - st.CS()) * std::fabs(I);
      if (k == 5) {
        const double z = e.cns / R.Cmaxn, kc = arr(v.sei * 1e-18, -127040);
        const double kcr = I > 0 ? 0 : z < 0.3 ? 2 * kc : z < 0.7 ? 0 : kc;
        dcs += F * kcr * exp(-ft * (e.OCVnt + e.etan - R.OCVsei + rIs));
      }
    }
  const double isei_cs = isei * mult;
  if (d.CS_diffusion) o.Dn = -std::min(2e-7, 2 * (1 - st.CS() / Amax) / Amax * dcs) * st.Dn();
  o.CS = dcs;
  // loss of active material
  if (has(d, 2, 1)) {
    o.thickp -= v.lam * 3.4985e-10 * std::fabs(now.daip - prev.daip) / sdt;
    o.thickn -= v.lam * 1.176e-8 * std::fabs(now.dain - prev.dain) / sdt;
  }
  if (has(d, 2, 2)) {
    o.ep += arr(v.lam * -1.675e-5, 54611) * std::fabs(e.jp);
    o.en += arr(v.lam * -1.675e-5, 54611) * std::fabs(e.jn);
  }
  if (has(d, 2, 3)) o.ep += std::max(-5e-6, -arr(v.lam * 12.5e-6, 27305) * exp(ft * (e.OCVp + e.etap - R.OCVnmc)) / F);
  double dap = 0, dan = 0;
  if (has(d, 2, 4)) dap = -v.lam * 8.3333e-9 * st.ap(), dan = -v.lam * 8.3333e-9 * st.an();
  double ipl = 0;
  if (d.pl_id) ipl = F * arr(v.sei * 4.5e-10, -2.014008e5) * exp(-ft * (e.OCVnt + e.etan + rIs));
  o.en += den_sei;
  o.ap = dap + 3 / R.Rp * o.ep;
  o.an = dan + 3 / R.Rn * o.en;
  o.delta = isei / (F * R.rhosei);
  o.LLI = (isei + isei_cs + ipl) * ASn;
  o.dpl = ipl / (F * R.rhopl);
  o.znflux = (isei + isei_cs + ipl) / F;
  return o;
}
// drive a cell into a non-uniform state that is still inside its limits
bool usable(Cell_SPM &c, const ref::SPM &R, double capf, double m = 0.02)
{
  auto e = R.eval(c.getStateObj(), capf);
  return e.cps > m * R.Cmaxp && e.cps < (1 - m) * R.Cmaxp && e.cns > m * R.Cmaxn && e.cns < (1 - m) * R.Cmaxn;
}
struct Snap {
  std::vector<double> v;
  Snap(Cell_SPM &c) { c.getStates(v); }
};
} // namespace

VH_PROP(C11)
{
  const auto &R = ref::SPM::get();
  cx.run("rates", cx.scale(8000, 120000), [&](Rng &r, int k) {
    DEG_ID d;
    const int single = k % 16;
    if (single < 4)
      d.SEI_id.add_model(single + 1);
    else if (single < 9) {
      d.CS_id.add_model(single - 3);
      d.SEI_id.add_model(r.i(1, 4));
    } else if (single < 13)
      d.LAM_id.add_model(single - 8);
    else if (single == 13)
      d.pl_id = 1;
    else
      d = deg_rand(r, true);
    if (single < 4 && r.p(0.4)) d.SEI_porosity = 1;
    if (single >= 4 && single < 9 && r.p(0.5)) d.CS_diffusion = 1;
    Var v;
    v.cap = r.p(0.5) ? 1 : r.u(0.8, 1.25);
    v.sei = r.p(0.5) ? 1 : r.u(0.3, 3);
    v.lam = r.p(0.5) ? 1 : r.u(0.3, 3);
    Cell_SPM c("age", d, v.cap, r.u(0.8, 1.3), v.sei, v.lam);
    double T = r.u(276, 330);
    c.setT(T);
    spm_at(c, r.u(0.05, 0.97), v.cap);
    auto &st = c.getStateObj();
    if (r.p(0.5)) { // aged cell
      st.delta() *= r.logu(1, 300);
      st.CS() *= r.logu(1, 500);
      st.LLI() = r.u(0, 4000);
      st.delta_pl() = r.u(0, 1e-8);
      const double f = r.u(0.85, 1), g = r.u(0.85, 1);
      st.ep() *= f, st.ap() *= f, st.en() *= g, st.an() *= g;
      st.thickp() *= r.u(0.85, 1);
      st.thickn() *= r.u(0.85, 1);
      st.Dn() *= r.u(0.7, 1);
      c.setT(T);
    }
    Stress prev; // a fresh cell has no stress history
    for (int j = 0, m = r.i(1, 4); j < m; j++) {
      const double I = r.p(0.15) ? 0 : 16 * v.cap * r.u(-1.5, 1.5), dt = r.u(0.1, 1.9);
      const int n = r.p(0.2) ? 1 : r.i(2, 300);
      const double soc = c.SOC() - I * dt * n / 3600 / c.Cap();
      if (soc < 0.02 || soc > 0.98) continue;
      c.setCurrent(I, false, false);
      auto twin = std::unique_ptr<StorageUnit>(c.copy());
      auto &w = static_cast<Cell_SPM &>(*twin);
      w.setBlockDegAndTherm(true);
      w.timeStep_CC(dt, n);
      if (!usable(w, R, v.cap)) {
        cx.inconclusive++;
        break;
      }
      try {
        c.timeStep_CC(dt, n);
      } catch (int e) {
        cx.violation("ageing-step-threw", fmt("%d with %s", e, name(d).c_str()));
        break;
      }
      const Stress now = stress_of(w, R, v.cap);
      const double h = dt * n;
      cx.le(now.lares_err, 0, 1e-8, "laresgoiti-stress");
      Rates q = rates(w, d, R, v, now, prev, h);
      prev = now;
      auto &s0 = w.getStateObj(), &s1 = c.getStateObj();
      const auto what = fmt("%s I=%g T=%g soc=%g dt=%g n=%d step %d", name(d).c_str(), I, T, soc, dt, n, j);
      auto chk = [&](double after, double before, double rate, const char *key, const char *ev) {
        const double inc = rate * h;
        cx.eq(after - before, inc, 2e-7, 4e-16 * std::fabs(before), key, what);
        if (std::fabs(inc) > 1e-12 * std::fabs(before)) cx.ev(ev), cx.seen("model-sets", vh::hs(name(d).c_str()));
      };
      chk(s1.delta(), s0.delta(), q.delta, "film-growth-rate", "film-growth");
      chk(s1.LLI(), s0.LLI(), q.LLI, "lost-lithium-rate", "lost-lithium");
      chk(s1.thickp(), s0.thickp(), q.thickp, "thickness-rate-p", "thickness-loss");
      chk(s1.thickn(), s0.thickn(), q.thickn, "thickness-rate-n", "thickness-loss");
      chk(s1.ep(), s0.ep(), q.ep, "volume-fraction-rate-p", "volume-fraction-loss-p");
      chk(s1.en(), s0.en(), q.en, "volume-fraction-rate-n", "volume-fraction-loss-n");
      chk(s1.ap(), s0.ap(), q.ap, "area-rate-p", "area-loss");
      chk(s1.an(), s0.an(), q.an, "area-rate-n", "area-loss");
      chk(s1.CS(), s0.CS(), q.CS, "crack-growth-rate", "crack-growth");
      chk(s1.Dn(), s0.Dn(), q.Dn, "diffusion-loss-rate", "diffusion-loss");
      chk(s1.delta_pl(), s0.delta_pl(), q.dpl, "plating-rate", "plating");
      cx.eq(s1.Dp(), s0.Dp(), 0, 0, "unrelated-state-changed", "Dp " + what);
      for (int z = 0; z < R.nch; z++) {
        cx.eq(s1.zp(z), s0.zp(z), 0, 0, "unrelated-state-changed", "zp " + what);
        cx.eq(s1.zn(z) - s0.zn(z), R.Bn[z] * q.znflux * h, 2e-7, 1e-15 * std::fabs(s0.zn(z)) + 1e-13 * std::fabs(s0.zn(R.nch - 1)), "lithium-taken-from-anode", what);
      }
      cx.eq(s1.rDCp(), s0.rDCp(), 0, 0, "unrelated-state-changed", "rDCp " + what);
      cx.eq(s1.rDCn(), s0.rDCn(), 0, 0, "unrelated-state-changed", "rDCn " + what);
      cx.eq(s1.rDCcc(), s0.rDCcc(), 0, 0, "unrelated-state-changed", "rDCcc " + what);
      cx.eq(c.SOC(), w.SOC(), 0, 0, "unrelated-state-changed", "SOC " + what);
      cx.ev(single < 14 ? "single-model-steps" : "combined-model-steps");
      if (k < 16 && j == 0) cx.sample(what + fmt(": dLLI %.3g ddelta %.3g dCS %.3g den %.3g", q.LLI * h, q.delta * h, q.CS * h, q.en * h));
      if (r.p(0.15)) { // the temperature may change between steps
        T = r.u(276, 330);
        c.setT(T);
      }
    }
  });
  cx.run("stress", cx.scale(2000, 40000), [&](Rng &r, int) {
    const double capf = r.u(0.8, 1.2);
    Cell_SPM c("stress", deg_none(), capf, 1, 1, 1);
    c.setT(r.u(276, 330));
    spm_at(c, r.u(0.1, 0.95), capf);
    for (int j = 0; j < 3; j++) {
      c.setCurrent(16 * capf * r.u(-1.5, 1.5), false, false);
      const double dt = r.u(0.2, 1.9);
      const int n = r.i(1, 200);
      const double soc = c.SOC() - c.I() * dt * n / 3600 / c.Cap();
      if (soc < 0.03 || soc > 0.97) continue;
      try {
        c.timeStep_CC(dt, n);
      } catch (int) { // ran into a concentration limit
        cx.inconclusive++;
        break;
      }
      if (!usable(c, R, capf)) break;
      double cp[7], cn[7];
      c.getC(cp, cn);
      double sp, sn;
      sigma_type rp, rn, tp, tn, hp, hn;
      c.getDaiStress(&sp, &sn, rp, rn, tp, tn, hp, hn);
      auto side = [&](const double *q, double smax, const sigma_type &sr, const sigma_type &stg, const sigma_type &sh, double Om, double E, const char *el) {
        const double K = 2 * Om * E / (9 * (1 - 0.3)), M = mean_conc(q);
        double lo = q[0], hi = q[0];
        for (int i = 0; i < 7; i++) lo = std::min(lo, q[i]), hi = std::max(hi, q[i]);
        const double tol = K * (1e-8 * (hi - lo) + 1e-9 * hi);
        int arg = 0;
        for (int i = 0; i < 7; i++) {
          cx.eq(sh[i], K * (M - q[i]), 0, tol, "hydrostatic-stress", fmt("%s node %d", el, i));
          cx.eq(sh[i], (sr[i] + 2 * stg[i]) / 3, 1e-9, 1e-12, "hydrostatic-is-mean", el);
          if (std::fabs(sh[i]) > std::fabs(sh[arg])) arg = i;
        }
        cx.eq(smax, sh[arg], 0, 0, "largest-stress", el);
        cx.eq(sr[0], 0, 0, tol, "radial-stress-free-surface", el);
        cx.eq(sr[6], stg[6], 1e-12, 0, "isotropic-centre", el);
        if (hi - lo > 10) cx.ev("stress-profiles");
      };
      side(cp, sp, rp, tp, hp, 2.1e-6, 138.73, "cathode");
      side(cn, sn, rn, tn, hn, 3.17e-6, 10, "anode");
      double s = -1;
      c.getLaresgoitiStress(false, &s);
      cx.eq(s, lares_curve(R.eval(c.getStateObj(), capf).cns / R.Cmaxn), 1e-9, 1e-9, "laresgoiti-stress");
    }
  });
  // a model that does not exist is refused once it is evaluated; the printed name tells the settings apart
  cx.run("unknown-model", cx.scale(60, 600), [&](Rng &r, int k) {
    DEG_ID d = deg_rand(r, true);
    bool known = false;
    const int past = r.i(1, 200);
    switch (k % 7) {
    case 0: d.SEI_id.add_model(4 + past); break;
    case 1: d.SEI_porosity = 1 + past; break;
    case 2: d.CS_id.add_model(5 + past); break;
    case 3: d.CS_diffusion = 1 + past; break;
    case 4: d.LAM_id.add_model(4 + past); break;
    case 5: d.pl_id = 1 + past; break;
    default: known = true;
    }
    Cell_SPM c("odd", d, 1, 1, 1, 1);
    c.setCurrent(c.Cap() * r.u(-0.5, 0.5), false, false);
    if (r.p(0.3)) { // nothing to evaluate while ageing is blocked
      c.setBlockDegAndTherm(true);
      c.timeStep_CC(1, r.i(1, 5));
      c.setBlockDegAndTherm(false);
    }
    auto s0 = c.getStateObj();
    bool threw = false;
    try {
      c.timeStep_CC(1, r.i(1, 5));
    } catch (int) {
      threw = true;
    }
    cx.ok(threw != known, "unknown-model-accepted", d.print() + (threw ? " refused" : " accepted"));
    if (threw) {
      auto &s1 = c.getStateObj();
      cx.ok(s0.delta() == s1.delta() && s0.LLI() == s1.LLI() && s0.CS() == s1.CS() && s0.thickp() == s1.thickp() && s0.thickn() == s1.thickn() && s0.ep() == s1.ep() && s0.en() == s1.en()
              && s0.Dn() == s1.Dn() && s0.delta_pl() == s1.delta_pl() && s0.ap() == s1.ap() && s0.an() == s1.an(),
            "refused-model-aged", d.print());
    }
    cx.ev(known ? "known-models" : "unknown-models");
  });
  cx.run("name", cx.scale(300, 3000), [&](Rng &r, int) {
    const DEG_ID d0 = deg_rand(r, true);
    DEG_ID d = d0;
    if (r.p(0.3)) d.SEI_id = {};
    if (r.p(0.3)) d.CS_id = {};
    if (r.p(0.3)) d.LAM_id = {};
    auto list = [](DEG_ID::DegArray &a) {
      std::string s;
      for (auto m : a) s += (s.empty() ? "" : "-") + std::to_string((int)m);
      return s.empty() ? std::string("0") : s;
    };
    const std::string want = list(d.SEI_id) + "-" + std::to_string((int)d.SEI_porosity) + "_" + list(d.CS_id) + "-" + std::to_string((int)d.CS_diffusion) + "_" + list(d.LAM_id) + "_" + std::to_string((int)d.pl_id);
    cx.ok(d.print() == want, "name-of-settings", d.print() + " instead of " + want);
    cx.ev("names");
  });
}

VH_PROP(C10)
{
  const auto &R = ref::SPM::get();
  cx.run("monotone", cx.scale(4000, 60000), [&](Rng &r, int k) {
    DEG_ID d = deg_rand(r, true);
    if (k % 13 == 0) d = deg_none();
    const double capf = r.u(0.8, 1.2);
    Cell_SPM c("mono", d, capf, 1, r.u(0.3, 3), r.u(0.3, 3));
    c.setT(r.u(276, 328));
    spm_at(c, r.u(0.05, 0.97), capf);
    auto &st = c.getStateObj();
    if (k % 3 == 2) age(c, r); // a cell with a past
    const bool sei = any(d, 0), cs = any(d, 1), l1 = has(d, 2, 1), l2 = has(d, 2, 2), l3 = has(d, 2, 3), l4 = has(d, 2, 4), por = d.SEI_porosity;
    const auto nm = name(d);
    cx.seen("model-sets", vh::hs(nm.c_str()));
    for (int j = 0, m = r.i(3, 10); j < m; j++) {
      const bool block = r.p(0.2);
      c.setBlockDegAndTherm(block);
      const double I = r.p(0.2) ? 0 : 16 * capf * r.u(-1.5, 1.5), dt = r.u(0.1, 1.9);
      const int n = r.p(0.2) ? 1 : r.i(2, 200);
      const double soc = c.SOC() - I * dt * n / 3600 / c.Cap();
      if (soc < 0.03 || soc > 0.97) continue;
      c.setCurrent(I, false, false);
      auto q = std::unique_ptr<StorageUnit>(c.copy());
      q->setBlockDegAndTherm(true);
      q->timeStep_CC(dt, n);
      if (!usable(static_cast<Cell_SPM &>(*q), R, capf)) {
        cx.inconclusive++;
        continue;
      }
      const State_SPM s0 = st;
      State_SPM a = s0; // accessors are not const
      c.timeStep_CC(dt, n);
      const auto what = fmt("%s I=%g dt=%g n=%d block=%d", nm.c_str(), I, dt, n, (int)block);
      struct It {
        const char *n;
        double b, a;
        int sign;     // allowed direction
        bool active;  // some enabled model may change it
        bool checked; // direction is required
      } its[] = {
        { "film thickness", a.delta(), st.delta(), 1, sei, true },
        { "lost lithium", a.LLI(), st.LLI(), 1, sei || d.pl_id, true },
        { "plated lithium", a.delta_pl(), st.delta_pl(), 1, (bool)d.pl_id, true },
        { "crack area", a.CS(), st.CS(), 1, cs, true },
        { "cathode thickness", a.thickp(), st.thickp(), -1, l1, true },
        { "anode thickness", a.thickn(), st.thickn(), -1, l1, true },
        { "cathode fraction", a.ep(), st.ep(), -1, l2 || l3, true },
        { "anode fraction", a.en(), st.en(), -1, l2 || por, !por },
        { "cathode area", a.ap(), st.ap(), -1, l2 || l3 || l4, true },
        { "anode area", a.an(), st.an(), -1, l2 || l4 || por, !por },
        { "cathode diffusion", a.Dp(), st.Dp(), -1, false, true },
        { "anode diffusion", a.Dn(), st.Dn(), -1, cs && d.CS_diffusion, true },
        { "cathode resistance", a.rDCp(), st.rDCp(), 1, false, true },
        { "anode resistance", a.rDCn(), st.rDCn(), 1, false, true },
        { "collector resistance", a.rDCcc(), st.rDCcc(), 1, false, true },
      };
      for (auto &i : its) {
        if (block || !i.active) {
          cx.ok(vh::hd(i.a) == vh::hd(i.b), block ? "blocked-ageing-changed-state" : "disabled-model-changed-state", fmt("%s %.17g -> %.17g %s", i.n, i.b, i.a, what.c_str()));
          cx.ev(block ? "blocked-states" : "inactive-states");
        } else if (i.checked) {
          cx.ok((i.a - i.b) * i.sign >= 0, "ageing-reversed", fmt("%s %.17g -> %.17g %s", i.n, i.b, i.a, what.c_str()));
          if (i.a != i.b) cx.ev("active-states-moved");
        }
        cx.ok(std::isfinite(i.a), "ageing-not-finite", fmt("%s %s", i.n, what.c_str()));
      }
      auto geom = [&](double ar, double e, double rad, const char *el) {
        const double x = 3 * e / rad;
        if (l4)
          cx.le(ar, x, 1e-9 * x, "area-larger-than-geometry", el + what);
        else
          cx.eq(ar, x, 1e-8, 0, "area-inconsistent", el + what);
      };
      geom(st.ap(), st.ep(), R.Rp, "cathode ");
      geom(st.an(), st.en(), R.Rn, "anode ");
      if (block || (!sei && !cs && !d.pl_id && !por && !l1 && !l2 && !l3 && !l4)) // concentrations follow the current only
        for (int z = 0; z < 2 * R.nch; z++) cx.ok(vh::hd(st.z(z)) == vh::hd(static_cast<Cell_SPM &>(*q).getStateObj().z(z)), "blocked-ageing-changed-state", "concentration " + what);
      const auto saved = states(c); // its own state is always acceptable
      if (c.V() > 2.05 && c.V() < 4.25) {
        auto twin = std::unique_ptr<StorageUnit>(c.copy());
        const auto s = set_states(*twin, saved);
        cx.ok(s != Status::Invalid_states && s != Status::Unknown_problem, "aged-state-refused", fmt("%d %s", (int)s, what.c_str()));
        cx.ev("aged-states-restored");
      }
    }
  });
  // a long life: hundreds of hours of ageing keep every state in range
  cx.run("life", cx.scale(32, 400), [&](Rng &r, int) {
    DEG_ID d = deg_rand(r, true);
    Cell_SPM c("life", d, 1, 1, r.u(0.5, 20), r.u(0.5, 20));
    c.setT(r.u(288, 318));
    spm_at(c, 0.5);
    if (r.p(0.3)) age(c, r);
    auto &st = c.getStateObj();
    const auto nm = name(d);
    double I = 16 * r.u(0.3, 1), lli = 0, h = 0;
    const int n = 60;
    for (int j = 0; j < 2500; j++) {
      const double soc = c.SOC() - I * 120.0 / 3600 / 16;
      if (soc < 0.2 || soc > 0.8) I = -I;
      c.setCurrent(I, false, false);
      const double e0 = st.en(), t0 = st.thickn(), d0 = st.delta(), c0 = st.CS(), p0 = st.ep();
      try {
        c.timeStep_CC(2, n);
      } catch (int) {
        cx.ev("ended-at-concentration-limit");
        break;
      }
      if (!usable(c, R, 1, 0.01)) break;
      h += 2 * n / 3600.0;
      cx.ok(st.LLI() >= lli && st.delta() >= d0 && st.CS() >= c0 && st.thickn() <= t0 && st.ep() <= p0 && (d.SEI_porosity || st.en() <= e0), "ageing-reversed", fmt("after %g h %s", h, nm.c_str()));
      lli = st.LLI();
      if (!has(d, 2, 4)) cx.eq(st.an(), 3 * st.en() / R.Rn, 1e-7, 0, "area-inconsistent", nm);
    }
    cx.ev("simulated-hours", (uint64_t)h);
  });
}

VH_PROP(C12)
{
  const auto &R = ref::SPM::get();
  cx.run("variation", cx.scale(4000, 60000), [&](Rng &r, int k) {
    DEG_ID d;
    for (int i = 1; i <= 4; i++)
      if (r.p(0.35)) d.SEI_id.add_model(i);
    for (int i = 1; i <= 4; i++)
      if (r.p(0.35)) d.LAM_id.add_model(i);
    d.pl_id = r.p(0.5);
    d.SEI_porosity = r.p(0.4);
    const double capf = k % 4 == 1 ? 1 : r.u(0.7, 1.4), resf = k % 4 == 2 ? 1 : r.u(0.6, 1.6), fs = k % 4 == 3 ? 1 : r.logu(0.2, 5), fl = k % 5 == 0 ? 1 : r.logu(0.2, 5);
    Cell_SPM nom("nom", d, 1, 1, 1, 1), var("var", d, capf, resf, fs, fl);
    const auto f = var.getVariations();
    cx.ok(f[0] == capf && f[1] == resf && f[2] == fs && f[3] == fl, "variation-not-reported", fmt("%g %g %g %g", f[0], f[1], f[2], f[3]));
    cx.eq(var.Cap(), 16 * capf, 1e-12, 0, "capacity-factor");
    auto &sn = nom.getStateObj(), &sv = var.getStateObj();
    cx.eq(sv.rDCp(), resf * sn.rDCp(), 1e-12, 0, "resistance-factor", "cathode");
    cx.eq(sv.rDCn(), resf * sn.rDCn(), 1e-12, 0, "resistance-factor", "anode");
    cx.eq(sv.rDCcc(), resf * sn.rDCcc(), 1e-12, 0, "resistance-factor", "collector");
    cx.eq(var.getAnodeSurface(), capf * nom.getAnodeSurface(), 1e-12, 0, "capacity-factor", "surface");
    {
      auto &s = nom.getStateObj();
      const double film = s.delta() * R.rsei / nom.getAnodeSurface();
      cx.eq(var.getRdc(), (film + (nom.getRdc() - film) * resf) / capf, 1e-10, 0, "resistance-factor", fmt("total %g %g", capf, resf));
    }
    const double T = r.u(278, 328), soc = r.u(0.15, 0.9);
    nom.setT(T), var.setT(T);
    spm_at(nom, soc, 1), spm_at(var, soc, capf);
    double cps, cns, cps2, cns2;
    nom.getCSurf(cps, cns, false), var.getCSurf(cps2, cns2, false);
    if (std::fabs(cps - cps2) > 1e-6 * cps) { cx.inconclusive++; return; }
    for (int j = 0, m = r.i(1, 5); j < m; j++) {
      const double c = r.u(-1.2, 1.2), dt = r.u(0.2, 1.9);
      const int n = r.i(1, 150);
      const double s1 = nom.SOC() - c * dt * n / 3600;
      if (s1 < 0.08 || s1 > 0.95) continue;
      nom.setCurrent(16 * c, false, false), var.setCurrent(16 * capf * c, false, false);
      // same start for both, so that only this step's rates differ
      const double surf_ratio = capf;
      const double film = sn.delta() * R.rsei / nom.getAnodeSurface();
      const double rn = nom.getRdc(), rv = (film + (rn - film) * resf) / surf_ratio;
      cx.eq(var.getRdc(), rv, 1e-9, 0, "resistance-factor", "stepped");
      cx.eq(var.V(), nom.V() + 16 * c * rn - 16 * capf * c * rv, 1e-9, 1e-9, "voltage-at-equal-c-rate", fmt("%gC capf %g resf %g", c, capf, resf));
      State_SPM a = sn;
      nom.timeStep_CC(dt, n), var.timeStep_CC(dt, n);
      if (!usable(nom, R, 1)) { cx.inconclusive++; return; }
      // rates: the first step of the varied cell from the same state
      auto chk = [&](double v1, double n1, double b, double fac, const char *w, double extra = 0) {
        cx.eq(v1 - b, fac * (n1 - b), 2e-6 + extra, 1e-15 * std::fabs(b), "ageing-factor", fmt("%s %s sei %g lam %g", w, name(d).c_str(), fs, fl));
        if (n1 != b) cx.ev("aged-quantities");
      };
      // the film overpotential in the rate equations takes the absolute current of the cell
      const double ex = 1.05 * std::expm1(R.F / (R.Rg * T) * R.rsei * a.delta() * 1.01 * 16 * std::fabs(c * (capf - 1)));
      chk(sv.delta(), sn.delta(), a.delta(), fs, "film", ex);
      chk(sv.LLI() / capf, sn.LLI(), a.LLI(), fs, "lost lithium", ex);
      chk(sv.delta_pl(), sn.delta_pl(), a.delta_pl(), fs, "plating", ex);
      chk(sv.thickp(), sn.thickp(), a.thickp(), fl, "cathode thickness");
      chk(sv.thickn(), sn.thickn(), a.thickn(), fl, "anode thickness");
      // the third material-loss model is capped at an absolute rate
      if (!has(d, 2, 3)) chk(sv.ep(), sn.ep(), a.ep(), fl, "cathode fraction");
      if (!d.SEI_porosity) chk(sv.en(), sn.en(), a.en(), fl, "anode fraction");
      if (!has(d, 2, 3)) chk(sv.ap(), sn.ap(), a.ap(), fl, "cathode area");
      if (!d.SEI_porosity) chk(sv.an(), sn.an(), a.an(), fl, "anode area");
      cx.eq(sv.SOC(), sn.SOC(), 1e-12, 0, "state-of-charge-at-equal-c-rate");
      cx.ev("varied-steps");
      // put both back to the same aged state for the next step
      State_SPM b = sn;
      b.I() = sv.I(), b.rDCp() = sv.rDCp(), b.rDCn() = sv.rDCn(), b.rDCcc() = sv.rDCcc(), b.LLI() = sn.LLI() * capf;
      sv.LLI() = b.LLI();
      var.setStateObj(b);
    }
  });
}
