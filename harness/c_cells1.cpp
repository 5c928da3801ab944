// C01 charge bookkeeping, C02 lithium inventory, C03 throughput counters, C04 step batching
#include "vs.hpp"
#include "refspm.hpp"
using namespace slide;
using namespace vs;

namespace {
struct Seg {
  double I, dt;
  int n;
};
// a random current schedule that keeps the state of charge inside [lo,hi]
std::vector<Seg> schedule(Rng &r, double cap, double soc, int nseg, double dtmax, double cmax = 2.0, double lo = 0.1, double hi = 0.9)
{
  std::vector<Seg> v;
  for (int k = 0; k < nseg; k++) {
    Seg s;
    s.dt = r.p(0.3) ? std::min(1.0, dtmax) : (r.p(0.2) ? dtmax : r.logu(1e-3, dtmax));
    s.n = r.p(0.4) ? 1 : r.p(0.08) ? r.i(41, 1200) : r.i(1, 40);
    double c = r.p(0.15) ? 0 : (r.p(0.15) ? r.logu(1e-6, 0.02) : r.u(0.02, cmax)) * r.sgn();
    double d = c * s.dt * s.n / 3600;
    if (soc - d < lo || soc - d > hi) {
      if (r.p(0.4) && soc > lo && soc < hi) { // slow down, such that it ends near the limit
        const double f = ((d > 0 ? soc - lo : soc - hi) / d) * r.u(0.95, 0.9999);
        c *= f, d *= f;
      } else
        c = -c, d = -d;
    }
    if (soc - d < lo || soc - d > hi) c = 0, d = 0;
    soc -= d;
    s.I = c * cap;
    v.push_back(s);
  }
  return v;
}
// explicit integration is only meaningful below the fastest time constant
double dtmax_for(const CellBox &b)
{
  double d = b.kind == 3 ? 2.0 : 30.0;
  for (double it : b.it) d = std::min(d, 0.8 / it);
  return d;
}
} // namespace

VH_PROP(C01)
{
  cx.run("soc", cx.scale(400, 6000), [&](Rng &r, int k) {
    double soc0 = r.u(0.15, 0.85);
    CellBox b = k % 4 < 3 ? rand_ecm(r, k % 4, soc0) : rand_spm(r, soc0, r.p(0.3) ? deg_rand(r) : deg_none(), r.u(283, 318));
    Cell &c = *b.c;
    if (b.spm() && r.p(0.4)) c.setBlockDegAndTherm(true);
    cx.eq(c.Cap(), b.cap, 1e-12, 0, "nominal-capacity", b.name());
    cx.eq(c.SOC(), soc0, 0, 1e-15, "initial-soc", b.name());
    long double soc = soc0;
    const int nseg = r.i(3, 14);
    const double lo = b.spm() ? 0.06 : r.p(0.5) ? 1e-4 : 0.1;
    for (auto &s : schedule(r, b.cap, soc0, nseg, r.p(0.1) && b.kind == 0 ? 3000 : dtmax_for(b), b.spm() ? 2 : r.p(0.2) ? 12 : 2, lo, 1 - lo)) {
      const auto st = c.setCurrent(s.I, false, false);
      cx.ok(isStatusOK(st), "unchecked-current-refused", fmt("%s I=%g status %d", b.name(), s.I, (int)st));
      cx.eq(c.I(), s.I, 0, 0, "current-not-applied", b.name());
      cx.eq(c.SOC(), (double)soc, 1e-11, 1e-11, "soc-changed-by-current", b.name());
      for (int j = 0, left = s.n; left > 0; j++) {
        const int n = r.p(0.5) ? left : r.i(1, left);
        c.timeStep_CC(s.dt, n);
        left -= n;
        soc -= (long double)s.I * s.dt * n / 3600 / b.cap;
        cx.ev("steps", n);
        cx.eq(c.SOC(), (double)soc, 1e-10, 1e-10, "soc-integral", fmt("%s cap=%g I=%g dt=%g n=%d", b.name(), b.cap, s.I, s.dt, n));
        cx.eq(c.I(), s.I, 0, 0, "current-changed-by-step", b.name());
        cx.ok(c.SOC() >= 0 && c.SOC() <= 1, "soc-range", fmt("%s %g", b.name(), c.SOC()));
      }
      cx.seen("schedule-shapes", vh::hmix(s.n, b.kind * 8 + (s.I > 0) * 2 + (s.I < 0)));
      if (b.spm()) { // the state of charge and the electrode inventory move together
        cx.ev(s.I > 0 ? "spm-discharge" : s.I < 0 ? "spm-charge" : "spm-rest");
      } else
        cx.ev(s.I > 0 ? "ecm-discharge" : s.I < 0 ? "ecm-charge" : "ecm-rest");
    }
    if (k < 4) cx.sample(fmt("%s cap=%.3gAh soc %.4f -> %.6f over %d segments", b.name(), b.cap, soc0, c.SOC(), nseg));
    // running over full or empty loses no charge either
    if (!b.spm() && r.p(0.25)) {
      const bool up = r.p(0.5);
      const double over = r.u(1e-3, 0.05), dt = dtmax_for(b);
      for (int leg = 0; leg < 2; leg++) {
        const double goal = up ? 1 + over : -over, d = leg == 0 ? goal - (double)soc : (up ? -2 : 2) * over;
        const double I = -d * b.cap * 3600 / (dt * 5);
        c.setCurrent(I, false, false);
        c.timeStep_CC(dt, 5);
        soc -= (long double)I * dt * 5 / 3600 / b.cap;
        cx.eq(c.SOC(), (double)soc, 1e-10, 1e-10, "soc-integral-beyond-limits", fmt("%s leg %d", b.name(), leg));
        cx.ev("beyond-limits");
      }
    }
  });
  // charge out and back in returns to the same state of charge
  cx.run("roundtrip", cx.scale(120, 2000), [&](Rng &r, int k) {
    double soc0 = r.u(0.3, 0.7);
    CellBox b = rand_cell(r, soc0, k % 4);
    if (b.spm()) b.c->setBlockDegAndTherm(true);
    double I = b.cap * r.u(0.05, 1.5) * r.sgn();
    double dt = r.u(0.1, dtmax_for(b));
    int n = std::min(r.i(1, 400), (int)(0.2 * 3600 * b.cap / std::fabs(I) / dt));
    b.c->setCurrent(I, false, false);
    b.c->timeStep_CC(dt, n);
    cx.eq(b.c->SOC(), soc0 - I * dt * n / 3600 / b.cap, 1e-10, 1e-10, "soc-one-way", b.name());
    b.c->setCurrent(-I, false, false);
    b.c->timeStep_CC(dt, n);
    cx.eq(b.c->SOC(), soc0, 1e-10, 1e-10, "soc-roundtrip", b.name());
    cx.ev("roundtrips");
  });
}

VH_PROP(C02)
{
  const auto &R = ref::SPM::get();
  auto means = [&](Cell_SPM &c, double &mp, double &mn, double *sp = nullptr, double *sn = nullptr) {
    double cp[7], cn[7];
    c.getC(cp, cn);
    mp = R.mean(cp);
    mn = R.mean(cn);
    auto spread = [](double *x) { double a=x[0],b=x[0]; for(int i=1;i<7;i++){ a=std::min(a,x[i]); b=std::max(b,x[i]);} return b-a; };
    if (sp) *sp = spread(cp);
    if (sn) *sn = spread(cn);
  };
  // the inventory is read on a copy that is left to equilibrate, where the profile is flat
  auto settled = [&](Cell_SPM &c, double &p, double &n) {
    std::unique_ptr<Cell_SPM> d(c.copy());
    d->setBlockDegAndTherm(true);
    d->setCurrent(0, false, false);
    d->timeStep_CC(1.5, 4000);
    double sp, sn;
    means(*d, p, n, &sp, &sn);
    return sp < 1e-3 * R.Cmaxp && sn < 1e-3 * R.Cmaxn;
  };
  cx.run("inventory", cx.scale(120, 2500), [&](Rng &r, int k) {
    double soc0 = r.u(0.2, 0.8), T = r.u(283, 320);
    DEG_ID d;
    if (k % 3 == 1)
      for (int q = 1; q <= 4; q++)
        if (r.p(0.6)) d.SEI_id.add_model(q);
    if (k % 3 == 1) {
      d.pl_id = r.p(0.6);
      if (r.p(0.5)) d.CS_id.add_model(r.i(3, 5));
    }
    auto b = rand_spm(r, soc0, d, T);
    auto &c = *b.spm();
    auto &st = c.getStateObj();
    if (k % 4 >= 2) {
      age(c, r);
      cx.ev("aged-cells");
    }
    double mp0, mn0, sp, sn;
    means(c, mp0, mn0, &sp, &sn);
    cx.le(sp, 1e-6 * R.Cmaxp, 0, "uniform-start");
    cx.le(sn, 1e-6 * R.Cmaxn, 0, "uniform-start");
    // cyclable lithium per Ah, from the cell's own geometry
    const double S = 0.62 * b.capf;
    const double Vp = st.ep() * st.thickp() * S, Vn = st.en() * st.thickn() * S;
    long double q = 0;
    double lli0 = st.LLI();
    for (auto &s : schedule(r, b.cap, soc0, r.i(2, 6), 1.5, 1.5, 0.15, 0.85)) {
      c.setCurrent(s.I, false, false);
      c.timeStep_CC(s.dt, s.n);
      q += (long double)s.I * s.dt * s.n;
      double mp, mn;
      if (!settled(c, mp, mn)) {
        cx.violation("does-not-equilibrate", fmt("T=%g", T));
        return;
      }
      const double nLi = (mn - mn0) * Vn * R.F, pLi = (mp - mp0) * Vp * R.F;
      const double tol = 2e-9 * (mn0 * Vn * R.F);
      const double lost = st.LLI() - lli0;
      cx.eq(nLi, (double)(-q - lost), 1e-7, tol, "anode-lithium", fmt("I=%g dt=%g n=%d T=%g lost=%g", s.I, s.dt, s.n, T, lost));
      cx.eq(pLi, (double)(q), 1e-7, tol, "cathode-lithium", fmt("I=%g dt=%g n=%d T=%g", s.I, s.dt, s.n, T));
      cx.ev("inventory-balances");
      if (lost > 0) cx.ev("balances-with-loss");
      cx.ok(lost >= 0, "negative-loss");
    }
    if (k < 3) cx.sample(fmt("soc0=%.3f T=%.1f charge moved %.5g As, lost %.4g As", soc0, T, (double)q, st.LLI() - lli0));
  });
  cx.run("relax", cx.scale(40, 600), [&](Rng &r, int) {
    auto b = rand_spm(r, r.u(0.35, 0.65), deg_none(), r.u(283, 318));
    auto &c = *b.spm();
    double mp0, mn0, sp0, sn0, mp, mn, sp, sn;
    const double I = b.cap * r.u(0.2, 2) * r.sgn();
    const int n = r.i(20, 400);
    means(c, mp0, mn0, &sp, &sn);
    c.setCurrent(I, false, false);
    c.timeStep_CC(1, n);
    c.setCurrent(0, false, false);
    c.timeStep_CC(1, 100);
    means(c, mp, mn, &sp0, &sn0);
    const double sp00 = sp0, sn00 = sn0;
    for (int j = 0; j < 40; j++) {
      c.timeStep_CC(1, r.i(1, 400));
      means(c, mp, mn, &sp, &sn);
      cx.le(sp, sp0, 1e-6 * R.Cmaxp, "cathode-gradient-grows-at-rest");
      cx.le(sn, sn0, 1e-6 * R.Cmaxn, "anode-gradient-grows-at-rest");
      sp0 = sp;
      sn0 = sn;
      cx.ev("rest-steps");
    }
    for (int j = 0; j < 30; j++) c.timeStep_CC(1.5, 1000);
    means(c, mp, mn, &sp, &sn);
    cx.le(sp, 2e-3 * sp00, 1e-6 * R.Cmaxp, "cathode-does-not-equilibrate");
    cx.le(sn, 2e-3 * sn00, 1e-6 * R.Cmaxn, "anode-does-not-equilibrate");
    cx.eq((mn - mn0) * 0.5 * 73.5e-6 * 0.62 * b.capf * R.F, -I * n, 1e-6, 1e-3, "rest-keeps-anode-lithium");
    cx.eq((mp - mp0) * 0.5 * 70e-6 * 0.62 * b.capf * R.F, I * n, 1e-6, 1e-3, "rest-keeps-cathode-lithium");
    cx.eq(c.V(), c.getOCV(), 0, 1e-12, "rested-voltage-is-ocv");
  });
  // setting a uniform concentration does exactly that
  cx.run("setC", cx.scale(100, 1000), [&](Rng &r, int) {
    auto b = rand_spm(r, 0.5, deg_none(), 298);
    auto &c = *b.spm();
    const double fp = r.u(0.05, 0.95), fn = r.u(0.05, 0.95);
    c.setC(fp, fn);
    double cp[7], cn[7];
    c.getC(cp, cn);
    for (int i = 0; i < 7; i++) {
      cx.eq(cp[i], fp * R.Cmaxp, 1e-6, 0, "uniform-cathode");
      cx.eq(cn[i], fn * R.Cmaxn, 1e-6, 0, "uniform-anode");
    }
    double cps, cns;
    cx.ok(c.getCSurf(cps, cns, false), "surface-in-range");
    cx.eq(cps, cp[0], 1e-12, 0, "surface-consistent");
    cx.eq(cns, cn[0], 1e-12, 0, "surface-consistent");
    cx.ev("setC");
  });
  // surface concentration under load moves in the right direction, by the diffusion length scale
  cx.run("surface", cx.scale(100, 1000), [&](Rng &r, int) {
    double T = r.u(283, 323);
    auto b = rand_spm(r, r.u(0.3, 0.7), deg_none(), T);
    auto &c = *b.spm();
    if (r.p(0.5)) age(c, r);
    double I = b.cap * r.u(0.1, 1) * r.sgn();
    double p0, n0, p1, n1;
    c.getCSurf(p0, n0, false);
    c.setCurrent(I, false, false);
    for (int j = 0; j < 3; j++) {
      c.timeStep_CC(1, r.i(5, 60));
      c.getCSurf(p1, n1, false);
      cx.ok((p1 - p0) * I > 0, "cathode-surface-direction");
      cx.ok((n1 - n0) * I < 0, "anode-surface-direction");
      auto e = R.eval(c.getStateObj(), b.capf);
      cx.eq(p1, e.cps, 1e-9, 0, "cathode-surface-reference");
      cx.eq(n1, e.cns, 1e-9, 0, "anode-surface-reference");
      cx.ev("surface-checks");
    }
  });
  // converged pseudo steady state: surface - mean = j R / (5 D), an analytic solution of spherical diffusion
  cx.run("steady", cx.scale(24, 200), [&](Rng &r, int) {
    double T = r.u(293, 318), soc0 = r.u(0.4, 0.6);
    auto b = rand_spm(r, soc0, deg_none(), T);
    auto &c = *b.spm();
    c.setBlockDegAndTherm(true);
    double cr = r.u(0.02, 0.08) * r.sgn();
    c.setCurrent(b.cap * cr, false, false);
    for (int j = 0; j < 7; j++) c.timeStep_CC(1.5, 1000);
    auto e = R.eval(c.getStateObj(), b.capf);
    double mp, mn, ps, ns;
    means(c, mp, mn);
    c.getCSurf(ps, ns, false);
    cx.eq(ps - mp, -e.jp * R.Rp / (5 * e.Dpt), 5e-3, 0, "cathode-steady-profile", fmt("T=%g C=%g", T, cr));
    cx.eq(ns - mn, -e.jn * R.Rn / (5 * e.Dnt), 5e-3, 0, "anode-steady-profile", fmt("T=%g C=%g", T, cr));
    cx.ev("steady-profiles");
  });
}

VH_PROP(C03)
{
  cx.run("counters", cx.scale(300, 5000), [&](Rng &r, int k) {
    double soc0 = r.u(0.2, 0.8);
    CellBox b = k % 4 < 3 ? rand_ecm(r, k % 4, soc0) : rand_spm(r, soc0, r.p(0.4) ? deg_rand(r) : deg_none(), r.u(283, 318));
    Cell &c = *b.c;
    if (b.spm() && r.p(0.5)) c.setBlockDegAndTherm(true);
    auto t0 = c.getThroughputs();
    cx.eq(t0.time(), 0, 0, 0, "starts-at-zero");
    cx.eq(t0.Ah(), 0, 0, 0, "starts-at-zero");
    cx.eq(t0.Wh(), 0, 0, 0, "starts-at-zero");
    long double T = 0, Ah = 0;
    double Wlo = 0, Whi = 0;
    const double lo = b.spm() ? 0.1 : 0.002;
    for (auto &s : schedule(r, b.cap, soc0, r.i(3, 10), dtmax_for(b), b.spm() ? 2 : 4, lo, 1 - lo)) {
      c.setCurrent(s.I, false, false);
      auto tp = c.getThroughputs();
      cx.ok(tp.time() == t0.time() && tp.Ah() == t0.Ah() && tp.Wh() == t0.Wh(), "counters-move-without-time");
      const bool single = r.p(0.6);
      if (!single) {
        const double vb = c.V();
        std::unique_ptr<Cell> tw(static_cast<Cell *>(c.copy()));
        c.timeStep_CC(s.dt, s.n);
        T += (long double)s.dt * s.n;
        Ah += std::fabs((long double)s.I) * s.dt * s.n / 3600;
        const double va = c.V();
        if (b.spm()) {
          const double w = std::fabs(s.I) * s.dt * s.n / 3600;
          Wlo += w * (std::min(va, vb) - 0.05);
          Whi += w * (std::max(va, vb) + 0.05);
        } else // voltages inside the stretch from a copy stepped one by one
          for (int j = 0; j < s.n; j++) {
            const double v0 = tw->V();
            tw->timeStep_CC(s.dt);
            const double v1 = tw->V(), w = std::fabs(s.I) * s.dt / 3600;
            Wlo += w * (std::min(v0, v1) - 1e-9);
            Whi += w * (std::max(v0, v1) + 1e-9);
          }
      } else
        for (int j = 0; j < std::min(s.n, 12); j++) {
          const double vb = c.V();
          c.timeStep_CC(s.dt);
          const double va = c.V();
          T += s.dt;
          const double a = std::fabs(s.I) * s.dt / 3600;
          Ah += a;
          auto t1 = c.getThroughputs();
          const double dW = t1.Wh() - t0.Wh();
          const double vlo = std::min(va, vb), vhi = std::max(va, vb);
          Wlo += a * vlo;
          Whi += a * vhi;
          const double rel = b.spm() ? 3e-5 : 1e-6; // the ageing and temperature are updated at the end of the step
          cx.ok(dW >= a * vlo * (1 - rel) - 1e-13 * (1 + t1.Wh()) && dW <= a * vhi * (1 + rel) + 1e-13 * (1 + t1.Wh()), "energy-increment", fmt("%s dWh=%.12g I=%g dt=%g V %.9g->%.9g", b.name(), dW, s.I, s.dt, vb, va));
          cx.ok(t1.time() >= t0.time() && t1.Ah() >= t0.Ah() && t1.Wh() >= t0.Wh(), "monotone");
          t0 = t1;
          cx.ev("single-steps");
        }
      auto t1 = c.getThroughputs();
      cx.ok(t1.time() >= t0.time() && t1.Ah() >= t0.Ah() && t1.Wh() >= t0.Wh(), "monotone");
      cx.eq(t1.time(), (double)T, 1e-11, 1e-12, "elapsed-time", b.name());
      cx.eq(t1.Ah(), (double)Ah, 1e-10, 1e-13, "charge-throughput", b.name());
      cx.ok(t1.Wh() >= Wlo * (1 - 3e-5) - 1e-12 && t1.Wh() <= Whi * (1 + 3e-5) + 1e-12, "energy-throughput", fmt("%s %.12g not in [%.12g,%.12g]", b.name(), t1.Wh(), Wlo, Whi));
      t0 = t1;
      cx.ev("segments");
    }
    if (k < 3) cx.sample(fmt("%s t=%.6gs Ah=%.6g Wh=%.6g", b.name(), t0.time(), t0.Ah(), t0.Wh()));
  });
}

VH_PROP(C04)
{
  cx.run("batch", cx.scale(300, 5000), [&](Rng &r, int k) {
    double soc0 = r.u(0.2, 0.8);
    CellBox b = rand_cell(r, soc0, k % 4);
    Cell &c = *b.c;
    if (b.spm()) c.setBlockDegAndTherm(true);
    std::unique_ptr<Cell> d(static_cast<Cell *>(c.copy()));
    for (auto &s : schedule(r, b.cap, soc0, r.i(1, 6), dtmax_for(b), 1.5, b.spm() ? 0.08 : 0.002, b.spm() ? 0.92 : 0.998)) {
      c.setCurrent(s.I, false, false);
      d->setCurrent(s.I, false, false);
      c.timeStep_CC(s.dt, s.n);
      int left = s.n;
      while (left > 0) {
        int n = r.p(0.5) ? 1 : r.i(1, left);
        d->timeStep_CC(s.dt, n);
        if (r.p(0.3)) d->V();
        left -= n;
      }
      c.V();
      d->V();
      auto a = states(c), e = states(*d);
      cx.ok(a.size() == e.size(), "same-size");
      for (size_t i = 0; i < a.size(); i++) cx.eq(a[i], e[i], 1e-12, 1e-300, "batched-differs", fmt("%s entry %zu I=%g dt=%g n=%d", b.name(), i, s.I, s.dt, s.n));
      cx.eq(c.V(), d->V(), 1e-12, 0, "batched-voltage-differs", b.name());
      cx.ev("batches");
    }
  });
  cx.run("zero", cx.scale(120, 1000), [&](Rng &r, int k) {
    double soc0 = r.u(0.2, 0.8);
    CellBox b = k % 4 < 3 ? rand_ecm(r, k % 4, soc0) : rand_spm(r, soc0, k % 8 == 7 ? deg_rand(r) : deg_none(), 298);
    Cell &c = *b.c;
    c.setCurrent(b.cap * r.u(-1, 1), false, false);
    c.timeStep_CC(1, 3);
    c.V();
    auto a = states(c);
    c.timeStep_CC(0, r.i(1, 5));
    c.V();
    auto e = states(c);
    for (size_t i = 0; i < a.size(); i++) cx.eq(e[i], a[i], 1e-14, 0, "zero-length-step-changes-state", fmt("%s entry %zu", b.name(), i));
    cx.ev("zero-steps");
    c.timeStep_CC(2, 0);
    c.V();
    e = states(c);
    for (size_t i = 0; i < a.size(); i++) cx.eq(e[i], a[i], 1e-14, 0, "zero-steps-change-state", fmt("%s entry %zu", b.name(), i));
    bool threw = false;
    try {
      c.timeStep_CC(-r.u(1e-6, 10), r.i(1, 3));
    } catch (int) {
      threw = true;
    }
    cx.ok(threw, "negative-step-accepted", b.name());
    e = states(c);
    for (size_t i = 0; i < a.size(); i++) cx.eq(e[i], a[i], 1e-14, 0, "negative-step-changes-state", fmt("%s entry %zu", b.name(), i));
  });
  // halving the time step converges: results agree to first order
  cx.run("refine", cx.scale(60, 800), [&](Rng &r, int k) {
    double soc0 = r.u(0.35, 0.65);
    CellBox b = rand_cell(r, soc0, k % 4);
    if (b.spm()) b.c->setBlockDegAndTherm(true);
    double I = b.cap * r.u(0.1, 1) * r.sgn();
    const double T = 600;
    double V[3], S[3];
    const double h = b.kind == 3 ? 2 : 4;
    for (int q = 0; q < 3; q++) {
      std::unique_ptr<Cell> d(static_cast<Cell *>(b.c->copy()));
      d->setCurrent(I, false, false);
      double dt = h / (1 << q);
      d->timeStep_CC(dt, (int)std::lround(T / dt));
      V[q] = d->V();
      S[q] = d->SOC();
      cx.eq(d->getThroughputs().time(), T, 1e-10, 0, "refined-time");
    }
    cx.eq(S[0], S[2], 1e-9, 0, "refined-soc", b.name());
    cx.eq(V[0], V[2], 0, 4e-3, "refined-voltage", b.name());
    cx.le(std::fabs(V[1] - V[2]), 0.75 * std::fabs(V[0] - V[2]), 1e-7, "no-convergence", b.name());
    cx.ev("refinements");
  });
}
