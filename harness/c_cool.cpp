// Cooling systems on their own: control (T02) and energy accounting (T03).
#include "vm.hpp"
#include "cooling/cooling.hpp"
#include "refcool.hpp"
using namespace vm;
using vh::Ctx;

namespace {
struct Rig {
  std::unique_ptr<CoolSystem> cs;
  RefCool ref;
};
Rig make_rig(Rng &r)
{
  Rig g;
  const int type = r.i(0, 2), N = r.p(0.2) ? 1 : r.p(0.5) ? r.i(1, 50) : r.i(51, 3000), ctl = r.i(1, 5);
  const double Q0 = type == 1 ? (r.p(0.4) ? 0 : r.logu(1, 1e4)) : 0;
  if (type == 0) g.cs = std::make_unique<CoolSystem>(N, ctl);
  if (type == 1) g.cs = std::make_unique<CoolSystem_HVAC>(N, ctl, Q0);
  if (type == 2) g.cs = std::make_unique<CoolSystem_open>(N, ctl);
  g.ref = RefCool(type, N, ctl, Q0);
  return g;
}
double temp(Rng &r, const std::vector<double> &marks)
{
  switch (r.i(0, 3)) {
  case 0: return r.pick(marks); // exactly at a threshold
  case 1: return r.pick(marks) + r.u(-0.5, 0.5);
  default: return r.u(273, 348);
  }
}
const std::vector<double> MARKS{ 273 + 15., 273 + 20., 273 + 25., 273 + 27., 273 + 30., 273 + 35., 273 + 45., 273 + 60. };
} // namespace

VH_PROP(T02)
{
  auto &c = cx;
  c.run("control", c.scale(3000, 60000), [&](Rng &r, int k) {
    Rig g = make_rig(r);
    auto *hv = dynamic_cast<CoolSystem_HVAC *>(g.cs.get());
    const int n = r.i(1, 30);
    for (int i = 0; i < n; i++) {
      if (r.p(0.05)) {
        const int ctl = r.i(1, 5);
        g.cs->setControl(ctl);
        g.ref.ctl = ctl;
      }
      const double Tc = temp(r, MARKS);
      g.cs->setT(Tc);
      g.ref.T = Tc;
      double Tl = temp(r, MARKS), Tg = r.p(0.5) ? Tl : std::max(Tl, temp(r, MARKS));
      Tl = std::min(Tl, 273 + 60.), Tg = std::min(Tg, 273 + 60.);
      g.cs->control(Tl, Tg);
      g.ref.control(Tl, Tg);
      const std::string what = fmt("type %d control %d N %zu Tcool %.2f Tlocal %.2f Thot %.2f", g.ref.type, g.ref.ctl, g.ref.N, Tc - 273, Tl - 273, Tg - 273);
      const double flr = g.cs->getFlr();
      c.ok(flr >= 0, "negative-flow", what);
      if (!g.ref.flow_ambiguous)
        c.eq(flr, g.ref.flow, 1e-9, 1e-15, "flow-rate", what);
      else
        c.ok(flr == 0 || std::fabs(flr - g.ref.flow_alt) <= 1e-9 * g.ref.flow_alt, "flow-rate", what);
      g.ref.flow = flr;
      c.eq(g.cs->getH(), g.ref.h(), 1e-9, 1e-12, "heat-transfer-coefficient", what);
      c.ok(g.cs->getH() >= 0, "negative-coefficient", what);
      c.ev(fmt("control-%d", g.ref.ctl).c_str());
      c.ev(flr == 0 ? "flow-off" : "flow-on");
      if (hv) { // the power of the air conditioner shows in the heat it removes
        const double q0 = hv->getQcoolAC_tot();
        const double dt = r.logu(0.1, 100);
        hv->dstate(0, 0, dt);
        const double Q = (hv->getQcoolAC_tot() - q0) / dt, tol = 1e-9 * (q0 / dt) + 1e-9 * g.ref.Qmax;
        c.ok(Q >= -tol, "negative-ac-power", what);
        if (!g.ref.q_ambiguous)
          c.eq(Q, g.ref.Q, 1e-9, tol, "ac-power", what);
        else
          c.ok(std::fabs(Q) <= tol || std::fabs(Q - g.ref.Q_alt) <= tol + 1e-9 * g.ref.Q_alt, "ac-power", fmt("%s: %g", what.c_str(), Q));
        c.ok(Q <= g.ref.Qmax * (1 + 1e-9) + tol, "ac-power-beyond-design", what);
        if (std::fabs(Q) <= tol) Q > tol ? void() : c.ev("ac-off");
        else c.ev("ac-on");
        g.ref.Q = std::fabs(Q) <= tol ? 0 : Q;
      }
      c.seen("control-points", vh::hmix(g.ref.type * 10 + g.ref.ctl, vh::hmix((uint64_t)(Tl * 2), (uint64_t)(Tg * 2))));
    }
  });
  // hysteresis: sweep the hot spot up and down
  c.run("sweep", c.scale(200, 2000), [&](Rng &r, int k) {
    Rig g = make_rig(r);
    const double Tc = r.u(285, 310);
    g.cs->setT(Tc);
    g.ref.T = Tc;
    const double step = r.u(0.05, 1);
    for (int leg = 0; leg < 3; leg++)
      for (double x = 288; x < 333; x += step) {
        const double T = leg % 2 ? 333 + 288 - x : x;
        g.cs->control(T, T);
        g.ref.control(T, T);
        const double flr = g.cs->getFlr();
        const std::string what = fmt("type %d control %d sweep %d T %.3f", g.ref.type, g.ref.ctl, leg, T - 273);
        if (!g.ref.flow_ambiguous)
          c.eq(flr, g.ref.flow, 1e-9, 1e-15, "flow-rate-sweep", what);
        g.ref.flow = flr;
      }
    c.ev("sweeps");
  });
  // before anything controls it: the flow of its size (none if there is no fan), at the temperature of the environment
  c.run("new", c.scale(100, 500), [&](Rng &r, int k) {
    Rig g = make_rig(r);
    const auto what = fmt("type %d control %d N %zu", g.ref.type, g.ref.ctl, g.ref.N);
    if (g.ref.type == 2) c.eq(g.cs->getFlr(), 0, 0, 0, "flow-rate-new", what);
    else c.eq(g.cs->getFlr(), g.ref.flow, 1e-9, 1e-15, "flow-rate-new", what);
    c.eq(g.cs->getH(), g.ref.h(), 1e-9, 1e-12, "heat-transfer-coefficient-new", what);
    std::unique_ptr<CoolSystem> d;
    const int type = k % 3;
    if (type == 0) d = std::make_unique<CoolSystem>();
    if (type == 1) d = std::make_unique<CoolSystem_HVAC>();
    if (type == 2) d = std::make_unique<CoolSystem_open>();
    for (auto *s : { g.cs.get(), d.get() }) {
      const bool open = dynamic_cast<CoolSystem_open *>(s);
      c.eq(s->T(), settings::T_ENV, 0, 0, "temperature-new", what);
      c.ok(open ? s->getFlr() == 0 && s->getH() == 90 : s->getFlr() > 0 && std::isfinite(s->getH()) && s->getH() > 0, "default-new", fmt("type %d flow %g h %g", type, s->getFlr(), s->getH()));
      c.ok(s->getHeatEvac() == 0 && s->getHeatabsorbed() == 0 && s->getTotalTime() == 0 && s->getEoperation() == 0, "accounts-new", what);
    }
    c.ev("new-systems");
  });
  // temperatures outside what a coolant can have are refused and change nothing
  c.run("refuse", c.scale(200, 2000), [&](Rng &r, int k) {
    Rig g = make_rig(r);
    g.cs->setT(300);
    const double bad[] = { 0, -5, 272.9, 348.1, 1e9, NAN, INFINITY, -INFINITY };
    const double T = bad[k % 8];
    bool thrown = false;
    try {
      g.cs->setT(T);
    } catch (int e) {
      thrown = true;
      c.eq(e, 99, 0, 0, "error-number", "setT");
    }
    c.ok(thrown, "bad-temperature-accepted", fmt("%g", T));
    c.eq(g.cs->T(), 300, 0, 0, "refused-temperature-kept", fmt("%g", T));
    c.ev("refused-temperatures");
  });
}

VH_PROP(T03)
{
  auto &c = cx;
  c.run("accounting", c.scale(3000, 60000), [&](Rng &r, int k) {
    Rig g = make_rig(r);
    auto *hv = dynamic_cast<CoolSystem_HVAC *>(g.cs.get());
    long double E = 0, Evac = 0, Abs = 0, t = 0, Qac = 0;
    const int n = r.i(1, 25);
    std::unique_ptr<CoolSystem> dup;
    for (int i = 0; i < n; i++) {
      const std::string what = fmt("type %d control %d N %zu step %d", g.ref.type, g.ref.ctl, g.ref.N, i);
      if (r.p(0.5)) {
        const double Tl = r.u(280, 333), Tg = std::max(Tl, r.u(280, 333));
        g.cs->setT(r.u(280, 340));
        g.cs->control(Tl, Tg);
        g.ref.T = g.cs->T();
      }
      g.ref.flow = g.cs->getFlr();
      g.ref.T = g.cs->T();
      const double dt = r.logu(0.1, 900), Qc = r.u(-20, 60) * g.ref.N * dt * r.u(0, 1), Qt = hv ? Qc : Qc + r.u(-20, 20) * g.ref.N * dt * r.u(0, 1);
      const double q0 = hv ? hv->getQcoolAC_tot() : 0;
      const double Tnew = g.cs->dstate(Qt, Qc, dt);
      const double dq = hv ? hv->getQcoolAC_tot() - q0 : 0; // heat the air conditioner removed in this step
      if (hv) {
        Qac = hv->getQcoolAC_tot();
        const double P = dq / dt;
        c.ok(P >= -1e-9 * (g.ref.Qmax + q0 / dt), "negative-ac-heat", what);
        E += g.ref.ac_energy(P, dt);
        if (P > 1e-6) c.ev(g.ref.free_cooling() ? "free-cooling" : "active-cooling");
      }
      E += (long double)g.ref.fan_power() * dt;
      Evac += Qc;
      Abs += Qt - dq;
      t += dt;
      const double Cc = g.ref.heat_capacity();
      c.eq((Tnew - g.cs->T()) * Cc, Qt - dq, 1e-8, 1e-11 * Cc * 300, "temperature-rise", what);
      // what was accumulated
      c.eq(g.cs->getEoperation(), (double)E, 1e-8, 1e-9, "operating-energy", what);
      c.eq(g.cs->getHeatEvac(), (double)Evac, 1e-9, 1e-9 * (std::fabs(Qc) + 1), "heat-evacuated", what);
      c.eq(g.cs->getHeatabsorbed(), (double)Abs, 1e-8, 1e-8 * (std::fabs(Qt) + std::fabs(dq) + 1), "heat-absorbed", what);
      c.eq(g.cs->getTotalTime(), (double)t, 1e-12, 1e-9, "time", what);
      if (r.p(0.2)) {
        g.cs->reset_Eoperation();
        E = 0;
        c.eq(g.cs->getEoperation(), 0, 0, 0, "reset", what);
        c.ev("resets");
      }
      if (r.p(0.1)) g.cs->storeData(g.ref.N); // logging must not disturb the accounts
      if (r.p(0.1)) {
        dup.reset(g.cs->copy());
        c.eq(dup->getEoperation(), g.cs->getEoperation(), 0, 0, "copy", what);
        g.cs.swap(dup);
        hv = dynamic_cast<CoolSystem_HVAC *>(g.cs.get());
        c.ok((hv != nullptr) == (g.ref.type == 1), "copy-type", what);
      }
      if (Tnew > 275 && Tnew < 345) g.cs->setT(Tnew);
      c.ev("steps");
      c.ev(g.ref.flow == 0 ? "fan-off" : "fan-on");
    }
    c.seen("systems", vh::hmix(g.ref.type * 10 + g.ref.ctl, g.ref.N));
  });
  // a whole tree: the cooling load is the sum over its cooling systems, counted once
  c.run("tree-load", c.scale(150, 2000), [&](Rng &r, int k) {
    Opt o;
    o.maxcells = 8;
    o.maxdepth = 3;
    Node n = random_tree(r, o);
    SU p = build(n);
    auto *top = as<Module>(p.get());
    double budget = 0;
    for (int i = 0; i < r.i(1, 4); i++) {
      // drive the cooling systems directly: every one moves some heat for some time
      double want = 0;
      for (auto *m : modules(p.get())) {
        const double dt = r.u(1, 100), Q = r.u(0, 100);
        m->getCoolSystem()->dstate(Q, Q, dt);
        want += m->getCoolSystem()->getEoperation();
      }
      const double got = top->getCoolingLoad();
      c.eq(got, want, 1e-12, 1e-12, "tree-load", n.shape());
      c.eq(top->getCoolingLoad(), 0, 0, 0, "load-not-reset", n.shape());
      for (auto *m : modules(p.get())) c.eq(m->getCoolSystem()->getEoperation(), 0, 0, 0, "member-not-reset", n.shape());
      c.ev("tree-loads");
    }
  });
}
