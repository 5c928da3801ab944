// B01 converter losses, B02 battery aggregation, B03 loss energy of a battery.
#include "vm.hpp"
#include "system/Battery.hpp"
#include "power_conversion/Converter.hpp"
using namespace vm;
using vh::Ctx;

namespace {
// published two-stage converter: DC/DC and DC/AC stages in parallel units of 200 kW
double ref_losses(double rating, double Vin, double Iin)
{
  const double n = std::ceil(rating / 200e3);
  const double I = std::fabs(Iin) / n, sI = Iin / n;
  auto igbt = [](double i) { i = std::fabs(i); return i > 30 ? 1 + 2.0 / 270 * (i - 30) : i / 30; };
  const double Idc = sI * Vin / 1500, a = std::fabs(Idc);
  const double dc = I * igbt(I) * (1 + 2 * Vin / 1500) + 8000 * (6 + 0.1 * std::fabs(sI - 50)) * 1e-3;
  const double Eac = (6 + 0.1 * std::fabs(Idc - 50)) * 1e-3;
  const double ac = a * igbt(a) * 3 + 6 * 8000 * (2 * Eac + 1e-3);
  const double w = 2 * 3.14159265358979323846 * 8000 * 3e-3;
  return n * (dc + ac + 13.6e-3 * w * w + 3 * 13.6e-3 * Idc * Idc + 13.6e-3 * I * I);
}
struct Bat {
  Node n;
  std::unique_ptr<Battery> b;
  Module *m{};
  unsigned ns{ 1 }, np{ 1 };
  bool spm{ false };
  double rating() const { return m->Cap() * np * m->Vmax() * ns; }
};
Bat make_bat(Rng &r, const Opt &o, bool after = false)
{
  Bat b;
  b.n = random_tree(r, o);
  b.n.cool = r.p(0.5) ? 2 : 0;
  std::function<void(const Node &)> f = [&](const Node &m) { if (m.leaf && m.kind == 3) b.spm = true; for (auto &c : m.ch) f(c); };
  f(b.n);
  b.b = std::make_unique<Battery>("bat");
  const int s = r.i(0, 4);
  if (s > 0) b.ns = s == 1 ? 1 : s == 2 ? r.i(2, 5) : r.i(2, 60), b.np = s == 2 ? r.i(2, 5) : s == 3 ? r.i(2, 40) : r.i(1, 400);
  if (s > 0 && !after) b.b->setSeriesandParallel(b.ns, b.np);
  auto m = build_module(b.n);
  b.m = m.get();
  b.b->setModule(Deep_ptr<Module>(std::move(m)));
  if (s > 0 && after) b.b->setSeriesandParallel(b.ns, b.np);
  return b;
}
Node kids(const Node &n, const std::string &id) // one more copy of a tree
{
  Node m = n;
  m.id = id;
  m.cool = 0;
  return m;
}
} // namespace

VH_PROP(B01)
{
  auto &c = cx;
  c.run("published", c.scale(3000, 60000), [&](Rng &r, int) {
    Converter cv;
    double P = 200e3;
    const bool def = r.p(0.1);
    if (!def) {
      switch (r.i(0, 4)) {
      case 0: P = r.logu(1, 1e9); break;
      case 1: P = 200e3 * r.i(1, 40); break;                          // exactly n units
      case 2: P = 200e3 * r.i(1, 40) * (1 + 1e-9 * r.sgn()); break;   // just above or below
      case 3: P = r.u(1e3, 2e5); break;
      default: P = r.u(2e5, 4e6);
      }
      cv.setPower(P);
    }
    const int n = (int)std::ceil(P / 200e3);
    c.ev(n == 1 ? "single-unit" : "several-units");
    for (int k = 0; k < 40; k++) {
      double V = r.p(0.1) ? 0 : r.u(0, 1500), I;
      switch (r.i(0, 7)) {
      case 0: I = 0; break;
      case 1: I = 30.0 * n * r.sgn() * (1 + r.pick(std::vector<double>{ -1e-6, 0, 1e-6 })); break; // where the conduction law changes
      case 2: V = r.u(100, 1500), I = 30.0 * n * 1500 / V * r.sgn() * (1 + r.pick(std::vector<double>{ -1e-6, 1e-6 })); break;
      case 3: I = 50.0 * n * r.u(0.99, 1.01); break;
      case 4: I = r.logu(1e-6, 1e6) * r.sgn(); break;
      default: I = n * r.u(-400, 400);
      }
      const double got = cv.getLosses(V, I), want = ref_losses(P, V, I);
      const auto d = fmt("P %.9g n %d V %.9g I %.9g", P, n, V, I);
      c.ok(std::isfinite(got), "finite", d);
      c.ok(got > 0, "positive", d);
      c.eq(got, want, 1e-9, 0, "published-model", d);
      c.ev("operating-points");
      c.ev(I < 0 ? "charging" : I > 0 ? "discharging" : "idle");
      if (std::fabs(I) > 30 * n) c.ev("saturated-dc");
      if (std::fabs(I * V / 1500) > 30 * n) c.ev("saturated-ac");
      c.seen("operating-point", vh::hmix(vh::hd(got, got * 1e-3), n));
    }
    if (def) return;
    // more rated power never takes fewer units: idle losses are proportional to their number
    Converter c2;
    const double P2 = P * (r.p(0.5) ? 1 : r.u(1, 3));
    c2.setPower(P2);
    const double V = r.u(0, 1500);
    c.le(cv.getLosses(V, 0) * (1 - 1e-12), c2.getLosses(V, 0), 0, "units-monotone", fmt("P %.9g P2 %.9g", P, P2));
    c.eq(c2.getLosses(V, 0) / cv.getLosses(V, 0), std::ceil(P2 / 200e3) / n, 1e-9, 0, "units-proportional", fmt("P %.9g P2 %.9g", P, P2));
    c.sample(fmt("P %.4g W: %d units, idle loss %.5g W", P, n, cv.getLosses(V, 0)));
  });
  c.run("extremes", c.scale(500, 5000), [&](Rng &r, int) {
    Converter cv;
    cv.setPower(r.logu(1e-3, 1e10));
    const double V = r.logu(1e-3, 1e5), I = r.logu(1e-9, 1e8) * r.sgn();
    const double l = cv.getLosses(V, I);
    c.ok(std::isfinite(l) && l >= 0, "finite", fmt("V %.9g I %.9g loss %.9g", V, I, l));
    c.ev("extreme-points");
  });
}

VH_PROP(B02)
{
  auto &c = cx;
  auto same = [&](Battery &b, Module &m, unsigned ns, unsigned np, const std::string &d) {
    c.eq(b.V(), m.V() * ns, 1e-12, 0, "voltage", d);
    c.eq(b.getOCV(), m.getOCV() * ns, 1e-12, 0, "open-circuit-voltage", d);
    c.eq(b.I(), m.I() * np, 1e-12, 1e-12, "current", d);
    c.eq(b.Cap(), m.Cap() * np, 1e-12, 0, "capacity", d);
    c.eq(b.Vmin(), m.Vmin() * ns, 1e-12, 0, "Vmin", d);
    c.eq(b.Vmax(), m.Vmax() * ns, 1e-12, 0, "Vmax", d);
    c.eq(b.VMIN(), m.VMIN() * ns, 1e-12, 0, "VMIN", d);
    c.eq(b.VMAX(), m.VMAX() * ns, 1e-12, 0, "VMAX", d);
    c.eq(b.getRtot(), m.getRtot() * ns / np, 1e-12, 0, "resistance", d);
    c.ok(b.getNcells() == m.getNcells() * ns * np, "cells", d);
    c.eq(b.getVhigh(), m.getVhigh(), 1e-12, 0, "highest-cell-voltage", d);
    c.eq(b.getVlow(), m.getVlow(), 1e-12, 0, "lowest-cell-voltage", d);
    double v = 0;
    const auto sb = b.checkVoltage(v, false);
    double vm = 0;
    const auto sm = m.checkVoltage(vm, false);
    c.ok(sb == sm, "voltage-status", d);
    c.eq(v, m.V() * ns, 1e-12, 0, "checked-voltage", d);
    double hot = b.T();
    for (auto *cell : vm::cells(&m)) hot = std::max(hot, cell->T());
    c.ok(b.getThotSpot() >= hot - 1e-9, "hot-spot", fmt("%s: %.9g below %.9g", d.c_str(), b.getThotSpot(), hot));
    c.ev("report-comparisons");
  };
  c.run("reports", c.scale(500, 6000), [&](Rng &r, int) {
    Opt o;
    o.maxcells = 8;
    o.maxdepth = r.i(1, 3);
    o.rcap_lo = 0.05;
    auto b = make_bat(r, o, r.p(0.3));
    const auto d = fmt("%s %us %up", b.n.shape().c_str(), b.ns, b.np);
    c.seen("configuration", vh::hs(d.c_str()));
    c.ev(b.ns > 1 || b.np > 1 ? "replicated" : "single");
    same(*b.b, *b.m, b.ns, b.np, d);
    double budget = 0;
    for (int k = 0; k < 6; k++) {
      auto dr = random_drive(r, b.m->Cap(), budget, b.spm ? 1.0 : 0.5);
      const double I = dr.I * b.np;
      auto st = b.b->setCurrent(I, true, false);
      if (!isStatusSuccessful(st)) {
        c.ev("refused-currents");
        same(*b.b, *b.m, b.ns, b.np, d);
        continue;
      }
      c.eq(b.b->I(), I, 1e-9, 1e-9 * b.b->Cap(), "current-applied", d);
      c.eq(b.m->I(), I / b.np, 1e-9, 1e-9 * b.m->Cap(), "current-divided", d);
      same(*b.b, *b.m, b.ns, b.np, d);
      b.b->timeStep_CC(dr.dt, std::min(dr.n, 4));
      c.ev("steps");
      same(*b.b, *b.m, b.ns, b.np, d);
      c.eq(b.b->I(), I, 1e-4, 1e-6 * b.b->Cap(), "current-kept", d);
    }
    // setting a voltage: the whole battery is brought to it
    const double V0 = b.b->V(), R = b.b->getRtot(), Vset = V0 + r.u(-0.3, 0.3) * R * b.b->Cap();
    if (isStatusSuccessful(b.b->setVoltage(Vset, true, false))) {
      c.eq(b.b->V(), Vset, 0, 2e-3 * b.ns * std::max(1.0, V0 / b.ns / 4), "voltage-set", d);
      same(*b.b, *b.m, b.ns, b.np, d);
      c.ev("voltages-set");
    } else
      c.ev("refused-voltages");
    // save and restore
    if (b.b->V() > 0) {
      b.b->setT(r.u(285, 310));
      auto s = states(*b.b);
      const double T = b.b->T(), V = b.b->V(), I = b.b->I();
      b.b->setT(288);
      b.b->setCurrent(0.1 * b.b->Cap(), false, false);
      b.b->timeStep_CC(0.3, 2);
      if (isStatusSuccessful(set_states(*b.b, s))) {
        c.eq(b.b->T(), T, 0, 0, "restored-temperature", d);
        c.eq(b.b->V(), V, 1e-9, 0, "restored-voltage", d);
        c.eq(b.b->I(), I, 1e-9, 1e-12, "restored-current", d);
        auto s2 = states(*b.b);
        c.ok(s.size() == s2.size(), "restored-size", d);
        c.ev("restores");
      } else
        c.violation("restore-refused", d);
    }
    c.sample(d);
  });
  // the battery hides nothing of its module: the same requests on a bare twin module are answered alike,
  // also where a cell is at or beyond its limits and where the request asks for no checks
  c.run("bare-twin", c.scale(250, 3000), [&](Rng &r, int) {
    Opt o;
    o.maxcells = 6;
    o.maxdepth = r.i(1, 3);
    o.rcap_lo = 0.05;
    const double soc = r.p(0.4) ? r.u(0.02, 0.1) : r.p(0.5) ? r.u(0.9, 0.98) : 0.5;
    o.soclo = soc - 0.005, o.sochi = soc + 0.005;
    auto b = make_bat(r, o, r.p(0.3));
    Node alone = b.n;
    alone.cool = 1; // a module on its own has the air conditioner which the battery has otherwise
    auto twin = build_module(alone);
    const auto d = fmt("%s %us %up soc %.3f", b.n.shape().c_str(), b.ns, b.np, soc);
    same(*b.b, *twin, b.ns, b.np, d);
    for (int k = 0; k < 8; k++) {
      const double I = twin->Cap() * (r.p(0.15) ? 0 : r.p(0.3) ? r.u(-12, 12) : r.u(-2, 2));
      const bool check = r.p(0.5);
      bool threw[2] = { false, false };
      Status s1{}, s2{};
      try {
        s1 = b.b->setCurrent(I * b.np, check, false);
      } catch (int) {
        threw[0] = true;
      }
      try {
        s2 = twin->setCurrent(I * b.np / b.np, check, false);
      } catch (int) {
        threw[1] = true;
      }
      c.ok(threw[0] == threw[1], "twin-refusal", d);
      if (threw[0] || threw[1]) {
        c.ev("twin-threw");
        return;
      }
      c.ok(s1 == s2, "twin-status", fmt("%s I %.6g check %d: %d vs %d", d.c_str(), I, check, (int)s1, (int)s2));
      c.seen("current-status", (int)s2 * 2 + check);
      c.ev(!isStatusSuccessful(s2) ? "twin-refused" : isStatusOK(s2) ? "twin-ok" : "twin-warned");
      if (!isStatusSuccessful(s2) && !isStatusWarning(s2)) {
        if (!check) return;
      }
      double v1 = 0, v2 = 0;
      const auto c1 = b.b->checkVoltage(v1, false), c2 = twin->checkVoltage(v2, false);
      c.ok(c1 == c2, "twin-voltage-status", d);
      c.eq(v1, v2 * b.ns, 1e-12, 0, "twin-checked-voltage", d);
      c.ok(b.b->validStates(false) == twin->validStates(false), "twin-validity", d);
      c.seen("voltage-status", (int)c2);
      same(*b.b, *twin, b.ns, b.np, d);
      if (std::fabs(twin->I()) < 2.1 * twin->Cap() && r.p(0.5)) {
        try {
          b.b->timeStep_CC(0.5, 2);
        } catch (int) {
          threw[0] = true;
        }
        try {
          twin->timeStep_CC(0.5, 2);
        } catch (int) {
          threw[1] = true;
        }
        c.ok(threw[0] == threw[1], "twin-refusal", d);
        if (threw[0] || threw[1]) return;
        c.ev("twin-steps");
      }
    }
  });
  // the multipliers stand for real copies: compare with a unit in which the copies exist
  c.run("unrolled", c.scale(60, 800), [&](Rng &r, int) {
    Opt o;
    o.maxcells = 3;
    o.maxdepth = r.i(1, 2);
    o.rcap_lo = 0.08;
    o.contact = r.p(0.5);
    auto b = make_bat(r, o);
    const unsigned ns = r.i(1, 4), np = r.i(1, 4);
    b.b->setSeriesandParallel(ns, np);
    b.ns = ns, b.np = np;
    Node inner = b.n; // np copies side by side, ns of those in a row
    Node row;
    row.leaf = false;
    row.parallel = false;
    for (unsigned i = 0; i < ns; i++) {
      Node p;
      p.leaf = false;
      p.parallel = true;
      p.id = "p" + std::to_string(i);
      for (unsigned j = 0; j < np; j++) p.ch.push_back(kids(b.n, "m" + std::to_string(j))), p.Rc.push_back(0);
      row.ch.push_back(p), row.Rc.push_back(0);
    }
    row.id = "row";
    row.cool = 1;
    auto big = build(row);
    const auto d = fmt("%s %us %up", b.n.shape().c_str(), ns, np);
    double budget = 0;
    auto cmp = [&] {
      c.eq(b.b->V(), big->V(), 0, 1e-5 * ns * std::max(1.0, b.m->V() / 4), "copies-voltage", d);
      c.eq(b.b->Cap(), big->Cap(), 1e-12, 0, "copies-capacity", d);
      c.eq(b.b->getRtot(), big->getRtot(), 1e-9, 0, "copies-resistance", d);
      c.eq(b.b->I(), big->I(), 1e-7, 1e-7, "copies-current", d);
      c.eq(b.b->Vmax(), big->Vmax(), 1e-12, 0, "copies-limits", d);
      c.eq(b.b->VMIN(), big->VMIN(), 1e-12, 0, "copies-limits", d);
      c.ok(b.b->getNcells() == big->getNcells(), "copies-cells", d);
    };
    cmp();
    for (int k = 0; k < 5; k++) {
      auto dr = random_drive(r, b.m->Cap(), budget, b.spm ? 1.0 : 0.3);
      const double I = dr.I * np;
      auto s1 = b.b->setCurrent(I, true, false), s2 = big->setCurrent(I, true, false);
      if (!isStatusSuccessful(s1) || !isStatusSuccessful(s2)) {
        c.ev("refused-currents");
        return;
      }
      b.b->timeStep_CC(dr.dt, std::min(4, dr.n));
      big->timeStep_CC(dr.dt, std::min(4, dr.n));
      cmp();
      c.ev("unrolled-steps");
    }
  });
  c.run("hostile", c.scale(60, 500), [&](Rng &r, int k) {
    Opt o;
    o.maxcells = 4;
    auto b = make_bat(r, o);
    auto refuse = [&](Deep_ptr<Module> m, const char *what) {
      const auto before = states(*b.b);
      bool threw = false;
      try {
        b.b->setModule(std::move(m));
      } catch (int) {
        threw = true;
      }
      c.ok(threw, "bad-module-accepted", what);
      c.ok(same_bits(before, states(*b.b)), "refusal-changed-battery", what);
      c.ev("refused-modules");
    };
    Node n = random_tree(r, o);
    if (k % 4 == 2) { // belongs to somebody else already, or cannot be cooled
      Battery fresh("fresh");
      n.cool = 2;
      Module_s other;
      Deep_ptr<Module> m(build_module(n));
      if (r.p(0.5)) m->setParent(&other);
      else {
        m = Deep_ptr<Module>(new Module_s());
        if (m->getCoolSystem() != nullptr) m->setParent(&other);
      }
      Module *const raw = m.get();
      auto *const pa = m->getParent();
      const size_t nc = m->getNcells();
      bool threw = false;
      try {
        fresh.setModule(std::move(m));
      } catch (int) {
        threw = true;
      }
      c.ok(threw, "bad-module-accepted", "module with a parent or without cooling");
      c.ok(m.get() == raw && raw && raw->getParent() == pa && raw->getNcells() == nc, "refused-module-changed", n.shape());
      c.ok(fresh.getCells() == nullptr || !threw, "refusal-changed-battery", n.shape());
      c.ev("refused-modules");
      n.cool = 2;
      fresh.setModule(Deep_ptr<Module>(build_module(n)));
      c.ok(fresh.getNcells() == (size_t)n.ncells(), "unusable-after-refusal", n.shape());
      c.ok(fresh.getCells()->getParent() == &fresh, "module-parent", n.shape());
      return;
    }
    if (k % 2 == 0) {
      n.cool = 2;
      refuse(Deep_ptr<Module>(build_module(n)), "second module");
    } else {
      Battery fresh("fresh");
      n.cool = 1;
      bool threw = false;
      try {
        fresh.setModule(Deep_ptr<Module>(build_module(n)));
      } catch (int) {
        threw = true;
      }
      c.ok(threw, "bad-module-accepted", "module with an air conditioner");
      c.ev("refused-modules");
      // still usable
      n.cool = 2;
      fresh.setModule(Deep_ptr<Module>(build_module(n)));
      c.ok(fresh.getNcells() == (size_t)n.ncells(), "unusable-after-refusal", n.shape());
      c.ok(fresh.getCells()->getParent() == &fresh, "module-parent", n.shape());
    }
  });
}

// refused requests leave a battery as it was
VH_PROP(C08)
{
  auto &c = cx;
  auto snap = [](Bat &b) {
    for (auto *x : vm::cells(b.m)) x->V();
    return states(*b.b);
  };
  c.run("battery", c.scale(400, 5000), [&](Rng &r, int k) {
    Opt o;
    o.maxcells = 6;
    o.maxdepth = r.i(1, 3);
    o.spm = k % 4 == 0;
    const bool low = r.p(0.5);
    auto b = make_bat(r, o, r.p(0.3));
    const bool par = b.n.has_parallel();
    const auto d = fmt("%s %us %up", b.n.shape().c_str(), b.ns, b.np);
    if (!isStatusOK(b.b->setCurrent(b.b->Cap() * r.u(-0.05, 0.05), false, false))) {
      c.inconclusive++;
      return;
    }
    b.b->setT(r.u(288, 305));
    if (r.p(0.5)) b.b->timeStep_CC(0.2, 2);
    auto s0 = snap(b);
    const double tol = par ? 2e-5 * b.m->Cap() : 0;
    auto unchanged = [&](const char *what, double t) {
      auto s1 = snap(b);
      if (!c.ok(s0.size() == s1.size(), "size", d)) return;
      for (size_t i = 0; i < s0.size(); i++)
        if (!c.eq(s1[i], s0[i], 0, t + (t > 0 || what[0] == 'V' ? 1e-15 * std::fabs(s0[i]) : 0), "refused-request-changes-battery", fmt("%s: %s entry %zu of %zu", d.c_str(), what, i, s0.size()))) break;
    };
    switch (k % 3) {
    case 0: {
      const double I = b.b->Cap() * r.logu(0.5, 1000) * (low ? 1 : -1);
      const auto st = b.b->setCurrent(I, true, false);
      if (isStatusBad(st)) {
        unchanged("current", tol);
        c.ev("battery-refused-current");
      } else {
        c.eq(b.b->I(), I, 1e-9, 1e-9 * b.b->Cap(), "accepted-not-applied", d);
        c.ev("battery-accepted-current");
      }
      break;
    }
    case 1: {
      const double V = b.b->V() * r.u(0.2, 3);
      const auto st = b.b->setVoltage(V, true, false);
      if (isStatusBad(st)) {
        unchanged("Voltage", tol);
        c.ev("battery-refused-voltage");
      } else {
        c.eq(b.b->V(), V, 0, 1e-5 * b.ns, "accepted-voltage-not-applied", d);
        c.ev("battery-accepted-voltage");
      }
      break;
    }
    case 2: {
      // every entry of the saved state in turn may be spoilt; the last one is the temperature of the battery itself
      auto s = states(*b.b);
      const int what = r.i(0, 2);
      const double T = r.p(0.2) ? std::nan("") : r.p(0.5) ? 273 - r.logu(1e-3, 500) : 273 + 75 + r.logu(1e-3, 1e4);
      for (auto &x : s) // a state that differs everywhere it legally can
        if (x > 285 && x < 310) x = r.u(286, 309);
      if (what)
        s.back() = T;
      else { // or the temperature of one of its parts
        std::vector<size_t> t;
        for (size_t i = 0; i + 1 < s.size(); i++)
          if (s[i] > 285 && s[i] < 310) t.push_back(i);
        if (t.empty()) return;
        s[r.pick(t)] = T;
      }
      bool threw = false;
      Status st = Status::Success;
      try {
        st = set_states(*b.b, s, r.p(0.5));
      } catch (int) {
        threw = true;
      }
      c.ok(threw || isStatusBad(st), "illegal-state-accepted", d + fmt(" T %g", T));
      unchanged(what ? "battery temperature" : "part temperature", 0);
      c.ev("battery-refused-state");
    }
    }
  });
}

// a cell does not know where it is built in: the same current for the same time does the same to it in a module as on its own
static void companions(Ctx &c, const char *group, int cases)
{
  c.run(group, cases, [&](Rng &r, int k) {
    Opt o;
    o.maxcells = 8;
    o.maxdepth = 1 + k % 4;
    o.deg = true;
    o.mt = r.p(0.3);
    o.rcap_lo = 0.06;
    o.spm = k % 5 != 0, o.ecm = !o.spm;
    std::unique_ptr<StorageUnit> u;
    Node n;
    bool spm = o.spm;
    double scale = 1;
    if (k % 3 == 0) {
      auto b = make_bat(r, o, r.p(0.3));
      n = b.n, spm = b.spm, scale = b.np;
      u = std::move(b.b);
    } else {
      n = random_tree(r, o);
      u = build_module(n);
    }
    StorageUnit *top = k % 3 == 0 ? static_cast<StorageUnit *>(static_cast<Battery *>(u.get())->getCells()) : u.get();
    const auto cs = cells(top);
    std::vector<std::unique_ptr<StorageUnit>> twin;
    for (auto *q : cs) {
      q->V();
      twin.emplace_back(q->copy());
    }
    const std::string d = (k % 3 == 0 ? "battery of " : "") + n.shape();
    double budget = 0;
    for (int j = 0, m = r.i(3, 8); j < m; j++) {
      auto dr = random_drive(r, n.capacity(), budget, spm ? 1.0 : 0.4);
      if (!isStatusOK(u->setCurrent(dr.I * scale, false, false))) {
        c.inconclusive++;
        return;
      }
      const bool block = r.p(0.3);
      u->setBlockDegAndTherm(block);
      std::vector<std::vector<double>> before;
      for (size_t i = 0; i < cs.size(); i++) {
        twin[i]->setBlockDegAndTherm(block);
        twin[i]->setCurrent(cs[i]->I(), false, false);
        if (auto *q = as<Cell_SPM>(cs[i])) {
          auto s = q->getStateObj();
          before.push_back({ s.delta(), s.LLI(), s.thickp(), s.thickn(), s.ep(), s.en(), s.ap(), s.an(), s.CS(), s.Dp(), s.Dn(), s.delta_pl(), s.rDCp(), s.rDCn(), s.rDCcc() });
        }
      }
      try {
        u->timeStep_CC(dr.dt, dr.n);
      } catch (int) {
        c.inconclusive++;
        return;
      }
      for (size_t i = 0, a = 0; i < cs.size(); i++) {
        const auto what = fmt("%s cell %zu of %zu, step %d: %d x %g s%s", d.c_str(), i, cs.size(), j, dr.n, dr.dt, block ? ", blocked" : "");
        if (auto *q = as<Cell_SPM>(cs[i])) {
          auto s = q->getStateObj();
          std::vector<double> after{ s.delta(), s.LLI(), s.thickp(), s.thickn(), s.ep(), s.en(), s.ap(), s.an(), s.CS(), s.Dp(), s.Dn(), s.delta_pl(), s.rDCp(), s.rDCn(), s.rDCcc() };
          if (block) c.ok(same_bits(before[a], after), "blocked-cell-in-module-aged", what + ": " + first_diff(before[a], after)), c.ev("blocked-in-module");
          else if (!same_bits(before[a], after)) c.ev("aged-in-module");
          a++;
        }
        twin[i]->timeStep_CC(dr.dt, dr.n);
        const double I = cs[i]->I();
        twin[i]->setCurrent(I, false, false);
        cs[i]->V(), static_cast<Cell *>(twin[i].get())->V();
        auto s1 = states(*cs[i]), s2 = states(*twin[i]);
        if (!c.ok(s1.size() == s2.size(), "companion-size", what)) return;
        for (size_t e = 0; e < s1.size(); e++)
          if (!c.eq(s1[e], s2[e], 1e-12, 1e-13, "cell-differs-from-lone-cell", what + fmt(": entry %zu of %zu", e, s1.size()))) return;
        auto t1 = cs[i]->getThroughputs(), t2 = static_cast<Cell *>(twin[i].get())->getThroughputs();
        c.eq(t1.time(), t2.time(), 1e-12, 1e-12, "clock-differs-from-lone-cell", what);
        c.eq(t1.Ah(), t2.Ah(), 1e-12, 1e-15, "throughput-differs-from-lone-cell", what);
        c.eq(t1.Wh(), t2.Wh(), 1e-9, 1e-12, "throughput-differs-from-lone-cell", what);
        c.ev("companion-steps");
      }
    }
    c.seen("units", vh::hs(d.c_str()));
    if (k < 6) c.sample(d);
  });
}
VH_PROP(M07)
{
  companions(cx, "companions", cx.scale(300, 4000));
}
VH_PROP(C10)
{
  companions(cx, "in-modules", cx.scale(300, 4000));
}

VH_PROP(B03)
{
  auto &c = cx;
  c.run("integral", c.scale(500, 6000), [&](Rng &r, int) {
    Opt o;
    o.maxcells = 8;
    o.maxdepth = r.i(1, 3);
    o.rcap_lo = 0.05;
    const bool late = r.p(0.3);
    auto b = make_bat(r, o, late);
    if (late) c.ev("replicated-after-assembly");
    const auto d = fmt("%s %us %up", b.n.shape().c_str(), b.ns, b.np);
    const double P = b.rating();
    c.seen("configuration", vh::hs(d.c_str()));
    c.ev(P > 200e3 ? "several-units" : "single-unit");
    std::unique_ptr<Battery> other; // a copy keeps accounts of its own
    double tot = 0, since = 0, slack = 0;
    const bool block = r.p(0.3);
    b.b->setBlockDegAndTherm(block);
    c.eq(b.b->getConvLosses_total(), 0, 0, 0, "starts-at-zero", d);
    double budget = 0;
    for (int k = 0; k < 8; k++) {
      auto dr = random_drive(r, b.m->Cap(), budget, b.spm ? 1.0 : 0.5);
      const double I = r.p(0.2) ? 0 : dr.I * b.np;
      if (!isStatusSuccessful(b.b->setCurrent(I, true, false))) {
        c.ev("refused-currents");
        continue;
      }
      const int n = std::min(dr.n, 6);
      const double Va = b.b->V(), Ia = b.b->I();
      b.b->timeStep_CC(dr.dt, n);
      const double Vb = b.b->V(), Ib = b.b->I();
      const double l = ref_losses(P, Vb, Ib);
      const double inc = l * dr.dt * n;
      slack += std::fabs(l - ref_losses(P, Va, Ia)) * dr.dt * n + 1e-9 * inc;
      tot += inc, since += inc;
      c.eq(b.b->getConvLosses_total(), tot, 0, slack, "loss-energy", fmt("%s I %.6g V %.6g dt %.4g n %d block %d", d.c_str(), I, Vb, dr.dt, n, block));
      c.ev("steps");
      if (n > 1) c.ev("batches");
      c.seen("loss-power", vh::hd(l, l * 1e-3));
      if (r.p(0.3)) {
        const double got = b.b->getAndResetConvLosses();
        c.eq(got, since, 0, slack, "loss-since-reset", d);
        since = 0;
        c.ev("read-and-reset");
        c.eq(b.b->getAndResetConvLosses(), 0, 0, 0, "reset", d);
        c.eq(b.b->getConvLosses_total(), tot, 0, slack, "total-survives-reset", d);
      } else if (r.p(0.15)) {
        b.b->resetConvLosses();
        since = 0;
        c.ev("resets");
        c.eq(b.b->getConvLosses_total(), tot, 0, slack, "total-survives-reset", d);
      } else if (r.p(0.3)) { // questions change nothing
        b.b->getConvLosses_total();
        b.b->V(), b.b->getRtot(), b.b->getThotSpot();
        b.b->storeData();
      }
      if (!other && r.p(0.1)) {
        other.reset(b.b->copy());
        const double t0 = other->getConvLosses_total();
        c.eq(t0, tot, 0, slack, "copied-total", d);
        other->timeStep_CC(0.1, 1);
        c.eq(b.b->getConvLosses_total(), tot, 0, slack, "copy-independent", d);
        c.ok(other->getConvLosses_total() > t0, "copy-accumulates", d);
        c.ev("copies");
      }
    }
    c.eq(b.b->getAndResetConvLosses(), since, 0, slack, "loss-since-reset", d);
    c.sample(d + fmt(" rating %.4g W, %.4g J lost", P, tot));
  });
}

// The cooling load of a battery: its own cooling system and those of all its modules, every joule once.
VH_PROP(T03)
{
  auto &c = cx;
  c.run("battery-load", c.scale(200, 3000), [&](Rng &r, int) {
    Opt o;
    o.maxcells = r.i(1, 8);
    o.maxdepth = r.i(1, 3);
    auto b = make_bat(r, o, r.p(0.3));
    const auto d = fmt("%s %us %up", b.n.shape().c_str(), b.ns, b.np);
    std::vector<CoolSystem *> all{ b.b->getCoolSystem() };
    for (auto *m : modules(b.m)) all.push_back(m->getCoolSystem());
    std::unique_ptr<Battery> dup;
    for (int i = 0; i < r.i(1, 6); i++) {
      double want = 0;
      for (auto *cs : all) {
        if (r.p(0.7)) {
          if (r.p(0.5)) cs->control(r.u(280, 333), 333);
          const double dt = r.u(1, 100), Q = r.u(0, 100);
          cs->dstate(Q, Q, dt);
        }
        want += cs->getEoperation();
      }
      if (r.p(0.2)) { // a copy owes what the original owes
        dup.reset(b.b->copy());
        c.eq(dup->getCoolingLoad(), want, 1e-12, 1e-9, "copied-load", d);
      }
      c.eq(b.b->getCoolingLoad(), want, 1e-12, 1e-9, "battery-load", d);
      c.eq(b.b->getCoolingLoad(), 0, 0, 0, "load-not-reset", d);
      for (auto *cs : all) c.eq(cs->getEoperation(), 0, 0, 0, "member-not-reset", d);
      c.ev("battery-loads");
    }
    c.seen("batteries", vh::hs(d.c_str()));
  });
}
