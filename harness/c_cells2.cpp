// C06 voltage model, C09 status classification
#include "vs.hpp"
#include "refspm.hpp"
#include "vm.hpp"
using namespace slide;
using namespace vs;

VH_PROP(C06)
{
  // --- equivalent circuit: V = OCV(SOC) - Rdc I - sum Rp Ir ; dIr/dt = (I - Ir)/tau
  cx.run("ecm", cx.scale(300, 4000), [&](Rng &r, int k) {
    const int kind = k % 3;
    double soc = r.u(0.1, 0.9);
    CellBox b = rand_ecm(r, kind, soc);
    Cell &c = *b.c;
    double dtm = 20;
    for (double it : b.it) dtm = std::min(dtm, 0.2 / it);
    std::vector<long double> Ie(b.it.size(), 0), If(b.it.size(), 0), slack(b.it.size(), 0);
    long double q = soc;
    double Iprev = 0;
    for (int j = 0, m = r.i(2, 8); j < m; j++) {
      double I = r.p(0.2) ? 0 : b.cap * r.u(-1.5, 1.5), dt = dtm * r.logu(0.01, 1);
      int n = r.i(1, 40);
      double dq = I * dt * n / 3600 / b.cap;
      if (q - dq < 0.05 || q - dq > 0.95) I = -I, dq = -dq;
      if (q - dq < 0.05 || q - dq > 0.95) continue;
      c.setCurrent(I, false, false);
      auto chk = [&](const char *when) {
        long double ocv = 2.0L + 2.3L * q;
        cx.eq(c.getOCV(), (double)ocv, 1e-10, 0, "ecm-open-circuit-voltage", fmt("%s %s", b.name(), when));
        long double v = ocv - (long double)b.Rdc * I, tol = 1e-9L, vf = v;
        for (size_t i = 0; i < b.it.size(); i++) v -= b.Rp[i] * Ie[i], vf -= b.Rp[i] * If[i], tol += b.Rp[i] * slack[i];
        cx.eq(c.V(), (double)v, 0, (double)tol, "ecm-voltage", fmt("%s %s I=%g dt=%g n=%d", b.name(), when, I, dt, n));
        cx.eq(c.getRtot(), b.Rdc, 1e-12, 0, "ecm-resistance");
        double ir = 0;
        bool has = true;
        if (auto *e0 = dynamic_cast<Cell_ECM<0> *>(&c)) ir = e0->getIr();
        else if (auto *e1 = dynamic_cast<Cell_ECM<1> *>(&c)) ir = e1->getIr();
        else if (auto *e2 = dynamic_cast<Cell_ECM<2> *>(&c)) ir = e2->getIr();
        else if (auto *e3 = dynamic_cast<Cell_ECM<3> *>(&c)) ir = e3->getIr();
        else has = false;
        if (has) cx.eq(ir, b.it.empty() ? 0 : (double)Ie[0], 0, b.it.empty() ? 0 : 1e-9 + (double)slack[0], "ecm-branch-current", fmt("%s %s", b.name(), when)), cx.ev("branch-currents");
        (void)vf;
      };
      chk("set");
      c.timeStep_CC(dt, n);
      q -= dq;
      for (size_t i = 0; i < b.it.size(); i++) {
        // exponential relaxation; explicit integration may differ by at most dt/tau times the jump
        const long double x = (long double)dt * b.it[i], e = expl(-x * n), ef = powl(1 - x, n);
        slack[i] = slack[i] * e + fabsl(e - ef) * (fabsl(I - Ie[i]) + slack[i]) * 1.05L + 1e-12L;
        Ie[i] = I + (Ie[i] - I) * e;
      }
      chk("stepped");
      cx.ev(I == 0 ? "ecm-rest" : "ecm-voltages");
      Iprev = I;
    }
    (void)Iprev;
    // a requested voltage is met at once
    c.setCurrent(0, false, false);
    const double v0 = c.V();
    const double vset = v0 + b.Rdc * b.cap * r.u(-1, 1);
    if (vset > 2.75 && vset < 4.15) {
      const auto st = c.setVoltage(vset, false, false);
      cx.ok(isStatusOK(st), "ecm-voltage-refused", fmt("%s %g", b.name(), vset));
      cx.eq(c.V(), vset, 0, 1e-9, "ecm-set-voltage", b.name());
      cx.eq(c.I(), (v0 - vset) / b.Rdc, 1e-7, 1e-9, "ecm-set-voltage-current", b.name());
      cx.ev("ecm-set-voltage");
    }
    // full relaxation brings it back to the open-circuit voltage
    c.setCurrent(0, false, false);
    double tmax = 0;
    for (double it : b.it) tmax = std::max(tmax, 1 / it);
    if (tmax > 0 && tmax / dtm < 4000) c.timeStep_CC(dtm, (int)(40 * tmax / dtm) + 1);
    if (tmax / dtm < 4000) cx.eq(c.V(), c.getOCV(), 0, 1e-7, "ecm-rest-voltage", b.name()), cx.ev("ecm-relaxed");
  });
  cx.run("ecm-default", 12, [&](Rng &r, int k) {
    auto go = [&](auto cell, std::vector<double> Rp, std::vector<double> tau) {
      cx.eq(cell.Cap(), 16, 0, 0, "default-capacity");
      const double I = r.u(-20, 20);
      cell.setSOC(0.5, false, false);
      const double o = cell.getOCV();
      cx.eq(o, 3.15, 1e-12, 0, "default-ocv");
      cell.setCurrent(I, false, false);
      cx.eq(cell.V(), o - 2e-3 * I, 1e-12, 0, "default-dc-resistance");
      const double dt = r.u(0.05, 0.5);
      const int n = r.i(1, 200);
      cell.timeStep_CC(dt, n);
      double v = 3.15 - 2.3 * I * dt * n / 3600 / 16 - 2e-3 * I, tol = 1e-10;
      for (size_t i = 0; i < Rp.size(); i++) v -= Rp[i] * I * (1 - std::pow(1 - dt / tau[i], n)), tol += Rp[i] * std::fabs(I) * std::fabs(std::pow(1 - dt / tau[i], n) - std::exp(-dt * n / tau[i]));
      cx.eq(cell.V(), v, 0, tol, "default-rc-voltage", fmt("%zu branches dt=%g n=%d I=%g", Rp.size(), dt, n, I));
    };
    if (k % 3 == 0) go(Cell_ECM<0>(), {}, {});
    if (k % 3 == 1) go(Cell_ECM<1>(), { 15.8e-3 }, { 15.8e-3 * 38e3 });
    if (k % 3 == 2) go(Cell_ECM<2>(), { 15.8e-3, 2.5e-3 }, { 15.8e-3 * 38e3, 100 });
  });
  // --- electrochemical cell against the independent model
  const auto &R = ref::SPM::get();
  cx.run("spm", cx.scale(220, 4000), [&](Rng &r, int k) {
    double soc = r.u(0.1, 0.9), T = r.u(275, 330);
    auto b = rand_spm(r, soc, k % 3 ? deg_rand(r, true) : deg_none(), T);
    auto &c = *b.spm();
    auto &st = c.getStateObj();
    if (k % 5 == 0) { // an artificially aged cell: every state that enters the voltage is away from its fresh value
      st.delta() *= r.logu(1, 400);
      st.rDCp() *= r.u(0.5, 3);
      st.rDCn() *= r.u(0.5, 3);
      st.rDCcc() *= r.u(0.5, 3);
      st.Dp() *= r.u(0.5, 1.2);
      st.Dn() *= r.u(0.5, 1.2);
      st.thickp() *= r.u(0.8, 1);
      st.thickn() *= r.u(0.8, 1);
      const double fp = r.u(0.8, 1), fn = r.u(0.8, 1);
      st.ep() *= fp, st.ap() *= fp;
      st.en() *= fn, st.an() *= fn;
      c.setT(T);
      cx.ev("aged-states");
    }
    for (int j = 0, m = r.i(2, 7); j < m; j++) {
      const double I = r.p(0.15) ? 0 : b.cap * r.u(-2, 2);
      c.setCurrent(I, false, false);
      auto chk = [&](const char *when) {
        auto e = R.eval(st, b.capf);
        if (!(e.cps > 0 && e.cns > 0 && e.cps < R.Cmaxp && e.cns < R.Cmaxn)) return false;
        double p, n;
        cx.ok(c.getCSurf(p, n, false), "surface-in-range");
        cx.eq(p, e.cps, 1e-10, 0, "surface-concentration-p", when);
        cx.eq(n, e.cns, 1e-10, 0, "surface-concentration-n", when);
        cx.eq(c.getRdc(), e.R, 1e-10, 0, "resistance", when);
        cx.eq(c.getRtot(), e.R, 1e-10, 0, "resistance", when);
        cx.eq(c.getOCV(), e.OCV, 1e-10, 1e-10, "open-circuit-voltage", fmt("%s T=%g", when, st.T()));
        cx.eq(c.V(), e.V, 1e-10, 1e-10, "voltage", fmt("%s T=%g I=%g", when, st.T(), I));
        return true;
      };
      if (!chk("set")) break;
      if (I == 0) cx.eq(c.V(), c.getOCV(), 1e-12, 0, "rest-voltage"), cx.ev("spm-rest");
      cx.ev("spm-voltages");
      const double soc1 = c.SOC();
      double dt = r.u(0.05, 1.5);
      int n = r.i(1, 60);
      if (soc1 - I * dt * n / 3600 / b.cap < 0.05 || soc1 - I * dt * n / 3600 / b.cap > 0.95) continue;
      try {
        c.timeStep_CC(dt, n);
      } catch (int) {
        cx.inconclusive++;
        break;
      }
      if (!chk("stepped")) break;
      if (r.p(0.4)) {
        c.setT(r.u(275, 330));
        chk("temperature");
        cx.ev("spm-temperature-changes");
      }
      cx.seen("operating-points", vh::hd(c.V()));
    }
  });
  // a cell given other parameters is a cell with these parameters
  cx.run("parameters", cx.scale(80, 1200), [&](Rng &r, int k) {
    auto b = rand_spm(r, r.u(0.3, 0.7), deg_none(), r.u(280, 325));
    auto &c = *b.spm();
    auto &st = c.getStateObj();
    ref::SPM Q = R;
    double capf = b.capf, cap = b.cap;
    for (int j = 0, m = r.i(1, 5); j < m; j++) {
      const int op = (k + j) % 3;
      if (op == 0) {
        Q.Cmaxp = r.u(48000, 54000), Q.Cmaxn = r.u(28000, 33000);
        const double fp = r.u(0.5, 0.8), fn = r.u(0.3, 0.6);
        c.setInitialConcentration(Q.Cmaxp, Q.Cmaxn, fp, fn);
        double cp[7], cn[7];
        c.setCurrent(0, false, false);
        c.getC(cp, cn);
        for (int i = 0; i < 7; i++) cx.eq(cp[i], fp * Q.Cmaxp, 1e-6, 0, "parameter-concentration", fmt("p node %d", i)), cx.eq(cn[i], fn * Q.Cmaxn, 1e-6, 0, "parameter-concentration", fmt("n node %d", i));
      } else if (op == 1) {
        cap = r.u(5, 25);
        Q.elec_surf = 0.62 * cap / 16 * r.u(0.9, 1.1), capf = 1;
        const double ep = r.u(0.45, 0.55), en = r.u(0.45, 0.55), tp = r.u(60e-6, 80e-6), tn = r.u(65e-6, 80e-6);
        c.setGeometricParameters(cap, Q.elec_surf, ep, en, tp, tn);
        cx.eq(c.Cap(), cap, 1e-15, 0, "parameter-capacity");
        const double got[] = { st.ep(), st.en(), st.thickp(), st.thickn(), st.ap(), st.an() }, want[] = { ep, en, tp, tn, 3 * ep / Q.Rp, 3 * en / Q.Rn };
        for (int i = 0; i < 6; i++) cx.eq(got[i], want[i], 1e-12, 0, "parameter-geometry", fmt("state %d", i));
      } else {
        const double dp = st.Dp() * r.u(0.6, 1.5), dn = st.Dn() * r.u(0.6, 1.5);
        Q.kp = r.u(3e-11, 8e-11), Q.kn = r.u(1e-11, 4e-11);
        c.setCharacterisationParam(dp, dn, Q.kp, Q.kn, r.u(0.5e-3, 4e-3) * 16 / cap);
        cx.eq(st.Dp(), dp, 1e-15, 0, "parameter-diffusion");
        cx.eq(st.Dn(), dn, 1e-15, 0, "parameter-diffusion");
      }
      for (int i = 0, mi = r.i(1, 3); i < mi; i++) {
        const double I = r.p(0.2) ? 0 : cap * r.u(-0.7, 0.7);
        c.setCurrent(I, false, false);
        auto e = Q.eval(st, capf);
        if (!(e.cps > 0.02 * Q.Cmaxp && e.cns > 0.02 * Q.Cmaxn && e.cps < 0.98 * Q.Cmaxp && e.cns < 0.98 * Q.Cmaxn)) return;
        const auto what = fmt("after %d changes, T=%g I=%g", j + 1, st.T(), I);
        double p, n;
        cx.ok(c.getCSurf(p, n, false), "surface-in-range");
        cx.eq(p, e.cps, 1e-10, 0, "surface-concentration-p", what);
        cx.eq(n, e.cns, 1e-10, 0, "surface-concentration-n", what);
        cx.eq(c.getRdc(), e.R, 1e-10, 0, "resistance", what);
        cx.eq(c.getOCV(), e.OCV, 1e-10, 1e-10, "open-circuit-voltage", what);
        cx.eq(c.V(), e.V, 1e-10, 1e-10, "voltage", what);
        cx.ev("parameter-voltages");
        try {
          if (std::fabs(I) < 0.3 * cap) c.timeStep_CC(r.u(0.1, 1), r.i(1, 20));
        } catch (int) {
          cx.inconclusive++;
          return;
        }
      }
    }
  });
  // the lithium fractions at a given state of charge follow from the electrode sizes, so the open-circuit voltage does as well
  cx.run("equilibrium", cx.scale(60, 400), [&](Rng &r, int k) {
    const double cpf = r.u(0.36, 0.98), cnf = r.u(0.03, 0.85), T = r.u(275, 330);
    Cell_SPM c("e", deg_none(), 1, 1, 1, 1);
    c.setT(T);
    c.setC(cpf, cnf);
    const double o = R.up(cpf) - R.un(cnf) + (T - 298) * R.dut(cpf);
    cx.eq(c.getOCV(), o, 0, 2e-5, "equilibrium-ocv", fmt("p %g n %g", cpf, cnf));
    cx.eq(c.V(), c.getOCV(), 1e-12, 0, "equilibrium-voltage");
    double cp[7], cn[7];
    c.getC(cp, cn);
    for (int i = 0; i < 7; i++) cx.eq(cp[i], cpf * 51385, 1e-6, 0, "uniform-p", fmt("node %d", i)), cx.eq(cn[i], cnf * 30555, 1e-6, 0, "uniform-n", fmt("node %d", i));
    cx.ev("equilibria");
  });
  // more discharge current never raises the voltage
  cx.run("monotone", cx.scale(80, 800), [&](Rng &r, int k) {
    CellBox b = rand_cell(r, r.u(0.2, 0.8), k % 4);
    double last = 1e300;
    for (int j = -8; j <= 8; j++) {
      b.c->setCurrent(j * 0.2 * b.cap, false, false);
      const double v = b.c->V();
      cx.ok(v < last, "voltage-not-falling-with-current", fmt("%s at %g C: %.12g after %.12g", b.name(), j * 0.2, v, last));
      last = v;
    }
    cx.ev("monotone-sweeps");
  });
}

VH_PROP(C09)
{
  // expected classification, written from the documentation in free_functions.hpp
  auto expect = [](double v, double I) {
    if (!(v > 0)) return Status::V_not_calculated;
    const double tol = 0.01;
    if (I > 0) { // discharging: only lower limits count
      if (v < 2.0) return Status::VMIN_violation;
      if (v < 2.7 - tol) return Status::Vmin_violation;
    }
    if (I < 0) {
      if (v > 4.3) return Status::VMAX_violation;
      if (v > 4.2 + tol) return Status::Vmax_violation;
    }
    return Status::Success;
  };
  const double edges[] = { 2.0, 2.7, 2.69, 4.2, 4.21, 4.3, 0 };
  auto near_edge = [&](double v) {
    for (double e : { 2.69, 4.21 }) // the width of the tolerance is a sum, known to rounding only
      if (std::fabs(v - e) < 1e-11) return true;
    return false;
  };
  cx.run("bucket", cx.scale(500, 6000), [&](Rng &r, int k) {
    const double soc = r.u(0, 1), Rdc = r.logu(1e-4, 0.2);
    Cell_ECM<0> c(r.logu(1, 50), soc, Rdc, {}, {});
    const double o = c.getOCV();
    double v;
    if (k % 2) v = edges[r.i(0, 6)] + r.sgn() * (r.p(0.5) ? r.logu(1e-9, 1e-3) : r.logu(1e-3, 0.5));
    else v = r.u(-0.5, 5);
    double I = (o - v) / Rdc;
    if (k % 10 == 0) I = 0;
    if (k % 37 == 5) I = std::nan("");
    c.setCurrent(I, false, false);
    v = c.V();
    double got = 0;
    const auto st = c.checkVoltage(got, false);
    if (near_edge(v) && v == v) {
      cx.inconclusive++;
      return;
    }
    const auto ex = expect(v, I);
    cx.ok(st == ex, "bucket-classification", fmt("V=%.12g I=%g: status %d expected %d", v, I, (int)st, (int)ex));
    if (v > 0) cx.eq(got, v, 0, 0, "reported-voltage");
    cx.seen("bucket-statuses", (uint64_t)(int64_t)(int)st * 8 + (I > 0) * 2 + (I < 0));
    cx.ev("status-" + std::to_string((int)st));
    // a checked request gives the same answer
    Cell_ECM<0> d(16, soc, Rdc, {}, {});
    const auto s2 = d.setCurrent(I, true, false);
    cx.ok(s2 == ex, "checked-current-classification", fmt("V=%.12g I=%g: status %d expected %d", v, I, (int)s2, (int)ex));
    cx.ok((d.I() == I) == isStatusOK(ex) || I == 0 || I != I, "bad-status-but-applied", fmt("I=%g status %d", d.I(), (int)s2));
  });
  // both directions at voltages the cell has without help of the current
  cx.run("direction", cx.scale(200, 2000), [&](Rng &r, int k) {
    const double soc = k % 2 ? r.u(0.9, 1.0) : r.u(0.0, 0.35);
    Cell_ECM<0> c(16, soc, 1e-6, {}, {});
    for (double I : { 1e-3, -1e-3, 1e-8, -1e-8, 0.0, 5.0, -5.0 }) {
      c.setCurrent(I, false, false);
      double v;
      const auto st = c.checkVoltage(v, false);
      if (near_edge(v)) continue;
      cx.ok(st == expect(v, I), "direction-classification", fmt("V=%.12g I=%g status %d", v, I, (int)st));
      cx.ev(I > 0 ? "discharging" : I < 0 ? "charging" : "resting");
      if (v > 4.21) cx.ev("above-window");
      if (v < 2.69) cx.ev("below-window");
    }
  });
  // voltages exactly at, and the next representable number beside, every limit
  cx.run("exact", cx.scale(100, 1000), [&](Rng &r, int k) {
    const double target = k % 3 == 0 ? 2.0 : k % 3 == 1 ? 4.3 : 0.0, soc = r.u(0.05, 0.95), Rdc = r.u(0.01, 1);
    Cell_ECM<0> c(16, soc, Rdc, {}, {});
    const double o = c.getOCV();
    double I = (o - target) / Rdc;
    for (int i = 0; i < 40; i++) { // walk across the limit
      c.setCurrent(I, false, false);
      double v = 0;
      const double vv = c.V();
      const auto st = c.checkVoltage(v, false);
      cx.ok(st == expect(vv, I), "exact-limit-classification", fmt("V=%.17g I=%.17g status %d", vv, I, (int)st));
      if (vv == target) cx.ev("exactly-at-limit");
      I = std::nextafter(I, k % 2 ? 1e9 : -1e9);
      if (i == 20) I = (o - target) / Rdc * (1 + 1e-16);
    }
    // at rest in all but name: the sign of any current counts
    Cell_ECM<0> d(16, k % 2, 1e-3, {}, {});
    for (double J : { 1e-200, 1e-9, 1e-6 }) {
      for (double sgn : { 1.0, -1.0 }) {
        d.setCurrent(sgn * J, false, false);
        double v = 0;
        const auto st = d.checkVoltage(v, false);
        cx.ok(st == expect(d.V(), sgn * J), "tiny-current-classification", fmt("V=%.17g I=%g status %d", d.V(), sgn * J, (int)st));
        if (J == 1e-200) cx.ev("end-of-table-at-limit");
      }
    }
  });
  cx.run("spm", cx.scale(150, 2000), [&](Rng &r, int k) {
    const double soc = k % 2 ? r.u(0.9, 1.0) : r.u(0.0, 0.1);
    auto b = rand_spm(r, soc, deg_none(), r.u(278, 325));
    const double I = b.cap * r.u(-8, 8);
    b.c->setCurrent(I, false, false);
    if (b.c->I() != I) { // outside: nothing to classify
      cx.inconclusive++;
      return;
    }
    double v = 0;
    const auto st = b.c->checkVoltage(v, false);
    const double vv = b.c->V();
    if (near_edge(vv)) return;
    cx.ok(st == expect(vv, I), "spm-classification", fmt("V=%.12g I=%g status %d", vv, I, (int)st));
    cx.ev("spm-status-" + std::to_string((int)st));
    const auto s2 = b.c->setCurrent(I, true, false);
    cx.ok(s2 == st, "spm-checked-classification", fmt("%d vs %d", (int)s2, (int)st));
  });
  // a module reports the worst of its cells and its own terminal voltage
  cx.run("module", cx.scale(150, 2000), [&](Rng &r, int k) {
    vm::Node n;
    std::function<void(vm::Node &)> fill = [&](vm::Node &m) {
      if (!m.leaf) {
        for (auto &x : m.Rc) x = 0;
        for (auto &x : m.ch) fill(x);
        return;
      }
      m.kind = 0;
      m.cap = 16;
      m.Rdc = r.p(0.6) ? 1e-4 : r.u(0.01, 0.06);
      m.soc = r.p(0.3) ? r.u(0.9, 1) : r.p(0.3) ? r.u(0.0, 0.4) : r.u(0.4, 0.9);
    };
    if (k % 4 < 2) {
      n.leaf = false;
      n.parallel = k % 2;
      n.cool = 1;
      n.id = "m";
      for (int i = 0, N = r.i(1, 6); i < N; i++) {
        vm::Node c;
        c.id = "c" + std::to_string(i);
        n.ch.push_back(c);
        n.Rc.push_back(0);
      }
    } else {
      vm::Opt o;
      o.spm = false;
      o.maxcells = 8;
      o.maxdepth = 3;
      n = vm::random_tree(r, o);
      cx.ev("nested-modules");
    }
    fill(n);
    auto p = vm::build(n);
    Status worst = Status::Success;
    double vsum = 0;
    bool edge = false;
    for (auto *c : vm::cells(p.get())) { // currents set directly on the cells, so that each may point either way
      c->setCurrent(r.u(-20, 20), false, false);
      double v = c->V();
      edge |= near_edge(v);
      worst = std::max(worst, expect(v, c->I()));
      vsum += v;
    }
    if (edge) return;
    double v = -1;
    const auto st = p->checkVoltage(v, false);
    cx.ok(st == worst, "module-worst-of-cells", fmt("%s status %d expected %d", n.shape().c_str(), (int)st, (int)worst));
    cx.eq(v, p->V(), 1e-12, 0, "module-voltage");
    if (!n.parallel && k % 4 < 2) cx.eq(v, vsum, 1e-12, 0, "module-voltage-sum");
    cx.ev("module-status-" + std::to_string((int)st));
  });
  // the documented meaning of every status
  cx.run("predicates", 1, [&](Rng &, int) {
    struct Row {
      Status s;
      char cls; // o: fine, s: success, w: warning, b: bad
      bool safe, vviol;
    };
    const Row t[] = {
      { Status::ReachedCurrentLimit, 'w', true, false }, { Status::ReachedVoltageLimit, 'w', true, false }, { Status::ReachedTimeLimit, 'w', true, false }, { Status::ReachedSmallCurrent, 'w', true, false },
      { Status::Invalid_Vset, 'w', true, false }, { Status::SafeVoltage, 'w', true, false }, { Status::Success, 's', true, false }, { Status::Vmin_violation, 'w', true, true }, { Status::Vmax_violation, 'w', true, true },
      { Status::VMIN_violation, 'b', true, true }, { Status::VMAX_violation, 'b', true, true }, { Status::VMINsafety_violation, 'b', false, true }, { Status::VMAXsafety_violation, 'b', false, true },
      { Status::V_not_calculated, 'b', false, false }, { Status::SOC_limits_violation, 'b', false, false }, { Status::Invalid_states, 'b', false, false }, { Status::Invalid_SUs, 'b', false, false },
      { Status::ParallelUnit_failed, 'b', false, false }, { Status::RedistributeCurrent_failed, 'b', false, false }, { Status::timeStep_CC_failed, 'b', false, false }, { Status::setVoltage_not_defined, 'b', false, false }, { Status::Unknown_problem, 'b', false, false },
    };
    for (auto &q : t) {
      const int id = (int)q.s;
      cx.ok(isStatusSuccessful(q.s) == (q.cls == 's'), "successful", fmt("%d", id));
      cx.ok(isStatusFailed(q.s) == (q.cls != 's'), "failed", fmt("%d", id));
      cx.ok(isStatusOK(q.s) == (q.cls != 'b'), "ok", fmt("%d", id));
      cx.ok(isStatusBad(q.s) == (q.cls == 'b'), "bad", fmt("%d", id));
      cx.ok(isStatusWarning(q.s) == (q.cls == 'w'), "warning", fmt("%d", id));
      cx.ok((isStatusSuccessful(q.s) + isStatusWarning(q.s) + isStatusBad(q.s)) == 1, "partition", fmt("%d", id));
      cx.ok(isStatusSafe(q.s) == q.safe, "safe", fmt("%d", id));
      cx.ok(isStatusVoltageLimitsViolated(q.s) == q.vviol, "voltage-limits", fmt("%d", id));
      cx.ok(isCCLimitReached(q.s) == (q.s == Status::ReachedVoltageLimit || q.s == Status::ReachedTimeLimit), "cc-limit", fmt("%d", id));
      cx.ok(isCVLimitReached(q.s) == (q.s == Status::ReachedCurrentLimit || q.s == Status::ReachedTimeLimit), "cv-limit", fmt("%d", id));
      cx.ok(isCurrentLimitReached(q.s) == (q.s == Status::ReachedCurrentLimit), "current-limit", fmt("%d", id));
      cx.ok(isVoltageLimitReached(q.s) == (q.s == Status::ReachedVoltageLimit), "voltage-limit", fmt("%d", id));
      cx.ok(getStatusMessage(q.s) && *getStatusMessage(q.s), "message", fmt("%d", id));
      const std::string m = getStatusMessage(q.s);
      cx.ok(m != getStatusMessage((Status)100), "message-of-the-unknown", fmt("%d: %s", id, m.c_str()));
      for (auto &o : t)
        if (o.s != q.s) cx.ok(m != getStatusMessage(o.s), "message-shared", fmt("%d and %d: %s", id, (int)o.s, m.c_str()));
      cx.ev("predicate-rows");
    }
  });
}
