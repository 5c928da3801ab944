// T01: heat balance of cells, modules and batteries (built with the thermal models switched on),
// and T02 as seen from inside a tree: which temperatures the cooling systems act on.
#include "vm.hpp"
#include "refspm.hpp"
#include "refcool.hpp"
#include "system/Battery.hpp"
#include "power_conversion/Converter.hpp"
using namespace vm;
using vh::Ctx;
#include <map>

namespace {
constexpr double CELL_A = 0.02, MOD_A = 0.042, K_CC = 5, TENV = 288;
double cell_heat_capacity(double capf) { return 1626 * 750 * 1.685e-4 * 0.62 * capf; }
constexpr int MODE = settings::T_MODEL;

struct Rig {
  Node n;
  std::unique_ptr<Battery> bat;
  SU su;
  StorageUnit *root{}; // battery or top module
  StorageUnit *top{};  // top module
  std::map<StorageUnit *, const Node *> node;
  double Cbat{};
  std::vector<Cell *> cells;
};
void cooling(Rng &r, Node &n, int type)
{
  if (n.leaf) return;
  n.cool = type;
  n.Tm = r.p(0.3) ? 288 : r.u(280, 315);
  for (auto &c : n.ch) cooling(r, c, r.p(0.3) ? 2 : 0);
}
Rig make_rig(Rng &r, bool battery, int maxcells = 8)
{
  Rig g;
  Opt o;
  o.maxcells = maxcells;
  o.maxdepth = r.i(1, 3);
  o.ecm = false;
  o.deg = r.p(0.3);
  o.mt = r.p(0.3);
  o.Tlo = 280;
  o.Thi = 322;
  g.n = random_tree(r, o);
  if (r.p(0.2)) { // everything at one temperature
    const double T = r.u(285, 318);
    std::function<void(Node &)> f = [&](Node &m) { m.T = m.Tm = T; for (auto &c : m.ch) f(c); };
    cooling(r, g.n, 1);
    f(g.n);
  } else
    cooling(r, g.n, 1);
  auto m = [&] {
    if (battery) g.n.cool = r.p(0.5) ? 2 : 0;
    return build_module(g.n);
  }();
  g.top = m.get();
  if (battery) {
    g.bat = std::make_unique<Battery>("bat");
    g.bat->setModule(Deep_ptr<Module>(std::move(m)));
    g.root = g.bat.get();
    Converter conv; // ancillary load the battery's cooling is designed for
    const double Q0 = 2 * conv.getLosses(g.bat->Vmax(), g.bat->Cap()), N = g.n.ncells();
    g.Cbat = 1.225 * 1005 * N * (7.5 * N + Q0) / (7.5 * N);
    g.bat->setT(r.u(283, 305));
  } else {
    g.su = SU(std::unique_ptr<StorageUnit>(std::move(m)));
    g.root = g.top;
  }
  zip(g.n, g.top, [&](const Node &a, StorageUnit *p) { g.node[p] = &a; });
  g.cells = vm::cells(g.top);
  return g;
}
double coolant_capacity(const Node &n) { return 1.225 * 1005 * n.ncells(); }
double surface(const Node &n) { return n.leaf ? CELL_A : MOD_A * n.ncells(); }

struct Exp {
  std::map<StorageUnit *, double> T0, E, C, heat; // temperature before, energy received, heat capacity, heat generated in cells
  double Qgen{}, Qcontact{}, Qac{}, Qconv{};
};
} // namespace

VH_PROP(T01)
{
  auto &c = cx;
  const auto &R = ref::SPM::get();
  // ---- a cell on its own ----
  c.run("lone-cell", c.scale(150, 1500), [&](Rng &r, int k) {
    DEG_ID d = r.p(0.3) ? deg_rand(r) : deg_none();
    CellBox b = rand_spm(r, r.u(0.3, 0.7), d, r.p(0.1) ? 288 : r.u(274, 330));
    auto *s = b.spm();
    auto twin = std::make_unique<Cell_SPM>("twin", deg_none(), b.capf, 1, 1, 1);
    twin->setBlockDegAndTherm(true);
    const double C = cell_heat_capacity(b.capf);
    double q = 0;
    const int n = r.i(3, 20);
    for (int i = 0; i < n; i++) {
      const bool rest = r.p(0.2), blocked = r.p(0.15);
      const bool many = r.p(0.12); // a long batch of short steps
      const double dt = many ? r.logu(0.02, 0.5) : r.logu(0.05, 2), crate = rest ? 0 : r.u(0.02, 3) * r.sgn();
      const int ns = many ? r.i(41, 300) : r.i(1, 15);
      if (many) c.ev("long-batches");
      double I = crate * b.cap;
      if (std::fabs(q + crate * dt * ns / 3600) > 0.1) I = -I;
      q += I / b.cap * dt * ns / 3600;
      s->setCurrent(I, false, false);
      s->setBlockDegAndTherm(blocked);
      const double T0 = s->T(), H0 = s->thermal_getTotalHeat();
      set_states(*twin, states(*s), false);
      twin->timeStep_CC(dt, ns);
      const double heat = R.eval(twin->getStateObj(), b.capf).heat * dt * ns;
      s->timeStep_CC(dt, ns);
      const std::string what = fmt("cell at %.2f C, %.3g A, %d x %.3g s", T0 - 273, I, ns, dt);
      if (blocked) {
        c.eq(s->T(), T0, 0, 0, "blocked-temperature", what);
        c.eq(s->thermal_getTotalHeat(), H0, 0, 0, "blocked-heat", what);
        c.ev("blocked-steps");
        continue;
      }
      c.eq(s->thermal_getTotalHeat() - H0, heat, 1e-6, 1e-9 * (1 + std::fabs(H0)), "heat-generated", what);
      const double cooled = 45 * CELL_A * (TENV - T0) * dt * ns;
      c.eq((s->T() - T0) * C, heat + cooled, 1e-6, 1e-9 * C, "heat-balance", what);
      if (rest) {
        const double a = T0 - TENV, z = s->T() - TENV;
        c.ok(std::fabs(z) <= std::fabs(a) + 1e-9 && a * z >= -1e-9, "rest-does-not-settle", what + fmt(" -> %.4f", z));
        c.ev("rests");
      } else
        c.ev(I > 0 ? "discharging" : "charging");
      c.ev("cell-steps");
      c.seen("cell-temperatures", (uint64_t)(s->T() * 10));
    }
    // a long rest ends at the temperature of the environment
    s->setBlockDegAndTherm(false);
    s->setCurrent(0, false, false);
    for (int i = 0; i < 80; i++) s->timeStep_CC(2, 20);
    c.eq(s->T(), TENV, 0, 1e-5, "settled-temperature", fmt("after %d s", 80 * 40));
    c.seen("cells", vh::hmix(vh::hd(s->T()), bits(states(*s))));
  });

  // ---- trees of modules, with and without a battery around them ----
  auto tree = [&](Rng &r, bool battery) {
    Rig g = make_rig(r, battery);
    double budget = 0;
    const int n = r.i(3, 14);
    std::vector<std::unique_ptr<Cell_SPM>> twins;
    for (auto *cell : g.cells) {
      twins.push_back(std::make_unique<Cell_SPM>("twin", deg_none(), g.node[cell]->capf, 1, 1, 1));
      twins.back()->setBlockDegAndTherm(true);
    }
    const auto mods = modules(g.top);
    CoolSystem_HVAC *ac = battery ? g.bat->getCoolSystem() : dynamic_cast<CoolSystem_HVAC *>(static_cast<Module *>(g.top)->getCoolSystem());
    c.ok(ac != nullptr, "no-air-conditioner", g.n.shape());
    if (!ac) return;
    for (int i = 0; i < n; i++) {
      auto d = random_drive(r, g.n.capacity(), budget, 2.0, 1.5);
      if (r.p(0.15)) d.I = 0;
      if (r.p(0.08)) {
        const int f = r.i(10, 80);
        d.n *= f, d.dt /= f;
        c.ev("long-batches");
      }
      const std::string what = fmt("%s%s step %d, %.3g A, %d x %.3g s", battery ? "battery " : "", g.n.shape().c_str(), i, d.I, d.n, d.dt);
      if (!isStatusSuccessful(g.root->setCurrent(d.I, false, false))) {
        c.inconclusive++;
        return;
      }
      const double t = d.dt * d.n;
      const bool blocked = r.p(0.12);
      g.root->setBlockDegAndTherm(blocked);
      // what must happen
      Exp x;
      std::map<StorageUnit *, double> H0;
      for (auto &[p, nd] : g.node) x.T0[p] = p->T(), x.C[p] = nd->leaf ? cell_heat_capacity(nd->capf) : coolant_capacity(*nd);
      if (battery) x.T0[g.root] = g.root->T(), x.C[g.root] = g.Cbat;
      for (size_t j = 0; j < g.cells.size(); j++) {
        set_states(*twins[j], states(*g.cells[j]), false);
        twins[j]->timeStep_CC(d.dt, d.n);
        const double h = R.eval(twins[j]->getStateObj(), g.node[g.cells[j]]->capf).heat * t;
        x.E[g.cells[j]] += h;
        x.heat[g.cells[j]] = h;
        x.Qgen += h;
        H0[g.cells[j]] = static_cast<Cell_SPM *>(g.cells[j])->thermal_getTotalHeat();
      }
      auto flow = [&](StorageUnit *a, StorageUnit *b, double kA) { // heat from a to b
        const double Q = kA * (x.T0[a] - x.T0[b]) * t;
        x.E[a] -= Q, x.E[b] += Q;
      };
      std::map<StorageUnit *, double> Ech, evac0, abs0; // heat handed to the coolant of each part by its members, and the totals it has recorded
      auto coolant = [&](StorageUnit *p) -> CoolSystem * { return battery && p == g.root ? g.bat->getCoolSystem() : static_cast<Module *>(p)->getCoolSystem(); };
      std::vector<StorageUnit *> cooled(mods.begin(), mods.end());
      if (battery) cooled.push_back(g.root);
      for (auto *p : cooled) evac0[p] = coolant(p)->getHeatEvac(), abs0[p] = coolant(p)->getHeatabsorbed();
      std::map<StorageUnit *, double> I0;
      for (auto &[p, nd] : g.node) I0[p] = p->I();
      const double topflow = static_cast<Module *>(g.top)->getCoolSystem()->getFlr();
      if (battery) {
        RefCool rc(1, g.n.ncells(), g.n.coolctl, 0);
        rc.flow = ac->getFlr();
        flow(g.root, g.top, rc.h() * surface(g.n));
        Ech[g.root] += rc.h() * surface(g.n) * (x.T0[g.top] - x.T0[g.root]) * t;
      }
      const double ac0 = ac->getQcoolAC_tot(), conv0 = battery ? g.bat->getConvLosses_total() : 0;
      double hot = 0, cold = 1e9;
      for (auto &[p, T] : x.T0) hot = std::max(hot, T), cold = std::min(cold, T);
      // flows and temperatures before, for the controllers
      try {
        if (battery) g.bat->timeStep_CC(d.dt, d.n);
        else g.top->timeStep_CC(d.dt, d.n);
      } catch (int e) {
        c.inconclusive++;
        return;
      }
      if (blocked) {
        for (auto &[p, T] : x.T0) c.eq(p->T(), T, 0, 0, "blocked-temperature", what);
        for (auto *cell : g.cells) c.eq(static_cast<Cell_SPM *>(cell)->thermal_getTotalHeat(), H0[cell], 0, 0, "blocked-heat", what);
        c.ev("blocked-steps");
        continue;
      }
      for (auto *m : mods) {
        const Node &nd = *g.node[m];
        RefCool rc(nd.cool, nd.ncells(), nd.coolctl, 0);
        rc.flow = m == g.root ? topflow : m->getCoolSystem()->getFlr(); // members adapt their flow before heat is exchanged, the top afterwards
        const double h = rc.h();
        const size_t N = m->getNSUs();
        for (size_t j = 0; j < N; j++) {
          auto *s = (*m)[j].get();
          const double A = std::min(surface(nd), surface(nd.ch[j]));
          if (MODE == 2) {
            const double kA = (h + (j == 0 ? K_CC : 0) + (j + 1 == N ? K_CC : 0)) * A;
            flow(m, s, kA);
            Ech[m] += kA * (x.T0[s] - x.T0[m]) * t;
            if (j + 1 < N) flow(s, (*m)[j + 1].get(), K_CC * std::min(surface(nd.ch[j]), surface(nd.ch[j + 1])));
          } else if (nd.ch[j].leaf)
            x.E[s] += 45 * CELL_A * (TENV - x.T0[s]) * t;
          double Ir = I0[m];
          if (nd.parallel) {
            Ir = 0;
            for (size_t l = j; l < N; l++) Ir += I0[(*m)[l].get()];
          }
          const double q = nd.Rc[j] * Ir * Ir * t;
          x.Qcontact += q;
          if (MODE == 2) x.E[m] += q, Ech[m] += q;
        }
      }
      x.Qac = ac->getQcoolAC_tot() - ac0;
      x.Qconv = battery ? g.bat->getConvLosses_total() - conv0 : 0;
      if (MODE == 2) x.E[g.root] += x.Qconv - x.Qac, Ech[g.root] += battery ? x.Qconv : 0;
      c.ok(x.Qac >= -1e-9 * (1 + ac0), "ac-heats", what);
      if (x.Qac > 0) c.ev("air-conditioned-steps");
      // every part of the tree
      double stored = 0, Qgen = 0, scale = 1, heat_abs = 0;
      for (auto *cell : g.cells) {
        const double h = static_cast<Cell_SPM *>(cell)->thermal_getTotalHeat() - H0[cell];
        c.eq(h, x.heat[cell], 1e-6, 1e-9 * (1 + std::fabs(H0[cell])), "heat-generated", what);
        Qgen += h;
        scale += std::fabs(h);
        heat_abs += std::fabs(h);
      }
      for (auto &[p, T] : x.T0) {
        const double dT = p->T() - T, tol = 1e-6 * std::fabs(x.heat.count(p) ? x.heat[p] : 0) / x.C[p] + 1e-9 + (1e-9 * (ac0 + conv0) + (p == g.root ? 1e-5 * x.Qconv : 0)) / x.C[p]; // (the converter's losses are taken at slightly different voltages)
        c.eq(dT, x.E[p] / x.C[p], 1e-9, tol, x.heat.count(p) ? "cell-temperature" : p == g.root ? "top-temperature" : "module-temperature", what + " of " + p->getFullID());
        stored += dT * x.C[p];
        scale += std::fabs(dT) * x.C[p];
      }
      if (MODE == 2)
        for (auto *p : cooled) {
          const double tol = 1e-9 * (1 + std::fabs(evac0[p]) + std::fabs(abs0[p]) + x.C[p]) + 1e-9 * (ac0 + conv0) + (p == g.root ? 1e-5 * x.Qconv : 0);
          c.eq(coolant(p)->getHeatEvac() - evac0[p], Ech[p], 1e-7, tol, "heat-from-members", what + " of " + p->getFullID());
          c.eq(coolant(p)->getHeatabsorbed() - abs0[p], x.E[p], 1e-7, tol, "heat-absorbed", what + " of " + p->getFullID());
          c.ev("coolant-accounts");
        }
      if (MODE == 2) {
        const double slack = heat_abs / cell_heat_capacity(0.8) + x.Qcontact / 1231;
        c.eq(stored, Qgen + x.Qcontact + x.Qconv - x.Qac, 1e-7, 1e-7 * scale + 1e-8 * (ac0 + conv0) + 1e-5 * x.Qconv, "heat-balance", what);
        if (d.I == 0 && !battery) {
          double nh = 0, nc = 1e9;
          for (auto &[p, T] : x.T0) nh = std::max(nh, p->T()), nc = std::min(nc, p->T());
          c.le(nh, hot + std::fabs(slack), 1e-9, "hotter-at-rest", what);
          c.le(cold - x.Qac / x.C[g.root] - std::fabs(slack), nc, 1e-9, "colder-at-rest", what);
          c.ev("rests");
        }
      }
      c.ev("tree-steps");
      if (battery) c.ev("battery-steps");
      if (mods.size() > 1) c.ev("nested-steps");
      c.seen("cell-temperatures", (uint64_t)(g.cells[0]->T() * 10));
    }
    c.seen("trees", vh::hmix(std::hash<std::string>{}(g.n.shape()), vh::hd(g.cells[0]->T())));
  };
  c.run("tree", c.scale(120, 1500), [&](Rng &r, int) { tree(r, false); });
  if (MODE == 2) c.run("battery", c.scale(80, 1000), [&](Rng &r, int) { tree(r, true); });
  // ---- a step which would take a part out of its legal temperatures is refused and does not block the next ----
  c.run("overheated-cell", c.scale(60, 600), [&](Rng &r, int) {
    const bool cold = r.p(0.2);
    CellBox b = rand_spm(r, r.u(0.35, 0.65), deg_none(), cold ? 288 : r.u(330, 332.99));
    auto *s = b.spm();
    const double C = cell_heat_capacity(b.capf);
    auto twin = std::make_unique<Cell_SPM>("twin", deg_none(), b.capf, 1, 1, 1);
    twin->setBlockDegAndTherm(true);
    for (int i = r.i(2, 8); i > 0; i--) {
      const double dt = r.u(0.05, 0.8), I = r.u(2, 28) * b.cap * r.sgn();
      const int ns = r.i(1, 6);
      if (!isStatusSuccessful(s->setCurrent(I, false, false))) {
        c.inconclusive++;
        return;
      }
      const double T0 = s->T(), H0 = s->thermal_getTotalHeat();
      set_states(*twin, states(*s), false);
      try {
        twin->timeStep_CC(dt, ns);
      } catch (int) { // out of lithium
        c.inconclusive++;
        return;
      }
      const double heat = R.eval(twin->getStateObj(), b.capf).heat * dt * ns, Tn = T0 + (heat + 45 * CELL_A * (TENV - T0) * dt * ns) / C;
      const std::string what = fmt("cell at %.3f K, %.3g A, %d x %.3g s, should become %.6f K", T0, I, ns, dt, Tn);
      bool thrown = false;
      try {
        s->timeStep_CC(dt, ns);
      } catch (int) {
        thrown = true;
      }
      const double Tmax = s->Tmax();
      if (std::fabs(Tn - Tmax) > 1e-4) c.ok(thrown == (Tn > Tmax), thrown ? "legal-temperature-refused" : "illegal-temperature-accepted", what);
      c.le(s->T(), Tmax, 1e-9, "too-hot", what);
      if (thrown) {
        c.eq(s->T(), T0, 0, 0, "refused-temperature", what);
        c.eq(s->thermal_getTotalHeat() - H0, heat, 1e-6, 1e-9 * (1 + std::fabs(H0)), "heat-generated", what);
        c.ev("refused-steps");
        // the heat of the refused step does not come back
        s->setCurrent(0, false, false);
        set_states(*twin, states(*s), false);
        twin->timeStep_CC(1, 1);
        const double h = R.eval(twin->getStateObj(), b.capf).heat;
        try {
          s->timeStep_CC(1, 1);
        } catch (int e) {
          c.violation("blocked-after-refusal", fmt("exception %d ", e) + what);
          return;
        }
        c.eq((s->T() - T0) * C, h + 45 * CELL_A * (TENV - T0), 1e-6, 1e-9 * C, "heat-balance-after-refusal", what);
      } else
        c.eq(s->T(), Tn, 0, 1e-6, "cell-temperature", what);
    }
    c.seen("cells", vh::hmix(vh::hd(s->T()), bits(states(*s))));
  });
  c.run("overheated-tree", c.scale(80, 800), [&](Rng &r, int) {
    Rig g = make_rig(r, MODE == 2 && r.p(0.3), 6);
    int hot = 0;
    for (auto *cell : g.cells)
      if (r.p(0.4)) cell->setT(r.u(331, 332.99)), hot++;
    for (int i = r.i(2, 6); i > 0; i--) {
      const double I = r.u(2, 20) * g.n.capacity() * r.sgn(), dt = r.u(0.05, 0.6);
      const int ns = r.i(1, 5);
      if (!isStatusSuccessful(g.root->setCurrent(I, false, false))) {
        c.inconclusive++;
        return;
      }
      const std::string what = fmt("%s, %d hot cells, %.3g A, %d x %.3g s", g.n.shape().c_str(), hot, I, ns, dt);
      bool thrown = false;
      try {
        g.root->timeStep_CC(dt, ns);
      } catch (int) {
        thrown = true;
      }
      for (auto &[p, nd] : g.node) c.ok(p->T() >= 273 && p->T() <= (nd->leaf ? 333 + 1e-9 : 348.15), "illegal-temperature", what + fmt(": %.4f K", p->T()));
      c.ev("hot-tree-steps");
      if (!thrown) continue;
      c.ev("refused-tree-steps");
      g.root->setCurrent(0, false, false);
      for (int k = 0; k < 6; k++) try {
          g.root->timeStep_CC(1, 2);
        } catch (int e) {
          c.violation("blocked-after-refusal", fmt("exception %d in resting step %d after ", e, k) + what);
          return;
        }
    }
    c.seen("trees", vh::hmix(std::hash<std::string>{}(g.n.shape()), vh::hd(g.cells[0]->T())));
  });
  // ---- left alone, everything ends up at one temperature ----
  c.run("settle", c.scale(6, 40), [&](Rng &r, int k) {
    Rig g = make_rig(r, false, 4);
    auto spread = [&] {
      double hot = 0, cold = 1e9;
      for (auto &[p, nd] : g.node)
        if (MODE == 2 || nd->leaf) hot = std::max(hot, p->T()), cold = std::min(cold, p->T());
      return hot - cold;
    };
    const double s0 = spread();
    g.root->setCurrent(0, false, false);
    try {
      for (int i = 0; i < (MODE == 2 ? 3000 : 150); i++) g.root->timeStep_CC(2, 10);
    } catch (int) {
      c.inconclusive++;
      return;
    }
    c.le(spread(), MODE == 2 ? 0.5 + 0.05 * s0 : 1e-2, 0, "does-not-settle", fmt("%s spread %.3f -> %.3f", g.n.shape().c_str(), s0, spread()));
    if (MODE == 1)
      for (auto *cell : g.cells) c.eq(cell->T(), TENV, 0, 1e-2, "settled-temperature", g.n.shape());
    c.ev("settled");
  });
}

VH_PROP(T02)
{
  auto &c = cx;
  // which temperatures each cooling system in a tree reacts to
  c.run("tree-control", c.scale(120, 1500), [&](Rng &r, int k) {
    Rig g = make_rig(r, r.p(0.3));
    const auto mods = modules(g.top);
    double budget = 0;
    struct S {
      CoolSystem *cs;
      RefCool a, b;
      std::function<double()> local, global;
      std::string id;
    };
    std::vector<S> v;
    for (auto *m : mods) {
      S s;
      s.cs = m->getCoolSystem();
      const Node &nd = *g.node[m];
      s.a = RefCool(nd.cool, nd.ncells(), nd.coolctl, 0);
      s.local = [m] { double T = 0; for (auto &q : m->getSUs()) T = std::max(T, q->T()); return T; };
      s.global = [m] { double T = 0; walk(m, [&](StorageUnit *q) { T = std::max(T, q->T()); }); return T; };
      s.id = m->getFullID();
      v.push_back(s);
    }
    if (g.bat) {
      S s;
      s.cs = g.bat->getCoolSystem();
      s.a = RefCool(1, g.n.ncells(), g.n.coolctl, 0);
      auto *b = g.bat.get();
      s.local = [b] { double T = 0; for (auto &q : b->getCells()->getSUs()) T = std::max(T, q->T()); return T; };
      s.global = [b] { double T = b->T(); walk(b->getCells(), [&](StorageUnit *q) { T = std::max(T, q->T()); }); return T; };
      s.id = "battery";
      v.push_back(s);
    }
    for (int i = 0; i < r.i(4, 20); i++) {
      auto d = random_drive(r, g.n.capacity(), budget, 2.0, 1.5);
      if (r.p(0.3)) // some part gets hot or cold
        for (auto *cell : g.cells)
          if (r.p(0.5)) cell->setT(r.u(285, 325));
      if (!isStatusSuccessful(g.root->setCurrent(d.I, false, false))) { c.inconclusive++; return; }
      for (auto &s : v) s.a.flow = s.cs->getFlr(), s.b = s.a, s.a.T = s.b.T = s.cs->T();
      // children decide before their parent updates the temperatures, the top afterwards: allow both
      std::vector<std::array<double, 2>> before;
      for (auto &s : v) before.push_back({ s.local(), s.global() });
      try {
        if (g.bat) g.bat->timeStep_CC(d.dt, d.n);
        else g.top->timeStep_CC(d.dt, d.n);
      } catch (int) {
        c.inconclusive++;
        return;
      }
      for (size_t j = 0; j < v.size(); j++) {
        auto &s = v[j];
        s.a.control(before[j][0], before[j][1]);
        s.b.control(s.local(), s.global());
        const double f = s.cs->getFlr(), lo = std::min(s.a.flow, s.b.flow), hi = std::max(s.a.flow, s.b.flow);
        const bool amb = s.a.flow_ambiguous || s.b.flow_ambiguous;
        const bool same = std::fabs(f - s.a.flow) <= 1e-9 * s.a.flowmax || std::fabs(f - s.b.flow) <= 1e-9 * s.a.flowmax;
        c.ok(amb || same || (f >= lo && f <= hi && f > 0), "tree-flow", fmt("%s in %s control %d: flow %g, expected %g or %g (local %.3f -> %.3f, hot spot %.3f -> %.3f C)", s.id.c_str(), g.n.shape().c_str(), s.a.ctl, f, s.a.flow, s.b.flow, before[j][0] - 273, s.local() - 273, before[j][1] - 273, s.global() - 273));
        c.ev(fmt("tree-control-%d", s.a.ctl).c_str());
      }
    }
  });
}
