// F01: what the factories build.
#include "vm.hpp"
#include "refcool.hpp"
#include "factories/makeBattery.hpp"
#include "system/Battery.hpp"
#include <memory>
using namespace vm;
using vh::Ctx;

namespace {
struct Level {
  bool parallel;
  int n, cool; // members; kind of cooling system (0 its own fan, 2 pass-through)
  double Rc;   // contact resistance when they are switched on
};
struct Spec {
  const char *name, *suffix;
  std::vector<Level> lv; // from the outside in
  bool RM; // contact resistances scale with the multiplier
};
const std::vector<Spec> &specs()
{
  static const std::vector<Spec> s{
    { "makeBattery", "_pss", { { true, 9, 2, 2e-4 }, { false, 15, 2, 1e-4 }, { false, 20, 0, 1e-4 } }, false },
    { "makeBattery2", "_ssp", { { false, 20, 2, 1e-4 }, { false, 15, 2, 1e-4 }, { true, 9, 0, 2e-4 } }, false },
    { "makeBattery_EPFL_smaller", "_EPFL", { { true, 2, 2, 2.5e-4 }, { false, 3, 2, 2.5e-4 }, { false, 3, 0, 7.5e-6 }, { true, 7, 2, 7.5e-6 } }, true },
    { "makeBattery_EPFL", "_EPFL", { { true, 9, 2, 2.5e-4 }, { false, 15, 2, 2.5e-4 }, { false, 20, 0, 7.5e-6 }, { true, 7, 2, 7.5e-6 } }, true },
    { "makeBattery_Test", "_EPFL", { { true, 3, 2, 2.5e-4 }, { false, 2, 2, 2.5e-4 }, { false, 4, 0, 7.5e-6 }, { true, 3, 2, 7.5e-6 } }, true },
    { "makeBattery_TestParallel", "_ParTest", { { true, 3, 2, 7.5e-6 } }, true },
  };
  return s;
}
struct Args {
  bool cap, res, deg, contact;
  int cool;
  double RM;
  std::string id;
};
SU call(int f, const Args &a)
{
  switch (f) {
  case 0: return makeBattery(false, a.cap, a.res, a.deg, a.contact, a.cool);
  case 1: return makeBattery2(false, a.cap, a.res, a.deg, a.contact, a.cool);
  case 2: return makeBattery_EPFL_smaller(a.cap, a.res, a.deg, a.contact, a.cool, a.id, a.RM);
  case 3: return makeBattery_EPFL(a.cap, a.res, a.deg, a.contact, a.cool, a.id, a.RM);
  case 4: return makeBattery_Test(a.cap, a.res, a.deg, a.contact, a.cool, a.id, a.RM);
  default: return makeBattery_TestParallel(a.cap, a.res, a.deg, a.contact, a.cool, a.id, a.RM);
  }
}
} // namespace

VH_PROP(F01)
{
  auto &c = cx;
  auto one = [&](Rng &r, int f) {
    const auto &s = specs()[f];
    Args a{ r.p(0.5), r.p(0.5), r.p(0.5), r.p(0.6), r.i(1, 5), 1.0, "" };
    if (s.RM) a.RM = r.p(0.4) ? 1 : r.logu(0.2, 5), a.id = r.p(0.5) ? "" : "_x" + std::to_string(r.i(0, 99));
    const auto what = fmt("%s spread %d%d%d contact %d cool %d RM %.3g", s.name, a.cap, a.res, a.deg, a.contact, a.cool, a.RM);
    auto su = call(f, a);
    auto *b = as<Battery>(su.get());
    if (!c.ok(b && b->getCells() && b->getCoolSystem(), "not-a-battery", what)) return;
    // identity
    const auto id = b->getFullID();
    c.ok(id.rfind(s.suffix) == id.size() - strlen(s.suffix) && id.find("cool" + std::to_string(a.cool)) == 0, "battery-name", id + " " + what);
    c.ok((id.find("_capSpread") != std::string::npos) == a.cap && (id.find("_RSpread") != std::string::npos) == a.res && (id.find("_degSpread") != std::string::npos) == a.deg && (id.find("_contactR") != std::string::npos) == a.contact, "battery-name", id + " " + what);
    if (!a.id.empty()) c.ok(id.find(a.id) != std::string::npos, "battery-name", id + " " + what);
    c.ok(b->getCells()->getParent() == b && b->getParent() == nullptr, "parent-link", what);
    c.ok(b->getCoolSystem()->getControl() == a.cool && typeid(*b->getCoolSystem()) == typeid(CoolSystem_HVAC), "battery-cooling", what);
    // structure
    std::set<std::string> ids;
    std::vector<Cell_SPM *> cs;
    std::vector<double> Rtot;
    size_t ncells = 1;
    for (auto &l : s.lv) ncells *= l.n;
    std::function<double(StorageUnit *, size_t)> walk = [&](StorageUnit *p, size_t d) -> double { // resistance from the documented parts
      c.ok(ids.insert(p->getFullID()).second, "duplicate-identity", p->getFullID() + " " + what);
      if (d == s.lv.size()) {
        auto *x = as<Cell_SPM>(p);
        if (!c.ok(x != nullptr, "not-a-cell", p->getFullID() + " " + what)) return 0;
        cs.push_back(x);
        return x->getRtot();
      }
      const auto &l = s.lv[d];
      auto *m = as<Module>(p);
      if (!c.ok(m && (l.parallel ? as<Module_p>(p) != nullptr : as<Module_s>(p) != nullptr), "module-kind", fmt("level %zu ", d) + what)) return 0;
      if (!c.ok((int)m->getNSUs() == l.n, "member-count", fmt("level %zu: %zu members instead of %d ", d, m->getNSUs(), l.n) + what)) return 0;
      auto *cool = m->getCoolSystem();
      if (c.ok(cool != nullptr, "no-cooling", what)) {
        c.ok(typeid(*cool) == (l.cool == 0 ? typeid(CoolSystem) : typeid(CoolSystem_open)), "cooling-kind", fmt("level %zu: %s ", d, typeid(*cool).name()) + what);
        c.ok(cool->getControl() == a.cool, "cooling-control", what);
        c.eq(m->T(), settings::T_ENV, 1e-12, 0, "module-temperature", what);
        // made for the cells below it: the volume of coolant and the flow of the fan
        size_t below = 1;
        for (size_t j = d; j < s.lv.size(); j++) below *= s.lv[j].n;
        RefCool ref(l.cool, below, a.cool, 0);
        std::unique_ptr<CoolSystem> cp(cool->copy());
        const double E = 1000.0 * below, T0 = cp->T();
        c.eq(cp->dstate(E, E, 10) - T0, E / ref.heat_capacity(), 1e-6, 0, "cooling-size", fmt("level %zu ", d) + what);
        cp->setT(C_to_Kelvin(40));
        cp->control(C_to_Kelvin(40), C_to_Kelvin(40));
        ref.T = C_to_Kelvin(40);
        ref.control(C_to_Kelvin(40), C_to_Kelvin(40));
        if (!ref.flow_ambiguous) c.eq(cp->getFlr(), ref.flow, 1e-9, 0, "cooling-flow", fmt("level %zu ", d) + what);
      }
      const double Rc = a.contact ? l.Rc * a.RM : 0;
      double R = 0;
      std::vector<double> ch;
      for (auto &x : m->getSUs()) {
        c.ok(x->getParent() == m, "parent-link", fmt("level %zu ", d) + what);
        ch.push_back(walk(x.get(), d + 1));
      }
      if (l.parallel) {
        R = Rc + ch.back();
        for (int i = (int)ch.size() - 2; i >= 0; i--) R = Rc + 1 / (1 / R + 1 / ch[i]);
      } else
        for (double x : ch) R += x + Rc;
      c.eq(m->getRtot(), R, 1e-9, 0, "contact-resistance", fmt("level %zu ", d) + what);
      c.ev("modules-checked");
      return R;
    };
    const double R = walk(b->getCells(), 0);
    c.eq(b->getRtot(), R, 1e-9, 0, "contact-resistance", "battery " + what);
    c.ok(cs.size() == ncells && b->getNcells() == ncells, "cell-count", fmt("%zu cells, reports %zu, documented %zu ", cs.size(), b->getNcells(), ncells) + what);
    if (cs.size() != ncells || cs.empty()) return;
    // members
    double V = 1, Vn = 1, np = 1;
    for (auto &l : s.lv) (l.parallel ? np : Vn) *= l.n;
    (void)V;
    double capmin = 1e9, capmax = 0;
    std::array<double, 4> m{}, q{};
    std::array<std::set<double>, 4> val;
    for (auto *x : cs) {
      const auto v = x->getVariations();
      for (int i = 0; i < 4; i++) m[i] += v[i], val[i].insert(v[i]);
      capmin = std::min(capmin, x->Cap()), capmax = std::max(capmax, x->Cap());
      c.eq(x->T(), settings::T_ENV, 1e-12, 0, "cell-temperature", what);
    }
    const double N = ncells;
    for (auto &x : m) x /= N;
    for (auto *x : cs) {
      const auto v = x->getVariations();
      for (int i = 0; i < 4; i++) q[i] += (v[i] - m[i]) * (v[i] - m[i]) / N;
    }
    const double sd[4]{ 0.004, 0.025, 0.10, 0.10 };
    const bool on[4]{ a.cap, a.res, a.deg, a.deg };
    const char *nm[4]{ "capacity", "resistance", "SEI rate", "LAM rate" };
    for (int i = 0; i < 4; i++) {
      if (!on[i]) {
        c.ok(val[i].size() == 1 && *val[i].begin() == 1, "variation-although-off", std::string(nm[i]) + " " + what);
        continue;
      }
      c.eq(m[i], 1, 0, 5 * sd[i] / std::sqrt(N), "variation-mean", std::string(nm[i]) + " " + what);
      const double w = 5 / std::sqrt(2 * N);
      if (N > 50) c.ok(std::sqrt(q[i]) > sd[i] * (1 - w) && std::sqrt(q[i]) < sd[i] * (1 + w), "variation-spread", fmt("%s: standard deviation %.4g, documented %.4g; ", nm[i], std::sqrt(q[i]), sd[i]) + what);
      c.ok(val[i].size() > 0.99 * N, "variation-not-per-cell", fmt("%s: %zu values for %zu cells ", nm[i], val[i].size(), cs.size()) + what);
      c.ev("spreads-checked");
    }
    if (N > 50) // drawn independently
      for (int i = 0; i < 4; i++)
        for (int j = i + 1; j < 4; j++)
          if (on[i] && on[j]) {
            double k = 0;
            for (auto *x : cs) {
              const auto v = x->getVariations();
              k += (v[i] - m[i]) * (v[j] - m[j]) / N;
            }
            c.le(std::fabs(k / std::sqrt(q[i] * q[j])), 5 / std::sqrt(N), 0, "variations-correlated", fmt("%s with %s ", nm[i], nm[j]) + what);
          }
    // reports and first use
    const double Vc = cs[0]->V();
    c.eq(b->V(), Vc * Vn, 1e-6, 0, "battery-voltage", what);
    c.le(capmin * np * (1 - 1e-12), b->Cap(), 0, "battery-capacity", what);
    c.le(b->Cap(), capmax * np * (1 + 1e-12), 0, "battery-capacity", what);
    c.ok(b->validStates(false), "invalid-at-birth", what);
    double v;
    c.ok(isStatusSuccessful(b->checkVoltage(v, false)), "invalid-at-birth", what);
    for (auto *x : cs) c.ok(x->I() == 0, "current-at-birth", what);
    if (ncells <= 200 || (f < 2 && r.p(c.thorough ? 0.2 : 0.1))) {
      const double I = b->Cap() * r.u(0.05, 0.3) * r.sgn();
      const auto st = b->setCurrent(I, true, false);
      c.ok(isStatusSuccessful(st), "cannot-be-used", fmt("status %d ", (int)st) + what);
      const auto soc0 = cs[0]->SOC();
      const auto lli0 = cs[0]->getStateObj().LLI();
      for (int i = 0; i < 3; i++) b->timeStep_CC(1, 2);
      c.eq(b->I(), I, 1e-6, 0, "current-when-used", what);
      c.ok((cs[0]->SOC() - soc0) * I < 0, "charge-when-used", what);
      c.ok(cs[0]->getStateObj().LLI() > lli0, "no-ageing", what); // every factory gives its cells an SEI model
      c.ev("batteries-used");
    }
    c.ev(fmt("built-%s", s.name));
    c.seen("configurations", vh::hs(what.c_str()));
  };
  c.run("small", c.scale(300, 4000), [&](Rng &r, int k) { one(r, k % 3 == 0 ? 2 : k % 3 == 1 ? 4 : 5); });
  c.run("large", c.scale(24, 240), [&](Rng &r, int k) { one(r, k % 2); });
  c.run("full", c.scale(2, 16), [&](Rng &r, int) { one(r, 3); });
}
