// S01: random sequences of calls to the whole public interface, well-behaved and hostile, under AddressSanitizer and
// UndefinedBehaviorSanitizer with the library's own assertions on.  What may not happen: a report, an abort, an exception
// of a kind callers cannot expect, a run that does not end, or memory still in use after everything was destroyed.
#include "vh.hpp"
#include "vm.hpp"
#include "factories/makeBattery.hpp"
#include "procedures/Cycler.hpp"
#include "procedures/Procedure.hpp"
#include "system/Battery.hpp"
#include "types/Histogram.hpp"
#include "utility/utility.hpp"
#include <filesystem>
#include <fstream>
#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#else
static size_t __sanitizer_get_current_allocated_bytes() { return 0; }
#endif
using namespace vm;
using vh::Ctx;
using vh::fmt;

namespace {
double wild(Rng &r, double scale)
{
  switch (r.i(0, 13)) {
  case 0: return 0;
  case 1: return -0.0;
  case 2: return scale * 1e6 * r.sgn();
  case 3: return 1e300 * r.sgn();
  case 4: return 1e-300 * r.sgn();
  case 5: return scale * 30 * r.sgn();
  case 6: return r.p(0.3) ? NAN : scale;
  case 7: return r.p(0.3) ? INFINITY * r.sgn() : -scale;
  default: return scale * r.u(-1.5, 1.5);
  }
}
struct World {
  Rng &r;
  std::string id; // unique to the case: everything it writes starts with it
  std::vector<SU> pool;
  uint64_t ops{ 0 }, thrown{ 0 }, refused{ 0 }, accepted{ 0 };
  std::set<int> kinds;
  bool hostile;
  int serial{ 0 };
  World(Rng &r, std::string id, bool h) : r(r), id(std::move(id)), hostile(h) {}
  std::string name(const char *p) { return id + p + std::to_string(serial++); }
  double cur(StorageUnit *p) { return hostile && r.p(0.3) ? wild(r, p->Cap()) : p->Cap() * (r.p(0.2) ? 0 : r.u(-1.5, 1.5)); }
  void note(Status s) { (isStatusBad(s) ? refused : accepted)++; }
  SU cell()
  {
    const int k = r.i(0, 9);
    const double soc = hostile && r.p(0.1) ? wild(r, 1) : r.u(0.02, 0.98);
    const double cap = hostile && r.p(0.05) ? wild(r, 16) : r.logu(1, 60);
    switch (k) {
    case 0: return SU(std::make_unique<Cell_Bucket>());
    case 1: return SU(std::make_unique<Cell_Bucket>(name("b"), cap, soc));
    case 2: return SU(std::make_unique<Cell_ECM<1>>());
    case 3: return SU(std::make_unique<Cell_ECM<1>>(name("e"), cap, soc));
    case 4: {
      const double R = 0.03 / std::fabs(cap);
      return SU(std::make_unique<Cell_ECM<2>>(name("f"), cap, soc, R, std::array<double, 2>{ R, R }, std::array<double, 2>{ 1 / 30., 1 / 300. }));
    }
    case 5: return SU(std::make_unique<Cell_SPM>());
    default: {
      DEG_ID d = deg_rand(r);
      auto c = std::make_unique<Cell_SPM>(name("s"), d, r.u(0.7, 1.3), r.u(0.5, 2), r.u(0.5, 2), r.u(0.5, 2));
      if (r.p(0.7)) spm_at(*c, r.u(0.05, 0.95), c->Cap() / 16);
      if (r.p(0.4)) age(*c, r);
      return SU(std::move(c));
    }
    }
  }
  StorageUnit *any()
  {
    if (pool.empty()) return nullptr;
    StorageUnit *p = pool[r.next() % pool.size()].get();
    if (r.p(0.3)) { // or a part of it
      std::vector<StorageUnit *> v;
      if (auto *b = as<Battery>(p)) {
        v.push_back(p);
        if (b->getCells()) walk(b->getCells(), [&](StorageUnit *q) { v.push_back(q); });
      } else
        walk(p, [&](StorageUnit *q) { v.push_back(q); });
      p = r.pick(v);
    }
    return p;
  }
  bool usable(StorageUnit *p) // modules without members and batteries without module cannot be operated
  {
    if (auto *b = as<Battery>(p)) return b->getCells() && usable(b->getCells());
    bool good = true;
    if (as<Module>(p))
      walk(p, [&](StorageUnit *q) { if (auto *m = as<Module>(q)) good = good && m->getNSUs() > 0; });
    return good;
  }
  static void look(StorageUnit *p)
  {
    std::vector<double> s;
    p->getStates(s);
    double x = 0, v;
    x += p->V() + p->I() + p->getOCV() + p->Cap() + p->getRtot() + p->T() + p->Vmin() + p->Vmax() + p->VMIN() + p->VMAX() + p->getVhigh() + p->getVlow() + p->getThotSpot() + p->getThermalSurface() + (double)p->getNcells();
    x += (int)p->checkVoltage(v, false);
    x += p->validStates(false);
    (void)p->viewStates();
    (void)p->getFullID();
    (void)p->getID();
    if (auto *c = as<Cell>(p)) {
      auto t = c->getThroughputs();
      x += c->SOC() + t.Ah() + c->getVariations()[0] + (int)c->checkCurrent(true, false);
    }
    if (auto *m = as<Module>(p)) x += m->getCoolingLoad();
    static volatile double sink;
    sink = x;
  }
  static int levels(StorageUnit *p) // of parallel modules inside each other: every one multiplies the cost of setting a current
  {
    if (auto *b = as<Battery>(p)) return b->getCells() ? levels(b->getCells()) : 0;
    auto *m = as<Module>(p);
    if (!m) return 0;
    int d = 0;
    for (size_t i = 0; i < m->getNSUs(); i++)
      if ((*m)[i]) d = std::max(d, levels((*m)[i].get()));
    return d + (as<Module_p>(p) ? 1 : 0);
  }
  void make_module()
  {
    const int n = r.i(0, 4);
    std::vector<SU> v;
    for (int i = 0; i < n; i++) {
      if (!pool.empty() && r.p(0.5)) {
        const size_t k = r.next() % pool.size();
        if (levels(pool[k].get()) > 1) continue;
        v.push_back(std::move(pool[k]));
        pool.erase(pool.begin() + k);
      } else
        v.push_back(cell());
      if (hostile && r.p(0.02)) v.back().reset();
    }
    const bool par = r.p(0.5), mt = r.p(0.1);
    const int ct = hostile && r.p(0.1) ? r.i(-1, 4) : r.p(0.6) ? 1 : r.p(0.5) ? 0 : 2;
    std::unique_ptr<Module> m;
    if (par)
      m = std::make_unique<Module_p>(name("p"), r.u(280, 310), true, mt, r.i(0, 6), r.i(hostile ? 0 : 1, 5), ct);
    else
      m = std::make_unique<Module_s>(name("s"), r.u(280, 310), true, mt, r.i(0, 6), r.i(hostile ? 0 : 1, 5), ct);
    m->setSUs(v, r.p(0.3), false);
    if (m->getNSUs() && r.p(0.5)) {
      std::vector<double> rc(m->getNSUs());
      for (auto &x : rc) x = hostile && r.p(0.1) ? wild(r, 1e-3) : r.u(0, 1e-4);
      m->setRcontact(rc);
    }
    pool.push_back(SU(std::unique_ptr<StorageUnit>(std::move(m))));
  }
  void make_battery()
  {
    for (size_t k = 0; k < pool.size(); k++)
      if (as<Module>(pool[k].get()) && usable(pool[k].get())) {
        auto b = std::make_unique<Battery>(name("B"));
        if (r.p(0.5)) b->setSeriesandParallel(r.i(1, 4), r.i(1, 4));
        Deep_ptr<Module> m(std::unique_ptr<Module>(as<Module>(pool[k].get())->copy()));
        b->setModule(std::move(m));
        if (r.p(0.2)) b->setSeriesandParallel(r.i(hostile ? 0 : 1, 4), r.i(hostile ? 0 : 1, 4));
        pool.push_back(SU(std::move(b)));
        return;
      }
  }
  void spm_calls(Cell_SPM *c)
  {
    switch (r.i(0, 9)) {
    case 0: c->setT(hostile && r.p(0.3) ? wild(r, 300) : r.u(270, 335)); break;
    case 1: c->setTenv(r.u(270, 335)); break;
    case 2: c->setC(hostile && r.p(0.5) ? wild(r, 1) : r.u(0.36, 0.95), hostile && r.p(0.5) ? wild(r, 1) : r.u(0.03, 0.8)); break;
    case 3: {
      double a, b;
      (void)c->getCSurf(a, b, false);
      break;
    }
    case 4: {
      double sp, sn;
      Cell_SPM::sigma_type s[6];
      c->getDaiStress(&sp, &sn, s[0], s[1], s[2], s[3], s[4], s[5]);
      c->updateDaiStress();
      c->getLaresgoitiStress(false, &sn);
      c->updateLaresgoitiStress(false);
      break;
    }
    case 5: (void)c->thermal_getTotalHeat(); (void)c->getRdc(); (void)c->getAnodeSurface(); break;
    case 6: c->setOCVcurve("Kokam_OCV_NMC.csv", "Kokam_OCV_C.csv"); break;
    case 7: c->setOCVcurve(r.p(0.5) ? "no_such_file.csv" : "Kokam_OCV_NMC.csv", "neither.csv"); break;
    case 8: c->setInitialConcentration(51385, 30555, r.u(0.4, 0.9), r.u(0.1, 0.7)); break;
    case 9: {
      auto st = c->getStateObj();
      if (hostile) st[r.i(0, (int)st.size() - 1)] = wild(r, 1);
      c->setStateObj(st);
      break;
    }
    }
  }
  void cycler(StorageUnit *p)
  {
    Cycler y(p, id + "cyc");
    if (r.p(0.4)) y.setDiagnostic(true);
    ThroughputData th{};
    const double cap = std::fabs(p->Cap()), tl = hostile && r.p(0.1) ? -r.u(0, 10) : r.u(0, 90), dt = r.u(0.3, 2.5);
    const double ns = p->Vmax() / 4.2;
    const double v = hostile && r.p(0.3) ? wild(r, 4 * ns) : ns * r.u(2.5, 4.4);
    const double I = r.u(-1, 1) * std::min(cap, 1e4);
    const int nd = r.p(0.5) ? 0 : r.i(-1, 8);
    switch (r.i(0, 5)) {
    case 0: note(y.rest(tl, dt, nd, th)); break;
    case 1: note(y.CC(I, v, tl, dt, nd, th)); break;
    case 2: note(y.CV(v, cap * 0.05, std::fabs(tl), dt, nd, th)); break;
    case 3: note(y.CCCV_with_tlim(I, v, cap * 0.05, std::fabs(tl), dt, nd, th)); break;
    case 4: {
      std::vector<double> prof(r.i(0, 30));
      for (auto &x : prof) x = r.u(-1, 1) * std::min(cap, 1e4);
      double Ah{}, Wh{};
      note(y.Profile(prof, v, tl, dt, nd, Ah, Wh));
      break;
    }
    case 5: y.storeData(); y.writeData(); break;
    }
  }
  void op()
  {
    ops++;
    const int o = r.i(0, 27);
    kinds.insert(o);
    if (pool.size() > 8) pool.erase(pool.begin() + r.next() % pool.size());
    if (pool.empty() || o <= 2) {
      pool.push_back(cell());
      return;
    }
    if (o == 3 || o == 4) return make_module();
    if (o == 5) return make_battery();
    StorageUnit *p = any();
    if (!usable(p)) return;
    switch (o) {
    case 6:
    case 7:
    case 8: note(p->setCurrent(cur(p), r.p(0.7), false)); break;
    case 9: note(p->setVoltage(hostile && r.p(0.3) ? wild(r, 4) : p->V() + r.u(-0.05, 0.05), r.p(0.5), false)); break;
    case 10:
    case 11:
    case 12:
    case 13: p->timeStep_CC(hostile && r.p(0.15) ? wild(r, 100) : r.p(0.3) ? 1 : r.u(0, 3), hostile && r.p(0.1) ? r.i(-3, 0) : r.i(1, 12)); break;
    case 14: {
      std::vector<double> s;
      p->getStates(s);
      if (r.p(0.5) && !s.empty()) s[r.next() % s.size()] *= hostile && r.p(0.5) ? wild(r, 1) : r.u(0.99, 1.01);
      std::span<double> sp(s);
      note(p->setStates(sp, r.p(0.7), false));
      break;
    }
    case 15: p->backupStates(); break;
    case 16: p->restoreStates(); break;
    case 17: p->setBlockDegAndTherm(r.p(0.3)); break;
    case 18:
      pool.push_back(SU(std::unique_ptr<StorageUnit>(p->copy())));
      pool.back()->setParent(nullptr); // the copy of a member knows its parent, which it may outlive here
      break;
    case 19: { // destroy one
      pool.erase(pool.begin() + r.next() % pool.size());
      break;
    }
    case 20: p->storeData(); break;
    case 21: p->writeData(id + "w"); break;
    case 22:
    case 23: look(p); break;
    case 24:
      if (auto *c = as<Cell_SPM>(p))
        spm_calls(c);
      else if (auto *c = as<Cell>(p))
        note(c->setSOC(hostile && r.p(0.3) ? wild(r, 1) : r.u(0, 1), r.p(0.5), false));
      break;
    case 25: { // temperatures and cooling
      p->setT(hostile && r.p(0.3) ? wild(r, 300) : r.u(275, 330));
      if (auto *m = as<Module>(p)) {
        auto *cs = m->getCoolSystem();
        cs->setControl(r.i(hostile ? 0 : 1, 5));
        cs->control(r.u(270, 340), r.u(270, 340));
        (void)cs->getH();
        cs->storeData(r.i(0, 5));
        cs->reset_Eoperation();
      }
      break;
    }
    case 26:
    case 27:
      if (!p->getParent() || as<Cell>(p)) cycler(p);
      break;
    }
  }
  template <class F>
  void guarded(Ctx &c, F f)
  {
    try {
      f();
    } catch (int) {
      thrown++;
    } catch (Status) {
      thrown++;
    } catch (const std::exception &) { // e.g. a file that is not there
      thrown++;
    } catch (const char *) {
      thrown++;
    }
    (void)c;
  }
};
void clean(const std::string &id)
{
  std::error_code ec;
  if (!std::filesystem::exists(PathVar::results, ec)) return;
  for (auto &e : std::filesystem::directory_iterator(PathVar::results, ec))
    if (e.path().filename().string().find(id) != std::string::npos) std::filesystem::remove(e.path(), ec);
}
} // namespace

VH_PROP(S01)
{
  auto &c = cx;
  // one life of random objects; returns the memory in use after everything was destroyed
  auto life = [&](uint64_t seed, const std::string &id, bool hostile, int nops, bool first, uint64_t &end) -> size_t {
    {
      Rng q(seed);
      World w(q, id, hostile);
      for (int k = 0; k < nops; k++) w.guarded(c, [&] { w.op(); });
      end = vh::hmix(vh::hmix(w.thrown, w.refused), w.accepted);
      for (auto &u : w.pool)
        w.guarded(c, [&] {
          if (!w.usable(u.get())) return;
          std::vector<double> s;
          u->getStates(s);
          for (double x : s) end = vh::hmix(end, std::isnan(x) ? 7 : vh::hd(x));
        });
      if (first) {
        c.ev("calls", w.ops), c.ev("errors-thrown", w.thrown), c.ev("refused", w.refused), c.ev("accepted", w.accepted);
        for (int k : w.kinds) c.seen("kinds-of-call", k);
        c.seen("end-states", end);
      }
    }
    clean(id);
    return __sanitizer_get_current_allocated_bytes();
  };
  auto group = [&](const char *name, int n, bool hostile) {
    c.run(name, n, [&](Rng &r, int k) {
      const uint64_t seed = r.next();
      const int nops = r.i(10, 120);
      const auto id = fmt("api%s%d_", hostile ? "h" : "g", k);
      uint64_t e[4]{};
      life(seed, id, hostile, nops, true, e[0]);
      // the same life over and over ends the same and must not need more and more memory
      size_t m[4]{};
      for (int j = 1; j < (k % 4 == 0 ? 4 : 2); j++) {
        m[j] = life(seed, id, hostile, nops, false, e[j]);
        c.ok(e[j] == e[0], "not-repeatable", fmt("run %d of the same calls on new objects ended in another state than %016llx", j, (unsigned long long)e[0]));
      }
      if (k % 4 == 0) {
        c.ok(!(m[2] > m[1] && m[3] > m[2]), "leak", fmt("%zd, then %zd bytes more in use than after the identical run before", (ssize_t)(m[2] - m[1]), (ssize_t)(m[3] - m[2])));
        c.ev("leak-comparisons");
      }
    });
  };
  group("ordinary", c.scale(1200, 12000), false);
  group("hostile", c.scale(1800, 18000), true);
  // whole batteries from the factories, built, used and destroyed
  c.run("factories", c.scale(4, 40), [&](Rng &r, int k) {
    size_t m[4]{};
    const uint64_t seed = r.next();
    const auto id = fmt("apif%d_", k);
    for (int j = 0; j < 4; j++) {
      {
        Rng q(seed);
        auto b = q.p(0.5) ? makeBattery_EPFL_smaller(q.p(0.5), q.p(0.5), q.p(0.5), q.p(0.5), q.i(1, 5), id, 1 / 60.0) : makeBattery2(q.p(0.5), q.p(0.5), q.p(0.5), q.p(0.5), q.p(0.5), q.i(1, 5));
        World w(q, id, false);
        w.guarded(c, [&] {
          for (int s = 0; s < 2; s++) {
            w.note(b->setCurrent(b->Cap() * q.u(-0.5, 0.5), true, false));
            b->timeStep_CC(1, q.i(1, 3));
            World::look(b.get());
          }
          std::unique_ptr<StorageUnit> d(b->copy());
          d->timeStep_CC(1, 1);
        });
      }
      clean(id);
      m[j] = __sanitizer_get_current_allocated_bytes();
    }
    c.ok(!(m[2] > m[1] && m[3] > m[2]), "leak", fmt("%zd, then %zd bytes", (ssize_t)(m[2] - m[1]), (ssize_t)(m[3] - m[2])));
    c.ev("factory-lives");
  });
}
