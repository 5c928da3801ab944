// A storage unit that forwards everything to a real one, records what is done to it, and can inject failures.
// The procedures under test talk to it through the ordinary interface, so its log is the trace of what they really did.
#pragma once
#include "vm.hpp"
#include "procedures/Cycler.hpp"

namespace vm {
struct Ev {
  enum K { SetI,
           SetV,
           Step,
           Store,
           Write } k;
  double x{}; // requested current or voltage, or time step
  int n{ 1 }; // number of steps
  Status st{ Status::Success };
  bool thrown{ false };
  double I0{}, V0{}, I1{}, V1{}; // of the unit before and after
  double clo{}, chi{};           // lowest voltage of a discharging and highest of a charging cell afterwards
  double t{};                    // time stepped so far, afterwards
  std::vector<double> rows;      // for Store: I V SOC T time Ah Wh of every leaf
  std::vector<std::vector<double>> leaf_states; // for Write: the states of every leaf
  double dur() const { return x * n; }
};

class Spy : public StorageUnit
{
public:
  StorageUnit *u;
  std::vector<Ev> log;
  bool leaf_v{ false };
  int nstep{ 0 }, nsetI{ 0 }, nsetV{ 0 };
  double t{ 0 };
  // injected failures: number of the call from which on it fails (-1 never), how many calls fail, and how
  int fail_step{ -1 }, fail_setI{ -1 }, fail_setV{ -1 }, fail_len{ 1 << 30 };
  Status fail_status{ Status::ParallelUnit_failed };
  int steps_limit{ 1 << 30 };
  bool runaway{ false };

  explicit Spy(StorageUnit *p) : StorageUnit("spy"), u(p) {}
  void reset()
  {
    log.clear();
    nstep = nsetI = nsetV = 0;
    t = 0;
  }
  std::string getFullID() override { return u->getFullID(); }
  double Cap() const override { return u->Cap(); }
  double I() const override { return u->I(); }
  double getRtot() override { return u->getRtot(); }
  size_t getNcells() override { return u->getNcells(); }
  void getStates(std::vector<double> &s) override { u->getStates(s); }
  std::span<double> viewStates() override { return u->viewStates(); }
  void setBlockDegAndTherm(bool b) override { u->setBlockDegAndTherm(b); }
  Status setCurrent(double Inew, bool checkV = true, bool print = true) override
  {
    Ev e{ Ev::SetI };
    e.x = Inew;
    e.I0 = u->I();
    const int k = nsetI++;
    e.st = (fail_setI >= 0 && k >= fail_setI && k < fail_setI + fail_len) ? fail_status : u->setCurrent(Inew, checkV, false);
    e.I1 = u->I();
    log.push_back(std::move(e));
    return log.back().st;
  }
  Status setVoltage(double Vnew, bool checkI = true, bool print = true) override
  {
    Ev e{ Ev::SetV };
    e.x = Vnew;
    e.I0 = u->I();
    e.V0 = u->V();
    const int k = nsetV++;
    e.st = (fail_setV >= 0 && k >= fail_setV && k < fail_setV + fail_len) ? fail_status : u->setVoltage(Vnew, checkI, false);
    e.I1 = u->I();
    e.V1 = u->V();
    log.push_back(std::move(e));
    return log.back().st;
  }
  Status setStates(std::span<double> &s, bool c = true, bool p = true) override { return u->setStates(s, c, false); }
  void backupStates() override { u->backupStates(); }
  void restoreStates() override { u->restoreStates(); }
  double getOCV() override { return u->getOCV(); }
  double V() override { return u->V(); }
  Status checkVoltage(double &v, bool print) noexcept override { return u->checkVoltage(v, false); }
  double getVhigh() override { return u->getVhigh(); }
  double getVlow() override { return u->getVlow(); }
  double Vmin() const override { return u->Vmin(); }
  double VMIN() const override { return u->VMIN(); }
  double Vmax() const override { return u->Vmax(); }
  double VMAX() const override { return u->VMAX(); }
  double T() override { return u->T(); }
  double getThotSpot() override { return u->getThotSpot(); }
  double getThermalSurface() override { return u->getThermalSurface(); }
  double thermalModel(int N, double T[], double K[], double A[], double tim) override { return u->thermalModel(N, T, K, A, tim); }
  void setT(double T) override { u->setT(T); }
  bool validStates(bool print = true) override { return u->validStates(false); }
  StorageUnit *copy() override { return new Spy(u->copy()); }
  void timeStep_CC(double dt, int steps = 1) override
  {
    Ev e{ Ev::Step };
    e.x = dt;
    e.n = steps;
    e.I0 = u->I();
    e.V0 = u->V();
    const int k = nstep++;
    if (k >= steps_limit) {
      runaway = true;
      throw -777;
    }
    if (fail_step >= 0 && k >= fail_step && k < fail_step + fail_len) {
      e.thrown = true;
      log.push_back(e);
      throw 101;
    }
    try {
      u->timeStep_CC(dt, steps);
    } catch (...) {
      e.thrown = true;
      log.push_back(e);
      throw;
    }
    e.I1 = u->I();
    e.V1 = u->V();
    t += dt * steps;
    e.t = t;
    if (leaf_v) {
      e.clo = 1e300, e.chi = -1e300;
      for (auto *c : cells(u)) {
        const double v = c->V();
        if (c->I() > 0) e.clo = std::min(e.clo, v);
        if (c->I() < 0) e.chi = std::max(e.chi, v);
      }
    }
    log.push_back(std::move(e));
  }
  void storeData() override
  {
    Ev e{ Ev::Store };
    e.t = t;
    for (auto *c : cells(u)) {
      auto th = c->getThroughputs();
      for (double x : { c->I(), c->V(), c->SOC(), c->T(), th.time(), th.Ah(), th.Wh() }) e.rows.push_back(x);
    }
    log.push_back(std::move(e));
    u->storeData();
  }
  void writeData(const std::string &prefix) override
  {
    Ev e{ Ev::Write };
    e.t = t;
    for (auto *c : cells(u)) {
      auto v = c->viewStates();
      e.leaf_states.emplace_back(v.begin(), v.end());
    }
    log.push_back(std::move(e));
    u->writeData(prefix);
  }
  size_t calculateNcells() override { return u->getNcells(); }
  std::vector<const Ev *> steps() const
  {
    std::vector<const Ev *> v;
    for (auto &e : log)
      if (e.k == Ev::Step && !e.thrown) v.push_back(&e);
    return v;
  }
};
} // namespace vm
