// Cycler: constant current, constant voltage, combinations, rest, safety, capacity test (Y01-Y06).
#include "vunit.hpp"

namespace {
constexpr double VTOL = settings::MODULE_P_V_ABSTOL, VRTOL = settings::MODULE_P_V_RELTOL;

struct Acc {
  double T{}, Ah{}, q{}, Wlo{}, Whi{};
  int n{};
};
// what the trace says, with the energy bracketed by the voltages at both ends of each step
Acc account(const std::vector<const Ev *> &st, double slackV)
{
  Acc a;
  for (auto *e : st) {
    const double h = e->dur() / 3600;
    a.T += e->dur();
    a.Ah += std::fabs(e->I1) * h;
    a.q += e->I1 * h;
    a.Wlo += std::fabs(e->I1) * h * (std::min(e->V0, e->V1) - slackV);
    a.Whi += std::fabs(e->I1) * h * (std::max(e->V0, e->V1) + slackV);
    a.n++;
  }
  return a;
}
void check_th(Ctx &c, const ThroughputData &th, const Acc &a, double cap, const std::string &what)
{
  c.eq(th.time(), a.T, 1e-9, 1e-9, "reported-time", what);
  c.eq(th.Ah(), a.Ah, 1e-6, 1e-9 * cap, "reported-charge", what);
  c.le(a.Wlo, th.Wh(), 1e-6 * (std::fabs(a.Wlo) + std::fabs(a.Whi)) + 1e-9 * cap, "reported-energy-low", what);
  c.le(th.Wh(), a.Whi, 1e-6 * (std::fabs(a.Wlo) + std::fabs(a.Whi)) + 1e-9 * cap, "reported-energy-high", what);
}
const char *sname(Status s) { return getStatusMessage(s); }
std::string desc(const Unit &u) { return u.n.shape(); }
double refV(StorageUnit *p, int ns_guess = 1) { return p->V(); }

// Voltage of a unit per cell in series, so that limits can be chosen for any unit
struct CCreq {
  double I, vlim, tlim, dt;
  int ndt;
};
bool beyond(double I, double v, double vlim) { return I < 0 ? v > vlim : I > 0 ? v < vlim : false; }

void check_cc(Ctx &c, Unit &u, const CCreq &q, Status st, const ThroughputData &th, const Snap &a, bool count_received = true)
{
  auto S = u.spy->steps();
  const std::string what = fmt("%s I=%g vlim=%g tlim=%g dt=%g ndt=%d -> %s after %zu steps", desc(u).c_str(), q.I, q.vlim, q.tlim, q.dt, q.ndt, sname(st), S.size());
  Acc ac = account(S, 0);
  for (auto *e : S) {
    c.eq(e->I0, q.I, 1e-6, 1e-8 * u.cap, "current-during-step", what);
    c.ok(e->n >= 1 && e->x > 0, "step-size", what);
    c.le(e->x, q.dt, 1e-12, "step-longer-than-requested", what);
    c.le(e->n, 10, 0, "too-many-steps-at-once", what);
    c.ev("cc-steps");
  }
  c.le(ac.T, q.tlim, 1e-9 * std::max(1.0, q.tlim), "past-time-limit", what);
  for (size_t i = 0; i + 1 < S.size(); i++)
    if (!c.ok(!beyond(q.I, S[i]->V1, q.vlim), "continued-past-voltage-limit", what + fmt(" V=%.9g at step %zu", S[i]->V1, i))) break;
  if (!S.empty()) { // balancing may move the voltage of a parallel unit within its tolerance
    const double sl = (VTOL + VRTOL * S[0]->V0) * (u.n.has_parallel() ? std::max(1.0, S[0]->V0 / 2.7) : 0) + 1e-9;
    c.ok(!beyond(q.I, S[0]->V0 + (q.I > 0 ? sl : -sl), q.vlim), "started-past-voltage-limit", what + fmt(" V=%.9g", S[0]->V0));
  }
  if (st == Status::ReachedTimeLimit) {
    c.eq(ac.T, q.tlim, 1e-9, 1e-9, "time-limit-not-reached", what);
    if (!S.empty() && beyond(q.I, S.back()->V1, q.vlim))
      c.ev("both-limits-at-once");
    else
      c.ev("time-limit");
  } else if (st == Status::ReachedVoltageLimit) {
    if (S.empty()) {
      c.ok(q.I == 0 || beyond(q.I, u.p()->V(), q.vlim), "stopped-without-reason", what + fmt(" V=%.9g", u.p()->V()));
      c.ev("limit-already-exceeded");
    } else {
      c.ok(beyond(q.I, S.back()->V1, q.vlim), "voltage-limit-not-reached", what + fmt(" V=%.9g", S.back()->V1));
      c.ev("voltage-limit");
    }
  } else
    c.violation("unexpected-status", what);
  check_th(c, th, ac, u.cap, what);
  if (count_received) check_received(c, u, a, q.I * ac.T / 3600, std::fabs(q.I) * ac.T / 3600, ac.T, what);
  c.seen("status", vh::hmix((uint64_t)(int)st, S.size()));
  c.seen("unit", vh::hs(desc(u).c_str()));
}
} // namespace

VH_PROP(Y01)
{
  auto &c = cx;
  c.run("cc", c.scale(700, 12000), [&](Rng &r, int) {
    UOpt o;
    Unit u = rand_unit(r, o);
    Cycler cyc = cycler_for(c, r, u, "y01");
    const int phases = r.i(1, 3);
    for (int ph = 0; ph < phases; ph++) {
      CCreq q;
      q.dt = rand_dt(r, u);
      const double dir = r.sgn();
      q.I = dir * u.cap * r.u(0.05, 1.5);
      q.I = dir * std::min(std::fabs(q.I), imax(u.p(), dir));
      if (r.p(0.03)) q.I = 0;
      const double V = u.p()->V(), ns = u.p()->Vmax() / 4.2;
      switch (r.i(0, 5)) {
      case 0: q.vlim = V + dir * r.u(0.0, 0.1) * ns; break; // on the wrong side or within the immediate drop
      case 1: q.vlim = V - dir * r.u(0.0, 0.05) * ns; break; // near
      case 2: q.vlim = dir > 0 ? u.p()->Vmin() : u.p()->Vmax(); break;
      default: q.vlim = V - dir * r.u(0.02, 0.25) * ns;
      }
      const double lo = 2.72 * ns, hi = 4.19 * ns;
      q.vlim = std::clamp(q.vlim, lo, hi);
      q.tlim = rand_tlim(r, q.dt, u.n.has_parallel() ? 150 : 900);
      if (r.p(0.02)) q.tlim = 0;
      q.ndt = r.p(0.5) ? 0 : r.p(0.5) ? r.i(1, 4) : r.i(1, 60);
      ThroughputData th{};
      const double t0 = r.p(0.3) ? r.u(0, 1000) : 0, a0 = r.p(0.3) ? r.u(0, 100) : 0; // totals are added to
      th.time() = t0, th.Ah() = a0;
      u.spy->reset();
      const Snap a = snap(u.p());
      const Status st = cyc.CC(q.I, q.vlim, q.tlim, q.dt, q.ndt, th);
      ThroughputData d{};
      d.time() = th.time() - t0, d.Ah() = th.Ah() - a0, d.Wh() = th.Wh();
      c.ok(th.time() >= t0 && th.Ah() >= a0, "totals-decreased");
      check_cc(c, u, q, st, d, a);
      if (r.p(0.3)) { // another rate to the same limit, the usual second stage
        CCreq q2 = q;
        q2.I = q.I * r.u(0.1, 0.7);
        q2.ndt = 0;
        ThroughputData t2{};
        u.spy->reset();
        const Snap a2 = snap(u.p());
        const Status s2 = cyc.CC(q2.I, q2.vlim, q2.tlim, q2.dt, 0, t2);
        check_cc(c, u, q2, s2, t2, a2);
        // if the second current leaves room before the limit, charge must be moved
        if (!u.spy->steps().empty() && st == Status::ReachedVoltageLimit) c.ev("second-stage-steps");
      }
    }
  });
  // a full swing to the limits of the unit with the default step
  c.run("full", c.scale(14, 400), [&](Rng &r, int) {
    UOpt o;
    o.maxcells = 3;
    Unit u = rand_unit(r, o);
    Cycler cyc = cycler_for(c, r, u, "y01f");
    const double dt = std::min(rand_dt(r, u) + 0.5, std::min(2.0, 0.8 * u.tau_min));
    double dir = r.sgn();
    for (int k = 0; k < 2; k++, dir = -dir) {
      CCreq q{ dir * u.cap * r.u(0.5, 1.5), dir > 0 ? u.p()->Vmin() : u.p()->Vmax(), 20000, dt, r.p(0.5) ? 0 : r.i(1, 500) };
      u.spy->reset();
      const Snap a = snap(u.p());
      ThroughputData th{};
      const Status st = cyc.CC(q.I, q.vlim, q.tlim, q.dt, q.ndt, th);
      check_cc(c, u, q, st, th, a);
      c.ev("full-swings");
    }
  });
}

namespace {
struct CVreq {
  double Vset, Ilim, tlim, dt;
  int ndt;
};
bool within(double v, double Vset) { return std::fabs(v - Vset) < VTOL || std::fabs(v - Vset) / Vset < VRTOL; }
void check_cv(Ctx &c, Unit &u, const CVreq &q, Status st, const ThroughputData &th, const Snap &a, double V0, double I0)
{
  auto S = u.spy->steps();
  const std::string what = fmt("%s Vset=%g Ilim=%g tlim=%g dt=%g V0=%.9g I0=%.9g -> %s after %zu steps", desc(u).c_str(), q.Vset, q.Ilim, q.tlim, q.dt, V0, I0, sname(st), S.size());
  Acc ac = account(S, 0);
  for (size_t i = 0; i < S.size(); i++) {
    const Ev *e = S[i];
    c.eq(e->V0, q.Vset, 1e-6, 1e-5, "voltage-held", what + fmt(" step %zu", i));
    c.eq(e->I1, e->I0, 1e-6, 1e-7 * u.cap, "current-changed-within-step", what);
    c.ok(e->x >= 0 && e->n >= 1, "step-size", what);
    c.le(e->x, q.dt, 1e-9, "step-longer-than-requested", what);
    c.ev("cv-steps");
    if (i + 1 < S.size()) c.ok(!(std::fabs(e->I1) < q.Ilim * (1 - 1e-9) && within(e->V1, q.Vset)), "continued-past-current-limit", what + fmt(" step %zu I=%.9g", i, e->I1));
  }
  c.le(ac.T, q.tlim, 1e-9 * std::max(1.0, q.tlim), "past-time-limit", what);
  if (st == Status::ReachedCurrentLimit) {
    c.le(std::fabs(u.p()->I()), q.Ilim, 1e-9 * u.cap, "current-limit-not-reached", what);
    c.ok(within(u.p()->V(), q.Vset), "voltage-not-held", what + fmt(" V=%.9g", u.p()->V()));
    c.ev(S.empty() ? "already-at-limit" : "current-limit");
  } else if (st == Status::ReachedTimeLimit) {
    c.eq(ac.T, q.tlim, 1e-9, 1e-9, "time-limit-not-reached", what);
    c.ev("time-limit");
  } else if (st == Status::ReachedSmallCurrent) {
    c.ok(std::fabs(u.p()->I()) < std::max(q.Ilim / 10, 1e-6) * (1 + 1e-9), "current-not-small", what);
    c.ev("small-current");
  } else
    c.violation("unexpected-status", what);
  check_th(c, th, ac, u.cap, what);
  check_received(c, u, a, ac.q, ac.Ah, ac.T, what);
  c.seen("status", vh::hmix((uint64_t)(int)st, S.size()));
  c.seen("unit", vh::hs(desc(u).c_str()));
}
} // namespace

VH_PROP(Y02)
{
  auto &c = cx;
  c.run("cv", c.scale(1500, 20000), [&](Rng &r, int) {
    UOpt o;
    Unit u = rand_unit(r, o);
    Cycler cyc = cycler_for(c, r, u, "y02");
    const double ns = u.p()->Vmax() / 4.2;
    for (int ph = r.i(1, 2); ph > 0; ph--) {
      if (r.p(0.5)) u.p()->setCurrent(r.u(-0.5, 0.5) * u.cap);
      CVreq q;
      q.dt = rand_dt(r, u);
      const double V0 = u.p()->V();
      q.Vset = r.p(0.1) ? V0 : std::clamp(V0 + r.u(-0.04, 0.04) * ns, 2.75 * ns, 4.2 * ns);
      if (std::fabs(q.Vset - V0) > 0.08 * ns) continue;
      q.Ilim = r.p(0.05) ? 0 : u.cap * r.logu(1e-3, 0.5);
      q.tlim = rand_tlim(r, q.dt, u.n.has_parallel() ? 120 : 500);
      if (r.p(0.02)) q.tlim = 0;
      q.ndt = r.p(0.5) ? 0 : r.i(1, 30);
      u.spy->reset();
      const Snap a = snap(u.p());
      const double I0 = u.p()->I();
      const bool already = std::fabs(I0) < q.Ilim && within(V0, q.Vset);
      ThroughputData th{};
      const Status st = cyc.CV(q.Vset, q.Ilim, q.tlim, q.dt, q.ndt, th);
      check_cv(c, u, q, st, th, a, V0, I0);
      if (!already && q.tlim > 0) c.ok(!u.spy->steps().empty(), "nothing-done", fmt("%s %s", desc(u).c_str(), sname(st)));
    }
  });
}

VH_PROP(Y03)
{
  auto &c = cx;
  c.run("cccv", c.scale(250, 5000), [&](Rng &r, int) {
    UOpt o;
    o.maxcells = 4;
    Unit u = rand_unit(r, o);
    Cycler cyc = cycler_for(c, r, u, "y03");
    const double ns = u.p()->Vmax() / 4.2;
    for (int ph = r.i(1, 2); ph > 0; ph--) {
      const double dt = rand_dt(r, u);
      if (r.p(0.4)) u.p()->setCurrent(r.u(-0.5, 0.5) * u.cap);
      const double V0 = u.p()->V();
      double Vset = std::clamp(V0 + r.u(0.005, 0.06) * r.sgn() * ns, 2.75 * ns, 4.2 * ns);
      if (r.p(0.1)) Vset = r.p(0.5) ? u.p()->Vmax() + r.u(0.001, 1) * ns : u.p()->Vmin() - r.u(0.001, 1) * ns;
      const double I = u.cap * r.u(0.1, 1.0) * r.sgn(); // the sign must not matter
      const double Ilim = u.cap * r.logu(5e-3, 0.1) * (r.p(0.2) ? -1 : 1);
      const int ndt = r.p(0.5) ? 0 : r.i(1, 40);
      const bool lim = r.p(0.5);
      const double tlim = dt * r.u(1, u.n.has_parallel() ? 150 : 800);
      if (u.n.has_parallel() && !lim && r.p(0.6)) continue;
      u.spy->reset();
      const Snap a = snap(u.p());
      auto sb = states(*u.p());
      ThroughputData th{};
      const Status st = lim ? cyc.CCCV_with_tlim(I, Vset, Ilim, tlim, dt, ndt, th) : cyc.CCCV(I, Vset, Ilim, dt, ndt, th);
      if (getenv("VH_TRACE")) {
        for (auto &e : u.spy->log) fprintf(stderr, "k%d x=%g n=%d st=%d I0=%.6f I1=%.6f V0=%.6f V1=%.6f\n", e.k, e.x, e.n, (int)e.st, e.I0, e.I1, e.V0, e.V1);
        for (auto *q : cells(u.p())) fprintf(stderr, "  V=%.9g I=%.9g soc=%.9g\n", q->V(), q->I(), q->SOC());
      }
      auto S = u.spy->steps();
      const std::string what = fmt("%s I=%g Vset=%g Ilim=%g tlim=%g dt=%g -> %s after %zu steps", desc(u).c_str(), I, Vset, Ilim, lim ? tlim : -1, dt, sname(st), S.size());
      if (Vset < u.p()->Vmin() || Vset > u.p()->Vmax()) {
        c.ok(st == Status::Invalid_Vset, "invalid-voltage-accepted", what);
        c.ok(S.empty() && same_bits(sb, states(*u.p())), "invalid-voltage-changed-unit", what);
        c.ok(th.time() == 0 && th.Ah() == 0 && th.Wh() == 0, "invalid-voltage-counted", what);
        c.ev("invalid-voltage");
        continue;
      }
      Acc ac = account(S, 0);
      check_th(c, th, ac, u.cap, what);
      check_received(c, u, a, ac.q, ac.Ah, ac.T, what);
      if (lim) c.le(ac.T, tlim, 1e-9 * std::max(1., tlim), "past-time-limit", what);
      // phases: the current is +-|I| until the voltage has crossed, then the voltage is held
      double Voc = 1e300;
      size_t ncc = 0, ncv = 0;
      bool cv = false;
      const Ev *last = nullptr;
      bool crossed = false;
      for (auto &e : u.spy->log) {
        if (e.k == Ev::SetI && e.x == 0 && Voc > 1e200) Voc = 0;
        if (e.k == Ev::SetV) cv = true;
        if (e.k == Ev::Step) {
          if (!cv) {
            ncc++;
            c.eq(std::fabs(e.I0), std::fabs(I), 1e-6, 1e-8 * u.cap, "current-in-first-phase", what);
            c.ok(!crossed, "first-phase-continued-past-voltage", what);
            // moving towards the set voltage
            crossed = e.I0 < 0 ? e.V1 > Vset : e.V1 < Vset;
            c.ok(e.I0 < 0 ? e.V0 <= Vset + 1e-9 : e.V0 >= Vset - 1e-9, "wrong-direction", what + fmt(" V=%.9g", e.V0));
          } else {
            ncv++;
            c.eq(e.V0, Vset, 1e-6, 1e-5, "voltage-in-second-phase", what);
          }
          last = &e;
        }
      }
      if (cv && ncc && !crossed && !lim) c.violation("first-phase-incomplete", what);
      if (ncv && ncc) c.ok(crossed, "second-phase-started-early", what);
      if (st == Status::ReachedCurrentLimit) {
        c.le(std::fabs(u.p()->I()), std::fabs(Ilim), 1e-9, "cutoff-not-reached", what);
        c.ok(within(u.p()->V(), Vset), "voltage-not-reached", what);
        c.ev("completed");
      } else if (st == Status::ReachedTimeLimit) {
        c.ok(lim, "time-limit-without-one", what);
        c.eq(ac.T, tlim, 1e-9, 1e-9, "time-limit-not-reached", what);
        c.ev("time-limit");
      } else if (st == Status::ReachedSmallCurrent)
        c.ev("small-current");
      else {
        bool unsafe = false; // a cell was already driven out of its window, nothing can be set any more
        for (auto *q : cells(u.p())) unsafe |= q->V() > 4.3 || q->V() < 2.0;
        if (unsafe && isStatusBad(st))
          c.ev("cell-out-of-window");
        else
          c.violation("unexpected-status", what);
      }
      if (ncc) c.ev("cc-phases");
      if (ncv) c.ev("cv-phases");
      c.ev("steps", ncc + ncv);
      c.seen("unit", vh::hs(desc(u).c_str()));
      (void)last;
    }
  });
}

VH_PROP(Y04)
{
  auto &c = cx;
  c.run("rest", c.scale(500, 8000), [&](Rng &r, int) {
    UOpt o;
    Unit u = rand_unit(r, o);
    Cycler cyc = cycler_for(c, r, u, "y04");
    for (int ph = r.i(1, 3); ph > 0; ph--) {
      const double dt = rand_dt(r, u);
      double tlim = rand_tlim(r, dt, u.n.has_parallel() ? 250 : 2000);
      if (r.p(0.03)) tlim = 0;
      const int ndt = r.p(0.5) ? 0 : r.p(0.5) ? r.i(1, 4) : r.i(1, 100);
      u.p()->setCurrent(r.u(-0.7, 0.7) * u.cap);
      if (r.p(0.5)) { // out of equilibrium
        for (int k = r.i(1, 20); k > 0; k--) u.p()->timeStep_CC(std::min(dt, 2.0), 1);
      }
      u.spy->reset();
      const Snap a = snap(u.p());
      ThroughputData th{};
      th.time() = 5, th.Ah() = 3, th.Wh() = 7;
      const Status st = cyc.rest(tlim, dt, ndt, th);
      auto S = u.spy->steps();
      const std::string what = fmt("%s tlim=%.9g dt=%.9g ndt=%d -> %s after %zu steps", desc(u).c_str(), tlim, dt, ndt, sname(st), S.size());
      Acc ac = account(S, 0);
      c.ok(st == Status::ReachedTimeLimit, "status", what);
      c.eq(ac.T, tlim, 1e-10, 1e-9, "rested-time", what);
      c.eq(th.time() - 5, tlim, 1e-10, 1e-9, "reported-time", what);
      c.ok(th.Ah() == 3 && th.Wh() == 7, "reported-throughput", what);
      c.eq(u.p()->I(), 0, 0, 1e-8 * u.cap, "current-after-rest", what);
      for (auto *e : S) {
        c.eq(e->I0, 0, 0, 1e-8 * u.cap, "current-during-rest", what);
        c.le(e->x, dt, 0, "step-longer-than-requested", what);
        c.le(e->n, 10, 0, "too-many-steps-at-once", what);
      }
      const Snap b = snap(u.p());
      for (size_t i = 0; i < a.soc.size(); i++) {
        c.eq(b.time[i] - a.time[i], tlim, 1e-10, 1e-9 * (1 + b.time[i]), "cell-clock", what);
        if (!u.n.has_parallel()) {
          c.eq(b.soc[i], a.soc[i], 0, 1e-15, "soc-moved", what);
          c.eq(b.Ah[i], a.Ah[i], 0, 1e-12 * (1 + a.Ah[i]), "throughput-moved", what);
          c.ev("isolated-cells");
        }
      }
      size_t k = 0;
      double tot = 0;
      for (size_t i = 0; i < a.Ah.size(); i++) tot += b.Ah[i] - a.Ah[i];
      const double q = received(c, u.n, u.p(), a, b, k, tot);
      c.eq(q, 0, 0, 1e-9 * (tot + u.cap), "net-charge", what);
      if (u.n.has_parallel()) c.ev("connected-units");
      c.ev("rests");
      c.ev("steps", S.size());
      c.seen("length", vh::hd(tlim / dt, 0.01));
    }
  });
}

VH_PROP(Y05)
{
  auto &c = cx;
  const double f = 0.99, F = 1.01;
  // requests far beyond what is allowed
  c.run("hostile", c.scale(1200, 20000), [&](Rng &r, int) {
    UOpt o;
    o.soclo = 0.05, o.sochi = 0.95;
    o.spread = r.p(0.5) ? 0.03 : 0.5;
    Unit u = rand_unit(r, o);
    Cycler cyc = cycler_for(c, r, u, "y05");
    const bool diag = r.p(0.4);
    cyc.setDiagnostic(diag);
    u.spy->leaf_v = true;
    const double ns = u.p()->Vmax() / 4.2;
    for (int ph = r.i(1, 2); ph > 0; ph--) {
      const double dt = rand_dt(r, u);
      const double dir = r.sgn();
      const double I = dir * u.cap * (r.p(0.5) ? r.u(0.5, 3) : r.logu(3, 200));
      const double vlim = dir > 0 ? (r.p(0.5) ? r.u(-100, 2) : r.u(1.5, 2.7) * ns) : (r.p(0.5) ? 100 + 10 * ns : r.u(4.2, 5) * ns);
      const double tlim = dt * r.u(1, u.n.has_parallel() ? 120 : 2500);
      const int ndt = r.p(0.5) ? 0 : r.i(1, 30);
      ThroughputData th{};
      u.spy->reset();
      const Snap a = snap(u.p());
      const double VMIN = u.p()->VMIN(), VMAX = u.p()->VMAX();
      Status st = Status::Unknown_problem;
      const int op = r.i(0, 2);
      bool escaped = false;
      try {
        if (op == 0) st = cyc.CC(I, vlim, tlim, dt, ndt, th);
        if (op == 1) st = cyc.CV(std::clamp(vlim, 0.1, 6 * ns), std::fabs(I) * 0.01, tlim, dt, ndt, th);
        if (op == 2) st = cyc.CCCV_with_tlim(I, std::clamp(vlim, 2.7 * ns, 4.2 * ns), std::fabs(I) * 0.01, tlim, dt, ndt, th);
      } catch (int e) {
        escaped = true;
        c.violation("exception-escaped", fmt("int %d op %d %s", e, op, desc(u).c_str()));
      }
      if (escaped) return;
      auto S = u.spy->steps();
      const std::string what = fmt("%s op=%d diag=%d I=%g vlim=%g tlim=%g dt=%g -> %s after %zu steps", desc(u).c_str(), op, diag, I, vlim, tlim, dt, sname(st), S.size());
      Acc ac = account(S, 0);
      if (getenv("VH_TRACE"))
        for (auto &e : u.spy->log) fprintf(stderr, "k%d x=%g n=%d st=%d I0=%.6f I1=%.6f V0=%.6f V1=%.6f lo %.4f hi %.4f\n", e.k, e.x, e.n, (int)e.st, e.I0, e.I1, e.V0, e.V1, e.clo, e.chi);
      bool unfinished = false; // a step that failed half-way in a module leaves a part of it in the cells
      for (auto &e : u.spy->log)
        if (e.thrown) unfinished = true;
      check_th(c, th, ac, u.cap, what);
      if (!unfinished) check_received(c, u, a, ac.q, ac.Ah, ac.T, what);
      for (size_t i = 0; i + 1 < S.size(); i++) {
        const auto safe = [&](double v) { return v >= f * VMIN * (1 - 1e-12) && v <= F * VMAX * (1 + 1e-12); };
        // a combined procedure may go on once it has brought the voltage back
        c.ok(safe(S[i]->V1) || (op == 2 && safe(S[i + 1]->V0)), "continued-outside-safety-limits", what + fmt(" V=%.9g at step %zu", S[i]->V1, i));
        if (diag && op == 0) {
          if (I < 0)
            c.le(S[i]->chi, 4.2 + VTOL, 1e-9, "diagnostic-continued-above-maximum", what);
          else
            c.le(2.7 - VTOL, S[i]->clo, 1e-9, "diagnostic-continued-below-minimum", what);
        }
      }
      if (!S.empty() && op != 2) {
        const double v = S.back()->V1;
        if (v < f * VMIN || v > F * VMAX) {
          c.ok(isStatusBad(st) || (diag && (st == Status::Vmin_violation || st == Status::Vmax_violation)) || (op == 0 && (st == Status::ReachedVoltageLimit || st == Status::ReachedTimeLimit)), "unsafe-but-fine", what + fmt(" V=%.9g", v));
          c.ev("unsafe-voltage-stopped");
        }
        if (diag && op == 0 && S.back()->chi > 4.2 + VTOL && I < 0) {
          c.ok(st != Status::Success && st != Status::ReachedTimeLimit, "diagnostic-violation-not-reported", what);
          c.ev("diagnostic-stops");
        }
        if (diag && op == 0 && S.back()->clo < 2.7 - VTOL && I > 0) {
          c.ok(st != Status::Success && st != Status::ReachedTimeLimit, "diagnostic-violation-not-reported", what);
          c.ev("diagnostic-stops");
        }
      }
      // and a stop for safety has a reason
      if (st == Status::VMINsafety_violation && c.ok(!S.empty(), "unsafe-without-a-step", what)) {
        c.le(S.back()->V1, f * VMIN, 1e-12 * VMIN, "stopped-though-safe", what);
        c.ev("stopped-below");
      }
      if (st == Status::VMAXsafety_violation && c.ok(!S.empty(), "unsafe-without-a-step", what)) {
        c.le(F * VMAX, S.back()->V1, 1e-12 * VMAX, "stopped-though-safe", what);
        c.ev("stopped-above");
      }
      for (double x : states(*u.p())) c.ok(std::isfinite(x), "non-finite-state", what);
      c.ev(fmt("status%+d", (int)st));
      if (isStatusBad(st)) c.ev("refused-or-stopped");
      c.seen("outcome", vh::hmix((uint64_t)(int)st, S.size()));
    }
  });
  // failures inside the unit at any point
  c.run("faults", c.scale(1500, 20000), [&](Rng &r, int) {
    UOpt o;
    o.maxcells = 3;
    Unit u = rand_unit(r, o);
    Cycler cyc = cycler_for(c, r, u, "y05f");
    const double ns = u.p()->Vmax() / 4.2, V = u.p()->V();
    const double dt = rand_dt(r, u), I = u.cap * r.u(0.05, 0.5) * r.sgn();
    const int kind = r.i(0, 2), op = kind == 1 ? r.i(0, 1) : kind == 2 ? 2 : r.i(0, 3);
    // 0 step fails, 1 current refused, 2 voltage refused; operations 0 CC 1 rest 2 CV 3 CCCV
    const int at = r.p(0.4) ? 0 : r.i(0, 25);
    const Status fs = r.p(0.5) ? Status::ParallelUnit_failed : r.p(0.5) ? Status::RedistributeCurrent_failed : Status::Invalid_states;
    u.spy->fail_status = fs;
    if (kind == 0) u.spy->fail_step = at;
    if (kind == 1) u.spy->fail_setI = op == 0 ? 0 : at; // a constant current phase keeps its current when it cannot be set again
    if (kind == 2) u.spy->fail_setV = at;
    const double tlim = dt * r.u(20, 60);
    u.spy->reset();
    const Snap a = snap(u.p());
    ThroughputData th{};
    Status st = Status::Success;
    bool threw = false;
    const double Vs = V + (I < 0 ? 1 : -1) * 0.02 * ns;
    try {
      if (op == 0) st = cyc.CC(I, I < 0 ? V + 0.5 * ns : V - 0.5 * ns, tlim, dt, r.i(0, 5), th);
      if (op == 1) st = cyc.rest(tlim, dt, r.i(0, 5), th);
      if (op == 2) st = cyc.CV(Vs, u.cap * 1e-3, tlim, dt, r.i(0, 5), th);
      if (op == 3) st = cyc.CCCV_with_tlim(I, std::clamp(Vs, 2.7 * ns, 4.2 * ns), u.cap * 1e-3, tlim, dt, r.i(0, 5), th);
    } catch (int e) {
      threw = true;
      c.ok(op == 1 && kind == 0, "exception-escaped", fmt("int %d op %d kind %d", e, op, kind));
    }
    auto S = u.spy->steps();
    bool hit = (kind == 0 && u.spy->nstep > at) || (kind == 1 && u.spy->nsetI > u.spy->fail_setI && !(op == 1 && u.spy->t > tlim - 1e-6)) /* the last one of a rest only confirms */ || (kind == 2 && u.spy->nsetV > at);
    const std::string what = fmt("%s op=%d kind=%d at=%d -> %s after %zu steps", desc(u).c_str(), op, kind, at, threw ? "threw" : sname(st), S.size());
    if (!hit) {
      c.ev("fault-not-reached");
      return;
    }
    c.ev(fmt("fault-kind%d-op%d", kind, op));
    c.ok(threw || isStatusBad(st), "failure-not-reported", what);
    if (kind == 0 && !threw && op != 3) c.ok(st == Status::timeStep_CC_failed, "failing-step-status", what);
    if (kind >= 1 && !threw) c.ok(st == fs, "failing-status", what);
    if (kind == 0) c.le(S.size(), at, 0, "continued-after-failure", what);
    Acc ac = account(S, 0);
    if (op == 1) {
      if (!threw) c.eq(th.Ah(), 0, 0, 0, "rest-charge", what);
    } else
      check_th(c, th, ac, u.cap, what);
    check_received(c, u, a, ac.q, ac.Ah, ac.T, what);
    c.seen("fault", vh::hmix(kind * 16 + op, at));
  });
}

VH_PROP(Y06)
{
  auto &c = cx;
  c.run("capacity", c.scale(48, 800), [&](Rng &r, int) {
    UOpt o;
    o.maxcells = 2;
    o.soclo = 0.3, o.sochi = 0.9;
    o.trees = r.p(0.35);
    o.spm = r.p(0.5);
    Unit u = rand_unit(r, o);
    if (u.n.has_parallel()) {
      UOpt o2;
      o2.trees = false;
      u = rand_unit(r, o2);
    }
    if (r.p(0.5)) u.p()->setCurrent(r.u(-0.3, 0.3) * u.cap);
    for (int k = r.i(0, 30); k > 0; k--) u.p()->timeStep_CC(1, 1);
    const auto r0 = report(u.p()); // also brings cached voltages up to date
    const auto s0 = states(*u.p());
    Cycler cyc = cycler_for(c, r, u, "y06");
    const bool fail = r.p(0.3);
    u.spy->reset();
    if (fail) {
      u.spy->fail_step = r.p(0.3) ? r.i(0, 20) : r.i(0, 60000);
      if (r.p(0.2)) u.spy->fail_step = -1, u.spy->fail_setI = r.i(0, 1) ? 0 : r.i(0, 3);
    }
    double Ah = 0, tt = 0;
    const double cap = cyc.testCapacity(Ah, tt);
    auto S = u.spy->steps();
    const std::string what = fmt("%s -> %g Ah after %zu steps, fault %d", desc(u).c_str(), cap, S.size(), fail);
    bool stored = false, thrown = false;
    for (auto &e : u.spy->log) stored |= e.k == Ev::Store || e.k == Ev::Write, thrown |= e.thrown;
    c.ok(!stored, "data-recorded", what);
    c.ok(same_bits(s0, states(*u.p())), "states-not-restored", what + " " + first_diff(s0, states(*u.p())));
    const auto r1 = report(u.p());
    for (size_t i = 0; i < r0.size(); i++) c.eq(r1[i], r0[i], 1e-9, 1e-9, "report-not-restored", what + fmt(" entry %zu", i));
    const double Iref = u.cap / 25;
    double qc = 0, qd = 0, T = 0;
    for (auto *e : S) (e->I0 < 0 ? qc : qd) += std::fabs(e->I1) * e->dur() / 3600, T += e->dur();
    c.eq(tt, T, 1e-9, 1e-9, "reported-time", what);
    if (cap == 0) {
      c.ok(fail, "capacity-zero", what);
      c.ev("failed-tests-restored");
      return;
    }
    c.eq(cap, qd, 1e-7, 0, "discharged-charge", what);
    c.eq(Ah, qc + qd, 1e-7, 0, "total-charge", what);
    // the two phases: slow, charge until the upper and discharge until the lower limit
    const Ev *lastc = nullptr, *lastd = nullptr;
    for (auto *e : S) {
      c.eq(std::fabs(e->I0), Iref, 1e-9, 0, "test-rate", what);
      (e->I0 < 0 ? lastc : lastd) = e;
    }
    if (lastc) c.le(u.p()->Vmax(), lastc->V1, 1e-9, "charged-to-limit", what), c.le(lastc->V1, u.p()->Vmax(), 0.01 * u.p()->Vmax(), "overcharged", what);
    if (c.ok(lastd, "no-discharge", what)) c.le(lastd->V1, u.p()->Vmin(), 1e-9, "discharged-to-limit", what), c.le(u.p()->Vmin(), lastd->V1, 0.05 * u.p()->Vmin(), "overdischarged", what);
    if (u.n.leaf && u.n.kind == 0) { // bucket: closed form
      const double lo = (2.7 + u.n.Rdc * Iref - 2.0) / 2.3, hi = (4.2 - u.n.Rdc * Iref - 2.0) / 2.3;
      if (lastc) c.eq(cap, (hi - lo) * u.cap, 0, 6 * Iref / 3600 + 1e-6, "closed-form-capacity", what);
      c.ev("closed-form");
    }
    c.ev("capacities");
    c.ev("steps", S.size());
    c.seen("unit", vh::hs(desc(u).c_str()));
  });
}
