// Random storage units behind a recording proxy, and what their cells received.
#pragma once
#include "vspy.hpp"
#include "procedures/Cycler.hpp"
using namespace vm;
using vh::Ctx;

namespace {
struct Unit {
  Node n;
  SU su;
  std::unique_ptr<Spy> spy;
  bool spm{ false };
  double tau_min{ 1e9 }, rq_min{ 1e9 }; // RC time constants; R*Cap, which sets how fast parallel branches equalise
  double cap{};
  StorageUnit *p() { return su.get(); }
};
void scan(const Node &n, Unit &u)
{
  if (n.leaf) {
    if (n.kind == 3) u.spm = true;
    else u.rq_min = std::min(u.rq_min, n.Rdc * n.cap * 3600 / 2.3);
    for (int k = 0; k < n.kind && n.kind < 3; k++) u.tau_min = std::min(u.tau_min, 1 / n.it[k]);
  }
  for (auto &c : n.ch) scan(c, u);
}
Unit make(const Node &n)
{
  Unit u;
  u.n = n;
  u.su = build(n);
  u.spy = std::make_unique<Spy>(u.su.get());
  scan(n, u);
  u.cap = u.su->Cap();
  return u;
}
struct UOpt {
  bool trees{ true }, spm{ true }, contact{ true };
  int maxcells{ 5 };
  double soclo{ 0.4 }, sochi{ 0.9 }, spread{ 0.03 };
};
void even(Rng &r, Node &n, double base, double spread) // members of similar size
{
  if (n.leaf) {
    const double f = r.u(1 - spread, 1 + spread);
    if (n.kind == 3)
      n.capf = f, n.cap = 16 * f;
    else
      n.Rdc *= n.cap / (base * f), n.Rp[0] *= n.cap / (base * f), n.Rp[1] *= n.cap / (base * f), n.cap = base * f;
  }
  for (auto &c : n.ch) even(r, c, base, spread);
}
// largest current that keeps the unit's voltage within its limits right now
double imax(StorageUnit *p, double dir)
{
  const double ns = p->Vmax() / 4.2, V = p->getOCV();
  const double room = dir > 0 ? V - 2.6 * ns : 4.25 * ns - V;
  return std::max(0.0, room) / (1.6 * p->getRtot());
}
Unit rand_unit(Rng &r, const UOpt &o = {})
{
  Opt q;
  q.soclo = o.soclo, q.sochi = o.sochi;
  q.spm = o.spm;
  q.contact = o.contact;
  q.maxcells = r.i(2, o.maxcells);
  q.maxdepth = r.i(1, 3);
  if (!o.trees || r.p(0.45)) {
    Node n = gen_leaf(r, q, o.spm && r.p(0.35) ? 3 : 0, r.u(o.soclo, o.sochi));
    n.id = "cell";
    return make(n);
  }
  Node n = random_tree(r, q);
  even(r, n, 16 * r.u(0.5, 2), o.spread);
  return make(n);
}
double rand_dt(Rng &r, const Unit &u)
{
  double lim = std::min(u.spm ? 2.0 : 20.0, 0.8 * u.tau_min);
  if (u.n.has_parallel()) lim = std::min(lim, u.spm ? 1.0 : 0.09 * u.rq_min); // currents between branches are frozen for up to 10 steps
  if (lim > 1 && r.p(0.4)) return 1;
  return r.logu(std::max(0.1, lim / 20), lim);
}
double rand_tlim(Rng &r, double dt, int maxsteps)
{
  switch (r.i(0, 5)) {
  case 0: return dt * r.i(1, maxsteps);              // a multiple
  case 1: return dt * r.u(0, 1);                     // less than one step
  case 2: return dt * (r.i(1, 12) + r.u(0.001, 0.999)); // a few
  default: return dt * maxsteps * r.u(0.02, 1);
  }
}
struct Snap {
  std::vector<double> soc, time, Ah, Wh, I;
};
Snap snap(StorageUnit *p)
{
  Snap s;
  for (auto *c : cells(p)) {
    auto th = c->getThroughputs();
    s.soc.push_back(c->SOC()), s.time.push_back(th.time()), s.Ah.push_back(th.Ah()), s.Wh.push_back(th.Wh()), s.I.push_back(c->I());
  }
  return s;
}
// charge that left the unit according to its cells; checks that members in series agree
double received(Ctx &c, const Node &n, StorageUnit *p, const Snap &a, const Snap &b, size_t &k, double scale)
{
  if (n.leaf) {
    const double q = (a.soc[k] - b.soc[k]) * p->Cap();
    k++;
    return q;
  }
  auto *m = as<Module>(p);
  double q = 0;
  for (size_t i = 0; i < n.ch.size(); i++) {
    const double qi = received(c, n.ch[i], (*m)[i].get(), a, b, k, scale);
    if (n.parallel)
      q += qi;
    else if (i == 0)
      q = qi;
    else
      c.eq(qi, q, 0, 1e-7 * scale + 1e-9, "series-charge", fmt("member %zu of %s", i, n.shape().c_str()));
  }
  return q;
}
void check_received(Ctx &c, Unit &u, const Snap &a, double signedAh, double absAh, double T, const std::string &what)
{
  const Snap b = snap(u.p());
  size_t k = 0;
  const double q = received(c, u.n, u.p(), a, b, k, absAh);
  c.eq(q, signedAh, 0, 2e-7 * absAh + 1e-9 * u.cap, "charge-received", what);
  for (size_t i = 0; i < b.time.size(); i++) c.eq(b.time[i] - a.time[i], T, 1e-9, 1e-9 * (b.time[i] + 1), "cell-clock", what);
  if (!u.n.has_parallel()) // every cell carries the current of the unit
    for (size_t i = 0; i < b.Ah.size(); i++) c.eq(b.Ah[i] - a.Ah[i], absAh, 1e-7, 1e-9 * (1 + b.Ah[i]), "cell-throughput", what);
  if (u.n.leaf) { // energy: the cell knows its own voltage
    c.ev("leaf-units");
  } else
    c.ev("module-units");
}
// a cycler connected to the unit, in half of the cases one which was used on another unit before
Cycler cycler_for(Ctx &c, Rng &r, Unit &u, const std::string &id)
{
  if (r.p(0.5)) return Cycler(u.spy.get(), id);
  Rng q(r.next());
  UOpt o;
  o.maxcells = 4;
  o.spm = q.p(0.2);
  Unit other = rand_unit(q, o);
  Cycler cyc(other.spy.get(), "other");
  ThroughputData th{};
  const double dt = rand_dt(q, other), dir = q.sgn();
  try {
    cyc.CC(dir * other.cap * q.u(0.05, 0.5), dir > 0 ? 0 : 1000, dt * q.i(1, 6), dt, 0, th);
    if (q.p(0.3)) cyc.CV(other.p()->V(), 0, dt * q.i(1, 4), dt, 0, th);
    if (q.p(0.3)) cyc.rest(dt * q.i(1, 4), dt, 0, th);
  } catch (int) {
  }
  cyc.initialise(u.spy.get(), id);
  c.ok(cyc.getSU() == u.spy.get(), "reconnected");
  c.ev("reused-cyclers");
  return cyc;
}
} // namespace
