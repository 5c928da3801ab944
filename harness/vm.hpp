// Random module trees with a deterministic builder, so that independent twins can be made from one description.
#pragma once
#include "vs.hpp"
#include "modules/modules.hpp"
#include "types/Deep_ptr.hpp"
#include <numeric>

namespace vm {
using namespace vs;
using SU = Deep_ptr<StorageUnit>;

struct Node {
  // leaf
  int kind{ 0 }; // 0..2 ECM with that many RC branches, 3 SPM
  double cap{ 16 }, Rdc{ 2e-3 }, soc{ 0.5 }, T{ 298 }, capf{ 1 }, resf{ 1 };
  double Rp[2]{}, it[2]{};
  DEG_ID deg;
  // inner
  bool leaf{ true }, parallel{ false }, mt{ false };
  int cool{ 0 }, coolctl{ 1 };
  double Tm{ 288 };
  std::vector<Node> ch;
  std::vector<double> Rc;
  std::string id{ "x" };

  int ncells() const
  {
    if (leaf) return 1;
    int n = 0;
    for (auto &c : ch) n += c.ncells();
    return n;
  }
  int depth() const
  {
    int d = 0;
    for (auto &c : ch) d = std::max(d, 1 + c.depth());
    return d;
  }
  std::string shape() const
  {
    if (leaf) return std::string(1, "012E"[kind]);
    std::string s = parallel ? "p(" : "s(";
    for (auto &c : ch) s += c.shape();
    return s + ")";
  }
  double capacity() const
  {
    if (leaf) return cap;
    double a = 0, m = 1e300;
    for (auto &c : ch) a += c.capacity(), m = std::min(m, c.capacity());
    return parallel ? a : m;
  }
  bool has_parallel() const
  {
    if (leaf) return false;
    if (parallel) return true;
    for (auto &c : ch)
      if (c.has_parallel()) return true;
    return false;
  }
};

struct Opt {
  int maxcells{ 10 }, maxdepth{ 3 };
  bool spm{ true }, ecm{ true }, contact{ true }, deg{ false }, mt{ false };
  double soclo{ 0.35 }, sochi{ 0.65 }, socspread{ 0.01 }, rcap_lo{ 0.03 }, rcap_hi{ 0.3 };
  double Tlo{ 285 }, Thi{ 318 };
  int force{ -1 }; // 0 series top, 1 parallel top
};

inline Node gen_leaf(Rng &r, const Opt &o, int cls, double soc)
{
  Node n;
  n.soc = soc + r.u(-o.socspread, o.socspread);
  n.T = 288;
  if (cls == 3) {
    n.kind = 3;
    n.capf = r.u(0.8, 1.25);
    n.resf = r.u(0.8, 1.3);
    n.cap = 16 * n.capf;
    n.T = r.u(o.Tlo, o.Thi);
    if (o.deg) n.deg = deg_rand(r);
  } else {
    n.kind = r.i(0, 2);
    n.cap = 16 * r.u(0.5, 2);
    n.Rdc = r.logu(o.rcap_lo, o.rcap_hi) / n.cap;
    for (int k = 0; k < 2; k++) n.Rp[k] = n.Rdc * r.u(0.2, 1), n.it[k] = 1 / r.logu(20, 900);
  }
  return n;
}
// level = number of cells in series between the terminals
inline Node gen(Rng &r, const Opt &o, int level, int depth, int budget, int cls, double soc, int force = -1)
{
  if ((depth <= 0 || budget < 2) && level == 1 && force < 0) return gen_leaf(r, o, cls, soc);
  if (level == 1 && force < 0 && r.p(0.35)) return gen_leaf(r, o, cls, soc);
  Node n;
  n.leaf = false;
  n.parallel = force >= 0 ? force == 1 : (level == 1 ? true : (depth > 1 && budget >= 2 * level && r.p(0.5)));
  n.mt = o.mt && r.p(0.5);
  n.coolctl = r.i(1, 5);
  n.cool = 0;
  n.Tm = r.u(283, 305);
  std::vector<int> lev;
  if (n.parallel) {
    int k = std::max(1, std::min(r.i(2, 4), budget / std::max(1, level)));
    if (r.p(0.05)) k = 1;
    for (int i = 0; i < k; i++) n.ch.push_back(gen(r, o, level, depth - 1, budget / k, cls, soc));
  } else {
    int left = level;
    while (left > 0) {
      int l = depth > 1 && r.p(0.4) ? r.i(1, left) : 1;
      left -= l;
      n.ch.push_back(gen(r, o, l, depth - 1, std::max(1, budget * l / level), cls, soc));
      lev.push_back(l);
    }
  }
  // twins: identical members next to different ones, and strings of identical members
  if (n.parallel) lev.assign(n.ch.size(), level);
  const int twin = r.i(0, 7);
  for (size_t i = 1; i < n.ch.size(); i++)
    if (twin == 0 || (twin <= 2 && i + 1 == n.ch.size()) || (twin == 3 && r.p(0.5)))
      for (size_t j = twin == 3 ? r.next() % i : 0; j < i; j++)
        if (lev[j] == lev[i]) {
          n.ch[i] = n.ch[j];
          break;
        }
  for (size_t i = 0; i < n.ch.size(); i++) n.ch[i].id = (n.ch[i].leaf ? "c" : n.ch[i].parallel ? "p" : "s") + std::to_string(i);
  double Rmin = 1e300;
  std::function<void(const Node &)> f = [&](const Node &m) { if (m.leaf) Rmin = std::min(Rmin, m.kind == 3 ? 1e-3 / m.capf : m.Rdc); for (auto &c : m.ch) f(c); };
  f(n);
  const int style = r.i(0, 2);
  for (size_t i = 0; i < n.ch.size(); i++) n.Rc.push_back(!o.contact || style == 0 ? 0 : style == 1 ? Rmin * 0.03 : Rmin * r.u(0, 0.1));
  return n;
}
inline Node random_tree(Rng &r, const Opt &o)
{
  int cls = o.spm && (!o.ecm || r.p(0.4)) ? 3 : 0;
  int force = o.force >= 0 ? o.force : r.i(0, 1);
  int level = force == 0 ? r.i(1, std::min(4, o.maxcells)) : r.i(1, std::max(1, o.maxcells / 2 > 3 ? 3 : o.maxcells / 2));
  Node n = gen(r, o, level, o.maxdepth, o.maxcells, cls, r.u(o.soclo, o.sochi), force);
  n.id = "top";
  n.cool = 1;
  return n;
}

inline SU build_cell(const Node &n)
{
  std::unique_ptr<StorageUnit> p;
  if (n.kind == 0) p = std::make_unique<Cell_ECM<0>>(n.id, n.cap, n.soc, n.Rdc, std::array<double, 0>{}, std::array<double, 0>{});
  if (n.kind == 1) p = std::make_unique<Cell_ECM<1>>(n.id, n.cap, n.soc, n.Rdc, std::array<double, 1>{ n.Rp[0] }, std::array<double, 1>{ n.it[0] });
  if (n.kind == 2) p = std::make_unique<Cell_ECM<2>>(n.id, n.cap, n.soc, n.Rdc, std::array<double, 2>{ n.Rp[0], n.Rp[1] }, std::array<double, 2>{ n.it[0], n.it[1] });
  if (n.kind == 3) {
    auto c = std::make_unique<Cell_SPM>(n.id, n.deg, n.capf, n.resf, 1.0, 1.0);
    c->setT(n.T);
    spm_at(*c, n.soc, n.capf);
    p = std::move(c);
  }
  return SU(std::move(p));
}
inline SU build(const Node &n);
inline std::unique_ptr<Module> build_module(const Node &n)
{
  std::vector<SU> v;
  for (auto &c : n.ch) v.push_back(build(c));
  std::unique_ptr<Module> m;
  if (n.parallel)
    m = std::make_unique<Module_p>(n.id, n.Tm, true, n.mt, n.ncells(), n.coolctl, n.cool);
  else
    m = std::make_unique<Module_s>(n.id, n.Tm, true, n.mt, n.ncells(), n.coolctl, n.cool);
  m->setSUs(v, false, false);
  std::vector<double> rc = n.Rc;
  m->setRcontact(rc);
  return m;
}
inline SU build(const Node &n)
{
  if (n.leaf) return build_cell(n);
  return SU(std::unique_ptr<StorageUnit>(build_module(n)));
}

template <class T>
T *as(StorageUnit *p) { return dynamic_cast<T *>(p); }
inline void walk(StorageUnit *p, const std::function<void(StorageUnit *)> &f)
{
  f(p);
  if (auto *m = as<Module>(p))
    for (auto &c : m->getSUs()) walk(c.get(), f);
}
inline std::vector<Cell *> cells(StorageUnit *p)
{
  std::vector<Cell *> v;
  walk(p, [&](StorageUnit *q) { if (auto *c = as<Cell>(q)) v.push_back(c); });
  return v;
}
inline std::vector<Module *> modules(StorageUnit *p)
{
  std::vector<Module *> v;
  walk(p, [&](StorageUnit *q) { if (auto *c = as<Module>(q)) v.push_back(c); });
  return v;
}
// everything the unit reports, for every member
inline std::vector<double> report(StorageUnit *p)
{
  std::vector<double> v;
  walk(p, [&](StorageUnit *q) {
    for (double x : { q->V(), q->I(), q->getOCV(), q->Cap(), q->getRtot(), q->T(), q->Vmin(), q->Vmax(), q->VMIN(), q->VMAX(), q->getVhigh(), q->getVlow(), q->getThotSpot(), (double)q->getNcells() }) v.push_back(x);
    if (auto *c = as<Cell>(q)) v.push_back(c->SOC());
  });
  return v;
}
// terminal voltage seen from each branch of a parallel module, from first principles
inline std::vector<double> branch_voltages(Module *m, const std::vector<double> &Rc)
{
  const size_t n = m->getNSUs();
  std::vector<double> V(n);
  for (size_t i = 0; i < n; i++) {
    double drop = 0;
    for (size_t j = 0; j <= i; j++) {
      double I = 0;
      for (size_t k = j; k < n; k++) I += (*m)[k]->I();
      drop += Rc[j] * I;
    }
    V[i] = (*m)[i]->V() - drop;
  }
  return V;
}
// pairs of (description, module) in the same order
inline void zip(const Node &n, StorageUnit *p, const std::function<void(const Node &, StorageUnit *)> &f)
{
  f(n, p);
  if (auto *m = as<Module>(p))
    for (size_t i = 0; i < n.ch.size(); i++) zip(n.ch[i], (*m)[i].get(), f);
}
// a random step that keeps every leaf well inside its range
struct Drive {
  double I, dt;
  int n;
};
inline Drive random_drive(Rng &r, double cap, double &budget, double dtmax = 2.0, double cmax = 1.0)
{
  Drive d;
  d.dt = r.p(0.5) ? 1.0 : r.logu(0.05, dtmax);
  d.n = r.p(0.5) ? 1 : r.i(1, 10);
  double c = r.p(0.15) ? 0 : r.u(0.02, cmax) * r.sgn();
  double q = c * d.dt * d.n / 3600;
  if (std::fabs(budget + q) > 0.08) c = -c, q = -q;
  budget += q;
  d.I = c * cap;
  return d;
}
} // namespace vm
