// P01 ageing procedures, P02 check-ups, P03 balancing.
// The unit under test is a real cell, module or battery whose top-level object is a subclass that records what it is
// asked to do and then does it; the procedures see an ordinary unit of the type they look for.
#include "vunit.hpp"
#include "procedures/Procedure.hpp"
#include "system/Battery.hpp"
#include <filesystem>
#include <fstream>
#include <sstream>
#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#endif

namespace {
namespace fs = std::filesystem;
struct Trace {
  enum K { SetI,
           SetV,
           Step,
           Block };
  struct E {
    K k;
    double x{};
    int n{ 1 };
    Status st{ Status::Success };
    bool injected{ false }, thrown{ false }, leaf_out{ false };
    double I0{}, I1{}, V1{}, Eop{};
  };
  std::vector<E> ev;
  int depth{ 0 }, nstep{ 0 }, nsetI{ 0 }, nsetV{ 0 };
  int fail_step{ -1 }, fail_setI{ -1 }, fail_setV{ -1 };
  StorageUnit *meas{}; // what the procedure sees
  std::vector<Cell *> leaves;
  std::vector<CoolSystem *> cools;
  double np{ 1 };
};
template <class B>
struct Tr : B {
  using B::B;
  Trace *tr{ nullptr };
  Tr(const B &b) : B(b) {}
  void after(Trace::E &e)
  {
    e.I1 = tr->meas->I(), e.V1 = tr->meas->V();
    for (auto *c : tr->leaves) {
      const double v = c->V();
      if (v > c->Vmax() || v < c->Vmin()) e.leaf_out = true;
    }
    for (auto *c : tr->cools) e.Eop += c->getEoperation();
  }
  Status setCurrent(double I, bool checkV = true, bool print = true) override
  {
    if (!tr || tr->depth > 0) return B::setCurrent(I, checkV, print);
    Trace::E e{ Trace::SetI };
    e.x = I * tr->np;
    e.I0 = tr->meas->I();
    if (tr->nsetI++ == tr->fail_setI) {
      e.injected = true;
      e.st = Status::ParallelUnit_failed;
    } else {
      tr->depth++;
      e.st = B::setCurrent(I, checkV, false);
      tr->depth--;
    }
    tr->ev.push_back(e);
    return e.st;
  }
  Status setVoltage(double V, bool checkI = true, bool print = true) override
  {
    if (!tr || tr->depth > 0) return B::setVoltage(V, checkI, print);
    Trace::E e{ Trace::SetV };
    e.x = V;
    if (tr->nsetV++ == tr->fail_setV) {
      e.injected = true;
      e.st = Status::ParallelUnit_failed;
    } else {
      tr->depth++;
      e.st = B::setVoltage(V, checkI, false);
      tr->depth--;
    }
    tr->ev.push_back(e);
    return e.st;
  }
  void timeStep_CC(double dt, int n = 1) override
  {
    if (!tr || tr->depth > 0) return B::timeStep_CC(dt, n);
    Trace::E e{ Trace::Step };
    e.x = dt, e.n = n;
    if (tr->nstep++ == tr->fail_step) {
      e.injected = e.thrown = true;
      tr->ev.push_back(e);
      throw 101;
    }
    tr->depth++;
    try {
      B::timeStep_CC(dt, n);
    } catch (...) {
      tr->depth--;
      e.thrown = true;
      tr->ev.push_back(e);
      throw;
    }
    tr->depth--;
    after(e);
    tr->ev.push_back(e);
  }
  void setBlockDegAndTherm(bool b) override
  {
    if (tr && tr->depth == 0) {
      Trace::E e{ Trace::Block };
      e.x = b;
      tr->ev.push_back(e);
    }
    B::setBlockDegAndTherm(b);
  }
};

// a battery whose voltage settings are recorded; the currents are recorded by its module
struct TrBattery : Battery {
  using Battery::Battery;
  Trace *tr{ nullptr };
  Status setVoltage(double V, bool checkI = true, bool print = true) override
  {
    if (!tr || tr->depth > 0) return Battery::setVoltage(V, checkI, print);
    Trace::E e{ Trace::SetV };
    e.x = V;
    if (tr->nsetV++ == tr->fail_setV) {
      e.injected = true;
      e.st = Status::ParallelUnit_failed;
    } else {
      tr->depth++;
      e.st = Battery::setVoltage(V, checkI, false);
      tr->depth--;
    }
    tr->ev.push_back(e);
    return e.st;
  }
};

// a unit whose top (the module of a battery, if it is one) records
struct Traced {
  Node n;
  Trace tr;
  SU su;
  StorageUnit *inner{};
  unsigned ns{ 1 }, np{ 1 };
  bool battery{ false };
  double rating{};
  StorageUnit *p() { return su.get(); }
};
template <class B, class... A>
std::unique_ptr<StorageUnit> traced(Trace *t, A &&...a)
{
  auto p = std::make_unique<Tr<B>>(std::forward<A>(a)...);
  p->tr = t;
  return p;
}
std::unique_ptr<StorageUnit> traced_cell(const Node &n, Trace *t)
{
  if (n.kind == 0) return traced<Cell_ECM<0>>(t, n.id, n.cap, n.soc, n.Rdc, std::array<double, 0>{}, std::array<double, 0>{});
  if (n.kind == 1) return traced<Cell_ECM<1>>(t, n.id, n.cap, n.soc, n.Rdc, std::array<double, 1>{ n.Rp[0] }, std::array<double, 1>{ n.it[0] });
  if (n.kind == 2) return traced<Cell_ECM<2>>(t, n.id, n.cap, n.soc, n.Rdc, std::array<double, 2>{ n.Rp[0], n.Rp[1] }, std::array<double, 2>{ n.it[0], n.it[1] });
  auto c = std::make_unique<Tr<Cell_SPM>>(n.id, n.deg, n.capf, n.resf, 1.0, 1.0);
  c->setT(n.T);
  spm_at(*c, n.soc, n.capf);
  c->tr = t;
  return c;
}
std::unique_ptr<Module> traced_module(const Node &n, Trace *t)
{
  std::vector<SU> v;
  for (auto &c : n.ch) v.push_back(build(c));
  std::unique_ptr<Module> m;
  auto mk = [&](auto q) {
    q->tr = t;
    m = std::move(q);
  };
  if (n.parallel)
    mk(std::make_unique<Tr<Module_p>>(n.id, n.Tm, true, false, n.ncells(), n.coolctl, n.cool));
  else
    mk(std::make_unique<Tr<Module_s>>(n.id, n.Tm, true, false, n.ncells(), n.coolctl, n.cool));
  m->setSUs(v, false, false);
  std::vector<double> rc = n.Rc;
  m->setRcontact(rc);
  return m;
}
void cool_systems(StorageUnit *p, std::vector<CoolSystem *> &v)
{
  if (auto *b = as<Battery>(p)) {
    v.push_back(b->getCoolSystem());
    return cool_systems(b->getCells(), v);
  }
  if (auto *m = as<Module>(p)) {
    v.push_back(m->getCoolSystem());
    for (auto &c : m->getSUs()) cool_systems(c.get(), v);
  }
}
// trace = nullptr: the same unit without recording
void build_traced(Traced &t, bool rec = true)
{
  Trace *tr = rec ? &t.tr : nullptr;
  if (t.n.leaf) {
    t.su = rec ? SU(traced_cell(t.n, tr)) : build_cell(t.n);
    t.inner = t.su.get();
  } else {
    t.n.cool = t.battery ? 2 : 1;
    auto m = rec ? traced_module(t.n, tr) : build_module(t.n);
    t.inner = m.get();
    if (t.battery) {
      auto b = std::make_unique<TrBattery>("b" + t.n.id);
      if (rec) b->tr = tr;
      b->setSeriesandParallel(t.ns, t.np);
      b->setModule(Deep_ptr<Module>(std::move(m)));
      t.su = SU(std::unique_ptr<StorageUnit>(std::move(b)));
    } else
      t.su = SU(std::unique_ptr<StorageUnit>(std::move(m)));
  }
  t.tr.meas = t.su.get();
  t.tr.leaves = cells(t.inner);
  cool_systems(t.su.get(), t.tr.cools);
  t.tr.np = t.battery ? t.np : 1;
  t.rating = t.su->Cap() * t.su->Vmax();
}

// small trees: few cells, because every check-up measures the capacity of each of them
Node small_tree(Rng &r, bool spm, int shape)
{
  Opt o;
  o.soclo = 0.4, o.sochi = 0.7, o.socspread = 0.01, o.rcap_hi = 0.08;
  const double soc = r.u(o.soclo, o.sochi);
  auto leaf = [&](int cls) { return gen_leaf(r, o, cls, soc); };
  auto inner = [&](bool par, std::vector<Node> ch) {
    Node n;
    n.leaf = false, n.parallel = par, n.coolctl = r.i(1, 5), n.Tm = r.u(283, 305);
    for (size_t i = 0; i < ch.size(); i++) ch[i].id = (ch[i].leaf ? "c" : ch[i].parallel ? "p" : "s") + std::to_string(i);
    n.ch = std::move(ch);
    const bool z = r.p(0.5);
    for (size_t i = 0; i < n.ch.size(); i++) n.Rc.push_back(z ? 0 : r.u(0, 1e-4));
    return n;
  };
  Node n;
  const int cls = spm ? 3 : 0;
  switch (shape) {
  case 0: n = leaf(cls); break;
  case 1: { // series
    std::vector<Node> v;
    for (int i = r.i(1, spm ? 2 : 4); i > 0; i--) v.push_back(leaf(cls));
    n = inner(false, v);
    break;
  }
  case 2: { // parallel
    std::vector<Node> v;
    for (int i = r.i(2, 3); i > 0; i--) v.push_back(leaf(cls));
    n = inner(true, v);
    break;
  }
  case 3: { // series of parallel and single
    std::vector<Node> v;
    for (int i = r.i(1, 2); i > 0; i--) v.push_back(inner(true, { leaf(cls), leaf(cls) }));
    if (r.p(0.3)) v.push_back(leaf(cls));
    n = inner(false, v);
    break;
  }
  case 4: { // parallel of series
    n = inner(true, { inner(false, { leaf(cls), leaf(cls) }), inner(false, { leaf(cls), leaf(cls) }) });
    break;
  }
  default: { // series of two kinds of cell
    n = inner(false, { leaf(3), leaf(0) });
    if (r.p(0.5)) n = inner(false, { leaf(0), leaf(3) });
  }
  }
  double base = 16 * (spm || shape == 5 ? 1 : r.u(0.5, 2));
  even(r, n, base, 0.01);
  if (shape == 4) // a string of cells between the rails: level them
    for (auto &s : n.ch)
      for (auto &l : s.ch) l.soc = soc + r.u(-0.003, 0.003);
  return n;
}
struct Csv {
  std::vector<std::string> raw;
  std::vector<std::vector<std::string>> f;
};
Csv read_csv(const fs::path &p)
{
  Csv c;
  std::ifstream in(p);
  std::string l;
  while (std::getline(in, l)) {
    c.raw.push_back(l);
    std::vector<std::string> v;
    std::string x;
    std::stringstream s(l);
    while (std::getline(s, x, ',')) v.push_back(x);
    if (!l.empty() && l.back() == ',') v.push_back("");
    c.f.push_back(v);
  }
  return c;
}
double num(const std::string &s, bool &good)
{
  char *e;
  const double d = strtod(s.c_str(), &e);
  if (s.empty() || *e) good = false;
  return d;
}
struct Row {
  std::string id;
  std::vector<double> v; // 4 variations, Ah, cycle, time, Ah, Wh, capacity, states
};
// blocks of a check-up file
std::vector<std::vector<Row>> checkups(Ctx &c, const std::string &id)
{
  const std::string name = id + "_checkUp.csv";
  fs::path p = fs::exists(name) ? fs::path(name) : PathVar::results / name;
  std::vector<std::vector<Row>> out;
  if (!c.ok(fs::exists(p), "check-up-file-missing", name)) return out;
  const auto csv = read_csv(p);
  size_t ncol = 0;
  for (size_t i = 0; i < csv.f.size(); i++) {
    const auto &f = csv.f[i];
    if (f.empty()) continue;
    if (f[0] == "ID") {
      out.emplace_back();
      ncol = f.size();
      c.ok(ncol == 12, "check-up-header", csv.raw[i]);
      continue;
    }
    if (!c.ok(!out.empty(), "check-up-rows-before-header", csv.raw[i])) return out;
    Row w;
    w.id = f[0];
    bool good = f.size() >= ncol;
    for (size_t k = 1; k < f.size(); k++) w.v.push_back(num(f[k], good));
    c.ok(good, "check-up-row-malformed", csv.raw[i]);
    if (w.v.size() < 10) w.v.resize(10, NAN);
    out.back().push_back(w);
  }
  for (auto &b : out) c.ev("check-up-rows", b.size());
  return out;
}
void forget(const std::string &id)
{
  for (const char *s : { "_checkUp.csv", "_throughput.csv", "_state.csv", "_checkModules_overall.csv", "_checkModules_histograms.csv" }) {
    std::error_code e;
    fs::remove(id + s, e);
    fs::remove(PathVar::results / (id + s), e);
  }
}
double conv_losses(double rating, double Vin, double Iin) // see B01
{
  const double n = std::ceil(rating / 200e3);
  const double I = std::fabs(Iin) / n, sI = Iin / n;
  auto igbt = [](double i) { i = std::fabs(i); return i > 30 ? 1 + 2.0 / 270 * (i - 30) : i / 30; };
  const double Idc = sI * Vin / 1500, a = std::fabs(Idc);
  const double dc = I * igbt(I) * (1 + 2 * Vin / 1500) + 8000 * (6 + 0.1 * std::fabs(sI - 50)) * 1e-3;
  const double Eac = (6 + 0.1 * std::fabs(Idc - 50)) * 1e-3;
  const double ac = a * igbt(a) * 3 + 6 * 8000 * (2 * Eac + 1e-3);
  const double w = 2 * 3.14159265358979323846 * 8000 * 3e-3;
  return n * (dc + ac + 13.6e-3 * w * w + 3 * 13.6e-3 * Idc * Idc + 13.6e-3 * I * I);
}

struct Tok {
  char t{};
  double Ah{}, Wh{}, time{}, loss{}, Eop{}, Ilast{ 1e9 }, Vlast{};
  bool leaf_out{ false }, refused{ false }, fault{ false }, badV{ false };
};
std::string str(const std::vector<Tok> &v)
{
  std::string s;
  for (auto &t : v) s += t.t;
  return s;
}
// what the procedure did, phase by phase
std::vector<Tok> tokens(Ctx &c, Traced &t, double Ip, double Ic, double Id, double Ic2 = 0, double Id2 = 0)
{
  std::vector<Tok> v;
  bool blocked = false;
  double skip = NAN;
  const double tol = 1e-9 * std::fabs(Ic);
  auto near = [&](double x, double y) { return std::fabs(x - y) <= tol; };
  for (auto &e : t.tr.ev) {
    if (e.k == Trace::Block) {
      c.ok(blocked != (e.x != 0), "block-toggled-twice", t.n.shape());
      blocked = e.x != 0;
      if (blocked) v.push_back({ 'B' });
      continue;
    }
    if (blocked) continue;
    if (e.k == Trace::SetI || e.k == Trace::SetV) {
      char ch;
      if (e.k == Trace::SetV)
        ch = 'V';
      else if (near(e.x, Ip)) // the slow charge before a check-up
        ch = 'P';
      else if (near(e.x, Ic))
        ch = 'C';
      else if (near(e.x, Id))
        ch = 'D';
      else if (Ic2 != 0 && near(e.x, Ic2))
        ch = 'c';
      else if (Id2 != 0 && near(e.x, Id2))
        ch = 'd';
      else if (e.x == 0 && Ic2 != 0)
        ch = 'R';
      else
        ch = 'V';
      if (e.k == Trace::SetI && !std::isnan(skip) && near(e.x, skip)) { // a refused current is undone
        skip = NAN;
        continue;
      }
      skip = NAN;
      const bool first = v.empty() || v.back().t != ch;
      if (first) v.push_back({ ch });
      auto &k = v.back();
      if (isStatusVoltageLimitsViolated(e.st)) {
        if (ch == 'V')
          k.badV = true;
        else
          k.refused = true, skip = e.I0;
      } else if (e.injected && ch == 'V' && e.k == Trace::SetI) // one of the trial currents of a voltage search
        k.badV = true;
      else if (e.injected && (first || ch == 'V'))
        k.fault = true;
      else if (isStatusBad(e.st) && ch == 'V')
        k.badV = true;
      continue;
    }
    if (!c.ok(!v.empty(), "step-before-current", t.n.shape())) return v;
    auto &k = v.back();
    if (e.thrown) {
      k.fault = true;
      continue;
    }
    const double dt = e.x * e.n;
    const double I = k.t == 'V' ? e.I1 : k.t == 'R' ? 0 : k.t == 'C' ? Ic : k.t == 'D' ? Id : k.t == 'c' ? Ic2 : k.t == 'd' ? Id2 : Ip;
    if (k.t != 'V' && k.t != 'R') c.eq(e.I1, I, 1e-6, 1e-9 * std::fabs(Ic), "phase-current", fmt("phase %c of %s", k.t, t.n.shape().c_str()));
    const double dAh = std::fabs(I) * dt / 3600;
    k.Ah += dAh, k.Wh += dAh * e.V1, k.time += dt;
    k.Eop = e.Eop;
    k.Ilast = e.I1, k.Vlast = e.V1;
    if (t.battery) k.loss += conv_losses(t.rating, e.V1, e.I1) * dt;
    k.leaf_out = k.leaf_out || e.leaf_out;
    c.ev("traced-steps");
  }
  c.ok(!blocked, "left-blocked", t.n.shape());
  return v;
}
struct Plan {
  std::string seq;        // expected phases
  std::vector<int> cycle; // the cycle each belongs to
};
void check_throughput(Ctx &c, Traced &t, const std::vector<Tok> &v, const std::vector<char> &row, const std::string &id, bool header, bool last_optional, const std::string &what)
{
  const auto csv = read_csv(PathVar::results / (id + "_throughput.csv"));
  size_t r0 = 0;
  if (!csv.f.empty() && !csv.f[0].empty() && csv.f[0][0].find("throughput") != std::string::npos) {
    r0 = 1;
    c.ok(csv.f[0].size() == 4, "throughput-header", csv.raw[0]);
  } else if (header)
    c.violation("throughput-header-missing", what);
  size_t want = 0;
  for (char b : row) want += b;
  const size_t got = csv.f.size() - r0;
  c.ok(got == want || (last_optional && got + 1 == want), "throughput-rows", fmt("%zu rows, %zu phases recorded; ", got, want) + what);
  double Ah = 0, Wh = 0, loss = 0;
  size_t k = r0;
  double Eop = 0;
  for (size_t i = 0; i < v.size() && k < csv.f.size(); i++) {
    loss += v[i].loss;
    if (v[i].time > 0) Eop = v[i].Eop;
    if (v[i].t == 'P' || v[i].t == 'B') continue;
    Ah += v[i].Ah, Wh += v[i].Wh;
    if (!row[i]) continue;
    const auto &f = csv.f[k++];
    bool good = f.size() == 4;
    double x[4]{};
    for (size_t j = 0; j < 4 && j < f.size(); j++) x[j] = num(f[j], good);
    if (!c.ok(good, "throughput-row-malformed", csv.raw[k - 1])) return;
    const auto d = fmt("row %zu ", k - r0) + what;
    c.eq(x[0], Ah, 1e-5, 1e-9, "throughput-charge", d);
    c.eq(x[1], Wh, t.battery ? 1e-4 : 1e-5, 1e-9, "throughput-energy", d); // a battery updates its temperatures after the trace has read the voltage
    if (t.battery) {
      c.le(Eop / 3600 * (1 - 1e-5), x[2], 1e-12, "throughput-cooling", d);
      c.eq(x[3], loss / 3600, 1e-5, 1e-9, "throughput-losses", d);
      c.ev("converter-rows");
    } else {
      c.eq(x[2], Eop / 3600, 1e-5, 1e-9, "throughput-cooling", d);
      if (Eop > 0) c.ev("cooling-rows");
      c.ok(x[3] == 0, "throughput-losses", d);
    }
    Eop = 0, loss = 0;
    c.ev("throughput-rows");
  }
}
void check_checkups(Ctx &c, Traced &t, const std::vector<Tok> &v, const std::vector<int> &cyc, const std::string &id, bool balanced, const std::string &what)
{
  const auto b = checkups(c, id);
  size_t np = 0;
  for (auto &k : v) np += k.t == 'P';
  if (!c.ok(b.size() == np, "check-up-blocks", fmt("%zu blocks, %zu check-ups; ", b.size(), np) + what)) return;
  double cellAh = 0, Ah = 0, time = 0;
  size_t j = 0;
  for (size_t i = 0; i < v.size(); i++) {
    cellAh += v[i].Ah / t.tr.np;
    time += v[i].time;
    if (v[i].t != 'P') {
      Ah += v[i].Ah;
      continue;
    }
    const auto &rows = b[j++];
    if (!c.ok(rows.size() == t.tr.leaves.size(), "check-up-row-count", what)) continue;
    for (size_t k = 0; k < rows.size(); k++) {
      c.ok(rows[k].id == t.tr.leaves[k]->getFullID(), "check-up-row-id", rows[k].id + " " + what);
      c.eq(rows[k].v[4], Ah, 1e-5, 1e-9, "check-up-throughput", what);
      if (cyc[i] >= 0) c.eq(rows[k].v[5], cyc[i], 1e-5, 0, "check-up-cycle-number", what);
      if (!balanced) {
        c.eq(rows[k].v[6], time, 1e-5, 1e-6, "check-up-cell-time", what);
        if (!t.n.has_parallel()) c.eq(rows[k].v[7], cellAh, 1e-5, 1e-9, "check-up-cell-throughput", what);
        c.ev("cell-counters");
      }
      c.ok(rows[k].v[9] > 0.2 * t.tr.leaves[k]->Cap() && rows[k].v[9] < 1.4 * t.tr.leaves[k]->Cap(), "check-up-capacity", fmt("%g of %g Ah ", rows[k].v[9], t.tr.leaves[k]->Cap()) + what);
    }
  }
}
struct Cyc {
  int N{ 1 }, Ncheck{ 0 }, Nbal{ 0 };
  bool bal{ false }, cv{ false }, full{ false };
  double Cc{ 1 }, Cd{ 1 }, Vhi{}, Vlo{};
};
void judge_cycles(Ctx &c, Traced &t, const Cyc &q, const std::string &id, bool standard)
{
  const double cap = t.p()->Cap();
  const auto what = fmt("%s N=%d check=%d bal=%d(%d) cv=%d C=%.3g/%.3g V=%.3g..%.3g battery=%ux%u fault=%d/%d/%d", t.n.shape().c_str(), q.N, q.Ncheck, q.Nbal, q.bal, q.cv, q.Cc, q.Cd, q.Vlo, q.Vhi, t.battery ? t.ns : 0, t.battery ? t.np : 0, t.tr.fail_step, t.tr.fail_setI, t.tr.fail_setV);
  auto v = tokens(c, t, -cap / 25, -q.Cc * cap, q.Cd * cap);
  // expected
  std::string want;
  std::vector<int> cyc;
  auto add = [&](char ch, int i) { want += ch, cyc.push_back(i); };
  for (int i = 0; i < q.N; i++) {
    if (q.bal && q.Nbal > 0 && i % q.Nbal == 0) add('B', i);
    if (q.Ncheck > 0 && i % q.Ncheck == 0) add('P', i);
    add('C', i);
    if (q.cv) add('V', i);
    add('D', i);
    if (q.cv) add('V', i);
  }
  add('P', q.N);
  std::string got = str(v);
  // a constant-voltage phase that has nothing to do leaves no trace
  if (q.cv) {
    std::vector<Tok> w;
    size_t j = 0;
    for (size_t i = 0; i < want.size() && j < v.size(); i++) {
      if (v[j].t == want[i])
        w.push_back(v[j++]);
      else if (want[i] == 'V' && v[j].t != 'P' && v[j].t != 'B') {
        w.push_back({ 'V' });
        w.back().Ilast = 0;
      } else if (want[i] == 'V' && j > 0 && i + 1 < want.size() && std::fabs(v[j - 1].Ilast) < 0.1 && want[i + 1] == v[j].t) {
        w.push_back({ 'V' });
        w.back().Ilast = 0;
      } else
        break;
    }
    for (; j < v.size(); j++) w.push_back(v[j]);
    v = w;
    got = str(v);
  }
  const bool complete = got == want;
  bool truncated = !complete && !v.empty() && v.size() < want.size() && got.back() == 'P' && want.compare(0, got.size() - 1, got, 0, got.size() - 1) == 0 && got.size() >= 2;
  c.seen("cycle-sequences", vh::hs(got.c_str()));
  if (!c.ok(complete || truncated, "cycle-sequence", fmt("did %.300s expected %.300s; ", got.c_str(), want.c_str()) + what)) return;
  c.ev("cycles", std::count(got.begin(), got.end(), 'D'));
  const Tok *last = nullptr;
  size_t il = 0;
  if (truncated) {
    il = v.size() - 2;
    while (il > 0 && (v[il].t == 'P' || v[il].t == 'B')) il--; // stopped before anything else of a cycle happened
    last = &v[il];
    cyc.resize(v.size());
    cyc.back() = cyc[v.size() - 2]; // cycles completed
    if (last->fault)
      c.ev("stopped-by-fault");
    else if (last->leaf_out || last->refused) {
      if (q.full)
        c.violation("stopped-at-cell-limit", fmt("stopped in cycle %d because a cell passed its own limit while the unit has not reached its own; ", cyc[il]) + what);
      c.inconclusive++;
      c.ev("stopped-at-cell-limit");
    } else if (last->t == 'V' && (last->badV || std::fabs(last->Ilast) < 0.01)) {
      c.inconclusive++;
      c.ev("stopped-in-cv");
    } else if (last->t == 'C' && last->Ah < 1e-5)
      c.ev("stopped-nothing-charged");
    else
      c.violation("stopped-early", fmt("stopped after phase %zu (%c, cycle %d): did %.200s; ", il, last->t, cyc[il], got.c_str()) + what);
  } else {
    c.ev("cycles-completed", q.N);
    for (size_t i = 0; i + 2 < v.size(); i++) // a failure is never passed over
      if (v[i].fault && v[i].t != 'P' && v[i].t != 'B') c.violation("fault-passed-over", fmt("failure in phase %zu (%c), went on: %.200s; ", i, v[i].t, got.c_str()) + what);
  }
  // phases end where they should
  for (size_t i = 0; i < v.size(); i++) {
    if (v[i].fault || v[i].refused || v[i].leaf_out || v[i].time == 0 || &v[i] == last) continue;
    if (v[i].t == 'C') c.le(q.Vhi, v[i].Vlast, 1e-12, "charge-ended-early", what);
    if (v[i].t == 'D') c.le(v[i].Vlast, q.Vlo, 1e-12, "discharge-ended-early", what);
    if (v[i].t == 'V' && v[i].Ilast != 1e9) c.le(std::fabs(v[i].Ilast), 0.1, 1e-12, "cv-ended-early", what);
  }
  // records
  std::vector<char> row(v.size(), 0);
  for (size_t i = 0; i < v.size(); i++) {
    const bool failed = last == &v[i];
    if (v[i].t == 'C') row[i] = !failed || (v[i].Ah < 1e-5 && !v[i].fault && !v[i].refused && !v[i].leaf_out);
    if (v[i].t == 'V') row[i] = !failed;
    if (v[i].t == 'D') row[i] = 1;
  }
  const bool unsure = v.size() >= 2 && (v[v.size() - 2].t == 'V' || v[v.size() - 2].fault || v[v.size() - 2].t == 'C');
  if (complete && unsure) cyc.back() = -1; // the last phase may have failed
  check_throughput(c, t, v, row, id, true, unsure, what);
  check_checkups(c, t, v, cyc, id, q.bal && q.Nbal > 0, what);
  (void)standard;
}
// per-cell limits that no member can pass before the unit does
Cyc rand_cyc(Rng &r, Traced &t, bool spm)
{
  Cyc q;
  q.N = r.i(1, spm ? 2 : 5);
  q.Ncheck = r.p(0.2) ? 0 : r.i(1, 4);
  q.bal = r.p(0.35);
  q.Nbal = r.p(0.2) ? 0 : r.i(1, 3);
  q.cv = r.p(0.4);
  q.Cc = r.u(0.3, 0.8), q.Cd = r.u(0.3, 1.2);
  const double m = t.p()->Vmax() / 4.2;
  q.Vhi = r.u(4.0, 4.08) * m;
  q.Vlo = r.u(3.3, 3.5) * m;
  return q;
}
Traced *new_traced(Rng &r, int k, const char *pre, bool spm, int shape)
{
  auto *t = new Traced;
  t->n = small_tree(r, spm, shape);
  t->n.id = pre + std::to_string(k);
  t->battery = !t->n.leaf && r.p(0.35);
  if (t->battery && r.p(0.6)) t->ns = r.i(1, 8), t->np = r.i(1, 8);
  build_traced(*t);
  return t;
}
} // namespace

VH_PROP(P01)
{
  auto &c = cx;
  auto few = [&](int a, int b) { return c.scale(a, b) / (settings::T_MODEL ? 3 : 1); };
  auto one = [&](Rng &r, int k, const char *pre, bool spm, bool faults) {
    const int shape = spm ? r.i(0, 1) : r.i(0, 4);
    std::unique_ptr<Traced> t(new_traced(r, k, pre, spm, shape));
    auto q = rand_cyc(r, *t, spm);
    const auto id = t->p()->getFullID();
    forget(id);
    if (r.p(0.3)) std::ofstream(PathVar::results / (id + "_throughput.csv")) << "left over from another run\n";
    if (faults) {
      q.N = std::max(q.N, 2);
      const int f = r.i(0, 2);
      if (f == 0) t->tr.fail_step = r.i(0, 12000);
      if (f == 1) t->tr.fail_setI = r.p(0.5) ? r.i(0, 60) : r.i(0, 12000);
      if (f == 2) q.cv = true, t->tr.fail_setV = r.p(0.3) ? 0 : (int)r.logu(1, 600);
      if (f == 2 && t->battery) t->tr.fail_setV = -1, t->tr.fail_step = r.i(0, 12000);
    }
    Procedure p(q.bal, r.u(3.5, 3.8), 0, r.p(0.7));
    p.cycleAge(t->p(), q.N, q.Ncheck, q.Nbal, q.cv, q.Cc, q.Cd, q.Vhi, q.Vlo);
    judge_cycles(c, *t, q, id, false);
    if (k < 3) c.sample(fmt("%s: %zu events, %d cycles", t->n.shape().c_str(), t->tr.ev.size(), q.N));
    forget(id);
  };
  c.run("cycle-ecm", few(48, 600), [&](Rng &r, int k) { one(r, k, "ce", false, false); });
  c.run("cycle-spm", few(16, 120), [&](Rng &r, int k) { one(r, k, "cs", true, false); });
  c.run("cycle-faults", few(56, 800), [&](Rng &r, int k) { one(r, k, "cf", r.p(0.1), true); });
  c.run("no-room", few(16, 100), [&](Rng &r, int k) { // nothing can be charged: the procedure ends with its records
    std::unique_ptr<Traced> t(new_traced(r, k, "nr", false, r.i(0, 2)));
    Cyc q;
    q.N = r.i(2, 6), q.Ncheck = r.i(0, 2);
    const double m = t->p()->Vmax() / 4.2;
    q.Vhi = r.u(3.0, 3.2) * m, q.Vlo = 2.9 * m;
    const auto id = t->p()->getFullID();
    forget(id);
    Procedure p(false, 3.65, 0, true);
    p.cycleAge(t->p(), q.N, q.Ncheck, q.Nbal, false, q.Cc, q.Cd, q.Vhi, q.Vlo);
    judge_cycles(c, *t, q, id, false);
    forget(id);
  });
  c.run("full-range", few(6, 30), [&](Rng &r, int k) { // the standard settings use the whole voltage range of the unit
    std::unique_ptr<Traced> t(new_traced(r, k, "fr", false, k % 3 == 0 ? 0 : k % 3 == 1 ? 2 : 1));
    Cyc q;
    q.N = 15, q.Ncheck = 250, q.Nbal = 10, q.bal = r.p(0.5), q.full = true;
    q.Vhi = t->p()->Vmax(), q.Vlo = t->p()->Vmin();
    const auto id = t->p()->getFullID();
    forget(id);
    Procedure p(q.bal, 3.65, 0, true);
    p.cycleAge(t->p(), false);
    judge_cycles(c, *t, q, id, true);
    forget(id);
  });
  c.run("state-file", c.scale(10, 60), [&](Rng &r, int k) {
    std::unique_ptr<Traced> t(new_traced(r, k, "sf", false, r.i(0, 3)));
    auto q = rand_cyc(r, *t, false);
    q.N = r.i(1, 3), q.Ncheck = 0, q.bal = false;
    const auto id = t->p()->getFullID();
    forget(id);
    Procedure p(false, 3.65, 0, false);
    p.cycleAge(t->p(), q.N, q.Ncheck, 0, false, q.Cc, q.Cd, q.Vhi, q.Vlo);
    const auto csv = read_csv(PathVar::results / (id + "_state.csv"));
    std::vector<double> s;
    t->p()->getStates(s);
    if (c.ok(csv.raw.size() == s.size() + 1, "state-file-length", fmt("%zu lines for %zu states", csv.raw.size(), s.size()))) {
      bool good = true;
      const double cap = t->p()->Cap();
      const auto got = str(tokens(c, *t, -cap / 25, -q.Cc * cap, q.Cd * cap));
      c.eq(num(csv.raw[0], good), std::count(got.begin(), got.end(), 'C') - 1, 0, 0, "state-file-cycle", got + " " + t->n.shape()); // the cycle begun last
      for (size_t i = 1; i < csv.raw.size(); i++) num(csv.raw[i], good);
      c.ok(good, "state-file-malformed", t->n.shape());
    }
    c.ev("state-files");
    forget(id);
  });
  c.run("use-case", few(2, 16), [&](Rng &r, int k) {
    std::unique_ptr<Traced> t(new_traced(r, k, "uc", false, k % 2 ? 2 : 0));
    const auto id = t->p()->getFullID();
    forget(id);
    const double cap = t->p()->Cap();
    if (r.p(0.4)) t->tr.fail_step = r.i(0, 60000);
    const bool bal = r.p(0.5);
    Procedure p(bal, 3.65, 0, true);
    p.useCaseAge(t->p(), 1);
    auto v = tokens(c, *t, -cap / 25, -cap, cap, -cap / 2, cap / 2);
    std::string want = "d", got = str(v);
    std::vector<int> cyc{ -1 };
    auto add = [&](const std::string &s, int i) { for (char ch : s) want += ch, cyc.push_back(i); };
    for (int i = 0; i < 20; i++) {
      if (bal && i % 7 == 0) add("B", i);
      if (i % 10 == 0) add("P", i);
      add("RCRDRcRdR", i);
      if (i < 19 && !(bal && (i + 1) % 7 == 0) && (i + 1) % 10 != 0) want.pop_back(), cyc.pop_back(); // joins the next rest
    }
    add("P", 20);
    const auto what = fmt("%s battery %d balance %d fault %d", t->n.shape().c_str(), t->battery, bal, t->tr.fail_step);
    bool fault = false;
    for (auto &x : v) fault = fault || (x.fault && x.t != 'P');
    const bool stopped = got != want && got.size() >= 2 && got.back() == 'P' && want.compare(0, got.size() - 1, got, 0, got.size() - 1) == 0;
    c.ok(got == want || (stopped && fault), "use-case-sequence", fmt("did %.200s expected %.200s; ", got.c_str(), want.c_str()) + what);
    c.ev(got == want ? "use-cases-completed" : "use-cases-stopped");
    if (got == want && !fault) {
      int rows = 0;
      double Ah = 0;
      // the rests of neighbouring cycles cannot be told apart in the trace, their records can
      for (auto &x : v)
        if (x.t != 'P' && x.t != 'B') Ah += x.Ah;
      for (auto &x : v)
        if (x.t == 'R') {
          const double h = x.time / 3600;
          c.ok(std::fabs(h - 1) < 1e-6 || std::fabs(h - 4) < 1e-6 || std::fabs(h - 5) < 1e-6 || std::fabs(h - 9) < 1e-6, "use-case-rest", fmt("%g h ", h) + what);
        }
      const auto csv = read_csv(PathVar::results / (id + "_throughput.csv"));
      double prev = 0;
      c.ok(!csv.f.empty() && csv.f[0].size() == 4 && csv.f[0][0].find("throughput") != std::string::npos, "throughput-header-missing", what);
      for (size_t i = 1; i < csv.f.size(); i++) {
        bool good = csv.f[i].size() == 4;
        if (!c.ok(good, "throughput-row-malformed", csv.raw[i])) continue;
        const double a = num(csv.f[i][0], good);
        c.le(prev, a, 1e-9, "throughput-charge", "not cumulative " + what);
        if (rows % 9 == 0 || rows % 9 == 2 || rows % 9 == 4 || rows % 9 == 6 || rows % 9 == 8)
          if (rows > 0) c.eq(a, prev, 1e-6, 0, "throughput-charge", "rest row " + what);
        prev = a;
        rows++;
      }
      c.ok(rows == 180, "throughput-rows", fmt("%d rows ", rows) + what);
      c.eq(prev, Ah, 1e-5, 1e-9, "throughput-charge", "total " + what);
      const auto b = checkups(c, id);
      if (c.ok(b.size() == 3, "check-up-blocks", what))
        for (size_t i = 0; i < 3; i++)
          for (auto &w : b[i]) c.eq(w.v[5], i * 10.0, 0, 0, "check-up-cycle-number", what);
    }
    forget(id);
  });
}

namespace {
// the states and reports of a unit of any kind
std::vector<double> whole(StorageUnit *p)
{
  std::vector<double> v;
  p->getStates(v);
  for (double x : { p->V(), p->I(), p->T(), p->getOCV(), p->getThotSpot(), (double)p->getNcells() }) v.push_back(x);
  StorageUnit *q = p;
  if (auto *b = as<Battery>(p)) q = b->getCells();
  auto w = report(q);
  v.insert(v.end(), w.begin(), w.end());
  for (auto *c : cells(q)) {
    auto th = c->getThroughputs();
    for (double x : { th.time(), th.Ah(), th.Wh() }) v.push_back(x);
  }
  std::vector<CoolSystem *> cs;
  cool_systems(p, cs);
  for (auto *s : cs)
    for (double x : { s->T(), s->getTotalTime(), s->getHeatEvac(), s->getHeatabsorbed(), s->getEoperation() }) v.push_back(x);
  return v;
}
} // namespace

VH_PROP(P02)
{
  auto &c = cx;
  auto drive = [](StorageUnit *p, Rng &r, int n) {
    double budget = 0;
    for (int i = 0; i < n; i++) {
      auto d = random_drive(r, p->Cap(), budget, 1.0, 0.6);
      if (!isStatusSuccessful(p->setCurrent(d.I, false, false))) continue;
      try {
        p->timeStep_CC(d.dt, d.n);
      } catch (int) {
      }
    }
  };
  auto one = [&](Rng &r, int k, bool spm, int shape) {
    auto mk = [&](Rng q) {
      auto t = std::make_unique<Traced>();
      t->n = small_tree(q, spm, shape);
      if (spm) {
        std::function<void(Node &)> f = [&](Node &n) { if (n.leaf && n.kind == 3) n.deg = deg_rand(q); for (auto &x : n.ch) f(x); };
        if (q.p(0.5)) f(t->n);
      }
      t->n.id = "ck" + std::to_string(k) + (spm ? "s" : "e") + std::to_string(shape);
      t->battery = !t->n.leaf && q.p(0.4);
      if (t->battery) t->ns = q.i(1, 4), t->np = q.i(1, 4);
      build_traced(*t, false);
      drive(t->p(), q, q.i(0, 15));
      if (q.p(0.5)) t->p()->setCurrent(0, false, false);
      return t;
    };
    Rng q(r.next());
    auto A = mk(q), B = mk(q);
    const auto id = A->p()->getFullID();
    forget(id);
    const auto what = A->n.shape() + (A->battery ? " battery" : "");
    c.ok(whole(A->p()) == whole(B->p()), "twins-differ", what);
    Procedure p(false, 3.65, 0, r.p(0.5));
    const double Ah = r.p(0.2) ? 0 : r.u(1, 500);
    const int cyc = r.i(0, 999);
    const int reps = r.i(1, 2);
    for (int n = 0; n < reps; n++) {
      if (q.p(0.4)) { // the file of the modules holds the last check
        p.checkMod(A->p());
        c.ev("earlier-module-checks");
      }
      if (n > 0) { // used in between
        const auto s = q.next();
        const int m = q.i(0, 8);
        Rng ra(s), rb(s);
        drive(A->p(), ra, m), drive(B->p(), rb, m);
      }
      p.checkUp(A->p(), Ah, cyc);
      // the only documented effect: a slow charge to the voltage the measurements start from
      ThroughputData th{};
      Cycler(B->p(), "x").setDiagnostic(true).CC(-B->p()->Cap() / 25, 0.75 * B->p()->Vmax() + 0.25 * B->p()->Vmin(), TIME_INF, 2, 0, th);
      const auto a = whole(A->p()), b = whole(B->p());
      bool same = a.size() == b.size();
      size_t at = 0;
      for (size_t i = 0; same && i < a.size(); i++)
        if (a[i] != b[i]) same = false, at = i;
      c.ok(same, "unit-changed", fmt("entry %zu of %zu: %.17g instead of %.17g ", at, a.size(), at < a.size() ? a[at] : 0, at < b.size() ? b[at] : 0) + what);
      if (th.time() > 0) c.ev("slow-charges");
      c.ev("units-compared");
    }
    const auto blocks = checkups(c, id);
    if (c.ok((int)blocks.size() == reps, "check-up-blocks", what)) {
      const auto &rows = blocks.back();
      const auto cs = B->tr.leaves;
      if (c.ok(rows.size() == cs.size(), "check-up-row-count", fmt("%zu rows for %zu cells ", rows.size(), cs.size()) + what))
        for (size_t i = 0; i < cs.size(); i++) {
          auto &w = rows[i];
          const auto d = w.id + " of " + what;
          c.ok(w.id == A->tr.leaves[i]->getFullID(), "row-id", d);
          const auto var = cs[i]->getVariations();
          for (int j = 0; j < 4; j++) c.eq(w.v[j], var[j], 1e-5, 1e-12, "row-variation", d);
          c.eq(w.v[4], Ah, 1e-5, 0, "row-throughput", d);
          c.eq(w.v[5], cyc, 0, 0, "row-cycle", d);
          auto th = cs[i]->getThroughputs();
          c.eq(w.v[6], th.time(), 1e-5, 1e-12, "row-time", d);
          c.eq(w.v[7], th.Ah(), 1e-5, 1e-12, "row-Ah", d);
          c.eq(w.v[8], th.Wh(), 1e-5, 1e-12, "row-Wh", d);
          std::unique_ptr<StorageUnit> cp(cs[i]->copy());
          const double cap = Cycler(cp.get()).testCapacity();
          c.eq(w.v[9], cap, 1e-5, 1e-9, "row-capacity", d);
          auto st = cp->viewStates();
          const size_t s0 = as<Cell_SPM>(cs[i]) ? 2 * settings::nch : 0;
          if (c.ok(w.v.size() - 10 == st.size() - s0, "row-states", fmt("%zu states written of %zu ", w.v.size() - 10, st.size() - s0) + d))
            for (size_t j = s0; j < st.size(); j++) c.eq(w.v[10 + j - s0], st[j], 1e-5, 1e-300, "row-state", fmt("state %zu ", j) + d);
          c.ev(as<Cell_SPM>(cs[i]) ? "spm-rows" : "ecm-rows");
        }
    }
    // modules
    p.checkMod(A->p());
    const auto csv = read_csv(PathVar::results / (id + "_checkModules_overall.csv"));
    std::vector<std::pair<std::string, std::vector<double>>> want;
    std::function<void(StorageUnit *)> f = [&](StorageUnit *u) {
      auto add = [&](auto *m) { want.push_back({ m->getFullID(), { (double)m->getNcells(), m->getCoolSystem()->getTotalTime(), m->getCoolSystem()->getHeatEvac(), m->getCoolSystem()->getHeatabsorbed() } }); };
      if (auto *b = as<Battery>(u))
        add(b), f(b->getCells());
      else if (auto *m = as<Module>(u)) {
        add(m);
        for (auto &s : m->getSUs()) f(s.get());
      }
    };
    f(A->p());
    if (c.ok(csv.f.size() == want.size() + 1 && csv.f[0].size() == 5, "module-rows", fmt("%zu lines for %zu modules ", csv.f.size(), want.size()) + what))
      for (size_t i = 0; i < want.size(); i++) {
        auto &w = csv.f[i + 1];
        bool good = w.size() == 5;
        if (c.ok(good, "module-row-malformed", csv.raw[i + 1])) {
          c.ok(w[0] == want[i].first, "module-row-id", w[0] + " " + what);
          for (int j = 0; j < 4; j++) c.eq(num(w[1 + j], good), want[i].second[j], 1e-5, 1e-12, "module-row", fmt("column %d ", j) + what);
        }
        c.ev("module-rows");
        const auto &h = want[i].second;
        if (h[2] != 0 && h[3] != 0 && std::fabs(h[2] - h[3]) > 1e-3 * std::fabs(h[2])) c.ev("module-rows-with-heat");
      }
    c.ok(csv.f.empty() || whole(A->p()) == whole(B->p()), "module-check-changed-unit", what);
    forget(id);
  };
  c.run("ecm", c.scale(40, 500), [&](Rng &r, int k) { one(r, k, false, r.i(0, 4)); });
  c.run("spm", c.scale(24, 200), [&](Rng &r, int k) { one(r, k, true, r.i(0, 2)); });
  c.run("mixed", c.scale(8, 60), [&](Rng &r, int k) { one(r, k, false, 5); });
#if defined(__SANITIZE_ADDRESS__)
  c.run("leaks", c.scale(16, 100), [&](Rng &r, int k) { // everything a procedure allocates is gone when it is done
    const uint64_t s = r.next();
    const bool spm = r.p(0.3);
    const int shape = r.i(0, spm ? 1 : 4), kind = r.i(0, 3);
    auto life = [&](int rep) {
      Rng q(s);
      {
        Traced t;
        t.n = small_tree(q, spm, shape);
        t.n.id = "lk" + std::to_string(k);
        t.battery = !t.n.leaf && q.p(0.4);
        build_traced(t, false);
        Procedure p(true, 3.65, 0, true);
        const double m = t.p()->Vmax() / 4.2;
        if (kind == 0) p.checkUp(t.p(), 1, 0);
        if (kind == 1) p.checkMod(t.p());
        if (kind == 2) p.rebalance(t.p());
        if (kind == 3) p.cycleAge(t.p(), 1, 1, 1, q.p(0.5), 1, 1, 4.0 * m, 3.5 * m);
        forget(t.p()->getFullID());
      }
      return (double)__sanitizer_get_current_allocated_bytes();
    };
    life(0);
    const double a = life(1), b = life(2), d = life(3);
    c.ok(!(b > a && d > b), "leak", fmt("%g, then %g bytes more than the run before; procedure %d on shape %d", b - a, d - b, kind, shape));
    c.ev("leak-comparisons");
  });
#endif
}

namespace {
struct StuckCell : Cell_ECM<0> { // cannot be brought to rest
  Status why;
  StuckCell(double cap, double soc, Status why_) : Cell_ECM<0>(cap, soc), why(why_) {}
  Status setCurrent(double I, bool checkV = true, bool print = true) override
  {
    if (I == 0 && why != Status::Success) return why;
    return Cell_ECM<0>::setCurrent(I, checkV, print);
  }
  StuckCell *copy() override { return new StuckCell(*this); }
};
} // namespace

VH_PROP(P03)
{
  auto &c = cx;
  auto one = [&](Rng &r, int k, bool spm, bool mixed) {
    Opt o;
    o.spm = spm, o.ecm = !spm, o.maxcells = spm ? 3 : 8, o.maxdepth = r.i(1, 3);
    o.socspread = r.p(0.5) ? 0.03 : r.u(0, 0.25);
    o.soclo = 0.3, o.sochi = 0.7, o.deg = spm && r.p(0.7);
    Traced t;
    if (mixed)
      t.n = small_tree(r, false, 5);
    else if (r.p(0.2))
      t.n = gen_leaf(r, o, spm ? 3 : 0, r.u(0.3, 0.7)), t.n.id = "c";
    else
      t.n = random_tree(r, o);
    t.n.id = "bl" + std::to_string(k);
    t.battery = !t.n.leaf && r.p(0.4);
    if (t.battery) t.ns = r.i(1, 5), t.np = r.i(1, 5);
    build_traced(t);
    const auto what = t.n.shape() + (t.battery ? " battery" : "");
    // leave it in some state: a current flowing or not
    if (r.p(0.5)) t.p()->setCurrent(t.p()->Cap() * r.u(-0.3, 0.3), false, false);
    const bool blocked_before = false;
    auto leaves = t.tr.leaves;
    std::vector<std::vector<double>> age0;
    std::vector<double> T0;
    auto ageing = [](Cell *x) {
      std::vector<double> v;
      if (auto *s = as<Cell_SPM>(x)) {
        auto &st = s->getStateObj();
        for (double y : { st.delta(), st.LLI(), st.thickp(), st.thickn(), st.ep(), st.en(), st.ap(), st.an(), st.CS(), st.Dp(), st.Dn(), st.rDCp(), st.rDCn(), st.rDCcc(), st.delta_pl() }) v.push_back(y);
      }
      return v;
    };
    for (auto *x : leaves) age0.push_back(ageing(x)), T0.push_back(x->T());
    double vmax0 = 0, vmin0 = 9;
    for (auto *x : leaves) vmax0 = std::max(vmax0, x->getOCV()), vmin0 = std::min(vmin0, x->getOCV());
    const bool impossible = r.p(0.1);
    const double Vb = impossible ? (r.p(0.5) ? r.u(4.21, 4.6) : r.u(1.5, 2.69)) : r.u(3.45, 4.0);
    Procedure p(true, Vb, 0, r.p(0.5));
    t.tr.ev.clear();
    const auto id = t.p()->getFullID();
    forget(id);
    p.balanceCheckup(t.p(), true, false, 1.0, 0, "x");
    int nb = 0;
    bool on = false, off = false, other = false;
    for (auto &e : t.tr.ev)
      if (e.k == Trace::Block) {
        nb++;
        if (e.x != 0 && !on) on = true;
        if (e.x == 0 && on) off = true;
      } else if (!on || off)
        other = true;
    c.ok(on && off && nb == 2 && t.tr.ev.back().k == Trace::Block, "suspended-and-resumed", what);
    c.ok(!other, "operated-outside-balancing", what);
    (void)blocked_before;
    for (size_t i = 0; i < leaves.size(); i++) {
      const auto d = fmt("cell %zu of %s, to %.3g V from %.4g", i, what.c_str(), Vb, vmin0);
      c.eq(leaves[i]->I(), 0, 0, 1e-9, "current-left", d);
      if (!impossible) {
        c.eq(leaves[i]->V(), Vb, 0, 5e-3, "not-balanced", d);
        c.ev(t.n.leaf ? "cells-balanced" : as<Cell_SPM>(leaves[i]) ? "spm-cells-balanced" : "ecm-cells-balanced");
        if (std::fabs(leaves[i]->V() - Vb) < 1e-3) c.ev("within-a-millivolt");
      } else
        c.ev("impossible-targets");
      c.ok(ageing(leaves[i]) == age0[i], "aged-while-balancing", d);
      c.ok(leaves[i]->T() == T0[i], "temperature-changed-while-balancing", d);
    }
    if (!impossible && leaves.size() > 1) c.ev("spread-removed", vmax0 - vmin0 > 0.01);
    // ageing and heating are on again: an aged cell compared with a twin that never was blocked
    if (spm && o.deg && !impossible) {
      bool same = true, moved = false;
      for (auto *x : leaves) {
        auto *s = as<Cell_SPM>(x);
        if (!s) continue;
        std::unique_ptr<Cell_SPM> tw(s->copy());
        tw->setBlockDegAndTherm(false);
        std::unique_ptr<Cell_SPM> me(s->copy());
        for (auto *y : { tw.get(), me.get() }) {
          y->setCurrent(-0.5 * y->Cap(), false, false);
          for (int n = 0; n < 5; n++) y->timeStep_CC(1, 2);
        }
        const auto a = ageing(me.get()), b = ageing(tw.get());
        if (a != b) same = false;
        if (b != ageing(x)) moved = true;
      }
      c.ok(same, "left-blocked", what);
      if (moved) c.ev("ageing-resumed");
    }
    forget(id);
  };
  // a cell that cannot be brought to rest: balancing reports it, wherever it is, and never reports success
  c.run("stuck-cell", c.scale(60, 600), [&](Rng &r, int k) {
    static const Status why[] = { Status::V_not_calculated, Status::VMIN_violation, Status::VMAX_violation, Status::ParallelUnit_failed, Status::Invalid_states, Status::Unknown_problem };
    const Status st = why[k % 6];
    const bool broken = k % 5 != 4;
    const int n = r.i(1, 4), at = r.i(0, n - 1), levels = r.i(0, 3);
    const double Vb = r.u(3.5, 3.9);
    const bool battery = levels > 0 && r.p(0.3);
    auto cell = [&](int i, bool stuck) -> Deep_ptr<StorageUnit> {
      auto p = std::make_unique<StuckCell>(r.u(5, 20), r.u(0.4, 0.6), stuck ? st : Status::Success);
      p->setID("q" + std::to_string(i));
      return Deep_ptr<StorageUnit>(p.release());
    };
    Deep_ptr<StorageUnit> su;
    for (int l = 0; l <= levels; l++) {
      const int w = l == 0 ? n : r.i(1, 3), pos = l == 0 ? at : r.i(0, w - 1);
      if (l == 0 && levels == 0) {
        su = cell(0, broken);
        break;
      }
      Deep_ptr<StorageUnit> m[4];
      for (int i = 0; i < w; i++)
        if (l == 0) m[i] = cell(i, broken && i == pos);
        else if (i != pos) m[i] = cell(10 * l + i, false);
        else m[i] = std::move(su);
      auto s = std::make_unique<Module_s>("m" + std::to_string(l), settings::T_ENV, true, false, 100, 1, l < levels || battery ? 0 : 1);
      std::vector<double> Rc(w, 0.0);
      s->setSUs(std::span<Deep_ptr<StorageUnit>>(m, w), false, false);
      s->setRcontact(Rc);
      if (battery && l == levels) {
        auto b = std::make_unique<Battery>("b");
        b->setModule(Deep_ptr<Module>(s.release()));
        su = Deep_ptr<StorageUnit>(b.release());
      } else
        su = Deep_ptr<StorageUnit>(s.release());
    }
    Procedure p(true, Vb, 0, true);
    const auto got = p.rebalance(su.get());
    const auto d = fmt("%d levels, cell %d of %d, battery %d, status %d", levels, at, n, battery, (int)st);
    if (broken) {
      c.ok(got == st, "failure-not-reported", fmt("balancing returned %d; ", (int)got) + d);
      c.ev("failures-reported");
    } else {
      c.ok(isStatusSuccessful(got), "success-not-reported", fmt("balancing returned %d; ", (int)got) + d);
      c.ev("successes-reported");
    }
  });
  c.run("ecm", c.scale(120, 2000), [&](Rng &r, int k) { one(r, k, false, false); });
  c.run("spm", c.scale(48, 500), [&](Rng &r, int k) { one(r, k, true, false); });
  c.run("mixed", c.scale(16, 120), [&](Rng &r, int k) { one(r, k, false, true); });
}
