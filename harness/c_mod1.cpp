// C05 coherent reports, C07 save/restore, C08 rejected operations, M01 series, M02 parallel, M03 conservation, M04 copies, M06 composition
#include "vm.hpp"
using namespace slide;
using namespace vm;

namespace {
void quiet_ops(StorageUnit *p, Rng &r)
{ // ask for everything, in a random order
  for (int k = r.i(1, 6); k > 0; k--) {
    switch (r.i(0, 7)) {
    case 0: p->V(); break;
    case 1: p->getOCV(); break;
    case 2: p->getRtot(); break;
    case 3: p->getVhigh(); p->getVlow(); break;
    case 4: { double v; p->checkVoltage(v, false); break; }
    case 5: p->getThotSpot(); break;
    case 6: p->validStates(false); break;
    case 7: { std::vector<double> s; p->getStates(s); break; }
    }
    if (auto *m = as<Module>(p); m && r.p(0.5) && m->getNSUs()) quiet_ops((*m)[r.i(0, (int)m->getNSUs() - 1)].get(), r);
    if (auto *c = as<Cell_SPM>(p); c && r.p(0.5)) {
      double cp[7], cn[7], a, b;
      c->getC(cp, cn);
      c->getCSurf(a, b, false);
      c->getRdc();
      c->getAnodeSurface();
    }
    if (auto *c = as<Cell>(p)) c->SOC(), c->getThroughputs();
  }
}
// one random operation through the public interface; same generator state -> same operation
void one_op(StorageUnit *p, const Node &n, Rng &r, double &budget, bool direct)
{
  const double cap = n.capacity();
  auto cs = cells(p);
  switch (r.i(0, 9)) {
  case 0: case 1: case 2: {
    auto d = random_drive(r, cap, budget);
    if (isStatusOK(p->setCurrent(d.I, false, false))) p->timeStep_CC(d.dt, d.n);
    break;
  }
  case 3: p->setCurrent(cap * r.u(-0.5, 0.5), r.p(0.5), false); break;
  case 4: p->timeStep_CC(r.u(0.1, 2), 1); break;
  case 5: p->setCurrent(0, false, false); break;
  case 6: {
    auto *c = cs[r.i(0, (int)cs.size() - 1)];
    const double T = r.u(286, 318);
    if (direct) c->setT(T);
    break;
  }
  case 7: {
    auto *c = cs[r.i(0, (int)cs.size() - 1)];
    const double I = c->Cap() * r.u(-0.3, 0.3);
    if (direct) c->setCurrent(I, false, false);
    break;
  }
  case 8: {
    auto *c = cs[r.i(0, (int)cs.size() - 1)];
    const double q = r.u(0.4, 0.6);
    if (direct) {
      if (auto *s = as<Cell_SPM>(c)) {
        const double I = s->I();
        spm_at(*s, q, s->Cap() / 16);
        s->setCurrent(I, false, false);
      } else
        c->setSOC(q, false, false);
    }
    break;
  }
  case 9: {
    auto *c = cs[r.i(0, (int)cs.size() - 1)];
    const bool do_it = r.p(0.5);
    if (direct && do_it) c->timeStep_CC(1, 1);
    break;
  }
  }
}
std::string where(const Node &n, int step) { return n.shape() + fmt(" after %d operations", step); }
Node leaf_node(Rng &r, int kind, bool deg)
{
  Opt o;
  o.deg = deg;
  Node n = gen_leaf(r, o, kind == 3 ? 3 : 0, r.u(0.3, 0.7));
  if (kind < 3) n.kind = kind;
  n.id = "leaf";
  return n;
}
void set_rand_deg(Node &n, Rng &r, bool stress = true)
{
  if (n.leaf && n.kind == 3) n.deg = deg_rand(r, stress);
  for (auto &c : n.ch) set_rand_deg(c, r, stress);
}
Node rand_node(Rng &r, int k, bool deg, int maxcells = 8)
{
  if (k % 3 == 0) return leaf_node(r, r.p(0.5) ? 3 : r.i(0, 2), deg);
  Opt o;
  o.maxcells = maxcells;
  Node n = random_tree(r, o);
  if (deg) set_rand_deg(n, r);
  return n;
}
// a cell's history-dependent quantities that are not in the saved state
bool stress_models(const Node &n)
{
  if (n.leaf) {
    if (n.kind != 3) return false;
    for (auto ids = n.deg.CS_id; auto m : ids)
      if (m == 1 || m == 2) return true;
    for (auto ids = n.deg.LAM_id; auto m : ids)
      if (m == 1) return true;
    return false;
  }
  for (auto &c : n.ch)
    if (stress_models(c)) return true;
  return false;
}
bool lam4(const Node &n)
{ // this model breaks the area/fraction relation that state checking insists on
  if (n.leaf) {
    if (n.kind != 3) return false;
    for (auto ids = n.deg.LAM_id; auto m : ids)
      if (m == 4) return true;
    return false;
  }
  for (auto &c : n.ch)
    if (lam4(c)) return true;
  return false;
}
} // namespace

VH_PROP(C05)
{
  auto coherent = [&](StorageUnit *p, const Node &n, const char *key, int step) {
    auto s = states(*p);
    SU twin = build(n);
    auto st = set_states(*twin.get(), s, false);
    if (!cx.ok(isStatusOK(st), "saved-state-refused", where(n, step) + fmt(" status %d", (int)st))) return false;
    auto a = report(p), b = report(twin.get());
    if (!cx.ok(a.size() == b.size(), "report-size")) return false;
    bool good = true;
    for (size_t i = 0; i < a.size() && good; i++) good = cx.eq(a[i], b[i], 1e-12, 1e-13, key, where(n, step) + fmt(" report entry %zu of %zu", i, a.size()));
    cx.ev("coherence-comparisons");
    return good;
  };
  cx.run("cell", cx.scale(240, 4000), [&](Rng &r, int k) {
    Node n = leaf_node(r, k % 4, k % 8 >= 4);
    SU p = build(n);
    double budget = 0;
    for (int j = 0, m = r.i(4, 14); j < m; j++) {
      one_op(p.get(), n, r, budget, true);
      if (r.p(0.5)) quiet_ops(p.get(), r);
      if (lam4(n)) { // compare with the same object after its cache is dropped
        auto *c = as<Cell_SPM>(p.get());
        const double v = c->V(), o = c->getOCV();
        auto st = c->getStateObj();
        c->setStateObj(st);
        cx.eq(v, c->V(), 1e-12, 0, "stale-cell-report", where(n, j));
        cx.eq(o, c->getOCV(), 1e-12, 0, "stale-cell-report", where(n, j));
      } else if (!coherent(p.get(), n, "stale-cell-report", j))
        return;
    }
  });
  cx.run("module", cx.scale(90, 1600), [&](Rng &r, int k) {
    Opt o;
    o.maxcells = 7;
    Node n = random_tree(r, o);
    SU p = build(n);
    double budget = 0;
    p->setCurrent(0, false, false);
    const bool direct = k % 2;
    for (int j = 0, m = r.i(3, 8); j < m; j++) {
      one_op(p.get(), n, r, budget, direct);
      if (direct) p->setCurrent(p->I(), false, false), one_op(p.get(), n, r, budget, !n.has_parallel());
      if (r.p(0.5)) quiet_ops(p.get(), r);
      if (!coherent(p.get(), n, "stale-module-report", j)) return;
      cx.seen("trees", vh::hs(n.shape().c_str()));
    }
    if (k < 3) cx.sample(n.shape());
  });
  // members changed directly while the module has a voltage in store
  cx.run("member-change", cx.scale(60, 600), [&](Rng &r, int) {
    Opt o;
    o.maxcells = 5;
    o.force = 0;
    Node n = random_tree(r, o);
    SU p = build(n);
    p->setCurrent(n.capacity() * r.u(-0.3, 0.3), false, false);
    p->V();
    auto cs = cells(p.get());
    auto *c = cs[r.i(0, (int)cs.size() - 1)];
    c->setCurrent(c->Cap() * 0.2, false, false);
    if (r.p(0.5)) c->timeStep_CC(1, 5);
    coherent(p.get(), n, "stale-after-member-change", 1);
  });
  // the functions which change the parameters of a cell: what it reports afterwards is about the new ones
  cx.run("parameters", cx.scale(40, 400), [&](Rng &r, int k) {
    Node n = leaf_node(r, 3, k % 2);
    SU pa = build(n), pb = build(n);
    auto *a = as<Cell_SPM>(pa.get()), *b = as<Cell_SPM>(pb.get());
    if (!a || !b || lam4(n)) return;
    for (auto *c : { a, b }) {
      c->setCurrent(n.capacity() * 0.2, false, false);
      c->timeStep_CC(1, 20);
    }
    for (int j = 0, m = r.i(1, 4); j < m; j++) {
      a->V(), a->getOCV(); // the first one is looked at all the time
      const int op = (k + j) % 4;
      std::function<void(Cell_SPM *)> f;
      if (op == 0) {
        const bool kk = r.p(0.5);
        f = [=](Cell_SPM *c) { c->setOCVcurve(kk ? "Kokam_OCV_NMC.csv" : "LGChem_OCV_NMC.csv", kk ? "LGChem_OCV_C.csv" : "Kokam_OCV_C.csv"); };
      } else if (op == 1) {
        const double cp = r.u(48000, 54000), cn = r.u(28000, 33000), fp = r.u(0.55, 0.8), fn = r.u(0.3, 0.6);
        f = [=](Cell_SPM *c) { c->setInitialConcentration(cp, cn, fp, fn); };
      } else if (op == 2) {
        const double cap = r.u(1, 20), s = r.u(0.9, 1.1) * 0.0982, ep = r.u(0.45, 0.55), en = r.u(0.45, 0.55), tp = r.u(60e-6, 80e-6), tn = r.u(65e-6, 80e-6);
        f = [=](Cell_SPM *c) { c->setGeometricParameters(cap, s * cap / 2.7, ep, en, tp, tn); };
      } else {
        const double dp = r.u(5e-15, 2e-14), dn = r.u(5e-15, 2e-14), kp = r.u(3e-11, 8e-11), kn = r.u(1e-11, 4e-11), R = r.u(0.5e-3, 4e-3);
        f = [=](Cell_SPM *c) { c->setCharacterisationParam(dp, dn, kp, kn, R); };
      }
      f(a), f(b);
      if (op == 2) cx.ok(a->Cap() == b->Cap(), "stale-after-parameters");
      cx.ev("parameter-changes");
      if (r.p(0.3)) {
        const auto I = n.capacity() * r.u(-0.5, 0.5);
        a->setCurrent(I, false, false), b->setCurrent(I, false, false);
      }
    }
    const double va = a->V(), vb = b->V(), oa = a->getOCV(), ob = b->getOCV();
    cx.eq(va, vb, 1e-12, 0, "stale-after-parameters", where(n, k) + " voltage");
    cx.eq(oa, ob, 1e-12, 0, "stale-after-parameters", where(n, k) + " open-circuit voltage");
    auto ra = report(a), rb = report(b);
    if (cx.ok(ra.size() == rb.size(), "report-size"))
      for (size_t i = 0; i < ra.size(); i++)
        if (!cx.eq(ra[i], rb[i], 1e-12, 1e-13, "stale-after-parameters", where(n, k) + fmt(" report entry %zu of %zu", i, ra.size()))) break;
    // and the next voltage after the current changed is the same as well
    a->setCurrent(n.capacity() * 0.3, false, false), b->setCurrent(n.capacity() * 0.3, false, false);
    cx.eq(a->V(), b->V(), 1e-12, 0, "stale-after-parameters", where(n, k) + " later voltage");
  });
  cx.run("purity", cx.scale(600, 6000), [&](Rng &r, int k) {
    Node n = rand_node(r, k, k % 2, 5);
    SU a = build(n), b = build(n);
    double ba = 0, bb = 0;
    const uint64_t seed = r.next();
    const bool unseen = r.p(0.5); // nobody looks at the first one until the end
    const int m = r.i(3, 8);
    for (int j = 0; j < m; j++) {
      Rng r1(seed + j * 977), r2(seed + j * 977), q(r.next());
      quiet_ops(b.get(), q);
      one_op(a.get(), n, r1, ba, n.leaf);
      one_op(b.get(), n, r2, bb, n.leaf);
      quiet_ops(b.get(), q);
      if (unseen && j + 1 < m) continue;
      a->V(); // the stored voltage is part of the state vector: bring both up to date
      b->V();
      for (auto *c : cells(a.get())) c->V();
      for (auto *c : cells(b.get())) c->V();
      auto sa = states(*a.get()), sb = states(*b.get());
      if (!cx.ok(same_bits(sa, sb), "query-changes-state", where(n, j) + " " + first_diff(sa, sb))) return;
      cx.ev("purity-comparisons");
    }
    auto s0 = states(*b.get());
    Rng q(r.next());
    quiet_ops(b.get(), q);
    auto s1 = states(*b.get());
    cx.ok(same_bits(s0, s1), "query-changes-state", where(n, -1) + " " + first_diff(s0, s1));
  });
}

VH_PROP(C07)
{
  cx.run("same-object", cx.scale(800, 8000), [&](Rng &r, int k) {
    Node n = rand_node(r, k, k % 2, 7);
    if (lam4(n)) return;
    SU p = build(n);
    p->setCurrent(0, false, false);
    double budget = 0;
    for (int j = 0, m = r.i(1, 4); j < m; j++) one_op(p.get(), n, r, budget, n.leaf);
    const bool unseen = r.p(0.5); // saved before anything was looked at
    std::vector<double> rep, s;
    if (unseen) s = states(*p.get());
    rep = report(p.get());
    if (!unseen) s = states(*p.get());
    for (int j = 0, m = r.i(1, 4); j < m; j++) one_op(p.get(), n, r, budget, n.leaf);
    if (r.p(0.5)) report(p.get());
    // extra values behind the saved ones must not be touched
    auto buf = s;
    const int extra = r.i(0, 3);
    for (int j = 0; j < extra; j++) buf.push_back(-1234.5);
    std::span<double> sp(buf);
    const auto st = p->setStates(sp, false, false);
    cx.ok(isStatusOK(st), "own-state-refused", where(n, 0) + fmt(" %d", (int)st));
    cx.ok((int)sp.size() == extra && (extra == 0 || sp[0] == -1234.5), "consumed-wrong-number", where(n, 0) + fmt(" left %zu of %d", sp.size(), extra));
    auto s2 = states(*p.get());
    cx.ok(same_bits(s, s2), "restored-state-differs", where(n, 0) + " " + first_diff(s, s2));
    auto rep2 = report(p.get());
    cx.ok(same_bits(rep, rep2), "restored-report-differs", where(n, 0) + " " + first_diff(rep, rep2));
    cx.ev("restores");
    cx.seen("trees", vh::hs(n.shape().c_str()));
  });
  auto cont = [&](Rng &r, Node n, bool stress) {
    SU a = build(n);
    a->setCurrent(0, false, false);
    double budget = 0;
    for (int j = 0, m = r.i(1, 5); j < m; j++) one_op(a.get(), n, r, budget, n.leaf);
    auto s = states(*a.get());
    SU b = build(n);
    const auto st = set_states(*b.get(), s, false);
    cx.ok(isStatusOK(st), "own-state-refused", where(n, 0));
    double ba = budget, bb = budget;
    const uint64_t seed = r.next();
    for (int j = 0; j < 5; j++) {
      Rng r1(seed + j), r2(seed + j);
      one_op(a.get(), n, r1, ba, n.leaf);
      one_op(b.get(), n, r2, bb, n.leaf);
      for (auto *c : cells(a.get())) c->V();
      for (auto *c : cells(b.get())) c->V();
      auto sa = states(*a.get()), sb = states(*b.get());
      if (!cx.ok(same_bits(sa, sb), stress ? "continuation-differs-stress-history" : "continuation-differs", where(n, j) + " " + first_diff(sa, sb))) return;
      cx.ev("continuations");
    }
  };
  cx.run("continue", cx.scale(500, 5000), [&](Rng &r, int k) {
    Node n = rand_node(r, k, false, 6);
    if (k % 2) set_rand_deg(n, r, false);
    if (lam4(n)) return;
    cont(r, n, false);
  });
  // ageing models driven by the stress of the previous time step
  cx.run("continue-stress", cx.scale(40, 300), [&](Rng &r, int k) {
    Node n = leaf_node(r, 3, false);
    n.deg = DEG_ID{};
    if (k % 3 == 0) n.deg.CS_id.add_model(1);
    if (k % 3 == 1) n.deg.CS_id.add_model(2);
    if (k % 3 == 2) n.deg.LAM_id.add_model(1);
    cont(r, n, true);
  });
  cx.run("copy-continues", cx.scale(120, 2000), [&](Rng &r, int k) {
    Node n = rand_node(r, k, k % 2, 6);
    SU a = build(n);
    a->setCurrent(0, false, false);
    double budget = 0;
    for (int j = 0, m = r.i(1, 5); j < m; j++) one_op(a.get(), n, r, budget, n.leaf);
    SU b = a;
    double ba = budget, bb = budget;
    const uint64_t seed = r.next();
    for (int j = 0; j < 4; j++) {
      Rng r1(seed + j), r2(seed + j);
      one_op(a.get(), n, r1, ba, n.leaf);
      one_op(b.get(), n, r2, bb, n.leaf);
      auto sa = states(*a.get()), sb = states(*b.get());
      if (!cx.ok(same_bits(sa, sb), "copy-continues-differently", where(n, j) + " " + first_diff(sa, sb))) return;
      cx.ev("continuations");
    }
  });
}

VH_PROP(C08)
{
  // currents, states and charges of every cell
  auto snap = [&](StorageUnit *p) {
    for (auto *c : cells(p)) c->V();
    return states(*p);
  };
  auto safe_after = [&](StorageUnit *p, const char *what, const Node &n) {
    for (auto *c : cells(p)) {
      const double v = c->V();
      const bool past = (v < c->VMIN() - 1e-9 && c->I() > 0) || (v > c->VMAX() + 1e-9 && c->I() < 0) || !(v > 0);
      cx.ok(!past, "accepted-but-unsafe", fmt("%s: cell at %.6g V with %.6g A in %s", what, v, c->I(), n.shape().c_str()));
    }
  };
  cx.run("cell-current", cx.scale(400, 6000), [&](Rng &r, int k) {
    Node n = leaf_node(r, k % 4, false);
    if (n.kind < 3) n.soc = r.p(0.5) ? r.u(0, 0.05) : r.u(0.95, 1);
    SU p = build(n);
    auto *c = as<Cell>(p.get());
    const double I0 = n.cap * (r.p(0.5) ? r.u(-0.1, 0.1) : r.sgn() * r.logu(0.1, 6));
    c->setCurrent(I0, false, false);
    if (r.p(0.5)) c->timeStep_CC(0.01, 1);
    auto s0 = snap(c);
    const double v0 = c->V();
    const double I1 = n.cap * r.logu(0.1, 1000) * r.sgn();
    const auto st = c->setCurrent(I1, true, false);
    if (isStatusBad(st)) {
      auto s1 = snap(c);
      cx.ok(same_bits(s0, s1), "refused-current-changes-cell", fmt("kind %d I %g->%g status %d: ", n.kind, I0, I1, (int)st) + first_diff(s0, s1));
      cx.ok(c->V() == v0, "refused-current-changes-voltage");
      cx.ev("refused-current");
    } else {
      cx.ok(c->I() == I1, "accepted-not-applied");
      safe_after(c, "setCurrent", n);
      cx.ev("accepted-current");
    }
  });
  cx.run("cell-voltage", cx.scale(300, 5000), [&](Rng &r, int k) {
    Node n = leaf_node(r, k % 4, false);
    SU p = build(n);
    auto *c = as<Cell>(p.get());
    const double I0 = n.cap * (r.p(0.5) ? r.u(-0.2, 0.2) : r.sgn() * r.logu(0.2, 6));
    c->setCurrent(I0, false, false);
    c->timeStep_CC(0.1, 2);
    auto s0 = snap(c);
    const double Vset = r.p(0.6) ? c->V() + r.u(-0.2, 0.2) : r.u(0.5, 6);
    const auto st = c->setVoltage(Vset, true, false);
    if (isStatusBad(st)) {
      auto s1 = snap(c);
      cx.ok(same_bits(s0, s1), "refused-voltage-changes-cell", fmt("kind %d Vset %g status %d: ", n.kind, Vset, (int)st) + first_diff(s0, s1));
      cx.ev("refused-voltage");
    } else {
      cx.eq(c->V(), Vset, 0, 1.1e-6, "accepted-voltage-not-applied", fmt("kind %d", n.kind));
      safe_after(c, "setVoltage", n);
      cx.ev("accepted-voltage");
    }
  });
  cx.run("cell-soc", cx.scale(160, 2000), [&](Rng &r, int k) {
    Node n = leaf_node(r, k % 4, false);
    SU p = build(n);
    auto *c = as<Cell>(p.get());
    c->setCurrent(n.cap * r.u(-2, 2), false, false);
    auto s0 = snap(c);
    const double bad[] = { -1e-12, 1 + 1e-12, -5, 7, NAN, INFINITY, -INFINITY, r.u(0, 1), r.u(0, 0.01), r.u(0.99, 1) };
    const double q = bad[r.i(0, 9)];
    const auto st = c->setSOC(q, true, false);
    cx.ok(isStatusBad(st) || (q >= 0 && q <= 1), "illegal-soc-accepted", fmt("%g", q));
    if (isStatusBad(st)) {
      auto s1 = snap(c);
      cx.ok(same_bits(s0, s1), "refused-soc-changes-cell", fmt("%g: ", q) + first_diff(s0, s1));
      cx.ev("refused-soc");
    } else
      cx.ok(c->SOC() == q, "accepted-soc-not-applied");
  });
  // damaged state vectors
  auto damage = [&](Rng &r, std::vector<double> s, const Node &leaf, size_t at) {
    // at: offset of this leaf; the state vector holds T, SOC and I among the entries
    StorageUnit *nul = nullptr;
    (void)nul;
    SU p = build(leaf);
    auto v0 = states(*p.get());
    const size_t n = v0.size();
    // find the entries by perturbing a fresh cell through its interface
    auto *c = as<Cell>(p.get());
    c->setT(311.25);
    auto v1 = states(*p.get());
    size_t iT = 0, iS = 0;
    for (size_t i = 0; i < n; i++)
      if (v1[i] == 311.25) iT = i;
    c->setSOC(0.4321, false, false);
    v1 = states(*p.get());
    for (size_t i = 0; i < n; i++)
      if (v1[i] == 0.4321) iS = i;
    switch (r.i(0, 4)) {
    case 0: s[at + iS] = r.p(0.5) ? -0.01 : 1.01; break;
    case 1: s[at + iT] = r.p(0.5) ? 200 : 400; break;
    case 2: s[at + iS] = NAN; break;
    case 3: s[at + iT] = NAN; break;
    case 4: s[at + iS] = INFINITY; break;
    }
    return s;
  };
  cx.run("cell-states", cx.scale(200, 3000), [&](Rng &r, int k) {
    Node n = leaf_node(r, k % 4, false);
    SU p = build(n), q = build(n);
    q->setCurrent(n.cap * 0.1, false, false);
    q->timeStep_CC(1, 3);
    p->setCurrent(n.cap * r.u(-0.2, 0.2), false, false);
    p->timeStep_CC(0.5, 3);
    auto s0 = snap(p.get());
    auto bad = damage(r, states(*q.get()), n, 0);
    bool threw = false;
    Status st = Status::Success;
    try {
      st = set_states(*p.get(), bad, r.p(0.5));
    } catch (int) {
      threw = true;
    }
    cx.ok(threw || isStatusBad(st), "illegal-state-accepted", fmt("kind %d", n.kind));
    auto s1 = snap(p.get());
    cx.ok(same_bits(s0, s1), "refused-state-changes-cell", fmt("kind %d: ", n.kind) + first_diff(s0, s1));
    cx.ev("refused-state");
  });
  // the limits themselves are legal
  cx.run("edge-states", cx.scale(200, 2000), [&](Rng &r, int k) {
    Node n = leaf_node(r, k % 4, false);
    SU p = build(n);
    auto *c = as<Cell>(p.get());
    c->setCurrent(0, false, false);
    c->setT(r.p(0.5) ? c->Tmin() : c->Tmax());
    const double edge = c->T();
    if (n.kind < 3) c->setSOC(r.p(0.5) ? 0 : 1, false, false);
    auto s = states(*p);
    c->setT(298);
    bool threw = false;
    Status st = Status::Success;
    try {
      st = set_states(*p, s, false);
    } catch (int) {
      threw = true;
    }
    cx.ok(!threw && !isStatusBad(st) && c->T() == edge, "legal-state-refused", fmt("kind %d T %g SOC %g status %d", n.kind, edge, c->SOC(), (int)st));
    cx.ev("edge-states");
  });
  // physically impossible ageing states of the electrochemical cell
  cx.run("spm-states", cx.scale(160, 2000), [&](Rng &r, int k) {
    Node n = leaf_node(r, 3, false);
    SU p = build(n);
    auto *c = as<Cell_SPM>(p.get());
    c->setCurrent(n.cap * 0.1, false, false);
    c->timeStep_CC(0.5, 3);
    auto s0 = snap(c);
    std::unique_ptr<Cell_SPM> q(c->copy());
    auto &st = q->getStateObj();
    const char *what = "";
    if (k % 2) // concentrations below: uniform, and without current
      q->setCurrent(0, false, false), q->setC(0.5, 0.5);
    switch (k % 22) {
    case 10: st.delta() = 0; what = "delta=0"; break;
    case 11: st.thickp() = 0; what = "thickp=0"; break;
    case 12: st.thickn() = 0; what = "thickn=0"; break;
    case 13: st.ep() = 0; what = "ep=0"; break;
    case 14: st.en() = 0; what = "en=0"; break;
    case 16: st.Dp() = 0; what = "Dp=0"; break;
    case 18: st.Dn() = 0; what = "Dn=0"; break;
    case 15: for (auto &z : st.zn()) z *= 2 * r.u(1.001, 1.6); what = "anode over-full"; break; // still less than the cathode can hold
    case 17: for (auto &z : st.zp()) z *= 2 * r.u(1.001, 1.6); what = "cathode over-full"; break;
    case 19: for (auto &z : st.zn()) z *= -r.u(0.001, 1); what = "anode concentration<0"; break;
    case 21: for (auto &z : st.zp()) z *= -r.u(0.001, 1); what = "cathode concentration<0"; break;
    case 20: st.Dn() = NAN; what = "Dn=nan"; break;
    case 0: st.delta() = -1e-9; what = "delta<0"; break;
    case 1: st.LLI() = -1; what = "LLI<0"; break;
    case 2: st.thickp() = -1e-6; what = "thickp<0"; break;
    case 3: st.thickn() = -1e-6; what = "thickn<0"; break;
    case 4: st.ep() = -0.1; what = "ep<0"; break;
    case 5: st.en() = -0.1; what = "en<0"; break;
    case 6: st.CS() = -1; what = "CS<0"; break;
    case 7: st.Dp() = -1e-14; what = "Dp<0"; break;
    case 8: st.Dn() = -1e-14; what = "Dn<0"; break;
    case 9: st.delta_pl() = -1e-9; what = "delta_pl<0"; break;
    }
    bool threw = false;
    Status res = Status::Success;
    try {
      res = set_states(*c, states(*q), r.p(0.5));
    } catch (int) {
      threw = true;
    }
    cx.ok(threw || isStatusBad(res), "illegal-state-accepted", what);
    auto s1 = snap(c);
    cx.ok(same_bits(s0, s1), "refused-state-changes-cell", std::string(what) + (threw ? " (threw): " : ": ") + first_diff(s0, s1));
    cx.ev("refused-state");
  });
  // the surroundings of an electrochemical cell: anything within the limits of the cell is taken, nothing else is
  cx.run("environment", cx.scale(60, 600), [&](Rng &r, int k) {
    Node n = leaf_node(r, 3, false);
    SU p = build(n);
    auto *c = as<Cell_SPM>(p.get());
    const double lo = c->Tmin(), hi = c->Tmax(), T0 = r.u(lo, hi);
    c->setTenv(T0);
    auto s0 = snap(c);
    const double ts[] = { lo, hi, r.u(lo, hi), std::nextafter(lo, 0.0), std::nextafter(hi, 1e9), lo - r.logu(1e-6, 300), hi + r.logu(1e-6, 1e4), -1, 0 };
    const double T = ts[k % 9];
    const bool legal = T >= lo && T <= hi;
    bool threw = false;
    try {
      c->setTenv(T);
    } catch (int) {
      threw = true;
    }
    cx.ok(threw == !legal, "environment-temperature", fmt("%.17g K: %s", T, threw ? "refused" : "accepted"));
    cx.eq(c->getTenv(), legal ? T : T0, 0, 0, "environment-applied", fmt("%.17g K", T));
    auto s1 = snap(c);
    cx.ok(same_bits(s0, s1), "environment-changes-cell", first_diff(s0, s1));
    cx.ev(legal ? "environment-accepted" : "environment-refused");
  });
  // a module with one member that cannot take the request
  cx.run("module-current", cx.scale(240, 4000), [&](Rng &r, int k) {
    Opt o;
    o.spm = false;
    o.maxcells = 6;
    o.maxdepth = 1 + k % 3;
    Node n = random_tree(r, o);
    // weaken one leaf
    std::vector<Node *> lv;
    std::function<void(Node &)> f = [&](Node &m) { if (m.leaf) lv.push_back(&m); for (auto &c : m.ch) f(c); };
    f(n);
    const int bad = r.i(0, (int)lv.size() - 1);
    const bool low = r.p(0.5);
    const bool anypar = n.has_parallel();
    if (!anypar)
      lv[bad]->soc = low ? 0.004 : 0.996;
    else
      for (auto *l : lv) l->soc = low ? 0.01 : 0.99;
    lv[bad]->Rdc *= anypar ? 1.5 : 3;
    SU p = build(n);
    const double I0 = n.capacity() * r.u(0, 0.02) * (low ? -1 : 1);
    if (!isStatusOK(p->setCurrent(I0, false, false))) {
      cx.inconclusive++;
      return;
    }
    if (!anypar && r.p(0.4)) // members of a string may have been given different currents one by one
      for (size_t i = 0; i < as<Module>(p.get())->getNSUs(); i++) (*as<Module>(p.get()))[i]->setCurrent(I0 + n.capacity() * r.u(-0.01, 0.01), false, false), cx.ev("uneven-strings");
    auto s0 = snap(p.get());
    const double I1 = n.capacity() * r.logu(0.02, 20) * (low ? 1 : -1);
    const auto st = p->setCurrent(I1, true, false);
    if (isStatusBad(st)) {
      auto s1 = snap(p.get());
      cx.ok(s0.size() == s1.size(), "size");
      const double tol = anypar ? 2e-5 * n.capacity() : 0;
      for (size_t i = 0; i < s0.size(); i++)
        if (!cx.eq(s1[i], s0[i], 0, tol, "refused-current-changes-module", fmt("%s bad leaf %d of %zu I %g->%g status %d entry %zu", n.shape().c_str(), bad, lv.size(), I0, I1, (int)st, i))) break;
      cx.ev(anypar ? "refused-current-parallel" : "refused-current-series");
      cx.seen("refusal-positions", vh::hmix(vh::hs(n.shape().c_str()), bad));
    } else {
      cx.eq(p->I(), I1, 1e-9, 1e-9 * n.capacity(), "accepted-not-applied", n.shape());
      safe_after(p.get(), "module setCurrent", n);
      cx.ev("accepted-module-current");
    }
  });
  cx.run("module-voltage", cx.scale(120, 2000), [&](Rng &r, int k) {
    Opt o;
    o.maxcells = 5;
    o.maxdepth = 1 + k % 2;
    Node n = random_tree(r, o);
    double I0 = n.capacity() * r.u(-0.1, 0.1);
    if (const int e = r.i(0, 3); e < 2) { // start at, or already beyond, the edge of the voltage window
      std::function<void(Node &)> f = [&](Node &m) { if (m.leaf && m.kind < 3) m.soc = e ? 1 - r.u(0, 0.002) : r.u(0, 0.002); for (auto &c : m.ch) f(c); };
      f(n);
      I0 *= r.p(0.5) ? 1 : 10;
    }
    SU p = build(n);
    if (!isStatusOK(p->setCurrent(I0, false, false))) {
      cx.inconclusive++;
      return;
    }
    auto s0 = snap(p.get());
    const double v0 = p->V();
    {
      double v;
      if (!isStatusSuccessful(p->checkVoltage(v, false))) cx.ev("voltage-from-outside-window");
    }
    const double Vset = r.p(0.5) ? v0 * r.u(0.98, 1.02) : v0 * r.u(0.2, 3);
    const auto st = p->setVoltage(Vset, true, false);
    if (isStatusBad(st)) {
      auto s1 = snap(p.get());
      const double tol = n.has_parallel() ? 2e-5 * n.capacity() : 0;
      for (size_t i = 0; i < s0.size(); i++)
        if (!cx.eq(s1[i], s0[i], 0, tol + 1e-15 * std::fabs(s0[i]), "refused-voltage-changes-module", fmt("%s V %g->%g status %d entry %zu", n.shape().c_str(), v0, Vset, (int)st, i))) break;
      cx.ev("refused-module-voltage");
    } else {
      cx.eq(p->V(), Vset, 0, 1e-5, "accepted-voltage-not-applied", n.shape());
      cx.ev("accepted-module-voltage");
    }
  });
  cx.run("module-states", cx.scale(160, 2500), [&](Rng &r, int k) {
    Opt o;
    o.maxcells = 7;
    o.maxdepth = 1 + k % 3;
    Node n = random_tree(r, o);
    SU p = build(n), q = build(n);
    double b = 0;
    for (int j = 0; j < 2; j++) one_op(p.get(), n, r, b, false), one_op(q.get(), n, r, b, false);
    auto s0 = snap(p.get());
    // spoil one leaf of q's saved state
    std::vector<std::pair<const Node *, size_t>> lv;
    std::vector<size_t> temps;
    size_t off = 0;
    std::function<void(const Node &, StorageUnit *)> f = [&](const Node &m, StorageUnit *u) {
      if (m.leaf) {
        lv.push_back({ &m, off });
        off += states(*u).size();
      } else {
        for (size_t i = 0; i < m.ch.size(); i++) f(m.ch[i], (*as<Module>(u))[i].get());
        temps.push_back(off);
        off += 1;
      }
    };
    f(n, q.get());
    auto s = states(*q.get());
    cx.ok(off == s.size(), "unexpected-layout", n.shape());
    const int bad = r.i(0, (int)lv.size() - 1);
    auto d = s;
    const bool warm = r.p(0.25); // or the temperature of one of the modules
    if (warm)
      d[r.pick(temps)] = r.p(0.2) ? std::nan("") : r.p(0.5) ? 273 - r.logu(1e-3, 500) : 273 + 75 + r.logu(1e-3, 1e4);
    else
      d = damage(r, s, *lv[bad].first, lv[bad].second);
    if (warm) cx.ev("refused-module-temperature");
    bool threw = false;
    Status st = Status::Success;
    try {
      st = set_states(*p.get(), d, r.p(0.5));
    } catch (int) {
      threw = true;
    }
    cx.ok(threw || isStatusBad(st), "illegal-state-accepted", n.shape());
    auto s1 = snap(p.get());
    cx.ok(same_bits(s0, s1), "refused-state-changes-module", fmt("%s bad leaf %d of %zu: ", n.shape().c_str(), bad, lv.size()) + first_diff(s0, s1));
    cx.ev("refused-module-state");
    cx.seen("refusal-positions", vh::hmix(vh::hs(n.shape().c_str()), 100 + bad));
  });
}

namespace {
// A cell type of a user's own, with its own voltage limits.
struct LimitCell : Cell_ECM<1> {
  double lim[4]{}; // VMIN Vmin Vmax VMAX
  LimitCell(double cap, double soc, const std::array<double, 4> &l) : Cell_ECM<1>(cap, soc) { std::copy(l.begin(), l.end(), lim); }
  double VMIN() const override { return lim[0]; }
  double Vmin() const override { return lim[1]; }
  double Vmax() const override { return lim[2]; }
  double VMAX() const override { return lim[3]; }
  Status checkVoltage(double &v, bool print) noexcept override
  { // the library's check, with the limits of this type
    struct View {
      LimitCell &c;
      double V() { return c.V(); }
      double I() { return c.I(); }
      double T() { return c.T(); }
      double VMIN() { return c.VMIN(); }
      double Vmin() { return c.Vmin(); }
      double Vmax() { return c.Vmax(); }
      double VMAX() { return c.VMAX(); }
      bool isCharging() { return c.isCharging(); }
      bool isDischarging() { return c.isDischarging(); }
      std::string getFullID() { return c.getFullID(); }
    } w{ *this };
    return free::check_voltage<false>(v, w);
  }
  LimitCell *copy() override { return new LimitCell(*this); }
};
using Lims = std::array<long double, 4>;
std::pair<SU, Lims> limit_tree(Rng &r, int depth, int par, std::vector<LimitCell *> &all, int len = 0)
{ // par: 0 series, 1 parallel, -1 either
  if (depth == 0) {
    std::array<double, 4> l{ r.u(1.5, 2.2), r.u(2.3, 3.0), r.u(4.0, 4.3), r.u(4.35, 4.6) };
    auto c = std::make_unique<LimitCell>(r.u(5, 30), 0.5, l);
    all.push_back(c.get());
    return { SU(c.release()), Lims{ l[0], l[1], l[2], l[3] } };
  }
  const bool p = par < 0 ? r.p(0.5) : par;
  std::vector<SU> v;
  Lims L{};
  const int sub = r.i(2, 4); // equally long branches
  const bool leaves = r.p(0.3);
  for (int i = 0, n = len ? len : r.i(2, 5); i < n; i++) {
    auto [c, l] = limit_tree(r, p && leaves ? 0 : p ? depth - 1 : r.p(0.3) ? 0 : depth - 1, 1 - (int)p, all, p ? sub : 0);
    for (int j = 0; j < 4; j++) // in parallel, the members share a voltage: the tightest limit decides
      L[j] = i == 0 ? l[j] : !p ? L[j] + l[j] : j < 2 ? std::max(L[j], l[j]) : std::min(L[j], l[j]);
    v.push_back(std::move(c));
  }
  std::unique_ptr<Module> m;
  const int cool = depth == 2 ? 1 : 0;
  if (p) m = std::make_unique<Module_p>("p", 298.15, true, false, 1, 1, cool);
  else m = std::make_unique<Module_s>("s", 298.15, true, false, 1, 1, cool);
  m->setSUs(v, false, false);
  return { SU(m.release()), L };
}
void own_limits(vh::Ctx &cx, bool par)
{
  cx.run("own-limits", cx.scale(150, 1500), [&](Rng &r, int k) {
    std::vector<LimitCell *> all;
    auto [p, L] = limit_tree(r, 1 + k % 2, par, all);
    auto check = [&](StorageUnit *u, const char *what, double f) {
      cx.eq(u->VMIN(), (double)L[0] * f, 1e-13, 0, "own-safety-minimum", what);
      cx.eq(u->Vmin(), (double)L[1] * f, 1e-13, 0, "own-minimum", what);
      cx.eq(u->Vmax(), (double)L[2] * f, 1e-13, 0, "own-maximum", what);
      cx.eq(u->VMAX(), (double)L[3] * f, 1e-13, 0, "own-safety-maximum", what);
    };
    check(p.get(), "module", 1);
    SU q(p->copy());
    check(q.get(), "copy", 1);
    // the worst member decides, by its own limits
    const int w = r.i(0, (int)all.size() - 1), kind = r.i(0, 3);
    bool dis = kind < 2;
    const double I = p->Cap() * 0.001 * (dis ? 1 : -1);
    if (isStatusOK(p->setCurrent(I, false, false))) {
      auto *c = all[w];
      const double v = c->V();
      double v0;
      if ((c->I() > 0) == dis && c->I() != 0 && p->checkVoltage(v0, false) == Status::Success) {
        double old[4];
        std::copy(c->lim, c->lim + 4, old);
        if (kind == 0) c->lim[0] = v + 0.05, c->lim[1] = v + 0.1;
        if (kind == 1) c->lim[1] = v + 0.1;
        if (kind == 2) c->lim[3] = v - 0.05, c->lim[2] = v - 0.1;
        if (kind == 3) c->lim[2] = v - 0.1;
        const Status want[4] = { Status::VMIN_violation, Status::Vmin_violation, Status::VMAX_violation, Status::Vmax_violation };
        double vm;
        const auto st = p->checkVoltage(vm, false);
        cx.ok(st == want[kind], "own-limit-status", fmt("member %d of %zu: %d expected %d", w, all.size(), (int)st, (int)want[kind]));
        cx.eq(vm, p->V(), 1e-12, 0, "checked-voltage");
        std::copy(old, old + 4, c->lim);
        cx.ok(p->checkVoltage(vm, false) == Status::Success, "own-limit-back", fmt("%d", w));
        cx.ev("weak-members");
      }
    }
    cx.ev("own-limits");
  });
}
} // namespace

VH_PROP(M01)
{
  own_limits(cx, false);
  cx.run("series", cx.scale(200, 3000), [&](Rng &r, int k) {
    Opt o;
    o.maxcells = 9;
    o.maxdepth = 1 + k % 3;
    o.force = 0;
    o.socspread = k % 2 ? 0.1 : 0.01;
    if (k % 2) o.maxdepth = 1; // uneven members only in plain strings
    Node n = random_tree(r, o);
    SU p = build(n);
    double budget = 0;
    auto check = [&](const char *when) {
      zip(n, p.get(), [&](const Node &d, StorageUnit *u) {
        if (d.leaf || d.parallel) return;
        auto *m = as<Module>(u);
        long double V = 0, O = 0, R = 0, Vm = 0, VM = 0, Vs = 0, VS = 0;
        double cap = 1e300;
        size_t nc = 0;
        const double I = m->I();
        double hi = -1e300, lo = 1e300, hot = m->T();
        for (size_t i = 0; i < m->getNSUs(); i++) {
          auto *c = (*m)[i].get();
          cx.eq(c->I(), I, 1e-9, 1e-9 * d.capacity(), "series-current", fmt("%s %s member %zu", d.shape().c_str(), when, i));
          V += c->V() - (long double)d.Rc[i] * c->I();
          O += c->getOCV();
          R += c->getRtot() + d.Rc[i];
          Vm += c->Vmin(), VM += c->VMIN(), Vs += c->Vmax(), VS += c->VMAX();
          cap = std::min(cap, c->Cap());
          nc += c->getNcells();
        }
        for (auto *c : cells(m)) hi = std::max(hi, c->V()), lo = std::min(lo, c->V()), hot = std::max(hot, c->T());
        for (auto *q : modules(m)) hot = std::max(hot, q->T());
        auto w = d.shape() + " " + when;
        cx.eq(m->V(), (double)V, 1e-12, 0, "series-voltage", w);
        cx.eq(m->getOCV(), (double)O, 1e-12, 0, "series-ocv", w);
        cx.eq(m->getRtot(), (double)R, 1e-12, 0, "series-resistance", w);
        cx.eq(m->Cap(), cap, 0, 0, "series-capacity", w);
        cx.eq(m->Vmin(), (double)Vm, 1e-12, 0, "series-limits", w);
        cx.eq(m->VMIN(), (double)VM, 1e-12, 0, "series-limits", w);
        cx.eq(m->Vmax(), (double)Vs, 1e-12, 0, "series-limits", w);
        cx.eq(m->VMAX(), (double)VS, 1e-12, 0, "series-limits", w);
        cx.ok(m->getNcells() == nc && (int)nc == d.ncells(), "series-cell-count", w);
        cx.eq(m->getVhigh(), hi, 1e-12, 0, "highest-cell-voltage", w);
        cx.eq(m->getVlow(), lo, 1e-12, 0, "lowest-cell-voltage", w);
        cx.eq(m->getThotSpot(), hot, 1e-12, 0, "hot-spot", w);
        double v;
        auto st = m->checkVoltage(v, false);
        cx.eq(v, m->V(), 1e-12, 0, "checked-voltage", w);
        Status worst = Status::Success;
        for (auto *c : cells(m)) {
          double x;
          worst = std::max(worst, c->checkVoltage(x, false));
        }
        cx.ok(st == worst, "worst-status", w + fmt(" %d vs %d", (int)st, (int)worst));
        cx.ev("series-checks");
      });
    };
    const auto st = p->setCurrent(n.capacity() * r.u(-1, 1), false, false);
    if (!isStatusOK(st)) {
      cx.inconclusive++;
      return;
    }
    check("first");
    for (int j = 0, m = r.i(2, 6); j < m; j++) {
      auto d = random_drive(r, n.capacity(), budget);
      const auto s2 = p->setCurrent(d.I, r.p(0.5), false);
      if (isStatusOK(s2)) {
        cx.eq(p->I(), d.I, 1e-9, 1e-9 * n.capacity(), "current-not-applied", n.shape());
        check("set");
        p->timeStep_CC(d.dt, d.n);
      }
      check("stepped");
    }
    cx.seen("trees", vh::hs(n.shape().c_str()));
    if (k < 3) cx.sample(n.shape());
  });
  // members at very different states; the weakest member decides
  cx.run("weakest", cx.scale(120, 1500), [&](Rng &r, int) {
    const int N = r.i(2, 6);
    Node n;
    n.leaf = false;
    n.parallel = false;
    n.cool = 1;
    n.id = "w";
    Opt o;
    for (int i = 0; i < N; i++) {
      Node c = gen_leaf(r, o, r.p(0.3) ? 3 : 0, r.u(0.25, 0.75));
      c.id = "c" + std::to_string(i);
      n.ch.push_back(c);
      n.Rc.push_back(r.u(0, 1e-3));
    }
    const int weak = r.i(0, N - 1);
    n.ch[weak].kind = r.i(0, 2);
    n.ch[weak].Rdc = 2e-3, n.ch[weak].cap = 16, n.ch[weak].Rp[0] = n.ch[weak].Rp[1] = 0, n.ch[weak].it[0] = n.ch[weak].it[1] = 0.01;
    const bool low = r.p(0.5);
    n.ch[weak].soc = low ? 0.02 : 0.98; // 2.046 V / 4.254 V
    SU p = build(n);
    double v;
    // beyond the operating limits but inside the safety limits
    const double I = low ? 1 : -1;
    p->setCurrent(I, false, false);
    const auto st = as<Module>(p.get())->checkVoltage(v, false);
    cx.ok(st == (low ? Status::Vmin_violation : Status::Vmax_violation), "worst-status", fmt("weak member %d of %d: %d", weak, N, (int)st));
    // the same string refuses a current that takes that one member past its safety limit
    const double Ibad = (low ? 1 : -1) * r.u(25, 60);
    const auto s2 = p->setCurrent(Ibad, true, false);
    cx.ok(isStatusBad(s2), "unsafe-member-accepted", fmt("weak member %d of %d: %d", weak, N, (int)s2));
    cx.ev("weak-members");
  });
}

VH_PROP(M02)
{
  own_limits(cx, true);
  cx.run("parallel", cx.scale(200, 3000), [&](Rng &r, int k) {
    Opt o;
    o.maxcells = 8;
    o.maxdepth = 1 + k % 3;
    o.force = 1;
    o.socspread = k % 2 ? 0.03 : 0.003;
    Node n = random_tree(r, o);
    SU p = build(n);
    double budget = 0;
    auto check = [&](const char *when, double Iwant, bool known) {
      zip(n, p.get(), [&](const Node &d, StorageUnit *u) {
        if (d.leaf || !d.parallel) return;
        auto *m = as<Module>(u);
        auto w = d.shape() + " in " + n.shape() + " " + when;
        auto bv = branch_voltages(m, d.Rc);
        double lo = 1e300, hi = -1e300, cap = 0, I = 0, ocv = 0;
        for (size_t i = 0; i < bv.size(); i++) {
          lo = std::min(lo, bv[i]), hi = std::max(hi, bv[i]);
          cap += (*m)[i]->Cap(), I += (*m)[i]->I(), ocv += (*m)[i]->getOCV() / bv.size();
        }
        cx.le(hi - lo, 2e-8, 0, "branch-voltages-differ", w);
        cx.ok(m->V() >= lo - 1e-8 && m->V() <= hi + 1e-8, "module-voltage", w + fmt(" %.12g not in [%.12g,%.12g]", m->V(), lo, hi));
        cx.eq(m->I(), I, 1e-12, 1e-12 * cap, "current-sum", w);
        cx.eq(m->Cap(), cap, 1e-12, 0, "capacity-sum", w);
        cx.eq(m->getOCV(), ocv, 1e-12, 0, "mean-ocv", w);
        // ladder of resistances
        double R = (*m)[bv.size() - 1]->getRtot() + d.Rc[bv.size() - 1];
        for (int i = (int)bv.size() - 2; i >= 0; i--) {
          const double ri = (*m)[i]->getRtot();
          R = d.Rc[i] + ri * R / (ri + R);
        }
        cx.eq(m->getRtot(), R, 1e-12, 0, "ladder-resistance", w);
        cx.ok((int)m->getNcells() == d.ncells(), "cell-count", w);
        double hiC = -1e300, loC = 1e300;
        for (auto *c : cells(m)) hiC = std::max(hiC, c->V()), loC = std::min(loC, c->V());
        cx.eq(m->getVhigh(), hiC, 1e-12, 0, "highest-cell-voltage", w);
        cx.eq(m->getVlow(), loC, 1e-12, 0, "lowest-cell-voltage", w);
        double a = 1e300, b = 1e300, c1 = -1e300, e = -1e300;
        for (size_t i = 0; i < bv.size(); i++) a = std::min(a, (*m)[i]->Vmax()), b = std::min(b, (*m)[i]->VMAX()), c1 = std::max(c1, (*m)[i]->Vmin()), e = std::max(e, (*m)[i]->VMIN());
        cx.ok(m->Vmax() == a && m->VMAX() == b && m->Vmin() == c1 && m->VMIN() == e, "limits", w);
        cx.ev("parallel-checks");
      });
      if (known) cx.eq(p->I(), Iwant, 1e-9, 1e-8 * n.capacity(), "total-current", n.shape() + " " + when);
    };
    for (int j = 0, m = r.i(2, 6); j < m; j++) {
      auto d = random_drive(r, n.capacity(), budget, 2.0, 0.8);
      const auto st = p->setCurrent(d.I, r.p(0.5), false);
      if (!isStatusOK(st)) {
        cx.ev("refused");
        continue;
      }
      check("set", d.I, true);
      for (int q = 0; q < d.n; q += 3) {
        bool threw = false;
        try {
          p->timeStep_CC(d.dt, std::min(3, d.n - q));
        } catch (int e) {
          threw = true;
          cx.ok(false, "step-failed", n.shape() + fmt(" error %d I=%g of %g Ah dt=%g", e, d.I, n.capacity(), d.dt));
        }
        if (threw) return;
        check("stepped", d.I, true);
        cx.ev("steps");
      }
    }
    cx.seen("trees", vh::hs(n.shape().c_str()));
    if (k < 3) cx.sample(n.shape());
  });
  // the split follows the resistances: analytic solution for buckets at equal charge
  cx.run("analytic", cx.scale(160, 2000), [&](Rng &r, int) {
    const int N = r.i(2, 8);
    Node n;
    n.leaf = false;
    n.parallel = true;
    n.cool = 1;
    n.id = "a";
    const double soc = r.u(0.3, 0.7);
    for (int i = 0; i < N; i++) {
      Node c;
      c.kind = 0;
      c.cap = 16 * r.u(0.6, 1.6);
      c.Rdc = r.u(0.05, 0.3) / c.cap;
      c.soc = soc + r.u(-0.01, 0.01);
      c.id = "c" + std::to_string(i);
      n.ch.push_back(c);
      n.Rc.push_back(0);
    }
    SU p = build(n);
    const double I = n.capacity() * r.u(-0.8, 0.8);
    const auto st = p->setCurrent(I, true, false);
    if (!cx.ok(isStatusOK(st), "ordinary-current-refused", fmt("%d", (int)st))) return;
    double G = 0, J = 0;
    for (auto &c : n.ch) G += 1 / c.Rdc, J += (2.0 + 2.3 * c.soc) / c.Rdc;
    const double V = (J - I) / G;
    cx.eq(p->V(), V, 0, 1e-7, "analytic-voltage");
    for (int i = 0; i < N; i++) {
      const double Ii = ((2.0 + 2.3 * n.ch[i].soc) - V) / n.ch[i].Rdc;
      cx.eq((*as<Module>(p.get()))[i]->I(), Ii, 1e-6, 1e-5 * n.ch[i].cap, "analytic-split", fmt("branch %d of %d", i, N));
    }
    cx.ev("analytic-splits");
  });
  // reports stay those of the cells when every cell is outside the operating window
  cx.run("outside-window", cx.scale(40, 400), [&](Rng &r, int k) {
    Node n;
    n.leaf = false;
    n.parallel = k % 3 != 0;
    n.cool = 1;
    n.id = "w";
    const double soc = k % 2 ? r.u(0.965, 0.985) : r.u(0.1, 0.25);
    for (int i = 0, N = r.i(1, 6); i < N; i++) {
      Node c;
      c.kind = 0;
      c.cap = 16;
      c.Rdc = r.u(0.05, 0.3) / c.cap;
      c.soc = soc + r.u(-0.003, 0.003);
      c.id = "c" + std::to_string(i);
      n.ch.push_back(c);
      n.Rc.push_back(0);
    }
    SU p = build(n);
    p->setCurrent(0, false, false);
    double hi = -1e300, lo = 1e300;
    for (auto *c : cells(p.get())) hi = std::max(hi, c->V()), lo = std::min(lo, c->V());
    cx.eq(p->getVhigh(), hi, 1e-12, 0, "highest-cell-voltage-outside", n.shape());
    cx.eq(p->getVlow(), lo, 1e-12, 0, "lowest-cell-voltage-outside", n.shape());
    cx.ev("outside-window");
  });
  // whatever current is accepted, near the limits and far beyond the rated currents, is shared properly
  cx.run("any-accepted", cx.scale(100, 1500), [&](Rng &r, int k) {
    Opt o;
    o.maxcells = 8;
    o.maxdepth = 1 + k % 3;
    o.force = 1;
    o.spm = k % 2;
    o.socspread = r.logu(1e-4, 0.02);
    Node n = random_tree(r, o);
    std::vector<Node *> lv;
    std::function<void(Node &)> f = [&](Node &m) { if (m.leaf) lv.push_back(&m); for (auto &c : m.ch) f(c); };
    f(n);
    const bool low = r.p(0.5);
    if (r.p(0.6)) {
      const double q = r.u(0.005, 0.1);
      for (auto *l : lv)
        if (l->kind < 3) l->soc = (low ? q : 1 - q) + r.u(-0.002, 0.002);
    }
    SU p = build(n);
    double Ilast = p->I();
    for (int j = 0, m = r.i(2, 6); j < m; j++) {
      const bool checkV = r.p(0.6);
      const double I1 = n.capacity() * r.logu(0.02, 12) * (r.p(0.75) == low ? 1 : -1);
      const auto st = p->setCurrent(I1, checkV, false);
      if (!isStatusOK(st)) {
        cx.eq(p->I(), Ilast, 1e-6, 1e-6 * n.capacity(), "refused-changes-current", n.shape() + fmt(" I=%g of %g Ah", I1, n.capacity()));
        cx.ev("any-refused");
        continue;
      }
      Ilast = I1;
      cx.eq(p->I(), I1, 1e-9, 1e-9 * n.capacity(), "accepted-current", n.shape() + fmt(" I=%g of %g Ah", I1, n.capacity()));
      zip(n, p.get(), [&](const Node &d, StorageUnit *u) {
        const double V = u->V();
        cx.ok(std::isfinite(V) && (V > 0 || !as<Cell_SPM>(u)), "accepted-without-voltage", d.shape() + " in " + n.shape() + fmt(" I=%g of %g Ah", I1, n.capacity()));
        if (d.leaf || !d.parallel) return;
        auto bv = branch_voltages(as<Module>(u), d.Rc);
        double lo = 1e300, hi = -1e300;
        for (double b : bv) lo = std::min(lo, b), hi = std::max(hi, b);
        cx.le(hi - lo, 2e-8, 0, "accepted-branches-differ", d.shape() + " in " + n.shape() + fmt(" I=%g of %g Ah check %d", I1, n.capacity(), (int)checkV));
      });
      cx.ev("any-accepted");
    }
  });
  // what can be reached in small steps with room to spare is not refused, nor shared differently, when it is asked for at once
  cx.run("reachable", cx.scale(100, 1500), [&](Rng &r, int k) {
    Opt o;
    o.maxcells = 8;
    o.maxdepth = 1 + k % 3;
    o.force = 1;
    o.spm = k % 2;
    o.socspread = r.logu(1e-4, 0.02);
    Node n = random_tree(r, o);
    std::vector<Node *> lv;
    std::function<void(Node &)> f = [&](Node &m) { if (m.leaf) lv.push_back(&m); for (auto &c : m.ch) f(c); };
    f(n);
    const bool low = r.p(0.5);
    if (r.p(0.5)) {
      const double q = r.u(0.005, 0.1);
      for (auto *l : lv)
        if (l->kind < 3) l->soc = (low ? q : 1 - q) + r.u(-0.002, 0.002);
    }
    SU p = build(n), q = build(n);
    const bool checkV = r.p(0.6);
    const double I1 = n.capacity() * r.logu(0.02, 4) * (r.p(0.5) ? 1 : -1);
    const int N = r.i(20, 60);
    Status st = Status::Success;
    for (int j = 1; j <= N && isStatusOK(st); j++) st = q->setCurrent(j == N ? I1 : I1 * j / N, checkV, false);
    if (!isStatusOK(st)) return cx.ev("not-reachable");
    { // with room to spare
      SU w = build(n);
      for (int j = 1; j <= N && isStatusOK(st); j++) st = w->setCurrent(1.5 * I1 * j / N, checkV, false);
      if (!isStatusOK(st)) return cx.ev("barely-reachable");
    }
    const auto what = n.shape() + fmt(" I=%g of %g Ah in %d steps, check %d", I1, n.capacity(), N, (int)checkV);
    const auto su = p->setCurrent(I1, checkV, false);
    if (!cx.ok(isStatusOK(su), "reachable-refused", what + fmt(" -> %d", (int)su))) return;
    const auto a = cells(p.get()), b = cells(q.get());
    for (size_t i = 0; i < a.size(); i++) {
      cx.eq(a[i]->I(), b[i]->I(), 1e-4, 1e-5 * n.capacity(), "reached-otherwise", what);
      cx.eq(a[i]->V(), b[i]->V(), 0, 1e-6, "reached-otherwise-voltage", what);
    }
    cx.ev("reachable-currents");
  });
  // an explicitly requested voltage is reached by every branch
  cx.run("set-voltage", cx.scale(60, 800), [&](Rng &r, int) {
    const int N = r.i(1, 5);
    Node n;
    n.leaf = false;
    n.parallel = true;
    n.cool = 1;
    n.id = "v";
    const double soc = r.u(0.35, 0.65);
    for (int i = 0; i < N; i++) {
      Node c;
      c.kind = r.i(0, 2);
      c.cap = 16;
      c.Rdc = r.u(1.5e-3, 6e-3);
      c.Rp[0] = c.Rp[1] = 1e-3, c.it[0] = c.it[1] = 0.01;
      c.soc = soc + r.u(-0.01, 0.01);
      c.id = "c" + std::to_string(i);
      n.ch.push_back(c);
      n.Rc.push_back(0);
    }
    SU p = build(n);
    p->setCurrent(n.capacity() * r.u(-0.3, 0.3), false, false);
    const double V = p->V() + r.u(-0.03, 0.03);
    const auto st = p->setVoltage(V, true, false);
    if (isStatusOK(st)) {
      cx.eq(p->V(), V, 0, 1e-6, "set-voltage");
      for (double b : branch_voltages(as<Module>(p.get()), n.Rc)) cx.eq(b, V, 0, 1e-6, "set-voltage-branch");
      cx.ev("voltages-set");
    } else
      cx.ev("voltages-refused");
  });
}

VH_PROP(M03)
{
  cx.run("tree", cx.scale(120, 2000), [&](Rng &r, int k) {
    Opt o;
    o.maxcells = 9;
    o.maxdepth = 1 + k % 4;
    o.force = k % 2;
    Node n = random_tree(r, o);
    SU p = build(n);
    double budget = 0;
    if (!isStatusOK(p->setCurrent(0, false, false))) {
      cx.inconclusive++;
      return;
    }
    auto cs = cells(p.get());
    std::vector<double> soc0, t0, ah0;
    for (auto *c : cs) {
      soc0.push_back(c->SOC());
      auto t = c->getThroughputs();
      t0.push_back(t.time()), ah0.push_back(t.Ah());
    }
    std::vector<long double> q(cs.size(), 0), qa(cs.size(), 0);
    long double T = 0, Q = 0;
    int steps = 0;
    for (int j = 0, m = r.i(2, 6); j < m; j++) {
      auto d = random_drive(r, n.capacity(), budget, 2.0, 0.7);
      if (!isStatusOK(p->setCurrent(d.I, false, false))) {
        cx.inconclusive++;
        return;
      }
      for (int s = 0; s < d.n; s++) {
        const int ns = s + 2 <= d.n && r.p(0.3) ? 2 : 1;
        for (size_t i = 0; i < cs.size(); i++) q[i] += (long double)cs[i]->I() * d.dt * ns / 3600, qa[i] += std::fabs((long double)cs[i]->I()) * d.dt * ns / 3600;
        Q += (long double)p->I() * d.dt * ns / 3600;
        p->timeStep_CC(d.dt, ns);
        T += (long double)d.dt * ns;
        s += ns - 1;
        steps++;
        cx.eq(p->I(), d.I, 1e-8, 1e-7 * n.capacity(), "module-current-drifts", n.shape());
      }
    }
    for (size_t i = 0; i < cs.size(); i++) {
      auto t = cs[i]->getThroughputs();
      cx.eq(cs[i]->SOC() - soc0[i], (double)(-q[i] / cs[i]->Cap()), 1e-9, 1e-12, "cell-charge", n.shape() + fmt(" cell %zu", i));
      cx.eq(t.time() - t0[i], (double)T, 1e-11, 1e-11, "cell-clock", n.shape() + fmt(" cell %zu", i));
      cx.eq(t.Ah() - ah0[i], (double)qa[i], 1e-9, 1e-12, "cell-throughput", n.shape() + fmt(" cell %zu", i));
    }
    // charge delivered by every subtree, from the cells upward
    std::function<double(StorageUnit *, const Node &)> drawn = [&](StorageUnit *u, const Node &d) -> double {
      if (d.leaf) {
        for (size_t i = 0; i < cs.size(); i++)
          if (cs[i] == u) return (soc0[i] - cs[i]->SOC()) * cs[i]->Cap();
        return NAN;
      }
      auto *m = as<Module>(u);
      double sum = 0, first = 0;
      for (size_t i = 0; i < d.ch.size(); i++) {
        const double a = drawn((*m)[i].get(), d.ch[i]);
        if (i == 0) first = a;
        if (!d.parallel) cx.eq(a, first, 1e-6, 1e-8 * d.capacity() * std::max(1, steps) / 100, "series-members-charge", d.shape() + " in " + n.shape());
        sum += a;
      }
      return d.parallel ? sum : first;
    };
    cx.eq(drawn(p.get(), n), (double)Q, 1e-6, 1e-8 * n.capacity(), "tree-charge", n.shape());
    cx.ev("trees-balanced");
    cx.ev("module-steps", steps);
    cx.seen("trees", vh::hs(n.shape().c_str()));
    if (k < 4) cx.sample(n.shape() + fmt(" %.5g Ah over %.5g s", (double)Q, (double)T));
  });
}

namespace {
// the accounts of every cooling system
std::vector<double> cool_accounts(StorageUnit *p)
{
  std::vector<double> v;
  for (auto *m : modules(p)) {
    auto *cs = m->getCoolSystem();
    for (double x : { cs->T(), cs->getFlr(), (double)cs->getControl(), cs->getH(), cs->getEoperation(), cs->getHeatEvac(), cs->getHeatabsorbed(), cs->getTotalTime() }) v.push_back(x);
    if (auto *hv = dynamic_cast<CoolSystem_HVAC *>(cs)) v.push_back(hv->getQcoolAC_tot());
  }
  return v;
}
void run_coolers(StorageUnit *p, Rng r)
{
  for (auto *m : modules(p))
    if (r.p(0.7)) {
      const double Q = r.u(0, 100) * m->getNcells(), Tl = r.u(283, 330);
      if (r.p(0.7)) m->getCoolSystem()->control(Tl, Tl);
      m->getCoolSystem()->dstate(Q, Q, r.u(1, 100));
    }
}
} // namespace

VH_PROP(M04)
{
  cx.run("copy", cx.scale(160, 2500), [&](Rng &r, int k) {
    Node n = rand_node(r, k, k % 2, 8);
    SU a = build(n);
    a->setCurrent(0, false, false);
    double budget = 0;
    for (int j = 0, m = r.i(0, 3); j < m; j++) one_op(a.get(), n, r, budget, n.leaf);
    run_coolers(a.get(), Rng(r.next()));
    SU b;
    switch (k % 3) {
    case 0: b = SU(a->copy()); break;
    case 1: b = a; break;
    default: b = SU(a); break;
    }
    auto ra = report(a.get()), rb = report(b.get());
    cx.ok(same_bits(ra, rb), "copy-reports-differently", where(n, 0) + " " + first_diff(ra, rb));
    auto sa = states(*a.get()), sb = states(*b.get());
    cx.ok(same_bits(sa, sb), "copy-state-differs", where(n, 0) + " " + first_diff(sa, sb));
    cx.ok(a->getFullID() == b->getFullID(), "copy-id");
    // disjoint objects, linked among themselves
    std::set<StorageUnit *> A, B;
    walk(a.get(), [&](StorageUnit *u) { A.insert(u); });
    walk(b.get(), [&](StorageUnit *u) { B.insert(u); });
    cx.ok(A.size() == B.size(), "copy-shape");
    for (auto *u : B) cx.ok(!A.count(u), "copy-shares-members", n.shape());
    auto links = [&](StorageUnit *root, const std::set<StorageUnit *> &own, const char *key) {
      bool good = true;
      walk(root, [&](StorageUnit *u) {
        if (auto *m = as<Module>(u))
          for (auto &c : m->getSUs()) good &= cx.ok(c->getParent() == u && own.count(c->getParent()), key, n.shape());
      });
      return good;
    };
    links(a.get(), A, "original-links-broken");
    bool linked = links(b.get(), B, "copy-links-outside");
    if (auto *ma = as<Module>(a.get())) cx.ok(ma->getCoolSystem() != as<Module>(b.get())->getCoolSystem(), "copy-shares-coolsystem");
    { // the accounts of the cooling systems come along, and then go their own way
      auto ca = cool_accounts(a.get()), cb = cool_accounts(b.get());
      cx.ok(same_bits(ca, cb), "copy-cooling-differs", n.shape() + " " + first_diff(ca, cb));
      const uint64_t sd = r.next();
      run_coolers(a.get(), Rng(sd));
      auto cb2 = cool_accounts(b.get());
      cx.ok(same_bits(cb, cb2), "copy-cooling-follows", n.shape() + " " + first_diff(cb, cb2));
      run_coolers(b.get(), Rng(sd));
      ca = cool_accounts(a.get()), cb = cool_accounts(b.get());
      cx.ok(same_bits(ca, cb), "copy-cooling-differs", n.shape() + " " + first_diff(ca, cb));
      cx.ev("cooling-accounts", ca.size());
    }
    // operate on one, the other stays
    const uint64_t seed = r.next();
    auto before = report(b.get());
    double ba = budget;
    for (int j = 0; j < 3; j++) {
      Rng q(seed + j);
      one_op(a.get(), n, q, ba, true);
    }
    a->setCurrent(n.capacity() * 0.11, false, false);
    if (auto *m = as<Module>(a.get())) m->setT(291.5);
    auto after = report(b.get());
    cx.ok(same_bits(before, after), "copy-follows-original", n.shape() + " " + first_diff(before, after));
    before = report(a.get());
    double bb = budget;
    for (int j = 0; j < 3; j++) {
      Rng q(seed + 100 + j);
      one_op(b.get(), n, q, bb, true);
    }
    after = report(a.get());
    cx.ok(same_bits(before, after), "original-follows-copy", n.shape() + " " + first_diff(before, after));
    if (!linked) return;
    // destroy either; the survivor keeps working
    if (r.p(0.5)) {
      a.reset();
      b->setCurrent(n.capacity() * 0.1, true, false);
      b->timeStep_CC(1, 2);
      auto x = report(b.get());
      walk(b.get(), [&](StorageUnit *u) { cx.ok(!u->getFullID().empty(), "id"); });
      cx.ev("original-destroyed");
    } else {
      b.reset();
      a->setCurrent(n.capacity() * 0.1, true, false);
      a->timeStep_CC(1, 2);
      auto x = report(a.get());
      walk(a.get(), [&](StorageUnit *u) { cx.ok(!u->getFullID().empty(), "id"); });
      cx.ev("copy-destroyed");
    }
    cx.seen("trees", vh::hs(n.shape().c_str()));
  });
}

VH_PROP(M06)
{
  cx.run("valid", cx.scale(120, 1500), [&](Rng &r, int k) {
    Opt o;
    o.maxcells = 12;
    o.maxdepth = 1 + k % 4;
    Node n = random_tree(r, o);
    SU p = build(n);
    std::set<std::string> ids;
    zip(n, p.get(), [&](const Node &d, StorageUnit *u) {
      cx.ok((int)u->getNcells() == d.ncells(), "cell-count", n.shape());
      cx.ok(ids.insert(u->getFullID()).second, "duplicate-full-id", u->getFullID());
      if (u == p.get()) {
        cx.ok(u->getParent() == nullptr, "top-has-parent");
        cx.ok(u->getFullID() == n.id, "top-full-id", u->getFullID());
      } else {
        cx.ok(u->getParent() != nullptr, "no-parent", n.shape());
        cx.ok(u->getFullID() == u->getParent()->getFullID() + "_" + u->getID(), "full-id", u->getFullID());
      }
      if (!d.leaf) {
        auto *m = as<Module>(u);
        cx.ok(m->getNSUs() == d.ch.size(), "member-count", n.shape());
        for (auto &c : m->getSUs()) cx.ok(c->getParent() == u, "parent-link", n.shape());
      }
    });
    cx.ev("assemblies");
    cx.seen("trees", vh::hs(n.shape().c_str()));
  });
  auto mk = [&](Rng &r, bool par) -> std::unique_ptr<Module> {
    if (par) return std::make_unique<Module_p>("hp", 288.0, true, false, 10, r.i(1, 5), 1);
    return std::make_unique<Module_s>("hs", 288.0, true, false, 10, r.i(1, 5), 1);
  };
  auto leafs = [&](Rng &r, int nn) {
    std::vector<SU> v;
    Opt o;
    for (int i = 0; i < nn; i++) {
      Node l = gen_leaf(r, o, 0, 0.5);
      l.id = "c" + std::to_string(i);
      v.push_back(build_cell(l));
    }
    return v;
  };
  auto try_set = [&](Module &m, std::vector<SU> &v, bool check) {
    try {
      m.setSUs(v, check, false);
      return true;
    } catch (int) {
      return false;
    } catch (const std::exception &) {
      return false;
    }
  };
  cx.run("owned", cx.scale(60, 600), [&](Rng &r, int k) {
    auto m = mk(r, k % 2), other = mk(r, r.p(0.5));
    const int nold = r.i(0, 3);
    auto old = leafs(r, nold);
    if (nold) cx.ok(try_set(*m, old, false), "valid-refused");
    const bool prt = r.p(0.5);
    auto v = leafs(r, r.i(1, 5));
    const int bad = r.i(0, (int)v.size() - 1);
    v[bad]->setParent(other.get());
    auto s0 = states(*m);
    const auto n0 = m->getNSUs(), c0 = m->getNcells();
    bool ok = true;
    try {
      m->setSUs(v, r.p(0.5), prt);
    } catch (int) {
      ok = false;
    }
    cx.ok(!ok, "owned-member-accepted", fmt("member %d of %zu", bad, v.size()));
    auto s1 = states(*m);
    cx.ok(m->getNSUs() == n0 && (nold == 0 || m->getNcells() == c0) && same_bits(s0, s1), "refused-assembly-changes-module");
    for (size_t i = 0; i < v.size(); i++) cx.ok((bool)v[i] && v[i]->getParent() == ((int)i == bad ? other.get() : nullptr), "refused-assembly-takes-members");
    cx.ev("owned-members");
  });
  cx.run("null", cx.scale(30, 300), [&](Rng &r, int k) {
    auto m = mk(r, k % 2);
    auto v = leafs(r, r.i(1, 5));
    const int bad = r.i(0, (int)v.size() - 1);
    v[bad].reset();
    cx.ok(!try_set(*m, v, r.p(0.5)), "null-member-accepted");
    cx.ok(m->getNSUs() == 0, "refused-assembly-changes-module");
    cx.ev("null-members");
  });
  cx.run("size", cx.scale(16, 80), [&](Rng &r, int k) {
    auto m = mk(r, k % 2);
    const int nn = settings::MODULE_NSUs_MAX + (k % 4 == 0 ? 0 : r.i(1, 40));
    auto v = leafs(r, nn);
    const bool ok = try_set(*m, v, false);
    cx.ok(ok == (nn <= (int)settings::MODULE_NSUs_MAX), "size-limit", fmt("%d members, limit %d", nn, (int)settings::MODULE_NSUs_MAX));
    if (ok) { // every buffer is large enough for what was accepted
      std::vector<double> I;
      m->setCurrent(1, true, false);
      m->timeStep_CC(1, 1);
      m->V();
      cx.ok((int)m->getNSUs() == nn, "member-count");
      cx.ev("largest-modules");
    } else
      cx.ev("oversized-modules");
  });
}
