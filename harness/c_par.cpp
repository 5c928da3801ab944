// M05: threads.  The parallel loop itself, modules stepped with threads against their serial twins, and
// independent simulations in threads of their own; watched by ThreadSanitizer, with injected delays.
#include "vh.hpp"
#include "vm.hpp"
#include "utility/parallelisation.hpp"
#include "procedures/Cycler.hpp"
#include <atomic>
#include <dlfcn.h>
#include <mutex>
#include <system_error>
#include <thread>

// What the machine has is part of the input: the number of hardware threads it reports (0: it does not know) and how
// many more threads it can start.  Both stand in for the functions of the standard library.
namespace vh_machine {
std::atomic<int> hw{ -1 };       // reported number of hardware threads, -1: the real one
std::atomic<int> startable{ -1 }; // threads which can still be started, -1: no limit
std::atomic<int> started{ 0 }, refused{ 0 };
} // namespace vh_machine

unsigned int std::thread::hardware_concurrency() noexcept
{
  const int n = vh_machine::hw.load(std::memory_order_relaxed);
  static const auto real = reinterpret_cast<unsigned int (*)()>(dlsym(RTLD_NEXT, "_ZNSt6thread20hardware_concurrencyEv"));
  return n >= 0 ? n : real();
}
void std::thread::_M_start_thread(_State_ptr state, void (*dep)())
{
  using F = void (*)(std::thread *, _State_ptr, void (*)());
  static const auto real = reinterpret_cast<F>(dlsym(RTLD_NEXT, "_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE"));
  if (vh_machine::startable.load(std::memory_order_relaxed) >= 0 && vh_machine::startable.fetch_add(-1, std::memory_order_relaxed) <= 0) {
    vh_machine::startable.store(0, std::memory_order_relaxed);
    vh_machine::refused.fetch_add(1, std::memory_order_relaxed);
    throw std::system_error(std::make_error_code(std::errc::resource_unavailable_try_again));
  }
  vh_machine::started.fetch_add(1, std::memory_order_relaxed);
  real(this, std::move(state), dep);
}

using namespace vm;
using vh::Ctx;
using vh::fmt;


namespace {
// Only relaxed atomics in here: they must not order the threads, or they would hide races from the detector.
struct Trace {
  static constexpr int N = 4096;
  std::atomic<int> pos{ 0 };
  std::atomic<uint32_t> ev[N];
  std::atomic<uint64_t> thr{ 0 };
  void reset()
  {
    pos.store(0, std::memory_order_relaxed);
    thr.store(0, std::memory_order_relaxed);
  }
  void put(int i, bool end)
  {
    const int k = pos.fetch_add(1, std::memory_order_relaxed);
    if (k < N) ev[k].store(i * 2 + end, std::memory_order_relaxed);
    thr.fetch_or(1ull << (std::hash<std::thread::id>{}(std::this_thread::get_id()) % 64), std::memory_order_relaxed);
  }
  uint64_t hash()
  {
    uint64_t h = 7;
    const int n = std::min(N, pos.load(std::memory_order_relaxed));
    for (int k = 0; k < n; k++) h = vh::hmix(h, ev[k].load(std::memory_order_relaxed));
    return h;
  }
  int overlaps() // how often something started before what started earlier had ended
  {
    int open = 0, o = 0;
    const int n = std::min(N, pos.load(std::memory_order_relaxed));
    for (int k = 0; k < n; k++) {
      if (ev[k].load(std::memory_order_relaxed) & 1)
        open--;
      else
        o += open > 0, open++;
    }
    return o;
  }
  int threads() { return __builtin_popcountll(thr.load(std::memory_order_relaxed)); }
};
Trace T0;
void delay(uint64_t h)
{
  switch (h % 5) {
  case 0: std::this_thread::sleep_for(std::chrono::microseconds(h / 5 % 150)); break;
  case 1: std::this_thread::yield(); break;
  case 2:
    for (volatile int k = 0; k < (int)(h / 5 % 3000); k = k + 1) {}
    break;
  default: break;
  }
}
// a cell that dawdles, notes its steps and may fail in one
struct Slow : public Cell_ECM<1> {
  int no{ 0 }, calls{ 0 }, fail_at{ -1 }, err{ 0 };
  uint64_t salt{ 0 };
  using Cell_ECM<1>::Cell_ECM;
  Slow *copy() override { return new Slow(*this); }
  void timeStep_CC(double dt, int n = 1) override
  {
    calls++; // deliberately not atomic: two threads in one cell are a race
    T0.put(no, false);
    delay(vh::hmix(salt + no, calls));
    if (calls == fail_at) {
      T0.put(no, true);
      throw err;
    }
    Cell_ECM<1>::timeStep_CC(dt, n);
    delay(vh::hmix(salt + 1000 + no, calls));
    T0.put(no, true);
  }
};
std::vector<uint64_t> bits(StorageUnit *p)
{
  std::vector<uint64_t> v;
  walk(p, [&](StorageUnit *q) {
    std::vector<double> s;
    if (as<Module>(q)) q->getStates(s);
    if (auto *c = as<Cell>(q)) {
      auto w = c->viewStates();
      s.assign(w.begin(), w.end());
      auto th = c->getThroughputs();
      for (double x : { th.time(), th.Ah(), th.Wh() }) s.push_back(x);
    }
    for (double x : { q->V(), q->I(), q->T(), q->getThotSpot(), q->getVhigh(), q->getVlow() }) s.push_back(x);
    for (double x : s) v.push_back(vh::hd(x));
  });
  return v;
}
void set_mt(Node &n, int mode, Rng &r)
{
  if (n.leaf) return;
  n.mt = mode == 1 || (mode == 2 && r.p(0.5));
  for (auto &c : n.ch) set_mt(c, mode, r);
}
int count_mt(const Node &n)
{
  int k = n.mt && !n.leaf;
  for (auto &c : n.ch) k += count_mt(c);
  return k;
}
Node slow_tree(Rng &r, int ncell, bool parallel, bool nested)
{
  Opt q;
  Node n;
  n.leaf = false;
  n.parallel = parallel;
  n.cool = 1;
  n.id = "top";
  n.coolctl = r.i(1, 5);
  for (int i = 0; i < ncell; i++) {
    Node l = gen_leaf(r, q, 0, 0.5);
    l.kind = 1;
    l.cap = 16 * r.u(0.95, 1.05);
    l.Rdc = 0.1 / l.cap;
    l.Rp[0] = l.Rdc, l.it[0] = 1 / 200.0;
    l.id = "c" + std::to_string(i);
    if (nested && r.p(0.4)) {
      Node m;
      m.leaf = false;
      m.parallel = r.p(0.5);
      m.cool = 0;
      m.id = "m" + std::to_string(i);
      Node l2 = l;
      l.id = "a", l2.id = "b";
      m.ch = { l };
      if (m.parallel) m.ch.push_back(l2);
      m.Rc.assign(m.ch.size(), 0);
      n.ch.push_back(m);
    } else
      n.ch.push_back(l);
    n.Rc.push_back(r.p(0.5) ? 0 : 1e-4);
  }
  return n;
}
SU build_slow(const Node &n, int &no, uint64_t salt, std::vector<Slow *> &all)
{
  if (n.leaf) {
    auto c = std::make_unique<Slow>(n.id, n.cap, n.soc, n.Rdc, std::array<double, 1>{ n.Rp[0] }, std::array<double, 1>{ n.it[0] });
    c->no = no++;
    c->salt = salt;
    all.push_back(c.get());
    return SU(std::unique_ptr<StorageUnit>(std::move(c)));
  }
  std::vector<SU> v;
  for (auto &c : n.ch) v.push_back(build_slow(c, no, salt, all));
  std::unique_ptr<Module> m;
  if (n.parallel)
    m = std::make_unique<Module_p>(n.id, n.Tm, true, n.mt, n.ncells(), n.coolctl, n.cool);
  else
    m = std::make_unique<Module_s>(n.id, n.Tm, true, n.mt, n.ncells(), n.coolctl, n.cool);
  m->setSUs(v, false, false);
  std::vector<double> rc = n.Rc;
  m->setRcontact(rc);
  return SU(std::unique_ptr<StorageUnit>(std::move(m)));
}
// steps both, returns what was thrown (INT_MIN: nothing)
int step(StorageUnit *p, double dt, int n)
{
  try {
    p->timeStep_CC(dt, n);
    return INT_MIN;
  } catch (int e) {
    return e;
  } catch (std::exception &) {
    return INT_MAX;
  }
}
} // namespace

namespace {
// a machine of its own for the loops in its scope
struct Machine {
  int hw = -1, limit = -1;
  explicit Machine(Rng &r)
  {
    if (r.p(0.4)) hw = r.p(0.3) ? 0 : r.i(1, 20);
    if (r.p(0.25)) limit = r.p(0.4) ? 0 : r.i(1, 8);
    vh_machine::refused.store(0, std::memory_order_relaxed);
    vh_machine::hw.store(hw, std::memory_order_relaxed);
    vh_machine::startable.store(limit, std::memory_order_relaxed);
  }
  int refused() const { return vh_machine::refused.load(std::memory_order_relaxed); }
  ~Machine()
  {
    vh_machine::hw.store(-1, std::memory_order_relaxed);
    vh_machine::startable.store(-1, std::memory_order_relaxed);
  }
};
} // namespace

VH_PROP(M05)
{
  auto &c = cx;
  const unsigned hw = std::thread::hardware_concurrency();
  // the loop: every index once, whatever the range and the number of threads; everything done when it returns
  c.run("loop", c.scale(400, 6000), [&](Rng &r, int k) {
    const int n = k % 10 == 0 ? -r.i(0, 3) : r.i(0, r.p(0.1) ? 3000 : 70);
    unsigned w;
    switch (r.i(0, 6)) {
    case 0: w = 1; break;
    case 1: w = 0; break;
    case 2: w = (unsigned)-1; break;
    case 3: w = hw + r.i(-2, 3); break;
    case 4: w = 100000; break;
    default: w = r.i(2, 12);
    }
    const bool dflt = r.p(0.15);
    Machine machine(r);
    const uint64_t salt = r.next();
    std::vector<int> cnt(std::max(0, n), 0), out(std::max(0, n), 0);
    std::atomic<int> bad{ 0 };
    T0.reset();
    auto f = [&](int i) {
      if (i < 0 || i >= n) {
        bad.fetch_add(1, std::memory_order_relaxed);
        return;
      }
      T0.put(i, false);
      delay(vh::hmix(salt, i));
      cnt[i]++; // a second thread on the same index is a race
      out[i] = i * 3 + 1;
      T0.put(i, true);
    };
    if (dflt)
      slide::run(f, n);
    else
      slide::run(f, n, w);
    c.eq(bad.load(), 0, 0, 0, "index-outside-range", fmt("n=%d w=%u", n, w));
    for (int i = 0; i < n; i++)
      if (!c.ok(cnt[i] == 1 && out[i] == i * 3 + 1, "index-not-run-once", fmt("index %d of %d ran %d times with %u workers", i, n, cnt[i], w))) break;
    if (n > 0) c.ev("loops");
    if (machine.hw == 0 && n > 0) c.ev("loops-with-unknown-hardware");
    if (machine.refused() > 0) c.ev("loops-without-threads");
    if (w == 1 && !dflt) c.ok(T0.threads() <= 1 && T0.overlaps() == 0, "serial-loop-in-threads", fmt("n=%d", n));
    c.seen("interleavings", T0.hash());
    c.seen("threads", T0.threads());
    c.ev("overlapping-tasks", T0.overlaps());
  });
  // errors of tasks reach the caller, after all threads have finished
  c.run("loop-errors", c.scale(200, 3000), [&](Rng &r, int) {
    const int n = r.i(1, 60);
    const unsigned w = r.p(0.2) ? 1 : r.p(0.3) ? (unsigned)-1 : r.i(2, 12);
    const int nbad = r.p(0.6) ? 1 : r.i(2, n + 1);
    const uint64_t salt = r.next();
    Machine machine(r);
    std::set<int> badset;
    for (int k = 0; k < nbad; k++) badset.insert(r.i(0, n - 1));
    std::vector<int> cnt(n, 0);
    std::atomic<int> running{ 0 };
    int caught = -1;
    try {
      slide::run([&](int i) {
        running.fetch_add(1, std::memory_order_relaxed);
        cnt[i]++;
        delay(vh::hmix(salt, i));
        running.fetch_add(-1, std::memory_order_relaxed);
        if (badset.count(i)) throw i + 500;
      },
                 n,
                 w);
    } catch (int e) {
      caught = e;
    }
    c.ok(running.load() == 0, "threads-still-running", fmt("n=%d w=%u", n, w));
    c.ok(caught >= 500 && badset.count(caught - 500), "error-lost", fmt("caught %d, n=%d w=%u, %zu tasks threw", caught, n, w, badset.size()));
    for (int i = 0; i < n; i++) c.ok(cnt[i] <= 1, "index-run-twice", fmt("index %d", i));
    if (machine.refused() > 0) c.ev("loops-without-threads");
    c.ev("failing-loops");
  });
  // modules: threads or not, the same bits
  c.run("modules", c.scale(120, 2500), [&](Rng &r, int k) {
    Opt q;
    q.maxcells = r.i(2, k % 3 == 0 ? 20 : 8);
    q.deg = r.p(0.5);
    Node n = random_tree(r, q);
    Node a = n, b = n, d = n;
    set_mt(a, 0, r);
    set_mt(b, 1, r);
    set_mt(d, 2, r);
    SU A = build(a), B = build(b), D = build(d);
    std::unique_ptr<StorageUnit> E(B->copy()); // a copy steps with threads as well
    StorageUnit *us[] = { A.get(), B.get(), D.get(), E.get() };
    const char *nm[] = { "serial", "all threaded", "some threaded", "copy of threaded" };
    c.seen("tree-shapes", vh::hs(n.shape().c_str()));
    double budget = 0, dtmax = 0.3;
    const bool noth = r.p(0.2);
    for (auto *u : us) u->setBlockDegAndTherm(noth);
    for (int s = 0, e = r.i(2, 8); s < e; s++) {
      Drive v = random_drive(r, A->Cap(), budget, dtmax);
      v.dt = std::min(v.dt, dtmax);
      const bool store = r.p(0.3);
      Status st[4];
      int th[4];
      for (int j = 0; j < 4; j++) {
        st[j] = us[j]->setCurrent(v.I, false, false);
        th[j] = step(us[j], v.dt, v.n);
        if (store) us[j]->storeData();
      }
      auto ref = bits(us[0]);
      for (int j = 1; j < 4; j++) {
        c.ok(st[j] == st[0] && th[j] == th[0], "outcome-differs", fmt("%s, %s: status %d threw %d, serial status %d threw %d", n.shape().c_str(), nm[j], (int)st[j], th[j], (int)st[0], th[0]));
        auto x = bits(us[j]);
        size_t m = 0;
        while (m < std::min(x.size(), ref.size()) && x[m] == ref[m]) m++;
        c.ok(x.size() == ref.size() && m == ref.size(), "result-differs", fmt("%s, %s: value %zu of %zu differs after step %d", n.shape().c_str(), nm[j], m, ref.size(), s));
      }
      if (th[0] != INT_MIN) {
        c.inconclusive++;
        break;
      }
      c.ev("threaded-module-steps", count_mt(b));
      for (uint64_t x : ref) c.seen("state-bits", x);
    }
  });
  // the same with members that dawdle, and with one that fails
  c.run("dawdling", c.scale(120, 2500), [&](Rng &r, int k) {
    const bool par = r.p(0.5);
    Node n = slow_tree(r, r.i(1, k % 4 == 0 ? 40 : 12), par, r.p(0.4));
    Node a = n, b = n;
    set_mt(a, 0, r);
    set_mt(b, r.p(0.6) ? 1 : 2, r);
    b.mt = true;
    int na = 0, nb = 0;
    std::vector<Slow *> sa, sb;
    const uint64_t salt = r.next();
    SU A = build_slow(a, na, salt, sa), B = build_slow(b, nb, salt, sb);
    const int steps = r.i(1, 6);
    if (r.p(0.4)) {
      const int w = r.i(0, (int)sa.size() - 1), at = r.i(1, steps), err = r.i(1, 99);
      sa[w]->fail_at = sb[w]->fail_at = at;
      sa[w]->err = sb[w]->err = err;
    }
    for (int s = 0; s < steps; s++) {
      const double I = A->Cap() * r.u(-0.3, 0.3), dt = r.u(0.1, 1);
      const int nn = r.i(1, 5);
      const Status x = A->setCurrent(I, false, false), y = B->setCurrent(I, false, false);
      c.ok(x == y, "outcome-differs", fmt("setCurrent %d, threaded %d", (int)x, (int)y));
      T0.reset();
      const int ta = step(A.get(), dt, nn);
      T0.reset();
      const int tb = step(B.get(), dt, nn);
      c.seen("interleavings", T0.hash());
      c.seen("threads", T0.threads());
      c.ev("overlapping-tasks", T0.overlaps());
      c.ok(ta == tb, "outcome-differs", fmt("%s with threads threw %d, serially %d", n.shape().c_str(), tb, ta));
      if (ta != INT_MIN) {
        c.ev("failing-members");
        break;
      }
      for (auto *z : sb) c.ok(z->calls == s + 1, "member-steps", fmt("member %d stepped %d times in %d steps", z->no, z->calls, s + 1));
      c.ok(bits(A.get()) == bits(B.get()), "result-differs", fmt("%s dawdling, step %d", n.shape().c_str(), s));
      c.ev("threaded-module-steps");
    }
  });
  // independent simulations in threads of their own do what they do alone
  c.run("simulations", c.scale(16, 200), [&](Rng &r, int) {
    const int nt = r.i(2, 6);
    std::vector<uint64_t> seeds(nt), alone(nt), together(nt);
    for (auto &s : seeds) s = r.next();
    auto sim = [&](int i, std::vector<uint64_t> &out) {
      Rng q(seeds[i]);
      Opt o;
      o.maxcells = 5;
      o.deg = true;
      Node n = random_tree(q, o);
      SU u = build(n);
      double budget = 0;
      uint64_t h = 1;
      for (int s = 0; s < 6; s++) {
        Drive v = random_drive(q, u->Cap(), budget, 0.5);
        const Status st = u->setCurrent(v.I, false, false);
        const int th = step(u.get(), std::min(v.dt, 0.5), v.n);
        h = vh::hmix(h, (int)st * 1000 + th);
        for (uint64_t x : bits(u.get())) h = vh::hmix(h, x);
        if (th != INT_MIN) break;
      }
      out[i] = h;
    };
    std::vector<std::thread> th; // together first, so that whatever is loaded or made on first use is not there yet
    for (int i = 0; i < nt; i++) th.emplace_back([&, i] { delay(seeds[i]); sim(i, together); });
    for (auto &t : th) t.join();
    for (int i = 0; i < nt; i++) sim(i, alone);
    for (int i = 0; i < nt; i++) c.ok(alone[i] == together[i], "simulation-differs", fmt("simulation %d of %d in its own thread", i, nt));
    c.ev("concurrent-simulations", nt);
  });
}
