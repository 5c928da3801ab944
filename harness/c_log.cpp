// Logged data: what is recorded when, and what reaches the files (L01).  Built once with a tiny time-data buffer and
// once with histogram storage.
#include "vunit.hpp"
#include "procedures/Procedure.hpp"
#include "cooling/cooling.hpp"
#include "refcool.hpp"
#include "system/Battery.hpp"
#include <filesystem>
#include <fstream>
#include <map>
#include <sstream>
using namespace vm;
using vh::Ctx;

namespace {
constexpr bool HIST = settings::DATASTORE_CELL == settings::cellDataStorageLevel::storeHistogramData;
struct Seg {
  std::vector<double> states;
  std::vector<std::vector<double>> rows;
  std::vector<std::pair<std::vector<double>, std::vector<double>>> hist; // edges, bins
};
bool nums(const std::string &line, std::vector<double> &v)
{
  std::stringstream ss(line);
  std::string f;
  while (std::getline(ss, f, ',')) {
    if (f.find_first_not_of(" \r\t") == std::string::npos) continue;
    char *e;
    const double x = std::strtod(f.c_str(), &e);
    if (e == f.c_str() || *e) return false;
    v.push_back(x);
  }
  return true;
}
// a data file as a list of flushes; false if some line is not understood
bool parse(const std::string &name, std::vector<Seg> &out, std::string &bad)
{
  std::ifstream f(name);
  if (!f) {
    bad = "cannot open " + name;
    return false;
  }
  std::string line;
  int mode = 0;
  while (std::getline(f, line)) {
    if (line.find_first_not_of(" \r\t,") == std::string::npos) continue;
    if (line.rfind("States:", 0) == 0) {
      out.emplace_back();
      mode = 0;
      if (!nums(line.substr(7), out.back().states)) {
        bad = line;
        return false;
      }
      continue;
    }
    if (line.rfind("Edges:", 0) == 0 || line.rfind("Bins:", 0) == 0) {
      mode = line[0] == 'E' ? 1 : 2;
      continue;
    }
    if (out.empty()) out.emplace_back();
    std::vector<double> v;
    if (!nums(line, v)) {
      bad = line;
      return false;
    }
    if (mode == 1)
      out.back().hist.push_back({ v, {} });
    else if (mode == 2 && !out.back().hist.empty())
      out.back().hist.back().second = v;
    else
      out.back().rows.push_back(v);
    mode = 0;
  }
  return true;
}
bool near6(double got, double want) { return std::fabs(got - want) <= 6e-6 * std::fabs(want) + 1e-300 || (std::isnan(got) && std::isnan(want)); }

struct Run {
  Unit u;
  std::string id;
  Cycler cyc;
  size_t checked{ 0 };
};
// the stores of one phase of the trace (log[a..b)): at the start, whenever ndt steps have been taken, at the end
void check_due(Ctx &c, const std::vector<Ev> &log, size_t a, int ndt, Status st, const std::string &what)
{
  long since = -1; // steps since the last store, -1 before the first
  bool steps = false;
  for (size_t i = a; i < log.size(); i++) {
    const Ev &e = log[i];
    if (e.k == Ev::Store) {
      if (since == ndt) c.ev("due-samples");
      since = 0;
      if (ndt <= 0) c.violation("stored-without-being-asked", what);
    }
    if (e.k == Ev::Step && !e.thrown) {
      steps = true;
      if (ndt > 0) {
        if (!c.ok(since >= 0, "no-sample-at-start", what)) return;
        since += e.n;
        if (!c.ok(since <= ndt, "due-sample-missed", fmt("%s: %ld steps since the last sample", what.c_str(), since))) return;
      }
    }
  }
  if (ndt > 0 && steps && st != Status::Unknown_problem && !isStatusBad(st)) c.eq((double)since, 0, 0, 0, "no-sample-at-end", what);
  if (ndt > 0 && !isStatusBad(st)) c.ev("logged-phases");
}
Run drive(Ctx &c, Rng &r, int k)
{
  Run R;
  UOpt o;
  o.soclo = 0.3, o.sochi = 0.85;
  R.u = rand_unit(r, o);
  R.id = fmt("L%d_%d", (int)(r.next() % 100000), k);
  Unit &u = R.u;
  Spy &s = *u.spy;
  s.steps_limit = 20000;
  R.cyc = Cycler(&s, R.id);
  const int nph = r.i(1, 5);
  const double dt = rand_dt(r, u);
  for (int ph = 0; ph < nph; ph++) {
    const size_t a = s.log.size();
    const int ndt = r.p(0.15) ? 0 : r.p(0.2) ? -1 : r.p(0.4) ? r.i(1, 4) : r.i(1, 40);
    const double tl = rand_tlim(r, dt, 100);
    ThroughputData th{};
    Status st = Status::Success;
    std::string what;
    try {
      switch (r.i(0, 5)) {
      case 0:
        what = fmt("rest %g dt %g ndt %d", tl, dt, ndt);
        st = R.cyc.rest(tl, dt, ndt, th);
        break;
      case 1: {
        const double dir = r.sgn(), I = dir * std::min(u.cap * r.u(0.05, 1), 0.5 * imax(&s, dir));
        what = fmt("CC %g for %g dt %g ndt %d", I, tl, dt, ndt);
        st = R.cyc.CC(I, dir > 0 ? u.su->Vmin() : u.su->Vmax(), tl, dt, ndt, th);
        break;
      }
      case 2: {
        const double V = std::min(u.su->Vmax(), std::max(u.su->Vmin(), u.su->V() + r.u(-0.02, 0.02) * u.su->Vmax() / 4.2));
        what = fmt("CV %g for %g dt %g ndt %d", V, tl, dt, ndt);
        st = R.cyc.CV(V, u.cap * r.logu(0.002, 0.2), tl, dt, ndt, th);
        break;
      }
      case 3: {
        const double dir = r.sgn(), I = std::min(u.cap * r.u(0.05, 1), 0.5 * imax(&s, dir));
        const double V = std::min(u.su->Vmax(), std::max(u.su->Vmin(), u.su->V() - dir * r.u(0, 0.05) * u.su->Vmax() / 4.2));
        what = fmt("CCCV %g %g for %g dt %g ndt %d", V, I, tl, dt, ndt);
        st = R.cyc.CCCV_with_tlim(V, I, I * r.u(0.05, 0.5), tl, dt, ndt, th);
        break;
      }
      case 4:
        R.cyc.storeData();
        continue;
      default:
        R.cyc.writeData();
        continue;
      }
    } catch (int e) {
      c.inconclusive++;
      break;
    }
    check_due(c, s.log, a, ndt, st, what + " on " + u.n.shape());
  }
  return R;
}
} // namespace

VH_PROP(L01)
{
  auto &c = cx;
  if constexpr (!HIST) {
    c.run("time-data", c.scale(700, 6000), [&](Rng &r, int k) {
      Run R = drive(c, r, k);
      Spy &s = *R.u.spy;
      R.cyc.writeData();
      auto cs = cells(R.u.p());
      size_t pending = 0;
      for (auto &e : s.log) {
        if (e.k == Ev::Store) pending++;
        if (e.k == Ev::Write) pending = 0;
        c.ok(pending <= settings::CELL_NDATA_MAX + 1, "buffer-not-flushed", fmt("%zu", pending));
      }
      for (size_t i = 0; i < cs.size(); i++) {
        const std::string name = "../../results/" + R.id + "_" + cs[i]->getFullID() + "_cellData.csv";
        std::vector<Seg> seg;
        std::string bad;
        if (!c.ok(parse(name, seg, bad), "file-unreadable", name + ": " + bad)) continue;
        unlink(name.c_str());
        // expected rows per flush
        std::vector<const Ev *> rows;
        size_t w = 0, flushes = 0;
        double tprev = -1;
        bool good = true;
        for (auto &e : s.log) {
          if (e.k == Ev::Store) rows.push_back(&e);
          if (e.k != Ev::Write) continue;
          flushes++;
          if (!c.ok(w < seg.size(), "flush-missing", fmt("%s: %zu flushes in the file", name.c_str(), seg.size()))) {
            good = false;
            break;
          }
          const Seg &g = seg[w++];
          if (!c.eq((double)g.rows.size(), (double)rows.size(), 0, 0, "row-count", fmt("flush %zu of %s", w, name.c_str()))) {
            good = false;
            break;
          }
          for (size_t j = 0; j < rows.size() && good; j++) {
            if (!c.eq((double)g.rows[j].size(), 7, 0, 0, "columns", name)) {
              good = false;
              break;
            }
            for (size_t q = 0; q < 7; q++)
              if (!c.ok(near6(g.rows[j][q], rows[j]->rows[i * 7 + q]), "row-differs", fmt("flush %zu row %zu column %zu of %s: %.8g, the cell had %.8g", w, j, q, name.c_str(), g.rows[j][q], rows[j]->rows[i * 7 + q]))) good = false;
            if (!good) break;
            c.ok(g.rows[j][4] >= tprev, "time-order", name);
            tprev = g.rows[j][4];
            c.ev("rows-compared");
          }
          if (good && e.leaf_states.size() > i) {
            const auto &st = e.leaf_states[i];
            if (c.eq((double)g.states.size(), (double)st.size(), 0, 0, "state-count", name))
              for (size_t q = 0; q < st.size(); q++) c.ok(near6(g.states[q], st[q]), "state-differs", fmt("flush %zu state %zu of %s: %.8g, the cell had %.8g", w, q, name.c_str(), g.states[q], st[q]));
          }
          rows.clear();
          if (!good) break;
        }
        if (good) c.eq((double)w, (double)seg.size(), 0, 0, "extra-flush", name);
        if (flushes > 1) c.ev("files-with-several-flushes");
        c.ev("files");
      }
      c.seen("units", vh::hs(R.u.n.shape().c_str()));
    });
    // one unit logged by two cyclers in turn: every sample reaches one of the files, once
    c.run("two-cyclers", c.scale(150, 2000), [&](Rng &r, int k) {
      Unit u = rand_unit(r);
      Spy &s = *u.spy;
      const std::string a = fmt("A%d_%d", (int)(r.next() % 100000), k), b = fmt("B%d_%d", (int)(r.next() % 100000), k);
      Cycler ca(&s, a), cb(&s, b);
      const double dt = rand_dt(r, u);
      size_t stores = 0;
      for (int i = 0; i < r.i(2, 6); i++) {
        ThroughputData th{};
        (r.p(0.5) ? ca : cb).rest(dt * r.i(1, 30), dt, r.i(1, 5), th);
        if (r.p(0.3)) (r.p(0.5) ? ca : cb).writeData();
      }
      ca.writeData();
      cb.writeData();
      std::vector<std::vector<double>> want;
      for (auto &e : s.log)
        if (e.k == Ev::Store) want.emplace_back(e.rows.begin(), e.rows.begin() + 7), stores++;
      std::vector<std::vector<double>> got;
      auto cs = cells(u.p());
      for (size_t i = 0; i < cs.size(); i++)
        for (auto &id : { a, b }) {
          const std::string name = "../../results/" + id + "_" + cs[i]->getFullID() + "_cellData.csv";
          std::vector<Seg> seg;
          std::string bad;
          if (!c.ok(parse(name, seg, bad), "file-unreadable", name + ": " + bad)) return;
          unlink(name.c_str());
          if (i == 0)
            for (auto &g : seg)
              for (auto &row : g.rows) got.push_back(row);
        }
      if (!c.eq((double)got.size(), (double)want.size(), 0, 0, "rows-lost-between-cyclers", u.n.shape())) return;
      auto key = [](const std::vector<double> &x, const std::vector<double> &y) { return x[4] < y[4]; };
      std::stable_sort(got.begin(), got.end(), key);
      for (size_t j = 0; j < got.size(); j++) c.ok(near6(got[j][4], want[j][4]), "sample-time", fmt("%g %g", got[j][4], want[j][4]));
      c.ev("shared-units");
    });
  } else {
    c.run("histograms", c.scale(400, 4000), [&](Rng &r, int k) {
      Run R = drive(c, r, k);
      Spy &s = *R.u.spy;
      R.cyc.writeData();
      auto cs = cells(R.u.p());
      for (size_t i = 0; i < cs.size(); i++) {
        const std::string name = "../../results/" + R.id + "_" + cs[i]->getFullID() + "_cellData.csv";
        std::vector<Seg> seg;
        std::string bad;
        if (!c.ok(parse(name, seg, bad), "file-unreadable", name + ": " + bad)) continue;
        unlink(name.c_str());
        if (!c.ok(!seg.empty() && seg.back().hist.size() == 3, "histograms-missing", name)) continue;
        static const int col[3] = { 0, 1, 3 }; // current, voltage, temperature of the recorded rows
        for (int h = 0; h < 3; h++) {
          const auto &[edges, bins] = seg.back().hist[h];
          std::vector<double> x;
          for (auto &e : s.log)
            if (e.k == Ev::Store) x.push_back(e.rows[i * 7 + col[h]]);
          double tot = 0;
          for (double b : bins) tot += b;
          c.eq(tot, (double)x.size(), 0, 0, "samples-lost", fmt("histogram %d of %s", h, name.c_str()));
          if (!c.eq((double)bins.size(), (double)edges.size() + 1, 0, 0, "edges-missing", fmt("histogram %d of %s", h, name.c_str()))) continue;
          const double w = edges.back() - edges.front(), tol = 1e-5 * (std::fabs(edges.back()) + std::fabs(edges.front())) + 1e-9 * w;
          for (size_t b = 0; b < bins.size(); b++) {
            double lo = 0, hi = 0; // samples certainly / possibly in this bin
            const double l = b == 0 ? -1e300 : edges[b - 1], u = b == edges.size() ? 1e300 : edges[b];
            for (double v : x) lo += v >= l + tol && v < u - tol, hi += v >= l - tol && v < u + tol;
            c.ok(bins[b] >= lo && bins[b] <= hi, "bin-count", fmt("histogram %d bin %zu of %s: %g, should be %g..%g", h, b, name.c_str(), bins[b], lo, hi));
          }
          c.ev("histograms");
        }
        if (seg.size() > 1) c.ev("histograms-written-twice");
      }
    });
  }
}

// ---------------------------------------------------------------------------------------------------------------
// What modules and cooling systems record (L02).
namespace {
constexpr bool COOLHIST = settings::DATASTORE_COOL == 1, COOLINST = settings::DATASTORE_COOL == 2;
constexpr bool MODDATA = settings::DATASTORE_MODULE >= settings::moduleDataStorageLevel::storeTimeData;
struct Period {
  long double t{ 0 }, Q{ 0 }, E{ 0 }, Eac{ 0 };
};
struct Sample {
  double t, Q, E, flow, Qac, Eac, T;
};
struct CoolLog { // one cooling system, what it was asked to do and what it must have recorded
  CoolSystem *cs;
  CoolSystem_HVAC *hv;
  RefCool ref; // size, and the power of a fan at a flow rate
  Period now, life;
  std::vector<Sample> want;
  std::string prefix;
  size_t written{ 0 };
  void move(Ctx &c, double Qc, double Qt, double dt) // one period of heat exchange
  {
    ref.flow = cs->getFlr();
    ref.T = cs->T();
    const double q0 = hv ? hv->getQcoolAC_tot() : 0;
    cs->dstate(Qt, Qc, dt);
    const double P = hv ? (hv->getQcoolAC_tot() - q0) / dt : 0;
    const double E = ref.fan_power() * dt, Eac = hv ? ref.ac_energy(P > 1e-9 * ref.Qmax ? P : 0, dt) : 0;
    lastP = P;
    for (Period *p : { &now, &life }) p->t += dt, p->Q += Qc, p->E += E, p->Eac += Eac;
    c.ev("heat-exchanges");
  }
  double lastP{ 0 };
  void stored(Ctx &c) // its data has just been stored
  {
    if (now.t == 0) {
      c.ev("stores-without-time");
      return;
    }
    double Qac = 0;
    if (hv) { // the power of the air conditioner at this moment shows in what it would remove
      std::unique_ptr<CoolSystem> dup(cs->copy());
      auto *d = dynamic_cast<CoolSystem_HVAC *>(dup.get());
      const double q0 = d->getQcoolAC_tot();
      d->dstate(0, 0, 1e6);
      Qac = (d->getQcoolAC_tot() - q0) / 1e6;
    }
    want.push_back({ (double)life.t, (double)(now.Q / now.t), (double)(now.E / now.t), cs->getFlr(), Qac, (double)(now.Eac / now.t), cs->T() });
    now = {};
    c.ev("cooling-samples");
  }
};
bool near(double got, double want, double scale) { return std::fabs(got - want) <= 6e-6 * std::fabs(want) + 1e-8 * scale; }
std::vector<std::vector<double>> table(Ctx &c, const std::string &name)
{
  std::vector<Seg> seg;
  std::string bad;
  std::vector<std::vector<double>> v;
  if (c.ok(parse(name, seg, bad), "file-unreadable", name + ": " + bad))
    for (auto &g : seg)
      for (auto &row : g.rows) v.push_back(row);
  return v;
}
void check_hist(Ctx &c, const std::pair<std::vector<double>, std::vector<double>> &h, const std::vector<double> &x, const std::string &what)
{
  const auto &[edges, bins] = h;
  double tot = 0;
  for (double b : bins) tot += b;
  c.eq(tot, (double)x.size(), 0, 0, "samples-lost", what);
  if (!c.ok(edges.size() > 1 && bins.size() == edges.size() + 1, "edges-missing", what)) return;
  const double w = edges.back() - edges.front(), tol = 1e-5 * (std::fabs(edges.back()) + std::fabs(edges.front())) + 1e-9 * w;
  for (size_t b = 0; b < bins.size(); b++) {
    double lo = 0, hi = 0;
    const double l = b == 0 ? -1e300 : edges[b - 1], u = b == edges.size() ? 1e300 : edges[b];
    for (double v : x) lo += v >= l + tol && v < u - tol, hi += v >= l - tol && v < u + tol;
    c.ok(bins[b] >= lo && bins[b] <= hi, "bin-count", fmt("%s bin %zu: %g, should be %g..%g", what.c_str(), b, bins[b], lo, hi));
  }
  c.ev("cooling-histograms");
}
void check_cool_files(Ctx &c, CoolLog &g, const std::string &what)
{
  const std::string f = g.prefix + "_coolSystemStats.csv", f2 = g.prefix + "_coolSystemData.csv";
  if constexpr (COOLINST) {
    auto rows = table(c, f);
    unlink(f.c_str());
    const double Escale = 1.225 * 25e-6 * g.ref.N * 8000, Qscale = 60. * g.ref.N;
    if (c.eq((double)rows.size(), (double)g.want.size(), 0, 0, "cooling-sample-count", what))
      for (size_t i = 0; i < rows.size(); i++) {
        if (!c.eq((double)rows[i].size(), 4, 0, 0, "cooling-columns", what)) break;
        const Sample &w = g.want[i];
        const std::string d = fmt("%s sample %zu of %zu", what.c_str(), i, rows.size());
        c.ok(near(rows[i][0], w.t, 1), "sample-time", fmt("%s: %.8g, %.8g expected", d.c_str(), rows[i][0], w.t));
        c.ok(near(rows[i][1], w.Q, Qscale), "mean-cooling-power", fmt("%s: %.8g, %.8g expected", d.c_str(), rows[i][1], w.Q));
        c.ok(near(rows[i][2], w.E, Escale), "mean-fan-power", fmt("%s: %.8g, %.8g expected", d.c_str(), rows[i][2], w.E));
        c.ok(near(rows[i][3], w.flow, 1e-4), "flow-recorded", fmt("%s: %.8g, %.8g expected", d.c_str(), rows[i][3], w.flow));
        c.ev("cooling-rows-compared");
      }
    if (g.hv) {
      auto ac = table(c, f2);
      unlink(f2.c_str());
      if (c.eq((double)ac.size(), (double)g.want.size(), 0, 0, "ac-sample-count", what))
        for (size_t i = 0; i < ac.size(); i++) {
          if (!c.eq((double)ac[i].size(), 2, 0, 0, "ac-columns", what)) break;
          const Sample &w = g.want[i];
          const std::string d = fmt("%s sample %zu of %zu", what.c_str(), i, ac.size());
          c.ok(near(ac[i][0], w.Qac, g.ref.Qmax), "ac-power-recorded", fmt("%s: %.8g, %.8g expected", d.c_str(), ac[i][0], w.Qac));
          c.ok(near(ac[i][1], w.Eac, 3 * g.ref.Qmax), "mean-ac-consumption", fmt("%s: %.8g, %.8g expected", d.c_str(), ac[i][1], w.Eac));
          c.ev("ac-rows-compared");
        }
    }
  }
  if constexpr (COOLHIST) {
    std::vector<Seg> seg;
    std::string bad;
    if (!c.ok(parse(f, seg, bad), "file-unreadable", f + ": " + bad)) return;
    unlink(f.c_str());
    if (!c.ok(seg.size() == 1 && seg[0].rows.size() == 2 && seg[0].rows[0].size() == 1 && seg[0].rows[1].size() == 1, "statistics-header", what)) return;
    c.eq(seg[0].rows[0][0], (double)g.ref.N, 1e-5, 0, "cells-recorded", what);
    c.ok(near(seg[0].rows[1][0], g.cs->getEoperation(), 1), "operating-energy-recorded", fmt("%s: %.8g, the system used %.8g", what.c_str(), seg[0].rows[1][0], g.cs->getEoperation()));
    if (!c.eq((double)seg[0].hist.size(), g.hv ? 6 : 4, 0, 0, "histograms-missing", what)) return;
    std::vector<double> x[6];
    const double N = g.ref.N;
    for (auto &w : g.want) x[0].push_back(w.T), x[1].push_back(w.Q / N), x[2].push_back(w.flow / N), x[3].push_back(w.E / N), x[4].push_back(w.Qac / N), x[5].push_back(w.Eac / N);
    for (int h = 0; h < (g.hv ? 6 : 4); h++) check_hist(c, seg[0].hist[h], x[h], fmt("%s histogram %d", what.c_str(), h));
  }
}
CoolLog cool_log(CoolSystem *cs, size_t N, const std::string &prefix)
{
  CoolLog g;
  g.cs = cs;
  g.hv = dynamic_cast<CoolSystem_HVAC *>(cs);
  g.ref = RefCool(g.hv ? 1 : dynamic_cast<CoolSystem_open *>(cs) ? 2 : 0, N, cs->getControl(), 0);
  g.prefix = prefix;
  return g;
}
// the histograms a check-up of the modules writes, of every cooling system in the tree
void check_mod_file(Ctx &c, StorageUnit *top, const std::vector<std::pair<StorageUnit *, CoolLog *>> &sys, const std::string &what)
{
  if constexpr (COOLHIST) {
    namespace fs = std::filesystem;
    Procedure(false, 3.65, 0, true).checkMod(top);
    const std::string base = top->getFullID() + "_checkModules_";
    const auto fn = fs::exists(base + "histograms.csv") ? fs::path(base + "histograms.csv") : PathVar::results / (base + "histograms.csv");
    std::map<std::string, std::vector<std::vector<std::pair<std::vector<double>, std::vector<double>>>>> got; // per ID, per block, the histograms
    std::ifstream f(fn);
    std::string line;
    int mode = 0;
    decltype(got)::mapped_type::value_type *blk = nullptr;
    const std::string head = "Temperature statistics:,";
    while (std::getline(f, line)) {
      if (line.rfind(head, 0) == 0) {
        auto &v = got[line.substr(head.size())];
        v.emplace_back();
        blk = &v.back();
      } else if (line.rfind("Edges:", 0) == 0)
        mode = 1;
      else if (line.rfind("Bins:", 0) == 0)
        mode = 2;
      else if (mode && blk) {
        std::vector<double> v;
        if (!c.ok(nums(line, v), "checkup-file-unreadable", what + ": " + line)) return;
        if (mode == 1) blk->push_back({ v, {} });
        else if (!blk->empty()) blk->back().second = v;
        mode = 0;
      }
    }
    f.close();
    fs::remove(fn);
    fs::remove(fn.parent_path() / (base + "overall.csv"));
    std::map<std::string, size_t> used;
    for (auto &[su, g] : sys) {
      const auto id = su->getFullID();
      auto &v = got[id];
      const size_t i = used[id]++;
      if (!c.ok(i < v.size(), "system-missing-in-checkup", what + " " + id)) continue;
      if (!c.eq((double)v[i].size(), g->hv ? 6 : 4, 0, 0, "histograms-missing-in-checkup", what + " " + id)) continue;
      std::vector<double> x[6];
      const double N = g->ref.N;
      for (auto &w : g->want) x[0].push_back(w.T), x[1].push_back(w.Q / N), x[2].push_back(w.flow / N), x[3].push_back(w.E / N), x[4].push_back(w.Qac / N), x[5].push_back(w.Eac / N);
      for (int h = 0; h < (g->hv ? 6 : 4); h++) check_hist(c, v[i][h], x[h], fmt("%s check-up of %s, histogram %d", what.c_str(), id.c_str(), h));
      c.ev("checkup-histograms");
    }
  }
}
void stir(Ctx &c, Rng &r, CoolLog &g) // control and heat exchange
{
  if (r.p(0.6)) {
    g.cs->setT(r.u(280, 340));
    const double Tl = r.u(280, 333);
    g.cs->control(Tl, std::max(Tl, r.u(280, 333)));
  }
  const double dt = r.logu(0.5, 900), Qc = r.p(0.15) ? 0 : r.u(-1, 8) * g.ref.N * dt, Qt = g.hv ? Qc : Qc + r.u(-2, 2) * g.ref.N * dt;
  g.move(c, Qc, Qt, dt);
}
} // namespace

VH_PROP(L02)
{
  auto &c = cx;
  // cooling systems on their own
  c.run("periods", c.scale(1500, 30000), [&](Rng &r, int k) {
    const int type = r.i(0, 2), N = r.p(0.3) ? 1 : r.i(1, 200), ctl = r.i(1, 5);
    const double Q0 = r.p(0.5) ? 0 : r.logu(1, 1e3);
    std::unique_ptr<CoolSystem> cs;
    if (type == 0) cs = std::make_unique<CoolSystem>(N, ctl);
    if (type == 1) cs = std::make_unique<CoolSystem_HVAC>(N, ctl, Q0);
    if (type == 2) cs = std::make_unique<CoolSystem_open>(N, ctl);
    CoolLog g = cool_log(cs.get(), N, fmt("cool%d_%d", (int)(r.next() % 100000), k));
    g.ref.Qmax = 7.5 * N + Q0;
    const int n = r.i(1, 40);
    const std::string what = fmt("type %d control %d N %d", type, ctl, N);
    for (int i = 0; i < n; i++) {
      if (r.p(0.7)) stir(c, r, g);
      if (r.p(0.4)) {
        cs->storeData(N);
        g.stored(c);
      }
      if (COOLINST && r.p(0.05)) cs->writeData(g.prefix), c.ev("early-writes");
      if (r.p(0.05)) cs->reset_Eoperation();
      if (r.p(0.05)) { // a copy carries on with the same record
        std::unique_ptr<CoolSystem> dup(cs->copy());
        cs.swap(dup);
        g.cs = cs.get();
        g.hv = dynamic_cast<CoolSystem_HVAC *>(g.cs);
        c.ev("copies");
      }
    }
    cs->writeData(g.prefix);
    check_cool_files(c, g, what);
    c.seen("systems", vh::hmix(type * 10 + ctl, N));
  });
  // every cooling system of a tree, with and without a battery around it
  c.run("trees", c.scale(250, 4000), [&](Rng &r, int k) {
    Opt o;
    o.maxcells = r.i(1, 10);
    o.maxdepth = r.i(1, 3);
    Node n = random_tree(r, o);
    const bool bat = r.p(0.6);
    std::unique_ptr<Battery> B;
    std::unique_ptr<Module> M;
    std::vector<CoolLog> logs;
    StorageUnit *top;
    const std::string pre = fmt("tree%d_%d_", (int)(r.next() % 100000), k);
    unsigned ns = 1, np = 1;
    if (bat) {
      n.cool = r.p(0.5) ? 2 : 0;
      B = std::make_unique<Battery>("bat");
      if (r.p(0.5)) ns = r.i(1, 5), np = r.i(1, 5), B->setSeriesandParallel(ns, np);
      B->setModule(Deep_ptr<Module>(build_module(n)));
      top = B.get();
      logs.push_back(cool_log(B->getCoolSystem(), n.ncells() * ns * np, pre + "bat"));
    } else {
      M = build_module(n);
      top = M.get();
    }
    for (auto *m : modules(bat ? (StorageUnit *)B->getCells() : top)) logs.push_back(cool_log(m->getCoolSystem(), m->getNcells(), pre + std::to_string(logs.size())));
    for (auto &g : logs)
      if (g.hv) { // the design power: what it removes when it is hot everywhere
        std::unique_ptr<CoolSystem> dup(g.cs->copy());
        auto *d = dynamic_cast<CoolSystem_HVAC *>(dup.get());
        d->setT(273 + 60);
        d->control(333, 333);
        d->dstate(0, 0, 1);
        g.ref.Qmax = d->getQcoolAC_tot();
      }
    const std::string what = n.shape() + (bat ? fmt(" in a battery %us %up", ns, np) : std::string());
    double budget = 0;
    bool dead = false;
    for (int i = 0; i < r.i(2, 12) && !dead; i++) {
      for (auto &g : logs)
        if (r.p(0.7)) stir(c, r, g);
      if (r.p(0.6)) {
        top->storeData();
        for (auto &g : logs) g.stored(c);
        c.ev("tree-samples");
      }
      (void)budget;
    }
    {
      std::vector<std::pair<StorageUnit *, CoolLog *>> sys;
      size_t i = 0;
      if (bat) sys.push_back({ B.get(), &logs[i++] });
      for (auto *m : modules(bat ? (StorageUnit *)B->getCells() : top)) sys.push_back({ m, &logs[i++] });
      check_mod_file(c, top, sys, what);
    }
    for (auto &g : logs) {
      g.cs->writeData(g.prefix);
      check_cool_files(c, g, what);
    }
    c.seen("trees", vh::hs(what.c_str()));
  });
  // what modules record of their current, voltage, temperature and throughput
  if constexpr (MODDATA)
    c.run("modules", c.scale(300, 5000), [&](Rng &r, int k) {
      Opt o;
      o.maxcells = r.i(1, 10);
      o.maxdepth = r.i(1, 3);
      o.mt = true;
      o.rcap_lo = 0.05;
      Node n = random_tree(r, o);
      bool spm = false;
      std::function<void(const Node &)> f = [&](const Node &m) { if (m.leaf && m.kind == 3) spm = true; for (auto &x : m.ch) f(x); };
      f(n);
      const bool bat = r.p(0.4);
      std::unique_ptr<Battery> B;
      std::unique_ptr<Module> M;
      if (bat) {
        n.cool = r.p(0.5) ? 2 : 0;
        B = std::make_unique<Battery>("bat");
        if (r.p(0.5)) B->setSeriesandParallel(r.i(1, 5), 1);
        B->setModule(Deep_ptr<Module>(build_module(n)));
      } else
        M = build_module(n);
      StorageUnit *top = bat ? (StorageUnit *)B.get() : M.get();
      auto ms = modules(bat ? (StorageUnit *)B->getCells() : M.get());
      struct Log {
        double Ah{ 0 }, lo{ 0 }, hi{ 0 };
        std::vector<std::array<double, 7>> want; // Ah, Wh from and to, time, I, V, T
      };
      std::vector<Log> L(ms.size());
      double t = 0, budget = 0;
      const std::string pre = fmt("mod%d_%d", (int)(r.next() % 100000), k);
      auto su = build_module(n); // only to know the capacity
      const double cap = su->Cap();
      bool failed = false;
      for (int i = 0; i < r.i(3, 25) && !failed; i++) {
        auto d = random_drive(r, cap, budget, spm ? 1.0 : 0.5);
        if (r.p(0.7) && !isStatusSuccessful(top->setCurrent(d.I, true, false))) continue;
        if (r.p(0.2)) top->setBlockDegAndTherm(r.p(0.5));
        std::vector<double> I0, V0;
        for (auto *m : ms) I0.push_back(m->I()), V0.push_back(m->V());
        try {
          top->timeStep_CC(d.dt, d.n);
        } catch (int) {
          c.inconclusive++;
          failed = true;
          break;
        }
        t += d.dt * d.n;
        for (size_t j = 0; j < ms.size(); j++) {
          const double dAh = std::fabs(I0[j]) * d.dt * d.n / 3600, V1 = ms[j]->V();
          const double shift = 2 * ms[j]->getRtot() * std::fabs(ms[j]->I() - I0[j]); // currents move again once a member has counted
          L[j].Ah += dAh;
          const double tol = 0.01 * std::max(V0[j], V1) + shift;
          L[j].lo += dAh * (std::min(V0[j], V1) - tol), L[j].hi += dAh * (std::max(V0[j], V1) + tol);
        }
        if (r.p(0.5)) {
          for (size_t j = 0; j < ms.size(); j++) L[j].want.push_back({ L[j].Ah, L[j].lo, L[j].hi, t, ms[j]->I(), ms[j]->V(), ms[j]->T() });
          top->storeData();
          c.ev("module-samples");
        }
        if (r.p(0.08)) top->writeData(pre), c.ev("early-module-writes");
      }
      top->writeData(pre);
      for (size_t j = 0; j < ms.size(); j++) {
        const std::string name = pre + "_" + ms[j]->getFullID() + "_ModuleData.csv", what = n.shape() + " " + ms[j]->getFullID();
        if (L[j].want.empty()) {
          unlink(name.c_str());
          continue;
        }
        auto rows = table(c, name);
        unlink(name.c_str());
        if (!c.eq((double)rows.size(), (double)L[j].want.size(), 0, 0, "module-row-count", what)) continue;
        for (size_t q = 0; q < rows.size(); q++) {
          if (!c.eq((double)rows[q].size(), 6, 0, 0, "module-columns", what)) break;
          const auto &w = L[j].want[q];
          const std::string d = fmt("%s row %zu of %zu", what.c_str(), q, rows.size());
          c.ok(near6(rows[q][0], w[0]) || std::fabs(rows[q][0] - w[0]) < 1e-9, "module-charge", fmt("%s: %.8g, %.8g expected", d.c_str(), rows[q][0], w[0]));
          c.ok(rows[q][1] >= w[1] * (1 - 1e-5) - 1e-9 && rows[q][1] <= w[2] * (1 + 1e-5) + 1e-9, "module-energy", fmt("%s: %.8g, %.8g to %.8g expected", d.c_str(), rows[q][1], w[1], w[2]));
          c.ok(near6(rows[q][2], w[3]), "module-time", fmt("%s: %.8g, %.8g expected", d.c_str(), rows[q][2], w[3]));
          c.ok(near6(rows[q][3], w[4]) || std::fabs(rows[q][3] - w[4]) < 1e-9, "module-current", fmt("%s: %.8g, %.8g expected", d.c_str(), rows[q][3], w[4]));
          c.ok(near6(rows[q][4], w[5]), "module-voltage", fmt("%s: %.8g, %.8g expected", d.c_str(), rows[q][4], w[5]));
          c.ok(near6(rows[q][5], w[6]), "module-temperature", fmt("%s: %.8g, %.8g expected", d.c_str(), rows[q][5], w[6]));
          c.ev("module-rows-compared");
        }
      }
      for (auto *cell : cells(ms[0])) unlink((pre + "_" + cell->getFullID() + "_cellData.csv").c_str()), unlink(("../../results/" + pre + "_" + cell->getFullID() + "_cellData.csv").c_str());
      c.seen("trees", vh::hs(n.shape().c_str()));
    });
}
