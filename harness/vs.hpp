// Helpers that talk to the library under test through its public interface only.
#pragma once
#include "vh.hpp"
#include "cells/cells.hpp"
#include "settings/settings.hpp"
#include <memory>
#include <span>

namespace vs {
using namespace slide;
using vh::Rng;
using vh::fmt;

inline double Q_neg(double capf) { return 0.5 * 73.5e-6 * 0.62 * capf * 30555 * 96487 / 3600.0; } // Ah for a full swing of the graphite
inline double Q_pos(double capf) { return 0.5 * 70e-6 * 0.62 * capf * 51385 * 96487 / 3600.0; }

// bring an electrochemical cell to rest at the given state of charge (uniform concentrations)
inline void spm_at(Cell_SPM &c, double soc, double capf = 1)
{
  const double dQ = (soc - 0.5) * 16 * capf;
  c.setC(0.689332 - dQ / Q_pos(capf), 0.479283 + dQ / Q_neg(capf));
  c.setSOC(soc, false, false);
}

inline DEG_ID deg_none() { return DEG_ID{}; }
inline DEG_ID deg_rand(Rng &r, bool stress = true)
{
  DEG_ID d;
  for (int k = 1; k <= 4; k++)
    if (r.p(0.3)) d.SEI_id.add_model(k);
  d.SEI_porosity = r.p(0.4);
  for (int k = 1; k <= 5; k++)
    if (r.p(0.25) && (stress || k > 2)) d.CS_id.add_model(k);
  d.CS_diffusion = r.p(0.4);
  for (int k = 1; k <= 4; k++)
    if (r.p(0.25) && (stress || k > 1)) d.LAM_id.add_model(k);
  d.pl_id = r.p(0.4);
  return d;
}

// give a cell the wear of a random past, within what cells can reach
inline void age(Cell_SPM &c, Rng &r)
{
  auto &st = c.getStateObj();
  if (r.p(0.7)) st.delta() *= r.logu(1, 30);
  if (r.p(0.7)) st.LLI() += r.u(0, 5000);
  if (r.p(0.7)) st.delta_pl() += r.logu(1e-12, 1e-8);
  if (r.p(0.7)) st.CS() *= r.logu(1, 3000);
  if (r.p(0.7)) st.thickp() *= r.u(0.8, 1);
  if (r.p(0.7)) st.thickn() *= r.u(0.8, 1);
  if (r.p(0.7)) st.ep() *= r.u(0.8, 1);
  if (r.p(0.7)) st.en() *= r.u(0.8, 1);
  st.ap() = 3 * st.ep() / 8.5e-6;
  st.an() = 3 * st.en() / 1.25e-5;
  if (r.p(0.7)) st.Dn() *= r.u(0.3, 1);
  if (r.p(0.5)) st.rDCp() *= r.u(1, 2), st.rDCn() *= r.u(1, 2), st.rDCcc() *= r.u(1, 2);
  State_SPM copy = st; // through the front door, so that nothing stored survives
  c.setStateObj(copy);
}

struct CellBox { // a random cell plus what the harness knows about it
  std::unique_ptr<Cell> c;
  int kind; // 0,1,2: number of RC branches; 3: electrochemical
  double cap{ 16 }, Rdc{ 2e-3 };
  std::vector<double> Rp, it;
  double capf{ 1 };
  Cell_SPM *spm() { return kind == 3 ? static_cast<Cell_SPM *>(c.get()) : nullptr; }
  const char *name() const
  {
    static const char *n[] = { "bucket", "ecm1", "ecm2", "spm" };
    return n[kind];
  }
};

inline CellBox rand_ecm(Rng &r, int kind, double soc)
{
  CellBox b;
  b.kind = kind;
  b.cap = r.p(0.2) ? 16 : r.logu(0.5, 120);
  b.Rdc = 2e-3 * 16 / b.cap * r.u(0.3, 3);
  if (kind == 0) b.c = std::make_unique<Cell_ECM<0>>("c" + std::to_string(r.i(0, 99)), b.cap, soc, b.Rdc, std::array<double, 0>{}, std::array<double, 0>{});
  if (kind == 1) {
    b.Rp = { b.Rdc * r.u(0.3, 4) };
    b.it = { 1.0 / r.logu(5, 900) };
    b.c = std::make_unique<Cell_ECM<1>>("c" + std::to_string(r.i(0, 99)), b.cap, soc, b.Rdc, std::array<double, 1>{ b.Rp[0] }, std::array<double, 1>{ b.it[0] });
  }
  if (kind == 2) {
    b.Rp = { b.Rdc * r.u(0.3, 4), b.Rdc * r.u(0.3, 2) };
    b.it = { 1.0 / r.logu(5, 900), 1.0 / r.logu(5, 300) };
    b.c = std::make_unique<Cell_ECM<2>>("c" + std::to_string(r.i(0, 99)), b.cap, soc, b.Rdc, std::array<double, 2>{ b.Rp[0], b.Rp[1] }, std::array<double, 2>{ b.it[0], b.it[1] });
  }
  return b;
}
inline CellBox rand_spm(Rng &r, double soc, const DEG_ID &d, double T = 0)
{
  CellBox b;
  b.kind = 3;
  b.capf = r.p(0.3) ? 1 : r.u(0.8, 1.25);
  b.cap = 16 * b.capf;
  auto p = std::make_unique<Cell_SPM>("spm" + std::to_string(r.i(0, 99)), d, b.capf, r.u(0.8, 1.3), 1.0, 1.0);
  if (T > 0) p->setT(T);
  spm_at(*p, soc, b.capf);
  b.c = std::move(p);
  return b;
}
inline CellBox rand_cell(Rng &r, double soc, int kind = -1)
{
  if (kind < 0) kind = r.i(0, 3);
  if (kind < 3) return rand_ecm(r, kind, soc);
  return rand_spm(r, soc, deg_none(), r.u(283, 323));
}

inline std::vector<double> states(StorageUnit &su)
{
  std::vector<double> s;
  su.getStates(s);
  return s;
}
inline Status set_states(StorageUnit &su, std::vector<double> s, bool check = true)
{
  std::span<double> sp(s);
  return su.setStates(sp, check, false);
}
inline uint64_t bits(const std::vector<double> &v)
{
  uint64_t h = v.size();
  for (double d : v) h = vh::hmix(h, vh::hd(d));
  return h;
}
inline bool same_bits(const std::vector<double> &a, const std::vector<double> &b)
{
  return a.size() == b.size() && (a.empty() || !std::memcmp(a.data(), b.data(), a.size() * sizeof(double)));
}
// index of first difference, for messages
inline std::string first_diff(const std::vector<double> &a, const std::vector<double> &b)
{
  if (a.size() != b.size()) return fmt("size %zu vs %zu", a.size(), b.size());
  for (size_t i = 0; i < a.size(); i++)
    if (vh::hd(a[i]) != vh::hd(b[i])) return fmt("entry %zu of %zu: %.17g vs %.17g", i, a.size(), a[i], b[i]);
  return "identical";
}
inline double spm_expected_step_limit() { return 10; }
} // namespace vs
