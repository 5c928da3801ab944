// Reference of the documented cooling systems: sizes, control laws, convection and energy.
#pragma once
#include "vm.hpp"
struct RefCool {
  int type{ 0 }; // 0 fan, 1 fan and air conditioner, 2 open
  size_t N{ 1 };
  int ctl{ 1 };
  double T{ 288 };
  double flow{ 0 }, Q{ 0 }; // state of the fan and of the air conditioner
  double flowmax{}, Qmax{};
  bool flow_ambiguous{ false }, q_ambiguous{ false };
  double flow_alt{}, Q_alt{};
  static constexpr double rho = 1.225, cp = 1005, K = 273, Tenv = 273 + 15;
  double across() const { return 25e-6 * N; }
  RefCool() = default;
  RefCool(int type_, size_t N_, int ctl_, double Q0) : type(type_), N(N_), ctl(ctl_)
  {
    flowmax = 0.0005 * N;
    flow = type == 2 ? 0 : flowmax;
    if (type == 1) Q = Qmax = 7.5 * N + Q0;
    acTon = K + (ctl == 3 || ctl == 5 ? 30 : 25);
    acTprop = K + (ctl == 5 ? 25 : 20);
  }
  double acTon{ K + 25 }, acTprop{ K + 20 };
  double heat_capacity() const { return rho * cp * N * (type == 1 ? Qmax / (7.5 * N) : 1.0); }
  double h() const
  {
    if (type == 2) return 90;
    if (flow == 0) return 0;
    const double v = flow / across();
    return 12.12 - 1.16 * v + 11.6 * std::sqrt(v);
  }
  double fan_power() const
  {
    const double v = flow / across();
    return rho * across() * v * v * v / 2 / 0.5;
  }
  bool free_cooling() const { return !(Tenv > T - 5); }
  double ac_energy(double P, double dt) const // energy to remove heat P for dt
  {
    if (P <= 0) return 0;
    if (!free_cooling()) return 3 * P * dt;
    const double A = 2 * across(), v = P / (rho * cp * (T - Tenv)) / A;
    return rho * A * v * v * v / 2 / 0.5 * dt;
  }
  void control(double Tl, double Tg)
  {
    flow_ambiguous = q_ambiguous = false;
    const double Th = ctl == 3 || ctl == 5 ? Tg : Tl;
    if (type != 2) {
      if (ctl == 2 || ctl == 3) {
        if (Th >= K + 35) flow = flowmax;
        if (Th <= K + 25) flow = 0;
      } else if (ctl == 4 || ctl == 5) {
        const double f = std::max(0.0, Th - (K + 25)) / 10;
        flow_ambiguous = std::fabs(f - 0.2) < 1e-9;
        flow_alt = flowmax * f;
        flow = f > 0.2 ? flowmax * f : 0;
      }
    } else
      flow = 0;
    if (type == 1) {
      const double Toff = K + 20;
      switch (ctl) {
      case 1: Q = T < Toff ? 0 : Qmax; break;
      case 2:
        if (T <= Toff) Q = 0;
        else if (T >= acTon) Q = Qmax;
        break;
      case 3:
        if (T <= Toff) Q = 0;
        else if (Tg >= acTon) Q = Qmax;
        break;
      default: {
        const double e = std::max(0.0, (ctl == 4 ? T : Tg) - acTprop), f = std::min(1.0, e / (acTon - acTprop));
        Q_alt = Qmax * f;
        Q = T <= Toff ? 0 : Q_alt;
        if (T > Toff && e < 2 + 1e-9) q_ambiguous = true; // very small powers are avoided
        if (q_ambiguous && e > 2 - 1e-9) q_ambiguous = true;
      }
      }
    }
  }
};
