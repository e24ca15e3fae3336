// Conformance harness for spec/Ocp.tla: optimal control problems built from affine/bilinear dynamics.
//   new <m> <dyn> <ts> <N> <ns> <nu> <four> <style> <dt0>  A B ct ch d q p s     set <X> <U> <DT>     vals | each | feas
//   end <initial|final> <arg> <x...>                                            bound ...
#include <chrono>
#include <cmath>
#include <cstdio>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

#include "sleipnir/autodiff/variable.hpp"
#include "sleipnir/autodiff/variable_matrix.hpp"
#include "sleipnir/optimization/ocp.hpp"
#ifndef SCALAR
#define SCALAR double
#endif
using S = SCALAR;
using Var = slp::Variable<S>;
using Mat = slp::VariableMatrix<S>;
using EMat = Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic>;
using Dur = std::chrono::duration<S>;

static void num(S v) { std::printf(std::isfinite(v) ? "%.17g " : "nan ", (double)v); }
static void shape(const char* n, Mat m) { std::printf("%s %dx%d ", n, m.rows(), m.cols()); }

int main() {
  std::string line;
  std::unique_ptr<slp::OCP<S>> P;
  int N = 0, ns = 0, nu = 0, ts = 0, m = 0;
  while (std::getline(std::cin, line)) {
    std::istringstream s(line);
    std::string op;
    s >> op;
    auto I = [&] { int x; s >> x; return x; };
    auto D = [&] { double x; s >> x; return S(x); };
    auto mat = [&](int r, int c) { EMat v(r, c); for (int a = 0; a < r; ++a) for (int b = 0; b < c; ++b) v(a, b) = D(); return v; };
    if (op == "new") {
      m = I();
      int dyn = I();
      ts = I(), N = I(), ns = I(), nu = I();
      int four = I(), style = I();
      S dt0 = D();
      EMat A = mat(ns, ns), B = mat(ns, nu - ns), ct = mat(ns, 1), ch = mat(ns, 1), d = mat(ns, 1);
      std::vector<int> q(ns), p(ns), w(ns);
      for (auto& x : q) x = I();
      for (auto& x : p) x = I();
      for (auto& x : w) x = I();
      int NS = ns, NU = nu;
      auto f = [=](const Var& t, const Mat& x, const Mat& u, const Var& h) -> Mat {
        Mat r{NS, 1};
        if (style == 0) {
          EMat G = EMat::Zero(NS, NU);
          for (int a = 0; a < NS; ++a) { G(a, a) = 1; for (int b = NS; b < NU; ++b) G(a, b) = B(a, b - NS); }
          r = A * x + G * u + d;
          for (int a = 0; a < NS; ++a) r[a, 0] += ct(a, 0) * t + ch(a, 0) * h;
        } else {
          for (int a = 0; a < NS; ++a) {
            Var e = u[a, 0] + d(a, 0);
            for (int b = 0; b < NS; ++b) if (A(a, b) != S(0)) e = e + A(a, b) * x[b, 0];
            for (int b = NS; b < NU; ++b) if (B(a, b - NS) != S(0)) e += B(a, b - NS) * u[b, 0];
            if (ct(a, 0) != S(0)) e = e + ct(a, 0) * t;
            if (ch(a, 0) != S(0)) e = e + h * ch(a, 0);
            r[a, 0] = e;
          }
        }
        for (int a = 0; a < NS; ++a) if (q[a]) r[a, 0] = r[a, 0] + S(q[a]) * x[p[a] - 1, 0] * u[w[a] - 1, 0];
        return r;
      };
      auto g = [f](const Mat& x, const Mat& u) -> Mat { return f(Var{S(0)}, x, u, Var{S(0)}); };
      auto dy = dyn ? slp::DynamicsType::DISCRETE : slp::DynamicsType::EXPLICIT_ODE;
      auto tm = ts == 0 ? slp::TimestepMethod::FIXED : ts == 1 ? slp::TimestepMethod::VARIABLE_SINGLE : slp::TimestepMethod::VARIABLE;
      auto me = m == 0 ? slp::TranscriptionMethod::DIRECT_TRANSCRIPTION : m == 1 ? slp::TranscriptionMethod::DIRECT_COLLOCATION : slp::TranscriptionMethod::SINGLE_SHOOTING;
      if (four) P = std::make_unique<slp::OCP<S>>(ns, nu, Dur{dt0}, N, f, dy, tm, me);
      else P = std::make_unique<slp::OCP<S>>(ns, nu, Dur{dt0}, N, g, dy, tm, me);
      shape("X", P->X()); shape("U", P->U()); shape("DT", P->dt()); shape("x0", P->initial_state()); shape("xN", P->final_state());
      std::printf("type %d values ", (int)P->equality_constraint_type());
      for (int k = 0; k <= N; ++k) { num(P->dt()[0, k].value()); for (int a = 0; a < nu; ++a) num(P->U()[a, k].value()); if (m != 2 || k == 0) for (int a = 0; a < ns; ++a) num(P->X()[a, k].value()); }
      std::printf("\n");
    } else if (op == "set") {
      for (int k = 0; k <= N; ++k) for (int a = 0; a < ns; ++a) { S x = D(); if (m != 2 || k == 0) P->X()[a, k].set_value(x); }
      for (int k = 0; k <= N; ++k) for (int a = 0; a < nu; ++a) P->U()[a, k].set_value(D());
      for (int k = 0; k <= N; ++k) { S x = D(); if (ts == 2 || (ts == 1 && k == 0)) P->dt()[0, k].set_value(x); }
      std::printf("ok\n");
    } else if (op == "vals") {
      for (int k = 0; k <= N; ++k) for (int a = 0; a < ns; ++a) num(P->X()[a, k].value());
      std::printf("\n");
    } else if (op == "each") {
      int four = I();
      auto cols = [](Mat v, int r) { if (v.rows() != r || v.cols() != 1) std::printf("shape %dx%d ", v.rows(), v.cols()); for (int a = 0; a < v.rows(); ++a) num(v[a, 0].value()); };
      if (four) P->for_each_step([&](const Var& t, const Mat& x, const Mat& u, const Var& dt) { Var tt = t, hh = dt; num(tt.value()); cols(x, ns); cols(u, nu); num(hh.value()); });
      else P->for_each_step([&](const Mat& x, const Mat& u) { cols(x, ns); cols(u, nu); });
      std::printf("\n");
    } else if (op == "feas") {
      std::vector<Var> all;
      for (int k = 0; k <= N; ++k) { for (int a = 0; a < ns; ++a) all.push_back(P->X()[a, k]); for (int a = 0; a < nu; ++a) all.push_back(P->U()[a, k]); all.push_back(P->dt()[0, k]); }
      std::vector<S> before;
      for (auto& x : all) before.push_back(x.value());
      int its = 0;
      P->clear_callbacks();
      P->add_callback([&](const slp::IterationInfo<S>&) { ++its; return its > 1; });
      slp::Options o;
      if (sizeof(S) == 4) o.tolerance = 1e-3;
      int st = (int)P->solve(o);
      bool same = true;
      for (size_t k = 0; k < all.size(); ++k) same &= all[k].value() == before[k];
      std::printf("%s\n", st == 0 && its == 0 ? (same ? "yes" : "moved") : "no");
    } else if (op == "end") {
      // fix inputs, time steps and one end of the trajectory; start from nothing
      std::string which;
      s >> which;
      int arg = I(), other = which == "final" ? 0 : N;
      auto& U = P->U();
      EMat x = mat(ns, 1);
      for (int k = 0; k <= N; ++k) for (int a = 0; a < nu; ++a) { P->subject_to(U[a, k] == U[a, k].value()); U[a, k].set_value(0); }
      for (int k = 0; k <= (ts == 0 ? -1 : ts == 1 ? 0 : N); ++k) P->subject_to(P->dt()[0, k] == P->dt()[0, k].value());
      for (int k = 0; k <= N; ++k) for (int a = 0; a < ns; ++a) if (m != 2 || k == 0) P->X()[a, k].set_value(0);
      auto both = [&](auto v) { if (which == "final") P->constrain_final_state(v); else P->constrain_initial_state(v); };
      bool equal = true;
      for (int a = 1; a < ns; ++a) equal &= x(a, 0) == x(0, 0);
      if (arg == 1 && equal) both(x(0, 0));
      else if (arg == 2) both(Mat{x});
      else both(x);
      P->clear_callbacks();
      int st = (int)P->solve();
      std::printf("%d ", st);
      for (int k = 0; k <= N; ++k) for (int a = 0; a < ns; ++a) num(P->X()[a, k].value());
      std::printf("\n");
      (void)other;
    } else if (op == "bound") {
      int b_nu = I(), n = I(), meth = I(), tsm = I(), scalar = I(), hasLo = I(), hasHi = I();
      EMat lo = mat(b_nu, 1), hi = mat(b_nu, 1), tg = mat(n + 1, b_nu);
      int lim = I();
      S dlo = D(), dhi = D();
      EMat td = mat(n + 1, 1);
      S dt0 = D();
      auto f = [&](const Mat&, const Mat& u) -> Mat { Mat r{1, 1}; r[0, 0] = u[0, 0]; return r; };
      slp::OCP<S> Q{1, b_nu, Dur{dt0}, n, f, slp::DynamicsType::EXPLICIT_ODE,
                    tsm == 0 ? slp::TimestepMethod::FIXED : tsm == 1 ? slp::TimestepMethod::VARIABLE_SINGLE : slp::TimestepMethod::VARIABLE,
                    meth == 0 ? slp::TranscriptionMethod::DIRECT_TRANSCRIPTION : meth == 1 ? slp::TranscriptionMethod::DIRECT_COLLOCATION : slp::TranscriptionMethod::SINGLE_SHOOTING};
      Q.constrain_initial_state(0.0);
      if (hasLo) { if (scalar) Q.set_lower_input_bound(lo(0, 0)); else Q.set_lower_input_bound(lo); }
      if (hasHi) { if (scalar) Q.set_upper_input_bound(hi(0, 0)); else Q.set_upper_input_bound(hi); }
      if (tsm && lim > 0) Q.set_min_timestep(Dur{dlo});
      if (tsm && lim > 1) Q.set_max_timestep(Dur{dhi});
      Var c{S(0)};
      for (int k = 0; k <= n; ++k) {
        for (int a = 0; a < b_nu; ++a) c += slp::pow(Q.U()[a, k] - tg(k, a), S(2));
        if (tsm == 2 || (tsm == 1 && k == 0)) c += slp::pow(Q.dt()[0, k] - td(k, 0), S(2));
      }
      Q.minimize(c);
      int st = (int)Q.solve();
      std::printf("%d ", st);
      for (int k = 0; k <= n; ++k) { for (int a = 0; a < b_nu; ++a) num(Q.U()[a, k].value()); num(Q.dt()[0, k].value()); }
      std::printf("\n");
    }
    std::fflush(stdout);
  }
  P.reset();
}
