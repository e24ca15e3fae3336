// Conformance harness for spec/Nlp.tla: problems with known solutions posed through the Problem interface.
// cvx: n style perm max feas fs  xs H c f0 q  me {a b sc}  mi {a k b sc}  start
// well: n style perm max feas fs  V w a  m {kind row value sc}  start
#include <chrono>
#include <cmath>
#include <cstdio>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>

#include "sleipnir/autodiff/variable.hpp"
#include "sleipnir/autodiff/variable_matrix.hpp"
#include "sleipnir/optimization/problem.hpp"
#ifndef SCALAR
#define SCALAR double
#endif
using S = SCALAR;
using Var = slp::Variable<S>;
using Mat = slp::VariableMatrix<S>;
using EMat = Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic>;

int main() {
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream s(line);
    std::string kind;
    s >> kind;
    auto I = [&] { int x; s >> x; return x; };
    int n = I(), style = I(), rot = I(), maxi = I(), feas = I(), fs = I();
    auto vec = [&](int m) { EMat v(m, 1); for (int k = 0; k < m; ++k) v(k, 0) = S(I()); return v; };
    auto mat = [&](int r, int c) { EMat v(r, c); for (int a = 0; a < r; ++a) for (int b = 0; b < c; ++b) v(a, b) = S(I()); return v; };

    slp::Problem<S> P;
    Mat x{n, 1};
    if (style == 0) {
      // one block of variables
      Mat d = P.decision_variable(n);
      for (int k = 0; k < n; ++k) x[(k + rot) % n, 0] = d[k, 0];
    } else {
      for (int k = 0; k < n; ++k) x[(k + rot) % n, 0] = P.decision_variable();
    }
    Var f{S(0)};
    S fscale = std::ldexp(S(1), fs);
    std::vector<Var> keepAlive;
    if (kind == "cvx") {
      EMat xs = vec(n), H = mat(n, n), c = vec(n);
      S f0 = I();
      EMat q = vec(n);
      if (style == 0) {
        Mat d = x - Mat{xs};
        Mat t = d.T() * H * d;
        f = S(0.5) * t[0, 0] + (EMat{c.transpose()} * d)[0, 0] + f0;
      } else if (style == 1) {
        f = f0;
        for (int a = 0; a < n; ++a) {
          Var da = x[a, 0] - xs(a, 0);
          f += da * c(a, 0);
          for (int b = 0; b < n; ++b)
            if (H(a, b) != S(0)) f += S(0.5) * H(a, b) * da * (x[b, 0] - xs(b, 0));
        }
      } else {
        // expanded around the origin
        EMat Hx = H * xs;
        f = f0 + S(0.5) * (xs.transpose() * Hx)(0, 0) - (c.transpose() * xs)(0, 0);
        for (int a = 0; a < n; ++a) {
          f += (c(a, 0) - Hx(a, 0)) * x[a, 0] + slp::pow(x[a, 0], S(2)) * (S(0.5) * H(a, a));
          for (int b = 0; b < a; ++b) f += H(a, b) * x[a, 0] * x[b, 0];
        }
      }
      for (int a = 0; a < n; ++a) {
        if (q(a, 0) == S(0)) continue;
        Var d = x[a, 0] - xs(a, 0);
        f += style == 0 ? q(a, 0) * slp::pow(d, S(4)) : q(a, 0) * (d * d) * (d * d);
      }
      int me = I();
      EMat A(me, n), b(me, 1);
      for (int r = 0; r < me; ++r) {
        EMat row = vec(n).transpose();
        S rhs = I(), sc = std::ldexp(S(1), I());
        A.row(r) = sc * row;
        b(r, 0) = sc * rhs;
      }
      if (me > 0) {
        if (style == 0) P.subject_to(Mat{A} * x == b);
        else for (int r = 0; r < me; ++r) {
          Var l{S(0)};
          for (int k = 0; k < n; ++k) if (A(r, k) != S(0)) l = l + A(r, k) * x[k, 0];
          if (style == 1) P.subject_to(l == b(r, 0)); else P.subject_to(b(r, 0) - l == S(0));
        }
      }
      int mi = I();
      for (int r = 0; r < mi; ++r) {
        EMat a = vec(n), k = vec(n);
        S rhs = I(), sc = std::ldexp(S(1), I());
        Var l{S(0)};
        for (int j = 0; j < n; ++j) {
          if (a(j, 0) != S(0)) l = l + a(j, 0) * x[j, 0];
          if (k(j, 0) != S(0)) l = l + k(j, 0) * (style == 2 ? slp::pow(x[j, 0], S(2)) : x[j, 0] * x[j, 0]);
        }
        if (style == 0) P.subject_to(sc * l <= sc * rhs);
        else if (style == 1) P.subject_to(sc * rhs - sc * l >= S(0));
        else P.subject_to((rhs - l) * sc >= S(0));
      }
    } else {
      EMat V = mat(n, n), w = vec(n), a = vec(n);
      Mat t = style == 0 ? Mat{V} * x : Mat{n, 1};
      if (style) for (int k = 0; k < n; ++k) {
        Var l{S(0)};
        for (int j = 0; j < n; ++j) if (V(k, j) != S(0)) l = l + V(k, j) * x[j, 0];
        t[k, 0] = l;
      }
      for (int k = 0; k < n; ++k) {
        Var d = t[k, 0] * t[k, 0] - a(k, 0) * a(k, 0);
        f = f + w(k, 0) * (style == 2 ? slp::pow(d, S(2)) : d * d);
      }
      int m = I();
      for (int r = 0; r < m; ++r) {
        int kd = I(), k = I();
        S val = I(), sc = std::ldexp(S(1), I());
        if (kd == 0) P.subject_to(sc * t[k, 0] == sc * val);
        else if (kd == 1) P.subject_to(sc * t[k, 0] >= sc * val);
        else if (kd == 2) P.subject_to(sc * t[k, 0] <= sc * val);
        else P.subject_to(slp::bounds(S(I()), t[k, 0], val));
      }
    }
    Var cost = maxi ? -(f * fscale) : f * fscale;
    if (maxi) P.maximize(cost); else P.minimize(cost);
    for (int k = 0; k < n; ++k) x[k, 0].set_value(S(I()));
    slp::Options opt;
    opt.max_iterations = 1000;
    if (sizeof(S) == 4) opt.tolerance = 1e-4;
    opt.feasible_ipm = feas;
    std::string t = std::to_string((int)P.cost_function_type()) + "," + std::to_string((int)P.equality_constraint_type()) + "," + std::to_string((int)P.inequality_constraint_type());
    int its = 0;
    P.add_callback([&](const slp::IterationInfo<S>& i) { its = i.iteration + 1; });
    int st = (int)P.solve(opt);
    std::printf("{\"st\":%d,\"its\":%d,\"types\":[%s],\"f\":", st, its, t.c_str());
    auto num = [](S v) { std::printf(std::isfinite(v) ? "%.12g" : "\"%g\"", (double)v); };
    num(f.value());
    std::printf(",\"x\":[");
    for (int k = 0; k < n; ++k) { if (k) std::printf(","); num(x[k, 0].value()); }
    std::printf("]}\n");
    std::fflush(stdout);
  }
}
