// Bounds: detection on constraints written in several ways, solving with them, and projection.
//   get T n val*n m { way ncoef-per-var*n const extra v u p }*m       extra: - quad sin par neq
//   solve T cost eq n ... (the rest as get)
//   proj T k1 k2 (or "def") n {lo hi x}*n
#include <cmath>
#include <cstdio>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <sleipnir/autodiff/jacobian.hpp>
#include <sleipnir/optimization/problem.hpp>
#include <sleipnir/optimization/solver/util/bounds.hpp>
using namespace slp;
static std::istringstream in;
template <typename S> static S rd() { std::string t; in >> t; return S(std::strtod(t.c_str(), nullptr)); }
static int ri() { int x; in >> x; return x; }

template <typename T>
struct Con { Variable<T> l, r; int op; };  // op 0: l >= r, 1: l <= r

template <typename T>
static std::vector<Con<T>> constraints(std::vector<Variable<T>>& x) {
  using V = Variable<T>;
  int n = x.size(), m = ri();
  std::vector<Con<T>> out;
  for (int k = 0; k < m; ++k) {
    int w = ri(); std::vector<T> a(n);
    for (auto& e : a) e = rd<T>();
    T c = rd<T>(); std::string ex; in >> ex; int v = ri(), u = ri(); T p = rd<T>();
    std::vector<int> nz;
    for (int j = 0; j < n; ++j) if (a[j] != 0) nz.push_back(j);
    auto term = [&](int j, T f) -> V { return a[j] * f == T(1) ? x[j] : a[j] * f == T(-1) ? -x[j] : w % 2 ? V(x[j] * (a[j] * f)) : V((a[j] * f) * x[j]); };
    auto sum = [&](T f) { V s = term(nz[0], f); for (size_t q = 1; q < nz.size(); ++q) s = s + term(nz[q], f); return s; };
    V e, rhs{T(0)}; int op = 0;
    if (ex == "none") {  // a constant, possibly dressed up as an expression in variables that cancel out
      if (w < 3) e = V(c); else if (w < 6) e = x[v] - x[v] + c; else { V q; q.set_value(p); e = q + (c - p); }
      out.push_back({e, rhs, 0}); continue;
    }
    if (ex == "quad") e = sum(1) + x[v] * x[u] + c;
    else if (ex == "sin") e = sum(1) + sin(x[v]) + c;
    else if (ex == "neq") e = -(x[v] * x[v]) + sum(1) + c;
    else if (ex == "par") { V q; q.set_value(p); e = w % 3 == 0 ? V(sum(1) + q + c) : w % 3 == 1 ? V(q + c + sum(1)) : V(sum(1) - (-q - c)); }
    else switch (w) {
      case 0: e = sum(1) + c; break;
      case 1: e = c + sum(1); break;
      case 2: e = sum(1); rhs = V(-c); break;
      case 3: e = V(-c); rhs = sum(1); op = 1; break;
      case 4: e = (sum(2) + T(2) * c) / T(2); break;
      case 5: { e = c + x[nz[0]]; e = e + x[nz[0]] * (a[nz[0]] - 1); for (size_t q = 1; q < nz.size(); ++q) e = e + term(nz[q], 1); break; }
      case 6: e = sum(1) + x[u] + c; rhs = x[u]; break;
      case 7: e = -(-sum(1) - c); break;
      default: { VariableMatrix<T> A(1, n), X(n, 1); for (int j = 0; j < n; ++j) { A[0, j] = Variable<T>(a[j]); X[j, 0] = x[j]; } VariableMatrix<T> P = A * X; e = P[0, 0] + c; }
    }
    out.push_back({e, rhs, op});
  }
  return out;
}
template <typename T> static std::string vals(std::vector<Variable<T>>& x) {
  std::ostringstream o; for (auto& v : x) { char b[40]; std::snprintf(b, 40, "%a ", double(v.value())); o << b; } return o.str();
}
template <typename T> static std::string get() {
  int n = ri(); std::vector<Variable<T>> x(n);
  for (auto& v : x) v.set_value(rd<T>());
  auto cs = constraints<T>(x);
  std::vector<Variable<T>> c;
  for (auto& k : cs) { InequalityConstraints<T> ic = k.op ? (k.l <= k.r) : (k.l >= k.r); for (auto& q : ic.constraints) c.push_back(q); }
  VariableMatrix<T> X{x}; 
  Eigen::SparseMatrix<T, Eigen::RowMajor> J(c.size(), n);
  if (!c.empty()) { VariableMatrix<T> C{c}; Jacobian<T> jac{C, X}; J = jac.value(); }
  auto [mask, b, conf] = get_bounds<T>(x, c, J);
  std::ostringstream o;
  for (int k = 0; k < mask.size(); ++k) o << mask[k] << " ";
  o << "|";
  for (auto& [l, u] : b) { char s[80]; std::snprintf(s, 80, " %a %a", double(l), double(u)); o << s; }
  o << "|";
  for (auto& [l, u] : conf) o << " " << l << " " << u;
  return o.str() + "|" + vals(x);
}
template <typename T> static std::string solve() {
  int cost = ri(), eq = ri(), n = ri(); Problem<T> p; std::vector<Variable<T>> x;
  for (int j = 0; j < n; ++j) { x.push_back(p.decision_variable()); x.back().set_value(rd<T>()); }
  auto cs = constraints<T>(x);
  Variable<T> f{T(0)};
  for (auto& v : x) f += cost == 1 ? v : cost == 2 ? sin(v) : cost == 3 ? exp(v) + v * v : v * v;
  if (cost != 4) p.minimize(f);
  if (eq) p.subject_to(x[0] + x[1] == T(3));
  for (auto& k : cs) if (k.op) p.subject_to(k.l <= k.r); else p.subject_to(k.l >= k.r);
  int calls = 0;
  p.add_callback([&](const IterationInfo<T>&) { ++calls; });
  Options o; o.max_iterations = 2;
  auto st = p.solve(o);
  return std::to_string(int(st)) + " " + std::to_string(calls) + "|" + vals(x);
}
template <typename T> static std::string proj() {
  std::string k; in >> k; bool def = k == "def"; T k1 = 0, k2 = 0;
  if (!def) { k1 = T(std::strtod(k.c_str(), nullptr)); k2 = rd<T>(); }
  int n = ri(); std::vector<std::pair<T, T>> b(n); Eigen::Vector<T, Eigen::Dynamic> x(n);
  for (int j = 0; j < n; ++j) { b[j].first = rd<T>(); b[j].second = rd<T>(); x[j] = rd<T>(); }
  std::span<const std::pair<T, T>> sp{b};
  if (def) project_onto_bounds(x, sp); else project_onto_bounds(x, sp, k1, k2);
  std::ostringstream o; for (int j = 0; j < n; ++j) { char s[40]; std::snprintf(s, 40, "%a ", double(x[j])); o << s; }
  return o.str();
}
int main() {
  std::string line;
  while (std::getline(std::cin, line)) {
    in = std::istringstream(line); std::string k, t; in >> k >> t;
    std::string r = k == "get" ? (t == "d" ? get<double>() : get<float>()) : k == "proj" ? (t == "d" ? proj<double>() : proj<float>()) : solve<double>();
    std::puts(r.c_str()); std::fflush(stdout);
  }
}
