// Truth of comparisons.  op kind n {l r}*n bl bx bu  ->  per-element truths, of the set, of the joined set, bounds
#include <cstdlib>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <sleipnir/autodiff/variable_matrix.hpp>
using S = double;
using Mat = slp::VariableMatrix<S>;
using Var = slp::Variable<S>;
using Num = Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic>;
static std::istringstream in;
static S rd() { std::string t; in >> t; return std::strtod(t.c_str(), nullptr); }
static Var var(S x) { Var v; v.set_value(x); return v; }
template <typename C> static std::string show(C c) {
  using K = std::decay_t<C>;
  std::string o;
  for (auto& q : c.constraints) { K one{c}; one.constraints.clear(); one.constraints.push_back(q); o += one ? "1" : "0"; }
  std::vector<K> both{c, c};
  K joined{both};
  return o + " " + (c ? "1" : "0") + " " + (joined ? "1" : "0");
}
template <typename A, typename B> static std::string cmp(const std::string& op, const A& a, const B& b) {
  if (op == "==") return show(a == b);
  if (op == "<=") return show(a <= b);
  if (op == ">=") return show(a >= b);
  if (op == "<") return show(a < b);
  return show(a > b);
}
int main() {
  std::string line;
  while (std::getline(std::cin, line)) {
    in = std::istringstream(line);
    std::string op, kind; int n;
    in >> op >> kind >> n;
    std::vector<S> l(n), r(n);
    for (int k = 0; k < n; ++k) { l[k] = rd(); r[k] = rd(); }
    Mat L(n, 1), R(n, 1); Num Ln(n, 1), Rn(n, 1);
    for (int k = 0; k < n; ++k) { L[k, 0].set_value(l[k]); R[k, 0].set_value(r[k]); Ln(k, 0) = l[k]; Rn(k, 0) = r[k]; }
    std::string o = kind == "vv" ? cmp(op, var(l[0]), var(r[0])) : kind == "vn" ? cmp(op, var(l[0]), r[0]) : kind == "nv" ? cmp(op, l[0], var(r[0]))
                  : kind == "mm" ? cmp(op, L, R) : kind == "mn" ? cmp(op, L, r[0]) : kind == "nm" ? cmp(op, l[0], R) : kind == "mv" ? cmp(op, L, var(r[0]))
                  : kind == "vm" ? cmp(op, var(l[0]), R) : kind == "me" ? cmp(op, L, Rn) : cmp(op, Ln, R);
    S bl = rd(), bx = rd(), bu = rd();
    auto b = slp::bounds(bl, var(bx), bu);
    auto c = slp::bounds(var(bl), var(bx), var(bu));
    o += std::string(" ") + (b ? "1" : "0") + (c ? "1" : "0");
    std::puts(o.c_str());
    std::fflush(stdout);
  }
}
