#include <cmath>
#include <cstdio>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>

#include "sleipnir/optimization/solver/util/filter.hpp"
using namespace slp;

double num(std::istream& s) {
  std::string t;
  s >> t;
  return strtod(t.c_str(), nullptr);
}

Eigen::VectorXd vec(std::istream& s) {
  int n;
  s >> n;
  Eigen::VectorXd v(n);
  for (auto& x : v) x = num(s);
  return v;
}

int main() {
  std::string line;
  std::unique_ptr<Filter<double>> f;
  while (std::getline(std::cin, line)) {
    std::istringstream s(line);
    std::string op;
    s >> op;
    if (op == "new") {
      f = std::make_unique<Filter<double>>(num(s));
      std::printf("%.17g %.17g\n", f->min_constraint_violation, f->max_constraint_violation);
    } else if (op == "reset") {
      f->reset();
      std::printf("reset %d\n", int(f->last_rejection_due_to_filter()));
    } else if (op == "try") {
      double a = num(s), b = num(s), c = num(s), d = num(s), D = num(s), al = num(s);
      bool ok = f->try_add(FilterEntry<double>{a, b}, FilterEntry<double>{c, d}, D, al);
      std::printf("%d %d\n", int(ok), int(f->last_rejection_due_to_filter()));
    } else if (op == "sqp") {
      double c = num(s);
      Eigen::VectorXd ce = vec(s);
      FilterEntry<double> e{c, ce};
      std::printf("%.17g %.17g\n", e.cost, e.constraint_violation);
    } else if (op == "ipm") {
      double c = num(s);
      Eigen::VectorXd sl = vec(s), ce = vec(s), ci = vec(s);
      FilterEntry<double> e{c, sl, ce, ci, num(s)};
      std::printf("%.17g %.17g\n", e.cost, e.constraint_violation);
    } else if (op == "dom") {
      double a = num(s), b = num(s), c = num(s), d = num(s);
      std::printf("%d\n", int(FilterEntry<double>{a, b}.dominated_by(FilterEntry<double>{c, d})));
    }
    std::fflush(stdout);
  }
}
