#include <cstdio>
#include <iostream>
#include <sstream>
#include <string>

#include "sleipnir/optimization/solver/util/feasibility_restoration.hpp"
using namespace slp;
using SM = Eigen::SparseMatrix<double>;

double num(std::istream& s) {
  std::string t;
  s >> t;
  return strtod(t.c_str(), nullptr);
}
Eigen::VectorXd vec(std::istream& s) {
  int n;
  s >> n;
  Eigen::VectorXd v(n);
  for (auto& x : v) x = num(s);
  return v;
}
SM mat(std::istream& s) {
  int r, c, n;
  s >> r >> c >> n;
  SM m(r, c);
  for (int k = 0; k < n; ++k) {
    int a, b;
    s >> a >> b;
    m.insert(a, b) = num(s);
  }
  m.makeCompressed();
  return m;
}
template <class V>
void pv(const V& v) {
  for (int k = 0; k < v.size(); ++k) std::printf("%.17g ", v[k]);
}

int main() {
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream s(line);
    std::string op;
    s >> op;
    if (op == "pn") {
      Eigen::VectorXd c = vec(s);
      double rho = num(s), mu = num(s);
      auto [p, n] = compute_p_n<double>(c, rho, mu);
      pv(p);
      std::printf("; ");
      pv(n);
    } else if (op == "trip") {
      int ro, co, nb;
      s >> ro >> co >> nb;
      gch::small_vector<Eigen::Triplet<double>> t;
      t.emplace_back(7, 8, 9.0);  // something already there
      SM a = mat(s);
      if (nb == 1) {
        append_as_triplets<double>(t, ro, co, {a});
      } else {
        SM b = mat(s);
        if (nb == 2) {
          append_as_triplets<double>(t, ro, co, {a, b});
        } else {
          SM c = mat(s);
          if (nb == 3)
            append_as_triplets<double>(t, ro, co, {a, b, c});
          else
            append_as_triplets<double>(t, ro, co, {a, b, c, mat(s)});
        }
      }
      for (auto& e : t) std::printf("%d %d %g ", int(e.row()), int(e.col()), e.value());
    } else if (op == "dtrip") {
      int ro, co;
      s >> ro >> co;
      gch::small_vector<Eigen::Triplet<double>> t;
      append_diagonal_as_triplets<double>(t, ro, co, vec(s));
      for (auto& e : t) std::printf("%d %d %g ", int(e.row()), int(e.col()), e.value());
    } else if (op == "eq") {
      Eigen::SparseVector<double> g = vec(s).sparseView();
      SM A = mat(s);
      pv(lagrange_multiplier_estimate<double>(g, A));
    } else if (op == "ipm") {
      Eigen::SparseVector<double> g = vec(s).sparseView();
      SM Ae = mat(s), Ai = mat(s);
      Eigen::VectorXd sl = vec(s);
      auto e = lagrange_multiplier_estimate<double>(g, Ae, Ai, sl, num(s));
      pv(e.y);
      std::printf("; ");
      pv(e.z);
    }
    std::printf("\n");
    std::fflush(stdout);
  }
}
