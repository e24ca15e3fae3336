// Linear solves and matrix exponentials built at one point and asked at others.
//   solve n q r c ca*nn cb*nq sa*nn sb*nq npts {a*nn b*nq}*   ->  x*nq dA*nn dB*nq per point (derivatives of X[r,c])
//   exp n c*nn start*nn a*nn                                  ->  exp(A)*nn
#include <cstdio>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <sleipnir/autodiff/gradient.hpp>
#include <sleipnir/autodiff/variable_matrix.hpp>
using S = double;
using Mat = slp::VariableMatrix<S>;
using Var = slp::Variable<S>;
static std::istringstream in;
static int ri() { int x; in >> x; return x; }
static std::vector<int> rv(int n) { std::vector<int> v(n); for (auto& x : v) x = ri(); return v; }
// constants take their final value, variables the starting one
static Mat make(int r, int c, const std::vector<int>& cst, const std::vector<int>& start, const std::vector<int>& fin) {
  Mat m(r, c);
  for (int k = 0; k < r * c; ++k)
    if (cst[k]) m[k / c, k % c] = Var{S(fin[k])};
    else m[k / c, k % c].set_value(S(start[k]));
  return m;
}
static void move(Mat& m, const std::vector<int>& cst, const std::vector<int>& v) {
  for (int k = 0; k < (int)v.size(); ++k) if (!cst[k]) m[k / m.cols(), k % m.cols()].set_value(S(v[k]));
}
static void put(std::string& o, double v) { char b[40]; std::snprintf(b, 40, " %.17g", v); o += b; }
int main() {
  std::string line;
  while (std::getline(std::cin, line)) {
    in = std::istringstream(line);
    std::string op, o; in >> op;
    if (op == "solve") {
      int n = ri(), q = ri(), r = ri(), c = ri();
      auto ca = rv(n * n), cb = rv(n * q), sa = rv(n * n), sb = rv(n * q);
      std::vector<std::vector<int>> as, bs;
      for (int k = ri(); k > 0; --k) { as.push_back(rv(n * n)); bs.push_back(rv(n * q)); }
      Mat A = make(n, n, ca, sa, as[0]), B = make(n, q, cb, sb, bs[0]);
      Mat X = solve(A, B);
      std::vector<Var> wv;
      for (int k = 0; k < n * n; ++k) if (!ca[k]) wv.push_back(A[k / n, k % n]);
      for (int k = 0; k < n * q; ++k) if (!cb[k]) wv.push_back(B[k / q, k % q]);
      Mat wrt{wv};
      slp::Gradient<S>* g = wv.empty() ? nullptr : new slp::Gradient<S>{X[r, c], wrt};
      if (X.rows() != n || X.cols() != q) o = " shape";
      else for (size_t k = 0; k < as.size(); ++k) {
        move(A, ca, as[k]); move(B, cb, bs[k]);
        for (int e = 0; e < n * q; ++e) put(o, X[e / q, e % q].value());
        if (!g) continue;
        Eigen::VectorXd d = g->value();
        for (int e = 0; e < d.size(); ++e) put(o, d[e]);
      }
      delete g;
    } else {
      int n = ri();
      auto c = rv(n * n), st = rv(n * n), a = rv(n * n);
      Mat A = make(n, n, c, st, a);
      Mat E = A.exp();
      move(A, c, a);
      for (int e = 0; e < n * n; ++e) put(o, E[e / n, e % n].value());
    }
    std::puts(o.c_str() + (o.empty() ? 0 : 1));
    std::fflush(stdout);
  }
}
