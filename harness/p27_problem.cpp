// Conformance harness for spec/RestoreProblem.tla: feasibility_restoration() runs with interior_point() replaced by a
// stand-in that reports the problem it was given and ends as scripted.
#include <cmath>
#include <cstdio>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>

#include "sleipnir/optimization/solver/util/feasibility_restoration.hpp"
using V = Eigen::VectorXd;
using SM = Eigen::SparseMatrix<double>;
using SV = Eigen::SparseVector<double>;

static struct {
  int st, it0;
  V x, pn, y, z, xf, sf;
  std::string out;
  bool inside;   // restoration is running
} T;

static void put(const char* name, const Eigen::MatrixXd& m) {
  char b[64];
  T.out += std::string(T.out.empty() ? "" : ",") + "\"" + name + "\":[";
  for (int r = 0; r < m.rows(); ++r) for (int c = 0; c < m.cols(); ++c) {
    std::snprintf(b, sizeof b, std::isfinite(m(r, c)) ? "%s%.17g" : "%s\"%g\"", r + c ? "," : "", m(r, c));
    T.out += b;
  }
  T.out += "]";
}

namespace slp {
template <>
ExitStatus interior_point<double>(const InteriorPointMatrixCallbacks<double>& m, std::span<std::function<bool(const IterationInfo<double>& info)>> cbs,
                                  const Options& options, bool in_feasibility_restoration, V& x, V& s, V& y, V& z, double& mu, int& iterations) {
  int n = T.x.size();
  put("dims", V(Eigen::Vector<double, 7>(m.num_decision_variables, m.num_equality_constraints, m.num_inequality_constraints, x.size(), s.size(), y.size(), z.size())));
  put("flags", V(Eigen::Vector<double, 5>(in_feasibility_restoration, cbs.size(), options.max_iterations, options.tolerance, iterations)));
  put("x0", x.transpose()); put("s0", s.transpose()); put("y0", y.transpose()); put("z0", z.transpose()); put("mu0", V::Constant(1, mu));
  put("sf", V::Constant(1, m.scaling.f)); put("se", m.scaling.c_e.transpose()); put("si", m.scaling.c_i.transpose());
  V p(n + T.pn.size());
  p << T.x, T.pn;
  V yy = T.y, zz = T.z;
  if (yy.size() == m.num_equality_constraints && zz.size() == m.num_inequality_constraints && p.size() == m.num_decision_variables) {
    put("f", V::Constant(1, m.f(p))); put("g", V(m.g(p)).transpose());
    Eigen::MatrixXd H = m.H(p, yy, zz), Hc = m.H_c(p, yy, zz);
    put("H", H); put("Hcmax", V::Constant(1, Hc.size() ? Hc.cwiseAbs().maxCoeff() : 0)); put("ce", m.c_e(p).transpose());
    put("Ae", Eigen::MatrixXd(m.A_e(p))); put("ci", m.c_i(p).transpose()); put("Ai", Eigen::MatrixXd(m.A_i(p)));
  }
  // the callbacks are those of the caller, in order
  V order(cbs.size());
  SV g; SM h, a, b;
  for (size_t k = 0; k < cbs.size(); ++k) { order[k] = -1; cbs[k]({100 + int(k), x, s, y, z, g, h, a, b}); }
  x.head(n) = T.xf;
  if (T.sf.size()) s.head(T.sf.size()) = T.sf;
  iterations += 3;
  T.inside = false;
  return ExitStatus(T.st);
}
}  // namespace slp

static double num(std::istream& s) { std::string t; s >> t; return strtod(t.c_str(), nullptr); }
static V vec(std::istream& s) { int n; s >> n; V v(n); for (auto& e : v) e = num(s); return v; }
struct Fns {
  V b; std::vector<V> a, q;
  explicit Fns(std::istream& s) : b{vec(s)} { for (int k = 0; k < b.size(); ++k) { a.push_back(vec(s)); q.push_back(vec(s)); } }
  V val(const V& x) const { V r(b.size()); for (int k = 0; k < r.size(); ++k) r[k] = b[k] + a[k].dot(x) + 0.5 * x.dot(q[k].cwiseProduct(x)); return r; }
  SM jac(const V& x, bool bad) const {
    Eigen::MatrixXd m(b.size(), x.size());
    for (int k = 0; k < b.size(); ++k) m.row(k) = (a[k] + q[k].cwiseProduct(x)).transpose();
    if (bad && m.size()) m(0, 0) = NAN;
    return m.sparseView();
  }
  void hess(const V& w, Eigen::MatrixXd& H) const { for (int k = 0; k < b.size(); ++k) H.diagonal() -= w[k] * q[k]; }
};

int main() {
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream s(line);
    bool ipm, ident, nan; int ncb;
    s >> ipm >> ident >> nan >> ncb >> T.st >> T.it0;
    double tol = num(s), mu = num(s);
    V x = vec(s), sl = vec(s), y = vec(s), g0 = vec(s), de = vec(s), di = vec(s);
    Fns E(s), I(s);
    T.x = vec(s); T.pn = vec(s); T.y = vec(s); T.z = vec(s); T.xf = vec(s); T.sf = vec(s);
    T.out.clear(); T.inside = true;
    int n = x.size(), me = E.b.size(), mi = I.b.size();
    std::vector<int> seen;
    std::vector<std::function<bool(const slp::IterationInfo<double>&)>> cbs;
    for (int k = 0; k < ncb; ++k) cbs.emplace_back([&seen, k](const slp::IterationInfo<double>& i) { seen.push_back(10 * k + (i.iteration - 100)); return false; });
    slp::Options opt; opt.tolerance = tol; opt.max_iterations = 77;
    slp::ProblemScaling<double> sc;
    if (!ident) sc = slp::ProblemScaling<double>{0.5, de, ipm ? di : V{}};
    auto f = [&](const V&) { return 0.0; };
    // the derivatives at the point where restoration ends may be non-finite
    auto end = [&] { return nan && !T.inside; };
    auto G = [&](const V&) -> SV { V g = g0; if (end()) g[0] = NAN; return g.sparseView(); };
    V z = V::Ones(mi), y1 = y, z1 = z;
    int it = T.it0; slp::ExitStatus st;
    V xs = x, ss = sl;
    V ye, ze;
    if (ipm) {
      auto H = [&](const V&, const V& y, const V& z) -> SM { Eigen::MatrixXd H = Eigen::MatrixXd::Zero(n, n); E.hess(y, H); I.hess(z, H); return H.sparseView(); };
      slp::InteriorPointMatrixCallbacks<double> m{n, me, mi, f, G, [&](const V& x, const V& y, const V& z) { return H(x, y, z); }, H,
        [&](const V& x) { return E.val(x); }, [&](const V& x) { return E.jac(x, end()); }, [&](const V& x) { return I.val(x); }, [&](const V& x) { return I.jac(x, end()); }, sc};
      st = slp::feasibility_restoration<double>(m, cbs, opt, x, sl, y1, z1, mu, it);
      if (!nan) { auto e = slp::lagrange_multiplier_estimate<double>(V(g0).sparseView(), E.jac(x, false), I.jac(x, false), sl, mu); ye = e.y; ze = e.z; }
    } else {
      auto H = [&](const V&, const V& y) -> SM { Eigen::MatrixXd H = Eigen::MatrixXd::Zero(n, n); E.hess(y, H); return H.sparseView(); };
      slp::SQPMatrixCallbacks<double> m{n, me, f, G, [&](const V& x, const V& y) { return H(x, y); }, H, [&](const V& x) { return E.val(x); }, [&](const V& x) { return E.jac(x, end()); }, sc};
      st = slp::feasibility_restoration<double>(m, cbs, opt, x, y1, it);
      if (!nan) ye = slp::lagrange_multiplier_estimate<double>(V(g0).sparseView(), E.jac(x, false));
    }
    bool same = (y1.size() == y.size() && (y1.array() == y.array()).all()) && (z1.array() == z.array()).all();
    // rank-deficient Jacobians make the estimate arbitrary
    auto near = [](const V& a, const V& b) { return a.size() == b.size() && (b.size() == 0 || !(b.cwiseAbs().maxCoeff() < 1e6) || (a - b).cwiseAbs().maxCoeff() < 1e-6); };
    bool arbitrary = !nan && ((ye.size() && !(ye.cwiseAbs().maxCoeff() < 1e6)) || (ze.size() && !(ze.cwiseAbs().maxCoeff() < 1e6)));
    bool est = !nan && (arbitrary || (near(y1, ye) && (!ipm || near(z1, ze))));
    bool fin = y1.allFinite() && z1.allFinite();
    V ord(seen.size());
    for (size_t k = 0; k < seen.size(); ++k) ord[k] = seen[k];
    put("order", ord.transpose()); put("ret", V::Constant(1, (int)st)); put("it", V::Constant(1, it)); put("x", x.transpose()); put("s", sl.transpose());
    put("mult", V(Eigen::Vector3d(same, est, fin)));
    std::printf("{%s}\n", T.out.c_str());
    std::fflush(stdout);
  }
}
