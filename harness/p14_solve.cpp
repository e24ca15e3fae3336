// Conformance harness for spec/SolverTrace.tla and spec/Nlp.tla: drives newton(), sqp() and interior_point()
// through their function-object interface on problems given as sums of products, with non-finite results injected
// at chosen evaluations, a scripted clock and scripted callbacks; prints one JSON line per solve.
#include <chrono>
#include <cmath>
#include <cstdio>
#include <functional>
#include <iostream>
#include <limits>
#include <sstream>
#include <string>
#include <vector>
#include <unistd.h>
#include <Eigen/Core>
#include <Eigen/SparseCore>
#include <gch/small_vector.hpp>
#include <sleipnir/optimization/solver/interior_point.hpp>
#include <sleipnir/optimization/solver/newton.hpp>
#include <sleipnir/optimization/solver/sqp.hpp>

// Scripted clock: replaces the C++ runtime's steady clock in this program. A tick is one second.
static double g_now = 5;
static long g_nev = 0;
static long g_cap = 0;
namespace std { namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point{duration{(long long)(g_now * 1e9)}}; }
} } }

using V = Eigen::VectorXd;
using SM = Eigen::SparseMatrix<double>;
using SV = Eigen::SparseVector<double>;
struct Runaway {};

struct Term { double c; std::vector<std::pair<int, int>> fs; };
using Poly = std::vector<Term>;
// factor kinds: 0..99 power; 100 exp, 101 log, 102 sqrt, 103 sin, 104 cos, 105 reciprocal
static void fac(int k, double x, double& v, double& d, double& h) {
  switch (k) {
    case 100: v = d = h = std::exp(x); break;
    case 101: v = std::log(x); d = 1 / x; h = -1 / (x * x); break;
    case 102: v = std::sqrt(x); d = 0.5 / v; h = -0.25 / (v * x); break;
    case 103: v = std::sin(x); d = std::cos(x); h = -v; break;
    case 104: v = std::cos(x); d = -std::sin(x); h = -v; break;
    case 105: v = 1 / x; d = -1 / (x * x); h = 2 / (x * x * x); break;
    default:
      v = k == 0 ? 1 : std::pow(x, k);
      d = k == 0 ? 0 : k * (k == 1 ? 1 : std::pow(x, k - 1));
      h = k < 2 ? 0 : k * (k - 1) * (k == 2 ? 1 : std::pow(x, k - 2));
  }
}
static double val(const Poly& p, const V& x) {
  double r = 0;
  for (auto& t : p) {
    double m = t.c, v, d, h;
    for (auto& [i, k] : t.fs) { fac(k, x[i], v, d, h); m *= v; }
    r += m;
  }
  return r;
}
// each variable occurs at most once per term
static void grad(const Poly& p, const V& x, V& g, Eigen::MatrixXd* H = nullptr, double w = 1) {
  for (auto& t : p) {
    int n = t.fs.size();
    std::vector<double> v(n), d(n), h(n);
    for (int a = 0; a < n; ++a) fac(t.fs[a].second, x[t.fs[a].first], v[a], d[a], h[a]);
    for (int a = 0; a < n; ++a) {
      double m = t.c * d[a];
      for (int b = 0; b < n; ++b) if (b != a) m *= v[b];
      g[t.fs[a].first] += w * m;
    }
    if (H) for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) {
      double m = t.c;
      for (int c = 0; c < n; ++c) m *= (c == a && c == b) ? h[c] : (c == a || c == b) ? d[c] : v[c];
      (*H)(t.fs[a].first, t.fs[b].first) += w * m;
    }
  }
}

static void pattern(const Poly& p, Eigen::MatrixXi& P) {
  for (auto& t : p) for (auto& [i, k] : t.fs) for (auto& [j, l] : t.fs) if (k && l && (i != j || k > 1)) P(i, j) = 1;
}
static void pattern(const Poly& p, Eigen::MatrixXi& P, int row) { for (auto& t : p) for (auto& [i, k] : t.fs) if (k) P(row, i) = 1; }
// explicit zeros stay: the solvers rely on a fixed sparsity pattern
static SM sparse(const Eigen::MatrixXd& M, const Eigen::MatrixXi& P) {
  std::vector<Eigen::Triplet<double>> t;
  for (int i = 0; i < M.rows(); ++i) for (int j = 0; j < M.cols(); ++j) if (P(i, j)) t.emplace_back(i, j, M(i, j));
  SM s(M.rows(), M.cols()); s.setFromTriplets(t.begin(), t.end()); return s;
}

struct Fault { std::string fn; int nth; double val; int entry; int len; };
struct In {
  std::istringstream s;
  template <typename T> T get() { T t{}; s >> t; if (!s) { std::fprintf(stderr, "bad input\n"); std::exit(3); } return t; }
  int i() { return get<int>(); }
  std::string w() { return get<std::string>(); }
  double d() { return std::strtod(w().c_str(), nullptr); }
  V vec() { V v(i()); for (auto& e : v) e = d(); return v; }
  Poly poly() {
    Poly p(i());
    for (auto& t : p) { t.c = d(); t.fs.resize(i()); for (auto& f : t.fs) { f.first = i(); f.second = i(); } }
    return p;
  }
};

static std::string js(const V& v) {
  std::string r = "[";
  char b[64];
  for (int k = 0; k < v.size(); ++k) {
    if (std::isfinite(v[k])) std::snprintf(b, sizeof b, "%s%.17g", k ? "," : "", v[k]);
    else std::snprintf(b, sizeof b, "%s\"%s\"", k ? "," : "", std::isnan(v[k]) ? "nan" : v[k] > 0 ? "inf" : "-inf");
    r += b;
  }
  return r + "]";
}
static bool fin(const SM& m) { for (int k = 0; k < m.outerSize(); ++k) for (SM::InnerIterator it(m, k); it; ++it) if (!std::isfinite(it.value())) return false; return true; }
static bool fin(const SV& m) { for (SV::InnerIterator it(m); it; ++it) if (!std::isfinite(it.value())) return false; return true; }

static void solve(In& in) {
  std::string kind = in.w();
  int n = in.i(), me = in.i(), mi = in.i();
  V x = in.vec();
  slp::Options opt;
  opt.tolerance = in.d(); opt.max_iterations = in.i(); opt.timeout = std::chrono::duration<double>{in.d()};
  opt.feasible_ipm = in.i();
  double tick_eval = in.d(), tick_cb = in.d();
  int ncb = in.i();
  std::vector<int> stop(ncb);
  for (auto& q : stop) q = in.i();
  bool full = in.i();          // the overload with multipliers
  bool ident = in.i();         // identity scaling object
  opt.diagnostics = in.i();    // the rows of the iteration table are then part of the trace
  double df = in.d(); V de = in.vec(), di = in.vec();
  Poly f = in.poly();
  std::vector<Poly> ce(me), ci(mi);
  for (auto& p : ce) p = in.poly();
  for (auto& p : ci) p = in.poly();
  std::vector<Fault> faults(in.i());
  for (auto& q : faults) { q.fn = in.w(); q.nth = in.i(); q.val = in.d(); q.entry = in.i(); q.len = in.i(); }
  g_cap = in.i();
  g_now = 5;
  g_nev = 0;
  std::string ev;
  bool bad = false, hc = false;
  bool rhc = false, rredu = true;
  double base = NAN;   // violation of the last iterate outside restoration
  char b[512];
  std::vector<std::pair<std::string, int>> counts;
  auto nth = [&](const std::string& fn) { for (auto& [k, c] : counts) if (k == fn) return c++; counts.emplace_back(fn, 1); return 0; };
  auto fault = [&](const std::string& fn, int k) -> const Fault* {
    for (auto& q : faults) if (q.fn == fn && k >= q.nth && k < q.nth + q.len) return &q;
    return nullptr;
  };
  auto log = [&](const char* fn, int k, bool finite) {
    if (++g_nev > g_cap) throw Runaway{};
    if (k == 0 && fn[1] != 'c') bad = bad || !finite;   // the first evaluation of each function is at the start
    if (fn[0] == 'H' && fn[1] == 'c') hc = true;   // only the restoration phase evaluates the constraints' part alone
    g_now += tick_eval;
  };
  V fx, hx, hy, hz;            // where the cost was last seen not to be finite; the last point and multipliers of the constraints' Hessian
  auto F = [&](const V& x) { int k = nth("f"); double v = df * val(f, x); if (auto q = fault("f", k)) v = q->val; log("f", k, std::isfinite(v)); if (!std::isfinite(v)) fx = x; else if (fx.size() && fx == x) fx = V{}; return v; };
  auto G = [&](const V& x) {
    int k = nth("g"); V g = V::Zero(n); grad(f, x, g); g *= df;
    if (auto q = fault("g", k)) g[q->entry % n] = q->val;
    SV s = g.sparseView(); log("g", k, fin(s)); return s;
  };
  auto hess = [&](const char* fn, const V& x, const V* y, const V* z, bool cost) {
    int k = nth(fn);
    if (!cost) { hx = x; hy = y ? *y : V(0); hz = z ? *z : V(0); }
    Eigen::MatrixXd H = Eigen::MatrixXd::Zero(n, n);
    V dummy = V::Zero(n);
    if (cost) grad(f, x, dummy, &H, df);
    for (int j = 0; y && j < me; ++j) grad(ce[j], x, dummy, &H, -(*y)[j] * de[j]);
    for (int j = 0; z && j < mi; ++j) grad(ci[j], x, dummy, &H, -(*z)[j] * di[j]);
    Eigen::MatrixXi P = Eigen::MatrixXi::Zero(n, n);
    if (cost) pattern(f, P);
    if (y) for (auto& p : ce) pattern(p, P);
    if (z) for (auto& p : ci) pattern(p, P);
    Eigen::MatrixXi L = P.triangularView<Eigen::Lower>();
    SM s = sparse(H, L);
    if (auto q = fault(fn, k)) if (s.nonZeros()) s.valuePtr()[q->entry % s.nonZeros()] = q->val;
    log(fn, k, fin(s)); return s;
  };
  auto cons = [&](const char* fn, const std::vector<Poly>& c, const V& d, const V& x) {
    int k = nth(fn); V r(c.size());
    for (int j = 0; j < (int)c.size(); ++j) r[j] = d[j] * val(c[j], x);
    if (auto q = fault(fn, k)) if (r.size()) r[q->entry % r.size()] = q->val;
    log(fn, k, r.allFinite()); return r;
  };
  auto jac = [&](const char* fn, const std::vector<Poly>& c, const V& d, const V& x) {
    int k = nth(fn);
    Eigen::MatrixXd A = Eigen::MatrixXd::Zero(c.size(), n);
    for (int j = 0; j < (int)c.size(); ++j) { V g = V::Zero(n); grad(c[j], x, g); A.row(j) = d[j] * g.transpose(); }
    Eigen::MatrixXi P = Eigen::MatrixXi::Zero(c.size(), n);
    for (int j = 0; j < (int)c.size(); ++j) pattern(c[j], P, j);
    SM s = sparse(A, P);
    if (auto q = fault(fn, k)) if (s.nonZeros()) s.valuePtr()[q->entry % s.nonZeros()] = q->val;
    log(fn, k, fin(s)); return s;
  };
  // unscaled first-order error, as documented (Wächter & Biegler eq. 5), accumulated here; y, s, z are those of the scaled problem
  struct Err { double err; bool zneg; V ce, ci, g; double feas; };
  auto error = [&](const V& x, const V& y, const V& s, const V& z) {
    Err o{0, false, V(me), V(mi), V::Zero(n), 0};
    for (int j = 0; j < me; ++j) o.ce[j] = val(ce[j], x);
    for (int j = 0; j < mi; ++j) o.ci[j] = val(ci[j], x);
    grad(f, x, o.g);
    V r = o.g;
    double y1 = 0, z1 = 0, comp = 0, feas = 0;
    for (int j = 0; j < me; ++j) { V t = V::Zero(n); grad(ce[j], x, t); double yu = y[j] * de[j] / df; r -= yu * t; y1 += std::abs(yu); feas = std::fmax(feas, std::abs(o.ce[j])); if (std::isnan(o.ce[j])) feas = NAN; }
    for (int j = 0; j < mi; ++j) {
      V t = V::Zero(n); grad(ci[j], x, t); double zu = z[j] * di[j] / df, su = s[j] / di[j]; r -= zu * t; z1 += std::abs(zu);
      comp = std::fmax(comp, std::abs(su * zu)); feas = std::fmax(feas, std::abs(o.ci[j] - su)); o.zneg = o.zneg || !(z[j] > 0) || !(s[j] > 0);
    }
    double rmax = n ? r.cwiseAbs().maxCoeff() : 0;
    for (int j = 0; j < n; ++j) if (!std::isfinite(r[j])) rmax = NAN;
    double sd = me + mi ? std::fmax(100., (y1 + z1) / (me + mi)) / 100 : 1, sc_ = mi ? std::fmax(100., z1 / mi) / 100 : 1;
    o.err = std::fmax(std::fmax(rmax / sd, comp / sc_), feas);
    if (std::isnan(rmax) || std::isnan(feas) || std::isnan(comp)) o.err = NAN;
    o.feas = feas;
    return o;
  };
  // rows printed since the last look, judged against the iterate that follows them
  FILE* cap = opt.diagnostics ? tmpfile() : nullptr;
  int saved = -1;
  if (cap) { std::fflush(stdout); saved = dup(1); dup2(fileno(cap), 1); }
  long seen = 0;
  V px, ps, py;   // the iterate of the last round
  auto rows = [&](const V* x, const V* s, const V* y, const V* z, bool rest) {
    if (!cap) return;
    std::fflush(stdout);
    std::string text; char buf[4096];
    for (ssize_t k; (k = pread(fileno(cap), buf, sizeof buf, seen)) > 0; seen += k) text.append(buf, k);
    std::istringstream ls(text);
    std::vector<std::string> out;
    std::string types;
    for (std::string l; std::getline(ls, l);) {
      if (!l.starts_with("│")) continue;
      l = l.substr(3, l.rfind("│") - 3);
      std::istringstream fs(l);
      std::vector<std::string> w;
      for (std::string t; fs >> t;) w.push_back(t);
      if (w.size() < 14 || !isdigit(w[0][0])) continue;
      int typ = w[1] == "s" ? 1 : w[1] == "r" ? 2 : 0;
      if (typ) w.erase(w.begin() + 1);
      bool fit = w.size() == 14;
      types += "nsr"[typ];
      auto num = [&](int k) { return std::strtod(w[k].c_str(), nullptr); };
      if (fit && faults.empty() && x && typ != 2 && types.find('r') == std::string::npos && !(typ == 1 && rest)) {
        auto near = [](double a, double b, double abs) { return (std::isnan(a) && std::isnan(b)) || a == b || std::abs(a - b) <= 1e-4 * std::abs(b) + abs; };
        double cost = df * val(f, *x), viol = 0, mag = 0;
        for (int j = 0; j < me; ++j) viol += std::abs(de[j] * val(ce[j], *x));
        for (int j = 0; s && j < mi; ++j) { viol += std::abs(di[j] * val(ci[j], *x) - (*s)[j]); mag += (*s)[j]; }
        fit = near(num(3), cost, 1e-9 * (1 + std::abs(cost)) * 1e-3) && near(num(4), viol, 1e-12 * (1 + mag));
        if (typ == 0 && y && s && z) {
          double scale = 1;
          Err e = error(*x, *y, *s, *z);
          for (int j = 0; j < n; ++j) scale = std::fmax(scale, std::abs(e.g[j]));
          if (y->size()) scale = std::fmax(scale, y->cwiseAbs().maxCoeff());
          if (z->size()) scale = std::fmax(scale, z->cwiseAbs().maxCoeff());
          if (std::getenv("SHOW")) std::fprintf(stderr, "expect error %g cost %g violation %g complementarity %g\n", e.err, cost, viol, s->dot(*z));
          fit = fit && near(num(2), e.err, 1e-10 * scale) && near(num(5), s->dot(*z), 6e-3 * s->dot(*z));
        }
        double ap = num(11), ad = num(12);
        fit = fit && ap > 0 && ap <= 1 && (kind == "newton" || (ad > 0 && ad <= 1)) && num(13) >= 0 && (typ != 1 || num(13) == 0);
#ifndef SLEIPNIR_ENABLE_BOUND_PROJECTION
        // the iterate moved by the step it reports, unless restoration moved it
        if (typ == 0 && !rest && px.size() == x->size() && s && !opt.feasible_ipm) {
          double d = n ? (*x - px).cwiseAbs().maxCoeff() : 0, m = n ? x->cwiseAbs().maxCoeff() : 0;
          if (mi) { d = std::fmax(d, (*s - ps).cwiseAbs().maxCoeff()); m = std::fmax(m, s->cwiseAbs().maxCoeff()); }
          if (std::getenv("SHOW")) std::fprintf(stderr, "step %g\n", d);
          fit = fit && std::abs(num(9) * ap - d) <= 0.012 * d + 1e-12 * m;
          if (kind == "sqp" && y && py.size() == y->size()) {
            d = (*y - py).cwiseAbs().maxCoeff();
            fit = fit && std::abs(num(10) * ad - d) <= 0.012 * d + 1e-12 * y->cwiseAbs().maxCoeff();
          }
        }
#endif
      }
      std::snprintf(b, sizeof b, "[%d,%d,%d]", std::atoi(w[0].c_str()), typ, (int)fit);
      if (std::getenv("SHOW") && !fit) std::fprintf(stderr, "unfit: %s\n", l.c_str());
      ev += (ev.empty() ? "" : ",") + std::string(b);
    }
    if (x) px = *x;
    if (s) ps = *s;
    if (y) py = *y;
  };
  auto cb = [&](int id, const slp::IterationInfo<double>& info) {
    bool dims = info.x.size() == n && info.g.rows() == n && info.H.rows() == n && info.H.cols() == n &&
      info.y.size() == (kind == "newton" ? 0 : me) && info.s.size() == (kind == "ipm" ? mi : 0) && info.z.size() == (kind == "ipm" ? mi : 0) &&
      (kind == "newton" || (info.A_e.rows() == me && info.A_e.cols() == n)) && (kind != "ipm" || (info.A_i.rows() == mi && info.A_i.cols() == n));
    bool pos = (info.s.array() > 0).all() && (info.z.array() > 0).all();
    bool fn = info.x.allFinite() && info.s.allFinite() && info.y.allFinite() && info.z.allFinite();
    bool cip = true, der = true;
    if (dims) {
      for (auto& p : ci) cip = cip && val(p, info.x) > 0;
      if (faults.empty()) {
        V g = V::Zero(n); Eigen::MatrixXd H = Eigen::MatrixXd::Zero(n, n); V t = V::Zero(n);
        grad(f, info.x, g, &H); g *= df; H *= df;
        auto same = [](const Eigen::MatrixXd& a, const Eigen::MatrixXd& b) { return !a.allFinite() || (a - b).lpNorm<Eigen::Infinity>() <= 1e-9 * (1 + a.lpNorm<Eigen::Infinity>()); };
        der = same(g, V(info.g));
        if (me && info.y.size() == me) {
          Eigen::MatrixXd A = Eigen::MatrixXd::Zero(me, n);
          for (int j = 0; j < me; ++j) { V gg = V::Zero(n); grad(ce[j], info.x, gg); A.row(j) = de[j] * gg.transpose(); grad(ce[j], info.x, t, &H, -info.y[j] * de[j]); }
          der = der && same(A, Eigen::MatrixXd(info.A_e));
        }
        if (mi && info.z.size() == mi) {
          Eigen::MatrixXd A = Eigen::MatrixXd::Zero(mi, n);
          for (int j = 0; j < mi; ++j) { V gg = V::Zero(n); grad(ci[j], info.x, gg); A.row(j) = di[j] * gg.transpose(); grad(ci[j], info.x, t, &H, -info.z[j] * di[j]); }
          der = der && same(A, Eigen::MatrixXd(info.A_i));
        }
        der = der && same(Eigen::MatrixXd(H.triangularView<Eigen::Lower>()), Eigen::MatrixXd(info.H));
      }
    }
    // in restoration the multipliers shown are the ones the constraints' Hessian was evaluated with
    if (dims && id == 0 && hc && hx.size() && hx == info.x && !(hy == info.y && hz == info.z)) der = false;
    bool st = info.iteration == stop[id];
    if (id == 0 && dims) { V none(0); rows(&info.x, kind == "ipm" ? &info.s : &none, kind == "newton" ? &none : &info.y, kind == "ipm" ? &info.z : &none, hc || rhc); }
    if (++g_nev > g_cap) throw Runaway{};
    double viol = 0;
    if (dims) {
      for (int j = 0; j < me; ++j) viol += std::abs(de[j] * val(ce[j], info.x));
      for (int j = 0; j < mi; ++j) viol += std::abs(di[j] * val(ci[j], info.x) - info.s[j]);
    }
    bool redu = !std::isfinite(base) || viol <= 0.9 * base * (1 + 1e-9) + 1e-300;
    // one round has one value: the evaluations of its own callbacks' wrapper do not count
    if (id == 0) { rhc = hc; hc = false; rredu = redu; if (!rhc) base = viol; }
    std::snprintf(b, sizeof b, "%s[%d,%d,%d,%d,%d,%d,%d,%d,%d,%d,%ld,%d]", ev.empty() ? "" : ",", id, info.iteration, (int)st, (int)dims, (int)der, (int)pos,
                  (int)fn, (int)cip, (int)rhc, (int)rredu, std::lround(4 * (g_now - 5)), (int)(fn && ((info.x.array().abs() > 1e10).any() || (info.s.array().abs() > 1e10).any())));
    ev += b;
    if (id == 0) g_now += tick_cb;
    return st;
  };
  std::vector<std::function<bool(const slp::IterationInfo<double>&)>> cbs;
  for (int k = 0; k < ncb; ++k) cbs.emplace_back([&cb, k](const slp::IterationInfo<double>& i) { return cb(k, i); });
  slp::ProblemScaling<double> sc;
  if (!ident) sc = slp::ProblemScaling<double>{df, kind == "newton" ? V{} : de, kind == "ipm" ? di : V{}};
  bool conv0 = false;   // without inequalities the multipliers start at zero
  if (kind != "ipm") {
    V g = V::Zero(n);
    grad(f, x, g);
    conv0 = g.allFinite() && (!n || g.cwiseAbs().maxCoeff() <= 0.99 * opt.tolerance);
    for (auto& p : ce) conv0 = conv0 && std::abs(val(p, x)) <= 0.99 * opt.tolerance;
  }
  V y = V::Zero(me), s = V::Ones(mi), z = V::Ones(mi);
  double mu = 0.1 * df;
  int iterations = -1;
  int st = 99;
  bool have = false;
  try {
    if (kind == "newton") {
      slp::NewtonMatrixCallbacks<double> m{n, F, G, [&](const V& x) { return hess("H", x, nullptr, nullptr, true); }, sc};
      st = (int)slp::newton<double>(m, cbs, opt, x);
      have = true;
    } else if (kind == "sqp") {
      slp::SQPMatrixCallbacks<double> m{n, me, F, G, [&](const V& x, const V& y) { return hess("H", x, &y, nullptr, true); },
        [&](const V& x, const V& y) { return hess("Hc", x, &y, nullptr, false); }, [&](const V& x) { return cons("ce", ce, de, x); },
        [&](const V& x) { return jac("Ae", ce, de, x); }, sc};
      if (full) { st = (int)slp::sqp<double>(m, cbs, opt, x, y); have = true; } else st = (int)slp::sqp<double>(m, cbs, opt, x);
    } else {
      slp::InteriorPointMatrixCallbacks<double> m{n, me, mi, F, G, [&](const V& x, const V& y, const V& z) { return hess("H", x, &y, &z, true); },
        [&](const V& x, const V& y, const V& z) { return hess("Hc", x, &y, &z, false); }, [&](const V& x) { return cons("ce", ce, de, x); },
        [&](const V& x) { return jac("Ae", ce, de, x); }, [&](const V& x) { return cons("ci", ci, di, x); }, [&](const V& x) { return jac("Ai", ci, di, x); }, sc};
      if (full) {
        iterations = 0;
        st = (int)slp::interior_point<double>(m, cbs, opt, false,
#ifdef SLEIPNIR_ENABLE_BOUND_PROJECTION
          Eigen::ArrayX<bool>::Constant(mi, false),
#endif
          x, s, y, z, mu, iterations);
        have = true;
      } else st = (int)slp::interior_point<double>(m, cbs, opt,
#ifdef SLEIPNIR_ENABLE_BOUND_PROJECTION
          Eigen::ArrayX<bool>::Constant(mi, false),
#endif
          x);
    }
  } catch (const Runaway&) { st = 77; }
  { V none(0); bool k = kind == "newton" || have; rows(kind != "ipm" || have ? &x : nullptr, kind == "ipm" ? (have ? &s : nullptr) : &none, k ? (kind == "newton" ? &none : &y) : nullptr, kind == "ipm" ? (have ? &z : nullptr) : &none, hc || rhc); }
  if (cap) { std::fflush(stdout); dup2(saved, 1); close(saved); std::fclose(cap); }
  Err e = error(x, y, s, z);   // with the returned multipliers
  const V &cev = e.ce, &civ = e.ci, &gv = e.g;
  double err = e.err;
  bool zneg = e.zneg;
  double big = x.size() ? x.cwiseAbs().maxCoeff() : 0;
  if (mi) big = std::fmax(big, s.cwiseAbs().maxCoeff());
  if (kind == "ipm" && !have && mi) big = std::fmax(big, 10 * civ.cwiseAbs().maxCoeff());   // slacks follow the constraints
  bool xfin = x.allFinite() && s.allFinite();
  double viol = e.feas;
  if (std::isfinite(viol)) { viol = 0; for (double v : cev) viol = std::fmax(viol, std::abs(v)); for (double v : civ) viol = std::fmax(viol, -v); }
  auto yes = [](bool v) { return (int)v; };
  std::printf("{\"st\":%d,\"it\":%d,\"have\":%d,\"x\":%s,\"y\":%s,\"s\":%s,\"z\":%s,\"ce\":%s,\"ci\":%s,\"g\":%s,\"f\":%s,\"err\":%s,\"blown\":%d,\"costok\":%d,\"bad\":%d,\"conv0\":%d,\"errok\":%d,\"feasok\":%d,\"t\":%ld,\"ev\":[%s]}\n",
              st, iterations, (int)have, js(x).c_str(), js(y).c_str(), js(s).c_str(), js(z).c_str(), js(cev).c_str(), js(civ).c_str(), js(gv).c_str(),
              js(V::Constant(1, val(f, x))).c_str(), js(V::Constant(1, err)).c_str(), yes(!xfin || big > 1e10), yes(!fx.size() || fx != x), yes(bad), yes(conv0), yes(err <= 1.01 * opt.tolerance + 1e-11 && !zneg), yes(viol <= opt.tolerance),
              std::lround(4 * (g_now - 5)), ev.c_str());
  std::fflush(stdout);
}

int main() {
  std::string line;
  while (std::getline(std::cin, line)) {
    if (line.empty()) continue;
    In in{std::istringstream(line)};
    std::string op = in.w();
    if (op == "solve") solve(in);
    else { std::puts("?"); }
  }
}
