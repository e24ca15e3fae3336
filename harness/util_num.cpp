// Drives the numeric helper templates (boundary rule, KKT errors, scaling, norms, infeasibility, inertia, LDLT).
#include <cmath>
#include <cstdio>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <variant>
#include <vector>

#include <Eigen/Core>
#include <Eigen/SparseCore>

#include "sleipnir/optimization/solver/util/all_finite.hpp"
#include "sleipnir/optimization/solver/util/fraction_to_the_boundary_rule.hpp"
#include "sleipnir/optimization/solver/util/inertia.hpp"
#include "sleipnir/optimization/solver/util/is_locally_infeasible.hpp"
#include "sleipnir/optimization/solver/util/kkt_error.hpp"
#include "sleipnir/optimization/solver/util/problem_scaling.hpp"
#include "sleipnir/optimization/solver/util/regularized_ldlt.hpp"
#include "sleipnir/optimization/solver/util/sparse_inf_norms.hpp"

using namespace slp;

struct In {
  std::istringstream s;
  std::string w() {
    std::string t;
    s >> t;
    return t;
  }
  int i() { return std::stoi(w()); }
  double d() { return strtod(w().c_str(), nullptr); }
};

template <typename S>
Eigen::Vector<S, Eigen::Dynamic> vec(In& in) {
  int n = in.i();
  Eigen::Vector<S, Eigen::Dynamic> v(n);
  for (int k = 0; k < n; ++k) v[k] = S(in.d());
  return v;
}

// mat: rows cols nnz (r c v)*
template <typename S, int Opt = Eigen::ColMajor>
Eigen::SparseMatrix<S, Opt> mat(In& in, bool compressed = true) {
  int r = in.i(), c = in.i(), n = in.i();
  Eigen::SparseMatrix<S, Opt> m(r, c);
  if (!compressed) {
    m.reserve(Eigen::VectorXi::Constant(Opt == Eigen::ColMajor ? c : r, 3));
  }
  for (int k = 0; k < n; ++k) {
    int a = in.i(), b = in.i();
    m.insert(a, b) = S(in.d());
  }
  if (compressed) m.makeCompressed();
  return m;
}

template <typename V>
void pv(const V& v) {
  std::printf("[");
  for (int k = 0; k < v.size(); ++k) std::printf("%s%.17g", k ? " " : "", double(v[k]));
  std::printf("]");
}

template <typename S>
void ftb(In& in) {
  auto x = vec<S>(in);
  auto p = vec<S>(in);
  S tau = S(in.d());
  std::printf("%.17g\n", double(fraction_to_the_boundary_rule<S>(x, p, tau)));
}

template <typename S, KKTErrorType T>
void kkt(In& in) {
  std::string kind = in.w(), sc = in.w();
  ProblemScaling<S> scaling;
  bool scaled = sc == "s";
  if (scaled) {
    S f = S(in.d());
    auto ce = vec<S>(in);
    auto ci = vec<S>(in);
    scaling = ProblemScaling<S>(f, ce, ci);
  }
  auto g = vec<S>(in);
  S e;
  if (kind == "newton") {
    e = sc == "-" ? kkt_error<S, T>(g) : unscaled_kkt_error<S, T>(scaling, g);
  } else {
    auto Ae = mat<S>(in);
    auto ce = vec<S>(in);
    auto y = vec<S>(in);
    if (kind == "sqp") {
      e = sc == "-" ? kkt_error<S, T>(g, Ae, ce, y) : unscaled_kkt_error<S, T>(scaling, g, Ae, ce, y);
    } else {
      auto Ai = mat<S>(in);
      auto ci = vec<S>(in);
      auto s = vec<S>(in);
      auto z = vec<S>(in);
      S mu = S(in.d());
      e = sc == "-" ? kkt_error<S, T>(g, Ae, ce, Ai, ci, s, y, z, mu)
                    : unscaled_kkt_error<S, T>(scaling, g, Ae, ce, Ai, ci, s, y, z, mu);
    }
  }
  std::printf("%.17g\n", double(e));
}

template <typename S>
void scal(In& in) {
  std::string kind = in.w();
  ProblemScaling<S> p;
  if (kind == "explicit") {
    S f = S(in.d());
    auto ce = vec<S>(in);
    auto ci = vec<S>(in);
    p = ProblemScaling<S>(f, ce, ci);
  } else if (kind != "identity") {
    auto g = vec<S>(in);
    if (kind == "newton") {
      p = ProblemScaling<S>(g);
    } else {
      auto Ae = mat<S>(in);
      if (kind == "sqp") {
        p = ProblemScaling<S>(g, Ae);
      } else {
        auto Ai = mat<S>(in);
        p = ProblemScaling<S>(g, Ae, Ai);
      }
    }
  }
  std::printf("%.17g ", double(p.f));
  pv(p.c_e);
  std::printf(" ");
  pv(p.c_i);
  std::printf(" %d\n", int(p.is_identity()));
}

template <typename S>
void norms(In& in) {
  std::string mode = in.w();
  if (mode == "row") {
    auto m = mat<S, Eigen::RowMajor>(in);
    pv(sparse_inf_norms(m));
    std::printf(" %d\n", int(all_finite(m)));
  } else if (mode == "vec") {
    auto m = mat<S>(in);
    Eigen::SparseVector<S> v = m.col(0);
    pv(sparse_inf_norms(v));
    std::printf(" %d\n", int(all_finite(v)));
  } else if (mode == "rowu") {
    auto m = mat<S, Eigen::RowMajor>(in, false);
    pv(sparse_inf_norms(m));
    std::printf(" %d\n", int(all_finite(m)));
  } else {
    auto m = mat<S>(in, mode == "col");
    pv(sparse_inf_norms(m));
    std::printf(" %d\n", int(all_finite(m)));
  }
}

template <typename S>
void inertia(In& in) {
  std::string mode = in.w();
  auto v = vec<S>(in);
  if (mode == "vec") {
    Inertia i{v};
    std::printf("%d %d %d\n", i.positive, i.negative, i.zero);
  } else {
    const Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic> m = v.asDiagonal();
    Inertia i{m.diagonal()};
    std::printf("%d %d %d\n", i.positive, i.negative, i.zero);
  }
}

using D = double;
std::variant<std::monostate, std::unique_ptr<DenseRegularizedLDLT<D>>, std::unique_ptr<SparseRegularizedLDLT<D>>,
             std::unique_ptr<RegularizedLDLT<D>>>
    obj;
int obj_n, obj_m;

void ldlt_new(In& in) {
  std::string kind = in.w();
  obj_n = in.i();
  obj_m = in.i();
  std::string g = in.w();
  bool def = g == "-";
  D gmin = def ? 0 : strtod(g.c_str(), nullptr);
  if (kind == "dense")
    obj = def ? std::make_unique<DenseRegularizedLDLT<D>>(obj_n, obj_m)
              : std::make_unique<DenseRegularizedLDLT<D>>(obj_n, obj_m, gmin);
  else if (kind == "sparse")
    obj = def ? std::make_unique<SparseRegularizedLDLT<D>>(obj_n, obj_m)
              : std::make_unique<SparseRegularizedLDLT<D>>(obj_n, obj_m, gmin);
  else
    obj = def ? std::make_unique<RegularizedLDLT<D>>(kind == "regs", obj_n, obj_m)
              : std::make_unique<RegularizedLDLT<D>>(kind == "regs", obj_n, obj_m, gmin);
  std::printf("new\n");
}

void ldlt_compute(In& in) {
  // lower-triangular input as the solvers give it ("l") or the full matrix ("f")
  bool full = in.w() == "f";
  Eigen::SparseMatrix<D> lower = mat<D>(in);
  Eigen::SparseMatrix<D> sym = lower.selfadjointView<Eigen::Lower>();
  const Eigen::SparseMatrix<D>& a = full ? sym : lower;
  int N = obj_n + obj_m;
  Eigen::VectorXd b(N);
  for (int k = 0; k < N; ++k) b[k] = 1 + 0.5 * k;
  Eigen::SparseMatrix<D> bs = b.sparseView();
  D delta = 0, gamma = 0;
  Eigen::ComputationInfo info{};
  Eigen::VectorXd x, x2;
  auto after = [&](auto& o) {
    info = o.info();
    delta = o.hessian_regularization();
    gamma = o.constraint_jacobian_regularization();
    if (info == Eigen::Success) {
      x = o.solve(b);
    }
  };
  if (auto p = std::get_if<std::unique_ptr<DenseRegularizedLDLT<D>>>(&obj)) {
    (*p)->compute(Eigen::MatrixXd(a));
    after(**p);
    if (info == Eigen::Success) x2 = (*p)->solve(bs);
  } else if (auto p = std::get_if<std::unique_ptr<SparseRegularizedLDLT<D>>>(&obj)) {
    (*p)->compute(a);
    after(**p);
    if (info == Eigen::Success) x2 = (*p)->solve(bs);
  } else {
    auto& q = std::get<3>(obj);
    q->compute(a);
    after(*q);
    if (info == Eigen::Success) x2 = q->solve(bs);
  }
  int good = -1;
  if (info == Eigen::Success) {
    Eigen::MatrixXd S = sym;
    for (int k = 0; k < obj_n; ++k) S(k, k) += delta;
    for (int k = obj_n; k < N; ++k) S(k, k) -= gamma;
    good = N == 0 || ((S * x - b).norm() <= 1e-9 * (S.norm() * x.norm() + b.norm()) &&
                      (S * x2 - b).norm() <= 1e-9 * (S.norm() * x2.norm() + b.norm()));
  }
  std::printf("%s %.17g %.17g %d\n", info == Eigen::Success ? "ok" : "fail", delta, gamma, good);
}

template <typename S>
void dispatch(const std::string& op, In& in) {
  if (op == "ftb")
    ftb<S>(in);
  else if (op == "kktinf")
    kkt<S, KKTErrorType::INF_NORM_SCALED>(in);
  else if (op == "kktone")
    kkt<S, KKTErrorType::ONE_NORM>(in);
  else if (op == "scal")
    scal<S>(in);
  else if (op == "norms")
    norms<S>(in);
  else if (op == "inertia")
    inertia<S>(in);
  else if (op == "eqinf") {
    auto m = mat<S>(in);
    auto v = vec<S>(in);
    std::printf("%d\n", int(is_equality_locally_infeasible<S>(m, v)));
  } else if (op == "ineqinf") {
    auto m = mat<S>(in);
    auto v = vec<S>(in);
    std::printf("%d\n", int(is_inequality_locally_infeasible<S>(m, v)));
  }
}

int main() {
  std::string line;
  while (std::getline(std::cin, line)) {
    In in{std::istringstream(line)};
    std::string op = in.w();
    if (op == "new")
      ldlt_new(in);
    else if (op == "compute")
      ldlt_compute(in);
    else {
      std::string t = in.w();
      if (t == "f")
        dispatch<float>(op, in);
      else
        dispatch<double>(op, in);
    }
    std::fflush(stdout);
  }
}
