// Replays expression programs (spec/Calc.tla) through the public Variable API.
#include <cmath>
#include <cstdio>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <variant>
#include <vector>

#include <sleipnir/autodiff/gradient.hpp>
#include <sleipnir/autodiff/hessian.hpp>
#include <sleipnir/autodiff/jacobian.hpp>
#include <sleipnir/autodiff/variable.hpp>
#include <sleipnir/autodiff/variable_matrix.hpp>

using V = slp::Variable<double>;
using VM = slp::VariableMatrix<double>;
using Operand = std::variant<V, double, int>;

static V as_var(const Operand& o) {
  return std::visit([](const auto& x) -> V { return V{x}; }, o);
}

template <typename F>
static V bin(const Operand& a, const Operand& b, F&& f) {
  return std::visit(
      [&](const auto& x, const auto& y) -> V {
        using X = std::decay_t<decltype(x)>;
        using Y = std::decay_t<decltype(y)>;
        if constexpr (std::is_same_v<X, V> || std::is_same_v<Y, V>) {
          return V{f(x, y)};
        } else {
          return V{f(V{x}, y)};
        }
      },
      a, b);
}

static V unary(const std::string& op, const V& x) {
  if (op == "neg") return -x;
  if (op == "pos") return +x;
  if (op == "abs") return slp::abs(x);
  if (op == "acos") return slp::acos(x);
  if (op == "asin") return slp::asin(x);
  if (op == "atan") return slp::atan(x);
  if (op == "cbrt") return slp::cbrt(x);
  if (op == "cos") return slp::cos(x);
  if (op == "cosh") return slp::cosh(x);
  if (op == "erf") return slp::erf(x);
  if (op == "exp") return slp::exp(x);
  if (op == "log") return slp::log(x);
  if (op == "log10") return slp::log10(x);
  if (op == "sign") return slp::sign(x);
  if (op == "sin") return slp::sin(x);
  if (op == "sinh") return slp::sinh(x);
  if (op == "sqrt") return slp::sqrt(x);
  if (op == "tan") return slp::tan(x);
  if (op == "tanh") return slp::tanh(x);
  throw 1;
}

static V binary(const std::string& op, const Operand& a, const Operand& b) {
  if (op == "add") return bin(a, b, [](const auto& x, const auto& y) { return x + y; });
  if (op == "sub") return bin(a, b, [](const auto& x, const auto& y) { return x - y; });
  if (op == "mul") return bin(a, b, [](const auto& x, const auto& y) { return x * y; });
  if (op == "div") return bin(a, b, [](const auto& x, const auto& y) { return x / y; });
  if (op == "atan2") return bin(a, b, [](const auto& x, const auto& y) { return slp::atan2(x, y); });
  if (op == "hypot") return bin(a, b, [](const auto& x, const auto& y) { return slp::hypot(x, y); });
  if (op == "max") return bin(a, b, [](const auto& x, const auto& y) { return slp::max(x, y); });
  if (op == "min") return bin(a, b, [](const auto& x, const auto& y) { return slp::min(x, y); });
  if (op == "pow") return bin(a, b, [](const auto& x, const auto& y) { return slp::pow(x, y); });
  throw 1;
}

struct Obj {
  char kind;
  std::unique_ptr<slp::Gradient<double>> g;
  std::unique_ptr<slp::Jacobian<double>> j;
  std::unique_ptr<slp::Hessian<double>> h;
  std::unique_ptr<slp::Hessian<double, Eigen::Lower>> l;
  VM sym{slp::detail::empty, 0, 0};
  bool has_sym = false;
};

template <typename M>
static void dense(const M& m) {
  Eigen::MatrixXd d = Eigen::MatrixXd(m);
  for (int r = 0; r < d.rows(); ++r)
    for (int c = 0; c < d.cols(); ++c) std::printf(" %a", d(r, c));
}

int main() {
  std::vector<Operand> nodes;
  std::vector<V> xs;
  std::vector<Obj> objs;
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream in{line};
    std::string c;
    in >> c;
    if (c == "N") {
      nodes.clear();
      objs.clear();
      xs.clear();
      std::printf("ok\n");
    } else if (c == "I") {
      std::string op;
      while (in >> op) {
        int a, b, d;
        in >> a >> b >> d;
        if (op == "x") {
          V v;
          xs.push_back(v);
          nodes.emplace_back(v);
        } else if (op == "c") {
          nodes.emplace_back(V{double(a) / b});
        } else if (op == "k") {
          nodes.emplace_back(double(a) / b);
        } else if (op == "cp" || op == "kp") {  // a * 2^b + d * 2^-50, as a Variable or as a raw scalar
          double v = std::ldexp(double(a), b) + std::ldexp(double(d), -50);
          if (op == "cp") nodes.emplace_back(V{v}); else nodes.emplace_back(v);
        } else if (op == "i") {
          nodes.emplace_back(int(a / b));
        } else if (op == "hypot3") {
          nodes.emplace_back(slp::hypot(as_var(nodes[a - 1]), as_var(nodes[b - 1]), as_var(nodes[d - 1])));
        } else if (b == 0) {
          nodes.emplace_back(unary(op, as_var(nodes[a - 1])));
        } else {
          nodes.emplace_back(binary(op, nodes[a - 1], nodes[b - 1]));
        }
      }
      std::printf("ok\n");
    } else if (c == "T") {
      for (auto& n : nodes) std::printf(" %d", int(as_var(n).type()));
      std::printf("\n");
    } else if (c == "P") {
      for (auto& x : xs) {
        double v;
        std::string t;
        in >> t;
        v = std::strtod(t.c_str(), nullptr);
        x.set_value(v);
      }
      std::printf("ok\n");
    } else if (c == "V") {  // values of the listed nodes, in the order given
      int i;
      while (in >> i) {
        if (auto* p = std::get_if<V>(&nodes[i - 1])) {
          std::printf(" %a", p->value());
        } else {
          std::printf(" %a", as_var(nodes[i - 1]).value());
        }
      }
      std::printf("\n");
    } else if (c == "D") {  // D kind sym nrows nodes... ncols vars...
      Obj o;
      int sym, n, m, i;
      in >> o.kind >> sym >> n;
      std::vector<V> rows, cols;
      for (int k = 0; k < n; ++k) {
        in >> i;
        rows.push_back(as_var(nodes[i - 1]));
      }
      in >> m;
      VM wrt{slp::detail::empty, m, 1};
      for (int k = 0; k < m; ++k) {
        in >> i;
        wrt[k] = xs[i - 1];
      }
      VM f{slp::detail::empty, n, 1};
      for (int k = 0; k < n; ++k) f[k] = rows[k];
      if (o.kind == 'g') {
        o.g = m == 1 ? std::make_unique<slp::Gradient<double>>(rows[0], wrt[0]) : std::make_unique<slp::Gradient<double>>(rows[0], wrt);
        if (sym) o.sym = o.g->get();
      } else if (o.kind == 'j') {
        o.j = n == 1 ? std::make_unique<slp::Jacobian<double>>(rows[0], wrt) : std::make_unique<slp::Jacobian<double>>(f, wrt);
        if (sym) o.sym = o.j->get();
      } else if (o.kind == 'h') {
        o.h = m == 1 ? std::make_unique<slp::Hessian<double>>(rows[0], wrt[0]) : std::make_unique<slp::Hessian<double>>(rows[0], wrt);
        if (sym) o.sym = o.h->get();
      } else {
        o.l = std::make_unique<slp::Hessian<double, Eigen::Lower>>(rows[0], wrt);
        if (sym) o.sym = o.l->get();
      }
      o.has_sym = sym;
      objs.push_back(std::move(o));
      std::printf("ok\n");
    } else if (c == "E") {  // E obj : numeric entries (row-major), then symbolic entries if any
      int i;
      in >> i;
      auto& o = objs[i];
      if (o.kind == 'g') dense(o.g->value());
      if (o.kind == 'j') dense(o.j->value());
      if (o.kind == 'h') dense(o.h->value());
      if (o.kind == 'l') dense(o.l->value());
      if (o.has_sym) {
        std::printf(" |");
        for (int r = 0; r < o.sym.rows(); ++r)
          for (int k = 0; k < o.sym.cols(); ++k) std::printf(" %a", o.sym[r, k].value());
      }
      std::printf("\n");
    }
    std::fflush(stdout);
  }
}
