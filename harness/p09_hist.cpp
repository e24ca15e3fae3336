// Replays histories of handles, variables and derivative objects (spec/Hist.tla).
#include <cstdio>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <utility>
#include <vector>

#include <sleipnir/autodiff/gradient.hpp>
#include <sleipnir/autodiff/hessian.hpp>
#include <sleipnir/autodiff/jacobian.hpp>
#include <sleipnir/autodiff/variable.hpp>
#include <sleipnir/autodiff/variable_matrix.hpp>
#include <sleipnir/util/pool.hpp>

using V = slp::Variable<double>;
using VM = slp::VariableMatrix<double>;

struct Obj {
  std::unique_ptr<slp::Gradient<double>> g;
  std::unique_ptr<slp::Jacobian<double>> j;
  std::unique_ptr<slp::Hessian<double>> h;
  std::unique_ptr<slp::Hessian<double, Eigen::Lower>> l;
  void clear() {
    g.reset();
    j.reset();
    h.reset();
    l.reset();
  }
};

template <typename M>
static void dense(const M& m) {
  Eigen::MatrixXd d = Eigen::MatrixXd(m);
  for (int r = 0; r < d.rows(); ++r)
    for (int c = 0; c < d.cols(); ++c) std::printf("%a ", d(r, c));
}

static void sym(VM m) {
  for (int r = 0; r < m.rows(); ++r)
    for (int c = 0; c < m.cols(); ++c) std::printf("%a ", m[r, c].value());
}

static void answer(Obj& o, bool symbolic) {
  if (o.g) symbolic ? sym(o.g->get()) : dense(o.g->value());
  if (o.j) symbolic ? sym(o.j->get()) : dense(o.j->value());
  if (o.h) symbolic ? sym(o.h->get()) : dense(o.h->value());
  if (o.l) symbolic ? sym(o.l->get()) : dense(o.l->value());
}

int main() {
  std::vector<V> h;
  std::vector<Obj> ob;
  auto& pool = slp::global_pool_resource();
  size_t base = pool.blocks_in_use();
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream in{line};
    std::string c;
    in >> c;
    if (c == "N") {  // N nh no v1 v2
      h.clear();
      ob.clear();
      int nh, no;
      double a, b;
      in >> nh >> no >> a >> b;
      ob.resize(no);
      V x, y;
      x.set_value(a);
      y.set_value(b);
      h.push_back(x);
      h.push_back(y);
      while (int(h.size()) < nh) h.push_back(x);
      std::printf("ok\n");
    } else if (c == "end") {
      h.clear();
      ob.clear();
      std::printf("%ld\n", long(pool.blocks_in_use()) - long(base));
    } else if (c == "fresh") {
      int i;
      double v;
      in >> i >> v;
      h[i - 1] = V{};
      h[i - 1].set_value(v);
      std::printf("ok\n");
    } else if (c == "const") {
      int i, v;
      in >> i >> v;
      if (v % 2) {
        h[i - 1] = double(v);
      } else {
        h[i - 1] = v;
      }
      std::printf("ok\n");
    } else if (c == "kconst") {
      int i, v;
      in >> i >> v;
      h[i - 1] = V{double(v)};
      std::printf("ok\n");
    } else if (c == "copy") {
      int i, j;
      in >> i >> j;
      h[i - 1] = h[j - 1];
      std::printf("ok\n");
    } else if (c == "move") {
      int i, j;
      in >> i >> j;
      h[i - 1] = std::move(h[j - 1]);
      std::printf("ok\n");
    } else if (c == "swap") {
      int i, j;
      in >> i >> j;
      std::swap(h[i - 1], h[j - 1]);
      std::printf("ok\n");
    } else if (c == "bin") {
      int i, a, b;
      std::string op;
      in >> i >> op >> a >> b;
      V &x = h[a - 1], &y = h[b - 1];
      if (op == "add") h[i - 1] = x + y;
      if (op == "sub") h[i - 1] = x - y;
      if (op == "mul") h[i - 1] = x * y;
      std::printf("ok\n");
    } else if (c == "un") {
      int i, a;
      std::string op;
      in >> i >> op >> a;
      V& x = h[a - 1];
      if (op == "neg") h[i - 1] = -x;
      if (op == "sq") h[i - 1] = slp::pow(x, 2);
      if (op == "cube") h[i - 1] = slp::pow(x, 3);
      if (op == "half") h[i - 1] = x / 2.0;
      std::printf("ok\n");
    } else if (c == "comp") {
      int i, b;
      std::string op;
      in >> i >> op >> b;
      V &x = h[i - 1], &y = h[b - 1];
      if (op == "add") x += y;
      if (op == "sub") x -= y;
      if (op == "mul") x *= y;
      std::printf("ok\n");
    } else if (c == "compk") {
      int i, k;
      std::string op;
      in >> i >> op >> k;
      V& x = h[i - 1];
      if (op == "add") x += k;
      if (op == "sub") x -= double(k);
      if (op == "mul") x *= k;
      std::printf("ok\n");
    } else if (c == "halve") {
      int i;
      in >> i;
      h[i - 1] /= 2;
      std::printf("ok\n");
    } else if (c == "set") {
      int i;
      double v;
      in >> i >> v;
      h[i - 1].set_value(v);
      std::printf("ok\n");
    } else if (c == "val") {
      int i;
      in >> i;
      std::printf("%a\n", h[i - 1].value());
    } else if (c == "type") {
      int i;
      in >> i;
      std::printf("%d\n", int(h[i - 1].type()));
    } else if (c == "mk") {  // mk o kind nf f.. nw w..
      int o, nf, nw, i;
      std::string k;
      in >> o >> k >> nf;
      VM f{slp::detail::empty, nf, 1};
      V f0;
      for (int r = 0; r < nf; ++r) {
        in >> i;
        f[r] = h[i - 1];
        if (r == 0) f0 = h[i - 1];
      }
      in >> nw;
      VM w{slp::detail::empty, nw, 1};
      for (int r = 0; r < nw; ++r) {
        in >> i;
        w[r] = h[i - 1];
      }
      Obj& x = ob[o - 1];
      if (k == "g") x.g = std::make_unique<slp::Gradient<double>>(f0, w);
      if (k == "j") x.j = std::make_unique<slp::Jacobian<double>>(f, w);
      if (k == "h") x.h = std::make_unique<slp::Hessian<double>>(f0, w);
      if (k == "l") x.l = std::make_unique<slp::Hessian<double, Eigen::Lower>>(f0, w);
      std::printf("ok\n");
    } else if (c == "drop") {
      int o;
      in >> o;
      ob[o - 1].clear();
      std::printf("ok\n");
    } else if (c == "ev" || c == "sym") {
      int o;
      in >> o;
      answer(ob[o - 1], c == "sym");
      std::printf("\n");
    } else if (c == "grad") {
      int i, f, x;
      in >> i >> f >> x;
      h[i - 1] = slp::Gradient<double>(h[f - 1], h[x - 1]).get()[0];
      std::printf("ok\n");
    } else {
      std::printf("? %s\n", c.c_str());
    }
    std::fflush(stdout);
  }
}
