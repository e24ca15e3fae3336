// Replays programs of matrices, views, matrix algebra and constraints (spec/Mats.tla).
#include <cstdio>
#include <iostream>
#include <optional>
#include <ranges>
#include <span>
#include <sstream>
#include <string>
#include <utility>
#include <vector>

#include <sleipnir/autodiff/variable.hpp>
#include <sleipnir/autodiff/variable_matrix.hpp>
#include <sleipnir/util/pool.hpp>

using V = slp::Variable<double>;
using VM = slp::VariableMatrix<double>;
using B = slp::VariableBlock<VM>;
using CB = slp::VariableBlock<const VM>;
using slp::Slice;
using namespace slp::slicing;

static std::vector<VM> M;
static std::vector<std::optional<B>> W;
struct Con {
  std::optional<slp::EqualityConstraints<double>> eq;
  std::optional<slp::InequalityConstraints<double>> ge;
};
static std::vector<Con> C;
static std::istringstream in;
static int flip = 0;  // alternates between equivalent ways of writing the same operation

static int num() {
  int x;
  in >> x;
  return x;
}
static std::string word() {
  std::string x;
  in >> x;
  return x;
}

// ------------------------------------------------------------------ operands
struct Op {
  char k = 0;
  int i = 0, r = 0, c = 0;
  char ck = 0;
  Eigen::MatrixXd e;
  double d = 0;
};
static Op operand() {
  Op o;
  o.k = word()[0];
  if (o.k == 'M' || o.k == 'V') {
    o.i = num();
  } else if (o.k == 'E') {
    o.r = num();
    o.c = num();
    o.e.resize(o.r, o.c);
    for (int r = 0; r < o.r; ++r)
      for (int c = 0; c < o.c; ++c) o.e(r, c) = num();
  } else if (o.k == 'D') {
    o.d = num();
  } else {
    o.ck = word()[0];
    o.i = num();
    o.r = num();
    o.c = num();
  }
  return o;
}
static V& cell(const Op& o) { return o.ck == 'M' ? M[o.i - 1][o.r, o.c] : (*W[o.i - 1])[o.r, o.c]; }

template <typename F>
static void as_slp(const Op& o, F&& f) {
  if (o.k == 'M') {
    f(M[o.i - 1]);
  } else {
    f(*W[o.i - 1]);
  }
}
// the same, through constant access half of the time
template <typename F>
static void as_cslp(const Op& o, F&& f) {
  if (o.k == 'M') {
    if (++flip % 2) {
      f(M[o.i - 1]);
    } else {
      f(std::as_const(M[o.i - 1]));
    }
  } else {
    f(*W[o.i - 1]);
  }
}
template <typename F>
static void as_mat(const Op& o, F&& f) {
  if (o.k == 'E') {
    f(o.e);
  } else {
    as_cslp(o, f);
  }
}
template <typename F>
static void as_scalar(const Op& o, F&& f) {
  if (o.k == 'C') {
    f(cell(o));
  } else if (++flip % 2) {
    f(o.d);
  } else {
    int n = int(o.d);
    f(n);
  }
}

// ------------------------------------------------------------------ selections
template <typename F>
static void slices(F&& f) {
  auto part = []() -> Slice {
    std::string w[3] = {word(), word(), word()};
    auto big = [](const std::string& s) {
      int v = std::stoi(s);
      return v == 900 ? 2147483647 : v == -900 ? -2147483647 : v;
    };
    bool n[3] = {w[0] == "_", w[1] == "_", w[2] == "_"};
    int v[3];
    for (int k = 0; k < 3; ++k) v[k] = n[k] ? 0 : big(w[k]);
    if (n[2]) {
      if (n[0] && n[1]) return ++flip % 2 ? Slice{_} : Slice{_, _};
      if (n[0]) return Slice{_, v[1]};
      if (n[1]) return Slice{v[0], _};
      return Slice{v[0], v[1]};
    }
    if (n[0] && n[1]) return Slice{_, _, v[2]};
    if (n[0]) return Slice{_, v[1], v[2]};
    if (n[1]) return Slice{v[0], _, v[2]};
    return Slice{v[0], v[1], v[2]};
  };
  Slice a = part();
  Slice b = part();
  f(a, b);
}
struct Sel {
  std::string k;
  int a = 0, b = 0, c = 0, d = 0;
  Slice s, t;
};
static Sel selection() {
  Sel q;
  q.k = word();
  if (q.k == "blk") {
    q.a = num(), q.b = num(), q.c = num(), q.d = num();
  } else if (q.k == "row" || q.k == "col") {
    q.a = num();
  } else if (q.k == "seg") {
    q.a = num(), q.b = num();
  } else {
    slices([&](Slice x, Slice y) { q.s = x, q.t = y; });
  }
  return q;
}
template <typename T>
static auto take(T& m, const Sel& q) -> decltype(m.block(0, 0, 0, 0)) {
  if (q.k == "blk") return m.block(q.a, q.b, q.c, q.d);
  if (q.k == "row") return m.row(q.a);
  if (q.k == "col") return m.col(q.a);
  if (q.k == "seg") return m.segment(q.a, q.b);
  if (++flip % 3 == 0) {  // the overload for slices that are already adjusted
    Slice s = q.s, t = q.t;
    int a = s.adjust(m.rows()), b = t.adjust(m.cols());
    return m[s, a, t, b];
  }
  return m[q.s, q.t];
}

// ------------------------------------------------------------------ dumps
static double val(const V& v) {
  V w = v;
  return w.value();
}
template <typename T>
static void dump(T& m) {
  std::printf("%d %d %zu", m.rows(), m.cols(), size_t(m.size()));
  auto end = [] { std::printf(" |"); };
  auto put = [](double d) { std::printf(" %a", d); };
  end();
  for (int r = 0; r < m.rows(); ++r)
    for (int c = 0; c < m.cols(); ++c) put(val(m[r, c]));
  end();
  for (int k = 0; k < m.rows() * m.cols(); ++k) put(val(m[k]));
  end();
  for (auto& x : m) put(val(x));
  end();
  for (auto it = m.cbegin(); it != m.cend(); it++) put(val(*it));
  end();
  VM copy{m};
  for (int k = 0; k < copy.rows() * copy.cols(); ++k) put(val(copy[k]));
  end();
  {
    auto it = m.end();
    for (size_t k = 0; k < m.size(); ++k) {
      auto old = it--;
      (void)old;
      put(val(*it));
    }
  }
  end();
  for (auto it = m.crbegin(); it != m.crend(); ++it) put(val(*it));
  end();
  for (auto it = m.rbegin(); it != m.rend(); it++) put(val(*it));
  end();
  VM t = m.T();
  std::printf(" %d %d", t.rows(), t.cols());
  for (int k = 0; k < t.rows() * t.cols(); ++k) put(val(t[k]));
}
template <typename T>
static void dump_values(T& m) {
  auto end = [] { std::printf(" |"); };
  auto put = [](double d) { std::printf(" %a", d); };
  end();
  Eigen::MatrixXd e = m.value();
  std::printf(" %d %d", int(e.rows()), int(e.cols()));
  for (int r = 0; r < e.rows(); ++r)
    for (int c = 0; c < e.cols(); ++c) put(e(r, c));
  end();
  for (int r = 0; r < m.rows(); ++r)
    for (int c = 0; c < m.cols(); ++c) put(m.value(r, c));
  end();
  for (int k = 0; k < m.rows() * m.cols(); ++k) put(m.value(k));
}

static std::vector<double> rest() {
  std::vector<double> v;
  double d;
  while (in >> d) v.push_back(d);
  return v;
}

template <typename X, typename Y>
static void relate(Con& k, const std::string& rel, X&& x, Y&& y) {
  k.eq.reset();
  k.ge.reset();
  if constexpr (slp::SleipnirType<X> || slp::SleipnirType<Y>) {
    if (rel == "==") k.eq.emplace(x == y);
    if (rel == "<") k.ge.emplace(x < y);
    if (rel == "<=") k.ge.emplace(x <= y);
    if (rel == ">") k.ge.emplace(x > y);
    if (rel == ">=") k.ge.emplace(x >= y);
  }
}
template <typename F>
static void as_any(const Op& o, F&& f) {
  if (o.k == 'M' || o.k == 'V' || o.k == 'E') {
    as_mat(o, f);
  } else {
    as_scalar(o, f);
  }
}

template <typename K>
static void ask(K& k) {
  for (auto& c : k.constraints) std::printf("%a ", c.value());
  bool b = k;
  std::printf("%d", int(b));
}

int main() {
  auto& pool = slp::global_pool_resource();
  size_t base = pool.blocks_in_use();
  std::string line;
  while (std::getline(std::cin, line)) {
    in.clear();
    in.str(line);
    std::string c = word();
    if (c == "N") {  // N nm nv nc seed v1..v9
      M.clear();
      W.clear();
      C.clear();
      int nm = num(), nv = num(), nc = num();
      flip = num();
      VM a(3, 3);
      for (int k = 0; k < 9; ++k) a[k].set_value(num());
      M.reserve(nm);
      M.push_back(a);
      for (int i = 2; i <= nm; ++i) M.push_back(VM{a[(i * 4) % 9]});
      W.resize(nv);
      C.resize(nc);
    } else if (c == "end") {
      W.clear();
      C.clear();
      M.clear();
      std::printf("%ld\n", long(pool.blocks_in_use()) - long(base));
      continue;
    } else if (c == "leaf") {
      int i = num(), r = num(), k = num();
      Eigen::MatrixXd e(r, k);
      for (int a = 0; a < r; ++a)
        for (int b = 0; b < k; ++b) e(a, b) = num();
      VM m = k == 1 && ++flip % 2 ? VM(r) : VM(r, k);
      m.set_value(e);
      M[i - 1] = m;
    } else if (c == "con") {
      int i = num();
      std::string f = word();
      int r = num(), k = num();
      Eigen::MatrixXd e(r, k);
      for (int a = 0; a < r; ++a)
        for (int b = 0; b < k; ++b) e(a, b) = num();
      VM& m = M[i - 1];
      if (f == "vv") {
        std::vector<std::vector<double>> l(r, std::vector<double>(k));
        for (int a = 0; a < r; ++a)
          for (int b = 0; b < k; ++b) l[a][b] = e(a, b);
        m = VM{l};
      } else if (f == "vV") {
        std::vector<std::vector<V>> l(r, std::vector<V>(k));
        for (int a = 0; a < r; ++a)
          for (int b = 0; b < k; ++b) l[a][b] = V{e(a, b)};
        m = VM{l};
      } else if (f == "identity") {
        m = VM::identity(r);
      } else if (f == "zero") {
        m = VM::zero(r, k);
      } else if (f == "one") {
        m = VM::one(r, k);
      } else if (f == "constant") {
        m = VM::constant(r, k, e(0, 0));
      } else if (f == "diag") {
        Eigen::VectorXd d = e.diagonal();
        m = VM{d.asDiagonal()};
      } else if (f == "lit" && r == 2 && k == 2) {
        m = VM{{e(0, 0), e(0, 1)}, {e(1, 0), e(1, 1)}};
      } else if (f == "lit" && r == 2 && k == 3) {
        m = VM{{e(0, 0), e(0, 1), e(0, 2)}, {e(1, 0), e(1, 1), e(1, 2)}};
      } else if (f == "lit" && r == 3 && k == 1) {
        m = VM{{e(0, 0)}, {e(1, 0)}, {e(2, 0)}};
      } else {
        m = VM{e};
      }
    } else if (c == "span") {
      int i = num(), r = num(), k = num();
      Op t = operand();
      std::vector<V> v;
      as_slp(t, [&](auto& m) {
        for (auto& x : m) v.push_back(x);
      });
      M[i - 1] = k == 1 && ++flip % 2 ? VM{std::span<const V>{v}} : VM{std::span<const V>{v}, r, k};
    } else if (c == "mcopy") {
      int i = num();
      Op t = operand();
      if (t.k == 'M' && ++flip % 2) {
        VM tmp = M[t.i - 1];
        M[i - 1] = std::move(tmp);
      } else if (t.k == 'M') {
        M[i - 1] = M[t.i - 1];
      } else if (++flip % 2) {
        M[i - 1] = *W[t.i - 1];
      } else {
        M[i - 1] = VM{*W[t.i - 1]};
      }
    } else if (c == "view") {
      int k = num();
      Op t = operand();
      Sel q = selection();
      as_slp(t, [&](auto& m) {
        B b = take(m, q);
        W[k - 1].reset();
        W[k - 1].emplace(b);
      });
    } else if (c == "peek") {
      num();
      Op t = operand();
      Sel q = selection(), u = selection();
      as_slp(t, [&](auto& m) {
        const auto& cm = m;
        if (++flip % 2) {
          const auto a = take(cm, q);
          const auto b = take(a, u);
          dump(b);
        } else {
          CB a = take(cm, q);
          CB b = take(a, u);
          dump(b);
        }
      });
      std::printf("\n");
      continue;
    } else if (c == "el") {
      Op t = operand();
      int r = num(), k = num();
      Op x = operand();
      as_slp(t, [&](auto& m) {
        V& ref = ++flip % 2 ? m[r, k] : m[r * m.cols() + k];
        as_scalar(x, [&](auto& v) { ref = v; });
      });
    } else if (c == "asg") {
      Op t = operand(), x = operand();
      if (t.k == 'M') {
        as_mat(x, [&](auto& v) { M[t.i - 1] = v; });
      } else {
        as_mat(x, [&](auto& v) { *W[t.i - 1] = v; });
      }
    } else if (c == "asgx") {
      Op t = operand(), x = operand(), y = operand();
      as_slp(t, [&](auto& m) { as_slp(x, [&](auto& a) { as_slp(y, [&](auto& b) { m = a + b; }); }); });
    } else if (c == "comp") {
      Op t = operand();
      std::string op = word();
      Op x = operand();
      as_slp(t, [&](auto& m) {
        as_mat(x, [&](auto& v) {
          if (op == "mul") m *= v;
          if (op == "add") m += v;
          if (op == "sub") m -= v;
        });
      });
    } else if (c == "comps") {
      Op t = operand();
      std::string op = word();
      Op x = operand();
      as_slp(t, [&](auto& m) {
        as_scalar(x, [&](auto& v) {
          if (op == "mul") m *= v;
          if (op == "div") m /= v;
          if (op == "add") m += v;
          if (op == "sub") m -= v;
        });
      });
    } else if (c == "bin") {
      int i = num();
      std::string op = word();
      Op x = operand(), y = operand();
      VM out;
      as_mat(x, [&](auto& a) {
        as_mat(y, [&](auto& b) {
          using X = std::decay_t<decltype(a)>;
          using Y = std::decay_t<decltype(b)>;
          if constexpr (slp::SleipnirType<X> || slp::SleipnirType<Y>) {
            if (op == "mul") out = a * b;
            if (op == "add") out = a + b;
            if (op == "sub") out = a - b;
            if constexpr (std::same_as<X, VM> && std::same_as<Y, VM>) {
              if (op == "red")
                out = slp::cwise_reduce<double>(a, b, [](const V& p, const V& q) { return p * q - p; });
            }
          }
        });
      });
      M[i - 1] = out;
    } else if (c == "bins") {
      int i = num();
      std::string op = word();
      Op x = operand(), y = operand();
      int left = num();
      VM out;
      as_slp(x, [&](auto& a) {
        as_scalar(y, [&](auto& b) {
          if (op == "div") {
            out = a / b;
          } else if (left) {
            out = b * a;
          } else {
            out = a * b;
          }
        });
      });
      M[i - 1] = out;
    } else if (c == "un") {
      int i = num();
      std::string op = word();
      Op x = operand();
      VM out;
      as_cslp(x, [&](auto& a) {
        if (op == "T") out = a.T();
        if (op == "neg") out = -a;
        if (op == "sq") out = a.cwise_transform([](const V& p) { return p * p; });
      });
      M[i - 1] = out;
    } else if (c == "blk") {
      int i = num(), r = num(), k = num();
      std::vector<std::vector<VM>> g(r);
      for (int a = 0; a < r; ++a)
        for (int b = 0; b < k; ++b) {
          Op o = operand();
          as_slp(o, [&](auto& m) { g[a].push_back(VM{m}); });
        }
      VM out;
      if (++flip % 2) {
        out = slp::block<double>(g);
      } else if (r == 1 && k == 2) {
        out = slp::block<double>({{g[0][0], g[0][1]}});
      } else if (r == 2 && k == 1) {
        out = slp::block<double>({{g[0][0]}, {g[1][0]}});
      } else if (r == 2 && k == 2) {
        out = slp::block<double>({{g[0][0], g[0][1]}, {g[1][0], g[1][1]}});
      } else {
        out = slp::block<double>({{g[0][0], g[0][1], g[0][2]}});
      }
      M[i - 1] = out;
    } else if (c == "set") {
      Op t = operand();
      auto v = rest();
      as_slp(t, [&](auto& m) {
        Eigen::MatrixXd e(m.rows(), m.cols());
        for (int r = 0; r < m.rows(); ++r)
          for (int k = 0; k < m.cols(); ++k) e(r, k) = v[r * m.cols() + k];
        if constexpr (std::same_as<std::decay_t<decltype(m)>, B>) {
          if (v.size() == 1 && ++flip % 2) {
            m.set_value(v[0]);
            return;
          }
        }
        m.set_value(e);
      });
    } else if (c == "setc") {
      Op t = operand();
      cell(t).set_value(num());
    } else if (c == "rel") {
      int k = num();
      std::string rel = word();
      Op x = operand(), y = operand();
      as_any(x, [&](auto& a) { as_any(y, [&](auto& b) { relate(C[k - 1], rel, a, b); }); });
    } else if (c == "bnd") {
      int k = num();
      Op l = operand(), x = operand(), u = operand();
      Con n;
      as_any(l, [&](auto& a) {
        as_any(x, [&](auto& b) {
          as_any(u, [&](auto& d) {
            if constexpr (slp::SleipnirType<decltype(b)>) n.ge.emplace(slp::bounds(a, b, d));
          });
        });
      });
      C[k - 1] = n;
    } else if (c == "cat") {
      int k = num();
      std::string kind = word();
      int how = num();
      auto v = rest();
      Con n;
      if (kind == "eq") {
        std::vector<slp::EqualityConstraints<double>> l;
        for (double d : v) l.push_back(*C[int(d) - 1].eq);
        if (how && l.size() == 2) {
          n.eq.emplace(slp::EqualityConstraints<double>{l[0], l[1]});
        } else if (how && l.size() == 3) {
          n.eq.emplace(slp::EqualityConstraints<double>{l[0], l[1], l[2]});
        } else {
          n.eq.emplace(slp::EqualityConstraints<double>(l));
        }
      } else {
        std::vector<slp::InequalityConstraints<double>> l;
        for (double d : v) l.push_back(*C[int(d) - 1].ge);
        if (how && l.size() == 2) {
          n.ge.emplace(slp::InequalityConstraints<double>{l[0], l[1]});
        } else if (how && l.size() == 3) {
          n.ge.emplace(slp::InequalityConstraints<double>{l[0], l[1], l[2]});
        } else {
          n.ge.emplace(slp::InequalityConstraints<double>(l));
        }
      }
      C[k - 1] = n;
    } else if (c == "ask") {
      Con& k = C[num() - 1];
      if (k.eq) {
        std::printf("eq ");
        ask(*k.eq);
      } else {
        std::printf("ge ");
        ask(*k.ge);
      }
      std::printf("\n");
      continue;
    } else if (c == "dump") {
      Op t = operand();
      as_slp(t, [&](auto& m) {
        if (++flip % 2) {
          dump(m);
        } else {
          dump(std::as_const(m));
        }
        dump_values(m);
      });
      std::printf("\n");
      continue;
    } else {
      std::printf("? %s\n", line.c_str());
      continue;
    }
    std::printf("ok\n");
  }
}
