// Conformance harness for spec/Problem.tla: a problem object driven call by call. One history per case, one answer per call.
#include <unistd.h>

#include <chrono>

#include <cmath>
#include <cstdio>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

#include "sleipnir/autodiff/variable.hpp"
#include "sleipnir/autodiff/variable_matrix.hpp"
#include "sleipnir/optimization/problem.hpp"
#ifndef SCALAR
#define SCALAR double
#endif
// A clock that only this program advances
static long long g_now = 1000;
namespace std { namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point{duration{g_now += 1000}}; }
} } }
using S = SCALAR;
using Var = slp::Variable<S>;
using Mat = slp::VariableMatrix<S>;
using Info = slp::IterationInfo<S>;

static std::unique_ptr<slp::Problem<S>> P;
static std::vector<Var> X;
static std::unique_ptr<Var> par;
static std::vector<int> log_;
static bool dims, init, first;
static std::vector<S> before;
static int ne, ni;

static bool eq(S a, S b) { return a == b || (std::isnan(a) && std::isnan(b)); }
static void see(const Info& i, int id) {
  log_.push_back(i.iteration);
  log_.push_back(id);
  int n = X.size();
  dims &= i.x.size() == n && i.s.size() == ni && i.y.size() == ne && i.z.size() == ni && i.g.size() == n && i.H.rows() == n && i.H.cols() == n &&
          i.A_e.rows() == ne && (ne == 0 || i.A_e.cols() == n) && i.A_i.rows() == ni && (ni == 0 || i.A_i.cols() == n);
  if (first) {
    first = false;
    for (int k = 0; k < n && k < i.x.size(); ++k) init &= eq(i.x[k], before[k]);
  }
}
struct Stop {
  int id, at;
  bool operator()(const Info& i) const { see(i, id); return i.iteration == at; }
};
static void callback(bool persistent, int id, const std::string& kind, int at) {
  if (kind == "v") {
    auto f = [id](const Info& i) { see(i, id); };
    if (id % 2) P->add_callback(f);
    else P->add_callback([id](Info i) mutable { see(i, id); });
  } else if (kind == "f") {
    std::function<bool(const Info&)> f = [id](const Info& i) { see(i, id); return false; };
    if (persistent) P->add_persistent_callback(f);
    else if (id % 2) P->add_callback(f);
    else P->add_callback([own = std::make_shared<int>(id)](const Info& i) { see(i, *own); return false; });
  } else if (kind == "s") {
    const Stop s{id, at};
    if (persistent) P->add_persistent_callback(s);
    else P->add_callback(s);
  } else {
    auto f = [id, at](const Info& i) { see(i, id); if (i.iteration == at) throw std::runtime_error("stop"); return false; };
    if (persistent) P->add_persistent_callback(f);
    else P->add_callback(f);
  }
}

using Vec = Eigen::Vector<S, Eigen::Dynamic>;
static Vec values() {
  Vec v(X.size());
  for (size_t k = 0; k < X.size(); ++k) v[k] = X[k].value();
  return v;
}
static std::string pattern(const Eigen::SparseMatrix<S>& m) {
  std::string r = "[";
  for (int k = 0; k < m.outerSize(); ++k)
    for (typename Eigen::SparseMatrix<S>::InnerIterator it{m, k}; it; ++it)
      r += (r.size() > 1 ? ",[" : "[") + std::to_string(it.row()) + "," + std::to_string(it.col()) + "," + (it.value() > 0 ? "1" : it.value() < 0 ? "-1" : "0") + "]";
  return r + "]";
}

int main() {
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream s(line);
    std::string op, out = "ok";
    s >> op;
    if (op == "new") {
      P = std::make_unique<slp::Problem<S>>();
      X.clear();
      par = std::make_unique<Var>();
      par->set_value(0);
    } else if (op == "dv") {
      X.push_back(P->decision_variable());
      out = "zero " + std::to_string(X.back().value() == 0);
    } else if (op == "dm") {
      int r, c;
      s >> r >> c;
      Mat m = c == 1 && r == 2 ? P->decision_variable(r) : P->decision_variable(r, c);
      bool zero = m.rows() == r && m.cols() == c;
      for (int a = 0; a < r; ++a) for (int b = 0; b < c; ++b) { zero &= m[a, b].value() == 0; X.push_back(m[a, b]); }
      out = "zero " + std::to_string(zero);
    } else if (op == "ds") {
      int r;
      s >> r;
      Mat m = P->symmetric_decision_variable(r);
      bool zero = m.rows() == r && m.cols() == r;
      for (int a = 0; a < r; ++a) for (int b = 0; b <= a; ++b) {
        zero &= m[a, b].value() == 0 && m[b, a].value() == 0;
        m[a, b].set_value(S(5));
        zero &= m[b, a].value() == S(5);   // one variable on both sides of the diagonal
        m[a, b].set_value(S(0));
        X.push_back(m[a, b]);
      }
      out = "zero " + std::to_string(zero);
    } else if (op == "sym") {
      // a problem of its own: the distinct targets of the lower triangle show up on both sides of the diagonal
      int r;
      s >> r;
      slp::Problem<S> q;
      Mat m = q.symmetric_decision_variable(r);
      Var f = S(0);
      for (int a = 0; a < r; ++a) for (int b = 0; b <= a; ++b) { Var d = m[a, b] - S(10 * (a + 1) + b + 1); f = f + d * d; }
      q.minimize(f);
      int n = -1;
      q.add_callback([&](const Info& i) { n = i.x.size(); });
      slp::Options opt;
      if (sizeof(S) == 4) opt.tolerance = 1e-4;
      auto st = q.solve(opt);
      out = "{\"st\":" + std::to_string((int)st) + ",\"n\":" + std::to_string(n) + ",\"m\":[";
      for (int a = 0; a < m.rows(); ++a) for (int b = 0; b < m.cols(); ++b) out += (a + b ? "," : "") + std::to_string((double)m[a, b].value());
      out += "]}";
    } else if (op == "set" || op == "odd") {
      int k;
      std::string x;
      s >> k >> x;
      X[k - 1].set_value(S(std::stod(x)));
    } else if (op == "par") {
      int x;
      s >> x;
      par->set_value(S(x));
    } else if (op == "cost") {
      int form, sense, n, usep, style;
      s >> form >> sense >> usep >> style >> n;
      std::vector<int> w(n), a(n);
      for (auto& x : w) s >> x;
      for (auto& x : a) s >> x;
      Var f = S(form == 1 ? 3 : 0);
      for (int k = 0; form > 1 && k < n; ++k) {
        Var d = X[k] - S(a[k]);
        if (usep && form > 2) d = d - *par;
        f = f + S(w[k]) * (form == 2 ? X[k] : form == 3 ? d * d : slp::pow(d, S(4)) + d * d);
      }
      if (form == 1 && style == 2) {
        if (sense) P->maximize(S(3)); else P->minimize(S(3));
      } else {
        if (sense && form != 2) f = -f;
        Mat one{f};
        if (sense) { if (style == 0) P->maximize(f); else if (style == 1) P->maximize(std::move(f)); else P->maximize(one[0, 0]); }
        else { if (style == 0) P->minimize(f); else if (style == 1) P->minimize(std::move(f)); else P->minimize(one[0, 0]); }
      }
    } else if (op == "eq" || op == "in") {
      int m, style;
      s >> m >> style;
      std::vector<Var> lhs;
      std::vector<S> rhs;
      std::vector<bool> ge;
      for (int q = 0; q < m; ++q) {
        int form, k, e, g;
        s >> form >> k >> e >> g;
        Var& x = X[k - 1];
        ge.push_back(g || form == 1);
        lhs.push_back(form == 1 ? Var{S(e)} : form == 2 ? x : form == 3 ? x * x : slp::exp(x));
        rhs.push_back(form == 1 ? S(0) : form == 2 ? S(e) : form == 3 ? S(e * e) : std::exp(S(e)));
      }
      if (op == "eq") {
        if (style == 0) for (int q = 0; q < m; ++q) { auto c = lhs[q] == rhs[q]; P->subject_to(c); }
        else if (style == 1) {
          std::vector<slp::EqualityConstraints<S>> l;
          for (int q = 0; q < m; ++q) l.push_back(rhs[q] == lhs[q]);
          P->subject_to(slp::EqualityConstraints<S>{l});
        } else {
          Mat L{m, 1};
          Eigen::Vector<S, Eigen::Dynamic> R(m);
          for (int q = 0; q < m; ++q) { L[q, 0] = lhs[q]; R[q] = rhs[q]; }
          P->subject_to(L == R);
        }
      } else {
        auto one = [&](int q) { return ge[q] ? lhs[q] >= rhs[q] : lhs[q] <= rhs[q]; };
        if (style == 0) for (int q = 0; q < m; ++q) { auto c = one(q); P->subject_to(c); }
        else if (style == 1) {
          std::vector<slp::InequalityConstraints<S>> l;
          for (int q = 0; q < m; ++q) l.push_back(one(q));
          P->subject_to(slp::InequalityConstraints<S>{l});
        } else {
          Mat L{m, 1};
          Eigen::Vector<S, Eigen::Dynamic> R(m);
          for (int q = 0; q < m; ++q) { L[q, 0] = ge[q] ? lhs[q] : -lhs[q]; R[q] = ge[q] ? rhs[q] : -rhs[q]; }
          P->subject_to(L >= R);
        }
      }
    } else if (op == "cb" || op == "pcb") {
      int id, at;
      std::string kind;
      s >> id >> kind >> at;
      callback(op == "pcb", id, kind, at);
    } else if (op == "clear") {
      P->clear_callbacks();
    } else if (op == "move") {
      P = std::make_unique<slp::Problem<S>>(std::move(*P));
    } else if (op == "copy") {
      P = std::make_unique<slp::Problem<S>>(*P);
    } else if (op == "types" || op == "solve") {
      out = "\"types\":[" + std::to_string((int)P->cost_function_type()) + "," + std::to_string((int)P->equality_constraint_type()) + "," + std::to_string((int)P->inequality_constraint_type()) + "]";
      if (op == "solve") {
        int style, at, rec;
        std::string lim;
        s >> style >> ne >> ni >> lim >> at >> rec;
        // the same solve run freely, from the same values, on a copy: every iterate and the patterns of its matrices
        std::vector<Vec> iter;
        std::vector<std::string> pat[3];
        int fst = 0;
        dims = init = first = true;
        before.clear();
        for (auto& x : X) before.push_back(x.value());
        slp::Options opt;
        opt.max_iterations = 300;
        if (sizeof(S) == 4) opt.tolerance = 1e-4;
        if (lim != "none" || rec) {
          slp::Problem<S> q{*P};
          q.add_callback([&](const Info& i) {
            iter.emplace_back(i.x);
            if (rec) { pat[0].push_back(pattern(i.H)); pat[1].push_back(pattern(i.A_e)); pat[2].push_back(pattern(i.A_i)); }
          });
          fst = (int)q.solve(opt);
          iter.push_back(values());
          for (size_t k = 0; k < X.size(); ++k) X[k].set_value(before[k]);
        }
        log_.clear();
        dims = init = first = true;
        if (lim == "it") opt.max_iterations = at;
        std::unique_ptr<slp::Problem<S>> slow;
        if (lim == "time") {
          opt.timeout = std::chrono::duration<double>{50};
          slow = std::make_unique<slp::Problem<S>>(*P);
          slow->add_callback([at](const Info& i) { if (i.iteration == at) g_now += 100'000'000'000; });
        }
        auto& now = slow ? *slow : *P;
        opt.diagnostics = style > 0;
        auto home = std::filesystem::current_path();
        char dir[] = "/tmp/p12-XXXXXX";
        if (rec) { if (!mkdtemp(dir)) return 3; std::filesystem::current_path(dir); }
        std::string text;
        int fd = -1;
        FILE* tmp = nullptr;
        if (opt.diagnostics) {
          std::fflush(stdout);
          fd = dup(1);
          tmp = tmpfile();
          dup2(fileno(tmp), 1);
        }
        int st;
        try {
          st = (int)now.solve(opt, rec);
        } catch (const std::runtime_error&) {
          st = 99;
        }
        if (opt.diagnostics) {
          std::fflush(stdout);
          dup2(fd, 1);
          close(fd);
          std::rewind(tmp);
          char b[4096];
          for (size_t k; (k = std::fread(b, 1, sizeof b, tmp)) > 0;) text.append(b, k);
          std::fclose(tmp);
        }
        out += ",\"st\":" + std::to_string(st) + ",\"dims\":" + std::to_string(dims) + ",\"init\":" + std::to_string(init) + ",\"par\":" + std::to_string(par->value()) + ",\"log\":[";
        for (size_t k = 0; k < log_.size(); ++k) out += (k ? "," : "") + std::to_string(log_[k]);
        out += "],\"x\":[";
        char b[64];
        bool same = true;
        for (size_t k = 0; k < X.size(); ++k) {
          S x = X[k].value();
          same &= eq(x, before[k]);
          std::snprintf(b, sizeof b, std::isfinite(x) ? "%s%.12g" : "%s\"%g\"", k ? "," : "", (double)x);
          out += b;
        }
        out += "]";
        if (!iter.empty()) {
          out += ",\"fst\":" + std::to_string(fst) + ",\"free\":" + std::to_string((int)iter.size() - 1) + ",\"at\":[";
          std::string l;
          Vec fin = values();
          for (size_t k = 0; k < iter.size(); ++k) {
            bool ok = iter[k].size() == fin.size();
            for (int j = 0; ok && j < fin.size(); ++j) ok = eq(iter[k][j], fin[j]);
            if (ok) l += (l.empty() ? "" : ",") + std::to_string(k);
          }
          out += l + "]";
        }
        if (rec) {
          out += ",\"spy\":{";
          bool any = false;
          for (auto& f : std::filesystem::directory_iterator(".")) {
            std::ifstream in{f.path(), std::ios::binary};
            std::string d{std::istreambuf_iterator<char>(in), {}};
            out += (any ? ",\"" : "\"") + f.path().filename().string() + "\":\"";
            char h[4];
            for (unsigned char c : d) { std::snprintf(h, sizeof h, "%02x", c); out += h; }
            out += "\"";
            any = true;
          }
          out += "},\"pat\":[";
          for (int m = 0; m < 3; ++m) {
            out += m ? ",[" : "[";
            for (size_t k = 0; k < pat[m].size(); ++k) out += (k ? "," : "") + pat[m][k];
            out += "]";
          }
          out += "]";
          std::filesystem::current_path(home);
          std::filesystem::remove_all(dir);
        }
        out += ",\"same\":" + std::to_string(same) + ",\"text\":\"";
        // the report up to the end of the problem's structure, and the solver invoked
        size_t end = text.find("setup");
        for (char c : text.substr(0, std::min<size_t>(text.size(), std::min<size_t>(end == std::string::npos ? 1500 : end, 1500)))) {
          if (c == '\n') out += "\\n";
          else if (c == '"' || c == '\\' || (unsigned char)c < 32) out += ' ';
          else out += c;
        }
        size_t ex = text.rfind("Exit:");
        int m;
        s >> m;
        for (int k = 0; k < m; ++k) { int x; s >> x; X[k].set_value(S(x)); }
        // rows of the iteration table
        out += "\",\"rows\":[";
        bool firstrow = true;
        std::istringstream rows(text);
        for (std::string l; std::getline(rows, l);) {
          if (!l.starts_with("│")) continue;
          size_t p = l.find_first_not_of(' ', 3);
          if (p == std::string::npos || !isdigit(l[p])) continue;
          out += (firstrow ? "" : ",") + std::to_string(atoi(l.c_str() + p));
          firstrow = false;
        }
        out += "],\"exit\":\"" + (ex == std::string::npos ? "" : text.substr(ex + 5, text.find('\n', ex) - ex - 5)) + "\"";
      }
      out = "{" + out + "}";
    }
    std::printf("%s\n", out.c_str());
    std::fflush(stdout);
  }
  // expressions live in this thread's pool, which is gone before static objects are
  P.reset(); X.clear(); par.reset();
}
