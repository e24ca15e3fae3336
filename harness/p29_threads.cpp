// Conformance harness for spec/Threads.tla: threads that share no objects, in a given interleaving or running freely.
// command: <reps> <threads> { <ops> { op n a } }  <turns> t...      reps 0: interleaved as told, else: free, each program that often
// output:  per thread "ok" when every repetition showed what the thread shows alone, then what it shows alone
#include <barrier>
#include <condition_variable>
#include <cstdio>
#include <functional>
#include <iostream>
#include <memory>
#include <mutex>
#include <sstream>
#include <string>
#include <thread>
#include <vector>

#include "sleipnir/autodiff/gradient.hpp"
#include "sleipnir/autodiff/hessian.hpp"
#include "sleipnir/autodiff/variable.hpp"
#include "sleipnir/autodiff/variable_matrix.hpp"
#include "sleipnir/optimization/problem.hpp"
#include "sleipnir/util/pool.hpp"
using Var = slp::Variable<double>;
struct Op { char o; int n, a; };
using Yield = std::function<void()>;

static Var f(const Var& x, int n) {
  Var r = (x + 1.0) * x;
  for (int k = 2; k <= n; ++k) r = r + (x + double(k)) * x;
  return r;
}

static std::string solve(const Op& op, const Yield& yield) {
  slp::Problem<double> P;
  Var x = P.decision_variable(), y = P.decision_variable();
  double a = op.a;
  Var d = x - a;
  Var c = slp::pow(d, 2.0) + slp::pow(y - 1.0, 2.0);
  if (op.n == 1) c = c + d * d * d * d;
  else if (op.n == 2) P.subject_to(x + y == a + 1);
  else if (op.n == 3) { c = slp::pow(d - 1.0, 2.0) + slp::pow(y - 1.0, 2.0); P.subject_to(x <= a); P.subject_to(y >= 0.0); }
  else if (op.n == 40) { P.subject_to(x * y == a * y); P.subject_to(y >= 0.5); }
  else { P.subject_to(d * d <= 1.0); P.subject_to(y <= 3.0); x.set_value(20); }
  P.minimize(c);
  int calls = 0;
  std::string log;
  P.add_callback([&](const slp::IterationInfo<double>& i) {
    char b[64];
    std::snprintf(b, sizeof b, "%d:%a,%a;", i.iteration, i.x[0], i.x[1]);
    log += b;
    if (++calls <= 2) yield();
  });
  int st = (int)P.solve();
  for (; calls < 2; ++calls) yield();
  char b[64];
  std::snprintf(b, sizeof b, "%d,%.5g|", st, x.value() + (std::abs(x.value()) < 1e-4 ? -x.value() : 0));
  return b + log;
}

// one program; `yield` gives up control and returns when it is this thread's turn again
static std::vector<std::string> perform(const std::vector<Op>& p, const Yield& yield) {
  std::vector<std::string> out;
  {
    Var x;
    std::vector<Var> slots;
    bool first = true;
    for (auto& op : p) {
      if (!first) yield();
      first = false;
      std::string s;
      auto put = [&](double v) { char b[40]; std::snprintf(b, sizeof b, "%s%.17g", s.empty() ? "" : ",", v + 0.0); s += b; };
      switch (op.o) {
        case 'e': slots.push_back(f(x, op.n)); x.set_value(op.a); put(slots.back().value()); break;
        case 'c': { Var t = f(x, op.n); x.set_value(op.a); put(t.value()); break; }
        case 'v': x.set_value(op.a); for (auto& t : slots) put(t.value()); break;
        case 'g': for (auto& t : slots) { slp::Gradient<double> g{t, x}; put(g.value().coeff(0)); } break;
        case 'h': for (auto& t : slots) { slp::Hessian<double> h{t, x}; put(h.value().coeff(0, 0)); } break;
        case 'd': if (!slots.empty()) slots.erase(slots.begin()); put(double(slots.size())); break;
        case 's': s = solve(op, yield); break;
      }
      char b[40];
      std::snprintf(b, sizeof b, "#%zu", slp::global_pool_resource().blocks_in_use());
      out.push_back(s + b);
    }
  }
  out.push_back("end#" + std::to_string(slp::global_pool_resource().blocks_in_use()));
  return out;
}

int main() {
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream is(line);
    int reps, nt, m;
    is >> reps >> nt;
    std::vector<std::vector<Op>> prog(nt);
    for (auto& p : prog) { is >> m; p.resize(m); for (auto& o : p) is >> o.o >> o.n >> o.a; }
    is >> m;
    std::vector<int> sched(m);
    for (auto& t : sched) { is >> t; --t; }
    std::vector<std::vector<std::string>> alone(nt), got(nt);
    for (int t = 0; t < nt; ++t) std::thread([&, t] { alone[t] = perform(prog[t], [] {}); }).join();
    std::vector<std::string> verdict(nt, "ok");
    auto check = [&](int t) {
      if (got[t] == alone[t] || verdict[t] != "ok") return;
      for (size_t k = 0; k < alone[t].size(); ++k)
        if (k >= got[t].size() || got[t][k] != alone[t][k]) { verdict[t] = "differs:" + (k < got[t].size() ? got[t][k].substr(0, 200) : "nothing"); return; }
    };
    if (reps) {
      std::barrier start{nt};
      std::vector<std::thread> th;
      for (int t = 0; t < nt; ++t) th.emplace_back([&, t] {
        start.arrive_and_wait();
        for (int r = 0; r < reps; ++r) { got[t] = perform(prog[t], [] {}); check(t); }
      });
      for (auto& t : th) t.join();
    } else {
      std::mutex mu;
      std::condition_variable cv;
      int turn = -1;
      std::vector<std::unique_ptr<std::thread>> th(nt);
      std::vector<int> done(nt, 0);
      for (int t : sched) {
        std::unique_lock l{mu};
        turn = t;
        if (!th[t]) th[t] = std::make_unique<std::thread>([&, t] {
          auto wait = [&, t] { std::unique_lock k{mu}; cv.wait(k, [&] { return turn == t; }); };
          wait();
          got[t] = perform(prog[t], [&, t] { { std::unique_lock k{mu}; turn = -1; cv.notify_all(); } wait(); });
          std::unique_lock k{mu};
          done[t] = 1;
          turn = -1;
          cv.notify_all();
        });
        cv.notify_all();
        cv.wait(l, [&] { return turn == -1; });
        if (done[t]) { l.unlock(); th[t]->join(); }   // the thread is gone, and its pool with it, while the others go on
      }
      for (int t = 0; t < nt; ++t) { if (!done[t]) { verdict[t] = "unfinished"; std::printf("unfinished\n"); std::fflush(stdout); std::_Exit(3); } check(t); }
    }
    for (int t = 0; t < nt; ++t) {
      std::printf("%s ", verdict[t].c_str());
      for (auto& s : alone[t]) {
        size_t bar = s.find('|'), hash = s.rfind('#');
        std::printf("%s ", s.starts_with("end") ? s.c_str() : s.substr(0, std::min(bar, hash)).c_str());
      }
      std::printf("/ ");
    }
    std::printf("\n");
    std::fflush(stdout);
  }
}
