// Conformance harness for spec/Diag.tla: print one report, give back its lines joined by '|'-free separators.
#include <unistd.h>

#include <cstdio>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>

#include "sleipnir/util/print_diagnostics.hpp"

static long long g_now = 0;
namespace std::chrono {
inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point{duration{g_now}}; }
}  // namespace _V2
}  // namespace std::chrono

template <class P>
static gch::small_vector<P> timed(std::istringstream& s, int n) {
  gch::small_vector<P> ps;
  for (int k = 0; k < n; ++k) ps.emplace_back("part " + std::to_string(k));
  for (int k = 0; k < n; ++k) {
    int r;
    s >> r;
    for (int q = 0; q < r; ++q) {
      long long us;
      s >> us;
      ps[k].start();
      g_now += us * 1000;
      ps[k].stop();
      g_now += 12345;
    }
  }
  return ps;
}

template <class F>
static std::string capture(F f) {
  std::fflush(stdout);
  int fd = dup(1);
  FILE* tmp = tmpfile();
  dup2(fileno(tmp), 1);
  f();
  std::fflush(stdout);
  dup2(fd, 1);
  close(fd);
  std::rewind(tmp);
  std::string t;
  char b[4096];
  for (size_t k; (k = std::fread(b, 1, sizeof b, tmp)) > 0;) t.append(b, k);
  std::fclose(tmp);
  for (char& c : t) if (c == '\n') c = '\t';
  return t;
}

int main() {
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream s(line);
    std::string op, out;
    s >> op;
    if (op == "viol") {
      int which, n;
      s >> which >> n;
      Eigen::VectorXd c(n);
      for (auto& x : c) s >> x;
      out = capture([&] {
        if (which == 0) slp::print_too_few_dofs_error<double>(c);
        else if (which == 1) slp::print_c_e_local_infeasibility_error<double>(c);
        else slp::print_c_i_local_infeasibility_error<double>(c);
      });
    } else if (op == "conf") {
      int n;
      s >> n;
      std::vector<std::pair<Eigen::Index, Eigen::Index>> p(n);
      for (auto& [a, b] : p) s >> a >> b;
      out = capture([&] { slp::print_bound_constraint_global_infeasibility_error(p); });
    } else if (op == "hist") {
      int w;
      double x;
      s >> w >> x;
      out = w == 1 ? slp::histogram<1>(x) : w == 2 ? slp::histogram<2>(x) : w == 9 ? slp::histogram<9>(x) : slp::histogram<16>(x);
    } else if (op == "trace") {
      int solve, n;
      s >> solve >> n;
      if (solve) {
        auto ps = timed<slp::SolveProfiler>(s, n);
        out = capture([&] { slp::print_solver_diagnostics(ps); });
      } else {
        auto ps = timed<slp::SetupProfiler>(s, n);
        out = capture([&] { slp::print_setup_diagnostics(ps); });
      }
    } else if (op == "pow") {
      double x;
      s >> x;
      out = slp::power_of_10(x);
    } else {
      int it, type, us, back, dual;
      double a, v[7];
      s >> it >> type >> us >> back >> dual >> a;
      for (auto& x : v) s >> x;
      double r = a;
      for (int k = 0; k < back; ++k) r *= 0.5;
      out = capture([&] {
        slp::print_iteration_diagnostics(it, slp::IterationType(type), std::chrono::microseconds(us), v[0], v[1], v[2], v[3], v[4], 0.0, 1e-4, v[5], v[6], r, a, 0.5, dual * 0.25);
      });
    }
    std::printf("%s\n", out.c_str());
    std::fflush(stdout);
  }
}
