// Runs slp::multistart with solves that finish in a scripted order.
// command: n  (status cost)*n  order*n        cost "inf"/"-inf" allowed
// output:  status cost id | calls | per-guess call counts | distinct threads  (or "stuck" when a solve never started)
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cstdio>
#include <iostream>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include <sleipnir/optimization/multistart.hpp>
struct Guess { int id; double pad[3]; };
template <typename T>
static std::string run(std::istringstream& is) {
  static bool hopeless = false;   // do not wait again and again once solves turned out not to be concurrent
  if (hopeless) return "stuck";
  int n; is >> n;
  std::vector<int> st(n), ord(n); std::vector<T> co(n);
  for (int i = 0; i < n; ++i) { std::string c; is >> st[i] >> c; co[i] = T(std::stod(c)); }
  for (auto& o : ord) is >> o;
  std::mutex m; std::condition_variable cv;
  std::vector<int> calls(n, 0); std::set<std::thread::id> th; int started = 0, next = 0; bool stuck = false;
  auto me = std::this_thread::get_id();
  using R = slp::MultistartResult<T, Guess>;
  auto solve = [&](const Guess& g) -> R {
    std::unique_lock l{m};
    int i = g.id;
    if (i >= 0 && i < n) ++calls[i];
    th.insert(std::this_thread::get_id());
    ++started; cv.notify_all();
    // everything must be running before the first one finishes, then they finish in the scripted order
    if (!stuck && !cv.wait_for(l, std::chrono::seconds(8), [&] { return stuck || (started >= n && next < n && ord[next] == i); })) { stuck = true; cv.notify_all(); }
    ++next; cv.notify_all();
    R r{slp::ExitStatus{static_cast<std::int8_t>(i >= 0 && i < n ? st[i] : 0)}, i >= 0 && i < n ? co[i] : T(0), Guess{i + 100, {g.pad[0] * 2, g.pad[1], g.pad[2]}}};
    return r;
  };
  std::vector<Guess> gs;
  for (int i = 0; i < n; ++i) gs.push_back({i, {i + 0.5, 1, 2}});
  R r = slp::multistart<T, Guess>(solve, gs);
  std::ostringstream o;
  if (stuck) { hopeless = true; return "stuck"; }
  o << int(r.status) << " " << double(r.cost) << " " << r.variables.id << " " << (r.variables.pad[0] == 2 * (r.variables.id - 100 + 0.5)) << " |";
  for (int c : calls) o << " " << c;
  o << " | " << th.size() - th.count(me);
  return o.str();
}
int main() {
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream is(line); std::string k; is >> k;
    std::puts((k == "d" ? run<double>(is) : run<float>(is)).c_str());
    std::fflush(stdout);
  }
}
