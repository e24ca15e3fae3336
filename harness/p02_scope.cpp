// Conformance harness for spec/ScopeGuard.tla and spec/Profiler.tla.
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <iostream>
#include <memory>
#include <new>
#include <optional>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <sleipnir/util/profiler.hpp>
#include <sleipnir/util/scope_exit.hpp>

// Scripted clock: replaces the C++ runtime's steady clock in this program.
static long long g_now_ns = 5'000'000'000;
namespace std { namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point{duration{g_now_ns}}; }
} } }

static int fired[8];
struct Lam { int i; std::unique_ptr<int> own; void operator()() { if (!own) puts("MOVED-FROM ACTION RAN"); ++fired[i]; } };
using GL = slp::scope_exit<Lam>;
using GF = slp::scope_exit<std::function<void()>>;
struct Guard { int kind = 0; alignas(16) unsigned char m[128]; };
static_assert(sizeof(GL) <= 128 && sizeof(GF) <= 128);
static Guard gs[8];
static GL& L(int s) { return *std::launder(reinterpret_cast<GL*>(gs[s].m)); }
static GF& F(int s) { return *std::launder(reinterpret_cast<GF*>(gs[s].m)); }
template <typename G>
static void end_scope(G& slotg, bool thrown) {
  // the guard's own scope ends: destroy it, optionally during stack unwinding
  struct Killer { G* g; ~Killer() { g->~G(); } };
  if (!thrown) { Killer k{&slotg}; return; }
  try { Killer k{&slotg}; throw std::runtime_error("x"); } catch (const std::runtime_error&) {}
}
template <typename G>
static void inner_scope(G& g, bool thrown) {
  try { G in{std::move(g)}; if (thrown) throw std::runtime_error("x"); } catch (const std::runtime_error&) {}
}
static int guards() {
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream in(line);
    std::string op, how;
    int s = 0, t = 0;
    in >> op >> s >> t >> how;
    auto& g = gs[s];
    if (op == "reset") {
      for (auto& x : gs) { if (x.kind == 1) { reinterpret_cast<GL*>(x.m)->release(); reinterpret_cast<GL*>(x.m)->~GL(); }
        if (x.kind == 2) { reinterpret_cast<GF*>(x.m)->release(); reinterpret_cast<GF*>(x.m)->~GF(); } x.kind = 0; }
      for (int& f : fired) f = 0;
    } else if (op == "create") {
      if (how == "lambda") { new (g.m) GL{Lam{t, std::make_unique<int>(t)}}; g.kind = 1; }
      else { int i = t; new (g.m) GF{std::function<void()>{[i] { ++fired[i]; }}}; g.kind = 2; }
    } else if (op == "move") {
      gs[t].kind = g.kind;
      if (g.kind == 1) new (gs[t].m) GL{std::move(L(s))}; else new (gs[t].m) GF{std::move(F(s))};
    } else if (op == "release") {
      if (g.kind == 1) L(s).release(); else F(s).release();
    } else if (op == "end") {
      if (g.kind == 1) end_scope(L(s), how == "throw"); else end_scope(F(s), how == "throw");
      g.kind = 0;
    } else if (op == "inner") {
      if (g.kind == 1) inner_scope(L(s), how == "throw"); else inner_scope(F(s), how == "throw");
    } else return 3;
    printf("%d %d %d %d\n", fired[1], fired[2], fired[3], fired[4]);
    fflush(stdout);
  }
  return 0;
}

template <typename P>
static int timers() {
  using SP = slp::ScopedProfiler<P>;
  constexpr bool solve = std::same_as<P, slp::SolveProfiler>;
  std::optional<P> tm[3];
  struct Slot { bool on = false, gone = false; alignas(16) unsigned char m[64]; } sl[4];
  auto S = [&](int s) -> SP& { return *std::launder(reinterpret_cast<SP*>(sl[s].m)); };
  std::string names[3] = {"", "solver", "    ↳ a measurement name longer than any small buffer"};
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream in(line);
    std::string op, how;
    int a = 0, b = 0;
    in >> op >> a >> b >> how;
    if (op == "reset") {
      for (int s = 1; s < 4; ++s) if (sl[s].on) { S(s).~SP(); sl[s].on = false; }
      for (int t = 1; t < 3; ++t) { std::string tmp = names[t]; tm[t].emplace(std::string_view{tmp}); tmp.assign(tmp.size(), '#'); }
      g_now_ns += 777;
    } else if (op == "tick") g_now_ns += 125'000'000LL * a;
    else if (op == "start") tm[a]->start();
    else if (op == "stop") tm[a]->stop();
    else if (op == "scope") { new (sl[b].m) SP{*tm[a]}; sl[b].on = true; sl[b].gone = false; }
    else if (op == "smove") { new (sl[b].m) SP{std::move(S(a))}; sl[b].on = true; sl[b].gone = sl[a].gone; sl[a].gone = true; }
    else if (op == "sstop") S(a).stop();
    else if (op == "send") { end_scope(S(a), how == "throw"); sl[a].on = false; }
    else if (op == "clone") {
      if (how == "copy") { P c{*tm[a]}; tm[a].emplace(c); }
      else { P c{std::move(*tm[a])}; tm[a].emplace(std::move(c)); }
    } else return 3;
    for (int t = 1; t < 3; ++t) {
      const P& p = *tm[t];
      if constexpr (solve) {
        printf("%d %.17g %.17g %.17g ", p.num_solves(), p.current_duration().count(), p.total_duration().count(), p.average_duration().count());
      } else printf("%.17g ", p.duration().count());
      printf("%s", p.name() == names[t] ? "" : "NAME! ");
    }
    if constexpr (solve)
      for (int s = 1; s < 4; ++s) if (sl[s].on) { if (sl[s].gone) printf("s- "); else printf("s%.17g ", S(s).current_duration().count()); }
    puts("");
    fflush(stdout);
  }
  return 0;
}

int main(int, char** argv) {
  std::string k = argv[1];
  if (k == "guards") return guards();
  if (k == "solve") return timers<slp::SolveProfiler>();
  return timers<slp::SetupProfiler>();
}
