// Conformance harness for spec/FunctionRef.tla.
// Several signatures; callable numbers map to different C++ kinds of callable per "palette".
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string_view>
#include <functional>
#include <iostream>
#include <memory>
#include <new>
#include <sstream>
#include <string>
#include <utility>
#include <sleipnir/util/function_ref.hpp>

static int ncalls[16];
static int wrong = 0;

// ---- int(int)
struct ConstFn { int id; int operator()(int x) const { ++ncalls[id]; return id * 1000 + x; } };
struct MutFn { int id; int state = 0; int operator()(int x) { ++ncalls[id]; ++state; return id * 1000 + x; } };
struct Both {   // const and non-const overloads must be told apart
  int id;
  int operator()(int x) { ++ncalls[id]; return id * 1000 + x; }
  int operator()(int) const { ++wrong; return -1; }
};
struct LRef { int id; int operator()(int x) & { ++ncalls[id]; return id * 1000 + x; } int operator()(int) && { ++wrong; return -1; } };
struct ShortFn { int id; short operator()(long x) { ++ncalls[id]; return short(id * 1000 + x); } };   // convertible
struct Inner { int operator()(int x) { ++ncalls[3]; return 3000 + x; } };
struct Outer : Inner {   // three callables at one address
  int operator()(int x) { ++ncalls[1]; return 1000 + x; }
  int operator()(int x) const { ++ncalls[2]; return 2000 + x; }
};
template <int I> int plain(int x) { ++ncalls[I]; return I * 1000 + x; }
struct Pt { int id; int member(int x) { ++ncalls[id]; return id * 1000 + x; } };

struct SigInt {
  using Ref = slp::function_ref<int(int)>;
  static int call(Ref& r, int a) { return r(a); }
  static int expect(int id, int a) { return id * 1000 + a; }
  template <class Fn> static void with(int pal, int c, Fn fn) {
    static ConstFn cf[8]; static MutFn mf[8]; static Both bf[8]; static LRef lf[8]; static ShortFn sf[8];
    static const ConstFn ccf[8] = {{0}, {1}, {2}, {3}, {4}, {5}, {6}, {7}};
    for (int i = 0; i < 8; ++i) { cf[i].id = i; mf[i].id = i; bf[i].id = i; lf[i].id = i; sf[i].id = i; }
    static auto lam1 = [](int x) { ++ncalls[1]; return 1000 + x; };
    static int cap2 = 2;
    static auto lam2 = [&](int x) mutable { ++ncalls[cap2]; return cap2 * 1000 + x; };
    static int cap3 = 3;
    static const auto lam3 = [&](int x) { ++ncalls[cap3]; return cap3 * 1000 + x; };
    static std::function<int(int)> f1 = [](int x) { ++ncalls[1]; return 1000 + x; };
    static int (*fp2)(int) = plain<2>;
    static int (*const fp3)(int) = plain<3>;
    if (pal == 0) { if (c == 1) fn(lam1); else if (c == 2) fn(lam2); else fn(lam3); }
    else if (pal == 1) { if (c == 1) fn(cf[1]); else if (c == 2) fn(mf[2]); else fn(ccf[3]); }
    else if (pal == 2) { if (c == 1) fn(f1); else if (c == 2) fn(fp2); else fn(fp3); }
    else if (pal == 3) { if (c == 1) fn(bf[1]); else if (c == 2) fn(lf[2]); else fn(sf[3]); }
    else if (pal == 5) { static Outer o; if (c == 1) fn(o); else if (c == 2) fn(std::as_const(o)); else fn(static_cast<Inner&>(o)); }
    else { if (c == 1) fn(plain<1>); else if (c == 2) fn(std::as_const(f1_2())); else fn(bf[3]); }
  }
  static std::function<int(int)>& f1_2() { static std::function<int(int)> f = [](int x) { ++ncalls[2]; return 2000 + x; }; return f; }
};
// ---- void(int&): result dropped, reference argument forwarded
struct SigVoid {
  using Ref = slp::function_ref<void(int&)>;
  static int call(Ref& r, int a) { int v = a; r(v); return v; }
  static int expect(int id, int a) { return id * 1000 + a; }
  template <class Fn> static void with(int, int c, Fn fn) {
    static auto a = [](int& x) { ++ncalls[1]; x += 1000; };
    static auto b = [](int& x) { ++ncalls[2]; x += 2000; return 17; };         // non-void result is discarded
    struct C { void operator()(int& x) const { ++ncalls[3]; x += 3000; } };
    static const C k{};
    if (c == 1) fn(a); else if (c == 2) fn(b); else fn(k);
  }
};
// ---- move-only argument and result
struct SigMove {
  using P = std::unique_ptr<int>;
  using Ref = slp::function_ref<P(P, const std::string&)>;
  static int call(Ref& r, int a) { P p = std::make_unique<int>(a); int* raw = p.get(); std::string s = "abc"; P q = r(std::move(p), s); return q && q.get() == raw && s == "abc" ? *q : -7; }
  static int expect(int id, int a) { return id * 1000 + a; }
  template <class Fn> static void with(int, int c, Fn fn) {
    static auto a = [](P p, const std::string& s) { ++ncalls[1]; *p += 1000 + (int)s.size() - 3; return p; };
    static auto b = [](P&& p, std::string_view s) { ++ncalls[2]; *p += 2000 + (int)s.size() - 3; return std::move(p); };
    struct C { P operator()(P p, const std::string&) { ++ncalls[3]; *p += 3000; return p; } };
    static C k;
    if (c == 1) fn(a); else if (c == 2) fn(b); else fn(k);
  }
};
// ---- reference result
struct SigRef {
  using Ref = slp::function_ref<int&(int)>;
  static int store[8];
  static int call(Ref& r, int a) { int& x = r(a); for (int i = 1; i < 4; ++i) if (&x == &store[i]) return i * 1000 + x; return -9; }
  static int expect(int id, int a) { return id * 1000 + a; }
  template <class Fn> static void with(int, int c, Fn fn) {
    static auto a = [](int x) -> int& { ++ncalls[1]; store[1] = x; return store[1]; };
    static auto b = [](int x) mutable -> int& { ++ncalls[2]; store[2] = x; return store[2]; };
    struct C { int& operator()(int x) const { ++ncalls[3]; store[3] = x; return store[3]; } };
    static C k;
    if (c == 1) fn(a); else if (c == 2) fn(b); else fn(k);
  }
};
int SigRef::store[8];

template <class S>
int run(int pal) {
  using Ref = typename S::Ref;
  struct Slot { bool on = false; alignas(16) unsigned char m[sizeof(Ref)]; } sl[5];
  auto R = [&](int i) -> Ref& { return *std::launder(reinterpret_cast<Ref*>(sl[i].m)); };
  std::string line;
  int nonce = 0;
  while (std::getline(std::cin, line)) {
    std::istringstream in(line);
    std::string op, how;
    int r = 0, q = 0;
    in >> op >> r >> q >> how;
    if (op == "reset") { for (auto& s : sl) s.on = false; for (int& n : ncalls) n = 0; wrong = 0; }
    else if (op == "bind") S::with(pal, q, [&](auto& f) { new (sl[r].m) Ref{f}; sl[r].on = true; });
    else if (op == "assign") S::with(pal, q, [&](auto& f) { R(r) = f; });
    else if (op == "copyctor") {
      if (how == "lvalue") new (sl[r].m) Ref(R(q));
      else if (how == "const") new (sl[r].m) Ref(std::as_const(R(q)));
      else { Ref t{std::as_const(R(q))}; new (sl[r].m) Ref(std::move(t)); memset((void*)&t, 0xA5, 0); }
      sl[r].on = true;
    } else if (op == "copy") {
      if (how == "lvalue") R(r) = R(q);
      else if (how == "const") R(r) = std::as_const(R(q));
      else if (how == "rvalue") { Ref t{std::as_const(R(q))}; R(r) = std::move(t); }
      else { R(r) = Ref{std::as_const(R(q))}; }
    } else if (op == "swap") {
      if (how == "member") R(r).swap(R(q)); else if (how == "free") swap(R(r), R(q)); else { using std::swap; swap(R(r), R(q)); }
    } else if (op == "drop") { sl[r].on = false; for (auto& b : sl[r].m) b = 0x5A; }
    else if (op == "call") { int a = ++nonce % 97; (void)S::call(R(r), a); }
    else return 3;
    // observe: counters, then whom every reference calls (these probe calls are not counted)
    printf("%d %d %d |", ncalls[1], ncalls[2], ncalls[3]);
    int keep[16];
    for (int i = 0; i < 16; ++i) keep[i] = ncalls[i];
    for (int i = 1; i <= 3; ++i) {
      if (!sl[i].on) { printf(" 0"); continue; }
      int a = ++nonce % 97, before[4] = {0, ncalls[1], ncalls[2], ncalls[3]};
      int v = S::call(R(i), a);
      int who = -1;
      for (int k = 1; k <= 3; ++k) if (v == S::expect(k, a) && ncalls[k] == before[k] + 1) who = k;
      for (int k = 1; k <= 3; ++k) if (k != who && ncalls[k] != before[k]) who = -2;
      printf(" %d", who);
    }
    for (int i = 0; i < 16; ++i) ncalls[i] = keep[i];
    printf(wrong ? " WRONG-OVERLOAD\n" : "\n");
    fflush(stdout);
  }
  return 0;
}
int main(int, char** argv) {
  std::string s = argv[1];
  if (s == "void") return run<SigVoid>(0);
  if (s == "move") return run<SigMove>(0);
  if (s == "ref") return run<SigRef>(0);
  return run<SigInt>(atoi(argv[2]));
}
