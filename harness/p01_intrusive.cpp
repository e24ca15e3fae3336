// Conformance harness for spec/Intrusive.tla: replays handle operations on slp::IntrusiveSharedPtr.
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <memory>
#include <new>
#include <sstream>
#include <string>
#include <vector>
#include <algorithm>
#include <sleipnir/util/intrusive_shared_ptr.hpp>

struct Base;
static std::vector<int> g_log;          // destruction events of the current step
static int g_double = 0;                // destructions of an already destroyed object
static Base* g_live[16];
static uint32_t g_constructed = 0;
static bool g_alloc[16];

struct Base {
  uint32_t cnt = 0;
  int id;
  slp::IntrusiveSharedPtr<Base> next;
  explicit Base(int id) : id{id} { g_live[id] = this; ++g_constructed; }
  virtual ~Base() {
    if (g_live[id] != this) ++g_double;
    g_live[id] = nullptr;
    g_log.push_back(id);
  }
};
struct Derived : Base {
  long pad[3] = {1, 2, 3};
  using Base::Base;
};
// allocator that counts and checks pairing by plain new/delete storage
template <typename T>
struct Alloc {
  using value_type = T;
  Alloc() = default;
  template <typename U>
  Alloc(const Alloc<U>&) {}
  T* allocate(std::size_t n) { return static_cast<T*>(::operator new(n * sizeof(T))); }
  void deallocate(T* p, std::size_t) { ::operator delete(p); }
};
inline void inc_ref_count(Base* b) { ++b->cnt; }
inline void dec_ref_count(Base* b) {
  if (b->cnt == 0) { printf("UNDERFLOW\n"); fflush(stdout); abort(); }
  if (--b->cnt == 0) {
    // storage from Alloc is given back unsized, whatever amount was asked for
    bool viaAlloc = g_alloc[b->id];
    void* top = dynamic_cast<void*>(b);
    if (viaAlloc) { b->~Base(); ::operator delete(top); }
    else delete b;
  }
}
using PB = slp::IntrusiveSharedPtr<Base>;
using PD = slp::IntrusiveSharedPtr<Derived>;

static int NB, ND;
struct Slot { alignas(16) unsigned char mem[sizeof(PB)]; bool live = false; };
static Slot slots[16];
static bool isD(int h) { return h > NB; }
static PB& B(int h) { return *std::launder(reinterpret_cast<PB*>(slots[h].mem)); }
static PD& D(int h) { return *std::launder(reinterpret_cast<PD*>(slots[h].mem)); }
static Base* get(int h) { return isD(h) ? static_cast<Base*>(D(h).get()) : B(h).get(); }
static void destroy(int h) {
  if (isD(h)) D(h).~PD(); else B(h).~PB();
  slots[h].live = false;
}

template <typename A, typename X>
concept ConvMove = requires(A a, X x) { a = std::move(x); };

static void report(int no) {
  std::string s;
  auto add = [&](long v) { s += std::to_string(v); s += ' '; };
  int n = NB + ND;
  for (int h = 1; h <= n; ++h) add(!slots[h].live ? -1 : get(h) ? get(h)->id : 0);
  s += "| ";
  for (int o = 1; o <= no; ++o) add(g_live[o] ? (g_live[o]->next.get() ? g_live[o]->next->id : 0) : 0);
  s += "| ";
  for (int o = 1; o <= no; ++o) add(g_live[o] ? 1 : 0);
  s += "| ";
  for (int o = 1; o <= no; ++o) add(g_live[o] ? (long)g_live[o]->cnt : 0);
  s += "| ";
  std::sort(g_log.begin(), g_log.end());
  for (int o : g_log) add(o);
  if (g_double) s += "DOUBLE ";
  g_log.clear();
  // handle observers must agree with each other
  auto chk = [&](auto& p, auto& q) {
    if ((p == q) != (p.get() == q.get())) s += "EQ! ";
    if ((p != q) != (p.get() != q.get())) s += "NE! ";
  };
  auto one = [&](auto& p) {
    const auto& c = p;
    if (static_cast<bool>(c) != (c.get() != nullptr)) s += "BOOL! ";
    if ((c == nullptr) != (c.get() == nullptr)) s += "EQN! ";
    if ((nullptr == c) != (c.get() == nullptr)) s += "NEQ! ";
    if ((c != nullptr) != (c.get() != nullptr)) s += "NEN! ";
    if ((nullptr != c) != (c.get() != nullptr)) s += "NNE! ";
    if (c.get() && (&*c != c.get() || c.operator->() != c.get())) s += "DEREF! ";
  };
  for (int h = 1; h <= n; ++h)
    if (slots[h].live) {
      if (isD(h)) one(D(h)); else one(B(h));
      for (int g = 1; g <= n; ++g)
        if (slots[g].live && isD(g) == isD(h)) { if (isD(h)) chk(D(h), D(g)); else chk(B(h), B(g)); }
    }
  puts(s.c_str());
}

int main(int argc, char** argv) {
  NB = atoi(argv[1]);
  ND = atoi(argv[2]);
  int OB = atoi(argv[3]), OD = atoi(argv[4]);
  int no = OB + OD;
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream in(line);
    std::string op, how;
    int h = 0, g = 0, o = 0;
    in >> op >> h >> g >> o >> how;
    void* m = slots[h].mem;
    if (op == "reset") {
      for (int i = 1; i <= NB + ND; ++i) if (slots[i].live) destroy(i);
      // break leaked cycles through the public interface
      for (int i = 1; i <= no; ++i)
        if (g_live[i]) { PB keep{g_live[i]}; PB n = std::move(keep->next); }
      for (int i = 1; i <= no; ++i) g_live[i] = nullptr;
      g_log.clear();
      g_double = 0;
      report(no);
      continue;
    } else if (op == "make") {
      bool od = o > OB;
      g_alloc[o] = how == "alloc";
      if (isD(h)) {
        if (how == "new") new (m) PD{new Derived(o)};
        else if (how == "make") new (m) PD{slp::make_intrusive_shared<Derived>(o)};
        else new (m) PD{slp::allocate_intrusive_shared<Derived>(Alloc<Derived>{}, o)};
      } else {
        if (how == "new") new (m) PB{od ? static_cast<Base*>(new Derived(o)) : new Base(o)};
        else if (how == "make") new (m) PB{slp::make_intrusive_shared<Base>(o)};
        else new (m) PB{slp::allocate_intrusive_shared<Base>(Alloc<Base>{}, o)};
      }
      slots[h].live = true;
    } else if (op == "adopt") {
      if (isD(h)) new (m) PD{D(g).get()}; else new (m) PB{get(g)};
      slots[h].live = true;
    } else if (op == "empty") {
      if (isD(h)) {
        if (how == "default") new (m) PD{}; else if (how == "nullptr") new (m) PD{nullptr}; else new (m) PD{static_cast<Derived*>(nullptr)};
      } else {
        if (how == "default") new (m) PB{}; else if (how == "nullptr") new (m) PB{nullptr}; else new (m) PB{static_cast<Base*>(nullptr)};
      }
      slots[h].live = true;
    } else if (op == "copyctor") {
      if (isD(h)) new (m) PD{D(g)}; else if (isD(g)) new (m) PB{D(g)}; else new (m) PB{B(g)};
      slots[h].live = true;
    } else if (op == "movector") {
      if (isD(h)) new (m) PD{std::move(D(g))}; else if (isD(g)) new (m) PB{std::move(D(g))}; else new (m) PB{std::move(B(g))};
      slots[h].live = true;
    } else if (op == "copy") {
      if (isD(h)) D(h) = D(g); else if (isD(g)) B(h) = D(g); else B(h) = B(g);
    } else if (op == "move") {
      if (isD(h)) D(h) = std::move(D(g)); else B(h) = std::move(B(g));
    } else if (op == "convmove") {
      B(h) = std::move(D(g));
    } else if (op == "swap") {
      if (isD(h)) std::swap(D(h), D(g)); else std::swap(B(h), B(g));
    } else if (op == "null") {
      if (isD(h)) D(h) = nullptr; else B(h) = nullptr;
    } else if (op == "drop") {
      destroy(h);
    } else if (op == "setnext") {
      PB& n = get(h)->next;
      if (isD(g)) n = D(g); else n = B(g);
    } else if (op == "movenext") {
      PB& n = get(h)->next;
      n = std::move(B(g));
    } else if (op == "nullnext") {
      get(h)->next = nullptr;
    } else if (op == "fromnext") {
      B(h) = get(g)->next;
    } else if (op == "movefromnext") {
      B(h) = std::move(get(g)->next);
    } else if (op == "ctornext") {
      new (m) PB{get(g)->next};
      slots[h].live = true;
    } else if (op == "skipnext") {
      get(h)->next = get(h)->next->next;
    } else {
      printf("?? %s\n", op.c_str());
      return 3;
    }
    report(no);
    fflush(stdout);
  }
  return 0;
}
