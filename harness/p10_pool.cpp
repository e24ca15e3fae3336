// PoolResource / PoolAllocator under spec/Pool.tla, and deep expressions under spec/Deep.tla.
#include <pthread.h>

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <map>
#include <memory>
#include <new>
#include <optional>
#include <sstream>
#include <string>
#include <vector>

#include <sleipnir/autodiff/gradient.hpp>
#include <sleipnir/autodiff/hessian.hpp>
#include <sleipnir/autodiff/jacobian.hpp>
#include <sleipnir/autodiff/variable.hpp>
#include <sleipnir/autodiff/variable_matrix.hpp>
#include <sleipnir/util/pool.hpp>

// Every allocation made while watching is recorded, so that "inside the memory the pool owns" can be judged.
template <typename T>
struct Malloc {
  using value_type = T;
  Malloc() = default;
  template <typename U>
  Malloc(const Malloc<U>&) {}
  T* allocate(size_t n) { return static_cast<T*>(std::malloc(n * sizeof(T))); }
  void deallocate(T* p, size_t) { std::free(p); }
  bool operator==(const Malloc&) const { return true; }
};
using Regions = std::map<char*, size_t, std::less<char*>, Malloc<std::pair<char* const, size_t>>>;
static Regions* arrays = nullptr;
static bool watch = false;
static void* get(size_t n) {
  char* p = static_cast<char*>(std::malloc(n));
  if (watch) (*arrays)[p] = n;
  return p;
}
static void put(void* p) {
  if (watch) arrays->erase(static_cast<char*>(p));
  std::free(p);
}
void* operator new[](size_t n) { return get(n); }
void* operator new(size_t n) { return get(n); }
void operator delete[](void* p) noexcept { put(p); }
void operator delete[](void* p, size_t) noexcept { put(p); }
void operator delete(void* p) noexcept { put(p); }
void operator delete(void* p, size_t) noexcept { put(p); }

struct Block {
  char* p;
  size_t n;
  unsigned char tag;
};

static std::string judge(const std::vector<Block>& live) {
  for (size_t i = 0; i < live.size(); ++i) {
    auto it = arrays->upper_bound(live[i].p);
    if (it == arrays->begin()) return "outside";
    --it;
    if (live[i].p + live[i].n > it->first + it->second) return "outside";
    for (size_t j = 0; j < i; ++j)
      if (live[i].p < live[j].p + live[j].n && live[j].p < live[i].p + live[i].n) return "overlap";
    for (size_t k = 0; k < live[i].n; ++k)
      if (static_cast<unsigned char>(live[i].p[k]) != live[i].tag) return "clobbered";
  }
  return "ok";
}

using V = slp::Variable<double>;
using VM = slp::VariableMatrix<double>;

struct Job {
  std::string shape, deriv, order;
  int n;
  double x0;
  std::string out;
};

static void deep(Job& j) {
  auto& pool = slp::global_pool_resource();
  size_t base = pool.blocks_in_use();
  char buf[200];
  double v, gx = 0, gy = 0, again;
  {
    std::optional<V> x{std::in_place}, y{std::in_place};
    x->set_value(j.x0);
    y->set_value(1);
    std::optional<V> e{*x};
    std::vector<V> keep;
    if (j.shape == "wide") {
      e = V{0.0};
      for (int i = 0; i < j.n; ++i) keep.push_back(*x * *y);
      for (auto& k : keep) *e += k;
    }
    V a = *x, b = *y;
    for (int i = 0; i < j.n; ++i) {
      if (j.shape == "addl") e = *e + *y;
      if (j.shape == "comp") *e += *y;
      if (j.shape == "subr") e = *y - *e;
      if (j.shape == "mul") e = *e * *y;
      if (j.shape == "square") e = *e * *e;
      if (j.shape == "sin") e = slp::sin(*e);
      if (j.shape == "neg") e = -*e;
      if (j.shape == "ladder") {
        V t = (a + b) * 0.5;
        a = b;
        b = t;
        e = b;
      }
    }
    a = V{0.0};
    b = V{0.0};
    v = e->value();
    VM wrt{slp::detail::empty, 2, 1};
    wrt[0] = *x;
    wrt[1] = *y;
    std::optional<slp::Gradient<double>> g;
    std::optional<slp::Jacobian<double>> jac;
    std::optional<slp::Hessian<double>> h;
    std::optional<VM> sym;
    if (j.deriv == "grad" || j.deriv == "gradsym") {
      g.emplace(*e, wrt);
      Eigen::VectorXd d = g->value();
      gx = d(0);
      gy = d(1);
      if (j.deriv == "gradsym") {
        sym = g->get();
        gx = (*sym)[0].value();
        gy = (*sym)[1].value();
      }
    }
    if (j.deriv == "jac") {
      jac.emplace(VM{*e}, wrt);
      Eigen::MatrixXd d = jac->value();
      gx = d(0, 0);
      gy = d(0, 1);
    }
    if (j.deriv == "hess") {
      h.emplace(*e, wrt);
      (void)h->value();
    }
    again = e->value();
    auto drop_deriv = [&] {
      sym.reset();
      g.reset();
      jac.reset();
      h.reset();
      wrt = VM{slp::detail::empty, 0, 0};
    };
    if (j.order == "root") {
      e.reset();
      drop_deriv();
      x.reset();
      keep.clear();
      y.reset();
    } else if (j.order == "leaf") {
      x.reset();
      y.reset();
      keep.clear();
      drop_deriv();
      e.reset();
    } else {
      drop_deriv();
      keep.clear();
      e.reset();
    }
  }
  std::snprintf(buf, sizeof buf, "%a %a %a %a %ld", v, again, gx, gy, long(pool.blocks_in_use()) - long(base));
  j.out = buf;
}

static void* deep_thread(void* p) {
  deep(*static_cast<Job*>(p));
  return nullptr;
}

template <typename S>
static void mixed_touch(std::vector<double>& out) {
  slp::Variable<S> x, y;
  x.set_value(S(3));
  y.set_value(S(4));
  auto e = x * y + x;
  out.push_back(double(e.value()));
  slp::Gradient<S> g{e, x};
  out.push_back(double(Eigen::VectorX<S>{g.value()}(0)));
}

int main() {
  arrays = new Regions;
  std::vector<char*> touched;
  std::optional<slp::PoolResource> pools[2];
  int home = 0;
  std::vector<Block> live;
  unsigned char tag = 1;
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream in{line};
    std::string c;
    in >> c;
    if (c == "N") {  // N blocks_per_chunk
      int b;
      in >> b;
      live.clear();
      pools[0].reset();
      pools[1].reset();
      arrays->clear();
      touched.clear();
      watch = true;
      pools[0].emplace(size_t(b));
      home = 0;
      std::printf("ok\n");
    } else if (c == "a" || c == "f" || c == "m") {
      size_t arg;
      in >> arg;
      if (c == "a") {
        slp::PoolAllocator<char> al{&*pools[home]};
        Block b{al.allocate(arg), arg, tag++};
        watch = false;
        live.push_back(b);
        // which of the pool's regions have served blocks
        auto it = arrays->upper_bound(b.p);
        if (it != arrays->begin() && b.p + b.n <= std::prev(it)->first + std::prev(it)->second) {
          std::memset(b.p, b.tag, b.n);
          char* r = std::prev(it)->first;
          bool seen = false;
          for (char* t : touched) seen |= t == r;
          if (!seen) touched.push_back(r);
        }
      } else if (c == "f") {
        watch = false;
        Block gone = live[arg - 1];
        live.erase(live.begin() + (arg - 1));
        watch = true;
        slp::PoolAllocator<char> al{&*pools[home]};
        al.deallocate(gone.p, gone.n);
      } else {
        if (!pools[1 - home]) {
          pools[1 - home].emplace(std::move(*pools[home]));
        } else {
          *pools[1 - home] = std::move(*pools[home]);
        }
        home = 1 - home;
      }
      watch = false;
      std::string s = judge(live);
      watch = true;
      std::printf("%s %zu %zu %d %d\n", s.c_str(), pools[home]->blocks_in_use(), touched.size(), int(pools[home]->is_equal(*pools[home])),
                  int(pools[1 - home] && pools[home]->is_equal(*pools[1 - home])));
    } else if (c == "D") {  // D shape n deriv order x0
      watch = false;
      Job j;
      in >> j.shape >> j.n >> j.deriv >> j.order >> j.x0;
      pthread_attr_t at;
      pthread_attr_init(&at);
      pthread_attr_setstacksize(&at, 512 * 1024);
      pthread_t t;
      pthread_create(&t, &at, deep_thread, &j);
      pthread_join(t, nullptr);
      std::printf("%s\n", j.out.c_str());
    } else if (c == "X") {  // mixed scalar types in one thread's pool
      watch = false;
      int order;
      in >> order;
      size_t base = slp::global_pool_resource().blocks_in_use();
      std::vector<double> out;
      {
        slp::Variable<double> kd;
        slp::Variable<float> kf;
        slp::Variable<long double> kl;
        kd.set_value(1.5);
        kf.set_value(2.5f);
        kl.set_value(3.5L);
        for (int i = 0; i < 6; ++i) {
          switch ((order / (i < 3 ? 1 : 7) + i) % 3) {
            case 0: mixed_touch<float>(out); break;
            case 1: mixed_touch<double>(out); break;
            default: mixed_touch<long double>(out); break;
          }
        }
        auto d = kd * kd;
        auto f = kf * kf;
        auto l = kl * kl;
        out.push_back(d.value());
        out.push_back(f.value());
        out.push_back(double(l.value()));
      }
      for (double d : out) std::printf("%g ", d);
      std::printf("%ld\n", long(slp::global_pool_resource().blocks_in_use()) - long(base));
    }
    std::fflush(stdout);
  }
}
