// vsycl: a host only stand-in for the SYCL runtime with a controllable and
// deliberately unhelpful scheduler.
//
// NESO-Particles is compiled, unmodified, against this header instead of the
// vendor runtime. Everything SYCL leaves unspecified is a seeded choice here:
//   * the order work items and work groups run in,
//   * when a command of an out of order queue runs relative to the other
//     commands it was not ordered against (commands may be deferred until
//     something waits for them),
//   * the initial contents of USM allocations and of local memory,
//   * the order in which fibers of a work group leave a barrier.
// A mode with real threads exists to expose non atomic read-modify-write.
#ifndef VSYCL_SYCL_HPP
#define VSYCL_SYCL_HPP
#define VSYCL 1
#define SYCL_LANGUAGE_VERSION 202001

#include <malloc.h>
#include <deque>
#include <algorithm>
#include <array>
#include <atomic>
#include <cassert>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <limits>
#include <memory>
#include <numeric>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <thread>
#include <tuple>
#include <type_traits>
#include <ucontext.h>
#include <utility>
#include <vector>

namespace vsycl {

struct Config {
  std::uint64_t seed = 1;
  // work item order: 0 forward, 1 reverse, 2 seeded permutation
  int order = 2;
  // probability (percent) that a command of an out of order queue is deferred
  int defer = 50;
  // number of OS threads that execute the work items of a kernel
  int threads = 1;
  // pretend device properties
  bool cpu = true;
  std::size_t max_work_group_size = 4096;
  std::size_t local_mem_size = 65536;
  int max_compute_units = 8;
  int poison = 0x7F;
  Config() {
    auto get = [](const char *n, long d) -> long {
      const char *s = std::getenv(n);
      return s ? std::atol(s) : d;
    };
    seed = get("VSYCL_SEED", 1);
    poison = (int)get("VSYCL_POISON", 0x7F);
    order = get("VSYCL_ORDER", 2);
    defer = get("VSYCL_DEFER", 50);
    threads = get("VSYCL_THREADS", 1);
    cpu = get("VSYCL_CPU", 1);
  }
};

inline Config &config() {
  static Config c;
  return c;
}

struct Rng {
  std::uint64_t s;
  explicit Rng(std::uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 1) {}
  std::uint64_t next() {
    s += 0x9E3779B97F4A7C15ull;
    std::uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  std::size_t below(std::size_t n) { return n ? next() % n : 0; }
};

inline Rng &rng() {
  static Rng r(config().seed);
  return r;
}
inline void reseed(std::uint64_t s) {
  config().seed = s;
  rng() = Rng(s);
}

struct Stats {
  std::uint64_t commands = 0, deferred = 0, reordered = 0, kernels = 0,
                fibers = 0, barriers = 0;
};
inline Stats &stats() {
  static Stats s;
  return s;
}

// A cheap bijection on [0, n) chosen by the configuration.
struct Permutation {
  std::size_t n, a, b;
  int mode;
  Permutation(std::size_t n_, int mode_, std::uint64_t seed)
      : n(n_), a(1), b(0), mode(mode_) {
    if (mode == 2 && n > 1) {
      Rng r(seed);
      b = r.below(n);
      do {
        a = 1 + r.below(n);
      } while (std::gcd(a, n) != 1);
    }
  }
  std::size_t operator()(std::size_t i) const {
    if (mode == 0)
      return i;
    if (mode == 1)
      return n - 1 - i;
    return static_cast<std::size_t>(
        (static_cast<unsigned __int128>(a) * i + b) % n);
  }
};

// ---------------------------------------------------------------- fibers
// A work group runs on fibers so that any item may wait at a barrier. An item
// which never meets a barrier costs no extra fiber.
struct Fiber {
  ucontext_t ctx;
  void *stack = nullptr;
  bool done = true;
  bool fresh = true;
};

// the drivers are small: a range like this is a wrapped around size
inline void plausible(std::size_t n) {
  if (n > 50000000) {
    std::fprintf(stderr, "vsycl: implausible range of %zu work items\n", n);
    std::abort();
  }
}

struct GroupRunner;
inline thread_local GroupRunner *tl_runner = nullptr;

struct GroupRunner {
  static constexpr std::size_t stack_size = 256 * 1024;
  std::vector<Fiber *> pool;
  std::vector<Fiber *> waiting, arrived;
  ucontext_t main_ctx;
  Fiber *current = nullptr;
  const std::function<void(std::size_t)> *body = nullptr;
  std::size_t next = 0, n = 0;
  Permutation perm{1, 0, 0};
  // local memory of the running group
  std::vector<char> local;
  // scratch for group algorithms
  std::vector<unsigned char> scratch;
  std::vector<std::size_t> item_of_fiber;
  std::size_t group_size = 0;

  ~GroupRunner() {
    for (auto f : pool) {
      if (f->stack)
        munmap(f->stack, stack_size);
      delete f;
    }
  }

  static void entry() {
    for (;;) {
      GroupRunner *r = tl_runner;
      while (r->next < r->n) {
        const std::size_t i = r->next++;
        (*r->body)(r->perm(i));
      }
      r->current->done = true;
      swapcontext(&r->current->ctx, &r->main_ctx);
    }
  }

  Fiber *acquire() {
    Fiber *f;
    if (pool.empty()) {
      f = new Fiber();
      f->stack = mmap(nullptr, stack_size, PROT_READ | PROT_WRITE,
                      MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
      stats().fibers++;
      getcontext(&f->ctx);
      f->ctx.uc_stack.ss_sp = f->stack;
      f->ctx.uc_stack.ss_size = stack_size;
      f->ctx.uc_link = nullptr;
      makecontext(&f->ctx, entry, 0);
    } else {
      f = pool.back();
      pool.pop_back();
    }
    f->done = false;
    return f;
  }

  void resume(Fiber *f) {
    current = f;
    swapcontext(&main_ctx, &f->ctx);
    current = nullptr;
    if (f->done) {
      pool.push_back(f);
    } else {
      arrived.push_back(f);
    }
  }

  void run(std::size_t n_, const Permutation &p,
           const std::function<void(std::size_t)> &b) {
    GroupRunner *outer = tl_runner;
    tl_runner = this;
    body = &b;
    n = n_;
    next = 0;
    perm = p;
    group_size = n_;
    arrived.clear();
    while (next < n) {
      resume(acquire());
    }
    Rng r(p.a * 31 + p.b + n);
    while (!arrived.empty()) {
      waiting.swap(arrived);
      arrived.clear();
      // leave the barrier in a seeded order
      if (config().order == 2) {
        for (std::size_t i = waiting.size(); i > 1; i--)
          std::swap(waiting[i - 1], waiting[r.below(i)]);
      } else if (config().order == 1) {
        std::reverse(waiting.begin(), waiting.end());
      }
      for (auto f : waiting)
        resume(f);
      waiting.clear();
    }
    tl_runner = outer;
  }

  void barrier() {
    stats().barriers++;
    Fiber *me = current;
    swapcontext(&me->ctx, &main_ctx);
  }
};

inline GroupRunner &thread_runner() {
  static thread_local GroupRunner r;
  return r;
}

template <typename F>
inline void for_threads(std::size_t n, const Permutation &perm, F &&f) {
  const int T = config().threads;
  if (T <= 1 || n < 2) {
    for (std::size_t i = 0; i < n; i++)
      f(perm(i));
    return;
  }
  std::vector<std::thread> ts;
  std::atomic<int> ready{0};
  for (int t = 0; t < T; t++) {
    ts.emplace_back([&, t]() {
      ready++;
      while (ready.load() < T) {
      }
      for (std::size_t i = t; i < n; i += T)
        f(perm(i));
    });
  }
  for (auto &t : ts)
    t.join();
}

// -------------------------------------------------------------- commands
struct Command {
  std::function<void()> fn;
  bool done = false;
  bool in_order = false;
  std::vector<std::shared_ptr<Command>> deps;
};
using CommandPtr = std::shared_ptr<Command>;

struct QueueState {
  bool in_order = false;
  std::vector<CommandPtr> pending;

  void execute(CommandPtr c) {
    if (c->done) {
      auto it = std::find(pending.begin(), pending.end(), c);
      if (it != pending.end())
        pending.erase(it);
      return;
    }
    if (in_order) {
      // everything submitted before c
      while (!pending.empty()) {
        CommandPtr p = pending.front();
        pending.erase(pending.begin());
        run_now(p);
        if (p == c)
          return;
      }
    }
    for (auto &d : c->deps)
      execute_dep(d);
    if (c->done)
      return;
    auto it = std::find(pending.begin(), pending.end(), c);
    if (it != pending.end()) {
      if (it != pending.begin())
        stats().reordered++;
      pending.erase(it);
    }
    run_now(c);
  }
  void execute_dep(const CommandPtr &d) {
    if (!d->done)
      execute(d);
  }
  void run_now(CommandPtr c) {
    if (c->done)
      return;
    for (auto &d : c->deps)
      execute_dep(d);
    c->done = true;
    auto fn = std::move(c->fn);
    c->fn = nullptr;
    fn();
  }
  void drain() {
    while (!pending.empty()) {
      const std::size_t i = in_order ? 0 : rng().below(pending.size());
      CommandPtr c = pending[i];
      execute(c);
    }
  }
  CommandPtr submit(std::function<void()> fn, std::vector<CommandPtr> deps) {
    auto c = std::make_shared<Command>();
    c->fn = std::move(fn);
    c->deps = std::move(deps);
    stats().commands++;
    const bool defer =
        static_cast<int>(rng().below(100)) < config().defer;
    if (in_order) {
      pending.push_back(c);
      if (!defer)
        execute(c);
      return c;
    }
    if (defer) {
      stats().deferred++;
      pending.push_back(c);
      // Something else may make progress instead.
      if (rng().below(4) == 0)
        execute(pending[rng().below(pending.size())]);
    } else {
      run_now(c);
    }
    return c;
  }
};

inline std::vector<std::weak_ptr<QueueState>> &all_queues() {
  static std::vector<std::weak_ptr<QueueState>> q;
  return q;
}

} // namespace vsycl

namespace sycl {

enum class memory_order : int { relaxed, acquire, consume_unsupported, release, acq_rel, seq_cst };
enum class memory_scope : int { work_item, sub_group, work_group, device, system };
inline constexpr auto memory_scope_device = memory_scope::device;
namespace access {
enum class fence_space : int { local_space, global_space, global_and_local };
enum class address_space : int {
  global_space, local_space, constant_space, private_space, generic_space };
enum class decorated : int { no, yes, legacy };
} // namespace access
enum class access_mode : int { read, write, read_write };

class exception : public std::exception {
  std::string msg;

public:
  exception() = default;
  explicit exception(const std::string &m) : msg(m) {}
  const char *what() const noexcept override { return msg.c_str(); }
};
class exception_list : public std::vector<std::exception_ptr> {};
using async_handler = std::function<void(exception_list)>;

// ------------------------------------------------------------ index types
template <int N, typename D> struct index_base {
  std::size_t v[N];
  index_base() : v{} {}
  std::size_t get(int d) const { return v[d]; }
  std::size_t &operator[](int d) { return v[d]; }
  std::size_t operator[](int d) const { return v[d]; }
  friend bool operator==(const D &a, const D &b) {
    for (int i = 0; i < N; i++)
      if (a.v[i] != b.v[i])
        return false;
    return true;
  }
  friend bool operator!=(const D &a, const D &b) { return !(a == b); }
#define VSYCL_OP(op)                                                           \
  friend D operator op(const D &a, const D &b) {                               \
    D r;                                                                       \
    for (int i = 0; i < N; i++)                                                \
      r.v[i] = a.v[i] op b.v[i];                                               \
    return r;                                                                  \
  }
  VSYCL_OP(+) VSYCL_OP(-) VSYCL_OP(*) VSYCL_OP(/) VSYCL_OP(%)
#undef VSYCL_OP
};

template <int N = 1> struct range : index_base<N, range<N>> {
  range() = default;
  template <int M = N, typename = std::enable_if_t<M == 1>>
  range(std::size_t a) { this->v[0] = a; }
  template <int M = N, typename = std::enable_if_t<M == 2>>
  range(std::size_t a, std::size_t b) { this->v[0] = a; this->v[1] = b; }
  template <int M = N, typename = std::enable_if_t<M == 3>>
  range(std::size_t a, std::size_t b, std::size_t c) {
    this->v[0] = a; this->v[1] = b; this->v[2] = c;
  }
  std::size_t size() const {
    std::size_t s = 1;
    for (int i = 0; i < N; i++)
      s *= this->v[i];
    return s;
  }
};
range(std::size_t) -> range<1>;
range(std::size_t, std::size_t) -> range<2>;
range(std::size_t, std::size_t, std::size_t) -> range<3>;

template <int N = 1> struct id : index_base<N, id<N>> {
  id() = default;
  template <int M = N, typename = std::enable_if_t<M == 2>>
  id(std::size_t a, std::size_t b) { this->v[0] = a; this->v[1] = b; }
  template <int M = N, typename = std::enable_if_t<M == 3>>
  id(std::size_t a, std::size_t b, std::size_t c) {
    this->v[0] = a; this->v[1] = b; this->v[2] = c;
  }
  id(const range<N> &r) { for (int i = 0; i < N; i++) this->v[i] = r[i]; }
};
// Arithmetic on a one dimensional id is arithmetic on its value.
template <> struct id<1> {
  std::size_t v0 = 0;
  id() = default;
  id(std::size_t a) : v0(a) {}
  id(const range<1> &r) : v0(r[0]) {}
  std::size_t get(int) const { return v0; }
  std::size_t &operator[](int) { return v0; }
  std::size_t operator[](int) const { return v0; }
  operator std::size_t() const { return v0; }
};
id(std::size_t) -> id<1>;
id(std::size_t, std::size_t) -> id<2>;
id(std::size_t, std::size_t, std::size_t) -> id<3>;

template <int N> struct nd_range {
  range<N> g, l;
  id<N> o;
  nd_range(range<N> g, range<N> l, id<N> o = id<N>()) : g(g), l(l), o(o) {}
  range<N> get_global_range() const { return g; }
  range<N> get_local_range() const { return l; }
  range<N> get_group_range() const { return g / l; }
  id<N> get_offset() const { return o; }
};

template <int N> inline id<N> vs_delinear(std::size_t lin, const range<N> &r) {
  id<N> i;
  for (int d = N - 1; d >= 0; d--) {
    i[d] = lin % r[d];
    lin /= r[d];
  }
  return i;
}
template <int N>
inline std::size_t vs_linear(const id<N> &i, const range<N> &r) {
  std::size_t l = 0;
  for (int d = 0; d < N; d++)
    l = l * r[d] + i[d];
  return l;
}

template <int N = 1, bool O = true> struct item {
  id<N> i;
  range<N> r;
  id<N> get_id() const { return i; }
  std::size_t get_id(int d) const { return i[d]; }
  std::size_t operator[](int d) const { return i[d]; }
  range<N> get_range() const { return r; }
  std::size_t get_range(int d) const { return r[d]; }
  std::size_t get_linear_id() const { return vs_linear(i, r); }
  operator id<N>() const { return i; }
};
template <bool O> struct item<1, O> {
  id<1> i;
  range<1> r;
  id<1> get_id() const { return i; }
  std::size_t get_id(int) const { return i[0]; }
  std::size_t operator[](int) const { return i[0]; }
  range<1> get_range() const { return r; }
  std::size_t get_range(int) const { return r[0]; }
  std::size_t get_linear_id() const { return i[0]; }
  operator id<1>() const { return i; }
  operator std::size_t() const { return i[0]; }
};

inline void vs_barrier() {
  if (vsycl::tl_runner)
    vsycl::tl_runner->barrier();
}

template <int N = 1> struct group {
  static constexpr int dimensions = N;
  id<N> gid, lid;
  range<N> lr, gr;
  id<N> get_group_id() const { return gid; }
  std::size_t get_group_id(int d) const { return gid[d]; }
  id<N> get_id() const { return gid; }
  std::size_t get_id(int d) const { return gid[d]; }
  std::size_t operator[](int d) const { return gid[d]; }
  id<N> get_local_id() const { return lid; }
  std::size_t get_local_id(int d) const { return lid[d]; }
  range<N> get_local_range() const { return lr; }
  std::size_t get_local_range(int d) const { return lr[d]; }
  range<N> get_group_range() const { return gr; }
  std::size_t get_group_range(int d) const { return gr[d]; }
  range<N> get_max_local_range() const { return lr; }
  std::size_t get_group_linear_id() const { return vs_linear(gid, gr); }
  std::size_t get_local_linear_id() const { return vs_linear(lid, lr); }
  std::size_t get_local_linear_range() const { return lr.size(); }
  std::size_t get_group_linear_range() const { return gr.size(); }
  bool leader() const { return get_local_linear_id() == 0; }
};

struct sub_group {
  std::size_t get_local_linear_id() const { return 0; }
  std::size_t get_local_linear_range() const { return 1; }
  id<1> get_local_id() const { return id<1>(0); }
  range<1> get_local_range() const { return range<1>(1); }
  bool leader() const { return true; }
};

template <int N = 1> struct nd_item {
  id<N> gid, lid, grp;
  range<N> gr, lr;
  id<N> get_global_id() const { return gid; }
  std::size_t get_global_id(int d) const { return gid[d]; }
  std::size_t get_global_linear_id() const { return vs_linear(gid, gr); }
  id<N> get_local_id() const { return lid; }
  std::size_t get_local_id(int d) const { return lid[d]; }
  std::size_t get_local_linear_id() const { return vs_linear(lid, lr); }
  group<N> get_group() const { return group<N>{grp, lid, lr, gr / lr}; }
  std::size_t get_group(int d) const { return grp[d]; }
  std::size_t get_group_linear_id() const { return vs_linear(grp, gr / lr); }
  range<N> get_group_range() const { return gr / lr; }
  std::size_t get_group_range(int d) const { return gr[d] / lr[d]; }
  range<N> get_global_range() const { return gr; }
  std::size_t get_global_range(int d) const { return gr[d]; }
  range<N> get_local_range() const { return lr; }
  std::size_t get_local_range(int d) const { return lr[d]; }
  nd_range<N> get_nd_range() const { return nd_range<N>(gr, lr); }
  sub_group get_sub_group() const { return {}; }
  void barrier(access::fence_space = access::fence_space::global_and_local) const {
    vs_barrier();
  }
};

template <typename G> inline void group_barrier(G, memory_scope = memory_scope::work_group) {
  vs_barrier();
}
inline void group_barrier(sub_group, memory_scope = memory_scope::work_group) {}
inline void atomic_fence(memory_order, memory_scope) {
  __atomic_thread_fence(__ATOMIC_SEQ_CST);
}

// ------------------------------------------------------------ functors
template <typename T = void> struct plus {
  T operator()(const T &a, const T &b) const { return a + b; }
};
template <> struct plus<void> {
  template <typename A, typename B> auto operator()(const A &a, const B &b) const { return a + b; }
};
template <typename T = void> struct multiplies {
  T operator()(const T &a, const T &b) const { return a * b; }
};
template <> struct multiplies<void> {
  template <typename A, typename B> auto operator()(const A &a, const B &b) const { return a * b; }
};
template <typename T = void> struct minimum {
  T operator()(const T &a, const T &b) const { return b < a ? b : a; }
};
template <> struct minimum<void> {
  template <typename A> A operator()(const A &a, const A &b) const { return b < a ? b : a; }
};
template <typename T = void> struct maximum {
  T operator()(const T &a, const T &b) const { return a < b ? b : a; }
};
template <> struct maximum<void> {
  template <typename A> A operator()(const A &a, const A &b) const { return a < b ? b : a; }
};
template <typename T = void> struct bit_or {
  T operator()(const T &a, const T &b) const { return a | b; }
};
template <typename T = void> struct bit_and {
  T operator()(const T &a, const T &b) const { return a & b; }
};
template <typename T = void> struct logical_or {
  bool operator()(const T &a, const T &b) const { return a || b; }
};
template <typename T = void> struct logical_and {
  bool operator()(const T &a, const T &b) const { return a && b; }
};

template <typename OP, typename T> struct vs_identity;
template <typename U, typename T> struct vs_identity<plus<U>, T> {
  static T get() { return T(0); }
};
template <typename U, typename T> struct vs_identity<multiplies<U>, T> {
  static T get() { return T(1); }
};
template <typename U, typename T> struct vs_identity<minimum<U>, T> {
  static T get() {
    return std::numeric_limits<T>::has_infinity ? std::numeric_limits<T>::infinity()
                                                : std::numeric_limits<T>::max();
  }
};
template <typename U, typename T> struct vs_identity<maximum<U>, T> {
  static T get() {
    return std::numeric_limits<T>::has_infinity ? -std::numeric_limits<T>::infinity()
                                                : std::numeric_limits<T>::lowest();
  }
};
template <typename U, typename T> struct vs_identity<bit_or<U>, T> {
  static T get() { return T(0); }
};
template <typename OP, typename T>
inline constexpr bool has_known_identity_v = true;
template <typename OP, typename T> struct known_identity {
  static inline const T value = vs_identity<OP, T>::get();
};

// ------------------------------------------------------- group algorithms
template <typename G, typename T, typename OP>
inline T reduce_over_group(G g, T x, OP op) {
  auto *r = vsycl::tl_runner;
  const std::size_t n = g.get_local_linear_range();
  if (n <= 1 || !r)
    return x;
  vs_barrier();
  if (r->scratch.size() < n * sizeof(T))
    r->scratch.resize(n * sizeof(T));
  std::memcpy(r->scratch.data() + g.get_local_linear_id() * sizeof(T), &x, sizeof(T));
  vs_barrier();
  T acc;
  std::memcpy(&acc, r->scratch.data(), sizeof(T));
  for (std::size_t i = 1; i < n; i++) {
    T y;
    std::memcpy(&y, r->scratch.data() + i * sizeof(T), sizeof(T));
    acc = op(acc, y);
  }
  vs_barrier();
  return acc;
}
template <typename G, typename T, typename OP>
inline T reduce_over_group(G g, T x, T init, OP op) {
  return op(init, reduce_over_group(g, x, op));
}
template <typename G, typename T> inline T group_broadcast(G g, T x, std::size_t src = 0) {
  auto *r = vsycl::tl_runner;
  const std::size_t n = g.get_local_linear_range();
  if (n <= 1 || !r)
    return x;
  vs_barrier();
  if (r->scratch.size() < sizeof(T))
    r->scratch.resize(sizeof(T));
  if (g.get_local_linear_id() == src)
    std::memcpy(r->scratch.data(), &x, sizeof(T));
  vs_barrier();
  T y;
  std::memcpy(&y, r->scratch.data(), sizeof(T));
  vs_barrier();
  return y;
}
template <typename G> inline bool any_of_group(G g, bool p) {
  return reduce_over_group(g, static_cast<int>(p), maximum<int>());
}
template <typename G> inline bool all_of_group(G g, bool p) {
  return reduce_over_group(g, static_cast<int>(p), minimum<int>());
}
template <typename G, typename T, typename OP>
inline T exclusive_scan_over_group(G g, T x, T init, OP op) {
  auto *r = vsycl::tl_runner;
  const std::size_t n = g.get_local_linear_range();
  if (n <= 1 || !r)
    return init;
  vs_barrier();
  if (r->scratch.size() < n * sizeof(T))
    r->scratch.resize(n * sizeof(T));
  std::memcpy(r->scratch.data() + g.get_local_linear_id() * sizeof(T), &x, sizeof(T));
  vs_barrier();
  T acc = init;
  for (std::size_t i = 0; i < g.get_local_linear_id(); i++) {
    T y;
    std::memcpy(&y, r->scratch.data() + i * sizeof(T), sizeof(T));
    acc = op(acc, y);
  }
  vs_barrier();
  return acc;
}
template <typename G, typename T, typename OP>
inline T exclusive_scan_over_group(G g, T x, OP op) {
  return exclusive_scan_over_group(g, x, vs_identity<OP, T>::get(), op);
}
template <typename G, typename T, typename OP>
inline T inclusive_scan_over_group(G g, T x, OP op) {
  return op(exclusive_scan_over_group(g, x, vs_identity<OP, T>::get(), op), x);
}
template <typename G, typename I, typename O, typename T, typename OP>
inline O joint_exclusive_scan(G g, I first, I last, O out, T init, OP op) {
  vs_barrier();
  if (g.get_local_linear_id() == 0) {
    T acc = init;
    for (; first != last; ++first, ++out) {
      auto v = *first;
      *out = acc;
      acc = op(acc, v);
    }
  }
  vs_barrier();
  return out;
}
template <typename G, typename I, typename O, typename OP>
inline O joint_exclusive_scan(G g, I first, I last, O out, OP op) {
  using T = std::remove_cv_t<std::remove_reference_t<decltype(*first)>>;
  return joint_exclusive_scan(g, first, last, out, vs_identity<OP, T>::get(), op);
}
template <typename G, typename I, typename O, typename OP, typename T>
inline O joint_inclusive_scan(G g, I first, I last, O out, OP op, T init) {
  vs_barrier();
  if (g.get_local_linear_id() == 0) {
    T acc = init;
    for (; first != last; ++first, ++out) {
      acc = op(acc, *first);
      *out = acc;
    }
  }
  vs_barrier();
  return out;
}
template <typename G, typename I, typename O, typename OP>
inline O joint_inclusive_scan(G g, I first, I last, O out, OP op) {
  using T = std::remove_cv_t<std::remove_reference_t<decltype(*first)>>;
  return joint_inclusive_scan(g, first, last, out, op, vs_identity<OP, T>::get());
}
template <typename G, typename I, typename OP>
inline auto joint_reduce(G, I first, I last, OP op) {
  using T = std::remove_cv_t<std::remove_reference_t<decltype(*first)>>;
  vs_barrier();
  T acc = vs_identity<OP, T>::get();
  for (; first != last; ++first)
    acc = op(acc, *first);
  vs_barrier();
  return acc;
}
template <typename G, typename I, typename T, typename OP>
inline T joint_reduce(G g, I first, I last, T init, OP op) {
  return op(init, joint_reduce(g, first, last, op));
}

// ---------------------------------------------------------------- atomics
template <typename T, memory_order MO, memory_scope MS,
          access::address_space AS = access::address_space::generic_space>
class atomic_ref {
  T *p;
  template <typename F> T rmw(F f) const {
    T o, n;
    __atomic_load(p, &o, __ATOMIC_RELAXED);
    do {
      n = f(o);
    } while (!__atomic_compare_exchange(p, &o, &n, true, __ATOMIC_RELAXED, __ATOMIC_RELAXED));
    return o;
  }

public:
  using value_type = T;
  explicit atomic_ref(T &r) : p(&r) {}
  atomic_ref(const atomic_ref &) = default;
  T load(memory_order = MO, memory_scope = MS) const {
    T o;
    __atomic_load(p, &o, __ATOMIC_RELAXED);
    return o;
  }
  void store(T v, memory_order = MO, memory_scope = MS) const {
    __atomic_store(p, &v, __ATOMIC_RELAXED);
  }
  T exchange(T v, memory_order = MO, memory_scope = MS) const {
    T o;
    __atomic_exchange(p, &v, &o, __ATOMIC_RELAXED);
    return o;
  }
  bool compare_exchange_strong(T &e, T d, memory_order = MO, memory_scope = MS) const {
    return __atomic_compare_exchange(p, &e, &d, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED);
  }
  bool compare_exchange_strong(T &e, T d, memory_order, memory_order, memory_scope = MS) const {
    return compare_exchange_strong(e, d);
  }
  bool compare_exchange_weak(T &e, T d, memory_order = MO, memory_scope = MS) const {
    return compare_exchange_strong(e, d);
  }
  bool compare_exchange_weak(T &e, T d, memory_order, memory_order, memory_scope = MS) const {
    return compare_exchange_strong(e, d);
  }
  T fetch_add(T v, memory_order = MO, memory_scope = MS) const {
    return rmw([=](T o) { return static_cast<T>(o + v); });
  }
  T fetch_sub(T v, memory_order = MO, memory_scope = MS) const {
    return rmw([=](T o) { return static_cast<T>(o - v); });
  }
  T fetch_max(T v, memory_order = MO, memory_scope = MS) const {
    return rmw([=](T o) { return o < v ? v : o; });
  }
  T fetch_min(T v, memory_order = MO, memory_scope = MS) const {
    return rmw([=](T o) { return v < o ? v : o; });
  }
  T fetch_or(T v, memory_order = MO, memory_scope = MS) const {
    return rmw([=](T o) { return static_cast<T>(o | v); });
  }
  T fetch_and(T v, memory_order = MO, memory_scope = MS) const {
    return rmw([=](T o) { return static_cast<T>(o & v); });
  }
  T fetch_xor(T v, memory_order = MO, memory_scope = MS) const {
    return rmw([=](T o) { return static_cast<T>(o ^ v); });
  }
  operator T() const { return load(); }
  T operator=(T v) const { store(v); return v; }
  T operator+=(T v) const { return fetch_add(v) + v; }
  T operator-=(T v) const { return fetch_sub(v) - v; }
  T operator++() const { return fetch_add(T(1)) + T(1); }
  T operator++(int) const { return fetch_add(T(1)); }
  T operator--() const { return fetch_sub(T(1)) - T(1); }
  T operator--(int) const { return fetch_sub(T(1)); }
  T operator|=(T v) const { return fetch_or(v) | v; }
  T operator&=(T v) const { return fetch_and(v) & v; }
};

// ------------------------------------------------------------------ device
namespace info {
enum class local_mem_type : int { none, local, global };
enum class device_type : int { cpu, gpu, accelerator, custom, automatic, host, all };
enum class event_command_status : int { submitted, running, complete };
namespace device {
#define VSYCL_INFO(name, type, expr)                                           \
  struct name {                                                                \
    using return_type = type;                                                  \
    static type value() { return expr; }                                       \
  };
VSYCL_INFO(name, std::string, "vsycl")
VSYCL_INFO(vendor, std::string, "vsycl")
VSYCL_INFO(version, std::string, "1")
VSYCL_INFO(driver_version, std::string, "1")
VSYCL_INFO(max_work_group_size, std::size_t, vsycl::config().max_work_group_size)
VSYCL_INFO(local_mem_size, std::uint64_t, vsycl::config().local_mem_size)
VSYCL_INFO(global_mem_size, std::uint64_t, std::uint64_t(8) << 30)
VSYCL_INFO(max_mem_alloc_size, std::uint64_t, std::uint64_t(8) << 30)
VSYCL_INFO(max_compute_units, std::uint32_t, vsycl::config().max_compute_units)
VSYCL_INFO(global_mem_cache_line_size, std::uint32_t, 64)
VSYCL_INFO(native_vector_width_double, std::uint32_t, 4)
VSYCL_INFO(native_vector_width_float, std::uint32_t, 8)
#undef VSYCL_INFO
struct local_mem_type {
  using return_type = info::local_mem_type;
  static info::local_mem_type value() { return info::local_mem_type::local; }
};
struct device_type {
  using return_type = info::device_type;
  static info::device_type value() {
    return vsycl::config().cpu ? info::device_type::cpu : info::device_type::gpu;
  }
};
struct sub_group_sizes {
  using return_type = std::vector<std::size_t>;
  static return_type value() { return {1}; }
};
template <int N = 3> struct max_work_item_sizes {
  using return_type = sycl::range<N>;
  static return_type value() {
    sycl::range<N> r;
    for (int i = 0; i < N; i++)
      r[i] = vsycl::config().max_work_group_size;
    return r;
  }
};
} // namespace device
namespace event {
struct command_execution_status {
  using return_type = event_command_status;
};
} // namespace event
} // namespace info

enum class aspect : int { cpu, gpu, fp64, atomic64, usm_device_allocations, usm_host_allocations, usm_shared_allocations };

class platform;
class device {
public:
  device() = default;
  template <typename S, typename = std::enable_if_t<!std::is_same_v<std::decay_t<S>, device>>>
  explicit device(const S &) {}
  bool is_cpu() const { return vsycl::config().cpu; }
  bool is_gpu() const { return !vsycl::config().cpu; }
  bool is_accelerator() const { return false; }
  bool is_host() const { return false; }
  bool has(aspect) const { return true; }
  template <typename P> typename P::return_type get_info() const { return P::value(); }
  inline platform get_platform() const;
  static std::vector<device> get_devices(info::device_type = info::device_type::all) { return {device()}; }
  bool operator==(const device &) const { return true; }
};
class platform {
public:
  platform() = default;
  template <typename S, typename = std::enable_if_t<!std::is_same_v<std::decay_t<S>, platform>>>
  explicit platform(const S &) {}
  std::vector<device> get_devices(info::device_type = info::device_type::all) const { return {device()}; }
  static std::vector<platform> get_platforms() { return {platform()}; }
};
inline platform device::get_platform() const { return platform(); }
struct context {
  context() = default;
  template <typename T> explicit context(const T &) {}
};

class device_selector {
public:
  virtual ~device_selector() = default;
};
class cpu_selector : public device_selector {};
class gpu_selector : public device_selector {};
class default_selector : public device_selector {};
inline int cpu_selector_v(const device &) { return 1; }
inline int gpu_selector_v(const device &) { return 1; }
inline int default_selector_v(const device &) { return 1; }

namespace property {
namespace queue {
struct in_order {};
struct enable_profiling {};
} // namespace queue
struct no_init {};
} // namespace property
struct property_list {
  bool in_order = false;
  property_list() = default;
  template <typename... P> property_list(P... p) { (add(p), ...); }
  void add(property::queue::in_order) { in_order = true; }
  template <typename T> void add(T) {}
};

// ------------------------------------------------------------------ events
class event {
public:
  vsycl::CommandPtr c;
  std::weak_ptr<vsycl::QueueState> q;
  event() = default;
  void wait() const {
    if (c && !c->done) {
      if (auto s = q.lock()) {
        // Unordered commands may or may not run first.
        if (!s->in_order && vsycl::config().defer > 0) {
          std::size_t k = vsycl::rng().below(3);
          while (k-- && !s->pending.empty())
            s->execute(s->pending[vsycl::rng().below(s->pending.size())]);
        }
        s->execute(c);
      }
    }
  }
  void wait_and_throw() const { wait(); }
  static void wait(const std::vector<event> &es) {
    for (auto &e : es)
      e.wait();
  }
  static void wait_and_throw(const std::vector<event> &es) { wait(es); }
  template <typename P> typename P::return_type get_info() const {
    return (!c || c->done) ? info::event_command_status::complete
                           : info::event_command_status::submitted;
  }
  bool operator==(const event &o) const { return c == o.c; }
};

// ------------------------------------------------------------------ kernels
template <int N, typename F> inline void vs_run_range(range<N> r, F &f) {
  const std::size_t n = r.size();
  vsycl::plausible(n);
  vsycl::stats().kernels++;
  vsycl::Permutation perm(n, vsycl::config().order, vsycl::rng().next());
  vsycl::for_threads(n, perm, [&](std::size_t lin) {
    item<N> it;
    it.r = r;
    it.i = vs_delinear<N>(lin, r);
    if constexpr (std::is_invocable_v<F &, item<N>>) {
      f(it);
    } else {
      f(it.i);
    }
  });
}
template <int N, typename F>
inline void vs_run_nd(nd_range<N> r, F &f, std::size_t local_bytes) {
  const range<N> gr = r.get_group_range();
  const std::size_t ng = gr.size();
  const std::size_t nl = r.l.size();
  for (int d = 0; d < N; d++) {
    if (r.l[d] == 0 || r.g[d] % r.l[d] != 0)
      throw exception("nd_range: global size is not a multiple of local size");
  }
  vsycl::plausible(r.g.size());
  vsycl::stats().kernels++;
  const std::uint64_t seed = vsycl::rng().next();
  vsycl::Permutation perm(ng, vsycl::config().order, seed);
  vsycl::for_threads(ng, perm, [&](std::size_t glin) {
    auto &runner = vsycl::thread_runner();
    runner.local.assign(local_bytes, static_cast<char>(vsycl::config().poison));
    vsycl::Permutation lperm(nl, vsycl::config().order, seed + 77 * glin + 1);
    const id<N> grp = vs_delinear<N>(glin, gr);
    std::function<void(std::size_t)> body = [&](std::size_t llin) {
      nd_item<N> it;
      it.gr = r.g;
      it.lr = r.l;
      it.grp = grp;
      it.lid = vs_delinear<N>(llin, r.l);
      for (int d = 0; d < N; d++)
        it.gid[d] = grp[d] * r.l[d] + it.lid[d];
      f(it);
    };
    runner.run(nl, lperm, body);
  });
}

class queue;
class handler {
public:
  std::function<void()> fn;
  std::vector<vsycl::CommandPtr> deps;
  void depends_on(const event &e) { if (e.c) deps.push_back(e.c); }
  void depends_on(const std::vector<event> &es) { for (auto &e : es) depends_on(e); }
  template <typename K = void, int N, typename F> void parallel_for(range<N> r, const F &f) {
    fn = [r, f]() mutable { vs_run_range<N>(r, f); };
  }
  template <typename K = void, typename F> void parallel_for(std::size_t r, const F &f) {
    fn = [r, f]() mutable { vs_run_range<1>(range<1>(r), f); };
  }
  template <typename K = void, int N, typename F> void parallel_for(nd_range<N> r, const F &f) {
    fn = [r, f, p = local_bytes_ptr()]() mutable { vs_run_nd<N>(r, f, *p); };
  }
  template <typename K = void, typename F> void single_task(const F &f) {
    fn = [f]() mutable { vsycl::stats().kernels++; f(); };
  }
  void memcpy(void *d, const void *s, std::size_t n) { fn = [=]() { std::memmove(d, s, n); }; }
  template <typename T> void copy(const T *s, T *d, std::size_t n) { memcpy(d, s, n * sizeof(T)); }
  template <typename T> void fill(void *d, const T &v, std::size_t n) {
    fn = [=]() { T *p = static_cast<T *>(d); for (std::size_t i = 0; i < n; i++) p[i] = v; };
  }
  void memset(void *d, int v, std::size_t n) { fn = [=]() { std::memset(d, v, n); }; }
  template <typename F> void host_task(const F &f) { fn = [f]() mutable { f(); }; }

  // local memory bookkeeping; accessors may only be made before parallel_for
  std::shared_ptr<std::size_t> lb = std::make_shared<std::size_t>(0);
  std::shared_ptr<std::size_t> local_bytes_ptr() { return lb; }
  std::size_t reserve_local(std::size_t bytes) {
    const std::size_t o = (*lb + 63) / 64 * 64;
    *lb = o + bytes;
    return o;
  }
};

template <typename T, int N = 1> class local_accessor {
  std::size_t offset = 0;
  range<N> r;

public:
  using value_type = T;
  local_accessor() = default;
  local_accessor(range<N> r_, handler &h, const property_list & = {})
      : offset(h.reserve_local(r_.size() * sizeof(T))), r(r_) {}
  T *base() const {
    return reinterpret_cast<T *>(vsycl::tl_runner->local.data() + offset);
  }
  template <int M = N, typename = std::enable_if_t<M == 1>>
  T &operator[](std::size_t i) const { return base()[i]; }
  T &operator[](id<N> i) const { return base()[vs_linear(i, r)]; }
  template <int M = N, typename = std::enable_if_t<M == 2>>
  T *operator[](std::size_t i) const { return base() + i * r[1]; }
  T *get_pointer() const { return base(); }
  template <access::decorated D = access::decorated::no> T *get_multi_ptr() const { return base(); }
  std::size_t size() const { return r.size(); }
  range<N> get_range() const { return r; }
  T *begin() const { return base(); }
  T *end() const { return base() + size(); }
};

class queue {
public:
  std::shared_ptr<vsycl::QueueState> s;
  queue() { init(false); }
  queue(const property_list &p) { init(p.in_order); }
  queue(const device &, const property_list &p = {}) { init(p.in_order); }
  queue(const device &, const async_handler &, const property_list &p = {}) { init(p.in_order); }
  queue(const context &, const device &, const property_list &p = {}) { init(p.in_order); }
  queue(int (*)(const device &), const property_list &p = {}) { init(p.in_order); }
  void init(bool io) {
    s = std::make_shared<vsycl::QueueState>();
    s->in_order = io;
    vsycl::all_queues().push_back(s);
  }
  bool is_in_order() const { return s->in_order; }
  device get_device() const { return device(); }
  context get_context() const { return context(); }
  void wait() { s->drain(); }
  void wait_and_throw() { s->drain(); }
  void throw_asynchronous() {}

  event enqueue(std::function<void()> fn, std::vector<vsycl::CommandPtr> deps = {}) {
    event e;
    e.q = s;
    e.c = s->submit(std::move(fn), std::move(deps));
    return e;
  }
  static std::vector<vsycl::CommandPtr> dep(const event &e) {
    std::vector<vsycl::CommandPtr> v;
    if (e.c) v.push_back(e.c);
    return v;
  }
  static std::vector<vsycl::CommandPtr> dep(const std::vector<event> &es) {
    std::vector<vsycl::CommandPtr> v;
    for (auto &e : es)
      if (e.c) v.push_back(e.c);
    return v;
  }
  template <typename CG> event submit(CG cg) {
    handler h;
    cg(h);
    if (!h.fn) return event();
    return enqueue(std::move(h.fn), std::move(h.deps));
  }
  template <typename K = void, int N, typename F> event parallel_for(range<N> r, const F &f) {
    return submit([&](handler &h) { h.parallel_for(r, f); });
  }
  template <typename K = void, typename F> event parallel_for(std::size_t r, const F &f) {
    return submit([&](handler &h) { h.parallel_for(r, f); });
  }
  template <typename K = void, int N, typename F> event parallel_for(nd_range<N> r, const F &f) {
    return submit([&](handler &h) { h.parallel_for(r, f); });
  }
  template <typename K = void, int N, typename E, typename F>
  event parallel_for(range<N> r, const E &e, const F &f) {
    return submit([&](handler &h) { h.depends_on(e); h.parallel_for(r, f); });
  }
  template <typename K = void, int N, typename E, typename F>
  event parallel_for(nd_range<N> r, const E &e, const F &f) {
    return submit([&](handler &h) { h.depends_on(e); h.parallel_for(r, f); });
  }
  template <typename K = void, typename F> event single_task(const F &f) {
    return submit([&](handler &h) { h.single_task(f); });
  }
  template <typename K = void, typename E, typename F> event single_task(const E &e, const F &f) {
    return submit([&](handler &h) { h.depends_on(e); h.single_task(f); });
  }
  event memcpy(void *d, const void *src, std::size_t n) {
    return submit([&](handler &h) { h.memcpy(d, src, n); });
  }
  template <typename E> event memcpy(void *d, const void *src, std::size_t n, const E &e) {
    return submit([&](handler &h) { h.depends_on(e); h.memcpy(d, src, n); });
  }
  template <typename T> event copy(const T *src, T *d, std::size_t n) {
    return memcpy(d, src, n * sizeof(T));
  }
  template <typename T, typename E> event copy(const T *src, T *d, std::size_t n, const E &e) {
    return memcpy(d, src, n * sizeof(T), e);
  }
  template <typename T> event fill(void *d, const T &v, std::size_t n) {
    return submit([&](handler &h) { h.fill(d, v, n); });
  }
  template <typename T, typename E> event fill(void *d, const T &v, std::size_t n, const E &e) {
    return submit([&](handler &h) { h.depends_on(e); h.fill(d, v, n); });
  }
  event memset(void *d, int v, std::size_t n) {
    return submit([&](handler &h) { h.memset(d, v, n); });
  }
  template <typename E> event memset(void *d, int v, std::size_t n, const E &e) {
    return submit([&](handler &h) { h.depends_on(e); h.memset(d, v, n); });
  }
  event prefetch(const void *, std::size_t) { return event(); }
  event ext_oneapi_submit_barrier() { s->drain(); return event(); }
  event ext_oneapi_submit_barrier(const std::vector<event> &es) { event::wait(es); return event(); }
  bool operator==(const queue &o) const { return s == o.s; }
};

// --------------------------------------------------------------------- USM
namespace usm { enum class alloc : int { host, device, shared, unknown }; }

inline void *vs_alloc(std::size_t n, std::size_t align = 64) {
  if (align < 64) align = 64;
  void *p = nullptr;
  const std::size_t m = n ? n : 1;
  if (posix_memalign(&p, align, m) != 0) return nullptr;
  std::memset(p, vsycl::config().poison, m);
  return p;
}
inline void vs_free(void *p) {
  // A runtime completes commands that use an allocation some time before the
  // memory can be recycled by another allocation; it does not order anything
  // else. Commands still pending here are completed first.
  for (auto &w : vsycl::all_queues())
    if (auto s = w.lock()) s->drain();
  if (!p) return;
  // What was freed is overwritten and kept for a while, so that whoever still
  // uses it sees neither its old contents nor those of the next allocation.
  static auto &kept = *new std::deque<std::pair<void *, std::size_t>>;
  static std::size_t total = 0;
  const std::size_t m = malloc_usable_size(p);
  std::memset(p, vsycl::config().poison, m);
  kept.emplace_back(p, m);
  total += m;
  while (kept.size() > 4096 || total > (std::size_t)32 << 20) {
    std::free(kept.front().first);
    total -= kept.front().second;
    kept.pop_front();
  }
}
#define VSYCL_USM(kind)                                                        \
  inline void *malloc_##kind(std::size_t n, const queue &) { return vs_alloc(n); } \
  template <typename T> inline T *malloc_##kind(std::size_t n, const queue &) { \
    return static_cast<T *>(vs_alloc(n * sizeof(T)));                          \
  }                                                                            \
  inline void *aligned_alloc_##kind(std::size_t a, std::size_t n, const queue &) { \
    return vs_alloc(n, a);                                                     \
  }                                                                            \
  template <typename T>                                                        \
  inline T *aligned_alloc_##kind(std::size_t a, std::size_t n, const queue &) { \
    return static_cast<T *>(vs_alloc(n * sizeof(T), a));                       \
  }                                                                            \
  inline void *malloc_##kind(std::size_t n, const device &, const context &) { return vs_alloc(n); } \
  template <typename T>                                                        \
  inline T *malloc_##kind(std::size_t n, const device &, const context &) {    \
    return static_cast<T *>(vs_alloc(n * sizeof(T)));                          \
  }
VSYCL_USM(device)
VSYCL_USM(host)
VSYCL_USM(shared)
#undef VSYCL_USM
inline void free(void *p, const queue &) { vs_free(p); }
inline void free(void *p, const context &) { vs_free(p); }

// -------------------------------------------------------------------- maths
#define VSYCL_M1(f) \
  template <typename T> inline T f(const T x) { return std::f(x); }
VSYCL_M1(sin) VSYCL_M1(cos) VSYCL_M1(tan) VSYCL_M1(asin) VSYCL_M1(acos)
VSYCL_M1(atan) VSYCL_M1(sinh) VSYCL_M1(cosh) VSYCL_M1(tanh) VSYCL_M1(exp)
VSYCL_M1(exp2) VSYCL_M1(expm1) VSYCL_M1(log) VSYCL_M1(log2) VSYCL_M1(log10)
VSYCL_M1(log1p) VSYCL_M1(sqrt) VSYCL_M1(cbrt) VSYCL_M1(fabs) VSYCL_M1(floor)
VSYCL_M1(ceil) VSYCL_M1(trunc) VSYCL_M1(round) VSYCL_M1(rint) VSYCL_M1(tgamma)
VSYCL_M1(lgamma) VSYCL_M1(erf) VSYCL_M1(erfc) VSYCL_M1(asinh) VSYCL_M1(acosh)
VSYCL_M1(atanh)
#undef VSYCL_M1
#define VSYCL_M2(f)                                                            \
  template <typename T> inline T f(const T x, const T y) { return std::f(x, y); }
VSYCL_M2(fmin) VSYCL_M2(fmax) VSYCL_M2(fmod) VSYCL_M2(pow) VSYCL_M2(atan2)
VSYCL_M2(hypot) VSYCL_M2(copysign) VSYCL_M2(remainder)
#undef VSYCL_M2
template <typename T, typename U, typename = std::enable_if_t<!std::is_same_v<T, U>>>
inline auto pow(const T x, const U y) { return std::pow(x, y); }
template <typename T> inline T fma(T a, T b, T c) { return std::fma(a, b, c); }
template <typename T> inline T mad(T a, T b, T c) { return a * b + c; }
template <typename T> inline T pown(T a, int b) { return std::pow(a, b); }
template <typename T> inline T min(T a, T b) { return b < a ? b : a; }
template <typename T> inline T max(T a, T b) { return a < b ? b : a; }
template <typename T> inline T clamp(T x, T a, T b) { return min(max(x, a), b); }
template <typename T> inline T abs(T x) { return x < 0 ? -x : x; }
template <typename T> inline T rsqrt(T x) { return T(1) / std::sqrt(x); }
template <typename T> inline T sign(T x) { return x > 0 ? T(1) : (x < 0 ? T(-1) : T(0)); }
template <typename T> inline T sincos(T x, T *c) { *c = std::cos(x); return std::sin(x); }
template <typename T> inline auto isnan(T x) { return std::isnan(x); }
template <typename T> inline auto isinf(T x) { return std::isinf(x); }
template <typename T> inline auto isfinite(T x) { return std::isfinite(x); }
template <typename T> inline int popcount(T x) { return __builtin_popcountll(x); }

} // namespace sycl

#endif
