// C17: lookup trees and tables, and linear indices.
#include "../rig.hpp"
#include <array>
#include <fstream>
#include <sstream>
using namespace nv;

struct Pod {
  INT a;
  double b;
  int c[3];
};
template <typename V> static V make(std::uint64_t x) { return (V)(INT)x; }
template <> double make<double>(std::uint64_t x) {
  return (double)(INT)(x % 1000003) / 7.0;
}
template <> Pod make<Pod>(std::uint64_t x) {
  return {(INT)x, (double)(x % 77), {(int)x, (int)(x >> 7), -(int)(x % 1000)}};
}
static std::string show(double v) { return hex(v); }
static std::string show(INT v) { return hex(v); }
static std::string show(int v) { return hex((INT)v); }
static std::string show(const Pod &p) {
  return hex(p.a) + "." + hex(p.b) + "." + hex((INT)p.c[0]) + "." +
         hex((INT)p.c[1]) + "." + hex((INT)p.c[2]);
}

template <typename K> struct Query {
  K key;
  int found;
};

// one container behind the interface that trees and tables share
template <typename C, typename K, typename V> struct Box {
  SYCLTargetSharedPtr st;
  C c;
  int name;
  bool empty = true;
  template <typename... A>
  Box(SYCLTargetSharedPtr st, int name, A... a) : st(st), c(st, a...), name(name) {}
  void add(K key, V v) {
    c.add(key, v);
    empty = false;
    J j;
    emit(j.str("ev", "add").num("c", name).str("key", hex((INT)key)).str("value", show(v)));
  }
  void host(K key) {
    V v = make<V>(12345);
    const bool f = c.host_get(key, &v);
    report("host", {key}, {f}, {v});
  }
  void report(const char *how, const std::vector<K> &keys,
              const std::vector<int> &found, const std::vector<V> &v) {
    J r('[');
    for (std::size_t i = 0; i < keys.size(); i++)
      r.add(J('[').adds(hex((INT)keys[i])).adds(found[i] ? show(v[i]) : "absent").done());
    J j;
    emit(j.str("ev", "get").num("c", name).str("how", how).raw("got", r.done()));
  }
  // many lookups in one kernel, through either form of get
  void kernel(const std::vector<K> &keys, bool by_pointer) {
    if (empty && std::is_same_v<C, BlockedBinaryTree<K, V>>)
      return;
    if (c.root == nullptr)
      return;
    const std::size_t n = keys.size();
    BufferDevice<K> dk(st, keys);
    BufferDeviceHost<int> df(st, n);
    BufferDeviceHost<V> dv(st, n);
    auto k = dk.ptr;
    auto f = df.d_buffer.ptr;
    auto v = dv.d_buffer.ptr;
    auto root = c.root;
    st->queue
        .submit([&](sycl::handler &cgh) {
          cgh.parallel_for<>(sycl::range<1>(n), [=](sycl::id<1> i) {
            if (by_pointer) {
              V const *p = nullptr;
              f[i] = root->get(k[i], &p);
              if (f[i])
                v[i] = *p;
            } else {
              V x;
              f[i] = root->get(k[i], &x);
              if (f[i])
                v[i] = x;
            }
          });
        })
        .wait_and_throw();
    df.device_to_host();
    dv.device_to_host();
    std::vector<int> found(df.h_buffer.ptr, df.h_buffer.ptr + n);
    std::vector<V> got(dv.h_buffer.ptr, dv.h_buffer.ptr + n);
    report(by_pointer ? "pointer" : "value", keys, found, got);
  }
};

template <typename C, typename K, typename V, typename MAKE>
static void session(Rng &rng, SYCLTargetSharedPtr st, int name, int ops,
                    std::vector<K> pool, MAKE mk) {
  auto b = mk();
  auto &box = *b;
  J j;
  emit(j.str("ev", "new").num("c", name));
  std::vector<K> keys;
  for (int o = 0; o < ops; o++) {
    const int w = rng.below(10);
    K key = rng.chance(30) && !keys.empty() ? rng.pick(keys) : rng.pick(pool);
    if (w < 6) {
      box.add(key, make<V>(rng.next()));
      keys.push_back(key);
    } else if (w < 8)
      box.host(key);
    else {
      std::vector<K> q;
      for (int i = rng.in(1, 12); i > 0; i--)
        q.push_back(rng.chance(50) && !keys.empty() ? rng.pick(keys)
                                                    : rng.pick(pool));
      box.kernel(q, rng.chance(50));
    }
  }
  box.kernel(pool, true);
  box.kernel(pool, false);
}

template <typename K> static std::vector<K> tree_pool(Rng &rng, int W) {
  std::vector<K> p;
  const int shape = rng.below(3);
  for (int i = 0; i < 24; i++) {
    if (shape == 0) // around block boundaries
      p.push_back((K)(rng.in(-4, 4) * W + rng.in(-1, 1)));
    else if (shape == 1)
      p.push_back((K)rng.in(-3 * W, 3 * W));
    else if (rng.chance(20))
      p.push_back(rng.chance(50) ? std::numeric_limits<K>::max() - rng.below(3)
                                 : std::numeric_limits<K>::min() + 1 + rng.below(3));
    else
      p.push_back((K)(INT)(rng.next() % 2000003) - 1000001);
  }
  return p;
}

template <typename K, typename V, INT W>
static void tree_trace(Rng &rng, SYCLTargetSharedPtr st, int name, int ops) {
  session<BlockedBinaryTree<K, V, W>, K, V>(
      rng, st, name, ops, tree_pool<K>(rng, (int)W), [&] {
        return std::make_unique<Box<BlockedBinaryTree<K, V, W>, K, V>>(st, name);
      });
}
template <typename K, typename V>
static void table_trace(Rng &rng, SYCLTargetSharedPtr st, int name, int ops) {
  const int size = rng.pick(std::vector<int>{1, 2, 7, 64, 300});
  std::vector<K> pool;
  for (int i = 0; i < 24; i++)
    pool.push_back((K)rng.below(size));
  pool.push_back(0);
  pool.push_back((K)(size - 1));
  Box<LookupTable<K, V>, K, V> box(st, name, size);
  J j;
  emit(j.str("ev", "new").num("c", name));
  auto far = [&] {
    return rng.pick(std::vector<K>{-1, (K)size, (K)(size + 1), (K)-size,
                                   std::numeric_limits<K>::max(),
                                   std::numeric_limits<K>::min()});
  };
  for (int o = 0; o < ops; o++) {
    const int w = rng.below(10);
    if (w < 6)
      box.add(rng.pick(pool), make<V>(rng.next()));
    else if (w < 8)
      box.host(rng.chance(30) ? far() : rng.pick(pool));
    else {
      std::vector<K> q;
      for (int i = rng.in(1, 12); i > 0; i--)
        q.push_back(rng.chance(30) ? far() : rng.pick(pool));
      box.kernel(q, rng.chance(50));
    }
  }
  pool.push_back(-1);
  pool.push_back((K)size);
  box.kernel(pool, true);
  box.kernel(pool, false);
}

// in a particle loop every particle looks up a key of its own
static void loop_trace(Rng &rng, Rng &mine, int name) {
  Rig g(2, {std::max(2, ctx().size), 2});
  auto spec = g.base_spec();
  for (const char *n : {"KEY", "FT", "VT", "FL", "VL"})
    spec.push(ParticleProp(Sym<INT>(n), 1));
  g.make(spec);
  const int size = rng.in(1, 40);
  g.add(occupancies(mine, g.ncell, 6), [&](ParticleSet &ps, int k, INT, int) {
    ps[Sym<INT>("KEY")][k][0] = mine.in(-5, size + 5);
  });
  BlockedBinaryTree<INT, INT, 4> tree(g.sycl_target);
  LookupTable<INT, INT> table(g.sycl_target, size);
  J j0, j1;
  emit(j0.str("ev", "new").num("c", name));
  emit(j1.str("ev", "new").num("c", name + 1));
  auto add = [&](int c, INT k, INT v) {
    J j;
    emit(j.str("ev", "add").num("c", c).str("key", hex(k)).str("value", show(v)));
  };
  for (int r = 0; r < 3; r++) {
    for (int i = rng.in(1, 10); i > 0; i--) {
      const INT k = rng.in(-5, size + 5), v = rng.in(-99, 99);
      tree.add(k, v);
      add(name, k, v);
      if (k >= 0 && k < size) {
        table.add(k, v + 7);
        add(name + 1, k, v + 7);
      }
    }
    auto t = tree.root;
    auto l = table.root;
    particle_loop(
        g.pg,
        [=](auto KEY, auto FT, auto VT, auto FL, auto VL) {
          INT x = 0;
          FT.at(0) = t->get(KEY.at(0), &x);
          VT.at(0) = x;
          INT const *p = nullptr;
          FL.at(0) = l->get(KEY.at(0), &p);
          VL.at(0) = FL.at(0) ? *p : 0;
        },
        Access::read(Sym<INT>("KEY")), Access::write(Sym<INT>("FT")),
        Access::write(Sym<INT>("VT")), Access::write(Sym<INT>("FL")),
        Access::write(Sym<INT>("VL")))
        ->execute();
    std::vector<std::string> a, b;
    for_rows(g.pg, [&](const RowView &v) {
      a.push_back(J('[').adds(hex(v.integer("KEY")))
                      .adds(v.integer("FT") ? show(v.integer("VT")) : "absent").done());
      b.push_back(J('[').adds(hex(v.integer("KEY")))
                      .adds(v.integer("FL") ? show(v.integer("VL")) : "absent").done());
    });
    J ja, jb;
    emit(ja.str("ev", "get").num("c", name).str("how", "loop").raw("got", gather_list(a)));
    emit(jb.str("ev", "get").num("c", name + 1).str("how", "loop").raw("got", gather_list(b)));
  }
  g.free();
}

template <std::size_t N> static void index_trace(Rng &rng, SYCLTargetSharedPtr st) {
  NDIndex<N> ix;
  int s[4] = {rng.in(1, 5), rng.in(1, 5), rng.in(1, 4), rng.in(1, 3)};
  if constexpr (N == 1)
    ix = nd_index<1>(s[0]);
  else if constexpr (N == 2)
    ix = nd_index<2>(s[0], s[1]);
  else if constexpr (N == 3)
    ix = nd_index<3>(s[0], s[1], s[2]);
  else
    ix = nd_index<4>(s[0], s[1], s[2], s[3]);
  std::vector<std::array<int, 4>> at;
  std::array<int, 4> a{};
  for (;;) {
    at.push_back(a);
    int d = (int)N - 1;
    while (d >= 0 && ++a[d] == s[d])
      a[d--] = 0;
    if (d < 0)
      break;
  }
  BufferDevice<std::array<int, 4>> da(st, at);
  BufferDeviceHost<INT> out(st, at.size());
  auto k = da.ptr;
  auto o = out.d_buffer.ptr;
  st->queue
      .submit([&](sycl::handler &cgh) {
        cgh.parallel_for<>(sycl::range<1>(at.size()), [=](sycl::id<1> i) {
          auto x = k[i];
          if constexpr (N == 1)
            o[i] = ix.get_linear_index(x[0]);
          else if constexpr (N == 2)
            o[i] = ix.get_linear_index(x[0], x[1]);
          else if constexpr (N == 3)
            o[i] = ix.get_linear_index(x[0], x[1], x[2]);
          else
            o[i] = ix.get_linear_index(x[0], x[1], x[2], x[3]);
        });
      })
      .wait_and_throw();
  out.device_to_host();
  J l('[');
  for (std::size_t i = 0; i < at.size(); i++) {
    J e('[');
    for (std::size_t d = 0; d < N; d++)
      e.addn(at[i][d]);
    l.add(J('[').add(e.done()).addn(out.h_buffer.ptr[i]).done());
  }
  J sh('[');
  for (std::size_t d = 0; d < N; d++)
    sh.addn(s[d]);
  J j;
  emit(j.str("ev", "index").raw("shape", sh.done()).num("size", ix.size()).raw("at", l.done()));
}

int main(int argc, char **argv) {
  init(argc, argv);
  auto st = std::make_shared<SYCLTarget>(0, MPI_COMM_WORLD);
  int name = 1;
  auto start = [&] {
    J j;
    emit(j.str("ev", "init"));
    name = 1;
  };
  auto f = ctx().gets("behaviours", "");
  if (!f.empty()) {
    // the specification's histories: blocks of two keys
    std::ifstream is(f);
    std::string line;
    int part = (int)ctx().get("part", 0), parts = (int)ctx().get("parts", 1), i = 0;
    while (std::getline(is, line)) {
      if (i++ % parts != part)
        continue;
      for (char &c : line)
        if (!std::isdigit((unsigned char)c) && c != '-')
          c = ' ';
      std::istringstream ss(line);
      start();
      Box<BlockedBinaryTree<INT, INT, 2>, INT, INT> box(st, name);
      J j;
      emit(j.str("ev", "new").num("c", name));
      INT k, v = 1;
      while (ss >> k)
        box.add(k, v++);
      std::vector<INT> all;
      for (INT x = -7; x < 7; x++)
        all.push_back(x);
      box.kernel(all, i % 2 == 0);
      box.host(all[i % all.size()]);
    }
  } else
    for (int t = 0; t < ctx().get("traces", 3); t++) {
      Rng rng(mix(ctx().seed, t, 0x17)), mine(mix(ctx().seed, t, 0x18, ctx().rank));
      start();
      const int ops = ctx().get("ops", 20);
      tree_trace<INT, REAL, 64>(rng, st, name++, ops);
      tree_trace<int, INT, 8>(rng, st, name++, ops);
      tree_trace<INT, Pod, 3>(rng, st, name++, ops);
      tree_trace<INT, int, 1>(rng, st, name++, ops);
      table_trace<INT, REAL>(rng, st, name++, ops);
      table_trace<int, Pod>(rng, st, name++, ops);
      loop_trace(rng, mine, name);
      index_trace<1>(rng, st);
      index_trace<2>(rng, st);
      index_trace<3>(rng, st);
      index_trace<4>(rng, st);
    }
  st->free();
  finish();
  return 0;
}
