// C19: random numbers in kernels.
#include "../rig.hpp"
#include <fstream>
#include <sstream>
using namespace nv;

static constexpr int MAXD = 6; // draws of one particle

struct Source; // one generator on this rank

// whatever is drawn in a loop is recorded with the particles:
// V value, F -1 not drawn, 0 invalid, 1 valid
struct Gen {
  virtual ~Gen() = default;
  virtual void loop(ParticleGroupSharedPtr a, int c0, int c1) = 0;
  virtual void loop(ParticleSubGroupSharedPtr a, int c0, int c1) = 0;
  virtual bool valid() = 0;
  virtual void want(int) {}
  INT produced = 0;
  int kind, ncomp, block;
};

template <typename L> static void run(L l, int c0, int c1) {
  if (c0 < 0)
    l->execute();
  else if (c1 == c0 + 1)
    l->execute(c0);
  else
    l->execute(c0, c1);
}

template <typename T, typename R> struct GenOf : Gen {
  std::shared_ptr<R> r;
  bool plain = false; // without the flag
  template <typename A> void go(A a, int c0, int c1) {
    const bool pl = plain;
    const int nc = ncomp;
    run(particle_loop(
            "draw", a,
            [=](auto IX, auto N, auto V, auto F, auto D) {
              for (int k = 0; k < N.at(0); k++) {
                bool ok = false;
                const int comp = nc > 0 ? k % nc : 0;
                if (pl) {
                  V.at(k) = (INT)D.at(IX, comp);
                  F.at(k) = 2;
                } else {
                  V.at(k) = (INT)D.at(IX, comp, &ok);
                  F.at(k) = ok;
                }
              }
            },
            Access::read(ParticleLoopIndex{}), Access::read(Sym<INT>("N")),
            Access::write(Sym<INT>("V")), Access::write(Sym<INT>("F")),
            Access::read(r)),
        c0, c1);
  }
  void loop(ParticleGroupSharedPtr a, int c0, int c1) override { go(a, c0, c1); }
  void loop(ParticleSubGroupSharedPtr a, int c0, int c1) override { go(a, c0, c1); }
  bool valid() override { return r->valid_internal_state(); }
  void want(int n) override {
    if constexpr (std::is_same_v<R, HostAtomicBlockKernelRNG<T>>)
      r->set_num_random_numbers(n);
  }
};

// two generators used together
template <typename A0, typename A1> struct Both : Gen {
  std::shared_ptr<A0> a;
  std::shared_ptr<A1> b;
  template <typename A> void go(A g, int c0, int c1) {
    const int nc = ncomp;
    auto t = tuple_rng(a, b);
    run(particle_loop(
            g,
            [=](auto IX, auto N, auto V, auto F, auto D) {
              for (int k = 0; k < N.at(0); k++) {
                bool ok = false;
                // even draws of the first, odd ones of the second
                if (k % 2 == 0)
                  V.at(k) = (INT)D.template get<0>().at(IX, (k / 2) % nc, &ok);
                else
                  V.at(k) = (INT)D.template get<1>().at(IX, (k / 2) % nc, &ok);
                F.at(k) = ok;
              }
            },
            Access::read(ParticleLoopIndex{}), Access::read(Sym<INT>("N")),
            Access::write(Sym<INT>("V")), Access::write(Sym<INT>("F")),
            Access::read(t)),
        c0, c1);
  }
  void loop(ParticleGroupSharedPtr x, int c0, int c1) override { go(x, c0, c1); }
  void loop(ParticleSubGroupSharedPtr x, int c0, int c1) override { go(x, c0, c1); }
  bool valid() override { return a->valid_internal_state() && b->valid_internal_state(); }
};

struct World {
  Rng rng, mine;
  Rig g;
  std::vector<std::shared_ptr<Gen>> gens;
  ParticleSubGroupSharedPtr sub;
  World(std::uint64_t seed, bool tiny = false)
      : rng(seed), mine(mix(seed, 0x19, ctx().rank)),
        g(2, {std::max(tiny ? 1 : 2, ctx().size), tiny ? 1 : rng.in(1, 3)}) {
    auto spec = g.base_spec();
    spec.push(ParticleProp(Sym<INT>("N"), 1));
    spec.push(ParticleProp(Sym<INT>("V"), MAXD));
    spec.push(ParticleProp(Sym<INT>("F"), MAXD));
    g.make(spec);
    if (!tiny) {
      g.param("LOOP_LOCAL_SIZE", rng.pick(std::vector<int>{1, 4, 32}));
      g.param("LOOP_NBIN", rng.pick(std::vector<int>{1, 3, 16}));
    }
    sub = particle_sub_group(
        g.pg, [=](auto ID) { return ID.at(0) % 3 != 0; },
        Access::read(Sym<INT>("ID")));
    J j;
    j.str("ev", "init");
    emit(j.num("ranks", ctx().size));
  }
  void done() {
    sub.reset();
    gens.clear();
    g.free();
  }
  template <typename T> std::shared_ptr<RNGGenerationFunction<T>> source(Gen *p, bool device) {
    if (device)
      return std::make_shared<GenericDeviceRNGGenerationFunction<T>>(
          [p](T *d, const std::size_t n) -> int {
            for (std::size_t i = 0; i < n; i++)
              d[i] = (T)(++p->produced);
            return 0;
          });
    return std::make_shared<HostRNGGenerationFunction<T>>(
        [p]() -> T { return (T)(++p->produced); });
  }
  template <typename T, typename R>
  std::shared_ptr<Gen> single(int kind, int ncomp, int block, bool device) {
    auto x = std::make_shared<GenOf<T, R>>();
    x->r = std::make_shared<R>(source<T>(x.get(), device), ncomp, block);
    x->plain = kind == 1 && rng.chance(30);
    if constexpr (std::is_same_v<R, HostAtomicBlockKernelRNG<T>>)
      x->r->suppress_warnings = true;
    x->kind = kind, x->ncomp = ncomp, x->block = block;
    return x;
  }
  template <typename T> std::shared_ptr<Gen> any(int kind, int ncomp, int block, bool device) {
    using P = HostPerParticleBlockRNG<T>;
    using At = HostAtomicBlockKernelRNG<T>;
    if (kind == 1)
      return single<T, P>(kind, ncomp, block, device);
    if (kind == 2)
      return single<T, At>(kind, ncomp, block, device);
    if (kind == 3) {
      auto x = std::make_shared<GenOf<T, NullKernelRNG<T>>>();
      x->r = null_kernel_rng<T>();
      x->kind = kind, x->ncomp = 1, x->block = 0;
      return x;
    }
    auto x = std::make_shared<Both<P, At>>();
    x->a = std::make_shared<P>(source<T>(x.get(), device), ncomp, block);
    x->b = std::make_shared<At>(source<T>(x.get(), !device), ncomp, block);
    x->b->suppress_warnings = true;
    x->kind = 4, x->ncomp = ncomp, x->block = block;
    return x;
  }
  int make(int kind, int ncomp, int block, bool device, bool real) {
    gens.push_back(real ? any<REAL>(kind, ncomp, block, device)
                        : any<INT>(kind, ncomp, block, device));
    J j;
    j.str("ev", "make").num("kind", kind);
    emit(j.num("ncomp", gens.back()->ncomp));
    return (int)gens.size() - 1;
  }
  void populate(int occ) {
    g.add(occupancies(mine, g.ncell, occ), nullptr);
  }
  void shrink(int m) {
    g.pg->remove_particles(particle_sub_group(
        g.pg, [=](auto ID) { return ID.at(0) % m == 0; },
        Access::read(Sym<INT>("ID"))));
  }
  // per: how many draws of a particle: >= 0 that many, -1 different ones
  void loop(int gi, int target, int per, int want, int total = -1) {
    auto &x = *gens[gi];
    const INT salt = rng.below(1000);
    const int nc = x.ncomp, kind = x.kind;
    const int most = kind == 1 ? nc : kind == 4 ? 2 * nc : MAXD;
    particle_loop(
        g.pg,
        [=](auto ID, auto N, auto V, auto F) {
          N.at(0) = per < 0 ? (ID.at(0) * 7 + salt) % (most + 1) : per;
          if (total >= 0)
            N.at(0) = ID.at(0) == 0 ? total : 0;
          for (int k = 0; k < MAXD; k++) {
            V.at(k) = -7;
            F.at(k) = -1;
          }
        },
        Access::read(Sym<INT>("ID")), Access::write(Sym<INT>("N")),
        Access::write(Sym<INT>("V")), Access::write(Sym<INT>("F")))
        ->execute();
    x.want(want);
    int c0 = -1, c1 = -1;
    if (target % 3 == 1) { // each rank may do others
      c0 = mine.below(g.ncell);
      c1 = c0 + 1;
    } else if (target % 3 == 2) {
      c0 = mine.below(g.ncell);
      c1 = mine.in(c0, g.ncell);
    }
    const bool whole = target < 3;
    const INT before = x.produced;
    if (whole)
      x.loop(g.pg, c0, c1);
    else
      x.loop(sub, c0, c1);
    J rows('[');
    for_rows(g.pg, [&](const RowView &v) {
      J r('[');
      const INT id = v.integer("ID");
      const bool in = (c0 < 0 || (c0 <= v.cell && v.cell < c1)) && (whole || id % 3 != 0);
      r.addn(id).addn(in ? v.integer("N") : 0);
      for (int k = 0; k < MAXD; k++)
        r.addn(v.integer("V", k));
      for (int k = 0; k < MAXD; k++)
        r.addn(v.integer("F", k));
      rows.add(r.done());
    });
    J j;
    j.str("ev", "loop").num("g", gi + 1).num("want", want);
    j.raw("before", gather_each(J::integer(before)));
    j.raw("produced", gather_each(J::integer(x.produced)));
    j.raw("valid", gather_each(x.valid() ? "true" : "false"));
    emit(j.raw("rows", gather_each(rows.done())));
  }
  int kinds() { return rng.pick(std::vector<int>{1, 1, 2, 2, 2, 3, 4}); }
  void run(int ops) {
    if (rng.chance(70))
      populate(rng.pick(std::vector<int>{1, 4, 9}));
    for (int o = 0; o < ops; o++) {
      const int what = rng.below(10);
      if (gens.empty() || (what == 0 && gens.size() < 5))
        make(kinds(), rng.chance(12) ? 0 : rng.in(1, 3),
             rng.pick(std::vector<int>{1, 2, 3, 7, 64, 8192}), rng.below(2), rng.below(2));
      else if (what == 1)
        populate(rng.pick(std::vector<int>{1, 4, 9}));
      else if (what == 2)
        shrink(rng.in(1, 4));
      else {
        const int gi = rng.below((int)gens.size());
        auto &x = *gens[gi];
        const int most = x.kind == 1 ? x.ncomp : x.kind == 4 ? 2 * x.ncomp : MAXD;
        const int per = rng.chance(50) ? -1 : x.kind == 2 && rng.chance(60)
                                                 ? x.ncomp : rng.in(0, most);
        const int want = x.kind == 2 && x.ncomp && rng.chance(35)
                             ? rng.pick(std::vector<int>{0, 1, 5, 20, 70}) : -1;
        loop(gi, rng.below(6), per, want);
      }
    }
    done();
  }
};

int main(int argc, char **argv) {
  init(argc, argv);
  auto f = ctx().gets("behaviours", "");
  if (!f.empty()) { // <<requested, drawn>> of successive loops, on one rank
    std::ifstream is(f);
    std::string line;
    int part = (int)ctx().get("part", 0), parts = (int)ctx().get("parts", 1), i = 0;
    std::shared_ptr<World> w;
    while (std::getline(is, line)) {
      if (i++ % parts != part)
        continue;
      for (char &c : line)
        if (!std::isdigit((unsigned char)c))
          c = ' ';
      std::istringstream ss(line);
      if (!w) {
        w = std::make_shared<World>(mix(ctx().seed, i, 0x192), true);
        w->g.add({3}, nullptr);
      }
      const int gi = w->make(2, 1, 1 + i % 3, i % 2, (i / 2) % 2);
      int want, drawn;
      while (ss >> want >> drawn)
        w->loop(gi, 0, 0, want, drawn);
      if (w->gens.size() >= 40) {
        w->done();
        w.reset();
      }
    }
    if (w)
      w->done();
  } else
    for (int t = 0; t < ctx().get("traces", 6); t++) {
      World w(mix(ctx().seed, t, 0x191));
      w.run(ctx().get("ops", 20));
    }
  finish();
  return 0;
}
