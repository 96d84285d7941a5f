// Conformance driver for spec/DsmcTrace: partitions of particles into collision
// cells and species, and the samplers of pairs of collision partners.
#include "../rig.hpp"
using namespace nv;

struct World {
  Rng rng, mine;
  Rig g;
  int local, nsub = 3;
  int sc, cc; // components of the species and of the collision cell
  std::vector<INT> kinds;       // species which particles may have
  std::vector<INT> listed;      // those that the partitions know
  std::vector<int> ccells;      // collision cells of each cell of this rank
  std::vector<ParticleSubGroupSharedPtr> sub;
  struct Part {
    std::shared_ptr<DSMC::CollisionCellPartition> p;
    std::vector<std::vector<int>> mx; // of the last question
    INT a, b;
    bool known = false;
  };
  std::vector<Part> parts;
  int mode = 0; // of the random numbers
  std::shared_ptr<HostRNGGenerationFunction<REAL>> rfn;
  std::vector<std::shared_ptr<DSMC::PairSamplerNoReplacement>> samp;
  std::vector<std::shared_ptr<DSMC::PairSamplerNTC>> ntc;

  static std::vector<int> dims(Rng &r) {
    return {r.in(1, 3), std::max(ctx().size, r.in(1, 3))};
  }
  REAL draw() {
    switch (mode) {
    case 0:
      return 0.0;
    case 1:
      return 1.0;
    case 2:
      return std::nextafter(1.0, 0.0);
    case 3:
      return mine.pick(std::vector<REAL>{0.0, 1.0, 0.5, 1.0 / 3.0});
    default:
      return (REAL)mine.below(1 << 20) / (REAL)(1 << 20);
    }
  }
  World(std::uint64_t s)
      : rng(s), mine(mix(s, ctx().rank + 1)), g(2, dims(rng), rng.below(2)) {
    local = rng.pick(std::vector<int>{1, 2, 4, 8, 32});
    g.param("LOOP_LOCAL_SIZE", local);
    auto spec = g.base_spec();
    const int ns = rng.in(1, 3), ncc = rng.in(1, 3);
    sc = rng.below(ns);
    cc = rng.below(ncc);
    spec.push(ParticleProp(Sym<INT>("S"), ns));
    spec.push(ParticleProp(Sym<INT>("K"), ncc));
    spec.push(ParticleProp(Sym<INT>("U"), 1));
    g.make(spec);
    const int nk = rng.in(1, 4);
    std::set<INT> ks;
    const int shape = rng.below(3);
    while ((int)ks.size() < nk)
      ks.insert(shape == 0 ? (INT)ks.size()
                           : (shape == 1 ? rng.below(20) : rng.below(5000)));
    kinds.assign(ks.begin(), ks.end());
    for (auto k : kinds)
      if (rng.chance(75))
        listed.push_back(k);
    if (listed.empty())
      listed.push_back(kinds[0]);
    if (rng.chance(30))
      listed.push_back(6001); // no particle has it
    for (std::size_t i = 0; i < listed.size(); i++) // any order
      std::swap(listed[i], listed[rng.below((int)listed.size())]);
    if (rng.chance(30))
      listed.push_back(listed[0]);
    const int many = rng.pick(std::vector<int>{1, 2, 5, 9});
    ccells.resize(g.ncell);
    const bool equal = rng.chance(30);
    for (auto &x : ccells)
      x = equal ? many : mine.in(0, many);
    ccells[mine.below(g.ncell)] = many;
    rfn = std::make_shared<HostRNGGenerationFunction<REAL>>(
        [this]() { return draw(); });
    J j;
    j.str("ev", "world").num("local", local);
    j.raw("listed", J::list(listed));
    j.raw("ccells", gather_each(J::list(ccells)));
    emit(j);
    const int np = rng.in(1, 2);
    for (int i = 0; i < np; i++) {
      Part p;
      p.p = std::make_shared<DSMC::CollisionCellPartition>(g.sycl_target,
                                                          g.ncell, listed);
      parts.push_back(p);
      samp.push_back(std::make_shared<DSMC::PairSamplerNoReplacement>(
          g.sycl_target, g.ncell, rfn));
      ntc.push_back(std::make_shared<DSMC::PairSamplerNTC>(g.sycl_target,
                                                          g.ncell, rfn));
    }
    add();
    auto pg = std::dynamic_pointer_cast<ParticleGroup>(g.pg);
    for (int u = 0; u < nsub; u++)
      sub.push_back(particle_sub_group(
          pg, [=](auto U) { return U.at(0) == u; }, Access::read(Sym<INT>("U"))));
    sub.push_back(particle_sub_group(pg));
    state();
  }
  // a collision cell for a particle
  INT collision_cell(int cell, bool known) {
    if (!known && mine.chance(50))
      return 900000; // not looked at
    return ccells[cell] > 0 ? mine.below(ccells[cell]) : -1;
  }
  void fill(ParticleSet &ps, int k, int cell) {
    INT s = mine.pick(kinds);
    bool known = std::find(listed.begin(), listed.end(), s) != listed.end();
    if (known && ccells[cell] == 0) {
      s = 7777;
      known = false;
    }
    for (int c = 0; c < g.pg->get_dat(Sym<INT>("S"))->ncomp; c++)
      ps[Sym<INT>("S")][k][c] = c == sc ? s : 50 + mine.below(9);
    for (int c = 0; c < g.pg->get_dat(Sym<INT>("K"))->ncomp; c++)
      ps[Sym<INT>("K")][k][c] = c == cc ? collision_cell(cell, known) : -5;
    ps[Sym<INT>("U")][k][0] = mine.below(nsub + 1);
  }
  void add() {
    const int most = rng.pick(std::vector<int>{1, 3, 8, 20});
    g.add(occupancies(mine, g.ncell, most),
          [&](ParticleSet &ps, int k, INT, int c) { fill(ps, k, c); });
  }
  void state() {
    J j;
    j.str("ev", "set");
    j.raw("st", gather_each(cells_json(g.pg, [&](const RowView &v) {
            return J('[').addn(v.integer("ID")).addn(v.integer("S", sc))
                .addn(v.integer("K", cc)).addn(v.integer("U")).done();
          })));
    emit(j);
    for (auto &p : parts)
      p.known = false;
  }
  void change() {
    const int what = rng.below(3);
    if (what == 0)
      add();
    if (what == 1) { // leave: some of them
      std::vector<INT> cells, layers;
      for_rows(g.pg, [&](const RowView &v) {
        if (mine.chance(40)) {
          cells.push_back(v.cell);
          layers.push_back(v.layer);
        }
      });
      g.pg->remove_particles((int)cells.size(), cells, layers);
    }
    if (what == 2) { // other flags and cells
      const INT r = rng.below(1000), n = g.ncell, q = nsub + 1;
      auto d_cc = std::make_shared<BufferDevice<int>>(g.sycl_target, ccells);
      const int *pcc = d_cc->ptr;
      const int kc = cc;
      particle_loop(
          std::dynamic_pointer_cast<ParticleGroup>(g.pg),
          [=](auto ID, auto U, auto C, auto K) {
            const INT h = (ID.at(0) * 7919 + r * 104729) % 1000003;
            U.at(0) = h % q;
            const INT c = (h / 7) % n;
            if (h % 3 == 0 && pcc[c] > 0) {
              C.at(0) = c;
              K.at(kc) = h % pcc[c];
            }
          },
          Access::read(Sym<INT>("ID")), Access::write(Sym<INT>("U")),
          Access::write(Sym<INT>("CELL_ID")), Access::write(Sym<INT>("K")))
          ->execute();
      g.pg->cell_move();
    }
    state();
  }
  void construct(int i) {
    auto &P = parts[i];
    const int u = rng.below(nsub + 1);
    auto cnt = ccells;
    if (rng.chance(30))
      cnt.push_back(77); // may be longer
    P.p->construct(sub[u], cnt, Sym<INT>("S"), sc, Sym<INT>("K"), cc);
    // read everything back, as a kernel sees it
    const auto dev = P.p->get_device();
    const int ns = (int)P.p->species_ids.size();
    int mxc = 0;
    for (int x : ccells)
      mxc = std::max(mxc, x);
    std::vector<INT> h(g.ncell * std::max(mxc, 1) * ns, -1), lin(listed.size(), -1);
    BufferDevice<INT> d_h(g.sycl_target, h), d_lin(g.sycl_target, lin),
        d_ids(g.sycl_target, listed);
    INT *k_h = d_h.ptr, *k_lin = d_lin.ptr, *k_ids = d_ids.ptr;
    const int nc = g.ncell, nl = (int)listed.size();
    g.sycl_target->queue
        .parallel_for(sycl::range<1>(1),
                      [=](auto) {
                        for (int s = 0; s < nl; s++) {
                          INT o = -1;
                          k_lin[s] =
                              dev.get_linear_species_index(k_ids[s], &o) ? o : -1;
                        }
                        for (int c = 0; c < nc; c++)
                          for (int k = 0; k < mxc; k++)
                            for (int s = 0; s < ns; s++)
                              k_h[(c * mxc + k) * ns + s] =
                                  dev.get_num_particles_cell_species(c, k, s);
                      })
        .wait_and_throw();
    h = d_h.get();
    lin = d_lin.get();
    const INT NMAX = 300;
    std::vector<int> lay(h.size() * NMAX, -1);
    BufferDevice<int> d_lay(g.sycl_target, lay);
    int *k_lay = d_lay.ptr;
    g.sycl_target->queue
        .parallel_for(sycl::range<1>(1),
                      [=](auto) {
                        for (int c = 0; c < nc; c++)
                          for (int k = 0; k < mxc; k++)
                            for (int s = 0; s < ns; s++) {
                              const INT e = (c * mxc + k) * ns + s;
                              for (INT x = 0; x < k_h[e] && x < NMAX; x++)
                                k_lay[e * NMAX + x] =
                                    dev.get_particle_layer(c, k, s, x);
                            }
                      })
        .wait_and_throw();
    lay = d_lay.get();
    J got('[');
    for (int c = 0; c < nc; c++) {
      J oc('[');
      for (int k = 0; k < mxc; k++) {
        J ok('[');
        for (int s = 0; s < ns; s++) {
          const INT e = (c * mxc + k) * ns + s;
          J o('[');
          for (INT x = 0; x < std::min(h[e], NMAX); x++)
            o.addn(lay[e * NMAX + x]);
          ok.add(o.done());
        }
        oc.add(ok.done());
      }
      got.add(oc.done());
    }
    std::vector<INT> hl;
    for (auto s : listed)
      hl.push_back(P.p->get_linear_species_id(s));
    J e;
    e.str("ev", "construct").num("p", i).num("u", u);
    e.raw("ids", gather_each(J::list(P.p->species_ids)));
    e.raw("lin", gather_each(J::list(lin))).raw("hostlin", gather_each(J::list(hl)));
    e.raw("most", gather_each(J::integer(P.p->max_num_collision_cells)));
    e.raw("occ", gather_each(J::integer(P.p->max_collision_cell_occupancy)));
    e.raw("got", gather_each(got.done()));
    emit(e);
    P.known = true;
  }
  void ask(int i) { // how many pairs are there
    auto &P = parts[i];
    P.a = rng.pick(listed);
    P.b = rng.chance(45) ? P.a : rng.pick(listed);
    const bool repl = rng.chance(40);
    std::vector<std::vector<int>> m;
    if (rng.chance(50))
      m.resize(g.ncell + 1, std::vector<int>(12, -9));
    m.resize(rng.chance(50) ? 0 : m.size());
    P.p->get_max_num_pairs(P.a, P.b, repl, m);
    J o('[');
    for (auto &c : m) {
      J q('[');
      for (int x : c)
        q.addn(x == std::numeric_limits<int>::max() ? -1 : x);
      o.add(q.done());
    }
    J e;
    e.str("ev", "max").num("p", i).num("a", P.a).num("b", P.b);
    e.boo("repl", repl).raw("got", gather_each(o.done()));
    emit(e);
  }
  INT *d_rec = nullptr;
  static constexpr int CAP = 2000;
  // runs a loop over the pairs; what it saw
  template <typename L> std::string seen(std::shared_ptr<L> list) {
    if (!d_rec)
      d_rec = sycl::malloc_device<INT>(2 * CAP + 2, g.sycl_target->queue);
    std::vector<INT> h(2 * CAP + 2, 0);
    g.sycl_target->queue.memcpy(d_rec, h.data(), h.size() * sizeof(INT))
        .wait_and_throw();
    INT *rec = d_rec;
    auto A = std::dynamic_pointer_cast<ParticleGroup>(g.pg);
    std::vector<CellwisePairListAbsolute<ParticleGroup, L>> v;
    v.emplace_back(A, A, list);
    particle_pair_loop(
        v,
        [=](auto a, auto b) {
          sycl::atomic_ref<INT, sycl::memory_order::relaxed,
                           sycl::memory_scope::device>
              n(rec[2 * CAP]);
          const INT k = n.fetch_add((INT)1);
          if (k < CAP) {
            rec[2 * k] = a.at(0);
            rec[2 * k + 1] = b.at(0);
          }
        },
        Access::A(Access::read(Sym<INT>("ID"))),
        Access::B(Access::read(Sym<INT>("ID"))))
        ->execute();
    g.sycl_target->queue.memcpy(h.data(), d_rec, h.size() * sizeof(INT))
        .wait_and_throw();
    J o('[');
    for (INT k = 0; k < std::min<INT>(h[2 * CAP], CAP); k++)
      o.add(J('[').addn(h[2 * k]).addn(h[2 * k + 1]).done());
    return o.done();
  }
  void sample(int i) {
    auto &P = parts[i];
    P.a = rng.pick(listed);
    P.b = rng.chance(45) ? P.a : rng.pick(listed);
    std::vector<std::vector<int>> m;
    P.p->get_max_num_pairs(P.a, P.b, false, m);
    const int shape = rng.below(3);
    for (auto &c : m) {
      if (shape > 0)
        for (auto &x : c)
          x = mine.chance(40) ? x : mine.below(x + 1);
      if (shape == 2 && mine.chance(40)) {
        c.resize(mine.below((int)c.size() + 1));
        if (mine.chance(20))
          c.clear();
      }
    }
    mode = rng.below(7);
    auto &s = samp[rng.below((int)samp.size())];
    s->sample(P.p, P.a, P.b, m);
    auto hm = s->get_host_pair_list();
    bool waves = true;
    J got('[');
    for (int c = 0; c < g.ncell; c++) {
      J o('[');
      if (hm.count(c))
        for (auto &w : hm.at(c)) {
          waves = waves && w.first == 0;
          for (std::size_t k = 0; k < w.second.first.size(); k++)
            o.add(J('[').addn(w.second.first.at(k)).addn(w.second.second.at(k))
                      .done());
        }
      got.add(o.done());
    }
    J e;
    e.str("ev", "sample").num("p", i).num("a", P.a).num("b", P.b);
    e.raw("req", gather_each(J::list(m))).raw("got", gather_each(got.done()));
    e.raw("onewave", gather_each(waves ? "true" : "false"));
    e.raw("count", gather_each(J::integer(s->get_pair_list().pair_count)));
    e.raw("seen", gather_each(seen<CellwisePairList>(s)));
    emit(e);
  }
  void with_replacement() {
    int a = rng.below(nsub + 1), b = rng.below(nsub + 1);
    if (a == nsub || rng.chance(50))
      b = a;
    if (b == nsub)
      a = b;
    std::vector<int> req(g.ncell);
    const int many = rng.pick(std::vector<int>{1, 4, 12, 40});
    for (int c = 0; c < g.ncell; c++) {
      const int x = mine.below(4) == 0 ? 0 : mine.in(0, many);
      const INT na = sub[a]->get_npart_cell(c), nb = sub[b]->get_npart_cell(c);
      req[c] = a == b ? (na >= 2 ? x : 0) : (na >= 1 && nb >= 1 ? x : 0);
    }
    mode = rng.below(7);
    auto &s = ntc[rng.below((int)ntc.size())];
    s->sample(sub[a], sub[b], req);
    auto m = s->get_host_pair_list(g.sycl_target);
    J got('[');
    for (int c = 0; c < g.ncell; c++) {
      J o('[');
      for (std::size_t k = 0; k < std::get<0>(m[c]).size(); k++)
        o.add(J('[').addn(std::get<0>(m[c]).at(k)).addn(std::get<1>(m[c]).at(k))
                  .addn(std::get<2>(m[c]).at(k)).done());
      got.add(o.done());
    }
    std::vector<int> occ;
    s->get_wave_occupancy_counts(g.sycl_target, occ);
    J e;
    e.str("ev", "ntc").num("a", a).num("b", b);
    e.raw("req", gather_each(J::list(req))).raw("got", gather_each(got.done()));
    e.raw("valid", gather_each(s->validate_pair_list(g.sycl_target) ? "true"
                                                                   : "false"));
    e.raw("occ", gather_each(J::list(occ)));
    e.raw("seen", gather_each(seen<CellwisePairListBlockInterface>(s)));
    emit(e);
  }
  void done() {
    if (d_rec)
      sycl::free(d_rec, g.sycl_target->queue);
    g.free();
  }
};

static void all_to_all(Rng &rng) {
  const int ws = 1 << rng.below(5), n = rng.below(ws > 4 ? 2 * ws + 3 : 18);
  J items('[');
  for (int i = 0; i < ws; i++) {
    std::vector<std::vector<std::array<int, 2>>> steps(1);
    DSMC::CellwiseAllToAll(ws, i).apply(
        n, [&](auto r, auto c) { steps.back().push_back({(int)r, (int)c}); },
        [&]() { steps.emplace_back(); });
    items.add(J::list(steps));
  }
  J e;
  e.str("ev", "all").num("n", n).raw("items", items.done());
  emit(e);
}

static void trace(int t) {
  World w(mix(ctx().seed, t, 0xd53c));
  auto &r = w.rng;
  for (int o = 0; o < ctx().get("ops", 20); o++) {
    const int i = r.below((int)w.parts.size());
    switch (r.below(8)) {
    case 0:
      w.change();
      break;
    case 1:
      w.construct(i);
      break;
    case 2:
      if (!w.parts[i].known)
        w.construct(i);
      w.ask(i);
      break;
    case 3:
    case 4:
      if (!w.parts[i].known)
        w.construct(i);
      w.sample(i);
      break;
    case 5:
      all_to_all(r);
      break;
    default:
      w.with_replacement();
    }
  }
  w.done();
}

int main(int argc, char **argv) {
  init(argc, argv);
  for (int t = 0; t < ctx().get("traces", 3); t++)
    trace(t);
  finish();
  return 0;
}
