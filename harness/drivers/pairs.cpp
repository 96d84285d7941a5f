// Conformance driver for spec/PairLoopTrace: pair lists and loops over pairs.
#include "../rig.hpp"
using namespace nv;

// a block list with the waves given by the driver
struct BlockList : public CellwisePairListBlockInterface {
  SYCLTargetSharedPtr target;
  CellwisePairListBlockDevice d;
  std::vector<std::unique_ptr<BufferDevice<int>>> keep;
  std::unique_ptr<BufferDevice<INT>> es;
  int *buffer(const std::vector<int> &v) {
    std::vector<int> w(v);
    w.push_back(-1);
    keep.push_back(std::make_unique<BufferDevice<int>>(target, w));
    return keep.back()->ptr;
  }
  // cells: for each cell <i, j, wave> in order
  void set(SYCLTargetSharedPtr t, int size,
           const std::vector<std::vector<std::array<int, 3>>> &cells) {
    target = t;
    keep.clear();
    const int nc = (int)cells.size();
    std::vector<int> count, list[3];
    std::vector<INT> scan;
    int nb = 1, maxw = 0;
    for (auto &c : cells)
      nb = std::max(nb, ((int)c.size() + size - 1) / size);
    std::vector<int> waves(nb * nc, 0);
    for (int c = 0; c < nc; c++) {
      scan.push_back((INT)list[0].size());
      count.push_back((int)cells[c].size());
      for (int i = 0; i < (int)cells[c].size(); i++) {
        for (int k = 0; k < 3; k++)
          list[k].push_back(cells[c][i][k]);
        int &w = waves[(i / size) * nc + c];
        w = std::max(w, cells[c][i][2] + 1);
        maxw = std::max(maxw, w);
      }
    }
    d.pair_count = (INT)list[0].size();
    d.block_size = size;
    d.cell_count = nc;
    d.max_wave_count = maxw;
    d.d_wave_counts = buffer(waves);
    d.d_pair_counts = buffer(count);
    es = std::make_unique<BufferDevice<INT>>(t, scan);
    d.d_pair_counts_es = es->ptr;
    std::vector<int> all;
    for (auto &x : list)
      all.insert(all.end(), x.begin(), x.end());
    d.d_pair_list = buffer(all);
  }
  CellwisePairListBlockDevice get_pair_list() override { return d; }
};

struct World {
  Rng rng, mine;
  Rig g;
  ParticleGroupSharedPtr A, B;
  bool same;
  int local;
  std::vector<int> na, nb; // particles in each cell of the two groups
  std::map<std::string, std::shared_ptr<CellwisePairListSimple>> simple;
  std::map<std::string, std::shared_ptr<BlockList>> block;
  std::map<std::string, bool> clean, odd; // no conflicts on any rank; cells
  std::map<std::string, std::set<std::array<int, 2>>> used;

  static std::vector<int> dims(Rng &r) {
    return {r.in(1, 3), std::max(ctx().size, r.in(1, 3))};
  }
  World(std::uint64_t s)
      : rng(s), mine(mix(s, ctx().rank + 1)), g(2, dims(rng), rng.below(2)) {
    local = rng.pick(std::vector<int>{1, 2, 4, 8, 32});
    g.param("LOOP_LOCAL_SIZE", local);
    same = rng.chance(65);
    auto spec = g.base_spec();
    spec.push(ParticleProp(Sym<INT>("V"), 1));
    g.make(spec);
    A = g.pg;
    B = A;
    if (!same)
      B = std::make_shared<ParticleGroup>(g.domain, spec, g.sycl_target);
    const int most = rng.pick(std::vector<int>{2, 5, 12, 24});
    auto f = [&](ParticleSet &ps, int k, INT, int) {
      ps[Sym<INT>("V")][k][0] = mine.below(9000);
    };
    na = occupancies(mine, g.ncell, most);
    g.add(na, f);
    nb = na;
    if (!same) {
      nb = occupancies(mine, g.ncell, most);
      g.pg = B;
      g.add(nb, f);
      g.pg = A;
    }
    state(true);
  }
  std::string rows(ParticleGroupSharedPtr p) {
    return gather_each(cells_json(p, [](const RowView &v) {
      return J('[').addn(v.integer("ID")).addn(v.integer("V")).done();
    }));
  }
  void state(bool fresh) {
    J j;
    j.str("ev", "set").boo("fresh", fresh).boo("same", same);
    j.raw("A", rows(A)).raw("B", rows(B));
    emit(j);
  }
  // some pairs of this rank: anything, or without conflicts with earlier ones
  // of this list
  std::vector<std::array<int, 3>> draw(const std::string &k, bool disjoint,
                                       bool selfok) {
    std::vector<std::array<int, 3>> q;
    const int shape = mine.below(4);
    for (int c = 0; c < g.ncell; c++) {
      if (na[c] == 0 || nb[c] == 0 || (shape == 1 && mine.chance(60)))
        continue;
      if (odd.count(k) && odd[k] != (c % 2 == 1))
        continue;
      int n = shape == 0 ? mine.below(3) : mine.below(na[c] + 2);
      if (shape == 3 && c == 0)
        n += 2 * local;
      for (int t = 0; t < n; t++) {
        int i = mine.below(na[c]), j = mine.below(nb[c]);
        if (!selfok && i == j)
          continue;
        if (disjoint) {
          if (i == j || used[k].count({c, i}) || used[k].count({c, j}))
            continue;
          used[k].insert({c, i});
          used[k].insert({c, j});
        }
        q.push_back({c, i, j});
      }
    }
    // the cells of a list need not come in order
    for (int i = (int)q.size() - 1; i > 0; i--)
      if (shape != 2)
        std::swap(q[i], q[mine.below(i + 1)]);
    return q;
  }
  std::string waves(const CellwisePairListHostMap &m) {
    J cs('[');
    for (int c = 0; c < g.ncell; c++) {
      J ws('[');
      if (m.count(c))
        for (int w = 0; w < (int)m.at(c).size(); w++) {
          J ps('[');
          auto it = m.at(c).find(w);
          if (it != m.at(c).end())
            for (std::size_t i = 0; i < it->second.first.size(); i++)
              ps.add(J('[').addn(it->second.first.at(i)).addn(
                                 it->second.second.at(i)).done());
          ws.add(ps.done());
        }
      cs.add(ws.done());
    }
    return cs.done();
  }
  void fresh(const std::string &k) {
    auto &s = simple[k];
    if (!s)
      s = std::make_shared<CellwisePairListSimple>(g.sycl_target, g.ncell);
    else
      s->clear();
    used[k].clear();
    J j;
    j.str("ev", "new").str("k", k);
    emit(j);
  }
  void push(const std::string &k, bool disjoint) {
    if (!simple.count(k) || rng.chance(25))
      fresh(k);
    auto q = draw(k, disjoint, true);
    std::vector<int> c, i, j;
    for (auto &x : q) {
      c.push_back(x[0]);
      i.push_back(x[1]);
      j.push_back(x[2]);
    }
    simple[k]->push_back(c, i, j);
    clean[k] = disjoint;
    J e;
    e.str("ev", "push").str("k", k).raw("q", gather_each(J::list(q)));
    emit(e);
  }
  void host(const std::string &k) {
    if (!simple.count(k))
      fresh(k);
    else if (rng.chance(30))
      simple[k]->clear();
    auto h = std::make_shared<CellwisePairListHost>(g.ncell);
    if (rng.chance(20)) {
      for (auto &x : draw(k, false, false))
        h->push_back(x[0], x[1], x[2]);
      h->clear();
    }
    auto q = draw(k, false, false);
    for (auto &x : q)
      h->push_back(x[0], x[1], x[2]);
    simple[k]->set(h);
    clean[k] = true;
    J e;
    e.str("ev", "host").str("k", k).raw("q", gather_each(J::list(q)));
    e.raw("got", gather_each(waves(h->get())));
    emit(e);
  }
  void get(const std::string &k) {
    J e;
    e.str("ev", "get").str("k", k);
    auto d = simple[k]->get_pair_list();
    e.raw("got", gather_each(waves(simple[k]->get_host_pair_list())));
    e.raw("count", gather_each(J::integer(d.pair_count)));
    emit(e);
  }
  void blocks(const std::string &k) {
    auto &b = block[k];
    if (!b)
      b = std::make_shared<BlockList>();
    const bool bad = rng.chance(45);
    std::vector<std::vector<std::array<int, 3>>> cells(g.ncell);
    for (auto &x : draw(k, false, false))
      cells[x[0]].push_back({x[1], x[2], 0});
    for (auto &c : cells)
      for (int s = 0; s < (int)c.size(); s += local) {
        const int e = std::min(s + local, (int)c.size());
        std::map<int, int> next;
        for (int i = s; i < e; i++) {
          const int w = std::max(next[c[i][0]], next[c[i][1]]);
          c[i][2] = w;
          next[c[i][0]] = next[c[i][1]] = w + 1;
        }
        if (bad && mine.chance(70))
          c[s + mine.below(e - s)][2] = 0;
      }
    b->set(g.sycl_target, local, cells);
    const bool valid = b->validate_pair_list(g.sycl_target);
    int v = valid, all = 0;
    MPI_Allreduce(&v, &all, 1, MPI_INT, MPI_MIN, MPI_COMM_WORLD);
    clean[k] = all;
    std::vector<int> occ, glob;
    b->get_wave_occupancy_counts(g.sycl_target, occ);
    get_global_wave_occupancy_counts(g.sycl_target, occ, glob);
    auto m = b->get_host_pair_list(g.sycl_target);
    J got('[');
    for (int c = 0; c < g.ncell; c++) {
      J o('[');
      for (std::size_t i = 0; i < std::get<0>(m[c]).size(); i++)
        o.add(J('[').addn(std::get<0>(m[c]).at(i)).addn(std::get<1>(m[c]).at(i))
                  .addn(std::get<2>(m[c]).at(i)).done());
      got.add(o.done());
    }
    J e;
    e.str("ev", "block").str("k", k).num("size", local);
    e.raw("cells", gather_each(J::list(cells)));
    e.raw("got", gather_each(got.done()));
    e.raw("valid", gather_each(valid ? "true" : "false"));
    e.raw("occ", gather_each(J::list(occ)));
    e.raw("glob", gather_each(J::list(glob)));
    emit(e);
  }

  std::map<std::string, ParticlePairLoopBaseSharedPtr> loops;
  INT *d_rec = nullptr;
  std::shared_ptr<LocalArray<INT>> runs;
  std::shared_ptr<NDLocalArray<INT, 2>> runs2;
  INT drawn = 0;
  static constexpr int CAP = 4000;

  template <typename L> ParticlePairLoopBaseSharedPtr make(L ls, int variant) {
    INT *rec = d_rec;
    auto note = [=](INT idx, INT cell, INT a, INT b, INT r) {
      if (idx < 0 || idx >= CAP)
        idx = CAP;
      rec[5 * idx] += 1;
      rec[5 * idx + 1] = cell;
      rec[5 * idx + 2] = a;
      rec[5 * idx + 3] = b;
      rec[5 * idx + 4] = r;
    };
    const auto ID = Sym<INT>("ID"), V = Sym<INT>("V"), C = Sym<INT>("CELL_ID");
    if (variant == 0)
      return particle_pair_loop(
          ls,
          [=](auto ix, auto a, auto b, auto ca, auto cb, auto n) {
            note(ix.get_loop_linear_index(), ca.at(0) == cb.at(0) ? ca.at(0) : -9,
                 a.at(0), b.at(0), 0);
            n.fetch_add(0, 1);
          },
          Access::read(ParticlePairLoopIndex{}), Access::A(Access::read(ID)),
          Access::B(Access::read(ID)), Access::A(Access::read(C)),
          Access::B(Access::read(C)), Access::add(runs));
    if (variant == 1) {
      auto rng = host_per_particle_block_rng<INT>([&]() { return drawn++; }, 1);
      return particle_pair_loop(
          "with more arguments", ls,
          [=](auto sa, auto ix, auto n, auto sb, auto rn) {
            bool ok = false;
            const INT r = rn.at(ix, 0, &ok);
            note(ix.get_loop_linear_index(),
                 sa.at(1, 0) == sb.at(0, 0) ? sa.at(1, 0) : -9, sa.at(0, 0),
                 sb.at(1, 0), ok ? r : -1);
            n.fetch_add(1, 2, 1);
          },
          Access::A(Access::read(sym_vector<INT>(A, {ID, C}))),
          Access::read(ParticlePairLoopIndex{}), Access::add(runs2),
          Access::B(Access::read(sym_vector<INT>(B, {C, ID}))),
          Access::read(rng));
    }
    return particle_pair_loop(
        ls,
        [=](auto vb, auto va, auto ix, auto a, auto b, auto ca, auto n) {
          const INT x = va.at(0), y = vb.at(0);
          va.at(0) = (3 * x + 2 * y + 1) % 9973;
          vb.at(0) = (5 * y + x + 7) % 9973;
          note(ix.get_loop_linear_index(), ca.at(0), a.at(0), b.at(0), 0);
          n.fetch_add(0, 1);
        },
        Access::B(Access::write(V)), Access::A(Access::write(V)),
        Access::read(ParticlePairLoopIndex{}), Access::A(Access::read(ID)),
        Access::B(Access::read(ID)), Access::A(Access::read(C)),
        Access::add(runs));
  }
  void loop(const std::vector<std::string> &ks, int variant) {
    if (!d_rec) {
      d_rec = sycl::malloc_device<INT>(5 * (CAP + 1), g.sycl_target->queue);
      runs = std::make_shared<LocalArray<INT>>(g.sycl_target, 1);
      runs2 = std::make_shared<NDLocalArray<INT, 2>>(g.sycl_target, 2, 3);
    }
    std::vector<INT> h(5 * (CAP + 1), 0);
    g.sycl_target->queue.memcpy(d_rec, h.data(), h.size() * sizeof(INT))
        .wait_and_throw();
    runs->fill(0);
    runs2->fill(0);
    drawn = 0;
    std::string name = std::to_string(variant);
    for (auto &k : ks)
      name += "," + k;
    auto &l = loops[name];
    const bool again = rng.chance(40); // loops may be kept
    if (!l || !again) {
      if (simple.count(ks[0])) {
        std::vector<CellwisePairListAbsolute<ParticleGroup, CellwisePairList>> v;
        for (auto &k : ks)
          v.emplace_back(A, B, simple[k]);
        l = make(v, variant);
      } else {
        std::vector<CellwisePairListAbsolute<ParticleGroup,
                                             CellwisePairListBlockInterface>> v;
        for (auto &k : ks)
          v.emplace_back(A, B, block[k]);
        l = make(v, variant);
      }
    }
    int cs = 0, ce = g.ncell;
    const int range = rng.below(4), split = rng.below(2);
    if (range == 1) {
      cs = mine.below(g.ncell);
      ce = mine.in(cs, g.ncell);
    }
    auto go = [&](auto... r) {
      if (split) {
        l->submit(r...);
        l->wait();
      } else {
        l->execute(r...);
      }
    };
    if (range == 1)
      go(cs, ce);
    else if (range == 2) {
      cs = mine.below(g.ncell);
      go(cs);
    } else
      go();
    g.sycl_target->queue.memcpy(h.data(), d_rec, h.size() * sizeof(INT))
        .wait_and_throw();
    J rec('[');
    for (int i = 0; i <= CAP; i++)
      for (int n = 0; n < h[5 * i]; n++) {
        J o('[');
        o.addn(i == CAP ? -1 : i);
        for (int k = 1; k < 5; k++)
          o.addn(h[5 * i + k]);
        rec.add(o.done());
      }
    const INT n = variant == 1 ? runs2->get().at(1 * 3 + 2) : runs->get().at(0);
    J e;
    e.str("ev", "loop").arr("lists", ks).boo("rng", variant == 1);
    e.boo("write", variant == 2);
    e.raw("cs", gather_each(std::to_string(cs)));
    e.raw("ce", gather_each(std::to_string(ce)));
    e.raw("runs", gather_each(J::integer(n))).raw("rec", gather_each(rec.done()));
    e.raw("A", rows(A)).raw("B", rows(B));
    emit(e);
  }
  void done() {
    loops.clear();
    if (d_rec)
      sycl::free(d_rec, g.sycl_target->queue);
    if (!same)
      B->free();
    g.free();
  }
};

static void trace(int t) {
  World w(mix(ctx().seed, t, 0x9a125));
  auto &r = w.rng;
  for (const char *k : {"H1", "H2", "B1", "B2", "F1", "F2"})
    w.odd[k] = k[1] == '2';
  using S = std::string;
  for (int o = 0; o < ctx().get("ops", 20); o++) {
    switch (r.below(8)) {
    case 0:
      w.push(r.pick(std::vector<S>{"S0", "S1"}), false);
      break;
    case 1:
      w.push(r.pick(std::vector<S>{"F0", "F1", "F2"}), true);
      break;
    case 2:
      if (w.same)
        w.host(r.pick(std::vector<S>{"H0", "H1", "H2"}));
      break;
    case 3:
      w.blocks(r.pick(std::vector<S>{"B0", "B1", "B2"}));
      break;
    case 4:
      if (!w.simple.empty()) {
        auto it = w.simple.begin();
        std::advance(it, r.below((int)w.simple.size()));
        w.get(it->first);
      }
      break;
    default: {
      // lists of one kind
      const bool b = !w.block.empty() && r.chance(w.simple.empty() ? 100 : 45);
      std::vector<S> have, ks;
      if (b)
        for (auto &x : w.block)
          have.push_back(x.first);
      else
        for (auto &x : w.simple)
          have.push_back(x.first);
      if (have.empty())
        break;
      const bool write = r.chance(50);
      const int n = r.in(1, 3);
      for (int i = 0; i < n; i++) {
        const S k = r.pick(have);
        if (write) {
          bool ok = w.clean.count(k) && w.clean[k];
          for (auto &x : ks)
            ok = ok && w.odd.count(k) && w.odd.count(x) && w.odd[k] != w.odd[x];
          if (!ok)
            continue;
        }
        ks.push_back(k);
      }
      if (ks.size())
        w.loop(ks, write ? 2 : r.below(2));
    }
    }
  }
  w.done();
}

int main(int argc, char **argv) {
  init(argc, argv);
  for (int t = 0; t < ctx().get("traces", 3); t++)
    trace(t);
  finish();
  return 0;
}
