// Particle loops against spec/Loop.tla.
#include "../rig.hpp"
#include <fstream>
using namespace nv;

namespace {
struct T {
  Rig &g;
  Rng &rng;
  INT *d_hits, *d_a;
  int cap;
  ParticleSubGroupSharedPtr sub;
  int m, k;
  std::shared_ptr<CellDatConst<INT>> red;
  std::map<int, ParticleLoopSharedPtr> loops;

  std::string state() {
    return gather_each(cells_json(g.pg, [&](const RowView &v) {
      J j('[');
      j.addn(v.integer("ID")).addn(v.integer("N"));
      std::vector<long> a, b, x;
      for (int c = 0; c < 3; c++)
        a.push_back((long)v.real("V", c));
      for (int c = 0; c < 2; c++)
        b.push_back((long)v.integer("W", c));
      for (int c = 0; c < 8; c++)
        x.push_back((long)v.integer("IX", c));
      j.add(J::list(a)).add(J::list(b)).add(J::list(x));
      return j.done();
    }));
  }
  void emit_set(const char *why) {
    J j;
    j.str("ev", "set").str("why", why).raw("st", state());
    emit(j);
  }
  static void fill(ParticleSet &ps, int r, INT id, int) {
    for (int c = 0; c < 3; c++)
      ps[Sym<REAL>("V")][r][c] = (double)(id % 97 + c * 100);
    for (int c = 0; c < 2; c++)
      ps[Sym<INT>("W")][r][c] = id % 7 + c * 10;
    for (int c = 0; c < 8; c++)
      ps[Sym<INT>("IX")][r][c] = -1;
  }

  // the kernel bodies
  template <typename IT> ParticleLoopSharedPtr make(IT it, int variant) {
    INT *hits = d_hits, *a = d_a;
    const INT rid = (INT)ctx().rank * Rig::RANK_ID;
    auto mark = [=](INT id) {
      sycl::atomic_ref<INT, sycl::memory_order::relaxed,
                       sycl::memory_scope::device>
          h(hits[id - rid]);
      h.fetch_add((INT)1);
    };
    auto index = [=](auto &IX, auto &ix, auto &ci) {
      IX.at(0) = ix.cell;
      IX.at(1) = ix.layer;
      IX.at(2) = ix.loop_layer;
      IX.at(3) = ix.get_local_linear_index();
      IX.at(4) = ix.get_loop_linear_index();
      IX.at(5) = ix.get_sub_linear_index();
      IX.at(6) = ci.get();
    };
    auto body = [=](auto &ID, auto &N, auto &V, auto &W, bool ww) {
      mark(ID.at(0));
      N.at(0) += 1;
      for (int c = 0; c < 3; c++)
        V.at(c) += (double)(*a * (c + 1) + W.at(c % 2));
      (void)ww;
    };
    if (variant == 0) {
      return particle_loop(
          "direct", it,
          [=](auto ix, auto ci, auto ID, auto N, auto V, auto W, auto IX) {
            body(ID, N, V, W, true);
            for (int c = 0; c < 2; c++)
              W.at(c) += *a + c;
            index(IX, ix, ci);
            IX.at(7) = ID.at(0);
          },
          Access::read(ParticleLoopIndex{}), Access::read(CellInfoNPart{}),
          Access::read(Sym<INT>("ID")), Access::write(Sym<INT>("N")),
          Access::write(Sym<REAL>("V")), Access::write(Sym<INT>("W")),
          Access::write(Sym<INT>("IX")));
    }
    if (variant == 1) {
      return particle_loop(
          "symvector", it,
          [=](auto ix, auto ci, auto RI, auto WI, auto WR) {
            const INT id = RI.at(0, 0);
            mark(id);
            WI.at(0, ix, 0) += 1;
            for (int c = 0; c < 3; c++)
              WR.at(0, c) += (double)(*a * (c + 1) + RI.at(1, ix, c % 2));
            for (int c = 0; c < 7; c++) {
              INT v[7] = {ix.cell, ix.layer, ix.loop_layer,
                          ix.get_local_linear_index(),
                          ix.get_loop_linear_index(), ix.get_sub_linear_index(),
                          ci.get()};
              WI.at(1, c) = v[c];
            }
            WI.at(1, 7) = RI.at(0, (int)ix.cell, (int)ix.layer, 0);
          },
          Access::read(ParticleLoopIndex{}), Access::read(CellInfoNPart{}),
          Access::read(sym_vector<INT>(
              g.pg, {Sym<INT>("ID"), Sym<INT>("W")})),
          Access::write(sym_vector<INT>(g.pg, {Sym<INT>("N"), Sym<INT>("IX")})),
          Access::write(sym_vector<REAL>(g.pg, {Sym<REAL>("V")})));
    }
    if (variant == 2) {
      return particle_loop(
          "localmem",
          it,
          Kernel::Kernel(
              [=](auto ix, auto ci, auto LB, auto LI, auto ID, auto N, auto V,
                  auto W, auto IX) {
                mark(ID.at(0));
                for (int c = 0; c < 5; c++)
                  LB.at(c) = (double)(*a * (c + 1));
                for (int c = 0; c < 3; c++)
                  LI.at(c) = W.at(c % 2);
                N.at(0) += 1;
                for (int c = 0; c < 3; c++)
                  V.at(c) += LB.at(c) + (double)LI.at(c);
                index(IX, ix, ci);
                IX.at(7) = ID.at(0);
              },
              Kernel::Metadata(Kernel::NumBytes(8), Kernel::NumFLOP(4))),
          Access::read(ParticleLoopIndex{}), Access::read(CellInfoNPart{}),
          Access::write(std::make_shared<LocalMemoryBlock<REAL>>(5)),
          Access::write(std::make_shared<LocalMemoryInterlaced<INT>>(3)),
          Access::read(Sym<INT>("ID")), Access::write(Sym<INT>("N")),
          Access::write(Sym<REAL>("V")), Access::read(Sym<INT>("W")),
          Access::write(Sym<INT>("IX")));
    }
    return particle_loop(
        "reduction", it,
        [=](auto ix, auto ci, auto R, auto ID, auto N, auto V, auto W,
            auto IX) {
          body(ID, N, V, W, false);
          R.combine(0, 0, (INT)1);
          R.combine(1, 1, (INT)W.at(0));
          index(IX, ix, ci);
          IX.at(7) = ID.at(0);
        },
        Access::read(ParticleLoopIndex{}), Access::read(CellInfoNPart{}),
        Access::reduce(red, Kernel::plus<INT>()), Access::read(Sym<INT>("ID")),
        Access::write(Sym<INT>("N")), Access::write(Sym<REAL>("V")),
        Access::read(Sym<INT>("W")), Access::write(Sym<INT>("IX")));
  }
  ParticleLoopSharedPtr make_dat() {
    INT *hits = d_hits, *a = d_a;
    const INT rid = (INT)ctx().rank * Rig::RANK_ID;
    auto d = [&](auto s) { return g.pg->get_dat(s); };
    return particle_loop(
        "dat", d(Sym<INT>("W")),
        [=](auto ix, auto ID, auto N, auto V, auto W, auto IX) {
          sycl::atomic_ref<INT, sycl::memory_order::relaxed,
                           sycl::memory_scope::device>
              h(hits[ID.at(0) - rid]);
          h.fetch_add((INT)1);
          N.at(0) += 1;
          for (int c = 0; c < 3; c++)
            V.at(c) += (double)(*a * (c + 1) + W.at(c % 2));
          IX.at(0) = ix.cell;
          IX.at(1) = ix.layer;
          IX.at(2) = ix.loop_layer;
          IX.at(7) = ID.at(0);
        },
        Access::read(ParticleLoopIndex{}), Access::read(d(Sym<INT>("ID"))),
        Access::write(d(Sym<INT>("N"))), Access::write(d(Sym<REAL>("V"))),
        Access::read(d(Sym<INT>("W"))), Access::write(d(Sym<INT>("IX"))));
  }

  // on: 0 group, 1 sub-group, 2 sub-group that is the whole group, 3 dat
  void run(int on, int variant, bool reuse,
           std::vector<std::pair<int, int>> ranges, bool all, bool single,
           bool async) {
    INT a = rng.in(1, 5);
    auto &q = g.sycl_target->queue;
    q.fill(d_hits, (INT)0, cap).wait_and_throw();
    q.memcpy(d_a, &a, sizeof(INT)).wait_and_throw();
    red->fill(0);
    ParticleLoopSharedPtr lp;
    int key = on * 10 + variant;
    if (reuse && loops.count(key))
      lp = loops[key];
    else {
      if (on == 0)
        lp = make(g.pg, variant);
      else if (on == 1)
        lp = make(sub, variant);
      else if (on == 2)
        lp = make(particle_sub_group(g.pg), variant);
      else
        lp = make_dat();
      loops[key] = lp;
    }
    if (all) {
      if (async) {
        lp->submit();
        lp->wait();
      } else
        lp->execute();
    } else if (async || ranges.size() > 1) {
      for (auto &r : ranges) {
        if (single && r.second == r.first + 1)
          lp->submit(r.first);
        else
          lp->submit(r.first, r.second);
      }
      if (ranges.size())
        lp->wait();
    } else
      for (auto &r : ranges) {
        if (single && r.second == r.first + 1)
          lp->execute(r.first);
        else
          lp->execute(r.first, r.second);
      }
    std::vector<INT> h(cap);
    q.memcpy(h.data(), d_hits, cap * sizeof(INT)).wait_and_throw();
    std::vector<std::string> hs;
    const INT rid = (INT)ctx().rank * Rig::RANK_ID;
    for (int i = 0; i < cap; i++)
      if (h[i])
        hs.push_back("[" + std::to_string(rid + i) + "," +
                     std::to_string(h[i]) + "]");
    std::vector<std::vector<int>> rs;
    if (all)
      rs.push_back({0, g.ncell});
    else
      for (auto &r : ranges)
        rs.push_back({r.first, r.second});
    J j;
    const char *kn[] = {"group", "sub", "whole", "dat"};
    j.str("ev", "loop").str("on", kn[on]).num("var", variant);
    j.boo("reuse", reuse).num("a", a);
    j.num("m", on == 1 ? m : 1).num("k", on == 1 ? k : 0);
    j.raw("rs", gather_each(J::list(rs)));
    j.raw("hits", gather_list(hs));
    J rj('[');
    if (variant == 3)
      for (int c = 0; c < g.ncell; c++)
        rj.add("[" + std::to_string(red->get_value(c, 0, 0)) + "," +
               std::to_string(red->get_value(c, 1, 1)) + "]");
    j.raw("red", gather_each(rj.done()));
    j.raw("st", state());
    emit(j);
  }
};

void trace(Rng &rng, std::vector<int> occ, int nbin, int ls, int cs, int ce,
           int mod, bool scripted, int maxocc, int nops) {
  int nd = rng.in(2, 3);
  const bool flat = rng.chance(40);
  std::vector<int> dims;
  for (int d = 0; d < nd; d++) {
    const int a = rng.in(3, 12), b = rng.in(2, 3);
    dims.push_back(flat ? (d == 0 ? a : 1) : b);
  }
  if (scripted) {
    nd = 2;
    dims = {(int)occ.size(), 1};
  } else
    dims[0] = std::max(dims[0], ctx().size); // room for every rank
  Rig g(nd, dims);
  auto sp = g.base_spec();
  sp.push(ParticleProp(Sym<INT>("N"), 1));
  sp.push(ParticleProp(Sym<REAL>("V"), 3));
  sp.push(ParticleProp(Sym<INT>("W"), 2));
  sp.push(ParticleProp(Sym<INT>("IX"), 8));
  g.make(sp);
  Rng mine(mix(rng.next(), ctx().rank)); // rank local choices
  if (ls > 0)
    g.param("LOOP_LOCAL_SIZE", ls);
  if (nbin > 0)
    g.param("LOOP_NBIN", nbin);
  T t{g, rng, nullptr, nullptr, 4096, nullptr, 0, 0, nullptr, {}};
  t.d_hits = sycl::malloc_device<INT>(t.cap, g.sycl_target->queue);
  t.d_a = sycl::malloc_device<INT>(1, g.sycl_target->queue);
  t.red = std::make_shared<CellDatConst<INT>>(g.sycl_target, g.ncell, 2, 2);
  t.m = mod;
  t.k = rng.below(mod);
  J j;
  j.str("ev", "init").num("nr", ctx().size).num("nbin", nbin).num("ls", ls);
  emit(j);
  if (!scripted)
    occ = occupancies(mine, g.ncell, maxocc);
  g.add(occ, T::fill);
  t.emit_set("add");
  const int m = t.m, k = t.k;
  t.sub = particle_sub_group(
      g.pg, [=](auto ID) { return ID.at(0) % m == k; },
      Access::read(Sym<INT>("ID")));
  if (scripted) {
    std::vector<std::pair<int, int>> r = {{cs, ce}};
    for (int on : {0, 1})
      for (int v : {0, 3}) {
        t.run(on, v, false, r, false, false, false);
        t.run(on, v, true, {}, true, false, false);
      }
  } else {
    for (int o = 0; o < nops; o++) {
      int act = rng.below(10);
      if (act == 0 && g.next < t.cap / 2) {
        g.add(occupancies(mine, g.ncell, std::max(1, maxocc / 3)), T::fill);
        t.emit_set("add");
      } else if (act == 1) {
        const int s = rng.below(1000), pct = rng.pick(std::vector<int>{10, 50, 100});
        g.pg->remove_particles(particle_sub_group(
            g.pg, [=](auto ID) { return (int)(mix(s, ID.at(0)) % 100) < pct; },
            Access::read(Sym<INT>("ID"))));
        t.emit_set("remove");
      } else if (act == 2) {
        const int s = rng.below(1000), nc = g.ncell;
        particle_loop(
            g.pg,
            [=](auto ID, auto C) {
              C.at(0) = (INT)(mix(s, ID.at(0)) % nc);
            },
            Access::read(Sym<INT>("ID")), Access::write(Sym<INT>("CELL_ID")))
            ->execute();
        g.pg->cell_move();
        t.emit_set("cell move");
      }
      int on = rng.pick(std::vector<int>{0, 0, 1, 1, 1, 2, 3});
      int variant = on == 3 ? 9 : rng.below(4);
      bool all = rng.chance(35), reuse = rng.chance(60),
           single = rng.chance(60), async = rng.chance(40);
      int shape = rng.below(3);
      std::vector<std::pair<int, int>> rs;
      if (shape == 0) {
        int c = mine.below(g.ncell);
        rs = {{c, c + 1}};
      } else if (shape == 1) {
        int a = mine.in(0, g.ncell), b = mine.in(0, g.ncell);
        rs = {{std::min(a, b), std::max(a, b)}};
      } else { // several cells, one wait
        for (int c = 0; c < g.ncell; c++)
          if (mine.chance(60))
            rs.push_back({c, c + 1});
        if (rs.size() == 0)
          rs.push_back({0, 1});
      }
      t.run(on, variant, reuse, rs, all, single, async);
    }
  }
  t.loops.clear();
  t.sub = nullptr;
  sycl::free(t.d_hits, g.sycl_target->queue);
  sycl::free(t.d_a, g.sycl_target->queue);
  g.free();
}
} // namespace

int main(int argc, char **argv) {
  init(argc, argv);
  Rng rng(ctx().seed);
  auto f = ctx().gets("behaviours", "");
  if (!f.empty()) {
    std::ifstream is(f);
    std::string line;
    int part = (int)ctx().get("part", 0), parts = (int)ctx().get("parts", 1), i = 0;
    while (std::getline(is, line)) {
      if (i++ % parts != part)
        continue;
      for (char &c : line)
        if (!std::isdigit((unsigned char)c))
          c = ' ';
      std::istringstream ss(line);
      std::vector<int> v;
      int x;
      while (ss >> x)
        v.push_back(x);
      // nbin ls cs ce mod occ...
      vsycl::reseed(mix(ctx().seed, i));
      trace(rng, std::vector<int>(v.begin() + 5, v.end()), v[0], v[1], v[2],
            v[3], v[4], true, 0, 0);
    }
  } else {
    int nt = (int)ctx().get("traces", 4), ops = (int)ctx().get("ops", 12);
    int big = (int)ctx().get("big", 0);
    for (int i = 0; i < nt; i++) {
      vsycl::reseed(mix(ctx().seed, i, 3));
      int ls = rng.pick(std::vector<int>{0, 1, 2, 4, 8, 32});
      int nb = rng.pick(std::vector<int>{0, 1, 2, 3, 16});
      int mo = rng.pick(std::vector<int>{9, 14, 20});
      if (big) {
        ls = 0;
        mo = big;
      }
      int mod = rng.pick(std::vector<int>{1, 2, 3, 7, 1000});
      trace(rng, {}, nb, ls, 0, 0, mod, false, mo, ops);
    }
  }
  finish();
}
