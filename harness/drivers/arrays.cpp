// Contributions of particle loops to shared containers (spec/Arrays.tla).
#include "../rig.hpp"
using namespace nv;

namespace {
constexpr int L = 5, G = 4, NR = 3, NC = 2, DC = 2;
template <typename T> using SP = std::shared_ptr<T>;

struct T {
  Rig &g;
  Rng &rng;  // same on all ranks
  Rng &mine; // rank local
  SP<LocalArray<INT>> la;
  SP<LocalArray<REAL>> lr;
  SP<GlobalArray<INT>> ga;
  SP<GlobalArray<REAL>> gr;
  SP<NDLocalArray<INT, 3>> nd;
  SP<CellDatConst<INT>> cc;
  SP<CellDatConst<REAL>> cr;
  SP<CellDat<INT>> cd;
  LocalArraySharedPtr<INT> par; // loop parameters: a, b
  LocalArraySharedPtr<INT> cdn; // rows of cd
  ParticleSubGroupSharedPtr sub;
  int m, k;
  std::map<std::string, ParticleLoopSharedPtr> loops;

  template <typename V> static std::vector<long> ints(const V &v) {
    std::vector<long> o;
    for (auto x : v)
      o.push_back((double)(long)x == (double)x ? (long)x : -999999);
    return o;
  }
  template <typename X> std::string cells(SP<CellDatConst<X>> &c) {
    J cs('[');
    int how = rng.below(3);
    std::vector<CellData<X>> all;
    if (how == 0)
      all = c->get_all_cells();
    for (int i = 0; i < g.ncell; i++) {
      std::vector<X> v;
      auto d = how == 0 ? all.at(i) : c->get_cell(i);
      for (int r = 0; r < NR; r++)
        for (int q = 0; q < NC; q++)
          v.push_back(how == 2 ? c->get_value(i, r, q) : d->at(r, q));
      cs.add(J::list(ints(v)));
    }
    return gather_each(cs.done());
  }
  void state(J &j) {
    j.raw("st", gather_each(cells_json(g.pg, [&](const RowView &v) {
            return "[" + std::to_string(v.integer("ID")) + "," +
                   std::to_string(v.integer("X")) + "]";
          })));
    std::vector<INT> t(L);
    if (rng.chance(50))
      t = la->get();
    else
      la->get(t);
    j.raw("la", gather_each(J::list(ints(t))));
    j.raw("lr", gather_each(J::list(ints(lr->get()))));
    std::vector<INT> tg(G);
    if (rng.chance(50))
      tg = ga->get();
    else
      ga->get(tg);
    j.raw("ga", gather_each(J::list(ints(tg))));
    j.raw("gr", gather_each(J::list(ints(gr->get()))));
    j.raw("nd", gather_each(J::list(ints(nd->get()))));
    j.raw("cc", cells(cc));
    j.raw("cr", cells(cr));
    J cs('[');
    for (int c = 0; c < g.ncell; c++) {
      J rs('[');
      auto d = cd->get_cell(c);
      bool one = mine.chance(30);
      for (int r = 0; r < d->nrow; r++) {
        std::vector<INT> v;
        for (int q = 0; q < DC; q++)
          v.push_back(one ? cd->get_value(c, r, q) : d->at(r, q));
        rs.add(J::list(ints(v)));
      }
      cs.add(rs.done());
    }
    j.raw("cd", gather_each(cs.done()));
  }
  void emit_set(const char *why) {
    J j;
    j.str("ev", "set").str("why", why);
    state(j);
    emit(j);
  }

  template <typename IT> ParticleLoopSharedPtr make(const std::string &op, IT it) {
    auto pr = Access::read(par);
    auto ID = Access::read(Sym<INT>("ID"));
    auto X = Access::write(Sym<INT>("X"));
    if (op == "ladd")
      return particle_loop(
          it,
          [=](auto P, auto ID, auto A, auto R, auto N) {
            const INT id = ID.at(0), a = P.at(0);
            A.fetch_add(id % L, a + id % 3);
            R.fetch_add((id + 1) % L, (REAL)(-a - id % 4));
            N.fetch_add(id % 2, id % 3, (id / 2) % 2, a);
            A.fetch_add(0, (INT)2);
          },
          pr, ID, Access::add(la), Access::add(lr), Access::add(nd));
    if (op == "lread")
      return particle_loop(
          it,
          [=](auto ID, auto A, auto R, auto N, auto X) {
            const INT id = ID.at(0);
            X.at(0) = A.at(id % L) + 3 * (INT)R[(id + 1) % L] +
                      7 * N.at(id % 2, id % 3, (id / 2) % 2);
          },
          ID, Access::read(la), Access::read(lr), Access::read(nd), X);
    if (op == "lwrite")
      return particle_loop(
          it,
          [=](auto P, auto ID, auto A, auto R, auto N) {
            const INT id = ID.at(0), a = P.at(0);
            A.at(id % L) = a;
            R[(id + 1) % L] = (REAL)(a + 1);
            N.at(id % 2, id % 3, (id / 2) % 2) = a + 2;
          },
          pr, ID, Access::write(la), Access::write(lr), Access::write(nd));
    if (op == "ticket")
      return particle_loop(
          it, [=](auto A, auto X) { X.at(0) = A.fetch_add(2, (INT)1); },
          Access::add(la), X);
    if (op == "gadd")
      return particle_loop(
          it,
          [=](auto P, auto ID, auto A, auto R) {
            const INT id = ID.at(0), a = P.at(0);
            A.add(id % G, a + id % 3);
            R.add((id + 1) % G, (REAL)(-a - id % 4));
            A.add(1, (INT)1);
          },
          pr, ID, Access::add(ga), Access::add(gr));
    if (op == "gread")
      return particle_loop(
          it,
          [=](auto ID, auto A, auto R, auto X) {
            const INT id = ID.at(0);
            X.at(0) = A.at(id % G) + 3 * (INT)R[(id + 1) % G];
          },
          ID, Access::read(ga), Access::read(gr), X);
    if (op == "cadd")
      return particle_loop(
          it,
          [=](auto P, auto ID, auto A, auto R) {
            const INT id = ID.at(0), a = P.at(0);
            A.fetch_add(id % NR, (id / 2) % NC, a + id % 3);
            R.fetch_add((id + 1) % NR, id % NC, (REAL)(-a - id % 4));
          },
          pr, ID, Access::add(cc), Access::add(cr));
    if (op == "cmin")
      return particle_loop(
          it,
          [=](auto P, auto ID, auto A, auto R) {
            const INT id = ID.at(0), a = P.at(0);
            A.fetch_min(id % NR, (id / 2) % NC, a * (id * 7 % 11 - 5));
            R.fetch_min((id + 1) % NR, id % NC, (REAL)(a * (id * 5 % 13 - 6)));
          },
          pr, ID, Access::min(cc), Access::min(cr));
    if (op == "cmax")
      return particle_loop(
          it,
          [=](auto P, auto ID, auto A, auto R) {
            const INT id = ID.at(0), a = P.at(0);
            A.fetch_max(id % NR, (id / 2) % NC, a * (id * 7 % 11 - 5));
            R.fetch_max((id + 1) % NR, id % NC, (REAL)(a * (id * 5 % 13 - 6)));
          },
          pr, ID, Access::max(cc), Access::max(cr));
    auto red = [](auto P, auto ID, auto A, auto R) {
      const INT id = ID.at(0), a = P.at(0);
      A.combine(id % NR, (id / 2) % NC, a * (id * 7 % 11 - 5));
      R.combine((id + 1) % NR, id % NC, (REAL)(a * (id * 5 % 13 - 6)));
    };
    if (op == "rplus")
      return particle_loop(it, red, pr, ID,
                           Access::reduce(cc, Kernel::plus<INT>()),
                           Access::reduce(cr, Kernel::plus<REAL>()));
    if (op == "rmin")
      return particle_loop(it, red, pr, ID,
                           Access::reduce(cc, Kernel::minimum<INT>()),
                           Access::reduce(cr, Kernel::minimum<REAL>()));
    if (op == "rmax")
      return particle_loop(it, red, pr, ID,
                           Access::reduce(cc, Kernel::maximum<INT>()),
                           Access::reduce(cr, Kernel::maximum<REAL>()));
    if (op == "cread")
      return particle_loop(
          it,
          [=](auto ID, auto A, auto R, auto X) {
            const INT id = ID.at(0);
            X.at(0) = A.at(id % NR, (id / 2) % NC) +
                      3 * (INT)R[(id % NC) * NR + (id + 1) % NR];
          },
          ID, Access::read(cc), Access::read(cr), X);
    if (op == "cwrite")
      return particle_loop(
          it,
          [=](auto P, auto ID, auto A, auto R) {
            const INT id = ID.at(0), a = P.at(0);
            A.at(id % NR, (id / 2) % NC) = a;
            R[(id % NC) * NR + (id + 1) % NR] = (REAL)(a + 1);
          },
          pr, ID, Access::write(cc), Access::write(cr));
    if (op == "dadd")
      return particle_loop(
          it,
          [=](auto P, auto ix, auto N, auto ID, auto D) {
            const INT id = ID.at(0), a = P.at(0), n = N.at((int)ix.cell);
            if (n > 0)
              D.fetch_add(id % n, id % DC, a + id % 3);
          },
          pr, Access::read(ParticleLoopIndex{}), Access::read(cdn), ID,
          Access::add(cd));
    if (op == "dread")
      return particle_loop(
          it,
          [=](auto ix, auto N, auto ID, auto D, auto X) {
            const INT id = ID.at(0), n = N.at((int)ix.cell);
            if (n > 0)
              X.at(0) = D.at(id % n, id % DC);
          },
          Access::read(ParticleLoopIndex{}), Access::read(cdn), ID,
          Access::read(cd), X);
    return particle_loop(
        it,
        [=](auto P, auto ix, auto N, auto ID, auto D) {
          const INT id = ID.at(0), a = P.at(0), n = N.at((int)ix.cell);
          if (n > 0)
            D.at(id % n, id % DC) = a;
        },
        pr, Access::read(ParticleLoopIndex{}), Access::read(cdn), ID,
        Access::write(cd));
  }

  void loop(const std::string &op, int on, bool reuse, int shape) {
    INT a = rng.in(1, 6);
    par->set({a, 0});
    std::string key = op + std::to_string(on);
    ParticleLoopSharedPtr lp;
    if (reuse && loops.count(key))
      lp = loops[key];
    else
      lp = loops[key] = on ? make(op, sub) : make(op, g.pg);
    // ranges
    std::vector<std::vector<int>> rs;
    if (shape == 0) {
      rs = {{0, g.ncell}};
      lp->execute();
    } else if (shape == 1) {
      rs = {{0, g.ncell}};
      lp->submit();
      lp->wait();
    } else if (shape == 2) {
      int x = mine.in(0, g.ncell), y = mine.in(0, g.ncell);
      rs = {{std::min(x, y), std::max(x, y)}};
      lp->execute(rs[0][0], rs[0][1]);
    } else {
      for (int c = 0; c < g.ncell; c++)
        if (mine.chance(60))
          rs.push_back({c, c + 1});
      if (rs.empty())
        rs = {{0, 1}};
      for (auto &r : rs)
        lp->submit(r[0]);
      lp->wait();
    }
    J j;
    j.str("ev", "loop").str("op", op).boo("reuse", reuse).num("a", a);
    j.num("m", on ? m : 1).num("k", on ? k : 0);
    j.raw("rs", gather_each(J::list(rs)));
    state(j);
    emit(j);
  }

  template <typename X> void cell_host(const char *nm, SP<CellDatConst<X>> &c, int what, INT a) {
    // on one rank local cell, or all
    int cell = what == 3 ? -1 : mine.below(g.ncell);
    int r = mine.below(NR), q = mine.below(NC);
    if (what == 0)
      c->fill((X)a), cell = -1;
    else if (what == 1)
      c->set_value(cell, r, q, (X)a);
    else if (what == 2) {
      // the data may have more rows and columns than the container
      auto d = std::make_shared<CellDataT<X>>(g.sycl_target, NR + mine.below(3),
                                              NC + mine.below(2));
      for (int i = 0; i < d->nrow; i++)
        for (int o = 0; o < d->ncol; o++)
          d->at(i, o) = i < NR && o < NC ? (X)(a + i * NC + o) : (X)-77;
      c->set_cell(cell, d);
    } else {
      std::vector<CellData<X>> v;
      for (int y = 0; y < g.ncell; y++) {
        auto d = std::make_shared<CellDataT<X>>(g.sycl_target, NR, NC);
        for (int i = 0; i < NR; i++)
          for (int o = 0; o < NC; o++)
            d->at(i, o) = (X)(a + y + i * NC + o);
        v.push_back(d);
      }
      c->set_all_cells(v);
    }
    const char *w[] = {"fill", "value", "cell", "all"};
    J j;
    j.str("ev", "host").str("what", std::string(nm) + w[what]).num("a", a);
    std::vector<int> at = {cell, r, q};
    j.raw("at", gather_each(J::list(at)));
    state(j);
    emit(j);
  }
  void host() {
    INT a = rng.in(-9, 9);
    int w = rng.below(9);
    if (w >= 5) {
      if (w >= 7)
        cell_host<INT>("cc", cc, rng.below(4), a);
      else if (w == 6)
        cell_host<REAL>("cr", cr, rng.below(4), a);
      else { // cell dat
        int cell = mine.below(g.ncell), r = 0, q = mine.below(DC);
        int what = rng.below(3);
        INT n = cd->nrow[cell];
        if (what == 0) {
          if (n > 0) {
            r = mine.below((int)n);
            cd->set_value(cell, r, q, a);
          } else
            cell = -1;
        } else if (what == 1) {
          auto d = std::make_shared<CellDataT<INT>>(
              g.sycl_target, n + mine.below(3), DC + mine.below(2));
          for (int i = 0; i < d->nrow; i++)
            for (int o = 0; o < d->ncol; o++)
              d->at(i, o) = i < n && o < DC ? a + i * DC + o : -77;
          cd->set_cell(cell, d);
        } else {
          // resize: rows that stay keep their values, new ones are written
          int nn = mine.in(0, 7);
          r = nn;
          cd->set_nrow(cell, nn);
          cd->wait_set_nrow();
          for (int i = (int)n; i < nn; i++)
            for (int o = 0; o < DC; o++)
              cd->set_value(cell, i, o, 100 + i * DC + o);
          auto v = cdn->get();
          v[cell] = nn;
          cdn->set(v);
        }
        const char *ws[] = {"cdvalue", "cdcell", "cdrows"};
        J j;
        j.str("ev", "host").str("what", ws[what]).num("a", a);
        std::vector<int> at = {cell, r, q};
        j.raw("at", gather_each(J::list(at)));
        state(j);
        emit(j);
      }
      return;
    }
    const char *what = "";
    if (w == 0) {
      what = "lafill";
      la->fill(a);
    } else if (w == 1) {
      what = "laset";
      std::vector<INT> v;
      for (int i = 0; i < L; i++)
        v.push_back(a + i + 10 * ctx().rank);
      la->set(v);
    } else if (w == 2) {
      what = "ndset";
      std::vector<INT> v;
      for (int i = 0; i < 12; i++)
        v.push_back(a + i + 10 * ctx().rank);
      nd->set(v);
    } else if (w == 3) {
      what = "gafill";
      ga->fill(a);
    } else {
      what = "ndfill";
      nd->fill(a);
    }
    J j;
    j.str("ev", "host").str("what", what).num("a", a).raw("at", "[]");
    state(j);
    emit(j);
  }
};

void trace(Rng &rng, int maxocc, int nops) {
  const int size = ctx().size;
  std::vector<int> dims = {std::max(size, rng.in(2, 5)), rng.in(1, 2)};
  Rig g(2, dims);
  auto sp = g.base_spec();
  sp.push(ParticleProp(Sym<INT>("X"), 1));
  g.make(sp);
  Rng mine(mix(rng.next(), ctx().rank));
  int ls = rng.pick(std::vector<int>{0, 1, 2, 4, 16}),
      nb = rng.pick(std::vector<int>{0, 1, 3, 16});
  if (ls)
    g.param("LOOP_LOCAL_SIZE", ls);
  if (nb)
    g.param("LOOP_NBIN", nb);
  auto &st = g.sycl_target;
  T t{g, rng, mine};
  INT i0 = rng.in(-3, 3);
  t.la = rng.chance(50) ? std::make_shared<LocalArray<INT>>(st, L, i0)
                        : std::make_shared<LocalArray<INT>>(
                              st, std::vector<INT>{1, 2, 3, 4, 5});
  t.lr = std::make_shared<LocalArray<REAL>>(st, L);
  t.ga = std::make_shared<GlobalArray<INT>>(st, G, i0);
  t.gr = std::make_shared<GlobalArray<REAL>>(st, G);
  t.nd = std::make_shared<NDLocalArray<INT, 3>>(st, 2, 3, 2);
  t.cc = std::make_shared<CellDatConst<INT>>(st, g.ncell, NR, NC);
  t.cr = std::make_shared<CellDatConst<REAL>>(st, g.ncell, NR, NC);
  t.cd = std::make_shared<CellDat<INT>>(st, g.ncell, DC);
  t.par = std::make_shared<LocalArray<INT>>(st, 2);
  t.cdn = std::make_shared<LocalArray<INT>>(st, g.ncell, (INT)0);
  t.m = rng.pick(std::vector<int>{1, 2, 3, 1000});
  t.k = rng.below(t.m);
  J j;
  j.str("ev", "init").num("nr", size).num("ls", ls).num("nb", nb);
  emit(j);
  for (int c = 0; c < g.ncell; c++)
    t.cd->set_nrow(c, mine.in(0, 3));
  t.cd->wait_set_nrow();
  std::vector<INT> v;
  for (int c = 0; c < g.ncell; c++) {
    v.push_back(t.cd->nrow[c]);
    for (int r = 0; r < t.cd->nrow[c]; r++)
      for (int q = 0; q < DC; q++)
        t.cd->set_value(c, r, q, 0);
  }
  t.cdn->set(v);
  auto fill = [](ParticleSet &ps, int r, INT, int) {
    ps[Sym<INT>("X")][r][0] = -1;
  };
  g.add(occupancies(mine, g.ncell, maxocc), fill);
  t.emit_set("start");
  const int m = t.m, k = t.k;
  t.sub = particle_sub_group(
      g.pg, [=](auto ID) { return ID.at(0) % m == k; },
      Access::read(Sym<INT>("ID")));
  const std::vector<std::string> ops = {
      "ladd",  "lread", "lwrite", "ticket", "gadd",  "gadd", "gread", "cadd",
      "cmin",  "cmax",  "rplus",  "rmin",   "rmax",  "cread", "cwrite", "dadd",
      "dread", "dwrite", "rplus", "rmin",   "rmax", "cadd",  "ladd"};
  for (int o = 0; o < nops; o++) {
    int act = rng.below(12);
    if (act == 0) {
      g.pg->remove_particles(particle_sub_group(
          g.pg, [=](auto ID) { return ID.at(0) % 3 == o % 3; },
          Access::read(Sym<INT>("ID"))));
      t.emit_set("remove");
    } else if (act == 1) {
      g.add(occupancies(mine, g.ncell, std::max(1, maxocc / 2)), fill);
      t.emit_set("add");
    } else if (act < 4)
      t.host();
    else
      t.loop(rng.pick(ops), rng.below(2), rng.chance(50), rng.below(4));
  }
  t.loops.clear();
  t.sub = nullptr;
  t.la = nullptr;
  t.lr = nullptr;
  t.ga = nullptr;
  t.gr = nullptr;
  t.nd = nullptr;
  t.cc = nullptr;
  t.cr = nullptr;
  t.cd = nullptr;
  t.par = t.cdn = nullptr;
  g.free();
}
} // namespace

int main(int argc, char **argv) {
  init(argc, argv);
  Rng rng(ctx().seed);
  int nt = (int)ctx().get("traces", 4), ops = (int)ctx().get("ops", 25);
  int big = (int)ctx().get("big", 0);
  for (int i = 0; i < nt; i++) {
    vsycl::reseed(mix(ctx().seed, i, 3));
    int mo = rng.pick(std::vector<int>{2, 9, 20});
    trace(rng, big ? big : mo, ops);
  }
  finish();
}
