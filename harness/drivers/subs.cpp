// Sub-groups, selectors and partitions against spec/SubGroups.tla.
#include "../rig.hpp"
using namespace nv;

// A failed assertion of the library ends the run with MPI_Abort. Where the
// specification demands that a use is refused, the driver catches it here.
static bool armed = false;
struct Refused {};
extern "C" int MPI_Abort(MPI_Comm comm, int code) {
  if (armed)
    throw Refused{};
  return PMPI_Abort(comm, code);
}

namespace {
using SG = ParticleSubGroupSharedPtr;
const int NA = 5, NK = 4;

struct Sub {
  int s;
  std::string kind;
  std::vector<int> p; // parents, 0 is the whole group
  int a = 0;
  SG g;
  bool stat = false, trunc = false, whole = false;
  int part = -1; // partition family
  ParticleLoopSharedPtr loop;
};

struct T {
  Rig &g;
  Rng &rng, &mine;
  int cap;
  INT *d_rec;  // 4 words for each visit
  int *d_nrec; // visits
  std::map<int, Sub> subs;
  int nexts = 1, nextp = 1;
  bool selectors = false;
  // columns whose device pointer was handed out: may[] until the next normal
  // write, held[] while nothing else wrote since
  bool may[3] = {false, false, false}, held[3] = {false, false, false};
  INT ***pi[3] = {nullptr, nullptr, nullptr};
  REAL ***pr = nullptr;
  bool raw() { return may[0] || may[1] || may[2]; }

  std::string state() {
    return gather_each(cells_json(g.pg, [&](const RowView &v) {
      J j('[');
      j.addn(v.integer("ID")).addn(v.integer("A"));
      j.addn((long)v.real("B")).addn(v.integer("K"));
      return j.done();
    }));
  }
  void emit_set(const char *why, bool grp) {
    J j;
    j.str("ev", "set").str("why", why).boo("grp", grp).raw("st", state());
    emit(j);
  }
  static void fill(ParticleSet &ps, int r, INT id, int) {
    ps[Sym<INT>("A")][r][0] = (INT)(mix(id, 1) % NA);
    ps[Sym<REAL>("B")][r][0] = (double)(mix(id, 2) % NA);
    ps[Sym<INT>("K")][r][0] = (INT)(mix(id, 3) % (NK + 1)) - 1;
  }

  // ------------------------------------------------------------ creation
  template <typename P> SG cond(P parent, const std::string &kind, int a) {
    if (kind == "A<")
      return particle_sub_group(
          parent, [=](auto A) { return A.at(0) < a; },
          Access::read(Sym<INT>("A")));
    if (kind == "A>=")
      return particle_sub_group(
          parent, [=](auto A) { return A.at(0) >= a; },
          Access::read(Sym<INT>("A")));
    if (kind == "B<")
      return particle_sub_group(
          parent, [=](auto B) { return B.at(0) < (double)a; },
          Access::read(Sym<REAL>("B")));
    if (kind == "AB")
      return particle_sub_group(
          parent,
          [=](auto A, auto B) {
            return (A.at(0) + (INT)B.at(0)) % 2 == a % 2;
          },
          Access::read(Sym<INT>("A")), Access::read(Sym<REAL>("B")));
    if (kind == "SV")
      return particle_sub_group(
          parent,
          [=](auto I, auto R) {
            return (I.at(1, 0) + (INT)R.at(0, 0)) % 2 == a % 2;
          },
          Access::read(sym_vector<INT>(g.pg, {Sym<INT>("K"), Sym<INT>("A")})),
          Access::read(sym_vector<REAL>(g.pg, {Sym<REAL>("B")})));
    if (kind == "L")
      return particle_sub_group(
          parent, [=](auto ix) { return ix.layer % 2 == a % 2; },
          Access::read(ParticleLoopIndex{}));
    if (kind == "N")
      return particle_sub_group(
          parent, [=](auto n) { return n.get() > a; },
          Access::read(CellInfoNPart{}));
    if (kind == "K=")
      return particle_sub_group(
          parent, [=](auto K) { return K.at(0) == a; },
          Access::read(Sym<INT>("K")));
    return particle_sub_group(parent, [=](auto) { return true; },
                              Access::read(Sym<INT>("ID")));
  }
  template <typename F> void parent_do(int p, F f) {
    if (p == 0)
      f(g.pg);
    else
      f(subs.at(p).g);
  }
  void push(Sub x, const std::string &lo, const std::string &hi,
            bool observed_static) {
    for (int p : x.p)
      if (p)
        x.trunc = x.trunc || subs.at(p).trunc;
    J j;
    j.str("ev", "sub").num("s", x.s).str("kind", x.kind).arr("p", x.p);
    j.num("a", x.a).raw("lo", lo).raw("hi", hi).boo("trunc", x.trunc);
    j.boo("stat", false);
    emit(j);
    subs[x.s] = x;
    if (observed_static) {
      subs[x.s].stat = true;
      use(x.s, "static", 0);
    }
  }
  std::vector<int> alive(bool par) {
    std::vector<int> r;
    if (par)
      r.push_back(0);
    for (auto &x : subs)
      if (usable(x.first))
        r.push_back(x.first);
    return r;
  }
  std::set<int> closure(int s) {
    std::set<int> r;
    std::vector<int> w{s};
    while (w.size()) {
      int x = w.back();
      w.pop_back();
      if (x == 0 || r.count(x))
        continue;
      r.insert(x);
      for (int p : subs.at(x).p)
        w.push_back(p);
    }
    return r;
  }
  std::set<int> stale; // static sub-groups whose placement may have changed
  bool usable(int s) {
    for (int x : closure(s)) {
      if (stale.count(x))
        return false;
      if (subs.at(x).trunc && raw())
        return false;
    }
    return true;
  }
  void create() {
    static const std::vector<std::string> kinds = {
        "A<", "A>=", "B<",    "AB",    "SV",      "A<",    "L",    "N",
        "K=", "T",   "whole", "cell",  "range",   "trunc", "disc", "union",
        "part", "part", "cell", "trunc", "disc", "union", "A<",   "SV"};
    static const std::vector<std::string> special = {
        "cell",  "range", "trunc", "disc", "union", "part",  "part",
        "whole", "trunc", "disc",  "A<",   "A>=",   "union", "range"};
    std::string kind = selectors ? rng.pick(special) : rng.pick(kinds);
    auto al = alive(true);
    if ((int)subs.size() > (selectors ? 14 : 9))
      return;
    int p = rng.chance(45) ? 0 : rng.pick(al);
    const bool st = rng.chance(12) && !raw();
    Sub x;
    x.a = rng.in(0, NA);
    const std::string none = "[]";
    if (kind == "whole") {
      x.kind = p == 0 ? "whole" : "copy";
      x.p = {p};
      parent_do(p, [&](auto q) { x.g = particle_sub_group(q); });
      x.s = nexts++;
      push(x, none, none, false);
    } else if (kind == "cell" || kind == "range") {
      int lo, hi;
      int how = rng.below(4);
      lo = mine.below(g.ncell);
      hi = kind == "cell" ? lo + 1 : mine.in(lo, g.ncell);
      if (kind == "range" && how == 0) {
        lo = 0;
        hi = g.ncell;
      }
      if (kind == "range" && how == 1)
        hi = lo;
      // every cell of the rank makes it a copy on some ranks only
      x.kind = "cells";
      x.p = {p};
      parent_do(p, [&](auto q) {
        x.g = kind == "cell" ? (how % 2 ? particle_sub_group(q, lo, st)
                                        : particle_sub_group(q, (INT)lo, st))
                             : particle_sub_group(q, lo, hi, st);
      });
      x.s = nexts++;
      push(x, gather_each(std::to_string(lo)), gather_each(std::to_string(hi)),
           st);
    } else if (kind == "trunc" || kind == "disc") {
      if (raw())
        return;
      x.kind = kind;
      x.p = {p};
      x.a = rng.pick(std::vector<int>{0, 1, 2, 2, 3, 5});
      x.trunc = true;
      parent_do(p, [&](auto q) {
        x.g = kind == "trunc" ? particle_sub_group_truncate(q, x.a, st)
                              : particle_sub_group_discard(q, x.a, st);
      });
      x.s = nexts++;
      push(x, none, none, st);
    } else if (kind == "union") {
      // disjoint members: complementary conditions, members of one
      // partition, or the two halves of a truncation
      auto disjoint = [&](int i, int j) {
        auto &u = subs.at(i), &v = subs.at(j);
        if (i == j || u.stat || v.stat || u.p != v.p)
          return false;
        if (u.kind == "A<" && v.kind == "A>=" && u.a <= v.a)
          return true;
        if (v.kind == "A<" && u.kind == "A>=" && v.a <= u.a)
          return true;
        if (u.part > 0 && u.part == v.part)
          return true;
        if (u.kind == "K=" && v.kind == "K=" && u.a != v.a && u.part < 0 &&
            v.part < 0)
          return true;
        return (u.kind == "trunc" && v.kind == "disc" && u.a <= v.a) ||
               (v.kind == "trunc" && u.kind == "disc" && v.a <= u.a);
      };
      auto ids = alive(false);
      std::vector<std::pair<int, int>> c;
      for (int i : ids)
        for (int j : ids)
          if (disjoint(i, j))
            c.push_back({i, j});
      std::vector<int> us;
      if (c.empty()) {
        for (int i : ids)
          if (!subs.at(i).whole && subs.at(i).kind != "whole" &&
              subs.at(i).kind != "copy" && subs.at(i).kind != "cells")
            us.push_back(i);
        if (us.empty())
          return;
        us = {rng.pick(us)};
      } else {
        auto u = rng.pick(c);
        us = {u.first, u.second};
        for (int i : ids) {
          bool ok = true;
          for (int j : us)
            ok = ok && disjoint(i, j);
          if (ok && rng.chance(80))
            us.insert(us.begin() + rng.below((int)us.size() + 1), i);
        }
      }
      std::vector<SG> ps;
      for (int i : us) {
        ps.push_back(subs.at(i).g);
        x.p.push_back(i);
      }
      x.kind = "union";
      x.g = particle_sub_group_disjoint_union(ps, st);
      x.s = nexts++;
      push(x, none, none, st);
    } else if (kind == "part") {
      int n = rng.in(1, NK);
      std::vector<SG> ms;
      parent_do(p, [&](auto q) {
        ms = particle_group_partition(q, Sym<INT>("K"), n);
      });
      int fam = nextp++;
      for (int i = 0; i < n; i++) {
        if (rng.chance(15))
          continue; // a member nobody keeps
        Sub y;
        y.kind = "K=";
        y.a = i;
        y.p = {p};
        y.part = fam;
        y.g = ms[i];
        y.s = nexts++;
        push(y, none, none, false);
      }
      ms.clear();
    } else {
      x.kind = kind;
      x.p = {p};
      parent_do(p, [&](auto q) { x.g = cond(q, kind, x.a); });
      if (st)
        x.g->static_status(true);
      x.s = nexts++;
      push(x, none, none, st);
    }
  }

  // ---------------------------------------------------------- observation
  template <typename S> ParticleLoopSharedPtr recorder(S s) {
    INT *rec = d_rec;
    int *n = d_nrec;
    const int cap4 = cap;
    return particle_loop(
        "record", s,
        [=](auto ix, auto ID) {
          const int k = atomic_fetch_add(n, 1);
          if (k < cap4) {
            rec[4 * k] = ID.at(0);
            rec[4 * k + 1] = ix.cell;
            rec[4 * k + 2] = ix.get_loop_linear_index();
            rec[4 * k + 3] = ix.loop_layer;
          }
        },
        Access::read(ParticleLoopIndex{}), Access::read(Sym<INT>("ID")));
  }
  std::vector<INT> linear; // loop linear indices of the last recording
  std::vector<std::vector<INT>> observe(Sub &x, int way) {
    std::vector<std::vector<INT>> o(g.ncell);
    linear.clear();
    auto &q = g.sycl_target->queue;
    if (way <= 1) {
      q.fill(d_nrec, 0, 1).wait_and_throw();
      if (way == 0) {
        if (!x.loop)
          x.loop = recorder(x.g);
        x.loop->execute();
      } else
        recorder(x.g)->execute();
      int n;
      q.memcpy(&n, d_nrec, sizeof(int)).wait_and_throw();
      n = std::min(n, cap);
      std::vector<INT> r(4 * (std::size_t)n + 1);
      q.memcpy(r.data(), d_rec, 4 * (std::size_t)n * sizeof(INT))
          .wait_and_throw();
      std::vector<std::array<INT, 3>> v;
      for (int i = 0; i < n; i++)
        v.push_back({r[4 * i + 1], r[4 * i + 3], r[4 * i]}),
            linear.push_back(r[4 * i + 2]);
      std::sort(linear.begin(), linear.end());
      std::sort(v.begin(), v.end());
      for (auto &e : v)
        o.at(e[0]).push_back(e[2]);
    } else if (way == 2) {
      std::vector<INT> cells, layers;
      x.g->get_cells_layers(cells, layers);
      for (std::size_t i = 0; i < cells.size(); i++) {
        auto d = (*g.pg)[Sym<INT>("ID")]->cell_dat.get_cell(cells[i]);
        o.at(cells[i]).push_back(layers[i] < d->nrow && layers[i] >= 0
                                     ? (*d)[0][layers[i]]
                                     : -1);
      }
    } else {
      std::vector<INT> cells, layers;
      for (int c = 0; c < g.ncell; c++)
        for (int l = 0; l < x.g->get_npart_cell(c); l++) {
          cells.push_back(c);
          layers.push_back(l);
        }
      auto ps = x.g->get_particles(cells, layers);
      for (std::size_t i = 0; i < cells.size(); i++)
        o.at(cells[i]).push_back(ps->at(Sym<INT>("ID"), i, 0));
    }
    return o;
  }
  void use(int s, const char *ev, int way) {
    std::vector<int> who{s};
    auto cl = closure(s);
    bool tr = subs.at(s).trunc;
    if (tr || rng.chance(30)) {
      // descendants before ancestors: nothing of the chain is refreshed for us
      for (auto it = cl.rbegin(); it != cl.rend(); ++it)
        if (*it != s)
          who.push_back(*it);
    }
    J j;
    j.str("ev", ev).num("s", s).num("way", way);
    J os('[');
    const bool first_counts = rng.chance(50);
    for (int w : who) {
      auto &x = subs.at(w);
      int wy = x.kind == "whole" || way != 2 ? (way == 2 ? 1 : way) : way;
      // a sub-group that is everything has no list of its own
      if (wy == 2 && x.g->is_entire_particle_group())
        wy = 1;
      std::vector<long> pc;
      long np = 0;
      auto counts = [&]() {
        np = x.g->get_npart_local();
        for (int c = 0; c < g.ncell; c++)
          pc.push_back((long)x.g->get_npart_cell(c));
      };
      if (first_counts)
        counts();
      auto o = observe(x, wy);
      if (!first_counts)
        counts();
      J oj;
      oj.num("s", w).raw("ob", gather_each(J::list(o)));
      oj.boo("lin", wy <= 1).raw("li", gather_each(J::list(linear)));
      oj.raw("np", gather_each(std::to_string(np)));
      oj.raw("pc", gather_each(J::list(pc)));
      os.add(oj.done());
    }
    j.raw("obs", os.done());
    emit(j);
  }
  void valid() {
    J j, vs('[');
    j.str("ev", "valid");
    for (auto &x : subs) {
      int v = x.second.g->is_valid() ? 1 : 0;
      J o;
      o.num("s", x.first).raw("v", gather_each(v ? "true" : "false"));
      vs.add(o.done());
    }
    j.raw("vs", vs.done());
    emit(j);
  }

  // --------------------------------------------------------------- writes
  // a property write through each of the paths the library offers
  void write() {
    int path = rng.below(11);
    if (path == 10)
      path = 8;
    const int salt = rng.below(1000);
    int which = rng.below(3); // A, B or K
    if (path == 8 && rng.chance(60))
      for (int i = 0; i < 3; i++)
        if (held[i])
          which = i;
    auto val = [=](INT id) -> INT {
      INT v = (INT)(mix(salt, id) % (which == 2 ? NK + 1 : NA));
      return which == 2 ? v - 1 : v;
    };
    auto over = [&](auto it, bool vec) {
      if (!vec) {
        if (which == 1)
          particle_loop(
              it,
              [=](auto ID, auto B) { B.at(0) = (double)val(ID.at(0)); },
              Access::read(Sym<INT>("ID")), Access::write(Sym<REAL>("B")))
              ->execute();
        else
          particle_loop(
              it, [=](auto ID, auto A) { A.at(0) = val(ID.at(0)); },
              Access::read(Sym<INT>("ID")),
              Access::write(Sym<INT>(which == 0 ? "A" : "K")))
              ->execute();
      } else {
        if (which == 1)
          particle_loop(
              it,
              [=](auto ID, auto B) { B.at(0, 0) = (double)val(ID.at(0)); },
              Access::read(Sym<INT>("ID")),
              Access::write(sym_vector<REAL>(g.pg, {Sym<REAL>("B")})))
              ->execute();
        else
          particle_loop(
              it, [=](auto ID, auto A) { A.at(1, 0) = val(ID.at(0)); },
              Access::read(Sym<INT>("ID")),
              Access::write(sym_vector<INT>(
                  g.pg, {Sym<INT>("X"), Sym<INT>(which == 0 ? "A" : "K")})))
              ->execute();
      }
    };
    auto with_dat = [&](auto f) {
      if (which == 1)
        f(g.pg->get_dat(Sym<REAL>("B")));
      else
        f(g.pg->get_dat(Sym<INT>(which == 0 ? "A" : "K")));
    };
    const char *why = "";
    bool normal = true;
    if (path <= 1) {
      why = "loop over the group";
      over(g.pg, path == 1);
    } else if (path == 2 || path == 3) {
      auto al = alive(false);
      if (al.empty())
        return;
      why = "loop over a sub-group";
      int s = rng.pick(al);
      if (subs.at(s).trunc) {
        over(subs.at(s).g, path == 3);
      } else {
        over(subs.at(s).g, path == 3);
        J j;
        j.str("ev", "wsub").num("s", s).num("c", which);
        may[which] = held[which] = false;
        // which particles it wrote: those whose value is the written one
        std::vector<std::string> wr;
        for_rows(g.pg, [&](const RowView &v) {
          INT id = v.integer("ID");
          wr.push_back("[" + std::to_string(id) + "," + std::to_string(val(id)) +
                       "]");
        });
        j.raw("val", gather_list(wr)).raw("st", state());
        emit(j);
        return;
      }
    } else if (path == 4) {
      why = "dat loop";
      with_dat([&](auto d) {
        particle_loop(
            "w", d, [=](auto ID, auto A) { A.at(0) = val(ID.at(0)); },
            Access::read(g.pg->get_dat(Sym<INT>("ID"))), Access::write(d))
            ->execute();
      });
    } else if (path == 5) {
      why = "direct access";
      with_dat([&](auto d) {
        auto p = Access::direct_get(Access::write(d));
        write_ptr(p, val);
        Access::direct_restore(Access::write(d), p);
      });
    } else if (path == 6 || path == 7) {
      why = path == 6 ? "set_cell" : "set_cell_async";
      with_dat([&](auto d) {
        for (int c = 0; c < g.ncell; c++) {
          auto cd = d->cell_dat.get_cell(c);
          auto id = g.pg->get_dat(Sym<INT>("ID"))->cell_dat.get_cell(c);
          if (!mine.chance(70) && c > 0)
            continue;
          for (int l = 0; l < id->nrow; l++)
            (*cd)[0][l] = val((*id)[0][l]);
          if (path == 6)
            d->cell_dat.set_cell(c, cd);
          else {
            EventStack es;
            d->cell_dat.set_cell_async(c, *cd, es);
            es.wait();
          }
        }
      });
    } else if (path == 9) {
      why = "set_value";
      with_dat([&](auto d) {
        for (int c = 0; c < g.ncell; c++) {
          auto id = g.pg->get_dat(Sym<INT>("ID"))->cell_dat.get_cell(c);
          for (int l = 0; l < id->nrow; l++)
            if (mine.chance(60))
              d->cell_dat.set_value(c, l, 0, val((*id)[0][l]));
        }
      });
    } else {
      why = "device pointer";
      if (held[which] && rng.chance(60)) {
        // through the pointer obtained before
        if (which == 1)
          write_ptr(pr, val);
        else
          write_ptr(pi[which], val);
      } else if (which == 1) {
        pr = g.pg->get_dat(Sym<REAL>("B"))->cell_dat.device_ptr();
        write_ptr(pr, val);
      } else {
        pi[which] = g.pg->get_dat(Sym<INT>(which == 0 ? "A" : "K"))
                        ->cell_dat.device_ptr();
        write_ptr(pi[which], val);
      }
      normal = false;
    }
    // values written through the device pointer interface are seen by later
    // uses until a normal write takes over
    may[which] = held[which] = !normal;
    emit_set(why, false);
  }
  template <typename P, typename F> void write_ptr(P p, F val) {
    auto ids = g.pg->get_dat(Sym<INT>("ID"));
    auto pi = Access::direct_get(Access::read(ids));
    auto &q = g.sycl_target->queue;
    for (int c = 0; c < g.ncell; c++) {
      int n = (int)g.pg->get_npart_cell(c);
      if (n > 0)
        q.parallel_for(sycl::range<1>(n), [=](sycl::id<1> ix) {
           p[c][0][ix[0]] = val(pi[c][0][ix[0]]);
         }).wait_and_throw();
    }
    Access::direct_restore(Access::read(ids), pi);
  }
  // sets the integer columns of a product matrix from a loop over a throwaway
  // group with one particle
  void fill_products(std::shared_ptr<ProductMatrix> pm,
                     const std::vector<INT> &d) {
    auto keep = g.pg;
    auto one = std::make_shared<ParticleGroup>(
        g.domain, keep->get_particle_spec(), g.sycl_target);
    ParticleSet ps(1, one->get_particle_spec());
    one->add_particles_local(ps);
    auto v = d;
    LocalArray<INT> la(g.sycl_target, (int)d.size());
    la.set(v);
    const int n = pm->num_products, w = (int)d.size() / n;
    particle_loop(
        one,
        [=](auto PM, auto L) {
          for (int i = 0; i < n; i++)
            for (int c = 0; c < w; c++)
              PM.at_int(i, c, 0) = L.at(c * n + i);
        },
        Access::write(pm), Access::read(la))
        ->execute();
    one->free();
  }
  void change() {
    int how = rng.below(11);
    const int s = rng.below(1000), nc = g.ncell, nr = ctx().size;
    const char *why = "";
    if (how == 0 && g.next < 900) {
      why = "add";
      g.add(occupancies(mine, g.ncell, 5), fill);
    } else if (how == 1) {
      why = "remove";
      const int pct = rng.pick(std::vector<int>{10, 30, 100});
      auto v = particle_sub_group(
          g.pg, [=](auto ID) { return (int)(mix(s, ID.at(0)) % 100) < pct; },
          Access::read(Sym<INT>("ID")));
      g.pg->remove_particles(v);
    } else if (how == 2 || how == 3) {
      why = "cell move";
      const int pct = how == 2 ? 100 : 15;
      particle_loop(
          g.pg,
          [=](auto ID, auto C) {
            if ((int)(mix(s, ID.at(0), 5) % 100) < pct)
              C.at(0) = (INT)(mix(s, ID.at(0)) % nc);
          },
          Access::read(Sym<INT>("ID")), Access::write(Sym<INT>("CELL_ID")))
          ->execute();
      g.pg->cell_move();
    } else if (how == 4) {
      why = "hybrid move";
      const int nd = g.ndim;
      std::vector<double> ext(nd);
      for (int d = 0; d < nd; d++)
        ext[d] = g.mesh->global_extents[d];
      const double e0 = ext[0], e1 = ext[1], e2 = nd > 2 ? ext[2] : 0;
      particle_loop(
          g.pg,
          [=](auto ID, auto P) {
            const double e[3] = {e0, e1, e2};
            for (int d = 0; d < nd; d++)
              P.at(d) = e[d] * ((double)(mix(s, ID.at(0), d) % 997) / 997.0);
          },
          Access::read(Sym<INT>("ID")), Access::write(Sym<REAL>("P")))
          ->execute();
      g.pg->hybrid_move();
      g.pg->cell_move();
    } else if (how == 5) {
      auto al = alive(false);
      std::vector<int> ok;
      for (int x : al)
        if (!subs.at(x).trunc)
          ok.push_back(x);
      if (ok.empty())
        return;
      int x = rng.pick(ok);
      g.pg->remove_particles(subs.at(x).g);
      J j;
      j.str("ev", "rmsub").num("s", x).raw("st", state());
      emit(j);
      mark_stale();
      return;
    } else if (how == 7 && g.next < 900) {
      // particles from a product matrix
      why = "add products";
      auto pm = product_matrix(
          g.sycl_target, product_matrix_spec(ParticleSpec{
                             ParticleProp(Sym<INT>("CELL_ID"), 1, true),
                             ParticleProp(Sym<INT>("A"), 1),
                             ParticleProp(Sym<INT>("ID"), 1),
                             ParticleProp(Sym<INT>("K"), 1)}));
      const int n = rng.below(8);
      pm->reset(n);
      if (n) {
        std::vector<INT> d(4 * n);
        // columns in the order of the matrix's specification
        auto put = [&](const char *name, int i, INT v) {
          d.at(pm->spec->get_sym_index(Sym<INT>(name)) * n + i) = v;
        };
        for (int i = 0; i < n; i++) {
          const INT id = (INT)ctx().rank * Rig::RANK_ID + g.next++;
          put("A", i, (INT)(mix(id, 1) % NA));
          put("K", i, (INT)(mix(id, 3) % (NK + 1)) - 1);
          put("ID", i, id);
          put("CELL_ID", i, (INT)(mix(s, id) % nc));
        }
        fill_products(pm, d);
      }
      g.pg->add_particles_local(pm);
    } else if (how == 8 && g.next < 900) {
      // the particles of another group
      why = "add group";
      auto keep = g.pg;
      auto other = std::make_shared<ParticleGroup>(
          g.domain, keep->get_particle_spec(), g.sycl_target);
      g.pg = other;
      g.add(occupancies(mine, g.ncell, 3), fill);
      g.pg = keep;
      if (rng.chance(50))
        g.pg->add_particles_local(other);
      else {
        auto v = particle_sub_group(
            other, [=](auto ID) { return mix(s, ID.at(0)) % 2 == 0; },
            Access::read(Sym<INT>("ID")));
        g.pg->add_particles_local(v);
      }
      other->free();
    } else if (how == 9 || how == 10) {
      why = how == 9 ? "global move" : "local move";
      std::vector<int> to;
      if (how == 9)
        for (int r = 0; r < nr; r++)
          to.push_back(r);
      else
        for (int r : g.mesh->get_local_communication_neighbours())
          to.push_back(r);
      LocalArray<int> la(g.sycl_target, (int)to.size() + 1);
      to.push_back(-1);
      la.set(to);
      const int nt = (int)to.size() - 1, comp = how == 9 ? 0 : 1;
      const int pct = rng.pick(std::vector<int>{20, 60, 100});
      particle_loop(
          g.pg,
          [=](auto ID, auto M, auto TO) {
            M.at(0) = -1;
            M.at(1) = -1;
            if (nt > 0 && (int)(mix(s, ID.at(0), 5) % 100) < pct)
              M.at(comp) = TO.at((int)(mix(s, ID.at(0), 6) % nt));
          },
          Access::read(Sym<INT>("ID")),
          Access::write(Sym<INT>("NESO_MPI_RANK")), Access::read(la))
          ->execute();
      if (how == 9)
        g.pg->global_move();
      else
        g.pg->local_move();
    } else if (how == 6 && rng.chance(25)) {
      why = "clear";
      g.pg->clear();
    } else
      return;
    emit_set(why, true);
    mark_stale();
  }
  void mark_stale() {
    held[0] = held[1] = held[2] = false;
    valid();
    // uses of a static sub-group that says it is invalid have to be refused
    std::vector<int> sv;
    for (auto &x : subs)
      if (x.second.stat)
        sv.push_back(x.first);
    for (int s : sv) {
      int v = subs.at(s).g->is_valid() ? 1 : 0, all;
      MPI_Allreduce(&v, &all, 1, MPI_INT, MPI_MIN, MPI_COMM_WORLD);
      stale.insert(s);
      int refused = 1;
      if (!v) {
        refused = 0;
        armed = true;
        fflush(stderr);
        try {
          if (s % 2)
            subs.at(s).g->get_npart_local();
          else
            subs.at(s).g->create_if_required();
        } catch (Refused &) {
          refused = 1;
        }
        armed = false;
      }
      J j;
      j.str("ev", "refuse").num("s", s);
      j.raw("v", gather_each(v ? "true" : "false"));
      j.raw("ok", gather_each(refused ? "true" : "false"));
      emit(j);
    }
  }
  // forget sub-groups: their resources go to later ones
  void drop(bool all) {
    while (true) {
      std::vector<int> leaf;
      for (auto &x : subs) {
        bool used = false;
        for (auto &y : subs)
          for (int p : y.second.p)
            used = used || p == x.first;
        bool dead = false;
        for (int c : closure(x.first))
          dead = dead || stale.count(c);
        if (!used && (all || dead))
          leaf.push_back(x.first);
        else if (!used && rng.chance(40))
          leaf.push_back(x.first);
      }
      if (leaf.empty())
        break;
      for (int s : leaf) {
        J j;
        j.str("ev", "drop").num("s", s);
        emit(j);
        subs.erase(s);
        stale.erase(s);
      }
      if (!all) {
        bool more = false;
        for (auto &x : subs) {
          for (int c : closure(x.first))
            more = more || stale.count(c);
        }
        if (!more)
          break;
      }
    }
  }
  void statics() {
    auto al = alive(false);
    if (al.empty() || raw())
      return;
    int s = rng.pick(al);
    auto &x = subs.at(s);
    if (!x.stat) {
      // members of a partition share their computation: see scenario()
      for (auto &y : subs)
        if (x.part > 0 && y.first != s && y.second.part == x.part)
          return;
      x.g->static_status(true);
      x.stat = true;
      use(s, "static", rng.below(4));
    } else {
      // only one that nothing was derived from
      for (auto &y : subs)
        for (int p : y.second.p)
          if (p == s)
            return;
      x.g->static_status(false);
      x.stat = false;
      J j;
      j.str("ev", "unstatic").num("s", s);
      emit(j);
    }
  }
};

void trace(Rng &rng, int ops, const std::string &scenario) {
  int nd = rng.in(2, 3);
  const bool flat = rng.chance(50);
  std::vector<int> dims;
  for (int d = 0; d < nd; d++) {
    const int a = rng.in(2, 8), b = 2;
    dims.push_back(flat ? (d == 0 ? a : 1) : b);
  }
  // every decomposition needs a direction with a cell for each rank
  dims[0] = std::max(dims[0], ctx().size);
  Rig g(nd, dims);
  auto sp = g.base_spec();
  sp.push(ParticleProp(Sym<INT>("A"), 1));
  sp.push(ParticleProp(Sym<REAL>("B"), 1));
  sp.push(ParticleProp(Sym<INT>("K"), 1));
  sp.push(ParticleProp(Sym<INT>("X"), 2));
  g.make(sp);
  Rng mine(mix(rng.next(), ctx().rank));
  g.param("LOOP_LOCAL_SIZE", rng.pick(std::vector<int>{1, 2, 4, 8, 32}));
  T t{g, rng, mine, 8192, nullptr, nullptr, {}, 1, 1};
  t.selectors = ctx().gets("focus", "") == "selectors";
  t.d_rec = sycl::malloc_device<INT>(4 * t.cap, g.sycl_target->queue);
  t.d_nrec = sycl::malloc_device<int>(1, g.sycl_target->queue);
  J j;
  j.str("ev", "init").num("nr", ctx().size);
  emit(j);
  g.add(occupancies(mine, g.ncell, rng.pick(std::vector<int>{4, 9, 20, t.selectors ? 60 : 12})),
        T::fill);
  t.emit_set("add", true);
  auto end = [&]() {
    t.drop(true);
    sycl::free(t.d_rec, g.sycl_target->queue);
    sycl::free(t.d_nrec, g.sycl_target->queue);
    g.free();
  };
  if (scenario == "static_partition") {
    // one member is frozen, a property write, its sibling is used
    auto ms = particle_group_partition(g.pg, Sym<INT>("K"), 2);
    for (int i = 0; i < 2; i++) {
      Sub y;
      y.kind = "K=";
      y.a = i;
      y.p = {0};
      y.part = 1;
      y.g = ms[i];
      y.s = t.nexts++;
      t.push(y, "[]", "[]", false);
    }
    ms.clear();
    t.subs[1].g->static_status(true);
    t.subs[1].stat = true;
    t.use(1, "static", 0);
    particle_loop(
        g.pg, [=](auto K) { K.at(0) = (K.at(0) + 1) % 3; },
        Access::write(Sym<INT>("K")))
        ->execute();
    t.emit_set("loop over the group", false);
    t.use(2, "use", 0);
    t.use(1, "use", 0);
    return end();
  }
  if (scenario == "unstatic_parent") {
    Sub y;
    y.kind = "A<";
    y.a = 2;
    y.p = {0};
    y.g = t.cond(g.pg, y.kind, y.a);
    y.g->static_status(true);
    y.s = t.nexts++;
    t.push(y, "[]", "[]", true);
    Sub z;
    z.kind = "B<";
    z.a = 3;
    z.p = {1};
    z.g = t.cond(t.subs[1].g, z.kind, z.a);
    z.s = t.nexts++;
    t.push(z, "[]", "[]", false);
    particle_loop(
        g.pg, [=](auto K) { K.at(0) = (K.at(0) + 1) % 5; },
        Access::write(Sym<INT>("A")))
        ->execute();
    t.emit_set("loop over the group", false);
    t.use(2, "use", 0);
    t.subs[1].g->static_status(false);
    t.subs[1].stat = false;
    J u;
    u.str("ev", "unstatic").num("s", 1);
    emit(u);
    t.use(2, "use", 0);
    return end();
  }
  for (int i = 0; i < 3; i++)
    t.create();
  for (int o = 0; o < ops; o++) {
    int act = rng.below(100);
    if (act < (t.selectors ? 30 : 18))
      t.create();
    else if (act < 44)
      t.write();
    else if (act < 56)
      t.change();
    else if (act < 62)
      t.statics();
    else if (act < 66)
      t.drop(false);
    else {
      auto al = t.alive(false);
      if (al.size())
        t.use(rng.pick(al), "use", rng.below(4));
    }
    if (rng.chance(10))
      t.valid();
  }
  end();
}
} // namespace

int main(int argc, char **argv) {
  init(argc, argv);
  Rng rng(ctx().seed);
  int nt = (int)ctx().get("traces", 4), ops = (int)ctx().get("ops", 40);
  for (int i = 0; i < nt; i++) {
    vsycl::reseed(mix(ctx().seed, i, 3));
    trace(rng, ops, ctx().gets("scenario", ""));
  }
  finish();
}
