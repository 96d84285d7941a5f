// C18: ephemeral dats of sub-groups, pooled resources, temporary groups.
#include "../rig.hpp"
#include <array>
#include <fstream>
#include <sstream>
using namespace nv;

static std::string each(const std::vector<std::string> &v) {
  J r('[');
  for (auto &x : v)
    r.add(x);
  return gather_each(r.done());
}

struct Sub {
  ParticleSubGroupSharedPtr g, parent;
  int kind;
  bool live = true;
};

struct World {
  Rng rng, mine;
  Rig g;
  std::vector<Sub> subs;
  int nx = 1;
  World(std::uint64_t seed, int only = 0)
      : rng(seed), mine(mix(seed, 0x18, ctx().rank)),
        g(2, {std::max(2, ctx().size), rng.in(1, 3)}, rng.below(2)) {
    nx = rng.in(1, 3);
    auto spec = g.base_spec();
    spec.push(ParticleProp(Sym<INT>("Q"), 1));
    spec.push(ParticleProp(Sym<INT>("X"), nx));
    spec.push(ParticleProp(Sym<REAL>("Y"), 2));
    spec.push(ParticleProp(Sym<INT>("OUT"), 4));
    spec.push(ParticleProp(Sym<REAL>("OUTR"), 4));
    g.make(spec);
    populate();
    // kinds: 1 dynamic, 2 static, 3 whole group, 4 of a sub-group, 5 nobody
    J ks('[');
    for (int i = only ? 1 : rng.in(1, 3); i > 0; i--) {
      Sub s;
      s.kind = only ? only : rng.in(1, 5);
      subs.push_back(s);
      ks.addn(s.kind);
    }
    J j;
    j.str("ev", "init").raw("kinds", ks.done());
    emit(j.raw("rows", rows()));
    for (auto &s : subs)
      make(s);
  }
  void make(Sub &s) {
    auto even = [=](auto Q) { return Q.at(0) % 2 == 0; };
    if (s.kind == 1)
      s.g = particle_sub_group(g.pg, even, Access::read(Sym<INT>("Q")));
    else if (s.kind == 2)
      s.g = static_particle_sub_group(g.pg, even, Access::read(Sym<INT>("Q")));
    else if (s.kind == 3)
      s.g = particle_sub_group(g.pg);
    else if (s.kind == 4) {
      s.parent = particle_sub_group(g.pg, even, Access::read(Sym<INT>("Q")));
      s.g = particle_sub_group(
          s.parent, [=](auto ID) { return ID.at(0) % 3 != 0; },
          Access::read(Sym<INT>("ID")));
    } else
      s.g = particle_sub_group(
          g.pg, [=](auto Q) { return Q.at(0) > 1000; },
          Access::read(Sym<INT>("Q")));
  }
  void populate() {
    g.add(occupancies(mine, g.ncell, rng.pick(std::vector<int>{1, 3, 9})),
          [&](ParticleSet &ps, int k, INT, int) {
            for (int d = 0; d < 2; d++)
              ps[Sym<REAL>("P")][k][d] = mine.unit() * g.mesh->global_extents[d] * 0.999;
            ps[Sym<INT>("Q")][k][0] = mine.below(4);
            for (int c = 0; c < nx; c++)
              ps[Sym<INT>("X")][k][c] = mine.below(1000);
          });
  }
  std::string rows() {
    std::vector<std::string> r;
    for_rows(g.pg, [&](const RowView &v) {
      J x('[');
      x.addn(v.integer("ID")).addn(v.integer("Q")).addn(v.integer("X"));
      r.push_back(x.done());
    });
    return each(r);
  }
  void world(const char *what) {
    J j;
    j.str("ev", "world").str("what", what);
    emit(j.raw("rows", rows()));
  }
  void drop_static() {
    J l('[');
    for (std::size_t i = 0; i < subs.size(); i++)
      if (subs[i].kind == 2 && subs[i].live) {
        subs[i].live = false;
        subs[i].g.reset();
      }
  }
  void change(int force = -1) {
    const int how = force < 0 ? rng.below(9) : force;
    if (how < 2) { // other members, or the same ones
      const INT salt = rng.chance(30) ? -1 : rng.below(97);
      particle_loop(
          g.pg,
          [=](auto ID, auto Q) {
            if (salt >= 0)
              Q.at(0) = (ID.at(0) * 7 + salt) % 5;
          },
          Access::read(Sym<INT>("ID")), Access::write(Sym<INT>("Q")))
          ->execute();
      world("Q");
    } else if (how == 2) {
      for (int c = 0; c < g.ncell; c++) {
        auto q = g.pg->get_dat(Sym<INT>("Q"))->cell_dat.get_cell(c);
        for (int r = 0; r < q->nrow; r++)
          q->at(r, 0) = mine.below(4);
        g.pg->get_dat(Sym<INT>("Q"))->cell_dat.set_cell(c, q);
      }
      // a change behind the back of the group is announced by a loop
      particle_loop(
          g.pg, [=](auto Q) { Q.at(0) += 0; }, Access::write(Sym<INT>("Q")))
          ->execute();
      world("Q");
    } else if (how == 3) {
      drop_static();
      populate();
      world("group");
    } else if (how == 4) {
      const int m = rng.in(2, 6);
      drop_static();
      g.pg->remove_particles(particle_sub_group(
          g.pg, [=](auto ID) { return ID.at(0) % m == 0; },
          Access::read(Sym<INT>("ID"))));
      world("group");
    } else if (how == 5) { // everybody into other cells and ranks
      drop_static();
      particle_loop(
          g.pg, [=, e0 = g.mesh->global_extents[0]](auto ID, auto P) {
            P.at(0) = ((ID.at(0) * 37) % 101) / 101.0 * e0;
          },
          Access::read(Sym<INT>("ID")), Access::write(Sym<REAL>("P")))
          ->execute();
      CartesianCellBin bin(g.sycl_target, g.mesh, g.pg->position_dat,
                           g.pg->cell_id_dat);
      g.pg->hybrid_move();
      bin.execute();
      g.pg->cell_move();
      world("group");
    } else if (how == 6) { // a property that no selection depends on
      particle_loop(
          g.pg, [=](auto X) { X.at(0) += 1; }, Access::write(Sym<INT>("X")))
          ->execute();
      world("X");
    } else if (how == 7) { // the property is made again
      nx = rng.in(1, 4);
      g.pg->remove_particle_dat(Sym<INT>("X"));
      g.pg->add_particle_dat(Sym<INT>("X"), nx);
      const INT salt = rng.below(50);
      const int n = nx;
      particle_loop(
          g.pg,
          [=](auto ID, auto X) {
            for (int c = 0; c < n; c++)
              X.at(c) = ID.at(0) + salt;
          },
          Access::read(Sym<INT>("ID")), Access::write(Sym<INT>("X")))
          ->execute();
      world("X");
    } else { // the group itself reads through a vector of properties
      auto sv = sym_vector<INT>(g.pg, {Sym<INT>("X"), Sym<INT>("ID")});
      read_event("loopall", 0, g.pg, [&](auto A) {
        particle_loop(
            A,
            [=](auto S, auto OUT) {
              OUT.at(0) = S.at(0, 0);
              OUT.at(1) = S.at(1, 0);
            },
            Access::read(sv), Access::write(Sym<INT>("OUT")))
            ->execute();
      });
    }
  }
  template <typename A, typename F>
  void read_event(const char *ev, int s, A a, F f) {
    clear_out();
    f(a);
    std::vector<std::string> r;
    for_rows(g.pg, [&](const RowView &v) {
      r.push_back(J('[').addn(v.integer("ID")).addn(v.integer("OUT", 0))
                      .addn(v.integer("OUT", 1)).done());
    });
    J j;
    j.str("ev", ev).num("s", s);
    emit(j.raw("got", each(r)));
  }
  void clear_out() {
    particle_loop(
        g.pg,
        [=](auto O, auto R) {
          for (int c = 0; c < 4; c++) {
            O.at(c) = -7;
            R.at(c) = -7;
          }
        },
        Access::write(Sym<INT>("OUT")), Access::write(Sym<REAL>("OUTR")))
        ->execute();
  }
  // the names E1, E2 are integers, F1 is real
  static bool real(const std::string &n) { return n[0] == 'F'; }
  bool contains(Sub &s, const std::string &n) {
    return real(n) ? s.g->contains_ephemeral_dat(Sym<REAL>(n))
                   : s.g->contains_ephemeral_dat(Sym<INT>(n));
  }
  int ncomp(Sub &s, const std::string &n) {
    return real(n) ? s.g->get_ephemeral_dat(Sym<REAL>(n))->ncomp
                   : s.g->get_ephemeral_dat(Sym<INT>(n))->ncomp;
  }
  bool ask(int i, const std::string &n) {
    auto &s = subs[i];
    const bool c = contains(s, n);
    J j;
    j.str("ev", "contains").num("s", i + 1).str("n", n);
    emit(j.raw("got", gather_each(c ? "true" : "false")));
    return c;
  }
  // what: 3 add, 5 remove, 6 write, 9 read, otherwise a change
  void op(int force = -1, const std::string &name = "") {
    const int i = rng.below((int)subs.size());
    auto &s = subs[i];
    const int what = force < 0 ? rng.below(12) : force;
    auto n = rng.pick(std::vector<std::string>{"E1", "E2", "F1"});
    if (force >= 0)
      n = name;
    const int nc = rng.in(1, 4), salt = rng.below(1000);
    const int how = rng.below(4), comp = rng.below(4);
    const bool twice = rng.chance(30);
    if (what < 3)
      return change();
    if (!s.live)
      return;
    const bool here = ask(i, n);
    J j;
    if (what < 5) {
      if (here && twice) { // again, the same
        if (real(n))
          s.g->add_ephemeral_dat(Sym<REAL>(n), ncomp(s, n));
        else
          s.g->add_ephemeral_dat(Sym<INT>(n), ncomp(s, n));
      }
      int me = here ? 0 : nc;
      if (!here) {
        if (real(n))
          s.g->add_ephemeral_dat(Sym<REAL>(n), nc);
        else
          s.g->add_ephemeral_dat(Sym<INT>(n), nc);
      }
      j.str("ev", "add").num("s", i + 1).str("n", n);
      emit(j.raw("ncomp", gather_each(J::integer(me))));
      ask(i, n);
    } else if (what == 5) {
      if (here) {
        if (real(n))
          s.g->remove_ephemeral_dat(Sym<REAL>(n));
        else
          s.g->remove_ephemeral_dat(Sym<INT>(n));
      }
      j.str("ev", "remove").num("s", i + 1).str("n", n);
      emit(j.raw("done", gather_each(here ? "true" : "false")));
      ask(i, n);
    } else if (what < 9) {
      int me = -1;
      if (here) {
        me = comp % ncomp(s, n);
        if (real(n))
          write<REAL>(s, n, me, salt, how);
        else
          write<INT>(s, n, me, salt, how);
      }
      j.str("ev", "write").num("s", i + 1).str("n", n).num("salt", salt);
      emit(j.raw("comp", gather_each(J::integer(me))));
    } else {
      clear_out();
      int me = 0;
      if (here) {
        me = ncomp(s, n);
        if (real(n))
          read<REAL>(s, n, me, how);
        else
          read<INT>(s, n, me, how);
      }
      std::vector<std::string> r;
      for_rows(g.pg, [&](const RowView &v) {
        J x('[');
        x.addn(v.integer("ID"));
        for (int c = 0; c < 4; c++)
          x.addn(real(n) ? (INT)v.real("OUTR", c) : v.integer("OUT", c));
        r.push_back(x.done());
      });
      j.str("ev", "read").num("s", i + 1).str("n", n).raw("ncomp", gather_each(J::integer(me)));
      emit(j.raw("got", each(r)));
    }
  }
  template <typename T>
  void write(Sub &s, const std::string &n, int comp, INT salt, int how) {
    const Sym<T> e(n);
    if (how == 0)
      particle_loop(
          s.g,
          [=](auto ID, auto E) { E.at_ephemeral(comp) = ID.at(0) % 5000 + salt; },
          Access::read(Sym<INT>("ID")), Access::write(e))
          ->execute();
    else if (how == 1) {
      std::vector<Sym<T>> syms = {e};
      particle_loop(
          s.g,
          [=](auto ID, auto E) {
            E.at_ephemeral(0, comp) = ID.at(0) % 5000 + salt;
          },
          Access::read(Sym<INT>("ID")), Access::write(sym_vector<T>(s.g, syms)))
          ->execute();
    } else if (how == 2) {
      std::vector<Sym<T>> syms = {other<T>(), e};
      particle_loop(
          s.g,
          [=](auto INDEX, auto ID, auto E) {
            E.at_ephemeral(1, INDEX, comp) = ID.at(0) % 5000 + salt;
          },
          Access::read(ParticleLoopIndex{}), Access::read(Sym<INT>("ID")),
          Access::write(sym_vector<T>(s.g, syms)))
          ->execute();
    } else
      particle_loop(
          s.g,
          [=](auto ID, auto E) { E.at_ephemeral(comp) = ID.at(0) % 5000 + salt; },
          Access::read(g.pg->get_dat(Sym<INT>("ID"))),
          Access::write(s.g->get_ephemeral_dat(e)))
          ->execute();
  }
  template <typename T> static Sym<T> other() {
    if constexpr (std::is_same_v<T, REAL>)
      return Sym<REAL>("Y");
    else
      return Sym<INT>("X");
  }
  template <typename T> static Sym<T> out() {
    if constexpr (std::is_same_v<T, REAL>)
      return Sym<REAL>("OUTR");
    else
      return Sym<INT>("OUT");
  }
  template <typename T> void read(Sub &s, const std::string &n, int nc, int how) {
    const Sym<T> e(n);
    if (how == 0 && nc == 4)
      copy_ephemeral_dat_to_particle_dat(s.g, e, out<T>());
    else if (how <= 1) {
      std::vector<Sym<T>> syms = {e};
      particle_loop(
          s.g,
          [=](auto E, auto O) {
            for (int c = 0; c < nc; c++)
              O.at(c) = E.at_ephemeral(0, c);
          },
          Access::read(sym_vector<T>(s.g, syms)), Access::write(out<T>()))
          ->execute();
    } else if (how == 2) {
      std::vector<Sym<T>> syms = {other<T>(), e};
      particle_loop(
          s.g,
          [=](auto INDEX, auto E, auto O) {
            for (int c = 0; c < nc; c++)
              O.at(c) = E.at_ephemeral(1, INDEX, c);
          },
          Access::read(ParticleLoopIndex{}),
          Access::read(sym_vector<T>(s.g, syms)), Access::write(out<T>()))
          ->execute();
    } else
      particle_loop(
          s.g,
          [=](auto E, auto O) {
            for (int c = 0; c < nc; c++)
              O.at(c) = E.at_ephemeral(c);
          },
          Access::read(e), Access::write(out<T>()))
          ->execute();
  }
  // a vector of properties of the group, read by a loop over a sub-group
  void others() {
    const int i = rng.below((int)subs.size());
    auto &s = subs[i];
    if (!s.live)
      return;
    std::vector<Sym<INT>> syms = {Sym<INT>("X"), Sym<INT>("ID")};
    read_event("others", i + 1, s.g, [&](auto A) {
      particle_loop(
          A,
          [=](auto S, auto OUT) {
            OUT.at(0) = S.at(0, 0);
            OUT.at(1) = S.at(1, 0);
          },
          Access::read(sym_vector<INT>(A, syms)), Access::write(Sym<INT>("OUT")))
          ->execute();
    });
  }
  // one of the sequences that the model generates
  void step(const std::string &o) {
    if (o == "add")
      op(3, "E1");
    else if (o == "remove")
      op(5, "E1");
    else if (o == "write")
      op(6, "E1");
    else if (o == "read")
      op(9, "E1");
    else if (o == "readx")
      others();
    else if (o == "change")
      change(0);
    else
      change(7);
  }
  void done() {
    subs.clear();
    g.free();
  }
  void run(int ops) {
    for (int o = 0; o < ops; o++)
      if (rng.chance(10))
        others();
      else
        op();
    done();
  }
};

// pools: what is handed out belongs to the holder until it is given back
static void pool_trace(int t) {
  Rng rng(mix(ctx().seed, t, 0x81));
  Rig g(2, {std::max(2, ctx().size), 2});
  auto spec = g.base_spec();
  spec.push(ParticleProp(Sym<INT>("A"), 2));
  g.make(spec);
  g.add(std::vector<int>(g.ncell, 2), nullptr);
  auto st = g.sycl_target;
  auto map = st->resource_stack_map;
  struct Held {
    int kind, id, salt, n;
    std::shared_ptr<BufferDevice<INT>> d;
    std::shared_ptr<BufferDeviceHost<REAL>> dh;
    std::shared_ptr<BufferHost<int>> h;
    std::shared_ptr<ErrorPropagate> ep;
    ParticleGroupSharedPtr pg;
  };
  std::vector<Held> held;
  std::map<void *, int> names;
  ParticleGroupTemporary tmp;
  auto name = [&](void *p) {
    if (!names.count(p))
      names[p] = (int)names.size() + 1;
    return names[p];
  };
  J j0;
  emit(j0.str("ev", "pools"));
  int na = 2;
  bool extra = false, extrai = false;
  const int ops = rng.in(15, 40);
  for (int o = 0; o < ops; o++) {
    if (rng.chance(15)) { // the group changes what a temporary group must have
      if (rng.chance(50)) {
        na = rng.in(1, 3);
        g.pg->remove_particle_dat(Sym<INT>("A"));
        g.pg->add_particle_dat(Sym<INT>("A"), na);
      } else if (rng.chance(50)) {
        if (extra)
          g.pg->remove_particle_dat(Sym<REAL>("B"));
        else
          g.pg->add_particle_dat(Sym<REAL>("B"), 3);
        extra = !extra;
      } else {
        if (extrai)
          g.pg->remove_particle_dat(Sym<INT>("C"));
        else
          g.pg->add_particle_dat(Sym<INT>("C"), rng.in(1, 2));
        extrai = !extrai;
      }
    }
    if (held.size() < 6 && rng.chance(60)) {
      Held h;
      h.kind = rng.in(1, 5);
      h.salt = rng.below(100000);
      h.n = rng.pick(std::vector<int>{1, 30, 64, 65, 500});
      std::string state = "ok";
      const INT salt = h.salt;
      if (h.kind == 1) {
        h.d = get_resource<BufferDevice<INT>, ResourceStackInterfaceBufferDevice<INT>>(
            map, ResourceStackKeyBufferDevice<INT>{}, st);
        h.d->realloc_no_copy(h.n);
        std::vector<INT> v(h.n);
        for (int i = 0; i < h.n; i++)
          v[i] = salt + i;
        st->queue.memcpy(h.d->ptr, v.data(), h.n * sizeof(INT)).wait_and_throw();
        h.id = name(h.d.get());
      } else if (h.kind == 2) {
        h.dh = get_resource<BufferDeviceHost<REAL>,
                            ResourceStackInterfaceBufferDeviceHost<REAL>>(
            map, ResourceStackKeyBufferDeviceHost<REAL>{}, st);
        h.dh->realloc_no_copy(h.n);
        for (int i = 0; i < h.n; i++)
          h.dh->h_buffer.ptr[i] = salt + i;
        h.dh->host_to_device();
        h.id = name(h.dh.get());
      } else if (h.kind == 3) {
        h.h = get_resource<BufferHost<int>, ResourceStackInterfaceBufferHost<int>>(
            map, ResourceStackKeyBufferHost<int>{}, st);
        h.h->realloc_no_copy(h.n);
        for (int i = 0; i < h.n; i++)
          h.h->ptr[i] = salt + i;
        h.id = name(h.h.get());
      } else if (h.kind == 4) {
        h.ep = get_resource<ErrorPropagate, ResourceStackInterfaceErrorPropagate>(
            map, ResourceStackKeyErrorPropagate{}, st);
        if (h.ep->get_flag())
          state = "flag set";
        h.id = name(h.ep.get());
        auto k = h.ep->device_ptr();
        const bool raise = h.salt % 2;
        st->queue
            .submit([&](sycl::handler &cgh) {
              cgh.single_task<>([=]() { NESO_KERNEL_ASSERT(!raise, k); });
            })
            .wait_and_throw();
      } else {
        h.pg = tmp.get(g.pg);
        h.id = name(h.pg.get());
        auto &a = g.pg->get_particle_spec(), &b = h.pg->get_particle_spec();
        auto count = [](auto pg) {
          int n = 0;
          for_rows(pg, [&](const RowView &) { n++; });
          return n;
        };
        if (count(h.pg) != 0 || h.pg->get_npart_local() != 0)
          state = "not empty";
        std::map<std::string, int> pa, pb;
        for (auto &p : a.properties_real)
          pa["r" + p.sym.name] = p.ncomp;
        for (auto &p : a.properties_int)
          pa["i" + p.sym.name] = p.ncomp;
        for (auto &p : b.properties_real)
          pb["r" + p.sym.name] = p.ncomp;
        for (auto &p : b.properties_int)
          pb["i" + p.sym.name] = p.ncomp;
        if (pa != pb)
          state = "other properties";
        for (auto &d : g.pg->particle_dats_real)
          if (!h.pg->contains_dat(d.first, d.second->ncomp))
            state = "a dat is missing";
        for (auto &d : g.pg->particle_dats_int)
          if (!h.pg->contains_dat(d.first, d.second->ncomp))
            state = "a dat is missing";
        h.n = h.salt % 7;
        ParticleSet ps(h.n, h.pg->get_particle_spec());
        for (int i = 0; i < h.n; i++) {
          ps[Sym<INT>("CELL_ID")][i][0] = i % g.ncell;
          ps[Sym<INT>("ID")][i][0] = salt + i;
        }
        if (h.n)
          h.pg->add_particles_local(ps);
      }
      J j;
      j.str("ev", "take").num("kind", h.kind).num("id", h.id);
      emit(j.str("state", state));
      held.push_back(h);
    } else if (!held.empty()) {
      const int i = rng.below((int)held.size());
      Held h = held[i];
      held.erase(held.begin() + i);
      std::string state = "ok";
      if (h.kind == 1) {
        std::vector<INT> v(h.n);
        st->queue.memcpy(v.data(), h.d->ptr, h.n * sizeof(INT)).wait_and_throw();
        for (int k = 0; k < h.n; k++)
          if (v[k] != h.salt + k)
            state = "overwritten";
        restore_resource(map, ResourceStackKeyBufferDevice<INT>{}, h.d);
      } else if (h.kind == 2) {
        h.dh->device_to_host();
        for (int k = 0; k < h.n; k++)
          if (h.dh->h_buffer.ptr[k] != h.salt + k)
            state = "overwritten";
        restore_resource(map, ResourceStackKeyBufferDeviceHost<REAL>{}, h.dh);
      } else if (h.kind == 3) {
        for (int k = 0; k < h.n; k++)
          if (h.h->ptr[k] != h.salt + k)
            state = "overwritten";
        restore_resource(map, ResourceStackKeyBufferHost<int>{}, h.h);
      } else if (h.kind == 4) {
        if (h.ep->get_flag() != (h.salt % 2))
          state = "wrong flag";
        restore_resource(map, ResourceStackKeyErrorPropagate{}, h.ep);
      } else {
        std::vector<INT> ids, want;
        for_rows(h.pg, [&](const RowView &v) { ids.push_back(v.integer("ID")); });
        for (int k = 0; k < h.n; k++)
          want.push_back(h.salt + k);
        std::sort(ids.begin(), ids.end());
        if (ids != want)
          state = "other particles";
        tmp.restore(g.pg, h.pg);
      }
      J j;
      j.str("ev", "give").num("kind", h.kind).num("id", h.id);
      emit(j.str("state", state));
    }
  }
  for (auto &h : held) {
    if (h.kind == 1)
      restore_resource(map, ResourceStackKeyBufferDevice<INT>{}, h.d);
    else if (h.kind == 2)
      restore_resource(map, ResourceStackKeyBufferDeviceHost<REAL>{}, h.dh);
    else if (h.kind == 3)
      restore_resource(map, ResourceStackKeyBufferHost<int>{}, h.h);
    else if (h.kind == 4)
      restore_resource(map, ResourceStackKeyErrorPropagate{}, h.ep);
    else
      tmp.restore(g.pg, h.pg);
  }
  held.clear();
  g.free();
}

int main(int argc, char **argv) {
  init(argc, argv);
  auto f = ctx().gets("behaviours", "");
  if (!f.empty()) {
    std::ifstream is(f);
    std::string line;
    int part = (int)ctx().get("part", 0), parts = (int)ctx().get("parts", 1), i = 0;
    while (std::getline(is, line)) {
      if (i++ % parts != part)
        continue;
      for (char &c : line)
        if (!std::isalpha((unsigned char)c))
          c = ' ';
      std::istringstream ss(line);
      World w(mix(ctx().seed, i, 0x5e2), 1);
      std::string x;
      ss >> x; // the key
      while (ss >> x)
        w.step(x);
      w.done();
    }
    finish();
    return 0;
  }
  for (int t = 0; t < ctx().get("traces", 4); t++) {
    World w(mix(ctx().seed, t, 0x1818));
    w.run(ctx().get("ops", 24));
    pool_trace(t);
  }
  finish();
  return 0;
}
