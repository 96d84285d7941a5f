// Conformance driver for spec/TrajTrace: trajectories that leave a Cartesian
// mesh, truncation and reflection. Positions are multiples of a grid unit, or
// within 1e-9 of one.
#include "../rig.hpp"
using namespace nv;
static const int GRID = 16, SUB = 64, TS = 8;
using BIS = BoundaryInteractionSpecification;

struct World {
  Rng rng, mine;
  int nd, subdiv;
  std::vector<int> dims;
  double extent;
  Rig g;
  double unit;
  std::vector<int> N; // extent in grid units
  std::map<int, std::vector<int>> groups;
  std::shared_ptr<CartesianTrajectoryIntersection> cti;
  std::vector<ParticleSubGroupSharedPtr> sub;
  const Sym<REAL> PP = CartesianTrajectoryIntersection::previous_position_sym;

  static std::vector<int> shape(Rng &r, int nd) {
    std::vector<int> d;
    for (int i = 0; i < nd; i++)
      d.push_back(r.in(1, nd == 3 ? 2 : 4));
    d[r.below(nd)] = std::max(ctx().size, 2);
    return d;
  }
  World(std::uint64_t s)
      : rng(s), mine(mix(s, ctx().rank + 1)), nd(rng.in(2, 3)),
        subdiv(rng.below(2)), dims(shape(rng, nd)),
        extent(rng.pick(std::vector<double>{1.0, 0.5, 2.0, 0.3, 1.7})),
        g(nd, dims, subdiv, 0, extent) {
    unit = extent / (1 << subdiv) / GRID;
    for (int d : dims)
      N.push_back((d << subdiv) * GRID);
    std::vector<int> faces;
    for (int f = 0; f < 2 * nd; f++)
      if (rng.chance(85))
        faces.push_back(f);
    for (std::size_t i = 0; i < faces.size(); i++)
      std::swap(faces[i], faces[rng.below((int)faces.size())]);
    const std::vector<int> ids = {7, 0, -3, 100, 41, 2};
    const int ng = rng.in(1, 4);
    for (int f : faces)
      groups[ids[rng.below(ng)]].push_back(f);
    if (rng.chance(20))
      groups[9] = {};
    auto spec = g.base_spec();
    spec.push(ParticleProp(Sym<REAL>("V"), nd + rng.below(2)));
    spec.push(ParticleProp(Sym<REAL>("T"), 2));
    spec.push(ParticleProp(Sym<INT>("U"), 1));
    g.make(spec);
    cti = std::make_shared<CartesianTrajectoryIntersection>(g.sycl_target,
                                                            g.mesh, groups);
    cti->prepare_particle_group(g.pg);
    add();
    sub.push_back(particle_sub_group(
        g.pg, [=](auto U) { return U.at(0) == 0; }, Access::read(Sym<INT>("U"))));
    sub.push_back(particle_sub_group(
        g.pg, [=](auto U) { return U.at(0) == 1; }, Access::read(Sym<INT>("U"))));
    J j;
    j.str("ev", "world").num("nd", nd).raw("n", J::list(N)).num("sub", SUB);
    j.num("grid", GRID);
    J gs('[');
    for (auto &x : groups)
      gs.add(J('[').addn(x.first).add(J::list(x.second)).done());
    j.raw("groups", gs.done());
    emit(j);
    state("set", 0);
  }
  double at(int d, int k) const {
    return k == 0 ? 0.0 : (k == N[d] ? g.mesh->global_extents[d] : k * unit);
  }
  void add() {
    g.add(occupancies(mine, g.ncell, rng.pick(std::vector<int>{1, 2, 5})),
          [&](ParticleSet &ps, int k, INT, int) {
            for (int d = 0; d < nd; d++) {
              ps[Sym<REAL>("P")][k][d] = at(d, mine.in(1, N[d] - 1));
              ps[Sym<REAL>("V")][k][d] = 25 * mine.in(-20, 20);
            }
            ps[Sym<REAL>("T")][k][0] = mine.in(100, 500);
            ps[Sym<REAL>("T")][k][1] = mine.in(0, 100);
            ps[Sym<INT>("U")][k][0] = mine.below(3);
          });
  }
  J state_fields(const char *ev, int u) {
    J j;
    j.str("ev", ev).num("u", u);
    auto far = [&](double x) {
      return std::llround(std::max(-1e6, std::min(1e6, x / unit * SUB)));
    };
    j.raw("st", gather_each(cells_json(g.pg, [&](const RowView &v) {
            std::vector<long long> p, q, w;
            bool in = true;
            for (int d = 0; d < nd; d++) {
              const double x = v.real("P", d);
              in = in && x > 0.0 && x < g.mesh->global_extents[d];
              p.push_back(far(x));
              q.push_back(far(v.real(PP.name.c_str(), d)));
              w.push_back(std::llround(v.real("V", d)));
            }
            return J('[').addn(v.integer("ID")).addn(v.integer("U"))
                .add(J::list(p)).add(J::list(q)).add(J::list(w))
                .addn(std::llround(v.real("T", 0) * TS))
                .addn(std::llround(v.real("T", 1) * TS))
                .add(in ? "true" : "false").done();
          })));
    return j;
  }
  void state(const char *ev, int u) {
    auto j = state_fields(ev, u);
    emit(j);
  }
  void each(std::function<void(CellData<REAL> &, CellData<REAL> &,
                               CellData<REAL> &, CellData<INT> &, int)> f) {
    for (int c = 0; c < g.ncell; c++) {
      auto p = g.pg->get_dat(Sym<REAL>("P"))->cell_dat.get_cell(c);
      auto t = g.pg->get_dat(Sym<REAL>("T"))->cell_dat.get_cell(c);
      auto v = g.pg->get_dat(Sym<REAL>("V"))->cell_dat.get_cell(c);
      auto u = g.pg->get_dat(Sym<INT>("U"))->cell_dat.get_cell(c);
      for (int r = 0; r < p->nrow; r++)
        f(p, t, v, u, r);
      if (p->nrow > 0) {
        g.pg->get_dat(Sym<REAL>("P"))->cell_dat.set_cell(c, p);
        g.pg->get_dat(Sym<REAL>("T"))->cell_dat.set_cell(c, t);
        g.pg->get_dat(Sym<REAL>("V"))->cell_dat.set_cell(c, v);
      }
    }
  }
  // makes every position usable as the start of a step
  void settle() {
    each([&](auto &p, auto &t, auto &v, auto &, int r) {
      bool ok = true;
      for (int d = 0; d < nd; d++) {
        const double x = p->at(r, d), e = g.mesh->global_extents[d];
        const double off = std::abs(x / unit - std::round(x / unit));
        ok = ok && off < 1e-8 && x > 1e-11 && x < e - 1e-11;
      }
      if (!ok)
        for (int d = 0; d < nd; d++)
          p->at(r, d) = at(d, std::max(1, std::min(N[d] - 1,
                                      (int)std::llround(p->at(r, d) / unit))));
      for (int d = 0; d < nd; d++)
        v->at(r, d) = 25.0 * std::round(v->at(r, d) / 25.0);
      if (mine.chance(30) || t->at(r, 0) < 0) {
        t->at(r, 0) = mine.in(100, 500);
        t->at(r, 1) = mine.in(0, 100);
      }
    });
    state("set", 0);
  }
  void move() {
    const int shape = rng.below(4);
    each([&](auto &p, auto &, auto &, auto &, int r) {
      std::vector<int> a(nd), b(nd);
      for (int d = 0; d < nd; d++)
        b[d] = a[d] = (int)std::llround(p->at(r, d) / unit);
      const int kind = shape == 0 ? 1 : mine.below(6);
      switch (kind) {
      case 0:
        for (int d = 0; d < nd; d++)
          b[d] = mine.in(1, N[d] - 1);
        break;
      case 1:
        for (int d = 0; d < nd; d++)
          b[d] = mine.in(-N[d], 2 * N[d]);
        break;
      case 2: { // through a point of the grid on a wall
        std::vector<int> i(nd);
        for (int d = 0; d < nd; d++)
          i[d] = mine.in(0, N[d]);
        const int w = mine.below(nd);
        i[w] = mine.chance(50) ? 0 : N[w];
        if (mine.chance(25)) { // a corner
          const int w2 = mine.below(nd);
          i[w2] = mine.chance(50) ? 0 : N[w2];
        }
        int k = mine.below(3);
        for (;; k--) {
          bool ok = true;
          for (int d = 0; d < nd; d++) {
            b[d] = i[d] + k * (i[d] - a[d]);
            ok = ok && b[d] >= -N[d] && b[d] <= 2 * N[d];
          }
          if (ok)
            break;
        }
        break;
      }
      case 3: {
        const int d = mine.below(nd);
        b[d] = mine.pick(std::vector<int>{-1, 0, N[d], N[d] + 1, -N[d], 2 * N[d],
                                          N[d] / 2});
        break;
      }
      case 4: // grazing
        for (int d = 0; d < nd; d++)
          b[d] = mine.in(0, N[d]);
        b[mine.below(nd)] = -1;
        break;
      default:
        for (int d = 0; d < nd; d++)
          b[d] = mine.pick(std::vector<int>{0, N[d], mine.in(1, N[d] - 1)});
      }
      bool same = true;
      for (int d = 0; d < nd; d++) {
        if (a[d] == b[d] && (a[d] == 0 || a[d] == N[d]))
          b[d] = a[d] == 0 ? 1 : N[d] - 1; // no sliding along a wall
        same = same && a[d] == b[d];
      }
      if (!same)
        for (int d = 0; d < nd; d++)
          if (a[d] != b[d])
            p->at(r, d) = at(d, b[d]);
    });
    state("set", 0);
  }
  std::map<int, ParticleSubGroupSharedPtr> hits;
  std::string hits_json() {
    J o('[');
    for (auto &x : hits) {
      J rows('[');
      const int nr = x.second->get_npart_local();
      if (nr >= 0) {
        auto pt = x.second->get_ephemeral_dat(BIS::intersection_point);
        auto nm = x.second->get_ephemeral_dat(BIS::intersection_normal);
        auto md = x.second->get_ephemeral_dat(BIS::intersection_metadata);
        const INT cap = 4 * nr + 4;
        // read back through a loop over the sub group
        const int w = 3 + 2 * nd, k_nd = nd;
        std::vector<REAL> h(cap * w + 1, 0.0);
        BufferDevice<REAL> d(g.sycl_target, h);
        REAL *k = d.ptr;
        std::vector<INT> hn(1, 0);
        BufferDevice<INT> dn(g.sycl_target, hn);
        INT *kn = dn.ptr;
        (void)pt, (void)nm, (void)md;
        particle_loop(
            x.second,
            [=](auto ID, auto I, auto NRM, auto M) {
              sycl::atomic_ref<INT, sycl::memory_order::relaxed,
                               sycl::memory_scope::device>
                  n(kn[0]);
              const INT e = n.fetch_add((INT)1);
              if (e < cap) {
                k[e * w] = ID.at(0);
                k[e * w + 1] = M.at_ephemeral(0);
                k[e * w + 2] = M.at_ephemeral(1);
                for (int c = 0; c < k_nd; c++) {
                  k[e * w + 3 + c] = I.at_ephemeral(c);
                  k[e * w + 3 + k_nd + c] = NRM.at_ephemeral(c);
                }
              }
            },
            Access::read(Sym<INT>("ID")), Access::read(BIS::intersection_point),
            Access::read(BIS::intersection_normal),
            Access::read(BIS::intersection_metadata))
            ->execute();
        h = d.get();
        hn = dn.get();
        for (INT e = 0; e < std::min(hn[0], cap); e++) {
          std::vector<long long> i, n;
          for (int c = 0; c < nd; c++) {
            i.push_back(std::llround(
                std::max(-1e6, std::min(1e6, h[e * w + 3 + c] / unit * SUB))));
            const double z = h[e * w + 3 + nd + c];
            n.push_back(z == std::round(z) ? std::llround(z) : 99);
          }
          rows.add(J('[').addn(std::llround(h[e * w])).add(J::list(i))
                       .add(J::list(n)).addn(std::llround(h[e * w + 1]))
                       .addn(std::llround(h[e * w + 2])).done());
        }
      }
      o.add(J('[').addn(x.first).add(rows.done()).done());
    }
    return o.done();
  }
  void step() {
    const int u = rng.below(4);
    if (u < 2)
      cti->pre_integration(sub[u]);
    else
      cti->pre_integration(g.pg);
    state("pre", u < 2 ? u : -1);
    move();
    int v = u;
    if (u < 2)
      hits = cti->post_integration(sub[v]);
    else
      hits = cti->post_integration(g.pg);
    auto j = state_fields("post", v < 2 ? v : -1);
    j.raw("hits", gather_each(hits_json()));
    bool has = true;
    for (auto &x : hits)
      has = has && contains_boundary_interaction_data(x.second, nd, false) &&
            !contains_boundary_interaction_data(x.second, nd + 1, false);
    j.raw("has", gather_each(has ? "true" : "false"));
    emit(j);
    for (auto &x : hits) {
      const int what = rng.below(5);
      if (what == 0)
        continue;
      const int big = rng.below(4);
      const double r = big == 0 ? unit / 16 : (big == 3 ? unit * 3 : 1e-10);
      if (what < 3) {
        auto b = big == 1 ? BoundaryTruncation(nd) : BoundaryTruncation(nd, r);
        b.execute(x.second, Sym<REAL>("P"), Sym<REAL>("T"), PP);
      } else {
        auto b = big == 1 ? BoundaryReflection(nd) : BoundaryReflection(nd, r);
        b.execute(x.second, Sym<REAL>("P"), Sym<REAL>("V"), Sym<REAL>("T"), PP);
      }
      auto e = state_fields("cut", 0);
      e.num("group", x.first).boo("reflect", what >= 3).num("reset", big == 0 ? 4 : (big == 3 ? 3 * SUB : 0));
      emit(e);
    }
    hits.clear();
  }
  // boundaries described by someone else
  void custom() {
    const int u = rng.below(2), kd = rng.in(1, nd);
    cti->pre_integration(g.pg);
    state("pre", -1);
    each([&](auto &p, auto &, auto &, auto &, int r) {
      for (int d = 0; d < nd; d++)
        if (mine.chance(80)) {
          const int k = mine.in(1, N[d] - 1);
          if (k != std::llround(p->at(r, d) / unit))
            p->at(r, d) = at(d, k);
        }
    });
    state("set", 0);
    auto A = particle_sub_group(
        g.pg, [=](auto U) { return U.at(0) == u; },
        Access::read(Sym<INT>("U")));
    add_boundary_interaction_ephemeral_dats(A, kd);
    const INT q = rng.below(100);
    particle_loop(
        A,
        [=](auto ID, auto P, auto Q, auto I, auto NRM, auto M) {
          constexpr REAL n2[4][3] = {{0.6, 0.8, 0}, {-0.8, 0.6, 0}, {0, -1, 0},
                                     {1, 0, 0}};
          constexpr REAL n3[4][3] = {{0.6, 0, 0.8}, {0, -0.8, 0.6}, {0, 0, -1},
                                     {1, 0, 0}};
          const INT h = ID.at(0) + q;
          for (int d = 0; d < kd; d++) {
            I.at_ephemeral(d) =
                Q.at(d) + (REAL)(h % 5) * 0.25 * (P.at(d) - Q.at(d));
            NRM.at_ephemeral(d) = kd == 1 ? (h % 2 ? 1.0 : -1.0)
                                          : (kd == 2 ? n2[h % 4][d] : n3[h % 4][d]);
          }
          M.at_ephemeral(0) = 5;
          M.at_ephemeral(1) = 6;
        },
        Access::read(Sym<INT>("ID")), Access::read(Sym<REAL>("P")),
        Access::read(PP), Access::write(BIS::intersection_point),
        Access::write(BIS::intersection_normal),
        Access::write(BIS::intersection_metadata))
        ->execute();
    const bool refl = rng.chance(60);
    if (refl)
      BoundaryReflection(kd).execute(A, Sym<REAL>("P"), Sym<REAL>("V"),
                                     Sym<REAL>("T"), PP);
    else
      BoundaryTruncation(kd).execute(A, Sym<REAL>("P"), Sym<REAL>("T"), PP);
    auto e = state_fields("custom", u);
    e.num("kd", kd).num("q", q).boo("reflect", refl);
    emit(e);
  }
  void done() {
    sub.clear();
    hits.clear();
    cti->free();
    g.free();
  }
};

static void trace(int t) {
  World w(mix(ctx().seed, t, 0x7a4a));
  for (int o = 0; o < ctx().get("ops", 6); o++) {
    if (o > 0)
      w.settle();
    if (w.rng.chance(15)) {
      w.add();
      w.state("set", 0);
    }
    if (w.rng.chance(20))
      w.custom();
    else
      w.step();
  }
  w.done();
}

int main(int argc, char **argv) {
  init(argc, argv);
  for (int t = 0; t < ctx().get("traces", 3); t++)
    trace(t);
  finish();
  return 0;
}
