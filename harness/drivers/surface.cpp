// Conformance driver for spec/SurfaceTrace: data on boundary elements owned by
// other ranks, functions on the boundary of a Cartesian mesh and the sequences
// of operations that spec/SurfaceCache generates.
#include "../rig.hpp"
#include <fstream>
using namespace nv;
using BIS = BoundaryInteractionSpecification;

template <typename V> static std::string each(const V &v) {
  return gather_each(J::list(v));
}
static std::string rows(const std::vector<REAL> &v, int ncomp, int n) {
  J o('[');
  for (int i = 0; i < n; i++) {
    std::vector<long long> r;
    for (int c = 0; c < ncomp; c++) {
      const double x = v.at(i * ncomp + c);
      r.push_back(x == std::round(x) && std::abs(x) < 1e6 ? (long long)x
                                                          : 999999999);
    }
    o.add(J::list(r));
  }
  return o.done();
}
// ------------------------------------------------------------ the exchange
static void bmi_trace(int t) {
  Rng rng(mix(ctx().seed, t, 0xb31)), mine(mix(ctx().seed, t, 0xb32, ctx().rank));
  auto target = std::make_shared<SYCLTarget>(0, MPI_COMM_WORLD);
  const int ng = rng.in(1, 24), size = ctx().size, rank = ctx().rank;
  const int stride = rng.pick(std::vector<int>{1, 1, 7, 130}), base = rng.in(0, 90);
  std::vector<std::vector<INT>> owned(size);
  const int skew = rng.below(3);
  for (int g = 0; g < ng; g++) {
    const int r = skew == 0 ? rng.below(size)
                            : (skew == 1 ? 0 : g * size / ng);
    auto &o = owned[r];
    o.insert(o.begin() + rng.below((int)o.size() + 1), (INT)base + g * stride);
  }
  BoundaryMeshInterface b(MPI_COMM_WORLD, target, owned[rank]);
  auto version = b.get_version_function_handle();
  {
    J j;
    j.str("ev", "bmi").raw("owned", each(owned[rank]));
    j.raw("version", gather_each(std::to_string(version())));
    emit(j);
  }
  bool any = false;
  const int nop = ctx().get("ops", 6);
  for (int o = 0; o < nop; o++) {
    const int what = rng.below(4), shape = rng.below(4);
    const int n0 = (int)b.get_num_intersection_geoms();
    if (what == 0 || o == 0) {
      std::vector<std::pair<int, INT>> add;
      std::vector<INT> ids;
      const int n = shape == 0 ? (rng.below(size) == rank ? 3 : 0)
                               : (shape == 1 ? 0 : mine.below(shape == 2 ? 3 : ng + 2));
      for (int i = 0; i < n; i++) {
        const int r = mine.below(size);
        if (owned[r].empty())
          continue;
        add.push_back({r, owned[r][mine.below((int)owned[r].size())]});
        ids.push_back(add.back().second);
      }
      b.extend_exchange_pattern(add);
      const auto g_any = gather(ids.empty() ? "" : "x");
      for (auto &x : g_any)
        any = any || !x.empty();
      std::vector<INT> met, inv;
      for (INT i = 0; i < b.get_num_intersection_geoms(); i++) {
        met.push_back(b.get_geom_id_from_seq_index(i));
        inv.push_back(b.get_seq_index_from_geom_id(met.back()));
      }
      // the map for kernels is the same
      auto tree = b.get_device_geom_id_to_seq();
      for (std::size_t i = 0; i < met.size(); i++) {
        const INT *v = nullptr;
        if (std::get<0>(tree) == nullptr || !std::get<0>(tree)->get(met[i], &v) ||
            *v != (INT)i || std::get<1>(tree) != (INT)met.size())
          inv[i] = -1;
      }
      J j;
      j.str("ev", "extend").raw("new", each(ids)).raw("met", each(met));
      j.raw("inv", each(inv));
      auto s = b.get_extended_pattern_geom_ids();
      j.raw("all", each(std::vector<INT>(s.begin(), s.end())));
      j.raw("version", gather_each(std::to_string(version())));
      j.raw("exported",
            gather_each(std::to_string(any ? b.get_total_num_exported_geoms() : 0)));
      emit(j);
      continue;
    }
    const int ncomp = rng.in(1, 3);
    auto fill = [&](int n) {
      std::vector<REAL> v(n * ncomp);
      for (auto &x : v)
        x = mine.in(-50, 50);
      return v;
    };
    const int no = (int)owned[rank].size();
    const bool fwd = what < 3;
    std::vector<REAL> src = fill(fwd ? n0 : no), dst = fill(fwd ? no : n0);
    J j;
    j.str("ev", fwd ? "exchange" : "reverse").num("ncomp", ncomp);
    j.raw("src", gather_each(rows(src, ncomp, fwd ? n0 : no)));
    j.raw("before", gather_each(rows(dst, ncomp, fwd ? no : n0)));
    src.resize(src.size() + 1), dst.resize(dst.size() + 1); // never empty
    BufferDevice<REAL> ds(target, src), dd(target, dst);
    if (fwd)
      b.exchange_from_device(ds.ptr, ncomp, dd.ptr);
    else
      b.reverse_exchange_from_device(ds.ptr, ncomp, dd.ptr);
    j.raw("after", gather_each(rows(dd.get(), ncomp, fwd ? no : n0)));
    emit(j);
  }
  b.free();
  target->free();
}
// ------------------------------------------------- functions on the boundary
struct World {
  Rng rng, mine;
  int nd, subdiv;
  double extent;
  std::vector<int> dims;
  Rig g;
  double measure;
  std::vector<int> N;
  std::map<int, std::vector<int>> groups;
  std::shared_ptr<CartesianTrajectoryIntersection> cti;
  std::vector<CartesianHMeshFunctionSharedPtr> fn;
  std::vector<std::map<int, ParticleSubGroupSharedPtr>> hits;
  std::vector<bool> open;

  static std::vector<int> shape(Rng &r, int nd) {
    std::vector<int> d;
    for (int i = 0; i < nd; i++)
      d.push_back(r.in(1, 3));
    d[r.below(nd)] = std::max(ctx().size, 2);
    return d;
  }
  World(std::uint64_t s)
      : rng(s), mine(mix(s, ctx().rank + 1)), nd(rng.in(2, 3)),
        subdiv(rng.below(2)),
        extent(rng.pick(std::vector<double>{1.0, 0.5, 2.0, 0.25, 4.0})),
        dims(shape(rng, nd)), g(nd, dims, subdiv, 0, extent) {
    const double h = extent / (1 << subdiv);
    measure = std::pow(h, nd - 1);
    std::vector<int> faces;
    for (int f = 0; f < 2 * nd; f++) {
      N.push_back(0);
      faces.push_back(f);
    }
    N.resize(nd);
    for (int d = 0; d < nd; d++)
      N[d] = dims[d] << subdiv;
    for (std::size_t i = 0; i < faces.size(); i++)
      std::swap(faces[i], faces[rng.below((int)faces.size())]);
    const std::vector<int> ids = {3, 0, 20};
    const int ng = rng.in(1, 3);
    for (int f : faces)
      if (rng.chance(90))
        groups[ids[rng.below(ng)]].push_back(f);
    if (groups.empty() || rng.chance(10))
      groups[9] = {};
    auto spec = g.base_spec();
    spec.push(ParticleProp(Sym<REAL>("W"), 2));
    spec.push(ParticleProp(Sym<REAL>("Q"), 2));
    spec.push(ParticleProp(Sym<INT>("U"), 1));
    g.make(spec);
    cti = std::make_shared<CartesianTrajectoryIntersection>(g.sycl_target,
                                                            g.mesh, groups);
    cti->prepare_particle_group(g.pg);
    g.add(occupancies(mine, g.ncell, 3), [&](ParticleSet &ps, int k, INT, int) {
      ps[Sym<REAL>("W")][k][0] = mine.in(-9, 90);
      ps[Sym<REAL>("W")][k][1] = mine.in(1, 9);
    });
    J j;
    j.str("ev", "world").raw("nc", J::list(N));
    J gs('[');
    for (auto &x : groups)
      gs.add(J('[').addn(x.first).add(J::list(x.second)).done());
    j.raw("groups", gs.done());
    emit(j);
    const int nf = rng.in(1, 3);
    for (int i = 0; i < nf; i++) {
      auto it = groups.begin();
      std::advance(it, rng.below((int)groups.size()));
      fn.push_back(cti->create_function(it->first, "DG", 0));
      open.push_back(false);
      J e;
      e.str("ev", "function").num("group", it->first);
      e.raw("cells", each(fn.back()->cells));
      std::vector<int> own;
      for (INT c : fn.back()->cells)
        own.push_back(g.mesh->get_face_id_owning_rank(c));
      e.raw("owner", each(own)).raw("dofs", each(dofs((int)fn.size() - 1)));
      emit(e);
    }
  }
  long long scaled(double v) const {
    const double x = v * measure * 16;
    return std::abs(x - std::round(x)) < 1e-6 && std::abs(x) < 1e8
               ? std::llround(x)
               : 999999999;
  }
  std::vector<long long> dofs(int f) const {
    std::vector<long long> o;
    for (double v : fn[f]->get_dofs())
      o.push_back(scaled(v));
    return o;
  }
  void hit() {
    cti->pre_integration(g.pg);
    const int few = rng.below(3);
    const double h = extent / (1 << subdiv);
    auto ppname = CartesianTrajectoryIntersection::previous_position_sym;
    for (int c = 0; c < g.ncell; c++) {
      auto p = g.pg->get_dat(Sym<REAL>("P"))->cell_dat.get_cell(c);
      auto q = g.pg->get_dat(ppname)->cell_dat.get_cell(c);
      for (int r = 0; r < p->nrow; r++) {
        for (int d = 0; d < nd; d++)
          p->at(r, d) = q->at(r, d) = h * (mine.below(N[d]) + mine.in(1, 3) * 0.25);
        if (mine.chance(few == 0 ? 10 : 60)) {
          const int w = mine.below(nd);
          p->at(r, w) = mine.chance(50) ? -0.5 * h : h * N[w] + 0.25 * h;
        }
      }
      if (p->nrow > 0) {
        g.pg->get_dat(Sym<REAL>("P"))->cell_dat.set_cell(c, p);
        g.pg->get_dat(ppname)->cell_dat.set_cell(c, q);
      }
    }
    hits.push_back(cti->post_integration(g.pg));
    J all('[');
    for (auto &x : hits.back()) {
      auto A = x.second;
      A->add_ephemeral_dat(Sym<REAL>("WE"), 2);
      A->add_ephemeral_dat(Sym<REAL>("QE"), 2);
      particle_loop(
          A, [=](auto ID, auto WE) { WE.at_ephemeral(1) = ID.at(0) % 1000 + 1; },
          Access::read(Sym<INT>("ID")), Access::write(Sym<REAL>("WE")))
          ->execute();
      std::vector<std::array<REAL, 5>> rs;
      collect(A, [&](const std::array<REAL, 5> &v) { rs.push_back(v); });
      J o('[');
      for (auto &v : rs)
        o.add(J('[').addn((long long)v[0]).addn((long long)v[1])
                  .addn((long long)v[2]).addn((long long)v[3])
                  .addn((long long)v[0] % 1000 + 1).done());
      all.add(J('[').addn(x.first).add(o.done()).done());
    }
    J j;
    j.str("ev", "hits").raw("hits", gather_each(all.done()));
    emit(j);
  }
  // id, element, weights, of the particles of a group
  template <typename F> void collect(ParticleSubGroupSharedPtr A, F f) {
    const INT n = A->get_npart_local(), cap = 2 * n + 1;
    std::vector<REAL> h(cap * 5, 0.0);
    std::vector<INT> hn(1, 0);
    BufferDevice<REAL> d(g.sycl_target, h);
    BufferDevice<INT> dn(g.sycl_target, hn);
    REAL *k = d.ptr;
    INT *kn = dn.ptr;
    particle_loop(
        A,
        [=](auto ID, auto W, auto M) {
          const INT e = atomic_fetch_add(kn, (INT)1);
          if (e < cap) {
            k[e * 5] = ID.at(0);
            k[e * 5 + 1] = M.at_ephemeral(1);
            k[e * 5 + 2] = W.at(0);
            k[e * 5 + 3] = W.at(1);
          }
        },
        Access::read(Sym<INT>("ID")), Access::read(Sym<REAL>("W")),
        Access::read(BIS::intersection_metadata))
        ->execute();
    h = d.get();
    hn = dn.get();
    for (INT e = 0; e < std::min(hn[0], cap); e++)
      f({h[e * 5], h[e * 5 + 1], h[e * 5 + 2], h[e * 5 + 3], h[e * 5 + 4]});
  }
  int round() { // index of a round of hits, the last one most often
    if (hits.empty() || rng.chance(6))
      return 0;
    return rng.chance(75) ? (int)hits.size() : rng.in(1, (int)hits.size());
  }
  ParticleSubGroupSharedPtr sub(int f, int h) {
    return h == 0 ? nullptr : hits[h - 1].at(fn[f]->boundary_group);
  }
  void dofs_event(int f, const char *op, int k, int h, int w) {
    J j;
    j.str("ev", "dofs").str("op", op).num("f", f + 1).num("k", k).num("h", h);
    j.num("w", w);
    std::string s;
    for (std::size_t i = 0; i < fn.size(); i++)
      s += (i ? "," : "") + each(dofs((int)i));
    emit(j.raw("dofs", "[" + s + "]"));
  }
  void op(const std::string &what, int f) {
    if (what == "hit")
      return hit();
    auto F = fn[f];
    const int w = rng.in(1, 3), h = round(), k = rng.in(-20, 20);
    const Sym<REAL> sym = w == 3 ? Sym<REAL>("WE") : Sym<REAL>("W");
    const int comp = w == 3 ? 1 : w - 1;
    if (what == "set" && !open[f]) {
      if (rng.chance(50)) {
        F->fill(k / measure);
        dofs_event(f, "fill", k, 0, 0);
      } else {
        std::vector<REAL> v;
        for (INT c : F->cells)
          v.push_back((k + c) / measure);
        F->set_dofs(v);
        dofs_event(f, "set", k, 0, 0);
      }
    } else if (what == "project" && !open[f]) {
      cti->function_project(sub(f, h), sym, comp, w == 3, F);
      dofs_event(f, "project", 0, h, w);
    } else if (what == "init") {
      cti->function_project_initialise(F);
      open[f] = true;
      dofs_event(f, "init", 0, 0, 0);
    } else if (what == "add" && open[f]) {
      cti->function_project_contribute(sub(f, h), sym, comp, w == 3, F);
      dofs_event(f, "add", 0, h, w);
    } else if (what == "finish" && open[f]) {
      cti->function_project_finalise(F);
      open[f] = false;
      dofs_event(f, "finish", 0, 0, 0);
    } else if (what == "eval" && !open[f])
      eval(f, h);
  }
  void eval(int f, int h) {
    const bool eph = h > 0 && rng.chance(40);
    const int w = rng.in(1, 2);
    const double m = measure;
    particle_loop(
        g.pg,
        [=](auto ID, auto Q) {
          Q.at(0) = -(ID.at(0) + 1) / m;
          Q.at(1) = -(ID.at(0) + 1) / m;
        },
        Access::read(Sym<INT>("ID")), Access::write(Sym<REAL>("Q")))
        ->execute();
    auto A = sub(f, h);
    if (eph)
      particle_loop(
          A,
          [=](auto ID, auto Q) {
            Q.at_ephemeral(0) = -(ID.at(0) + 1) / m;
            Q.at_ephemeral(1) = -(ID.at(0) + 1) / m;
          },
          Access::read(Sym<INT>("ID")), Access::write(Sym<REAL>("QE")))
          ->execute();
    cti->function_evaluate(A, eph ? Sym<REAL>("QE") : Sym<REAL>("Q"), w - 1, eph,
                           fn[f]);
    if (eph)
      particle_loop(
          A,
          [=](auto QE, auto Q) {
            Q.at(0) = QE.at_ephemeral(0);
            Q.at(1) = QE.at_ephemeral(1);
          },
          Access::read(Sym<REAL>("QE")), Access::write(Sym<REAL>("Q")))
          ->execute();
    J o('[');
    for_rows(g.pg, [&](const RowView &v) {
      o.add(J('[').addn(v.integer("ID")).addn(scaled(v.real("Q", 0)))
                .addn(scaled(v.real("Q", 1))).done());
    });
    J j;
    j.str("ev", "eval").num("f", f + 1).num("h", h).num("w", w);
    emit(j.raw("rows", gather_each(o.done())));
  }
  void done() {
    hits.clear();
    cti->free();
    g.free();
  }
};
static void unseen_trace(int t) {
  Rng rng(mix(ctx().seed, t, 0xa5)), mine(mix(ctx().seed, t, 0xa6, ctx().rank));
  Rig g(2, {std::max(2, ctx().size), 2}, 0, 0);
  auto spec = g.base_spec();
  spec.push(ParticleProp(Sym<INT>("V"), 2));
  g.make(spec);
  g.add(occupancies(mine, g.ncell, 4));
  UnseenValueExtractor x(g.sycl_target);
  auto sub = particle_sub_group(
      g.pg, [=](auto V) { return V.at(1) % 2 == 0; }, Access::read(Sym<INT>("V")));
  const int wide = rng.pick(std::vector<int>{3, 20, 300, 100000});
  for (int o = 0; o < 5; o++) {
    for (int c = 0; c < g.ncell; c++) {
      auto v = g.pg->get_dat(Sym<INT>("V"))->cell_dat.get_cell(c);
      for (int r = 0; r < v->nrow; r++)
        for (int k = 0; k < 2; k++)
          v->at(r, k) = mine.in(-wide, wide);
      if (v->nrow > 0)
        g.pg->get_dat(Sym<INT>("V"))->cell_dat.set_cell(c, v);
    }
    const int comp = rng.below(2), how = rng.below(3);
    std::set<INT> got;
    std::vector<INT> values;
    if (o > 0 && rng.chance(20))
      g.add(occupancies(mine, g.ncell, 2));
    for_rows(g.pg, [&](const RowView &v) {
      if (how == 0 || ((v.integer("V", 1) % 2 == 0)))
        values.push_back(v.integer("V", comp));
    });
    if (how == 0)
      got = x.extract(g.pg, Sym<INT>("V"), comp, false);
    else if (how == 1)
      got = x.extract(sub, Sym<INT>("V"), comp, false);
    else {
      auto A = static_particle_sub_group(
          g.pg, [=](auto V) { return V.at(1) % 2 == 0; },
          Access::read(Sym<INT>("V")));
      A->add_ephemeral_dat(Sym<INT>("VE"), 2);
      particle_loop(
          A, [=](auto V, auto E) { E.at_ephemeral(comp) = V.at(comp); },
          Access::read(Sym<INT>("V")), Access::write(Sym<INT>("VE")))
          ->execute();
      got = x.extract(A, Sym<INT>("VE"), comp, true);
    }
    J j;
    j.str("ev", "unseen").boo("fresh", o == 0).raw("values", each(values));
    emit(j.raw("got", each(std::vector<INT>(got.begin(), got.end()))));
  }
  sub.reset();
  g.free();
}

int main(int argc, char **argv) {
  init(argc, argv);
  auto f = ctx().gets("behaviours", "");
  if (!f.empty()) {
    std::ifstream is(f);
    std::string line;
    int part = (int)ctx().get("part", 0), parts = (int)ctx().get("parts", 1), i = 0;
    const int most = ctx().get("most", 1000000);
    while (std::getline(is, line)) {
      if (i++ % parts != part || i / parts > most)
        continue;
      for (char &c : line)
        if (!std::isalpha((unsigned char)c))
          c = ' ';
      std::istringstream ss(line);
      World w(mix(ctx().seed, i, 0x5f2));
      std::string x;
      ss >> x; // the key
      while (ss >> x)
        w.op(x, 0);
      w.done();
    }
  } else
    for (int t = 0; t < ctx().get("traces", 3); t++) {
      bmi_trace(t);
      if (t % 2 == 0)
        unseen_trace(t);
      World w(mix(ctx().seed, t, 0x5f1));
      for (int o = 0; o < ctx().get("ops", 6); o++)
        w.op(w.rng.pick(std::vector<std::string>{"hit", "hit", "set", "project",
                                                 "init", "add", "add", "finish",
                                                 "eval", "eval"}),
             w.rng.below((int)w.fn.size()));
      w.done();
    }
  finish();
  return 0;
}
