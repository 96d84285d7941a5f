// C23: overlay meshes, maps from cells to degrees of freedom of somebody else,
// quadrature points that are added on one rank and owned by another.
#include "../rig.hpp"
#include <neso_particles/external_interfaces/common/common.hpp>
#include <neso_particles/external_interfaces/common/quadrature_point_mapper.hpp>
using namespace nv;
using namespace NESO::Particles::ExternalCommon;
typedef std::vector<int> Ints;

struct World {
  Rng rng, mine;
  Rig g;
  std::shared_ptr<OverlayCartesianMesh> ocm;
  bool exact = false;
  double unit = 0.125; // what the numbers of an overlay mesh are multiples of
  std::shared_ptr<DOFMapperDG> dofs;
  int dcells = 0, dper = 0;
  Ints perm;
  QuadraturePointMapperSharedPtr qpm;
  int nadded = 0;
  World(std::uint64_t seed)
      : rng(seed), mine(mix(seed, 0x23, ctx().rank)),
        g(rng.in(2, 3), dims(), rng.below(2)) {
    emit(J().str("ev", "init").num("ranks", ctx().size).num("ndim", g.ndim));
  }
  Ints dims() {
    Ints d{std::max(2, ctx().size), rng.in(1, 3)};
    // (ndim was drawn before, dimensions that are not used do no harm)
    d.push_back(rng.in(1, 2));
    return d;
  }
  // ---- overlay meshes: every rank has the same, so one trace shows it
  int rd(double v) { return (int)std::lround(v / unit); }
  Ints rds(const std::vector<double> &v) {
    Ints o;
    for (auto x : v)
      o.push_back(rd(x));
    return o;
  }
  BoundingBoxSharedPtr box(const std::vector<double> &lo,
                           const std::vector<double> &hi) {
    std::vector<REAL> b(6, 0.0);
    for (std::size_t d = 0; d < lo.size(); d++)
      b[d] = lo[d], b[3 + d] = hi[d];
    return std::make_shared<BoundingBox>(b);
  }
  void overlay() {
    const int nd = rng.in(1, 3);
    exact = rng.chance(65);
    unit = exact ? 0.125 : 1.0 / 4096;
    std::vector<double> o(nd), e(nd);
    Ints c(nd);
    for (int d = 0; d < nd; d++) {
      c[d] = rng.pick(Ints{1, 2, 3, 4, 5, 7, 9});
      if (exact) {
        o[d] = rng.in(-40, 40) * 0.125;
        e[d] = c[d] * (rng.pick(Ints{1, 2, 4, 8, 16, 32}) * 0.25);
      } else {
        o[d] = -5 + 10 * rng.unit();
        e[d] = 0.5 + 9 * rng.unit();
      }
    }
    const bool by_box = rng.chance(40);
    const int want = rng.in(1, 60);
    if (by_box) {
      auto hi = o;
      for (int d = 0; d < nd; d++)
        hi[d] += exact ? (e[d] = rng.pick(Ints{8, 16, 64, 128})) : e[d];
      ocm = create_overlay_mesh(g.sycl_target, nd, box(o, hi), want);
      c = ocm->cell_counts;
    } else
      ocm = std::make_shared<OverlayCartesianMesh>(g.sycl_target, nd, o, e, c);
    J j;
    j.str("ev", "overlay").num("want", by_box ? want : 0).boo("exact", exact);
    j.num("nd", nd).arr("origin", rds(o)).arr("extent", rds(e)).arr("counts", c);
    emit(j.num("total", ocm->get_cell_count()));
  }
  // some coordinate: inside, on a face, outside
  double coordinate(int d) {
    const double o = ocm->origin[d], e = ocm->extents[d];
    const int n = ocm->cell_counts[d];
    switch (rng.below(5)) {
    case 0: // a face
      return o + rng.in(0, n) * ocm->cell_widths[d];
    case 1: // around
      return exact ? o + rng.in(-64, 64 + (int)(e * 8)) * 0.125
                   : o - 2 * e + 5 * e * rng.unit();
    default:
      return exact ? o + rng.in(0, (int)(e * 8)) * 0.125 : o + e * rng.unit();
    }
  }
  std::vector<double> point() {
    std::vector<double> p(ocm->ndim);
    for (int d = 0; d < ocm->ndim; d++)
      p[d] = coordinate(d);
    return p;
  }
  void map() {
    if (!ocm)
      return;
    const int n = rng.in(1, 12), nd = ocm->ndim;
    std::vector<std::vector<double>> ps(n);
    std::vector<REAL> flat(n * 3, 0.0);
    for (int i = 0; i < n; i++) {
      ps[i] = point();
      for (int d = 0; d < nd; d++)
        flat[i * 3 + d] = ps[i][d];
    }
    BufferDevice<REAL> d_p(g.sycl_target, flat);
    BufferDevice<int> d_o(g.sycl_target, Ints(n * 5, -7));
    auto k_p = d_p.ptr;
    auto k_o = d_o.ptr;
    auto dm = ocm->get_device_mapper();
    g.sycl_target->queue
        .parallel_for(sycl::range<1>(n),
                      [=](sycl::id<1> ix) {
                        const int i = ix[0];
                        int t[3] = {0, 0, 0};
                        for (int d = 0; d < nd; d++)
                          t[d] = dm.get_cell_in_dimension(d, k_p[i * 3 + d]);
                        for (int d = 0; d < 3; d++)
                          k_o[i * 5 + d] = t[d];
                        k_o[i * 5 + 3] = dm.get_linear_cell_index(t);
                        k_o[i * 5 + 4] = dm.valid_linear_cell_index(t);
                      })
        .wait_and_throw();
    auto got = d_o.get();
    auto hm = ocm->get_host_mapper();
    for (int i = 0; i < n; i++) {
      bool in = true;
      Ints t, h, u;
      for (int d = 0; d < nd; d++) {
        in = in && ps[i][d] >= ocm->origin[d] &&
             ps[i][d] <= ocm->origin[d] + ocm->extents[d];
        t.push_back(got[i * 5 + d]);
        h.push_back(hm.get_cell_in_dimension(d, ps[i][d]));
      }
      if (in) // the host method is for points of the mesh
        for (int d = 0; d < nd; d++)
          u.push_back(ocm->get_cell_in_dimension(d, ps[i][d]));
      J j;
      j.str("ev", "map").arr("at", rds(ps[i])).arr("device", t).arr("host", h);
      j.boo("inside", in).arr("method", u).num("linear", got[i * 5 + 3]);
      j.boo("valid", got[i * 5 + 4]).num("linear_host", hm.get_linear_cell_index(h));
      emit(j.num("linear_method", ocm->get_linear_cell_index(t)));
      Ints off = t; // one out of the mesh
      const int d = rng.below(nd);
      off[d] = rng.chance(50) ? -1 - rng.below(3)
                              : ocm->cell_counts[d] + rng.below(3);
      emit(J().str("ev", "valid").arr("tuple", off).boo(
          "valid", hm.valid_linear_cell_index(off)));
      bounds(t);
    }
  }
  void bounds(const Ints &t) {
    auto b = ocm->get_bounding_box(t);
    std::vector<double> lo, hi;
    for (int d = 0; d < ocm->ndim; d++)
      lo.push_back(b->lower(d)), hi.push_back(b->upper(d));
    J j;
    j.str("ev", "bounds").arr("tuple", t).arr("lo", rds(lo)).arr("hi", rds(hi));
    emit(j);
  }
  void intersect() {
    if (!ocm)
      return;
    auto lo = point(), hi = point();
    for (int d = 0; d < ocm->ndim; d++) {
      if (rng.chance(30)) // no width
        hi[d] = lo[d];
      if (lo[d] > hi[d])
        std::swap(lo[d], hi[d]);
    }
    Ints cells{99, 98};
    ocm->get_intersecting_cells(box(lo, hi), cells);
    // points of the box, and which cell they are mapped to
    auto hm = ocm->get_host_mapper();
    Ints hit;
    for (int i = 0; i < 6; i++) {
      Ints t;
      for (int d = 0; d < ocm->ndim; d++) {
        const int how = rng.below(4);
        const double x = how == 0   ? lo[d]
                         : how == 1 ? hi[d]
                                    : lo[d] + rng.unit() * (hi[d] - lo[d]);
        t.push_back(hm.get_cell_in_dimension(d, x));
      }
      hit.push_back(hm.get_linear_cell_index(t));
    }
    J j;
    j.str("ev", "intersect").arr("lo", rds(lo)).arr("hi", rds(hi));
    emit(j.arr("cells", cells).arr("hit", hit));
  }
  void boxes() {
    std::vector<double> a(6), b(6);
    for (int d = 0; d < 3; d++) {
      a[d] = rng.in(-40, 40), a[3 + d] = a[d] + rng.in(0, 20);
      b[d] = rng.in(-40, 40), b[3 + d] = b[d] + rng.in(0, 20);
    }
    auto x = std::make_shared<BoundingBox>(a);
    auto y = std::make_shared<BoundingBox>(b);
    auto z = std::make_shared<BoundingBox>();
    z->expand(x);
    z->expand(y);
    x->expand(y);
    auto list = [](BoundingBoxSharedPtr q) {
      Ints o;
      for (int d = 0; d < 3; d++)
        o.push_back((int)q->lower(d));
      for (int d = 0; d < 3; d++)
        o.push_back((int)q->upper(d));
      return o;
    };
    const int nd = rng.in(1, 3);
    std::vector<REAL> p;
    for (int d = 0; d < nd; d++)
      p.push_back(rng.chance(40) ? (rng.chance(50) ? b[d] : b[3 + d])
                                 : rng.in((int)b[d] - 1, (int)b[3 + d] + 1));
    J j;
    j.str("ev", "expand").arr("a", Ints(a.begin(), a.end()));
    j.arr("b", Ints(b.begin(), b.end())).arr("x", list(x)).arr("y", list(y));
    j.arr("z", list(z)).arr("p", Ints(p.begin(), p.end()));
    emit(j.boo("has", y->contains_point(nd, p)));
  }
  // ---- degrees of freedom: different on every rank
  void dof_set() {
    const bool fresh = !dofs || rng.chance(30);
    if (fresh) {
      dcells = mine.pick(Ints{0, 1, 2, 5, 9}), dper = mine.in(1, 5);
      dofs = std::make_shared<DOFMapperDG>(g.sycl_target, dcells, dper);
      perm.assign(dcells * dper, 0);
      for (std::size_t i = 0; i < perm.size(); i++)
        perm[i] = i;
    }
    const int how = rng.below(3); // all, or exchange some
    if (how == 0 || fresh)
      for (int i = (int)perm.size() - 1; i > 0; i--)
        std::swap(perm[i], perm[mine.below(i + 1)]);
    else
      for (int k = 0; k < 3 && perm.size() > 1; k++)
        std::swap(perm[mine.below(perm.size())], perm[mine.below(perm.size())]);
    for (int c = 0; c < dcells; c++)
      for (int d = 0; d < dper; d++)
        dofs->set(c, d, perm[c * dper + d]);
    emit(J().str("ev", "dofset").raw("perm", gather_each(J::list(perm))));
  }
  std::shared_ptr<CellDatConst<REAL>> dat(const Ints &v) {
    auto x = std::make_shared<CellDatConst<REAL>>(g.sycl_target, dcells, dper, 1);
    for (int c = 0; c < dcells; c++) {
      auto m = x->get_cell(c);
      for (int d = 0; d < dper; d++)
        m->at(d, 0) = v[c * dper + d];
      x->set_cell(c, m);
    }
    return x;
  }
  Ints values(int n) {
    Ints v(n);
    for (auto &x : v)
      x = mine.in(-1000, 1000);
    return v;
  }
  void dof_copy() {
    if (!dofs)
      return;
    const int n = dcells * dper;
    const bool out = rng.chance(50);
    auto cells = values(n), ext = values(n);
    auto x = dat(cells);
    std::vector<REAL> e(ext.begin(), ext.end());
    e.push_back(-77);
    Ints g0;
    for (int c = 0; c < dcells; c++)
      for (int d = 0; d < dper; d++)
        g0.push_back(dofs->get(c, d));
    EventStack es;
    if (out)
      dofs->copy_to_external(x, e.data(), es);
    else
      dofs->copy_from_external(x, e.data(), es);
    es.wait();
    Ints ca, ea(e.begin(), e.end());
    for (int c = 0; c < dcells; c++) {
      auto m = x->get_cell(c);
      for (int d = 0; d < dper; d++)
        ca.push_back((int)m->at(d, 0));
    }
    J j('[');
    j.add(J::list(cells)).add(J::list(ext)).add(J::list(ca)).add(J::list(ea));
    j.add(J::list(g0));
    emit(J().str("ev", "dofcopy").boo("out", out).raw("all", gather_each(j.done())));
  }
  // ---- quadrature points
  void points() {
    if (qpm)
      qpm->free();
    qpm = std::make_shared<QuadraturePointMapper>(g.sycl_target, g.domain);
    const bool before = qpm->points_added();
    const int shape = rng.below(4), most = rng.pick(Ints{1, 4, 15, 40});
    nadded = shape == 0                      ? mine.in(0, most)
             : shape == 1                    ? (mine.chance(40) ? most : 0)
             : shape == 2 && ctx().rank != 0 ? 0
                                             : most;
    qpm->add_points_initialise();
    J all('[');
    for (int i = 0; i < nadded; i++) {
      std::vector<REAL> p(g.ndim);
      Ints q;
      for (int d = 0; d < g.ndim; d++) {
        const int e = (int)std::lround(g.mesh->global_extents[d] * 16);
        const int v = mine.chance(30) ? 16 * mine.below(e / 16) : mine.below(e);
        q.push_back(v);
        p[d] = v / 16.0;
      }
      qpm->add_point(p.data());
      all.add(J::list(q));
    }
    qpm->add_points_finalise();
    J j;
    j.str("ev", "points").boo("before", before).boo("after", qpm->points_added());
    j.raw("at", gather_each(all.done()));
    emit(j.raw("rows", owners()));
  }
  std::string owners() { // who has which point, in which order
    std::vector<std::string> r;
    for_rows(qpm->particle_group, [&](const RowView &v) {
      J j('['), p('[');
      for (int d = 0; d < g.ndim; d++)
        p.addn(std::lround(v.real("P", d) * 16));
      j.addn(v.integer("ADDING_RANK_INDEX", 0));
      j.addn(v.integer("ADDING_RANK_INDEX", 1)).addn(v.cell);
      r.push_back(j.addn(v.integer("ADDING_RANK_INDEX", 3)).add(p.done()).done());
    });
    J j('[');
    for (auto &x : r)
      j.add(x);
    return gather_each(j.done());
  }
  void qset() {
    if (!qpm)
      return;
    const int nc = rng.in(1, 4);
    const int spare = mine.chance(20) ? mine.in(1, 9) : 0;
    auto v = values(nadded * nc + spare);
    std::vector<REAL> in(v.begin(), v.end());
    qpm->set(nc, in);
    v.resize(nadded * nc);
    emit(J().str("ev", "qset").num("nc", nc).raw("values", gather_each(J::list(v))));
  }
  void qwrite() { // by a loop over the points, who owns them writes
    if (!qpm)
      return;
    const int nc = rng.in(1, 4), salt = rng.in(1, 100);
    particle_loop(
        qpm->particle_group,
        [=](auto I, auto Q) {
          for (int c = 0; c < nc; c++)
            Q.at(c) = salt + 10000 * I.at(0) + 100 * I.at(1) + c;
        },
        Access::read(Sym<INT>("ADDING_RANK_INDEX")),
        Access::write(qpm->get_sym(nc)))
        ->execute();
    emit(J().str("ev", "qwrite").num("nc", nc).num("salt", salt));
  }
  template <std::size_t ND> void interp_nd(int nc, int comp) {
    auto f = [=](auto... x) {
      REAL s = 5;
      REAL w = 1;
      for (REAL v : {x...}) {
        s += w * 16.0 * v;
        w *= 3;
      }
      return s;
    };
    auto h = [=](auto... x) { return 2.0 * f(x...); };
    if (comp >= 0)
      interpolate<ND>(qpm, nc, comp, f);
    else if (nc == 1)
      interpolate<ND, 1>(qpm, f);
    else if (nc == 2)
      interpolate<ND, 2>(qpm, f, h);
    else
      interpolate<ND, 3>(qpm, f, h, f);
  }
  void interp() {
    if (!qpm)
      return;
    const int nc = rng.in(1, 3), comp = rng.chance(40) ? rng.below(nc) : -1;
    g.ndim == 2 ? interp_nd<2>(nc, comp) : interp_nd<3>(nc, comp);
    emit(J().str("ev", "interp").num("nc", nc).num("comp", comp));
  }
  void qget() {
    if (!qpm)
      return;
    const int nc = rng.in(1, 4);
    std::vector<REAL> o(mine.chance(50) ? nadded * nc : mine.below(20), -55);
    qpm->get(nc, o);
    Ints v;
    for (auto x : o)
      v.push_back(std::lround(x) == x ? (int)x : -999999);
    emit(J().str("ev", "qget").num("nc", nc).raw("got", gather_each(J::list(v))));
  }
  void run(int ops) {
    for (int o = 0; o < ops; o++) {
      const int k = rng.below(20);
      if (k < 2)
        overlay();
      else if (k < 4)
        map();
      else if (k < 7)
        intersect();
      else if (k < 8)
        boxes();
      else if (k < 9)
        dof_set();
      else if (k < 11)
        dof_copy();
      else if (k < 12)
        points();
      else if (k < 14)
        qset();
      else if (k < 15)
        qwrite();
      else if (k < 16)
        interp();
      else
        qget();
    }
    if (qpm)
      qpm->free();
    g.sycl_target->free();
    g.mesh->free();
  }
};

int main(int argc, char **argv) {
  init(argc, argv);
  for (int t = 0; t < ctx().get("traces", 6); t++) {
    World w(mix(ctx().seed, t, 0x231));
    w.run(ctx().get("ops", 40));
  }
  finish();
  return 0;
}
