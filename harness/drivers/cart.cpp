// Conformance driver for spec/CartMeshTrace: cells, faces, owners, binning and
// periodic boundary conditions of the CartesianHMesh.
#include "../nv.hpp"
using namespace nv;

struct World {
  Rng rng, mine; // shared by all the ranks; this rank's own
  int nd, subdiv, stencil;
  bool dyadic;
  std::vector<int> dims;
  std::vector<int> n;
  double extent, w;
  MPI_Comm parent = MPI_COMM_WORLD;
  std::shared_ptr<CartesianHMesh> mesh;
  SYCLTargetSharedPtr target;
  std::shared_ptr<CartesianHMeshLocalMapperT> mapper;
  DomainSharedPtr domain;
  ParticleGroupSharedPtr pg;
  World(std::uint64_t s) : rng(s), mine(mix(s, ctx().rank + 1)) {}

  std::vector<int> split() {
    // a random factorisation of the ranks that fits the mesh
    for (int t = 0; t < 200; t++) {
      std::vector<int> d(nd, 1);
      int left = ctx().size;
      for (int p = 2; left > 1;)
        if (left % p == 0) {
          d[rng.below(nd)] *= p;
          left /= p;
        } else
          p++;
      bool ok = true;
      for (int i = 0; i < nd; i++)
        ok = ok && d[i] <= n[i];
      if (ok)
        return d;
    }
    return {};
  }
  void make() {
    nd = rng.in(2, 3);
    for (;;) {
      subdiv = rng.below(nd == 3 ? 2 : 3);
      dims.clear();
      n.clear();
      int total = 1;
      const int longest = rng.pick(std::vector<int>{2, 3, nd == 3 ? 4 : 7});
      for (int d = 0; d < nd; d++) {
        dims.push_back(rng.in(1, longest));
        n.push_back(dims[d] << subdiv);
        total *= n[d];
      }
      if (total <= 260 && (!split().empty()))
        break;
    }
    // a decomposition over one dimension is the last resort of the mesh
    bool fits = false;
    for (int d = 0; d < nd; d++)
      fits = fits || n[d] >= ctx().size;
    stencil = rng.below(3);
    dyadic = rng.chance(60);
    extent = dyadic ? rng.pick(std::vector<double>{1.0, 0.5, 4.0})
                    : rng.pick(std::vector<double>{0.3, 1.7, 1.0 / 3.0});
    w = extent / (1 << subdiv);
    if (!fits || rng.chance(35)) {
      auto d = split();
      std::vector<int> per(nd, 1);
      MPI_Cart_create(MPI_COMM_WORLD, nd, d.data(), per.data(), 0, &parent);
    }
    mesh = std::make_shared<CartesianHMesh>(parent, nd, dims, extent, subdiv,
                                            stencil);
    target = std::make_shared<SYCLTarget>(0, mesh->get_comm());
    mapper = CartesianHMeshLocalMapper(target, mesh);
    domain = std::make_shared<Domain>(mesh, mapper);
    ParticleSpec spec{ParticleProp(Sym<REAL>("P"), nd, true),
                      ParticleProp(Sym<REAL>("Q"), nd + 1),
                      ParticleProp(Sym<INT>("CELL_ID"), 1, true),
                      ParticleProp(Sym<INT>("BIN"), 1),
                      ParticleProp(Sym<INT>("ID"), 1)};
    pg = std::make_shared<ParticleGroup>(domain, spec, target);
    J own('['), tup('['), nbr('[');
    auto cut = [&](std::array<int, 3> t) {
      return J::list(std::vector<int>(t.begin(), t.begin() + nd));
    };
    for (auto &t : mesh->get_owned_cells())
      own.add(cut(t));
    for (int c = 0; c < mesh->get_cell_count(); c++)
      tup.add(cut(mesh->get_global_cell_tuple_index(c)));
    double p[3] = {0, 0, 0};
    mesh->get_point_in_subdomain(p);
    std::vector<int> at;
    for (int d = 0; d < nd; d++)
      at.push_back((int)std::floor(8 * p[d] / w));
    J j, m;
    m.num("nd", nd).arr("n", mesh_counts()).num("stencil", stencil);
    j.str("ev", "mesh").raw("mesh", m.done()).raw("own", gather_each(own.done()));
    j.raw("tuple", gather_each(tup.done()));
    j.raw("count", gather_each(J::list(std::vector<int>{
                       mesh->get_cell_count(), mesh->get_cart_cell_count()})));
    j.raw("nbr", gather_each(J::list(mesh->get_local_communication_neighbours())));
    j.raw("point", gather_each(J::list(at)));
    emit(j);
  }
  std::vector<int> mesh_counts() { return n; }
  void owners() {
    J a('[');
    int total = 1;
    for (int x : n)
      total *= x;
    auto mh = mesh->get_mesh_hierarchy();
    for (int i = 0; i < total; i++) {
      if (total > 60 && !mine.chance(30))
        continue;
      INT t[3] = {0, 0, 0}, h[6];
      int k = i;
      for (int d = 0; d < nd; d++) {
        t[d] = k % n[d];
        k /= n[d];
      }
      mesh->mesh_tuple_to_mh_tuple(t, h);
      J o('[');
      o.add(J::list(std::vector<INT>(t, t + nd)));
      o.addn(mesh->get_mesh_tuple_owning_rank(t));
      o.addn(mh->get_owner(mh->tuple_to_linear_global(h)));
      a.add(o.done());
    }
    J j;
    j.str("ev", "owners").raw("q", gather_each(a.done()));
    emit(j);
  }
  std::string corner(const double *p) {
    J o('[');
    for (int d = 0; d < 3; d++)
      o.addn(std::llround(p[d] / w));
    return o.done();
  }
  std::string corners(const std::vector<double> &p) {
    J o('[');
    for (std::size_t i = 0; i < p.size(); i += 3)
      o.add(corner(&p[i]));
    return o.done();
  }
  void faces() {
    const int nf = 2 * nd;
    J side('['), some('['), q('[');
    for (int f = 0; f < nf; f++)
      side.add(J::list(mesh->get_all_face_cells_on_face(f)));
    for (int k = 0; k < 3; k++) {
      std::vector<int> fs;
      for (int f = 0; f < nf; f++)
        if (mine.chance(50))
          fs.push_back(f);
      J o('[');
      o.add(J::list(fs));
      if (mine.chance(50))
        o.add(J::list(mesh->get_face_cells(fs)));
      else
        o.add(J::list(mesh->get_face_cells(std::vector<INT>(fs.begin(), fs.end()))));
      some.add(o.done());
    }
    const int total = mesh->ncells_face_global;
    auto data = mesh->get_vtk_face_cell_data();
    for (int i = 0; i < total; i++) {
      const bool have = data.count(i) > 0;
      if (total > 50 && !mine.chance(25) && !have)
        continue;
      INT t[3] = {0, 0, 0}, c[3] = {0, 0, 0};
      mesh->get_face_id_as_tuple(i, t);
      mesh->get_mesh_tuple_owning_face_tuple(t, c);
      J o;
      o.num("id", i).arr("t", std::vector<INT>(t, t + 3));
      o.num("back", mesh->get_face_linear_index_from_tuple(t));
      o.arr("cell", std::vector<INT>(c, c + nd));
      o.num("owner", mesh->get_face_id_owning_rank(i));
      o.raw("pts", corners(have ? data.at(i).points
                           : mine.chance(50)
                               ? mesh->get_vtk_face_cell_points((INT)i)
                               : mesh->get_vtk_face_cell_points(t)));
      q.add(o.done());
    }
    int csize = -1;
    MPI_Comm fc = mesh->get_face_owning_ranks_comm();
    if (fc != MPI_COMM_NULL)
      MPI_Comm_size(fc, &csize);
    std::vector<INT> drawn;
    for (auto &x : data)
      drawn.push_back(x.first);
    J j;
    j.str("ev", "faces").raw("total", gather_each(std::to_string(total)));
    j.raw("mine", gather_each(J::list(mesh->get_owned_face_cells())));
    j.raw("drawn", gather_each(J::list(drawn)));
    j.raw("side", gather_each(side.done())).raw("some", gather_each(some.done()));
    j.raw("comm", gather_each(std::to_string(csize)));
    j.raw("q", gather_each(q.done()));
    emit(j);
  }
  void vtk() {
    J a('[');
    auto d = mesh->get_vtk_cell_data();
    for (int i = 0; i < (int)d.size(); i++)
      a.add(corners(mine.chance(50) ? d[i].points : mesh->get_vtk_cell_points(i)));
    J j;
    j.str("ev", "vtk").raw("pts", gather_each(a.done()));
    emit(j);
  }

  // particles with positions in eighths of a cell, all stored by this rank
  std::vector<std::vector<int>> at;
  void particles(int reach) {
    pg->clear();
    at.clear();
    const int k = mine.below(40);
    ParticleSet ps(k, pg->get_particle_spec());
    for (int i = 0; i < k; i++) {
      std::vector<int> p;
      for (int d = 0; d < nd; d++) {
        const int len = 8 * n[d];
        int x;
        switch (mine.below(reach ? 6 : 3)) {
        case 0:
          x = 8 * mine.in(0, n[d] - 1);
          break;
        case 1:
          x = mine.below(len);
          break;
        case 2:
          x = mine.pick(std::vector<int>{0, len - 1, 8 * mesh->cell_starts[d],
                                         8 * mesh->cell_ends[d] - 1});
          break;
        case 3:
          x = mine.in(-5, 5) * len;
          break;
        case 4:
          x = mine.in(-reach, reach) * len + mine.below(len);
          break;
        default:
          x = mine.in(-len, 2 * len);
        }
        p.push_back(x);
        double off = 0;
        if (!dyadic || mine.chance(30))
          off = 0.25 + 0.5 * mine.below(1000) / 1000.0;
        ps[Sym<REAL>("P")][i][d] = (x + off) * w / 8;
        ps[Sym<REAL>("Q")][i][d] = (x + off) * w / 8;
      }
      at.push_back(p);
      ps[Sym<INT>("ID")][i][0] = i;
      ps[Sym<INT>("CELL_ID")][i][0] = mine.below(mesh->get_cell_count());
      ps[Sym<INT>("BIN")][i][0] = -7;
      ps[Sym<REAL>("Q")][i][nd] = 99.5;
    }
    if (k)
      pg->add_particles_local(ps);
  }
  template <typename F> std::string each(F f) {
    J a('[');
    for (int c = 0; c < mesh->get_cell_count(); c++) {
      auto p = pg->get_dat(Sym<REAL>("Q"))->cell_dat.get_cell(c);
      auto b = pg->get_dat(Sym<INT>("BIN"))->cell_dat.get_cell(c);
      auto r = pg->get_dat(Sym<INT>("NESO_MPI_RANK"))->cell_dat.get_cell(c);
      auto id = pg->get_dat(Sym<INT>("ID"))->cell_dat.get_cell(c);
      for (int i = 0; i < id->nrow; i++)
        a.add(J().arr("at", at.at(id->at(i, 0))).s + "," + f(i, *p, *b, *r) + "}");
    }
    return a.done();
  }
  void bin() {
    particles(rng.chance(40) ? 2 : 0);
    const int how = rng.below(2);
    particle_loop(
        pg, [=](auto r) { r.at(1) = -1; },
        Access::write(Sym<INT>("NESO_MPI_RANK")))
        ->execute();
    mapper->map(*pg);
    if (how == 0) {
      CartesianCellBin b(target, mesh, pg->position_dat, pg->get_dat(Sym<INT>("BIN")));
      b.execute();
    } else {
      mapper->map_cells(*pg);
      particle_loop(
          pg, [=](auto b, auto c) { b.at(0) = c.at(0); },
          Access::write(Sym<INT>("BIN")), Access::read(Sym<INT>("CELL_ID")))
          ->execute();
    }
    J j;
    j.str("ev", "bin");
    j.raw("p", gather_each(each([&](int i, auto &, auto &b, auto &r) {
            J o;
            o.num("c", b.at(i, 0)).num("r", r.at(i, 1));
            return o.s.substr(1);
          })));
    emit(j);
  }
  void wrap() {
    particles(rng.pick(std::vector<int>{0, 3, 2000}));
    const int how = rng.below(4);
    std::vector<int> mask(nd, 1);
    if (how == 1 || how == 3)
      for (auto &x : mask)
        x = rng.below(3);
    // the periodic condition of the group works on the positions
    std::unique_ptr<CartesianPeriodic> cp;
    auto q = pg->get_dat(Sym<REAL>("Q"));
    if (how == 0)
      cp = std::make_unique<CartesianPeriodic>(target, mesh, q);
    else if (how == 1)
      cp = std::make_unique<CartesianPeriodic>(target, mesh, q, mask);
    else if (how == 2)
      cp = std::make_unique<CartesianPeriodic>(mesh, pg);
    else
      cp = std::make_unique<CartesianPeriodic>(mesh, pg, mask);
    cp->execute();
    if (rng.chance(30))
      cp->execute(); // a second time changes nothing
    const int ndim = nd;
    if (how >= 2)
      particle_loop(
          pg,
          [=](auto q, auto p) {
            for (int d = 0; d < ndim; d++)
              q.at(d) = p.at(d);
          },
          Access::write(Sym<REAL>("Q")), Access::read(Sym<REAL>("P")))
          ->execute();
    J j;
    j.str("ev", "wrap").num("how", how).arr("mask", mask);
    j.raw("p", gather_each(each([&](int i, auto &q, auto &, auto &) {
            std::vector<int> to;
            for (int d = 0; d < nd; d++)
              to.push_back((int)std::floor(8 * q.at(i, d) / w));
            J o;
            o.arr("to", to).boo("kept", q.at(i, nd) == 99.5);
            return o.s.substr(1);
          })));
    emit(j);
  }
};

static void trace(int t) {
  World w(mix(ctx().seed, t, 0xca27));
  w.make();
  w.owners();
  w.faces();
  w.vtk();
  for (int i = 0; i < ctx().get("ops", 4); i++)
    if (w.rng.chance(45))
      w.bin();
    else
      w.wrap();
  w.pg->free();
  w.target->free();
  w.mesh->free();
  if (w.parent != MPI_COMM_WORLD)
    MPI_Comm_free(&w.parent);
}

int main(int argc, char **argv) {
  init(argc, argv);
  for (int t = 0; t < ctx().get("traces", 3); t++)
    trace(t);
  finish();
  return 0;
}
