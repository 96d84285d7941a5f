// A ParticleGroup over a Cartesian mesh whose cells are filled as asked, for
// the drivers that look at what happens inside ranks.
#ifndef NV_RIG_HPP
#define NV_RIG_HPP
#include "nv.hpp"
namespace nv {

struct Rig {
  std::shared_ptr<CartesianHMesh> mesh;
  SYCLTargetSharedPtr sycl_target;
  std::shared_ptr<CartesianHMeshLocalMapperT> mapper;
  DomainSharedPtr domain;
  ParticleGroupSharedPtr pg;
  int ndim, ncell;
  INT next = 0;
  static constexpr INT RANK_ID = 100000;

  Rig(int ndim, std::vector<int> dims, int subdiv = 0, int stencil = 0,
      double extent = 1.0)
      : ndim(ndim) {
    mesh = std::make_shared<CartesianHMesh>(MPI_COMM_WORLD, ndim, dims, extent,
                                            subdiv, stencil);
    sycl_target = std::make_shared<SYCLTarget>(0, mesh->get_comm());
    mapper = CartesianHMeshLocalMapper(sycl_target, mesh);
    domain = std::make_shared<Domain>(mesh, mapper);
    ncell = mesh->get_cell_count();
  }
  ParticleSpec base_spec() const {
    return ParticleSpec{ParticleProp(Sym<REAL>("P"), ndim, true),
                        ParticleProp(Sym<INT>("CELL_ID"), 1, true),
                        ParticleProp(Sym<INT>("ID"), 1)};
  }
  void make(ParticleSpec spec) {
    pg = std::make_shared<ParticleGroup>(domain, spec, sycl_target);
  }
  void param(const char *n, std::size_t v) {
    sycl_target->parameters->set(n, std::make_shared<SizeTParameter>(v));
  }
  // adds occ[c] particles to cell c of this rank; f fills the other properties
  void add(const std::vector<int> &occ,
           std::function<void(ParticleSet &, int, INT, int)> f = nullptr) {
    int n = 0;
    for (int c = 0; c < ncell && c < (int)occ.size(); c++)
      n += occ[c];
    ParticleSet ps(n, pg->get_particle_spec());
    int k = 0;
    for (int c = 0; c < ncell && c < (int)occ.size(); c++)
      for (int i = 0; i < occ[c]; i++) {
        INT id = (INT)ctx().rank * RANK_ID + next++;
        ps[Sym<INT>("CELL_ID")][k][0] = c;
        ps[Sym<INT>("ID")][k][0] = id;
        if (f)
          f(ps, k, id, c);
        k++;
      }
    if (n > 0)
      pg->add_particles_local(ps);
  }
  void free() {
    pg->free();
    sycl_target->free();
    mesh->free();
  }
};

// cell occupancies with the shapes that matter: empty, sparse, equal, skewed
inline std::vector<int> occupancies(Rng &r, int ncell, int maxocc) {
  std::vector<int> o(ncell, 0);
  int shape = r.below(6);
  int e = r.in(1, std::max(1, maxocc));
  for (int c = 0; c < ncell; c++) {
    int rnd = r.in(0, maxocc);
    bool few = r.chance(25);
    switch (shape) {
    case 0:
      o[c] = rnd;
      break;
    case 1:
      o[c] = e;
      break;
    case 2:
      o[c] = few ? rnd : 0;
      break;
    case 3:
      o[c] = e - (few && e > 0 ? 1 : 0);
      break;
    case 4:
      o[c] = c == (int)(e % ncell) ? maxocc : (few ? 1 : 0);
      break;
    default:
      o[c] = few ? maxocc : rnd % 3;
    }
  }
  return o;
}

// rows of a group as [cell][layer] of a json element
template <typename F> inline std::string cells_json(ParticleGroupSharedPtr pg, F f) {
  const int nc = pg->domain->mesh->get_cell_count();
  std::vector<std::vector<std::string>> o(nc);
  for_rows(pg, [&](const RowView &v) { o[v.cell].push_back(f(v)); });
  J cs('[');
  for (auto &c : o) {
    J rs('[');
    for (auto &x : c)
      rs.add(x);
    cs.add(rs.done());
  }
  return cs.done();
}

} // namespace nv
#endif
