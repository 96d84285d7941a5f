// The system under test of the particle storage specification (spec/Store.tla):
// a ParticleGroup over a Cartesian mesh and the operations of its life cycle.
#ifndef NV_STORE_HPP
#define NV_STORE_HPP
#include "nv.hpp"
namespace nv {

constexpr int DEN = 32; // lattice points per fine cell edge

struct PropDef {
  std::string name;
  bool real;
  int ncomp;
};

// value of component c of property n of particle id written at step salt
inline std::uint64_t val_bits(int salt, INT id, int n, int c, bool real) {
  std::uint64_t h = mix(salt, id, n, c);
  if (!real)
    return h;
  // a finite double with a full mantissa
  std::uint64_t e = 1023 - 40 + h % 80;
  return (h & 0x800FFFFFFFFFFFFFull) | (e << 52);
}

struct Store {
  std::shared_ptr<CartesianHMesh> mesh;
  SYCLTargetSharedPtr sycl_target;
  std::shared_ptr<CartesianHMeshLocalMapperT> mapper;
  DomainSharedPtr domain;
  ParticleGroupSharedPtr pg;
  std::vector<PropDef> props; // beyond P, CELL_ID, NESO_MPI_RANK, ID
  std::map<std::string, int> prop_code;
  int ndim, ncell, next_code = 0, next_id = 0, salt = 0;
  std::vector<int> dims, ncf;
  bool dyadic;
  double w;
  Rng &rng; // identical on every rank
  std::vector<INT> live_hint;

  Store(Rng &rng) : rng(rng) {}

  void setup(int ndim_, std::vector<int> dims_, double extent, int subdiv,
             int stencil, std::vector<PropDef> ps) {
    ndim = ndim_;
    dims = dims_;
    mesh = std::make_shared<CartesianHMesh>(MPI_COMM_WORLD, ndim, dims, extent,
                                            subdiv, stencil);
    sycl_target = std::make_shared<SYCLTarget>(0, mesh->get_comm());
    mapper = CartesianHMeshLocalMapper(sycl_target, mesh);
    domain = std::make_shared<Domain>(mesh, mapper);
    w = mesh->cell_width_fine;
    int e;
    dyadic = std::frexp(w, &e) == 0.5;
    for (int d = 0; d < ndim; d++)
      ncf.push_back(dims[d] << subdiv);
    ncell = mesh->get_cell_count();
    ParticleSpec spec{ParticleProp(Sym<REAL>("P"), ndim, true),
                      ParticleProp(Sym<INT>("CELL_ID"), 1, true),
                      ParticleProp(Sym<INT>("ID"), 1)};
    for (auto &p : ps) {
      if (p.real)
        spec.push(ParticleProp(Sym<REAL>(p.name), p.ncomp));
      else
        spec.push(ParticleProp(Sym<INT>(p.name), p.ncomp));
      prop_code[p.name] = next_code++;
    }
    props = ps;
    pg = std::make_shared<ParticleGroup>(domain, spec, sycl_target);
  }

  void emit_init(const char *what) {
    J j;
    j.str("ev", "init").str("what", what).num("nr", ctx().size);
    j.num("nd", ndim).arr("ncf", ncf).num("den", DEN);
    J cells('[');
    for (int c = 0; c < ncell; c++) {
      auto t = mesh->get_global_cell_tuple_index(c);
      std::vector<int> v;
      for (int d = 0; d < ndim; d++)
        v.push_back(t[d]);
      cells.add(J::list(v));
    }
    j.raw("cells", gather_each(cells.done()));
    j.raw("nb", gather_each(J::list(mesh->get_local_communication_neighbours())));
    J z;
    for (auto &p : props)
      z.str(p.name.c_str(), zero_hex(p));
    j.raw("zero", z.done());
    emit(j);
  }
  static std::string zero_hex(const PropDef &p) {
    std::string s = "0";
    for (int c = 1; c < p.ncomp; c++)
      s += ".0";
    return s;
  }

  // lattice coordinate of a position, -1 - component if it is not a lattice
  // position
  long lat(double p) const {
    long k = std::llround(p / w * DEN);
    return real_of(k) == p ? k : -999999;
  }
  double real_of(long k) const { return (double)k * w / (double)DEN; }
  std::vector<int> new_pos(int id, int s, int spread) const {
    std::vector<int> x(ndim);
    for (int d = 0; d < ndim; d++) {
      int lim = spread > 0 ? std::min(spread, ncf[d]) : ncf[d];
      std::uint64_t h = mix(s, id, 1000 + d);
      int k = (int)(h % (std::uint64_t)(lim * DEN)) | 1;
      if (dyadic && (h >> 40) % 10 == 0)
        k = (int)((h >> 20) % (std::uint64_t)lim) * DEN; // on a cell face
      x[d] = k;
    }
    return x;
  }
  std::string prop_val(const PropDef &p, int id, int s) const {
    std::string o;
    for (int c = 0; c < p.ncomp; c++) {
      if (c)
        o += '.';
      o += hex(val_bits(s, id, prop_code.at(p.name), c, p.real));
    }
    return o;
  }
  std::string payload(int id, int s) const {
    J j;
    for (auto &p : props)
      j.str(p.name.c_str(), prop_val(p, id, s));
    return j.done();
  }

  static std::string row(int r, int c, long id, const std::string &x,
                         const std::string &m, long cid, const std::string &p) {
    return "[" + std::to_string(r) + "," + std::to_string(c) + "," +
           std::to_string(id) + "," + x + "," + m + "," + std::to_string(cid) +
           "," + p + "]";
  }
  std::string row_of(const RowView &v) const {
    std::vector<long> x;
    for (int d = 0; d < ndim; d++)
      x.push_back(lat(v.real("P", d)));
    std::vector<long> m = {(long)v.integer("NESO_MPI_RANK", 0),
                           (long)v.integer("NESO_MPI_RANK", 1)};
    return row(ctx().rank, v.cell, v.integer("ID"), J::list(x), J::list(m),
               v.integer("CELL_ID"),
               v.payload({"P", "ID", "CELL_ID", "NESO_MPI_RANK"}));
  }
  std::vector<std::string> rows() const {
    std::vector<std::string> o;
    for_rows(pg, [&](const RowView &v) { o.push_back(row_of(v)); });
    return o;
  }
  // local ids with where they are
  struct Loc {
    INT id, cell, layer;
  };
  std::vector<Loc> locs() const {
    std::vector<Loc> o;
    for_rows(pg, [&](const RowView &v) {
      o.push_back({v.integer("ID"), v.cell, v.layer});
    });
    return o;
  }
  // all ids that exist, same on every rank
  std::vector<long> all_ids() const {
    std::vector<std::string> m;
    for (auto &l : locs())
      m.push_back(std::to_string(l.id));
    std::string s = gather_list(m);
    std::vector<long> o;
    for (char &c : s)
      if (c == ',' || c == '[' || c == ']')
        c = ' ';
    std::istringstream is(s);
    long v;
    while (is >> v)
      o.push_back(v);
    std::sort(o.begin(), o.end());
    return o;
  }
  void state(J &j) {
    j.raw("st", gather_list(rows()));
    j.raw("meta", gather_each(counts_json(pg)));
    emit(j);
  }

  // ------------------------------------------------------------ operations
  void add_set(int n, int mode) {
    // mode 0: all ranks, 1: only one rank, 2: skewed
    J j;
    j.str("ev", "add");
    int only = rng.below(ctx().size);
    int base = next_id;
    next_id += n;
    salt++;
    std::vector<int> who(n), cel(n);
    std::vector<int> nc(ctx().size);
    int c = ncell;
    MPI_Allgather(&c, 1, MPI_INT, nc.data(), 1, MPI_INT, MPI_COMM_WORLD);
    std::vector<std::string> req;
    std::vector<int> mine;
    int spread = rng.chance(30) ? 2 : 0;
    int onecell = rng.chance(20);
    for (int i = 0; i < n; i++) {
      int r = mode == 1 ? only
                        : (mode == 2 && !rng.chance(20) ? only
                                                        : rng.below(ctx().size));
      if (nc[r] == 0) {
        r = 0;
        while (nc[r] == 0)
          r++;
      }
      who[i] = r;
      cel[i] = onecell ? 0 : rng.below(nc[r]);
      if (r == ctx().rank)
        mine.push_back(i);
      int id = base + i;
      auto x = new_pos(id, salt, spread);
      req.push_back(row(r, cel[i], id, J::list(x), "[-1,-1]", cel[i],
                        payload(id, salt)));
    }
    ParticleSet ps((int)mine.size(), pg->get_particle_spec());
    for (std::size_t k = 0; k < mine.size(); k++) {
      int i = mine[k];
      int id = base + i;
      auto x = new_pos(id, salt, spread);
      for (int d = 0; d < ndim; d++)
        ps[Sym<REAL>("P")][k][d] = real_of(x[d]);
      ps[Sym<INT>("CELL_ID")][k][0] = cel[i];
      ps[Sym<INT>("ID")][k][0] = id;
      ps[Sym<INT>("NESO_MPI_RANK")][k][0] = -1;
      ps[Sym<INT>("NESO_MPI_RANK")][k][1] = -1;
      for (auto &p : props)
        for (int c = 0; c < p.ncomp; c++) {
          std::uint64_t b = val_bits(salt, id, prop_code[p.name], c, p.real);
          if (p.real)
            std::memcpy(&ps.at(Sym<REAL>(p.name), (int)k, c), &b, 8);
          else
            std::memcpy(&ps.at(Sym<INT>(p.name), (int)k, c), &b, 8);
        }
    }
    const bool even_if_empty = rng.chance(50);
    if (mine.size() > 0 || even_if_empty)
      pg->add_particles_local(ps);
    std::string r;
    for (auto &x : req)
      r += (r.empty() ? "" : ",") + x;
    j.raw("req", "[" + r + "]");
    state(j);
  }
  // new positions for all particles through a particle loop
  void set_pos() {
    salt++;
    const int k_ndim = ndim, s = salt, k_den = DEN;
    const double k_w = w;
    int spread = rng.chance(25) ? 2 : 0;
    std::array<int, 3> lims = {1, 1, 1};
    for (int d = 0; d < ndim; d++)
      lims[d] = spread ? std::min(spread, ncf[d]) : ncf[d];
    const bool k_dy = dyadic;
    // a percentage of the particles stays where it is
    const int pct = rng.pick(std::vector<int>{100, 100, 50, 10, 0});
    particle_loop(
        "set_pos", pg,
        [=](auto ID, auto P) {
          const INT id = ID.at(0);
          if ((int)(mix(s, id, 999) % 100) >= pct)
            return;
          for (int d = 0; d < k_ndim; d++) {
            std::uint64_t h = mix(s, id, 1000 + d);
            int k = (int)(h % (std::uint64_t)(lims[d] * k_den)) | 1;
            if (k_dy && (h >> 40) % 10 == 0)
              k = (int)((h >> 20) % (std::uint64_t)lims[d]) * k_den;
            P.at(d) = (double)k * k_w / (double)k_den;
          }
        },
        Access::read(Sym<INT>("ID")), Access::write(Sym<REAL>("P")))
        ->execute();
    J j;
    j.str("ev", "setpos");
    J u('[');
    for (long id : all_ids())
      if ((int)(mix(s, id, 999) % 100) < pct)
        u.add("[" + std::to_string(id) + "," +
              J::list(new_pos((int)id, s, spread)) + "]");
    j.raw("upd", u.done());
    state(j);
  }
  void set_val() {
    if (props.empty())
      return;
    salt++;
    auto p = props[rng.below((int)props.size())];
    const int s = salt, code = prop_code[p.name], nc = p.ncomp;
    const bool real = p.real;
    auto f = [=](auto ID, auto V) {
      for (int c = 0; c < nc; c++) {
        std::uint64_t b = val_bits(s, ID.at(0), code, c, real);
        std::memcpy(&V.at(c), &b, 8);
      }
    };
    if (real)
      particle_loop(pg, f, Access::read(Sym<INT>("ID")),
                    Access::write(Sym<REAL>(p.name)))
          ->execute();
    else
      particle_loop(pg, f, Access::read(Sym<INT>("ID")),
                    Access::write(Sym<INT>(p.name)))
          ->execute();
    J j;
    j.str("ev", "setval").str("name", p.name);
    J u('[');
    for (long id : all_ids())
      u.add("[" + std::to_string(id) + "," + J::esc(prop_val(p, (int)id, s)) +
            "]");
    j.raw("upd", u.done());
    state(j);
  }
  void add_dat() {
    PropDef p{"X" + std::to_string(next_code), rng.chance(50), rng.in(1, 3)};
    prop_code[p.name] = next_code++;
    props.push_back(p);
    if (rng.chance(50)) {
      if (p.real)
        pg->add_particle_dat(Sym<REAL>(p.name), p.ncomp);
      else
        pg->add_particle_dat(Sym<INT>(p.name), p.ncomp);
    } else {
      if (p.real)
        pg->add_particle_dat(ParticleDat(
            sycl_target, ParticleProp(Sym<REAL>(p.name), p.ncomp), ncell));
      else
        pg->add_particle_dat(ParticleDat(
            sycl_target, ParticleProp(Sym<INT>(p.name), p.ncomp), ncell));
    }
    J j;
    j.str("ev", "adddat").str("name", p.name);
    state(j);
  }
  void fill_new_dat() {
    // gives the most recent property values (contents of a new dat are only
    // used after a write)
  }
  void del_dat() {
    if (props.size() < 2)
      return;
    int k = rng.below((int)props.size());
    auto p = props[k];
    props.erase(props.begin() + k);
    if (p.real)
      pg->remove_particle_dat(Sym<REAL>(p.name));
    else
      pg->remove_particle_dat(Sym<INT>(p.name));
    J j;
    j.str("ev", "deldat").str("name", p.name);
    state(j);
  }
  void global_move() {
    salt++;
    const int s = salt, nr = ctx().size;
    const int pct = rng.pick(std::vector<int>{100, 60, 10, 0});
    const int target = rng.chance(25) ? rng.below(nr) : -1;
    auto choose = [=](INT id) -> int {
      if ((int)(mix(s, id, 5) % 100) >= pct)
        return -1;
      return target >= 0 ? target : (int)(mix(s, id, 6) % nr);
    };
    particle_loop(
        pg,
        [=](auto ID, auto M) {
          M.at(0) = choose(ID.at(0));
          M.at(1) = -1;
        },
        Access::read(Sym<INT>("ID")), Access::write(Sym<INT>("NESO_MPI_RANK")))
        ->execute();
    pg->global_move();
    J j;
    j.str("ev", "glob");
    J u('[');
    for (long id : all_ids())
      u.add("[" + std::to_string(id) + "," + std::to_string(choose(id)) + "]");
    j.raw("dest", u.done());
    state(j);
  }
  void hybrid_move() {
    pg->hybrid_move();
    J j;
    j.str("ev", "hyb");
    state(j);
  }
  void cell_move() {
    pg->cell_move();
    J j;
    j.str("ev", "cellmove");
    state(j);
  }
  // put particles into arbitrary local cells, through CELL_ID only
  void remove(int how) {
    salt++;
    const int s = salt;
    const int pct = rng.pick(std::vector<int>{100, 50, 20, 5, 0});
    auto gone = [=](INT id) { return (int)(mix(s, id, 8) % 100) < pct; };
    auto ids = all_ids();
    std::vector<long> rm;
    for (long i : ids)
      if (gone(i))
        rm.push_back(i);
    std::vector<INT> cells, layers;
    auto ls = locs();
    // any order
    std::sort(ls.begin(), ls.end(), [&](const Loc &a, const Loc &b) {
      return mix(s, a.id, 9) < mix(s, b.id, 9);
    });
    for (auto &l : ls)
      if (gone(l.id)) {
        cells.push_back(l.cell);
        layers.push_back(l.layer);
      }
    const char *nm = "vectors";
    if (how == 0) {
      pg->remove_particles((int)cells.size(), cells, layers);
    } else if (how == 1) {
      nm = "device";
      int n = (int)cells.size();
      BufferDevice<INT> bc(sycl_target, cells), bl(sycl_target, layers);
      pg->remove_particles(n, bc.ptr, bl.ptr);
    } else if (how == 2) {
      nm = "subgroup";
      auto sg = particle_sub_group(
          pg, [=](auto ID) { return (int)(mix(s, ID.at(0), 8) % 100) < pct; },
          Access::read(Sym<INT>("ID")));
      pg->remove_particles(sg);
    } else {
      nm = "remover";
      pg->add_particle_dat(Sym<INT>("RMFLAG"), 1);
      particle_loop(
          pg,
          [=](auto ID, auto F) {
            F.at(0) = (int)(mix(s, ID.at(0), 8) % 100) < pct ? 17 : -17;
          },
          Access::read(Sym<INT>("ID")), Access::write(Sym<INT>("RMFLAG")))
          ->execute();
      ParticleRemover pr(sycl_target);
      pr.remove(pg, (*pg)[Sym<INT>("RMFLAG")], 17);
      pg->remove_particle_dat(Sym<INT>("RMFLAG"));
    }
    J j;
    j.str("ev", "rm").str("how", nm).arr("ids", rm);
    state(j);
  }
  void clear_one() {
    int r = rng.below(ctx().size);
    if (ctx().rank == r)
      pg->clear();
    J j;
    j.str("ev", "clear").num("r", r);
    state(j);
  }
  void local_move() {
    salt++;
    const int s = salt, me = ctx().rank;
    auto nb = mesh->get_local_communication_neighbours();
    const int pct = rng.pick(std::vector<int>{100, 60, 10, 0});
    const int nnb = (int)nb.size();
    std::array<int, 64> nbs;
    for (int i = 0; i < nnb; i++)
      nbs[i] = nb[i];
    auto choose = [=](INT id) -> int {
      if (nnb == 0 || (int)(mix(s, id, 15) % 100) >= pct)
        return (int)(mix(s, id, 17) % 2) ? -1 : me;
      return nbs[mix(s, id, 16) % nnb];
    };
    std::vector<std::string> mine;
    for (auto &l : locs())
      mine.push_back("[" + std::to_string(l.id) + "," +
                     std::to_string(choose(l.id)) + "]");
    particle_loop(
        pg,
        [=](auto ID, auto M) {
          M.at(0) = -1;
          M.at(1) = choose(ID.at(0));
        },
        Access::read(Sym<INT>("ID")), Access::write(Sym<INT>("NESO_MPI_RANK")))
        ->execute();
    auto dest = gather_list(mine);
    pg->local_move();
    J j;
    j.str("ev", "loc").raw("dest", dest);
    state(j);
  }
  // moves particles between the cells of their rank by CELL_ID alone
  void cell_shuffle() {
    salt++;
    const int s = salt, nc = ncell;
    const int pct = rng.pick(std::vector<int>{100, 50, 5, 0});
    const int one = rng.chance(30);
    std::vector<std::string> mine;
    auto choose = [=](INT id, INT cur) -> INT {
      if ((int)(mix(s, id, 25) % 100) >= pct)
        return cur;
      return one ? (INT)(s % nc) : (INT)(mix(s, id, 26) % nc);
    };
    for_rows(pg, [&](const RowView &v) {
      mine.push_back(
          "[" + std::to_string(v.integer("ID")) + "," +
          std::to_string(choose(v.integer("ID"), v.cell)) + "]");
    });
    particle_loop(
        pg,
        [=](auto ix, auto ID, auto C) {
          C.at(0) = choose(ID.at(0), ix.cell);
        },
        Access::read(ParticleLoopIndex{}), Access::read(Sym<INT>("ID")),
        Access::write(Sym<INT>("CELL_ID")))
        ->execute();
    auto dest = gather_list(mine);
    pg->cell_move_ctx.move();
    pg->set_npart_cell_from_dat();
    pg->invalidate_group_version();
    J j;
    j.str("ev", "shuffle").raw("dest", dest);
    state(j);
  }
  void free() {
    pg->free();
    sycl_target->free();
    mesh->free();
  }
};
} // namespace nv
#endif
