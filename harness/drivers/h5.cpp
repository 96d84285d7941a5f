// C16: H5Part files written and read back in many sessions.
#include "../rig.hpp"
#include <algorithm>
#include <unistd.h>
using namespace nv;

struct File {
  std::string path;
  std::shared_ptr<H5Part> h;
  ParticleSubGroupSharedPtr sub;
  std::vector<Sym<REAL>> sr;
  std::vector<Sym<INT>> si;
  std::vector<INT> steps;
  INT next = 0;
  int which = 0;
  bool open = true;
};

struct World {
  Rng rng, mine;
  Rig g;
  int nv, nq;
  std::vector<File> files;
  int ndim;
  World(std::uint64_t seed, int t)
      : rng(seed), mine(mix(seed, 0x31, ctx().rank)),
        g(t % 3 == 2 ? 3 : 2,
          t % 3 == 2 ? std::vector<int>{std::max(2, ctx().size), 2, 1}
                     : std::vector<int>{std::max(3, ctx().size), 2}) {
    ndim = g.ndim;
    nv = rng.in(1, 3);
    nq = rng.in(1, 2);
    auto spec = g.base_spec();
    spec.push(ParticleProp(Sym<REAL>("V"), nv));
    spec.push(ParticleProp(Sym<INT>("Q"), nq));
    g.make(spec);
    populate();
    const int nf = rng.in(1, 3);
    for (int f = 0; f < nf; f++)
      create(t, f);
    J j;
    j.str("ev", "init").num("ndim", ndim).num("nranks", ctx().size);
    J fs('[');
    for (auto &f : files) {
      J ss('[');
      for (auto &s : f.sr)
        ss.add(J('[').adds(s.name).addn(ncomp(s)).adds("d").done());
      for (auto &s : f.si)
        ss.add(J('[').adds(s.name).addn(ncomp(s)).adds("q").done());
      fs.add(ss.done());
    }
    emit(j.raw("files", fs.done()));
  }
  int ncomp(Sym<REAL> s) { return g.pg->get_dat(s)->ncomp; }
  int ncomp(Sym<INT> s) { return g.pg->get_dat(s)->ncomp; }
  REAL real_value(Rng &r) {
    static const REAL special[] = {0.0,    -0.0, 1.0 / 3.0, 1e300, 5e-324,
                                   -1e-40, INFINITY, NAN};
    return r.chance(15) ? special[r.below(8)] : (r.unit() - 0.5) * 1e3;
  }
  INT int_value(Rng &r) {
    static const INT special[] = {0, -1, std::numeric_limits<INT>::max(),
                                  std::numeric_limits<INT>::min(), 1LL << 40};
    return r.chance(15) ? special[r.below(5)] : (INT)r.in(-20, 20);
  }
  void fill(ParticleSet &ps, int k) {
    auto &e = g.mesh->global_extents;
    for (int d = 0; d < ndim; d++)
      ps[Sym<REAL>("P")][k][d] = mine.unit() * e[d] * 0.999;
    for (int d = 0; d < nv; d++)
      ps[Sym<REAL>("V")][k][d] = real_value(mine);
    for (int d = 0; d < nq; d++)
      ps[Sym<INT>("Q")][k][d] = int_value(mine);
  }
  void populate() {
    // some ranks, or all of them, without particles
    const int shape = rng.below(5);
    auto occ = occupancies(mine, g.ncell, rng.pick(std::vector<int>{1, 3, 8, 25}));
    if (shape == 0 || (shape == 1 && ctx().rank != ctx().size - 1) ||
        (shape == 2 && ctx().rank % 2 == 0))
      std::fill(occ.begin(), occ.end(), 0);
    g.add(occ, [&](ParticleSet &ps, int k, INT, int) { fill(ps, k); });
  }
  void create(int t, int i) {
    File f;
    f.path = ctx().gets("tmp", ".") + "/f" + std::to_string(t) + "_" +
             std::to_string(i) + ".h5part";
    while (f.sr.empty() && f.si.empty()) {
      if (rng.chance(50))
        f.sr.push_back(Sym<REAL>("P"));
      if (rng.chance(60))
        f.sr.push_back(Sym<REAL>("V"));
      if (rng.chance(60))
        f.si.push_back(Sym<INT>("ID"));
      if (rng.chance(60))
        f.si.push_back(Sym<INT>("Q"));
      if (rng.chance(30))
        f.si.push_back(Sym<INT>("CELL_ID"));
    }
    f.which = rng.below(4);
    const int m = rng.in(1, 3);
    if (f.which == 1)
      f.sub = particle_sub_group(
          g.pg, [=](auto Q) { return Q.at(0) % (m + 1) == 0; },
          Access::read(Sym<INT>("Q")));
    else if (f.which == 2)
      f.sub = particle_sub_group(g.pg);
    else if (f.which == 3)
      f.sub = particle_sub_group(
          g.pg, [=](auto Q) { return Q.at(0) > 1000000; },
          Access::read(Sym<INT>("Q")));
    if (f.sub)
      f.h = std::make_shared<H5Part>(f.path, f.sub, f.sr, f.si);
    else
      f.h = std::make_shared<H5Part>(f.path, g.pg, f.sr, f.si);
    mods.push_back(m);
    files.push_back(f);
  }
  std::vector<int> mods;
  bool in(const RowView &v, int i) {
    auto &f = files[i];
    if (f.which == 1)
      return v.integer("Q") % (mods[i] + 1) == 0;
    if (f.which == 3)
      return v.integer("Q") > 1000000;
    return true;
  }
  void write(int i) {
    auto &f = files[i];
    const INT arg = rng.chance(60) ? -1 : f.next + rng.below(4);
    J rows('[');
    for_rows(g.pg, [&](const RowView &v) {
      if (!in(v, i))
        return;
      J r('[');
      for (int d = 0; d < ndim; d++)
        r.adds(hex(v.real("P", d)));
      for (auto &s : f.sr)
        for (int c = 0; c < ncomp(s); c++)
          r.adds(hex(v.real(s.name, c)));
      for (auto &s : f.si)
        for (int c = 0; c < ncomp(s); c++)
          r.adds(hex(v.integer(s.name, c)));
      rows.add(r.done());
    });
    if (arg < 0 && rng.chance(50))
      f.h->write();
    else
      f.h->write(arg);
    f.open = true;
    const INT step = arg < 0 ? f.next : arg;
    f.next = step + 1;
    f.steps.push_back(step);
    J j;
    j.str("ev", "write").num("f", i + 1).num("arg", arg);
    emit(j.raw("rows", gather_each(rows.done())));
  }
  void close(int i) {
    if (!files[i].open && rng.chance(50))
      return;
    files[i].h->close();
    files[i].open = false;
  }
  void read(int i) {
    auto &f = files[i];
    if (f.steps.empty())
      return;
    const INT step = rng.pick(f.steps);
    // through the writer, still open or closed, or through a new reader
    std::shared_ptr<H5Part> h = f.h;
    const bool own = rng.chance(40);
    if (!own) {
      close(i);
      if (f.open) {
        f.h->close();
        f.open = false;
      }
      h = std::make_shared<H5Part>(f.path, g.sycl_target);
    }
    const bool writable = f.open;
    const int n = rng.in(1, 3);
    for (int k = 0; k < n; k++)
      read_one(i, *h, k == 0 ? step : rng.pick(f.steps));
    if (!own || !writable) {
      h->close();
    }
  }
  void read_one(int i, H5Part &h, INT step) {
    auto &f = files[i];
    const bool xyz = rng.chance(50);
    ParticleSpec spec;
    std::vector<std::string> names;
    J nm('[');
    bool any = false;
    auto use = [&]() { return !any || rng.chance(70); };
    std::vector<Sym<REAL>> sr;
    std::vector<Sym<INT>> si;
    std::map<std::string, int> ncomp_read;
    if (xyz && rng.chance(70)) {
      const Sym<REAL> p(rng.chance(50) ? "P" : "POS");
      spec.push(ParticleProp(p, ndim, true));
      sr.push_back(p);
      ncomp_read[p.name] = ndim;
      for (int d = 0; d < ndim; d++)
        nm.adds(std::string(1, "xyz"[d]));
      any = true;
    }
    for (auto &s : f.sr) {
      if (s.name == "P" && xyz)
        continue;
      if (use()) {
        spec.push(ParticleProp(s, ncomp(s), (s.name == "P" || !xyz) && rng.chance(60)));
        ncomp_read[s.name] = ncomp(s);
        sr.push_back(s);
        for (int c = 0; c < ncomp(s); c++)
          nm.adds(s.name + "_" + std::to_string(c));
        any = true;
      }
    }
    for (auto &s : f.si)
      if (use()) {
        spec.push(ParticleProp(s, ncomp(s), s.name == "CELL_ID"));
        si.push_back(s);
        for (int c = 0; c < ncomp(s); c++)
          nm.adds(s.name + "_" + std::to_string(c));
        any = true;
      }
    auto ps = h.read(spec, step, xyz);
    J rows('[');
    for (int k = 0; k < ps->npart; k++) {
      J r('[');
      for (auto &s : sr)
        for (int c = 0; c < ncomp_read[s.name]; c++)
          r.adds(hex((*ps)[s][k][c]));
      for (auto &s : si)
        for (int c = 0; c < ncomp(s); c++)
          r.adds(hex((*ps)[s][k][c]));
      rows.add(r.done());
    }
    J j;
    j.str("ev", "read").num("f", i + 1).num("step", step).raw("names", nm.done());
    emit(j.raw("rows", gather_each(rows.done())));
  }
  // the file as another program sees it
  void raw(int i) {
    auto &f = files[i];
    if (f.open) {
      f.h->close();
      f.open = false;
    }
    MPI_Barrier(MPI_COMM_WORLD);
    J st('[');
    if (ctx().rank == 0) {
      hid_t fid = H5Fopen(f.path.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
      auto members = [](hid_t g) {
        H5G_info_t info;
        H5Gget_info(g, &info);
        std::vector<std::string> r;
        for (hsize_t k = 0; k < info.nlinks; k++) {
          char b[256];
          H5Lget_name_by_idx(g, ".", H5_INDEX_NAME, H5_ITER_INC, k, b, 256,
                             H5P_DEFAULT);
          r.push_back(b);
        }
        return r;
      };
      for (auto &s : members(fid)) {
        hid_t gid = H5Gopen2(fid, s.c_str(), H5P_DEFAULT);
        auto m = members(gid);
        J ty('['), cols('[');
        for (auto &c : m) {
          hid_t d = H5Dopen2(gid, c.c_str(), H5P_DEFAULT);
          hid_t sp = H5Dget_space(d);
          hid_t tt = H5Dget_type(d);
          const int nd = H5Sget_simple_extent_ndims(sp);
          const hssize_t n = H5Sget_simple_extent_npoints(sp);
          const bool isd = H5Tequal(tt, H5T_NATIVE_DOUBLE) > 0;
          const bool isq = H5Tequal(tt, H5T_NATIVE_LLONG) > 0;
          ty.adds(nd != 1 ? "shape" : isd ? "d" : isq ? "q" : "type");
          std::vector<std::uint64_t> v(n + 1);
          H5Dread(d, isd ? H5T_NATIVE_DOUBLE : H5T_NATIVE_LLONG, H5S_ALL,
                  H5S_ALL, H5P_DEFAULT, v.data());
          J col('[');
          for (hssize_t k = 0; k < n; k++)
            col.adds(hex(v[k]));
          cols.add(col.done());
          H5Tclose(tt);
          H5Sclose(sp);
          H5Dclose(d);
        }
        H5Gclose(gid);
        J e;
        e.str("step", s).arr("names", m).raw("types", ty.done());
        st.add(e.raw("cols", cols.done()).done());
      }
      H5Fclose(fid);
    }
    J j;
    j.str("ev", "raw").num("f", i + 1);
    emit(j.raw("steps", st.done()));
    MPI_Barrier(MPI_COMM_WORLD);
  }
  void change() {
    const int how = rng.below(5);
    if (how == 0)
      populate();
    else if (how == 1) { // new values
      const int n = g.ncell;
      for (int c = 0; c < n; c++) {
        auto q = g.pg->get_dat(Sym<INT>("Q"))->cell_dat.get_cell(c);
        auto v = g.pg->get_dat(Sym<REAL>("V"))->cell_dat.get_cell(c);
        for (int r = 0; r < q->nrow; r++) {
          q->at(r, 0) = int_value(mine);
          v->at(r, 0) = real_value(mine);
        }
        if (q->nrow > 0) {
          g.pg->get_dat(Sym<INT>("Q"))->cell_dat.set_cell(c, q);
          g.pg->get_dat(Sym<REAL>("V"))->cell_dat.set_cell(c, v);
        }
      }
    } else if (how == 2) { // fewer particles, or none
      const int m = rng.in(1, 4);
      g.pg->remove_particles(particle_sub_group(
          g.pg, [=](auto ID) { return ID.at(0) % m == 0; },
          Access::read(Sym<INT>("ID"))));
    } else if (how == 3)
      g.pg->clear();
    else { // everybody somewhere else
      auto e = g.mesh->global_extents;
      for (int c = 0; c < g.ncell; c++) {
        auto p = g.pg->get_dat(Sym<REAL>("P"))->cell_dat.get_cell(c);
        for (int r = 0; r < p->nrow; r++)
          for (int d = 0; d < ndim; d++)
            p->at(r, d) = mine.unit() * e[d] * 0.999;
        if (p->nrow > 0)
          g.pg->get_dat(Sym<REAL>("P"))->cell_dat.set_cell(c, p);
      }
      auto bin = CartesianCellBin(g.sycl_target, g.mesh, g.pg->position_dat,
                                  g.pg->cell_id_dat);
      g.pg->hybrid_move();
      bin.execute();
      g.pg->cell_move();
    }
  }
  void run(int ops) {
    for (int o = 0; o < ops; o++) {
      const int i = rng.below((int)files.size()), w = rng.below(10);
      if (w < 4)
        write(i);
      else if (w < 6)
        change();
      else if (w < 8)
        read(i);
      else if (w < 9)
        close(i);
      else
        raw(i);
    }
    for (int i = 0; i < (int)files.size(); i++) {
      raw(i);
      read(i);
    }
    for (auto &f : files) {
      f.h->close();
      f.h.reset();
      f.sub.reset();
      MPI_Barrier(MPI_COMM_WORLD);
      if (ctx().rank == 0)
        ::unlink(f.path.c_str());
    }
    files.clear();
    g.free();
  }
};

int main(int argc, char **argv) {
  init(argc, argv);
  for (int t = 0; t < ctx().get("traces", 3); t++) {
    World w(mix(ctx().seed, t, 0x16), t);
    w.run(ctx().get("ops", 14));
  }
  finish();
  return 0;
}
