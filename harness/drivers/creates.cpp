// C08: particles created from product matrices, descendant products and other
// groups; temporary groups.
#include "../rig.hpp"
using namespace nv;

struct Pr {
  std::string name;
  int ncomp;
  bool real;
};
static const std::vector<Pr> POOL = {
    {"AI", 2, false}, {"AR", 2, true},  {"BI", 1, false}, {"BR", 1, true},
    {"YI", 3, false}, {"ZR", 3, true},  {"ZI", 1, false}, {"CR", 1, true}};

struct G {
  ParticleGroupSharedPtr pg;
  std::vector<Pr> props;
};

struct T {
  Rig &g;
  Rng &rng, &mine;
  std::map<std::string, G> gs;
  std::string zero(int n) {
    std::string s = "0";
    for (int i = 1; i < n; i++)
      s += ".0";
    return s;
  }
  std::string schema(ParticleGroupSharedPtr p) {
    J j;
    for (auto &d : p->particle_dats_real)
      j.str(d.first.name.c_str(), zero(d.second->ncomp));
    for (auto &d : p->particle_dats_int)
      j.str(d.first.name.c_str(), zero(d.second->ncomp));
    return j.done();
  }
  std::string state(ParticleGroupSharedPtr p) {
    return gather_each(
        cells_json(p, [&](const RowView &v) { return v.payload({}); }));
  }
  void emit_set(const std::string &n) {
    J j;
    j.str("ev", "set").str("g", n);
    j.raw("sch", schema(gs[n].pg)).raw("st", state(gs[n].pg));
    emit(j);
  }
  void finish(J &j, const std::string &d) {
    j.str("d", d).raw("st", state(gs[d].pg));
    J r;
    for (auto &x : gs)
      if (x.first != d)
        r.raw(x.first.c_str(), state(x.second.pg));
    j.raw("rest", r.done());
    emit(j);
  }
  ParticleProp<REAL> rp(const Pr &p) { return {Sym<REAL>(p.name), p.ncomp}; }
  ParticleProp<INT> ip(const Pr &p) { return {Sym<INT>(p.name), p.ncomp}; }
  void push(ParticleSpec &s, const Pr &p) {
    if (p.real)
      s.push(rp(p));
    else
      s.push(ip(p));
  }
  static INT ival(std::uint64_t h) { return (INT)(h % 1999) - 999; }
  static REAL rval(std::uint64_t h) { return ((double)(h % 1999) - 999) / 8; }

  void make_group(const std::string &n) {
    auto spec = ParticleSpec{};
    std::vector<Pr> pool = POOL;
    G x;
    // CELL_ID at a random place among the properties
    int at = rng.below(5), k = 0;
    std::vector<Pr> sel;
    for (auto &p : pool)
      if (rng.chance(60))
        sel.push_back(p);
    for (int i = (int)sel.size() - 1; i > 0; i--)
      std::swap(sel[i], sel[rng.below(i + 1)]);
    spec.push(ParticleProp(Sym<REAL>("P"), g.ndim, true));
    for (auto &p : sel) {
      if (k++ == at)
        spec.push(ParticleProp(Sym<INT>("CELL_ID"), 1, true));
      push(spec, p);
    }
    if (k <= at)
      spec.push(ParticleProp(Sym<INT>("CELL_ID"), 1, true));
    spec.push(ParticleProp(Sym<INT>("ID"), 1));
    x.props = sel;
    x.pg = std::make_shared<ParticleGroup>(g.domain, spec, g.sycl_target);
    gs[n] = x;
    add(n, rng.chance(15) ? 0 : 4);
    emit_set(n);
  }
  void add(const std::string &n, int m) {
    auto &x = gs[n];
    g.pg = x.pg;
    if (m > 0)
      g.add(occupancies(mine, g.ncell, m),
            [&](ParticleSet &ps, int r, INT id, int) {
              for (int d = 0; d < g.ndim; d++)
                ps[Sym<REAL>("P")][r][d] = rval(mix(id, 90, d));
              ps[Sym<INT>("NESO_MPI_RANK")][r][0] = ival(mix(id, 91));
              ps[Sym<INT>("NESO_MPI_RANK")][r][1] = ival(mix(id, 92));
              int k = 0;
              for (auto &p : x.props) {
                k++;
                for (int c = 0; c < p.ncomp; c++)
                  if (p.real)
                    ps[Sym<REAL>(p.name)][r][c] = rval(mix(id, k, c));
                  else
                    ps[Sym<INT>(p.name)][r][c] = ival(mix(id, k, c));
              }
            });
    g.pg = nullptr;
  }

  // the properties of a matrix for group d: [CELL_ID, NESO_MPI_RANK, P] too
  struct Mat {
    std::vector<Pr> ps;    // in the order of the specification
    std::vector<int> idx;  // index among those of its type
    std::vector<bool> wr;  // written by the kernel (else the default)
    std::vector<bool> hasdef;
    bool hascell = false;
    std::shared_ptr<ProductMatrixSpec> spec;
    int seed;
  };
  Mat matrix(const std::string &d) {
    Mat m;
    m.seed = rng.below(100000);
    std::vector<Pr> all = gs[d].props;
    all.push_back({"CELL_ID", 1, false});
    all.push_back({"P", g.ndim, true});
    all.push_back({"NESO_MPI_RANK", 2, false});
    all.push_back({"ID", 1, false});
    for (int i = (int)all.size() - 1; i > 0; i--)
      std::swap(all[i], all[rng.below(i + 1)]);
    ParticleSpec s{};
    int ni = 0, nr = 0;
    const int pct = rng.pick(std::vector<int>{20, 50, 90});
    for (auto &p : all) {
      if (!rng.chance(pct))
        continue;
      m.ps.push_back(p);
      m.idx.push_back(p.real ? nr++ : ni++);
      // the cell is always one that exists
      m.wr.push_back(p.name == "CELL_ID" || rng.chance(80));
      m.hasdef.push_back(p.name != "CELL_ID" && rng.chance(40));
      if (p.name == "CELL_ID") {
        m.hascell = true;
        s.push(ParticleProp(Sym<INT>("CELL_ID"), 1, true));
      } else if (p.name == "P")
        s.push(ParticleProp(Sym<REAL>("P"), g.ndim, true));
      else
        push(s, p);
    }
    m.spec = product_matrix_spec(s);
    for (std::size_t i = 0; i < m.ps.size(); i++)
      if (m.hasdef[i])
        for (int c = 0; c < m.ps[i].ncomp; c++) {
          if (m.ps[i].real)
            m.spec->set_default_value(Sym<REAL>(m.ps[i].name), c,
                                      rval(mix(m.seed, 1000 + i, c)));
          else
            m.spec->set_default_value(Sym<INT>(m.ps[i].name), c,
                                      ival(mix(m.seed, 1000 + i, c)));
        }
    return m;
  }
  std::string defaults(const Mat &m) {
    J j;
    for (std::size_t i = 0; i < m.ps.size(); i++) {
      std::string s;
      for (int c = 0; c < m.ps[i].ncomp; c++) {
        if (c)
          s += '.';
        if (!m.hasdef[i])
          s += "0";
        else
          s += m.ps[i].real ? hex(rval(mix(m.seed, 1000 + i, c)))
                            : hex(ival(mix(m.seed, 1000 + i, c)));
      }
      j.str(m.ps[i].name.c_str(), s);
    }
    return j.done();
  }
  // value written for (row key, property, component)
  static INT vi(int seed, INT key, int prop, int c, bool cell, int nc) {
    auto h = mix(seed, key, prop, c);
    return cell ? (INT)(h % nc) : ival(h);
  }
  static REAL vr(int seed, INT key, int prop, int c) {
    return rval(mix(seed, key, prop, c));
  }
  std::string row(const Mat &m, INT key) {
    J j;
    for (std::size_t i = 0; i < m.ps.size(); i++)
      if (m.wr[i]) {
        std::string s;
        for (int c = 0; c < m.ps[i].ncomp; c++) {
          if (c)
            s += '.';
          s += m.ps[i].real ? hex(vr(m.seed, key, i, c))
                            : hex(vi(m.seed, key, i, c,
                                     m.ps[i].name == "CELL_ID", g.ncell));
        }
        j.str(m.ps[i].name.c_str(), s);
      }
    return j.done();
  }
  INT cell_of(const Mat &m, INT key) {
    for (std::size_t i = 0; i < m.ps.size(); i++)
      if (m.ps[i].name == "CELL_ID")
        return vi(m.seed, key, i, 0, true, g.ncell);
    return 0;
  }
  // flat tables of what the kernel has to write
  struct Tab {
    std::vector<int> real, prop, index, ncomp, cell;
  };
  Tab table(const Mat &m) {
    Tab t;
    for (std::size_t i = 0; i < m.ps.size(); i++)
      if (m.wr[i]) {
        t.real.push_back(m.ps[i].real);
        t.prop.push_back((int)i);
        t.index.push_back(m.idx[i]);
        t.ncomp.push_back(m.ps[i].ncomp);
        t.cell.push_back(m.ps[i].name == "CELL_ID");
      }
    return t;
  }
  std::shared_ptr<LocalArray<int>> dev(std::vector<int> v) {
    v.push_back(0);
    auto a = std::make_shared<LocalArray<int>>(g.sycl_target, (int)v.size());
    a->set(v);
    return a;
  }
  std::string any() {
    std::vector<std::string> n;
    for (auto &x : gs)
      n.push_back(x.first);
    return rng.pick(n);
  }

  std::shared_ptr<ProductMatrix> last_pm;
  std::shared_ptr<Mat> last_mat;
  std::string last_d;
  void products() {
    std::string d = any();
    std::shared_ptr<Mat> m;
    std::shared_ptr<ProductMatrix> pm;
    if (last_pm && rng.chance(40)) {
      // the same matrix used again
      pm = last_pm;
      m = last_mat;
      d = last_d;
      m->seed = rng.below(100000);
      m->hasdef.assign(m->hasdef.size(), false);
    } else {
      m = std::make_shared<Mat>(matrix(d));
      pm = product_matrix(g.sycl_target, m->spec);
    }
    if (m->spec && pm == last_pm) {
      // defaults stay with the specification: use a fresh one
      for (std::size_t i = 0; i < m->ps.size(); i++)
        for (int c = 0; c < m->ps[i].ncomp; c++) {
          if (m->ps[i].real)
            m->spec->set_default_value(Sym<REAL>(m->ps[i].name), c, 0);
          else
            m->spec->set_default_value(Sym<INT>(m->ps[i].name), c, 0);
        }
    }
    last_pm = pm;
    last_mat = m;
    last_d = d;
    const int n = rng.chance(10) ? 0 : mine.in(0, 9);
    pm->reset(n);
    const INT key0 = (INT)ctx().rank * 1000;
    auto t = table(*m);
    const int nt = (int)t.real.size(), seed = m->seed, nc = g.ncell;
    // a throwaway group whose single particle writes the matrix
    auto one = std::make_shared<ParticleGroup>(
        g.domain, gs[d].pg->get_particle_spec(), g.sycl_target);
    ParticleSet ps(1, one->get_particle_spec());
    one->add_particles_local(ps);
    auto a0 = dev(t.real), a1 = dev(t.prop), a2 = dev(t.index),
         a3 = dev(t.ncomp), a4 = dev(t.cell);
    particle_loop(
        one,
        [=](auto PM, auto A0, auto A1, auto A2, auto A3, auto A4) {
          for (int i = 0; i < n; i++)
            for (int k = 0; k < nt; k++)
              for (int c = 0; c < A3.at(k); c++) {
                if (A0.at(k))
                  PM.at_real(i, A2.at(k), c) = vr(seed, key0 + i, A1.at(k), c);
                else
                  PM.at_int(i, A2.at(k), c) =
                      vi(seed, key0 + i, A1.at(k), c, A4.at(k), nc);
              }
        },
        Access::write(pm), Access::read(a0), Access::read(a1),
        Access::read(a2), Access::read(a3), Access::read(a4))
        ->execute();
    one->free();
    gs[d].pg->add_particles_local(pm);
    J j;
    j.str("ev", "pm").boo("hascell", m->hascell);
    J rs('[');
    for (int i = 0; i < n; i++) {
      J o;
      o.num("c", cell_of(*m, key0 + i)).raw("v", row(*m, key0 + i));
      rs.add(o.done());
    }
    j.raw("rows", gather_each(rs.done())).raw("def", defaults(*m));
    finish(j, d);
  }

  void descend() {
    std::string s = any(), d = rng.chance(40) ? s : any();
    auto m = matrix(d);
    const int np = rng.in(1, 3);
    auto dp = std::make_shared<DescendantProducts>(g.sycl_target, m.spec, np);
    const int sub = rng.below(3), salt = rng.below(10000);
    const int pct = rng.pick(std::vector<int>{0, 50, 80, 100});
    auto src = gs[s].pg;
    // keys by place: ids are not unique
    auto key = [=](INT cell, INT layer, int p) -> INT {
      return (cell * 1000 + layer) * 4 + p;
    };
    auto take = [=](INT cell, INT layer) -> bool {
      return sub != 2 || mix(salt, cell, layer) % 2 == 0;
    };
    auto setp = [=](INT cell, INT layer, int p) -> bool {
      return (int)(mix(salt, cell, layer, p + 5) % 100) < pct;
    };
    const std::string before = state(src);
    J ch('[');
    for_rows(src, [&](const RowView &v) {
      if (take(v.cell, v.layer))
        for (int p = 0; p < np; p++) {
          const INT k = key(v.cell, v.layer, p);
          J o;
          o.num("pc", v.cell).num("pl", v.layer);
          o.boo("set", setp(v.cell, v.layer, p));
          o.num("c", cell_of(m, k)).raw("v", row(m, k));
          ch.add(o.done());
        }
    });
    auto t = table(m);
    const int nt = (int)t.real.size(), seed = m.seed, nc = g.ncell;
    auto a0 = dev(t.real), a1 = dev(t.prop), a2 = dev(t.index),
         a3 = dev(t.ncomp), a4 = dev(t.cell);
    auto kernel = [=](auto DP, auto ix, auto A0, auto A1, auto A2, auto A3,
                      auto A4) {
      for (int p = 0; p < np; p++) {
        if (setp(ix.cell, ix.layer, p))
          DP.set_parent(ix, p);
        const INT ky = key(ix.cell, ix.layer, p);
        for (int k = 0; k < nt; k++)
          for (int c = 0; c < A3.at(k); c++) {
            if (A0.at(k))
              DP.at_real(ix, p, A2.at(k), c) = vr(seed, ky, A1.at(k), c);
            else
              DP.at_int(ix, p, A2.at(k), c) =
                  vi(seed, ky, A1.at(k), c, A4.at(k), nc);
          }
      }
    };
    auto run = [&](auto over) {
      dp->reset(over->get_npart_local());
      particle_loop(over, kernel, Access::write(dp),
                    Access::read(ParticleLoopIndex{}), Access::read(a0),
                    Access::read(a1), Access::read(a2), Access::read(a3),
                    Access::read(a4))
          ->execute();
    };
    if (rng.chance(30))
      dp->reset(rng.below(12)); // left over from an earlier use
    if (sub == 2)
      run(particle_sub_group(
          src, [=](auto ix) { return take(ix.cell, ix.layer); },
          Access::read(ParticleLoopIndex{})));
    else
      run(src);
    if (s == d && rng.chance(50))
      gs[d].pg->add_particles_local(dp);
    else
      gs[d].pg->add_particles_local(dp, src);
    J j;
    j.str("ev", "desc").str("s", s).boo("hascell", m.hascell);
    j.raw("ch", gather_each(ch.done())).raw("def", defaults(m));
    finish(j, d);
  }

  void copy() {
    std::string s = any(), d = any();
    const int sub = rng.below(4), salt = rng.below(10000);
    if (s == d && sub == 0)
      return;
    const int pct = rng.pick(std::vector<int>{0, 30, 70, 100});
    auto take = [=](INT cell, INT layer) -> bool {
      return sub <= 1 || (int)(mix(salt, cell, layer) % 100) < pct;
    };
    auto src = gs[s].pg;
    std::vector<std::vector<int>> which(g.ncell);
    for_rows(src, [&](const RowView &v) {
      if (take(v.cell, v.layer))
        which[v.cell].push_back(v.layer);
    });
    if (s == d)
      return;
    if (sub == 0)
      gs[d].pg->add_particles_local(src);
    else if (sub == 1)
      gs[d].pg->add_particles_local(particle_sub_group(src));
    else {
      auto v = particle_sub_group(
          src, [=](auto ix) { return take(ix.cell, ix.layer); },
          Access::read(ParticleLoopIndex{}));
      gs[d].pg->add_particles_local(v);
    }
    J j;
    j.str("ev", "grp").str("s", s).raw("which", gather_each(J::list(which)));
    finish(j, d);
  }

  std::map<std::string, std::shared_ptr<ParticleGroupTemporary>> temps;
  void temporary() {
    std::string s = any();
    auto tg = std::make_shared<ParticleGroupTemporary>();
    auto a = tg->get(gs[s].pg);
    auto report = [&](ParticleGroupSharedPtr p) {
      long n = p->get_npart_local();
      for_rows(p, [&](const RowView &) { n++; });
      J j;
      j.str("ev", "temp").str("s", s).raw("sch", schema(p));
      j.raw("n", gather_each(std::to_string(n)));
      emit(j);
    };
    report(a);
    ParticleGroupSharedPtr b;
    const bool two = rng.chance(40);
    // used like any other group while it is held
    gs["T"].pg = a;
    gs["T"].props = gs[s].props;
    emit_set("T");
    add("T", 3);
    emit_set("T");
    if (two) {
      b = tg->get(gs[s].pg);
      report(b);
    }
    const int n = rng.in(0, 2);
    for (int i = 0; i < n; i++)
      rng.chance(50) ? descend() : copy();
    gs.erase("T");
    if (b)
      tg->restore(gs[s].pg, b);
    tg->restore(gs[s].pg, a);
    if (last_d == "T")
      last_pm = nullptr;
  }
  void dats() {
    // the group a temporary is taken from gains and loses properties
    std::string s = any();
    auto &x = gs[s];
    if (rng.chance(50) && !x.props.empty()) {
      int k = rng.below((int)x.props.size());
      auto p = x.props[k];
      x.props.erase(x.props.begin() + k);
      if (p.real)
        x.pg->remove_particle_dat(Sym<REAL>(p.name));
      else
        x.pg->remove_particle_dat(Sym<INT>(p.name));
    } else {
      auto p = rng.pick(POOL);
      for (auto &q : x.props)
        if (q.name == p.name)
          return;
      x.props.push_back(p);
      if (p.real)
        x.pg->add_particle_dat(Sym<REAL>(p.name), p.ncomp);
      else
        x.pg->add_particle_dat(Sym<INT>(p.name), p.ncomp);
      const int nc = p.ncomp;
      if (p.real)
        particle_loop(
            x.pg,
            [=](auto V) {
              for (int c = 0; c < nc; c++)
                V.at(c) = 0.5 * c;
            },
            Access::write(Sym<REAL>(p.name)))
            ->execute();
      else
        particle_loop(
            x.pg,
            [=](auto V) {
              for (int c = 0; c < nc; c++)
                V.at(c) = 3 + c;
            },
            Access::write(Sym<INT>(p.name)))
            ->execute();
    }
    if (last_d == s)
      last_pm = nullptr;
    emit_set(s);
  }
  void prune() {
    for (auto &x : gs)
      if (x.second.pg->get_npart_local() > 150)
        x.second.pg->clear();
    for (auto &x : gs)
      emit_set(x.first);
  }
};

int main(int argc, char **argv) {
  init(argc, argv);
  auto &c = ctx();
  Rng rng(c.seed);
  for (int t = 0; t < c.get("traces", 5); t++) {
    Rng mine(mix(c.seed, t, c.rank));
    int nd = rng.in(2, 3);
    std::vector<int> dims;
    dims.push_back(std::max(c.size, rng.in(2, 4)));
    for (int d = 1; d < nd; d++)
      dims.push_back(rng.in(1, 2));
    Rig g(nd, dims);
    J h;
    h.str("ev", "init").num("t", t);
    emit(h);
    T w{g, rng, mine};
    int ng = rng.in(1, 3);
    for (int i = 0; i < ng; i++)
      w.make_group(std::string(1, (char)('A' + i)));
    for (int i = 0; i < c.get("ops", 14); i++) {
      int k = rng.below(10);
      if (k < 3)
        w.products();
      else if (k < 6)
        w.descend();
      else if (k < 8)
        w.copy();
      else if (k == 8)
        w.temporary();
      else
        w.dats();
      int big = 0, any;
      for (auto &x : w.gs)
        big = std::max(big, x.second.pg->get_npart_local() > 150 ? 1 : 0);
      MPI_Allreduce(&big, &any, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
      if (any)
        w.prune();
    }
    for (auto &x : w.gs)
      x.second.pg->free();
    g.sycl_target->free();
    g.mesh->free();
  }
  nv::finish();
}
