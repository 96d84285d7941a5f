// C09: reads and writes of particle data from the host, host and device
// particle sets.
#include "../rig.hpp"
#include <limits>
using namespace nv;

struct Pr {
  std::string name;
  int ncomp;
  bool real;
};
static const std::vector<Pr> POOL = {
    {"AI", 2, false}, {"AR", 2, true},  {"BI", 1, false}, {"BR", 1, true},
    {"YI", 3, false}, {"ZR", 3, true},  {"ZI", 4, false}, {"CR", 1, true}};

struct HS {
  ParticleSetSharedPtr ps;
  std::vector<Pr> props;
};
struct DS {
  std::shared_ptr<ParticleSetDevice> ps;
  std::shared_ptr<ParticleSetDeviceSpec> spec;
  std::vector<Pr> props; // in the order of the specification
  std::map<std::string, int> index;
  std::map<std::pair<std::string, int>, std::string> def;
};

static REAL rval(std::uint64_t h) {
  switch (h % 23) {
  case 0:
    return -0.0;
  case 1:
    return std::numeric_limits<REAL>::infinity();
  case 2:
    return std::numeric_limits<REAL>::denorm_min();
  case 3:
    return 1.0 / 3.0;
  case 4:
    return -1e300;
  default:
    return ((double)(mix(h) % 100000) - 50000) / 64;
  }
}
static INT ival(std::uint64_t h) {
  switch (h % 17) {
  case 0:
    return std::numeric_limits<INT>::max();
  case 1:
    return std::numeric_limits<INT>::min();
  case 2:
    return -1;
  default:
    return (INT)(mix(h) % 100000) - 50000;
  }
}

struct T {
  Rig &g;
  Rng &rng, &mine;
  std::vector<Pr> props; // of the group
  std::map<std::string, HS> sets;
  std::map<std::string, DS> devs;
  std::map<std::string, ParticleSubGroupSharedPtr> subs;
  std::map<std::string, std::pair<int, int>> pred;
  int ns = 0;
  long ev = 0;

  ParticleSpec spec_of(const std::vector<Pr> &ps) {
    ParticleSpec s{};
    for (auto &p : ps)
      if (p.real)
        s.push(ParticleProp(Sym<REAL>(p.name), p.ncomp, p.name == "P"));
      else
        s.push(ParticleProp(Sym<INT>(p.name), p.ncomp, p.name == "CELL_ID"));
    return s;
  }
  static std::string comps(int n, std::function<std::string(int)> f) {
    J a('[');
    for (int k = 0; k < n; k++)
      a.adds(f(k));
    return a.done();
  }
  static std::string zero(const std::vector<Pr> &ps) {
    J j;
    for (auto &p : ps)
      j.raw(p.name.c_str(), comps(p.ncomp, [](int) { return "0"; }));
    return j.done();
  }
  // the group as it is
  std::string state() {
    J rs('[');
    J cs('[');
    for (int c = 0; c < g.ncell; c++) {
      std::map<std::string, CellData<REAL>> r;
      std::map<std::string, CellData<INT>> i;
      for (auto &p : props)
        if (p.real)
          r[p.name] = g.pg->get_cell(Sym<REAL>(p.name), c);
        else
          i[p.name] = g.pg->get_cell(Sym<INT>(p.name), c);
      J ls('[');
      int n = i.at("ID")->nrow;
      for (int l = 0; l < n; l++) {
        J j;
        for (auto &p : props)
          j.raw(p.name.c_str(), comps(p.ncomp, [&](int k) {
                  return p.real ? hex((*r[p.name])[k][l])
                                : hex((*i[p.name])[k][l]);
                }));
        ls.add(j.done());
      }
      cs.add(ls.done());
    }
    return gather_each(cs.done());
  }
  std::string rows(HS &h) {
    J a('[');
    int way = ev % 3;
    for (int p = 0; p < h.ps->npart; p++) {
      J j;
      for (auto &q : h.props)
        j.raw(q.name.c_str(), comps(q.ncomp, [&](int k) {
                if (q.real) {
                  Sym<REAL> s(q.name);
                  return hex(way == 0   ? h.ps->at(s, p, k)
                             : way == 1 ? (*h.ps)[s][p][k]
                                        : h.ps->get(s).at(k * h.ps->npart + p));
                }
                Sym<INT> s(q.name);
                return hex(way == 0   ? h.ps->at(s, p, k)
                           : way == 1 ? (*h.ps)[s][p][k]
                                      : h.ps->get(s).at(k * h.ps->npart + p));
              }));
      a.add(j.done());
    }
    return a.done();
  }
  std::string all_sets() {
    J j;
    for (auto &s : sets)
      j.raw(s.first.c_str(), gather_each(rows(s.second)));
    return j.done();
  }
  std::string all_devs() {
    J j;
    for (auto &d : devs) {
      HS h{d.second.ps->get(), d.second.props};
      j.raw(d.first.c_str(), gather_each(rows(h)));
    }
    return j.done();
  }
  void out(J &j) {
    emit(j);
    ev++;
  }
  std::string fresh(const char *p) { return p + std::to_string(ns++); }
  std::string pick_set() {
    std::vector<std::string> k;
    for (auto &s : sets)
      k.push_back(s.first);
    return k.empty() ? "" : rng.pick(k);
  }
  std::string pick_dev() {
    std::vector<std::string> k;
    for (auto &s : devs)
      k.push_back(s.first);
    return k.empty() ? "" : rng.pick(k);
  }
  std::vector<Pr> shuffled(std::vector<Pr> v) {
    for (int i = (int)v.size() - 1; i > 0; i--)
      std::swap(v[i], v[rng.below(i + 1)]);
    return v;
  }

  // ------------------------------------------------------------ the group
  static std::string entry(int c, int l, const Pr &p, int k,
                           const std::string &v, const char *how = "") {
    J j;
    j.num("c", c).num("l", l).str("n", p.name).num("k", k).str("v", v);
    j.str("how", how);
    return j.done();
  }
  template <typename D> std::string column(int c, const Pr &p, D d, const char *how) {
    J a('[');
    for (int l = 0; l < d->nrow; l++)
      a.add(comps(p.ncomp, [&](int k) {
        return hex(l % 2 ? d->at(l, k) : (*d)[k][l]);
      }));
    J j;
    j.num("c", c).str("n", p.name).str("how", how).raw("v", a.done());
    return j.done();
  }
  template <typename T_>
  std::string col_read(Sym<T_> s, ParticleDatSharedPtr<T_> d, int c,
                       const Pr &p, int way) {
    if (way == 0)
      return column(c, p, d->cell_dat.get_cell(c), "cell_dat.get_cell");
    if (way == 1)
      return column(c, p, g.pg->get_cell(s, c), "group.get_cell");
    EventStack es;
    CellData<T_> cd = std::make_shared<CellDataT<T_>>(
        g.sycl_target, d->cell_dat.nrow[c] + mine.below(3), p.ncomp + mine.below(2));
    d->cell_dat.get_cell_async(c, *cd, es);
    es.wait();
    CellData<T_> cut = std::make_shared<CellDataT<T_>>(g.sycl_target,
                                                      d->cell_dat.nrow[c], p.ncomp);
    for (int k = 0; k < p.ncomp; k++)
      for (int l = 0; l < cut->nrow; l++)
        cut->at(l, k) = cd->at(l, k);
    return column(c, p, cut, "get_cell_async");
  }
  template <typename T_> T_ val_read(ParticleDatSharedPtr<T_> d, int c, int l, int k, int way) {
    if (way == 0)
      return d->cell_dat.get_value(c, l, k);
    auto p = Access::direct_get(Access::read(d));
    T_ v;
    auto tq = g.sycl_target;
    BufferDeviceHost<T_> b(tq, 1);
    auto dst = b.d_buffer.ptr;
    tq->queue.parallel_for(sycl::range<1>(1), [=](auto) { dst[0] = p[c][k][l]; })
        .wait_and_throw();
    b.device_to_host();
    v = b.h_buffer.ptr[0];
    Access::direct_restore(Access::read(d), p);
    return v;
  }
  std::vector<int> occupied() {
    std::vector<int> o;
    for (int c = 0; c < g.ncell; c++)
      if (g.pg->get_npart_cell(c) > 0)
        o.push_back(c);
    return o;
  }
  void read() {
    J vs('['), cs('[');
    auto occ = occupied();
    for (int i = 0; i < 4 && !occ.empty(); i++) {
      int c = mine.pick(occ), l = mine.below(g.pg->get_npart_cell(c));
      Pr p = mine.pick(props);
      int k = mine.below(p.ncomp), way = mine.below(2);
      vs.add(entry(c, l, p, k,
                   p.real ? hex(val_read((*g.pg)[Sym<REAL>(p.name)], c, l, k, way))
                          : hex(val_read((*g.pg)[Sym<INT>(p.name)], c, l, k, way)),
                   way ? "direct_get" : "get_value"));
    }
    for (int i = 0; i < 3; i++) {
      int c = mine.below(g.ncell), way = mine.below(3);
      Pr p = mine.pick(props);
      if (p.real)
        cs.add(col_read<REAL>(Sym<REAL>(p.name), (*g.pg)[Sym<REAL>(p.name)], c, p, way));
      else
        cs.add(col_read<INT>(Sym<INT>(p.name), (*g.pg)[Sym<INT>(p.name)], c, p, way));
    }
    J j;
    j.str("ev", "read").raw("vals", gather_each(vs.done()));
    j.raw("cols", gather_each(cs.done()));
    out(j);
  }
  template <typename T_>
  void cell_write(ParticleDatSharedPtr<T_> d, int c, const Pr &p, bool async,
                  std::function<T_(std::uint64_t)> gen, J &ups) {
    int n = d->cell_dat.nrow[c];
    auto cd = std::make_shared<CellDataT<T_>>(g.sycl_target, n + mine.below(3),
                                              p.ncomp + mine.below(3));
    for (int k = 0; k < cd->ncol; k++)
      for (int l = 0; l < cd->nrow; l++) {
        T_ v = gen(mine.next());
        if ((k + l) % 2)
          cd->at(l, k) = v;
        else
          (*cd)[k][l] = v;
        if (k < p.ncomp && l < n)
          ups.add(entry(c, l, p, k, hex(v)));
      }
    if (async) {
      EventStack es;
      d->cell_dat.set_cell_async(c, *cd, es);
      es.wait();
    } else
      d->cell_dat.set_cell(c, cd);
  }
  template <typename T_>
  void direct_write(ParticleDatSharedPtr<T_> d, int c, int l, int k, T_ v) {
    auto p = Access::direct_get(Access::write(d));
    g.sycl_target->queue
        .parallel_for(sycl::range<1>(1), [=](auto) { p[c][k][l] = v; })
        .wait_and_throw();
    Access::direct_restore(Access::write(d), p);
  }
  std::vector<Pr> writable() {
    std::vector<Pr> w;
    for (auto &p : props)
      if (p.name != "ID" && p.name != "CELL_ID")
        w.push_back(p);
    return w;
  }
  void write() {
    J ups('[');
    auto occ = occupied();
    auto w = writable();
    const int way = rng.below(4);
    static const char *names[] = {"set_value", "set_cell", "set_cell_async",
                                  "direct_get"};
    if (way == 0 || way == 3) {
      int n = mine.in(1, 3);
      for (int i = 0; i < n && !occ.empty(); i++) {
        int c = mine.pick(occ), l = mine.below(g.pg->get_npart_cell(c));
        Pr p = mine.pick(w);
        int k = mine.below(p.ncomp);
        if (p.real) {
          REAL v = rval(mine.next());
          if (way == 0)
            (*g.pg)[Sym<REAL>(p.name)]->cell_dat.set_value(c, l, k, v);
          else
            direct_write<REAL>((*g.pg)[Sym<REAL>(p.name)], c, l, k, v);
          ups.add(entry(c, l, p, k, hex(v)));
        } else {
          INT v = ival(mine.next());
          if (way == 0)
            (*g.pg)[Sym<INT>(p.name)]->cell_dat.set_value(c, l, k, v);
          else
            direct_write<INT>((*g.pg)[Sym<INT>(p.name)], c, l, k, v);
          ups.add(entry(c, l, p, k, hex(v)));
        }
      }
    } else {
      int c = mine.below(g.ncell);
      Pr p = mine.pick(w);
      if (p.real)
        cell_write<REAL>((*g.pg)[Sym<REAL>(p.name)], c, p, way == 2, rval, ups);
      else
        cell_write<INT>((*g.pg)[Sym<INT>(p.name)], c, p, way == 2, ival, ups);
    }
    J j;
    j.str("ev", "write").str("how", names[way]);
    j.raw("ups", gather_each(ups.done())).raw("g", state());
    out(j);
  }
  // (cell, layer) pairs: any order, with repeats
  void choose(std::function<int(int)> count, std::vector<INT> &cs,
              std::vector<INT> &ls, J &at) {
    std::vector<int> occ;
    for (int c = 0; c < g.ncell; c++)
      if (count(c) > 0)
        occ.push_back(c);
    int n = occ.empty() ? 0 : mine.below(9);
    for (int i = 0; i < n; i++) {
      int c = mine.pick(occ), l = mine.below(count(c));
      cs.push_back(c);
      ls.push_back(l);
      at.add("[" + std::to_string(c) + "," + std::to_string(l) + "]");
    }
  }
  void get() {
    std::vector<INT> cs, ls;
    J at('[');
    choose([&](int c) { return (int)g.pg->get_npart_cell(c); }, cs, ls, at);
    std::string n = fresh("s");
    sets[n] = {g.pg->get_particles(cs, ls), props};
    J j;
    j.str("ev", "get").str("s", n).raw("at", gather_each(at.done()));
    j.raw("rows", gather_each(rows(sets[n])));
    out(j);
  }
  void sub() {
    std::string n = "g" + std::to_string(rng.below(3));
    if (!subs.count(n)) {
      int m = rng.in(2, 3), r = rng.below(m);
      int kind = rng.below(3);
      auto sel = [=](auto ID) { return ID.at(0) % m == r; };
      ParticleSubGroupSharedPtr s = particle_sub_group(
          g.pg, sel, Access::read(Sym<INT>("ID")));
      if (kind == 1)
        s = particle_sub_group(s);
      if (kind == 2)
        m = 1, r = 0, s = particle_sub_group(g.pg);
      subs[n] = s;
      pred[n] = {m, r};
    }
    auto s = subs[n];
    auto [m, r] = pred[n];
    J sel('['), rs('['), cl('[');
    std::vector<INT> cells, layers;
    if (!s->is_entire_particle_group())
      s->get_cells_layers(cells, layers);
    if (s->is_entire_particle_group()) {
      cells.clear(), layers.clear();
      for (int c = 0; c < g.ncell; c++)
        for (int l = 0; l < g.pg->get_npart_cell(c); l++)
          cells.push_back(c), layers.push_back(l);
    }
    for (std::size_t i = 0; i < cells.size(); i++)
      cl.add("[" + std::to_string(cells[i]) + "," + std::to_string(layers[i]) + "]");
    for (int c = 0; c < g.ncell; c++) {
      auto ids = g.pg->get_cell(Sym<INT>("ID"), c);
      J x('[');
      for (int l = 0; l < ids->nrow; l++)
        if (ids->at(l, 0) % m == r)
          x.addn(l);
      sel.add(x.done());
      std::vector<INT> cs, ls;
      for (int l = 0; l < s->get_npart_cell(c); l++)
        cs.push_back(c), ls.push_back(l);
      HS h{s->get_particles(cs, ls), props};
      rs.add(rows(h));
    }
    {
      J j;
      j.str("ev", "sub").str("s", n).raw("sel", gather_each(sel.done()));
      j.raw("rows", gather_each(rs.done())).raw("cl", gather_each(cl.done()));
      out(j);
    }
    std::vector<INT> cs, ls;
    J at('[');
    choose([&](int c) { return (int)s->get_npart_cell(c); }, cs, ls, at);
    std::string k = fresh("s");
    sets[k] = {s->get_particles(cs, ls), props};
    J j;
    j.str("ev", "subget").str("s", k).str("sub", n).raw("at", gather_each(at.done()));
    j.raw("rows", gather_each(rows(sets[k])));
    out(j);
  }
  // --------------------------------------------------------- host sets
  void new_set(bool for_add = false) {
    std::vector<Pr> sel;
    for (auto &p : props)
      if (p.name == "CELL_ID" || p.name == "ID" || rng.chance(65))
        sel.push_back(p);
    std::string n = fresh("s");
    int np = mine.below(8);
    HS h{std::make_shared<ParticleSet>(np, spec_of(shuffled(sel))), sel};
    sets[n] = h;
    std::string z = zero(sel);
    J j;
    j.str("ev", "new").str("s", n).raw("zero", z);
    j.raw("n", gather_each(std::to_string(np))).raw("sets", all_sets());
    out(j);
    if (for_add)
      fill(n);
  }
  static std::string sentry(int p, const Pr &q, int k, const std::string &v) {
    J j;
    j.num("p", p).str("n", q.name).num("k", k).str("v", v);
    return j.done();
  }
  int nid = 0;
  // every entry of a set gets a value; cells are valid ones
  void fill(const std::string &n) {
    HS &h = sets[n];
    J ups('[');
    for (auto &q : h.props) {
      int way = rng.below(4);
      for (int k = 0; k < q.ncomp; k++) {
        std::vector<REAL> vr;
        std::vector<INT> vi;
        for (int p = 0; p < h.ps->npart; p++) {
          REAL r = rval(mine.next());
          INT i = q.name == "CELL_ID" ? mine.below(g.ncell)
                  : q.name == "ID"    ? ctx().rank * 100000 + nid++
                                      : ival(mine.next());
          vr.push_back(r);
          vi.push_back(i);
          ups.add(sentry(p, q, k, q.real ? hex(r) : hex(i)));
        }
        if (q.real)
          put(h, Sym<REAL>(q.name), k, vr, way);
        else
          put(h, Sym<INT>(q.name), k, vi, way);
      }
    }
    J j;
    j.str("ev", "setw").str("s", n).raw("ups", gather_each(ups.done()));
    j.raw("sets", all_sets());
    out(j);
  }
  template <typename T_>
  void put(HS &h, Sym<T_> s, int k, std::vector<T_> &v, int way) {
    if (way == 0)
      h.ps->set(s, k, v);
    for (int p = 0; p < h.ps->npart; p++) {
      if (way == 1)
        h.ps->at(s, p, k) = v[p];
      if (way == 2)
        (*h.ps)[s][p][k] = v[p];
      if (way == 3)
        h.ps->get(s)[k * h.ps->npart + p] = v[p];
    }
  }
  void poke() {
    std::string n = pick_set();
    if (n.empty())
      return new_set();
    HS &h = sets[n];
    J ups('[');
    int cnt = h.ps->npart ? mine.in(1, 3) : 0;
    for (int i = 0; i < cnt; i++) {
      Pr q = mine.pick(h.props);
      if (q.name == "CELL_ID" || q.name == "ID")
        continue;
      int p = mine.below(h.ps->npart), k = mine.below(q.ncomp);
      if (q.real) {
        REAL v = rval(mine.next());
        if (i % 2)
          h.ps->at(Sym<REAL>(q.name), p, k) = v;
        else
          (*h.ps)[Sym<REAL>(q.name)][p][k] = v;
        ups.add(sentry(p, q, k, hex(v)));
      } else {
        INT v = ival(mine.next());
        if (i % 2)
          h.ps->at(Sym<INT>(q.name), p, k) = v;
        else
          (*h.ps)[Sym<INT>(q.name)][p][k] = v;
        ups.add(sentry(p, q, k, hex(v)));
      }
    }
    J j;
    j.str("ev", "setw").str("s", n).raw("ups", gather_each(ups.done()));
    j.raw("sets", all_sets());
    out(j);
  }
  // another set of the same size whose properties may differ
  void over() {
    std::string n = pick_set();
    if (n.empty())
      return;
    std::vector<Pr> sel;
    for (auto &p : props)
      if (rng.chance(60))
        sel.push_back(p);
    std::string o = fresh("s");
    int np = sets[n].ps->npart;
    sets[o] = {std::make_shared<ParticleSet>(np, spec_of(sel)), sel};
    {
      J j;
      j.str("ev", "new").str("s", o).raw("zero", zero(sel));
      j.raw("n", gather_each(std::to_string(np))).raw("sets", all_sets());
      out(j);
    }
    fill(o);
    std::string a = n, b = o;
    if (rng.chance(50))
      std::swap(a, b);
    if (rng.chance(50))
      sets[a].ps->set(sets[b].ps);
    else
      sets[a].ps->set(*sets[b].ps);
    J j;
    j.str("ev", "over").str("s", a).str("o", b).raw("sets", all_sets());
    out(j);
    drop(rng.chance(50) ? n : o);
  }
  void drop(const std::string &n) {
    sets.erase(n);
    J j;
    j.str("ev", "drop").str("s", n).raw("sets", all_sets());
    out(j);
  }
  // ------------------------------------------------------- device sets
  void dreset() {
    std::string n = rng.chance(devs.size() < 3 ? 50 : 100) ? pick_dev() : "";
    if (n.empty()) {
      n = fresh("d");
      DS d;
      for (auto &p : props)
        if (rng.chance(60))
          d.props.push_back(p);
      if (d.props.empty())
        d.props.push_back(props[0]);
      d.props = shuffled(d.props);
      auto spec = spec_of(d.props);
      if (rng.chance(30)) {
        int np = mine.below(7);
        d.ps = std::make_shared<ParticleSetDevice>(g.sycl_target, np, spec);
        d.spec = d.ps->spec;
      } else {
        d.spec = std::make_shared<ParticleSetDeviceSpec>(spec);
        d.ps = std::make_shared<ParticleSetDevice>(g.sycl_target, d.spec);
      }
      devs[n] = d;
    }
    DS &d = devs[n];
    for (auto &p : d.props)
      for (int k = 0; k < p.ncomp; k++)
        if (rng.chance(25)) {
          std::uint64_t h = rng.next();
          if (p.real)
            d.spec->set_default_value(Sym<REAL>(p.name), k, rval(h));
          else
            d.spec->set_default_value(Sym<INT>(p.name), k, ival(h));
          d.def[{p.name, k}] = p.real ? hex(rval(h)) : hex(ival(h));
        }
    int np = mine.below(9);
    d.ps->reset(np);
    J def;
    for (auto &p : d.props)
      def.raw(p.name.c_str(), comps(p.ncomp, [&](int k) {
                auto it = d.def.find({p.name, k});
                return it == d.def.end() ? std::string("0") : it->second;
              }));
    J j;
    j.str("ev", "dreset").str("s", n).raw("n", gather_each(std::to_string(np)));
    j.raw("def", def.done()).raw("devs", all_devs());
    out(j);
  }
  void dset() {
    std::string n = pick_dev();
    if (n.empty())
      return dreset();
    DS &d = devs[n];
    std::vector<Pr> sel;
    for (auto &p : props)
      if (rng.chance(60))
        sel.push_back(p);
    std::string o = fresh("s");
    int np = d.ps->num_particles;
    sets[o] = {std::make_shared<ParticleSet>(np, spec_of(sel)), sel};
    {
      J j;
      j.str("ev", "new").str("s", o).raw("zero", zero(sel));
      j.raw("n", gather_each(std::to_string(np))).raw("sets", all_sets());
      out(j);
    }
    fill(o);
    d.ps->set(sets[o].ps);
    J j;
    j.str("ev", "dset").str("s", n).str("o", o).raw("devs", all_devs());
    out(j);
    drop(o);
  }
  void dget() {
    std::string n = pick_dev();
    if (n.empty())
      return dreset();
    std::string o = fresh("s");
    sets[o] = {devs[n].ps->get(), devs[n].props};
    J j;
    j.str("ev", "dget").str("s", o).str("d", n).raw("sets", all_sets());
    out(j);
  }
  // a loop over the group: the i-th particle of the loop writes row i, or adds
  void dwrite() {
    std::string n = pick_dev();
    if (n.empty())
      return dreset();
    DS &d = devs[n];
    const int np = d.ps->num_particles;
    std::vector<Pr> reals, ints;
    for (auto &p : d.props)
      (p.real ? reals : ints).push_back(p);
    const int kr = reals.empty() ? -1 : rng.below((int)reals.size());
    const int ki = ints.empty() ? -1 : rng.below((int)ints.size());
    const int cr = kr < 0 ? 0 : rng.below(reals[kr].ncomp);
    const int ci = ki < 0 ? 0 : rng.below(ints[ki].ncomp);
    const int ir = kr < 0 ? 0 : d.ps->spec->get_sym_index(Sym<REAL>(reals[kr].name));
    const int ii = ki < 0 ? 0 : d.ps->spec->get_sym_index(Sym<INT>(ints[ki].name));
    const int shift = mine.below(np);
    const int total = g.pg->get_npart_local();
    J ups('[');
    if (rng.chance(50)) {
      particle_loop(
          g.pg,
          [=](auto ix, auto D) {
            const int i = ix.get_loop_linear_index();
            if (i < np) {
              const int row = (i + shift) % np;
              if (kr >= 0)
                D.at_real(row, ir, cr) = 0.5 + i;
              if (ki >= 0)
                D.at_int(row, ii, ci) = 7000 + i;
            }
          },
          Access::read(ParticleLoopIndex{}), Access::write(d.ps))
          ->execute();
      for (int i = 0; i < np && i < total; i++) {
        int row = (i + shift) % np;
        if (kr >= 0)
          ups.add(sentry(row, reals[kr], cr, hex(0.5 + i)));
        if (ki >= 0)
          ups.add(sentry(row, ints[ki], ci, hex((INT)(7000 + i))));
      }
    } else {
      // atomic additions that collide: row i modulo 2
      std::vector<INT> bi(np, 0);
      std::vector<REAL> br(np, 0);
      HS h{d.ps->get(), d.props};
      const int m = np < 2 ? np : 2;
      for (int p = 0; p < np; p++) {
        if (kr >= 0)
          br[p] = h.ps->at(Sym<REAL>(reals[kr].name), p, cr);
        if (ki >= 0)
          bi[p] = h.ps->at(Sym<INT>(ints[ki].name), p, ci);
      }
      // only where sums are exact
      bool okr = kr >= 0, oki = ki >= 0;
      for (int p = 0; p < m; p++) {
        okr = okr && std::abs(br[p]) < 1e6 && std::floor(br[p] * 64) == br[p] * 64;
        oki = oki && std::abs((double)bi[p]) < 1e6;
      }
      particle_loop(
          g.pg,
          [=](auto ix, auto D) {
            const int i = ix.get_loop_linear_index();
            if (m > 0) {
              if (okr)
                D.fetch_add_real(i % m, ir, cr, 0.25);
              if (oki)
                D.fetch_add_int(i % m, ii, ci, i);
            }
          },
          Access::read(ParticleLoopIndex{}), Access::add(d.ps))
          ->execute();
      if (m > 0)
        for (int i = 0; i < total; i++) {
          br[i % m] += 0.25;
          bi[i % m] += i;
        }
      for (int p = 0; p < m; p++) {
        if (okr)
          ups.add(sentry(p, reals[kr], cr, hex(br[p])));
        if (oki)
          ups.add(sentry(p, ints[ki], ci, hex(bi[p])));
      }
    }
    J j;
    j.str("ev", "dwrite").str("s", n).raw("ups", gather_each(ups.done()));
    j.raw("devs", all_devs());
    out(j);
  }
  void dread() {
    std::string n = pick_dev();
    if (n.empty())
      return dreset();
    DS &d = devs[n];
    const int np = d.ps->num_particles;
    std::vector<Pr> reals, ints, gr, gi;
    for (auto &p : d.props)
      (p.real ? reals : ints).push_back(p);
    for (auto &p : writable())
      (p.real ? gr : gi).push_back(p);
    J cp('[');
    const int shift = mine.below(np);
    auto layer_of = [&](std::function<void(int, int, int)> f) {
      int i = 0;
      for (int c = 0; c < g.ncell; c++)
        for (int l = 0; l < g.pg->get_npart_cell(c); l++)
          f(i++, c, l);
    };
    auto rec = [&](int c, int l, const Pr &t, int k, int p, const Pr &s, int sk) {
      J j;
      j.num("c", c).num("l", l).str("n", t.name).num("k", k);
      j.num("p", p).str("pn", s.name).num("pk", sk);
      cp.add(j.done());
    };
    if (!reals.empty() && !gr.empty()) {
      Pr s = rng.pick(reals), t = rng.pick(gr);
      int sk = rng.below(s.ncomp), k = rng.below(t.ncomp);
      int ix_ = d.ps->spec->get_sym_index(Sym<REAL>(s.name));
      particle_loop(
          g.pg,
          [=](auto ix, auto D, auto A) {
            const int i = ix.get_loop_linear_index();
            if (i < np)
              A.at(k) = D.at_real((i + shift) % np, ix_, sk);
          },
          Access::read(ParticleLoopIndex{}), Access::read(d.ps),
          Access::write(Sym<REAL>(t.name)))
          ->execute();
      layer_of([&](int i, int c, int l) {
        if (i < np)
          rec(c, l, t, k, (i + shift) % np, s, sk);
      });
    }
    if (!ints.empty() && !gi.empty()) {
      Pr s = rng.pick(ints), t = rng.pick(gi);
      int sk = rng.below(s.ncomp), k = rng.below(t.ncomp);
      int ix_ = d.ps->spec->get_sym_index(Sym<INT>(s.name));
      particle_loop(
          g.pg,
          [=](auto ix, auto D, auto A) {
            const int i = ix.get_loop_linear_index();
            if (i < np)
              A.at(k) = D.at_int((i + shift) % np, ix_, sk);
          },
          Access::read(ParticleLoopIndex{}), Access::read(d.ps),
          Access::write(Sym<INT>(t.name)))
          ->execute();
      layer_of([&](int i, int c, int l) {
        if (i < np)
          rec(c, l, t, k, (i + shift) % np, s, sk);
      });
    }
    J j;
    j.str("ev", "dread").str("s", n).raw("cp", gather_each(cp.done()));
    j.raw("g", state());
    out(j);
  }
  void add() {
    new_set(true);
    std::string n;
    for (auto &s : sets)
      if (s.first == "s" + std::to_string(ns - 1))
        n = s.first;
    g.pg->add_particles_local(sets[n].ps);
    J cells('[');
    for (int c = 0; c < 64; c++)
      cells.adds(hex((INT)c));
    J j;
    j.str("ev", "add").str("s", n).raw("zero", zero(props));
    j.raw("cells", cells.done()).raw("g", state());
    out(j);
    if (rng.chance(60))
      drop(n);
  }
};

static void trace(int t) {
  auto &c = ctx();
  Rng rng(mix(c.seed, 9001, t)), mine(mix(c.seed, 9002, t, c.rank + 1));
  const int ndim = rng.in(2, 3);
  std::vector<int> dims;
  dims.push_back(c.size + rng.below(2));
  for (int i = 1; i < ndim; i++)
    dims.push_back(rng.in(1, 2));
  Rig g(ndim, dims);
  T x{g, rng, mine};
  x.props = {{"P", ndim, true}, {"CELL_ID", 1, false}, {"ID", 1, false}};
  for (auto &p : POOL)
    if (rng.chance(60))
      x.props.push_back(p);
  x.props = x.shuffled(x.props);
  auto sp = x.spec_of(x.props);
  g.make(sp);
  x.props.push_back({"NESO_MPI_RANK", 2, false});
  {
    J j;
    j.str("ev", "init").raw("g", x.state());
    x.out(j);
  }
  x.add();
  const int ops = c.get("ops", 20);
  for (int i = 0; i < ops; i++) {
    switch (rng.below(13)) {
    case 0:
    case 1:
      x.read();
      break;
    case 2:
    case 3:
      x.write();
      break;
    case 4:
      x.get();
      break;
    case 5:
      x.sub();
      break;
    case 6:
      x.poke();
      break;
    case 7:
      x.over();
      break;
    case 8:
      x.dreset();
      break;
    case 9:
      rng.chance(50) ? x.dset() : x.dget();
      break;
    case 10:
      x.dwrite();
      break;
    case 11:
      x.dread();
      break;
    default:
      x.add();
    }
    while (x.sets.size() > 3)
      x.drop(x.sets.begin()->first);
  }
  x.subs.clear();
  g.free();
}

int main(int argc, char **argv) {
  init(argc, argv);
  for (int t = 0; t < ctx().get("traces", 3); t++)
    trace(t);
  finish();
  return 0;
}
