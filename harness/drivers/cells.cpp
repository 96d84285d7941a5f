// C21: reductions, broadcasts and copies per cell, scans, values not seen yet.
#include "../rig.hpp"
#include <fstream>
#include <sstream>
using namespace nv;
// numbers are written as multiples of a quarter
static long quarter(double v) { return std::lround(v * 4); }
static long quarter(INT v) { return 4 * (long)v; }
static long quarter(int v) { return 4 * (long)v; }
template <typename C> static std::string list(const C &c) {
  J j('[');
  for (auto x : c)
    j.addn(quarter(x));
  return j.done();
}

struct World {
  Rng rng, mine;
  Rig g;
  int nx, ny;
  ParticleSubGroupSharedPtr sub[6];
  std::shared_ptr<UnseenValueExtractor> unseen;
  World(std::uint64_t seed)
      : rng(seed), mine(mix(seed, 0x21, ctx().rank)),
        g(2, {std::max(2, ctx().size), rng.in(1, 3)}, rng.below(2)) {
    nx = rng.in(1, 6), ny = rng.in(1, 4);
    auto spec = g.base_spec();
    spec.push(ParticleProp(Sym<INT>("Q"), 1));
    spec.push(ParticleProp(Sym<INT>("X"), nx));
    spec.push(ParticleProp(Sym<INT>("Z"), nx));
    spec.push(ParticleProp(Sym<REAL>("Y"), ny));
    spec.push(ParticleProp(Sym<REAL>("W"), ny));
    g.make(spec);
    g.param("LOOP_LOCAL_SIZE", rng.pick(std::vector<int>{1, 2, 3, 4, 8, 32}));
    unseen = std::make_shared<UnseenValueExtractor>(g.sycl_target);
    populate();
    J j;
    j.str("ev", "init").raw("cells", gather_each(J::integer(g.ncell)));
    emit(j.raw("rows", rows()));
    make();
  }
  double real() { return mine.in(-40, 40) * 0.25; }
  void populate() {
    g.add(occupancies(mine, g.ncell, rng.pick(std::vector<int>{1, 4, 20})),
          [&](ParticleSet &ps, int k, INT, int) {
            for (int d = 0; d < 2; d++)
              ps[Sym<REAL>("P")][k][d] =
                  mine.unit() * g.mesh->global_extents[d] * 0.999;
            ps[Sym<INT>("Q")][k][0] = mine.below(4);
            for (int c = 0; c < nx; c++) {
              ps[Sym<INT>("X")][k][c] = mine.in(-20, 20);
              ps[Sym<INT>("Z")][k][c] = -5;
            }
            for (int c = 0; c < ny; c++) {
              ps[Sym<REAL>("Y")][k][c] = real();
              ps[Sym<REAL>("W")][k][c] = -5;
            }
          });
  }
  // 0 the group, 1 even, 2 the same but static, 3 all, 4 part of 1, 5 nobody
  void make() {
    auto even = [=](auto Q) { return Q.at(0) % 2 == 0; };
    auto q = Access::read(Sym<INT>("Q"));
    sub[1] = particle_sub_group(g.pg, even, q);
    sub[2] = static_particle_sub_group(g.pg, even, q);
    sub[3] = particle_sub_group(g.pg);
    sub[4] = particle_sub_group(
        sub[1], [=](auto ID) { return ID.at(0) % 3 != 0; },
        Access::read(Sym<INT>("ID")));
    sub[5] = particle_sub_group(
        g.pg, [=](auto Q) { return Q.at(0) > 1000; }, q);
  }
  std::string rows() {
    std::vector<std::string> r;
    for_rows(g.pg, [&](const RowView &v) {
      J x('['), a('['), b('['), c('['), d('[');
      x.addn(v.integer("ID")).addn(v.cell).addn(v.integer("Q"));
      for (int k = 0; k < nx; k++)
        a.addn(quarter(v.integer("X", k))), b.addn(quarter(v.integer("Z", k)));
      for (int k = 0; k < ny; k++)
        c.addn(quarter(v.real("Y", k))), d.addn(quarter(v.real("W", k)));
      J o;
      o.num("id", v.integer("ID")).num("cell", v.cell).num("q", v.integer("Q"));
      o.raw("X", a.done()).raw("Z", b.done()).raw("Y", c.done()).raw("W", d.done());
      r.push_back(o.done());
    });
    J j('[');
    for (auto &x : r)
      j.add(x);
    return gather_each(j.done());
  }
  void change() {
    const int how = rng.below(4);
    if (how == 0) {
      sub[2].reset();
      populate();
    } else if (how == 1) {
      const int m = rng.in(2, 5);
      sub[2].reset();
      g.pg->remove_particles(particle_sub_group(
          g.pg, [=](auto ID) { return ID.at(0) % m == 0; },
          Access::read(Sym<INT>("ID"))));
    } else if (how == 2) {
      const INT nc = g.ncell, s = rng.below(9);
      sub[2].reset();
      particle_loop(
          g.pg,
          [=](auto ID, auto C) { C.at(0) = (ID.at(0) * (s + 1) + s) % nc; },
          Access::read(Sym<INT>("ID")), Access::write(Sym<INT>("CELL_ID")))
          ->execute();
      g.pg->cell_move();
    } else {
      const INT s = rng.below(97);
      const int k = nx;
      particle_loop(
          g.pg,
          [=](auto ID, auto Q, auto X) {
            Q.at(0) = (ID.at(0) * 7 + s) % 5;
            for (int c = 0; c < k; c++)
              X.at(c) = (ID.at(0) * (c + 3) + s) % 41 - 20;
          },
          Access::read(Sym<INT>("ID")), Access::write(Sym<INT>("Q")),
          Access::write(Sym<INT>("X")))
          ->execute();
    }
    g.param("LOOP_LOCAL_SIZE", rng.pick(std::vector<int>{1, 2, 3, 4, 8, 32}));
    auto keep = sub[2];
    if (how == 3 && rng.chance(70)) { // the dynamic ones must notice
      sub[2] = static_particle_sub_group(
          g.pg, [=](auto Q) { return Q.at(0) % 2 == 0; },
          Access::read(Sym<INT>("Q")));
    } else
      make();
    J j;
    j.str("ev", "world");
    emit(j.raw("rows", rows()));
  }
  template <typename F> void with(int kind, F f) {
    if (kind == 0)
      f(g.pg);
    else
      f(sub[kind]);
  }
  template <typename T> using Cdc = CellDatConstSharedPtr<T>;
  template <typename T> Cdc<T> cdc(int nr, int nc) {
    auto d = std::make_shared<CellDatConst<T>>(g.sycl_target, g.ncell, nr, nc);
    for (int c = 0; c < g.ncell; c++) {
      auto x = std::make_shared<CellDataT<T>>(g.sycl_target, nr, nc);
      for (int i = 0; i < nr; i++)
        for (int k = 0; k < nc; k++)
          x->at(i, k) = std::is_same_v<T, REAL> ? (T)real() : (T)mine.in(-30, 30);
      d->set_cell(c, x);
    }
    return d;
  }
  template <typename T> std::string show(const Cdc<T> &d) {
    J o('[');
    for (int c = 0; c < g.ncell; c++) {
      auto x = d->get_cell(c);
      J m('[');
      for (int i = 0; i < d->nrow; i++)
        for (int k = 0; k < d->ncol; k++)
          m.addn(quarter(x->at(i, k)));
      o.add(m.done());
    }
    return o.done();
  }
  template <typename T> void reduce(const char *name, int ncomp) {
    const int kind = rng.below(6), op = rng.below(3), c = rng.below(ncomp);
    const bool all = rng.chance(40);
    int nr = rng.in(1, 4), nc = rng.in(1, 4);
    if (all) { // as many elements as components
      std::vector<int> divs;
      for (int i = 1; i <= ncomp; i++)
        if (ncomp % i == 0)
          divs.push_back(i);
      nr = rng.pick(divs), nc = ncomp / nr;
    }
    const int row = rng.below(nr), col = rng.below(nc);
    auto d = cdc<T>(nr, nc);
    auto before = show(d);
    with(kind, [&](auto grp) {
      auto go = [&](auto o) {
        if (all)
          reduce_dat_components_cellwise(grp, Sym<T>(name), d, o);
        else
          reduce_dat_component_cellwise(grp, Sym<T>(name), c, d, row, col, o);
      };
      op == 0   ? go(Kernel::plus<T>())
      : op == 1 ? go(Kernel::minimum<T>())
                : go(Kernel::maximum<T>());
    });
    J j;
    j.str("ev", "reduce").num("kind", kind).num("op", op).str("name", name);
    j.num("nr", nr).num("nc", nc).num("row", row).num("col", col);
    j.num("comp", all ? -1 : c).raw("before", gather_each(before));
    emit(j.raw("after", gather_each(show(d))));
  }
  template <typename T> void npart() {
    const int kind = rng.below(6), nr = rng.in(1, 3), nc = rng.in(1, 3);
    const int row = rng.below(nr), col = rng.below(nc);
    auto d = cdc<T>(nr, nc);
    auto before = show(d);
    with(kind, [&](auto grp) { get_npart_cell(grp, d, row, col); });
    J j;
    j.str("ev", "npart").num("kind", kind).num("nr", nr).num("nc", nc);
    j.num("row", row).num("col", col).raw("before", gather_each(before));
    emit(j.raw("after", gather_each(show(d))));
  }
  template <typename T, typename V> void broadcast(const char *name, int ncomp) {
    const int kind = rng.below(6), c = rng.below(ncomp);
    std::vector<V> v(g.ncell);
    for (auto &x : v)
      x = std::is_same_v<V, REAL> && std::is_same_v<T, REAL> ? (V)real()
                                                            : (V)mine.in(-30, 30);
    with(kind, [&](auto grp) { cellwise_broadcast(grp, Sym<T>(name), c, v); });
    J j;
    j.str("ev", "broadcast").num("kind", kind).str("name", name).num("comp", c);
    j.raw("values", gather_each(list(v)));
    emit(j.raw("rows", rows()));
  }
  template <typename T> void copy(const char *from, const char *to, int ncomp) {
    const int kind = rng.pick(std::vector<int>{1, 2, 4, 5});
    auto s = sub[kind];
    Sym<T> e("E");
    s->add_ephemeral_dat(e, ncomp);
    copy_particle_dat_to_ephemeral_dat(s, Sym<T>(from), e);
    // later changes of the source are not seen
    particle_loop(
        g.pg,
        [=](auto X) {
          for (int c = 0; c < ncomp; c++)
            X.at(c) += 1;
        },
        Access::write(Sym<T>(from)))
        ->execute();
    if (s->contains_ephemeral_dat(e))
      copy_ephemeral_dat_to_particle_dat(s, e, Sym<T>(to));
    else
      MPI_Abort(MPI_COMM_WORLD, 5);
    s->remove_ephemeral_dat(e);
    J j;
    j.str("ev", "copy").num("kind", kind).str("from", from).str("to", to);
    emit(j.raw("rows", rows()));
  }
  void extract() {
    const bool eph = rng.chance(35);
    int kind = rng.below(6);
    if (eph)
      kind = rng.pick(std::vector<int>{1, 2, 4, 5});
    const bool q = !eph && rng.chance(30);
    const int c = q ? 0 : rng.below(nx);
    std::set<INT> got;
    if (eph) {
      Sym<INT> e("F");
      sub[kind]->add_ephemeral_dat(e, nx);
      copy_particle_dat_to_ephemeral_dat(sub[kind], Sym<INT>("X"), e);
      got = unseen->extract(sub[kind], e, c, true);
      sub[kind]->remove_ephemeral_dat(e);
    } else
      with(kind, [&](auto grp) {
        got = unseen->extract(grp, Sym<INT>(q ? "Q" : "X"), c, false);
      });
    J j;
    j.str("ev", "unseen").num("kind", kind).str("name", q ? "Q" : "X");
    emit(j.num("comp", c).raw("got", gather_each(list(got))));
  }
  // result = sum of coefs times arguments
  void elementwise() {
    const int nr = rng.in(1, 3), nc = rng.in(1, 4), how = rng.below(4);
    const int a = rng.in(-3, 3), b = rng.in(-3, 3), c = rng.in(-3, 3);
    auto one = [&](int i) { return how > 1 && ((how + i) & 1); };
    auto u = cdc<INT>(one(0) ? 1 : nr, one(0) ? 1 : nc);
    auto v = cdc<REAL>(one(1) ? 1 : nr, one(1) ? 1 : nc);
    auto w = cdc<int>(one(2) ? 1 : nr, one(2) ? 1 : nc);
    auto r = cdc<REAL>(nr, nc);
    auto q = cdc<INT>(nr, nc);
    auto args = [&](std::vector<std::string> x) {
      J j('[');
      for (auto &i : x)
        j.add(i);
      return gather_each(j.done());
    };
    J j;
    j.str("ev", "elements");
    if (rng.chance(60)) {
      cell_dat_const_loop_element_wise(
          r, [=](auto x, auto y, auto z) { return a * x + b * y + c * z; }, u, v,
          w);
      j.raw("coefs", J('[').addn(a).addn(b).addn(c).done());
      j.raw("args", args({show(u), show(v), show(w)}));
      emit(j.num("n", nr * nc).raw("after", gather_each(show(r))));
    } else { // in place
      auto old = show(q);
      cell_dat_const_loop_element_wise(
          q, [=](auto x, auto y) { return a * x + b * y; }, u, q);
      j.raw("coefs", J('[').addn(a).addn(b).done());
      j.raw("args", args({show(u), old}));
      emit(j.num("n", nr * nc).raw("after", gather_each(show(q))));
    }
  }
  // ------------------------------------------------------------------- arrays
  template <typename T> struct Dev {
    BufferDevice<T> b;
    SYCLTargetSharedPtr st;
    std::size_t n;
    Dev(SYCLTargetSharedPtr st, const std::vector<T> &v) : b(st, v.size() + 1), st(st), n(v.size()) {
      if (n)
        st->queue.memcpy(b.ptr, v.data(), n * sizeof(T)).wait_and_throw();
      T guard = 77;
      st->queue.memcpy(b.ptr + n, &guard, sizeof(T)).wait_and_throw();
    }
    std::vector<T> get(bool &kept) {
      std::vector<T> v(n + 1);
      st->queue.memcpy(v.data(), b.ptr, (n + 1) * sizeof(T)).wait_and_throw();
      kept = kept && v.back() == (T)77;
      v.pop_back();
      return v;
    }
  };
  template <typename T> std::vector<T> numbers(std::size_t n) {
    std::vector<T> v(n);
    for (auto &x : v)
      x = std::is_same_v<T, REAL> ? (T)real() : (T)mine.in(-9, 9);
    return v;
  }
  template <typename T> void scan(int how, int n, int local, int cu) {
    g.param("LOOP_LOCAL_SIZE", local);
    g.param("MAX_COMPUTE_UNITS", cu);
    auto v = numbers<T>(n);
    Dev<T> src(g.sycl_target, v), dst(g.sycl_target, std::vector<T>(n, -55));
    Dev<T> aux(g.sycl_target,
               std::vector<T>(get_joint_exclusive_scan_aux_array_size(g.sycl_target, n), -3));
    bool kept = true;
    auto t = g.sycl_target;
    if (how == 0)
      joint_exclusive_scan(t, n, src.b.ptr, dst.b.ptr).wait_and_throw();
    else if (how == 1)
      joint_exclusive_scan(t, n, aux.b.ptr, src.b.ptr, dst.b.ptr).wait_and_throw();
    else
      joint_exclusive_scan_blocking(t, n, src.b.ptr, dst.b.ptr);
    auto out = dst.get(kept);
    if (src.get(kept) != v)
      kept = false;
    aux.get(kept);
    J j;
    j.str("ev", "scan").num("how", how).num("local", local).num("units", cu);
    j.raw("in", gather_each(list(v))).raw("out", gather_each(list(out)));
    emit(j.raw("kept", gather_each(kept ? "true" : "false")));
  }
  template <typename T> void arrays() {
    g.param("LOOP_LOCAL_SIZE", rng.pick(std::vector<int>{1, 2, 3, 5, 16}));
    const int n = rng.below(7), how = rng.below(4), m = rng.in(0, 9);
    std::vector<T> sizes(n), offsets(n);
    int at = 0;
    for (int i = 0; i < n; i++) {
      if (how != 3)
        at += rng.chance(30) ? rng.in(1, 3) : 0;
      sizes[i] = how == 3 ? m : (rng.chance(30) ? 0 : rng.in(1, 12));
      offsets[i] = at;
      at += (int)sizes[i];
    }
    at += 2;
    auto v = numbers<T>(at);
    auto t = g.sycl_target;
    Dev<T> s(t, sizes), o(t, offsets), src(t, v), dst(t, std::vector<T>(at, -55));
    Dev<T> sums(t, std::vector<T>(n, -44));
    if (how == 0)
      joint_exclusive_scan_n(t, n, s.b.ptr, o.b.ptr, src.b.ptr, dst.b.ptr).wait_and_throw();
    else if (how == 1)
      joint_inclusive_scan_n(t, n, s.b.ptr, o.b.ptr, src.b.ptr, dst.b.ptr).wait_and_throw();
    else if (how == 2)
      joint_exclusive_scan_n_sum(t, n, s.b.ptr, o.b.ptr, src.b.ptr, dst.b.ptr,
                                 sums.b.ptr)
          .wait_and_throw();
    else
      joint_exclusive_scan_n(t, (std::size_t)n, (std::size_t)m, src.b.ptr, dst.b.ptr)
          .wait_and_throw();
    bool kept = true;
    J j;
    j.str("ev", "scans").num("how", how).raw("in", gather_each(list(v)));
    J a('['), b('[');
    for (int i = 0; i < n; i++)
      a.addn((long)sizes[i]), b.addn((long)offsets[i]);
    j.raw("sizes", a.done()).raw("offsets", b.done());
    j.raw("out", gather_each(list(dst.get(kept))));
    if (src.get(kept) != v || s.get(kept) != sizes || o.get(kept) != offsets)
      kept = false;
    j.raw("sums", gather_each(list(sums.get(kept))));
    emit(j.raw("kept", gather_each(kept ? "true" : "false")));
  }
  template <typename T> void transpose() {
    g.param("LOOP_LOCAL_SIZE", rng.pick(std::vector<int>{1, 2, 4, 16, 64}));
    const int nr = rng.chance(25) ? 1 : rng.in(1, 20), nc = rng.chance(25) ? 1 : rng.in(1, 9);
    auto v = numbers<T>(nr * nc);
    auto t = g.sycl_target;
    Dev<T> src(t, v), dst(t, std::vector<T>(nr * nc, -55));
    matrix_transpose<T>(t, nr, nc, src.b.ptr, dst.b.ptr).wait_and_throw();
    bool kept = true;
    J j;
    j.str("ev", "transpose").num("nr", nr).num("nc", nc);
    j.raw("in", gather_each(list(v))).raw("out", gather_each(list(dst.get(kept))));
    emit(j.raw("kept", gather_each(kept ? "true" : "false")));
  }
  template <typename T> void total() {
    g.param("LOOP_LOCAL_SIZE", rng.pick(std::vector<int>{1, 2, 3, 16}));
    const int n = rng.in(1, 40), op = rng.below(3);
    auto v = numbers<T>(n);
    auto t = g.sycl_target;
    Dev<T> src(t, v), dst(t, std::vector<T>(1, -55));
    auto go = [&](auto o) {
      reduce_values(t, n, src.b.ptr, o, dst.b.ptr).wait_and_throw();
    };
    op == 0   ? go(Kernel::plus<T>())
    : op == 1 ? go(Kernel::minimum<T>())
              : go(Kernel::maximum<T>());
    bool kept = true;
    J j;
    j.str("ev", "total").num("op", op).raw("in", gather_each(list(v)));
    j.raw("out", gather_each(list(dst.get(kept))));
    emit(j.raw("kept", gather_each(kept ? "true" : "false")));
  }
  void op() {
    const int what = rng.below(17);
    const bool r = rng.chance(50);
    if (what < 3)
      change();
    else if (what < 6)
      r ? reduce<REAL>("Y", ny) : reduce<INT>("X", nx);
    else if (what == 6)
      r ? npart<int>() : npart<INT>();
    else if (what == 7)
      rng.chance(50) ? (r ? broadcast<REAL, REAL>("Y", ny) : broadcast<REAL, int>("W", ny))
                     : (r ? broadcast<INT, INT>("X", nx) : broadcast<INT, int>("Z", nx));
    else if (what == 8)
      r ? copy<REAL>("Y", "W", ny) : copy<INT>("X", "Z", nx);
    else if (what < 11)
      extract();
    else if (what == 11)
      elementwise();
    else if (what == 12) {
      const int how = rng.below(3), n = rng.chance(20) ? rng.in(60, 200) : rng.in(0, 30),
                l = rng.pick(std::vector<int>{1, 2, 3, 7, 16}), cu = rng.in(1, 5);
      r ? scan<INT>(how, n, l, cu) : scan<int>(how, n, l, cu);
    } else if (what == 13)
      r ? arrays<INT>() : arrays<int>();
    else if (what == 14)
      r ? transpose<REAL>() : transpose<INT>();
    else if (what == 15)
      r ? total<REAL>() : total<INT>();
    else
      r ? reduce<INT>("X", nx) : reduce<REAL>("Y", ny);
  }
  void done() {
    for (auto &s : sub)
      s.reset();
    unseen.reset();
    g.free();
  }
};

int main(int argc, char **argv) {
  init(argc, argv);
  auto f = ctx().gets("behaviours", "");
  if (!f.empty()) { // <<length, work items, compute units>>
    std::ifstream is(f);
    std::string line;
    World w(mix(ctx().seed, 0x212));
    int part = (int)ctx().get("part", 0), parts = (int)ctx().get("parts", 1), i = 0;
    while (std::getline(is, line)) {
      if (i++ % parts != part)
        continue;
      for (char &c : line)
        if (!std::isdigit((unsigned char)c))
          c = ' ';
      std::istringstream ss(line);
      int n, l, u;
      ss >> n >> l >> u;
      i & 1 ? w.scan<INT>(1, n, l, u) : w.scan<int>(1, n, l, u);
      if (i % 3 == 0)
        w.scan<int>(2, n, l, u);
    }
    w.done();
  } else
    for (int t = 0; t < ctx().get("traces", 6); t++) {
      World w(mix(ctx().seed, t, 0x211));
      for (int i = 0; i < ctx().get("ops", 30); i++)
        w.op();
      w.done();
    }
  finish();
}
